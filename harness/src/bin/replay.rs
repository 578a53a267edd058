//! `replay ENTRY width:value ...`: run a harness natively on a solver's assignment.
include!(concat!(env!("OUT_DIR"), "/table.rs"));
fn main() {
    let mut a = std::env::args().skip(1);
    let n = a.next().expect("entry");
    let v = a
        .map(|x| {
            let (w, v) = x.split_once(':').unwrap();
            (w.parse().unwrap(), v.parse().unwrap())
        })
        .collect();
    let Some((_, f)) = TABLE.iter().find(|e| e.0 == n) else {
        println!("VSYM-DIVERGED no entry {n}");
        std::process::exit(43)
    };
    vsym::load(v);
    f();
    println!("VSYM-DONE");
}
