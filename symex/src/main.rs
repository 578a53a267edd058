//! symex: explore every path of the given entry functions of a closed LLVM module, deciding
//! branches and assertions with Z3.
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Default, Clone)]
struct Agg {
    paths: u64,
    done: u64,
    pruned: u64,
    forks: u64,
    insns: u64,
    queries: u64,
    sat: u64,
    unsat: u64,
    unknown: u64,
    solver_s: f64,
    cache_hits: u64,
    max_conc: u32,
    max_syms: usize,
    max_steps: u64,
    checks: BTreeMap<String, u64>,
    witnesses: BTreeMap<String, u64>,
    funcs: BTreeSet<u32>,
    violations: Vec<(String, Rep)>,
    nviol: u64,
    errors: Vec<(String, Rep)>,
    nerr: u64,
    samples: Vec<(String, Rep)>,
    unfinished: bool,
    secs: f64,
}
#[derive(Clone)]
struct Rep {
    values: Vec<(u16, u128, String)>,
    stack: Vec<String>,
}
impl From<Report> for Rep {
    fn from(r: Report) -> Rep {
        Rep { values: r.values, stack: r.stack }
    }
}

struct Job {
    entry: usize,
    prefix: Vec<Dec>,
}
struct Shared {
    q: Mutex<(VecDeque<Job>, usize)>, // jobs, busy workers
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    agg: Mutex<Vec<Agg>>,
    live: Vec<AtomicUsize>, // jobs queued or running per entry
    dead: Vec<AtomicBool>,  // no longer explored
}

fn js(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(r, "\\u{:04x}", c as u32);
            }
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

fn main() {
    let mut file = None;
    let mut entries: Vec<String> = vec![];
    let mut workers = 8usize;
    let mut timeout_ms = 30_000u32;
    let mut max_secs = 600.0f64;
    let mut steps = 50_000_000u64;
    let mut conc = 64u32;
    let mut out = None;
    let mut max_viol = 1u64;
    let mut dump: Option<String> = None;
    let mut verbose = false;
    let mut dump_every = 50u32;
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().expect("value");
        match a.as_str() {
            "--entry" => entries.push(v()),
            "--workers" => workers = v().parse().unwrap(),
            "--timeout-ms" => timeout_ms = v().parse().unwrap(),
            "--max-secs" => max_secs = v().parse().unwrap(),
            "--steps" => steps = v().parse().unwrap(),
            "--conc" => conc = v().parse().unwrap(),
            "--out" => out = Some(v()),
            "--max-viol" => max_viol = v().parse().unwrap(),
            "--dump" => dump = Some(v()),
            "--dump-every" => dump_every = v().parse().unwrap(),
            "-v" => verbose = true,
            _ => file = Some(a),
        }
    }
    let file = file.expect("module file");
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("read module");
    let module = match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("symex: cannot read the module: {e:?}");
            std::process::exit(3);
        }
    };
    drop(text);
    let module: &'static ir::Module = Box::leak(Box::new(module));
    let parse_s = t0.elapsed().as_secs_f64();
    let mut eids = vec![];
    for e in &entries {
        match module.fidx.get(e.as_str()) {
            Some(i) => eids.push(*i),
            None => {
                eprintln!("symex: no function {e}");
                std::process::exit(3);
            }
        }
    }
    let n = entries.len();
    let sh = Arc::new(Shared {
        q: Mutex::new(((0..n).map(|entry| Job { entry, prefix: vec![] }).collect(), 0)),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        agg: Mutex::new(vec![Agg::default(); n]),
        live: (0..n).map(|_| AtomicUsize::new(1)).collect(),
        dead: (0..n).map(|_| AtomicBool::new(false)).collect(),
    });
    let t1 = Instant::now();
    let hs: Vec<_> = (0..workers)
        .map(|wi| {
            let sh = sh.clone();
            let eids = eids.clone();
            let dump = dump.clone();
            let names = entries.clone();
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || worker(wi, sh, module, eids, names, timeout_ms, steps, conc, max_viol, t1, max_secs, dump, dump_every, verbose))
                .unwrap()
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            eprintln!("symex: a worker failed");
            std::process::exit(3);
        }
    }
    let agg = sh.agg.lock().unwrap();
    let mut o = String::new();
    let _ = write!(o, "{{\"solver\":{},\"parse_s\":{:.2},\"wall_s\":{:.2},\"entries\":[", js(&z3::version()), parse_s, t1.elapsed().as_secs_f64());
    for (i, a) in agg.iter().enumerate() {
        let mut a = a.clone();
        a.unfinished |= sh.live[i].load(Ordering::SeqCst) > 0 && !sh.dead[i].load(Ordering::SeqCst);
        if i > 0 {
            o.push(',');
        }
        let map = |m: &BTreeMap<String, u64>| {
            m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")
        };
        let reps = |v: &Vec<(String, Rep)>| {
            v.iter()
                .map(|(m, r)| {
                    format!(
                        "{{\"msg\":{},\"values\":[{}],\"stack\":[{}]}}",
                        js(m),
                        r.values.iter().map(|(w, v, n)| format!("[{},{},{}]", js(n), w, v)).collect::<Vec<_>>().join(","),
                        r.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect::<Vec<_>>()
                .join(",")
        };
        let funcs: Vec<String> = a.funcs.iter().map(|f| js(&module.funcs[*f as usize].name)).collect();
        let _ = write!(
            o,
            "\n{{\"entry\":{},\"paths\":{},\"done\":{},\"pruned\":{},\"forks\":{},\"insns\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"cache_hits\":{},\"max_conc\":{},\"max_syms\":{},\"max_steps\":{},\"unfinished\":{},\"nviol\":{},\"nerr\":{},\"checks\":{{{}}},\"witnesses\":{{{}}},\"violations\":[{}],\"errors\":[{}],\"samples\":[{}],\"cpu_s\":{:.2},\"funcs\":[{}]}}",
            js(&entries[i]), a.paths, a.done, a.pruned, a.forks, a.insns, a.queries, a.sat, a.unsat, a.unknown, a.solver_s,
            a.cache_hits, a.max_conc, a.max_syms, a.max_steps, a.unfinished, a.nviol, a.nerr, map(&a.checks), map(&a.witnesses),
            reps(&a.violations), reps(&a.errors), reps(&a.samples), a.secs, funcs.join(",")
        );
    }
    o.push_str("\n]}\n");
    match out {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{o}"),
    }
    for (i, a) in agg.iter().enumerate() {
        eprintln!(
            "{}: paths {} (pruned {}) forks {} insns {} queries {} ({:.1}s) viol {} err {} cpu {:.1}s{}",
            entries[i], a.paths, a.pruned, a.forks, a.insns, a.queries, a.solver_s, a.nviol, a.nerr, a.secs,
            if sh.live[i].load(Ordering::SeqCst) > 0 { " UNFINISHED" } else { "" }
        );
    }
    std::process::exit(0); // skip tearing down
}

#[allow(clippy::too_many_arguments)]
fn worker(
    wi: usize,
    sh: Arc<Shared>,
    module: &'static ir::Module,
    eids: Vec<u32>,
    names: Vec<String>,
    timeout_ms: u32,
    steps: u64,
    conc: u32,
    max_viol: u64,
    t0: Instant,
    max_secs: f64,
    dump: Option<String>,
    dump_every: u32,
    verbose: bool,
) {
    let mk = || {
        let mut ex = Exec::new(module, timeout_ms, Limits { steps, conc });
        if let Some(d) = &dump {
            ex.z.dump = Some((d.into(), 0, dump_every));
            ex.z.wid = wi;
        }
        ex
    };
    let mut ex: Option<(usize, Exec)> = None;
    loop {
        // next job
        let job = {
            let mut g = sh.q.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::SeqCst) {
                    return;
                }
                if let Some(j) = g.0.pop_front() {
                    g.1 += 1;
                    break j;
                }
                if g.1 == 0 {
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    return;
                }
                sh.idle.fetch_add(1, Ordering::SeqCst);
                g = sh.cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                sh.idle.fetch_sub(1, Ordering::SeqCst);
            }
        };
        let ei = job.entry;
        let ts = Instant::now();
        // an executor is kept between jobs of one entry
        let mut e = match ex.take() {
            Some((i, e)) if i == ei && e.ar.len() < 4_000_000 => e,
            _ => mk(),
        };
        let base = e.counters();
        let mut a = Agg::default();
        if !sh.dead[ei].load(Ordering::SeqCst) {
            let first = e.start(eids[ei], job.prefix);
            e.pending.push(first);
            let mut stopped = false;
            while let Some(mut st) = e.pending.pop() {
                if sh.dead[ei].load(Ordering::SeqCst) {
                    stopped = true;
                    break;
                }
                if t0.elapsed().as_secs_f64() > max_secs {
                    sh.stop.store(true, Ordering::SeqCst);
                    sh.cv.notify_all();
                    stopped = true;
                    a.unfinished = true;
                    break;
                }
                // share work
                if sh.idle.load(Ordering::Relaxed) > 0 && !e.pending.is_empty() {
                    let mut g = sh.q.lock().unwrap();
                    while g.0.len() < sh.idle.load(Ordering::Relaxed) && !e.pending.is_empty() {
                        let p = e.pending.remove(0);
                        sh.live[ei].fetch_add(1, Ordering::SeqCst);
                        g.0.push_back(Job { entry: ei, prefix: p.trace });
                    }
                    drop(g);
                    sh.cv.notify_all();
                }
                let r = e.run(&mut st);
                a.paths += 1;
                a.max_syms = a.max_syms.max(st.syms.len());
                a.max_steps = a.max_steps.max(st.steps);
                match r {
                    Stop::Done => {
                        a.done += 1;
                        if a.samples.is_empty() {
                            a.samples.push(("path".into(), e.report(&st, "path", String::new()).into()));
                        }
                    }
                    Stop::Pruned => a.pruned += 1,
                    Stop::Violation(m) => {
                        a.nviol += 1;
                        if verbose {
                            eprintln!("violation in {}: {m}", names[ei]);
                        }
                        let r: Rep = e.report(&st, "violation", m.clone()).into();
                        if a.violations.iter().filter(|v| v.0 == m).count() < 3 {
                            a.violations.push((m, r));
                        }
                        let mut g = sh.agg.lock().unwrap();
                        g[ei].nviol += 1;
                        if g[ei].nviol >= max_viol {
                            sh.dead[ei].store(true, Ordering::SeqCst);
                        }
                    }
                    Stop::Error(m) => {
                        a.nerr += 1;
                        if verbose {
                            eprintln!("error in {}: {m}", names[ei]);
                        }
                        let r: Rep = e.report(&st, "error", m.clone()).into();
                        if a.errors.len() < 3 {
                            a.errors.push((m, r));
                        }
                        let mut g = sh.agg.lock().unwrap();
                        g[ei].nerr += 1;
                        if g[ei].nerr >= 20 {
                            sh.dead[ei].store(true, Ordering::SeqCst);
                        }
                    }
                }
            }
            if stopped {
                e.pending.clear();
            }
        }
        a.secs = ts.elapsed().as_secs_f64();
        let now = e.counters();
        a.insns = now.insns - base.insns;
        a.queries = now.queries - base.queries;
        a.sat = now.sat - base.sat;
        a.unsat = now.unsat - base.unsat;
        a.unknown = now.unknown - base.unknown;
        a.solver_s = now.solver_s - base.solver_s;
        a.cache_hits = now.cache_hits - base.cache_hits;
        a.forks = now.forks - base.forks;
        if e.prof_on {
            let mut v: Vec<_> = e.prof.drain().collect();
            v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
            for (k, (n, t)) in v.iter().take(25) {
                eprintln!("{n:6} {t:8.3}s {}", k.chars().take(420).collect::<String>());
            }
        }
        a.max_conc = e.max_conc;
        a.checks = std::mem::take(&mut e.checks);
        a.witnesses = e.take_witnesses();
        a.funcs = e.take_seen().into_iter().collect();
        for s in e.samples.drain(..) {
            a.samples.push((format!("witness {}", s.msg), s.into()));
        }
        {
            let mut g = sh.agg.lock().unwrap();
            let t = &mut g[ei];
            t.paths += a.paths;
            t.done += a.done;
            t.pruned += a.pruned;
            t.forks += a.forks;
            t.insns += a.insns;
            t.queries += a.queries;
            t.sat += a.sat;
            t.unsat += a.unsat;
            t.unknown += a.unknown;
            t.solver_s += a.solver_s;
            t.cache_hits += a.cache_hits;
            t.max_conc = t.max_conc.max(a.max_conc);
            t.max_syms = t.max_syms.max(a.max_syms);
            t.max_steps = t.max_steps.max(a.max_steps);
            t.secs += a.secs;
            t.unfinished |= a.unfinished;
            for (k, v) in a.checks {
                *t.checks.entry(k).or_insert(0) += v;
            }
            for (k, v) in a.witnesses {
                *t.witnesses.entry(k).or_insert(0) += v;
            }
            t.funcs.extend(a.funcs);
            for v in a.violations {
                if t.violations.len() < 8 {
                    t.violations.push(v);
                }
            }
            for v in a.errors {
                if t.errors.len() < 4 {
                    t.errors.push(v);
                }
            }
            for v in a.samples {
                if t.samples.len() < 4 {
                    t.samples.push(v);
                }
            }
        }
        sh.live[ei].fetch_sub(1, Ordering::SeqCst);
        ex = Some((ei, e));
        let mut g = sh.q.lock().unwrap();
        g.1 -= 1;
        drop(g);
        sh.cv.notify_all();
    }
}
