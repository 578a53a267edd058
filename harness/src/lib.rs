#![allow(clippy::all)]
/// An entry point of the symbolic executor (and, natively, of the replay program).
#[macro_export]
macro_rules! entry {
    ($n:ident, $e:expr) => {
        #[no_mangle]
        pub extern "C" fn $n() {
            $e
        }
    };
}
pub mod monitor;
pub mod ops;
pub mod world;
pub mod c04;
pub mod c08;
pub mod c09;
pub mod c24;
pub mod sched;
pub mod c16;
pub mod c12;
pub mod c25;
pub mod c13;
pub mod c14;
pub mod c01;
pub mod c02;
pub mod c03;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c10;
pub mod c11;
pub mod c15;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod pair;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
