//! `replay HARNESS VALUES`: runs one harness natively on the values of a counterexample.
//! Exit 101: the property fails (or the library panics) on these values. 0: it holds. 77: values rejected.
#[cfg(not(any(kani, feature = "sym")))]
fn main() {
    let mut args = std::env::args().skip(1);
    let name = args.next().expect("harness");
    if name == "--list" {
        ck::harnesses().iter().for_each(|(n, _)| println!("{n}"));
        return;
    }
    let values = std::fs::read_to_string(args.next().expect("values file")).unwrap();
    let (_, f) = ck::harnesses().into_iter().find(|(n, _)| *n == name).expect("unknown harness");
    ck::nd::load(&values);
    f();
    ck::nd::finish();
    println!("REPLAY-OK");
}
#[cfg(any(kani, feature = "sym"))]
fn main() {}
