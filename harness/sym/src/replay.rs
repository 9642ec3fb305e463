//! replay --list | replay HARNESS VALUES: runs one harness on the given values against the real code.
fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "--list" {
        for (n, _, w) in sy::all() {
            println!("{n}\t{}", w.join("\t"));
        }
        return;
    }
    let Some((_, f, _)) = sy::all().into_iter().find(|(n, ..)| *n == args[1]) else {
        eprintln!("no harness {}", args[1]);
        std::process::exit(2);
    };
    #[cfg(not(feature = "sym"))]
    {
        let text = std::fs::read_to_string(&args[2]).expect("values");
        sy::rt::load(
            text.lines()
                .filter(|l| !l.starts_with('#'))
                .flat_map(|l| l.split_whitespace())
                .map(|w| w.parse().expect("value"))
                .collect(),
        );
    }
    f();
    #[cfg(not(feature = "sym"))]
    sy::rt::finish();
}
