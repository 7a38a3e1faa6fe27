mod contracts; mod db; mod elim; mod emit; mod ex; mod hoist; mod norm; mod serde; mod tr; mod ty;
fn main() {
    let mut a = std::env::args().skip(1);
    let mut o = emit::Opts::default();
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("argument value");
        match x.as_str() {
            "--repo" => o.repo = v(),
            "--spec" => o.spec = v(),
            "--slice" => o.slice = v(),
            "--out" => o.out = v(),
            "--map" => o.map = v(),
            "--only" => o.only = Some(v()),
            "--try-all" => o.try_all = true,
            "--vacuity" => o.vacuity = true,
            _ => panic!("unknown option {x}"),
        }
    }
    match emit::run(&o) {
        Ok(()) => {}
        Err(e) => {
            eprintln!("EXTRACTION-FAILED: {e}");
            std::process::exit(3);
        }
    }
}
