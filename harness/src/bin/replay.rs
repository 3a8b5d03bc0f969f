//! Replays recorded inputs of a harness against the real build.
//! replay HARNESS FILE   FILE: one "width value" per line
//! A phase "main" runs the executable $RSX_BIN under the fault injector.
use harness::rt::{dump, REP};

fn run_main() {
    let (args, watch) = {
        let r = REP.lock().unwrap();
        (r.args.clone(), r.watch.clone())
    };
    let faults = std::env::var("RSX_FAULTS").unwrap_or_default();
    let kinds: Vec<String> = faults.split(',').filter_map(|f| f.split(':').nth(1)).map(|s| s.to_string()).collect();
    let side = std::env::var("RSX_SIDE").unwrap();
    let mut c = std::process::Command::new(std::env::var("RSX_BIN").unwrap());
    c.args(&args[1..]).env("LD_PRELOAD", std::env::var("RSX_SHIM").unwrap()).env("RSX_ARMED", "1").env("RSX_REPORT", format!("{side}/report"));
    if let Some((p, old, new)) = watch {
        std::fs::write(format!("{side}/old"), old).unwrap();
        std::fs::write(format!("{side}/new"), new).unwrap();
        c.env("RSX_WATCH", p).env("RSX_OLD", format!("{side}/old")).env("RSX_NEW", format!("{side}/new"));
    }
    let o = c.output().unwrap();
    if std::path::Path::new(&format!("{side}/report")).exists() {
        dump();
        println!("CHECK FAILED at every instant the file is complete");
        std::process::exit(1);
    }
    eprintln!("{}", String::from_utf8_lossy(&o.stderr));
    match o.status.code() {
        Some(101) | None => std::process::exit(101),
        Some(n) => {
            let mut r = REP.lock().unwrap();
            r.exit = n;
            r.stdout = o.stdout;
            r.nfaults = kinds.len();
            r.nhard = kinds.iter().filter(|k| *k != "eintr" && *k != "short").count();
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let phases: Vec<&str> = a[1].split(',').collect();
    let t = std::fs::read_to_string(&a[2]).unwrap();
    {
        let mut r = REP.lock().unwrap();
        for l in t.lines() {
            let mut w = l.split_whitespace();
            if let (Some(x), Some(y)) = (w.next(), w.next()) {
                r.inputs.push((x.parse().unwrap(), y.parse().unwrap()));
            }
        }
    }
    for p in phases {
        if p == "main" {
            run_main();
            continue;
        }
        match harness::table().into_iter().find(|x| x.0 == p) {
            Some(x) => x.1(),
            None => {
                println!("MISMATCH no harness {p}");
                std::process::exit(4)
            }
        }
    }
    let left = {
        let r = REP.lock().unwrap();
        r.inputs.len() - r.pos
    };
    dump();
    if left != 0 {
        println!("MISMATCH {left} inputs left over");
        std::process::exit(4);
    }
    println!("DONE");
}
