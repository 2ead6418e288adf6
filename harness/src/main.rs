mod checks;
mod gen;
mod guided;
mod model;
mod normtab;
mod rng;
mod run;
mod subj;
mod tools;

#[global_allocator]
static ALLOC: tools::Counting = tools::Counting;

fn load_dict(path: &str) {
    let Ok(s) = std::fs::read_to_string(path) else { return };
    let mut d = gen::Dict::default();
    for l in s.lines() {
        match l.split_once(' ') {
            Some(("i", v)) => match v.parse::<usize>() {
                Ok(v) if v <= 5000 => d.ints.push(v),
                Ok(v) => d.bigs.push(v),
                Err(_) => {},
            },
            Some(("c", v)) => {
                d.chars.extend(u32::from_str_radix(v, 16).ok().and_then(char::from_u32))
            },
            _ => {},
        }
    }
    gen::set_dict(d);
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str| get(k).and_then(|v| v.parse::<u64>().ok());
    subj::install_hook();
    if let Some(d) = get("--dict") {
        load_dict(&d);
    }
    let cmd = args.get(1).map(String::as_str).unwrap_or("");
    let code = match cmd {
        "check" | "guided" => {
            let id = get("--id").expect("--id");
            let thorough = get("--tier").as_deref() == Some("thorough");
            let c = checks::CHECKS.iter().find(|c| c.id == id).expect("unknown check");
            let opts = run::Opts {
                check: id,
                seed: num("--seed").unwrap_or(1),
                cases: num("--cases").unwrap_or(if thorough { c.thorough } else { c.quick }),
                threads: num("--threads").unwrap_or(8) as usize,
                out: get("--out").unwrap_or_else(|| "/dev/null".into()),
                thorough,
                only: num("--only"),
                cpu_limit: num("--cpu-limit").unwrap_or(60),
                max_seconds: num("--max-seconds").unwrap_or(600),
            };
            if let Some(draws) = get("--draws") {
                guided::replay(c.f, &opts, &draws)
            } else if cmd == "guided" {
                guided::run(c.f, &opts)
            } else {
                run::run(c.f, &opts)
            }
        },
        // Without threads, files or clocks: for interpreters.
        "serial" => {
            let id = get("--id").expect("--id");
            let c = checks::CHECKS.iter().find(|c| c.id == id).expect("unknown check");
            tools::set_tiny();
            run::serial(
                c.f,
                &id,
                num("--seed").unwrap_or(1),
                num("--from").unwrap_or(0),
                num("--to").unwrap_or(10),
            )
        },
        "work" => {
            tools::work(&get("--w").expect("--w"), num("--n").unwrap_or(0) as usize)
        },
        _ => {
            eprintln!("usage: normmon check --id ID [--tier T] [--seed N] [--cases N] [--out F]");
            2
        },
    };
    std::process::exit(code);
}
