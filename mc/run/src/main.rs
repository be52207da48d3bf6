//! mc-run <property> [--tier quick|thorough] [--threads N] [--out FILE] [--trace FILE] [--hang SECS] [--timing] [--first] [--shard I/N]
//! mc-run <property> --only JOB CASE | --dump JOB CASE
mod bind;
use mc_core::engine::*;
use mc_core::mem::CountAlloc;
use mc_core::props;
use mc_core::sut::Sut;
use std::io::Write;

#[global_allocator]
static ALLOC: CountAlloc = CountAlloc;

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn suts() -> Vec<Box<dyn Sut>> {
    vec![Box::new(bind::default::It), Box::new(bind::cow::It), Box::new(bind::boxed::It), Box::new(bind::binary::It)]
}

/// One decode (and encode) in a process without a past; the frame comes by standard input.
fn fresh(cfg: &str, encode: bool) {
    let mut frame = vec![];
    std::io::Read::read_to_end(&mut std::io::stdin(), &mut frame).expect("frame");
    let sut = &suts()[cfg.parse::<usize>().expect("configuration")];
    print!("{}", mc_core::hist::fresh(&**sut, encode, &frame));
    let _ = std::io::stdout().flush();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (mut enough, mut shard) = (2000, (0, 1));
    let mut it = args.iter().skip(1);
    let prop = it.next().expect("property").clone();
    if prop == "--fresh" {
        return fresh(&args[2], args[3] == "encode");
    }
    if prop == "--first" {
        install_hook();
        let n = |i: usize| args[i].parse::<u32>().expect("number");
        let s = suts();
        print!("{}", mc_core::conc::first_child(&*s[n(2) as usize], n(3) as usize, n(4)));
        let _ = std::io::stdout().flush();
        return;
    }
    let (mut tier, mut threads, mut out, mut trace, mut hang, mut timing, mut mode) =
        (Tier::Quick, 8usize, None::<String>, None::<String>, 60u64, false, None::<(bool, usize, u64)>);
    while let Some(a) = it.next() {
        let mut val = || it.next().expect("argument").clone();
        match a.as_str() {
            "--tier" => tier = if val() == "thorough" { Tier::Thorough } else { Tier::Quick },
            "--threads" => threads = val().parse().expect("number"),
            "--out" => out = Some(val()),
            "--trace" => trace = Some(val()),
            "--hang" => hang = val().parse().expect("number"),
            "--timing" => timing = true,
            "--first" => enough = 1,
            "--shard" => {
                let v = val();
                let (i, n) = v.split_once('/').expect("i/n");
                shard = (i.parse().expect("number"), n.parse().expect("number"));
            }
            "--only" | "--dump" => {
                let only = a == "--only";
                mode = Some((only, val().parse().expect("number"), val().parse().expect("number")));
            }
            _ => panic!("unknown argument {a}"),
        }
    }
    install_hook();
    let suts = suts();
    let jobs = props::jobs(&prop, tier);
    assert!(!jobs.is_empty(), "unknown property {prop}");
    if let Some((only, job, case)) = mode {
        let m = if only { Mode::Only(case) } else { Mode::Dump(case) };
        let (d, v) = single(&suts, tier, &jobs, job, m);
        println!("job {job}: {}", jobs[job].name);
        println!("case {case}: {}", d.unwrap_or("(no such case)".into()));
        for x in &v {
            println!("VIOLATED [{}] {}", x.sig, x.msg);
        }
        if only && v.is_empty() {
            println!("holds");
        }
        std::process::exit(if v.is_empty() { 0 } else { 1 });
    }
    let write = |s: String| match &out {
        Some(p) => std::fs::write(p, s).expect("write"),
        None => println!("{s}"),
    };
    let o = Opts {
        threads: props::threads(&prop, threads),
        trace: trace.map(|p| std::fs::File::create(p).expect("trace file")),
        hang_secs: hang,
        timing,
        enough,
        shard,
    };
    let on_hang = |job: usize, case: u64| {
        // the stuck thread cannot be stopped; describe the case from here and leave
        write(format!("{{\"hang\": {{\"job\": {job}, \"case\": {case}, \"name\": {}}}}}", js(&jobs[job].name)));
        let _ = std::io::stdout().flush();
        std::process::exit(3);
    };
    let t = std::time::Instant::now();
    let r = run(&suts, tier, &jobs, &o, &on_hang);
    let mut s = String::new();
    s.push_str(&format!(
        "{{\"property\": {}, \"jobs\": {}, \"cases\": {}, \"calls\": {}, \"states\": {}, \"transitions\": {}, \"truncated\": {}, \"secs\": {:.3}, ",
        js(&prop),
        jobs.len(),
        r.cases,
        r.calls,
        r.states,
        r.transitions,
        r.truncated,
        t.elapsed().as_secs_f64()
    ));
    s.push_str("\"outcomes\": {");
    s.push_str(&r.outcomes.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    s.push_str("}, \"configurations\": {");
    s.push_str(&r.by_cfg.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "));
    s.push_str("}, \"spaces\": [");
    s.push_str(
        &r.spaces
            .iter()
            .map(|(k, (n, c, x))| {
                format!(
                    "{{\"space\": {}, \"jobs\": {n}, \"cases\": {c}, \"samples\": [{}]}}",
                    js(k),
                    x.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")
                )
            })
            .collect::<Vec<_>>()
            .join(", "),
    );
    s.push_str("], \"violations\": [");
    // one per signature and configuration, with their number
    let mut by: std::collections::BTreeMap<(String, usize), (usize, Viol)> = Default::default();
    for v in &r.viol {
        let e = by.entry((v.sig.clone(), jobs[v.job].cfg)).or_insert((0, v.clone()));
        e.0 += 1;
    }
    s.push_str(
        &by.iter()
            .map(|((sig, cfg), (n, v))| {
                let short = |x: &str| x.chars().take(3000).collect::<String>();
                format!(
                    "{{\"sig\": {}, \"config\": {}, \"count\": {n}, \"job\": {}, \"job_name\": {}, \"case\": {}, \"what\": {}, \"case_text\": {}}}",
                    js(sig),
                    js(suts[*cfg].name()),
                    v.job,
                    js(&jobs[v.job].name),
                    v.case,
                    js(&short(&v.msg)),
                    js(&short(&v.desc))
                )
            })
            .collect::<Vec<_>>()
            .join(", "),
    );
    s.push_str("]}");
    if timing {
        let mut sl = r.slow.clone();
        sl.sort_by(|a, b| b.0.total_cmp(&a.0));
        for (t, n) in sl.iter().take(25) {
            eprintln!("{t:8.3} s  {n}");
        }
    }
    write(s);
    std::process::exit(if r.viol.is_empty() { 0 } else { 1 });
}
