mod decode;
mod exec;
mod expr;
mod llvm;
mod mem;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) }
    }
    o.push('"');
    o
}

struct Opt { bc: String, entry: String, out: String, solver: Vec<String>, log: Option<String>, timeout: u32, serve: bool, cfg: exec::Cfg }

fn options(mut a: impl Iterator<Item = String>) -> Opt {
    let mut o = Opt {
        bc: String::new(), entry: String::new(), out: String::new(), solver: vec!["z3".to_string(), "-in".to_string()], log: None, timeout: 20000, serve: false,
        cfg: exec::Cfg { max_steps: 5_000_000, max_depth: 3000, max_violations: 4, max_traces: 64, params: vec![], max_secs: 600.0, max_paths: 10_000_000, fix: Default::default() },
    };
    while let Some(k) = a.next() {
        let mut v = || a.next().expect("value");
        match k.as_str() {
            "--serve" => o.serve = true,
            "--bc" => o.bc = v(), "--entry" => o.entry = v(), "--out" => o.out = v(),
            "--solver" => o.solver = v().split_whitespace().map(String::from).collect(),
            "--log" => o.log = Some(v()),
            "--timeout" => o.timeout = v().parse().unwrap(),
            "--max-steps" => o.cfg.max_steps = v().parse().unwrap(),
            "--max-depth" => o.cfg.max_depth = v().parse().unwrap(),
            "--max-secs" => o.cfg.max_secs = v().parse().unwrap(),
            "--max-paths" => o.cfg.max_paths = v().parse().unwrap(),
            "--max-traces" => o.cfg.max_traces = v().parse().unwrap(),
            "--max-violations" => o.cfg.max_violations = v().parse().unwrap(),
            "--param" => o.cfg.params = v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--fix" => for t in v().split(';').filter(|s| !s.is_empty()) {
                // constant:values, the constant's bytes and the values comma separated
                let (a, b) = t.split_once(':').unwrap();
                o.cfg.fix.insert(a.split(',').map(|x| x.parse().unwrap()).collect(), b.split(',').map(|x| x.parse().unwrap()).collect());
            },
            k => { eprintln!("unknown option {}", k); std::process::exit(2) }
        }
    }
    o
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
}

fn main() {
    let o = options(std::env::args().skip(1));
    let m = match llvm::load(&o.bc) { Ok(m) => m, Err(e) => { eprintln!("{}", e); std::process::exit(2) } };
    let d = decode::Decoder::new(m);
    if !o.serve {
        std::process::exit(explore(d, o));
    }
    // one line of options per run, tab separated; each is run in a child, so that the module is read only once
    let mut line = String::new();
    while std::io::stdin().read_line(&mut line).unwrap_or(0) > 0 {
        let pid = unsafe { fork() };
        if pid == 0 {
            let o = options(line.trim_end().split('\t').map(String::from));
            std::process::exit(explore(d, o));
        }
        let mut st = 0;
        unsafe { waitpid(pid, &mut st, 0) };
        println!("\u{1}{}", st);
        line.clear();
    }
}

fn explore(d: decode::Decoder, o: Opt) -> i32 {
    let Opt { entry, out, solver, log, timeout, cfg, .. } = o;
    let t0 = std::time::Instant::now();
    let s = match expr::Solver::new(&solver, timeout, log.as_deref()) { Ok(s) => s, Err(e) => { eprintln!("{}", e); return 2 } };
    let mut e = exec::Engine::new(d, s, cfg);
    let r = e.run(&entry);
    let mut o = String::new();
    let _ = write!(o, "{{\"entry\":{},\"complete\":{},\"error\":{},", js(&entry), r.is_ok() && e.violations.is_empty(), match &r { Ok(()) => "null".into(), Err(m) => js(m) });
    let _ = write!(o, "\"paths\":{},\"killed\":{},\"instructions\":{},\"forks\":{},\"asserts\":{},\"allowed_panics\":{},\"longest_path\":{},\"max_depth\":{},\"uninit_checks\":{},",
        e.st.paths, e.st.killed, e.st.instrs, e.st.forks, e.st.asserts, e.st.panicked_ok, e.st.max_steps, e.st.max_depth, e.st.uninit_checks);
    let _ = write!(o, "\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"solver_seconds\":{:.3},\"seconds\":{:.3},\"terms\":{},", e.s.queries, e.s.sat, e.s.unsat, e.s.cached, e.s.secs, t0.elapsed().as_secs_f64(), e.x.nodes.len());
    let _ = write!(o, "\"covers\":{{{}}},", e.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"patterns\":[{}],", e.patterns.iter().map(|(t, i, n)| format!("[{:?},{},{}]", t, i, n)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"stubs\":{{{}}},", e.stubbed.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let mut fs: Vec<String> = vec![];
    for (f, b) in &e.visited { let n = e.d.fns[*f as usize].body.as_ref().map(|b| b.blocks.len()).unwrap_or(0); fs.push(format!("[{},{},{}]", js(&e.d.fns[*f as usize].name), b.len(), n)); }
    fs.sort();
    let _ = write!(o, "\"functions\":[{}],", fs.join(","));
    let nums = |v: &Vec<u128>| v.iter().map(|x| format!("{}", *x as u64)).collect::<Vec<_>>().join(",");
    let _ = write!(o, "\"traces\":[{}],", e.traces.iter().map(|t| format!("{{\"in\":[{}],\"obs\":[{}],\"panics\":{}}}", nums(&t.inputs), t.observed.iter().map(|x| if *x == u128::MAX { "null".into() } else { format!("{}", *x as u64) }).collect::<Vec<_>>().join(","), t.panics)).collect::<Vec<_>>().join(","));
    let _ = write!(o, "\"violations\":[{}]}}", e.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"in\":[{}],\"stack\":[{}],\"path\":{}}}", js(&v.kind), js(&v.msg), nums(&v.inputs), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v.path)).collect::<Vec<_>>().join(","));
    if out.is_empty() { println!("{}", o); } else { std::fs::write(&out, o).unwrap(); }
    if r.is_err() { 2 } else if !e.violations.is_empty() { 1 } else { 0 }
}
