mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod real;
mod solver;
mod z3;
use exec::*;
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::time::Instant;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[u64]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut file = String::new();
    let mut out = String::new();
    let mut cfg = Config { entry: String::new(), tier: 0, max_steps: 300_000_000, max_secs: 600, max_heap: 3 << 30, max_paths: 50_000_000, threads: 8, z3_ms: 20_000, samples: 40, max_viol: 4 };
    let mut parse_all = false;
    while let Some(a) = args.next() {
        let mut n = || args.next().unwrap();
        match a.as_str() {
            "--entry" => cfg.entry = n(),
            "--tier" => cfg.tier = n().parse().unwrap(),
            "--secs" => cfg.max_secs = n().parse().unwrap(),
            "--steps" => cfg.max_steps = n().parse().unwrap(),
            "--heap" => cfg.max_heap = n().parse().unwrap(),
            "--paths" => cfg.max_paths = n().parse().unwrap(),
            "--threads" => cfg.threads = n().parse().unwrap(),
            "--z3ms" => cfg.z3_ms = n().parse().unwrap(),
            "--samples" => cfg.samples = n().parse().unwrap(),
            "--out" => out = n(),
            "--parse-all" => parse_all = true,
            _ => file = a,
        }
    }
    let t0 = Instant::now();
    let m = ir::Module::load(std::fs::read(&file).expect("read IR"));
    if parse_all {
        for i in 0..m.funcs.len() {
            if m.funcs[i].body.is_some() {
                m.func(i as u32);
            }
        }
        let un: Vec<&str> = m.funcs.iter().filter(|f| f.ext == ext::Ext::Unknown).map(|f| f.name.as_str()).collect();
        println!("{} functions, unknown: {:?}, {:?}", m.funcs.len(), un, t0.elapsed());
        return;
    }
    let stack_top = (m.globals_end + (64 << 20) + 0xfffff) & !0xfffff;
    let cell = stack_top + 4096;
    let heap_base = stack_top + (1 << 20);
    let n = m.funcs.len();
    let threads = cfg.threads;
    let g = Arc::new(Global_ {
        m,
        cfg,
        sh: Arc::new(solver::Shared::new()),
        queue: Default::default(),
        cv: Default::default(),
        idle: Default::default(),
        active: Default::default(),
        stop: AtomicBool::new(false),
        timed_out: AtomicBool::new(false),
        start: Instant::now(),
        paths: Default::default(),
        killed: Default::default(),
        panicked: Default::default(),
        forks: Default::default(),
        steps: Default::default(),
        max_path_steps: Default::default(),
        viols: Default::default(),
        errors: Default::default(),
        reach: Default::default(),
        samples: Default::default(),
        calls: (0..n).map(|_| AtomicBool::new(false)).collect(),
        forkpc: Default::default(),
        stack_top,
        heap_base,
        cell,
        unknown_fn: Default::default(),
    });
    let st = initial(&g);
    g.queue.lock().unwrap().push(st);
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let g = g.clone();
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    let g2 = g.clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Exec::new(g).work()));
                    if let Err(e) = r {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        g2.errors.lock().unwrap_or_else(|p| p.into_inner()).insert(format!("engine panic: {}", m), 1);
                        g2.stop.store(true, Relaxed);
                        g2.cv.notify_all();
                    }
                })
                .unwrap()
        })
        .collect();
    // a solver call that does not come back must not hold up the report
    while !hs.iter().all(|h| h.is_finished()) {
        if t0.elapsed().as_secs() >= g.cfg.max_secs + 20 {
            g.timed_out.store(true, Relaxed);
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    let s = &g.sh.stats;
    let lk = |x: &std::sync::atomic::AtomicU64| x.load(Relaxed);
    let viols = g.viols.lock().unwrap();
    let errors: Vec<String> = g.errors.lock().unwrap_or_else(|p| p.into_inner()).iter().filter(|e| e.0 != "stopped").map(|(k, v)| format!("[{},{}]", esc(k), v)).collect();
    let stopped = g.errors.lock().unwrap_or_else(|p| p.into_inner()).contains_key("stopped");
    let complete = errors.is_empty() && !stopped && !g.timed_out.load(Relaxed) && g.queue.lock().unwrap().is_empty();
    let mut o = String::from("{\n");
    o.push_str(&format!("\"entry\": {}, \"complete\": {}, \"timed_out\": {},\n", esc(&g.cfg.entry), complete, g.timed_out.load(Relaxed)));
    o.push_str(&format!("\"paths\": {}, \"killed\": {}, \"panicked\": {}, \"forks\": {}, \"steps\": {}, \"max_path_steps\": {},\n", lk(&g.paths), lk(&g.killed), lk(&g.panicked), lk(&g.forks), lk(&g.steps), lk(&g.max_path_steps)));
    o.push_str(&format!(
        "\"z3_queries\": {}, \"z3_sat\": {}, \"z3_unsat\": {}, \"z3_seconds\": {:.3}, \"cache_hits\": {}, \"domain_decisions\": {}, \"cross_checked\": {}, \"assert_queries\": {}, \"assert_folded\": {}, \"z3_version\": {},\n",
        lk(&s.z3_queries), lk(&s.z3_sat), lk(&s.z3_unsat), lk(&s.z3_us) as f64 / 1e6, lk(&s.cache_hits), lk(&s.dom_decisions), lk(&s.cross), lk(&s.assert_queries), lk(&s.assert_concrete), esc(&z3::version())
    ));
    o.push_str(&format!("\"seconds\": {:.3},\n", t0.elapsed().as_secs_f64()));
    o.push_str(&format!("\"errors\": [{}],\n", errors.join(",")));
    o.push_str(&format!("\"reach\": {{{}}},\n", g.reach.lock().unwrap().iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(",")));
    let vs: Vec<String> = viols
        .iter()
        .map(|v| {
            let (k, id) = match &v.kind {
                Kind::Assert(i) => ("assert", *i),
                Kind::Panic => ("panic", 0),
                Kind::Hang => ("hang", 0),
                Kind::Abort => ("abort", 0),
                Kind::Memory => ("memory", 0),
            };
            format!("{{\"kind\": \"{}\", \"id\": {}, \"msg\": {}, \"inputs\": {}, \"real\": {}}}", k, id, esc(&v.msg), list(&v.inputs), v.real)
        })
        .collect();
    o.push_str(&format!("\"violations\": [{}],\n", vs.join(",\n")));
    let ss: Vec<String> = g.samples.lock().unwrap().iter().map(|x| format!("{{\"end\": \"{}\", \"inputs\": {}, \"obs\": {}}}", x.end, list(&x.inputs), list(&x.obs))).collect();
    o.push_str(&format!("\"samples\": [{}],\n", ss.join(",\n")));
    let fns: Vec<String> = g.calls.iter().enumerate().filter(|x| x.1.load(Relaxed)).map(|x| esc(&g.m.funcs[x.0].name)).collect();
    o.push_str(&format!("\"functions\": [{}],\n", fns.join(",")));
    let mut fp: Vec<_> = g.forkpc.lock().unwrap().iter().map(|(k, v)| (*v, *k)).collect();
    fp.sort_by(|a, b| b.cmp(a));
    fp.truncate(25);
    let fp: Vec<String> = fp.iter().map(|(n, (f, pc))| format!("[{}, {}, {}]", n, esc(&g.m.funcs[*f as usize].name), pc)).collect();
    o.push_str(&format!("\"fork_sites\": [{}]\n}}\n", fp.join(",\n")));
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).unwrap();
    }
    std::process::exit(0);
}
