mod exec;
mod expr;
mod ir;
mod mem;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    q: Vec<Work>,
    active: usize,
}

#[derive(Default)]
struct Total {
    s: Stats,
    found: Vec<Found>,
    incon: Vec<(String, Vec<u64>)>,
    samples: Vec<(Vec<u64>, Vec<(u32, u64)>)>,
    covers: BTreeMap<u32, u64>,
    fcov: Vec<bool>,
    bcov: Vec<Vec<bool>>,
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).and_then(|s| s.parse().ok()).unwrap_or(d);
    let ll = get("--ll").expect("--ll");
    let entry = get("--entry").expect("--entry");
    let out = get("--out");
    let threads = num("--threads", 8) as usize;
    let budget = num("--budget", 600);
    let verbose = a.iter().any(|x| x == "-v");
    let args: Vec<u64> = a
        .iter()
        .position(|x| x == "--args")
        .map(|i| a[i + 1].split(',').filter_map(|s| s.parse().ok()).collect())
        .unwrap_or_default();
    let mut full = vec![num("--seedkeys", 0)];
    full.extend(args);
    let cfg = Cfg {
        step_limit: num("--steps", 5_000_000),
        max_vals: num("--max-vals", 300) as usize,
        ite_max: num("--ite-max", 16) as usize,
        preempt: num("--preempt", 1_000_000),
        gap: num("--gap", 0),
        sample_every: num("--sample-every", 97),
        max_samples: num("--max-samples", 8) as usize,
        timeout_ms: num("--solver-ms", 20_000) as u32,
        max_found: num("--max-found", 4) as usize,
    };
    let max_paths = num("--max-paths", u64::MAX);
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m: &'static ir::Module = Box::leak(Box::new(match ir::parse(&text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot parse {}: {}", ll, e);
            std::process::exit(3)
        }
    }));
    drop(text);
    let ent = *m.fidx.get(&entry).unwrap_or_else(|| {
        eprintln!("no function {}", entry);
        std::process::exit(3)
    });
    let shared = Mutex::new(Shared { q: vec![Work { dec: vec![], model: vec![] }], active: 0 });
    let cv = Condvar::new();
    let hungry = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let timeout = AtomicBool::new(false);
    let nfound = AtomicUsize::new(0);
    let npaths = AtomicUsize::new(0);
    let total = Mutex::new(Total::default());
    let tparse = t0.elapsed();
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mut ex = Exec::new(m, cfg.clone(), full.clone());
                    let mut local: Vec<Work> = vec![];
                    'outer: loop {
                        if local.is_empty() {
                            let mut g = shared.lock().unwrap();
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break 'outer;
                                }
                                if let Some(w) = g.q.pop() {
                                    g.active += 1;
                                    local.push(w);
                                    break;
                                }
                                if g.active == 0 {
                                    stop.store(true, Ordering::Relaxed);
                                    cv.notify_all();
                                    break 'outer;
                                }
                                hungry.fetch_add(1, Ordering::Relaxed);
                                g = cv.wait_timeout(g, Duration::from_millis(50)).unwrap().0;
                                hungry.fetch_sub(1, Ordering::Relaxed);
                            }
                        }
                        while let Some(w) = local.pop() {
                            ex.run_path(ent, w);
                            npaths.fetch_add(1, Ordering::Relaxed);
                            local.append(&mut ex.out);
                            if !ex.found.is_empty() || !ex.incon.is_empty() {
                                let mut t = total.lock().unwrap();
                                for f in ex.found.drain(..) {
                                    nfound.fetch_add(1, Ordering::Relaxed);
                                    if t.found.len() < 64 {
                                        t.found.push(f);
                                    }
                                }
                                for f in ex.incon.drain(..) {
                                    if t.incon.len() < 16 {
                                        t.incon.push(f);
                                    }
                                }
                                if nfound.load(Ordering::Relaxed) >= cfg.max_found || t.incon.len() >= 16 {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                            if t0.elapsed().as_secs() > budget || npaths.load(Ordering::Relaxed) as u64 > max_paths {
                                timeout.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                            }
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            if hungry.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                                let mut g = shared.lock().unwrap();
                                if g.q.len() < threads {
                                    let k = local.len() / 2;
                                    g.q.extend(local.drain(..k));
                                    cv.notify_all();
                                }
                            }
                        }
                        local.clear();
                        let mut g = shared.lock().unwrap();
                        g.active -= 1;
                        if g.active == 0 && g.q.is_empty() {
                            stop.store(true, Ordering::Relaxed);
                        }
                        cv.notify_all();
                    }
                    let mut t = total.lock().unwrap();
                    let s = &ex.stats;
                    let d = &mut t.s;
                    d.paths += s.paths;
                    d.assume_paths += s.assume_paths;
                    d.decisions += s.decisions;
                    d.forks += s.forks;
                    d.insts += s.insts;
                    d.checks += s.checks;
                    d.checks_solved += s.checks_solved;
                    d.checks_simplified += s.checks_simplified;
                    d.queries += s.queries;
                    d.qhits += s.qhits;
                    d.sat += s.sat;
                    d.unsat += s.unsat;
                    d.solver_ms += s.solver_ms;
                    d.solver_max_ms = d.solver_max_ms.max(s.solver_max_ms);
                    d.max_insts = d.max_insts.max(s.max_insts);
                    d.max_depth = d.max_depth.max(s.max_depth);
                    d.sched_points += s.sched_points;
                    for (k, v) in &ex.covers {
                        *t.covers.entry(*k).or_insert(0) += v;
                    }
                    for s in ex.samples.drain(..) {
                        t.samples.push((s.tape, s.log));
                    }
                    if t.fcov.is_empty() {
                        t.fcov = ex.fcov.clone();
                        t.bcov = ex.bcov.clone();
                    } else {
                        for (i, x) in ex.fcov.iter().enumerate() {
                            t.fcov[i] |= *x;
                        }
                        for (i, x) in ex.bcov.iter().enumerate() {
                            for (k, y) in x.iter().enumerate() {
                                t.bcov[i][k] |= *y;
                            }
                        }
                    }
                })
                .unwrap();
        }
    });
    let t = total.into_inner().unwrap();
    let s = &t.s;
    let wall = t0.elapsed().as_secs_f64();
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"entry\": {}, \"args\": {:?}, \"wall_s\": {:.3}, \"parse_s\": {:.3}, \"timeout\": {},\n", js(&entry), full, wall, tparse.as_secs_f64(), timeout.load(Ordering::Relaxed)));
    o.push_str(&format!(" \"paths\": {}, \"assume_paths\": {}, \"decisions\": {}, \"forks\": {}, \"insts\": {}, \"max_insts\": {}, \"max_depth\": {},\n", s.paths, s.assume_paths, s.decisions, s.forks, s.insts, s.max_insts, s.max_depth));
    o.push_str(&format!(" \"checks\": {}, \"checks_solved\": {}, \"checks_simplified\": {}, \"queries\": {}, \"sat\": {}, \"unsat\": {}, \"qhits\": {}, \"solver_s\": {:.3}, \"solver_max_ms\": {:.1}, \"sched_points\": {},\n", s.checks, s.checks_solved, s.checks_simplified, s.queries, s.sat, s.unsat, s.qhits, s.solver_ms / 1e3, s.solver_max_ms, s.sched_points));
    o.push_str(" \"covers\": {");
    o.push_str(&t.covers.iter().map(|(k, v)| format!("\"{}\": {}", k, v)).collect::<Vec<_>>().join(", "));
    o.push_str("},\n \"found\": [");
    o.push_str(
        &t.found
            .iter()
            .map(|f| format!("{{\"kind\": {}, \"detail\": {}, \"tape\": {:?}, \"trace\": [{}]}}", js(&f.kind), js(&f.detail), f.tape, f.trace.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join(",\n  "),
    );
    o.push_str("],\n \"inconclusive\": [");
    o.push_str(&t.incon.iter().map(|(f, tp)| format!("{{\"why\": {}, \"tape\": {:?}}}", js(f), tp)).collect::<Vec<_>>().join(",\n  "));
    o.push_str("],\n \"samples\": [");
    o.push_str(
        &t.samples
            .iter()
            .map(|(tp, lg)| format!("{{\"tape\": {:?}, \"log\": [{}]}}", tp, lg.iter().map(|(a, b)| format!("[{}, {}]", a, b)).collect::<Vec<_>>().join(", ")))
            .collect::<Vec<_>>()
            .join(",\n  "),
    );
    let mut fs = BTreeSet::new();
    let (mut bc, mut bt) = (0, 0);
    for (i, c) in t.fcov.iter().enumerate() {
        if *c && m.funcs[i].name.contains("4xecs") {
            fs.insert(short(&m.funcs[i].name));
            bt += t.bcov[i].len();
            bc += t.bcov[i].iter().filter(|x| **x).count();
        }
    }
    let nf = t.fcov.iter().filter(|x| **x).count();
    o.push_str(&format!("],\n \"functions_total\": {}, \"xecs_blocks\": {}, \"xecs_blocks_covered\": {},\n \"xecs_functions\": [", nf, bt, bc));
    o.push_str(&fs.iter().map(|x| js(x)).collect::<Vec<_>>().join(", "));
    o.push_str("]\n}\n");
    if let Some(p) = out {
        std::fs::write(p, &o).unwrap();
    }
    if verbose {
        println!(
            "{} {:?}: {} paths ({} cut by assumptions) {} forks, {:.1}M insts (max {}), {} checks ({} by solver), {} queries ({} hits) solver {:.2}s, wall {:.2}s timeout={} found={} incon={} covers={:?}",
            entry, full, s.paths, s.assume_paths, s.forks, s.insts as f64 / 1e6, s.max_insts, s.checks, s.checks_solved, s.queries, s.qhits, s.solver_ms / 1e3, wall, timeout.load(Ordering::Relaxed), t.found.len(), t.incon.len(), t.covers
        );
        for f in t.found.iter().take(4) {
            println!("  FOUND {} {} tape={:?}\n     {}", f.kind, f.detail, f.tape, f.trace.join("\n     "));
        }
        for f in t.incon.iter().take(4) {
            println!("  INCON {} {:?}", f.0, f.1);
        }
    }
}
