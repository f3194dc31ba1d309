//! vsym: path-forking symbolic execution of rustc-produced LLVM IR with z3.
mod exec;
mod expr;
mod ir;
mod solver;

use exec::{Ex, Report, Violation};
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn vio(v: &Violation) -> String {
    let ins: Vec<String> = v.inputs.iter().map(|(w, k)| format!("[{w},\"{k}\"]")).collect();
    let hs: Vec<String> = v.hashes.iter().map(|(m, d)| format!("[\"{}\",\"{}\"]", hex(m), hex(d))).collect();
    format!("{{\"msg\":{},\"kind\":\"{}\",\"inputs\":[{}],\"hashes\":[{}],\"obs\":[{}]}}", esc(&v.msg), v.kind, ins.join(","), hs.join(","), v.obs.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut jobs = 1u64;
    let mut timeout = 600.0f64;
    let mut qt = 0u32; // default: the whole time
    let mut maxi = 200_000_000u64;
    let mut depth = 12u32;
    let mut trace = false;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--entry" => {
                entry = a[i + 1].clone();
                i += 1
            }
            "--jobs" => {
                jobs = a[i + 1].parse().unwrap();
                i += 1
            }
            "--timeout" => {
                timeout = a[i + 1].parse().unwrap();
                i += 1
            }
            "--query-timeout-ms" => {
                qt = a[i + 1].parse().unwrap();
                i += 1
            }
            "--max-instr" => {
                maxi = a[i + 1].parse().unwrap();
                i += 1
            }
            "--split-depth" => {
                depth = a[i + 1].parse().unwrap();
                i += 1
            }
            "--trace" => trace = true,
            "--version" => {
                println!("vsym 0.1, z3 {}", solver::z3_version());
                return;
            }
            x => ll = x.to_string(),
        }
        i += 1;
    }
    if qt == 0 {
        qt = (timeout * 1000.0) as u32;
    }
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(timeout);
    let src = std::sync::Arc::new(std::fs::read_to_string(&ll).expect("ir"));
    let mut hs = Vec::new();
    for k in 0..jobs {
        let src = src.clone();
        let entry = entry.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(4 << 30)
                .spawn(move || {
                    let mut ex = Ex::new(&src, deadline, qt, maxi);
                    ex.trace = trace;
                    if jobs > 1 {
                        ex.part = (k, jobs, depth);
                    }
                    ex.run(&entry);
                    (std::mem::take(&mut ex.rep), ex.np)
                })
                .unwrap(),
        );
    }
    let mut tot = Report::default();
    let mut np = false;
    let mut frontier = None;
    for h in hs {
        let (r, n) = match h.join() {
            Ok(x) => x,
            Err(_) => {
                *tot.errors.entry("internal: worker crashed".into()).or_default() += 1;
                continue;
            }
        };
        np |= n;
        tot.done += r.done;
        tot.assumed += r.assumed;
        tot.instrs += r.instrs;
        tot.forks += r.forks;
        tot.queries += r.queries;
        tot.cached += r.cached;
        tot.sat += r.sat;
        tot.unsat += r.unsat;
        tot.unknown += r.unknown;
        tot.solver_time += r.solver_time;
        tot.solver_max = tot.solver_max.max(r.solver_max);
        tot.timeout |= r.timeout;
        if !r.timeout && r.errors.is_empty() && *frontier.get_or_insert((r.frontier, r.fsum)) != (r.frontier, r.fsum) {
            *tot.errors.entry("internal: workers disagree on the split".into()).or_default() += 1;
        }
        for (k, v) in r.panics {
            *tot.panics.entry(k).or_default() += v;
        }
        for (k, v) in r.errors {
            *tot.errors.entry(k).or_default() += v;
        }
        for (k, v) in r.asserts {
            let e = tot.asserts.entry(k).or_default();
            e.reached += v.reached;
            e.proved_by_folding += v.proved_by_folding;
            e.proved_by_solver += v.proved_by_solver;
            e.violated += v.violated;
        }
        for (k, v) in r.covers {
            let e = tot.covers.entry(k).or_insert(false);
            *e |= v;
        }
        tot.violations.extend(r.violations);
        tot.cov.extend(r.cov);
        tot.sample.extend(r.sample);
        for (k, v) in r.panic_samples {
            tot.panic_samples.entry(k).or_insert(v);
        }
    }
    let map = |m: &BTreeMap<String, u64>| -> String { m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",") };
    let asserts: Vec<String> = tot
        .asserts
        .iter()
        .map(|(k, v)| format!("{}:{{\"reached\":{},\"solver\":{},\"folded\":{},\"violated\":{}}}", esc(k), v.reached, v.proved_by_solver, v.proved_by_folding, v.violated))
        .collect();
    let covers: Vec<String> = tot.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let viol: Vec<String> = tot.violations.iter().map(vio).collect();
    let psam: Vec<String> = tot.panic_samples.values().map(vio).collect();
    let mut files: BTreeMap<String, (std::collections::BTreeSet<String>, std::collections::BTreeSet<u32>)> = BTreeMap::new();
    for (f, file, l) in &tot.cov {
        let e = files.entry(file.clone()).or_default();
        e.0.insert(f.clone());
        e.1.insert(*l);
    }
    let cov: Vec<String> = files
        .iter()
        .map(|(f, (fns, ls))| {
            format!(
                "{}:{{\"functions\":[{}],\"lines\":[{}]}}",
                esc(f),
                fns.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","),
                ls.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    let sample: Vec<String> = tot.sample.iter().map(vio).collect();
    println!(
        "{{\"entry\":{},\"paths\":{},\"assumed\":{},\"panics\":{{{}}},\"errors\":{{{}}},\"asserts\":{{{}}},\"covers\":{{{}}},\"violations\":[{}],\"panic_samples\":[{}],\"no_panic\":{},\"instrs\":{},\"forks\":{},\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"timeout\":{},\"wall_s\":{:.3},\"samples\":[{}],\"coverage\":{{{}}}}}",
        esc(&entry),
        tot.done,
        tot.assumed,
        map(&tot.panics),
        map(&tot.errors),
        asserts.join(","),
        covers.join(","),
        viol.join(","),
        psam.join(","),
        np,
        tot.instrs,
        tot.forks,
        tot.queries,
        tot.cached,
        tot.sat,
        tot.unsat,
        tot.unknown,
        tot.solver_time,
        tot.solver_max,
        tot.timeout,
        t0.elapsed().as_secs_f64(),
        sample.join(","),
        cov.join(",")
    );
}
