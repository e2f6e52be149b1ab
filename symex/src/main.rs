mod blast;
mod exec;
mod expr;
mod ir;
mod z3;
use std::collections::BTreeSet;
use std::time::{Duration, Instant};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn real_main() {
    let a: Vec<String> = std::env::args().collect();
    let mut time = 120.0f64;
    let mut ll = String::new();
    let mut h = String::new();
    let mut out = String::new();
    let mut trace = false;
    let mut max_insts = 40_000_000u64;
    let mut hard = 300.0;
    let mut concrete: Option<Vec<u128>> = None;
    let mut sched: Option<Vec<u32>> = None;
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--time" => {
                time = a[i + 1].parse().unwrap();
                i += 1;
            }
            "--max-insts" => {
                max_insts = a[i + 1].parse().unwrap();
                i += 1;
            }
            "--hard" => {
                hard = a[i + 1].parse().unwrap();
                i += 1;
            }
            "--out" => {
                out = a[i + 1].clone();
                i += 1;
            }
            "--concrete" => {
                concrete = Some(a[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
                i += 1;
            }
            "--sched" => {
                sched = Some(a[i + 1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect());
                i += 1;
            }
            "--trace" => trace = true,
            x => {
                if ll.is_empty() {
                    ll = x.into()
                } else {
                    h = x.into()
                }
            }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let load = t0.elapsed().as_secs_f64();
    let mut e = exec::Exec::new(m, t0 + Duration::from_secs_f64(time));
    e.trace = trace;
    e.max_insts = max_insts;
    e.solver.hard_timeout = hard;
    e.concrete = concrete;
    e.replay_sched = sched;
    e.run_harness(&h);
    let mut fns = BTreeSet::new();
    for &d in &e.dbg {
        e.m.dbg_funcs(d, &mut fns);
    }
    // development aid: the source lines that were executed
    if let Ok(f) = std::env::var("SYMEX_LINES") {
        let mut lines = BTreeSet::new();
        for &d in &e.dbg {
            e.m.dbg_lines(d, &mut lines);
        }
        let _ = std::fs::write(format!("{f}/{h}"), lines.into_iter().collect::<Vec<_>>().join("\n"));
    }
    let status = if e.viol.is_some() {
        "violation"
    } else if e.unknown.is_some() {
        "unknown"
    } else {
        "ok"
    };
    let mut s = String::from("{");
    s += &format!("\"harness\":{},\"status\":{},", js(&h), js(status));
    if let Some(v) = &e.viol {
        s += &format!(
            "\"violation\":{{\"kind\":{},\"msg\":{},\"inputs\":[{}],\"widths\":[{}],\"stack\":[{}],\"sched\":[{}]}},",
            js(&v.kind),
            js(&v.msg),
            v.inputs.iter().map(|x| format!("\"{}\"", x.1)).collect::<Vec<_>>().join(","),
            v.inputs.iter().map(|x| x.0.to_string()).collect::<Vec<_>>().join(","),
            v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","),
            v.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
    }
    if let Some(u) = &e.unknown {
        s += &format!("\"unknown\":{},", js(u));
    }
    let c = &e.cnt;
    s += &format!(
        "\"paths\":{},\"paths_panic_ok\":{},\"paths_assumed\":{},\"insts\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"asserts_trivial\":{},\"asserts_solved\":{},\"mem_checks\":{},\"panic_checks\":{},",
        c.paths_done, c.paths_panic_ok, c.paths_assumed, c.insts, c.forks, c.merges, c.merge_fail, c.asserts_trivial, c.asserts_solved, c.mem_checks, c.panic_checks
    );
    let q = &e.solver.stats;
    s += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"hard\":{},\"hard_kissat\":{},\"hard_z3\":{},\"solver_s\":{:.3},\"nodes\":{},",
        q.queries, q.sat, q.unsat, q.cached, q.hard, q.hard_kissat, q.hard_z3, q.time, expr::n_nodes()
    );
    s += &format!("\"covers\":[{}],", e.covers.keys().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
    s += &format!("\"assert_lines\":[{}],", e.asserts.keys().map(|k| k.to_string()).collect::<Vec<_>>().join(","));
    s += &format!("\"outputs\":[{}],", e.outputs.iter().map(|k| format!("\"{k}\"")).collect::<Vec<_>>().join(","));
    let (sc, sa) = e.m.static_lines(&h);
    let l = |v: &[u32]| v.iter().map(|k| k.to_string()).collect::<Vec<_>>().join(",");
    s += &format!("\"static_covers\":[{}],\"static_asserts\":[{}],", l(&sc), l(&sa));
    s += &format!(
        "\"samples\":[{}],",
        e.samples
            .iter()
            .map(|(p, v)| format!("[{},[{}]]", p, v.iter().map(|x| format!("\"{x}\"")).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    s += &format!(
        "\"functions\":[{}],",
        fns.iter().filter(|f| f.contains("numeric_")).map(|k| js(k)).collect::<Vec<_>>().join(",")
    );
    s += &format!("\"load_s\":{:.3},\"wall_s\":{:.3}}}", load, t0.elapsed().as_secs_f64());
    if out.is_empty() {
        println!("{s}");
    } else {
        std::fs::write(&out, s).unwrap();
    }
    std::process::exit(0);
}

fn main() {
    let t = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if t.join().is_err() {
        std::process::exit(3);
    }
}
