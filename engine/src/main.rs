mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

use std::collections::{BTreeMap, BTreeSet};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn nums(v: &[u128]) -> String {
    format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut it = args.iter().skip(1);
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut timeout = 800.0;
    let mut qt = 120_000u32;
    let mut shard = (0, 1);
    let mut wit = 6;
    let mut force: Option<Vec<u128>> = None;
    let mut psl = 3_000_000u64;
    let mut stop_after = 40usize;
    let mut only: Option<BTreeSet<u64>> = None;
    while let Some(a) = it.next() {
        let mut v = || it.next().cloned().unwrap();
        match a.as_str() {
            "--ll" => ll = v(),
            "--entry" => entry = v(),
            "--out" => out = v(),
            "--time" => timeout = v().parse().unwrap(),
            "--query-ms" => qt = v().parse().unwrap(),
            "--witnesses" => wit = v().parse().unwrap(),
            "--path-steps" => psl = v().parse().unwrap(),
            "--ids" => only = Some(v().split(',').map(|x| x.parse().unwrap()).collect()),
            "--stop-after" => stop_after = v().parse().unwrap(),
            "--shard" => {
                let s = v();
                let (a, b) = s.split_once('/').unwrap();
                shard = (a.parse().unwrap(), b.parse().unwrap());
            }
            "--inputs" => force = Some(v().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()),
            o => panic!("argument {}", o),
        }
    }
    // deep recursion in the simplifier
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let t0 = std::time::Instant::now();
            let m = ir::Module::load(&ll).expect("load");
            let load_s = t0.elapsed().as_secs_f64();
            let mut ex = exec::Exec::new(m, solver::Solver::new(qt));
            ex.time_limit = timeout;
            ex.shard = shard;
            ex.want_witnesses = wit;
            ex.force_inputs = force;
            ex.path_step_limit = psl;
            ex.stop_after = stop_after;
            ex.only_checks = only;
            let err = ex.run(&entry).err();
            // source coverage
            let mut lines: BTreeMap<String, BTreeSet<u32>> = Default::default();
            let mut funcs: BTreeSet<String> = Default::default();
            for d in &ex.dbg_seen {
                for (f, l, n) in ex.m.dbg_chain(*d) {
                    if f.contains("/repo/") {
                        lines.entry(f.clone()).or_default().insert(l);
                        funcs.insert(format!("{}::{}", f.split("/repo/").last().unwrap_or(""), n));
                    }
                }
            }
            let status = if err.is_some() {
                "error"
            } else if !ex.violations.is_empty() {
                "violation"
            } else if !ex.incomplete.is_empty() {
                "incomplete"
            } else {
                "ok"
            };
            let mut j = String::from("{\n");
            j += &format!("\"entry\":{},\n\"status\":{},\n", esc(&entry), esc(status));
            if let Some(e) = &err {
                j += &format!("\"error\":{},\n", esc(e));
            }
            let mut inc: Vec<String> = ex.incomplete.clone();
            inc.dedup();
            inc.truncate(10);
            j += &format!("\"incomplete\":[{}],\n", inc.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
            j += "\"violations\":[";
            for (i, v) in ex.violations.iter().enumerate() {
                if i > 0 {
                    j += ",";
                }
                let n = ex.viol_count.get(&(v.kind.clone(), v.id)).copied().unwrap_or(1);
                j += &format!(
                    "\n{{\"kind\":{},\"id\":{},\"msg\":{},\"loc\":{},\"count\":{},\"inputs\":{},\"cases\":{:?},\"stack\":[{}]}}",
                    esc(&v.kind),
                    v.id,
                    esc(&v.msg),
                    esc(&v.loc),
                    n,
                    nums(&v.inputs),
                    v.cases,
                    v.stack.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",")
                );
            }
            j += "],\n\"witnesses\":[";
            for (i, w) in ex.witnesses.iter().enumerate() {
                if i > 0 {
                    j += ",";
                }
                j += &format!("\n{{\"inputs\":{},\"obs\":{:?}}}", nums(&w.inputs), w.obs);
            }
            j += "],\n\"checks\":{";
            j += &ex.checks.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect::<Vec<_>>().join(",");
            j += "},\n\"covers\":{";
            j += &ex.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v.as_ref().map(|x| nums(x)).unwrap_or("null".into()))).collect::<Vec<_>>().join(",");
            j += "},\n";
            let st = &ex.st;
            j += &format!(
                "\"stats\":{{\"steps\":{},\"forks\":{},\"merges\":{},\"merge_refused\":{},\"paths\":{},\"killed\":{},\"cases\":{},\"sym_loads\":{},\"sym_stores\":{},\"max_queue\":{},\"terms\":{},\"symbols\":{},\"wall_s\":{:.3},\"load_s\":{:.3}}},\n",
                st.steps, st.forks, st.merges, st.merge_refused, st.paths, st.killed, st.cases, st.sym_loads, st.sym_stores, st.max_queue, ex.cx.nodes.len(), ex.cx.syms.len(), t0.elapsed().as_secs_f64(), load_s
            );
            let s = &ex.s;
            j += &format!(
                "\"solver\":{{\"queries\":{},\"solver_calls\":{},\"fp_calls\":{},\"cache_hits\":{},\"model_hits\":{},\"time_s\":{:.3},\"max_s\":{:.3},\"unknown\":{},\"int_calls\":{},\"cross_checked\":{}}},\n",
                s.queries, s.solver_calls, s.fp_calls, s.cache_hits, s.model_hits, s.time, s.max_time, s.unknowns, s.int_calls, s.cross_checked
            );
            j += &format!("\"functions\":[{}],\n", funcs.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
            j += &format!("\"lines\":{{{}}}\n}}\n", lines.iter().map(|(k, v)| format!("{}:{:?}", esc(k), v.iter().collect::<Vec<_>>())).collect::<Vec<_>>().join(","));
            if ex.trace {
                let mut p: Vec<_> = ex.prof.iter().collect();
                p.sort_by_key(|x| std::cmp::Reverse(*x.1));
                for ((fi, b), n) in p.into_iter().take(15) {
                    let name = ex.m.fns[*fi as usize].name.clone();
                    let f = ex.m.func(*fi as usize, &mut ex.cx).unwrap();
                    let d = f.blocks[*b as usize].insts.last().unwrap().dbg;
                    let ch = ex.m.dbg_chain(d);
                    eprintln!("fork {} {} b{} {:?}", n, name.chars().take(60).collect::<String>(), b, ch.iter().take(4).map(|x| format!("{}:{}", x.0.rsplit('/').next().unwrap_or(""), x.1)).collect::<Vec<_>>());
                }
            }
            if out.is_empty() {
                print!("{}", j);
            } else {
                std::fs::write(&out, &j).unwrap();
            }
            match status {
                "ok" => 0,
                "violation" => 1,
                "incomplete" => 3,
                _ => 2,
            }
        })
        .unwrap();
    let rc = h.join().unwrap_or(4);
    std::process::exit(rc);
}
