//! symex: symbolic executor for LLVM bitcode produced by rustc, deciding branches and
//! assertions with Z3. Reads jobs ("<entry> <case> <budget-s> <samples>") from stdin,
//! prints one JSON object per job.
mod exec;
mod expr;
mod ir;
mod llvm;
mod mem;
mod solver;
use std::io::{BufRead, Write};

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u32, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(w, v)| format!("[{w},{v}]")).collect();
    format!("[{}]", x.join(","))
}
fn work() {
    let args: Vec<String> = std::env::args().collect();
    let (p, mem) = ir::Prog::load(&args[1]);
    let mut ex = exec::Exec::new(p, mem, 20_000);
    ex.z3_all = std::env::var("SYMEX_Z3_ALL").is_ok();
    if std::env::var("SYMEX_PROF").is_ok() {
        ex.prof = Some(Default::default());
    }
    let stdin = std::io::stdin();
    let names: Vec<String> = ex.p.fns.iter().map(|f| f.name.clone()).collect();
    let mut reported = vec![false; names.len()];
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let f: Vec<&str> = line.split_whitespace().collect();
        if f.len() < 4 {
            continue;
        }
        let t0 = std::time::Instant::now();
        let (q0, s0, u0, k0, c0, fd0, r0, tm0, x0) = {
            let s = &ex.sv;
            (s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.fd_decisions, s.range_decisions, s.time, s.crossed)
        };
        let o = ex.run_job(f[0], f[1].parse().unwrap(), f[2].parse().unwrap(), f[3].parse().unwrap());
        let s = &ex.sv;
        let mut viol = vec![];
        for v in &o.violations {
            let tr: Vec<String> = v.trace.iter().take(12).map(|x| js(x)).collect();
            viol.push(format!(
                "{{\"kind\":{},\"msg\":{},\"place\":{},\"inputs\":{},\"trace\":[{}]}}",
                js(&v.kind),
                js(&v.msg),
                js(&v.place),
                inputs(&v.inputs),
                tr.join(",")
            ));
        }
        let samples: Vec<String> = o
            .samples
            .iter()
            .map(|x| {
                let hex: String = x.emit.iter().map(|b| format!("{b:02x}")).collect();
                format!("{{\"inputs\":{},\"emit\":\"{hex}\"}}", inputs(&x.inputs))
            })
            .collect();
        let mut fns = vec![];
        for (i, u) in ex.used.iter().enumerate() {
            if *u && !reported[i] {
                reported[i] = true;
                fns.push(js(&names[i]));
            }
        }
        let covers: Vec<String> = o.covers.iter().map(|x| x.to_string()).collect();
        println!(
            "{{\"entry\":{},\"case\":{},\"paths\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"incomplete\":{},\"violations\":[{}],\"samples\":[{}],\"covers\":[{}],\"fns\":[{}],\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"fd\":{},\"crossed\":{},\"range\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3}}}",
            js(f[0]),
            f[1],
            o.paths,
            o.killed,
            o.forks,
            o.steps,
            o.incomplete.as_deref().map_or("null".into(), js),
            viol.join(","),
            samples.join(","),
            covers.join(","),
            fns.join(","),
            s.queries - q0,
            s.sat - s0,
            s.unsat - u0,
            s.unknown - k0,
            s.cache_hits - c0,
            s.fd_decisions - fd0,
            s.crossed - x0,
            s.range_decisions - r0,
            s.time - tm0,
            s.max_time,
            t0.elapsed().as_secs_f64()
        );
        std::io::stdout().flush().unwrap();
        if let Some(p) = &mut ex.prof {
            let mut v: Vec<_> = p.drain().collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.1));
            for (n, c) in v.iter().take(15) {
                eprintln!("forks {c:8} {n}");
            }
        }
    }
}
fn main() {
    // deep expression recursion: run on a large stack
    std::thread::Builder::new().stack_size(1 << 30).spawn(work).unwrap().join().unwrap();
}
