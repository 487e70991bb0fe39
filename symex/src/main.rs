mod exec;
mod expr;
mod ir;
mod z3;
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Duration;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o.push('"'); o
}
fn jl<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String { format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(",")) }

/// symex IR.ll JOBS THREADS : one job per line "fn cfg max_steps max_paths wall_s query_ms max_values"; one JSON line per finished job
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let m = ir::Module::load(&text);
    let intr = exec::classify(&m);
    let jobs: Vec<Vec<String>> = std::fs::read_to_string(&args[2]).unwrap().lines().filter(|l| !l.trim().is_empty()).map(|l| l.split_whitespace().map(|s| s.to_string()).collect()).collect();
    let threads: usize = args[3].parse().unwrap();
    let next = AtomicUsize::new(0);
    let out = Mutex::new(std::io::stdout());
    std::panic::set_hook(Box::new(|i| { if std::env::var("SYMEX_DEBUG").is_ok() { eprintln!("{i}"); } }));
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, || loop {
                let n = next.fetch_add(1, Ordering::SeqCst);
                let Some(j) = jobs.get(n) else { return };
                let num = |i: usize| j[i].parse::<u64>().unwrap();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let Some(f) = m.fn_ix.get(&j[0]) else { let mut r = exec::JobResult::default(); r.errors.push(format!("no harness {}", j[0])); return r };
                    let lim = exec::Limits { max_steps: num(2), max_paths: num(3), wall: Duration::from_secs(num(4)), query_ms: num(5) as u32, max_values: num(6) as u32 };
                    exec::Exec::new(&m, &intr, lim, num(1)).run(*f)
                }));
                let r = match r { Ok(r) => r, Err(p) => { let mut r = exec::JobResult::default(); r.errors.push(format!("executor failure: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())); r } };
                let st = &r.stats;
                let funcs = jl(r.funcs.iter().filter(|f| m.fns[**f as usize].name.contains("12strict_types") ), |f| js(if m.fns[*f as usize].pretty.is_empty() { &m.fns[*f as usize].name } else { &m.fns[*f as usize].pretty }));
                let line = format!("{{\"fn\":{},\"cfg\":{},\"paths\":{},\"ok\":{},\"rejected\":{},\"panics\":{},\"forks\":{},\"steps\":{},\"asserts\":{},\"assert_queries\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cached\":{},\"byte_decisions\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"wall_s\":{:.3},\"max_pc\":{},\"nodes\":{},\"vars\":{},\"functions\":{},\"funcs\":{},\"covers\":{{{}}},\"assert_ids\":{{{}}},\"errors\":{},\"violations\":{},\"samples\":{}}}",
                    js(&j[0]), j[1], st.paths, st.paths_ok, st.paths_rejected, st.paths_panic, st.forks, st.steps, st.asserts, st.assert_queries, st.queries, st.sat, st.unsat, st.cache_hits, st.bytes, st.solver_s, st.max_query_s, st.wall_s, st.max_pc, st.nodes, st.vars, r.funcs.len(), funcs,
                    r.covers.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(","), r.assert_ids.iter().map(|(k, n)| format!("\"{k}\":{n}")).collect::<Vec<_>>().join(","),
                    jl(&r.errors, |e| js(e)),
                    jl(&r.violations, |v| format!("{{\"kind\":{},\"id\":{},\"site\":{},\"stack\":{},\"inputs\":{},\"notes\":{}}}", js(&v.kind), v.id, js(&v.site), jl(&v.stack, |s| js(s)), jl(&v.inputs, |x| x.to_string()), jl(&v.notes, |s| js(s)))),
                    jl(&r.samples, |v| format!("{{\"inputs\":{},\"trace\":{},\"outcome\":{},\"sha\":{}}}", jl(&v.inputs, |x| x.to_string()), js(v.trace.trim()), js(v.outcome), v.sha)));
                let mut o = out.lock().unwrap(); let _ = writeln!(o, "{line}"); let _ = o.flush();
            }).unwrap();
        }
    });
}
