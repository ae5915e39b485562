//! engine: symbolic execution of LLVM IR harnesses; see DESIGN.md
mod interp;
mod ir;
mod lower;
mod poly;
mod term;
use interp::*;
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

struct Sem { n: Mutex<i64>, cv: Condvar }
impl Sem {
    fn take(&self) { let mut n = self.n.lock().unwrap(); while *n <= 0 { n = self.cv.wait(n).unwrap(); } *n -= 1; }
    fn give(&self) { *self.n.lock().unwrap() += 1; self.cv.notify_one(); }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn jl<'a>(v: impl IntoIterator<Item = &'a String>) -> String { format!("[{}]", v.into_iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }
fn jm(m: &std::collections::BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(",")) }

fn merge(g: &mut Stats, l: Stats) {
    macro_rules! add { ($($f:ident),*) => { $( g.$f += l.$f; )* } }
    add!(paths, done, panics, assumed_out, cuts, asserts, proved_solver, proved_syntactic, queries, solver_time, cache_hits, decisions, branches_unknown, steps, ops_exact, ops_inexact, snapped, nonlinear, expected_panics, nf_paths, witness_ok, completed, cong);
    g.funcs.extend(l.funcs);
    for (a, b) in [(&mut g.reached, l.reached), (&mut g.cut_reasons, l.cut_reasons), (&mut g.errors, l.errors), (&mut g.undecided, l.undecided), (&mut g.assert_ids, l.assert_ids)] {
        for (k, v) in b { *a.entry(k).or_insert(0) += v; }
    }
    g.witnesses.extend(l.witnesses);
    g.violations.extend(l.violations);
    g.unreproduced.extend(l.unreproduced);
    g.samples.extend(l.samples);
    g.witness_bad.extend(l.witness_bad);
    if l.max_query.0 > g.max_query.0 { g.max_query = l.max_query; }
}

fn worker(sh: &Shared, sem: &Sem) {
    let mut ex = Exec::new(sh);
    loop {
        let tape = {
            let mut q = sh.queue.lock().unwrap();
            loop {
                if sh.stop.load(Ordering::SeqCst) { sh.cv.notify_all(); drop(q); fin(sh, &mut ex); return; }
                if let Some(t) = q.0.pop() { q.1 += 1; break t; }
                if q.1 == 0 { sh.cv.notify_all(); drop(q); fin(sh, &mut ex); return; }
                q = sh.cv.wait_timeout(q, Duration::from_millis(200)).unwrap().0;
            }
        };
        sem.take();
        let k = sh.started.fetch_add(1, Ordering::SeqCst);
        if Instant::now() > sh.deadline || k >= sh.max_paths {
            ex.local.cuts += 1;
            *ex.local.cut_reasons.entry(if k >= sh.max_paths { "path limit".into() } else { "deadline".to_string() }).or_insert(0) += 1;
        } else {
            let t0 = Instant::now();
            let r = ex.run_path(tape);
            ex.local.paths += 1;
            if ex.nf { ex.local.nf_paths += 1; }
            let mut wit = false;
            let d = format!("{:?}", r);
            match r {
                Stop::Done => { ex.local.done += 1; wit = true; if ex.expect_panic { let _ = ex.on_end_expected(); } }
                Stop::Assume => ex.local.assumed_out += 1,
                Stop::Panic(m) => {
                    ex.local.panics += 1;
                    if ex.expect_panic { ex.local.expected_panics += 1; ex.local.asserts += 1; ex.local.proved_syntactic += 1; *ex.local.assert_ids.entry("refusal".to_string()).or_insert(0) += 1; } else {
                        ex.on_panic(&m);
                    }
                }
                Stop::Cut(m) => {
                    ex.local.cuts += 1;
                    if m == "declared fork bound" && sh.replay.is_some() && !sh.stop.load(Ordering::SeqCst) && sh.cut_tries.fetch_add(1, Ordering::SeqCst) < 200 { ex.complete_cut(); }
                    *ex.local.cut_reasons.entry(m).or_insert(0) += 1; }
                Stop::Err(m) => { *ex.local.errors.entry(m).or_insert(0) += 1; }
            }
            if wit && sh.replay.is_some() && !sh.stop.load(Ordering::SeqCst) && (k < 6 || k % 64 == 0 && k < 64 * 20) { ex.witness(); }
            if std::env::var("ENGINE_PATHS").is_ok() { eprintln!("{} path {k}: {:.2}s pc={} tape={} -> {}", sh.harness, t0.elapsed().as_secs_f64(), ex.pc.len(), ex.tape.len(), d.chars().take(300).collect::<String>()); }
        }
        sem.give();
        let mut q = sh.queue.lock().unwrap();
        q.1 -= 1;
        if q.1 == 0 { sh.cv.notify_all(); }
    }
}
fn fin(sh: &Shared, ex: &mut Exec) {
    ex.local.queries += ex.solver.queries + ex.solver2.queries;
    ex.local.solver_time += ex.solver.time + ex.solver2.time;
    let l = std::mem::take(&mut ex.local);
    merge(&mut sh.stats.lock().unwrap(), l);
}

impl interp::Ce {
    pub fn json(&self) -> String { format!("{{\"harness\":{},\"what\":{},\"inputs\":{},\"pretty\":{},\"replay\":{}}}", js(&self.harness), js(&self.what), jl(&self.inputs), jl(&self.pretty), js(&self.replay_out)) }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let (mut deep, mut seed) = (false, 1u64);
    let (mut ll, mut out, mut jobs, mut replay, mut dump, mut dl, mut maxp, mut hs) = (String::new(), String::new(), 8usize, vec![], None, 600.0f64, u64::MAX, vec![]);
    let mut i = 0;
    while i < a.len() {
        let v = || a[i + 1].clone();
        match a[i].as_str() {
            "--ll" => { ll = v(); i += 1 }
            "--out" => { out = v(); i += 1 }
            "--deep" => deep = true,
            "--seed" => { seed = v().parse().unwrap_or(1); i += 1 }
            "--jobs" => { jobs = v().parse().unwrap(); i += 1 }
            "--dump" => { dump = Some(v()); i += 1 }
            "--deadline" => { dl = v().parse().unwrap(); i += 1 }
            "--max-paths" => { maxp = v().parse().unwrap(); i += 1 }
            "--replay" => { let s = v(); let (d, l) = s.split_once(':').unwrap(); replay.push((d.to_string(), l.to_string())); i += 1 }
            h => hs.push(h.to_string()),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read ll");
    let m = Arc::new(ir::Module::load(text));
    let lay = Arc::new(Layout::new(&m));
    eprintln!("loaded module: {} functions, {:.2}s", m.fns.len(), t0.elapsed().as_secs_f64());
    if hs.is_empty() {
        let mut v: Vec<_> = m.fns.keys().filter(|k| k.starts_with("h_")).collect();
        v.sort();
        for h in v { println!("{h}"); }
        return;
    }
    let deadline = Instant::now() + Duration::from_secs_f64(dl);
    // a single algebraic step may outlast the deadline: give up on it
    std::thread::spawn(move || { std::thread::sleep(Duration::from_secs_f64(dl + 25.0)); eprintln!("STUCK"); std::process::exit(3); });
    let sem = Arc::new(Sem { n: Mutex::new(jobs as i64), cv: Condvar::new() });
    let res: Arc<Mutex<HashMap<String, String>>> = Default::default();
    let groups: Vec<_> = hs.iter().cloned().map(|h| {
        let (m, lay, sem, res, replay, dump) = (m.clone(), lay.clone(), sem.clone(), res.clone(), replay.clone(), dump.clone());
        std::thread::spawn(move || {
            let t0 = Instant::now();
            let sh = Arc::new(Shared { cut_tries: AtomicU64::new(0),
                m, lay, queue: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), stats: Default::default(), cache: Default::default(), stop: AtomicBool::new(false), started: AtomicU64::new(0),
                deadline, harness: h.clone(), replay: if replay.is_empty() { None } else { Some((replay,)) }, dump, max_paths: maxp, deep, seed,
            });
            let ws: Vec<_> = (0..jobs).map(|_| {
                let (sh, sem) = (sh.clone(), sem.clone());
                std::thread::Builder::new().stack_size(1 << 29).spawn(move || {
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| worker(&sh, &sem)));
                    if let Err(e) = r {
                        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                        *sh.stats.lock().unwrap().errors.entry(format!("engine panic: {m}")).or_insert(0) += 1;
                        sh.stop.store(true, Ordering::SeqCst);
                        sem.give();
                    }
                }).unwrap()
            }).collect();
            for w in ws { let _ = w.join(); }
            let s = sh.stats.lock().unwrap();
            let ce = |v: &Vec<Ce>| format!("[{}]", v.iter().take(5).map(|c| c.json()).collect::<Vec<_>>().join(","));
            let mut o = String::from("{");
            macro_rules! f { ($($k:ident),*) => { $( o.push_str(&format!("\"{}\":{},", stringify!($k), s.$k)); )* } }
            f!(paths, done, panics, assumed_out, cuts, asserts, proved_solver, proved_syntactic, queries, cache_hits, decisions, branches_unknown, steps, ops_exact, ops_inexact, snapped, nonlinear, expected_panics, nf_paths, witness_ok, completed, cong);
            o.push_str(&format!("\"solver_time\":{:.3},\"wall\":{:.3},\"max_query\":{:.3},\"max_query_what\":{},", s.solver_time, t0.elapsed().as_secs_f64(), s.max_query.0, js(&s.max_query.1)));
            o.push_str(&format!("\"functions\":{},\"reached\":{},\"cut_reasons\":{},\"errors\":{},\"undecided\":{},\"assert_ids\":{},", jl(&s.funcs), jm(&s.reached), jm(&s.cut_reasons), jm(&s.errors), jm(&s.undecided), jm(&s.assert_ids)));
            o.push_str(&format!("\"samples\":{},\"witness_bad\":{},\"unreproduced_n\":{},\"violations\":{},\"unreproduced\":{}}}", jl(s.samples.iter().take(8)), jl(s.witness_bad.iter().take(8)), s.unreproduced.len(), ce(&s.violations), ce(&s.unreproduced)));
            res.lock().unwrap().insert(h, o);
        })
    }).collect();
    for g in groups { let _ = g.join(); }
    let r = res.lock().unwrap();
    let body = format!("{{\"load_and_run_s\":{:.3},\"module_functions\":{},\"harnesses\":{{{}}}}}\n", t0.elapsed().as_secs_f64(), m.fns.len(), hs.iter().filter_map(|h| r.get(h).map(|o| format!("{}:{}", js(h), o))).collect::<Vec<_>>().join(",\n"));
    if out.is_empty() { std::io::stdout().write_all(body.as_bytes()).unwrap(); } else { std::fs::write(&out, body).unwrap(); }
}
