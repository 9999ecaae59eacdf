//! lsym --ll FILE --jobs FILE --out FILE [-j N] [--time S] [--solve-time S] [--total S] [--memory MB] [--stop K] [--solver CMD] [--cross CMD] [--seed N]
//!
//! The answers are one JSON object per line, in the order they come. No job
//! starts after `--total` seconds or after `--stop` jobs that found a bad input;
//! one that meets a limit of time or memory is `undecided`. Half of the workers
//! take jobs from the start of the file, half from its end.
//!
//! Each line of the jobs file is `<entry> <integer arguments>`. Every job is
//! executed symbolically, and the SMT solver decides whether each input ends
//! well (returns, or is excluded by an assumption).

mod bdd;
mod exec;
mod ir;
mod mem;
mod smt;
mod term;
use bdd::B;
use exec::*;
use smt::Verdict;
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: mem::Counting = mem::Counting;

#[derive(Clone)]
struct Opts {
    time: u64,
    solve_time: u64,
    solver: String,
    cross: Option<String>,
    seed: u64,
    keep: Option<String>,
    end: Option<Instant>,
    max_bytes: isize,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn num(x: &str) -> u64 {
    match x.strip_prefix("0x") {
        Some(h) => u64::from_str_radix(h, 16).expect("argument"),
        None => x.parse().expect("argument"),
    }
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
}

fn model_of(x: &Exec, g: B, rng: &mut Rng) -> Vec<u8> {
    let n = x.t.nvars as usize;
    let mut m = vec![0u8; n];
    for v in m.iter_mut().skip(BYTE_VARS as usize) {
        *v = b"abxyAZ019-"[(rng.next() % 10) as usize];
    }
    // letters first, so that unconstrained bytes stay plausible
    let base = m.clone();
    let a = x.t.bdd.sat(g, &mut |l| {
        let (v, b) = x.t.at_level(l);
        (base[v as usize] >> (7 - b)) & 1 == 1
    }).unwrap();
    for (l, k) in a {
        let (v, b) = x.t.at_level(l);
        let (i, b) = (v as usize, 0x80u8 >> b);
        if k {
            m[i] |= b
        } else {
            m[i] &= !b
        }
    }
    m
}

/// What the engine itself does on a concrete input.
fn concrete(m: &mut ir::Module, entry: &str, args: &[u64], model: &[u8]) -> String {
    let mut x = Exec::new(m);
    x.concrete = Some(model.to_vec());
    x.t.nvars = model.len() as u32;
    match x.run(entry, args) {
        Err(e) => format!("{{\"status\":\"error\",\"error\":{}}}", esc(&e)),
        Ok(()) => {
            let st = match x.ends.first().map(|e| &e.end) {
                Some(End::Done) => "done".to_string(),
                Some(End::Assumed) => "assumed".to_string(),
                Some(End::Bad(s)) => format!("bad: {s}"),
                None => "none".into(),
            };
            format!(
                "{{\"status\":{},\"trace\":[{}]}}",
                esc(&st),
                x.outputs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
            )
        }
    }
}

/// How a job ends that met a limit.
const LIMITS: [&str; 2] = ["time limit", "memory limit"];

fn job(m: &mut ir::Module, line: &str, o: &Opts) -> String {
    let mut it = line.split_whitespace();
    let entry = it.next().unwrap();
    let args: Vec<u64> = it.map(num).collect();
    let t0 = Instant::now();
    let mut rng = Rng(o.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1);
    for b in line.bytes() {
        rng.0 = (rng.0 ^ b as u64).wrapping_mul(0x100_0000_01b3) | 1;
    }
    let mut x = Exec::new(m);
    let end = t0 + Duration::from_secs(o.time);
    let end = o.end.map_or(end, |d| d.min(end));
    x.deadline = Some(end);
    x.max_bytes = mem::used().saturating_add(o.max_bytes);
    x.t.bdd.max_bytes = x.max_bytes;
    x.t.bdd.deadline = Some(end);
    let r = x.run(entry, &args);
    let exec_s = t0.elapsed().as_secs_f64();
    let mut out = format!("{{\"job\":{},\"exec_s\":{exec_s:.3}", esc(line));
    let s = &x.st;
    let _ = write!(
        out,
        ",\"steps\":{},\"states\":{},\"merges\":{},\"joins\":{},\"forks\":{},\"pruned\":{},\"guards\":{},\"terms\":{},\"peak_bdd\":{},\"ends\":{},\"vars\":{}",
        s.steps,
        s.states,
        s.merges,
        s.joins,
        s.forks,
        s.pruned,
        x.guards.len(),
        x.t.n.len(),
        s.peak_bdd.max(x.t.bdd.nodes.len()),
        x.ends.len(),
        x.t.nvars
    );
    let fl: Vec<String> = x.funcs_used.iter().map(|(k, v)| format!("{}:{v}", esc(k))).collect();
    let _ = write!(out, ",\"functions\":{{{}}}", fl.join(","));
    let bad: Vec<usize> = (0..x.ends.len()).filter(|i| matches!(x.ends[*i].end, End::Bad(_)) && x.ends[*i].g != bdd::F).collect();
    let mut limited = false;
    if let Err(e) = r {
        limited = LIMITS.contains(&e.as_str());
        if !limited || bad.is_empty() {
            let st = if limited { "undecided" } else { "error" };
            let _ = write!(out, ",\"status\":\"{st}\",\"error\":{}}}", esc(&e));
            return out;
        }
        // what was found before the limit is still asked for below
        x.t.bdd.deadline = None;
        x.t.bdd.max_bytes = isize::MAX;
    }
    // ---- verdict
    let nv = x.t.nvars;
    let mut queries = vec![];
    let mut cex: Vec<(String, String, Vec<u8>)> = vec![];
    let mut status = "ok";
    let mut error = String::new();
    if limited {
        status = "bad";
    } else {
        let mut em = smt::Emit::new(&x.t, &x.guards);
        let mut q = String::from("(assert (not (or false");
        for e in &x.ends {
            if !matches!(e.end, End::Bad(_)) {
                em.guard(e.gn);
                let _ = write!(q, " g{}", e.gn);
            }
        }
        q.push_str(")))\n");
        em.out.push_str(&q);
        let (v, dt) = smt::solve(&o.solver, &em.out, nv, o.solve_time, o.keep.as_deref());
        queries.push((o.solver.clone(), "every input ends well", v.clone(), dt));
        if let Some(c) = &o.cross {
            let (v2, dt2) = smt::solve(c, &em.out, nv, o.solve_time, None);
            let agree = matches!((&v, &v2), (Verdict::Unsat, Verdict::Unsat) | (Verdict::Sat(_), Verdict::Sat(_)));
            if !agree && !matches!(v2, Verdict::Unknown(_)) && !matches!(v, Verdict::Unknown(_)) {
                status = "error";
                error = format!("{} and {} disagree: {:?} {:?}", o.solver, c, v, v2);
            }
            queries.push((c.clone(), "every input ends well", v2, dt2));
        }
        match &v {
            Verdict::Unsat => {
                if !bad.is_empty() {
                    status = "error";
                    error = "the solver finds no bad input, the exploration does".into();
                }
            }
            Verdict::Sat(_) => {
                if bad.is_empty() {
                    status = "error";
                    error = "the solver finds an input the exploration does not cover".into();
                } else {
                    status = "bad";
                }
            }
            Verdict::Unknown(w) => {
                let limit = w.trim().is_empty() || ["timeout", "unknown", "out of memory", "interrupted"].iter().any(|k| w.contains(k));
                status = if limit { "undecided" } else { "error" };
                error = format!("solver: {w}");
            }
        }
    }
    // ---- a counterexample per kind of failure, from the solver
    if status == "bad" {
        let mut kinds: Vec<String> = vec![];
        for &i in &bad {
            let e = &x.ends[i];
            let End::Bad(msg) = &e.end else { continue };
            if kinds.contains(msg) {
                continue;
            }
            kinds.push(msg.clone());
            if kinds.len() > 6 {
                break;
            }
            let mut em = smt::Emit::new(&x.t, &x.guards);
            let mut q = String::from("(assert (or false");
            for &j in &bad {
                let e2 = &x.ends[j];
                if matches!(&e2.end, End::Bad(m2) if m2 == msg) {
                    em.guard(e2.gn);
                    let _ = write!(q, " g{}", e2.gn);
                }
            }
            q.push_str("))\n");
            em.out.push_str(&q);
            let (v, dt) = smt::solve(&o.solver, &em.out, nv, o.solve_time, None);
            queries.push((o.solver.clone(), "an input that fails", v.clone(), dt));
            if let Verdict::Sat(md) = v {
                cex.push((msg.clone(), e.loc.clone(), md));
            }
            cex.push((msg.clone(), e.loc.clone(), model_of(&x, e.g, &mut rng)));
        }
    }
    // ---- witnesses and samples
    let mut samples: Vec<(Option<u32>, Vec<u8>)> = vec![];
    let reached: Vec<(u32, B)> = x.reached.iter().map(|(k, v)| (*k, v.0)).collect();
    for (k, g) in &reached {
        samples.push((Some(*k), model_of(&x, *g, &mut rng)));
    }
    let good: Vec<usize> = (0..x.ends.len()).filter(|i| matches!(x.ends[*i].end, End::Done) && x.ends[*i].g != bdd::F).collect();
    if !good.is_empty() {
        let i = good[(rng.next() % good.len() as u64) as usize];
        samples.push((None, model_of(&x, x.ends[i].g, &mut rng)));
    }
    drop(x);
    let ss: Vec<String> = samples
        .iter()
        .map(|(k, md)| {
            format!(
                "{{\"reach\":{},\"model\":\"{}\",\"engine\":{}}}",
                k.map(|k| k.to_string()).unwrap_or("null".into()),
                hex(md),
                concrete(m, entry, &args, md)
            )
        })
        .collect();
    let qs: Vec<String> = queries
        .iter()
        .map(|(s, w, v, dt)| {
            let v = match v {
                Verdict::Unsat => "unsat".to_string(),
                Verdict::Sat(_) => "sat".into(),
                Verdict::Unknown(e) => format!("unknown {e}"),
            };
            format!("{{\"solver\":{},\"question\":{},\"answer\":{},\"s\":{dt:.3}}}", esc(s), esc(w), esc(&v))
        })
        .collect();
    let cs: Vec<String> =
        cex.iter().map(|(a, b, md)| format!("{{\"what\":{},\"where\":{},\"model\":\"{}\"}}", esc(a), esc(b), hex(md))).collect();
    let _ = write!(
        out,
        ",\"status\":{},\"error\":{},\"queries\":[{}],\"reached\":[{}],\"samples\":[{}],\"cex\":[{}],\"total_s\":{:.3}}}",
        esc(status),
        esc(&error),
        qs.join(","),
        reached.iter().map(|r| r.0.to_string()).collect::<Vec<_>>().join(","),
        ss.join(","),
        cs.join(","),
        t0.elapsed().as_secs_f64()
    );
    out
}

fn main() {
    // what panics is told in the answer
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    let ll = get("--ll").expect("--ll");
    let text = std::fs::read_to_string(&ll).expect("read module");
    let o = Opts {
        time: get("--time").map(|x| x.parse().unwrap()).unwrap_or(600),
        solve_time: get("--solve-time").map(|x| x.parse().unwrap()).unwrap_or(300),
        solver: get("--solver").unwrap_or("z3-new".into()),
        cross: get("--cross"),
        seed: get("--seed").map(|x| x.parse().unwrap()).unwrap_or(1),
        keep: get("--keep"),
        max_bytes: get("--memory").map(|x| x.parse::<isize>().unwrap() << 20).unwrap_or(isize::MAX),
        end: get("--total").map(|x| Instant::now() + Duration::from_secs(x.parse().unwrap())),
    };
    if let Some(model) = get("--model") {
        // concrete run of one job
        let line = get("--job").unwrap();
        let md: Vec<u8> = (0..model.len() / 2).map(|i| u8::from_str_radix(&model[2 * i..2 * i + 2], 16).unwrap()).collect();
        let h = std::thread::Builder::new()
            .stack_size(1 << 29)
            .spawn(move || {
                let mut m = ir::Module::load(text);
                let mut it = line.split_whitespace();
                let e = it.next().unwrap().to_string();
                let args: Vec<u64> = it.map(num).collect();
                println!("{}", concrete(&mut m, &e, &args, &md));
            })
            .unwrap();
        h.join().unwrap();
        return;
    }
    let jobs: Vec<String> = match get("--job") {
        Some(j) => vec![j],
        None => std::fs::read_to_string(get("--jobs").expect("--jobs"))
            .unwrap()
            .lines()
            .filter(|l| !l.trim().is_empty())
            .map(|l| l.to_string())
            .collect(),
    };
    let j: usize = get("-j").map(|x| x.parse().unwrap()).unwrap_or(8);
    let stop: usize = get("--stop").map(|x| x.parse().unwrap()).unwrap_or(usize::MAX);
    let n = jobs.len();
    let jobs = Arc::new(jobs);
    let next = Arc::new(Mutex::new((0usize, n)));
    let bad = Arc::new(Mutex::new(0usize));
    let sink: Box<dyn std::io::Write + Send> = match get("--out") {
        Some(f) => Box::new(std::fs::File::create(f).expect("create")),
        None => Box::new(std::io::stdout()),
    };
    let sink = Arc::new(Mutex::new(sink));
    let text = Arc::new(text);
    let mut hs = vec![];
    for worker in 0..j.min(n) {
        let (jobs, next, bad, sink, text, o) = (jobs.clone(), next.clone(), bad.clone(), sink.clone(), text.clone(), o.clone());
        hs.push(
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn(move || {
                    let mut m = ir::Module::load(text.to_string());
                    loop {
                        let i = {
                            let mut k = next.lock().unwrap();
                            if k.0 >= k.1 || *bad.lock().unwrap() >= stop || o.end.is_some_and(|d| Instant::now() > d) {
                                return;
                            }
                            if worker % 2 == 0 {
                                k.0 += 1;
                                k.0 - 1
                            } else {
                                k.1 -= 1;
                                k.1
                            }
                        };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| job(&mut m, &jobs[i], &o)));
                        let r = match r {
                            Ok(r) => r,
                            Err(e) => {
                                m = ir::Module::load(text.to_string());
                                let e = e
                                    .downcast_ref::<String>()
                                    .cloned()
                                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                                    .unwrap_or_default();
                                let (st, e) = match LIMITS.contains(&e.as_str()) {
                                    true => ("undecided", e),
                                    false => ("error", format!("engine panic: {e}")),
                                };
                                format!("{{\"job\":{},\"status\":\"{st}\",\"error\":{}}}", esc(&jobs[i]), esc(&e))
                            }
                        };
                        if r.contains(",\"status\":\"bad\"") {
                            let mut b = bad.lock().unwrap();
                            *b += 1;
                            if *b >= stop {
                                exec::STOP.store(true, std::sync::atomic::Ordering::Relaxed);
                            }
                        }
                        let mut s = sink.lock().unwrap();
                        let _ = writeln!(s, "{r}");
                        let _ = s.flush();
                    }
                })
                .unwrap(),
        );
    }
    let mut died = false;
    for h in hs {
        died |= h.join().is_err();
    }
    if died {
        std::process::exit(3);
    }
}
