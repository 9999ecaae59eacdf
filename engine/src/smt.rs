//! The guard graph as SMT-LIB, and a solver process to decide it.

use crate::exec::*;
use crate::ir::{BinOp, Pred};
use crate::term::*;
use std::fmt::Write as _;
use std::io::Write as _;
use std::process::{Command, Stdio};

pub struct Emit<'a> {
    pub t: &'a Terms,
    pub g: &'a [G],
    pub out: String,
    done_t: Vec<bool>,
    done_g: Vec<bool>,
    pub nterms: usize,
    pub nguards: usize,
    inline: bool,
}

impl<'a> Emit<'a> {
    pub fn new(t: &'a Terms, g: &'a [G]) -> Self {
        let mut out = String::from("(set-logic QF_BV)\n");
        for v in 0..t.nvars {
            let _ = writeln!(out, "(declare-const v{v} (_ BitVec 8))");
        }
        Emit { t, g, out, done_t: vec![false; t.n.len()], done_g: vec![false; g.len()], nterms: 0, nguards: 0, inline: true }
    }
    fn bv(&self, x: Tm) -> String {
        let (n, w) = self.t.n[x as usize];
        match n {
            N::Const(v) if w == 1 => (if v == 1 { "true" } else { "false" }).into(),
            N::Const(v) => format!("(_ bv{v} {w})"),
            N::Var(v) => format!("v{v}"),
            _ => format!("t{x}"),
        }
    }
    /// operand as a bit-vector even when one bit wide
    fn bvx(&self, x: Tm) -> String {
        if self.t.w(x) == 1 {
            format!("(ite {} #b1 #b0)", self.bv(x))
        } else {
            self.bv(x)
        }
    }
    pub fn term(&mut self, root: Tm) {
        let mut st = vec![(root, false)];
        while let Some((x, ready)) = st.pop() {
            if self.done_t[x as usize] {
                continue;
            }
            let (n, w) = self.t.n[x as usize];
            if matches!(n, N::Const(_) | N::Var(_)) {
                self.done_t[x as usize] = true;
                continue;
            }
            if !ready {
                st.push((x, true));
                match n {
                    N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Cat(a, b) => {
                        st.push((a, false));
                        st.push((b, false));
                    }
                    N::Ite(c, a, b) => {
                        st.push((c, false));
                        st.push((a, false));
                        st.push((b, false));
                    }
                    N::Zext(a) | N::Sext(a) | N::Ext(a, _) => st.push((a, false)),
                    _ => {}
                }
                continue;
            }
            self.done_t[x as usize] = true;
            self.nterms += 1;
            let sort = if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {w})") };
            let body = match n {
                N::Bin(op, a, b) if w == 1 => {
                    let (p, q) = (self.bv(a), self.bv(b));
                    match op {
                        BinOp::And | BinOp::Mul => format!("(and {p} {q})"),
                        BinOp::Or => format!("(or {p} {q})"),
                        BinOp::Xor | BinOp::Add | BinOp::Sub => format!("(xor {p} {q})"),
                        BinOp::Shl | BinOp::LShr => format!("(and {p} (not {q}))"),
                        _ => p,
                    }
                }
                N::Bin(op, a, b) => {
                    let f = match op {
                        BinOp::Add => "bvadd",
                        BinOp::Sub => "bvsub",
                        BinOp::Mul => "bvmul",
                        BinOp::UDiv => "bvudiv",
                        BinOp::SDiv => "bvsdiv",
                        BinOp::URem => "bvurem",
                        BinOp::SRem => "bvsrem",
                        BinOp::And => "bvand",
                        BinOp::Or => "bvor",
                        BinOp::Xor => "bvxor",
                        BinOp::Shl => "bvshl",
                        BinOp::LShr => "bvlshr",
                        BinOp::AShr => "bvashr",
                    };
                    format!("({f} {} {})", self.bv(a), self.bv(b))
                }
                N::Cmp(p, a, b) => {
                    let one = self.t.w(a) == 1;
                    let (x, y) = match p {
                        Pred::Eq | Pred::Ne => (self.bv(a), self.bv(b)),
                        _ if one => (self.bvx(a), self.bvx(b)),
                        _ => (self.bv(a), self.bv(b)),
                    };
                    match p {
                        Pred::Eq => format!("(= {x} {y})"),
                        Pred::Ne => format!("(not (= {x} {y}))"),
                        Pred::Ugt => format!("(bvugt {x} {y})"),
                        Pred::Uge => format!("(bvuge {x} {y})"),
                        Pred::Ult => format!("(bvult {x} {y})"),
                        Pred::Ule => format!("(bvule {x} {y})"),
                        Pred::Sgt => format!("(bvsgt {x} {y})"),
                        Pred::Sge => format!("(bvsge {x} {y})"),
                        Pred::Slt => format!("(bvslt {x} {y})"),
                        Pred::Sle => format!("(bvsle {x} {y})"),
                    }
                }
                N::Ite(c, a, b) => format!("(ite {} {} {})", self.bv(c), self.bv(a), self.bv(b)),
                N::Zext(a) => format!("((_ zero_extend {}) {})", w - self.t.w(a), self.bvx(a)),
                N::Sext(a) => format!("((_ sign_extend {}) {})", w - self.t.w(a), self.bvx(a)),
                N::Ext(a, o) => {
                    let e = format!("((_ extract {} {}) {})", o + w - 1, o, self.bvx(a));
                    if w == 1 {
                        format!("(= {e} #b1)")
                    } else {
                        e
                    }
                }
                N::Cat(h, l) => format!("(concat {} {})", self.bvx(h), self.bvx(l)),
                _ => unreachable!(),
            };
            let _ = writeln!(self.out, "(define-fun t{x} () {sort} {body})");
        }
    }
    pub fn guard(&mut self, root: u32) {
        let mut st = vec![(root, false)];
        while let Some((x, ready)) = st.pop() {
            if self.done_g[x as usize] {
                continue;
            }
            if !ready {
                st.push((x, true));
                match &self.g[x as usize] {
                    G::True => {}
                    G::And(p, _) => st.push((*p, false)),
                    G::Or(v) => {
                        for p in v {
                            st.push((*p, false))
                        }
                    }
                }
                continue;
            }
            self.done_g[x as usize] = true;
            self.nguards += 1;
            let body = match &self.g[x as usize] {
                G::True => "true".to_string(),
                G::And(p, c) => {
                    let (p, c) = (*p, *c);
                    self.term(c);
                    format!("(and g{p} {})", self.bv(c))
                }
                G::Or(v) => {
                    let mut s = String::from("(or");
                    for p in v {
                        let _ = write!(s, " g{p}");
                    }
                    s.push(')');
                    s
                }
            };
            let _ = self.inline;
            let _ = writeln!(self.out, "(declare-const g{x} Bool)\n(assert (= g{x} {body}))");
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Unsat,
    Sat(Vec<u8>),
    Unknown(String),
}

/// Runs a solver on a complete script (without check-sat).
pub fn solve(solver: &str, script: &str, nvars: u32, timeout_s: u64, keep: Option<&str>) -> (Verdict, f64) {
    let t0 = std::time::Instant::now();
    let mut full = String::with_capacity(script.len() + 100);
    full.push_str("(set-option :produce-models true)\n");
    full.push_str(script);
    full.push_str("(check-sat)\n");
    if nvars > 0 {
        full.push_str("(get-value (");
        for v in 0..nvars {
            let _ = write!(full, "v{v} ");
        }
        full.push_str("))\n");
    }
    if let Some(k) = keep {
        let _ = std::fs::write(k, &full);
    }
    let args: Vec<String> = match solver {
        "cvc5" => vec!["--lang=smt2".into(), format!("--tlimit={}", timeout_s * 1000)],
        _ => vec!["-in".into(), "-smt2".into(), format!("-T:{timeout_s}"), "-memory:6000".into()],
    };
    let mut ch = match Command::new(solver).args(&args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
        Ok(c) => c,
        Err(e) => return (Verdict::Unknown(format!("{solver}: {e}")), 0.0),
    };
    let mut si = ch.stdin.take().unwrap();
    let h = std::thread::spawn(move || {
        let _ = si.write_all(full.as_bytes());
        drop(si);
    });
    let o = ch.wait_with_output();
    let _ = h.join();
    let dt = t0.elapsed().as_secs_f64();
    let s = match o {
        Ok(o) => String::from_utf8_lossy(&o.stdout).into_owned(),
        Err(e) => return (Verdict::Unknown(e.to_string()), dt),
    };
    let first = s.lines().next().unwrap_or("").trim().to_string();
    if first == "unsat" {
        return (Verdict::Unsat, dt);
    }
    if first == "sat" && !s.contains("(error") {
        let mut m = vec![0u8; nvars as usize];
        let toks: Vec<&str> = s.split(|c: char| c.is_whitespace() || c == '(' || c == ')').filter(|x| !x.is_empty()).collect();
        let mut i = 0;
        while i + 1 < toks.len() {
            if let Some(n) = toks[i].strip_prefix('v') {
                if let Ok(n) = n.parse::<usize>() {
                    let t = toks[i + 1];
                    let v = if let Some(x) = t.strip_prefix("#x") {
                        u8::from_str_radix(x, 16).ok()
                    } else if let Some(b) = t.strip_prefix("#b") {
                        u8::from_str_radix(b, 2).ok()
                    } else {
                        None
                    };
                    if let Some(v) = v {
                        if n < m.len() {
                            m[n] = v
                        }
                    }
                    i += 2;
                    continue;
                }
            }
            i += 1;
        }
        return (Verdict::Sat(m), dt);
    }
    (Verdict::Unknown(s.chars().take(300).collect()), dt)
}
