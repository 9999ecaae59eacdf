//! Guarded symbolic execution with state merging.
//!
//! A state has concrete control (program points, addresses, lengths, flags)
//! and symbolic data (terms over the input bytes). Each state carries a guard:
//! the exact set of inputs that reach it, both as a node of the guard graph
//! (what the SMT solver gets) and as a BDD (what prunes infeasible branches).

use crate::bdd::{self, FxMap, B};
use crate::ir::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::hash::{Hash, Hasher};
use std::rc::Rc;

/// Enough bad inputs are known: what still runs stops as if out of time.
pub static STOP: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub const UNDEF: Tm = u32::MAX;
const STACK_BASE: u64 = 0x7000_0000_0000;
const HEAP_BASE: u64 = 0x4000_0000_0000;
const HEAP_SLOT: u64 = 1 << 24;
pub const BYTE_VARS: u32 = 16; // variables below are choices

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    C(u64),
    T(Tm),
    A(Rc<Vec<Val>>),
    U,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Obj {
    pub bytes: Vec<Tm>,
}

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    blk: u32,
    ip: u32,
    regs: Rc<Vec<Val>>,
    sp: u64,
    loops: Vec<(u32, u32)>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    mem: Rc<BTreeMap<u64, Rc<Obj>>>,
    sp: u64,
    g: B,
    gn: u32,
    choices: u32,
}

pub enum G {
    True,
    And(u32, Tm),
    Or(Vec<u32>),
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Assumed,
    Bad(String),
}

pub struct Terminal {
    pub end: End,
    pub g: B,
    pub gn: u32,
    pub loc: String,
}

enum Stop {
    Fork(Tm),          // the instruction needs this term to be concrete
    Bad(String),       // property violation or undefined behaviour
    Err(String),       // the engine cannot go on
}
type R<T> = Result<T, Stop>;
/// No loop of the code under test turns this often on texts of at most 128 bytes.
const MOST_TURNS: u32 = 4096;
const MOST_FRAMES: usize = 600;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Err(s.into()))
}
fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(s.into()))
}

enum Flow {
    Next,
    Jump(u32),
    Branch(Vec<(Tm, u32)>),
    Returned,
    Merge,
    Finished,
    Assumed,
}

enum Go {
    Merged(Vec<State>),
    On(State),
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub states: u64,
    pub merges: u64,
    pub joins: u64,
    pub forks: u64,
    pub pruned: u64,
    pub max_frontier: usize,
    pub peak_bdd: usize,
    pub gcs: u64,
}

pub struct Exec<'m> {
    pub m: &'m mut Module,
    pub t: Terms,
    pub guards: Vec<G>,
    pub ends: Vec<Terminal>,
    pub st: Stats,
    pub reached: BTreeMap<u32, (B, u64)>,
    pub funcs_used: HashMap<String, u64>,
    consts: FxMap<u64, Rc<Obj>>, // constant globals, by base address
    noret: HashMap<String, bool>,
    pub max_states: u64,
    pub deadline: Option<std::time::Instant>,
    pub max_bytes: isize,
    pub concrete: Option<Vec<u8>>,
    pub outputs: Vec<u32>,
    pub trace: bool,
}

impl<'m> Exec<'m> {
    pub fn new(m: &'m mut Module) -> Self {
        Exec {
            m,
            t: Terms::new(),
            guards: vec![G::True],
            ends: vec![],
            st: Stats::default(),
            reached: Default::default(),
            funcs_used: HashMap::new(),
            consts: Default::default(),
            noret: HashMap::new(),
            max_states: u64::MAX,
            deadline: None,
            max_bytes: isize::MAX,
            concrete: None,
            outputs: vec![],
            trace: false,
        }
    }

    fn noreturn(&mut self, n: &str) -> bool {
        if let Some(b) = self.noret.get(n) {
            return *b;
        }
        let b = self.m.header_noreturn(n);
        self.noret.insert(n.to_string(), b);
        b
    }

    pub fn run(&mut self, entry: &str, args: &[u64]) -> Result<(), String> {
        let f = self.m.func(entry)?.ok_or_else(|| format!("no function {entry}"))?;
        let mut regs = vec![Val::U; f.nregs];
        for (p, a) in f.params.iter().zip(args) {
            regs[*p as usize] = Val::C(*a)
        }
        *self.funcs_used.entry(entry.to_string()).or_insert(0) += 1;
        let s = State {
            frames: vec![Frame { loops: enter_loops(&f, &[], None, 0), f, blk: 0, ip: 0, regs: Rc::new(regs), sp: STACK_BASE }],
            mem: Default::default(),
            sp: STACK_BASE,
            g: bdd::T,
            gn: 0,
            choices: 0,
        };
        let mut frontier: BTreeMap<Vec<u32>, Vec<(u64, State)>> = BTreeMap::new();
        frontier.insert(key(&s), vec![(0, s)]);
        let mut threshold = 1usize << 20;
        while let Some((_, bucket)) = frontier.pop_first() {
            if self.t.bdd.nodes.len() > threshold {
                let k = bucket.first().map(|x| key(&x.1)).unwrap();
                frontier.insert(k.clone(), bucket);
                let mut roots: Vec<&mut B> = vec![];
                for b in frontier.values_mut() {
                    for (_, s) in b.iter_mut() {
                        roots.push(&mut s.g)
                    }
                }
                for e in self.ends.iter_mut() {
                    roots.push(&mut e.g)
                }
                for r in self.reached.values_mut() {
                    roots.push(&mut r.0)
                }
                self.st.peak_bdd = self.st.peak_bdd.max(self.t.bdd.nodes.len());
                self.t.gc(&mut roots);
                self.st.gcs += 1;
                threshold = (self.t.bdd.nodes.len() * 4).max(1 << 20);
                continue;
            }
            self.st.max_frontier = self.st.max_frontier.max(bucket.len());
            self.limits()?;
            for (_, s) in bucket {
                let mut work = vec![s];
                while let Some(s) = work.pop() {
                    self.st.states += 1;
                    if self.st.states % 64 == 0 {
                        self.limits()?;
                    }
                    if self.st.states > self.max_states {
                        return Err("state limit".into());
                    }
                    for s in self.run_segment(s, &mut work)? {
                        let k = key(&s);
                        let b = frontier.entry(k).or_default();
                        self.insert(b, s);
                    }
                }
            }
        }
        Ok(())
    }

    fn limits(&self) -> Result<(), String> {
        if STOP.load(std::sync::atomic::Ordering::Relaxed) || self.deadline.is_some_and(|d| std::time::Instant::now() > d) {
            return Err("time limit".into());
        }
        if crate::mem::used() > self.max_bytes {
            return Err("memory limit".into());
        }
        Ok(())
    }

    fn insert(&mut self, b: &mut Vec<(u64, State)>, s: State) {
        if b.is_empty() {
            b.push((0, s));
            return;
        }
        if b.len() == 1 && b[0].0 == 0 {
            b[0].0 = hash_state(&b[0].1);
        }
        let h = hash_state(&s);
        for (h2, o) in b.iter_mut() {
            if *h2 == h && same(o, &s) {
                self.st.merges += 1;
                o.g = self.t.bdd.or(o.g, s.g);
                o.gn = {
                    let fresh = self.guards.len() as u32;
                    match &mut self.guards[o.gn as usize] {
                        G::Or(v) if o.gn + 1 == fresh => {
                            v.push(s.gn);
                            o.gn
                        }
                        _ => {
                            self.guards.push(G::Or(vec![o.gn, s.gn]));
                            fresh
                        }
                    }
                };
                return;
            }
        }
        // the same but for a few bytes of data
        for i in (0..b.len()).rev().take(8) {
            if let Some(mut j) = self.join(&b[i].1, &s) {
                self.st.joins += 1;
                j.g = self.t.bdd.or(b[i].1.g, s.g);
                self.guards.push(G::Or(vec![b[i].1.gn, s.gn]));
                j.gn = self.guards.len() as u32 - 1;
                b.remove(i);
                self.insert(b, j);
                return;
            }
        }
        b.push((h, s));
    }

    /// One state for both, when they only differ in data that depend on one
    /// input byte each, and this byte tells them apart.
    fn join(&mut self, a: &State, b: &State) -> Option<State> {
        if a.frames.len() != b.frames.len() || a.sp != b.sp || a.choices != b.choices || a.mem.len() != b.mem.len() {
            return None;
        }
        // what differs: terms of the same width
        let mut diff: Vec<(Tm, Tm)> = vec![];
        for (x, y) in a.frames.iter().zip(&b.frames) {
            if !Rc::ptr_eq(&x.f, &y.f) || x.blk != y.blk || x.ip != y.ip || x.sp != y.sp {
                return None;
            }
            if !Rc::ptr_eq(&x.regs, &y.regs) {
                for (p, q) in x.regs.iter().zip(y.regs.iter()) {
                    if p != q {
                        match (p, q) {
                            (Val::T(p), Val::T(q)) => diff.push((*p, *q)),
                            _ => return None,
                        }
                    }
                }
            }
        }
        for ((k, x), (l, y)) in a.mem.iter().zip(b.mem.iter()) {
            if k != l || x.bytes.len() != y.bytes.len() {
                return None;
            }
            if !Rc::ptr_eq(x, y) {
                for (p, q) in x.bytes.iter().zip(&y.bytes) {
                    if p != q {
                        if *p == UNDEF || *q == UNDEF || (*p < 256 && *q < 256) || diff.len() > 32 {
                            return None;
                        }
                        diff.push((*p, *q));
                    }
                }
            }
        }
        diff.sort();
        diff.dedup();
        if diff.is_empty() || diff.len() > 16 {
            return None;
        }
        // words of several bytes, byte by byte
        let mut words: Vec<((Tm, Tm), Vec<Tm>, Vec<Tm>)> = vec![];
        for i in (0..diff.len()).rev() {
            let (p, q) = diff[i];
            if self.t.w(p) != self.t.w(q) {
                return None;
            }
            if self.t.w(p) > 8 && (self.t.sup[p as usize] == MULTI || self.t.sup[q as usize] == MULTI) {
                words.push(((p, q), self.t.lanes(p)?, self.t.lanes(q)?));
                diff.swap_remove(i);
            }
        }
        for (_, x, y) in &words {
            diff.extend(x.iter().zip(y).filter(|(x, y)| x != y).map(|(x, y)| (*x, *y)));
        }
        diff.sort();
        diff.dedup();
        if diff.len() > 16 {
            return None;
        }
        let mut vars = BTreeSet::new();
        for (p, q) in &diff {
            let (x, y) = (*p as usize, *q as usize);
            let v = if self.t.cv(*p).is_some() { self.t.sup[y] } else { self.t.sup[x] };
            if self.t.w(*p) != self.t.w(*q) || v == MULTI || v < BYTE_VARS || self.t.ctl[x] || self.t.ctl[y] {
                return None;
            }
            if self.t.cv(*q).is_none() && self.t.sup[y] != v {
                return None;
            }
            vars.insert(v);
        }
        let mut sets: FxMap<u32, (Vec<bool>, Vec<bool>)> = Default::default();
        for v in vars {
            sets.insert(v, (self.t.values(a.g, v)?, self.t.values(b.g, v)?));
        }
        let mut to: FxMap<(Tm, Tm), Tm> = Default::default();
        for (p, q) in diff {
            let v = if self.t.cv(p).is_some() { self.t.sup[q as usize] } else { self.t.sup[p as usize] };
            let (va, vb) = &sets[&v];
            let r = self.t.splice(v, p, va, q, vb)?;
            if self.t.ctl[r as usize] {
                return None;
            }
            to.insert((p, q), r);
        }
        for (w, x, y) in words {
            let l: Vec<Tm> = x.iter().zip(&y).map(|(x, y)| if x == y { *x } else { to[&(*x, *y)] }).collect();
            let r = self.t.of_lanes(&l);
            to.insert(w, r);
        }
        let mut j = a.clone();
        for (i, y) in b.frames.iter().enumerate() {
            if Rc::ptr_eq(&a.frames[i].regs, &y.regs) {
                continue;
            }
            for k in 0..y.regs.len() {
                if let (Val::T(p), Val::T(q)) = (&a.frames[i].regs[k], &y.regs[k]) {
                    if p != q {
                        let v = self.val(to[&(*p, *q)]);
                        Rc::make_mut(&mut j.frames[i].regs)[k] = v;
                    }
                }
            }
        }
        for ((k, x), y) in a.mem.iter().zip(b.mem.values()) {
            if Rc::ptr_eq(x, y) || x == y {
                continue;
            }
            let o = Rc::make_mut(Rc::make_mut(&mut j.mem).get_mut(k).unwrap());
            for i in 0..o.bytes.len() {
                if x.bytes[i] != y.bytes[i] {
                    o.bytes[i] = to[&(x.bytes[i], y.bytes[i])];
                }
            }
        }
        Some(j)
    }

    fn guard_and(&mut self, g: u32, c: Tm) -> u32 {
        if self.t.cv(c) == Some(1) {
            return g;
        }
        self.guards.push(G::And(g, c));
        self.guards.len() as u32 - 1
    }

    fn loc(&self, s: &State) -> String {
        s.frames.iter().map(|f| f.f.name.as_str()).collect::<Vec<_>>().join(" > ")
    }

    fn end(&mut self, s: &State, e: End) {
        let loc = if matches!(e, End::Bad(_)) { self.loc(s) } else { String::new() };
        self.ends.push(Terminal { end: e, g: s.g, gn: s.gn, loc });
    }

    /// Runs one state to its next merge points. Forks within go to `work`.
    fn run_segment(&mut self, mut s: State, work: &mut Vec<State>) -> Result<Vec<State>, String> {
        loop {
            self.st.steps += 1;
            match self.step(&mut s) {
                Ok(Flow::Next) => {
                    s.frames.last_mut().unwrap().ip += 1;
                }
                Ok(Flow::Jump(b)) => match self.goto(s, b)? {
                    Go::Merged(v) => return Ok(v),
                    Go::On(s2) => s = s2,
                },
                Ok(Flow::Branch(v)) => {
                    let mut outs = vec![];
                    let mut merged = vec![];
                    for (c, b) in v {
                        let cb = self.t.b(c)?;
                        let g = self.t.bdd.and(s.g, cb);
                        if g == bdd::F {
                            self.st.pruned += 1;
                            continue;
                        }
                        outs.push((c, g, b));
                    }
                    if outs.len() > 1 {
                        self.st.forks += 1;
                    }
                    let single = outs.len() == 1;
                    for (c, g, b) in outs {
                        let mut s2 = s.clone();
                        if !single {
                            s2.g = g;
                            s2.gn = self.guard_and(s.gn, c);
                        }
                        match self.goto(s2, b)? {
                            Go::Merged(v) => merged.extend(v),
                            Go::On(s2) => work.push(s2),
                        }
                    }
                    return Ok(merged);
                }
                Ok(Flow::Returned) | Ok(Flow::Merge) => return self.settle(s),
                Ok(Flow::Finished) => {
                    self.end(&s, End::Done);
                    return Ok(vec![]);
                }
                Ok(Flow::Assumed) => {
                    self.end(&s, End::Assumed);
                    return Ok(vec![]);
                }
                Err(Stop::Fork(t)) => {
                    self.split(&s, t, work)?;
                    return Ok(vec![]);
                }
                Err(Stop::Bad(m)) => {
                    self.end(&s, End::Bad(m));
                    return Ok(vec![]);
                }
                Err(Stop::Err(m)) => {
                    return Err(format!("{m} in {}", self.loc(&s)));
                }
            }
        }
    }

    /// All the values of `t` under the guard, one state each.
    fn split(&mut self, s: &State, t: Tm, work: &mut Vec<State>) -> Result<(), String> {
        self.st.forks += 1;
        let w = self.t.w(t);
        let bits = self.t.blast(t)?;
        let mut rest = s.g;
        let mut n = 0;
        while rest != bdd::F {
            n += 1;
            if n > 300 {
                return Err("too many values to enumerate".into());
            }
            // one value
            let asg: FxMap<u32, bool> = self.t.bdd.sat(rest, &mut |_| false).unwrap().into_iter().collect();
            let mut v = 0u128;
            for (i, b) in bits.iter().enumerate() {
                let mut f = *b;
                while f > 1 {
                    let (x, lo, hi) = self.t.bdd.nodes[f as usize];
                    f = if *asg.get(&x).unwrap_or(&false) { hi } else { lo };
                }
                if f == bdd::T {
                    v |= 1 << i
                }
            }
            let k = self.t.cst(w, v);
            let c = self.t.cmp(Pred::Eq, t, k);
            let cb = self.t.b(c)?;
            let g = self.t.bdd.and(s.g, cb);
            assert!(g != bdd::F);
            let nb = self.t.bdd.not(cb);
            rest = self.t.bdd.and(rest, nb);
            let mut s2 = s.clone();
            if !(n == 1 && rest == bdd::F) {
                s2.g = g;
                s2.gn = self.guard_and(s.gn, c);
            }
            subst(&mut s2, t, if w <= 64 { Val::C(v as u64) } else { Val::T(k) });
            work.push(s2);
        }
        Ok(())
    }

    /// Makes the control-like registers of the top frame concrete.
    fn settle(&mut self, s: State) -> Result<Vec<State>, String> {
        let mut todo = vec![s];
        let mut out = vec![];
        while let Some(s) = todo.pop() {
            let t = s.frames.last().unwrap().regs.iter().find_map(|v| ctl_term(&self.t, v));
            match t {
                None => out.push(s),
                Some(t) => self.split(&s, t, &mut todo)?,
            }
        }
        Ok(out)
    }

    /// Takes the edge to block `b`.
    fn goto(&mut self, mut s: State, b: u32) -> Result<Go, String> {
        let (f, from) = {
            let fr = s.frames.last().unwrap();
            (fr.f.clone(), fr.blk)
        };
        let blk = &f.blocks[b as usize];
        let mut newv = vec![];
        for (d, ty, inc) in &blk.phis {
            let (o, _) = inc.iter().find(|(_, p)| *p == from).ok_or("phi predecessor")?;
            let fr = s.frames.last().unwrap();
            newv.push((*d, opnd(&fr.regs, o, ty)));
        }
        let multi = blk.preds > 1;
        let fr = s.frames.last_mut().unwrap();
        {
            let r = Rc::make_mut(&mut fr.regs);
            for (d, v) in newv {
                r[d as usize] = v
            }
            if multi {
                let live = &f.live_in[b as usize];
                let mut k = 0;
                for i in 0..r.len() {
                    if k < live.len() && live[k] as usize == i {
                        k += 1
                    } else if r[i] != Val::U {
                        r[i] = Val::U
                    }
                }
            }
        }
        fr.loops = enter_loops(&f, &fr.loops, Some(from), b);
        let endless = fr.loops.iter().any(|l| l.1 > MOST_TURNS);
        fr.blk = b;
        fr.ip = 0;
        if endless {
            // a candidate: the replay tells whether it ever ends
            self.end(&s, End::Bad("does not end".into()));
            return Ok(Go::Merged(vec![]));
        }
        if multi {
            return Ok(Go::Merged(self.settle(s)?));
        }
        Ok(Go::On(s))
    }

    // ------------------------------------------------------------ values

    fn tm(&mut self, v: &Val, w: u32) -> R<Tm> {
        match v {
            Val::C(c) => Ok(self.t.cst(w, *c as u128)),
            Val::T(t) => {
                debug_assert_eq!(self.t.w(*t), w);
                Ok(*t)
            }
            Val::U => Ok(self.t.cst(w, 0)),
            Val::A(_) => err("aggregate where a scalar was expected"),
        }
    }
    fn val(&self, t: Tm) -> Val {
        match self.t.n[t as usize] {
            (N::Const(v), w) if w <= 64 => Val::C(v as u64),
            _ => Val::T(t),
        }
    }
    /// The concrete value, forking when there are several.
    fn conc(&mut self, s: &State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::T(t) => {
                if let Some(k) = self.t.cv(*t) {
                    return Ok(k as u64);
                }
                let _ = s;
                Err(Stop::Fork(*t))
            }
            Val::U => bad("undefined value used"),
            Val::A(_) => err("aggregate used as a scalar"),
        }
    }

    fn o(&self, s: &State, o: &Opnd, ty: &Ty) -> Val {
        opnd(&s.frames.last().unwrap().regs, o, ty)
    }

    fn bin(&mut self, op: BinOp, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vector(_, et) = ty {
            let (x, y) = match (a, b) {
                (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                (Val::U, _) | (_, Val::U) => return Ok(Val::U),
                _ => return err("vector operand"),
            };
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(self.bin(op, et, &x[i], &y[i])?)
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.bits();
        match (a, b) {
            (Val::C(x), Val::C(y)) if w <= 64 => {
                if *y == 0 && matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                    return bad("division by zero");
                }
                Ok(Val::C(binop(op, w, *x as u128, *y as u128) as u64))
            }
            (Val::U, Val::U) => Ok(Val::U),
            _ => {
                let x = self.tm(a, w)?;
                let y = self.tm(b, w)?;
                let t = self.t.bin(op, x, y);
                Ok(self.val(t))
            }
        }
    }

    fn cmp(&mut self, p: Pred, ty: &Ty, a: &Val, b: &Val) -> R<Val> {
        if let Ty::Vector(_, et) = ty {
            let (x, y) = match (a, b) {
                (Val::A(x), Val::A(y)) => (x.clone(), y.clone()),
                _ => return err("vector operand"),
            };
            let mut o = vec![];
            for i in 0..x.len() {
                o.push(self.cmp(p, et, &x[i], &y[i])?)
            }
            return Ok(Val::A(Rc::new(o)));
        }
        let w = ty.bits();
        match (a, b) {
            (Val::C(x), Val::C(y)) => Ok(Val::C(cmpop(p, w, *x as u128, *y as u128) as u64)),
            (Val::U, _) | (_, Val::U) => Ok(Val::U),
            _ => {
                let x = self.tm(a, w)?;
                let y = self.tm(b, w)?;
                let t = self.t.cmp(p, x, y);
                Ok(self.val(t))
            }
        }
    }

    fn cast(&mut self, op: CastOp, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        if let (Ty::Vector(_, f), Ty::Vector(_, t)) = (from, to) {
            if op != CastOp::Bit || f.bits() == t.bits() {
                let x = match a {
                    Val::A(x) => x.clone(),
                    Val::U => return Ok(Val::U),
                    _ => return err("vector operand"),
                };
                let mut o = vec![];
                for v in x.iter() {
                    o.push(self.cast(op, f, t, v)?)
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        if from.is_agg() || to.is_agg() {
            // bitcast between vectors and integers: through bytes or bits
            return self.bitcast(from, to, a);
        }
        let (fw, tw) = (from.bits(), to.bits());
        match a {
            Val::U => Ok(Val::U),
            Val::C(c) if tw <= 64 => Ok(Val::C(match op {
                CastOp::Zext | CastOp::Bit => *c & mask(tw) as u64,
                CastOp::Trunc => *c & mask(tw) as u64,
                CastOp::Sext => (sext128(*c as u128, fw) as u128 & mask(tw)) as u64,
            })),
            _ => {
                let x = self.tm(a, fw)?;
                let t = match op {
                    CastOp::Zext => self.t.zext(x, tw),
                    CastOp::Sext => self.t.sext(x, tw),
                    CastOp::Trunc => self.t.ext(x, 0, tw),
                    CastOp::Bit if tw > fw => self.t.zext(x, tw),
                    CastOp::Bit => self.t.ext(x, 0, tw),
                };
                Ok(self.val(t))
            }
        }
    }

    fn bitcast(&mut self, from: &Ty, to: &Ty, a: &Val) -> R<Val> {
        // vector -> bits, element 0 lowest
        let bits = match (from, a) {
            (Ty::Vector(_, et), Val::A(x)) => {
                let mut acc: Option<Tm> = None;
                for v in x.iter() {
                    let t = self.tm(v, et.bits())?;
                    acc = Some(match acc {
                        None => t,
                        Some(l) => self.t.cat(t, l),
                    });
                }
                acc.unwrap()
            }
            _ => self.tm(a, from.bits())?,
        };
        match to {
            Ty::Vector(n, et) => {
                let w = et.bits();
                let mut o = vec![];
                for i in 0..*n as u32 {
                    let t = self.t.ext(bits, i * w, w);
                    o.push(self.val(t));
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => Ok(self.val(bits)),
        }
    }

    // ------------------------------------------------------------ memory

    fn object(&mut self, s: &State, addr: u64, n: u64, write: bool) -> R<(u64, Rc<Obj>)> {
        if addr >= GLOB_BASE && addr < self.m.next_glob {
            let (base, name) = {
                let (b, nm) = self.m.glob_by_addr.range(..=addr).next_back().unwrap();
                (*b, nm.clone())
            };
            let g = self.m.globals[&name].clone();
            if addr + n > base + g.size {
                return bad(format!("out-of-bounds access of {n} bytes at offset {} of @{name} ({} bytes)", addr - base, g.size));
            }
            if let Some(o) = s.mem.get(&base) {
                return Ok((base, o.clone()));
            }
            if write && g.constant {
                return bad(format!("write to constant @{name}"));
            }
            if let Some(o) = self.consts.get(&base) {
                return Ok((base, o.clone()));
            }
            let b = self.m.global_bytes(&name).map_err(Stop::Err)?;
            let o = Rc::new(Obj { bytes: b.iter().map(|x| *x as Tm).collect() });
            self.consts.insert(base, o.clone());
            return Ok((base, o));
        }
        if let Some((b, o)) = s.mem.range(..=addr).next_back() {
            if addr + n <= *b + o.bytes.len() as u64 {
                return Ok((*b, o.clone()));
            }
            if addr < *b + o.bytes.len() as u64 + 4096 {
                return bad(format!("out-of-bounds access of {n} bytes at offset {} of an object of {} bytes", addr - b, o.bytes.len()));
            }
        }
        bad(format!("access of {n} bytes at invalid address {addr:#x}"))
    }

    fn read(&mut self, s: &State, addr: u64, n: u64) -> R<Vec<Tm>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let (b, o) = self.object(s, addr, n, false)?;
        let k = (addr - b) as usize;
        Ok(o.bytes[k..k + n as usize].to_vec())
    }

    fn write(&mut self, s: &mut State, addr: u64, data: &[Tm]) -> R<()> {
        if data.is_empty() {
            return Ok(());
        }
        let (b, o) = self.object(s, addr, data.len() as u64, true)?;
        let k = (addr - b) as usize;
        if o.bytes[k..k + data.len()] == *data {
            return Ok(());
        }
        drop(o);
        let mem = Rc::make_mut(&mut s.mem);
        if !mem.contains_key(&b) {
            let o = self.consts[&b].clone();
            mem.insert(b, o);
        }
        let o = Rc::make_mut(mem.get_mut(&b).unwrap());
        o.bytes[k..k + data.len()].copy_from_slice(data);
        Ok(())
    }

    fn from_bytes(&mut self, ty: &Ty, b: &[Tm]) -> R<Val> {
        match ty {
            Ty::Struct(fs, _) => {
                let mut o = vec![];
                for i in 0..fs.len() {
                    let (off, ft) = ty.field_off(i);
                    let sz = ft.size();
                    o.push(self.from_bytes(&ft, &b[off as usize..(off + sz) as usize])?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                let sz = t.size() as usize;
                let mut o = vec![];
                for i in 0..*n as usize {
                    o.push(self.from_bytes(t, &b[i * sz..(i + 1) * sz])?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            Ty::Void => Ok(Val::U),
            _ => {
                let w = ty.bits();
                if b.iter().all(|x| *x == UNDEF) {
                    return Ok(Val::U);
                }
                let n = ((w + 7) / 8) as usize;
                if b[..n].iter().all(|x| *x < 256 || *x == UNDEF) && w <= 64 {
                    let mut v = 0u64;
                    for i in (0..n).rev() {
                        v = (v << 8) | if b[i] == UNDEF { 0 } else { b[i] as u64 };
                    }
                    return Ok(Val::C(v & mask(w) as u64));
                }
                let mut acc: Option<Tm> = None;
                for &x in b[..n].iter() {
                    let x = if x == UNDEF { 0 } else { x };
                    acc = Some(match acc {
                        None => x,
                        Some(l) => self.t.cat(x, l),
                    });
                }
                let t = acc.unwrap();
                let t = if w % 8 != 0 { self.t.ext(t, 0, w) } else { t };
                Ok(self.val(t))
            }
        }
    }

    fn to_bytes(&mut self, ty: &Ty, v: &Val, out: &mut Vec<Tm>) -> R<()> {
        match ty {
            Ty::Struct(fs, _) => {
                let st = out.len();
                out.resize(st + ty.size() as usize, UNDEF);
                for i in 0..fs.len() {
                    let (off, ft) = ty.field_off(i);
                    let x = match v {
                        Val::A(a) => a[i].clone(),
                        _ => Val::U,
                    };
                    let mut tmp = vec![];
                    self.to_bytes(&ft, &x, &mut tmp)?;
                    for (k, b) in tmp.into_iter().enumerate() {
                        out[st + off as usize + k] = b;
                    }
                }
                Ok(())
            }
            Ty::Arr(n, t) | Ty::Vector(n, t) => {
                for i in 0..*n as usize {
                    let x = match v {
                        Val::A(a) => a[i].clone(),
                        _ => Val::U,
                    };
                    self.to_bytes(t, &x, out)?;
                }
                Ok(())
            }
            Ty::Void => Ok(()),
            _ => {
                let w = ty.bits();
                let n = ty.size() as usize;
                let nb = ((w + 7) / 8) as usize;
                match v {
                    Val::U => out.extend(std::iter::repeat(UNDEF).take(n)),
                    Val::C(c) => {
                        for i in 0..n {
                            out.push(if i < 8 && i < nb { ((c >> (8 * i)) & 0xff) as Tm } else { 0 });
                        }
                    }
                    Val::T(t) => {
                        if self.t.ctl[*t as usize] {
                            return Err(Stop::Fork(*t));
                        }
                        let t = if w % 8 != 0 { self.t.zext(*t, nb as u32 * 8) } else { *t };
                        for i in 0..n {
                            if i < nb {
                                let b = self.t.ext(t, 8 * i as u32, 8);
                                out.push(b);
                            } else {
                                out.push(0);
                            }
                        }
                    }
                    Val::A(_) => return err("aggregate stored as a scalar"),
                }
                Ok(())
            }
        }
    }

    fn heap_alloc(&mut self, s: &mut State, n: u64, fill: Tm) -> R<u64> {
        if n > HEAP_SLOT / 2 {
            return err("huge allocation");
        }
        let mut a = HEAP_BASE;
        while s.mem.contains_key(&a) {
            a += HEAP_SLOT
        }
        Rc::make_mut(&mut s.mem).insert(a, Rc::new(Obj { bytes: vec![fill; n as usize] }));
        Ok(a)
    }
    fn heap_free(&mut self, s: &mut State, p: u64) -> R<()> {
        if p == 0 {
            return Ok(());
        }
        if p < HEAP_BASE || p >= STACK_BASE || !s.mem.contains_key(&p) {
            return bad("free of a pointer that is not an allocation");
        }
        Rc::make_mut(&mut s.mem).remove(&p);
        Ok(())
    }

    // ------------------------------------------------------------ stepping

    fn set(&self, s: &mut State, d: u32, v: Val) {
        let fr = s.frames.last_mut().unwrap();
        Rc::make_mut(&mut fr.regs)[d as usize] = v;
    }

    fn step(&mut self, s: &mut State) -> R<Flow> {
        let (f, blk, ip) = {
            let fr = s.frames.last().unwrap();
            (fr.f.clone(), fr.blk, fr.ip)
        };
        let ins = match f.blocks[blk as usize].ins.get(ip as usize) {
            Some(i) => i,
            None => return err("fell off a block"),
        };
        match ins {
            Ins::Alloca { dst, size, align } => {
                let a = (s.sp + align - 1) / align * align;
                s.sp = a + size.max(&1) + 32;
                Rc::make_mut(&mut s.mem).insert(a, Rc::new(Obj { bytes: vec![UNDEF; *size as usize] }));
                self.set(s, *dst, Val::C(a));
            }
            Ins::Load { dst, ty, ptr } => {
                let p = self.o(s, ptr, &Ty::Ptr);
                let v = match p {
                    Val::T(t) if self.t.sup[t as usize] != MULTI && !ty.is_agg() && self.t.cv(t).is_none() => {
                        self.lookup(s, ty, t)?
                    }
                    _ => {
                        let a = self.conc(s, &p)?;
                        let b = self.read(s, a, ty.store_size())?;
                        self.from_bytes(ty, &b)?
                    }
                };
                self.set(s, *dst, v);
            }
            Ins::Store { ty, val, ptr } => {
                let p = self.o(s, ptr, &Ty::Ptr);
                let a = self.conc(s, &p)?;
                let v = self.o(s, val, ty);
                let mut b = vec![];
                self.to_bytes(ty, &v, &mut b)?;
                b.truncate(ty.store_size() as usize);
                self.write(s, a, &b)?;
            }
            Ins::Gep { dst, base, off, idx } => {
                let mut acc = self.o(s, base, &Ty::Ptr);
                if *off != 0 {
                    acc = self.bin(BinOp::Add, &Ty::Int(64), &acc, &Val::C(*off))?;
                }
                for (o, sc) in idx {
                    let v = self.o(s, o, &Ty::Int(64));
                    let v = self.bin(BinOp::Mul, &Ty::Int(64), &v, &Val::C(*sc))?;
                    acc = self.bin(BinOp::Add, &Ty::Int(64), &acc, &v)?;
                }
                self.set(s, *dst, acc);
            }
            Ins::Bin { dst, op, ty, a, b } => {
                let (x, y) = (self.o(s, a, ty), self.o(s, b, ty));
                let v = self.bin(*op, ty, &x, &y)?;
                self.set(s, *dst, v);
            }
            Ins::Icmp { dst, pred, ty, a, b } => {
                let (x, y) = (self.o(s, a, ty), self.o(s, b, ty));
                let v = self.cmp(*pred, ty, &x, &y)?;
                self.set(s, *dst, v);
            }
            Ins::Cast { dst, op, from, to, a } => {
                let x = self.o(s, a, from);
                let v = self.cast(*op, from, to, &x)?;
                self.set(s, *dst, v);
            }
            Ins::Select { dst, c, ty, a, b, vec } => {
                let (x, y) = (self.o(s, a, ty), self.o(s, b, ty));
                if *vec {
                    let cv = match c {
                        Opnd::Agg(v) => Val::A(Rc::new(v.iter().map(|o| self.o(s, o, &Ty::Int(1))).collect())),
                        _ => self.o(s, c, &Ty::Void),
                    };
                    let (cv, x, y) = match (&cv, &x, &y) {
                        (Val::A(c), Val::A(x), Val::A(y)) => (c.clone(), x.clone(), y.clone()),
                        _ => return err("vector select"),
                    };
                    let w = if let Ty::Vector(_, t) = ty { t.bits() } else { 0 };
                    let mut o = vec![];
                    for i in 0..cv.len() {
                        let ct = self.tm(&cv[i], 1)?;
                        let a = self.tm(&x[i], w)?;
                        let b = self.tm(&y[i], w)?;
                        let t = self.t.ite(ct, a, b);
                        o.push(self.val(t));
                    }
                    self.set(s, *dst, Val::A(Rc::new(o)));
                } else {
                    let cv = self.o(s, c, &Ty::Int(1));
                    let v = match cv {
                        Val::C(k) => {
                            if k & 1 == 1 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::U => return bad("select on an undefined value"),
                        Val::T(t) => {
                            if x == y {
                                x
                            } else if !ty.is_agg() && *ty != Ty::Ptr {
                                let w = ty.bits();
                                let a = self.tm(&x, w)?;
                                let b = self.tm(&y, w)?;
                                let r = self.t.ite(t, a, b);
                                self.val(r)
                            } else {
                                return Err(Stop::Fork(t));
                            }
                        }
                        _ => return err("select"),
                    };
                    self.set(s, *dst, v);
                }
            }
            Ins::Br(b) => return Ok(Flow::Jump(*b)),
            Ins::CondBr(c, a, b) => {
                return match self.o(s, c, &Ty::Int(1)) {
                    Val::C(k) => Ok(Flow::Jump(if k & 1 == 1 { *a } else { *b })),
                    Val::U => bad("branch on an undefined value"),
                    Val::T(t) => {
                        let n = self.t.not(t);
                        Ok(Flow::Branch(vec![(t, *a), (n, *b)]))
                    }
                    _ => err("br"),
                }
            }
            Ins::Switch { w, v, default, cases } => {
                return match self.o(s, v, &Ty::Int(*w)) {
                    Val::C(k) => {
                        Ok(Flow::Jump(cases.iter().find(|(c, _)| *c == k as u128).map(|c| c.1).unwrap_or(*default)))
                    }
                    Val::U => bad("switch on an undefined value"),
                    Val::T(t) => {
                        let mut by: BTreeMap<u32, Tm> = BTreeMap::new();
                        let mut any = self.t.cst(1, 0);
                        for (c, l) in cases {
                            let k = self.t.cst(*w, *c);
                            let e = self.t.cmp(Pred::Eq, t, k);
                            any = self.t.or(any, e);
                            if l != default {
                                let z = self.t.cst(1, 0);
                                let o = *by.get(l).unwrap_or(&z);
                                let n = self.t.or(o, e);
                                by.insert(*l, n);
                            }
                        }
                        let mut d = any;
                        for c in by.values() {
                            let _ = c;
                        }
                        if cases.iter().any(|(_, l)| l == default) {
                            let mut x = self.t.cst(1, 0);
                            for c in by.values() {
                                x = self.t.or(x, *c)
                            }
                            d = x;
                        }
                        let nd = self.t.not(d);
                        let mut out = vec![(nd, *default)];
                        out.extend(by.iter().map(|(l, c)| (*c, *l)));
                        Ok(Flow::Branch(out))
                    }
                    _ => err("switch"),
                }
            }
            Ins::Ret(v) => {
                let v = match v {
                    Some(o) => self.o(s, o, &Ty::Void),
                    None => Val::U,
                };
                // drop the frame's objects
                let base = s.frames.last().unwrap().sp;
                let dead: Vec<u64> = s.mem.range(base..).map(|(k, _)| *k).collect();
                if !dead.is_empty() {
                    let m = Rc::make_mut(&mut s.mem);
                    for k in dead {
                        m.remove(&k);
                    }
                }
                s.sp = base;
                s.frames.pop();
                if s.frames.is_empty() {
                    return Ok(Flow::Finished);
                }
                let (dst, cont) = {
                    let fr = s.frames.last().unwrap();
                    match &fr.f.blocks[fr.blk as usize].ins[fr.ip as usize] {
                        Ins::Call { dst, cont, .. } => (*dst, *cont),
                        _ => return err("return to a non-call"),
                    }
                };
                if let Some(d) = dst {
                    self.set(s, d, v);
                }
                if let Some(c) = cont {
                    return Ok(Flow::Jump(c));
                }
                s.frames.last_mut().unwrap().ip += 1;
                return Ok(Flow::Returned);
            }
            Ins::Unreachable => return bad("unreachable code reached"),
            Ins::Extract { dst, a, path } => {
                let mut v = self.o(s, a, &Ty::Void);
                for p in path {
                    v = match v {
                        Val::A(x) => x[*p as usize].clone(),
                        Val::U => Val::U,
                        _ => return err("extractvalue"),
                    };
                }
                self.set(s, *dst, v);
            }
            Ins::Insert { dst, aty, a, v, path } => {
                let base = self.o(s, a, aty);
                let x = self.o(s, v, &Ty::Void);
                let r = insert(aty, base, x, path);
                self.set(s, *dst, r);
            }
            Ins::ExtractElem { dst, a, i } => {
                let i = self.o(s, i, &Ty::Int(64));
                let i = self.conc(s, &i)?;
                let v = match self.o(s, a, &Ty::Void) {
                    Val::A(x) => x[i as usize].clone(),
                    _ => Val::U,
                };
                self.set(s, *dst, v);
            }
            Ins::InsertElem { dst, n, a, v, i } => {
                let i = self.o(s, i, &Ty::Int(64));
                let i = self.conc(s, &i)?;
                let x = self.o(s, v, &Ty::Void);
                let mut b = match self.o(s, a, &Ty::Void) {
                    Val::A(x) => x.to_vec(),
                    _ => vec![Val::U; *n as usize],
                };
                b[i as usize] = x;
                self.set(s, *dst, Val::A(Rc::new(b)));
            }
            Ins::Shuffle { dst, a, b, mask } => {
                let (x, y) = (self.o(s, a, &Ty::Void), self.o(s, b, &Ty::Void));
                let xv = if let Val::A(x) = &x { x.to_vec() } else { vec![] };
                let yv = if let Val::A(x) = &y { x.to_vec() } else { vec![] };
                let n = xv.len().max(yv.len());
                let mut o = vec![];
                for m in mask {
                    o.push(match m {
                        None => Val::U,
                        Some(k) if (*k as usize) < n => xv.get(*k as usize).cloned().unwrap_or(Val::U),
                        Some(k) => yv.get(*k as usize - n).cloned().unwrap_or(Val::U),
                    });
                }
                self.set(s, *dst, Val::A(Rc::new(o)));
            }
            Ins::Copy { dst, a } => {
                let v = self.o(s, a, &Ty::Void);
                self.set(s, *dst, v);
            }
            Ins::Fence => {}
            Ins::Unsupported(l) => return err(format!("unsupported instruction `{l}`")),
            Ins::Call { dst, ret, callee, args, cont, noreturn } => {
                let name = match callee {
                    Callee::Fn(n) => n.clone(),
                    Callee::Ind(o) => {
                        let v = self.o(s, o, &Ty::Ptr);
                        let a = self.conc(s, &v)?;
                        match self.m.addr_fn.get(&a) {
                            Some(n) => n.clone(),
                            None => return bad(format!("call of a non-function {a:#x}")),
                        }
                    }
                };
                let vals: Vec<Val> = args.iter().map(|(t, o)| self.o(s, o, t)).collect();
                return self.call(s, &name, *dst, ret, args, vals, *cont, *noreturn);
            }
        }
        Ok(Flow::Next)
    }

    /// Load through an address that depends on one input byte: a table lookup.
    fn lookup(&mut self, s: &State, ty: &Ty, t: Tm) -> R<Val> {
        let tab = self.t.table(t);
        let var = self.t.sup[t as usize];
        let vt = self.t.var(var);
        let mut by: BTreeMap<u64, BTreeSet<u64>> = BTreeMap::new(); // value -> addresses
        let mut seen: FxMap<u64, u64> = Default::default();
        let mut of: Vec<(u64, u64)> = vec![]; // input byte, value
        let may = self.t.values(s.g, var);
        for k in 0..256 {
            let a = tab[k] as u64;
            let possible = match &may {
                Some(m) => m[k],
                None => {
                    let kt = self.t.cst(8, k as u128);
                    let e = self.t.cmp(Pred::Eq, vt, kt);
                    let eb = self.t.b(e).map_err(Stop::Err)?;
                    self.t.bdd.and(s.g, eb) != bdd::F
                }
            };
            if !possible {
                continue;
            }
            if let Some(v) = seen.get(&a) {
                of.push((k as u64, *v));
                continue;
            }
            let r = self.read(s, a, ty.store_size()).and_then(|b| self.from_bytes(ty, &b));
            match r {
                Ok(Val::C(v)) => {
                    seen.insert(a, v);
                    of.push((k as u64, v));
                    by.entry(v).or_default().insert(a);
                }
                Ok(_) | Err(Stop::Bad(_)) => return Err(Stop::Fork(t)),
                Err(e) => return Err(e),
            }
        }
        if by.len() > 16 && ty.bits() == 8 {
            // runs of bytes that are all changed by the same amount
            let mut runs: BTreeMap<u64, Vec<(u64, u64)>> = BTreeMap::new();
            let mut last = None;
            for (k, v) in of {
                let d = v.wrapping_sub(k) & 255;
                let r = runs.entry(d).or_default();
                if last == Some(d) {
                    r.last_mut().unwrap().1 = k;
                } else {
                    r.push((k, k));
                }
                last = Some(d);
            }
            let most = *runs.iter().max_by_key(|(_, r)| r.iter().map(|(a, b)| b - a + 1).sum::<u64>()).unwrap().0;
            let moved = |me: &mut Self, d: u64| {
                let d = me.t.cst(8, d as u128);
                me.t.bin(BinOp::Add, vt, d)
            };
            let mut r = moved(self, most);
            for (d, runs) in runs {
                if d == most {
                    continue;
                }
                let mut c = self.t.cst(1, 0);
                for (lo, hi) in runs {
                    let (lo, n) = (self.t.cst(8, lo as u128), self.t.cst(8, (hi - lo) as u128));
                    let x = self.t.bin(BinOp::Sub, vt, lo);
                    let x = self.t.cmp(Pred::Ule, x, n);
                    c = self.t.or(c, x);
                }
                let m = moved(self, d);
                r = self.t.ite(c, m, r);
            }
            return Ok(self.val(r));
        }
        let w = ty.bits();
        let mut acc: Option<Tm> = None;
        for (v, addrs) in by.iter() {
            let c = self.t.cst(w, *v as u128);
            acc = Some(match acc {
                None => c,
                Some(r) => {
                    let mut cond = self.t.cst(1, 0);
                    for a in addrs {
                        let at = self.t.cst(64, *a as u128);
                        let e = self.t.cmp(Pred::Eq, t, at);
                        cond = self.t.or(cond, e);
                    }
                    self.t.ite(cond, c, r)
                }
            });
        }
        Ok(self.val(acc.unwrap()))
    }

    fn call(
        &mut self,
        s: &mut State,
        name: &str,
        dst: Option<u32>,
        ret: &Ty,
        aty: &[(Ty, Opnd)],
        v: Vec<Val>,
        cont: Option<u32>,
        noreturn: bool,
    ) -> R<Flow> {
        let done = |me: &Self, s: &mut State, r: Val| -> R<Flow> {
            if let Some(d) = dst {
                me.set(s, d, r);
            }
            if let Some(c) = cont {
                return Ok(Flow::Jump(c));
            }
            Ok(Flow::Next)
        };
        // ---- harness intrinsics
        match name {
            "sym_bytes" => {
                let p = self.conc(s, &v[0])?;
                let n = self.conc(s, &v[1])?;
                let st = self.conc(s, &v[2])?;
                let stride = self.conc(s, &v[3])?;
                if self.t.interleave == 0 {
                    self.t.interleave = stride.max(1) as u32;
                }
                let mut b = vec![];
                for i in 0..n {
                    let id = BYTE_VARS + (st + i * stride) as u32;
                    b.push(match &self.concrete {
                        Some(m) => *m.get(id as usize).unwrap_or(&0) as Tm,
                        None => self.t.var(id),
                    });
                }
                self.write(s, p, &b)?;
                return done(self, s, Val::U);
            }
            "sym_choice" => {
                let n = self.conc(s, &v[0])?;
                if n == 0 || n > 255 {
                    return err("sym_choice range");
                }
                // re-entrant: the first execution installs the term, the split makes it concrete
                let id = s.choices;
                if id >= BYTE_VARS {
                    return err("too many choices");
                }
                let k = match &self.concrete {
                    Some(m) => {
                        s.choices += 1;
                        let c = *m.get(id as usize).unwrap_or(&0) as u64;
                        if c >= n {
                            return Ok(Flow::Assumed);
                        }
                        return done(self, s, Val::C(c));
                    }
                    None => self.t.var(id),
                };
                s.choices += 1;
                let nt = self.t.cst(8, n as u128);
                let lt = self.t.cmp(Pred::Ult, k, nt);
                let lb = self.t.b(lt).map_err(Stop::Err)?;
                let nlt = self.t.not(lt);
                let ngn = self.guard_and(s.gn, nlt);
                let nb = self.t.bdd.not(lb);
                let ng = self.t.bdd.and(s.g, nb);
                self.ends.push(Terminal { end: End::Assumed, g: ng, gn: ngn, loc: String::new() });
                s.g = self.t.bdd.and(s.g, lb);
                s.gn = self.guard_and(s.gn, lt);
                // flag it control-like so that it is split at once
                let z = self.t.zext(k, 64);
                if let Some(d) = dst {
                    self.set(s, d, Val::T(z));
                }
                s.frames.last_mut().unwrap().ip += 1;
                return Err(Stop::Fork(z));
            }
            "sym_assume" => {
                return match &v[0] {
                    Val::C(k) => {
                        if k & 1 == 1 {
                            done(self, s, Val::U)
                        } else {
                            Ok(Flow::Assumed)
                        }
                    }
                    Val::T(t) => Err(Stop::Fork(*t)),
                    _ => err("sym_assume"),
                }
            }
            "sym_fail" => {
                let k = self.conc(s, &v[0])?;
                return bad(format!("assertion {k} fails"));
            }
            "sym_reach" => {
                let k = self.conc(s, &v[0])? as u32;
                let e = self.reached.entry(k).or_insert((bdd::F, 0));
                e.1 += 1;
                let old = e.0;
                if old == bdd::F {
                    self.reached.get_mut(&k).unwrap().0 = s.g;
                }
                if self.concrete.is_some() {
                    self.outputs.push(k);
                }
                return done(self, s, Val::U);
            }
            _ => {}
        }
        if let Some(i) = name.strip_prefix("llvm.") {
            let r = self.intrinsic(s, i, ret, aty, &v)?;
            return match r {
                Some(r) => done(self, s, r),
                None => bad("trap"),
            };
        }
        match name {
            "malloc" => {
                let n = self.conc(s, &v[0])?;
                let a = self.heap_alloc(s, n, UNDEF)?;
                return done(self, s, Val::C(a));
            }
            "calloc" => {
                let n = self.conc(s, &v[0])? * self.conc(s, &v[1])?;
                let a = self.heap_alloc(s, n, 0)?;
                return done(self, s, Val::C(a));
            }
            "realloc" => {
                let p = self.conc(s, &v[0])?;
                let n = self.conc(s, &v[1])?;
                let old = match s.mem.get(&p) {
                    Some(o) => o.clone(),
                    None => return bad("realloc of a pointer that is not an allocation"),
                };
                let a = self.heap_alloc(s, n, UNDEF)?;
                let k = old.bytes.len().min(n as usize);
                self.write(s, a, &old.bytes[..k])?;
                self.heap_free(s, p)?;
                return done(self, s, Val::C(a));
            }
            "free" => {
                let p = self.conc(s, &v[0])?;
                self.heap_free(s, p)?;
                return done(self, s, Val::U);
            }
            "posix_memalign" => {
                let p = self.conc(s, &v[0])?;
                let n = self.conc(s, &v[2])?;
                let a = self.heap_alloc(s, n, UNDEF)?;
                let mut b = vec![];
                self.to_bytes(&Ty::Ptr, &Val::C(a), &mut b)?;
                self.write(s, p, &b)?;
                return done(self, s, Val::C(0));
            }
            "memcpy" | "memmove" => {
                let (d, p, n) = (self.conc(s, &v[0])?, self.conc(s, &v[1])?, self.conc(s, &v[2])?);
                let b = self.read(s, p, n)?;
                self.write(s, d, &b)?;
                return done(self, s, Val::C(d));
            }
            "memset" => {
                let (d, n) = (self.conc(s, &v[0])?, self.conc(s, &v[2])?);
                let t = self.tm(&v[1], 32)?;
                let t = self.t.ext(t, 0, 8);
                self.write(s, d, &vec![t; n as usize])?;
                return done(self, s, Val::C(d));
            }
            "bcmp" | "memcmp" => {
                let (p, q, n) = (self.conc(s, &v[0])?, self.conc(s, &v[1])?, self.conc(s, &v[2])?);
                let (x, y) = (self.read(s, p, n)?, self.read(s, q, n)?);
                let mut acc = self.t.cst(32, 0);
                for i in (0..n as usize).rev() {
                    if x[i] == UNDEF || y[i] == UNDEF {
                        return bad("comparison of uninitialised memory");
                    }
                    if name == "bcmp" {
                        let e = self.t.cmp(Pred::Eq, x[i], y[i]);
                        let one = self.t.cst(32, 1);
                        acc = if self.t.cv(acc) == Some(0) || self.t.cv(acc) == Some(1) {
                            self.t.ite(e, acc, one)
                        } else {
                            // acc = ite(c, 0, 1): keep one flat condition
                            match self.t.n[acc as usize].0 {
                                N::Ite(c, a, b) if self.t.cv(a) == Some(0) && self.t.cv(b) == Some(1) => {
                                    let c2 = self.t.and(c, e);
                                    self.t.ite(c2, a, b)
                                }
                                _ => self.t.ite(e, acc, one),
                            }
                        };
                    } else {
                        let e = self.t.cmp(Pred::Eq, x[i], y[i]);
                        let l = self.t.cmp(Pred::Ult, x[i], y[i]);
                        let m1 = self.t.cst(32, u128::MAX);
                        let p1 = self.t.cst(32, 1);
                        let d = self.t.ite(l, m1, p1);
                        acc = self.t.ite(e, acc, d);
                    }
                }
                let r = self.val(acc);
                return done(self, s, r);
            }
            "strlen" => {
                let p = self.conc(s, &v[0])?;
                let mut k = 0;
                loop {
                    let b = self.read(s, p + k, 1)?[0];
                    if b >= 256 {
                        return err("symbolic strlen");
                    }
                    if b == 0 {
                        break;
                    }
                    k += 1;
                }
                return done(self, s, Val::C(k));
            }
            _ => {}
        }
        if noreturn || self.noreturn(name) {
            return bad(format!("panic: {name}"));
        }
        let f = match self.m.func(name).map_err(Stop::Err)? {
            Some(f) => f,
            None => return err(format!("call of external function {name}")),
        };
        if s.frames.len() > 200 {
            return err("call depth");
        }
        *self.funcs_used.entry(name.to_string()).or_insert(0) += 1;
        // dead registers of the caller go
        {
            let fr = s.frames.last_mut().unwrap();
            let live = fr.f.live_after(fr.blk, fr.ip);
            let r = Rc::make_mut(&mut fr.regs);
            let mut k = 0;
            for i in 0..r.len() {
                if k < live.len() && live[k] as usize == i {
                    k += 1
                } else if r[i] != Val::U {
                    r[i] = Val::U
                }
            }
        }
        let mut regs = vec![Val::U; f.nregs];
        if v.len() != f.params.len() {
            return bad(format!("call of {name} with {} arguments", v.len()));
        }
        for (p, a) in f.params.iter().zip(v) {
            regs[*p as usize] = a
        }
        if s.frames.len() > MOST_FRAMES {
            return bad("recursion does not end");
        }
        let loops = enter_loops(&f, &[], None, 0);
        let sp = s.sp;
        s.frames.push(Frame { f, blk: 0, ip: 0, regs: Rc::new(regs), sp, loops });
        // stay on the new frame's first instruction
        Ok(Flow::Merge)
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, ret: &Ty, aty: &[(Ty, Opnd)], v: &[Val]) -> R<Option<Val>> {
        let base = n.split('.').next().unwrap();
        let ety = aty.first().map(|a| a.0.clone()).unwrap_or(Ty::Void);
        let w = ret.bits();
        let r = match base {
            "lifetime" => {
                if n.starts_with("lifetime.end") {
                    if let Some(Val::C(p)) = v.iter().find(|x| matches!(x, Val::C(k) if *k >= STACK_BASE)) {
                        let p = *p;
                        if let Some(o) = s.mem.get(&p) {
                            let k = o.bytes.len();
                            if o.bytes.iter().any(|b| *b != UNDEF) {
                                self.write(s, p, &vec![UNDEF; k])?;
                            }
                        }
                    }
                }
                Val::U
            }
            "assume" => match &v[0] {
                Val::C(k) if k & 1 == 1 => Val::U,
                Val::C(_) => return bad("llvm.assume is false"),
                Val::T(t) => return Err(Stop::Fork(*t)),
                _ => return bad("llvm.assume on an undefined value"),
            },
            "dbg" | "experimental" | "donothing" | "prefetch" | "sideeffect" => Val::U,
            "expect" => v[0].clone(),
            "memcpy" | "memmove" => {
                let (d, p, k) = (self.conc(s, &v[0])?, self.conc(s, &v[1])?, self.conc(s, &v[2])?);
                let b = self.read(s, p, k)?;
                self.write(s, d, &b)?;
                Val::U
            }
            "memset" => {
                let (d, k) = (self.conc(s, &v[0])?, self.conc(s, &v[2])?);
                let t = self.tm(&v[1], 8)?;
                self.write(s, d, &vec![t; k as usize])?;
                Val::U
            }
            "umin" | "umax" | "smin" | "smax" => {
                let p = match base {
                    "umin" => Pred::Ult,
                    "umax" => Pred::Ugt,
                    "smin" => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if ret.is_agg() {
                    return err(format!("vector {n}"));
                }
                match self.cmp(p, ret, &v[0], &v[1])? {
                    Val::C(1) => v[0].clone(),
                    Val::C(_) => v[1].clone(),
                    Val::T(c) => {
                        let (a, b) = (self.tm(&v[0], w)?, self.tm(&v[1], w)?);
                        let t = self.t.ite(c, a, b);
                        self.val(t)
                    }
                    x => x,
                }
            }
            "usub" | "uadd" if n.contains(".sat.") => {
                let (a, b) = (self.tm(&v[0], w)?, self.tm(&v[1], w)?);
                let t = if base == "usub" {
                    let c = self.t.cmp(Pred::Ult, a, b);
                    let d = self.t.bin(BinOp::Sub, a, b);
                    let z = self.t.cst(w, 0);
                    self.t.ite(c, z, d)
                } else {
                    let d = self.t.bin(BinOp::Add, a, b);
                    let c = self.t.cmp(Pred::Ult, d, a);
                    let z = self.t.cst(w, mask(w));
                    self.t.ite(c, z, d)
                };
                self.val(t)
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let iw = ety.bits();
                let signed = base.starts_with('s');
                let op = match &base[1..] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                match (&v[0], &v[1]) {
                    (Val::C(a), Val::C(b)) if iw <= 64 => {
                        let (x, y) = if signed {
                            (sext128(*a as u128, iw), sext128(*b as u128, iw))
                        } else {
                            (*a as i128, *b as i128)
                        };
                        let full = match op {
                            BinOp::Add => x.checked_add(y),
                            BinOp::Sub => x.checked_sub(y),
                            _ => x.checked_mul(y),
                        };
                        let tr = binop(op, iw, *a as u128, *b as u128);
                        let of = match full {
                            None => true,
                            Some(f) => {
                                if signed {
                                    sext128(tr, iw) != f
                                } else {
                                    f < 0 || tr as i128 != f
                                }
                            }
                        };
                        Val::A(Rc::new(vec![Val::C(tr as u64), Val::C(of as u64)]))
                    }
                    _ => {
                        if iw > 64 {
                            return err(format!("{n} on wide symbolic values"));
                        }
                        let (a, b) = (self.tm(&v[0], iw)?, self.tm(&v[1], iw)?);
                        let ww = if op == BinOp::Mul { iw * 2 } else { iw + 1 };
                        let r = self.t.bin(op, a, b);
                        let (a2, b2) = if signed {
                            (self.t.sext(a, ww), self.t.sext(b, ww))
                        } else {
                            (self.t.zext(a, ww), self.t.zext(b, ww))
                        };
                        let full = self.t.bin(op, a2, b2);
                        let back = if signed { self.t.sext(r, ww) } else { self.t.zext(r, ww) };
                        let of = self.t.cmp(Pred::Ne, full, back);
                        let (r, of) = (self.val(r), self.val(of));
                        Val::A(Rc::new(vec![r, of]))
                    }
                }
            }
            "ucmp" | "scmp" => {
                let iw = ety.bits();
                let (a, b) = (self.tm(&v[0], iw)?, self.tm(&v[1], iw)?);
                let (lt, gt) = if base == "ucmp" { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.t.cmp(lt, a, b);
                let g = self.t.cmp(gt, a, b);
                let (m1, z, p1) = (self.t.cst(w, u128::MAX), self.t.cst(w, 0), self.t.cst(w, 1));
                let t = self.t.ite(g, p1, z);
                let t = self.t.ite(l, m1, t);
                self.val(t)
            }
            "fshl" | "fshr" => {
                let (a, b) = (self.tm(&v[0], w)?, self.tm(&v[1], w)?);
                let k = (self.conc(s, &v[2])? % w as u64) as u32;
                let c = self.t.cat(a, b);
                let lo = if base == "fshl" { w - k } else { k };
                let t = self.t.ext(c, lo, w);
                self.val(t)
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" | "abs" => match &v[0] {
                Val::C(a) if w <= 64 => {
                    let a = *a;
                    Val::C(match base {
                        "ctlz" => (a.leading_zeros() - (64 - w)) as u64,
                        "cttz" => (a.trailing_zeros().min(w)) as u64,
                        "ctpop" => a.count_ones() as u64,
                        "bswap" => a.swap_bytes() >> (64 - w),
                        "abs" => (sext128(a as u128, w).unsigned_abs() & mask(w)) as u64,
                        _ => a.reverse_bits() >> (64 - w),
                    })
                }
                Val::T(t) if base == "bswap" => {
                    let mut acc: Option<Tm> = None;
                    for i in 0..w / 8 {
                        let b = self.t.ext(*t, 8 * i, 8);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.t.cat(h, b),
                        });
                    }
                    self.val(acc.unwrap())
                }
                Val::T(t) => return Err(Stop::Fork(*t)),
                _ => Val::U,
            },
            "threadlocal" | "launder" | "strip" | "ptrmask" => v[0].clone(),
            "trap" | "ubsantrap" => return Ok(None),
            "vector" if n.starts_with("vector.reduce.") => {
                let op = n.split('.').nth(2).unwrap();
                let xs = match &v[0] {
                    Val::A(x) => x.clone(),
                    _ => return err("vector.reduce"),
                };
                let bop = match op {
                    "or" => BinOp::Or,
                    "and" => BinOp::And,
                    "add" => BinOp::Add,
                    "xor" => BinOp::Xor,
                    _ => return err(format!("intrinsic {n}")),
                };
                let mut acc = xs[0].clone();
                for x in xs.iter().skip(1) {
                    acc = self.bin(bop, ret, &acc, x)?;
                }
                acc
            }
            "is" if n.starts_with("is.constant") => Val::C(0),
            "stacksave" | "stackrestore" => Val::C(0),
            "objectsize" => Val::C(u64::MAX),
            _ => return err(format!("intrinsic llvm.{n}")),
        };
        Ok(Some(r))
    }
}

fn ctl_term(t: &Terms, v: &Val) -> Option<Tm> {
    match v {
        Val::T(x) if t.ctl[*x as usize] => Some(*x),
        Val::A(a) => a.iter().find_map(|v| ctl_term(t, v)),
        _ => None,
    }
}

fn subst(s: &mut State, t: Tm, v: Val) {
    fn go(x: &Val, t: Tm, v: &Val) -> Option<Val> {
        match x {
            Val::T(y) if *y == t => Some(v.clone()),
            Val::A(a) => {
                if a.iter().any(|e| go(e, t, v).is_some()) {
                    Some(Val::A(Rc::new(a.iter().map(|e| go(e, t, v).unwrap_or_else(|| e.clone())).collect())))
                } else {
                    None
                }
            }
            _ => None,
        }
    }
    for fr in s.frames.iter_mut() {
        let hit: Vec<(usize, Val)> = fr.regs.iter().enumerate().filter_map(|(i, x)| go(x, t, &v).map(|n| (i, n))).collect();
        if !hit.is_empty() {
            let r = Rc::make_mut(&mut fr.regs);
            for (i, n) in hit {
                r[i] = n
            }
        }
    }
}

fn insert(ty: &Ty, base: Val, x: Val, path: &[u32]) -> Val {
    if path.is_empty() {
        return x;
    }
    let mut v = match base {
        Val::A(a) => a.to_vec(),
        _ => vec![Val::U; ty.nfields()],
    };
    let k = path[0] as usize;
    let ft = match ty {
        Ty::Struct(fs, _) => fs[k].clone(),
        Ty::Arr(_, t) => (**t).clone(),
        _ => Ty::Void,
    };
    let old = std::mem::replace(&mut v[k], Val::U);
    v[k] = insert(&ft, old, x, &path[1..]);
    Val::A(Rc::new(v))
}

fn opnd(regs: &[Val], o: &Opnd, ty: &Ty) -> Val {
    match o {
        Opnd::Reg(r) => regs[*r as usize].clone(),
        Opnd::Int(_, v) => Val::C(*v as u64),
        Opnd::Agg(a) => Val::A(Rc::new(a.iter().map(|x| opnd(regs, x, &Ty::Void)).collect())),
        Opnd::None => {
            let _ = ty;
            Val::U
        }
    }
}

fn enter_loops(f: &Func, old: &[(u32, u32)], from: Option<u32>, b: u32) -> Vec<(u32, u32)> {
    let hs = &f.loops[b as usize];
    let mut out = Vec::with_capacity(hs.len());
    let mut fresh = false;
    for &h in hs {
        let prev = old.iter().find(|x| x.0 == h).map(|x| x.1);
        let it = match prev {
            Some(k) if !fresh => {
                if h == b && from.is_some() {
                    fresh = true; // inner counters restart
                    k + 1
                } else {
                    k
                }
            }
            _ => {
                fresh = true;
                0
            }
        };
        out.push((h, it));
    }
    out
}

fn key(s: &State) -> Vec<u32> {
    let mut k = Vec::with_capacity(s.frames.len() * 4);
    for f in &s.frames {
        for (h, i) in &f.loops {
            k.push(f.f.rpo[*h as usize]);
            k.push(*i);
        }
        k.push(f.f.rpo[f.blk as usize]);
        k.push(f.ip);
    }
    k
}

fn hash_state(s: &State) -> u64 {
    let mut h = bdd::Fx::default();
    for f in &s.frames {
        (Rc::as_ptr(&f.f) as usize).hash(&mut h);
        f.blk.hash(&mut h);
        f.ip.hash(&mut h);
        for (i, v) in f.regs.iter().enumerate() {
            if *v != Val::U {
                i.hash(&mut h);
                v.hash(&mut h);
            }
        }
    }
    for (a, o) in s.mem.iter() {
        a.hash(&mut h);
        for b in &o.bytes {
            h.write_u32(*b);
        }
    }
    let r = h.finish();
    if r == 0 {
        1
    } else {
        r
    }
}

fn same(a: &State, b: &State) -> bool {
    a.frames.len() == b.frames.len()
        && a.sp == b.sp
        && a.choices == b.choices
        && a.frames.iter().zip(&b.frames).all(|(x, y)| {
            Rc::ptr_eq(&x.f, &y.f)
                && x.blk == y.blk
                && x.ip == y.ip
                && x.sp == y.sp
                && (Rc::ptr_eq(&x.regs, &y.regs) || x.regs == y.regs)
        })
        && (Rc::ptr_eq(&a.mem, &b.mem)
            || (a.mem.len() == b.mem.len()
                && a.mem.iter().zip(b.mem.iter()).all(|((k, x), (l, y))| k == l && (Rc::ptr_eq(x, y) || x == y))))
}
