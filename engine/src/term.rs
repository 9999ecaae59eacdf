//! Hash-consed bit-vector terms over the symbolic input bytes.

use crate::bdd::*;
use crate::ir::{sext128, BinOp, Pred};
use std::rc::Rc;

pub type Tm = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Bin(BinOp, Tm, Tm),
    Cmp(Pred, Tm, Tm),
    Ite(Tm, Tm, Tm),
    Zext(Tm),
    Sext(Tm),
    Ext(Tm, u32), // width from the node, offset
    Cat(Tm, Tm),  // hi, lo
}

pub const MULTI: u32 = u32::MAX;
pub const NOSUP: u32 = u32::MAX - 1;

pub struct Terms {
    pub n: Vec<(N, u32)>, // node, width
    pub sup: Vec<u32>,    // NOSUP, single var, MULTI
    pub ctl: Vec<bool>,   // made of comparisons and constants only
    uniq: FxMap<(N, u32), Tm>,
    pub bdd: Bdd,
    blast: FxMap<Tm, Rc<Vec<B>>>, // LSB first
    tab: FxMap<Tm, Rc<Vec<u128>>>,
    pub nvars: u32,
    pub interleave: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn binop(op: BinOp, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        BinOp::Add => a.wrapping_add(b),
        BinOp::Sub => a.wrapping_sub(b),
        BinOp::Mul => a.wrapping_mul(b),
        BinOp::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        BinOp::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        BinOp::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                m
            } else {
                x.wrapping_div(y) as u128
            }
        }
        BinOp::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        BinOp::And => a & b,
        BinOp::Or => a | b,
        BinOp::Xor => a ^ b,
        BinOp::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        BinOp::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        BinOp::AShr => {
            let s = sext128(a, w);
            if b >= w as u128 {
                (s >> 127) as u128
            } else {
                (s >> b) as u128
            }
        }
    };
    r & m
}

pub fn cmpop(p: Pred, w: u32, a: u128, b: u128) -> bool {
    let (x, y) = (sext128(a, w), sext128(b, w));
    match p {
        Pred::Eq => a == b,
        Pred::Ne => a != b,
        Pred::Ugt => a > b,
        Pred::Uge => a >= b,
        Pred::Ult => a < b,
        Pred::Ule => a <= b,
        Pred::Sgt => x > y,
        Pred::Sge => x >= y,
        Pred::Slt => x < y,
        Pred::Sle => x <= y,
    }
}

impl Terms {
    pub fn new() -> Self {
        let mut t = Terms {
            n: vec![],
            sup: vec![],
            ctl: vec![],
            uniq: Default::default(),
            bdd: Bdd::new(),
            blast: Default::default(),
            tab: Default::default(),
            nvars: 0,
            interleave: 0,
        };
        for k in 0..256u128 {
            t.mk(N::Const(k), 8); // ids 0..=255 are the byte constants
        }
        t
    }
    pub fn w(&self, t: Tm) -> u32 {
        self.n[t as usize].1
    }
    pub fn cv(&self, t: Tm) -> Option<u128> {
        match self.n[t as usize].0 {
            N::Const(v) => Some(v),
            _ => None,
        }
    }
    fn mk(&mut self, n: N, w: u32) -> Tm {
        if let Some(&t) = self.uniq.get(&(n, w)) {
            return t;
        }
        let j = |a: u32, b: u32| {
            if a == NOSUP {
                b
            } else if b == NOSUP || a == b {
                a
            } else {
                MULTI
            }
        };
        let (s, c) = {
            let s = |t: Tm| self.sup[t as usize];
            let c = |t: Tm| self.ctl[t as usize];
            match n {
                // few values: built from constants and comparisons only
                N::Const(_) => (NOSUP, false),
                N::Var(v) => (v, false),
                N::Bin(_, a, b) | N::Cat(a, b) => {
                    let k = |t: Tm| matches!(self.n[t as usize].0, N::Const(_));
                    (j(s(a), s(b)), (c(a) || k(a)) && (c(b) || k(b)))
                }
                N::Cmp(_, a, b) => (j(s(a), s(b)), true),
                N::Ite(x, a, b) => {
                    let k = |t: Tm| matches!(self.n[t as usize].0, N::Const(_));
                    (j(s(x), j(s(a), s(b))), (c(a) || k(a)) && (c(b) || k(b)))
                }
                N::Zext(a) | N::Sext(a) | N::Ext(a, _) => (s(a), c(a)),
            }
        };
        let t = self.n.len() as Tm;
        self.n.push((n, w));
        self.sup.push(s);
        self.ctl.push(c);
        self.uniq.insert((n, w), t);
        t
    }
    pub fn cst(&mut self, w: u32, v: u128) -> Tm {
        self.mk(N::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, v: u32) -> Tm {
        self.nvars = self.nvars.max(v + 1);
        self.mk(N::Var(v), 8)
    }
    pub fn bin(&mut self, op: BinOp, a: Tm, b: Tm) -> Tm {
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(w, binop(op, w, x, y));
        }
        let m = mask(w);
        match (op, ca, cb) {
            (BinOp::And, Some(0), _) | (BinOp::And, _, Some(0)) | (BinOp::Mul, _, Some(0)) | (BinOp::Mul, Some(0), _) => {
                return self.cst(w, 0)
            }
            (BinOp::And, Some(x), _) if x == m => return b,
            (BinOp::And, _, Some(x)) if x == m => return a,
            (BinOp::Or, Some(x), _) | (BinOp::Or, _, Some(x)) if x == m => return self.cst(w, m),
            (BinOp::Or | BinOp::Xor | BinOp::Add, Some(0), _) => return b,
            (BinOp::Or | BinOp::Xor | BinOp::Add | BinOp::Sub | BinOp::Shl | BinOp::LShr | BinOp::AShr, _, Some(0)) => return a,
            (BinOp::Mul, Some(1), _) => return b,
            (BinOp::Mul | BinOp::UDiv, _, Some(1)) => return a,
            _ => {}
        }
        if a == b {
            match op {
                BinOp::And | BinOp::Or => return a,
                BinOp::Xor | BinOp::Sub => return self.cst(w, 0),
                _ => {}
            }
        }
        if let Some(t) = self.collapse1(w, &[a, b], &mut |v| binop(op, w, v[0], v[1])) {
            return t;
        }
        if let Some(t) = self.bin_lanes(op, a, b) {
            return t;
        }
        self.mk(N::Bin(op, a, b), w)
    }
    /// The bytes of a word of several, from the least significant one, when it
    /// is made of input bytes that are known one by one.
    pub fn lanes(&mut self, t: Tm) -> Option<Vec<Tm>> {
        let w = self.w(t);
        if w % 8 != 0 || w > 128 {
            return None;
        }
        if self.sup[t as usize] != MULTI {
            return Some((0..w / 8).map(|i| self.ext(t, 8 * i, 8)).collect());
        }
        match self.n[t as usize].0 {
            N::Cat(h, l) => {
                let mut r = self.lanes(l)?;
                r.extend(self.lanes(h)?);
                Some(r)
            }
            N::Zext(x) => {
                if self.w(x) % 8 != 0 {
                    return None;
                }
                let mut r = self.lanes(x)?;
                r.resize(w as usize / 8, 0);
                Some(r)
            }
            _ => None,
        }
    }
    /// The word of the given bytes.
    pub fn of_lanes(&mut self, l: &[Tm]) -> Tm {
        let mut r = l[0];
        for x in &l[1..] {
            r = self.cat(*x, r);
        }
        r
    }
    /// Whether two terms depend on more than one input byte.
    fn several(&self, a: Tm, b: Tm) -> bool {
        let (x, y) = (self.sup[a as usize], self.sup[b as usize]);
        x == MULTI || y == MULTI || x != y && x != NOSUP && y != NOSUP
    }
    /// Operations that work byte by byte on words of several input bytes.
    fn bin_lanes(&mut self, op: BinOp, a: Tm, b: Tm) -> Option<Tm> {
        let w = self.w(a);
        if w <= 8 || !self.several(a, b) {
            return None;
        }
        match op {
            BinOp::And | BinOp::Or | BinOp::Xor => {
                let x = self.lanes(a)?;
                let y = self.lanes(b)?;
                let r: Vec<Tm> = x.iter().zip(&y).map(|(x, y)| self.bin(op, *x, *y)).collect();
                Some(self.of_lanes(&r))
            }
            BinOp::Shl | BinOp::LShr => {
                let k = self.cv(b)?;
                if k % 8 != 0 || k >= w as u128 {
                    return None;
                }
                let mut x = self.lanes(a)?;
                let k = k as usize / 8;
                if matches!(op, BinOp::Shl) {
                    x.rotate_right(k);
                    x[..k].fill(0);
                } else {
                    x.rotate_left(k);
                    let n = x.len();
                    x[n - k..].fill(0);
                }
                Some(self.of_lanes(&x))
            }
            _ => None,
        }
    }
    /// Comparisons of words of several input bytes, byte by byte.
    fn cmp_lanes(&mut self, p: Pred, a: Tm, b: Tm) -> Option<Tm> {
        let w = self.w(a);
        if w <= 8 || !self.several(a, b) {
            return None;
        }
        let (p, no) = match p {
            Pred::Eq | Pred::Ult | Pred::Ugt => (p, false),
            Pred::Ne => (Pred::Eq, true),
            Pred::Uge => (Pred::Ult, true),
            Pred::Ule => (Pred::Ugt, true),
            _ => return None,
        };
        // the order of two words that are both unknown is left as it is
        if !matches!(p, Pred::Eq) && self.cv(b).is_none() {
            return None;
        }
        let x = self.lanes(a)?;
        let y = self.lanes(b)?;
        let mut r = self.cst(1, matches!(p, Pred::Eq) as u128);
        for (x, y) in x.iter().zip(&y) {
            let e = self.cmp(Pred::Eq, *x, *y);
            r = self.and(e, r);
            if !matches!(p, Pred::Eq) {
                let o = self.cmp(p, *x, *y);
                r = self.or(o, r);
            }
        }
        Some(if no { self.not(r) } else { r })
    }
    /// A result that is constant for every value of the only input byte.
    fn collapse1(&mut self, w: u32, args: &[Tm], f: &mut dyn FnMut(&[u128]) -> u128) -> Option<Tm> {
        let mut s = NOSUP;
        for a in args {
            let x = self.sup[*a as usize];
            if x == MULTI || (x != NOSUP && s != NOSUP && x != s) {
                return None;
            }
            if x != NOSUP {
                s = x
            }
        }
        let tabs: Vec<Rc<Vec<u128>>> = args.iter().map(|a| self.table(*a)).collect();
        let g = |i: usize, k: usize| if tabs[i].len() == 1 { tabs[i][0] } else { tabs[i][k] };
        let mut first = None;
        let mut vals = vec![0u128; args.len()];
        for k in 0..256 {
            for i in 0..args.len() {
                vals[i] = g(i, k)
            }
            let r = f(&vals);
            match first {
                None => first = Some(r),
                Some(x) if x != r => return None,
                _ => {}
            }
        }
        Some(self.cst(w, first.unwrap()))
    }
    /// Values of a term over the only byte it depends on (length 1 when constant).
    pub fn table(&mut self, t: Tm) -> Rc<Vec<u128>> {
        if let Some(x) = self.tab.get(&t) {
            return x.clone();
        }
        let (n, w) = self.n[t as usize];
        let r: Vec<u128> = match n {
            N::Const(v) => vec![v],
            N::Var(_) => (0..256).collect(),
            N::Bin(op, a, b) => {
                let (x, y) = (self.table(a), self.table(b));
                zip2(&x, &y, |a, b| binop(op, w, a, b))
            }
            N::Cmp(p, a, b) => {
                let wa = self.w(a);
                let (x, y) = (self.table(a), self.table(b));
                zip2(&x, &y, |a, b| cmpop(p, wa, a, b) as u128)
            }
            N::Ite(c, a, b) => {
                let (c, x, y) = (self.table(c), self.table(a), self.table(b));
                let g = |v: &Vec<u128>, k: usize| if v.len() == 1 { v[0] } else { v[k] };
                (0..256).map(|k| if g(&c, k) != 0 { g(&x, k) } else { g(&y, k) }).collect()
            }
            N::Zext(a) => self.table(a).to_vec(),
            N::Sext(a) => {
                let wa = self.w(a);
                self.table(a).iter().map(|v| sext128(*v, wa) as u128 & mask(w)).collect()
            }
            N::Ext(a, o) => self.table(a).iter().map(|v| (v >> o) & mask(w)).collect(),
            N::Cat(a, b) => {
                let wb = self.w(b);
                let (x, y) = (self.table(a), self.table(b));
                zip2(&x, &y, |a, b| (a << wb) | b)
            }
        };
        let r = Rc::new(r);
        self.tab.insert(t, r.clone());
        r
    }
    pub fn cmp(&mut self, p: Pred, a: Tm, b: Tm) -> Tm {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.cst(1, cmpop(p, w, x, y) as u128);
        }
        if a == b {
            let r = matches!(p, Pred::Eq | Pred::Uge | Pred::Ule | Pred::Sge | Pred::Sle);
            return self.cst(1, r as u128);
        }
        if let Some(t) = self.collapse1(1, &[a, b], &mut |v| cmpop(p, w, v[0], v[1]) as u128) {
            return t;
        }
        // cmp of an ite with constant arms against a constant
        if let (N::Ite(c, x, y), Some(k)) = (self.n[a as usize].0, self.cv(b)) {
            if let (Some(xv), Some(yv)) = (self.cv(x), self.cv(y)) {
                let (rx, ry) = (cmpop(p, w, xv, k), cmpop(p, w, yv, k));
                return match (rx, ry) {
                    (true, true) => self.cst(1, 1),
                    (false, false) => self.cst(1, 0),
                    (true, false) => c,
                    (false, true) => self.not(c),
                };
            }
        }
        if let (N::Zext(x), Some(k)) = (self.n[a as usize].0, self.cv(b)) {
            let wx = self.w(x);
            if k <= mask(wx) && matches!(p, Pred::Eq | Pred::Ne | Pred::Ult | Pred::Ule | Pred::Ugt | Pred::Uge) {
                let kk = self.cst(wx, k);
                return self.cmp(p, x, kk);
            }
        }
        if w == 1 {
            if let Some(k) = self.cv(b) {
                match (p, k) {
                    (Pred::Eq, 1) | (Pred::Ne, 0) => return a,
                    (Pred::Eq, 0) | (Pred::Ne, 1) => return self.not(a),
                    _ => {}
                }
            }
        }
        if let Some(t) = self.cmp_lanes(p, a, b) {
            return t;
        }
        self.mk(N::Cmp(p, a, b), 1)
    }
    pub fn not(&mut self, a: Tm) -> Tm {
        let one = self.cst(1, 1);
        if let N::Bin(BinOp::Xor, x, y) = self.n[a as usize].0 {
            if y == one {
                return x;
            }
        }
        self.bin(BinOp::Xor, a, one)
    }
    pub fn and(&mut self, a: Tm, b: Tm) -> Tm {
        self.bin(BinOp::And, a, b)
    }
    pub fn or(&mut self, a: Tm, b: Tm) -> Tm {
        self.bin(BinOp::Or, a, b)
    }
    pub fn ite(&mut self, c: Tm, a: Tm, b: Tm) -> Tm {
        if let Some(v) = self.cv(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (Some(1), _) => return self.or(c, b),
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        self.mk(N::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: Tm, w: u32) -> Tm {
        if self.w(a) == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.cst(w, v);
        }
        if let N::Zext(x) = self.n[a as usize].0 {
            return self.zext(x, w);
        }
        self.mk(N::Zext(a), w)
    }
    pub fn sext(&mut self, a: Tm, w: u32) -> Tm {
        if self.w(a) == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            let wa = self.w(a);
            return self.cst(w, sext128(v, wa) as u128);
        }
        self.mk(N::Sext(a), w)
    }
    pub fn ext(&mut self, a: Tm, lo: u32, w: u32) -> Tm {
        let wa = self.w(a);
        if lo == 0 && w == wa {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.cst(w, v >> lo);
        }
        match self.n[a as usize].0 {
            N::Zext(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    return self.cst(w, 0);
                }
                if lo + w <= wx {
                    return self.ext(x, lo, w);
                }
                if lo == 0 {
                    return self.zext(x, w);
                }
            }
            N::Cat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    return self.ext(l, lo, w);
                }
                if lo >= wl {
                    return self.ext(h, lo - wl, w);
                }
            }
            N::Ext(x, o) => return self.ext(x, o + lo, w),
            _ => {}
        }
        if let Some(t) = self.collapse1(w, &[a], &mut |v| (v[0] >> lo) & mask(w)) {
            return t;
        }
        self.mk(N::Ext(a, lo), w)
    }
    pub fn cat(&mut self, h: Tm, l: Tm) -> Tm {
        let w = self.w(h) + self.w(l);
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            let wl = self.w(l);
            return self.cst(w, (a << wl) | b);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (N::Ext(x, o), N::Ext(y, p)) = (self.n[h as usize].0, self.n[l as usize].0) {
            if x == y && o == p + self.w(l) {
                return self.ext(x, p, w);
            }
        }
        if let N::Ext(x, o) = self.n[h as usize].0 {
            // low part was simplified by ext
            if o == self.w(l) {
                let lw = self.w(l);
                let lo = self.ext(x, 0, lw);
                if lo == l {
                    return self.ext(x, 0, w);
                }
            }
        }
        self.mk(N::Cat(h, l), w)
    }

    pub fn eval(&self, t: Tm, m: &dyn Fn(u32) -> u8, memo: &mut FxMap<Tm, u128>) -> u128 {
        if let Some(v) = memo.get(&t) {
            return *v;
        }
        let (n, w) = self.n[t as usize];
        let r = match n {
            N::Const(v) => return v,
            N::Var(v) => m(v) as u128,
            N::Bin(op, a, b) => binop(op, w, self.eval(a, m, memo), self.eval(b, m, memo)),
            N::Cmp(p, a, b) => cmpop(p, self.w(a), self.eval(a, m, memo), self.eval(b, m, memo)) as u128,
            N::Ite(c, a, b) => {
                if self.eval(c, m, memo) != 0 {
                    self.eval(a, m, memo)
                } else {
                    self.eval(b, m, memo)
                }
            }
            N::Zext(a) => self.eval(a, m, memo),
            N::Sext(a) => sext128(self.eval(a, m, memo), self.w(a)) as u128 & mask(w),
            N::Ext(a, o) => (self.eval(a, m, memo) >> o) & mask(w),
            N::Cat(a, b) => (self.eval(a, m, memo) << self.w(b)) | self.eval(b, m, memo),
        };
        memo.insert(t, r);
        r
    }

    fn bdd_of_bits(&mut self, v: u32, bits: &[bool]) -> B {
        // bits.len() == 2^k over the low k bits of byte v, MSB first order
        fn go(b: &mut Bdd, l: &dyn Fn(u32) -> u32, bit: u32, s: &[bool]) -> B {
            if s.iter().all(|x| *x) {
                return T;
            }
            if s.iter().all(|x| !*x) {
                return F;
            }
            let h = s.len() / 2;
            let lo = go(b, l, bit + 1, &s[..h]);
            let hi = go(b, l, bit + 1, &s[h..]);
            b.mk(l(bit), lo, hi)
        }
        let k = self.interleave;
        go(&mut self.bdd, &|bit| level(k, v, bit), 0, bits)
    }

    /// The byte and bit (from the most significant) at a level.
    pub fn at_level(&self, l: u32) -> (u32, u32) {
        let k = self.interleave;
        if k <= 1 || l < 8 * FIRST {
            return (l / 8, l % 8);
        }
        let u = l - 8 * FIRST;
        (FIRST + u / (8 * k) * k + u % k, u % (8 * k) / k)
    }

    /// Bit-blast into BDDs, LSB first.
    pub fn blast(&mut self, t: Tm) -> Result<Rc<Vec<B>>, String> {
        if let Some(x) = self.blast.get(&t) {
            return Ok(x.clone());
        }
        let (n, w) = self.n[t as usize];
        let w = w as usize;
        let r: Vec<B> = if let N::Const(v) = n {
            (0..w).map(|i| if (v >> i) & 1 == 1 { T } else { F }).collect()
        } else if self.sup[t as usize] != MULTI {
            let v = self.sup[t as usize];
            let tb = self.table(t);
            (0..w)
                .map(|i| {
                    let bits: Vec<bool> = tb.iter().map(|x| (x >> i) & 1 == 1).collect();
                    self.bdd_of_bits(v, &bits)
                })
                .collect()
        } else {
            match n {
                N::Const(_) | N::Var(_) => unreachable!(),
                N::Zext(a) => {
                    let mut x = self.blast(a)?.to_vec();
                    x.resize(w, F);
                    x
                }
                N::Sext(a) => {
                    let mut x = self.blast(a)?.to_vec();
                    let s = *x.last().unwrap();
                    x.resize(w, s);
                    x
                }
                N::Ext(a, o) => self.blast(a)?[o as usize..o as usize + w].to_vec(),
                N::Cat(h, l) => {
                    let mut x = self.blast(l)?.to_vec();
                    x.extend(self.blast(h)?.iter());
                    x
                }
                N::Ite(c, a, b) => {
                    let c = self.blast(c)?[0];
                    let (x, y) = (self.blast(a)?, self.blast(b)?);
                    (0..w).map(|i| self.bdd.ite(c, x[i], y[i])).collect()
                }
                N::Cmp(p, a, b) => {
                    let (x, y) = (self.blast(a)?, self.blast(b)?);
                    vec![self.cmp_bits(p, &x, &y)]
                }
                N::Bin(op, a, b) => {
                    let (x, y) = (self.blast(a)?, self.blast(b)?);
                    match op {
                        BinOp::And => (0..w).map(|i| self.bdd.and(x[i], y[i])).collect(),
                        BinOp::Or => (0..w).map(|i| self.bdd.or(x[i], y[i])).collect(),
                        BinOp::Xor => (0..w).map(|i| self.bdd.xor(x[i], y[i])).collect(),
                        BinOp::Add => self.add_bits(&x, &y, F),
                        BinOp::Sub => {
                            let ny: Vec<B> = y.iter().map(|b| self.bdd.not(*b)).collect();
                            self.add_bits(&x, &ny, T)
                        }
                        BinOp::Mul => {
                            let mut acc = vec![F; w];
                            for i in 0..w {
                                if y[i] == F {
                                    continue;
                                }
                                let mut row = vec![F; w];
                                for k in i..w {
                                    row[k] = self.bdd.and(x[k - i], y[i]);
                                }
                                acc = self.add_bits(&acc, &row, F);
                            }
                            acc
                        }
                        BinOp::Shl | BinOp::LShr | BinOp::AShr => {
                            let mut cur = x.to_vec();
                            let fill = if op == BinOp::AShr { *x.last().unwrap() } else { F };
                            for (k, &s) in y.iter().enumerate() {
                                if s == F {
                                    continue;
                                }
                                let d = if k >= 8 { usize::MAX } else { 1usize << k };
                                let mut nx = vec![F; w];
                                for i in 0..w {
                                    let sh = if op == BinOp::Shl {
                                        if d <= i {
                                            cur[i - d]
                                        } else {
                                            F
                                        }
                                    } else if d < w && i + d < w {
                                        cur[i + d]
                                    } else {
                                        fill
                                    };
                                    nx[i] = self.bdd.ite(s, sh, cur[i]);
                                }
                                cur = nx;
                            }
                            cur
                        }
                        _ => return Err(format!("bit-blasting {:?} over several symbolic bytes", op)),
                    }
                }
            }
        };
        let r = Rc::new(r);
        self.blast.insert(t, r.clone());
        Ok(r)
    }
    fn add_bits(&mut self, x: &[B], y: &[B], mut c: B) -> Vec<B> {
        let mut o = Vec::with_capacity(x.len());
        for i in 0..x.len() {
            let p = self.bdd.xor(x[i], y[i]);
            o.push(self.bdd.xor(p, c));
            let g = self.bdd.and(x[i], y[i]);
            let pc = self.bdd.and(p, c);
            c = self.bdd.or(g, pc);
        }
        o
    }
    fn cmp_bits(&mut self, p: Pred, x: &[B], y: &[B]) -> B {
        let w = x.len();
        match p {
            Pred::Eq | Pred::Ne => {
                let mut r = T;
                for i in 0..w {
                    let d = self.bdd.xor(x[i], y[i]);
                    let e = self.bdd.not(d);
                    r = self.bdd.and(r, e);
                    if r == F {
                        break;
                    }
                }
                if p == Pred::Ne {
                    r = self.bdd.not(r)
                }
                r
            }
            Pred::Ugt => self.cmp_bits(Pred::Ult, y, x),
            Pred::Uge => {
                let r = self.cmp_bits(Pred::Ult, x, y);
                self.bdd.not(r)
            }
            Pred::Ule => {
                let r = self.cmp_bits(Pred::Ult, y, x);
                self.bdd.not(r)
            }
            Pred::Ult => {
                let mut r = F;
                for i in 0..w {
                    // from LSB up: r = (!x & y) | (x==y) & r
                    let nx = self.bdd.not(x[i]);
                    let lt = self.bdd.and(nx, y[i]);
                    let d = self.bdd.xor(x[i], y[i]);
                    r = self.bdd.ite(d, lt, r);
                }
                r
            }
            _ => {
                let mut xs = x.to_vec();
                let mut ys = y.to_vec();
                xs[w - 1] = self.bdd.not(xs[w - 1]);
                ys[w - 1] = self.bdd.not(ys[w - 1]);
                let q = match p {
                    Pred::Sgt => Pred::Ugt,
                    Pred::Sge => Pred::Uge,
                    Pred::Slt => Pred::Ult,
                    _ => Pred::Ule,
                };
                self.cmp_bits(q, &xs, &ys)
            }
        }
    }
    /// Collects BDD garbage; everything not in `roots` is forgotten.
    pub fn gc(&mut self, roots: &mut [&mut B]) {
        self.blast = Default::default();
        self.bdd.gc(roots);
    }
    /// BDD of a one-bit term.
    pub fn b(&mut self, t: Tm) -> Result<B, String> {
        Ok(self.blast(t)?[0])
    }
}

/// Bytes below are choices, and keep together.
const FIRST: u32 = crate::exec::BYTE_VARS;

/// Where a bit of a byte comes in the order of the BDD: the bits of `k`
/// neighbouring bytes alternate, as they belong to texts that are compared.
fn level(k: u32, v: u32, bit: u32) -> u32 {
    if k <= 1 || v < FIRST {
        return 8 * v + bit;
    }
    let u = v - FIRST;
    8 * FIRST + u / k * (8 * k) + bit * k + u % k
}

impl Terms {
    /// The values byte `v` takes under a guard; none when it is not worth finding out.
    pub fn values(&self, g: B, v: u32) -> Option<Vec<bool>> {
        let mut out = vec![false; 256];
        let mut seen: crate::bdd::FxMap<(B, u32, u32), ()> = Default::default();
        let mut todo = vec![(g, 0u32, 0u32)];
        while let Some((n, bits, prefix)) = todo.pop() {
            if n == F {
                continue;
            }
            if bits == 8 {
                out[prefix as usize] = true;
                continue;
            }
            if seen.insert((n, bits, prefix), ()).is_some() {
                continue;
            }
            if seen.len() > 400_000 {
                return None;
            }
            let (l, lo, hi) = self.bdd.nodes[n as usize];
            let at = level(self.interleave, v, bits);
            if n == T || l > at {
                todo.push((n, bits + 1, 2 * prefix));
                todo.push((n, bits + 1, 2 * prefix + 1));
            } else if l == at {
                todo.push((lo, bits + 1, 2 * prefix));
                todo.push((hi, bits + 1, 2 * prefix + 1));
            } else {
                todo.push((lo, bits, prefix));
                todo.push((hi, bits, prefix));
            }
        }
        Some(out)
    }

    /// A term that is `a` when byte `v` is in `va`, and `b` when it is in `vb`.
    pub fn splice(&mut self, v: u32, a: Tm, va: &[bool], b: Tm, vb: &[bool]) -> Option<Tm> {
        let (x, y) = (self.table(a), self.table(b));
        let at = |t: &Vec<u128>, k: usize| if t.len() == 1 { t[0] } else { t[k] };
        let differ: Vec<bool> = (0..256).map(|k| at(&x, k) != at(&y, k)).collect();
        if (0..256).any(|k| va[k] && vb[k] && differ[k]) {
            return None;
        }
        // where the answer matters, and how wide it may be taken
        let must: Vec<usize> = (0..256).filter(|k| va[*k] && differ[*k]).collect();
        if must.is_empty() {
            return Some(b);
        }
        if !(0..256).any(|k| vb[k] && differ[k]) {
            return Some(a);
        }
        let mut ranges: Vec<(usize, usize)> = vec![];
        for k in must {
            match ranges.last_mut() {
                Some((_, hi)) if (*hi..k).all(|j| !(vb[j] && differ[j])) => *hi = k,
                _ => ranges.push((k, k)),
            }
        }
        let var = self.var(v);
        let mut c = None;
        for (lo, hi) in ranges {
            let l = self.cst(8, lo as u128);
            let d = self.bin(BinOp::Sub, var, l);
            let h = self.cst(8, (hi - lo) as u128);
            let r = self.cmp(Pred::Ule, d, h);
            c = Some(match c {
                None => r,
                Some(c) => self.bin(BinOp::Or, c, r),
            });
        }
        Some(self.ite(c.unwrap(), a, b))
    }
}

fn zip2(x: &[u128], y: &[u128], f: impl Fn(u128, u128) -> u128) -> Vec<u128> {
    match (x.len(), y.len()) {
        (1, 1) => vec![f(x[0], y[0])],
        (1, n) => (0..n).map(|k| f(x[0], y[k])).collect(),
        (n, 1) => (0..n).map(|k| f(x[k], y[0])).collect(),
        (n, _) => (0..n).map(|k| f(x[k], y[k])).collect(),
    }
}
