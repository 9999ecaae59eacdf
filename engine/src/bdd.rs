//! A small reduced ordered BDD package (no complement edges, no GC).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.write_u64(*c as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517c_c1b7_2722_0a95);
        self.0 ^= self.0 >> 29;
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type B = u32;
pub const F: B = 0;
pub const T: B = 1;

const CB: u32 = 20;
const MOST: usize = 40_000_000;

pub struct Bdd {
    pub nodes: Vec<(u32, B, B)>, // var, lo, hi
    uniq: FxMap<(u32, B, B), B>,
    cache: Vec<(B, B, B, B)>, // direct mapped
    pub deadline: Option<std::time::Instant>,
    pub max_bytes: isize,
}

impl Bdd {
    pub fn new() -> Self {
        Bdd { nodes: vec![(u32::MAX, 0, 0), (u32::MAX, 1, 1)], uniq: Default::default(), cache: vec![(0, 0, 0, 0); 1 << CB], deadline: None, max_bytes: isize::MAX }
    }
    pub fn mk(&mut self, v: u32, lo: B, hi: B) -> B {
        if lo == hi {
            return lo;
        }
        if let Some(&n) = self.uniq.get(&(v, lo, hi)) {
            return n;
        }
        let n = self.nodes.len() as B;
        if n & 0x3_ffff == 0 {
            // a panic is an error of the job
            if n as usize > MOST || crate::mem::used() > self.max_bytes {
                panic!("memory limit")
            }
            if self.deadline.is_some_and(|d| std::time::Instant::now() > d) {
                panic!("time limit")
            }
        }
        self.nodes.push((v, lo, hi));
        self.uniq.insert((v, lo, hi), n);
        n
    }
    pub fn var(&mut self, v: u32) -> B {
        self.mk(v, F, T)
    }
    pub fn ite(&mut self, f: B, g: B, h: B) -> B {
        if f == T {
            return g;
        }
        if f == F {
            return h;
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let (mut g, mut h) = (g, h);
        if f == g {
            g = T
        }
        if f == h {
            h = F
        }
        if g == h {
            return g;
        }
        if g == T && h == F {
            return f;
        }
        let mut f = f;
        // commutative normal forms
        if h == F && g > 1 && g < f {
            std::mem::swap(&mut f, &mut g);
        } else if g == T && h > 1 && h < f {
            std::mem::swap(&mut f, &mut h);
        }
        let slot = {
            let x = (f as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15)
                ^ (g as u64).wrapping_mul(0xC2B2_AE3D_27D4_EB4F).rotate_left(21)
                ^ (h as u64).wrapping_mul(0x1656_67B1_9E37_79F9).rotate_left(42);
            (x.wrapping_mul(0xD6E8_FEB8_6659_FD93) >> (64 - CB)) as usize
        };
        let c = self.cache[slot];
        if c.0 == f && c.1 == g && c.2 == h {
            return c.3;
        }
        let (fv, f0, f1) = self.nodes[f as usize];
        let (gv, g0, g1) = self.nodes[g as usize];
        let (hv, h0, h1) = self.nodes[h as usize];
        let v = fv.min(gv).min(hv);
        let (f0, f1) = if fv == v { (f0, f1) } else { (f, f) };
        let (g0, g1) = if gv == v { (g0, g1) } else { (g, g) };
        let (h0, h1) = if hv == v { (h0, h1) } else { (h, h) };
        let lo = self.ite(f0, g0, h0);
        let hi = self.ite(f1, g1, h1);
        let r = self.mk(v, lo, hi);
        self.cache[slot] = (f, g, h, r);
        r
    }
    pub fn and(&mut self, a: B, b: B) -> B {
        self.ite(a, b, F)
    }
    pub fn or(&mut self, a: B, b: B) -> B {
        self.ite(a, T, b)
    }
    pub fn not(&mut self, a: B) -> B {
        self.ite(a, F, T)
    }
    pub fn xor(&mut self, a: B, b: B) -> B {
        let nb = self.not(b);
        self.ite(a, nb, b)
    }
    /// One satisfying assignment, as (var, value) pairs along a path.
    /// `pick` biases the choice when both branches are satisfiable.
    pub fn sat(&self, mut f: B, pick: &mut dyn FnMut(u32) -> bool) -> Option<Vec<(u32, bool)>> {
        if f == F {
            return None;
        }
        let mut out = vec![];
        while f != T {
            let (v, lo, hi) = self.nodes[f as usize];
            let b = if lo == F {
                true
            } else if hi == F {
                false
            } else {
                pick(v)
            };
            out.push((v, b));
            f = if b { hi } else { lo };
        }
        Some(out)
    }
    /// Number of satisfying assignments over `n` variables, as a float.
    pub fn count(&self, f: B, n: u32) -> f64 {
        fn go(b: &Bdd, f: B, n: u32, m: &mut FxMap<B, f64>) -> f64 {
            // fraction of assignments
            if f == F {
                return 0.0;
            }
            if f == T {
                return 1.0;
            }
            if let Some(x) = m.get(&f) {
                return *x;
            }
            let (_, lo, hi) = b.nodes[f as usize];
            let r = 0.5 * go(b, lo, n, m) + 0.5 * go(b, hi, n, m);
            m.insert(f, r);
            r
        }
        let mut m = Default::default();
        go(self, f, n, &mut m) * 2f64.powi(n as i32)
    }
    /// Keeps what the roots reach; the roots are renamed in place.
    pub fn gc(&mut self, roots: &mut [&mut B]) {
        let mut mark = vec![false; self.nodes.len()];
        mark[0] = true;
        mark[1] = true;
        let mut st: Vec<B> = roots.iter().map(|r| **r).collect();
        while let Some(x) = st.pop() {
            if !mark[x as usize] {
                mark[x as usize] = true;
                let (_, lo, hi) = self.nodes[x as usize];
                st.push(lo);
                st.push(hi);
            }
        }
        let mut map = vec![0 as B; self.nodes.len()];
        map[1] = 1;
        let old = std::mem::take(&mut self.nodes);
        self.nodes = vec![old[0], old[1]];
        self.uniq = Default::default();
        self.cache.iter_mut().for_each(|c| *c = (0, 0, 0, 0));
        for i in 2..old.len() {
            if mark[i] {
                let (v, lo, hi) = old[i];
                let (lo, hi) = (map[lo as usize], map[hi as usize]);
                let n = self.nodes.len() as B;
                self.nodes.push((v, lo, hi));
                self.uniq.insert((v, lo, hi), n);
                map[i] = n;
            }
        }
        for r in roots {
            **r = map[**r as usize];
        }
    }
}
