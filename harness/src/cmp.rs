//! P12-P14: equality, hashing and order.
use crate::spec;
use crate::sym::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use langtag::*;

/// A hasher that keeps one item of what it is fed, and counts the items. The
/// boundaries between calls are items too.
pub struct Rec {
    k: usize,
    count: usize,
    item: u64,
}
impl Rec {
    pub fn new(k: usize) -> Self {
        Rec { k, count: 0, item: 0 }
    }
    fn push(&mut self, x: u64) {
        if self.count == self.k {
            self.item = x;
        }
        self.count += 1;
    }
    pub fn same(&self, o: &Rec) -> bool {
        (self.count == o.count) & (self.item == o.item)
    }
}
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        self.count as u64
    }
    fn write(&mut self, b: &[u8]) {
        self.push(0x1000 + b.len() as u64);
        for &x in b {
            self.push(x as u64);
        }
    }
}

/// Two interleaved texts, of lengths `nm / 100` and `nm % 100`, or both of the
/// shape `nm`.
pub fn two<'a>(p: &'a mut [u8; M], q: &'a mut [u8; M], nm: usize) -> (&'a [u8], &'a [u8]) {
    if nm >> 32 != 0 {
        return (text(p, nm, 0, 0, 0, 2), text(q, nm, 0, 0, 1, 2));
    }
    (text(p, nm / 100, 0, 0, 0, 2), text(q, nm % 100, 0, 0, 1, 2))
}

/// How a text compares to a longer one that starts with it.
fn prefix_order() -> Ordering {
    match (LangTag::new("aa"), LangTag::new("aa-bb")) {
        (Ok(x), Ok(y)) => x.cmp(y),
        _ => Ordering::Equal,
    }
}

/// The order on texts: the first letters that differ, case aside.
#[inline(never)]
fn order(a: &[u8], b: &[u8]) -> Ordering {
    let mut i = 0;
    while i < a.len() && i < b.len() {
        let (x, y) = (spec::lower(a[i]), spec::lower(b[i]));
        if x < y {
            return Ordering::Less;
        }
        if x > y {
            return Ordering::Greater;
        }
        i += 1;
    }
    if a.len() == b.len() {
        Ordering::Equal
    } else if a.len() < b.len() {
        prefix_order()
    } else {
        prefix_order().reverse()
    }
}

/// P12: two values are equal when their texts are, case aside.
#[unsafe(no_mangle)]
pub extern "C" fn p12_eq(nm: usize, ty: usize, owned: usize, _: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = two(&mut p, &mut q, nm);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            if owned == 0 { (x == y, x != y) } else { (x.to_owned() == y.to_owned(), x.to_owned() != y.to_owned()) }
        }};
    }
    let (e, d) = each!(ty, f());
    check(e != d, 1);
    if e {
        reach(ty as u32)
    }
    check(e == spec::eq_nocase(a, b), 2);
}

/// Any one of the items fed for `x` is fed for `y`, and there are as many.
pub fn hash_both<T: ?Sized + Hash, U: ?Sized + Hash>(x: &T, y: &U, len: usize) {
    hash_some(x, y, 0, (16 * len + 32).min(255))
}
/// The same for `width` of the items.
pub fn hash_some<T: ?Sized + Hash, U: ?Sized + Hash>(x: &T, y: &U, from: usize, width: usize) {
    let most = from + width;
    let k = from + choice(width);
    let (mut g, mut h) = (Rec::new(k), Rec::new(k));
    x.hash(&mut g);
    y.hash(&mut h);
    check(g.same(&h), 4);
    if g.count > most {
        // more than was looked at
        reach(999);
    }
}

/// P12: equal values feed a hasher the same.
#[unsafe(no_mangle)]
pub extern "C" fn p12_hash(n: usize, ty: usize, owned: usize, _: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let a = text(&mut p, n, 0, 0, 0, 2);
    let b = text(&mut q, n, 0, 0, 1, 2);
    for i in 0..a.len() {
        assume(spec::lower(a[i]) == spec::lower(b[i]));
    }
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            check(x == y, 3);
            if owned == 0 {
                hash_both(x, y, a.len());
            } else {
                hash_both(&x.to_owned(), &y.to_owned(), a.len());
            }
        }};
    }
    each!(ty, f());
    reach(20 + ty as u32);
}

/// P12: a long text feeds a hasher like the same text in lower case.
#[unsafe(no_mangle)]
pub extern "C" fn p12_hash_long(n: usize, ty: usize, shape: usize, more: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let a = text(&mut p, n, shape, more, 0, 1);
    let b = &mut q[..a.len()];
    for i in 0..b.len() {
        b[i] = spec::lower(a[i]);
    }
    let b = &*b;
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            hash_both(x, y, a.len());
        }};
    }
    each!(ty, f());
    reach(41);
}

/// A text, and the same in lower case but for any character at `k`.
#[inline(never)]
pub fn near<'a>(
    p: &'a mut [u8; M],
    q: &'a mut [u8; M],
    n: usize,
    shape: usize,
    more: usize,
    k: usize,
) -> (&'a [u8], &'a [u8]) {
    let a = text(p, n, shape, more, 0, 2);
    let mut z = [0];
    fill(&mut z, 2 * k + 1, 1);
    assume(z[0] < 0x80);
    let b = &mut q[..a.len()];
    for i in 0..b.len() {
        b[i] = if i == k { z[0] } else { spec::lower(a[i]) };
    }
    (a, b)
}

/// The order of two texts that can only differ at `k`.
#[inline(never)]
pub fn order_at(a: &[u8], b: &[u8], k: usize) -> Ordering {
    if k >= a.len() { Ordering::Equal } else { spec::lower(a[k]).cmp(&spec::lower(b[k])) }
}

/// P12: the same for long texts: equality by the bytes that differ.
#[unsafe(no_mangle)]
pub extern "C" fn p12_long(nk: usize, ty: usize, shape: usize, more: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (n, k) = (nk % 1000, nk / 1000);
    let (a, b) = near(&mut p, &mut q, n, shape, more, k);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            x == y
        }};
    }
    let e = each!(ty, f());
    reach(40);
    check(e == (order_at(a, b, k) == Ordering::Equal), 6);
}

/// P13: the order of two values is the order of their texts, case aside.
#[unsafe(no_mangle)]
pub extern "C" fn p13_cmp(nm: usize, ty: usize, what: usize, _: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = two(&mut p, &mut q, nm);
    check(prefix_order() != Ordering::Equal, 1);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            match what {
                0 => x.cmp(y),
                1 => match x.partial_cmp(y) {
                    Some(o) => o,
                    None => {
                        check(false, 2);
                        return;
                    }
                },
                2 => {
                    if x < y {
                        Ordering::Less
                    } else if x > y {
                        Ordering::Greater
                    } else {
                        Ordering::Equal
                    }
                }
                3 => {
                    let (le, ge) = (x <= y, x >= y);
                    check(le || ge, 3);
                    if le && ge {
                        Ordering::Equal
                    } else if le {
                        Ordering::Less
                    } else {
                        Ordering::Greater
                    }
                }
                4 => {
                    // the other way round, and equality
                    let o = y.cmp(x).reverse();
                    check((o == Ordering::Equal) == (x == y), 4);
                    o
                }
                _ => {
                    // owned values
                    let (x, y) = (x.to_owned(), y.to_owned());
                    let o = x.cmp(&y);
                    check(x.partial_cmp(&y) == Some(o), 4);
                    check((o == Ordering::Equal) == (x == y), 4);
                    o
                }
            }
        }};
    }
    let o = each!(ty, f());
    reach(ty as u32);
    check(o == order(a, b), 5);
}

/// P13: the same for long texts: they differ at one place.
#[unsafe(no_mangle)]
pub extern "C" fn p13_long(nk: usize, ty: usize, shape: usize, more: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (n, k) = (nk % 1000, nk / 1000);
    let (a, b) = near(&mut p, &mut q, n, shape, more, k);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            x.cmp(y)
        }};
    }
    let o = each!(ty, f());
    reach(40);
    check(o == order_at(a, b, k), 6);
}

/// A text, and the lower-case form of its first segments, `j` of them.
fn cut<'a>(p: &'a mut [u8; M], q: &'a mut [u8; M], n: usize, j: usize) -> (&'a [u8], &'a [u8]) {
    let a = text(p, n, 0, 0, 0, 1);
    let mut m = 0;
    let mut left = j;
    while m < a.len() {
        if a[m] == b'-' {
            left -= 1;
            if left == 0 {
                break;
            }
        }
        m += 1;
    }
    let b = &mut q[..m];
    for i in 0..m {
        b[i] = spec::lower(a[i]);
    }
    (a, b)
}

/// P12: a text is not equal to one that it starts.
#[unsafe(no_mangle)]
pub extern "C" fn p12_cut(n: usize, ty: usize, j: usize, _: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = cut(&mut p, &mut q, n, j);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            (x == y, y == x)
        }};
    }
    let (e, f) = each!(ty, f());
    reach(42);
    check(e == (a.len() == b.len()) && f == e, 7);
}

/// P13: a text is always on the same side of one that it starts.
#[unsafe(no_mangle)]
pub extern "C" fn p13_cut(n: usize, ty: usize, j: usize, _: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = cut(&mut p, &mut q, n, j);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            (x.cmp(y), y.cmp(x), x.partial_cmp(y))
        }};
    }
    let (o, r, c) = each!(ty, f());
    reach(42);
    let expect = if a.len() == b.len() { Ordering::Equal } else { prefix_order().reverse() };
    check(o == expect && r == expect.reverse() && c == Some(expect), 7);
}

/// P14: a value compares to a text as to the value the text stands for; a text
/// that stands for none is different from it and not ordered with it.
#[unsafe(no_mangle)]
pub extern "C" fn p14_mixed(nm: usize, ty: usize, how: usize, what: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    // from 10000 on, the foreign text is not only ASCII
    let (a, b) = if nm < 10000 || nm >> 32 != 0 {
        two(&mut p, &mut q, nm)
    } else {
        let b = &mut q[..nm % 100];
        fill(b, 1, 2);
        if what >= 2 || !matches!(how, 0 | 1 | 4 | 6 | 7 | 10) {
            assume(spec::utf8(b));
        }
        (text(&mut p, nm / 100 % 100, 0, 0, 0, 2), &*b)
    };
    // 0: ==, 1: == reversed, 2: partial_cmp, 3: partial_cmp reversed
    macro_rules! pair {
        ($x:expr, $y:expr) => {
            match what {
                0 => ($x == $y, None),
                1 => ($y == $x, None),
                2 => (false, PartialOrd::partial_cmp($x, $y)),
                _ => (false, PartialOrd::partial_cmp($y, $x).map(Ordering::reverse)),
            }
        };
    }
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let Ok(x) = $T::new(str(a)) else { return };
            let s = str(b);
            match how {
                0 => pair!(x, b),
                1 => pair!(x, &b),
                2 => pair!(x, s),
                3 => pair!(x, &s),
                4 => pair!(x, &b.to_vec()),
                5 => pair!(x, &s.to_owned()),
                6 => pair!(&x.to_owned(), b),
                7 => pair!(&x.to_owned(), &b),
                8 => pair!(&x.to_owned(), s),
                9 => pair!(&x.to_owned(), &s),
                10 => pair!(&x.to_owned(), &b.to_vec()),
                _ => pair!(&x.to_owned(), &s.to_owned()),
            }
        }};
    }
    let (e, o) = each!(ty, f());
    let ok = crate::parse::ascii(b) && spec::of(ty, b);
    if what < 2 {
        if e {
            reach(ty as u32)
        }
        check(e == (ok && spec::eq_nocase(a, b)), 1);
    } else if ok {
        reach(20 + ty as u32);
        check(o == Some(order(a, b)), 2);
    } else {
        reach(40);
        check(o.is_none(), 3);
    }
}

/// P14: the same for long texts that differ in case and at one place.
#[unsafe(no_mangle)]
pub extern "C" fn p14_long(n: usize, ty: usize, hw: usize, k: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = near(&mut p, &mut q, n, 0, 0, k);
    let (how, what) = (hw / 4, hw % 4);
    macro_rules! pair {
        ($x:expr, $y:expr) => {
            match what {
                0 => ($x == $y, None),
                1 => ($y == $x, None),
                2 => (false, PartialOrd::partial_cmp($x, $y)),
                _ => (false, PartialOrd::partial_cmp($y, $x).map(Ordering::reverse)),
            }
        };
    }
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let Ok(x) = $T::new(str(a)) else { return };
            let s = str(b);
            match how {
                0 => pair!(x, b),
                1 => pair!(x, &b),
                2 => pair!(x, s),
                3 => pair!(x, &s),
                4 => pair!(x, &b.to_vec()),
                5 => pair!(x, &s.to_owned()),
                6 => pair!(&x.to_owned(), b),
                7 => pair!(&x.to_owned(), &b),
                8 => pair!(&x.to_owned(), s),
                9 => pair!(&x.to_owned(), &s),
                10 => pair!(&x.to_owned(), &b.to_vec()),
                _ => pair!(&x.to_owned(), &s.to_owned()),
            }
        }};
    }
    let (e, o) = each!(ty, f());
    let ok = spec::of(ty, b);
    let expect = order_at(a, b, k);
    reach(41);
    if what < 2 {
        check(e == (ok && expect == Ordering::Equal), 4);
    } else {
        check(o == if ok { Some(expect) } else { None }, 5);
    }
}

/// Where the parts of `p12_parts` may come.
fn before(ty: usize) -> &'static [u8] {
    match ty {
        0 | 1 | 3 => b"de",
        2 => b"x",
        11 => b"a",
        _ => b"",
    }
}

/// Appends `-` and a part.
#[inline(never)]
fn add(to: &mut [u8; M], mut n: usize, part: &[u8], fold: bool) -> usize {
    if n > 0 {
        to[n] = b'-';
        n += 1;
    }
    for i in 0..part.len() {
        to[n + i] = if fold { spec::lower(part[i]) } else { part[i] };
    }
    n + part.len()
}

/// P12, P13: texts made of the same parts, in another order or more often,
/// are not the same.
#[unsafe(no_mangle)]
pub extern "C" fn p12_parts(n: usize, ty: usize, how: usize, n2: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (mut x, mut y) = ([0; M], [0; M]);
    let (a, b) = (text(&mut p, n, 0, 0, 0, 2), text(&mut q, n2, 0, 0, 1, 2));
    let one: [&[u8]; 3] = match how % 8 {
        0 | 2 => [a, b, b""],
        1 => [a, b"", b""],
        3 | 4 => [a, b, b""],
        5 => [a, a, b],
        _ => [a, b, a],
    };
    let two: [&[u8]; 3] = match how % 8 {
        0 => [b, a, b""],
        1 => [a, a, b""],
        2 => [a, b, a],
        3 => [a, b"", b""],
        4 => [a, a, b""],
        5 => [a, b, b],
        _ => [b, a, a],
    };
    let z = before(ty);
    let (mut i, mut j) = (add(&mut x, 0, z, false), add(&mut y, 0, z, false));
    for k in one {
        if !k.is_empty() {
            i = add(&mut x, i, k, false);
        }
    }
    for k in two {
        if !k.is_empty() {
            j = add(&mut y, j, k, how >= 8);
        }
    }
    let (a, b) = (&x[..i], &y[..j]);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            (x == y, x != y, x.cmp(y), x.partial_cmp(y), y.cmp(x))
        }};
    }
    let (e, d, o, c, r) = each!(ty, f());
    reach(if e { 43 } else { 44 });
    check(e == spec::eq_nocase(a, b) && d != e, 8);
    check(o == order(a, b), 9);
    check(c == Some(o) && r == o.reverse(), 10);
}
