//! P20, P21: parts and wholes, and values asked for everything.
use crate::cmp::Rec;
use crate::sym::*;
use core::fmt;
use core::hash::Hash;
use langtag::*;

/// A text under construction.
struct Made {
    b: [u8; M],
    n: usize,
}

impl Made {
    #[inline(never)]
    fn add(&mut self, part: &[u8]) {
        if self.n > 0 {
            self.b[self.n] = b'-';
            self.n += 1;
        }
        let at = self.n;
        for i in 0..part.len() {
            self.b[at + i] = part[i];
        }
        self.n += part.len();
    }
    fn bytes(&self) -> &[u8] {
        &self.b[..self.n]
    }
}

/// A symbolic part of the given shape (nothing for 0), after `at` others bytes.
#[inline(never)]
fn part<'a>(buf: &'a mut [u8; M], shape: usize, at: &mut usize) -> &'a [u8] {
    if shape == 0 {
        return &[];
    }
    let b = text(buf, shape << 32, 0, 0, *at, 1);
    *at += b.len() + 1;
    b
}

/// P20: a language, a script, a region, variants, extensions and a private use
/// part, each accepted by its own type, make a tag with these parts.
/// `one`: the shapes of language (16 bits), script (4), region (4).
#[unsafe(no_mangle)]
pub extern "C" fn p20_make(one: usize, variants: usize, extensions: usize, private: usize) {
    let mut at = 0;
    let (mut p1, mut p2, mut p3, mut p4, mut p5, mut p6) = ([0; M], [0; M], [0; M], [0; M], [0; M], [0; M]);
    let l = part(&mut p1, (one & 0xffff) << 16, &mut at);
    let s = part(&mut p2, (one >> 16 & 15) << 28, &mut at);
    let r = part(&mut p3, (one >> 20 & 15) << 28, &mut at);
    let v = part(&mut p4, variants, &mut at);
    let e = part(&mut p5, extensions, &mut at);
    let p = part(&mut p6, private, &mut at);
    if Language::new(str(l)).is_err() {
        return;
    }
    if !s.is_empty() && Script::new(str(s)).is_err() {
        return;
    }
    if !r.is_empty() && Region::new(str(r)).is_err() {
        return;
    }
    if Variants::new(str(v)).is_err() || Extensions::new(str(e)).is_err() {
        return;
    }
    if !p.is_empty() && PrivateUse::new(str(p)).is_err() {
        return;
    }
    let mut m = Made { b: [0; M], n: 0 };
    for x in [l, s, r, v, e, p] {
        if !x.is_empty() {
            m.add(x);
        }
    }
    reach(1);
    check(LangTag::new(str(m.bytes())).is_ok(), 1);
    let Ok(t) = NormalLangTag::new(str(m.bytes())) else {
        check(false, 2);
        return;
    };
    check(same(t.language().as_bytes(), l), 3);
    let none: &[u8] = &[];
    check(same(t.script().map(|x| x.as_bytes()).unwrap_or(none), s), 4);
    check(same(t.region().map(|x| x.as_bytes()).unwrap_or(none), r), 5);
    check(same(t.variants().as_bytes(), v), 6);
    check(same(t.extensions().as_bytes(), e), 7);
    check(same(t.private_use().map(|x| x.as_bytes()).unwrap_or(none), p), 8);
}

/// P20: a tag is its parts, with hyphens between.
#[unsafe(no_mangle)]
pub extern "C" fn p20_parts(n: usize, _: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(t) = NormalLangTag::new(str(b)) else { return };
    reach(2);
    // where the next part must start
    let mut at = 0;
    macro_rules! next {
        ($x:expr, $id:expr) => {{
            let x: &[u8] = $x;
            if !x.is_empty() {
                if at > 0 {
                    check(at < b.len() && b[at] == b'-', $id);
                    at += 1;
                }
                check(within(b, x) == Some(at), $id);
                at += x.len();
            }
        }};
    }
    next!(t.language().as_bytes(), 10);
    check(Language::new(t.language().as_str()).is_ok(), 10);
    if let Some(x) = t.script() {
        next!(x.as_bytes(), 11);
        check(Script::new(x.as_str()).is_ok(), 11)
    }
    if let Some(x) = t.region() {
        next!(x.as_bytes(), 12);
        check(Region::new(x.as_str()).is_ok(), 12)
    }
    next!(t.variants().as_bytes(), 13);
    check(Variants::new(t.variants().as_str()).is_ok(), 13);
    next!(t.extensions().as_bytes(), 14);
    check(Extensions::new(t.extensions().as_str()).is_ok(), 14);
    if let Some(x) = t.private_use() {
        next!(x.as_bytes(), 15);
        check(PrivateUse::new(x.as_str()).is_ok(), 15)
    }
    check(at == b.len(), 16);
}

/// P20: subtags make lists, each with those very subtags.
#[unsafe(no_mangle)]
pub extern "C" fn p20_list(what: usize, a: usize, b: usize, c: usize) {
    let mut at = 0;
    let (mut p1, mut p2, mut p3) = ([0; M], [0; M], [0; M]);
    let x = [part(&mut p1, a, &mut at), part(&mut p2, b, &mut at), part(&mut p3, c, &mut at)];
    let mut m = Made { b: [0; M], n: 0 };
    macro_rules! all {
        ($T:ident) => {
            for y in x {
                if !y.is_empty() {
                    if $T::new(str(y)).is_err() {
                        return;
                    }
                    m.add(y);
                }
            }
        };
    }
    macro_rules! iter {
        ($it:expr, $from:expr) => {{
            let mut it = $it;
            for y in &x[$from..] {
                if !y.is_empty() {
                    match it.next() {
                        Some(z) => check(same(z.as_bytes(), y), 21),
                        None => check(false, 21),
                    }
                }
            }
            check(it.next().is_none(), 22);
        }};
    }
    match what {
        0 => {
            all!(Variant);
            let Ok(l) = Variants::new(str(m.bytes())) else { return check(false, 20) };
            reach(10);
            iter!(l.iter(), 0)
        }
        1 => {
            all!(Extension);
            let Ok(l) = Extensions::new(str(m.bytes())) else { return check(false, 20) };
            reach(11);
            iter!(l.iter(), 0)
        }
        2 => {
            m.add(b"x");
            all!(PrivateUseSubtag);
            let Ok(l) = PrivateUse::new(str(m.bytes())) else { return check(false, 20) };
            reach(12);
            iter!(l.iter(), 0);
            let Ok(t) = LangTag::new(str(m.bytes())) else { return check(false, 23) };
            match t.as_private_use() {
                Some(p) => iter!(p.iter(), 0),
                None => check(false, 23),
            }
        }
        3 => {
            all!(ExtendedLangTag);
            let Ok(l) = LanguageExtension::new(str(m.bytes())) else { return check(false, 20) };
            reach(13);
            iter!(l.iter(), 0)
        }
        4 => {
            // the first of them is the singleton
            if x[0].len() != 1 {
                return;
            }
            let Ok(s) = Singleton::new(x[0][0]) else { return };
            m.add(x[0]);
            for y in [x[1], x[2]] {
                if !y.is_empty() {
                    if ExtensionSubtag::new(str(y)).is_err() {
                        return;
                    }
                    m.add(y);
                }
            }
            let Ok(l) = Extension::new(str(m.bytes())) else { return check(false, 20) };
            reach(14);
            check(l.singleton() == s, 24);
            iter!(l.iter(), 1)
        }
        _ => {
            // a primary language of two or three letters, and extended ones
            if PrimaryLanguage::new(str(x[0])).is_err() || LanguageExtension::new(str(x[1])).is_err() {
                return;
            }
            if x[0].len() > 3 {
                return;
            }
            m.add(x[0]);
            m.add(x[1]);
            let Ok(l) = Language::new(str(m.bytes())) else { return check(false, 20) };
            reach(15);
            check(same(l.primary().as_bytes(), x[0]), 25);
            match l.extension() {
                Some(e) => check(same(e.as_bytes(), x[1]), 26),
                None => check(false, 26),
            }
        }
    }
}

/// Prints, hashes and compares a value with itself.
macro_rules! itself {
    ($x:expr, $w:expr) => {{
        let x = $x;
        check($w.fmt(format_args!("{x}{x:?}")), 30);
        let mut h = Rec::new(0);
        x.hash(&mut h);
        check(x == x && x.cmp(x).is_eq() && !(x < x), 31);
        check(x.as_str().len() == x.as_bytes().len(), 32);
    }};
}

/// Counts what is printed.
struct Count(usize);
impl Count {
    fn fmt(&mut self, a: fmt::Arguments) -> bool {
        fmt::write(self, a).is_ok()
    }
}
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// P21: a value, and each part of it, answers everything it can be asked.
#[unsafe(no_mangle)]
pub extern "C" fn p21_ask(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let w = &mut Count(0);
    match what {
        0 => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(20);
            itself!(t, w);
            let _ = (t.is_normal(), t.is_private_use(), t.is_grandfathered());
            check(w.fmt(format_args!("{:?}", t.kind())), 33);
            if let Some(g) = t.as_grandfathered() {
                reach(21);
                check(w.fmt(format_args!("{g}")), 33);
                if let Some(l) = g.language() {
                    itself!(l, w)
                }
            }
        }
        1 => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(22);
            if let Some(l) = t.language() {
                itself!(l, w);
                itself!(l.primary(), w);
                if let Some(e) = l.extension() {
                    itself!(e, w)
                }
                for x in l.extension_subtags() {
                    itself!(x, w)
                }
            }
        }
        2 => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(23);
            if let Some(x) = t.script() {
                itself!(x, w)
            }
            if let Some(x) = t.region() {
                itself!(x, w)
            }
        }
        3 => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(24);
            let v = t.variants();
            itself!(v, w);
            for x in v.iter() {
                itself!(x, w)
            }
            if let (Some(x), Some(y)) = (v.first(), v.last()) {
                itself!(x, w);
                itself!(y, w)
            }
        }
        4 => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(25);
            let v = t.extensions();
            itself!(v, w);
            for x in v.iter() {
                itself!(x, w);
                let s = x.singleton();
                check(w.fmt(format_args!("{s}{s:?}")), 33);
                check(v.get(s).is_some(), 34);
                for y in x.iter() {
                    itself!(y, w)
                }
            }
        }
        5 => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(26);
            if let Some(x) = t.private_use() {
                itself!(x, w)
            }
            for x in t.private_use_subtags() {
                itself!(x, w)
            }
        }
        _ => {
            let Ok(t) = LangTag::new(str(b)) else { return };
            reach(27);
            match t.as_typed() {
                TypedLangTag::Normal(x) => {
                    itself!(x, w);
                    for y in x.private_use_subtags() {
                        itself!(y, w)
                    }
                }
                TypedLangTag::PrivateUse(x) => {
                    itself!(x, w);
                    for y in x.iter() {
                        itself!(y, w)
                    }
                }
                TypedLangTag::Grandfathered(g) => check(matches!(GrandfatheredLangTag::new(g.as_str()), Ok(h) if h == g), 35),
            }
        }
    }
    check(w.0 < 1 << 20, 36);
}

/// P21: any text can be offered to any type, and what refuses it can be shown.
#[unsafe(no_mangle)]
pub extern "C" fn p21_refuse(n: usize, ty: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = &mut buf[..n];
    fill(b, 0, 1);
    assume(crate::spec::utf8(b));
    let b = &*b;
    let w = &mut Count(0);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            match $T::new(str(b)) {
                Ok(x) => itself!(x, w),
                Err(e) => {
                    reach(30 + ty as u32);
                    check(w.fmt(format_args!("{e}")), 37);
                    check(w.0 > 0, 38);
                }
            }
        }};
    }
    each!(ty, f());
}

/// P21: a text, a byte or a character can be offered to the singleton.
#[unsafe(no_mangle)]
pub extern "C" fn p21_single(n: usize, what: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = &mut buf[..n];
    fill(b, 0, 1);
    let w = &mut Count(0);
    macro_rules! shown {
        ($r:expr, $at:expr) => {
            match $r {
                Ok(s) => {
                    reach($at);
                    check(w.fmt(format_args!("{s}{s:?}")), 40);
                    check(s == s && s.cmp(&s).is_eq() && s == s.unwrap(), 41);
                }
                Err(e) => {
                    reach($at + 1);
                    check(w.fmt(format_args!("{e}")), 42);
                    check(w.0 > 0, 43);
                }
            }
        };
    }
    match what {
        0 => {
            assume(crate::spec::utf8(b));
            shown!(Singleton::from_string(str(b)), 60)
        }
        1 => {
            assume(crate::spec::utf8(b));
            shown!(str(b).parse::<Singleton>(), 62)
        }
        2 => shown!(Singleton::try_from(b[0]), 64),
        _ => {
            let c = u32::from_le_bytes([b[0], b[1], b[2], b[3]]);
            let Some(c) = char::from_u32(c) else { return };
            shown!(Singleton::try_from(c), 66)
        }
    }
}

/// P21: an iterator can be asked anything at each point, its end included, and
/// goes on being asked after it.
#[unsafe(no_mangle)]
pub extern "C" fn p21_walk(n: usize, which: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    macro_rules! front {
        ($T:ident, $x:ident, $it:expr) => {{
            let Ok($x) = $T::new(str(b)) else { return };
            reach(70 + which as u32);
            let mut it = $it;
            let mut seen = 0;
            let mut after = 0;
            while after < 3 {
                let (lo, hi) = it.size_hint();
                check(hi.is_none_or(|h| lo <= h), 50);
                match it.next() {
                    Some(y) => {
                        seen += y.as_bytes().len() + 1;
                        check(seen <= b.len() + 1, 51);
                    }
                    None => after += 1,
                }
            }
            it.nth(1);
            it.size_hint();
            check(it.count() <= b.len(), 52);
            let mut it = $it;
            it.nth(1);
            it.size_hint();
            check(it.last().is_none_or(|x| x.as_bytes().len() <= b.len()), 53);
        }};
    }
    match which {
        0 => {
            front!(Variants, x, x.iter());
            // from both ends at once
            let Ok(v) = Variants::new(str(b)) else { return };
            let mut it = v.iter();
            let mut after = 0;
            while after < 3 {
                it.size_hint();
                if choice(2) == 1 {
                    if it.next().is_none() {
                        after += 1
                    }
                } else if it.next_back().is_none() {
                    after += 1
                }
            }
            it.nth_back(1);
            check(it.rev().count() <= b.len(), 54)
        }
        1 => front!(Extensions, x, x.iter()),
        2 => front!(Extension, x, x.iter()),
        3 => front!(PrivateUse, x, x.iter()),
        4 => front!(LanguageExtension, x, x.iter()),
        5 => front!(Language, x, x.extension_subtags()),
        6 => front!(LangTag, x, x.private_use_subtags()),
        7 => front!(LangTag, x, x.variants().iter()),
        8 => front!(LangTag, x, x.extensions().iter()),
        9 => front!(NormalLangTag, x, x.private_use_subtags()),
        10 => front!(PrivateUseLangTag, x, x.iter()),
        _ => front!(NormalLangTag, x, x.language().extension_subtags()),
    }
}
