//! P04-P06, P10, P11, P18: what a tag is made of.
use crate::spec;
use crate::sym::*;
use langtag::*;

/// The bytes of a component; `None` when it is absent (or an empty list).
fn get(t: &NormalLangTag, k: usize) -> Option<&[u8]> {
    fn full(b: &[u8]) -> Option<&[u8]> {
        if b.is_empty() { None } else { Some(b) }
    }
    match k {
        0 => Some(t.language().as_bytes()),
        1 => t.script().map(|x| x.as_bytes()),
        2 => t.region().map(|x| x.as_bytes()),
        3 => full(t.variants().as_bytes()),
        4 => full(t.extensions().as_bytes()),
        _ => t.private_use().map(|x| x.as_bytes()),
    }
}

#[inline(never)]
fn get_tag(t: &LangTag, k: usize) -> Option<&[u8]> {
    fn full(b: &[u8]) -> Option<&[u8]> {
        if b.is_empty() { None } else { Some(b) }
    }
    match k {
        0 => t.language().map(|x| x.as_bytes()),
        1 => t.script().map(|x| x.as_bytes()),
        2 => t.region().map(|x| x.as_bytes()),
        3 => full(t.variants().as_bytes()),
        4 => full(t.extensions().as_bytes()),
        _ => t.private_use().map(|x| x.as_bytes()),
    }
}

/// One end of a component, or its absence, is where the grammar puts it.
#[inline(always)]
fn compare(b: &[u8], got: Option<&[u8]>, k: usize, end: bool) {
    match got {
        None => {
            check(spec::component(b, k, end).is_none(), 1);
        }
        Some(x) => {
            match within(b, x) {
                Some(p) => {
                    let at = if end { p + x.len() } else { p };
                    reach(k as u32);
                    check(spec::component(b, k, end) == Some(at), 2);
                }
                None => {
                    // not a part of the tag, but it may still read the same
                    match (spec::component(b, k, false), spec::component(b, k, true)) {
                        (Some(lo), Some(hi)) => check(same(x, &b[lo..hi]), 3),
                        _ => check(false, 3),
                    }
                }
            }
        }
    }
}

/// P04: the components of a normal tag are where the grammar puts them.
#[unsafe(no_mangle)]
pub extern "C" fn p04_comp(n: usize, ke: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let (k, end) = (ke / 2, ke % 2 == 1);
    if let Ok(t) = NormalLangTag::new(str(b)) {
        compare(b, get(t, k), k, end);
    }
}

/// P04: each component is accepted by the constructor of its own type.
#[unsafe(no_mangle)]
pub extern "C" fn p04_own(n: usize, k: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    if let Ok(t) = NormalLangTag::new(str(b)) {
        if let Some(x) = get(t, k) {
            let ok = match k {
                0 => Language::new(x).is_ok(),
                1 => Script::new(x).is_ok(),
                2 => Region::new(x).is_ok(),
                3 => Variants::new(x).is_ok(),
                4 => Extensions::new(x).is_ok(),
                _ => PrivateUse::new(x).is_ok(),
            };
            reach(10 + k as u32);
            check(ok, 4);
        }
    }
}

#[inline(never)]
fn normal(b: &[u8]) -> Option<&NormalLangTag> {
    NormalLangTag::new(str(b)).ok()
}

/// P05: a tag answers like its normal view; another kind of tag has nothing
/// to answer.
#[unsafe(no_mangle)]
pub extern "C" fn p05_tag(n: usize, k: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(t) = LangTag::new(str(b)) else { return };
    match normal(b) {
        Some(u) => {
            let (x, y) = (get_tag(t, k), get(u, k));
            match (x, y) {
                (None, None) => {}
                (Some(x), Some(y)) => {
                    reach(k as u32);
                    check(same(x, y), 1)
                }
                _ => check(false, 1),
            }
        }
        None => {
            reach(10);
            check(get_tag(t, k).is_none(), 2);
        }
    }
}

/// P05: the private use subtags of a tag, of its normal view, and of its
/// private use part are the same.
#[unsafe(no_mangle)]
pub extern "C" fn p05_private(n: usize, view: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(t) = LangTag::new(str(b)) else { return };
    let u = normal(b);
    let at = match u {
        Some(_) => spec::component(b, 5, false),
        None => None,
    };
    let mut it = match (view, u) {
        (0, _) => t.private_use_subtags(),
        (_, Some(u)) => u.private_use_subtags(),
        _ => return,
    };
    match at {
        None => {
            reach(11);
            check(it.next().is_none(), 3)
        }
        Some(at) => {
            reach(12);
            crate::lists::segments(b, at + 2, b.len(), |_| it.next().map(|x| x.as_bytes()), 4);
        }
    }
}

/// P05: the typed view of a tag gives the same language.
#[unsafe(no_mangle)]
pub extern "C" fn p05_typed(n: usize, _: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(t) = LangTag::new(str(b)) else { return };
    let ty = t.as_typed();
    let x = ty.language().map(|x| x.as_bytes());
    let y = get_tag(t, 0);
    match (x, y) {
        (None, None) => reach(13),
        (Some(x), Some(y)) => {
            reach(14);
            check(same(x, y), 5)
        }
        _ => check(false, 5),
    }
}

/// P06: a language is its primary subtag and its extended subtags.
#[unsafe(no_mangle)]
pub extern "C" fn p06_language(n: usize, what: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, 0, 0, 0, 1);
    let Ok(l) = Language::new(str(b)) else { return };
    let mut end = 0;
    while end < b.len() && b[end] != b'-' {
        end += 1;
    }
    match what {
        0 => {
            let p = l.primary();
            reach(1);
            check(same(p.as_bytes(), &b[..end]), 1);
            check(PrimaryLanguage::new(p.as_str()).is_ok(), 2);
        }
        1 => match l.extension() {
            None => check(end == b.len(), 3),
            Some(x) => {
                reach(2);
                check(end < b.len() && same(x.as_bytes(), &b[end + 1..]), 4);
                check(LanguageExtension::new(x.as_str()).is_ok(), 5);
            }
        },
        2 => {
            let mut it = l.extension_subtags();
            if end < b.len() {
                reach(3);
            }
            crate::lists::segments(
                b,
                end + 1,
                b.len(),
                |_| {
                    it.next().map(|x| {
                        check(ExtendedLangTag::new(x.as_str()).is_ok(), 6);
                        x.as_bytes()
                    })
                },
                7,
            );
        }
        _ => {
            // what the tag calls its language
            let t = NormalLangTag::new(str(b));
            reach(4);
            match t {
                Ok(t) => check(same(t.language().as_bytes(), b), 8),
                Err(_) => check(false, 8),
            }
            match LangTag::new(str(b)) {
                Ok(t) => match t.language() {
                    Some(l) => check(same(l.as_bytes(), b), 11),
                    None => check(false, 11),
                },
                Err(_) => check(false, 11),
            }
        }
    }
}

/// P06: the subtags of an extended language.
#[unsafe(no_mangle)]
pub extern "C" fn p06_extension(n: usize, _: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, 0, 0, 0, 1);
    let Ok(l) = LanguageExtension::new(str(b)) else { return };
    reach(5);
    let mut it = l.iter();
    crate::lists::segments(
        b,
        0,
        b.len(),
        |_| {
            it.next().map(|x| {
                check(ExtendedLangTag::new(x.as_str()).is_ok(), 9);
                x.as_bytes()
            })
        },
        10,
    );
}

/// P10: the kind of a tag.
#[unsafe(no_mangle)]
pub extern "C" fn p10_kind(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let (nm, pu, gf) = (spec::langtag(b), spec::privateuse(b), spec::grandfathered(b));
    let Ok(t) = LangTag::new(str(b)) else { return };
    let expect = if nm {
        Kind::Normal
    } else if pu {
        Kind::PrivateUse
    } else {
        Kind::Grandfathered
    };
    reach(expect as u32);
    match what {
        0 => {
            let k = t.kind();
            check(k == expect, 1);
            check(k.is_normal() == (expect == Kind::Normal), 2);
            check(k.is_private_use() == (expect == Kind::PrivateUse), 2);
            check(k.is_grandfathered() == (expect == Kind::Grandfathered), 2);
        }
        1 => {
            check(t.is_normal() == nm, 3);
            match t.as_normal() {
                Some(u) => check(nm && same(u.as_bytes(), b), 4),
                None => check(!nm, 4),
            }
        }
        2 => {
            check(t.is_private_use() == pu, 5);
            match t.as_private_use() {
                Some(u) => check(pu && same(u.as_bytes(), b), 6),
                None => check(!pu, 6),
            }
        }
        3 => {
            check(t.is_grandfathered() == gf.is_some(), 7);
            match (t.as_grandfathered(), gf) {
                (Some(g), Some(k)) => {
                    reach(4);
                    check(spec::eq_lower(g.as_str().as_bytes(), spec::GRANDFATHERED[k].as_bytes()), 8)
                }
                (None, None) => {}
                _ => check(false, 8),
            }
        }
        _ => {
            let ty = t.as_typed();
            check(ty.kind() == expect, 9);
            check(ty.is_normal() == (expect == Kind::Normal), 10);
            check(ty.is_private_use() == (expect == Kind::PrivateUse), 10);
            check(ty.is_grandfathered() == (expect == Kind::Grandfathered), 10);
            check(ty.as_normal().is_some() == (expect == Kind::Normal), 11);
            check(ty.as_private_use().is_some() == (expect == Kind::PrivateUse), 11);
            check(ty.as_grandfathered().is_some() == (expect == Kind::Grandfathered), 11);
            match ty {
                TypedLangTag::Normal(u) => check(same(u.as_bytes(), b), 12),
                TypedLangTag::PrivateUse(u) => check(same(u.as_bytes(), b), 12),
                TypedLangTag::Grandfathered(g) => check(spec::eq_nocase(g.as_bytes(), b), 12),
            }
        }
    }
}

/// P11: a grandfathered tag is recognised whatever its case, nothing else is,
/// and what is recognised reads as the tag.
#[unsafe(no_mangle)]
pub extern "C" fn p11_parse(n: usize, door: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = &mut buf[..n];
    fill(b, 0, 1);
    let b = &*b;
    // from 10 on, ASCII only
    if door >= 10 {
        assume_ascii(b);
    }
    let k = spec::grandfathered(b);
    let got = match door % 10 {
        0 => match GrandfatheredLangTag::new(b) {
            Ok(g) => Some(g),
            Err(e) => {
                check(same(e, b), 1);
                None
            }
        },
        2 => {
            assume(spec::utf8(b));
            match GrandfatheredLangTag::new(str(b)) {
                Ok(g) => Some(g),
                Err(e) => {
                    check(same(e.as_bytes(), b), 1);
                    None
                }
            }
        }
        3 => match GrandfatheredLangTag::new(b.to_vec()) {
            Ok(g) => Some(g),
            Err(e) => {
                check(same(&e, b), 1);
                None
            }
        },
        _ => match GrandfatheredLangTag::try_from(b) {
            Ok(g) => Some(g),
            Err(InvalidGrandfatheredTag(e)) => {
                check(same(e, b), 1);
                None
            }
        },
    };
    match (got, k) {
        (None, None) => reach(1),
        (Some(g), Some(k)) => {
            reach(2);
            check(spec::eq_nocase(g.as_bytes(), b), 2);
            check(same(g.as_str().as_bytes(), g.as_bytes()), 3);
            check(spec::eq_lower(g.as_bytes(), spec::GRANDFATHERED[k].as_bytes()), 4);
        }
        _ => check(false, 5),
    }
}

/// P11: each of the 26 tags: its text is a tag, reads back as itself, and its
/// language is its first subtag when it is a regular one.
#[unsafe(no_mangle)]
pub extern "C" fn p11_each(what: usize, _: usize, _: usize, _: usize) {
    let k = choice(26);
    let g = GRANDFATHERED[k];
    let b = g.as_bytes();
    reach(3);
    let i = match spec::grandfathered(b) {
        Some(i) => i,
        None => {
            check(false, 6);
            return;
        }
    };
    match what {
        0 => {
            match GrandfatheredLangTag::new(b) {
                Ok(h) => check(g == h, 7),
                Err(_) => check(false, 7),
            }
            // all different
            let j = choice(26);
            check(j == k || !spec::eq_nocase(GRANDFATHERED[j].as_bytes(), b), 8);
        }
        1 => match g.language() {
            Some(l) => {
                reach(4);
                check(i >= spec::REGULAR, 9);
                let mut end = 0;
                while b[end] != b'-' {
                    end += 1;
                }
                check(same(l.as_bytes(), &b[..end]), 10);
                check(Language::new(l.as_str()).is_ok(), 11);
            }
            None => {
                reach(5);
                check(i < spec::REGULAR, 9)
            }
        },
        2 => match LangTag::new(g.as_str()) {
            Ok(t) => {
                check(t.as_grandfathered() == Some(g), 12);
                // the other subtags are not extended language subtags
                let a = t.language().map(|x| x.primary().as_bytes());
                let b = g.language().map(|x| x.as_bytes());
                match (a, b) {
                    (None, None) => {}
                    (Some(a), Some(b)) => check(same(a, b), 13),
                    _ => check(false, 13),
                }
            }
            Err(_) => check(false, 12),
        },
        _ => {
            let mut w = crate::misc::Sink::new();
            check(core::fmt::write(&mut w, format_args!("{g}")).is_ok(), 14);
            check(same(w.bytes(), b), 14);
        }
    }
}

/// P18: validity and kind do not depend on the case of letters.
#[unsafe(no_mangle)]
pub extern "C" fn p18_valid(n: usize, ty: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let n = b.len();
    let mut low = [0; M];
    for i in 0..n {
        low[i] = spec::lower(b[i]);
    }
    let low = &low[..n];
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {
            ($T::new(str(b)).is_ok(), $T::new(str(low)).is_ok())
        };
    }
    let (x, y) = each!(ty, f());
    if x {
        reach(ty as u32)
    }
    check(x == y, 1);
    if ty == 0 {
        if let (Ok(t), Ok(u)) = (LangTag::new(str(b)), LangTag::new(str(low))) {
            check(t.kind() == u.kind(), 2);
        }
    }
}

/// P18: neither does the position of a component.
#[unsafe(no_mangle)]
pub extern "C" fn p18_comp(n: usize, ke: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let n = b.len();
    let mut low = [0; M];
    for i in 0..n {
        low[i] = spec::lower(b[i]);
    }
    let low = &low[..n];
    let (k, end) = (ke / 2 % 6, ke % 2 == 1);
    let at = |b: &[u8], x: Option<&[u8]>| match x {
        None => usize::MAX,
        Some(x) => match within(b, x) {
            Some(p) => {
                if end {
                    p + x.len()
                } else {
                    p
                }
            }
            None => usize::MAX - 1,
        },
    };
    let (p, q) = if ke < 12 {
        let (Ok(t), Ok(u)) = (NormalLangTag::new(str(b)), NormalLangTag::new(str(low))) else { return };
        (at(b, get(t, k)), at(low, get(u, k)))
    } else {
        let (Ok(t), Ok(u)) = (LangTag::new(str(b)), LangTag::new(str(low))) else { return };
        (at(b, get_tag(t, k)), at(low, get_tag(u, k)))
    };
    if p != usize::MAX {
        reach(20 + ke as u32 / 2);
    }
    check(p == q, 3);
}

/// P18: nor how lists are cut.
#[unsafe(no_mangle)]
pub extern "C" fn p18_list(n: usize, which: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let n = b.len();
    let mut low = [0; M];
    for i in 0..n {
        low[i] = spec::lower(b[i]);
    }
    let low = &low[..n];
    macro_rules! both {
        ($T:ident, $x:ident => $e:expr, $k:expr) => {{
            let (Ok(t), Ok(u)) = ($T::new(str(b)), $T::new(str(low))) else { return };
            let mut i = {
                let $x = t;
                $e
            };
            let mut j = {
                let $x = u;
                $e
            };
            loop {
                match (i.next(), j.next()) {
                    (Some(x), Some(y)) => {
                        reach(40 + $k);
                        let (x, y) = (x.as_bytes(), y.as_bytes());
                        check(x.len() == y.len() && within(b, x) == within(low, y), 4)
                    }
                    (None, None) => break,
                    _ => {
                        check(false, 4);
                        break;
                    }
                }
            }
        }};
    }
    match which {
        0 => both!(Variants, x => x.iter(), 0),
        1 => both!(Variants, x => x.iter().rev(), 1),
        2 => both!(Extensions, x => x.iter(), 2),
        3 => both!(Extension, x => x.iter(), 3),
        4 => both!(PrivateUse, x => x.iter(), 4),
        5 => both!(LanguageExtension, x => x.iter(), 5),
        6 => both!(Language, x => x.extension_subtags(), 6),
        7 => both!(LangTag, x => x.private_use_subtags(), 7),
        8 => both!(NormalLangTag, x => x.private_use_subtags(), 8),
        9 => both!(Language, x => Some(x.primary()).into_iter(), 9),
        10 => both!(Language, x => x.extension().into_iter(), 10),
        _ => {
            // the subtags of any one extension
            let c = choice(36) as u8;
            let c = if c < 10 { b'0' + c } else { b'a' + c - 10 };
            let Ok(s) = Singleton::new(c) else { return };
            both!(Extensions, x => x.iter_extension(s), 11)
        }
    }
}
