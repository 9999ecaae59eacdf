//! P01-P03: what is accepted, and through which door.
use crate::spec;
use crate::sym::*;
use langtag::*;

/// P01: a text is a language tag exactly when RFC 5646 says so.
#[unsafe(no_mangle)]
pub extern "C" fn p01_tag(n: usize, shape: usize, more: usize, _: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let expect = spec::tag(b);
    let got = LangTag::new(str(b)).is_ok();
    if got {
        reach(1)
    }
    check(expect || !got, 1);
    check(got || !expect, 2);
}

/// P01: no text with a character outside of ASCII is a language tag.
#[unsafe(no_mangle)]
pub extern "C" fn p01_utf8(n: usize, _: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = &mut buf[..n];
    fill(b, 0, 1);
    assume(spec::utf8(b));
    assume(!ascii(b));
    reach(2);
    check(LangTag::new(str(b)).is_err(), 3);
}

#[inline(never)]
pub fn ascii(b: &[u8]) -> bool {
    for &c in b {
        if c >= 0x80 {
            return false;
        }
    }
    true
}

/// P02: a text is accepted by the type of a subtag or of a list of subtags
/// exactly when it matches the production.
#[unsafe(no_mangle)]
pub extern "C" fn p02_type(n: usize, ty: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let expect = spec::of(ty, b);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {
            $T::new(str(b)).is_ok()
        };
    }
    let got = each!(ty, f());
    if got {
        reach(ty as u32)
    }
    check(expect || !got, 1);
    check(got || !expect, 2);
}

/// P02: nothing outside of ASCII.
#[unsafe(no_mangle)]
pub extern "C" fn p02_utf8(n: usize, ty: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = &mut buf[..n];
    fill(b, 0, 1);
    assume(spec::utf8(b));
    assume(!ascii(b));
    reach(20);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {
            $T::new(str(b)).is_ok()
        };
    }
    check(!each!(ty, f()), 3);
}

/// P03: every door for bytes gives the same answer, lends what it was given,
/// and gives it back when it is refused.
#[unsafe(no_mangle)]
pub extern "C" fn p03_bytes(n: usize, ty: usize, door: usize, _: usize) {
    let mut buf = [0; M];
    let b = if n >> 32 != 0 {
        text(&mut buf, n, 0, 0, 0, 1)
    } else {
        fill(&mut buf[..n], 0, 1);
        &buf[..n]
    };
    macro_rules! door {
        ($T:ident, $E:ident, $e:expr) => {
            match $e {
                Ok(t) => {
                    let t: &$T = t;
                    check(same_place(t.as_bytes(), b), 10);
                    check(same_place(t.as_str().as_bytes(), b), 11);
                    true
                }
                Err($E(x)) => {
                    check(same_place(x, b), 12);
                    false
                }
            }
        };
    }
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {
            match door {
                0 => door!($T, $E, $T::new(b)),
                1 => door!($T, $E, $T::from_bytes(b)),
                2 => door!($T, $E, <&$T>::try_from(b)),
                3 => $T::validate_bytes(b),
                4 => match $B::from_bytes(b.to_vec()) {
                    Ok(t) => {
                        check(same(t.as_bytes(), b), 10);
                        true
                    }
                    Err($E(v)) => {
                        check(same(&v, b), 12);
                        false
                    }
                },
                6 => match $B::try_from(b.to_vec()) {
                    Ok(t) => {
                        check(same(t.as_bytes(), b), 10);
                        true
                    }
                    Err($E(v)) => {
                        check(same(&v, b), 12);
                        false
                    }
                },
                _ => match $B::new(b.to_vec()) {
                    Ok(t) => {
                        check(same(t.as_bytes(), b), 10);
                        true
                    }
                    Err($E(v)) => {
                        check(same(&v, b), 12);
                        false
                    }
                },
            }
        };
    }
    let got = each!(ty, f());
    let ok = ascii(b) && spec::of(ty, b);
    if got {
        reach(ty as u32);
        if !ok {
            // overlong UTF-8: a known finding; anything else is a violation
            let mut out = [0; 16];
            let lax = match spec::lax(b, &mut out) {
                Some(k) => spec::of(ty, &out[..k]),
                None => false,
            };
            check(lax, 1);
            reach(900);
        }
    } else {
        check(!ok, 2);
    }
}

#[inline(always)]
fn same_place(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && a.as_ptr() == b.as_ptr()
}

/// P03: the same for the doors that take text.
#[unsafe(no_mangle)]
pub extern "C" fn p03_text(n: usize, ty: usize, door: usize, utf8: usize) {
    let mut buf = [0; M];
    let b = if utf8 == 0 {
        text(&mut buf, n, 0, 0, 0, 1)
    } else {
        fill(&mut buf[..n], 0, 1);
        assume(spec::utf8(&buf[..n]));
        &buf[..n]
    };
    let s = str(b);
    macro_rules! door {
        ($T:ident, $E:ident, $e:expr) => {
            match $e {
                Ok(t) => {
                    let t: &$T = t;
                    check(same_place(t.as_bytes(), b), 10);
                    check(same_place(t.as_str().as_bytes(), b), 11);
                    true
                }
                Err($E(x)) => {
                    check(same_place(AsRef::<[u8]>::as_ref(x), b), 12);
                    false
                }
            }
        };
    }
    macro_rules! owned {
        ($E:ident, $e:expr) => {
            match $e {
                Ok(t) => {
                    check(same(t.as_bytes(), b), 10);
                    check(same(t.as_str().as_bytes(), b), 11);
                    true
                }
                Err($E(x)) => {
                    check(same(x.as_bytes(), b), 12);
                    false
                }
            }
        };
    }
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {
            match door {
                0 => door!($T, $E, $T::new(s)),
                1 => door!($T, $E, $T::from_str(s)),
                2 => door!($T, $E, <&$T>::try_from(s)),
                3 => $T::validate_str(s),
                4 => owned!($E, $B::from_string(s.to_owned())),
                5 => owned!($E, $B::new(s.to_owned())),
                6 => owned!($E, $B::try_from(s.to_owned())),
                _ => owned!($E, <$B as core::str::FromStr>::from_str(s)),
            }
        };
    }
    let got = each!(ty, f());
    if got {
        reach(30 + ty as u32);
    }
    let ok = ascii(b) && spec::of(ty, b);
    check(got == ok, 1);
}
