//! P15-P17, P19: owned values, serialisation, singletons, formatting.
use crate::spec;
use crate::sym::*;
use core::borrow::Borrow;
use core::fmt;
use langtag::*;
use serde::{Deserialize, Serialize, de, ser};

/// Takes what is written.
pub struct Sink {
    buf: [u8; M],
    n: usize,
}
impl Sink {
    pub fn new() -> Self {
        Sink { buf: [0; M], n: 0 }
    }
    pub fn bytes(&self) -> &[u8] {
        &self.buf[..self.n]
    }
}
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let b = s.as_bytes();
        if b.len() > M - self.n {
            return Err(fmt::Error);
        }
        self.buf[self.n..self.n + b.len()].copy_from_slice(b);
        self.n += b.len();
        Ok(())
    }
}

macro_rules! own {
    ($o:ident, LangTag) => { $o.as_lang_tag() };
    ($o:ident, NormalLangTag) => { $o.as_normal_lang_tag() };
    ($o:ident, PrivateUse) => { $o.as_private_use() };
    ($o:ident, Language) => { $o.as_language() };
    ($o:ident, PrimaryLanguage) => { $o.as_primary_language() };
    ($o:ident, LanguageExtension) => { $o.as_language_extension() };
    ($o:ident, ExtendedLangTag) => { $o.as_extended_lang_tag() };
    ($o:ident, Script) => { $o.as_script() };
    ($o:ident, Region) => { $o.as_region() };
    ($o:ident, Variant) => { $o.as_variant() };
    ($o:ident, Variants) => { $o.as_variants() };
    ($o:ident, Extension) => { $o.as_extension() };
    ($o:ident, ExtensionSubtag) => { $o.as_extension_subtag() };
    ($o:ident, Extensions) => { $o.as_extensions() };
    ($o:ident, PrivateUseSubtag) => { $o.as_private_use_subtag() };
    ($o:ident, $T:ident) => { core::ops::Deref::deref(&$o) };
}

/// P15: an owned value holds the text it was made from, and gives it back.
#[unsafe(no_mangle)]
pub extern "C" fn p15_owned(n: usize, ty: usize, what: usize, _: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, 0, 0, 0, 1);
    let s = str(b);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let Ok(x) = $T::new(s) else { return };
            let o: $B = x.to_owned();
            match what {
                0 => same(o.as_bytes(), b) && same(o.as_str().as_bytes(), b),
                1 => same(o.into_string().as_bytes(), b),
                2 => same(&o.into_bytes(), b),
                3 => {
                    let c = o.clone();
                    let ok = same(c.as_bytes(), b) && c == o;
                    drop(o);
                    ok && same(c.as_bytes(), b)
                }
                4 => {
                    let t: &$T = &o;
                    let u: &$T = o.borrow();
                    let v: &$T = o.as_ref();
                    let w: &$T = own!(o, $T);
                    same(t.as_bytes(), b) && same(u.as_bytes(), b) && same(v.as_bytes(), b) && same(w.as_bytes(), b)
                }
                5 => {
                    let t: &str = o.as_ref();
                    let u: &[u8] = o.as_ref();
                    same(t.as_bytes(), b) && same(u, b)
                }
                6 => same(String::from(o).as_bytes(), b),
                7 => same(&Vec::<u8>::from(o), b),
                8 => {
                    let t: &str = x.as_ref();
                    let u: &[u8] = x.as_ref();
                    let v: &$T = x.as_ref();
                    let w: &str = x.borrow();
                    same(t.as_bytes(), b) && same(u, b) && same(v.as_bytes(), b) && same(w.as_bytes(), b)
                }
                _ => {
                    let t: &str = x.into();
                    let u: &[u8] = x.into();
                    same(t.as_bytes(), b) && same(u, b)
                }
            }
        }};
    }
    let ok = each!(ty, f());
    reach(ty as u32);
    check(ok, 1);
}

/// P15: owned values compare and hash as the values they hold.
#[unsafe(no_mangle)]
pub extern "C" fn p15_cmp(nm: usize, ty: usize, what: usize, _: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = crate::cmp::two(&mut p, &mut q, nm);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            let o = x.to_owned();
            match what {
                0 => (o == y.to_owned()) == (x == y),
                1 => (o == *y) == (x == y),
                2 => (o == y) == (x == y),
                3 => (*y == o) == (x == y),
                4 => o.cmp(&y.to_owned()) == x.cmp(y),
                5 => o.partial_cmp(&y.to_owned()) == x.partial_cmp(y),
                6 => o.partial_cmp(y) == x.partial_cmp(y),
                _ => y.partial_cmp(&o) == y.partial_cmp(x),
            }
        }};
    }
    let ok = each!(ty, f());
    reach(20 + ty as u32);
    check(ok, 2);
}

/// P15: the same for long texts that differ in case and at one place.
#[unsafe(no_mangle)]
pub extern "C" fn p15_long(n: usize, ty: usize, what: usize, k: usize) {
    let (mut p, mut q) = ([0; M], [0; M]);
    let (a, b) = crate::cmp::near(&mut p, &mut q, n, 0, 0, k);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let (Ok(x), Ok(y)) = ($T::new(str(a)), $T::new(str(b))) else { return };
            let o = x.to_owned();
            match what {
                0 => (o == y.to_owned(), None),
                1 => (o == *y, None),
                2 => (o == y, None),
                3 => (*y == o, None),
                4 => (false, Some(o.cmp(&y.to_owned()))),
                5 => (false, o.partial_cmp(&y.to_owned())),
                6 => (false, o.partial_cmp(y)),
                _ => (false, y.partial_cmp(&o).map(|o| o.reverse())),
            }
        }};
    }
    let (e, o) = each!(ty, f());
    reach(19);
    let expect = crate::cmp::order_at(a, b, k);
    if what < 4 {
        check(e == (expect == core::cmp::Ordering::Equal), 3)
    } else {
        check(o == Some(expect), 4)
    }
}

/// P15: an owned value can be found by the borrowed one.
#[unsafe(no_mangle)]
pub extern "C" fn p15_hash(n: usize, ty: usize, from: usize, width: usize) {
    let mut p = [0; M];
    let a = text(&mut p, n, 0, 0, 0, 1);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let Ok(x) = $T::new(str(a)) else { return };
            if width == 0 {
                crate::cmp::hash_both(x, &x.to_owned(), a.len());
            } else {
                crate::cmp::hash_some(x, &x.to_owned(), from, width);
            }
        }};
    }
    each!(ty, f());
    reach(40 + ty as u32);
}

/// P17: which characters are singletons.
#[unsafe(no_mangle)]
pub extern "C" fn p17_byte(what: usize, _: usize, _: usize, _: usize) {
    let mut c = [0];
    fill(&mut c, 0, 1);
    let c = c[0];
    let ok = (spec::alpha(c) || spec::digit(c)) & (c != b'x') & (c != b'X');
    let r = match what {
        0 => Singleton::new(c),
        _ => Singleton::try_from(c),
    };
    match r {
        Ok(s) => {
            reach(1);
            check(ok, 1);
            check(s.unwrap() == c, 2);
            check(s == c, 3);
            check(s == c as char, 3);
        }
        Err(InvalidSingleton(e)) => {
            reach(2);
            check(!ok && e == c, 4);
        }
    }
}

/// P17: the same from a character.
#[unsafe(no_mangle)]
pub extern "C" fn p17_char(_: usize, _: usize, _: usize, _: usize) {
    let mut c = [0; 4];
    fill(&mut c, 0, 1);
    let v = u32::from_le_bytes(c);
    assume(v < 0xd800 || (v >= 0xe000 && v < 0x110000));
    let ch = unsafe { char::from_u32_unchecked(v) };
    let ok = v < 0x80 && (spec::alpha(c[0]) || spec::digit(c[0])) && c[0] != b'x' && c[0] != b'X';
    match Singleton::try_from(ch) {
        Ok(s) => {
            reach(3);
            check(ok, 5);
            check(s.unwrap() == c[0], 6);
            check(s == ch, 7);
        }
        Err(InvalidSingleton(e)) => {
            reach(4);
            check(!ok && e == ch, 8);
        }
    }
}

/// P17: the same from a text.
#[unsafe(no_mangle)]
pub extern "C" fn p17_text(n: usize, what: usize, _: usize, _: usize) {
    let mut buf = [0; M];
    let b = &mut buf[..n];
    fill(b, 0, 1);
    let b = &*b;
    assume(spec::utf8(b));
    let ok = n == 1 && (spec::alpha(b[0]) || spec::digit(b[0])) && b[0] != b'x' && b[0] != b'X';
    let got = match what {
        0 => match Singleton::from_string(str(b)) {
            Ok(s) => Some(s),
            Err(InvalidSingleton(e)) => {
                check(same(e.as_bytes(), b), 9);
                None
            }
        },
        _ => match <Singleton as core::str::FromStr>::from_str(str(b)) {
            Ok(s) => Some(s),
            Err(InvalidSingleton(e)) => {
                check(same(e.as_bytes(), b), 9);
                None
            }
        },
    };
    match got {
        Some(s) => {
            reach(5);
            check(ok && s.unwrap() == b[0], 10)
        }
        None => {
            reach(6);
            check(!ok, 11)
        }
    }
}

/// P17: comparisons of singletons with characters, and what they print.
#[unsafe(no_mangle)]
pub extern "C" fn p17_same(what: usize, _: usize, _: usize, _: usize) {
    let mut c = [0; 5];
    fill(&mut c, 0, 1);
    let Ok(s) = Singleton::new(c[0]) else { return };
    reach(7);
    match what {
        0 => check((s == c[1]) == (c[0] == c[1]), 12),
        1 => {
            let v = u32::from_le_bytes([c[1], c[2], c[3], c[4]]);
            assume(v < 0xd800 || (v >= 0xe000 && v < 0x110000));
            let ch = unsafe { char::from_u32_unchecked(v) };
            check((s == ch) == (v == c[0] as u32), 13)
        }
        2 => {
            let Ok(t) = Singleton::new(c[1]) else { return };
            reach(8);
            check((s == t) == (c[0] == c[1]), 14);
            check(s.cmp(&t) == c[0].cmp(&c[1]), 15);
            check(s.partial_cmp(&t) == Some(c[0].cmp(&c[1])), 15);
            check((s < t) == (c[0] < c[1]) && (s >= t) == (c[0] >= c[1]), 15);
            check((s != t) == (c[0] != c[1]), 14);
        }
        4 => {
            let Ok(t) = Singleton::new(c[1]) else { return };
            if s == t {
                crate::cmp::hash_both(&s, &t, 1);
                check(c[0] == c[1], 17);
            }
        }
        _ => {
            let mut w = Sink::new();
            check(fmt::write(&mut w, format_args!("{s}")).is_ok(), 16);
            check(same(w.bytes(), &c[..1]), 16);
        }
    }
}

/// P19: what is printed is the text.
#[unsafe(no_mangle)]
pub extern "C" fn p19_print(n: usize, ty: usize, what: usize, _: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, 0, 0, 0, 1);
    let mut w = Sink::new();
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let Ok(x) = $T::new(str(b)) else { return };
            match what {
                0 => fmt::write(&mut w, format_args!("{x}")),
                1 => fmt::write(&mut w, format_args!("{x:?}")),
                2 => fmt::write(&mut w, format_args!("{}", x.to_owned())),
                _ => fmt::write(&mut w, format_args!("{:?}", x.to_owned())),
            }
        }};
    }
    let r = each!(ty, f());
    reach(ty as u32);
    check(r.is_ok(), 1);
    check(same(w.bytes(), b), 2);
}

/// P19: so it is for what is no text inside: grandfathered tags, singletons.
#[unsafe(no_mangle)]
pub extern "C" fn p19_other(what: usize, _: usize, _: usize, _: usize) {
    let mut w = Sink::new();
    match what {
        0 => {
            let g = GRANDFATHERED[choice(26)];
            reach(20);
            check(fmt::write(&mut w, format_args!("{g}")).is_ok(), 3);
            check(same(w.bytes(), g.as_bytes()), 4);
            check(same(w.bytes(), g.as_str().as_bytes()), 4);
        }
        1 => {
            // as part of a tag
            let k = choice(26);
            let mut c = [0; 11];
            let n = spec::GRANDFATHERED[k].len();
            fill(&mut c, 0, 1);
            for i in 0..n {
                assume(spec::lower(c[i]) == spec::lower(spec::GRANDFATHERED[k].as_bytes()[i]));
            }
            let Ok(t) = LangTag::new(str(&c[..n])) else { return };
            let Some(g) = t.as_grandfathered() else {
                check(false, 6);
                return;
            };
            reach(21);
            check(fmt::write(&mut w, format_args!("{g}")).is_ok(), 7);
            check(spec::eq_nocase(w.bytes(), &c[..n]), 8);
        }
        _ => {
            let mut c = [0];
            fill(&mut c, 0, 1);
            let Ok(s) = Singleton::new(c[0]) else { return };
            reach(22);
            check(fmt::write(&mut w, format_args!("{s}")).is_ok(), 9);
            check(same(w.bytes(), &c), 10);
        }
    }
}

// ---------------------------------------------------------------- serde

#[derive(Debug)]
pub struct Fail;
impl fmt::Display for Fail {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Fail {}
impl ser::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail
    }
}
impl de::Error for Fail {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Fail
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Fail
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Fail
    }
}

/// Accepts a text, and compares it with the expected one.
struct Taker<'a>(&'a [u8]);
macro_rules! no {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self, $(_: $t),*) -> Result<bool, Fail> { Ok(false) })*
    };
}
impl<'a> ser::Serializer for Taker<'a> {
    type Ok = bool;
    type Error = Fail;
    type SerializeSeq = ser::Impossible<bool, Fail>;
    type SerializeTuple = ser::Impossible<bool, Fail>;
    type SerializeTupleStruct = ser::Impossible<bool, Fail>;
    type SerializeTupleVariant = ser::Impossible<bool, Fail>;
    type SerializeMap = ser::Impossible<bool, Fail>;
    type SerializeStruct = ser::Impossible<bool, Fail>;
    type SerializeStructVariant = ser::Impossible<bool, Fail>;
    fn serialize_str(self, s: &str) -> Result<bool, Fail> {
        Ok(same(s.as_bytes(), self.0))
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, t: &T) -> Result<bool, Fail> {
        let mut w = Sink::new();
        fmt::write(&mut w, format_args!("{t}")).map_err(|_| Fail)?;
        Ok(same(w.bytes(), self.0))
    }
    no! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64);
        serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_f32(f32);
        serialize_f64(f64); serialize_char(char); serialize_bytes(&[u8]); serialize_none(); serialize_unit();
        serialize_unit_struct(&'static str); serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, t: &T) -> Result<bool, Fail> {
        t.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &T,
    ) -> Result<bool, Fail> {
        Ok(false)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Fail> {
        Err(Fail)
    }
    fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, Fail> {
        Err(Fail)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, Fail> {
        Err(Fail)
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, Fail> {
        Err(Fail)
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Fail> {
        Err(Fail)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, Fail> {
        Err(Fail)
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, Fail> {
        Err(Fail)
    }
}

/// Gives a text: borrowed, short-lived, or owned.
struct Giver<'de>(&'de str, usize);
impl<'de> de::Deserializer<'de> for Giver<'de> {
    type Error = Fail;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, Fail> {
        match self.1 {
            0 => v.visit_borrowed_str(self.0),
            1 => v.visit_str(self.0),
            _ => v.visit_string(self.0.to_owned()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// P16: a value is serialised as its text.
#[unsafe(no_mangle)]
pub extern "C" fn p16_ser(n: usize, ty: usize, owned: usize, _: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, 0, 0, 0, 1);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            let Ok(x) = $T::new(str(b)) else { return };
            if owned == 0 { x.serialize(Taker(b)) } else { x.to_owned().serialize(Taker(b)) }
        }};
    }
    let r = each!(ty, f());
    reach(ty as u32);
    check(matches!(r, Ok(true)), 1);
}

/// P16: a text is deserialised exactly when it is well-formed, and as itself.
#[unsafe(no_mangle)]
pub extern "C" fn p16_de(n: usize, ty: usize, owned: usize, how: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, 0, 0, 0, 1);
    let s = str(b);
    macro_rules! f {
        ($T:ident, $B:ident, $E:ident,) => {{
            if owned == 0 {
                match <&$T>::deserialize(Giver(s, 0)) {
                    Ok(t) => {
                        check(same(t.as_bytes(), b), 2);
                        true
                    }
                    Err(_) => false,
                }
            } else {
                match $B::deserialize(Giver(s, how)) {
                    Ok(t) => {
                        check(same(t.as_bytes(), b), 3);
                        true
                    }
                    Err(_) => false,
                }
            }
        }};
    }
    let got = each!(ty, f());
    if got {
        reach(20 + ty as u32)
    }
    check(got == spec::of(ty, b), 4);
}
