//! RFC 5646 section 2.1, written as a single pass over the segments of a tag.
pub const START: u8 = 0;
pub const EXT0: u8 = 1;
pub const EXT2: u8 = 3;
pub const EXT3: u8 = 4;
pub const LANG: u8 = 5;
pub const SCRIPT: u8 = 6;
pub const REGION: u8 = 7;
pub const VARIANT: u8 = 8;
pub const SING: u8 = 9;
pub const EXTSUB: u8 = 10;
pub const PX: u8 = 11;
pub const PRIV: u8 = 12;
pub const BAD: u8 = 13;

#[inline(always)]
pub fn alpha(c: u8) -> bool {
    let l = c | 0x20;
    l >= b'a' && l <= b'z'
}
#[inline(always)]
pub fn digit(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}

/// What a segment looks like.
#[derive(Clone, Copy)]
pub struct Seg {
    pub len: u8,      // saturates at 9
    pub alpha: bool,  // all letters
    pub digit: bool,  // all digits
    pub fdigit: bool, // starts with a digit
    pub fx: bool,     // starts with x
}
pub const SEG0: Seg = Seg { len: 0, alpha: true, digit: true, fdigit: false, fx: false };

impl Seg {
    /// Reads one more byte of a segment that follows phase `ph`; `false` when
    /// the segment cannot be completed. What no longer matters is forgotten.
    #[inline(always)]
    pub fn push(&mut self, ph: u8, c: u8) -> bool {
        let a = alpha(c);
        let d = digit(c);
        if (!a && !d) || self.len >= 8 {
            return false;
        }
        self.len += 1;
        if ph >= PX {
            return true;
        }
        if self.len == 1 {
            self.fdigit = d;
            self.fx = c == b'x' || c == b'X';
        } else {
            self.fx = false;
        }
        if !a {
            self.alpha = false;
        }
        if !d {
            self.digit = false;
        }
        if ph == START && !self.alpha {
            return false;
        }
        if self.len > 1 && (ph == SING || ph == EXTSUB) || self.len > 4 {
            self.alpha = true;
            self.digit = true;
            self.fdigit = false;
        }
        true
    }
}

/// The phase after a segment.
#[inline(always)]
pub fn next(ph: u8, s: Seg) -> u8 {
    let l = s.len;
    if l < 1 || l > 8 {
        return BAD;
    }
    if ph == PX || ph == PRIV {
        return PRIV;
    }
    if ph == START {
        if !s.alpha || l == 1 {
            return BAD;
        }
        return if l <= 3 { EXT0 } else { LANG };
    }
    if l == 1 {
        if ph == SING {
            return BAD;
        }
        return if s.fx { PX } else { SING };
    }
    if ph == SING || ph == EXTSUB {
        return EXTSUB;
    }
    if l == 3 && s.alpha {
        return if ph < EXT3 { ph + 1 } else { BAD };
    }
    if l == 4 && s.alpha {
        return if ph <= LANG { SCRIPT } else { BAD };
    }
    if (l == 2 && s.alpha) || (l == 3 && s.digit) {
        return if ph <= SCRIPT { REGION } else { BAD };
    }
    if l >= 5 || (l == 4 && s.fdigit) {
        return VARIANT;
    }
    BAD
}

#[inline(always)]
pub fn accepting(ph: u8) -> bool {
    ph != START && ph != SING && ph != PX && ph != BAD
}

/// The `langtag` production.
#[inline(never)]
pub fn langtag(b: &[u8]) -> bool {
    let mut ph = START;
    let mut s = SEG0;
    for &c in b {
        if c == b'-' {
            ph = next(ph, s);
            if ph == BAD {
                return false;
            }
            s = SEG0;
        } else if !s.push(ph, c) {
            return false;
        }
    }
    accepting(next(ph, s))
}

/// Feeds the segments of `b` to the machine, from phase `ph`.
#[inline(never)]
fn run(b: &[u8], mut ph: u8) -> u8 {
    let mut s = SEG0;
    for &c in b {
        if c == b'-' {
            ph = next(ph, s);
            if ph == BAD {
                return BAD;
            }
            s = SEG0;
        } else if !s.push(ph, c) {
            return BAD;
        }
    }
    next(ph, s)
}

fn all_alpha(b: &[u8]) -> bool {
    for &c in b {
        if !alpha(c) {
            return false;
        }
    }
    true
}
fn all_digit(b: &[u8]) -> bool {
    for &c in b {
        if !digit(c) {
            return false;
        }
    }
    true
}
fn all_alnum(b: &[u8]) -> bool {
    for &c in b {
        if !alpha(c) && !digit(c) {
            return false;
        }
    }
    true
}

/// `privateuse = "x" 1*("-" (1*8alphanum))`
#[inline(never)]
pub fn privateuse(b: &[u8]) -> bool {
    if b.len() < 3 || (b[0] != b'x' && b[0] != b'X') || b[1] != b'-' {
        return false;
    }
    let mut len = 0u8;
    for &c in &b[2..] {
        if c == b'-' {
            if len == 0 {
                return false;
            }
            len = 0;
        } else {
            if (!alpha(c) && !digit(c)) || len == 8 {
                return false;
            }
            len += 1;
        }
    }
    len > 0
}

/// `1*(singleton 1*("-" (2*8alphanum)))` separated by "-"; a single one if `one`.
#[inline(never)]
fn exts(b: &[u8], one: bool) -> bool {
    let mut len = 0u8;
    let mut x = false; // the segment starts with x
    let mut st = 0u8; // 0: first, 1: after a singleton, 2: after a subtag
    for i in 0..b.len() + 1 {
        if i == b.len() || b[i] == b'-' {
            if len == 1 {
                if x || st == 1 || (one && st == 2) {
                    return false;
                }
                st = 1;
            } else {
                if len == 0 || st == 0 {
                    return false;
                }
                st = 2;
            }
            len = 0;
        } else {
            let c = b[i];
            if (!alpha(c) && !digit(c)) || len == 8 {
                return false;
            }
            x = len == 0 && (c == b'x' || c == b'X');
            len += 1;
        }
    }
    st == 2
}

pub static GRANDFATHERED: [&str; 26] = [
    "en-gb-oed", "i-ami", "i-bnn", "i-default", "i-enochian", "i-hak", "i-klingon", "i-lux", "i-mingo", "i-navajo",
    "i-pwn", "i-tao", "i-tay", "i-tsu", "sgn-be-fr", "sgn-be-nl", "sgn-ch-de", "art-lojban", "cel-gaulish", "no-bok",
    "no-nyn", "zh-guoyu", "zh-hakka", "zh-min", "zh-min-nan", "zh-xiang",
];
/// The language of a grandfathered tag: the ones from `REGULAR` on have one.
pub const REGULAR: usize = 17;

#[inline(always)]
pub fn lower(c: u8) -> u8 {
    // no branch, so that symbolic bytes stay data
    c | (((c >= b'A') & (c <= b'Z')) as u8) << 5
}
#[inline(never)]
pub fn eq_lower(b: &[u8], low: &[u8]) -> bool {
    if b.len() != low.len() {
        return false;
    }
    for i in 0..b.len() {
        if lower(b[i]) != low[i] {
            return false;
        }
    }
    true
}
/// Same text up to ASCII case.
#[inline(never)]
pub fn eq_nocase(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for i in 0..a.len() {
        if lower(a[i]) != lower(b[i]) {
            return false;
        }
    }
    true
}

#[inline(never)]
pub fn grandfathered(b: &[u8]) -> Option<usize> {
    for k in 0..26 {
        if eq_lower(b, GRANDFATHERED[k].as_bytes()) {
            return Some(k);
        }
    }
    None
}

/// The `Language-Tag` production.
#[inline(never)]
pub fn tag(b: &[u8]) -> bool {
    langtag(b) || privateuse(b) || grandfathered(b).is_some()
}

// The types, in the order of `each!`.
pub const T_TAG: usize = 0;
pub const T_NORMAL: usize = 1;
pub const T_PRIVATE: usize = 2;
pub const T_LANGUAGE: usize = 3;
pub const T_PRIMARY: usize = 4;
pub const T_EXTLANG: usize = 5;
pub const T_EXTLANGTAG: usize = 6;
pub const T_SCRIPT: usize = 7;
pub const T_REGION: usize = 8;
pub const T_VARIANT: usize = 9;
pub const T_VARIANTS: usize = 10;
pub const T_EXTENSION: usize = 11;
pub const T_EXTSUBTAG: usize = 12;
pub const T_EXTENSIONS: usize = 13;
pub const T_PRIVSUBTAG: usize = 14;

fn variant(b: &[u8]) -> bool {
    let n = b.len();
    (n >= 5 && n <= 8 || n == 4 && digit(b[0])) && all_alnum(b)
}

/// Whether `b` matches the production of a type.
#[inline(never)]
pub fn of(ty: usize, b: &[u8]) -> bool {
    let n = b.len();
    match ty {
        T_TAG => tag(b),
        T_NORMAL => langtag(b),
        T_PRIVATE => privateuse(b),
        T_LANGUAGE => {
            let p = run(b, START);
            p != START && p <= LANG
        }
        T_PRIMARY => n >= 2 && n <= 8 && all_alpha(b),
        T_EXTLANG => {
            (n == 3 || n == 7 || n == 11)
                && all_alpha(&b[..3])
                && (n < 7 || b[3] == b'-' && all_alpha(&b[4..7]))
                && (n < 11 || b[7] == b'-' && all_alpha(&b[8..11]))
        }
        T_EXTLANGTAG => n == 3 && all_alpha(b),
        T_SCRIPT => n == 4 && all_alpha(b),
        T_REGION => n == 2 && all_alpha(b) || n == 3 && all_digit(b),
        T_VARIANT => variant(b),
        T_VARIANTS => n == 0 || run(b, REGION) == VARIANT,
        T_EXTENSION => exts(b, true),
        T_EXTSUBTAG => n >= 2 && n <= 8 && all_alnum(b),
        T_EXTENSIONS => n == 0 || exts(b, false),
        _ => n >= 1 && n <= 8 && all_alnum(b),
    }
}

/// Where a component of a tag is; `None` when it is not there.
/// 0 language, 1 script, 2 region, 3 variants, 4 extensions, 5 private use
#[inline(never)]
pub fn component(b: &[u8], k: usize, end: bool) -> Option<usize> {
    let mut ph = START;
    let mut s = SEG0;
    let mut found = false;
    let mut at = 0usize;
    for i in 0..b.len() + 1 {
        if i == b.len() || b[i] == b'-' {
            let s0 = i - s.len as usize;
            ph = next(ph, s);
            if ph == BAD {
                return None;
            }
            s = SEG0;
            let c = match ph {
                EXT0..=LANG => 0,
                SCRIPT => 1,
                REGION => 2,
                VARIANT => 3,
                SING | EXTSUB => 4,
                _ => 5,
            };
            if c == k {
                if end {
                    at = i;
                } else if !found {
                    at = s0;
                }
                found = true;
            } else if c > k {
                break;
            }
        } else if !s.push(ph, b[i]) {
            return None;
        }
    }
    if found { Some(at) } else { None }
}

/// Strict UTF-8 (RFC 3629).
#[inline(never)]
pub fn utf8(b: &[u8]) -> bool {
    let mut need = 0u8; // continuation bytes to come
    let (mut lo, mut hi) = (0x80u8, 0xbfu8); // range of the next one
    for &c in b {
        if need > 0 {
            if c < lo || c > hi {
                return false;
            }
            need -= 1;
            lo = 0x80;
            hi = 0xbf;
        } else if c >= 0x80 {
            if c < 0xc2 || c > 0xf4 {
                return false;
            }
            need = if c < 0xe0 {
                1
            } else if c < 0xf0 {
                2
            } else {
                3
            };
            if c == 0xe0 {
                lo = 0xa0
            } else if c == 0xed {
                hi = 0x9f
            } else if c == 0xf0 {
                lo = 0x90
            } else if c == 0xf4 {
                hi = 0x8f
            }
        }
    }
    need == 0
}

/// Decodes bytes as UTF-8 without rejecting overlong forms; ASCII only.
/// Returns the number of characters.
#[inline(never)]
pub fn lax(b: &[u8], out: &mut [u8; 16]) -> Option<usize> {
    let mut n = 0;
    let mut i = 0;
    while i < b.len() {
        let a = b[i];
        let len = if a < 0x80 {
            out[n] = a;
            1
        } else if a & 0xe0 == 0xc0 {
            2
        } else if a & 0xf0 == 0xe0 {
            3
        } else if a & 0xf8 == 0xf0 {
            4
        } else {
            return None;
        };
        if i + len > b.len() {
            return None;
        }
        if len > 1 {
            // leading bits must all be zero
            if a & (0x7f >> len) & !(if len == 2 { 1 } else { 0 }) != 0 {
                return None;
            }
            for k in 1..len {
                if b[i + k] & 0xc0 != 0x80 {
                    return None;
                }
            }
            for k in 1..len - 1 {
                let room = if k == len - 2 { 1 } else { 0 };
                if b[i + k] & 0x3f & !room != 0 {
                    return None;
                }
            }
            let top = if len == 2 { a & 1 } else { b[i + len - 2] & 1 };
            out[n] = top << 6 | (b[i + len - 1] & 0x3f);
        }
        n += 1;
        i += len;
    }
    Some(n)
}
