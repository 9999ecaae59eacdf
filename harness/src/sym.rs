//! What the engine gives a harness. The replay binary implements the same
//! functions over a concrete model.
unsafe extern "C" {
    fn sym_bytes(p: *mut u8, n: usize, start: usize, stride: usize);
    fn sym_choice(n: usize) -> usize;
    fn sym_assume(c: bool);
    fn sym_fail(id: u32) -> !;
    fn sym_reach(id: u32);
}
/// Symbolic bytes `start`, `start + stride`, ...
#[inline(always)]
pub fn fill(b: &mut [u8], start: usize, stride: usize) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len(), start, stride) };
}
/// Any number below `n`.
#[inline(always)]
pub fn choice(n: usize) -> usize {
    unsafe { sym_choice(n) }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property: `c` holds here.
#[inline(always)]
pub fn check(c: bool, id: u32) {
    if !c {
        unsafe { sym_fail(id) }
    }
}
/// A witness that this point is not vacuous.
#[inline(always)]
pub fn reach(id: u32) {
    unsafe { sym_reach(id) }
}

/// Room for the longest text.
pub const M: usize = 640;

#[inline(always)]
pub fn str(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}

#[inline(never)]
pub fn assume_ascii(b: &[u8]) {
    for &c in b {
        assume(c < 0x80);
    }
}

/// An ASCII text: any of length `n` when `shape` is 0, otherwise any whose
/// segments have the lengths given by the hexadecimal digits of `shape` and
/// `more`, most significant first. A very large `n` is a shape too. An `f` and
/// two digits stand for that many more of the last two segments.
#[inline(never)]
pub fn text(buf: &mut [u8; M], n: usize, shape: usize, more: usize, start: usize, stride: usize) -> &[u8] {
    let shape = if n >> 32 != 0 { n } else { shape };
    if shape == 0 {
        let b = &mut buf[..n];
        fill(b, start, stride);
        assume_ascii(b);
        b
    } else {
        let digit = |k: usize| if k < 32 { ((if k < 16 { shape } else { more }) >> (60 - 4 * (k % 16))) & 15 } else { 0 };
        let mut i = 0;
        let mut k = 0;
        while k < 32 {
            let len = digit(k);
            if len == 15 {
                let (one, two) = (digit(k - 2), digit(k - 1));
                for _ in 0..16 * digit(k + 1) + digit(k + 2) {
                    i = segment(buf, i, one, start, stride);
                    i = segment(buf, i, two, start, stride);
                }
                k += 3;
            } else {
                if len > 0 {
                    i = segment(buf, i, len, start, stride);
                }
                k += 1;
            }
        }
        &buf[..i]
    }
}

/// One more segment of any characters.
#[inline(always)]
fn segment(buf: &mut [u8; M], mut i: usize, len: usize, start: usize, stride: usize) -> usize {
    if i > 0 {
        buf[i] = b'-';
        i += 1;
    }
    fill(&mut buf[i..i + len], start + i * stride, stride);
    for j in i..i + len {
        assume(buf[j] < 0x80 && buf[j] != b'-');
    }
    i + len
}

/// Where `sub` lies in `b`.
#[inline(never)]
pub fn within(b: &[u8], sub: &[u8]) -> Option<usize> {
    let p = (sub.as_ptr() as usize).wrapping_sub(b.as_ptr() as usize);
    if p <= b.len() && sub.len() <= b.len() - p { Some(p) } else { None }
}

/// `a` and `b` are the same bytes.
#[inline(never)]
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    if a.as_ptr() == b.as_ptr() {
        return true;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
