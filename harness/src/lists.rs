//! P07-P09: lists of subtags, in order, whole, and each exactly once.
use crate::spec;
use crate::sym::*;
use langtag::*;

/// `next` gives the segments of `b[at..hi]` in order, then nothing, for good.
#[inline(always)]
pub fn segments<'a>(b: &[u8], mut at: usize, hi: usize, mut next: impl FnMut(usize) -> Option<&'a [u8]>, id: u32) {
    while at < hi {
        let mut end = at;
        while end < hi && b[end] != b'-' {
            end += 1;
        }
        match next(at) {
            Some(x) => check(same(x, &b[at..end]), id),
            None => check(false, id),
        }
        at = end + 1;
    }
    check(next(at).is_none(), id);
    check(next(at).is_none(), id);
}

/// The same from the end.
#[inline(always)]
fn segments_back<'a>(b: &[u8], mut next: impl FnMut() -> Option<&'a [u8]>, id: u32) {
    let mut hi = b.len();
    let mut more = hi > 0;
    while more {
        let mut at = hi;
        while at > 0 && b[at - 1] != b'-' {
            at -= 1;
        }
        match next() {
            Some(x) => check(same(x, &b[at..hi]), id),
            None => check(false, id),
        }
        more = at > 0;
        hi = if more { at - 1 } else { 0 };
    }
    check(next().is_none(), id);
    check(next().is_none(), id);
}

/// What the iterator announces is what it gives, and skipping and counting
/// agree with stepping.
#[inline(always)]
fn sizes<'a, T: ?Sized + AsRef<[u8]> + 'a, I: Iterator<Item = &'a T>>(b: &'a [u8], at: usize, hi: usize, fresh: impl Fn() -> I, id: u32) {
    let mut it = fresh();
    let mut n = 0;
    let mut last: Option<(usize, usize)> = None;
    let mut p = at;
    while p < hi {
        let mut end = p;
        while end < hi && b[end] != b'-' {
            end += 1;
        }
        last = Some((p, end));
        n += 1;
        p = end + 1;
    }
    let (lo, up) = it.size_hint();
    check(lo <= n, id);
    if let Some(u) = up {
        check(u >= n, id);
    }
    if it.next().is_some() {
        let (lo, up) = it.size_hint();
        check(lo <= n - 1, id);
        if let Some(u) = up {
            check(u >= n - 1, id);
        }
    }
    check(fresh().count() == n, id + 1);
    match (fresh().last(), last) {
        (None, None) => {}
        (Some(x), Some((p, end))) => check(same(x.as_ref(), &b[p..end]), id + 2),
        _ => check(false, id + 2),
    }
    let mut it = fresh();
    let x = it.nth(1);
    let mut two = fresh();
    two.next();
    match (x, two.next()) {
        (None, None) => {}
        (Some(x), Some(y)) => check(same(x.as_ref(), y.as_ref()), id + 3),
        _ => check(false, id + 3),
    }
    match (it.next(), two.next()) {
        (None, None) => {}
        (Some(x), Some(y)) => check(same(x.as_ref(), y.as_ref()), id + 3),
        _ => check(false, id + 3),
    }
}

/// P07-P09: announced sizes, counting and skipping.
#[unsafe(no_mangle)]
pub extern "C" fn p09_sizes(n: usize, which: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    match which {
        0 => {
            let Ok(x) = Variants::new(str(b)) else { return };
            reach(10);
            sizes(b, 0, b.len(), || x.iter(), 10);
        }
        1 => {
            let Ok(x) = Extension::new(str(b)) else { return };
            reach(11);
            sizes(b, 2, b.len(), || x.iter(), 10);
        }
        2 => {
            let Ok(x) = PrivateUse::new(str(b)) else { return };
            reach(12);
            sizes(b, 2, b.len(), || x.iter(), 10);
        }
        3 => {
            let Ok(x) = LanguageExtension::new(str(b)) else { return };
            reach(13);
            sizes(b, 0, b.len(), || x.iter(), 10);
        }
        4 => {
            let Ok(x) = Variants::new(str(b)) else { return };
            reach(14);
            // the same from the end
            let mut n = 0;
            let mut last: Option<&Variant> = None;
            let mut it = x.iter();
            while let Some(v) = it.next_back() {
                last = Some(v);
                n += 1;
            }
            check(x.iter().rev().count() == n, 11);
            match (x.iter().rev().last(), last) {
                (None, None) => {}
                (Some(x), Some(y)) => check(same(x.as_bytes(), y.as_bytes()), 12),
                _ => check(false, 12),
            }
            let mut it = x.iter();
            let u = it.nth_back(1);
            let mut two = x.iter();
            two.next_back();
            match (u, two.next_back()) {
                (None, None) => {}
                (Some(x), Some(y)) => check(same(x.as_bytes(), y.as_bytes()), 13),
                _ => check(false, 13),
            }
        }
        _ => {
            let Ok(x) = Extensions::new(str(b)) else { return };
            reach(15);
            let mut n = 0;
            let mut last: Option<&Extension> = None;
            let mut it = x.iter();
            let (lo, up) = it.size_hint();
            while let Some(v) = it.next() {
                last = Some(v);
                n += 1;
            }
            check(lo <= n, 10);
            if let Some(u) = up {
                check(u >= n, 10);
            }
            check(x.iter().count() == n, 11);
            match (x.iter().last(), last) {
                (None, None) => {}
                (Some(x), Some(y)) => check(same(x.as_bytes(), y.as_bytes()), 12),
                _ => check(false, 12),
            }
            let mut it = x.iter();
            let u = it.nth(1);
            let mut two = x.iter();
            two.next();
            match (u, two.next()) {
                (None, None) => {}
                (Some(x), Some(y)) => check(same(x.as_bytes(), y.as_bytes()), 13),
                _ => check(false, 13),
            }
        }
    }
}

/// What an iterator has left: the items of `b[lo..hi]`, unless it is over.
struct Left<'a, E: Fn(&[u8], usize, usize) -> usize> {
    b: &'a [u8],
    lo: usize,
    hi: usize,
    more: bool,
    /// The end of the item that starts at an offset.
    end: E,
}

impl<'a, E: Fn(&[u8], usize, usize) -> usize> Left<'a, E> {
    #[inline(always)]
    fn front(&mut self) -> Option<&'a [u8]> {
        if !self.more {
            return None;
        }
        let (lo, end) = (self.lo, (self.end)(self.b, self.lo, self.hi));
        self.more = end < self.hi;
        if self.more {
            self.lo = end + 1;
        }
        Some(&self.b[lo..end])
    }
    /// For items that are segments.
    #[inline(always)]
    fn back(&mut self) -> Option<&'a [u8]> {
        if !self.more {
            return None;
        }
        let (at, hi) = (segment_start(self.b, self.lo, self.hi), self.hi);
        self.more = at > self.lo;
        if self.more {
            self.hi = at - 1;
        }
        Some(&self.b[at..hi])
    }
    #[inline(always)]
    fn len(&self) -> usize {
        let (mut n, mut lo) = (0, self.lo);
        if self.more {
            loop {
                n += 1;
                let end = (self.end)(self.b, lo, self.hi);
                if end >= self.hi {
                    break;
                }
                lo = end + 1;
            }
        }
        n
    }
}

#[inline(never)]
fn segment_end(b: &[u8], mut lo: usize, hi: usize) -> usize {
    while lo < hi && b[lo] != b'-' {
        lo += 1;
    }
    lo
}

#[inline(never)]
fn segment_start(b: &[u8], lo: usize, mut hi: usize) -> usize {
    while hi > lo && b[hi - 1] != b'-' {
        hi -= 1;
    }
    hi
}

#[inline(always)]
fn equal<T: ?Sized + AsRef<[u8]>>(x: Option<&T>, y: Option<&[u8]>, id: u32) {
    match (x, y) {
        (None, None) => {}
        (Some(x), Some(y)) => check(same(x.as_ref(), y), id),
        _ => check(false, id),
    }
}

/// One way to take what is left, after some steps.
#[inline(always)]
fn rest<'a, T: ?Sized + AsRef<[u8]> + 'a, E: Fn(&[u8], usize, usize) -> usize>(
    mut it: impl Iterator<Item = &'a T>,
    left: &mut Left<'a, E>,
    how: usize,
    id: u32,
) {
    match how {
        0 => check(it.count() == left.len(), id),
        1 => {
            let mut y = None;
            while let Some(z) = left.front() {
                y = Some(z);
            }
            equal(it.last(), y, id + 1)
        }
        2 => {
            let n = choice(4);
            let x = it.nth(n);
            for _ in 0..n {
                left.front();
            }
            equal(x, left.front(), id + 2);
            equal(it.next(), left.front(), id + 2);
        }
        3 => {
            let n = it.fold(0usize, |k, x| {
                equal(Some(x), left.front(), id + 3);
                k + 1
            });
            check(left.front().is_none() && n < M, id + 3);
        }
        4 => {
            let n = left.len();
            let (lo, up) = it.size_hint();
            check(lo <= n, id + 4);
            if let Some(u) = up {
                check(u >= n, id + 4);
            }
        }
        5 => {
            for x in it {
                equal(Some(x), left.front(), id + 5);
            }
            check(left.front().is_none(), id + 5);
        }
        _ => {
            // over, for good
            while let Some(x) = it.next() {
                equal(Some(x), left.front(), id + 6);
            }
            check(it.next().is_none() && it.nth(1).is_none() && it.next().is_none(), id + 6);
            let (lo, _) = it.size_hint();
            check(lo == 0, id + 6);
            check(it.count() == 0, id + 6);
        }
    }
}

/// P07: some steps from either end, then all the rest in one go.
#[unsafe(no_mangle)]
pub extern "C" fn p07_rest(n: usize, how_steps: usize, shape: usize, more: usize) {
    let (how, steps) = (how_steps % 16, how_steps / 16);
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(v) = Variants::new(str(b)) else { return };
    let mut it = v.iter();
    let mut left = Left { b, lo: 0, hi: b.len(), more: !b.is_empty(), end: segment_end };
    for _ in 0..steps {
        if choice(2) == 1 {
            equal(it.next_back(), left.back(), 20);
        } else {
            equal(it.next(), left.front(), 21);
        }
    }
    reach(if left.more { 12 } else { 13 });
    match how {
        8 => {
            let mut y = None;
            while let Some(z) = left.back() {
                y = Some(z);
            }
            equal(it.rev().last(), y, 40)
        }
        9 => {
            let n = choice(4);
            let x = it.nth_back(n);
            for _ in 0..n {
                left.back();
            }
            equal(x, left.back(), 41);
            equal(it.next_back(), left.back(), 41);
            equal(it.next(), left.front(), 41);
        }
        10 => {
            it.rfold((), |_, x| equal(Some(x), left.back(), 42));
            check(left.back().is_none(), 42);
        }
        11 => check(it.rev().count() == left.len(), 43),
        12 => {
            let n = choice(4);
            let x = it.nth(n);
            for _ in 0..n {
                left.front();
            }
            equal(x, left.front(), 44);
            equal(it.next_back(), left.back(), 44);
            equal(it.next(), left.front(), 44);
        }
        13 => {
            while let Some(x) = it.next_back() {
                equal(Some(x), left.back(), 45);
            }
            check(it.next_back().is_none() && it.next().is_none(), 45);
            check(it.nth_back(1).is_none() && it.next_back().is_none(), 45);
        }
        _ => rest(it, &mut left, how, 22),
    }
}

/// P06, P08, P09: the same for what is taken from the front only.
#[unsafe(no_mangle)]
pub extern "C" fn p09_rest(n: usize, which: usize, shape: usize, more: usize) {
    let (which, how, steps) = (which % 16, which / 16 % 16, which / 256);
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let hi = b.len();
    macro_rules! go {
        ($it:expr, $lo:expr, $end:expr) => {{
            let mut it = $it;
            let mut left = Left { b, lo: $lo, hi, more: hi > $lo, end: $end };
            for _ in 0..steps {
                equal(it.next(), left.front(), 21);
            }
            reach(which as u32 * 2 + left.more as u32 + 16);
            rest(it, &mut left, how, 22);
        }};
    }
    match which {
        1 => {
            let Ok(x) = Extension::new(str(b)) else { return };
            go!(x.iter(), 2, segment_end)
        }
        2 => {
            let Ok(x) = PrivateUse::new(str(b)) else { return };
            go!(x.iter(), 2, segment_end)
        }
        3 => {
            let Ok(x) = LanguageExtension::new(str(b)) else { return };
            go!(x.iter(), 0, segment_end)
        }
        4 => {
            // those of the extension that comes first, found by its singleton
            let Ok(x) = Extensions::new(str(b)) else { return };
            if hi == 0 {
                return;
            }
            let Ok(s) = Singleton::new(b[0]) else { return };
            let mut it = x.iter_extension(s);
            let mut left = Left { b, lo: 2, hi: extension_end(b, 0), more: true, end: segment_end };
            for _ in 0..steps {
                equal(it.next(), left.front(), 21);
            }
            reach(which as u32 * 2 + left.more as u32 + 16);
            rest(it, &mut left, how, 22);
        }
        _ => {
            let Ok(x) = Extensions::new(str(b)) else { return };
            go!(x.iter(), 0, |b: &[u8], lo, _| extension_end(b, lo))
        }
    }
}

/// P07: variants, from the front, from the back, the first and the last.
#[unsafe(no_mangle)]
pub extern "C" fn p07_variants(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(v) = Variants::new(str(b)) else { return };
    reach(what as u32);
    match what {
        0 => {
            let mut it = v.iter();
            segments(b, 0, b.len(), |_| it.next().map(|x| x.as_bytes()), 1)
        }
        1 => {
            let mut it = v.iter();
            segments_back(b, || it.next_back().map(|x| x.as_bytes()), 2)
        }
        2 => match v.first() {
            None => check(b.is_empty(), 3),
            Some(x) => {
                let mut end = 0;
                while end < b.len() && b[end] != b'-' {
                    end += 1;
                }
                check(end > 0 && same(x.as_bytes(), &b[..end]), 4)
            }
        },
        3 => match v.last() {
            None => check(b.is_empty(), 5),
            Some(x) => {
                let mut at = b.len();
                while at > 0 && b[at - 1] != b'-' {
                    at -= 1;
                }
                check(at < b.len() && same(x.as_bytes(), &b[at..]), 6)
            }
        },
        4 => {
            let mut it = v.iter();
            loop {
                match it.next() {
                    Some(x) => check(Variant::new(x.as_str()).is_ok(), 7),
                    None => break,
                }
            }
        }
        _ => {
            let mut it = v.iter().rev();
            loop {
                match it.next() {
                    Some(x) => check(Variant::new(x.as_str()).is_ok(), 8),
                    None => break,
                }
            }
        }
    }
}

/// P07: taken from both ends in any order, each variant comes exactly once.
#[unsafe(no_mangle)]
pub extern "C" fn p07_mixed(n: usize, steps: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(v) = Variants::new(str(b)) else { return };
    let mut it = v.iter();
    let mut lo = 0;
    let mut hi = b.len(); // what is left is b[lo..hi]
    let mut left = !b.is_empty();
    for _ in 0..steps {
        let back = choice(2) == 1;
        let x = if back { it.next_back() } else { it.next() };
        if !left {
            reach(10);
            check(x.is_none(), 9);
            continue;
        }
        let Some(x) = x else {
            check(false, 10);
            return;
        };
        if back {
            let mut at = hi;
            while at > lo && b[at - 1] != b'-' {
                at -= 1;
            }
            check(same(x.as_bytes(), &b[at..hi]), 11);
            left = at > lo;
            if left {
                hi = at - 1;
            }
        } else {
            let mut end = lo;
            while end < hi && b[end] != b'-' {
                end += 1;
            }
            check(same(x.as_bytes(), &b[lo..end]), 12);
            left = end < hi;
            if left {
                lo = end + 1;
            }
        }
    }
    if !left {
        lo = 0;
        hi = 0;
    }
    // nothing is lost
    let rest = hi - lo;
    if left {
        reach(11);
        match it.next() {
            Some(x) => check(x.as_bytes().len() <= rest, 13),
            None => check(false, 13),
        }
    } else {
        check(it.next().is_none() && it.next_back().is_none(), 14);
    }
}

/// The end of the extension that starts at `at`: before the next singleton.
#[inline(never)]
fn extension_end(b: &[u8], at: usize) -> usize {
    let mut i = at + 2;
    let mut start = i; // of the segment
    while i < b.len() {
        if b[i] == b'-' {
            if i - start == 1 {
                return start - 1;
            }
            start = i + 1;
        }
        i += 1;
    }
    b.len()
}

/// P08: the extensions of a list.
#[unsafe(no_mangle)]
pub extern "C" fn p08_iter(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(e) = Extensions::new(str(b)) else { return };
    let mut it = e.iter();
    let mut at = 0;
    while at < b.len() {
        let Some(x) = it.next() else {
            check(false, 1);
            return;
        };
        reach(1);
        let end = extension_end(b, at);
        check(same(x.as_bytes(), &b[at..end]), 2);
        if what == 1 {
            check(Extension::new(x.as_str()).is_ok(), 3);
        }
        if what == 2 {
            check(x.singleton().unwrap() == b[at], 4);
        }
        at = end + 1;
    }
    check(it.next().is_none(), 5);
    check(it.next().is_none(), 5);
}

/// P08: an extension is its singleton and its subtags.
#[unsafe(no_mangle)]
pub extern "C" fn p08_extension(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(e) = Extension::new(str(b)) else { return };
    reach(2);
    match what {
        0 => {
            let s = e.singleton();
            check(s.unwrap() == b[0], 6);
            match Singleton::new(s.unwrap()) {
                Ok(t) => check(s == t, 7),
                Err(_) => check(false, 7),
            }
        }
        1 => {
            let mut it = e.iter();
            segments(b, 2, b.len(), |_| it.next().map(|x| x.as_bytes()), 8)
        }
        _ => {
            for x in e.iter() {
                check(ExtensionSubtag::new(x.as_str()).is_ok(), 9)
            }
        }
    }
}

/// Where the first extension with this singleton starts, case aside.
#[inline(never)]
fn find(b: &[u8], s: u8) -> Option<usize> {
    let mut at = 0;
    while at + 1 < b.len() {
        if (at == 0 || b[at - 1] == b'-') && b[at + 1] == b'-' && spec::lower(b[at]) == spec::lower(s) {
            return Some(at);
        }
        at += 1;
    }
    None
}

/// P08: looking up an extension by its singleton, whatever its case.
#[unsafe(no_mangle)]
pub extern "C" fn p08_get(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 1, 1);
    let mut c = [0];
    fill(&mut c, 0, 1);
    let Ok(e) = Extensions::new(str(b)) else { return };
    let Ok(s) = Singleton::new(c[0]) else { return };
    let at = find(b, c[0]);
    match at {
        Some(at) => {
            let end = extension_end(b, at);
            if what == 0 {
                reach(3);
                match e.get(s) {
                    Some(x) => check(same(x.as_bytes(), &b[at..end]), 10),
                    None => check(false, 11),
                }
            } else {
                reach(4);
                let mut it = e.iter_extension(s);
                segments(b, at + 2, end, |_| it.next().map(|x| x.as_bytes()), 12);
            }
        }
        None => {
            if what == 0 {
                reach(5);
                check(e.get(s).is_none(), 13)
            } else {
                reach(6);
                check(e.iter_extension(s).next().is_none(), 14)
            }
        }
    }
}

/// P09: the subtags of a private use tag.
#[unsafe(no_mangle)]
pub extern "C" fn p09_iter(n: usize, what: usize, shape: usize, more: usize) {
    let mut buf = [0; M];
    let b = text(&mut buf, n, shape, more, 0, 1);
    let Ok(p) = PrivateUse::new(str(b)) else { return };
    reach(1);
    let mut it = p.iter();
    if what == 0 {
        segments(b, 2, b.len(), |_| it.next().map(|x| x.as_bytes()), 1)
    } else {
        for x in it {
            check(PrivateUseSubtag::new(x.as_str()).is_ok(), 2)
        }
    }
}

/// P09: what is empty has nothing to give.
#[unsafe(no_mangle)]
pub extern "C" fn p09_empty(_: usize, _: usize, _: usize, _: usize) {
    reach(2);
    check(PrivateUseIter::empty().next().is_none(), 3);
    check(VariantsIter::empty().next().is_none(), 3);
    check(VariantsIter::empty().next_back().is_none(), 3);
    check(ExtensionIter::empty().next().is_none(), 3);
    check(PrivateUseIter::default().next().is_none(), 3);
    check(VariantsIter::default().next().is_none(), 3);
    check(VariantsIter::default().next_back().is_none(), 3);
    check(ExtensionIter::default().next().is_none(), 3);
    check(LanguageExtensionIter::default().next().is_none(), 3);
    check(LanguageExtensionIter::empty().next().is_none(), 3);
    check(Variants::EMPTY.as_bytes().is_empty() && Variants::EMPTY.iter().next().is_none(), 4);
    check(Variants::EMPTY.first().is_none() && Variants::EMPTY.last().is_none(), 4);
    check(Extensions::EMPTY.as_bytes().is_empty() && Extensions::EMPTY.iter().next().is_none(), 5);
}
