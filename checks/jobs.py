"""The questions asked for each property.

A job is one entry of /verif/harness with its concrete numbers; the engine
decides it for every value of the symbolic bytes and choices.
"""
LANGTAG, NORMAL, PRIVATE, LANGUAGE, PRIMARY, EXTLANG, EXTTAG, SCRIPT, REGION, VARIANT, VARIANTS, EXTENSION, \
    EXTSUB, EXTENSIONS, PRIVSUB = range(15)
TYPES = range(15)
NAMES = ["LangTag", "NormalLangTag", "PrivateUse", "Language", "PrimaryLanguage", "LanguageExtension",
         "ExtendedLangTag", "Script", "Region", "Variant", "Variants", "Extension", "ExtensionSubtag",
         "Extensions", "PrivateUseSubtag"]
# the longest text of a type, or None
LONGEST = {LANGUAGE: 15, PRIMARY: 8, EXTLANG: 11, EXTTAG: 3, SCRIPT: 4, REGION: 3, VARIANT: 8, EXTSUB: 8, PRIVSUB: 8}
# lengths at which a type has texts of different make
LENGTHS = {LANGTAG: (2, 5, 7), NORMAL: (2, 5, 7), PRIVATE: (3, 6), LANGUAGE: (2, 6), PRIMARY: (2, 5),
           EXTLANG: (3, 7), EXTTAG: (3,), SCRIPT: (4,), REGION: (2, 3), VARIANT: (4, 5), VARIANTS: (5, 11),
           EXTENSION: (4, 7), EXTSUB: (2, 8), EXTENSIONS: (4, 9), PRIVSUB: (1, 8)}


def S(*lens):
    """The arguments for a text with segments of these lengths; -n stands for
    the last two segments n times more."""
    d = "".join("%x" % x if x > 0 else "f%02x" % -x for x in lens)
    assert len(d) <= 32 and length(lens) <= 640, lens
    d = d.ljust(32, "0")
    return "0x" + d[:16], "0x" + d[16:]


def length(s):
    """The length of a text with these segments."""
    return sum(x + 1 if x > 0 else -x * (s[i - 2] + s[i - 1] + 2) for i, x in enumerate(s)) - 1


def N(s):
    """The same in the place of a length, for at most 16 segments."""
    assert len(s) <= 16 and S(*s)[1] == "0x" + "0" * 16
    return S(*s)[0]


# Long texts: up to 32 segments and 287 bytes.
TAGS = [
    (2, 4, 2, 5, 8, 4),
    (2, 3, 3, 3, 4, 2, 5, 1, 2, 1, 2),
    (3, 3, 4, 3, 5, 8, 4, 5, 1, 2, 8, 1, 8, 1, 1, 8),
    (2, 4, 2, 8, 5, 4, 1, 8, 5, 1, 2, 8, 1, 1, 8),
    (8, 4, 3, 4, 4, 4, 4, 4, 4, 8, 8, 8),
    (2, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 5, 1, 2),
    (2, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 2, 1, 1),
    (2, 1, 2, 2, 2, 2, 2, 2, 1, 3, 4, 5, 6, 7, 8, 1, 8, 8, 8, 8),
    (4, 1, 8, 8, 8, 8, 8, 8, 8, 1, 8, 8, 8, 8),
    (5, 1, 3, 1, 3, 3, 1, 3, 3, 3, 1, 3, 3, 3, 3, 1, 1, 2, 3, 4, 5, 6, 7, 8),
    (1, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8, 8),
    (1,) * 32,
    (2, 1, 2, 1, 1, 1, 1, 1, 1, 2, 2, 1, 2),
    (3, 3, 3, 3, 4, 2, 8, 8, 8, 8, 8, 8, 8, 1, 8, 8, 1, 8, 8),
    (2, 3, 3, 4, 3, 4, 5, 1, 5, 6, 7, 1, 3, 1, 4, 1, 5),
]
# more than 255 bytes
HUGE = [(2, 4, 2) + (8,) * 9 + (1,) + (8,) * 8 + (1,) + (8,) * 10, (2,) + (8,) * 31, (2, 1) + (8,) * 30, (1,) + (8,) * 31]
# many segments: more than 64, 128, 256 of them
MANY = {
    "tag": [(2, 1, 2, -40), (2, 5, 5, -45), (1, 1, 1, -150), (2, 1, 1, 1, -145), (2, 1, 2, 2, -95),
            (3, 4, 2, 8, 8, -20, 1, 2, 2, -20, 1, 1, 1, -20)],
    "variants": [(5, 5, -50), (4, 8, -40)],
    "extensions": [(1, 2, -60), (1, 8, 8, -30)],
    "extension": [(1, 2, 2, -90), (1, 8, 8, -30)],
    "private": [(1, 1, 1, -150), (1, 8, 8, -30)],
}
VARS = [
    (5,) * 4, (4,) * 6, (8,) * 3, (4, 5, 6, 7, 8), (8, 7, 6, 5, 4), (5,) * 12, (4, 8) * 6, (4,) * 25, (8,) * 14,
    (6, 4, 8, 5, 7, 4, 8, 8, 4, 5), (8,) * 32,
]
EXTS = [
    (1, 2, 1, 2, 1, 2), (1, 8, 8, 1, 2, 2, 2), (1, 3, 4, 5, 6, 7, 8), (1, 2) * 8, (1, 8) * 10, (1, 2, 2) * 7,
    (1, 8, 8, 8, 8, 8, 8, 1, 8, 8, 8, 8), (1, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2), (1, 2) * 15, (1,) + (8,) * 15 + (1,) + (8,) * 15,
]
ONE_EXT = [(1, 2, 2, 2), (1, 8, 8, 8), (1, 3, 4, 5, 6, 7, 8), (1,) + (8,) * 13, (1,) + (2,) * 20, (1,) + (8,) * 31]
PRIVS = [(1, 1, 1, 1), (1, 8, 8, 8), (1, 1, 2, 3, 4, 5, 6, 7, 8), (1,) + (8,) * 13, (1,) * 32, (1,) + (2,) * 20, (1,) + (8,) * 31]
SHAPES = {LANGTAG: TAGS + HUGE, NORMAL: TAGS + HUGE, PRIVATE: PRIVS, VARIANTS: VARS, EXTENSION: ONE_EXT, EXTENSIONS: EXTS}


def J(entry, *args):
    return " ".join([entry] + [str(a) for a in args] + ["0"] * (4 - len(args)))


# Long texts of at most 16 segments, where a length is expected.
LONG = {LANGTAG: TAGS[:6] + [PRIVS[3]], NORMAL: TAGS[:6], PRIVATE: PRIVS[1:4], VARIANTS: VARS[2:6], EXTENSION: ONE_EXT[1:4],
        EXTENSIONS: EXTS[1:4]}
# What is long, but of bounded length
TOP = {LANGUAGE: (3, 3, 3, 3), PRIMARY: (8,), EXTLANG: (3, 3, 3), VARIANT: (8,), EXTSUB: (8,), PRIVSUB: (8,)}


def long(ty):
    return [N(x) for x in LONG.get(ty, [])] + ([N(TOP[ty])] if ty in TOP else [])


def size(n):
    """The length of the text that stands for `n`."""
    if isinstance(n, int):
        return n
    d, i = [], 2
    while i < len(n) and n[i] != "0":
        if n[i] == "f":
            d.append(-int(n[i + 1:i + 3], 16))
            i += 3
        else:
            d.append(int(n[i], 16))
            i += 1
    return length(d)


def places(n):
    """Some places of a text."""
    k = size(n)
    return sorted({0, 1, 2, 3, k // 2, k - 2, k - 1, 7, 8, 15, 16, 31, 32, 63, 64} & set(range(k)))


def upto(ty, quick, thorough, deep, extra=2):
    n = LONGEST.get(ty)
    if n is not None:
        return range(0, n + extra + 1)
    return range(0, (thorough if deep else quick) + 1)


def lens(lo, quick, thorough, deep):
    return range(lo, (thorough if deep else quick) + 1)


def shapes(all_shapes, deep, most=99):
    return all_shapes if deep else all_shapes[:most]


def p01(deep):
    for n in lens(0, 28, 40, deep):
        yield J("p01_tag", n)
    for n in lens(1, 18, 28, deep):
        yield J("p01_utf8", n)
    for s in TAGS + HUGE + PRIVS[3:] + [((2,) + x)[:32] for x in VARS[5:] + EXTS[3:]]:
        yield J("p01_tag", 0, *S(*s))


def p02(deep):
    for ty in TYPES:
        for n in upto(ty, 22, 32, deep):
            yield J("p02_type", n, ty)
        for n in upto(ty, 14, 22, deep):
            if n > 0:
                yield J("p02_utf8", n, ty)
        for s in SHAPES.get(ty, []):
            yield J("p02_type", 0, ty, *S(*s))
    # what is too long for a type of bounded length
    for ty in LONGEST:
        for n in (20, 30):
            yield J("p02_type", n, ty)
        yield J("p02_type", 0, ty, *S(*TAGS[3]))


def p03(deep):
    for ty in TYPES:
        for door in range(7):
            ns = range(0, 14 if deep else 8)
            for n in sorted(set(ns) | set(LENGTHS[ty])):
                yield J("p03_bytes", n, ty, door)
            for n in long(ty):
                yield J("p03_bytes", n, ty, door)
        for door in range(8):
            ns = range(0, 14 if deep else 8)
            for n in sorted(set(ns) | set(LENGTHS[ty])):
                yield J("p03_text", n, ty, door, 0)
                if n > 0:
                    yield J("p03_text", n, ty, door, 1)
            for n in long(ty) + [18]:
                yield J("p03_text", n, ty, door, 0)


def p04(deep):
    for ke in range(12):
        for n in lens(0, 20, 30, deep):
            yield J("p04_comp", n, ke)
        for s in TAGS + HUGE:
            yield J("p04_comp", 0, ke, *S(*s))
    for k in range(6):
        for n in lens(2, 20, 28, deep):
            yield J("p04_own", n, k)
        for s in TAGS + HUGE:
            yield J("p04_own", 0, k, *S(*s))


def p05(deep):
    for k in range(6):
        for n in lens(0, 18, 26, deep):
            yield J("p05_tag", n, k)
        for s in TAGS + HUGE:
            yield J("p05_tag", 0, k, *S(*s))
    for n in lens(0, 18, 26, deep):
        for view in (0, 1):
            yield J("p05_private", n, view)
        yield J("p05_typed", n)
    for s in TAGS + HUGE:
        for view in (0, 1):
            yield J("p05_private", 0, view, *S(*s))
        yield J("p05_typed", 0, 0, *S(*s))


def p06(deep):
    for n in range(0, 18):
        for what in range(4):
            yield J("p06_language", n, what)
    for n in range(0, 14):
        yield J("p06_extension", n)
        yield J("p09_sizes", n, 3)
    yield from rests(3, range(2, 12), (1, 2, 4))


def rests(which, lengths, steps, shapes=()):
    """Some steps, then the rest in one go."""
    for how in range(7):
        for k in steps:
            for n in lengths:
                yield J("p09_rest", n, which + 16 * how + 256 * k)
            for s in shapes:
                yield J("p09_rest", 0, which + 16 * how + 256 * k, *S(*s))


def p07(deep):
    for n in lens(0, 26, 36, deep):
        for what in range(6):
            yield J("p07_variants", n, what)
        yield J("p09_sizes", n, 0)
        yield J("p09_sizes", n, 4)
    for s in VARS:
        for what in range(6):
            yield J("p07_variants", 0, what, *S(*s))
        yield J("p09_sizes", 0, 0, *S(*s))
        yield J("p09_sizes", 0, 4, *S(*s))
    for n in lens(0, 22, 28, deep):
        yield J("p07_mixed", n, n // 5 + 3)
        for steps in (1, 2):
            yield J("p07_mixed", n, steps)
    for s in shapes(VARS[:5], deep):
        yield J("p07_mixed", 0, len(s) + 2, *S(*s))
        yield J("p07_mixed", 0, len(s) - 1, *S(*s))
    for how in list(range(7)) + list(range(8, 14)):
        for n in lens(3, 17, 23, deep):
            for steps in (0, 1, 2, n // 5 + 2):
                yield J("p07_rest", n, how + 16 * steps)
        for s in shapes(VARS[:6], deep):
            for steps in (1, 3):
                yield J("p07_rest", 0, how + 16 * steps, *S(*s))


def p08(deep):
    for n in lens(0, 23, 32, deep):
        for what in range(3):
            yield J("p08_iter", n, what)
            yield J("p08_extension", n, what)
        for what in range(2):
            yield J("p08_get", n, what)
        yield J("p09_sizes", n, 1)
        yield J("p09_sizes", n, 5)
    for s in EXTS:
        for what in range(3):
            yield J("p08_iter", 0, what, *S(*s))
        for what in range(2):
            yield J("p08_get", 0, what, *S(*s))
        yield J("p09_sizes", 0, 5, *S(*s))
    for s in ONE_EXT:
        for what in range(3):
            yield J("p08_extension", 0, what, *S(*s))
        yield J("p09_sizes", 0, 1, *S(*s))
    yield from rests(1, lens(4, 15, 20, deep), (1, 2, 5), shapes(ONE_EXT, deep))
    yield from rests(4, lens(4, 13, 18, deep), (0, 1, 4), shapes(EXTS[:8], deep))
    yield from rests(0, lens(4, 15, 20, deep), (1, 2, 4), shapes(EXTS[:8], deep))


def p09(deep):
    for n in lens(0, 26, 36, deep):
        for what in range(2):
            yield J("p09_iter", n, what)
    for n in lens(0, 20, 28, deep):
        yield J("p09_sizes", n, 2)
    for view in (0, 1):
        for n in lens(0, 14, 20, deep):
            yield J("p05_private", n, view)
        for s in TAGS + HUGE:
            yield J("p05_private", 0, view, *S(*s))
    for s in PRIVS:
        for what in range(2):
            yield J("p09_iter", 0, what, *S(*s))
        yield J("p09_sizes", 0, 2, *S(*s))
    yield from rests(2, lens(3, 17, 24, deep), (1, 2, 5), PRIVS)
    yield J("p09_empty")


def p10(deep):
    for n in lens(0, 22, 30, deep):
        for what in range(5):
            yield J("p10_kind", n, what)
    for s in TAGS + HUGE:
        for what in range(5):
            yield J("p10_kind", 0, what, *S(*s))


def p11(deep):
    for n in lens(0, 20, 32, deep):
        for door in range(5):
            yield J("p11_parse", n, door)
            yield J("p11_parse", n, door + 10)
    for what in range(4):
        yield J("p11_each", what)


def pairs(ty, top, deep):
    """Lengths of two texts: equal ones, and some that differ."""
    for n in upto(ty, top, top + 4, deep, 0):
        yield n, n
    ns = LENGTHS[ty]
    for i in ns:
        for j in (i - 1, i + 1, i + 3) + ns:
            if j >= 0 and j != i:
                yield i, j


def cuts(entry, deep):
    """A long text and its first segments."""
    for ty in LONG:
        for s in shapes(SHAPES[ty], deep, 6):
            if len(s) <= 16:
                for j in sorted({1, 2, 3, 4, len(s) // 2, len(s) - 1, len(s)} & set(range(1, len(s) + 1))):
                    yield J(entry, N(s), ty, j)


# What may come twice, or in another order
PARTS = {LANGTAG: [(1, 2), (1, 8), (1, 3, 5), (1, 2, 2, 8), (5,), (4,), (8,), (5, 6), (3,), (1, 1)], PRIVATE: [(1,), (2,), (8,), (3, 8), (1, 1, 1)],
         LANGUAGE: [(3,)], EXTLANG: [(3,)], VARIANTS: [(5,), (4,), (8,), (5, 5), (4, 6, 8)], EXTENSION: [(2,), (8,), (3, 4), (2, 2, 2)],
         EXTENSIONS: [(1, 2), (1, 8), (1, 2, 2), (1, 3, 5, 8)]}
PARTS[NORMAL] = PARTS[LANGTAG]


def parts(deep):
    """Two texts made of the same two parts."""
    for ty, ps in PARTS.items():
        for i, a in enumerate(ps):
            for b in [ps[i]] + ps[i + 1:] + (ps[:i] if deep else []):
                if (a[0] == 1) == (b[0] == 1) or ty == PRIVATE:
                    # a part compared to itself at another place is hard
                    shifted = a[0] > 1 and a[0] == b[0] and a != b
                    for how in (1, 2, 3, 4) if shifted else range(7):
                        for fold in (0, 8):
                            if deep or (how + i + fold // 8) % 2 == 0 or how == 0:
                                yield J("p12_parts", N(a), ty, how + fold, N(b))


def p12(deep):
    for ty in TYPES:
        for n, m in sorted(set(pairs(ty, 9, deep))):
            for owned in (0, 1):
                yield J("p12_eq", 100 * n + m, ty, owned)
        for n in upto(ty, 8, 11, deep, 0):
            for owned in (0, 1):
                yield J("p12_hash", n, ty, owned)
        for n in list(LENGTHS[ty]) + [6, 9, 12, 16] + ([20, 24] if deep else []):
            for k in range(0, n):
                yield J("p12_long", n + 1000 * k, ty)
        for n in (10, 13, 16) + ((19, 22) if deep else ()):
            yield J("p12_hash_long", n, ty)
        for n in long(ty):
            yield J("p12_eq", n, ty)
    for ty in (LANGTAG, NORMAL):
        for s in shapes(TAGS, deep, 2):
            yield J("p12_hash_long", 0, ty, *S(*s[:13]))
    for ty in SHAPES:
        for i, s in enumerate(shapes(SHAPES[ty], deep, 8)):
            n = sum(s) + len(s) - 1
            # the fifths differ from shape to shape, so that every place has its turn
            for k in sorted({0, 1, n // 2, n - 2, n - 1, 7, 8, 15, 16, 31, 32, 63, 64} & set(range(n)) | set(range(i % 5, n, 5))):
                yield J("p12_long", 1000 * k, ty, *S(*s))
    yield from cuts("p12_cut", deep)
    yield from parts(deep)


def p13(deep):
    for ty in TYPES:
        for n, m in sorted(set(pairs(ty, 7, deep))):
            for what in range(6):
                yield J("p13_cmp", 100 * n + m, ty, what)
        for n in list(LENGTHS[ty]) + [9, 16] + ([6, 12, 20, 24] if deep else []):
            for k in range(0, n):
                yield J("p13_long", n + 1000 * k, ty)
        for n in long(ty)[:None if deep else 2]:
            for what in range(6) if deep else (0, 1):
                yield J("p13_cmp", n, ty, what)
    for ty in SHAPES:
        for i, s in enumerate(shapes(SHAPES[ty], deep, 6)):
            n = sum(s) + len(s) - 1
            for k in sorted(({0, 1, n // 2, n - 2, n - 1, 7, 8, 15, 16, 31, 32, 63, 64} if deep else
                             {0, n // 2, n - 1, 8, 16, 31, 63}) & set(range(n)) | set(range(i % 5, n, 5))):
                yield J("p13_long", 1000 * k, ty, *S(*s))
    yield from cuts("p13_cut", deep)
    yield from parts(deep)


def p14(deep):
    for ty in TYPES:
        n = LENGTHS[ty][-1] if LENGTHS[ty][-1] < 6 else LENGTHS[ty][0]
        for how in range(12):
            for what in range(4):
                yield J("p14_mixed", 101 * n, ty, how, what)
                if deep or how in (0, 2):
                    yield J("p14_mixed", 100 * n + n + 1, ty, how, what)
                    yield J("p14_mixed", 10000 + 101 * n, ty, how, what)
                    for m in LENGTHS[ty] + (8,):
                        yield J("p14_mixed", 101 * m, ty, how, what)
                        yield J("p14_mixed", 101 * m - 100, ty, how, what)
                if deep:
                    for m in LENGTHS[ty]:
                        yield J("p14_mixed", 10000 + 101 * m + 1, ty, how, what)
                        if m > 0:
                            yield J("p14_mixed", 101 * m - 1, ty, how, what)
                for m in (long(ty) if deep else long(ty)[:2]):
                    if deep or how in (0, 2, 4, 6):
                        yield J("p14_mixed", m, ty, how, what)
                if how in (2, 8) or deep:
                    for m in long(ty):
                        for k in places(m) if deep else places(m)[::5]:
                            yield J("p14_long", m, ty, 4 * how + what, k)


def p15(deep):
    for ty in TYPES:
        ns = set(LENGTHS[ty]) | (set(range(0, 16)) if deep else set(range(0, 9)))
        for n in sorted(ns):
            for what in range(10):
                yield J("p15_owned", n, ty, what)
            if n <= 11:
                yield J("p15_hash", n, ty)
        for n in long(ty):
            for what in range(10):
                yield J("p15_owned", n, ty, what)
            for at in range(0, min(2 * size(n), 240), 16 if deep else 48):
                yield J("p15_hash", n, ty, at, 8)
            for what in range(8):
                for k in places(n) if deep else places(n)[::4]:
                    yield J("p15_long", n, ty, what, k)
                if deep:
                    yield J("p15_cmp", n, ty, what)
        for n in set(LENGTHS[ty]) | {3, 6}:
            for m in {n, n + 1}:
                for what in range(8):
                    yield J("p15_cmp", 100 * n + m, ty, what)


def p16(deep):
    for ty in TYPES:
        ns = set(LENGTHS[ty]) | set(range(0, 18 if deep else 11)) | {16}
        for n in sorted(ns) + long(ty):
            for owned in (0, 1):
                yield J("p16_ser", n, ty, owned)
            yield J("p16_de", n, ty, 0)
            for how in (0, 1, 2):
                yield J("p16_de", n, ty, 1, how)


def p17(deep):
    for what in (0, 1):
        yield J("p17_byte", what)
        for n in range(0, 9 if deep else 6):
            yield J("p17_text", n, what)
    yield J("p17_char")
    for what in range(5):
        yield J("p17_same", what)


def p18(deep):
    for ty in TYPES:
        for n in upto(ty, 16, 24, deep):
            yield J("p18_valid", n, ty)
        for s in SHAPES.get(ty, []):
            yield J("p18_valid", 0, ty, *S(*s))
    for ke in range(24):
        for n in lens(2, 12, 20, deep):
            yield J("p18_comp", n, ke)
        for s in TAGS + HUGE:
            yield J("p18_comp", 0, ke, *S(*s))
    for which, ty in enumerate([VARIANTS, VARIANTS, EXTENSIONS, EXTENSION, PRIVATE, EXTLANG, LANGUAGE, LANGTAG, NORMAL, LANGUAGE, LANGUAGE, EXTENSIONS]):
        for n in upto(ty, 12 if which == 11 else 14, 18, deep, 0):
            yield J("p18_list", n, which)
        for s in shapes(SHAPES.get(ty, []), deep and which != 11, 3 if which == 11 else 6):
            yield J("p18_list", 0, which, *S(*s))


def p19(deep):
    for ty in TYPES:
        ns = set(LENGTHS[ty]) | (set(range(0, 18)) if deep else set(range(0, 12)))
        for n in sorted(ns) + long(ty):
            for what in range(4):
                yield J("p19_print", n, ty, what)
    for what in range(3):
        yield J("p19_other", what)


# property -> (questions, points that a run must reach)
def H(s):
    """At most 8 segments in 32 bits."""
    return S(*s)[0][:10] if s else 0


def p20(deep):
    langs = [(2,), (3,), (4,), (5,), (8,), (2, 3), (3, 3, 3), (2, 3, 3, 3), (3, 3, 3, 3), (3, 3), (2, 3, 3)] + ([(6,), (7,)] if deep else [])
    vs = [(), (5,), (4,), (8, 4), (4, 5, 6)] + ([(4, 4), (5,) * 8, (8,) * 6, (7, 4, 8)] if deep else [])
    es = [(), (1, 2), (1, 8, 3), (1, 2, 1, 2), (1, 3, 1, 4, 5)] + ([(1, 2, 2, 2, 2, 2, 1, 2), (1, 8, 8, 8), (1, 2) * 4] if deep else [])
    ps = [(), (1, 1), (1, 8, 2)] + ([(1, 2, 1, 2, 1, 2, 1, 8), (1, 5)] if deep else [])
    k = 0
    for l in langs:
        for sc in (0, 4):
            for r in (0, 2, 3):
                one = int("".join("%x" % x for x in l).ljust(4, "0"), 16) | sc << 16 | r << 20
                for v in vs:
                    for e in es:
                        for p in ps:
                            k += 1
                            # each pair of choices, if not all of them
                            if deep or k % 7 == 0 or len(v) + len(e) + len(p) <= 2:
                                yield J("p20_make", hex(one), H(v), H(e), H(p))
    for n in lens(0, 24, 34, deep):
        yield J("p20_parts", n)
    for s in TAGS + HUGE:
        yield J("p20_parts", 0, 0, *S(*s))
    lists = [
        (0, [(4,), (5,), (8,), ()]),
        (1, [(1, 2), (1, 8), (1, 3, 4), (1, 2, 2, 2), ()]),
        (2, [(1,), (2,), (8,), ()]),
        (3, [(3,), ()]),
    ]
    for what, xs in lists:
        for a in xs:
            for b in xs:
                for c in xs:
                    if (a or what in (0, 1)) and not (c and not b) and not (b and not a):
                        yield J("p20_list", what, H(a), H(b), H(c))
    for b in range(1, 10):
        for c in (0, 2, 5, 8):
            yield J("p20_list", 4, H((1,)), H((b,)), H((c,)) if c else 0)
    for a in range(1, 5):
        for b in ((3,), (3, 3), (3, 3, 3), (2,), (3, 4)):
            yield J("p20_list", 5, H((a,)), H(b))


def p21(deep):
    for what in range(7):
        for n in lens(0, 17, 24, deep):
            yield J("p21_ask", n, what)
        for s in TAGS + HUGE:
            if deep or s[:1] + s[1:2] != (5, 1) and s[:2] != (2, 2) or what != 4:
                yield J("p21_ask", 0, what, *S(*s))
    for ty in TYPES:
        for n in lens(0, 7, 10, deep):
            yield J("p21_refuse", n, ty)
    for n in lens(0, 5, 8, deep):
        yield J("p21_single", n, 0)
        yield J("p21_single", n, 1)
    yield J("p21_single", 1, 2)
    yield J("p21_single", 4, 3)
    walks = [
        (0, [(4,), (5, 4), (8, 8), (4, 5, 6), (5, 5, 5, 5)]),
        (1, [(1, 2), (1, 8, 2), (1, 2, 1, 3), (1, 2, 1, 2, 1, 2)]),
        (2, [(1, 2), (1, 8, 8), (1, 2, 3, 4)]),
        (3, [(1, 1), (1, 8, 8), (1, 2, 1, 4), (1, 1, 1, 1, 1)]),
        (4, [(3,), (3, 3), (3, 3, 3)]),
        (5, [(2,), (5,), (2, 3), (3, 3, 3), (3, 3, 3, 3)]),
    ] + [(w, TAGS) for w in range(6, 12)]
    for which, shapes in walks:
        for n in lens(0, 10 if which else 15, 20, deep):
            yield J("p21_walk", n, which)
        for s in shapes:
            yield J("p21_walk", 0, which, *S(*s))


CHECKS = {
    "P01": (p01, {"p01_tag": [1], "p01_utf8": [2]}),
    "P02": (p02, {"p02_type": list(TYPES), "p02_utf8": [20]}),
    "P03": (p03, {"p03_bytes": list(TYPES), "p03_text": [30 + t for t in TYPES]}),
    "P04": (p04, {"p04_comp": list(range(6)), "p04_own": list(range(10, 16))}),
    "P05": (p05, {"p05_tag": list(range(6)) + [10], "p05_private": [11, 12], "p05_typed": [13, 14]}),
    "P06": (p06, {"p06_language": [1, 2, 3, 4], "p06_extension": [5], "p09_sizes": [13], "p09_rest": [22, 23]}),
    "P07": (p07, {"p07_variants": list(range(6)), "p07_mixed": [10, 11], "p07_rest": [12, 13], "p09_sizes": [10, 14]}),
    "P08": (p08, {"p08_iter": [1], "p08_extension": [2], "p08_get": [3, 4, 5, 6], "p09_sizes": [11, 15], "p09_rest": [16, 17, 18, 19, 24, 25]}),
    "P09": (p09, {"p09_iter": [1], "p09_empty": [2], "p09_sizes": [12], "p09_rest": [20, 21], "p05_private": [11, 12]}),
    "P10": (p10, {"p10_kind": [0, 1, 2, 4]}),
    "P11": (p11, {"p11_parse": [1, 2], "p11_each": [3, 4, 5]}),
    "P12": (p12, {"p12_eq": list(TYPES), "p12_hash": [20 + t for t in TYPES], "p12_long": [40], "p12_hash_long": [41], "p12_cut": [42], "p12_parts": [43, 44]}),
    "P13": (p13, {"p13_cmp": list(TYPES), "p13_long": [40], "p13_cut": [42], "p12_parts": [43, 44]}),
    "P14": (p14, {"p14_mixed": list(TYPES) + [20 + t for t in TYPES] + [40], "p14_long": [41]}),
    "P15": (p15, {"p15_owned": list(TYPES), "p15_cmp": [20 + t for t in TYPES], "p15_long": [19], "p15_hash": [40 + t for t in TYPES]}),
    "P16": (p16, {"p16_ser": list(TYPES), "p16_de": [20 + t for t in TYPES]}),
    "P17": (p17, {"p17_byte": [1, 2], "p17_char": [3, 4], "p17_text": [5, 6], "p17_same": [7, 8]}),
    "P18": (p18, {"p18_valid": list(TYPES), "p18_comp": list(range(20, 32)), "p18_list": list(range(40, 52))}),
    "P20": (p20, {"p20_make": [1], "p20_parts": [2], "p20_list": list(range(10, 16))}),
    "P21": (p21, {"p21_ask": list(range(20, 28)), "p21_refuse": [30 + t for t in TYPES], "p21_single": list(range(60, 68)), "p21_walk": list(range(70, 82))}),
    "P19": (p19, {"p19_print": list(TYPES), "p19_other": [20, 21, 22]}),
}


def many(prop, deep):
    """Texts of many segments."""
    kind = {LANGTAG: "tag", NORMAL: "tag", VARIANTS: "variants", EXTENSIONS: "extensions", EXTENSION: "extension", PRIVATE: "private"}
    light = {LANGTAG: MANY["tag"][2:4], NORMAL: MANY["tag"][3:4], VARIANTS: [(4, 8, -40)], EXTENSIONS: [(1, 2, -60)], EXTENSION: [(1, 2, 2, -90)],
             PRIVATE: [(1, 1, 1, -150)]}
    if deep:
        light = {t: MANY[k] for t, k in kind.items()}

    def on(entry, what, shapes):
        for w in what:
            for s in shapes:
                yield J(entry, 0, w, *S(*s))
    tags = MANY["tag"]
    if prop == "P01":
        yield from (J("p01_tag", 0, *S(*s)) for s in tags)
    if prop in ("P02", "P18"):
        for ty, ss in light.items():
            yield from on("p02_type" if prop == "P02" else "p18_valid", [ty], ss)
    if prop == "P04":
        yield from on("p04_comp", range(12) if deep else range(6), tags)
        yield from on("p04_own", range(6), tags if deep else tags[3:4])
    if prop == "P05":
        yield from on("p05_tag", range(6), tags if deep else tags[2:4])
        yield from on("p05_private", (0, 1), tags[2:4])
        yield from on("p05_typed", (0,), tags if deep else tags[2:4])
    if prop == "P07":
        yield from on("p07_variants", range(6), MANY["variants"])
        yield from on("p07_rest", [h + 16 for h in list(range(7)) + list(range(8, 14))], light[VARIANTS])
    if prop == "P08":
        yield from on("p08_iter", range(3), MANY["extensions"])
        yield from on("p08_extension", range(3), MANY["extension"])
        yield from on("p08_get", range(2), light[EXTENSIONS] if deep else [(1, 2, -20)])
        yield from on("p09_rest", [1 + 16 * h + 256 for h in range(7)], light[EXTENSION])
        yield from on("p09_rest", [4 + 16 * h + 256 for h in range(7)], light[EXTENSIONS])
    if prop == "P09":
        yield from on("p09_iter", range(2), MANY["private"])
        yield from on("p09_rest", [2 + 16 * h + 256 for h in range(7)], light[PRIVATE])
        yield from on("p05_private", (0, 1), tags[2:4])
    if prop == "P10":
        yield from on("p10_kind", range(5), tags if deep else tags[2:4])
    if prop in ("P12", "P13"):
        for ty, ss in light.items():
            for s in ss:
                n = length(s)
                for k in sorted({n - 1, n // 2, 127, 128, 255, 256, 300} & set(range(n))):
                    if deep or (k == 300 or k == n // 2 and prop == "P13") and ty not in (LANGTAG, NORMAL):
                        yield J("p12_long" if prop == "P12" else "p13_long", 1000 * k, ty, *S(*s))
    small = [(ty, s) for ty, ss in light.items() for s in ss if len(S(*s)[0].rstrip("0")) <= 18 and int(S(*s)[1], 16) == 0]
    for ty, s in small:
        if prop == "P03":
            for door in range(7) if deep else (1,):
                yield J("p03_bytes", N(s), ty, door)
            for door in range(8) if deep else (2, 5):
                yield J("p03_text", N(s), ty, door, 0)
        if prop == "P15":
            for what in range(10):
                yield J("p15_owned", N(s), ty, what)
            for k in (128, 256, 300) if deep else (300,):
                yield J("p15_long", N(s), ty, 0, k)
        if prop == "P16":
            yield J("p16_ser", N(s), ty, 0)
            yield J("p16_ser", N(s), ty, 1)
            yield J("p16_de", N(s), ty, 0)
            yield J("p16_de", N(s), ty, 1, 0)
        if prop == "P19":
            for what in range(4):
                yield J("p19_print", N(s), ty, what)
        if prop == "P14" and (deep or ty == PRIVATE):
            for how in (2, 8):
                for what in range(4):
                    yield J("p14_long", N(s), ty, 4 * how + what, 300)
    if prop == "P20":
        yield from on("p20_parts", (0,), tags)
        yield J("p20_make", 0x342000, H((5, 5, -40)), H((1, 2, -4)), H((1, 1)))
        yield J("p20_make", 0x2000, H((4,)), H((1, 2, 2, -40)), H((1, 1)))
        yield J("p20_make", 0x342000, H((8,)), H((1, 2, -30)), 0)
        yield J("p20_make", 0x202000, 0, H((1, 2)), H((1, 1, 1, -60)))
    if prop == "P21":
        yield from on("p21_ask", range(7), tags[2:4])
        for w, t in ((1, EXTENSIONS), (2, EXTENSION), (3, PRIVATE)):
            yield from on("p21_walk", [w], light[t])


def jobs(prop, deep):
    seen, out = set(), []
    for j in list(CHECKS[prop][0](deep)) + list(many(prop, deep)):
        if j not in seen:
            seen.add(j)
            out.append(j)
    # the heaviest first: long texts take the longest
    def weight(j):
        w = j.split()
        if "0x" in j:
            n = max(size(x) if len(x) == 18 else 0 for x in w[1:])
            return -n / 4
        n = int(w[1])
        if w[0] in ("p12_long", "p13_long"):
            n %= 1000
        elif w[0] in ("p12_eq", "p13_cmp", "p14_mixed", "p15_cmp"):
            n = n % 10000 // 100 + n % 100
        return -n
    return sorted(out, key=weight)


if __name__ == "__main__":
    for p in CHECKS:
        print(p, len(jobs(p, False)), len(jobs(p, True)))
