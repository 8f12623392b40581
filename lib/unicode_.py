"""C27, C28: conversions between Unicode encodings."""
import itertools
from cases import *

VARIANTS = {"c14": "-std=c++14", "c17": "-std=c++17 -D_GLIBCXX_DEBUG", "c20": "-std=c++20", "clang": "-std=c++20 @clang", "opt": "-std=c++20 -O2 -DWITH_WHOLE"}
EDGE = [0, 1, 0x41, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400, 0x1ffff, 0x20000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fc00, 0x10fffe, 0x10ffff]
X8 = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xfb, 0xfc, 0xfd, 0xfe, 0xff]
X16 = [0, 0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xd801, 0xdbff, 0xdc00, 0xdc01, 0xdfff, 0xe000, 0xfffd, 0xfffe, 0xffff]
X32 = [0, 0x41, 0x80, 0x7ff, 0x800, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x110041, 0x1fffff, 0x7fffffff, 0x80000000, 0x80000041, 0xffffffff, 0xffff0041, 0x100d800]


def binaries(): return build("unicode.cpp", VARIANTS)
def setup(): binaries()


def hx(l): return ".".join("%x" % x for x in l) or "-"


def units(w, cs):
    if w == 32: return list(cs)
    if w == 8: return list("".join(map(chr, cs)).encode("utf-8"))
    b = "".join(map(chr, cs)).encode("utf-16-le")
    return [b[i] | b[i + 1] << 8 for i in range(0, len(b), 2)]


def scalar(rnd):
    r = rnd.random()
    if r < 0.3: return rnd.choice(EDGE)
    c = rnd.randrange(*rnd.choice([(0, 0x80), (0x80, 0x800), (0x800, 0xd800), (0xe000, 0x10000), (0x10000, 0x110000)]))
    return c


def chunks(l, n): return [" ".join(l[i:i + n]) for i in range(0, len(l), n)]


def valid(rnd, full):
    o = []
    step = 1 if THOROUGH else 64 if full else 1024        # one scalar of every block, so that every combination of upper bits occurs
    cs = [c for b in range(0, 0x110000, step) for c in (b + rnd.randrange(step),) if not 0xd800 <= c < 0xe000]
    cs += EDGE * 3
    rnd.shuffle(cs)
    i = 0
    while i < len(cs):
        n = rnd.choice([1, 2, 3, 8, 30, 60] + ([200] if full else []))
        t = cs[i:i + n]; i += n
        w = rnd.choice([8, 16, 32])
        o.append("v %d %s %s" % (w, hx(t), hx(units(w, t))))
    for n in (0, 1, 2, 3, 15, 16, 17, 300):
        for w in (8, 16, 32):
            t = [scalar(rnd) for _ in range(n)]
            o.append("v %d %s %s" % (w, hx(t), hx(units(w, t))))
    for a in EDGE:
        b = rnd.choice(EDGE); w = rnd.choice([8, 16, 32])
        for w in (8, 16, 32): o.append("v %d %s %s" % (w, hx([a]), hx(units(w, [a])))); o.append("v %d %s %s" % (w, hx([a, b]), hx(units(w, [a, b]))))
    rnd.shuffle(o)
    return chunks(o, 12)


def damaged(rnd, w):
    """Units of a valid text with something cut, changed, doubled or inserted."""
    u = units(w, [scalar(rnd) for _ in range(rnd.choice([1, 1, 2, 3, 10]))])
    pool = X8 if w == 8 else X16 if w == 16 else X32
    for _ in range(rnd.choice([1, 1, 2, 4])):
        r = rnd.random(); i = rnd.randrange(len(u) + 1)
        if r < 0.25: u = u[:i]
        elif r < 0.35: u = u[i:]
        elif r < 0.55 and i < len(u): del u[i]
        elif r < 0.75 and i < len(u): u[i] = rnd.choice(pool)
        elif r < 0.85 and i < len(u): u[i] = rnd.randrange(256 if w == 8 else 65536 if w == 16 else 1 << 32)
        else: u.insert(i, rnd.choice(pool))
    return u


def malformed(rnd, full):
    o = []
    add = lambda w, u: o.append("%d %s" % (w, hx(u)))
    # everything packed between letters: any pair of bytes, any single 16-bit unit
    pairs = [(a, b) for a in range(256) for b in range(256)] if full or THOROUGH else rnd.sample([(a, b) for a in range(256) for b in range(256)], 6000)
    for i in range(0, len(pairs), 60): add(8, [x for p in pairs[i:i + 60] for x in p + (0x41,)])
    ones = range(65536) if full or THOROUGH else rnd.sample(range(65536), 6000)
    for i in range(0, len(ones), 100): add(16, [x for c in ones[i:i + 100] for x in (c, 0x41)])
    k = 10 if THOROUGH else 1
    # sequences that end where the input ends
    for a in range(256): add(8, [a])
    for w, pool, n3, n4 in ((8, X8, 2500, 2500), (16, X16, 1000, 200), (32, X32, 300, 100)):
        for l in (1, 2): o.extend("%d %s" % (w, hx(t)) for t in itertools.product(pool, repeat=l))
        for l, n in ((3, n3), (4, n4)):
            for _ in range((n if full else n // 5) * k): add(w, [rnd.choice(pool) for _ in range(l)])
        if w == 8:
            lead = [0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef]; cont = [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0]
            for t in itertools.product(lead, cont, cont): add(8, list(t))
            for t in itertools.product([0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7], [0x7f, 0x80, 0x8f, 0x90, 0xbf, 0xc0], [0x7f, 0x80, 0xbf, 0xc0], [0x7f, 0x80, 0xbf, 0xc0]): add(8, list(t))
    for _ in range(600 * k):
        w = rnd.choice([8, 8, 16, 32]); add(w, damaged(rnd, w))
    for _ in range(60 * k):
        w = rnd.choice([8, 16, 32]); add(w, [rnd.choice(X8 if w == 8 else X16 if w == 16 else X32) for _ in range(rnd.choice([5, 20, 200]))])
    rnd.shuffle(o)
    return chunks(o, 60)


def check(prop):
    v = Verdict(prop)
    rnd = random.Random("%s-%d" % (prop, SEED))
    v.assumptions = ["wchar_t has 32 bits (the 16-bit branches are not compiled on this platform)", "the destination does not alias the source"]
    with Work() as w:
        b = binaries()
        cfg = "CONSTANTS Step = %d\nX8 = {%s}\nN8 = %d\nX16 = {%s}\nN16 = %d\nSPECIFICATION Spec\nINVARIANTS RoundTrip Resume\nCHECK_DEADLOCK FALSE\n" % (
            (1 if THOROUGH else 97) if prop == "C27" else 65536, ", ".join(map(str, X8[::1 if THOROUGH else 2] + [0xed, 0xf4])), 0 if prop == "C27" else 3 if THOROUGH else 2, ", ".join(map(str, X16)), 0 if prop == "C27" else 3 if THOROUGH else 2)
        m = model_check(w, "UnicodeLaws", cfg, "laws")
        v.add(states=m.states, transitions=m.transitions)
        gen = valid if prop == "C27" else malformed
        decide(prop, v, w, b, {k: gen(rnd, k == "c20") for k in VARIANTS}, "TraceUnicode")
    return v.finish()


def replay(prop, d): return again(prop, d, binaries(), "TraceUnicode")
