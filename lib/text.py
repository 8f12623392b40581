"""C23, C24, C26: splitting, joining, replacing, stripping, casing and case-insensitive matching."""
import itertools
from cases import *

VARIANTS = {"c14": "-std=c++14", "c17": "-std=c++17 -DPLUTO_LOCALE_NO_STATIC=1", "c20": "-std=c++20 -D_GLIBCXX_DEBUG", "clang": "-std=c++20 @clang",
            "uni": "-std=c++20 -O2 -DWITH_WHOLE -DPLUTO_STRING_OVERLOAD_FOR_UNICODE=1"}
LAWS = {"C23": "SplitLaws RunLaws JoinLaws", "C24": "ReplaceLaws StripLaws", "C26": "SplitLaws"}
# plain letters, blanks of several kinds (some only in some locales), letters with case, odd-locale characters, extremes
BLANKS = [0x20, 0x9, 0xa, 0xb, 0xc, 0xd]
WIDE = [0x2003, 0x3000, 0x85, 0xa0, 0x1680, 0x2028, 0x20ac, 0xe9, 0xc9, 0x3b1, 0x391, 0x3c2, 0x3c3, 0x3a3, 0x430, 0x410, 0x10400, 0x10401, 0x10428, 0x131, 0x130, 0xdf, 0x1e9e, 0x1f600, 0xfffd, 0xff, 0x178, 0xb5, 0x39c]


def binaries(): return build("text.cpp", VARIANTS)
def setup(): binaries()


def enc(s): return ".".join("%x" % (c if isinstance(c, int) else ord(c)) for c in s) or "-"
def words(alpha, n): return [list(t) for l in range(n + 1) for t in itertools.product(alpha, repeat=l)]


def some(rnd, alpha, n=None): return [rnd.choice(alpha) for _ in range(rnd.choice([0, 1, 2, 3, 5, 9, 20, 60]) if n is None else n)]


def alphabet(rnd):
    return rnd.choice([[97, 98], [97, 98, 99], [0, 97], [0x20, 0x2c, 97], [255, 128, 97], [0x61, 0x100, 0xffff], [0x10ffff, 0x61], [1, 2, 3, 4, 5, 6, 7, 8, 97]])


def plant(rnd, alpha, n=None):
    """A text containing copies of a piece, and the piece."""
    p = some(rnd, alpha, rnd.choice([1, 1, 1, 2, 2, 3, 4]))
    t = []
    for _ in range(rnd.choice([0, 1, 2, 3, 8]) if n is None else n):
        r = rnd.random()
        t += p if r < 0.5 else p[:-1] if r < 0.65 else some(rnd, alpha, rnd.choice([0, 1, 2, 5]))
    return t, p


def chunks(l, n): return [" ".join(l[i:i + n]) for i in range(0, len(l), n)]


def c23(rnd, full):
    o = ["s %s %s" % (enc(a), enc(b)) for a in words([97, 98], 5 if full else 4) for b in words([97, 98], 2)]
    for _ in range(300 * (15 if THOROUGH else 1)):
        al = alphabet(rnd)
        a, p = plant(rnd, al)
        o.append("s %s %s" % (enc(a), enc(p if rnd.random() < 0.9 else [])))
        o.append("j %s %s ;" % (enc(some(rnd, al, rnd.choice([0, 1, 1, 2, 3]))), " ".join(enc(some(rnd, al, rnd.choice([0, 0, 1, 2, 20]))) for _ in range(rnd.choice([0, 1, 2, 3, 3, 7, 13])))))
    for s in ([], [44], [44, 32]):
        for l in itertools.product([[], [97], [98, 99]], repeat=3): o.append("j %s %s ;" % (enc(s), " ".join(map(enc, l))))
        for l in itertools.product([[], [97]], repeat=2): o.append("j %s %s ;" % (enc(s), " ".join(map(enc, l))))
        o.append("j %s - ;" % enc(s)); o.append("j %s ;" % enc(s))
    for a in words([97, 0x20], 5 if full else 4): o.append("w %d %s" % (rnd.randrange(5), enc(a)))
    for L in range(5):
        o.append("w %d %s" % (L, enc(x for c in list(range(0, 256)) for x in (97, c))))
        o.append("w %d %s" % (L, enc(x for c in WIDE for x in (97, c))))
    for _ in range(200 * (15 if THOROUGH else 1)):
        al = rnd.choice([[97, 98] + BLANKS, [97, 0x20, 0x5f, 0x30], [97, 0x20] + WIDE, [0x20, 0x9, 97], [0, 0x20, 0x5f, 97]])
        o.append("w %d %s" % (rnd.randrange(5), enc(some(rnd, al))))
    for _ in range(6):      # long ones
        al = alphabet(rnd)
        a, p = plant(rnd, al, rnd.choice([70, 200, 300]))
        o += ["s %s %s" % (enc(a), enc(p)), "w %d %s" % (rnd.randrange(5), enc(some(rnd, [97, 98, 0x20, 0x9], rnd.choice([150, 400, 700])))),
              "j %s %s ;" % (enc(some(rnd, al, rnd.choice([0, 1, 2]))), " ".join(enc(some(rnd, al, rnd.choice([0, 1, 3]))) for _ in range(rnd.choice([40, 150]))))]
    rnd.shuffle(o)
    return chunks(o, 30)


def c24(rnd, full):
    o = ["r %s %s %s" % (enc(a), enc(f), enc(x)) for a in words([97, 98], 4 if full else 3) for f in words([97, 98], 2) for x in words([97, 98], 2 if full else 1)]
    for _ in range(500 * (15 if THOROUGH else 1)):
        al = alphabet(rnd)
        a, p = plant(rnd, al)
        r = rnd.random()
        x = p if r < 0.08 else p + p if r < 0.16 else p[1:] if r < 0.24 else some(rnd, al, 1) + p if r < 0.34 else some(rnd, al, rnd.choice([0, 1, 1, 2, 5, 40]))
        o.append("r %s %s %s" % (enc(a), enc(p if rnd.random() < 0.92 else []), enc(x)))
    for a in words([97, 0x20], 5 if full else 4): o.append("p %d %s" % (rnd.randrange(5), enc(a)))
    for L in range(5):
        for c in range(256): o.append("p %d %x.61.%x.62.%x" % (L, c, c, c))
        for c in WIDE: o.append("p %d %x.%x.61.%x.%x" % (L, c, c, c, c))
    for _ in range(200 * (15 if THOROUGH else 1)):
        al = rnd.choice([[97, 98] + BLANKS, [97, 0x20, 0x5f, 0x30], [97, 0x20] + WIDE, [0x20, 0x9, 97], BLANKS, [0, 0x20, 0x5f]])
        o.append("p %d %s" % (rnd.randrange(5), enc(some(rnd, al, rnd.choice([0, 0, 1, 2, 9])) + some(rnd, al) + some(rnd, al, rnd.choice([0, 1, 2])))))
    for _ in range(6):      # long ones
        al = alphabet(rnd)
        a, p = plant(rnd, al, rnd.choice([70, 200, 300]))
        o += ["r %s %s %s" % (enc(a), enc(p), enc(some(rnd, al, rnd.choice([0, 1, 2, 5])))), "p %d %s" % (rnd.randrange(5), enc([0x20] * rnd.choice([0, 40, 300]) + some(rnd, [97, 98, 0x20], rnd.choice([0, 100, 300])) + [0x9] * rnd.choice([0, 40, 300])))]
    rnd.shuffle(o)
    return chunks(o, 40)


def flip(rnd, a):
    """The same text with the case of some letters changed (or a letter replaced)."""
    def f(c):
        s = chr(c).swapcase()
        return ord(s) if len(s) == 1 and rnd.random() < 0.5 else {0x71: 0x78, 0x78: 0x71, 0x31: 0x32, 0x10400: 0x10401}.get(c, c) if rnd.random() < 0.3 else c
    return [f(c) for c in a]


def c26(rnd, full):
    o = []
    letters = [0x61, 0x41, 0x62, 0x42]
    pairs = [(a, b) for a in words(letters[:3], 3) for b in words(letters[:3], 2)]
    for a, b in pairs: o.append("i %d %s %s" % (rnd.randrange(5), enc(a), enc(b)))
    pools = [[0x61, 0x41, 0x62, 0x42], [0x71, 0x78, 0x51, 0x58, 0x31, 0x32], [0x7a, 0x5a, 0x7b, 0x5b, 0x60, 0x40], WIDE, WIDE + [0x61, 0x41], [0xe9, 0xc9, 0xff, 0xdf, 0x61], [0, 0x61, 0x41, 0x20]]
    for _ in range(400 * (15 if THOROUGH else 1)):
        al = rnd.choice(pools)
        k = [rnd.choice(al) for _ in range(rnd.choice([2, 3, 4]))]
        a, p = plant(rnd, k) if rnd.random() < 0.7 else (some(rnd, k), some(rnd, k, rnd.choice([0, 1, 2, 3])))
        if rnd.random() < 0.2: p = a[:] if rnd.random() < 0.5 else a + p
        o.append("i %d %s %s" % (rnd.randrange(5), enc(flip(rnd, a)), enc(flip(rnd, p))))
    for L in range(5):
        o.append("l %d %s" % (L, enc(range(256)))); o.append("l %d %s" % (L, enc(WIDE))); o.append("l %d -" % L)
        for c in (range(0, 256) if full else rnd.sample(range(256), 40)): o.append("l %d %x" % (L, c))
        for c in WIDE: o.append("l %d %x" % (L, c))
    for _ in range(200 * (15 if THOROUGH else 1)):
        al = rnd.choice(pools + [[0x61, 0x62, 0x41], [0x61, 0x62], [0x41, 0x42, 0x43], [0x30, 0x2e, 0x61]])
        o.append("l %d %s" % (rnd.randrange(5), enc(some(rnd, al))))
    for _ in range(6):      # long ones
        k = rnd.sample(pools[0], 3)
        a, p = plant(rnd, k, rnd.choice([40, 150]))
        o += ["i %d %s %s" % (rnd.randrange(5), enc(flip(rnd, a)), enc(flip(rnd, p if rnd.random() < 0.5 else a))), "l %d %s" % (rnd.randrange(5), enc(some(rnd, pools[0], rnd.choice([150, 500]))))]
    near = [0, 0x30, 0x31, 0x32, 0x40, 0x41, 0x42, 0x58, 0x5a, 0x5b, 0x5f, 0x60, 0x61, 0x62, 0x71, 0x78, 0x7a, 0x7b, 0x7f, 0x80, 0xc9, 0xe9, 0xff]
    for L in range(5):
        for x in (range(256) if full or THOROUGH else rnd.sample(near, 6) + rnd.sample(range(256), 6)): o.append("c %d %x %s ;" % (L, x, enc(range(256) if THOROUGH else near)))
        for x in rnd.sample(WIDE + near, 12): o.append("c %d %x %s ;" % (L, x, enc(WIDE + near)))
    rnd.shuffle(o)
    return chunks(o, 40)


GEN = {"C23": c23, "C24": c24, "C26": c26}


def check(prop):
    v = Verdict(prop)
    rnd = random.Random("%s-%d" % (prop, SEED))
    v.assumptions = ["the locale facets of the C++ standard library are right (their answers are recorded in every trace)", "arguments do not alias each other"]
    with Work() as w:
        b = binaries()
        m = model_check(w, "StringLaws", "CONSTANTS N = %d\nM = 2\nK = 1\nB = 10\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (6 if THOROUGH else 5, LAWS[prop]), "laws")
        v.add(states=m.states, transitions=m.transitions)
        decide(prop, v, w, b, {k: GEN[prop](rnd, k == "c20" or THOROUGH) for k in VARIANTS}, "TraceText")
    return v.finish()


def replay(prop, d): return again(prop, d, binaries(), "TraceText")
