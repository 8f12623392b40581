"""C25: values to text and back."""
from cases import *
from text import enc, chunks, words

PAT = " -ftrivial-auto-var-init=pattern"        # an uninitialised result shows
VARIANTS = {"c14": "-std=c++14" + PAT, "c17": "-std=c++17 -D_GLIBCXX_DEBUG" + PAT, "c20": "-std=c++20" + PAT, "clang": "-std=c++20 @clang" + PAT, "opt": "-std=c++20 -O2 -DWITH_WHOLE" + PAT}


def binaries(): return build("number.cpp", VARIANTS)
def setup(): binaries()


def patterns(rnd, full):
    p = set()
    for n in range(0, 129):
        p.add(1 << n if n < 128 else 0); p.add((1 << n) - 1); p.add(((1 << 128) - 1) ^ ((1 << n) - 1))
        if full: p.add(1 << n | 1); p.add((1 << n) - 2 if n else 0)
    for b in (range(256) if full else rnd.sample(range(256), 40)):
        p.add(b); p.add(b << 8); p.add(b << 56 | b)
    for _ in range((300 if full else 60) * (10 if THOROUGH else 1)): p.add(rnd.getrandbits(rnd.choice([8, 16, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128])))
    if THOROUGH: p |= set(range(65536))
    p = [x & ((1 << 128) - 1) for x in p]
    rnd.shuffle(p)
    return p if full or THOROUGH else p[:250]


def gen(rnd, full):
    o = ["n %x" % x for x in patterns(rnd, full)]
    o += ["f %d" % k for k in ([0, 1, -1, 7999, -7999] + [rnd.randint(-7999, 7999) for _ in range(60)])]
    pool = [list("abc"), list("09+-.xX "), list(" \t\n\v\f\r1-"), ["\0", "1", " "], list("!~A0")]
    for _ in range(150 * (10 if THOROUGH else 1)):
        al = rnd.choice(pool)
        t = [rnd.choice(al) for _ in range(rnd.choice([0, 1, 1, 2, 3, 9, 40]))]
        o.append("t %s" % enc(t)); o.append("z %s" % enc(t))
    for w in words("+-1 .xen,", 3 if full else 2): o.append("z %s" % enc(w))
    for t in ("", " ", "\t", "\n\n", "  \v\f\r ", "abc", " abc 12", "-", "+", "--1", "+ 1", "- 1", ".", "..5", "e5", "x1", "0", "true", "false", "null", "nope", "inf", "(1)", "$1", ",1", "\0001", "\u2003", "\u0661"):
        o.append("z %s" % enc(t)); o.append("t %s" % enc(c for c in t if ord(c) < 256))
    for c in range(1, 256): o.append("z %x" % c); o.append("z %x.31" % c); o.append("t %x" % c)
    rnd.shuffle(o)
    return ["g %d %s" % (rnd.randrange(2), c) for c in chunks(o, 12)]


def check(prop):
    v = Verdict(prop)
    rnd = random.Random("%s-%d" % (prop, SEED))
    v.assumptions = ["values of floating-point types are limited to those whose default stream text is exact", "the stream operators of the element types are right"]
    with Work() as w:
        b = binaries()
        m = model_check(w, "StringLaws", "CONSTANTS N = 0\nM = 1\nK = 1\nB = %d\nSPECIFICATION Spec\nINVARIANT StripLaws\nCHECK_DEADLOCK FALSE\n" % (14 if THOROUGH else 12), "laws")
        v.add(states=m.states, transitions=m.transitions)
        decide(prop, v, w, b, {k: gen(rnd, k == "c20" or THOROUGH) for k in VARIANTS}, "TraceText")
    return v.finish()


def replay(prop, d): return again(prop, d, binaries(), "TraceText")
