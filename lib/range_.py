"""C20: ranges.  Every pair of ranges over a table of extreme and neighbouring points of each type, and random programs."""
from cases import *

TYPES = {"int": 9, "uint": 8, "long": 9, "ulong": 8, "ll": 9, "ull": 8, "ptr": 7, "dbl": 9, "pt": 7}
VARIANTS = {"c14": "-std=c++14", "c17": "-std=c++17", "c20": "-std=c++20", "clang": "-std=c++20 @clang"}


def binaries(): return build("range.cpp", VARIANTS)
def setup(): binaries()


def programs(rnd, full):
    out = []
    for ty, n in TYPES.items():
        rs = [(a, b) for a in range(n) for b in range(n)]
        if not full: rs = rnd.sample(rs, 22)
        if full:
            for a in range(0, len(rs), 27):
                for b in range(0, len(rs), 27):
                    x, y = rs[a:a + 27], rs[b:b + 27]
                    o = ["n%d,%d,%d" % (i, p, q) for i, (p, q) in enumerate(x)] + ["n%d,%d,%d" % (i + 100, p, q) for i, (p, q) in enumerate(y)]
                    o += ["?%d,%d" % (i, j + 100) for i in range(len(x)) for j in range(len(y))]
                    out.append(ty + " " + " ".join(o))
        else:
            o = ["n%d,%d,%d" % (i, p, q) for i, (p, q) in enumerate(rs)] + ["?%d,%d" % (i, j) for i in range(len(rs)) for j in range(len(rs))] + ["$"]
            out.append(ty + " " + " ".join(o))
        for _ in range(20 if not THOROUGH else 300):
            o, live = [], []
            for _ in range(60):
                r = rnd.random()
                if len(live) < 2 or r < 0.15: i = rnd.randint(0, 9); o.append("n%d,%d,%d" % (i, rnd.randrange(n), rnd.randrange(n))); live = sorted(set(live) | {i})
                elif r < 0.22: i = rnd.randint(0, 9); o.append(("a" if i in live else "c") + "%d,%d" % (i, rnd.choice(live))); live = sorted(set(live) | {i})
                elif r < 0.4: o.append(rnd.choice("be") + "%d,%d" % (rnd.choice(live), rnd.randrange(n)))
                elif r < 0.5: o.append("r%d" % rnd.choice(live))
                elif r < 0.55: o.append("$")
                else: o.append("?%d,%d" % (rnd.choice(live), rnd.choice(live)))
            out.append(ty + " " + " ".join(o + ["r%d" % i for i in live]))
    for ty in ("int", "uint", "long", "ulong", "ll", "ull", "dbl"):
        o = []
        for b in range(0, 40, 3):
            for e in range(b, 40, 5): o += ["n0,%d,%d" % (b, e), "s0", "r0"]
        out.append(ty + "# " + " ".join(o))
    return out


def check(prop):
    v = Verdict(prop)
    v.assumptions = ["point types are totally ordered and their comparisons agree with each other"]
    rnd = random.Random("%s-%d" % (prop, SEED))
    with Work() as w:
        b = binaries()
        m = model_check(w, "RangeLaws", "CONSTANT N = %d\nSPECIFICATION Spec\nINVARIANTS StrictTotalOrder Agree OverlapLaws NoOverlapLaws\nCHECK_DEADLOCK FALSE\n" % (5 if THOROUGH else 3), "laws")
        v.add(states=m.states, transitions=m.transitions)
        decide(prop, v, w, b, {k: programs(rnd, k == "c20" or THOROUGH) for k in VARIANTS}, "TraceRange")
    return v.finish()


def replay(prop, d): return again(prop, d, binaries(), "TraceRange")
