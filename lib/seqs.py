"""C21, C22: matching, searching, transforming and aggregating sequences, in every form the library offers."""
import itertools
from cases import *

VARIANTS = {"c14": "-std=c++14", "c17": "-std=c++17 -D_GLIBCXX_DEBUG", "c20": "-std=c++20", "clang": "-std=c++20 @clang", "whole": "-std=c++20 -O2 -DWITH_WHOLE -D_GLIBCXX_DEBUG"}


def binaries(): return build("seq.cpp", VARIANTS)
def setup(): binaries()


def words(n, k): return ["".join(map(str, t)) or "-" for l in range(n + 1) for t in itertools.product(range(k), repeat=l)]


def chunks(l, n): return [l[i:i + n] for i in range(0, len(l), n)]


def planted(rnd, long=False):
    k = rnd.choice([2, 3, 6, 10])
    a = [rnd.randrange(k) for _ in range(rnd.choice([3, 6, 9, 15, 40] if not long else [90, 300]))]
    i = rnd.choice([0, rnd.randrange(len(a) + 1)]); j = rnd.choice([len(a), rnd.randrange(i, len(a) + 1)])
    b = a[i:j]
    r = rnd.random()
    if r < 0.15 and b: b[rnd.randrange(len(b))] = rnd.randrange(k)
    elif r < 0.25: b = b + [rnd.randrange(k)]
    elif r < 0.35: b = [rnd.randrange(k)] + b
    elif r < 0.45: a = (a + b) * 2
    elif r < 0.5: a, b = b, a
    return "".join(map(str, a)) or "-", "".join(map(str, b)) or "-"


def match_programs(rnd, full):
    out = []
    pairs = [(a, b) for a in words(5 if full else 3, 2) for b in words(4 if full else 2, 2)] + ([(a, b) for a in words(3, 3) for b in words(2, 3)] if full else [])
    pairs += [planted(rnd) for _ in range((900 if full else 250) * (20 if THOROUGH else 1))]
    pairs += [planted(rnd, True) for _ in range(10)]
    rnd.shuffle(pairs)
    for i, c in enumerate(chunks(pairs, 25)): out.append("m %d %s" % ((0, 2, -1, 0, 3, -2, 1, -3)[i % 8], " ".join("%s %s" % p for p in c)))
    seqs = words(5 if full else 4, 3 if full else 2) + [planted(rnd)[0] for _ in range(150)]
    rnd.shuffle(seqs)
    for c in chunks(seqs, 25):
        m = rnd.choice([1, 2, 3, 5])
        out.append("x %d %d %d %s" % (rnd.choice([0, 1, 2, 2, 9]), m, rnd.randrange(m), " ".join(c)))
    return out


BIG = [1000000, -1000000, 999999, -999999, 999998, -999998]


def transform_programs(rnd, full):
    out = []
    for n in range(0, 6):       # every slice of short containers
        o = ["=" + ("".join(str(i % 10) for i in range(1, n + 1)) or "-")]
        for s in list(range(-n - 2, n + 3)) + BIG:
            o.append("S%d" % s)
            for t in list(range(-n - 2, n + 3)) + BIG: o.append("s%d,%d" % (s, t))
        out += ["t %s %s" % (o[0], " ".join(c)) for c in chunks(o[1:], 60)]
    for w in words(5 if full else 4, 3 if full else 2):
        m = rnd.choice([1, 2, 3, 4])
        out.append("t =%s a%d,%d,%d,%d m%d e o0 =%s o1 =%s o2 a2,0,1,0 r f%d,%d a1,0,2,5" % (w, m, rnd.randrange(m), rnd.randrange(3), rnd.choice([0, 5, -7]), rnd.choice([0, 0, 1, 3]), w, w, m, rnd.randrange(m)))
    for x in range(258 * (20 if THOROUGH else 1)):
        n = rnd.choice([0, 1, 2, 5, 9, 18, 60] if x >= 8 else [130, 300])
        k = rnd.choice([2, 4, 10])
        o = ["=" + ("".join(str(rnd.randrange(k)) for _ in range(n)) or "-")]
        for _ in range(rnd.choice([4, 12])):
            m = rnd.choice([1, 2, 3, 5])
            o.append(rnd.choice(["s%d,%d" % (rnd.randint(-n - 3, n + 3), rnd.randint(-n - 3, n + 3)), "S%d" % rnd.randint(-n - 3, n + 3), "o%d" % rnd.randrange(3), "r", "m%d" % rnd.choice([0, 2]), "e", "b",
                                 "a%d,%d,%d,%d" % (m, rnd.randrange(m), rnd.randrange(k), rnd.randint(-50, 50)), "a%d,%d,%d,%d" % (m, rnd.randrange(m), rnd.randrange(k), 0)] + (["f%d,%d" % (m, rnd.randrange(m))] if rnd.random() < 0.5 else [])))
        out.append("t " + " ".join(o))
    out.append("t " + " ".join("2%d,%d" % (a, b) for a in range(7) for b in range(7)))
    out.append("t " + " ".join("|%d" % x for x in [0, 1, -1, 127, -127, 128, -128, 32767, -32767, 65535, -65536, 100000, -16777216]))
    out.append("t " + " ".join("~%d" % x for x in list(range(-40, 41)) + [995, 1005, -1005, 99995]))
    out.append("t " + " ".join("^%d,%d" % (x, y) for x in range(-4, 8) for y in range(0, 7) if (x, y) != (0, 0)))
    return out


def check(prop):
    v = Verdict(prop)
    rnd = random.Random("%s-%d" % (prop, SEED))
    v.assumptions = ["predicates passed to matching functions are pure functions of (left element, right element)" if prop == "C21" else "predicates passed to sort, min and max are strict weak orders"]
    with Work() as w:
        b = binaries()
        m = model_check(w, "SeqLaws", "CONSTANTS N = %d\nM = %d\nK = %d\nSPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % ((4, 3, 2, "Match") if prop == "C21" else (4, 2, 2, "Slices Aggregates")), "laws")
        v.add(states=m.states, transitions=m.transitions)
        gen = match_programs if prop == "C21" else transform_programs
        for name, std, e in UPGRADED:
            if prop == "C22" and re.search(r"container.hpp.*is not a member of .std", e):
                v.violation("cxx14", "container.hpp cannot be used with %s: %s" % (std, e[:600]), {"compile": e[:3000]})
        decide(prop, v, w, b, {k: gen(rnd, k == "c20" or THOROUGH) for k in VARIANTS}, "TraceSeqs")
    return v.finish()


def replay(prop, d): return again(prop, d, binaries(), "TraceSeqs")
