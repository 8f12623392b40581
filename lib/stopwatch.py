"""C19: the stopwatch, on a clock under control.  TLC validates every recorded history against spec/Stopwatch.tla."""
import itertools, random
from common import *
import lru

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
READS = list("tabcdefABCDEFgGhHi")
VARIANTS = [("m20", "-std=c++20 -DMANUAL"), ("s14", "-std=c++14"), ("s20", "-std=c++20")]


def binaries():
    objs = compile_objs([("sw-" + n, "stopwatch.cpp", "-O1 -g -fsanitize=undefined -fno-sanitize-recover=all " + f, True) for n, f in VARIANTS])
    return [link("sw-" + n, [o], "-fsanitize=undefined") for (n, f), o in zip(VARIANTS, objs)]


def setup(): binaries()


def advance(rnd):
    r = rnd.random()
    if r < 0.35: return rnd.choice([0, 1, 999, 1000, 1001, 999999, 10**6, 999999999, 10**9, 59999999999, 60 * 10**9, 3599999999999, 3600 * 10**9, 86400 * 10**9])
    if r < 0.9: return rnd.randint(1, 10 ** rnd.randint(1, 14))
    return rnd.randint(10**14, 10**17)


def histories(rnd):
    out = []
    for n in range(1, 5 if not THOROUGH else 6):       # every short sequence of state changes
        for ops in itertools.product("spSrR", repeat=n):
            for start in ("N0", "N1"):
                out.append(start + " t i " + " ".join("+%d %s %s i w" % (10 ** (3 * (j % 4)) * 7 + j, o, rnd.choice(READS)) for j, o in enumerate(ops)) + " +777777777 t w i")
    for _ in range(1500 if not THOROUGH else 20000):
        ops, left = ["N%d" % rnd.randint(0, 2)], 1.5 * 10**18
        if rnd.random() < 0.5: ops.append("T%d" % rnd.choice([1, 1000, 10**6, 123456789]))
        for _ in range(rnd.choice([5, 20, 60])):
            r = rnd.random()
            if r < 0.3:
                a = advance(rnd)
                if left > a: left -= a; ops.append("+%d" % a)
            elif r < 0.6: ops.append(rnd.choice("sspprRSSy"))
            else: ops.append(rnd.choice(READS + ["w", "w"]))
        out.append(" ".join(ops))
    return out


def check(prop):
    v = Verdict(prop)
    v.assumptions = ["the clock does not run backwards", "total times below 2^31 seconds"]
    rnd = random.Random("%s-%d" % (prop, SEED))
    with Work() as w:
        hs = histories(rnd)
        traces, text = [], {}
        for k, b in enumerate(binaries()):
            lines = [("%s.%d.%d" % (prop, k, i), h) for i, h in enumerate(hs) if THOROUGH or k == 0 or i % 3 == k or i >= len(hs) - 1500]
            text.update(lines)
            traces += lru.run_lines(w, b, lines, "l%d" % k)
        log("%d histories" % len(traces))
        rej, s, t = validate(w, "TraceStopwatch", CFG, traces)
        log("validated, %d states, %d rejected" % (s, len(rej)))
        v.add(states=s, transitions=t, traces_validated_against_impl=len(traces), samples=[json.loads(x) for x in traces[:1]])
        for i, l, n in sorted(rej, key=lambda x: len(text[json.loads(traces[x[0]])["sc"]])):
            tr = json.loads(traces[i])
            v.violation(tr["sc"], "history %s: at event %d: %s" % (text[tr["sc"]], l, json.dumps(tr["ev"][l])), {"history": text[tr["sc"]], "variant": int(tr["sc"].split(".")[1]), "failing": l, "events": tr["ev"]})
    return v.finish()


def replay(prop, d):
    r = d["replay"]
    with Work() as w:
        traces = lru.run_lines(w, binaries()[r["variant"]], [("replay", r["history"])])
        rej, s, t = validate(w, "TraceStopwatch", CFG, traces)
        print("VIOLATION property=%s replay=given" % prop if rej else "not reproduced")
        return 1 if rej else 0
