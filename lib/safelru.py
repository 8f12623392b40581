"""C16: the thread-safe cache.  Concurrent scenarios run on the real code under the controlled scheduler; TLC decides
whether each recorded history is linearizable with respect to spec/LRU.tla (spec/SafeLRU.tla)."""
import random
from common import *
import sched

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
HAND = [
 "c0: n2 i1,1 i2,2 X1 X2 J1 J2 c1 c2 c3 g1 g2 g3 s D; c1: g1; c2: i3,3",
 "c0: n1 X1 X2 X3 J1 J2 J3 s c1 c2 c3 D; c1: i1,1 g1; c2: i2,2 g2; c3: a1,3 s",
 "c0: n3 i1,1 i2,2 i3,3 X1 X2 J1 J2 i4,4 c1 c2 c3 s D; c1: g1 g2; c2: g2 g1",
 "c0: n2 X1 X2 J1 J2 g1 g2 s D; c1: i1,1; c2: i1,2",
 "c0: n2 i1,1 X1 X2 J1 J2 s e g1 D; c1: r1; c2: r1",
 "c0: n2 i1,1 X1 X2 J1 J2 s e g1 D; c1: a1,5 g1; c2: a1,6 g1",
 "c0: n3 i1,1 i2,2 i3,3 X1 X2 J1 J2 s p c1 c2 c3 D; c1: P1 s p; c2: g1 c2 c3",
 "c0: n0 X1 X2 J1 J2 s p c1 D; c1: i1,1 s; c2: P2 i2,2 s",
 "c0: n2 i1,1 i2,2 X1 X2 X3 J1 J2 J3 s e D; c1: x e s; c2: i3,3 c3 g3; c3: s e c1",
 "c0: n2 i1,1 i2,2 X1 X2 X3 J1 J2 J3 i3,3 c1 c2 D; c1: c1 c2 s; c2: c1 e p; c3: g1",
 "c0: n2 X1 X2 X3 X4 J1 J2 J3 J4 s c1 c2 c3 c4 D; c1: i1,1; c2: i2,2; c3: i3,3; c4: i4,4",
 "c0: n2 i1,1 X1 X2 J1 J2 D; c1: c1 c1; c2: r1 i1,2 r1",
]


def gen(rnd):
    nk = rnd.choice([1, 2, 3]); v = iter(range(10, 1000))
    def op():
        k = rnd.randint(1, nk)
        return rnd.choice(["i%d,%d" % (k, next(v)), "i%d,%d" % (k, next(v)), "a%d,%d" % (k, next(v)), "a%d,%d" % (k, next(v)), "g%d" % k, "g%d" % k, "g%d" % k, "r%d" % k, "c%d" % k, "s", "e", "p",
                           "P%d" % rnd.randint(0, nk), "x"])
    n = rnd.choice([2, 2, 3, 4])
    pre = ["n%d" % rnd.randint(0, nk)] + ["i%d,%d" % (k, k) for k in range(1, nk + 1) if rnd.random() < 0.6]
    cl = {c: [op() for _ in range(rnd.choice([1, 2, 3] if n < 4 else [1, 2]))] for c in range(1, n + 1)}
    mid = [op() for _ in range(rnd.choice([0, 0, 1, 2]))]
    post = ["c%d" % k for k in range(1, nk + 1)] + ["s"]
    for m in range(nk - 1, 0, -1): post += ["P%d" % m] + ["c%d" % k for k in range(1, nk + 1)]
    post += ["g%d" % k for k in range(1, nk + 1)]
    return "c0: " + " ".join(pre + ["X%d" % c for c in cl] + mid + ["J%d" % c for c in cl] + post + ["D"]) + "".join("; c%d: %s" % (c, " ".join(p)) for c, p in cl.items())


def binaries():
    return [sched.build("safelru17", "safelru.cpp"), sched.build("safelru14", "safelru.cpp", "-std=c++14")]


def setup(): binaries()


def check(prop):
    v = Verdict(prop)
    v.assumptions = ["sequentially consistent memory (data races are reported separately by vector clocks)", "reader-writer locks are replaced by the scheduler's model of pthread rwlocks"]
    rnd = random.Random("%s-%d" % (prop, SEED))
    sc = [("C16.h%d" % i, t) for i, t in enumerate(HAND)] + [("C16.r%d" % i, gen(rnd)) for i in range(120 if not THOROUGH else 1500)]
    text = dict(sc)
    with Work() as w:
        traces, which = [], []
        for b in binaries():
            t, st = sched.explore(w, b, sc, secs=5 if not THOROUGH else 240, runs=100000, maxper=40 if not THOROUGH else 200, maxout=4000 if not THOROUGH else 60000, delay2=1)
            log("explored", st)
            if st["bad"]: raise CheckError("harness could not finish %d executions" % st["bad"])
            traces += t; which += [b] * len(t)
            v.add(executions=st["executions"], scheduling_points=st["sync_points"])
        rej, s, tr = validate(w, "TraceSafeLRU", CFG, traces)
        log("validated %d traces, %d states, %d rejected" % (len(traces), s, len(rej)))
        v.add(states=s, transitions=tr, traces_validated_against_impl=len(traces), scenarios=len(sc), samples=[json.loads(x) for x in traces[:1]])
        if rej and os.environ.get("DUMP"): sched.dump(rej, traces)
        for i, l, n in sorted(rej, key=lambda x: len(traces[x[0]])):
            t = json.loads(traces[i])
            v.violation("%s@%s" % (t["sc"], sched.show(t["ev"][l]) if l < n else "end"), "scenario %s: %s" % (text[t["sc"]], sched.story(t, l)),
                        {"scenario": text[t["sc"]], "plan": t["plan"], "variant": binaries().index(which[i]), "failing_event": l, "events": t["ev"]})
    return v.finish()


def replay(prop, d):
    r = d["replay"]
    with Work() as w:
        open(w.path("sc"), "w").write("replay\t%s\n" % r["scenario"])
        run([binaries()[r["variant"]], w.path("sc"), w.path("out"), "plan=" + r["plan"]])
        traces = open(w.path("out")).read().splitlines()
        rej, s, t = validate(w, "TraceSafeLRU", CFG, traces)
        for i, l, n in rej: print(sched.story(json.loads(traces[i]), l))
        print("VIOLATION property=%s replay=given" % prop if rej else "not reproduced")
        return 1 if rej else 0
