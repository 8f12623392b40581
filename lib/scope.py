"""C17, C18: scope guards.  Programs of nested scopes, exceptions, destructors and tasks are interpreted with the real
guards; TLC validates what was run, and when, against spec/Scope.tla."""
import random
from common import *
import lru

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
SAN = "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
STDS = [14, 17, 20]

HAND17 = [
 "m: {E1 +1,1 +1,2 +1,3 } ; k1: ; k2: ; k3:", "m: {E1,1 +1,2 ! } ; k1: ; k2: !", "m: {E1 +1,0 +1,1 +1,0 +1,2 +1,0 } ; k1: ; k2: ", "m: {E1 +1,1 } ; k1: +1,2 ; k2: +1,3 ; k3:", "m: {E1 +1,5 +1,1 +1,6 } ; k1: +1,2 +1,3 ; k2: ; k3: +1,4 ; k4: ; k5: ; k6:",
 "m: {E1,1 R } ; k1: !", "m: {E1,1 {E2,2 {E3,3 ! } } } ; k1: ; k2: ! ; k3: ", "m: {E1 +1,1 +1,1 +1,1 } ; k1: ", "m: ( {E1,1 ! } | {E2,2 ! } ) ; k1: ; k2: ", "m: {E1 [ {E2,2 ! } ] +1,1 ! } ; k1: ; k2: ", "m: {E1 } {E2,0 } {E3 ! }", "m: {E1 +1,1 } ; k1: ! ",
 "m: {E1 +1,1 } ; k1: +1,2 ! ; k2: ", "m: {E1 +1,1 +1,2 } ; k1: ; k2: {E2,3 +1,4 ! } ; k3: +1,5 ; k4: ; k5: ", "m: {E1 +1,1 {E2 +2,2 } +1,6 } ; k1: ; k2: +1,3 ; k3: ; k6: +1,0 ", "m: {E1 +1,1 } ; k1: +1,2 +1,3 +1,4 +1,5 +1,6 ; k2: ; k3: ; k4: ; k5: ; k6: ",
]
HAND18 = [
 "m: {S1,1 +1,2 } ; k1: ; k2: ", "m: {F1,1 +1,2 } ; k1: ; k2: ", "m: {S1,1 +1,2 ! } ; k1: ; k2: ", "m: {F1,1 +1,2 ! } ; k1: ; k2: ", "m: {S1,1 R } {F2,2 R } ; k1: ; k2: ", "m: {S1,1 ( ! | ) } {F2,2 ( ! | ) } ; k1: ; k2: ",
 "m: {F1 [ {S2,2 } {F3,3 } ] ! } ; k2: ; k3: ", "m: {S1 [ {S2,2 ! } {F3,3 ! } ] ! } ; k2: ; k3: ", "m: {S1 [ ( {S2,2 ! } | ) ] [ ( {F3,3 ! } | ) ] ! } ; k2: ; k3: ", "m: {F1,1 +1,2 ! } ; k1: {S2,3 } {F3,4 } ; k2: ( {F4,5 ! } | {S5,6 } ) ; k3: ; k4: ; k5: ; k6: ",
 "m: ( ! | {S1,1 } {F2,2 } ) ; k1: ; k2: ", "m: ( ! | {S1,1 ! } ) ; k1: ", "m: ( ! | {F1,1 ^ } ) ; k1: ", "m: {S1,1 +1,2 } ; k1: ! ; k2: ! ", "m: {F1,1 +1,2 ! } ; k1: ! ; k2: ! ", "m: {S1 +1,1 } ; k1: +1,2 ; k2: ", "m: {F1 +1,1 ! } ; k1: +1,2 ; k2: +1,0 +1,3 ; k3: ",
 "m: {F1 [ {F2 [ {S3,3 } {F4,4 } ] ! } ] ! } ; k3: ; k4: ", "m: {S1,1 {S2,2 {F3,3 ! } } } ; k1: ; k2: ; k3: ", "m: {S1,1 ( {S2,2 {F3,3 ! } } | ) } ; k1: ; k2: ; k3: ", "m: {S1,0 +1,1 +1,0 } {F2,0 +2,2 +2,0 ! } ; k1: ; k2: ",
]


class Gen:
    def __init__(self, rnd, kinds, restricted):
        self.r, self.kinds, self.restricted = rnd, kinds, restricted
        self.g = self.t = 0
        self.bodies = {}
        self.budget = rnd.choice([5, 9, 14, 22])

    def new_task(self, scope, depth):
        r = self.r.random()
        if r < 0.12: return 0
        if r < 0.2 and self.t: return self.reuse() or 0
        self.t += 1
        k = self.t
        self.bodies[k] = None
        self.bodies[k] = self.body(scope, depth + 2, False, True)
        self.simple = k if not self.bodies[k].strip() else getattr(self, "simple", 0)
        return k

    def reuse(self): return getattr(self, "simple", 0)

    def body(self, scope, depth, handler, special):
        """special: runs in a task or a destructor, where an exception may be propagating"""
        r, out = self.r, []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if self.budget <= 0: break
            self.budget -= 1
            x = r.random()
            if x < 0.4 and scope: out.append("+%d,%d" % ((lambda g: (g, self.new_task(scope[:scope.index(g) + 1], depth)))(r.choice(scope[-2:] if r.random() < 0.8 else scope))))
            elif x < 0.62 and depth < 6 and not (special and self.restricted): out.append(self.block(scope, depth + 1, special))
            elif x < 0.72 and depth < 6: out.append("( %s | %s )" % (self.body(scope, depth + 1, False, special), self.body(scope, depth + 1, True, special)))
            elif x < 0.82 and depth < 6: out.append("[ %s ]" % self.body(scope, depth + 1, False, True))
            elif x < 0.94: out.append("^" if handler and r.random() < 0.4 else "!"); break
            else: out.append("R"); break
        return " ".join(out)

    def block(self, scope, depth, special=False):
        self.g += 1
        g = self.g
        k = self.r.choice(self.kinds)
        ctor = ",%d" % self.new_task(scope + [g], depth) if self.r.random() < 0.5 else ""
        return "{%s%d%s %s }" % (k, g, ctor, self.body(scope + [g], depth, False, special))

    def long(self):
        """Many tasks on one guard, or many nested scopes."""
        r = self.r
        k = r.choice(self.kinds)
        n = r.choice([10, 17, 33, 70, 130])
        bodies = {1: "", 2: "" if k == "E" else "+1,1", 3: "+1,1 +1,4 +1,0", 4: ""}
        if r.random() < 0.6: m = "{%s1,%d %s %s }" % (k, r.choice([0, 1]), " ".join("+1,%d" % r.choice([1, 1, 2, 3, 0, 4]) for _ in range(n)), r.choice(["", "!", "R"]))
        else:
            n = min(n, 40)
            m = "{%s1 " % k + " ".join("{%s%d,1" % (r.choice(self.kinds), g) + (" +%d,%d" % (r.choice([g, 1]), r.choice([1, 4]))) for g in range(2, n)) + r.choice([" ", " ! "]) + "} " * (n - 1)
        return "m: " + m + "".join(" ; k%d: %s" % kv for kv in sorted(bodies.items()))

    def program(self):
        m = " ".join(self.block([], 0) for _ in range(self.r.choice([1, 1, 2])))
        return "m: " + m + "".join(" ; k%d: %s" % kv for kv in sorted(self.bodies.items()))


def binaries():
    out = []
    objs = compile_objs([("scope%d" % s, "scope.cpp", "-std=c++%d %s" % (s, SAN), True) for s in STDS])
    return [link("scope%d" % s, [o], "-fsanitize=address,undefined") for s, o in zip(STDS, objs)]


def setup(): binaries()


def check(prop):
    v = Verdict(prop)
    if prop == "C18": v.assumptions = ["before C++17 the language cannot count propagating exceptions, so scopes entered while one is propagating are examined as C++17 and C++20 only"]
    rnd = random.Random("%s-%d" % (prop, SEED))
    kinds = ["E"] if prop == "C17" else ["S", "F"]
    hand = HAND17 if prop == "C17" else HAND18
    with Work() as w:
        traces, text = [], {}
        for std, b in zip(STDS, binaries()):
            restricted = prop == "C18" and std == 14
            progs = [h for i, h in enumerate(hand) if not restricted or "[" not in h and "{" not in h.split(";", 1)[-1]]
            for _ in range(1500 if not THOROUGH else 40000): progs.append(Gen(rnd, kinds, restricted).program())
            for _ in range(20 if not THOROUGH else 400): progs.append(Gen(rnd, kinds, restricted).long())
            lines = [("%s.%d.%d" % (prop, std, i), p) for i, p in enumerate(progs)]
            text.update(lines)
            traces += lru.run_lines(w, b, lines, "l%d" % std)
        log("%d programs" % len(traces))
        rej, s, t = validate(w, "TraceScope", CFG, traces)
        log("validated, %d states, %d rejected" % (s, len(rej)))
        v.add(states=s, transitions=t, traces_validated_against_impl=len(traces), samples=[{"program": text[json.loads(x)["sc"]], "trace": json.loads(x)} for x in traces[:1]])
        for i, l, n in sorted(rej, key=lambda x: len(text[json.loads(traces[x[0]])["sc"]])):
            tr = json.loads(traces[i])
            sh = lambda e: "%s%s%s%s" % (e["e"], ":" + e["k"] if e.get("k") else "", " g%d" % e["g"] if e.get("g") else "", " t%d" % e["t"] if e.get("t") else "") if "what" not in e else str(e)
            v.violation(tr["sc"], "program %s: %s ==> not allowed: %s" % (text[tr["sc"]], "; ".join(sh(e) for e in tr["ev"][max(0, l - 30):l]), sh(tr["ev"][l])),
                        {"program": text[tr["sc"]], "std": int(tr["sc"].split(".")[1]), "failing": l, "events": tr["ev"][:400]})
    return v.finish()


def replay(prop, d):
    r = d["replay"]
    with Work() as w:
        traces = lru.run_lines(w, binaries()[STDS.index(r["std"])], [("replay", r["program"])])
        rej, s, t = validate(w, "TraceScope", CFG, traces)
        print("VIOLATION property=%s replay=given" % prop if rej else "not reproduced")
        return 1 if rej else 0
