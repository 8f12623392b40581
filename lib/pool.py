"""C01-C07: the thread pool.  Scenarios run on the real pool under the controlled scheduler, every recorded
execution is validated by TLC against spec/ThreadPool.tla."""
import random
from common import *
import sched

ALL = ["EXACT", "PRIO", "RESIZE", "SHUT", "WAIT", "TIME", "OBS"]
CLAUSE = {"C01": ["EXACT"], "C02": ["PRIO"], "C03": ["RESIZE"], "C04": ["SHUT"], "C05": ["WAIT"], "C06": ["TIME"], "C07": ["OBS"]}


def cfg(clauses):
    return ("CONSTANT Strict = {%s}\nSPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
            % ", ".join('"%s"' % c for c in clauses))


# ------------------------------------------------------------------ scenarios
HAND = {
 "C01": [
  "c0: N1 A1 Z D", "c0: N2 A1 A2 A3 Z D", "c0: N2 X1 X2 A1 A2 J1 J2 Z D; c1: A3 A4; c2: A5 A6",
  "c0: N3 X1 X2 J1 J2 C D; c1: A1 A2 A3; c2: A4 S5", "c0: N2 A1 A2 C D; k1: A3 A4; k2: A5; k4: A6",
  "c0: N1 A1 S2 A3 Z D; k1: A4 A5", "c0: N0 A1 A2 R2 C D", "c0: N2 X1 J1 Z D; c1: A1 @2,d,0 S3 +4,d,0 A5",
  "c0: N3 A1 A2 A3 A4 A5 A6 A7 A8 W C D; k1: A9; k2: A10; k9: A11; k11: A12",
  "c0: N2 S1 S2 S3 D", "c0: N4 A1 A2 Z A3 A4 Z D", "c0: N2 A1 Z A2 Z A3 Z D; k1: A4 ; k4: H",
  "c0: N2 X1 X2 X3 J1 J2 J3 C D; c1: S1; c2: S2; c3: S3", "c0: N2 A1 A2 A3 Z D; k1: G1; k2: g1",
  "c0: N3 A1 A2 A3 A4 Z D; k1: G1; k2: G2; k3: g1 g2", "c0: N2 X1 R1 R3 J1 C D; c1: A1 A2 A3",
 ],
 "C02": [
  "c0: N1 A1 A2,1 A3,2 A4,-1 A5,2 A6 Z D; k1: H", "c0: N1 A1,d A2,-128 A3,127 A4,0 A5,-1 A6,1 A7,127 A8,-128 Z D; k1: H",
  "c0: N1 A1,e127 A2,e64 A3,e32 A4,e0 A5,e-32 A6,e-64 A7,e-128 Z D", "c0: N1 A1 A2,e-128 A3,e-64 A4,e-32 A5,e0 A6,e32 A7,e64 A8,e127 Z D; k1: H",
  "c0: N2 X1 X2 J1 J2 Z D; c1: A1 A2,5 A3; c2: A4,5 A5 A6,5", "c0: N1 A1 X1 X2 J1 J2 Z D; k1: A7,3 A8 A9,3; c1: A2,3 A3,1; c2: A4,1 A5,3",
  "c0: N1 A1 X1 A2 A3,31 A4,33 A5,32 Z D; k1: H; c1: S6", "c0: N1 A1 A2 @3,5,0 @4,d,0 @5,-5,0 Z D; k1: H",
  "c0: N2 A1 A2 A3,1 A4,2 A5,1 A6,2 A7 A8 Z D; k1: H; k2: H", "c0: N0 A1,3 A2,3 A3,3 A4,4 A5,2 R1 Z D", "c0: N0 A1,3 A2,3 A3,3 A4,4 A5,2 R2 Z D",
  "c0: N1 O1 A1 A2,-5 A3,5 A4 D; k1: H", "c0: N1 A1 A2 X1 A3,32 A4,e32 J1 Z D; k1: H; c1: S5,e32",
  "c0: N1 A1 A2,64 A3,e64 A4,63 A5,65 Z D; k1: H; k4: A6,64 A7,-64",
 ],
 "C03": [
  "c0: N2 A1 A2 A3 R1 Z qw D; k1: H; k2: H", "c0: N2 A1 A2 R0 A3 A4 Z qw R1 Z qw D", "c0: N0 A1 R1 Z R0 Z A2 R2 Z D",
  "c0: N3 R1 R3 A1 A2 A3 Z D; k1: H; k2: H; k3: H", "c0: N1 A1 A2 Z qw D; k1: R0 A3; k3: R2", "c0: N2 A1 A2 A3 A4 Z D; k1: R1; k2: R2; k3: R1",
  "c0: N2 X1 X2 J1 J2 C D; c1: R1 R2; c2: A1 A2 A3", "c0: N2 X1 X2 R1 J1 J2 Z R2 Z D; c1: A1 A2; c2: R3 R1", "c0: N3 A1 A2 A3 A4 A5 Z R1 Z D; k1: H; k2: H; k3: H",
  "c0: N2 A1 A2 A3 Z R0 Z qw R3 Z qw D; k1: H; k2: H; k3: H", "c0: N1 R0 Z qw A1 Z R1 C qw D", "c0: N2 A1 R0 R2 A2 A3 Z D; k1: H; k2: H; k3: H",
  "c0: N1 A1 R2 A2 A3 Z D; k1: H; k2: H; k3: H", "c0: N4 R2 R4 R1 Z qw qt D", "c0: N2 A1 A2 A3 A4 Z D; k1: R0 H R1",
  "c0: N1 A1 A2 A3 Z D; k1: R3 H; k2: H; k3: H", "c0: N2 O1 A1 A2 A3 R1 D; k1: H", "c0: N3 A1 A2 X1 J1 Z D; c1: R0 R1 R0 R2; k1: A3 A4",
 ],
 "C04": [
  "c0: N1 A1 D", "c0: N2 A1 A2 A3 D; k1: H", "c0: N1 O1 A1 A2 A3 D", "c0: N2 O1 A1 A2 A3 A4 D; k1: H; k2: A5 A6", "c0: N1 O1 A1 R0 A2 A3 D; k1: H",
  "c0: N2 O1 A1 A2 R1 A3 A4 D; k1: H; k2: H", "c0: N2 O1 A1 A2 R0 A3 D", "c0: N3 O1 R1 A1 A2 A3 D", "c0: N2 @1,d,1000 D", "c0: N2 O1 @1,d,1000 A2 D",
  "c0: N2 O1 @1,d,0 A2 A3 D", "c0: N1 @1,d,5 @2,d,10 V7 D", "c0: N1 @1,d,0 Z @2,d,0 D", "c0: N0 A1 D", "c0: N0 O1 A1 D", "c0: N2 O1 A1 O0 A2 A3 D; k1: H",
  "c0: N1 A1 D; k1: O1 A2 A3", "c0: N1 O1 A1 D; k1: H A2 R3 @3,d,0 A4; k2: A5", "c0: N2 O1 A1 A2 D; k1: H @3,d,1000; k2: R0 A4", "c0: N1 O1 A1 A2 D; k1: R0; k2: R1 A3",
  "c0: N2 D", "c0: N1 R0 D", "c0: N2 R0 Z D", "c0: N1 A1 R2 D; k1: H", "c0: N1 A1 D; k1: O0 A2 H O1", "c0: N2 O1 A1 A2 D; k1: O0; k2: A3", "c0: N1 O1 A1 A2 A3 D; k1: H; k2: S4",
  "c0: N3 O1 A1 A2 A3 A4 R2 A5 R1 D; k1: H; k2: H; k3: H",
 ],
 "C05": [
  "c0: N1 S1 D", "c0: N2 X1 X2 S1 J1 J2 D; c1: S2; c2: A3 S4", "c0: N2 A1 A2 W D; k1: H", "c0: N2 A1 A2 C D; k1: H", "c0: N1 A1 A2 X1 X2 J1 J2 D; c1: W; c2: C",
  "c0: N2 A1 R0 C R1 D; k1: H", "c0: N1 A1 R0 X1 C J1 D; c1: C; k1: H", "c0: N2 A1 A2 R1 C D; k1: H; k2: H", "c0: N3 A1 A2 A3 X1 R1 C J1 R0 Z D; k1: H; c1: C",
  "c0: N2 X1 X2 X3 J1 J2 J3 Z D; c1: A1 C; c2: A2 W; c3: A3 C A4 W", "c0: N1 A1 W A2 W C D; k1: A3; k3: A4", "c0: N2 W C D", "c0: N0 W C A1 X1 R1 J1 D; c1: W C",
  "c0: N1 A1 A2 X1 J1 Z D; k1: H A3; c1: W C; k3: H", "c0: N2 A1 A2 A3 C W D; k1: R1; k2: R0; k3: R1", "c0: N2 A1 A2 X1 C J1 D; c1: R0 R1; k1: H", "c0: N2 A1 A2 X1 X2 J1 J2 D; k1: S3; c1: C; c2: S4",
  "c0: N2 @1,d,5 C W V5 C D", "c0: N2 X1 A1 R0 Z R1 J1 D; k1: H; c1: S2", "c0: N1 A1 A2 A3 W C D; k1: H; k2: H; k3: H", "c0: N2 A1 R1 C A2 R0 C R1 C D; k1: H; k2: H", "c0: N2 A1 A2 X1 R0 C J1 D; c1: C; k1: H; k2: H",
  "c0: N2 A1 X1 X2 J1 J2 D; c1: C A2 C; c2: R1 R0 R1; k1: H",
 ],
 "C06": [
  "c0: N1 @1,d,5 Z V4 Z V1 Z D", "c0: N1 @1,d,5 @2,d,3 @3,d,5 Z V3 Z V5 Z D", "c0: N2 X1 X2 J1 J2 Z V5 Z V6 Z D; c1: @1,d,5 @2,d,5 qs; c2: @3,d,5 +4,d,4",
  "c0: N1 @1,d,0 Z @2,d,0 Z @3,d,0 Z D", "c0: N2 X1 X2 J1 J2 V1 Z D; c1: @1,d,0 @2,d,0; c2: @3,d,0 @4,d,0", "c0: N1 @1,d,10 @2,d,5 V5 @3,d,7 V2 Z V3 Z D",
  "c0: N1 +1,d,5 V5 Z +2,d,5 V5 Z D", "c0: N1 @1,-5,5 @2,5,5 @3,d,5 V5 Z D; k2: H", "c0: N1 A9 @1,1,1 @2,2,2 @3,3,3 V3 Z D; k9: H", "c0: N1 @1,d,5 V5 Z D; k1: @2,d,0 +3,d,2 H", 
  "c0: N1 @1,d,5 V5 Z V5 Z D; k1: @2,d,3 @3,d,10", "c0: N2 X1 X2 B5 B10 J1 J2 Z D; c1: @1,d,5 B6 @2,d,6; c2: +3,d,5 +4,d,6 B12", "c0: N1 V10 @1,d,5 @2,d,3 Z D", "c0: N1 @1,d,20 @2,d,10 @3,d,5 V20 Z D",
  "c0: N1 @1,d,5 @2,d,10 Z V20 Z @3,d,15 Z D", "c0: N2 X1 @1,d,2 V2 @2,d,4 V2 @3,d,6 V2 J1 Z D; c1: @4,d,3 @5,d,1", "c0: N0 @1,d,0 Z qs qp R1 Z D", "c0: N2 @1,e64,5 @2,e-64,5 +3,e127,5 +4,-128,5 V5 Z D", "c0: N1 @1,d,1 X1 V1 J1 Z D; c1: @2,d,1 @3,d,1",
  "c0: N2 X1 X2 X3 J1 J2 J3 V9 Z D; c1: @1,d,3; c2: @2,d,2; c3: @3,d,1", "c0: N1 +1,d,0 +2,d,1 +3,d,0 V1 Z D", "c0: N1 +1,d,-5 @2,d,-5 Z D",
  "c0: N1 @1,d,10 Z @2,d,5 Z V5 Z V5 Z D", "c0: N1 @1,d,10 Z @2,d,5 Z @3,d,5 @4,d,3 Z V3 Z V2 Z V5 Z D", "c0: N1 @1,d,10 Z V3 +2,d,2 Z V2 Z @3,d,20 @4,d,8 Z V3 Z V2 Z V10 Z D", "c0: N2 @1,d,9 Z X1 X2 J1 J2 Z V2 Z V2 Z V5 Z D; c1: @2,d,4; c2: @3,d,2",
  "c0: N1 @1,d,5 Z V5 Z @2,d,9 Z @3,d,7 Z V2 Z V2 Z D",
 ],
 "C07": [
  "c0: N2 qw qt qa qi qn qx qp qs qo D", "c0: N2 A1 A2 A3 qw qa qi qn qx qp Z D; k1: H; k2: H", "c0: N2 X1 X2 J1 J2 Z D; c1: A1 A2; c2: qi qn qa qp", "c0: N2 X1 R1 R0 R2 J1 Z D; c1: qi qw qi qt qi",
  "c0: N1 X1 A1 A2 J1 Z D; c1: qn qn qn qn", "c0: N2 A1 A2 X1 R0 J1 Z qw qi D; c1: qi qi qi; k1: qn qi; k2: qa", "c0: N1 @1,d,0 @2,d,5 X1 V5 J1 Z qs qn D; c1: qs qp qs qn", "c0: N2 O1 qo O0 qo O1 qo D",
  "c0: N3 A1 A2 X1 R1 J1 Z qi qw D; c1: qi qa qw; k1: H", "c0: N2 X1 X2 J1 J2 Z qn D; c1: S1 S2; c2: qn qx qi qp", "c0: N0 A1 qn qi qp qw R1 Z qn qi D", "c0: N2 A1 D; k1: qw qt qa qi qn qx qp qs qo", "c0: N2 O1 A1 A2 A3 A4 D; k1: H qn qi; k3: qn qp; k4: qn qi",
  "c0: N1 A1 X1 Z qt qw R2 qt qw J1 D; c1: qt qi; k1: R0 qw qt qi H",
 ],
}

# operation weights of the random generator, per property
W = {
 "C01": dict(A=8, S=2, at=2, af=1, R=1, O=0, C=1, W=1, q=1, nest=2, hold=1, V=1, gate=1),
 "C02": dict(A=10, S=1, at=1, af=0, R=0.4, O=0.2, C=0.5, W=0.5, q=0, nest=2, hold=2, V=0.5, gate=0, pr=1),
 "C03": dict(A=6, S=0.5, at=0.5, af=0, R=5, O=0, C=1, W=0.3, q=1, nest=2, hold=2, V=0, gate=0),
 "C04": dict(A=6, S=0.2, at=1.5, af=0.5, R=2, O=2, C=0, W=0, q=0.2, nest=2, hold=2, V=1, gate=0, d=1),
 "C05": dict(A=5, S=3, at=0.5, af=0, R=2, O=0, C=3, W=3, q=0, nest=1.5, hold=1.5, V=0, gate=0),
 "C06": dict(A=1, S=0.3, at=7, af=3, R=0.3, O=0.2, C=0.3, W=0, q=1, nest=1.5, hold=1, V=3, gate=0),
 "C07": dict(A=4, S=1, at=1, af=0.5, R=2, O=0.5, C=0.3, W=0.3, q=8, nest=1.5, hold=1.5, V=0.7, gate=0),
}
PRIOS = ["d", "d", "d", "0", "1", "-1", "5", "32", "31", "33", "-128", "127", "e64", "e32", "e0", "e-32", "e-64", "e127", "e-128", "64", "-64"]


def generate(rnd, prop):
    w = W[prop]
    ids = iter(range(1, 100))
    budget = [rnd.choice([3, 5, 7, 9])]
    tasks = {}

    def prio():
        if w.get("pr") or rnd.random() < 0.3: return rnd.choice(PRIOS)
        return "d"

    def new_task(depth):
        i = next(ids); budget[0] -= 1
        body = []
        if rnd.random() < 0.12 * w["hold"]: body.append("H")
        if depth < 2 and rnd.random() < 0.2 * w["nest"]:
            for _ in range(rnd.choice([1, 1, 2, 3])): body += op(depth + 1)
        if rnd.random() < 0.04 * w["hold"]: body.append("H")
        if body: tasks[i] = body
        return i

    def op(depth):
        kinds = ["A", "S", "at", "af", "R", "O", "C", "W", "q", "V"]
        ww = [w[k] for k in kinds]
        if depth: ww[1] *= 0.3; ww[6] *= 0.1; ww[7] *= 0.3; ww[9] = 0
        k = rnd.choices(kinds, ww)[0]
        if k in ("A", "S", "at", "af") and budget[0] <= 0: k = "q" if w["q"] else "R"
        if k == "A": return ["A%d,%s" % (new_task(depth), prio())]
        if k == "S": return ["S%d,%s" % (new_task(depth), prio())]
        if k == "at": return ["@%d,%s,%d" % (new_task(depth), prio(), rnd.choice([0, 0, 1, 2, 3, 5, 5, 7, 10]))]
        if k == "af": return ["+%d,%s,%d" % (new_task(depth), prio(), rnd.choice([0, 1, 2, 3, 5]))]
        if k == "R": return ["R%d" % rnd.choice([0, 1, 1, 2, 2, 3, 4])]
        if k == "O": return ["O%d" % rnd.choice([0, 1, 1])]
        if k == "q": return ["q" + rnd.choice("wtainxpso" if w["q"] > 2 else "winps")]
        if k == "V": return ["V%d" % rnd.choice([1, 2, 3, 5])]
        return [k]
    nclients = rnd.choice([0, 1, 1, 2, 2, 3])
    workers = rnd.choice([0, 1, 1, 1, 2, 2, 2, 3, 4] if prop in ("C03", "C04", "C07") else [1, 1, 1, 2, 2, 2, 3])
    main = ["N%d" % workers]
    if w.get("d") and rnd.random() < 0.7: main.append("O1")
    clients = {}
    for c in range(1, nclients + 1):
        clients[c] = sum([op(0) for _ in range(rnd.choice([1, 2, 3, 4]))], [])
    mid = sum([op(0) for _ in range(rnd.choice([0, 1, 2, 3, 5]))], [])
    cut = rnd.randint(0, len(mid))
    main += mid[:cut] + ["X%d" % c for c in clients] + mid[cut:] + ["J%d" % c for c in clients]
    r = rnd.random()
    if prop == "C04":
        if r < 0.15: main.append("Z")
    elif prop == "C06":
        main += ["V5", "Z", "V20", "Z"] if r < 0.6 else ["V30", "Z"]
    else:
        if r < 0.75: main.append("Z")
    if prop == "C03" or rnd.random() < 0.15: main.append("R%d" % rnd.choice([1, 2])); main.append("Z"); main += ["qw", "qt"]
    main.append("D")
    text = "c0: " + " ".join(main)
    for c, p in clients.items(): text += "; c%d: %s" % (c, " ".join(p))
    for i, b in sorted(tasks.items()): text += "; k%d: %s" % (i, " ".join(b))
    return text


def scenarios(prop):
    rnd = random.Random("%s-%d" % (prop, SEED))
    sc = [("%s.h%d" % (prop, i), t) for i, t in enumerate(HAND[prop])]
    if THOROUGH:
        for p in HAND:
            if p != prop: sc += [("%s.h%d" % (p, i), t) for i, t in enumerate(HAND[p])]
    for i in range(60 if not THOROUGH else 1200): sc.append(("%s.r%d" % (prop, i), generate(rnd, prop)))
    return sc


def big(rnd, prop):
    """A few long scenarios: many tasks, many workers, many resizes."""
    out = []
    for k in range(5 if not THOROUGH else 40):
        n, ids = (1, 1, 2, 1, 10)[k % 5], iter(range(1, 1000))
        A = lambda m, pr=0.3: ["A%d,%s" % (next(ids), rnd.choice(PRIOS) if rnd.random() < pr else "d") for _ in range(m)]
        def mixed(m, top=False):
            o = []
            for j in range(m):
                r = rnd.random()
                if top and prop == "C03" and j % 5 == 4: o.append("Z")
                if prop == "C03" and r < 0.2: o.append("R%d" % rnd.choice([0, 1, 2, 5, 9, 14] if top else [0, 1, 2]))
                elif prop == "C05" and r < 0.15: o += ["S%d,d" % next(ids)]
                elif prop == "C06" and r < 0.7: o.append("%s%d,%s,%d" % (rnd.choice("@@+"), next(ids), rnd.choice(PRIOS + ["d"] * 20), rnd.choice([0, 1, 5, 5, 5, 6, 7, 20, 30])))
                elif prop == "C07" and r < 0.4: o.append("q" + rnd.choice("wtainxpso"))
                elif prop == "C04" and r < 0.05: o.append("R%d" % rnd.choice([1, 1, 2]))
                else: o += A(1, 0.7 if prop == "C02" else 0.2)
            return o
        end = {"C04": ["O1"] if rnd.random() < 0.7 else [], "C06": ["V5", "Z", "V1", "Z", "V1", "Z", "V20", "Z", "V20", "Z"], "C03": ["Z", "R3", "Z", "qw", "qt"], "C07": ["q" + c for c in "wtainxpso"] + ["Z"], "C05": ["W", "C", "Z"]}.get(prop, ["Z"])
        wide = n > 2
        first = A(12 if wide else 1)
        hold = "; ".join(a.split(",")[0].replace("A", "k") + ": H" for a in first)
        cl = {c: mixed(rnd.choice([1, 4] if n == 1 else [2])) for c in range(1, rnd.choice([2, 3]))}
        body = mixed(4 if wide else rnd.choice([20, 45, 70] if prop != "C06" else [15, 30]) if n == 1 else 12, True)
        out.append("c0: " + " ".join(["N%d" % n] + first + ["X%d" % c for c in cl] + body + ["J%d" % c for c in cl] + end + ["D"]) + "".join("; c%d: %s" % (c, " ".join(o)) for c, o in cl.items()) + "; " + hold)
    return out


def setup():
    sched.build("pool", "pool.cpp")


# ThreadPool.tla on its own, every behaviour within small bounds: operations, sizes, priorities, time, calls, what must follow
MC = {
 "C01": ("async sync at resize", "0,1,2", "0", 1, 4, "Progress", "Runs"), "C02": ("async at", "1,2", "0,1", 1, 4, "", "TakesBest"), "C03": ("async resize workers", "0,1,2", "0", 0, 5, "Progress", "Workers"),
 "C04": ("async at setstop destroy", "0,1", "0", 1, 5, "Progress", "Ended Returns"), "C05": ("async waitidle waitall sync", "0,1", "0", 0, 5, "Honest Progress", ""),
 "C06": ("at after async", "1", "0", 2, 4, "Progress", "OnTime"), "C07": ("async at tasks wtasks workers resize", "0,1,2", "0", 1, 4, "Honest", ""),
}


def spec_check(prop, w, v):
    ops, sizes, prs, time, calls, inv, props = MC[prop]
    r = model_check(w, "ThreadPoolMC", "CONSTANTS\nStrict <- AllClauses\nThreads = {c1, c2}\nMaxCalls = %d\nOps = {%s}\nSizes = {%s}\nPrs = {%s}\nMaxTime = %d\nSPECIFICATION MCSpec\nINVARIANTS Invariants Conserved %s\n%s\nCHECK_DEADLOCK FALSE\n"
                    % (calls + (1 if THOROUGH and prop in ("C03", "C05", "C07") else 0), ",".join('"%s"' % o for o in ops.split()), sizes, prs, time, inv, "PROPERTIES " + props if props else ""), "spec", timeout=4000 if THOROUGH else 400)
    log("ThreadPool.tla itself: %d states, %s" % (r.states, inv + " " + props))
    v.add(states=r.states, transitions=r.transitions, spec_states=r.states)


def check(prop):
    v = Verdict(prop)
    v.assumptions = ["sequentially consistent memory (data races are reported separately by vector clocks)", "tasks do not throw",
                     "pthread, futex and clock are replaced by the controlled scheduler's models"]
    binary = sched.build("pool", "pool.cpp")
    with Work() as w:
        spec_check(prop, w, v)
        sc = scenarios(prop)
        text = dict(sc)
        log("%d scenarios" % len(sc))
        traces, st = sched.explore(w, binary, sc, secs=12 if not THOROUGH else 300, runs=100000, maxper=60 if not THOROUGH else 150,
                                   maxout=6000 if not THOROUGH else 80000, delay2=1)
        bg = [("%s.b%d" % (prop, i), t) for i, t in enumerate(big(random.Random("big-%s-%d" % (prop, SEED)), prop))]
        text.update(bg)
        tb, sb = sched.explore(w, binary, bg, secs=2 if not THOROUGH else 40, runs=100000, maxper=5 if not THOROUGH else 20, maxout=1000, tag="big")
        for k in st: st[k] += sb[k]
        sc = sc + bg
        log("explored", st)
        if st["bad"]: raise CheckError("harness could not finish %d executions" % st["bad"])
        rej, s, t = validate(w, "TracePool", cfg(ALL), traces)
        log("validated %d traces, %d states, %d rejected" % (len(traces), s, len(rej)))
        v.add(states=s, transitions=t, traces_validated_against_impl=len(traces), executions=st["executions"], scheduling_points=st["sync_points"], scenarios=len(sc))
        v.add(samples=[json.loads(x) for x in traces[:1]])
        sched.one_by_one(v, w, "TracePool", cfg, ALL, CLAUSE[prop], tb, text, "p")
        if rej:
            if os.environ.get("DUMP"): sched.dump(rej, traces)
            # which clauses do they break?  Only this property's clauses count here.
            per, pick = {}, []
            for i, l, n in rej:
                k = json.loads(traces[i])["sc"]
                per[k] = per.get(k, 0) + 1
                if per[k] <= 12 and len(pick) < 400: pick.append(i)
            sub = [traces[i] for i in pick]
            where = {i: (l, n) for i, l, n in rej}
            rej2, s, t = sched.attribute(w, "TracePool", cfg, ALL, CLAUSE[prop], sub, "r")
            rej2 = [(i, *(where[pick[i]] if l < 0 else (l, n))) for i, l, n in rej2]
            v.add(states=s, transitions=t)
            log("%d of %d examined rejections concern %s" % (len(rej2), len(sub), prop))
            for i, l, n in sorted(rej2, key=lambda x: len(sub[x[0]])):
                tr = json.loads(sub[i])
                v.violation("%s@%s" % (tr["sc"], sched.show(tr["ev"][l]) if l < n else "end"), "scenario %s: %s" % (text[tr["sc"]], sched.story(tr, l)),
                            {"scenario": text[tr["sc"]], "plan": tr["plan"], "failing_event": l, "events": tr["ev"]})
    return v.finish()


def replay(prop, d):
    r = d["replay"]
    binary = sched.build("pool", "pool.cpp")
    with Work() as w:
        open(w.path("sc"), "w").write("replay\t%s\n" % r["scenario"])
        rc, o, e = run([binary, w.path("sc"), w.path("out"), "plan=" + r["plan"]])
        traces = open(w.path("out")).read().splitlines()
        rej, s, t = validate(w, "TracePool", cfg(ALL), traces)
        rej2, s, t = sched.attribute(w, "TracePool", cfg, ALL, CLAUSE[prop], traces, "r") if rej else ([], 0, 0)
        rej = rej if rej2 else []
        for i, l, n in rej: print(sched.story(json.loads(traces[i]), l))
        print("VIOLATION property=%s replay=%s" % (prop, "given") if rej else "not reproduced")
        return 1 if rej else 0
