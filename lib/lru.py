"""C14, C15: the LRU cache.  TLC enumerates every transition of spec/LRU.tla for small constants; each one is replayed
on the real code (and so are long walks over all of them and long random histories); TLC then validates what the real
code returned against the same specification."""
import random
from collections import deque
from common import *

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
LET = {"new": "n", "insert": "i", "assign": "a", "get": "g", "remove": "r", "contains": "c", "size": "s", "empty": "e", "cap": "p", "resize": "P", "clear": "x",
       "copynew": "C", "copy": "A", "movenew": "M", "move": "V", "destroy": "d"}
SAN = "-std=c++%d -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"
COPIES = ("copynew", "copy", "movenew", "move")


def binary():
    fl = SAN % 17
    return link("lru", compile_objs([("lru", "lru.cpp", fl, True)]), "-fsanitize=address,undefined")


def setup(): binary()


def graph(w, objs, keys, vals, cap, tag):
    """All transitions of the specification as node -> [(op text, op name, node)]."""
    c = "CONSTANTS Objs = {%s}\nNKeys = %d\nNVals = %d\nMaxCap = %d\nSPECIFICATION Spec\nINVARIANT TypeOK\nCHECK_DEADLOCK FALSE\n" % (",".join(map(str, objs)), keys, vals, cap)
    r = model_check(w, "LRUGraph", c, tag, workers=1)
    g = {}
    for m in re.finditer(r'<<"EDGE", "(.*)">>', r.out):
        d = json.loads(m.group(1).replace('\\"', '"').replace("\\\\", "\\"))
        a, b = json.dumps(d["from"]), json.dumps(d["to"])
        g.setdefault(a, []).append(("%s%d,%d,%d" % (LET[d["op"]], d["o"], d["k"], d["v"]), d["op"], b))
        g.setdefault(b, g.get(b, []))
    init = next(a for a in g if all(c["cap"] == -1 for o, c in items(a, True)))
    return g, init, r


def items(node, every=False):
    d = json.loads(node)
    d = list(d.items()) if isinstance(d, dict) else [(str(i + 1), v) for i, v in enumerate(d)]
    return [(o, c) for o, c in d if every or c["cap"] >= 0]


def observe(node, keys):
    """Operations that reveal the whole state: shrink one by one, looking at what remains, then read it."""
    out = []
    for o, c in items(node):
        out += ["p%s" % o, "s%s" % o, "e%s" % o] + ["c%s,%d" % (o, k) for k in range(1, keys + 1)]
        n = len(c["ord"])
        for m in range(n - 1, 0, -1): out += ["P%s,%d" % (o, m)] + ["c%s,%d" % (o, k) for k in range(1, keys + 1)] + ["s%s" % o]
        out += ["g%s,%d" % (o, k) for k in range(1, keys + 1)] + ["P%s,3" % o, "i%s,9,9" % o, "g%s,9" % o, "r%s,9" % o, "s%s" % o]
    return out


def readall(node, keys):
    return ["g%s,%d" % (o, k) for o, c in items(node) for k in range(1, keys + 1)]


def paths(g, init):
    prev, q = {init: []}, deque([init])
    while q:
        a = q.popleft()
        for t, op, b in g[a]:
            if b not in prev:
                prev[b] = prev[a] + [t]; q.append(b)
    return prev


def tour(g, init, rnd, length):
    """Walks that together take every transition at least once."""
    todo = {(a, i) for a in g for i in range(len(g[a]))}
    walks = []
    left = {a: list(range(len(g[a]))) for a in g}
    for a in left: rnd.shuffle(left[a])
    while todo:
        cur, ops = init, []
        while len(ops) < length:
            if left[cur]: i = left[cur].pop()
            else:       # nearest node with something left
                seen, q, hit = {cur: []}, deque([cur]), None
                while q and hit is None:
                    x = q.popleft()
                    es = list(enumerate(g[x])); rnd.shuffle(es)
                    for j, (t, op, b) in es:
                        if b in seen: continue
                        seen[b] = seen[x] + [(x, j)]
                        if left[b]: hit = b; break
                        q.append(b)
                if hit is None: break
                for x, j in seen[hit]: ops.append(g[x][j][0]); todo.discard((x, j))
                cur = hit
                continue
            ops.append(g[cur][i][0]); todo.discard((cur, i))
            cur = g[cur][i][2]
        walks.append((ops, cur))
        if not any(left.values()): break
    return walks


def random_history(rnd, copies, n):
    nk = rnd.choice([2, 3, 5, 10, 40] if n < 900 else [80, 300]); ops, live, gone = [], {0}, set()
    caps = rnd.choice([[0, 1, 2], [1, 2, 3], [3, 5, 8], [nk - 1, nk, nk + 1], [16, 32]] if n < 900 else [[64, 65, 128], [nk - 1, nk, nk + 1], [100, 257]])
    ops.append("n0,%d" % rnd.choice(caps))
    if copies: ops.append("n1,%d" % rnd.choice(caps)); live.add(1)
    for _ in range(n):
        o = rnd.choice(sorted(live)); k = rnd.randint(1, nk); v = rnd.randint(1, 99); r = rnd.random()
        if copies and r < 0.12:
            p = rnd.choice(sorted(live)); q = rnd.randint(0, 4)
            if q in live or q in gone:
                if rnd.random() < 0.6: ops.append("A%d,%d" % (q, p)); live.add(q); gone.discard(q)
                elif p != q and len(live) > 1: ops.append("V%d,%d" % (q, p)); live.add(q); gone.discard(q); live.discard(p); gone.add(p)
                elif len(live) > 1 and q in live: ops.append("d%d" % q); live.discard(q)
                elif q in gone: ops.append("d%d" % q); gone.discard(q)
            elif rnd.random() < 0.6: ops.append("C%d,%d" % (q, p)); live.add(q)
            elif len(live) > 1: ops.append("M%d,%d" % (q, p)); live.add(q); live.discard(p); gone.add(p)
            continue
        ops.append(rnd.choice(["i%d,%d,%d" % (o, k, v)] * 6 + ["a%d,%d,%d" % (o, k, v)] * 4 + ["g%d,%d" % (o, k)] * 6 + ["r%d,%d" % (o, k)] * 2 + ["c%d,%d" % (o, k)] * 2 +
                              ["s%d" % o, "e%d" % o, "p%d" % o] + (["P%d,%d" % (o, rnd.choice(caps))] if rnd.random() < 0.4 else []) + (["x%d" % o] if rnd.random() < 0.15 else [])))
    return ops


def tests(w, prop, v):
    rnd = random.Random("%s-%d" % (prop, SEED))
    out, deep = [], THOROUGH
    if prop == "C14": g, init, r = graph(w, [1], 3, 2, 3, "g1"); nk = 3
    else: g, init, r = graph(w, [1, 2], 2, 2, 2 if not deep else 3, "g2"); nk = 2
    edges = sum(map(len, g.values()))
    v.add(states=r.states, transitions=r.transitions, spec_transitions_replayed=edges)
    if prop == "C14":
        m = model_check(w, "LRUMeaning", "CONSTANTS NKeys = 3\nNVals = 1\nMaxCap = 3\nHorizon = %d\nSPECIFICATION Spec\nINVARIANTS TypeOK OrderIsRecency\nPROPERTY Evicts\nCHECK_DEADLOCK FALSE\n" % (6 if deep else 5), "mean")
        v.add(states=m.states, transitions=m.transitions)
    pre = paths(g, init)
    T = "ISOM"
    for a in g:
        for j, (t, op, b) in enumerate(g[a]):
            if prop == "C15" and op not in COPIES and rnd.random() > 0.3: continue
            ops = list(pre[a])
            if rnd.random() < 0.5: ops += ["g%s,%d" % (o, k) for o, c in items(a) for k in [e["k"] for e in reversed(c["ord"])]]    # touch in place
            out.append((T[j % 4], ops + [t] + observe(b, nk)))
    for ty in T:
        for ops, end in tour(g, init, rnd, 400): out.append((ty, ops + observe(end, nk)))
    for i in range(120 if not deep else 1500): out.append((rnd.choice(T), random_history(rnd, prop == "C15", rnd.choice([60, 200, 500]))))
    for i in range(6 if not deep else 60): out.append((rnd.choice(T), random_history(rnd, prop == "C15", 900)))
    return out


def run_lines(w, binary, lines, tag="l"):
    f = w.path(tag + ".in")
    open(f, "w").write("".join("%s\t%s\n" % x for x in lines))
    def one(k):
        o = w.path("%s.%d.out" % (tag, k))
        rc, so, se = run([binary, f, o, str(k), str(NPROC)], timeout=600, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0", "SCRATCH": w.d})
        if rc: raise CheckError("harness failed: %s" % se[-2000:])
        return open(o).read().splitlines()
    return [x for part in pmap(one, range(NPROC)) for x in part]


def show(e):
    if e["e"] != "op": return str(e)
    return "%s(o%s,%s,%s)=%s,%s" % (e["op"], e["o"], e["k"], e["v"], e["r"], e["rv"])


def check(prop):
    v = Verdict(prop)
    v.assumptions = ["key and value types behave as values (copying and comparing them does not throw)"]
    with Work() as w:
        b = binary()
        ts = tests(w, prop, v)
        lines = [("%s.%d" % (prop, i), ty + " ".join(ops)) for i, (ty, ops) in enumerate(ts)]
        text = dict(lines)
        traces = run_lines(w, b, lines)
        if len(traces) < len(lines): log("%d of %d histories ran" % (len(traces), len(lines)))
        log("%d histories" % len(traces))
        rej, s, t = validate(w, "TraceLRU", CFG, traces)
        log("validated, %d states, %d rejected" % (s, len(rej)))
        v.add(states=s, transitions=t, traces_validated_against_impl=len(traces), samples=[json.loads(x) for x in sorted(traces, key=len)[:1]])
        for i, l, n in sorted(rej, key=lambda x: len(traces[x[0]])):
            tr = json.loads(traces[i])
            ev = tr["ev"]
            v.violation(tr["sc"], "history %s: ...%s ==> not what the specification says: %s" % (tr["sc"], "; ".join(show(e) for e in ev[max(0, l - 25):l]), show(ev[l])),
                        {"history": text[tr["sc"]], "failing": l, "events": ev})
    return v.finish()


def replay(prop, d):
    with Work() as w:
        traces = run_lines(w, binary(), [("replay", d["replay"]["history"])])
        rej, s, t = validate(w, "TraceLRU", CFG, traces)
        for i, l, n in rej: print("not what the specification says: " + show(json.loads(traces[i])["ev"][l]))
        print("VIOLATION property=%s replay=given" % prop if rej else "not reproduced")
        return 1 if rej else 0
