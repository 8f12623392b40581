"""Driving a harness built on the controlled scheduler and validating what it recorded."""
import json, os
from common import *

TSAN = "-std=c++20 -O1 -g -fsanitize=thread"


def build(name, src, extra=""):
    objs = compile_objs([("vsched", "vsched.cpp", "-std=c++20 -O2 -g", False), (name, src, TSAN + (" " + extra if extra else ""), True)])
    return link(name, [objs[1], objs[0]], "-rdynamic -ldl -lpthread")


def explore(work, binary, scenarios, secs, runs, maxper, maxout, delay2=0, tag="x", env=None, args=()):
    """scenarios: list of (name, text).  Returns traces (JSON lines) and statistics."""
    sc = work.path(tag + ".sc")
    with open(sc, "w") as f:
        for n, t in scenarios: f.write("%s\t%s\n" % (n, t))

    def one(k):
        out = work.path("%s.%d.out" % (tag, k))
        cmd = [binary, sc, out, "seed=%d" % SEED, "worker=%d" % k, "workers=%d" % NPROC, "runs=%d" % runs, "secs=%g" % secs,
               "delay=1", "delay2=%d" % delay2, "maxper=%d" % maxper, "maxout=%d" % max(1, maxout // NPROC), "cpu=%d" % k] + list(args)
        rc, o, e = run(cmd, timeout=secs * 3 + 120, env=env)
        if rc: raise CheckError("harness failed (%d): %s %s" % (rc, o[-500:], e[-1500:]))
        return out, json.loads(o.strip().splitlines()[-1])
    res = pmap(one, range(NPROC))
    traces, st = [], {"executions": 0, "distinct": 0, "sync_points": 0, "bad": 0}
    for out, s in res:
        traces += open(out).read().splitlines()
        os.unlink(out)
        for k in st: st[k] += s[k]
    return traces, st


def attribute(w, module, cfg, every, own, traces, tag, timeout=None):
    """Which of these traces, rejected with all clauses, break this property's own?  Those rejected with nothing but them,
    and those accepted once they are the only ones not enforced.  Returns [(index, matched or -1, length)] and counts."""
    rej, s, t = validate(w, module, cfg(own), traces, tag=tag, timeout=timeout)
    other = sorted(set(range(len(traces))) - {i for i, l, n in rej})
    if own and other:
        r2, s2, t2 = validate(w, module, cfg([c for c in every if c not in own]), [traces[i] for i in other], tag=tag + "o", timeout=timeout)
        bad = {i for i, l, n in r2}
        rej += [(i, -1, -1) for k, i in enumerate(other) if k not in bad]
        s, t = s + s2, t + t2
    return rej, s, t


def one_by_one(v, w, module, cfg, every, own, traces, text, tag):
    """Long executions, each validated on its own; with too many explanations one is left undecided."""
    def alone(k):
        try:
            r, s, t = validate(w, module, cfg(every), [traces[k]], tag="%sb%d" % (tag, k), timeout=30, nproc=1)
            if r:
                r2, s2, t2 = attribute(w, module, cfg, every, own, [traces[k]], "%sc%d" % (tag, k), timeout=40)
                r, s, t = r if r2 else [], s + s2, t + t2
            return r, s, t, 0
        except CheckError: return [], 0, 0, 1
    undecided = 0
    traces = sorted(traces, key=len)
    for k, (r, s, t, u) in enumerate(pmap(alone, range(len(traces)))):
        undecided += u
        v.add(states=s, transitions=t, traces_validated_against_impl=1 - u)
        tr = json.loads(traces[k])
        for i, l, n in r: v.violation("%s@%d" % (tr["sc"], l), "scenario %s: %s" % (text[tr["sc"]], story(tr, l)), {"scenario": text[tr["sc"]], "plan": tr["plan"], "failing_event": l, "events": tr["ev"]})
    log("%d long executions, %d undecided" % (len(traces), undecided))


def show(e):
    k = e["e"]
    if k == "call": return "%s:%s(%s)" % (e["th"], e["op"], ",".join(str(v) for a, v in e.items() if a not in ("e", "th", "op")))
    if k == "ret": return "%s:ret %s" % (e["th"], e.get("v"))
    return " ".join(str(v) for v in e.values())


def story(tr, l):
    ev = tr["ev"]
    return "; ".join(show(e) for e in ev[max(0, l - 60):l]) + " ==> not allowed: " + (show(ev[l]) if l < len(ev) else "(end)")


def dump(rej, traces, limit=10):
    """Development aid: rejected traces grouped by scenario and failing event."""
    cat = {}
    for i, l, n in rej:
        t = json.loads(traces[i]); k = (t["sc"], show(t["ev"][l]) if l < n else "end")
        cat.setdefault(k, []).append((l, i))
    for k, v in sorted(cat.items())[:limit]:
        l, i = min(v); t = json.loads(traces[i]); print(k, len(v)); print("    ", story(t, l)); print("    plan", t["plan"])
