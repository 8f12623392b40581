"""Runner for the properties of the sequential library: programs are interpreted with the real code (one binary per
language standard, sanitizers on), and TLC validates every recorded result against the specification."""
import random
from common import *
import lru

CFG = "SPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
SAN = "-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS"


def build(source, variants, libs=""):
    """variants: {name: flags}; returns {name: binary}"""
    names = list(variants)
    objs = compile_objs([(source[:-4] + "-" + n, source, variants[n] + " " + SAN, True) for n in names])
    return {n: link(source[:-4] + "-" + n, [o], "-fsanitize=address,undefined" + libs) for n, o in zip(names, objs)}


def short(e):
    return ", ".join("%s=%s" % (k, json.dumps(x)) for k, x in e.items())[:700]


def decide(prop, v, w, binaries, programs, module, describe=short, cfg=CFG):
    """programs: {variant: [text]}; runs, validates, and adds violations to v."""
    traces, text = [], {}
    for var, progs in programs.items():
        lines = [("%s.%s.%d" % (prop, var, i), p) for i, p in enumerate(progs)]
        text.update(lines)
        traces += lru.run_lines(w, binaries[var], lines, "l" + var)
    if len(traces) < len(text): log("%d of %d programs ran" % (len(traces), len(text)))
    log("%d programs" % len(traces))
    rej, s, t = validate(w, module, cfg, traces)
    log("validated, %d states, %d rejected" % (s, len(rej)))
    small = min(traces, key=len)
    v.add(states=s, transitions=t, traces_validated_against_impl=len(traces), samples=[{"program": text[json.loads(small)["sc"]], "trace": json.loads(small)}])
    for i, l, n in sorted(rej, key=lambda x: len(traces[x[0]])):
        if DUMP: print(traces[i])
        tr = json.loads(traces[i])
        ev = tr["ev"]
        v.violation(tr["sc"], "program %s [%s]: %s ==> not what the specification says: %s" %
                    (text[tr["sc"]][:400], tr["sc"], " ; ".join(describe(e) for e in ev[max(0, l - 4):l])[-900:], describe(ev[l])),
                    {"program": text[tr["sc"]], "variant": tr["sc"].split(".")[1], "failing": l, "events": ev[max(0, l - 50):l + 1]})


def again(prop, d, binaries, module, cfg=CFG):
    r = d["replay"]
    with Work() as w:
        traces = lru.run_lines(w, binaries[r["variant"]], [("replay", r["program"])])
        rej, s, t = validate(w, module, cfg, traces)
        for i, l, n in rej: print("not what the specification says: " + short(json.loads(traces[i])["ev"][l]))
        print("VIOLATION property=%s replay=given" % prop if rej else "not reproduced")
        return 1 if rej else 0
