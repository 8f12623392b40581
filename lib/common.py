"""Shared machinery of the checks: building harnesses, running TLC, evidence, verdicts."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PLUTO_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
NPROC = min(8, os.cpu_count() or 1)
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
DUMP = bool(os.environ.get("DUMP"))
T0 = time.time()


class CheckError(Exception):
    """The check could not give an answer."""


class CompileError(CheckError):
    """The library itself compiles, but uses of it that used to compile do not any more."""


UPGRADED = []       # (source, standard, errors): harnesses that needed a later language standard than wanted


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def file_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, dn, fn in sorted(os.walk(p)):
                dn.sort()
                for f in sorted(fn):
                    h.update(f.encode()); h.update(open(os.path.join(d, f), "rb").read())
        else:
            h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def run(cmd, timeout=600, env=None, cwd=None, input=None):
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, timeout=timeout,
                       input=input, text=True, errors="replace")
    return p.returncode, p.stdout, p.stderr


def pmap(f, items, n=None):
    items = list(items)
    if not items: return []
    with ThreadPoolExecutor(n or NPROC) as ex:
        return list(ex.map(f, items))


# ---------------------------------------------------------------- building
def compile_objs(units):
    """units: list of (name, source, flags, uses_repo).  Returns object paths, cached by content."""
    os.makedirs(BUILD, exist_ok=True)
    repo_hash = file_hash(os.path.join(REPO, "include"))
    hdr_hash = sha(*[file_hash(os.path.join(HARNESS, f)) for f in sorted(os.listdir(HARNESS)) if f.endswith((".h", ".hpp", ".inc"))])

    def one(u):
        name, src, flags, uses_repo = u
        src = os.path.join(HARNESS, src)
        key = sha(file_hash(src), hdr_hash, flags, repo_hash if uses_repo else "", "v1")
        out = os.path.join(BUILD, "%s-%s.o" % (name, key))
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            cxx = "clang++" if "@clang" in flags.split() else "g++"
            fl = [x for x in flags.split() if x != "@clang"]
            inc = ["-I" + HARNESS, "-I" + os.path.join(REPO, "include")]
            cmd = [cxx, "-c"] + fl + inc + [src, "-o", tmp]
            rc, o, e = run(cmd, timeout=600)
            std = next((x for x in ("-std=c++14", "-std=c++17") if x in fl), None)
            if rc and std:      # the project is built as C++20; older standards are extra
                log("%s does not compile with %s, using C++20 instead" % (name, std))
                open(out + ".older", "w").write(json.dumps([name, std, e]))
                cmd = ["-std=c++20" if x == std else x for x in cmd]
                rc, o, e = run(cmd, timeout=600)
            if rc:
                msg = "cannot compile %s: %s\n%s" % (src, " ".join(cmd), e[-4000:])
                tiny = tmp + ".cpp"
                open(tiny, "w").write("#include <pluto.hpp>\nint main() {}\n")
                ok = run([cxx, "-c", "-std=c++20"] + inc + [tiny, "-o", tmp])[0] == 0
                for f in (tiny, tmp):
                    if os.path.exists(f): os.unlink(f)
                raise (CompileError if ok and uses_repo else CheckError)(msg)
            os.replace(tmp, out)
        if os.path.exists(out + ".older"): UPGRADED.append(tuple(json.load(open(out + ".older"))))
        return out
    return pmap(one, units)


def link(name, objs, flags=""):
    key = sha(flags, *objs)
    out = os.path.join(BUILD, "%s-%s" % (name, key))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        fl = [x for x in flags.split() if x != "@clang"]
        rc, o, e = run(["clang++" if "@clang" in flags.split() else "g++"] + objs + fl + ["-o", tmp])
        if rc: raise CheckError("cannot link %s\n%s" % (name, e[-4000:]))
        os.replace(tmp, out)
    return out


# ---------------------------------------------------------------- TLC
class Work:
    """A scratch directory, removed at the end."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="plutocheck.")
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def path(self, n):
        return os.path.join(self.d, n)


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.transitions, self.states = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)


def tlc(work, module, cfg, tag, env=None, workers=1, heap="2500m", timeout=800, extra=()):
    d = work.path("tlc-" + tag)
    os.makedirs(d, exist_ok=True)
    cfgp = os.path.join(d, "m.cfg")
    open(cfgp, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + d, "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", cfgp] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        rc, o, e = run(cmd, timeout=timeout, env=env, cwd=d)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on " + tag)
    return TlcResult(rc, o + e)


def model_check(work, module, cfg, tag, workers=NPROC, timeout=800, extra=(), heap="6g"):
    r = tlc(work, module, cfg, "mc-" + tag, workers=workers, timeout=timeout, extra=extra, heap=heap)
    if r.rc != 0 or "No error has been found" not in r.out:
        raise CheckError("the specification itself fails in %s:\n%s" % (tag, r.out[-3500:]))
    return r


def validate(work, module, cfg, traces, tag="t", heap="2500m", timeout=None, nproc=None):
    """traces: list of JSON strings.  Returns (rejected [(index, matched, length)], states, transitions)."""
    if not traces: return [], 0, 0
    timeout = timeout or (5000 if THOROUGH else 800)
    n = min(nproc or NPROC, len(traces))
    order = sorted(range(len(traces)), key=lambda i: -len(traces[i]))
    parts = [order[k::n] for k in range(n)]

    def one(k):
        f = work.path("%s-%d.ndjson" % (tag, k))
        with open(f, "w") as fh:
            for i in parts[k]: fh.write(traces[i].rstrip("\n") + "\n")
        r = tlc(work, module, cfg, "%s-%d" % (tag, k), env={"TRACES": f}, heap=heap, timeout=timeout)
        rej = [tuple(map(int, m)) for m in re.findall(r'"REJECTED", (\d+), (-?\d+), (\d+)', r.out)]
        if "Model checking completed" not in r.out and "Finished in" not in r.out or re.search(r"^Error: (?!.*[Pp]ostcondition)", r.out, re.M):
            raise CheckError("TLC failed on traces (%s-%d):\n%s" % (tag, k, r.out[-3000:]))
        os.unlink(f)
        return [(parts[k][i - 1], l, ln) for i, l, ln in rej], r.states, r.transitions
    res = pmap(one, range(n), n)
    return [x for r in res for x in r[0]], sum(r[1] for r in res), sum(r[2] for r in res)


# ---------------------------------------------------------------- verdicts
def known_findings(prop):
    """Committed list; lines '<kind>: property=<id> key=<key> <text>'."""
    out = {}
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == prop: out[m.group(2)] = m.group(3).strip()
    return out


class Verdict:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []    # (key, text, replay object)

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool): self.cov[k] = self.cov.get(k, 0) + v
            elif isinstance(v, list): self.cov.setdefault(k, []).extend(v)
            else: self.cov[k] = v

    def violation(self, key, text, replay):
        self.violations.append((key, text, replay))

    def finish(self):
        known = known_findings(self.prop)
        new, shown = [], set()
        for key, text, replay in self.violations:
            if key in known:
                if key not in shown:
                    shown.add(key); print("KNOWN-FINDING: property=%s %s" % (self.prop, known[key]))
            else: new.append((key, text, replay))
        self.cov["samples"] = self.cov["samples"][:3]
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": self.level, "coverage": self.cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(new)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if not new:
            log("%s: held on everything explored (%d states, %d traces)" % (self.prop, self.cov["states"], self.cov["traces_validated_against_impl"]))
            return 0
        rd = os.path.join(ROOT, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for key, text, replay in new:
            if key in seen or len(seen) >= 5: continue
            seen.add(key)
            p = os.path.join(rd, "%s-%s.json" % (self.prop, sha(key, json.dumps(replay))[:10]))
            with open(p, "w") as f: json.dump({"property": self.prop, "what": text, "replay": replay}, f, indent=1)
            print(text)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        return 1
