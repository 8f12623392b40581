"""C29, C30: default log rows and headers, level and file names; broken-down times and identities."""
from cases import *

VARIANTS = {"c14": "-std=c++14", "c17": "-std=c++17 -D_GLIBCXX_DEBUG", "c20": "-std=c++20", "clang": "-std=c++20 @clang", "hide": "-std=c++20 -DPLUTO_LOGGER_HIDE_SOURCE_INFO=1 -DWITH_WHOLE"}
ZONES = ["UTC0", "XYZ-5:45", "ABC9:30", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "FAR12", "FAR-14", "NST3:30:30", "LHST-10:30LHDT-11,M10.1.0,M4.1.0"]
DAYS = [-1, 0, 1, 58, 59, 60, 364, 365, 366, 789, 10956, 10957, 11016, 11017, 11322, 11323, 19722, 19723, 19782, 19783, 20088, 20089, 20454, 24836, 24837, 24855, 47540, 47541, 84005, 84006]
OLD = [-2, -365, -366, -3653, -10957, -25567, -25508, -25509, -106000]
SECS = [0, 1, 59, 60, 3599, 3600, 7200, 10800, 25200, 36000, 43199, 43200, 86399]
USEC = [0, 1, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 123456, 500000, 999999]
NSEC = [0, 1, 499, 500, 999]
TIDS = [0, 1, 9, 999, 1000, 123456, 1234567, 9999999, 10000000, 2**31, 2**32, 2**63, 2**64 - 1]
LINES = [0, 1, 9, 10, 999, 1000, 12345, 99999, 100000, 2**31 - 1, -1, -2**31]
NAMES = ["", "f", "main", "x.c", "a_nineteen_chars.cp", "exactly_twenty_chars", "twenty_one_characters", "a_very_long_name_of_a_function_template_instance<int, long>", "operator|", "a b", "%s%d", "\x80\xff", "日本"]
DIRS = ["", "/", "a/", "a\\", "C:\\x\\", "/usr/src/", "a\\b/c\\", "a/b\\", "//", "\\\\host\\", "a_directory_longer_than_twenty/", "x|y/"]
MSGS = ["", "m", "hello world", "a|b|c", "two\nlines", "trailing ", "%n%d{}", "\xe9\x01\t", "x" * 300, "1,234", "日本\U0001f600"]


def binaries(): return build("row.cpp", VARIANTS, " -lstdc++fs")
def setup(): binaries()


def hx(t): return ".".join("%x" % b for b in (t.encode("utf-8") if max(map(ord, t), default=0) > 255 else t.encode("latin-1"))) or "-"


def time(rnd):
    r = rnd.random()
    d = rnd.choice(DAYS) if r < 0.4 else rnd.choice(OLD) if r < 0.5 else rnd.randint(-100000, 100000) if r < 0.65 else rnd.randint(0, 40000)
    return d, rnd.choice(SECS) if rnd.random() < 0.4 else rnd.randrange(86400)


def dst(rnd):
    """Around the hours when clocks change."""
    d = rnd.choice([19784, 19792, 19797, 19798, 19799, 20020, 20029, 20030, 20031, 20032, 20034]) + rnd.choice([0, 0, 365, 366, -365])
    return d, (rnd.choice([0, 3600, 7200, 10800, 21600, 25200, 55800, 52200]) + rnd.choice([-1, 0, 1])) % 86400


def row(rnd):
    d, s = time(rnd) if rnd.random() < 0.8 else dst(rnd)
    u = rnd.choice(USEC) if rnd.random() < 0.6 else rnd.randrange(10 ** rnd.randint(1, 6))
    lv = rnd.randint(0, 8) if rnd.random() < 0.85 else rnd.choice([-1, -2, 9, 10, 127, -128])
    return "r %d %d %d %d %d %d %s %d %s %s" % (d, s, u, rnd.choice(NSEC), rnd.choice(TIDS) if rnd.random() < 0.7 else rnd.randrange(10 ** rnd.randint(1, 9)), lv, hx(rnd.choice(DIRS) + rnd.choice(NAMES)),
                                             rnd.choice(LINES) if rnd.random() < 0.7 else rnd.randrange(10 ** rnd.randint(1, 6)), hx(rnd.choice(NAMES)), hx(rnd.choice(MSGS)))


def setting(rnd):
    return ["z " + rnd.choice(ZONES)] * (rnd.random() < 0.7) + ["g %d" % rnd.randint(0, 1)] * (rnd.random() < 0.5) + ["x %d" % rnd.randint(0, 3)] * (rnd.random() < 0.4)


def rows(rnd, full):
    k = (10 if THOROUGH else 3) if full else 1
    o = [" ".join("n %d" % l for l in range(-128, 128)), "h"] + ["g %d x %d h" % (g, f) for g in (0, 1) for f in range(4)]
    o += [" ".join("b %s" % hx(a + b + c) for a in DIRS for b in NAMES[i:i + 2] for c in ("", "/", "\\")) for i in range(0, len(NAMES), 2)]
    o += [" ".join("b %s" % hx("".join(rnd.choice("/\\ab.|:") for _ in range(n))) for n in range(30)) for _ in range(4 * k)]
    o += [" ".join(setting(rnd) + [row(rnd) for _ in range(30)]) for _ in range(80 * k)]
    # every number of digits of the fraction, everything else fixed
    o += ["r 20000 3723 %d 0 42 3 612e63 7 66 6d r 20000 3723 %d 999 42 3 612e63 7 66 6d".replace("612e63", "61.2e.63") % (10 ** i, 10 ** i - 1) for i in range(6)]
    o += [" ".join(setting(rnd)[:2] + ["l %d %d" % (rnd.choice([1, 1, 2, 5, 20, 60]), rnd.randrange(10 ** 6))]) for _ in range(20 * k)]
    if not full: o += ["o %d %d" % (rnd.choice([1, 2, 5, 20, 40]), rnd.randrange(10 ** 6)) for _ in range(20)]
    return o


def helpers(rnd, full):
    k = (10 if THOROUGH else 4) if full else 1
    o = [" ".join(["z " + z] + ["t %d %d" % (d, s) for s in SECS]) for z in ZONES for d in DAYS + OLD]
    for _ in range(120 * k):
        l = ["z " + rnd.choice(ZONES)]
        for _ in range(30):
            r = rnd.random()
            l.append("t %d %d" % (dst(rnd) if r < 0.3 else time(rnd) if r < 0.9 else (rnd.randint(-600000, 2500000), rnd.randrange(86400))))
        o.append(" ".join(l))
    o += ["i %d" % rnd.choice([1, 2, 3, 8, 30]) + rnd.choice(["", " i 2", " f 1", " f 0 i 2"]) for _ in range(10 * k)]
    o += ["f 0", "f 1", "f 1 f 0 f 1", "i 3 f 1 i 2 f 0"]
    return o


def check(prop):
    v = Verdict(prop)
    rnd = random.Random("%s-%d" % (prop, SEED))
    v.assumptions = ["the C library knows the offset of the time zone (recorded in every trace)"] + (["the log file can be written"] if prop == "C29" else [])
    with Work() as w:
        b = binaries()
        q = lambda l: ", ".join('"%s"' % x.replace("\\", "\\\\") for x in l)
        a, z = ((719000, 800000) if THOROUGH else (40000, 60000)) if prop == "C30" else (100, 2000)
        cfg = "CONSTANTS Before = %d\nTo = %d\nNames = {%s}\nNumbers = {%s}\nSPECIFICATION Spec\nINVARIANTS Calendar Aligned\nCHECK_DEADLOCK FALSE\n" % (
            a, z, q(x + y for x in ("", "/", "a/", "b\\", "x/y\\") for y in ("", "f", "exactly_twenty_chars", "twenty_one_characters")), q(["0", "12", "99999", "123456", "-1"]))
        m = model_check(w, "RowLaws", cfg, "laws")
        v.add(states=m.states, transitions=m.transitions)
        gen = rows if prop == "C29" else helpers
        decide(prop, v, w, b, {k: gen(rnd, k == "c20") for k in VARIANTS if prop == "C29" or k != "hide"}, "TraceRow")
    return v.finish()


def replay(prop, d): return again(prop, d, binaries(), "TraceRow")
