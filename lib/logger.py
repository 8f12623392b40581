"""C08-C13, C31: the logger.  Scenarios run on the real logger with real files under the controlled scheduler; every
recorded execution (with the files found on disk) is validated by TLC against spec/Logger.tla."""
import random
from common import *
import sched

ALL = ["FLUSH", "BOUND", "LEVEL", "LAYOUT", "HOLD", "CONF"]
CLAUSE = {"C08": [], "C09": ["FLUSH", "HOLD"], "C10": ["BOUND"], "C11": ["LEVEL"], "C12": ["LAYOUT"], "C13": ["FLUSH"], "C31": ["CONF"]}


def cfg(clauses):
    return ("CONSTANT Strict = {%s}\nSPECIFICATION TraceSpec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n"
            % ", ".join('"%s"' % c for c in clauses))


APIS = ["w", "p", "q", "v", "f", "g", "s", "t", "e", "d", "MW", "MP", "MQ", "MF", "MS", "MT"]

# L<file>,<id>,<level>,<len>[,<api>[,<message kind>]]
HAND = {
 "C08": [
  "c0: N L0,1,3,5 L0,2,3,5 D F", "c0: N X1 X2 J1 J2 Z F D F; c1: L0,1,3,5 L0,2,3,5; c2: L0,3,3,5 L0,4,3,5", "c0: N b3 X1 X2 L0,9,3,3 J1 J2 D F; c1: L0,1,3,5 L1,2,3,5; c2: L0,3,3,5 L1,4,3,5",
  "c0: N X1 L0,1,3,5 L1,2,3,5 L2,3,3,5 L3,4,3,5 L4,5,3,5 J1 D F; c1: L4,11,3,5 L3,12,3,5 L2,13,3,5", "c0: N b2 L0,1,3,1 L0,2,3,1 L0,3,3,1 Z F L0,4,3,1 L0,5,3,1 Z F D F",
  "c0: N b100 X1 X2 J1 J2 D F; c1: L0,1,3,5 L0,2,3,5 L0,3,3,3; c2: L0,4,3,5 L0,5,3,5", "c0: N L0,1,3,2000 X1 L0,2,3,9000 J1 D F; c1: L0,3,3,5000",
  "c0: P0,0,40,1 N L0,1,3,5 X1 L0,2,3,5 J1 D F; c1: L0,3,3,5", "c0: N X1 V1 L0,1,3,5 V1 L0,2,3,5 J1 Z F D F; c1: L0,3,3,5 V2 L0,4,3,5", "c0: N X1 X2 X3 J1 J2 J3 D F; c1: L0,1,3,5,s; c2: L0,2,3,5,p; c3: L0,3,3,5,f",
  "c0: N X1 b3 L0,1,3,5 b1 L0,2,3,5 h0 L0,3,3,5 J1 D F; c1: L0,4,3,5 L0,5,3,5", "c0: N r200 i60 X1 L0,1,3,50 L0,2,3,60 J1 D F; c1: L0,3,3,50 L0,4,3,90", "c0: N D F N L0,1,3,3 D F N L0,2,3,3 D F",
  "c0: N X1 L0,1,3,5 D F; c1: ", "c0: N L0,1,3,5 Z L0,2,3,5 Z L0,3,3,5 D F", "c0: N b2 X1 X2 X3 J1 J2 J3 Z F D F; c1: L0,1,3,5 L0,2,3,5 L0,3,3,5; c2: L0,4,3,5 L0,5,3,5 L0,6,3,5; c3: L1,7,3,5 L0,8,3,5",
 ],
 "C09": [
  "c0: N D", "c0: N L0,1,3,5 D F", "c0: N L0,1,3,5 Z F D F", "c0: N b3 L0,1,3,5 L0,2,3,5 b2 Z F D F", "c0: N b5 L0,1,3,5 L0,2,3,5 Z F b2 Z F b1 D F", "c0: N b0 L0,1,3,5 Z F D F", "c0: N b2 L0,1,3,5 L1,2,3,5 Z F L0,3,3,5 Z F L1,4,3,5 Z F D F",
  "c0: N X1 L0,1,3,5 J1 Z F D F; c1: L1,2,3,5", "c0: N b3 X1 X2 J1 J2 Z F D F; c1: L0,1,3,5 L0,2,3,5; c2: L0,3,3,5 L0,4,3,5", "c0: N b4 X1 X2 J1 J2 Z F D F; c1: L0,1,3,5 L0,2,3,5 L1,5,3,5; c2: b2 b1 b2",
  "c0: N b10 L0,1,3,5 L1,2,3,5 L2,3,3,5 b1 Z F D F", "c0: N b2 L0,1,3,5 X1 X2 J1 J2 Z F D F; c1: L0,2,3,5; c2: L1,3,3,5 L1,4,3,5", "c0: N m2 b2 L0,1,3,5 L0,2,3,5 Z F L0,3,3,5 L0,4,3,5 Z F D F", "c0: N L0,1,3,5 L0,2,3,5 L0,3,3,5 L0,4,3,5 D F",
  "c0: N b3 L0,1,3,5 L0,2,3,5 X1 b2 J1 Z F D F; c1: L0,3,3,5", "c0: N b2 L0,1,3,5 X1 J1 D F; c1: b1", "c0: N b9 L0,1,3,5 L0,2,3,5 L1,3,3,5 X1 X2 J1 J2 Z F D F; c1: b3 b2; c2: b1 b2",
  "c0: N b3 L0,1,3,5 Z F L0,2,3,5 Z F L0,3,3,5 Z F L0,4,3,5 L0,5,3,5 Z F D F", "c0: N b3 L0,1,3,5 L1,2,3,5 L0,3,3,5 L1,4,3,5 Z F L0,5,3,5 Z F L1,6,3,5 Z F D F", "c0: N b5 L0,1,3,5 L0,2,3,5 L0,3,3,5 Z F b4 Z F b9 L0,4,3,5 L0,5,3,5 Z F D F",
  "c0: N b3 Z L0,1,3,5 L2,2,3,5 L0,3,3,5 L0,4,3,5 Z F L2,5,3,5 Z F D F", "c0: N b3 Z L2,1,3,5 L0,2,3,5 L2,3,3,5 L2,4,3,5 Z F L0,5,3,5 Z F D F", "c0: N b2 Z L0,1,3,5 L1,2,3,5 L2,3,3,5 L3,4,3,5 L1,5,3,5 Z F L3,6,3,5 Z F L0,7,3,5 Z F D F",
  "c0: N b3 Z X1 L0,1,3,5 L2,2,3,5 L0,3,3,5 L0,4,3,5 J1 Z F D F; c1: L1,5,3,5 L2,6,3,5",
 ],
 "C10": [
  "c0: N b100 m1 L0,1,3,5 X1 X2 J1 J2 n D F; c1: L0,2,3,5 L0,3,3,5 L0,4,3,5; c2: 0 n", "c0: N b100 m1 L0,1,3,5 L0,2,3,5 L0,3,3,5 X1 X2 X3 J1 J2 J3 n 0 n D F; c1: L0,4,3,5 L0,5,3,5; c2: n 0 n; c3: L0,6,3,5 L1,7,3,5 L1,8,3,5",
  "c0: N m2 b10 L0,1,3,5 L0,2,3,5 L0,3,3,5 L0,4,3,5 n Z F D F", "c0: N m1 X1 X2 J1 J2 n Z F n D F; c1: L0,1,3,5 L0,2,3,5; c2: L0,3,3,5 L0,4,3,5", "c0: N m2 b2 X1 X2 J1 J2 n Z F n D F; c1: L0,1,3,5 L0,2,3,5 L0,3,3,5; c2: L0,4,3,5 n L0,5,3,5",
  "c0: N b100 m3 L0,1,3,5 L0,2,3,5 L0,3,3,5 L0,4,3,5 n m4 L0,5,3,5 L0,6,3,5 n 0 n L0,7,3,5 n m0 L0,8,3,5 n D F", "c0: N b100 L0,1,3,5 L0,2,3,5 L0,3,3,5 m2 L0,4,3,5 n m3 L0,5,3,5 n m4 L0,6,3,5 n Z F D F",
  "c0: N b10 m1 L0,1,3,5 L1,2,3,5 L0,3,3,5 L1,4,3,5 n D F", "c0: N b3 m3 L0,1,3,5 L0,2,3,5 L0,3,3,5 L0,4,3,5 n Z F L0,5,3,5 n D F", "c0: N b5 m2 L0,1,3,5 L0,2,3,5 L0,3,3,5 n b1 Z L0,4,3,5 n D F", "c0: N m1 b1 L0,1,3,5 L0,2,3,5 L0,3,3,5 n Z F D F",
  "c0: N m2 X1 X2 X3 J1 J2 J3 n D F; c1: L0,1,3,5 L0,2,3,5; c2: L0,3,3,5 0 L0,4,3,5; c3: n L0,5,3,5 n", "c0: N m1 b5 X1 m2 L0,1,3,5 L0,2,3,5 L0,3,3,5 J1 n D F; c1: m3 L0,4,3,5 L0,5,3,5 n", "c0: N l5 m1 b9 L0,1,3,5 L0,2,5,5 L0,3,4,5 L0,4,6,5 n D F", "c0: N L0,1,3,5 L0,2,3,5 n D F",
 ],
 "C31": [
  "c0: N %s D" % " ".join("y%d" % i for i in range(8)), "c0: N l5 m7 b3 r120 i4 h0 d0 %s l0 m0 b0 r0 i0 h1 d1 %s D" % ((" ".join("y%d" % i for i in range(8)),) * 2), "c0: N X1 X2 y0 y1 y2 y3 J1 J2 y0 y1 y2 y3 y4 y5 y6 D; c1: l3 m4 b5 r6 h0; c2: y1 m9 y1 i3 d0 y6 l7 y0 b2",
  "c0: N b10 d0 L1,1,3,5 L0,2,3,5 Z D F", "c0: N b10 d0 L1,1,3,5 L4,2,3,5 Z K1 D F", "c0: N d0 b10 L1,1,3,5 Z d1 b1 Z F D F", "c0: N b10 L1,1,3,5 d0 Z D F", "c0: N L1,1,3,5 Z d0 L1,2,3,5 Z F D F", "c0: N K1 d0 L1,1,3,5 Z F D F", "c0: N d0 L1,1,3,5 d1 Z F D F", "c0: N d0 L1,1,3,5 L0,2,3,5 L0,3,3,5 d1 L4,4,3,5 Z F D F", "c0: N d0 X1 J1 d1 Z F D F; c1: L1,1,3,5 L0,2,3,5 L1,3,3,5", "c0: N d0 L1,1,3,5 L0,2,3,5 L0,3,3,5 L0,4,3,5 K1 Z F D F", "c0: N K4 K1 d0 L1,1,3,5 L4,2,3,5 Z F d1 L1,3,3,5 D F",
  "c0: N L0,1,3,5 Z w1 L0,2,3,5 Z w0 L0,3,3,5 Z F D F", "c0: N b3 L0,1,3,5 L0,2,3,5 Z w1 L0,3,3,5 Z F D F", "c0: N X1 w1 L0,1,3,5 w0 L0,2,3,5 J1 Z F L0,3,3,5 D F; c1: L0,4,3,5 w1 L0,5,3,5", "c0: N X1 X2 J1 J2 Y Z F D F; c1: w1 w0 Y; c2: L0,1,3,5 L1,2,3,5 Y", "c0: N w1 Z L0,1,3,5,MW L0,2,3,5,MS L0,3,3,5,f Z F w0 D F",
  "c0: N 0 y7 l9 y0 y7 L0,1,8,5 D F", "c0: N r100 Z L0,1,3,20 L0,2,3,20 L0,3,3,20 Z F y4 D F", "c0: N r100 b1 Z L0,1,3,20 Z L0,2,3,20 Z L0,3,3,20 Z F i0 y4 D F",
  "c0: N m1 b4 y1 L0,1,3,5 L0,2,3,5 n m2 y1 L0,3,3,5 L0,4,3,5 n D F", "c0: N l3 y0 s2 s3 l4 y0 s3 s4 D", "c0: N h0 y5 L0,1,3,5 Z F h1 y5 L2,2,3,5 Z F D F",
 ],
 "C11": [], "C12": [
  "c0: N r100 i3 L0,1,3,20 L0,2,3,20 L0,3,3,20 L0,4,3,20 Z F D F", "c0: N r100 i0 L0,1,3,20 L0,2,3,20 L0,3,3,20 Z F D F", "c0: N r1 i1 L0,1,3,20 L0,2,3,20 L0,3,3,20 Z F D F", "c0: N r1 i4 h0 L0,1,3,20 L0,2,3,20 L0,3,3,20 L0,4,3,2 D F",
  "c0: P0,0,50,1 P0,1,60,2 P0,2,70,3 N r40 i2 L0,1,3,5 Z F L0,2,3,5 D F", "c0: P0,0,50,1 P0,1,60,2 P0,2,70,3 P0,3,70,4 N r40 i2 L0,1,3,5 Z F i1 L0,2,3,5 Z F i0 L0,3,3,5 Z F D F", "c0: P0,0,0,1 N r40 i2 L0,1,3,5 Z F D F", "c0: P0,0,30,1 N L0,1,3,5 Z F r30 i5 L0,2,3,5 Z F h0 L0,3,3,5 D F",
  "c0: N b4 r150 i2 L0,1,3,20 L0,2,3,20 L0,3,3,20 L0,4,3,20 Z F L0,5,3,200 L0,6,3,1 D F", "c0: N r100 i3 L1,1,3,20 L1,2,3,20 L1,3,3,20 Z F L2,4,3,20 L2,5,3,20 L2,6,3,2 Z F D F", "c0: N r100 i3 L3,1,3,20 L3,2,3,20 L3,3,3,20 Z F L4,4,3,20 L4,5,3,20 L4,6,3,2 Z F D F",
  "c0: N L0,1,3,5 D F N r1 i2 L0,2,3,5 D F N r1 i2 h0 L0,3,3,5 D F", "c0: N r100 i12 b1 L0,1,3,90 L0,2,3,90 L0,3,3,90 L0,4,3,90 L0,5,3,90 L0,6,3,90 L0,7,3,90 L0,8,3,90 L0,9,3,90 L0,10,3,90 L0,11,3,90 L0,12,3,90 L0,13,3,90 Z F D F",
  "c0: N r88 i3 L0,3,3,3 Z F L0,6,3,3 Z F L0,9,3,3 D F", "c0: N r93 h1 i3 L0,3,3,3 Z L0,6,3,3 Z F r92 L0,9,3,3 Z F D F", "c0: P0,0,40,1 N r41 i2 L0,1,3,5 Z F D F", "c0: P0,0,40,1 N r40 i2 L0,1,3,5 Z F D F", "c0: P0,0,40,1 N r39 i2 L0,1,3,5 Z F D F",
  "c0: P0,1,40,1 N r10 i3 L0,1,3,5 L0,2,3,5 Z F D F", "c0: N r100 i2 X1 X2 J1 J2 Z F D F; c1: L0,1,3,20 L0,2,3,20; c2: L0,3,3,20 L1,4,3,20 L0,5,3,20", "c0: N r100 i5 L0,1,3,90 Z L0,2,3,90 Z L0,3,3,90 Z L0,4,3,90 Z F i2 L0,5,3,90 Z F i4 L0,6,3,90 L0,7,3,9 Z F r0 L0,8,3,90 L0,9,3,90 Z F D F",
  "c0: N h0 L0,1,3,5 Z F h1 L0,2,3,5 Z F r1 i2 L0,3,3,5 Z F h0 L0,4,3,5 Z F D F",
 ],
 "C13": [
  "c0: N Eopen,1 L0,1,3,5 Z F D F", "c0: N Eopen,3 L0,1,3,5 L0,2,3,5 Z F D F", "c0: N Emkdir,1 L1,1,3,5 Z F L1,2,3,5 Z F D F", "c0: N Emkdir,2 L1,1,3,5 L0,2,3,5 Z F D F", "c0: N r50 i2 Erename,1 L0,1,3,5 L0,2,3,5 Z F L0,3,3,5 D F",
  "c0: N r50 i3 L0,1,3,5 L0,2,3,5 L0,3,3,5 Z F Erename,1,1 L0,4,3,5 L0,5,3,4 Z F D F", "c0: N r50 i1 L0,1,3,5 L0,2,3,5 Z F Eremove,1 L0,3,3,5 L0,4,3,4 Z F D F", "c0: N r50 i2 b3 L0,1,3,5 L0,2,3,5 Eopen,1,1 L0,3,3,5 L0,4,3,3 Z F D F", "c0: N X1 Eopen,2 L0,1,3,5 L0,2,3,5 J1 Z F D F; c1: L1,3,3,5 L0,4,3,5 L1,5,3,5",
  "c0: N b10 L0,1,3,5 L0,2,3,5 Eopen,1 D F", "c0: N b10 L0,1,3,5 L1,2,3,5 L2,3,3,5 Eopen,1 D F", "c0: N b10 L0,1,3,5 L1,2,3,5 L2,3,3,5 Eopen,1,1 D F", "c0: N b10 L0,1,3,5 L1,2,3,5 Emkdir,1 D F", "c0: N b10 r50 i2 L0,1,3,5 L0,2,3,5 L0,3,3,5 Erename,1,1 D F",
  "c0: N m2 Eopen,4 L0,1,3,5 L0,2,3,5 L0,3,3,5 n Z F D F", "c0: N r50 i3 b2 Erename,2 L0,1,3,5 L0,2,3,5 X1 J1 Z F D F; c1: L0,3,3,5 L0,4,3,5 L0,5,3,5", "c0: N r50 i3 b6 L0,1,3,5 L0,2,3,5 L0,3,3,5 L0,4,3,5 L0,5,3,5 Eopen,1,3 L0,6,3,3 Z F D F", "c0: N Eopen,1 L0,1,3,5 L1,2,3,5 L2,3,3,5 Z F D F", 
  "c0: N X1 L0,1,3,5 Eopen,1 L0,2,3,5 Eopen,2 L0,3,3,5 J1 Z F D F; c1: L0,4,3,5 L0,5,3,5", "c0: N r50 i2 h0 Erename,1 L0,1,3,5 L0,2,3,5 L0,3,3,5 Z F D F", "c0: P0,0,60,1 P0,1,60,2 N r50 i1 Eremove,2 L0,1,3,5 Z F D F", "c0: P0,0,60,1 P0,1,60,2 P0,2,60,3 N r50 i3 Erename,1,2 L0,1,3,5 L0,2,3,5 Z F D F",
 ],
}


def level_matrix():
    out, i = [], 0
    for lv in range(-1, 10):
        for chunk in range(4):
            ops, k = [], 0
            for api in APIS[chunk * 4:chunk * 4 + 4]:
                for e in range(-1, 10):
                    k += 1
                    ops.append("L0,%d,%d,%d,%s" % (k, e, (k * 5) % 40, api))
            ops += ["s%d" % e for e in range(-1, 10)]
            out.append(("C11.m%d.%d" % (lv, chunk), "c0: N l%d %s Z F D F" % (lv, " ".join(ops))))
    for a in APIS + ["z"]:
        kinds = [0] if a == "z" else [0, 1, 2, 3, 4, 5, 6]
        ops, k = [], 0
        for kd in kinds:
            for ln in ([0, 1, 2, 255, 256, 1023, 1024, 4096, 9000] if kd == 0 else [0, 300]):
                k += 1
                ops.append("L0,%d,3,%d,%s,%d" % (k, ln, a, kd))
        out.append(("C11.k%s" % a, "c0: N %s Z F D F" % " ".join(ops)))
    for i, t in enumerate([
        "c0: N l3 X1 L0,1,3,5,MW L0,2,2,5,MP L0,3,4,5,MS J1 Z F D F; c1: l2 l5 l0", "c0: N X1 L0,1,3,5,e L0,2,3,5,d L0,3,3,5,MF J1 Z F D F; c1: l9 l0", "c0: N X1 X2 J1 J2 Z F D F; c1: l4 s3 s4 l3 s3; c2: L0,1,3,5,e L0,2,4,5,t s3",
        "c0: N l9 L0,1,8,5 L0,2,9,5 l-1 L0,3,-1,5 l0 L0,4,-1,5 L0,5,0,4 Z F D F", "c0: N X1 L0,1,3,5,t L0,2,3,0,s L0,3,3,0,p J1 D F; c1: L0,4,3,0,w L0,5,3,0,f L0,6,3,0,MS"]):
        out.append(("C11.h%d" % i, t))
    return out


def generate(rnd, prop):
    ids = iter(range(1, 1000))
    files = rnd.choice([[0], [0], [0, 1], [0, 2], [0, 1, 3], [4], [3], [1]])
    budget = [rnd.choice([4, 6, 8])]

    def logop():
        if budget[0] <= 0: return []
        budget[0] -= 1
        lv = rnd.choice([3, 3, 3, 3, 0, 8]) if prop != "C11" else rnd.randint(-1, 9)
        ln = rnd.choice([0, 1, 5, 5, 20, 60, 150]) if prop != "C08" else rnd.choice([0, 1, 5, 20, 300, 5000])
        if prop == "C11": return ["L%d,%d,%d,%d,%s,%d" % (rnd.choice(files), next(ids), lv, ln, rnd.choice(APIS), rnd.choice([0, 0, 1, 2, 3, 4, 5, 6]))]
        return ["L%d,%d,%d,%d,%s" % (rnd.choice(files), next(ids), lv, ln, rnd.choice(APIS) if rnd.random() < 0.3 else "w")]

    def op():
        r = rnd.random()
        if prop == "C08":
            if r < 0.75: return logop()
            return [rnd.choice(["b1", "b2", "b3", "V1", "n", "h0", "h1", "w1", "b0"])]
        if prop == "C09":
            if r < 0.65: return logop()
            return [rnd.choice(["b1", "b2", "b3", "b4", "b0", "m3", "m2", "m0", "Z"] if r < 0.95 else ["w1"])]
        if prop == "C10":
            if r < 0.65: return logop()
            return [rnd.choice(["n", "n", "0", "m1", "m2", "m3", "m0", "b1", "b2", "b5"])]
        if prop == "C11":
            if r < 0.7: return logop()
            return [rnd.choice(["l", "l", "s"]) + str(rnd.randint(-1, 9))]
        if prop == "C12":
            if r < 0.65: return logop()
            return rnd.choice([["Z", "F"], ["Z", "r%d" % rnd.choice([0, 1, 50, 100, 150, 200])], ["Z", "i%d" % rnd.choice([0, 1, 2, 3, 5])], ["Z", "h%d" % rnd.choice([0, 1])], ["b%d" % rnd.choice([1, 2, 4])],
                               ["r%d" % rnd.choice([1, 90, 100, 150])], ["i%d" % rnd.choice([1, 2, 3])]])
        if prop == "C31":
            if r < 0.35: return logop()
            if r < 0.6: return ["y%d" % rnd.randint(0, 7)]
            return [rnd.choice(["l%d" % rnd.randint(-1, 9), "m%d" % rnd.choice([0, 1, 2, 9]), "b%d" % rnd.choice([0, 1, 2, 3, 9]), "r%d" % rnd.choice([0, 100, 1000]), "i%d" % rnd.choice([0, 1, 5]), "h%d" % rnd.randint(0, 1), "w0", "w1", "Y", "0", "Z"] + ["d0", "d1"] * (not {1, 4} & set(files)))]
        if r < 0.6: return logop()
        if r < 0.9: return ["E%s,%d,%d" % (rnd.choice(["open", "open", "mkdir", "rename", "remove"]), rnd.choice([1, 1, 2, 3]), rnd.choice([0, 0, 1, 2]))]
        return rnd.choice([["Z", "F"], ["b2"], ["b1"], ["Z"]])
    pre, main = [], ["N"]
    if prop == "C12" and rnd.random() < 0.5:
        for i in range(rnd.choice([1, 2, 3, 4])): pre.append("P%d,%d,%d,%d" % (files[0], i, rnd.choice([0, 20, 40, 100, 200]) if i == 0 else rnd.choice([20, 60]), i + 1))
    if prop in ("C12", "C13"): main += ["r%d" % rnd.choice([1, 50, 90, 100, 150, 200, 300]), "i%d" % rnd.choice([0, 1, 2, 3, 5])]
    if prop == "C08" and rnd.random() < 0.3: main += ["r%d" % rnd.choice([50, 150]), "i90"]
    if prop == "C10": main += ["m%d" % rnd.choice([1, 1, 2, 3])] + (["b100"] if rnd.random() < 0.4 else [])
    if rnd.random() < 0.5 and "b100" not in main: main += ["b%d" % rnd.choice([1, 2, 3, 5])]
    if prop in ("C09", "C12", "C31") and rnd.random() < 0.5: main += ["Z"]        # the writer has noticed the settings
    n = rnd.choice([0, 1, 2, 2, 3]) if prop not in ("C12",) else rnd.choice([0, 0, 1, 2])
    clients = {c: sum([op() for _ in range(rnd.choice([1, 2, 3]))], []) for c in range(1, n + 1)}
    for c in clients: clients[c] = [o for o in clients[c] if o not in ("Z", "F")]
    mid = sum([op() for _ in range(rnd.choice([1, 2, 4, 6]))], [])
    cut = rnd.randint(0, len(mid))
    if clients: mid = [o for o in mid if o not in ("Z", "F")] if rnd.random() < 0.8 else mid[:cut] + [o for o in mid[cut:] if o not in ("Z", "F")]
    main += mid[:cut] + ["X%d" % c for c in clients] + mid[cut:] + ["J%d" % c for c in clients]
    if rnd.random() < 0.6: main += ["Z", "F"]
    if prop == "C10": main += ["n"]
    main += ["D", "F"]
    if rnd.random() < 0.15: main += ["N"] + logop() + ["D", "F"]
    return "c0: " + " ".join(pre + main) + "".join("; c%d: %s" % (c, " ".join(p)) for c, p in clients.items())


def scenarios(prop):
    rnd = random.Random("%s-%d" % (prop, SEED))
    sc = [("%s.h%d" % (prop, i), t) for i, t in enumerate(HAND[prop])]
    if prop == "C11": sc += level_matrix()
    for i in range(50 if not THOROUGH else 800): sc.append(("%s.r%d" % (prop, i), generate(rnd, prop)))
    return sc


def big(rnd, prop):
    """A few long scenarios: many entries, large buffers, many files of one log."""
    out = []
    for k in range(6 if not THOROUGH else 40):
        ids = iter(range(1, 10000))
        L = lambda m, fs=(0,): ["L%d,%d,%d,%d,%s" % (rnd.choice(fs), next(ids), rnd.choice([3, 3, 8]), rnd.choice([0, 1, 5, 20, 20, 60]), rnd.choice(APIS) if rnd.random() < 0.3 else "w") for _ in range(m)]
        c1, c2, pre = [], [], []
        if prop == "C12":
            lim = rnd.choice([9, 10, 11, 12, 25, 99, 100, 101])
            f = rnd.choice([0, 0, 1, 2, 3, 4])
            n = rnd.choice([0, lim - 1, lim, lim, lim + 1, lim + 3])
            for i in range(n + 1): pre.append("P%d,%d,%d,%d" % (f, i, rnd.choice([20, 25, 100]), i + 1))
            body = ["r%d" % rnd.choice([1, 60, 90, 100]), "i%d" % lim] + ([] if rnd.random() < 0.7 else ["h0"])  + ["Z"]
            for _ in range(rnd.choice([2, 6, 12])):
                body += L(rnd.choice([1, 1, 2, 3]), [f])
                if rnd.random() < 0.4: body += ["Z", "F"] + (["i%d" % rnd.choice([lim - 2, lim + 2, 5])] if rnd.random() < 0.3 else [])
            out.append("c0: " + " ".join(pre + ["N"] + body + ["Z", "F", "D", "F"]))
            continue
        fs = rnd.choice([[0], [0, 1], [0, 1, 2, 3, 4]])
        if prop == "C08":
            body = rnd.choice([["b50"], ["b10"], ["b20", "r2000", "i90", "Z"], ["b500"]]) + L(rnd.choice([40, 120]), fs); c1 = L(3, fs)
        elif prop == "C09":
            b = rnd.choice([10, 49, 50, 51, 100])
            body = ["b%d" % b] + L(b - 1 if rnd.random() < 0.5 else rnd.choice([b + 3, 2 * b, 130]), [0]) + ["Z", "F"] + L(rnd.choice([1, b - 1, b]), fs) + ["Z", "F"] + rnd.choice([[], ["b%d" % (b // 2)]]) + L(3, fs) + ["Z", "F", "b1"]; c1 = rnd.choice([[], L(2, fs)])
        elif prop == "C10":
            m = rnd.choice([1, 5, 64, 100])
            body = ["m%d" % m, "b1000"] + L(m + rnd.choice([1, 20, 150]), fs) + ["n"] + rnd.choice([[], ["0"] + L(5, fs)]) + ["n", "m%d" % rnd.choice([2, m + 7, 0])] + L(10, fs) + ["n"]; c1 = rnd.choice([[], L(2, fs) + ["n"]])
        elif prop == "C31":
            body = []
            for _ in range(60): body += rnd.choice([["%s%d" % (c, rnd.choice([0, 1, 2, 5, 8])) for c in [rnd.choice("lmri")]], ["h%d" % rnd.randint(0, 1)], ["y%d" % rnd.randint(0, 7)], ["y%d" % rnd.randint(0, 7)], ["w%d" % rnd.randint(0, 1)], L(1, [0, 2]), ["Z", "F"]])
        elif prop == "C11":
            body = ["b%d" % rnd.choice([1, 30])]
            for _ in range(rnd.choice([10, 60])): body += ["l%d" % rnd.randint(-1, 9), "s%d" % rnd.randint(-1, 9), "L%d,%d,%d,%d,%s,%d" % (rnd.choice(fs), next(ids), rnd.randint(-1, 9), rnd.choice([0, 1, 200, 255, 256, 1000, 70000]), rnd.choice(APIS), rnd.choice([0, 0, 1, 2, 3, 4, 5, 6]))]
        else:
            body = ["b%d" % rnd.choice([1, 10, 25])] + rnd.choice([[], ["r200", "i90", "Z"]])
            for _ in range(rnd.choice([3, 6])): body += L(rnd.choice([3, 10, 25]), fs) + ["E%s,%d,%d" % (rnd.choice(["open", "open", "mkdir", "rename"]), rnd.choice([1, 1, 2, 8]), rnd.choice([0, 0, 1, 3]))]
            body += ["Z", "F"] + L(10, fs) + ["Z"]; c1 = rnd.choice([[], L(3, fs)])
        c1 = {1: c1} if c1 else {}
        if c1 and prop == "C09": body = [o for o in body if o != "F"]
        out.append("c0: " + " ".join(["N"] + ["X%d" % c for c in c1] + body + ["J%d" % c for c in c1] + ["Z", "F", "D", "F"]) + "".join("; c%d: %s" % (c, " ".join(o)) for c, o in c1.items()))
    return out


INIT = ["c0: N %s D" % " ".join("y%d" % i for i in range(8)), "c0: N L0,1,4,5 L0,2,5,5 L0,3,8,5 Z F L0,4,6,5 Z F D F", "c0: N %s n Z F D F" % " ".join("L0,%d,5,5" % i for i in range(1, 10)), "c0: N b10 L1,1,5,5 L0,2,5,5 Z D F", "c0: N b10 L1,1,5,5 L1,2,5,5 Z d1 b1 Z F D F",
        "c0: N b1 Z %s F D F" % " ".join("L0,%d,5,20 Z" % i for i in range(1, 8)), "c0: N h1 Y L0,1,5,5 L0,2,5,5 L0,3,5,5 Z F w1 L0,4,6,5 D F", "c0: N X1 L0,1,5,5 y0 y1 y2 b1 y2 J1 Z F D F; c1: y3 y4 r0 y3 L0,2,5,5 y5 y6 L0,3,7,5"]


def setup():
    sched.build("logger", "logger.cpp")
    sched.build("loggerinit", "logger.cpp", "-DINITIAL")


# Logger.tla on its own, every behaviour within small bounds: operations, files, lengths, levels, failures, calls, what must follow
MC = {
 "C08": ("log flush destroy", "0,1", "3", "3", 0, 5, "NoRotationNoLoss Everything NoLimitNoLoss", ""), "C09": ("log flush destroy", "0,1", "3", "3", 0, 4, "Batches", "Written Returns Held"),
 "C10": ("log reset discards", "0", "3", "2,4", 0, 5, "WithinBound Counted NoLimitNoLoss", ""), "C11": ("log level should", "0", "3", "2,3,4", 0, 4, "", ""),
 "C12": ("log", "0", "3,8", "3", 0, 5, "Sizes Limit OneHeader", ""), "C13": ("log destroy", "0,1", "3,8", "3", 2, 4, "", ""),
 "C31": ("log get flush max whdr writer", "0", "3", "3", 0, 4, "Writers Current", ""),
}


def spec_check(prop, w, v):
    ops, fs, lens, levels, fails, calls, inv, props = MC[prop]
    r = model_check(w, "LoggerMC", "CONSTANTS\nStrict <- AllClauses\nThreads = {c1, c2}\nMaxCalls = %d\nOps = {%s}\nFs = {%s}\nLens = {%s}\nLevels = {%s}\nConfs <- Confs%s\nFails = %d\nSPECIFICATION MCSpec\nINVARIANTS OnceOnly HeadersOnTop Kept %s\n%s\nCHECK_DEADLOCK FALSE\n"
                    % (calls + (1 if THOROUGH else 0), ",".join('"%s"' % o for o in ops.split()), fs, lens, levels, prop[1:], fails, inv, "PROPERTIES " + props if props else ""), "spec", timeout=4000 if THOROUGH else 400)
    log("Logger.tla itself: %d states, %s" % (r.states, inv + " " + props))
    v.add(states=r.states, transitions=r.transitions, spec_states=r.states)


def hinted(line):
    """Adds to a trace, per entry, whether its record is found in a file (see TraceLogger.tla)."""
    tr = json.loads(line)
    ev = tr["ev"]
    found = {r["id"] for e in ev if e["e"] == "fs" for r in e["recs"]}
    steady = not any(e["e"] in ("fsfail", "nofile", "fault") or e["e"] == "call" and e["op"] in ("rsize", "limit") or e["e"] == "new" and e["vals"][3] for e in ev)
    last = max([i for i, e in enumerate(ev) if e["e"] == "call" and e["op"] == "destroy"], default=len(ev))
    seen = {e["f"] for e in ev[last:] if e["e"] == "fs"}
    logs = {e["a"]: e["f"] for e in ev if e["e"] == "call" and e["op"] == "log"}
    tr["hint"] = [2 if i not in logs else 1 if i in found else 0 if steady and logs[i] in seen else 2 for i in range(1, max(logs, default=0) + 1)]
    pred = {}
    for e in ev:
        if e["e"] != "fs": continue
        o = [int(x[1:]) for d in sorted(e["files"], key=lambda d: -d["i"]) for x in d["items"] if x[0] == "R"]
        for a, b in zip(o, o[1:]):
            if b not in pred and a in logs: pred[b] = a
    tr["pred"] = [pred.get(i, 0) for i in range(1, len(tr["hint"]) + 1)]
    return json.dumps(tr, separators=(",", ":"))


def check(prop):
    v = Verdict(prop)
    v.assumptions = ["sequentially consistent memory (data races are reported separately by vector clocks)", "writes to an open file succeed",
                     "pthread, futex and clock are replaced by the controlled scheduler's models; file-system failures are injected at fopen, mkdir, rename, remove"]
    binary = sched.build("logger", "logger.cpp")
    with Work() as w:
        spec_check(prop, w, v)
        sc = scenarios(prop)
        text = dict(sc)
        log("%d scenarios" % len(sc))
        traces, st = sched.explore(w, binary, sc, secs=14 if not THOROUGH else 300, runs=100000, maxper={"C10": 25, "C12": 18, "C13": 18}.get(prop, 40) if not THOROUGH else 120,
                                   maxout=4000 if not THOROUGH else 50000, delay2=1)
        bg = [("%s.b%d" % (prop, i), t) for i, t in enumerate(big(random.Random("big-%s-%d" % (prop, SEED)), prop))]
        text.update(bg)
        tb, sb = sched.explore(w, binary, bg, secs=2 if not THOROUGH else 40, runs=100000, maxper=4 if not THOROUGH else 20, maxout=1000, tag="big")
        for k in st: st[k] += sb[k]
        sc = sc + bg
        if prop == "C31":       # every initial setting configured
            sc2 = [("C31.init%d" % i, t) for i, t in enumerate(INIT)]
            text.update(sc2)
            t2, s2 = sched.explore(w, sched.build("loggerinit", "logger.cpp", "-DINITIAL"), sc2, secs=3 if not THOROUGH else 40, runs=100000, maxper=30 if not THOROUGH else 200, maxout=1000, tag="init")
            traces += t2
            for k in st: st[k] += s2[k]
            sc = sc + sc2
        log("explored", st)
        traces, tb = [hinted(x) for x in traces], [hinted(x) for x in tb]
        if st["bad"]: raise CheckError("harness could not finish %d executions" % st["bad"])
        rej, s, t = validate(w, "TraceLogger", cfg(ALL), traces)
        log("validated %d traces, %d states, %d rejected" % (len(traces), s, len(rej)))
        v.add(states=s, transitions=t, traces_validated_against_impl=len(traces), executions=st["executions"], scheduling_points=st["sync_points"], scenarios=len(sc))
        v.add(samples=[json.loads(x) for x in traces[:1]])
        sched.one_by_one(v, w, "TraceLogger", cfg, ALL, CLAUSE[prop], tb, text, "l")
        if rej:
            if os.environ.get("DUMP"): sched.dump(rej, traces)
            per, pick = {}, []
            for i, l, n in rej:
                k = json.loads(traces[i])["sc"]
                per[k] = per.get(k, 0) + 1
                if per[k] <= 12 and len(pick) < 300: pick.append(i)
            sub = [traces[i] for i in pick]
            where = {i: (l, n) for i, l, n in rej}
            rej2, s, t = sched.attribute(w, "TraceLogger", cfg, ALL, CLAUSE[prop], sub, "r")
            rej2 = [(i, *(where[pick[i]] if l < 0 else (l, n))) for i, l, n in rej2]
            v.add(states=s, transitions=t)
            log("%d of %d examined rejections concern %s" % (len(rej2), len(sub), prop))
            for i, l, n in sorted(rej2, key=lambda x: len(sub[x[0]])):
                tr = json.loads(sub[i])
                v.violation("%s@%s" % (tr["sc"], sched.show(tr["ev"][l]) if l < n else "end"), "scenario %s: %s" % (text[tr["sc"]], sched.story(tr, l)),
                            {"scenario": text[tr["sc"]], "name": tr["sc"], "plan": tr["plan"], "failing_event": l, "events": tr["ev"]})
    return v.finish()


def replay(prop, d):
    r = d["replay"]
    binary = sched.build("loggerinit", "logger.cpp", "-DINITIAL") if ".init" in r.get("name", "") else sched.build("logger", "logger.cpp")
    with Work() as w:
        open(w.path("sc"), "w").write("replay\t%s\n" % r["scenario"])
        rc, o, e = run([binary, w.path("sc"), w.path("out"), "plan=" + r["plan"]])
        traces = [hinted(x) for x in open(w.path("out")).read().splitlines()]
        rej, s, t = validate(w, "TraceLogger", cfg(ALL), traces)
        rej2, s, t = sched.attribute(w, "TraceLogger", cfg, ALL, CLAUSE[prop], traces, "r") if rej else ([], 0, 0)
        rej = rej if rej2 else []
        for i, l, n in rej: print(sched.story(json.loads(traces[i]), l))
        print("VIOLATION property=%s replay=%s" % (prop, "given") if rej else "not reproduced")
        return 1 if rej else 0
