#!/usr/bin/env python3
"""Greedy pairwise covering array over the option families; prints the PX table
of checks/configs.hpp.  Deterministic; run by hand when a family is added."""
import itertools, random
F = dict(nq=[1,2,3], ns=[1,3,4], nl=[1,2,3], src=[0,1,2], psa=[0,1], dm=[0,1,2], th=[0,1,2], sfi=[0,1], out=[0,1,2,3], az=[0,1],
         surf=[0,1,2,3,4,5,6], quad=[0,1], add=[0,1,2], save=[0,1], dir=[0,1,2], nc=[0,1])
# src 0 solar 1 thermal 2 both; dm 0 none 1 delta-M 2 + n-t/TMS; out 0 ends 1 all levels 2 optical depths 3 one interior level
# surf 0 black 1 Lambertian 2 RTLS 3 Rahman 4 Hapke 5 Roujean+Cox-Munk 6 Lambertian+Li-dense+Ross-thin; add 1 top down 2 bottom up; dir 1 up 2 down
K = list(F)
def ok(c):
    g = lambda k, d=None: c.get(k, d)
    def both(a, b): return a in c and b in c
    if both("psa","src") and c["psa"] and c["src"]==1: return False
    if both("dm","src") and c["dm"]==2 and c["src"]==1: return False
    if both("sfi","th") and c["sfi"] and not c["th"]: return False
    if both("ns","nq") and c["ns"]>1 and c["nq"]>2: return False
    if both("add","out") and c["add"] and c["out"]!=0: return False
    if both("add","sfi") and c["add"] and c["sfi"]: return False
    if both("out","nl") and c["out"]==3 and c["nl"]==1: return False
    if both("add","dir") and c["add"] and c["dir"]: return False
    if both("az","src") and c["az"] and c["src"]==1: return False
    if both("az","dm") and c["az"] and c["dm"]==2: return False
    return True
def solve(seed):
    R = random.Random(seed)
    todo = set()
    for a, b in itertools.combinations(K, 2):
        for x in F[a]:
            for y in F[b]:
                if ok({a:x,b:y}): todo.add(((a,x),(b,y)))
    rows = []; dead = 0
    while todo and dead < 60:
        best = None
        for _ in range(40):
            (a,x),(b,y) = R.choice(sorted(todo)); c = {a:x,b:y}; ks = [k for k in K if k not in c]; R.shuffle(ks); bad = False
            for k in ks:
                sc = []
                for v in F[k]:
                    d = dict(c); d[k]=v
                    if not ok(d): continue
                    n = sum((tuple(sorted(((k,v),(q,c[q])), key=lambda t: K.index(t[0])))) in todo for q in c)
                    sc.append((n, R.random(), v))
                if not sc: bad = True; break
                c[k] = max(sc)[2]
            if bad: continue
            n = sum(((p,c[p]),(q,c[q])) in todo for p,q in itertools.combinations(K,2))
            if best is None or n > best[0]: best = (n, c)
        if not best or best[0]==0: dead += 1; continue
        n, c = best; rows.append(c)
        for p,q in itertools.combinations(K,2): todo.discard(((p,c[p]),(q,c[q])))
    return rows, todo
best = min((solve(s) for s in range(12)), key=lambda r: (len(r[1]), len(r[0])))
print("// %d rows, %d pairs not coverable; columns: %s" % (len(best[0]), len(best[1]), " ".join(K)))
for c in best[0]: print("  {%s}," % ",".join(str(c[k]) for k in K))
