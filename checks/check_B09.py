"""B09: migration plans are faithful containers."""
from collections import Counter
from model import *
RULE = "a plan was inserted into twice for the same key or cleared and refilled; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 10), max_edges=10, big=False)
    L = ["fresh 0"] + stage(m, s) + ["mark ==="]
    nl = [len(m.local(r)) for r in range(np)]; ng = [len(m.ghosts(r)) for r in range(np)]
    exp = [[] for _ in range(np)]
    np_ids = s.int(1, 2); nw_ids = s.int(1, 2)
    P = [[dict() for _ in range(np)] for _ in range(np_ids)]; W = [[dict() for _ in range(np)] for _ in range(nw_ids)]
    for i in range(np_ids): L.append("mgnew %d 0" % i)
    for i in range(nw_ids): L.append("wmnew %d 0" % i)
    def dump(kind, i):
        if kind == "m":
            L.append("mgdump %d 0" % i)
            for r in range(np): exp[r].append(("m", dict(P[i][r])))
        else:
            L.append("wmdump %d 0 %d" % (i, s.int(0, 1)))
            for r in range(np): exp[r].append(("w", dict(W[i][r])))
    for _ in range(s.int(3, 30)):
        a = s.weighted([("mins", 8), ("mclear", 1), ("mdump", 3), ("wins", 8), ("wclear", 1), ("wdump", 3)])
        if a == "mins":
            i = s.int(0, np_ids - 1); r = s.int(0, np - 1)
            if not nl[r]: continue
            v = s.int(0, nl[r] - 1); d = s.pick([0, 0, 1, np - 1, s.int(0, 100000)])
            L.append("@%d mgins %d 0 %d %d" % (r, i, v, d)); exp[r].append(("i", int(v not in P[i][r])))
            if v in P[i][r]: ctx.nontrivial(); ctx.label("reinsert")
            P[i][r][v] = d
        elif a == "mclear":
            i = s.int(0, np_ids - 1)
            L.append("mgclear %d" % i)
            for r in range(np):
                if P[i][r]: ctx.nontrivial(); ctx.label("cleared")
                P[i][r].clear(); exp[r].append(("c",))
        elif a == "wins":
            i = s.int(0, nw_ids - 1); r = s.int(0, np - 1); n = nl[r] + ng[r]
            if n < 1: continue
            u, v = s.int(0, n - 1), s.int(0, n - 1); w = s.pick([0.25, 0.5, 1, 3.75, -1.5, 3.0 * 2 ** 31, 2.0 ** 24 + 1, 2.0 ** 40 + 0.25])
            L.append("@%d wmins %d 0 %d %d %s" % (r, i, u, v, num(w))); exp[r].append(("wi",))
            if (u, v) in W[i][r]: ctx.nontrivial(); ctx.label("accumulate")
            W[i][r][(u, v)] = W[i][r].get((u, v), 0) + w
        elif a == "wclear":
            i = s.int(0, nw_ids - 1); L.append("wmclear %d" % i)
            for r in range(np): W[i][r].clear()
        elif a == "mdump": dump("m", s.int(0, np_ids - 1))
        else: dump("w", s.int(0, nw_ids - 1))
    for i in range(np_ids): dump("m", i)
    for i in range(nw_ids): dump("w", i)
    for i in range(np_ids): L.append("mgdel %d" % i)
    for i in range(nw_ids): L.append("wmdel %d" % i)
    outs = ctx.run("\n".join(L))
    for r in range(np):
        sec = sections(outs[r])[0]
        need(len(sec) == len(exp[r]), "part %d: %d answers, expected %d", r, len(sec), len(exp[r]))
        for line, e in zip(sec, exp[r]):
            f = line.split()
            if e[0] == "i": need(f == ["ins", str(e[1])], "part %d: insert returned %s, expected %d", r, f, e[1])
            elif e[0] == "c": need(f == ["clr"], "%r", f)
            elif e[0] == "wi": need(f == ["wi"], "%r", f)
            elif e[0] == "m":
                p = e[1]; x, y, z = f.index("it"), f.index("has"), f.index("gh")
                it = list(map(int, f[x + 1:y])); pairs = sorted(zip(it[::2], it[1::2]))
                need(int(f[1]) == len(p), "part %d: size %s, %d vertices planned", r, f[1], len(p))
                need(pairs == sorted(p.items()), "part %d: iteration gives %s, planned %s", r, pairs, sorted(p.items()))
                need(list(map(int, f[y + 1:z])) == [int(v in p) for v in range(nl[r])], "part %d: has() on local vertices %s, planned %s", r, f[y + 1:z], sorted(p))
                need(list(map(int, f[z + 1:])) == [0] * ng[r], "part %d: has() on ghosts %s", r, f[z + 1:])
            else:
                p = e[1]; x, y = f.index("it"), f.index("has")
                it = f[x + 1:y]; trip = sorted((int(a), int(b), float(c)) for a, b, c in zip(it[::3], it[1::3], it[2::3]))
                need(float(f[1]) == sum(p.values()), "part %d: size of the weight plan is %s, the weights inserted since the last clear add up to %s", r, f[1], sum(p.values()))
                want = sorted((u, v, float(w)) for (u, v), w in p.items())
                need(trip == want, "part %d: weight plan iterates %s, inserted %s", r, trip, want)
                got = []
                cur = None
                for tok in f[y + 1:]:
                    q = tok.split(":"); cur = int(q[0])
                    if len(q) == 1 or True:
                        for z in q[1:]: v, w = z.split("="); got.append((cur, int(v), float(w)))
                need(sorted(got) == want, "part %d: has/get report %s, inserted %s", r, sorted(got), want)

PLAN = {"quick": {"runs": [(1, 8000), (2, 8000), (3, 5000), (4, 4000)], "budget": 30},
        "thorough": {"runs": [(n, 60000) for n in (1, 2, 3, 4, 5)], "budget": 600}}
