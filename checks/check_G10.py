"""G10: tags behave as independent per-entity variables."""
from model import *
from hist import gen_history
RULE = "at least two tags were alive and written; distinct program texts are counted"
VTX = None

def gen_value(s, k):
    if k == "i": return s.pick([0, 1, -1, 2**31 - 1, -2**31, s.int(0, 2**31 - 1), -s.int(0, 2**31 - 1)])
    if k == "l": return s.pick([0, -1, 2**63 - 1, -2**63, 2**32, 2**31, s.int(0, 2**62), -s.int(0, 2**62)])
    return s.pick([0.0, -1.5, 1e308, -1e-308, 0.1, 2**53 + 2.0, s.int(0, 10**9) / 7])

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 10), max_edges=10, ntypes=s.weighted([(1, 3), (2, 4), (3, 2)]), big=False)
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s) + ["mark ==="]
    alive = {}      # id -> (kind, t, [per rank list])
    nxt = 0
    exp = [[] for _ in range(np)]
    writes = set()
    def count(t, r): return len(m.local(r)) if t < 0 else len(m.local_edges(t, r))
    for _ in range(s.int(3, 25)):
        act = s.weighted([("set", 8), ("make", 4), ("fill", 3), ("get", 4), ("kill", 1)])
        if act == "make" or not alive:
            k = s.pick("idl"); t = s.int(-1, len(m.types) - 1)
            L.append("mktag %d 0 %s %d" % (nxt, k, t)); L.append("filltag %d 5" % nxt)
            alive[nxt] = (k, t, [[5 + i for i in range(count(t, r))] for r in range(np)]); nxt += 1
            continue
        i = s.pick(sorted(alive)); k, t, vals = alive[i]
        if act == "fill":
            b = s.int(0, 1000); L.append("filltag %d %d" % (i, b))
            for r in range(np): vals[r][:] = [b + j for j in range(len(vals[r]))]
            writes.add(i)
        elif act == "set":
            r = s.int(0, np - 1)
            if not vals[r]: continue
            j = s.int(0, len(vals[r]) - 1); v = gen_value(s, k)
            L.append("@%d settag %d %d %s" % (r, i, j, repr(v))); vals[r][j] = v; writes.add(i)
        elif act == "kill":
            L.append("rmtag %d" % i); del alive[i]; ctx.label("destroyed")
        else:
            L.append("gettag %d" % i)
            for r in range(np): exp[r].append((i, k, list(vals[r])))
    for i in sorted(alive):
        L.append("gettag %d" % i)
        for r in range(np): exp[r].append((i, alive[i][0], list(alive[i][2][r])))
        ctx.label("kind_" + alive[i][0], "on_vertices" if alive[i][1] < 0 else "on_edges")
    for i in sorted(alive): L.append("rmtag %d" % i)
    ctx.nontrivial(len(writes) >= 2)
    outs = ctx.run("\n".join(L))
    for r in range(np):
        sec = sections(outs[r])[0]
        need(len(sec) == len(exp[r]), "part %d: %d answers, expected %d", r, len(sec), len(exp[r]))
        for line, (i, k, vals) in zip(sec, exp[r]):
            f = line.split()
            need(f[:2] == ["tag", str(i)], "part %d: %r", r, line)
            got = [float(x) if k == "d" else int(x) for x in f[2:]]
            need(got == vals, "part %d tag %d (%s): values %s, last set to %s", r, i, k, got, vals)

PLAN = {"quick": {"runs": [(1, 8000), (2, 8000), (3, 6000), (4, 4000)], "budget": 35},
        "thorough": {"runs": [(n, 60000) for n in (1, 1, 2, 2, 3, 4)], "budget": 900}}
