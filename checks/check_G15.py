"""G15: migration timers account for every update."""
from model import *
from hist import gen_history
RULE = "some timer was updated after a later timer was added, or in a migration; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    L = []; names = []; tm = {}
    exp = []
    def read():
        L.append("tmget " + " ".join(names)); exp.append({n: [list(x) for x in tm[n]] for n in names})
    for _ in range(s.int(1, 40)):
        a = s.weighted([("upd", 6), ("add", 3), ("read", 2)])
        if a == "add" or not names:
            n = "t%d" % len(names)
            if names and s.bool(1, 8): n = names[0] + "x"
            if n in tm: continue
            names.append(n); tm[n] = [[0.0, 0] for _ in range(np)]; L.append("tmadd " + n)
        elif a == "upd":
            n = s.pick(names)
            for r in range(np):
                k = s.int(0, 2)
                for _ in range(k):
                    v = s.real(0, 30); L.append("@%d tmupd %s %s" % (r, n, num(v))); tm[n][r][0] += v; tm[n][r][1] += 1
            if n != names[-1]: ctx.nontrivial()
        else: read()
    if names: read()
    if len(names) > 16: ctx.label("timers>16")
    ctx.label("np%d" % np)
    mig = s.bool(1, 3)
    if mig:
        m = gen_model(s, np, nv=(1, 8), max_edges=6)
        L += ["fresh 0"] + stage(m, s); k = s.int(1, 3)
        m.orig = {g: v[1] for g, v in m.verts.items()}; L += ["setorig 0", "tmstages"]
        from hist import gen_plan
        for _ in range(k):
            kind, plan = gen_plan(s, m)
            for r in range(np): L.append("@%d dest %s" % (r, " ".join("%d %d" % (g, p) for g, p in plan.items() if m.part(g) == r)))
            L.append("migrate 0 shared")
            for g, p in plan.items(): m.verts[g][1] = p
        L.append("tmcheck"); ctx.label("migrations"); ctx.nontrivial()
    outs = ctx.run("\n".join(L))
    for r in range(np):
        lines = [l for l in outs[r] if l.startswith("tm")]; i = 0
        for e in exp:
            for n in e:
                f = lines[i].split(); i += 1
                need(f[1] == n, "part %d: timer %r", r, f)
                per = e[n]; vals = list(map(float, f[2:]))
                want = [per[r][0], per[r][1], max(p[0] for p in per), sum(p[0] for p in per) / np]
                need(vals[:2] == want[:2], "part %d timer %s: time,count = %s, updates sum to %s", r, n, vals[:2], want[:2])
                need(abs(vals[2] - want[2]) < 1e-9 and abs(vals[3] - want[3]) < 1e-9, "part %d timer %s: max,avg = %s, expected %s", r, n, vals[2:4], want[2:])
                if all(p[1] for p in per):
                    q = [p[0] / p[1] for p in per]
                    need(len(vals) == 6 and abs(vals[4] - max(q)) < 1e-9 and abs(vals[5] - sum(q) / np) < 1e-9, "part %d timer %s: per call max,avg = %s, expected %s %s", r, n, vals[4:], max(q), sum(q) / np)
        if mig:
            f = lines[i].split(); need(f[0] == "tmc" and list(map(int, f[1:5])) == [k] * 4, "part %d: stage counts %s after %d migrations", r, f[1:5], k)
            need(f[5] == "1", "part %d: a migration's total time is below its stages: %s", r, f)

PLAN = {"quick": {"runs": [(1, 8000), (2, 8000), (3, 5000), (4, 4000)], "budget": 30},
        "thorough": {"runs": [(n, 60000) for n in (1, 2, 3, 4, 5)], "budget": 600}}
