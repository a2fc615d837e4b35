"""G07: getPartition maps every original vertex to its current part."""
from model import *
from hist import step_migrate
RULE = "some vertex is away from its original part when the map is read; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 16), max_edges=10)
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    exp = []
    n = s.int(1, 7)
    for i in range(n):
        if m.orig is None: act = s.pick(["setorig", "resetown", "resetpart", "repart"])
        else: act = s.weighted([("migrate", 6), ("repart", 3), ("resetown", 1), ("resetpart", 1), ("setorig", 1), ("read", 2)])
        if act in ("setorig", "resetown", "resetpart"):
            L.append(act + " 0")
            if act != "setorig" or m.orig is None: m.orig = {g: v[1] for g, v in m.verts.items()}
            else: ctx.label("setorig_again")
        elif act in ("migrate", "repart"): L += step_migrate(m, s, ctx, how=act)
        ctx.label("act_" + act)
        if s.bool(2, 3) or i == n - 1:
            L += ["mark ===", "getpart 0", "dump 0 o"]
            exp.append(m.copy())
    ctx.nontrivial(any(mm.orig[g] != mm.part(g) for mm in exp for g in mm.verts))
    outs = ctx.run("\n".join(L))
    for r in range(np):
        secs = sections(outs[r])
        need(len(secs) == len(exp), "part %d: %d reports", r, len(secs))
        for k, (mm, sec) in enumerate(zip(exp, secs)):
            got = {}
            i = 0
            while sec[i].startswith("m "):
                g, p = map(int, sec[i].split()[1:]); got[g] = p; i += 1
            want = {g: mm.part(g) for g in mm.verts if mm.orig[g] == r}
            need(got == want, "report %d: getPartition of part %d is %s, expected %s", k, r, sorted(got.items()), sorted(want.items()))
            need(sec[i] == "mend %d" % len(want), "report %d: part %d map size %r", k, r, sec[i]); i += 1
            d, j = parse_dump(sec, i)
            for v in d.verts: need(v["o"] == mm.orig[v["gid"]], "report %d: part %d originalOwner(%d)=%d, expected %d", k, r, v["gid"], v["o"], mm.orig[v["gid"]])

PLAN = {"quick": {"runs": [(2, 4000), (3, 4000), (4, 4000), (5, 3000), (4, 3000), (7, 1500)], "budget": 45},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}
