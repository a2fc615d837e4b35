"""B01: diffusive balancing only moves vertices."""
from model import *
from bal import *
RULE = "balancing moved a vertex; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_graph(s, ctx, np, fine=True)
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    n = s.weighted([(1, 5), (2, 3), (3, 1)])
    if np == 1 or s.bool(1, 4): L.append("setorig 0")   # in serial nothing else records the owners
    for _ in range(n):
        L += [gen_balance(s, ctx, m)[0], "mark ===", "dump 0 cow", "getpart 0", "valid 0"]
    outs = ctx.run("\n".join(L))
    secs = [sections(o) for o in outs]
    orig = {g: v[1] for g, v in m.verts.items()}
    for k in range(n):
        what = "after balance %d" % (k + 1)
        ds = [parse_dump(secs[r][k]) for r in range(np)]
        adopt(m, [d for d, _ in ds], what)
        ctx.nontrivial(any(m.part(g) != orig[g] for g in orig))
        for r in range(np):
            d, i = ds[r]
            check_content(m, r, d, what); check_ghosts(m, r, d, what, gweights=np > 1); check_counts(m, r, d, what)
            for v in d.verts: need(v["o"] == orig[v["gid"]], "%s: part %d originalOwner(%d)=%d, expected %d", what, r, v["gid"], v["o"], orig[v["gid"]])
            got, i = read_map(secs[r][k], i)
            want = {g: m.part(g) for g in m.verts if orig[g] == r}
            need(got == want, "%s: getPartition of part %d is %s, expected %s", what, r, got, want)
            need(secs[r][k][i] == "valid 1 0", "%s: checkValidity of part %d: %r", what, r, secs[r][k][i])
    if any(m.part(g) != orig[g] for g in orig): ctx.label("moved")

PLAN = {"quick": {"runs": [(2, 3000), (3, 3000), (4, 3000), (5, 2000), (4, 3000), (7, 1500), (1, 200)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}
