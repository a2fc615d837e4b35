"""G04: residence, isResidentOn, isCut and owner match the true distribution."""
from model import *
from hist import gen_history
RULE = "some edge spans several parts; distinct program texts are counted"

def renamed_cut(m, r, d, f, np, what):
    """like check_cut, with part p of the model known as f[p]"""
    for v in d.verts: need(v["own"] == f[r], "%s: part %d reports owner %d for its own vertex %d", what, f[r], v["own"], v["gid"])
    for v in d.ghosts: need(v["own"] == f[m.part(v["gid"])], "%s: part %d reports owner %d for ghost %d, which is on part %d", what, f[r], v["own"], v["gid"], f[m.part(v["gid"])])
    for t in range(len(m.types)):
        for e in d.types[t]["edges"]:
            res = sorted(set(f[m.part(p)] for p in e["pins"]))
            need(e["res"] == res, "%s: part %d type %d edge %s: residence %s, expected %s", what, f[r], t, e["pins"], e["res"], res)
            need(e["cut"] == int(len(res) > 1), "%s: part %d type %d edge %s: isCut=%d, its vertices are on %s", what, f[r], t, e["pins"], e["cut"], res)
            on = [int(p in res) for p in range(np)]
            need(e["on"] == on, "%s: part %d type %d edge %s: isResidentOn %s, expected %s", what, f[r], t, e["pins"], e["on"], on)

def PROPERTY(s, ctx):
    np = ctx.np
    sub = np > 1 and s.bool(1, 3)
    k = s.int(1, np) if sub else np
    m = gen_model(s, k, nv=(1, 14), max_edges=16, fine=True, large=(1, 80))
    classify(m, ctx)
    hist = s.int(0, 2)
    body = ["fresh 0"] + stage(m, s) + ["mark ===", "dump 0 r"]
    m0 = m.copy(); m0.order = m.order
    after = []
    for _ in range(hist):
        body += gen_history(m, s, ctx, 1) + ["mark ===", "dump 0 r"]
        after.append(m.copy())
    allm = [m0] + after
    ctx.nontrivial(any(x.ghosts(r) for x in allm for r in range(k)))
    ctx.label("hist%d" % hist, "sub" if sub else "full")
    # renumbering: parts move to other ranks of another communicator
    ranks = s.sample(list(range(np)), k) if sub else list(range(np))
    L = []
    if sub: L += ["group a " + " ".join(map(str, ranks))] + switch(np, ranks, "a")
    L += place(body, ranks, "a") if sub else body
    perm = s.shuffle(list(range(np)))          # perm[i] = world rank that gets rank i
    L += ["group b " + " ".join(map(str, perm)), "usecomm b"]
    newrank = {w: i for i, w in enumerate(perm)}
    f = [newrank[ranks[p]] for p in range(k)]
    if f != list(range(k)): ctx.label("renumbered")
    tail = ["changeowners 0 " + " ".join(map(str, f)), "mark ===", "dump 0 r"]
    L += place(tail, ranks, "a") if sub else tail
    outs = ctx.run("\n".join(L))
    for p in range(k):
        secs = sections(outs[ranks[p]])
        need(len(secs) == hist + 2, "part %d: %d reports", p, len(secs))
        for mm, sec in zip(allm, secs):
            d, j = parse_dump(sec)
            check_content(mm, p, d, "graph", coords=False); check_ghosts(mm, p, d, "graph")
            renamed_cut(mm, p, d, list(range(k)), k, "graph")
        d, j = parse_dump(secs[-1])
        renamed_cut(m, p, d, f, np, "after changeOwners %s" % f)

PLAN = {"quick": {"runs": [(1, 1000), (2, 3000), (3, 4000), (4, 4000), (5, 3000), (7, 1500)], "budget": 45},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}
