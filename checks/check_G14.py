"""G14: a reused graph keeps nothing of its previous content."""
from model import *
from hist import gen_history
RULE = "the graph object was rebuilt over content or had an edge type removed; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    L = ["fresh 0"]
    m = None; exp = []
    saved = []
    def look(kind):
        L.extend(["mark ===", "dump 0 cw", "wpart 0"]); exp.append((kind, m.copy()))
    def leave():
        """the content that is about to be replaced has moved weight around"""
        if np > 1 and m is not None and m.verts and m.types and s.bool(1, 2):
            ctx.label("weights_moved_before"); L.extend(["setorig 0", "wbalance 0 %s %s %d %d -1" % (num(s.pick([1.0, 1.05])), num(s.pick([0.1, 0.5, 1.0])), s.int(0, len(m.types) - 1), s.int(1, 6))])
    for i in range(s.int(2, 6)):
        act = "build" if m is None else s.weighted([("build", 4), ("remove", 5), ("migrate", 4), ("decorate", 3), ("load", 2), ("save", 2)])
        if act == "load" and not saved: act = "build"
        if act == "remove" and not m.types: act = "build"
        ctx.label("act_" + act)
        if act == "build":
            if m is not None: ctx.nontrivial(); leave()
            m = gen_model(s, np, nv=(1, 10), max_edges=10, ntypes=s.weighted([(1, 2), (2, 4), (3, 3), (5, 1)]), big=False, fine=True)
            classify(m, ctx)
            L += stage(m, s); m.stale = False; look("new")
        elif act == "remove":
            t = s.int(0, len(m.types) - 1)
            ctx.nontrivial(); ctx.label("remove_last" if t == len(m.types) - 1 else "remove_inner")
            L.append("removeedges 0 %d" % t)
            if t == len(m.types) - 1: m.types.pop()
            else: m.types[t] = []
            look("content")
        elif act == "migrate": L += gen_history(m, s, ctx, 1); look("full")
        elif act == "save": L.append("save 0 f%d" % len(saved)); saved.append(m.copy())
        elif act == "load":
            leave(); k = s.int(0, len(saved) - 1); m = saved[k].copy(); m.orig = None; ctx.nontrivial()
            L.append("load 0 f%d" % k); look("new")
        else:
            L.append("setorig 0")
            if m.orig is None: m.orig = {g: v[1] for g, v in m.verts.items()}
            for t in range(len(m.types)):
                if s.bool(): L.append("mkvev 0 %d %d" % (t, s.int(0, 1)))
                if s.bool(): L.append("mkeve 0 %d %d" % (t, s.int(0, 1)))
    L += ["mark ===", "valid 0", "trav 0"]
    if m.orig is None: L += ["setorig 0"]; m.orig = {g: v[1] for g, v in m.verts.items()}
    L += ["mark ===", "dump 0 o"]
    outs = ctx.run("\n".join(L))
    import check_G02
    for r in range(np):
        secs = sections(outs[r])
        need(len(secs) == len(exp) + 2, "part %d: %d reports", r, len(secs))
        for k, ((kind, mm), sec) in enumerate(zip(exp, secs)):
            sec = [x for x in sec if not x.startswith("T ")]
            d, j = parse_dump(sec); w = "report %d" % k
            check_content(mm, r, d, w); check_counts(mm, r, d, w)
            if not mm.coords: need(d.n[5] == 0, "%s: part %d still has coordinates", w, r)
            if kind == "new": need(not any(x.startswith("wp ") for x in sec), "%s: part %d: a graph that was just built or loaded has moved weight: %s", w, r, [x for x in sec if x.startswith("wp ")])
            if kind != "content": check_ghosts(mm, r, d, w, gweights=np > 1)
        need("valid 1 0" in secs[-2], "part %d: final checkValidity: %r", r, secs[-2][:1])
        dd, j = parse_dump(secs[-1])
        for v in dd.verts: need(v["o"] == m.orig[v["gid"]], "part %d: original owner of %d is %d, expected %d", r, v["gid"], v["o"], m.orig[v["gid"]])
        e = check_G02.check_trav(m, r, dd, secs[-2], secs[-2].index("valid 1 0") + 1)

PLAN = {"quick": {"runs": [(1, 3000), (2, 4000), (3, 4000), (4, 3000), (5, 2000)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 4, 5, 6, 7)], "budget": 900}}
