"""G12: checkValidity accepts consistent graphs and rejects corrupt ones."""
from model import *
from hist import gen_history
RULE = "the graph has an edge and was judged after a change (migration or corruption); distinct program texts are counted"

def counted(m, t, part_of):
    """edges and pins the parts together count for type t when part r believes part_of(r, v)"""
    j = k = 0
    for r in range(m.np):
        for e in m.local_edges(t, r):
            if not m.hyper or min(part_of(r, p) for p in m.ends(e)) >= r: j += 1; k += len(m.ends(e))
    return j, k

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 14), max_edges=14, fine=True, big_types=True, large=(1, 80))
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    for _ in range(s.int(0, 2)): L += gen_history(m, s, ctx, 1); ctx.nontrivial(any(m.types))
    L += ["mark ===", "valid 0"]
    nt = len(m.types)
    gh = [(r, g) for r in range(np) for g in sorted(m.ghosts(r))]
    opts = [("gverts", 2), ("gedges", 2), ("gpins", 2), ("none", 1)]
    if gh: opts += [("self", 4), ("range", 4), ("negative", 2), ("other", 4)]
    if any(m.types): opts += [("lpins", 3)]
    # a local vertex v of an edge, and another vertex that the same part knows
    unpin = [(r, t, e[0], v) for r in range(np) for t in range(nt) if m.hyper for e in m.local_edges(t, r) for v in sorted(set(m.ends(e))) if m.part(v) == r] if len(m.verts) <= 64 else []
    unpin = [x for x in unpin if len(m.local(x[0])) + len(m.ghosts(x[0])) > 1]
    if unpin: opts += [("pin", 3)]
    what = s.weighted(opts)
    t = s.int(0, nt - 1); dlt = s.pick([1, -1, 5])
    false_on = set(); ctx.label("corrupt_" + what)
    ctx.nontrivial(what != "none" and any(m.types))
    sure_true = what == "none"
    if what in ("gverts", "gedges", "gpins", "lpins"):
        who = s.int(0, np - 1) if s.bool(1, 2) else None; ctx.label("one_part" if who is not None else "all_parts")
        L.append("%scorrupt 0 %s %s%d" % ("" if who is None else "@%d " % who, what, "" if what == "gverts" else "%d " % t, dlt))
        false_on = set(range(np)) if who is None else {who}
    elif what == "pin":
        # the part's copy of an edge forgets one of its vertices
        r, t, e, v = s.pick(unpin); u = s.pick([x for x in sorted(m.local(r)) + sorted(m.ghosts(r)) if x != v])
        L.append("@%d corrupt 0 pin %d %d %d %d" % (r, t, e, v, u)); false_on = {r}
    elif what in ("self", "range", "negative", "other"):
        r, g = s.pick(gh)
        if what == "self": o = r
        elif what == "range": o = np + s.int(0, 3)
        elif what == "negative": o = -1 - s.int(0, 2)
        else:
            o = s.int(0, np - 1)
            if o == r: o = m.part(g)
        L.append("@%d corrupt 0 ghost %d %d" % (r, g, o))
        if what != "other": false_on = {r}
        bel = lambda q, v: o if (q == r and v == g) else m.part(v)
        if any(counted(m, x, bel) != counted(m, x, lambda q, v: m.part(v)) for x in range(nt)):
            false_on = set(range(np)); ctx.label("miscounted")
    L += ["valid 0"]
    outs = ctx.run("\n".join(L))
    unsupported = any("unsupported" in o for o in outs)
    if unsupported: ctx.label("unsupported"); false_on = set(); sure_true = True
    for r in range(np):
        sec = [l for l in sections(outs[r])[0] if l != "unsupported"]
        need(sec[0] == "valid 1 0", "part %d: a consistent graph is judged %r", r, sec[0])
        if r in false_on: need(sec[1].split()[1] == "0", "part %d: checkValidity accepts a graph with a corruption: %s", r, L[-2])
        elif sure_true: need(sec[1] == "valid 1 0", "part %d: second call: %r", r, sec[1])

PLAN = {"quick": {"runs": [(1, 4000), (2, 5000), (3, 5000), (4, 4000), (5, 3000)], "budget": 35},
        "thorough": {"runs": [(n, 50000) for n in (1, 2, 3, 4, 4, 5, 6, 7)], "budget": 900}}
