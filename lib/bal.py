"""Generators of balancing inputs and the reference formulas of the criteria."""
from model import *

def weight_of(m, r, dim, ghosts=False):
    if dim < 0:
        w = sum(m.verts[g][0] for g in m.local(r))
        if ghosts: w += sum(m.verts[g][0] for g in m.ghosts(r))
        return w
    return sum(e[2] for e in m.local_edges(dim, r))

def imbalance(ws):
    tot = sum(ws)
    return max(ws) / (tot / len(ws)) if tot else float("nan")

def residence(m, e): return set(m.part(p) for p in m.ends(e))

def gen_balance(s, ctx, m, slot=0, simple=False, prios=None, maxit=None):
    """returns (program line, options)"""
    o = {}
    dims = [-1] + list(range(len(m.types)))
    if prios is None:
        k = s.weighted([(1, 5), (2, 4), (3, 2), (7, 1)])
        prios = [(s.pick(dims), s.pick([1.0, 1.01, 1.05, 1.1, 1.3, 2.0])) for _ in range(k)]
        if k > 5: ctx.label("many_priorities")
    o["prios"] = prios
    o["step"] = s.pick([0.1, 0.1, 0.3, 0.5, 1.0])
    L = "balance %d %s %d" % (slot, num(o["step"]), s.weighted([(-1, 6), (0, 1), (2, 1), (3, 1)]))
    for t, tol in prios: L += " prio %d %s" % (t, num(tol))
    maxit = s.int(1, 30) if maxit is None else maxit
    L += " maxit %d" % (maxit if len(m.verts) <= 64 else min(maxit, 8))
    if s.bool(1, 2): L += " maxper %d" % s.int(0, 12)
    if s.bool(1, 3): o["dq"] = s.int(0, 1); L += " dq %d" % o["dq"]
    if s.bool(1, 3): L += " push %d" % s.int(0, 1)
    if len(m.types) > 1 and s.bool(1, 3): o["sides"] = s.int(0, len(m.types) - 1); L += " sides %d" % o["sides"]
    if not simple:
        if s.bool(1, 4): o["ghosts"] = 1; L += " ghosts 1"; ctx.label("count_ghosts")
        if s.bool(1, 4): o["minconn"] = s.int(1, 3); L += " minconn %d conntype %d" % (o["minconn"], s.int(0, len(m.types) - 1)); ctx.label("minconn")
        if s.bool(1, 4): o["cut"] = 1; L += " cut %s" % num(s.pick([0.1, 0.5, 1.0, 2.0]))
        if s.bool(1, 5): o["pwb"] = 1; L += " pwb 1"; ctx.label("part_weight_balancer")
    return L, o

def gen_graph(s, ctx, np, **kw):
    kw = dict(dict(nv=(1, 24), max_edges=30, ntypes=s.weighted([(1, 5), (2, 4), (3, 2)]), large=(1, 60) if np <= 4 else None, most=260), **kw)
    m = gen_model(s, np, **kw)
    if m.hyper and s.bool(1, 25):
        grow_pins(s, m, s.pick([30, 101, 130])); ctx.label("large_hyperedge")
    return m
