"""B02: balancing honours the tolerance, moves weight from heavier to lighter neighbours only, and makes progress."""
from model import *
from bal import *
import math
RULE = "the criterion's imbalance was above its tolerance and balancing moved a vertex; distinct program texts are counted"

class State:
    """what one step of the balancer sees"""
    def __init__(self, m, dim, sides_t, ghosts):
        np = m.np
        self.w = [weight_of(m, r, dim, ghosts) for r in range(np)]
        self.sides = [dict() for _ in range(np)]
        self.total = [0.0] * np
        for r in range(np):
            for e in m.local_edges(sides_t, r):
                res = residence(m, e)
                if len(res) > 1:
                    for q in res:
                        if q != r: self.sides[r][q] = self.sides[r].get(q, 0.0) + e[2]
                    self.total[r] += e[2]
        self.avg = sum(self.total) / np
    def targets(self, m, p, step):
        """neighbour -> weight the part may send"""
        t = {}
        for q, side in self.sides[p].items():
            if m.hyper and not (side <= int(self.avg) or m.np == 2): continue
            if not self.w[p] > self.w[q]: continue
            if self.total[p] == 0: continue
            t[q] = (self.w[p] - self.w[q]) * (side / self.total[p]) * step
        return t

def cavities(m, p):
    """the local vertices of each boundary edge of type 0 of part p that can be selected"""
    for e in m.local_edges(0, p):
        if len(residence(m, e)) < 2: continue
        cav = set(v for v in m.ends(e) if m.part(v) == p)
        if 0 < len(cav) < 12: yield cav

def check_step(m0, m1, st, o, dim, ctx_label):
    """m0 -> m1 by one step"""
    np = m0.np
    for p in range(np):
        t = st.targets(m0, p, o["step"])
        out = [g for g in m0.local(p) if m1.part(g) != p]
        cavs = list(cavities(m0, p))
        # a larger cavity can go as well once enough of it is planned
        bnd = [[v for v in set(m0.ends(e)) if m0.part(v) == p] for e in m0.local_edges(0, p) if len(residence(m0, e)) > 1]
        reach = set(v for c in bnd for v in c)
        for g in out:
            q = m1.part(g)
            need(q in st.sides[p], "part %d sent vertex %d to part %d, with which it shares no cut edge", p, g, q)
            need(st.w[p] > st.w[q], "part %d (weight %r) sent vertex %d to part %d (weight %r), which is not lighter", p, st.w[p], g, q, st.w[q])
            need(q in t, "part %d sent vertex %d to part %d although their side %r is above the average %r", p, g, q, st.sides[p][q], st.avg)
            need(g in reach, "part %d sent vertex %d, which is on no boundary edge", p, g)
        total = sum(t.values())
        if dim == -1 and bnd:
            biggest = max(sum(sorted((m0.verts[v][0] for v in c), reverse=True)[:11]) for c in bnd)
            sent = sum(m0.verts[g][0] for g in out)
            need(sent <= total + biggest + m0.eps, "part %d sent vertex weight %r; its targets are %s and its heaviest cavity weighs %r", p, sent, t, biggest)
        # (no bound per neighbour: a vertex that was counted for one may still be planned for another instead)
        elif dim >= 0 and m0.hyper and bnd and t:
            # what the receivers gain at least: the edges of the vertices they get which no receiver has
            # (a vertex that was counted for one neighbour may still be planned for another instead)
            mine = m0.local_edges(dim, p); gone = set(out)
            biggest = max(sum(e[2] for e in mine if not set(c).isdisjoint(e[1])) for c in bnd)
            sent = sum(e[2] for e in mine if residence(m0, e).isdisjoint(t) and any(g in gone for g in e[1]))
            need(sent <= total + biggest + m0.eps, "part %d sent edge weight %r; its targets are %s and its heaviest cavity has %r", p, sent, t, biggest)
            if sent > total: ctx_label("over_target")
        # progress: a cavity all of whose neighbours are targets is sent when nothing else is
        if t and not out and not o.get("cut"):
            adj = {}
            for e in m0.local_edges(0, p):
                for v in m0.ends(e):
                    if m0.part(v) == p and (m0.hyper or v == e[0]): adj.setdefault(v, set()).update(residence(m0, e) - {p})
            for c in cavs:
                peers = set().union(*[adj.get(v, set()) for v in c])
                need(not peers or not all(t.get(q, 0) > 0 for q in peers), "part %d (weight %r) sent nothing to %s (targets %s) although the boundary vertices %s could go", p, st.w[p], sorted(peers), t, sorted(c))
        # two parts: the target is met or the boundary is used up
        if np == 2 and dim == -1 and t and not o.get("cut"):
            sent = sum(m0.verts[g][0] for g in out)
            left = [c for c in cavs if any(m1.part(v) == p for v in c)]
            need(sent >= total - m0.eps or not left or total <= 0, "part %d sent %r of its target %r and left boundary vertices %s", p, sent, total, [sorted(c) for c in left])

def scaled(s, ctx):
    """vertex weights in another unit: the same vertices move"""
    np = ctx.np
    m = gen_graph(s, ctx, np, nv=(4, 40), large=None, max_edges=s.pick([20, 40, 80]))
    classify(m, ctx); ctx.label("scaled")
    line, o = gen_balance(s, ctx, m, prios=[(-1, s.pick([1.0, 1.05, 1.1, 1.3]))], maxit=s.int(1, 20))
    if "pwb" in o: return
    k = s.pick([-12, -3, 1, 3, 9, 20, 33, 45])
    st = stage(m, s, how=s.pick(["a", "c", "f"]))
    res = []
    for f in (1.0, 2.0 ** k):
        def unit(l):
            w = l.split(" ")
            return " ".join(w[:2] + [num(float(x) * f) for x in w[2:] if x]) if w[1:2] == ["vwts"] else l
        outs = ctx.run("\n".join(["fresh 0"] + [unit(l) for l in st] + [line, "mark ===", "dump 0 w"]))
        x = m.copy()
        for v in x.verts.values(): v[0] *= f
        adopt(x, [parse_dump(sections(outs[r])[0])[0] for r in range(np)], "after balance")
        res.append({g: x.part(g) for g in x.verts})
    if any(res[0][g] != m.part(g) for g in m.verts): ctx.label("moved"); ctx.nontrivial()
    need(res[0] == res[1], "with all vertex weights multiplied by %r other vertices move: %s", 2.0 ** k, [(g, res[0][g], res[1][g]) for g in res[0] if res[0][g] != res[1][g]][:8])

def PROPERTY(s, ctx):
    np = ctx.np
    if np > 1 and s.bool(1, 6): return scaled(s, ctx)
    mode = s.weighted([("step", 6), ("run", 4)])
    m = gen_graph(s, ctx, np, large=(1, 60) if mode == "step" and np <= 4 else None, nv=(2, 28) if mode == "step" else (4, 40), max_edges=s.pick([20, 40, 80]))
    classify(m, ctx)
    big = s.weighted([(0, 12), (22, 1), (33, 1), (45, 1)])
    if big:                  # powers of two: the arithmetic on them is as exact as on small weights
        which = s.int(1, 3); ctx.label("huge_weights")
        if which & 1:
            for v in m.verts.values(): v[0] *= 2.0 ** big
        if which & 2:
            for es in m.types:
                for e in es: e[2] *= 2.0 ** big
    m.eps = 1e-9 * 2.0 ** big
    dims = [-1] * 3 + list(range(len(m.types)))
    dim = s.pick(dims)
    tol = s.pick([1.0, 1.0, 1.05, 1.1, 1.3, 2.0])
    line, o = build_line(s, ctx, m, dim, tol, mode)
    L = ["fresh 0"] + stage(m, s) + [line, "mark ===", "dump 0 w"]
    outs = ctx.run("\n".join(L))
    m0 = m.copy(); m0.eps = m.eps
    adopt(m, [parse_dump(sections(outs[r])[0])[0] for r in range(np)], "after balance")
    moved = [g for g in m.verts if m.part(g) != m0.part(g)]
    st = State(m0, dim, o["sides"], o["ghosts"])
    tot = sum(st.w)
    imb = imbalance(st.w)
    ctx.label("dim" + ("v" if dim < 0 else "e"), "mode_" + mode)
    if np == 1:
        need(not moved, "a serial balance moved vertices %s", moved); return
    if tot == 0:
        ctx.label("weightless"); return
    if abs(imb - tol) < 1e-9: return
    if imb < tol:
        ctx.label("within"); need(not moved, "the imbalance %r is within the tolerance %r, yet vertices %s moved", imb, tol, moved); return
    ctx.label("above")
    ctx.nontrivial(moved)
    if moved: ctx.label("moved")
    if mode == "step": check_step(m0, m, st, o, dim, ctx.label)
    if dim == -1 and not o["ghosts"] and np == 2 and o["step"] <= 0.5:
        # with two parts no step can carry the lighter one past the average by more than one cavity
        cav = heaviest_cavity(m0)
        end = [weight_of(m, r, dim) for r in range(np)]
        need(max(end) <= max(max(st.w), tot / 2 + cav) + m.eps, "the heaviest part weighs %r after balancing, %r before; average %r, heaviest cavity %r", max(end), max(st.w), tot / 2, cav)
        ctx.label("bounded")

def heaviest_cavity(m):
    if not m.hyper: return max(v[0] for v in m.verts.values())
    best = 0.0
    for e in m.types[0]:
        ws = sorted((m.verts[v][0] for v in e[1]), reverse=True)
        best = max(best, sum(ws[:11]))
    return best

def build_line(s, ctx, m, dim, tol, mode):
    o = {"step": s.pick([0.1, 0.1, 0.3, 0.5, 1.0]), "ghosts": 0, "sides": 0}
    L = "balance 0 %s -1 prio %d %s" % (num(o["step"]), dim, num(tol))
    L += " maxit %d" % (1 if mode == "step" else s.int(2, 40))
    if mode == "step": L += " maxper 0"
    elif s.bool(1, 3): L += " maxper %d" % s.int(1, 30)
    if s.bool(1, 3): L += " dq %d" % s.int(0, 1)
    if s.bool(1, 3): L += " push %d" % s.int(0, 1)
    if len(m.types) > 1 and s.bool(1, 3): o["sides"] = s.int(0, len(m.types) - 1); L += " sides %d" % o["sides"]
    if s.bool(1, 5): o["ghosts"] = 1; L += " ghosts 1"; ctx.label("count_ghosts")
    if s.bool(1, 6): o["cut"] = 1; L += " cut %s" % num(s.pick([0.1, 0.5, 1.0, 2.0])); ctx.label("limit_cut")
    return L, o

PLAN = {"quick": {"runs": [(2, 4000), (3, 4000), (4, 4000), (2, 3000), (5, 2000), (3, 3000), (7, 1500), (1, 100)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (2, 2, 3, 3, 4, 5, 6, 7)], "budget": 900}}
