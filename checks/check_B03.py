"""B03: a completed priority is not spoiled by the later ones."""
from model import *
from bal import *
RULE = "a later priority moved vertices after an earlier one was complete; distinct program texts are counted"

def during(s, ctx):
    """vertices are balanced first; what they weigh when that is over is read from the balancer's own report"""
    np = ctx.np
    m = gen_graph(s, ctx, np, nv=(6, 40), large=None, max_edges=s.pick([20, 40, 80]))
    classify(m, ctx)
    tot = sum(v[0] for v in m.verts.values())
    if tot == 0: return
    tol = s.pick([1.0, 1.05, 1.1, 1.3, 2.0])
    line = "balance 0 %s 0 prio -1 %s" % (num(s.pick([0.1, 0.3, 0.5])), num(tol))
    for _ in range(s.int(1, 2)): line += " prio %d %s" % (s.int(0, len(m.types) - 1), num(s.pick([1.0, 1.05])))
    line += " maxit %d maxper %d cap" % (200 if len(m.verts) <= 64 else 25, s.int(0, 12))
    outs = ctx.run("\n".join(["fresh 0"] + stage(m, s) + ["mark ===", line, "mark ===", "dump 0 w"]))
    m0 = m.copy()
    adopt(m, [parse_dump(sections(outs[r])[1])[0] for r in range(np)], "after balance")
    start = [l.split("imbalances:")[1].split() for l in sections(outs[0])[0] if "Starting diffusion on" in l]
    need(start, "no report of the balancer: %s", sections(outs[0])[0])
    if len(start) < 2: return
    avg = tot / np
    limit = avg * max(float(start[1][0]) + 5.1e-5, tol)
    end = max(weight_of(m, r, -1) for r in range(np))
    ctx.label("during")
    if any(m.part(g) != m0.part(g) for g in m.verts): ctx.label("moved"); ctx.nontrivial()
    if end > limit * 0.98: ctx.label("close_to_limit")
    need(end <= limit + 1e-9, "the vertices were left with imbalance %s (tolerance %r); afterwards the heaviest part weighs %r, %r times the average", start[1][0], tol, end, end / avg)

def room(s, ctx):
    """completed criteria with room for everything change nothing"""
    np = ctx.np
    m = gen_graph(s, ctx, np, nv=(4, 40), large=None, max_edges=s.pick([20, 40, 80]), hyper=s.bool(2, 3))
    classify(m, ctx); ctx.label("room")
    dims = [d for d in [-1] + list(range(len(m.types))) if sum(weight_of(m, r, d) for r in range(np))]
    if not dims: return
    done = [s.pick(dims) for _ in range(s.int(1, 3))]
    line, o = gen_balance(s, ctx, m, prios=[(s.pick([-1] + list(range(len(m.types)))), s.pick([1.0, 1.0, 1.05, 1.1, 1.3]))], maxit=s.pick([1, 1, 2, 5, 20]))
    i = line.index(" prio")
    # a part has room for all there is of criterion d, on every part, when its limit is 2*np times the total of d
    tol = s.pick([10**6, 2 * np * np])
    if tol < 10**6: ctx.label("room_just_enough")
    full = line[:i] + "".join(" prio %d %d" % (d, tol) for d in done) + line[i:]
    st = ["fresh 0"] + stage(m, s)
    res = []
    for l in (line, full):
        outs = ctx.run("\n".join(st + [l, "mark ===", "dump 0 w"]))
        x = m.copy()
        adopt(x, [parse_dump(sections(outs[r])[0])[0] for r in range(np)], "after balance")
        res.append({g: x.part(g) for g in x.verts})
    if any(res[0][g] != m.part(g) for g in m.verts): ctx.label("moved"); ctx.nontrivial()
    need(res[0] == res[1], "criteria %s are complete with tolerance %d, room for everything, yet with them other vertices move: %s", done, tol, [(g, m.part(g), res[0][g], res[1][g]) for g in res[0] if res[0][g] != res[1][g]][:8])

def PROPERTY(s, ctx):
    np = ctx.np
    if s.bool(1, 6): return room(s, ctx)
    if s.bool(1, 4): return during(s, ctx)
    m = gen_graph(s, ctx, np, nv=(4, 36), large=None, max_edges=s.pick([20, 40, 80]), hyper=s.bool(2, 3))
    classify(m, ctx)
    # criteria whose incoming weight the receiver can compute: vertices, and hyperedges
    dims = [-1] + (list(range(len(m.types))) if m.hyper else [])
    ndone = s.weighted([(1, 6), (2, 4), (3, 2), (8, 1)])
    done, prios = [], []
    for _ in range(ndone):
        d = s.pick(dims)
        ws = [weight_of(m, r, d) for r in range(np)]
        if sum(ws) == 0: continue
        imb = imbalance(ws)
        # already complete: a tolerance just above, or well above, the present imbalance
        tol = imb + s.pick([0.001, 0.001, 0.01, 0.05, 0.3])
        done.append((d, max(max(ws), sum(ws) / np * tol)))
        prios.append((d, tol))
    if not done: return
    if len(done) > 5: ctx.label("many_priorities")
    last = [(s.pick([-1] + list(range(len(m.types)))), s.pick([1.0, 1.0, 1.05, 1.1])) for _ in range(s.weighted([(1, 5), (2, 2)]))]
    step = s.pick([0.1, 0.3, 0.5, 1.0])
    L = ["fresh 0"] + stage(m, s)
    line = "balance 0 %s -1" % num(step)
    for d, t in prios + last: line += " prio %d %s" % (d, num(t))
    line += " maxit %d" % (s.pick([100, 100, 5, 20]) if len(m.verts) <= 64 else s.pick([3, 10, 20]))
    if s.bool(1, 2): line += " maxper %d" % s.int(0, 12)
    if s.bool(1, 3): line += " dq %d push %d" % (s.int(0, 1), s.int(0, 1))
    if len(m.types) > 1 and s.bool(1, 3): line += " sides %d" % s.int(0, len(m.types) - 1)
    if s.bool(1, 6): line += " cut 1"; ctx.label("limit_cut")
    if s.bool(1, 5): line += " minconn %d conntype %d" % (s.int(1, 3), s.int(0, len(m.types) - 1)); ctx.label("minconn")
    outs = ctx.run("\n".join(L + [line, "mark ===", "dump 0 w"]))
    m0 = m.copy()
    adopt(m, [parse_dump(sections(outs[r])[0])[0] for r in range(np)], "after balance")
    moved = any(m.part(g) != m0.part(g) for g in m.verts)
    ctx.label(*["done%d" % d for d, _ in done]); ctx.label("moved" if moved else "still")
    ctx.nontrivial(moved)
    for d, limit in done:
        ws = [weight_of(m, r, d) for r in range(np)]
        if max(ws) > limit * 0.98: ctx.label("close_to_limit")
        need(max(ws) <= limit + 1e-9, "criterion %d was complete with limit %r (part weights %s); afterwards part %d weighs %r", d, limit,
             [weight_of(m0, r, d) for r in range(np)], ws.index(max(ws)), max(ws))

PLAN = {"quick": {"runs": [(2, 3000), (3, 5000), (4, 5000), (3, 4000), (5, 3000), (6, 2000), (7, 1500)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 3, 4, 4, 5, 6, 7)], "budget": 900}}
