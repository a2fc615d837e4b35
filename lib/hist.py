"""Histories of migrations applied to a model and as program text."""
from model import *
from bal import *

def gen_plan(s, m):
    """gid -> destination (None: not in the plan)"""
    kind = s.weighted([("few", 4), ("random", 4), ("empty", 1), ("drain", 2), ("rotate", 2), ("swap", 1), ("all", 2), ("onepart", 1)])
    gids = list(m.verts)
    plan = {}
    np = m.np
    if kind == "few":
        for g in s.sample(gids, s.int(1, 3)): plan[g] = s.int(0, np - 1)
    elif kind == "random":
        for g in gids:
            if s.bool(): plan[g] = s.int(0, np - 1)
    elif kind == "drain":
        p = s.int(0, np - 1)
        for g in m.local(p): plan[g] = s.int(0, np - 1)
    elif kind == "rotate":
        k = s.int(1, max(1, np - 1))
        for g in gids:
            if s.bool(3, 4): plan[g] = (m.part(g) + k) % np
    elif kind == "swap":
        a, b = s.int(0, np - 1), s.int(0, np - 1)
        for g in gids:
            if m.part(g) == a: plan[g] = b
            elif m.part(g) == b: plan[g] = a
    elif kind == "all":
        for g in gids: plan[g] = s.int(0, np - 1)
    elif kind == "onepart":
        p = s.int(0, np - 1)
        for g in gids: plan[g] = p
    return kind, plan

def step_migrate(m, s, ctx, slot=0, how=None):
    """one migration or repartition; updates m; returns program lines (the original owners must be set)"""
    how = how or s.weighted([("migrate", 4), ("repart", 2), ("timed", 1)])
    kind, plan = gen_plan(s, m)
    ctx.label("plan_" + kind, "how_" + how)
    L = []
    for r in range(m.np):
        mine = [(g, p) for g, p in plan.items() if m.part(g) == r]
        L.append("@%d dest %s" % (r, " ".join("%d %d" % x for x in mine)))
    # both ends of an edge move to different parts at once: the hard case for the ghost layer
    for T in m.types:
        for e in T:
            ds = set(plan[p] for p in m.ends(e) if p in plan and plan[p] != m.part(p))
            if len(ds) > 1: ctx.label("edge_scattered")
    if any(plan[g] != m.part(g) for g in plan): ctx.label("moved")
    if m.orig is None: m.orig = {g: v[1] for g, v in m.verts.items()}
    if how == "repart": L.append("repart %d" % slot)
    else:
        L.append("migrate %d%s" % (slot, " timed" if how == "timed" else ""))
    for g, p in plan.items(): m.verts[g][1] = p
    return L

def gen_history(m, s, ctx, steps, slot=0):
    L = []
    if m.orig is None:
        L.append("setorig %d" % slot); m.orig = {g: v[1] for g, v in m.verts.items()}
    for _ in range(steps): L += step_migrate(m, s, ctx, slot)
    return L

def edit_line(s, m, np):
    """destinations for any distribution: every part is told all of them"""
    kind = s.weighted([("few", 3), ("random", 4), ("all", 2), ("one", 1), ("empty", 1)])
    gids = list(m.verts)
    if kind == "few": gids = s.sample(gids, min(len(gids), s.int(1, 3)))
    elif kind == "random": gids = [g for g in gids if s.bool()]
    elif kind == "empty": gids = []
    p0 = s.int(0, np - 1)
    return "dest " + " ".join("%d %d" % (g, p0 if kind == "one" else s.int(0, np - 1)) for g in gids)

def legal_history(s, ctx, np, steps=(3, 16)):
    """any legal sequence of public calls: (lines, slot -> model, was it long and mixed enough)"""
    L, slots, files, tid = [], {}, [], 0
    mods, kinds = 0, set()
    for _ in range(s.int(*steps)):
        act = "build" if not slots else s.weighted([("build", 3), ("migrate", 5), ("balance", 4), ("wbalance", 2), ("query", 3), ("decorate", 2), ("tags", 2), ("report", 2),
                                                    ("save", 2), ("load", 2), ("remove", 2), ("weights", 2), ("destroy", 1), ("queue", 2), ("pcu", 2), ("vtk", 1), ("plan", 2), ("reset", 1)])
        i = s.int(0, 2) if act in ("build", "load") else (s.pick(sorted(slots)) if slots else 0)
        m = slots.get(i)
        if act == "load" and not files: act = "build"
        ctx.label("act_" + act)
        if act in ("build", "load", "migrate", "balance", "wbalance", "remove", "weights", "reset"): mods += 1; kinds.add(act)
        if act == "build":
            if m is None: L.append("fresh %d %s" % (i, s.pick(["", "c", "f"])))
            large = s.bool(1, 12)
            m = gen_model(s, np, nv=(0, 150) if large else (0, 18), max_edges=s.pick([10, 25, 200 if large else 40]), big=False, big_types=True, fine=True)
            if large: ctx.label("large")
            if m.hyper and m.verts and m.types and m.types[0] and s.bool(1, 12): grow_pins(s, m, s.pick([30, 101, 130])); ctx.label("large_hyperedge")
            L += stage(m, s, slot=i, how=s.weighted([(None, 4), ("c", 1), ("f", 1)])); m.known = True
            slots[i] = m
        elif act == "migrate":
            L += ["setorig %d" % i, edit_line(s, m, np), s.pick(["migrate %d", "migrate %d timed", "repart %d"]) % i]
        elif act == "balance":
            if m.types: L += ["setorig %d" % i, gen_balance(s, ctx, m, slot=i, maxit=s.int(1, 12))[0]]
        elif act == "wbalance":
            if m.types:
                L += ["setorig %d" % i, "wbalance %d %s %s %d %d -1" % (i, num(s.pick([1.0, 1.05, 1.5])), num(s.pick([0.1, 0.5, 1.0])), s.int(0, len(m.types) - 1), s.int(1, 8))]
                m.known = False
        elif act == "query": L += ["dump %d rw" % i, "trav %d" % i]
        elif act == "decorate":
            for t in range(len(m.types)):
                if s.bool(): L += ["mkvev %d %d %d" % (i, t, s.int(0, 1)), "vev %d %d" % (i, t)]
                if s.bool(): L += ["mkeve %d %d %d" % (i, t, s.int(0, 1)), "eve %d %d" % (i, t)]
        elif act == "tags":
            ids = []
            for _ in range(s.int(1, 4)):
                t = s.int(-1, len(m.types) - 1)
                L += ["mktag %d %d %s %d" % (tid, i, s.pick("idl"), t), "filltag %d %d" % (tid, s.int(0, 99))]; ids.append(tid); tid += 1
            for k in s.shuffle(ids): L += ["gettag %d" % k, "rmtag %d" % k]
        elif act == "report" and m.types: L += s.pick([["evalp %d" % i], ["metrics %d" % i], ["evalp %d name" % i, "metrics %d" % i], ["printstats %d" % i]])
        elif act == "save": f = "m%d" % len(files); files.append(m.copy()); files[-1].known, files[-1].lost = m.known, getattr(m, "lost", False); L.append("save %d %s %s" % (i, f, s.pick(["", "c"])))
        elif act == "load":
            k = s.int(0, len(files) - 1)
            if m is None: L.append("fresh %d" % i)
            m = slots[i] = files[k].copy(); m.known, m.lost = files[k].known, files[k].lost
            L.append("load %d m%d %s" % (i, k, s.pick(["", "f"])))
        elif act == "remove":
            if m.types:
                t = s.int(0, len(m.types) - 1); L.append("removeedges %d %d" % (i, t))
                # edges of a removed type are gone; ghosts that only it needed stay until the next migration
                if t == len(m.types) - 1: m.types.pop()
                else: m.types[t] = []
                m.loose = True
        elif act == "weights":
            if m.types and s.bool():
                t = s.int(0, len(m.types) - 1); w = s.real(0, 5); L.append("setew %d %d %s" % (i, t, num(w)))
                for e in m.types[t]: e[2] = w
            elif m.verts:
                ch = {g: s.real(0, 9, 4) for g in s.sample(list(m.verts), min(len(m.verts), s.int(1, 6)))}
                L.append("setweights %d %s" % (i, " ".join("%d %s" % (g, num(w)) for g, w in ch.items())))
                for g, w in ch.items(): m.verts[g][0] = w
                if not m.known: m.lost = True          # the weights the others have are not known
        elif act == "destroy": L.append("destroy %d %s" % (i, s.pick(["", "c", "f"]))); del slots[i]
        elif act == "queue":
            if m.types: L.append("queue %d %s" % (i, s.pick(["iter", "push", "pull"])))
        elif act == "pcu": L.append("barrier")
        elif act == "vtk":
            if m.coords: L.append("vtk %d v%d" % (i, len(L)))
        elif act == "plan":
            L.append("mgnew 0 %d" % i)
            for _ in range(s.int(0, 5)): L.append("mgins 0 %d %d %d" % (i, s.int(0, 9), s.int(0, np - 1)))
            L += ["mgdump 0 %d" % i] if s.bool() else ["mgclear 0"]
            L.append("mgdel 0")
        elif act == "reset": L.append(s.pick(["resetown %d", "resetpart %d"]) % i)
    return L, slots, mods >= 4 and len(kinds) >= 3
