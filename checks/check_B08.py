"""B08: the C and Fortran interfaces do what the C++ calls do."""
from model import *
from bal import *
from split import split_case
import os
RULE = "an operation of the C or Fortran interface acted on a graph with several vertices; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    kind = s.weighted([("build", 4), ("file", 3), ("balance", 3), ("split", 2 if np > 1 else 0)])
    lang = lambda: s.pick(["c", "f"])
    ctx.label(kind)
    if kind == "split":
        l = lang(); ctx.label("split_" + l); split_case(s, ctx, l); return
    sub = np > 1 and s.bool(1, 4)             # on a sub-communicator set through the interface
    k = s.int(1, np) if sub else np
    ranks = s.sample(list(range(np)), k) if sub else list(range(np))
    m = gen_graph(s, ctx, k, big=kind != "file", fine=True)      # the file format has 32-bit numbers
    classify(m, ctx)
    l0 = lang()
    L = []
    if sub:
        ctx.label("sub"); L.append("group a " + " ".join(map(str, ranks)))
        for r in range(np): L.append("@%d ccomm %s %s" % (r, lang(), "a" if r in ranks else "self"))
        L.append("# usecomm")
    body = ["fresh 0 " + l0] + [x for x in stage(m, s, how=lang())] + ["mark ===", "comminfo", "dump 0", "valid 0 " + lang()]
    n = {}
    ctx.nontrivial(len(m.verts) > 1); ctx.label("how_" + m.how)
    m0 = m.copy(); m0.order = m.order
    secs = [("build", m0)]
    def getparts(slot, mm):
        body.append("mark ===")
        for p in range(k): body.append("@%d getpart %d %s %d" % (p, slot, lang(), len(mm.local(p))))
        secs.append(("getpart", mm, {p: mm.local(p) for p in range(k)}))
    if kind == "build":
        body += ["evalp 0", "mark ===", "ceval 0 " + lang()]; secs.append(("eval", m))
        if s.bool(1, 2):
            # migrate through C++ and read where the vertices went
            dest = {g: s.int(0, k - 1) for g in m.verts}
            body.append("setorig 0")
            for p in range(k): body.append("@%d dest %s" % (p, " ".join("%d %d" % (g, dest[g]) for g in m.local(p))))
            body += ["migrate 0", "mark ==="]
            for p in range(k): body.append("@%d getpart 0 %s %d" % (p, lang(), len(m.local(p))))
            secs.append(("getpart", m, {p: {g: dest[g] for g in m.local(p)} for p in range(k)}))
        body += ["destroy 0 " + lang()]
    elif kind == "file":
        f = "cg%d" % s.int(0, 99)
        w, r = s.pick([("c", "c"), ("c", "f"), ("f", "c"), ("f", "f"), ("c", ""), ("f", ""), ("", "c"), ("", "f")])
        body += ["save 0 %s %s" % (f, w), "fresh 1 " + lang(), "load 1 %s %s" % (f, r), "mark ===", "comminfo", "dump 1", "valid 1 " + lang()]
        ctx.label("w_%s_r_%s" % (w or "cpp", r or "cpp")); secs.append(("build", m))
    else:
        prios = [(s.pick([-1] + list(range(len(m.types)))), s.pick([1.0, 1.05, 1.1, 1.37, 0.9, 1.001, 3.25])) for _ in range(s.int(1, 3))]
        o = {"step": s.pick([0.1, 0.25, 0.5]), "verb": s.pick([-1, -1, 0, 1]), "cut": s.pick([None, None, 0.5, 1.25]), "gh": s.pick([None, 0, 1]), "it": s.int(1, 20)}
        keys = ["prio %d %s" % (t, num(x)) for t, x in prios]
        # settings may be made several times; the last one counts
        for key, name, vals, fmt in (("cut", "cut", [0.5, 1.25, 2.0], num), ("gh", "ghosts", [0, 1], lambda x: str(x))):
            if o[key] is None: continue
            seq = s.weighted([([], 2), ([s.pick(vals)], 1)]) + [o[key]]
            at = sorted(s.int(0, len(keys)) for _ in seq)
            if len(seq) > 1: ctx.label("set_twice")
            for q, x in reversed(list(zip(at, seq))): keys.insert(q, "%s %s" % (name, fmt(x)))
        body += ["spybal 1", "mark ===", "cbalance 0 %s %s %d %s maxit %d" % (lang(), num(o["step"]), o["verb"], " ".join(keys), o["it"]), "mark ===", "comminfo", "dump 0", "valid 0"]
        secs += [("spy", m, prios, o), ("balanced", m)]
    L += place(body, ranks, "a") if sub else body
    outs = ctx.run("\n".join(L))
    balanced = [None] * k
    ev = None
    for p in range(k):
        got = sections(outs[ranks[p]])
        need(len(got) == len(secs), "part %d: %d reports", p, len(got))
        for sec, exp in zip(got, secs):
            what = exp[0]
            if what in ("build", "balanced"):
                need(sec[0] == "ci %d %d" % (p, k), "part %d of %d: %s", p, k, sec[0])
                d, i = parse_dump(sec, 1)
                need(sec[i].split()[0] == "valid" and sec[i].split()[2] == "0" and sec[i].split()[1] != "0", "part %d: %s", p, sec[i])
                if what == "build":
                    check_content(exp[1], p, d, "graph", coords=False); check_ghosts(exp[1], p, d); check_counts(exp[1], p, d)
                    ev = [l for l in sec[i + 1:] if l.startswith("o ")] if kind == "build" else None
                else: balanced[p] = d
            elif what == "eval":
                o2 = [l for l in sec if l.startswith("o ")]
                need(o2 == ev, "part %d: evaluatePartition reports %s through the interface, %s directly", p, o2, ev)
            elif what == "getpart":
                mp, _ = read_map(sec); need(mp == exp[2][p], "part %d: the partition reads %s, expected %s", p, mp, exp[2][p])
            elif what == "spy":
                f = [l for l in sec if l.startswith("bi ")]
                if f:
                    ctx.label("spied")
                    f = list(map(float, f[0].split()[1:])); _, _, prios, o = exp
                    e = [o["verb"], o["step"], o["cut"] if o["cut"] is not None else 0, o["it"], o["gh"] or 0, len(prios)]
                    for t, x in prios: e += [t, x]
                    need(len(f) == len(e) and all(abs(a - b) < 1e-12 or (i == 2 and b <= 0 and a <= 0) for i, (a, b) in enumerate(zip(f, e))), "balance() was asked for %s, the interface was given %s", f, e)
    if kind == "balance":
        adopt(m, balanced, "after balance")
        for p in range(k):
            check_content(m, p, balanced[p], "after balance", coords=False); check_ghosts(m, p, balanced[p], "after balance"); check_counts(m, p, balanced[p], "after balance")

PLAN = {"quick": {"runs": [(1, 1500), (2, 4000), (3, 4000), (4, 3000), (5, 2000), (7, 1500)], "budget": 35},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}
