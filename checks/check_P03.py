"""P03: switching communicators isolates and restores."""
from comm import *
from model import *
RULE = "two groups communicated at the same time on communicators of their own, and the world communicated before or after; distinct program texts are counted"

def partition(s, np):
    """disjoint groups of world ranks, each in the order of its communicator"""
    k = s.int(1, min(3, np)); kind = s.weighted([("random", 4), ("blocks", 2), ("some", 2), ("alone", 1)])
    if kind == "alone": return [[r] for r in range(np)]
    G = [[] for _ in range(k)]
    for r in range(np):
        if kind == "some" and s.bool(1, 3): continue      # left on MPI_COMM_SELF
        G[r * k // np if kind == "blocks" else s.int(0, k - 1)].append(r)
    return [s.shuffle(g) for g in G if g]

def PROPERTY(s, ctx):
    np = ctx.np; every = list(range(np))
    S = Script(np); perturbation(S, s, ctx)
    graph = s.bool(1, 3)
    m = None
    if graph:
        m = gen_model(s, np, nv=(1, 10), ntypes=1)
        S.lines += ["fresh 0"] + stage(m, s) + ["mark ==="]
        for r in every: S.expect[r].append(lambda lines, i: lines.index("===", i) + 1)
        ctx.label("graph")
    ngroups = s.int(1, 3); sets = []
    for k in range(ngroups):
        P = partition(s, np)
        for j, g in enumerate(P): S.lines.append("group g%d_%d %s" % (k, j, " ".join(map(str, g))))
        sets.append(P)
    cur = [("world", every)]
    many = False; built = None
    for step in range(s.int(1, 6)):
        # switch: every rank together, to a partition of the ranks or back
        k = s.int(-1, ngroups - 1)
        op = "engswitch" if s.bool(1, 2) else "usecomm"
        if k < 0: cur = [("world", every)]
        else:
            cur = [("g%d_%d" % (k, j), g) for j, g in enumerate(sets[k])]
            out = set(every) - set(r for g in sets[k] for r in g)
            cur += [("self", [r]) for r in sorted(out)]
        jitter(S, s, every)
        for name, g in cur:
            for r in g: S.add(r, "%s %s" % (op, name))
        ctx.label("world" if k < 0 else "groups%d" % min(3, len(cur)))
        if sum(len(g) > 1 for _, g in cur) > 1: many = True
        for name, g in cur:
            for j, r in enumerate(g):
                if s.bool(1, 2):
                    S.add(r, "whoami %s" % name)
                    S.expect[r].append(line_is("me %d %d %d %d %d %d %d %d 1 1" % (j, len(g), j, len(g), j, len(g), j, len(g)), "rank %d in %s %s" % (r, name, g)))
        if k >= 0 and built is None and s.bool(1, 4):
            # a graph of its own in every group
            built = (k, []); ctx.label("group_graphs")
            for name, g in cur:
                if name == "self": continue
                gm = gen_model(s, len(g), nv=(1, 8), ntypes=1); built[1].append((name, g, gm))
                S.lines += place(["fresh 1"] + stage(gm, s, slot=1) + ["mark ==="], g, name)
                for r in g: S.expect[r].append(lambda lines, i: lines.index("===", i) + 1)
        # the groups do different things at the same time
        for name, g in cur:
            for _ in range(s.int(0, 3)):
                what = "in group %s" % g
                if s.bool(): phase(S, s, ctx, g, what, big=False)
                else: collective(S, s, ctx, g, what)
    for r in every: S.add(r, "usecomm world")
    phase(S, s, ctx, every, "back on the world", big=False)
    if graph:
        S.lines += ["dump 0 rc", "valid 0"]
        for r in every: S.expect[r].append(graph_is(m, r))
    if built:
        S.lines += ["@%d usecomm self" % r for r in every if not any(r in g for _, g, _ in built[1])]
        for name, g, gm in built[1]:
            for r in g: S.add(r, "usecomm " + name)
        for name, g, gm in built[1]:
            S.lines += place(["dump 1 rc", "valid 1"], g, name)
            for j, r in enumerate(g): S.expect[r].append(graph_is(gm, j))
        for r in every: S.add(r, "usecomm world")
    ctx.nontrivial(many)
    S.check(ctx.run("\n".join(S.lines)))

def graph_is(m, r):
    def fn(lines, i):
        d, i = parse_dump(lines, i)
        what = "the graph after the switches"
        check_content(m, r, d, what); check_ghosts(m, r, d, what); check_counts(m, r, d, what); check_cut(m, r, d, what)
        need(lines[i] == "valid 1 0", "part %d: checkValidity after the switches: %s", r, lines[i])
        return i + 1
    return fn

PLAN = {"quick": {"runs": [(2, 3000), (3, 4000), (4, 4000), (5, 3000), (6, 2000), (7, 1500), (1, 300)], "budget": 30, "parallel": 5},
        "thorough": {"runs": [(n, 60000) for n in (2, 3, 4, 5, 6, 7, 8)], "budget": 900}}
