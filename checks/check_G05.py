"""G05: migration preserves the global graph and obeys the plan."""
from model import *
from hist import gen_history, step_migrate
RULE = "a vertex with edges changed parts; distinct program texts are counted"

def run(s, ctx, judge, flags, extra=lambda m: []):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 16), max_edges=18, big_types=True, fine=True, large=(1, 60), ntypes=s.weighted([(1, 4), (2, 4), (3, 3), (7, 1), (0, 1)]))
    classify(m, ctx)
    n = s.int(1, 4)
    L = ["fresh 0"] + stage(m, s) + ["mark ===", "setorig 0", "dump 0 " + flags] + extra(m)
    m.orig = {g: v[1] for g, v in m.verts.items()}
    ms = [m.copy()]
    for _ in range(n):
        before = {g: v[1] for g, v in m.verts.items()}
        L += gen_history(m, s, ctx, 1) + ["mark ===", "dump 0 " + flags] + extra(m)
        ms.append(m.copy())
        touched = set(p for T in m.types for e in T for p in m.ends(e))
        ctx.nontrivial(any(before[g] != m.part(g) for g in touched))
    ctx.label("steps%d" % n)
    outs = ctx.run("\n".join(L))
    for r in range(np):
        secs = sections(outs[r])
        need(len(secs) == n + 1, "part %d: %d reports for %d steps", r, len(secs), n)
        for k, (mm, sec) in enumerate(zip(ms, secs)): judge(mm, r, sec, "after %d migrations" % k if k else "built", k)

def judge(m, r, sec, what, k):
    d, j = parse_dump(sec)
    check_content(m, r, d, what)

def PROPERTY(s, ctx): run(s, ctx, judge, "c")

PLAN = {"quick": {"runs": [(2, 4000), (3, 4000), (4, 4000), (5, 3000), (4, 3000), (7, 1500), (1, 500)], "budget": 45},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}
