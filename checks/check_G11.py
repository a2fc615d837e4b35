"""G11: ghost tags and ghost weights carry the owner's value."""
from model import *
from hist import gen_history
RULE = "some part has a ghost; distinct program texts are counted"

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 16), max_edges=18, fine=True, large=(1, 80))
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    rounds = s.int(1, 3)
    ms, kinds = [], []
    for i in range(rounds):
        if i or s.bool(): L += gen_history(m, s, ctx, 1)
        ks = [s.pick("idl") for _ in range(s.int(1, 3))]
        kinds.append(ks); ms.append(m.copy())
        L += ["mark ===", "dump 0 w"]
        for j, k in enumerate(ks): L.append("mkgtag %d 0 %s %d" % (j, k, s.int(0, 10**6)))
        L += ["gettag %d ghosts" % j for j in range(len(ks))] + ["rmtag %d" % j for j in range(len(ks))]
        if any(m.ghosts(r) for r in range(np)): ctx.nontrivial()
    outs = ctx.run("\n".join(L))
    secs = [sections(o) for o in outs]
    for i in range(rounds):
        mm = ms[i]; own = [dict() for _ in kinds[i]]
        parsed = []
        for r in range(np):
            sec = secs[r][i]; d, j = parse_dump(sec); check_ghosts(mm, r, d, "round %d" % i, gweights=True)
            parsed.append((sec, j))
            for n, k in enumerate(kinds[i]):
                f = sec[j + n].split(); need(f[:2] == ["gt", str(n)], "bad output %r", sec[j + n])
                for g, v in zip(f[2::2], f[3::2]): own[n][int(g)] = v
        for r in range(np):
            sec, j = parsed[r]; gh = mm.ghosts(r)
            for n, k in enumerate(kinds[i]):
                f = sec[j + len(kinds[i]) + n].split(); need(f[:2] == ["tag", str(n)], "bad output %r", f[:2])
                got = dict((int(g), v) for g, v in zip(f[2::2], f[3::2]))
                need(set(got) == set(gh), "round %d part %d: tag read on ghosts %s", i, r, sorted(got))
                for g in gh: need(got[g] == own[n][g], "round %d part %d: %s ghost tag of vertex %d is %s, its owner's value is %s", i, r, k, g, got[g], own[n][g])

PLAN = {"quick": {"runs": [(2, 5000), (3, 4000), (4, 4000), (5, 3000), (7, 1500)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}
