"""M04: results do not depend on message timing, nor on what was done before."""
from model import *
from bal import *
import hist, re
RULE = "a history of at least three operations that change a graph was run on several ranks in different schedules; distinct program texts are counted"

SHOW = ("mark ---", "setorig %d", "dump %d rcow", "getpart %d", "valid %d")

def history(s, ctx, np, slots):
    """a legal history, then everything that can be read of its graphs"""
    H, live, _ = hist.legal_history(s, ctx, np, slots)
    n = sum(1 for l in H if l.startswith(("migrate", "repart", "balance", "wbalance")))
    for i in sorted(live):
        H += [x % i if "%d" in x else x for x in SHOW]
        H.append("trav %d" % i)
    return H, n

def delays(s, L, np):
    """the same lines, with ranks that are late here and there"""
    out = []
    for l in L:
        if not re.match(r"@\d+ ", l) and not l.startswith(("dest", "mark")) and s.bool(1, 8): out.append("@%d delay %d" % (s.int(0, np - 1), s.pick([50, 300, 1500])))
        out.append(l)
    return out

def PROPERTY(s, ctx):
    np = ctx.np
    H, n = history(s, ctx, np, (2, 9))
    if not any(l.startswith("fresh") for l in H): return
    ctx.nontrivial(np > 1 and n >= 2)
    if n >= 2: ctx.label("rich")
    ref = ctx.run("\n".join(["perturb_off"] + H))
    for k in range(2):
        how = s.weighted([("schedule", 4), ("after", 2), ("both", 2)]); L = list(H)
        if how != "after": L = ["perturb %d %d" % (s.int(1, 10**6), s.int(1, 4))] + (delays(s, L, np) if s.bool() else L) + ["perturb_off"]
        else: L = ["perturb_off"] + L
        if how != "schedule":
            other, _ = history(s, ctx, np, (1, 4))
            ctx.run("\n".join(["perturb_off"] + other))
        ctx.label("how_" + how)
        got = ctx.run("\n".join(L))
        for r in range(np):
            a = [l for l in ref[r] if not l.startswith("bar ")]; b = [l for l in got[r] if not l.startswith("bar ")]
            if a != b:
                i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                need(False, "part %d reports %r; the same calls before gave %r (%s)", r, b[i:i + 2], a[i:i + 2], how)

PLAN = {"quick": {"runs": [(2, 3000), (3, 3000), (4, 3000), (5, 2000), (6, 1500), (8, 800)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 4, 5, 6, 7, 8)], "budget": 900}}
