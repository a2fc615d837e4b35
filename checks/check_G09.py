"""G09: a binary edge list loads as exactly its graph."""
from model import *
import os, struct
RULE = "on more than one process some edge crosses parts; distinct programs (file contents included) are counted"

def partfile(s, part):
    """one line per vertex; the last may lack its end, and lines of other vertices may follow"""
    k = s.weighted([("plain", 6), ("open", 1), ("more", 1)])
    t = "".join("%d\n" % p for p in part)
    return t[:-1] if k == "open" else t + "0\n" * 3 if k == "more" else t

def PROPERTY(s, ctx):
    np = ctx.np
    N = s.size(1, 30); n = s.weighted([("few", 3), ("many", 4), ("huge", 0.2)])
    k = s.int(1, 12) if n == "few" else s.int(1, 80) if n == "many" else s.int(300, 600)
    E = [(s.int(0, N - 1), s.int(0, N - 1)) for _ in range(k)]
    sym = s.bool(1, 3)
    if sym: E += [(v, u) for u, v in E]
    if s.bool(1, 4): E.sort(); ctx.label("sorted")
    n = max(max(e) for e in E) + 1
    if len(set(E)) < len(E): ctx.label("duplicates")
    if len(set(x for e in E for x in e)) < n: ctx.label("isolated")
    m = Model(False, np)
    usefile = s.bool(1, 2)
    if usefile: part = [s.int(0, np - 1) for _ in range(n)] if s.bool(3, 4) else [s.int(0, np - 1)] * n
    else:
        per = n // np + 1; part = [i // per for i in range(n)]
    ctx.label("partfile" if usefile else "blocks", "symmetric" if sym else "directed")
    for i in range(n): m.verts[i] = [1.0, part[i], None]
    m.types = [[[u, v, 1.0] for u, v in E]]
    classify(m, ctx); ctx.nontrivial(bool(any(m.ghosts(r) for r in range(np))))
    L = ["# %s" % E]
    dn = ""
    if s.bool(1, 8):
        ctx.label("long_path"); dn = ("d" * s.int(90, 120) + "/") * s.int(2, 4); L.append("mkdirs " + dn)
    if s.bool(1, 8): L.append("logopen"); ctx.label("log")
    L.append("wrfile %sg.bin x" % dn + b"".join(struct.pack("<ii", *e) for e in E).hex())
    if usefile: L.append("wrfile g.part x" + partfile(s, part).encode().hex())
    L += ["bingraph 0 %sg.bin" % dn + (" g.part" if usefile else ""), "mark ===", "dump 0 rc", "valid 0"]
    migr = s.bool(1, 3) and sym
    if migr:
        from hist import gen_history
        m2 = m.copy(); L += gen_history(m2, s, ctx, 1) + ["mark ===", "dump 0 rc", "valid 0"]; ctx.label("migrated")
    outs = ctx.run("\n".join(L))
    for k, M in enumerate([m] + ([m2] if migr else [])):
        for r in range(np):
            sec = sections(outs[r])[k]
            d, i = parse_dump(sec)
            what = "after migrating the loaded graph" if k else "the loaded graph"
            check_content(M, r, d, what); check_ghosts(M, r, d, what, gweights=True); check_counts(M, r, d, what); check_cut(M, r, d, what)
            need(sec[i] == "valid 1 0", "part %d: checkValidity of %s: %s", r, what, sec[i])

PLAN = {"quick": {"runs": [(1, 3000), (2, 5000), (3, 5000), (4, 4000), (5, 3000), (7, 1500)], "budget": 30},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}
