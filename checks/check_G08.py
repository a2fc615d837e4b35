"""G08: save then load reproduces the graph; the files follow the documented format."""
import os, struct
from model import *
from hist import gen_history
RULE = "the saved graph has edges; distinct program texts are counted"

def parse_bgd(b):
    """the bgd format documented in agi/agiIO.cpp, all numbers big endian"""
    p = 0
    def u():
        nonlocal p
        v = struct.unpack_from(">I", b, p)[0]; p += 4; return v
    def dbl():
        nonlocal p
        v = struct.unpack_from(">d", b, p)[0]; p += 8; return v
    try:
        f = dict(hyper=u()); f["verts"] = [(u(), dbl()) for _ in range(u())]
        f["coords"] = [(dbl(), dbl(), dbl()) for _ in f["verts"]] if u() else None
        f["types"] = []
        for _ in range(u()):
            t = u(); es = []
            for _ in range(u()):
                g = u(); w = dbl(); es.append((g, tuple(u() for _ in range(u())), w))
            f["types"].append((t, es))
        f["ghosts"] = [(u(), u()) for _ in range(u())]
    except struct.error:
        raise Violation("a saved file ends early")
    need(p == len(b), "a saved file has %d bytes after its end", len(b) - p)
    return f

def check_file(m, r, f, what):
    need(f["hyper"] == int(m.hyper), "%s: hyper flag %s", what, f["hyper"])
    need(sorted(f["verts"]) == sorted((g, m.verts[g][0]) for g in m.local(r)), "%s: vertices %s", what, f["verts"])
    if m.coords: need(f["coords"] == [tuple(m.verts[g][2]) for g, _ in f["verts"]], "%s: coordinates %s", what, f["coords"])
    else: need(f["coords"] is None, "%s: coordinates appear", what)
    need([t for t, _ in f["types"]] == list(range(len(m.types))), "%s: types %s", what, [t for t, _ in f["types"]])
    for t, es in f["types"]:
        if m.hyper: got = sorted((g, tuple(sorted(p)), w) for g, p, w in es)
        else:
            need(all(len(p) == 2 for _, p, _ in es), "%s: type %d degrees", what, t)
            got = sorted((p[0], p[1], w) for g, p, w in es)
        need(got == canon_edges(m, m.local_edges(t, r)), "%s: type %d edges %s, expected %s", what, t, got, canon_edges(m, m.local_edges(t, r)))
    need(dict(f["ghosts"]) == m.ghosts(r) and len(f["ghosts"]) == len(m.ghosts(r)), "%s: ghosts %s, expected %s", what, f["ghosts"], m.ghosts(r))

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, big=False, directed=s.bool(1, 4), nv=(0, 16), max_edges=18, big_types=True, fine=True, large=(1, 60), ntypes=s.weighted([(1, 4), (2, 4), (3, 2), (0, 1), (7, 1)]))
    # ids up to 2^32-1 are storable
    if s.bool(1, 3):
        ctx.label("wide_ids")
        base = s.pick([2**31 - 2, 2**31 + 7, 2**32 - 1 - (max(m.verts) if m.verts else 0)])
        mp = {g: g + base for g in m.verts}
        if not mp or max(mp.values()) < 2**32:
            m.verts = {mp[g]: v for g, v in m.verts.items()}
            for T in m.types:
                for e in T:
                    if m.hyper: e[1] = tuple(mp[p] for p in e[1])
                    else: e[0], e[1] = mp[e[0]], mp[e[1]]
            if m.hyper and s.bool():
                for T in m.types:
                    k = s.pick([2**31 - 1, 2**32 - 1 - max([e[0] for e in T] or [0])])
                    if T and max(e[0] for e in T) + k < 2**32:
                        for e in T: e[0] += k
    for g in m.verts:
        if s.bool(1, 6): m.verts[g][0] = s.pick([1e-300, 0.1, 1/3, 12345678.9, 1e17])
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    sym = m.hyper or all(sorted((e[1], e[0]) for e in T) == sorted((e[0], e[1]) for e in T) for T in m.types)
    if sym and s.bool(1, 3): L += gen_history(m, s, ctx, 1); ctx.label("migrated_first")
    ctx.nontrivial(any(m.types))
    pre = s.weighted([("a", 5), ("sub/dir/g", 5), ("x_1", 5), ("long", 3)])
    ctx.label("prefix_" + pre)
    if pre == "long":        # file systems allow paths of thousands of characters
        n = s.int(230, 270) if s.bool() else s.int(100, 600); pre = ""
        while len(pre) + 101 < n: pre += "d" * 100 + "/"
        pre += "g" * (n - len(pre))
    L += ["mark ===", "dump 0 c", "save 0 " + pre, "mark ===", "dump 0 c"]
    into = s.pick(["fresh", "self", "other"])
    ctx.label("into_" + into)
    slot = 1
    if into == "fresh": L += ["fresh 1"]
    elif into == "self": slot = 0
    else:
        o = gen_model(s, np, nv=(0, 8), max_edges=6)
        L += ["fresh 1"] + stage(o, s, 1)
        if s.bool() and o.types: L += ["mkvev 1 0 1", "mkeve 1 0 0", "setorig 1"]
    L += ["load %d %s" % (slot, pre), "mark ===", "dump %d cw" % slot, "save %d second" % slot, "valid %d" % slot]
    again = sym and s.bool(1, 3)
    m2 = m.copy(); m2.orig = None
    if again: L += gen_history(m2, s, ctx, 1, slot) + ["mark ===", "dump %d cw" % slot]
    outs = ctx.run("\n".join(L))
    for r in range(np):
        secs = sections(outs[r])
        need(secs[0] == [x for x in secs[1] if not x.startswith("T ")][:len(secs[0])], "part %d: saving changed the graph", r)
        d, j = parse_dump(secs[2])
        check_content(m, r, d, "loaded"); check_ghosts(m, r, d, "loaded", gweights=np > 1); check_counts(m, r, d, "loaded")
        need(secs[2][j] == "valid 1 0", "part %d: checkValidity of the loaded graph: %r", r, secs[2][j])
        need([v["gid"] for v in d.verts] == [v["gid"] for v in parse_dump(secs[0])[0].verts], "part %d: loading reorders the vertices", r)
        if again:
            d, j = parse_dump(secs[3])
            check_content(m2, r, d, "loaded+migrated"); check_ghosts(m2, r, d, "loaded+migrated", gweights=np > 1); check_counts(m2, r, d, "loaded+migrated")
        fa = open(os.path.join(ctx.scratch, "%s_%d.bgd" % (pre, r)), "rb").read()
        fb = open(os.path.join(ctx.scratch, "second_%d.bgd" % r), "rb").read()
        A, B = parse_bgd(fa), parse_bgd(fb)
        check_file(m, r, A, "file of part %d" % r)
        A["ghosts"].sort(); B["ghosts"].sort()
        need(A == B, "part %d: saving the loaded graph gives different content", r)

PLAN = {"quick": {"runs": [(1, 3000), (2, 3000), (3, 3000), (4, 3000), (5, 2000), (7, 1000)], "budget": 40},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}
