"""G13: VTK output describes the graph."""
import os, xml.etree.ElementTree as ET
from model import *
from hist import gen_history
RULE = "the graph has edges; distinct program texts are counted"

def arr(x, conv): return [conv(v) for v in (x.text or "").split()]
def one(parent, name, what):
    l = [d for d in parent.iter("DataArray") if d.get("Name") == name]
    need(len(l) == 1, "%s: %d arrays named %s", what, len(l), name); return l[0]

def close(a, b): return abs(a - b) < 1.1e-6 + 1e-13 * abs(b)
def match(xs, ys):
    """Is there a one-to-one pairing of equal (up to the printed digits) tuples? (augmenting paths)"""
    if len(xs) != len(ys): return False
    ok = [[j for j, y in enumerate(ys) if all(close(a, b) for a, b in zip(x, y))] for x in xs]; mate = {}
    def place(i, seen):
        for j in ok[i]:
            if j not in seen:
                seen.add(j)
                if j not in mate or place(mate[j], seen): mate[j] = i; return True
        return False
    return all(place(i, set()) for i in range(len(xs)))

def PROPERTY(s, ctx):
    np = ctx.np
    m = gen_model(s, np, nv=(1, 14), max_edges=14, coords=True, large=(1, 80), ntypes=s.weighted([(1, 5), (2, 2)]))
    sc = s.weighted([(1, 3), (0.1, 1), (12345.678, 1), (300000, 2)]); ctx.label("scale%g" % sc)
    for v in m.verts.values(): v[2] = tuple(x * sc for x in v[2])
    classify(m, ctx)
    L = ["fresh 0"] + stage(m, s)
    if s.bool(1, 3): L += gen_history(m, s, ctx, 1)
    ctx.nontrivial(bool(m.types[0]))
    tag = s.pick(["none", "vtx", "edge", "edge1"])
    if tag == "edge1" and len(m.types) < 2: tag = "edge"
    if tag != "none":
        L += ["mktag 0 0 i %d" % {"vtx": -1, "edge": 0, "edge1": 1}[tag], "filltag 0 %d" % (s.pick([s.int(0, 1000), -s.int(1, 1000), -2**31, 2**31 - 5000]))]
        base = int(L[-1].split()[-1])
    ctx.label("tag_" + tag)
    dn = ""
    if s.bool(1, 8):         # a long but legal path
        ctx.label("long_path"); dn = ("d" * s.int(90, 120) + "/") * s.int(2, 4); L.append("mkdirs " + dn)
    L += ["mark ===", "dump 0", "vtk 0 %s%s" % (dn + "out", "" if tag == "none" else " 0 %d" % {"vtx": -1, "edge": 0, "edge1": 1}[tag])]
    outs = ctx.run("\n".join(L))
    pv = ET.parse(os.path.join(ctx.scratch, dn + "out.pvtu")).getroot()
    need(pv.get("type") == "PUnstructuredGrid", "pvtu type")
    need([os.path.normpath(os.path.join(dn, x.get("Source"))) for x in pv.iter("Piece")] == [os.path.normpath(dn + "out%d.vtu" % r) for r in range(np)], "pvtu lists %s", [x.get("Source") for x in pv.iter("Piece")])
    parrays = sorted(x.get("Name") for x in pv.iter("PDataArray"))
    for r in range(np):
        w = "piece %d" % r
        d, j = parse_dump(sections(outs[r])[0])
        try: root = ET.parse(os.path.join(ctx.scratch, dn + "out%d.vtu" % r)).getroot()
        except ET.ParseError as e: raise Violation("%s is not well formed: %s" % (w, e))
        ps = list(root.iter("Piece")); need(len(ps) == 1, "%s: %d pieces", w, len(ps)); p = ps[0]
        E = d.types[0]["edges"]; loc = set(m.local(r))
        pts = arr(one(p, "Points", w), float)
        pos = [m.verts[v["gid"]][2] for v in d.verts]
        if m.hyper: pos += [tuple(sum(m.verts[q][2][c] for q in e["pins"]) / len(e["pins"]) for c in range(3)) for e in E]
        n = int(p.get("NumberOfPoints"))
        need(len(pts) == 3 * n, "%s: %d coordinates for %d points", w, len(pts), n)
        need(n >= len(pos) and all(close(a, b) for a, b in zip(pts, [x for q in pos for x in q])), "%s: points %s, expected %s", w, pts, pos)
        P = [tuple(pts[3 * i:3 * i + 3]) for i in range(n)]
        con = arr(one(p, "connectivity", w), int); off = arr(one(p, "offsets", w), int); ty = arr(one(p, "types", w), int)
        nc = int(p.get("NumberOfCells"))
        if m.hyper: want = sorted((len(d.verts) + e["lid"], v["lid"]) for e in E for q in e["pins"] for v in d.verts if v["gid"] == q)
        else: want = len(E)
        need(len(con) == 2 * nc and off == [2 * (i + 1) for i in range(nc)] and ty == [3] * nc, "%s: %d cells with connectivity %s offsets %s types %s", w, nc, con, off, ty)
        cells = list(zip(con[::2], con[1::2]))
        need(all(0 <= a < n and 0 <= b < n for a, b in cells), "%s: cells %s refer to points outside 0..%d", w, cells, n - 1)
        if m.hyper: need(sorted(cells) == want, "%s: cells %s, expected %s", w, sorted(cells), want)
        else:
            segs = [(P[a], P[b]) for a, b in cells]
            need(len(segs) == len(E), "%s: %d cells for %d edges", w, len(segs), len(E))
            ends = [tuple(map(float, m.verts[e["pins"][0]][2])) + tuple(map(float, m.verts[e["pins"][1]][2])) for e in E]
            need(match([a + b for a, b in segs], ends), "%s: segments %s, expected %s", w, segs, ends)
        need(len(list(p.iter("PointData"))) == 1, "%s: no point data", w)
        names = sorted(x.get("Name") for x in list(p.iter("PointData"))[0])
        need(sorted(names + ["Points"]) == parrays, "%s has arrays %s, pvtu declares %s", w, names, parrays)
        part = arr(one(p, "Part", w), int)
        wantp = [r] * len(pos)
        need(len(part) == n and part[:len(pos)] == wantp, "%s: Part array %s for %d points", w, part, n)
        if not m.hyper and n > len(pos):
            need(match([q + (o,) for q, o in zip(P[len(pos):], part[len(pos):])], [tuple(map(float, m.verts[g][2])) + (o,) for g, o in m.ghosts(r).items()]), "%s: extra points %s parts %s are not the ghosts %s", w, P[len(pos):], part[len(pos):], m.ghosts(r))
        if m.hyper:
            voe = arr(one(p, "VorE", w), int); need(voe == [0] * len(d.verts) + [1] * len(E), "%s: VorE %s", w, voe)
        hastag = tag == "vtx" or (tag != "none" and m.hyper)
        need(("Tag" in names) == hastag, "%s: Tag array %s", w, names)
        if hastag:
            tg = arr(one(p, "Tag", w), int); need(len(tg) == n, "%s: %d tag values for %d points", w, len(tg), n)
            tv = [base + v["lid"] for v in d.verts] if tag == "vtx" else [-1] * len(d.verts)
            te = [base + e["lid"] for e in E] if tag == "edge" else [-1] * len(E)
            if m.hyper: tv = tv + te
            need(tg[:len(tv)] == tv, "%s: Tag %s, expected %s", w, tg, tv)

PLAN = {"quick": {"runs": [(1, 2500), (2, 2500), (3, 2500), (4, 2500), (5, 1500)], "budget": 35},
        "thorough": {"runs": [(n, 30000) for n in (1, 2, 3, 4, 5, 6, 7)], "budget": 900}}
