"""Reference model of a distributed graph, its generators, and the program text that builds it."""
import random
from pbt import Violation

def num(x):
    return repr(float(x)) if not float(x).is_integer() else str(int(x))

class Model:
    """hyper: bool; np: parts; verts: gid -> [weight, part, coord or None]
    types: list of edge lists; traditional edge = [u, v, w], hyperedge = [gid, (pins...), w]"""
    def __init__(self, hyper, np):
        self.hyper, self.np = hyper, np
        self.verts, self.types = {}, []
        self.coords = False
        self.orig = None            # gid -> original part
        self.order = None           # part -> local order of vertices as constructed
        self.mapping = None
        self.pinless = False        # has hyperedges without pins (they stay on the part that gave them)
    def part(self, g): return self.verts[g][1]
    def local(self, r): return [g for g in self.verts if self.verts[g][1] == r]
    def local_edges(self, t, r):
        if self.hyper:
            return [e for e in self.types[t] if any(self.part(p) == r for p in e[1]) or (not e[1] and len(e) > 3 and e[3] == r)]
        return [e for e in self.types[t] if self.part(e[0]) == r]
    def ends(self, e): return list(e[1]) if self.hyper else [e[0], e[1]]
    def ghosts(self, r):
        s = {}
        for t in range(len(self.types)):
            for e in self.local_edges(t, r):
                for p in self.ends(e):
                    if self.part(p) != r: s[p] = self.part(p)
        return s
    def global_edges(self, t): return len(self.types[t])
    def global_pins(self, t):
        if self.hyper: return sum(len(e[1]) for e in self.types[t])
        return 2 * len(self.types[t])
    def copy(self):
        m = Model(self.hyper, self.np)
        m.verts = {g: list(v) for g, v in self.verts.items()}
        m.types = [[list(e) for e in T] for T in self.types]
        m.coords, m.orig = self.coords, (dict(self.orig) if self.orig is not None else None)
        return m

def gen_gids(s, n, big):
    kind = s.weighted([("dense", 4), ("offset", 2), ("gaps", 3), ("big", 2 if big else 0), ("alias", 1 if big else 0)])
    if kind == "dense": ids = list(range(n))
    elif kind == "offset":
        o = s.int(0, 1000); ids = list(range(o, o + n))
    elif kind == "gaps":
        ids, x = [], s.int(0, 3)
        for _ in range(n): ids.append(x); x += 1 + s.int(0, 9)
    elif kind == "alias":     # pairs of ids that agree in their low (or high) bits
        k = s.pick([16, 31, 32, 32, 32, 33, 48]); ids = [i // 2 + ((i % 2) << k) for i in range(n)]
    else:
        base = s.pick([2**31 - 3, 2**32 - 2, 2**33 + 5, 2**40 + 1]); ids = [base + 3 * i for i in range(n)]
    return s.shuffle(ids)

def gen_distribution(s, gids, np):
    """gid -> part; many shapes including empty parts"""
    kind = s.weighted([("random", 5), ("block", 3), ("one", 1), ("skew", 2), ("noempty", 3)])
    n = len(gids); d = {}
    if kind == "random":
        for g in gids: d[g] = s.int(0, np - 1)
    elif kind == "block":
        for i, g in enumerate(gids): d[g] = i * np // max(n, 1)
    elif kind == "one":
        p = s.int(0, np - 1)
        for g in gids: d[g] = p
    elif kind == "skew":
        for g in gids: d[g] = s.pick([0] * 3 + list(range(np)))
    else:
        for i, g in enumerate(gids): d[g] = i if i < np else s.int(0, np - 1)
    return d

FINE = [0.1, 1 / 3, 16777217.0, 123456.789, 1e17, 1e-300, 0.7]
def gen_weight(s):
    return s.weighted([(1.0, 4), (None, 6)]) or s.real(0, 20, 4)

def gen_model(s, np, hyper=None, ntypes=None, nv=(1, 14), max_edges=16, big=True, directed=False, selfloops=True,
              weights=True, coords=None, ew=True, big_types=False, multi=True, minparts=False, connected=False, posw=False, pinless=False, fine=False, large=None, most=1030):
    hyper = s.bool() if hyper is None else hyper
    m = Model(hyper, np)
    n = s.size(*nv)
    gids = gen_gids(s, n, big)
    dist = gen_distribution(s, gids, np)
    if minparts:
        for i, g in enumerate(gids[:np]): dist[g] = i
    fine = fine and s.bool(1, 3)      # values that do not fit a shorter type
    vw = s.weighted([("unit", 2), ("mixed", 5)]) if weights else "unit"
    for g in gids:
        w = 1.0 if vw == "unit" else s.pick(FINE) if fine and s.bool() else gen_weight(s)
        if posw and w <= 0: w = 0.25
        m.verts[g] = [w, dist[g], None]
    if coords is None: coords = s.bool(1, 4)
    if coords:
        m.coords = True
        one = lambda: s.pick([-1, 1]) * s.pick(FINE) if fine and s.bool() else s.real(-8, 8)
        for g in gids: m.verts[g][2] = (one(), one(), one())
    if ntypes is None:
        ntypes = s.weighted([(1, 5), (2, 4), (3, 2), (7, 1 if big_types else 0)])
    for t in range(ntypes):
        edges = []
        ne = s.size(0, max_edges) if n else 0
        wmode = s.weighted([("unit", 2), ("mixed", 4)]) if ew else "unit"
        wt = lambda: 1.0 if wmode == "unit" else s.pick(FINE) if fine and s.bool() else s.real(0, 9, 4)
        if hyper:
            eids = gen_gids(s, ne, big)
            for i in range(ne):
                k = s.weighted([(2, 5), (1, 1), (3, 4), (4, 2), (6, 1), (min(n, 12), 1)])
                if pinless and s.bool(1, 6): edges.append([eids[i], (), wt(), s.int(0, np - 1)]); m.pinless = True
                else: edges.append([eids[i], tuple(s.sample(gids, min(k, n))), wt()])
        elif directed:
            for i in range(ne):
                u = s.pick(gids); v = s.pick(gids)
                if u == v and not selfloops: continue
                edges.append([u, v, wt()])
        else:
            have = set()
            for i in range(ne):
                u = s.pick(gids); v = s.pick(gids)
                if u == v:
                    if selfloops and s.bool(1, 3) and (multi or (u, u) not in have):
                        edges.append([u, u, wt()]); have.add((u, u))
                    continue
                if (u, v) in have and not multi: continue
                have.add((u, v)); have.add((v, u))
                w = wt()
                edges.append([u, v, w]); edges.append([v, u, w if s.bool(3, 4) else wt()])
        if connected and n > 1:
            order = gids
            for a, b in zip(order, order[1:]):
                if hyper:
                    edges.append([10**6 + t * 1000 + len(edges), (a, b), wt()])
                else:
                    w = wt(); edges.append([a, b, w]); edges.append([b, a, w])
            if hyper:
                ids = set(); nxt = 0
                for e in edges:
                    while e[0] in ids: e[0] = nxt = nxt + 1
                    ids.add(e[0])
        m.types.append(edges)
    if large and n and s.bool(*large): inflate(s, m, big, directed, most)
    return m

def inflate(s, m, big, directed, most):
    """adds many vertices and edges, with a vertex of high degree among them; everything derives from a few choices"""
    n = s.pick([x for x in (66, 100, 130, 260, 400, 600, 1030) if x <= most]); R = random.Random(s.int(0, 2**31)); np = m.np
    nxt = max(m.verts) + 1; step = s.pick([1, 1, 3, 1000])
    if not big: nxt, step = nxt, min(step, 3)
    dist = s.pick(["random", "block", "most"])
    new = []
    for i in range(n - len(m.verts)):
        p = R.randrange(np) if dist == "random" or (dist == "most" and R.random() < 0.1) else 0 if dist == "most" else i * np // n
        m.verts[nxt] = [R.choice([1.0, 1.0, 0.5, 2.25, 3.0]), p, tuple(R.randrange(-64, 64) / 4 for _ in range(3)) if m.coords else None]
        new.append(nxt); nxt += step
    gids = list(m.verts)
    for t, T in enumerate(m.types):
        ne = int(n * s.pick([1, 0.3, 2])); eid = max([e[0] for e in T], default=0) + 1
        hub = gids[R.randrange(len(gids))]; deg = R.randrange(len(gids))
        near = lambda i: gids[(i + R.choice([1, 1, 1, 2, 3, R.randrange(1, n)])) % len(gids)]
        w = lambda: R.choice([1.0, 1.0, 0.5, 2.0, 4.75])
        for k in range(ne):
            i = R.randrange(len(gids)) if dist == "random" else k % len(gids)
            if m.hyper:
                pins = {gids[i]}
                for _ in range(R.choice([1, 1, 2, 3])): pins.add(near(i))
                T.append([eid, tuple(R.sample(sorted(pins), len(pins))), w()]); eid += step
            else:
                a, b, x = gids[i], near(i), w()
                if a != b: T.append([a, b, x])
                if a != b and not directed: T.append([b, a, x])
        for b in R.sample(gids, deg if R.random() < 0.5 else min(deg, 20)) if not m.hyper else []:
            if b != hub:
                x = w(); T.append([hub, b, x])
                if not directed or R.random() < 0.5: T.append([b, hub, x])
        if m.hyper:
            T.append([eid, tuple(R.sample(gids, max(1, deg))), w()]); eid += step
            for k in range(deg): T.append([eid + k * step, (hub, gids[k]) if gids[k] != hub else (hub,), w()])

def classify(m, ctx):
    ctx.label("hyper" if m.hyper else "trad", "types%d" % len(m.types))
    if any(not m.local(r) for r in range(m.np)): ctx.label("emptypart")
    if not m.hyper and any(e[0] == e[1] for T in m.types for e in T): ctx.label("selfloop")
    if m.coords: ctx.label("coords")
    if len(m.verts) > 9: ctx.label("verts>9")
    if any(v[0] in FINE for v in m.verts.values()) or any(e[2] in FINE for T in m.types for e in T): ctx.label("fine_weights")
    if m.pinless: ctx.label("pinless")
    if len(m.verts) > 64: ctx.label("large_graph")
    if any(m.ghosts(r) for r in range(m.np)): ctx.label("ghosts")

def stage(m, s, slot=0, how=None, keep_order=False):
    """program lines that build m in graph slot `slot`; records m.order and (hyper) edge order"""
    how = how or s.weighted([("v", 4), ("a", 3), ("graph", 1), ("n", 1)])
    nt = len(m.types)
    if how == "graph" and not (nt == 1 and all(e[2] == 1.0 for e in m.types[0])): how = "v"
    if how == "n" and not (all(v[0] == 1.0 for v in m.verts.values()) and all(e[2] == 1.0 for T in m.types for e in T)): how = "a"
    L = []
    m.order = {}
    m.eorder = [dict() for _ in range(nt)]
    for r in range(m.np):
        loc = m.local(r)
        if not keep_order: loc = s.shuffle(loc)
        m.order[r] = loc
        L.append("@%d verts %s" % (r, " ".join(map(str, loc))))
        ws = [m.verts[g][0] for g in loc]
        if how == "v" and loc and all(w == 1.0 for w in ws) and s.bool(1, 2): ws = []
        L.append("@%d vwts %s" % (r, " ".join(map(num, ws))))
        gh = m.ghosts(r)
        L.append("@%d ghosts %s" % (r, " ".join("%d %d" % (g, gh[g]) for g in s.shuffle(sorted(gh)))))
        if m.coords:
            L.append("@%d coords %s" % (r, " ".join("%d %s %s %s" % ((g,) + tuple(map(num, m.verts[g][2]))) for g in loc)))
    m.how = how
    if how != "graph": L.append("cverts %d %d %s" % (slot, m.hyper, how))
    for t in range(nt):
        for r in range(m.np):
            es = s.shuffle(m.local_edges(t, r)) if not keep_order else m.local_edges(t, r)
            m.eorder[t][r] = es
            if m.hyper:
                ids = [e[0] for e in es]; degs = [len(e[1]) for e in es]; pins = [p for e in es for p in e[1]]
            else:
                ids = list(range(len(es))); degs = [2] * len(es); pins = [p for e in es for p in e[:2]]
            L.append("@%d edges %s" % (r, " ".join(map(str, ids))))
            L.append("@%d degs %s" % (r, " ".join(map(str, degs))))
            L.append("@%d pins %s" % (r, " ".join(map(str, pins))))
            ew = [e[2] for e in es]
            if how == "v" and all(w == 1.0 for w in ew) and s.bool(1, 2): ew = []
            L.append("@%d ewts %s" % (r, " ".join(map(num, ew))))
        if how != "graph": L.append("cedges %d %s" % (slot, how))
    if how == "graph": L.append("cgraph %d %d" % (slot, m.hyper))
    else: L.append("cghosts %d %s" % (slot, how if how in ("v", "c", "f") else "a"))
    if m.coords: L.append("setcoords %d" % slot)
    return L

# ---- parsing dumps ----------------------------------------------------------------------------------
class Dump:
    """one rank's dump"""
    __slots__ = ("n", "verts", "ghosts", "types", "raw")
    def __init__(self): self.verts, self.ghosts, self.types = [], [], []

def parse_dump(lines, i=0):
    """parses a dump starting at lines[i] (an 'N' line); returns (Dump, next index)"""
    d = Dump()
    if i >= len(lines) or not lines[i].startswith("N "): raise Violation("no dump where one was expected: %r" % (lines[i:i + 2],))
    f = lines[i].split(); d.n = tuple(map(int, f[1:])); i += 1
    cur = None
    while i < len(lines):
        f = lines[i].split()
        k = f[0]
        if k == "V":
            v = dict(gid=int(f[1]), lid=int(f[2]), w=float(f[3]), own=int(f[4])); j = 5
            while j < len(f):
                if f[j] == "c": v["c"] = tuple(map(float, f[j + 1:j + 4])); j += 4
                elif f[j] == "o": v["o"] = int(f[j + 1]); j += 2
                else: raise Violation("bad dump")
            d.verts.append(v)
        elif k == "G":
            v = dict(gid=int(f[1]), lid=int(f[2]), own=int(f[3]))
            if len(f) > 4: v["w"] = float(f[5])
            d.ghosts.append(v)
        elif k == "t" and len(f) == 6:
            cur = dict(t=int(f[1]), ge=int(f[2]), gp=int(f[3]), le=int(f[4]), lp=int(f[5]), edges=[])
            d.types.append(cur)
        elif k == "E":
            e = dict(gid=int(f[1]), lid=int(f[2]), w=float(f[3]), deg=int(f[4]))
            rest = f[5:]
            if "r" in rest:
                x = rest.index("r"); y = rest.index("k"); z = rest.index("i")
                e["res"] = sorted(map(int, rest[x + 1:y])); e["cut"] = int(rest[y + 1]); e["on"] = list(map(int, rest[z + 1:]))
                rest = rest[:x]
            e["pins"] = tuple(map(int, rest))
            cur["edges"].append(e)
        else: break
        i += 1
    return d, i

def sections(lines, mark="==="):
    """the output after each occurrence of the mark"""
    at = [i for i, l in enumerate(lines) if l == mark] + [len(lines)]
    return [lines[a + 1:b] for a, b in zip(at, at[1:])]

def need(cond, msg, *a):
    if not cond: raise Violation(msg % a if a else msg)

def canon_edges(m, es):
    if m.hyper: return sorted((e[0], tuple(sorted(e[1])), float(e[2])) for e in es)
    return sorted((e[0], e[1], float(e[2])) for e in es)

def canon_dump_edges(m, T):
    if m.hyper: return sorted((e["gid"], tuple(sorted(e["pins"])), e["w"]) for e in T["edges"])
    return sorted(tuple(e["pins"]) + (e["w"],) for e in T["edges"])

def check_content(m, r, d, what="graph", weights=True, ordered=False, coords=True):
    """vertices, edges, pins and weights of part r"""
    need(d.n[4] == int(m.hyper), "%s: part %d reports hyper=%d", what, r, d.n[4])
    need(d.n[3] == len(m.types), "%s: part %d has %d edge types, expected %d", what, r, d.n[3], len(m.types))
    loc = m.local(r)
    got = [v["gid"] for v in d.verts]
    need(sorted(got) == sorted(loc), "%s: part %d has vertices %s, expected %s", what, r, sorted(got), sorted(loc))
    need(d.n[1] == len(loc), "%s: part %d numLocalVtxs=%d, expected %d", what, r, d.n[1], len(loc))
    if ordered: need(got == m.order[r], "%s: part %d lists its vertices as %s, given %s", what, r, got, m.order[r])
    for k, v in enumerate(d.verts):
        need(v["lid"] == k, "%s: part %d vertex %d visited %d-th has local id %d", what, r, v["gid"], k, v["lid"])
        if weights: need(v["w"] == m.verts[v["gid"]][0], "%s: part %d vertex %d has weight %r, expected %r", what, r, v["gid"], v["w"], m.verts[v["gid"]][0])
        if coords and m.coords:
            need(v.get("c") == tuple(m.verts[v["gid"]][2]), "%s: part %d vertex %d has coordinate %r, expected %r", what, r, v["gid"], v.get("c"), m.verts[v["gid"]][2])
    for t in range(len(m.types)):
        T = d.types[t]
        for e in T["edges"]:
            need(len(e["pins"]) == e["deg"] and (m.hyper or e["deg"] == 2), "%s: part %d type %d edge %d has degree %d and pins %s", what, r, t, e["lid"], e["deg"], e["pins"])
        exp = canon_edges(m, m.local_edges(t, r)); g = canon_dump_edges(m, T)
        need(g == exp, "%s: part %d edge type %d has edges %s, expected %s", what, r, t, g, exp)
        need(T["le"] == len(exp), "%s: part %d type %d numLocalEdges=%d, expected %d", what, r, t, T["le"], len(exp))
        np_ = sum(len(m.ends(e)) for e in m.local_edges(t, r))
        if m.hyper: need(T["lp"] == np_, "%s: part %d type %d numLocalPins=%d, expected %d", what, r, t, T["lp"], np_)
        for k, e in enumerate(T["edges"]):
            need(e["lid"] == k, "%s: part %d type %d edge visited %d-th has local id %d", what, r, t, k, e["lid"])
            need(e["deg"] == len(e["pins"]), "%s: part %d type %d edge %d has degree %d and pins %s", what, r, t, e["gid"], e["deg"], e["pins"])
        if ordered and m.hyper:
            need([e["gid"] for e in T["edges"]] == [e[0] for e in m.eorder[t][r]], "%s: part %d type %d edge order changed", what, r, t)

def check_ghosts(m, r, d, what="graph", gweights=False):
    gh = m.ghosts(r)
    got = {v["gid"]: v["own"] for v in d.ghosts}
    need(len(got) == len(d.ghosts), "%s: part %d lists a ghost twice: %s", what, r, [v["gid"] for v in d.ghosts])
    need(sorted(got) == sorted(gh), "%s: part %d has ghosts %s, expected %s", what, r, sorted(got), sorted(gh))
    need(d.n[2] == len(gh), "%s: part %d numGhostVtxs=%d, expected %d", what, r, d.n[2], len(gh))
    for g in gh:
        need(got[g] == gh[g], "%s: part %d records owner %d for ghost %d, which is on part %d", what, r, got[g], g, gh[g])
    for k, v in enumerate(d.ghosts):
        need(v["lid"] == len(d.verts) + k, "%s: part %d ghost %d has local id %d", what, r, v["gid"], v["lid"])
        if gweights and "w" in v:
            need(v["w"] == m.verts[v["gid"]][0], "%s: part %d sees weight %r for ghost %d, its owner has %r", what, r, v["w"], v["gid"], m.verts[v["gid"]][0])
    for v in d.verts: need(v["own"] == r, "%s: part %d reports owner %d for its own vertex %d", what, r, v["own"], v["gid"])

def check_counts(m, r, d, what="graph"):
    need(d.n[0] == len(m.verts), "%s: part %d numGlobalVtxs=%d, expected %d", what, r, d.n[0], len(m.verts))
    for t in range(len(m.types)):
        T = d.types[t]
        need(T["ge"] == m.global_edges(t), "%s: part %d numGlobalEdges(%d)=%d, expected %d", what, r, t, T["ge"], m.global_edges(t))
        need(T["gp"] == m.global_pins(t), "%s: part %d numGlobalPins(%d)=%d, expected %d", what, r, t, T["gp"], m.global_pins(t))

def check_cut(m, r, d, what="graph"):
    for t in range(len(m.types)):
        for e in d.types[t]["edges"]:
            res = sorted(set(m.part(p) for p in e["pins"]))
            need(e["res"] == res, "%s: part %d type %d edge %s: residence %s, expected %s", what, r, t, e["pins"], e["res"], res)
            need(e["cut"] == int(len(res) > 1), "%s: part %d type %d edge %s: isCut=%d, its vertices are on %s", what, r, t, e["pins"], e["cut"], res)
            on = [int(p in res) for p in range(len(e["on"]))]
            need(e["on"] == on, "%s: part %d type %d edge %s: isResidentOn %s, expected %s", what, r, t, e["pins"], e["on"], on)

def place(lines, ranks, grp):
    """program lines for parts 0..k-1 -> lines for world ranks `ranks`, executed by the members of `grp` only"""
    res = []
    for l in lines:
        if l.startswith("@"):
            r, rest = l[1:].split(" ", 1); res.append("@%d %s" % (ranks[int(r)], rest))
        else: res.append("%%%s %s" % (grp, l))
    return res

def switch(np, ranks, grp):
    """all ranks switch communicators together; the ranks outside the group go to MPI_COMM_SELF"""
    return ["@%d usecomm %s" % (r, grp if r in ranks else "self") for r in range(np)]

def adopt(m, dumps, what="graph"):
    """takes the distribution from the parts' dumps; every vertex must be local on exactly one part"""
    where = {}
    for r, d in enumerate(dumps):
        for v in d.verts:
            g = v["gid"]
            need(g in m.verts, "%s: part %d has vertex %d, which is not in the graph", what, r, g)
            need(g not in where, "%s: vertex %d is local on parts %s and %d", what, g, where.get(g), r)
            where[g] = r
    need(len(where) == len(m.verts), "%s: vertices %s are on no part", what, sorted(set(m.verts) - set(where)))
    for g, p in where.items(): m.verts[g][1] = p

def read_map(sec, i=0):
    """the output of getpart; returns (map, next index)"""
    got = {}
    while sec[i].startswith("m "):
        g, p = map(int, sec[i].split()[1:]); got[g] = p; i += 1
    need(sec[i] == "mend %d" % len(got), "bad map %r", sec[i])
    return got, i + 1

def grow_pins(s, m, n):
    """makes one hyperedge span n vertices, adding vertices as necessary"""
    nxt = max(m.verts, default=0) + 1
    while len(m.verts) < n:
        m.verts[nxt] = [1.0, s.int(0, m.np - 1), (0.0, 0.0, 0.0) if m.coords else None]; nxt += 1
    if not m.types[0]: m.types[0].append([1, (), 1.0])
    m.types[0][0][1] = tuple(list(m.verts)[:n])
