"""P05: the library can be started and stopped any number of times; debug files and error flag."""
from comm import *
from model import *
import hist
RULE = "the library was stopped and started again at least once and messages or graphs were used afterwards; distinct program texts are counted"

class Life:
    def __init__(self, S, s, ctx, np):
        self.S, self.s, self.ctx, self.np, self.every = S, s, ctx, np, list(range(np))
        self.pcu, self.eng = "user", True              # who owns PCU (None: not started); whether the library is started
        self.verb, self.log, self.order = -1, False, True
        self.cur = [("world", self.every)]
        self.pd = None                                  # lines of PCU's debug files per rank, while open
        self.ed = False; self.edlines = None; self.out = [[] for _ in range(np)]
        self.n = 0; self.starts = 0; self.used = False; self.hit = None
    def all(self, op):
        for r in self.every: self.S.add(r, op)
    def world(self): return self.cur[0][0] == "world"
    def place(self, r):
        for name, g in self.cur:
            if r in g: return g.index(r), len(g)
    def look(self):
        for r in self.every:
            i, n = self.place(r) if self.pcu else (-1, -1)
            self.S.add(r, "life")
            self.S.expect[r].append(line_is("life %d %d %d %d %d 0" % (bool(self.pcu), i, n, bool(self.pcu) and self.world(), self.log and r == 0),
                                            "rank %d, PCU started by %s, library %s" % (r, self.pcu, "started" if self.eng else "stopped")))
    def init(self):
        s = self.s; how = s.weighted([("x", 4), ("c", 1), ("f", 1)]); v = s.int(-2, 3) if how == "x" else 0
        self.all("enginit %s %d" % (how, v))
        if not self.pcu: self.pcu = "engpar"; self.order = True; self.cur = [("world", self.every)]; self.ctx.label("init_starts_pcu")
        else: self.ctx.label("init_keeps_pcu")
        self.eng = True; self.verb = v; self.starts += 1
        for r in self.every:
            if v >= 0 and self.place(r)[0] == 0: self.S.expect[r].append(line_is("gh ENGPAR Git hash verif", "rank %d: EnGPar_Initialize(%d)" % (r, v)))
            self.S.expect[r].append(line_is("ei" + "".join(" %d" % (v >= k) for k in range(-2, 5)), "rank %d: levels after EnGPar_Initialize(%d)" % (r, v)))
    def final(self):
        self.all("engfinal " + self.s.weighted([("x", 4), ("c", 1), ("f", 1)]))
        self.ed = False; self.log = False; self.eng = False
        if self.pcu == "engpar": self.pcu = None; self.closed()
        self.ctx.label("final_stops_pcu" if not self.pcu else "final_keeps_pcu")
    def userinit(self):
        self.all("pcuinit"); self.pcu = "user"; self.order = True; self.cur = [("world", self.every)]; self.starts += 1
    def userfree(self): self.all("pcufree"); self.pcu = None; self.closed()
    def closed(self):
        """PCU's debug files are closed with PCU"""
        if self.pd is None: return
        for r in self.every:
            self.S.add(r, "pdread")
            for l in self.pd[r]: self.S.expect[r].append(line_is("pd line %d" % l, "rank %d: debug file of PCU" % r))
        self.all("pdgone"); self.pd = None; self.ctx.label("pcu_debug_file")
    def switch(self, sets):
        s = self.s; k = s.int(-1, len(sets) - 1); op = s.weighted([("usecomm", 2), ("engswitch", 2), ("ccomm c", 1), ("ccomm f", 1)])
        if k < 0: self.cur = [("world", self.every)]
        else:
            self.cur = [("g%d_%d" % (k, j), g) for j, g in enumerate(sets[k])]
            self.cur += [("self", [r]) for r in sorted(set(self.every) - set(r for g in sets[k] for r in g))]
            self.ctx.label("group")
        for name, g in self.cur:
            for r in g: self.S.add(r, op + " " + name)
    def talk(self):
        S, s, ctx = self.S, self.s, self.ctx
        for name, g in self.cur:
            for _ in range(s.int(1, 2)):
                if s.bool(2, 3): phase(S, s, ctx, g, "start %d" % self.starts, big=False, ordered=self.order)
                else: collective(S, s, ctx, g, "start %d" % self.starts)
        if self.starts > 1: self.used = True
    def pcudebug(self):
        s = self.s
        if self.pd is None or s.bool(1, 4):
            if self.pd is None: self.pd = [[] for _ in self.every]
            self.all("pdopen")
        for r in self.every:
            for _ in range(s.int(0, 2)):
                self.n += 1; self.S.add(r, "pdprint %d" % self.n); self.pd[r].append(self.n)
    def pcuprint_closed(self):
        for r in self.every: self.S.add(r, "pdprint 99")       # without a file: nothing happens
    def engdebug(self):
        s = self.s
        if self.ed and s.bool(): self.all("edclose"); self.ed = False; self.ctx.label("debug_close"); return
        mode = s.pick(["o", "e", "oe"])
        self.all("edopen " + mode)
        if self.verb >= 0:
            self.ed = mode; self.edlines = [[] for _ in self.every]; self.ctx.label("debug_open")
    def say(self):
        s = self.s
        for r in self.every:
            for _ in range(s.int(0, 2)):
                self.n += 1; k = s.pick(["status", "level", "warning", "printf", "error"]); put = True; l = "S%d" % self.n
                if k == "level":
                    v = s.int(-2, 3); self.S.add(r, "say level %d %d" % (self.n, v)); put = self.verb >= v; l = "ENGPAR " + l
                else:
                    self.S.add(r, "say %s %d" % (k, self.n))
                    if k == "status": l = "ENGPAR " + l
                    if k == "warning": l = "[WARNING] ENGPAR " + l
                    if k == "error":
                        l = "[ERROR] ENGPAR " + l; put = self.ed and "e" in self.ed
                        if self.hit is not None: self.hit[r] = 1
                if put: (self.edlines if self.ed else self.out)[r].append(l)
    def flag(self):
        if self.hit is None or self.s.bool(1, 4): self.all("starttest"); self.hit = [0] * self.np
        for r in self.every:
            self.S.add(r, "hiterror"); self.S.expect[r].append(line_is("hit %d" % self.hit[r], "rank %d: EnGPar_Hit_Error" % r))

def lines_are(pre, exp, skip, what):
    def fn(lines, i):
        got = []
        while i < len(lines) and lines[i].startswith(pre + " "):
            if not any(x in lines[i] for x in skip): got.append(lines[i][len(pre) + 1:])
            i += 1
        need(got == exp, "%s: found %r, expected %r", what, got[-12:], exp[-12:])
        return i
    return fn

def groups(s, np):
    k = s.int(1, min(3, np)); G = [[] for _ in range(k)]
    for r in range(np):
        if s.bool(4, 5): G[s.int(0, k - 1)].append(r)
    return [s.shuffle(g) for g in G if g]

def PROPERTY(s, ctx):
    np = ctx.np; S = Script(np); L = Life(S, s, ctx, np); every = L.every
    perturbation(S, s, ctx)
    sets = [groups(s, np) for _ in range(s.int(1, 2))]
    for k, P in enumerate(sets):
        for j, g in enumerate(P): S.lines.append("group g%d_%d %s" % (k, j, " ".join(map(str, g))))
    prints = s.bool(1, 2)
    L.all("outstart")
    m = None
    for step in range(s.int(3, 14)):
        acts = []
        if L.eng: acts.append((L.final, 3))
        if not L.eng: acts.append((L.init, 4))
        if not L.pcu and not L.eng: acts.append((L.userinit, 2))
        if L.pcu == "user" and not L.eng: acts.append((L.userfree, 3))
        if L.pcu == "user" and L.eng: acts.append((L.userfree, 0.5))
        if not L.pcu and L.eng: acts = [(L.final, 1)]
        if L.pcu:
            acts += [(L.talk, 3), (lambda: L.switch(sets), 1.5), ("order", 1)]
            if L.world(): acts.append((L.pcudebug, 0.7))
            if L.pd is None: acts.append((L.pcuprint_closed, 0.2))
            if L.world() and L.eng and not L.log: acts.append(("log", 0.5))
            if L.world() and m is None: acts.append(("graph", 1))
        if L.eng and L.pcu and L.world() and prints: acts.append((L.engdebug, 1.5))
        if prints: acts += [(L.say, 1.5), (L.flag, 0.5)]
        a = s.weighted(acts)
        if a == "order": L.order = s.bool(); L.all("order %d" % L.order)
        elif a == "log": L.all("logopen"); L.log = True; ctx.label("log")
        elif a == "graph":
            m = gen_model(s, np, nv=(1, 8), ntypes=1); ctx.label("graph")
            S.lines += ["fresh 0"] + stage(m, s) + ["mark ==="]
            for r in every: S.expect[r].append(lambda lines, i: lines.index("===", i) + 1)
            born = L.starts
        else: a()
        if s.bool(): L.look()
    # what was printed, and where
    if L.ed: L.all("edclose"); L.ed = False
    if prints:
        for r in every:
            S.add(r, "outread")
            S.expect[r].append(lines_are("so", L.out[r], ("Opening debug files", "Git hash"), "rank %d: the standard output" % r))
            if L.edlines:
                S.add(r, "edread"); S.expect[r].append(lines_are("ed", L.edlines[r], ("Opening debug files", "Git hash"), "rank %d: the last debug file" % r))
        L.all("edgone")
    # back to what the driver needs: PCU of the program, the library started and quiet
    if L.eng: L.final()
    if L.pcu: L.userfree()
    L.look()
    L.userinit()
    L.all("enginit x -1"); L.eng = True; L.verb = -1
    for r in every: S.expect[r].append(line_is("ei" + "".join(" %d" % (-1 >= k) for k in range(-2, 5)), "rank %d: levels after EnGPar_Initialize(-1)" % r))
    L.look(); L.talk()
    S.lines.append("usecomm world")
    if m:
        S.lines += ["dump 0 rc", "valid 0"]
        if born < L.starts: L.used = True; ctx.label("graph_outlives")
        for r in every: S.expect[r].append(graph_is(m, r))
    H = None
    if s.bool(1, 4):
        H, slots, rich = hist.legal_history(s, ctx, np, (2, 6))
        if any(l.startswith("fresh") for l in H):
            for i in sorted(slots): H += ["mark ---", "setorig %d" % i, "dump %d rcow" % i, "getpart %d" % i, "valid %d" % i]
            ctx.label("work_after")
        else: H = None
    ctx.nontrivial(L.starts > 1 and L.used)
    if not H: S.check(ctx.run("\n".join(S.lines))); return
    if m: S.lines.append("destroy 0")
    ref = ctx.run("\n".join(H))
    outs = ctx.run("\n".join(S.lines + ["mark ====="] + H))
    for r in every:
        k = outs[r].index("=====")
        need([l for l in outs[r][k + 1:] if not l.startswith("bar ")] == [l for l in ref[r] if not l.startswith("bar ")], "part %d: work done after the library was stopped and started again gives other results", r)
        outs[r] = outs[r][:k]
    S.check(outs)

def graph_is(m, r):
    def fn(lines, i):
        d, i = parse_dump(lines, i)
        what = "the graph after the library was stopped and started"
        check_content(m, r, d, what); check_ghosts(m, r, d, what); check_counts(m, r, d, what); check_cut(m, r, d, what)
        need(lines[i] == "valid 1 0", "part %d: checkValidity: %s", r, lines[i])
        return i + 1
    return fn

PLAN = {"quick": {"runs": [(1, 1500), (2, 3000), (3, 3000), (4, 3000), (5, 2500), (7, 1500)], "budget": 35},
        "thorough": {"runs": [(n, 40000) for n in (1, 2, 3, 4, 5, 6, 7, 8)], "budget": 900}}
