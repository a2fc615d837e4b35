// Graph construction, traversal, adjacency, ownership, migration and tag operations.
#include "worker.h"
#include <agiMigration.h>
#include <agiMigrationTimers.h>
#include <engpar_support.h>
#include <unordered_map>
#include <set>
#include <unistd.h>
#include "c_api.h"
using namespace agi;

// ---- per-rank staged data -------------------------------------------------------------------------
static std::vector<agi::gid_t> V, E, P, GV;
static std::vector<wgt_t> W, EW;
static std::vector<lid_t> D;
static std::vector<part_t> GO;
static std::map<agi::gid_t, std::vector<double>> coordOf;
static std::map<agi::gid_t, part_t> destOf;
static std::map<agi::gid_t, wgt_t> newW;
static std::map<int, GraphTag*> tags;
struct TagInfo { int slot; int kind; etype t; };
static std::map<int, TagInfo> tagInfo;
static std::map<int, Migration*> plans;
static std::map<int, WeightMigration*> wplans;
static void reset_agi() {
  V.clear(); E.clear(); P.clear(); GV.clear(); W.clear(); EW.clear(); D.clear(); GO.clear();
  coordOf.clear(); destOf.clear(); newW.clear(); tags.clear(); tagInfo.clear(); plans.clear(); wplans.clear();
}
static AtReset r1(reset_agi);

OP(verts) { V.clear(); while (a.more()) V.push_back(a.i()); }
OP(vwts) { W.clear(); while (a.more()) W.push_back(a.d()); }
OP(edges) { E.clear(); while (a.more()) E.push_back(a.i()); }
OP(degs) { D.clear(); while (a.more()) D.push_back((lid_t)a.i()); }
OP(pins) { P.clear(); while (a.more()) P.push_back(a.i()); }
OP(ewts) { EW.clear(); while (a.more()) EW.push_back(a.d()); }
OP(ghosts) { GV.clear(); GO.clear(); while (a.more()) { GV.push_back(a.i()); GO.push_back((part_t)a.i()); } }
OP(coords) { coordOf.clear(); while (a.more()) { agi::gid_t g = a.i(); std::vector<double> c(3); for (int i = 0; i < 3; i++) c[i] = a.d(); coordOf[g] = c; } }
OP(dest) { destOf.clear(); while (a.more()) { agi::gid_t g = a.i(); destOf[g] = (part_t)a.i(); } }

// a language ("c" or "f") selects the C or the Fortran interface
OP(fresh) {
  long long s = a.i(); if (G(s)) destroyGraph(G(s));
  std::string l = a.more() ? a.str() : "";
  G(s) = l == "c" ? (Ngraph*)cengpar_createEmptyGraph() : l == "f" ? (Ngraph*)f_empty() : createEmptyGraph();
}
OP(destroy) {
  long long s = a.i(); std::string l = a.more() ? a.str() : "";
  if (G(s)) { if (l == "c") cengpar_destroyGraph(G(s)); else if (l == "f") f_destroy(G(s)); else destroyGraph(G(s)); }
  graphs.erase((int)s);
}

// mode: v = vector overload, a = array overload, n = array overload without weights
OP(cverts) {
  Ngraph* g = G(a.i()); bool hg = a.i(); std::string m = a.str();
  if (m == "v") g->constructVerts(hg, V, W);
  else if (m == "c") cengpar_constructVerts(g, hg, V.data(), W.data(), (int)V.size());
  else if (m == "f") f_verts(g, hg, V.data(), W.data(), (int)V.size());
  else g->constructVerts(hg, (lid_t)V.size(), V.data(), m == "n" ? NULL : W.data());
}
OP(cedges) {
  Ngraph* g = G(a.i()); std::string m = a.str();
  etype t;
  if (m == "v") t = g->constructEdges(E, D, P, EW);
  else if (m == "c") t = cengpar_constructEdges(g, E.data(), D.data(), EW.data(), P.data(), (int)E.size(), (int)P.size());
  else if (m == "f") t = f_edges(g, E.data(), D.data(), EW.data(), P.data(), (int)E.size(), (int)P.size());
  else t = g->constructEdges((agi::gid_t)E.size(), E.data(), D.data(), P.data(), m == "n" ? NULL : EW.data());
  out.f("T %d\n", (int)t);
}
OP(cghosts) {
  Ngraph* g = G(a.i()); std::string m = a.str();
  if (m == "v") {
    std::unordered_map<agi::gid_t, part_t> o;
    for (size_t i = 0; i < GV.size(); i++) o[GV[i]] = GO[i];
    g->constructGhosts(o);
  } else if (m == "c") cengpar_constructGhosts(g, GV.data(), GO.data(), (int)GV.size());
  else if (m == "f") f_ghosts(g, GV.data(), GO.data(), (int)GV.size());
  else g->constructGhosts((lid_t)GV.size(), GV.data(), GO.data());
}
OP(cgraph) {
  Ngraph* g = G(a.i()); bool hg = a.i();
  std::unordered_map<agi::gid_t, part_t> o;
  for (size_t i = 0; i < GV.size(); i++) o[GV[i]] = GO[i];
  g->constructGraph(hg, V, W, E, D, P, o);
}
OP(setcoords) {
  Ngraph* g = G(a.i());
  coord_t* c = new coord_t[g->numLocalVtxs() + 1];
  VertexIterator* it = g->begin(); GraphVertex* v; lid_t i = 0;
  while ((v = g->iterate(it))) { auto& k = coordOf[g->globalID(v)]; k.resize(3); for (int j = 0; j < 3; j++) c[i][j] = k[j]; i++; }
  g->setCoords(c);
  delete [] c;
}
OP(setweights) {
  Ngraph* g = G(a.i());
  std::vector<wgt_t> w; VertexIterator* it = g->begin(); GraphVertex* v; lid_t i = 0;
  std::map<agi::gid_t, wgt_t> m;
  while (a.more()) { agi::gid_t x = a.i(); m[x] = a.d(); }
  while ((v = g->iterate(it))) w.push_back(m.count(g->globalID(v)) ? m[g->globalID(v)] : g->weight(v));
  w.push_back(0); (void)i;
  g->setWeights(w.data());
}
OP(setew) { Ngraph* g = G(a.i()); etype t = (etype)a.i(); g->setEdgeWeights(a.d(), t); }
OP(removeedges) { Ngraph* g = G(a.i()); g->removeEdges((etype)a.i()); }

// ---- dumps ----------------------------------------------------------------------------------------
static double fin(double x) { return x; }
// flags: c coordinates, o original owners, r residence, w ghost weights
OP(dump) {
  Ngraph* g = G(a.i());
  std::string fl = a.more() ? a.str() : "";
  auto has = [&](char c) { return fl.find(c) != std::string::npos; };
  out.f("N %lld %lld %lld %d %d %d\n", (long long)g->numGlobalVtxs(), (long long)g->numLocalVtxs(),
        (long long)g->numGhostVtxs(), g->numEdgeTypes(), (int)g->isHyper(), (int)g->hasCoords());
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) {
    out.f("V %lld %lld %.17g %d", (long long)g->globalID(v), (long long)g->localID(v), fin(g->weight(v)), (int)g->owner(v));
    if (has('c') && g->hasCoords()) { const coord_t& c = g->coord(v); out.f(" c %.17g %.17g %.17g", c[0], c[1], c[2]); }
    if (has('o')) out.f(" o %d", (int)g->originalOwner(v));
    out.f("\n");
  }
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) {
    out.f("G %lld %lld %d", (long long)g->globalID(v), (long long)g->localID(v), (int)g->owner(v));
    if (has('w')) out.f(" w %.17g", g->weight(v));
    out.f("\n");
  }
  for (etype t = 0; t < g->numEdgeTypes(); t++) {
    if (has('x') && g->numLocalEdges(t) == 0 && has('0')) continue;
    out.f("t %d %lld %lld %lld %lld\n", t, (long long)g->numGlobalEdges(t), (long long)g->numGlobalPins(t),
          (long long)g->numLocalEdges(t), (long long)g->numLocalPins(t));
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      out.f("E %lld %lld %.17g %lld", (long long)g->globalID(e), (long long)g->localID(e), g->weight(e), (long long)g->degree(e));
      PinIterator* pi = g->pins(e); GraphVertex* p; lid_t cnt = 0, deg = g->degree(e);
      while (cnt < deg && (p = g->iterate(pi))) { out.f(" %lld", (long long)g->globalID(p)); cnt++; }
      g->destroy(pi);
      if (has('r')) {
        Peers res; g->getResidence(e, res);
        out.f(" r");
        for (auto x : res) out.f(" %d", (int)x);
        out.f(" k %d", (int)g->isCut(e));
        out.f(" i");
        for (int p = 0; p < PCU_Comm_Peers(); p++) out.f(" %d", (int)g->isResidentOn(e, p));
      }
      out.f("\n");
    }
    g->destroy(ei);
  }
}

// full traversal dump; edges are named by their local id, vertices by gid (+lid)
OP(trav) {
  Ngraph* g = G(a.i());
  for (etype t = 0; t < g->numEdgeTypes(); t++) {
    out.f("t %d\n", t);
    VertexIterator* it = g->begin(); GraphVertex* v;
    while ((v = g->iterate(it))) {
      out.f("v %lld %lld e", (long long)g->globalID(v), (long long)g->degree(v, t));
      EdgeIterator* ei = g->edges(v, t); GraphEdge* e;
      while ((e = g->iterate(ei))) out.f(" %lld", (long long)g->localID(e));
      g->destroy(ei);
      out.f(" a");
      GraphIterator* gi = g->adjacent(v, t); GraphVertex* o;
      while ((o = g->iterate(gi))) { e = g->edge(gi); out.f(" %lld %lld", (long long)g->globalID(o), (long long)g->localID(e)); }
      g->destroy(gi);
      out.f("\n");
    }
    EdgeIterator* ei = g->begin(t); GraphEdge* e;
    while ((e = g->iterate(ei))) {
      out.f("e %lld %lld", (long long)g->localID(e), (long long)g->degree(e));
      if (!g->isHyper()) { GraphVertex* u = g->u(e); GraphVertex* w = g->v(e); out.f(" uv %lld %lld", (long long)g->globalID(u), (long long)g->globalID(w)); }
      out.f(" p");
      PinIterator* pi = g->pins(e); GraphVertex* p; int guard = 0;
      while ((p = g->iterate(pi)) && guard++ < 100000) out.f(" %lld %lld", (long long)g->globalID(p), (long long)g->localID(p));
      g->destroy(pi);
      out.f("\n");
    }
    g->destroy(ei);
  }
  // lookups
  VertexIterator* it = g->begin(); GraphVertex* v; GraphVertex* prev = NULL;
  auto lookup = [&](GraphVertex* v) {
    GraphVertex* f = g->findGID(g->globalID(v));
    GraphVertex* f2 = g->find(v);
    out.f("f %lld %lld %d %d %d\n", (long long)g->globalID(v), (long long)g->localID(v), (int)(g->isEqual(f, v)), (int)(g->isEqual(f2, v)),
          prev ? (int)g->isEqual(prev, v) : 0);
    prev = v;
  };
  while ((v = g->iterate(it))) lookup(v);
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) lookup(v);
}
OP(mkvev) { Ngraph* g = G(a.i()); etype t = (etype)a.i(); g->create_vev_adjacency(t, a.i()); }
OP(mkeve) { Ngraph* g = G(a.i()); etype t = (etype)a.i(); g->create_eve_adjacency(t, a.i()); }
OP(vev) {
  Ngraph* g = G(a.i()); etype t = (etype)a.i();
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) {
    out.f("vev %lld", (long long)g->globalID(v));
    VEVIterator* x = g->vev_begin(v, t); GraphVertex* o; long guard = 0;
    for (o = g->iterate(x); x != g->vev_end(v, t) && guard++ < 1000000; o = g->iterate(x)) out.f(" %lld", (long long)g->globalID(o));
    out.f("\n");
  }
}
OP(eve) {
  Ngraph* g = G(a.i()); etype t = (etype)a.i();
  EdgeIterator* it = g->begin(t); GraphEdge* e;
  while ((e = g->iterate(it))) {
    out.f("eve %lld", (long long)g->localID(e));
    EVEIterator* x = g->eve_begin(e); GraphEdge* o; long guard = 0;
    for (o = g->iterate(x); x != g->eve_end(e) && guard++ < 1000000; o = g->iterate(x)) out.f(" %lld", (long long)g->localID(o));
    out.f("\n");
  }
  g->destroy(it);
}

// ---- ownership / migration ------------------------------------------------------------------------
OP(setorig) { G(a.i())->setOriginalOwners(); }
OP(resetown) { G(a.i())->resetOwnership(); }
OP(resetpart) { G(a.i())->resetPartition(); }
OP(changeowners) { Ngraph* g = G(a.i()); std::vector<int> r; while (a.more()) r.push_back((int)a.i()); g->changeOwners(r.data()); }
OP(getpart) {
  Ngraph* g = G(a.i());
  if (a.more()) { // getpart <slot> c|f <number>
    std::string l = a.str(); int n = (int)a.i();
    std::vector<agi::gid_t> v(n); std::vector<part_t> p(n);
    if (l == "c") cengpar_getPartition(g, v.data(), p.data(), n); else f_getpart(g, v.data(), p.data(), n);
    for (int i = 0; i < n; i++) out.f("m %lld %d\n", (long long)v[i], (int)p[i]);
    out.f("mend %d\n", n);
    return;
  }
  PartitionMap* m = g->getPartition();
  for (auto& x : *m) out.f("m %lld %d\n", (long long)x.first, (int)x.second);
  out.f("mend %zu\n", m->size());
  delete m;
}
static MigrationTimers* shared_mt = NULL;
OP(migrate) {
  Ngraph* g = G(a.i());
  std::string how = a.more() ? a.str() : "";
  Migration* plan = new Migration(g);
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) {
    auto d = destOf.find(g->globalID(v));
    if (d != destOf.end()) plan->insert(std::make_pair(v, d->second));
  }
  if (how == "timed") {
    MigrationTimers mt;
    mt.addTimer("setup"); mt.addTimer("comm"); mt.addTimer("build"); mt.addTimer("total");
    g->migrate(plan, &mt);
    // stage totals cover the phases they are made of
    double tot = mt.getTime("total"), s = mt.getTime("setup"), c = mt.getTime("comm"), b = mt.getTime("build");
    out.f("mt %d %d %d\n", (int)(tot + 1e-9 >= s && tot + 1e-9 >= c && tot + 1e-9 >= b), mt.getCount("total"), mt.getCount("comm"));
  } else if (how == "shared") g->migrate(plan, shared_mt);
  else g->migrate(plan);
}
static void reset_mt() { delete shared_mt; shared_mt = NULL; }
static AtReset r2(reset_mt);
static MigrationTimers* mt() { if (!shared_mt) shared_mt = new MigrationTimers; return shared_mt; }
OP(tmadd) { mt()->addTimer(a.str()); }
OP(tmupd) { std::string n = a.str(); mt()->update(n, a.d()); }
OP(tmget) {
  MigrationTimers* t = mt();
  while (a.more()) {
    std::string n = a.str();
    int c = t->getCount(n);
    out.f("tm %s %.17g %d %.17g %.17g", n.c_str(), t->getTime(n), c, t->processMax(n), t->processAvg(n));
    if (PCU_Min_Int(c) > 0) { double x = t->perCallProcessMax(n); out.f(" %.17g %.17g", x, t->perCallProcessAvg(n)); }
    out.f("\n");
  }
}
OP(tmstages) { reset_mt(); mt(); for (const char* n : {"setup", "comm", "build", "total"}) shared_mt->addTimer(n); }
OP(tmcheck) {
  MigrationTimers* t = mt();
  double tot = t->getTime("total");
  out.f("tmc %d %d %d %d %d\n", t->getCount("setup"), t->getCount("comm"), t->getCount("build"), t->getCount("total"),
        (int)(t->getTime("setup") >= 0 && t->getTime("comm") >= 0 && t->getTime("build") >= 0 && tot + 1e-9 >= t->getTime("setup") + t->getTime("comm") + t->getTime("build")));
}
OP(repart) {
  Ngraph* g = G(a.i());
  std::vector<part_t> p; VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) { auto d = destOf.find(g->globalID(v)); p.push_back(d == destOf.end() ? PCU_Comm_Self() : d->second); }
  p.push_back(-7);
  g->repartition(p.data());
}
OP(valid) {
  Ngraph* g = G(a.i());
  EnGPar_Start_Test();
  if (a.more()) {
    if (a.str() == "c") cengpar_checkValidity(g); else f_valid(g);
    out.f("valid - %d\n", (int)EnGPar_Hit_Error());
    return;
  }
  bool r = checkValidity(g);
  out.f("valid %d %d\n", (int)r, (int)EnGPar_Hit_Error());
}
OP(printstats) { G(a.i())->printStats(); }

// ---- tags -----------------------------------------------------------------------------------------
OP(mktag) {
  int id = (int)a.i(); int s = (int)a.i(); std::string k = a.str(); etype t = (etype)a.i();
  Ngraph* g = G(s); TagInfo ti; ti.slot = s; ti.t = t;
  if (k == "i") { tags[id] = g->createIntTag(t); ti.kind = 0; }
  else if (k == "d") { tags[id] = g->createDoubleTag(t); ti.kind = 1; }
  else { tags[id] = g->createLongTag(t); ti.kind = 2; }
  tagInfo[id] = ti;
}
static GraphVertex* vtxAt(Ngraph* g, lid_t i) { VertexIterator* it = g->begin(); GraphVertex* v = NULL; while ((v = g->iterate(it))) if (g->localID(v) == i) return v; return NULL; }
static GraphEdge* edgeAt(Ngraph* g, etype t, lid_t i) { EdgeIterator* it = g->begin(t); GraphEdge* e; while ((e = g->iterate(it))) if (g->localID(e) == i) break; g->destroy(it); return e; }
// settag id index value   (index is a local id; ignored when out of range)
OP(settag) {
  int id = (int)a.i(); TagInfo ti = tagInfo[id]; Ngraph* g = G(ti.slot); lid_t i = (lid_t)a.i();
  if (ti.t == VTX_TYPE) {
    GraphVertex* v = vtxAt(g, i); if (!v) return;
    if (ti.kind == 0) g->setIntTag(tags[id], v, (int)a.i()); else if (ti.kind == 1) g->setDoubleTag(tags[id], v, a.d()); else g->setLongTag(tags[id], v, (long)a.i());
  } else {
    GraphEdge* e = edgeAt(g, ti.t, i); if (!e) return;
    if (ti.kind == 0) g->setIntTag(tags[id], e, (int)a.i()); else if (ti.kind == 1) g->setDoubleTag(tags[id], e, a.d()); else g->setLongTag(tags[id], e, (long)a.i());
  }
}
OP(filltag) { // all entities := base + step*lid
  int id = (int)a.i(); TagInfo ti = tagInfo[id]; Ngraph* g = G(ti.slot); std::string b = a.str(); 
  long long base = strtoll(b.c_str(), 0, 0); double dbase = strtod(b.c_str(), 0);
  if (ti.t == VTX_TYPE) {
    VertexIterator* it = g->begin(); GraphVertex* v;
    while ((v = g->iterate(it))) { lid_t i = g->localID(v);
      if (ti.kind == 0) g->setIntTag(tags[id], v, (int)(base + i)); else if (ti.kind == 1) g->setDoubleTag(tags[id], v, dbase + i); else g->setLongTag(tags[id], v, base + i); }
  } else {
    EdgeIterator* it = g->begin(ti.t); GraphEdge* e;
    while ((e = g->iterate(it))) { lid_t i = g->localID(e);
      if (ti.kind == 0) g->setIntTag(tags[id], e, (int)(base + i)); else if (ti.kind == 1) g->setDoubleTag(tags[id], e, dbase + i); else g->setLongTag(tags[id], e, base + i); }
    g->destroy(it);
  }
}
static void emitV(Ngraph* g, int id, int kind, GraphVertex* v) {
  if (kind == 0) out.f(" %d", g->getIntTag(tags[id], v)); else if (kind == 1) out.f(" %.17g", g->getDoubleTag(tags[id], v)); else out.f(" %ld", g->getLongTag(tags[id], v));
}
OP(gettag) {
  int id = (int)a.i(); TagInfo ti = tagInfo[id]; Ngraph* g = G(ti.slot);
  bool ghosts = a.more() && a.str() == "ghosts";
  out.f("tag %d", id);
  if (ti.t == VTX_TYPE) {
    VertexIterator* it = g->begin(); GraphVertex* v;
    if (!ghosts) while ((v = g->iterate(it))) emitV(g, id, ti.kind, v);
    else { GhostIterator* gi = g->beginGhosts(); while ((v = g->iterate(gi))) { out.f(" %lld", (long long)g->globalID(v)); emitV(g, id, ti.kind, v); } }
  } else {
    EdgeIterator* it = g->begin(ti.t); GraphEdge* e;
    while ((e = g->iterate(it))) { if (ti.kind == 0) out.f(" %d", g->getIntTag(tags[id], e)); else if (ti.kind == 1) out.f(" %.17g", g->getDoubleTag(tags[id], e)); else out.f(" %ld", g->getLongTag(tags[id], e)); }
    g->destroy(it);
  }
  out.f("\n");
}
OP(rmtag) { int id = (int)a.i(); TagInfo ti = tagInfo[id]; G(ti.slot)->destroyTag(tags[id]); tags.erase(id); tagInfo.erase(id); }
// ghost tags: the callback mixes the rank, a salt and the gid so that only the owner knows the value
static unsigned long long ghostSalt = 0;
static uint64_t gval(Ngraph* g, GraphVertex* v) {
  return mix64(ghostSalt * 1000003ull + mix64((uint64_t)g->globalID(v) * 64 + PCU_Comm_Self()));
}
static int cbInt(Ngraph* g, GraphVertex* v) { return (int)(uint32_t)gval(g, v); }
static double cbDouble(Ngraph* g, GraphVertex* v) { return (double)(int64_t)gval(g, v) / 1048576.0; }
static long cbLong(Ngraph* g, GraphVertex* v) { return (long)gval(g, v); }
OP(mkgtag) {
  int id = (int)a.i(); int s = (int)a.i(); std::string k = a.str(); ghostSalt = a.u();
  Ngraph* g = G(s); TagInfo ti; ti.slot = s; ti.t = VTX_TYPE;
  if (k == "i") { tags[id] = g->createIntGhostTag(cbInt); ti.kind = 0; }
  else if (k == "d") { tags[id] = g->createDoubleGhostTag(cbDouble); ti.kind = 1; }
  else { tags[id] = g->createLongGhostTag(cbLong); ti.kind = 2; }
  tagInfo[id] = ti;
  out.f("gt %d", id);
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) {
    out.f(" %lld", (long long)g->globalID(v));
    if (ti.kind == 0) out.f(" %d", cbInt(g, v)); else if (ti.kind == 1) out.f(" %.17g", cbDouble(g, v)); else out.f(" %ld", cbLong(g, v));
  }
  out.f("\n");
}

// ---- Migration / WeightMigration containers ---------------------------------------------------------
static GraphVertex* anyAt(Ngraph* g, lid_t i) {
  VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) if (g->localID(v) == i) return v;
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) if (g->localID(v) == i) return v;
  return NULL;
}
OP(mgnew) { int id = (int)a.i(); plans[id] = new Migration(G(a.i())); }
OP(mgdel) { int id = (int)a.i(); delete plans[id]; plans.erase(id); }
OP(mgins) { int id = (int)a.i(); Ngraph* g = G(a.i()); GraphVertex* v = vtxAt(g, (lid_t)a.i()); if (!v) return; out.f("ins %d\n", (int)plans[id]->insert(std::make_pair(v, (int)a.i()))); }
OP(mgclear) { plans[(int)a.i()]->clear(); out.f("clr\n"); }
OP(mgdump) {
  int id = (int)a.i(); Ngraph* g = G(a.i()); Migration* p = plans[id];
  out.f("mg %lld it", (long long)p->size());
  for (Migration::iterator it = p->begin(); it != p->end(); ++it) out.f(" %lld %d", (long long)g->localID(*it), p->get(*it));
  out.f(" has");
  VertexIterator* vi = g->begin(); GraphVertex* v;
  while ((v = g->iterate(vi))) out.f(" %d", (int)p->has(v));
  out.f(" gh");
  GhostIterator* gi = g->beginGhosts();
  while ((v = g->iterate(gi))) out.f(" %d", (int)p->has(v));
  out.f("\n");
}
OP(wmnew) { int id = (int)a.i(); wplans[id] = new WeightMigration(G(a.i())); }
OP(wmdel) { int id = (int)a.i(); delete wplans[id]; wplans.erase(id); }
OP(wmins) { int id = (int)a.i(); Ngraph* g = G(a.i()); GraphVertex* v = anyAt(g, (lid_t)a.i()); GraphVertex* u = anyAt(g, (lid_t)a.i()); if (!v || !u) return; wplans[id]->insert(v, u, a.d()); out.f("wi\n"); }
OP(wmclear) { wplans[(int)a.i()]->clear(); }
OP(wmdump) {
  int id = (int)a.i(); Ngraph* g = G(a.i()); WeightMigration* p = wplans[id];
  out.f("wm %.17g it", (double)p->size());
  WeightMigration::iterator it = p->begin();
  bool post = a.i();
  while (it != p->end()) {
    out.f(" %lld %lld %.17g", (long long)g->localID(it.u()), (long long)g->localID(it.v()), it.weight());
    if (post) it++; else ++it;
  }
  lid_t n = g->numTotalVtxs();
  out.f(" has");
  for (lid_t i = 0; i < n; i++) { GraphVertex* v = anyAt(g, i); if (p->has(v)) { out.f(" %lld", (long long)i); for (lid_t j = 0; j < n; j++) { GraphVertex* u = anyAt(g, j); if (p->has(v, u)) out.f(":%lld=%.17g", (long long)j, p->get(v, u)); } } }
  out.f("\n");
}
// weight migration: wsend <src gid> <peer gid> <w> ... (src must be local)
static std::vector<std::pair<std::pair<agi::gid_t, agi::gid_t>, wgt_t>> wsend;
OP(wsend) { wsend.clear(); while (a.more()) { agi::gid_t x = a.i(), y = a.i(); wgt_t w = a.d(); wsend.push_back({{x, y}, w}); } }
OP(wmigrate) {
  Ngraph* g = G(a.i());
  WeightMigration* p = new WeightMigration(g);
  for (auto& s : wsend) p->insert(g->findGID(s.first.first), g->findGID(s.first.second), s.second);
  g->migrate(p);
  wsend.clear();
}
OP(wpart) {
  Ngraph* g = G(a.i());
  WeightPartitionMap* m = g->getWeightPartition();
  for (auto& x : *m) for (auto& y : x.second) out.f("wp %lld %lld %.17g\n", (long long)x.first, (long long)y.first, y.second);
}

// ---- files ----------------------------------------------------------------------------------------
OP(save) {
  Ngraph* g = G(a.i()); std::string f = a.str(), l = a.more() ? a.str() : "";
  if (l == "c") cengpar_saveToFile(g, f.c_str()); else if (l == "f") f_save(g, f.c_str()); else g->saveToFile(f.c_str());
}
OP(load) {
  Ngraph* g = G(a.i()); std::string f = a.str(), l = a.more() ? a.str() : "";
  if (l == "c") cengpar_loadFromFile(g, f.c_str()); else if (l == "f") f_load(g, f.c_str()); else g->loadFromFile(f.c_str());
}
OP(vtk) {
  Ngraph* g = G(a.i()); std::string p = a.str();
  GraphTag* tag = NULL; etype t = NO_TYPE;
  if (a.more()) { tag = tags[(int)a.i()]; t = (etype)a.i(); }
  writeVTK(g, p.c_str(), tag, t);
}
OP(mark) { out.f("%s\n", a.more() ? a.str().c_str() : "--"); }
