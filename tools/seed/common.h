// Shared by the demonstrations: a small graph description that every process builds its part of.
#include <mpi.h>
#include <unistd.h>
#include <PCU.h>
#include <ngraph.h>
#include <agi.h>
#include <agiMigration.h>
#include <engpar_support.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <set>
#include <vector>
#include <string>
#include <algorithm>
using namespace agi;
static int fails = 0;
#define CHECK(c) do { if (!(c)) { fails++; fprintf(stderr, "rank %d, line %d: %s\n", PCU_Comm_Self(), __LINE__, #c); } } while (0)
struct Edge { agi::gid_t id; std::vector<agi::gid_t> p; double w; };
struct Desc {
  bool hyper;
  std::map<agi::gid_t, int> part; std::map<agi::gid_t, double> w;
  std::vector<std::vector<Edge> > types;
  Desc(bool h = false, int nt = 1) : hyper(h), types(nt) {}
  void vtx(agi::gid_t g, int p, double wt = 1) { part[g] = p; w[g] = wt; }
  void edge(int t, agi::gid_t id, std::vector<agi::gid_t> pins, double wt = 1) { Edge e; e.id = id; e.p = pins; e.w = wt; types[t].push_back(e); }
  void sym(int t, agi::gid_t a, agi::gid_t b, double wt = 1) { std::vector<agi::gid_t> p(2); p[0] = a; p[1] = b; edge(t, 0, p, wt); std::swap(p[0], p[1]); edge(t, 0, p, wt); }
  bool here(const Edge& e) const {
    if (!hyper) return part.at(e.p[0]) == PCU_Comm_Self();
    for (size_t i = 0; i < e.p.size(); i++) if (part.at(e.p[i]) == PCU_Comm_Self()) return true;
    return false;
  }
  Ngraph* build(bool arrays = false) const {
    Ngraph* g = createEmptyGraph();
    std::vector<agi::gid_t> V; std::vector<wgt_t> W;
    for (auto& x : part) if (x.second == PCU_Comm_Self()) { V.push_back(x.first); W.push_back(w.at(x.first)); }
    if (arrays) g->constructVerts(hyper, (lid_t)V.size(), V.data(), W.data()); else g->constructVerts(hyper, V, W);
    std::unordered_map<agi::gid_t, part_t> own;
    for (auto& T : types) {
      std::vector<agi::gid_t> E, P; std::vector<lid_t> D; std::vector<wgt_t> EW;
      for (auto& e : T) if (here(e)) {
        E.push_back(hyper ? e.id : (agi::gid_t)E.size()); D.push_back((lid_t)e.p.size()); EW.push_back(e.w);
        for (auto p : e.p) { P.push_back(p); if (part.at(p) != PCU_Comm_Self()) own[p] = part.at(p); }
      }
      if (arrays) g->constructEdges((agi::gid_t)E.size(), E.data(), D.data(), P.data(), EW.data()); else g->constructEdges(E, D, P, EW);
    }
    if (arrays) {
      std::vector<agi::gid_t> GV; std::vector<part_t> GO;
      for (auto& x : own) { GV.push_back(x.first); GO.push_back(x.second); }
      g->constructGhosts((lid_t)GV.size(), GV.data(), GO.data());
    } else g->constructGhosts(own);
    return g;
  }
};
// the local edges of a type: (id or 0, pins, weight), sorted
typedef std::pair<std::pair<agi::gid_t, std::vector<agi::gid_t> >, double> LE;
static std::vector<LE> localEdges(Ngraph* g, etype t) {
  std::vector<LE> r; EdgeIterator* it = g->begin(t); GraphEdge* e;
  while ((e = g->iterate(it))) {
    std::vector<agi::gid_t> p; PinIterator* pi = g->pins(e); GraphVertex* v;
    while ((v = g->iterate(pi))) p.push_back(g->globalID(v));
    g->destroy(pi);
    if (g->isHyper()) std::sort(p.begin(), p.end());
    r.push_back(LE(std::make_pair(g->isHyper() ? g->globalID(e) : 0, p), g->weight(e)));
  }
  g->destroy(it); std::sort(r.begin(), r.end()); return r;
}
static std::vector<LE> expectedEdges(const Desc& d, etype t) {
  std::vector<LE> r;
  for (auto& e : d.types[t]) if (d.here(e)) { std::vector<agi::gid_t> p = e.p; if (d.hyper) std::sort(p.begin(), p.end()); r.push_back(LE(std::make_pair(d.hyper ? e.id : 0, p), e.w)); }
  std::sort(r.begin(), r.end()); return r;
}
static std::map<agi::gid_t, double> localVerts(Ngraph* g) {
  std::map<agi::gid_t, double> r; VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) r[g->globalID(v)] = g->weight(v);
  return r;
}
static std::map<agi::gid_t, double> expectedVerts(const Desc& d) {
  std::map<agi::gid_t, double> r; for (auto& x : d.part) if (x.second == PCU_Comm_Self()) r[x.first] = d.w.at(x.first);
  return r;
}
static std::map<agi::gid_t, int> ghosts(Ngraph* g) {
  std::map<agi::gid_t, int> r; GhostIterator* it = g->beginGhosts(); GraphVertex* v;
  while ((v = g->iterate(it))) r[g->globalID(v)] = g->owner(v);
  return r;
}
static std::map<agi::gid_t, int> expectedGhosts(const Desc& d) {
  std::map<agi::gid_t, int> r;
  for (auto& T : d.types) for (auto& e : T) if (d.here(e)) for (auto p : e.p) if (d.part.at(p) != PCU_Comm_Self()) r[p] = d.part.at(p);
  return r;
}
static void checkGraph(Ngraph* g, const Desc& d) {
  CHECK(localVerts(g) == expectedVerts(d));
  CHECK(g->numGlobalVtxs() == (agi::gid_t)d.part.size());
  CHECK(g->numEdgeTypes() == (etype)d.types.size());
  for (size_t t = 0; t < d.types.size(); t++) {
    CHECK(localEdges(g, (etype)t) == expectedEdges(d, (etype)t));
    size_t pins = 0; for (auto& e : d.types[t]) pins += e.p.size();
    CHECK(g->numGlobalEdges((etype)t) == (agi::gid_t)d.types[t].size());
    CHECK(g->numGlobalPins((etype)t) == (agi::gid_t)pins);
  }
  CHECK(ghosts(g) == expectedGhosts(d));
}
static std::vector<agi::gid_t> vevList(Ngraph* g, GraphVertex* v, etype t) {
  std::vector<agi::gid_t> r; VEVIterator* a = g->vev_begin(v, t); GraphVertex* o;
  for (o = g->iterate(a); a != g->vev_end(v, t) && r.size() < 1000; o = g->iterate(a)) r.push_back(g->globalID(o));
  std::sort(r.begin(), r.end()); return r;
}
static std::vector<agi::lid_t> eveList(Ngraph* g, GraphEdge* e) {
  std::vector<agi::lid_t> r; EVEIterator* a = g->eve_begin(e); GraphEdge* o;
  for (o = g->iterate(a); a != g->eve_end(e) && r.size() < 1000; o = g->iterate(a)) r.push_back(g->localID(o));
  std::sort(r.begin(), r.end()); return r;
}
// moves vertices; d follows
static void move(Ngraph* g, Desc& d, const std::map<agi::gid_t, int>& dest) {
  Migration* plan = new Migration(g); VertexIterator* it = g->begin(); GraphVertex* v;
  while ((v = g->iterate(it))) { auto x = dest.find(g->globalID(v)); if (x != dest.end()) plan->insert(std::make_pair(v, x->second)); }
  g->migrate(plan);
  for (auto& x : dest) d.part[x.first] = x.second;
}
static void demo();
int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
#ifndef RAW_PCU
  EnGPar_Initialize(-1);
#endif
  demo();
  int all = 0; MPI_Allreduce(&fails, &all, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
  fflush(stdout); fflush(stderr);
  MPI_Barrier(MPI_COMM_WORLD);
  if (all) _exit(1);
#ifndef RAW_PCU
  EnGPar_Finalize();
#endif
  MPI_Finalize();
  return 0;
}
