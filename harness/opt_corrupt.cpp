// Corruptions for checkValidity, through the library's own publicize().  (opt_*.cpp: left out when they do
// not compile, because they name things that are not part of the interface.)
#include "worker.h"
#include <agiMigration.h>
using namespace agi;
OP(corrupt) {
  Ngraph* g = G(a.i()); std::string w = a.str(); PNgraph* p = g->publicize();
  if (w == "gverts") p->num_global_verts += a.i();
  else if (w == "gedges") { int t = (int)a.i(); p->num_global_edges[t] += a.i(); }
  else if (w == "gpins") { int t = (int)a.i(); p->num_global_pins[t] += a.i(); }
  else if (w == "lpins") { int t = (int)a.i(); p->num_local_pins[t] += (lid_t)a.i(); }
  else if (w == "pin") {               // the pin of edge e at vertex v is replaced by vertex u
    int t = (int)a.i(); agi::gid_t e = a.i(), v = a.i(), u = a.i(); lid_t le = p->edge_mapping[t][e];
    lid_t lv = g->localID(g->findGID(v)), lu = g->localID(g->findGID(u));
    for (lid_t i = p->pin_degree_list[t][le]; i < p->pin_degree_list[t][le + 1]; i++) if (p->pin_list[t][i] == lv) p->pin_list[t][i] = lu;
  }
  else if (w == "ghost") { agi::gid_t v = a.i(); p->owners[g->localID(g->findGID(v)) - g->numLocalVtxs()] = (part_t)a.i(); }
}
