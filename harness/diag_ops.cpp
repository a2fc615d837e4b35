// Diagnostics: log, verbosity, statistics, debug files.
#include "worker.h"
#include <engpar_support.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace agi;
void cap_begin(); std::string cap_end();
extern FILE* logFD;
static void lines(const char* pre, const std::string& s) {
  size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); out.f("%s %s\n", pre, s.substr(p, e - p).c_str()); p = e + 1; }
}
OP(verb) { EnGPar_Set_Verbosity((int)a.i()); }
OP(logopen) { EnGPar_Open_Log(); }
// logmark <k>: a line of our own in the log, which has to be at the top level
OP(logmark) {
  if (!EnGPar_Is_Log_Open()) return;
  char s[40]; snprintf(s, sizeof s, "MARK%d\n", (int)a.i());
  EnGPar_Log_Function(s); EnGPar_End_Function();
}
// logclose: closes the log and reports its lines
OP(logclose) {
  bool had = EnGPar_Is_Log_Open();
  EnGPar_Close_Log();
  if (!had) return;
  FILE* f = fopen("log.txt", "r"); std::string s; int c;
  while (f && (c = fgetc(f)) != EOF) s += (char)c;
  if (f) fclose(f);
  unlink("log.txt");
  lines("lg", s);
}
OP(pstats) { Ngraph* g = G(a.i()); cap_begin(); g->printStats(); lines("o", cap_end()); }
// bulkedges <slot> <n>: an edge type of n copies of one edge at each local vertex's part (first local vertex)
OP(bulkedges) {
  Ngraph* g = G(a.i()); agi::gid_t n = (agi::gid_t)a.i();
  VertexIterator* it = g->begin(); GraphVertex* v = g->iterate(it);
  if (!v) n = 0;
  std::vector<agi::gid_t> id((size_t)n), p; std::vector<lid_t> d((size_t)n, g->isHyper() ? 1 : 2); std::vector<wgt_t> w;
  for (agi::gid_t i = 0; i < n; i++) { id[i] = i * PCU_Comm_Peers() + PCU_Comm_Self(); p.push_back(g->globalID(v)); if (!g->isHyper()) p.push_back(g->globalID(v)); }
  g->constructEdges(id, d, p, w);
}
static void reset() { EnGPar_Close_Log(); EnGPar_Set_Verbosity(-1); }
static AtReset r1(reset);
