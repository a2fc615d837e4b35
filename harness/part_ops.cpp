// Balancing, splitting, metrics, selection queues, binary edge lists.
#include "worker.h"
#include <engpar.h>
#include <engpar_input.h>
#include <engpar_diffusive_input.h>
#include <engpar_weight_input.h>
#include <engpar_split_input.h>
#include <engpar_metrics.h>
#include <engpar_support.h>
#include <binGraph.h>
#include <agiMigration.h>
#include <unistd.h>
#include <sys/stat.h>
#include "c_api.h"
using namespace agi;

// ---- output of the library (fd 1 is a file of this rank, opened for appending) -----------------------
static off_t cap_from = 0;
void cap_begin() { fflush(stdout); struct stat st; fstat(1, &st); cap_from = st.st_size; }
std::string cap_end() {
  fflush(stdout); struct stat st; fstat(1, &st);
  std::string s((size_t)(st.st_size - cap_from), 0);
  ssize_t n = pread(1, &s[0], s.size(), cap_from); s.resize(n < 0 ? 0 : (size_t)n);
  return s;
}
static void reset_cap() { fflush(stdout); if (ftruncate(1, 0)) {} }
static AtReset rc1(reset_cap);
static void emit_lines(const char* pre, const std::string& s) {
  size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); out.f("%s %s\n", pre, s.substr(p, e - p).c_str()); p = e + 1; }
}

// ---- balance ---------------------------------------------------------------------------------------
// balance <slot> <step> <verbosity> key value ...
OP(balance) {
  Ngraph* g = G(a.i()); double sf = a.d(); int verb = (int)a.i();
  engpar::DiffusiveInput* in = engpar::createDiffusiveInput(g, sf);
  bool cap = false;
  while (a.more()) {
    std::string k = a.str();
    if (k == "prio") { int t = (int)a.i(); double tol = a.d(); in->addPriority(t, tol); }
    else if (k == "rawprio") in->priorities.push_back((int)a.i());
    else if (k == "maxit") in->maxIterations = (int)a.i();
    else if (k == "maxper") in->maxIterationsPerType = (int)a.i();
    else if (k == "dq") in->useDistanceQueue = a.i();
    else if (k == "push") in->bfsPush = a.i();
    else if (k == "sides") in->sides_edge_type = (int)a.i();
    else if (k == "sel") in->selection_edge_type = (int)a.i();
    else if (k == "ghosts") in->balanceGhosts(a.i());
    else if (k == "minconn") in->minConnectivity = (int)a.i();
    else if (k == "conntype") in->connectivityType = (etype)a.i();
    else if (k == "cut") in->limitEdgeCutGrowth = a.d();
    else if (k == "pwb") in->runPartWeightBalancer = a.i();
    else if (k == "cap") cap = true;
    else { fprintf(stderr, "HARNESS: balance key %s\n", k.c_str()); abort(); }
  }
  if (cap) cap_begin();
  engpar::balance(in, verb);
  if (cap) emit_lines("o", cap_end());
}
// wbalance <slot> <tol> <step> <edge type> <max iterations> <verbosity>
OP(wbalance) {
  Ngraph* g = G(a.i()); double tol = a.d(), sf = a.d(); etype t = (etype)a.i(); int mi = (int)a.i(); int v = (int)a.i();
  engpar::WeightInput* in = engpar::createWeightInput(g, tol, sf, t);
  in->maxIterations = mi;
  engpar::balanceWeights(in, v);
}
// cbalance <slot> <c|f> <step> <verbosity> key value ...: the same through the C or Fortran interface
OP(cbalance) {
  Ngraph* g = G(a.i()); bool f = a.str() == "f"; double sf = a.d(); int verb = (int)a.i();
  void* in = f ? f_dinput(g, sf) : cengpar_createDiffusiveInput(g, sf);
  while (a.more()) {
    std::string k = a.str();
    if (k == "prio") { int t = (int)a.i(); double tol = a.d(); if (f) f_prio(in, t, tol); else cengpar_addPriority(in, t, tol); }
    else if (k == "ghosts") { bool b = a.i(); if (f) f_bghosts(in, b); else cengpar_balanceGhosts(in, b); }
    else if (k == "cut") { double x = a.d(); if (f) f_cut(in, x); else cengpar_setCutGrowthFactor(in, x); }
    else if (k == "maxit") ((engpar::DiffusiveInput*)(engpar::Input*)in)->maxIterations = (int)a.i();
    else { fprintf(stderr, "HARNESS: cbalance key %s\n", k.c_str()); abort(); }
  }
  if (f) f_balance(in, verb); else cengpar_balance(in, verb);
}
// csplit <slot> <c|f> <method> ...: like split
OP(csplit) {
  Ngraph* g = G(a.i()); bool fo = a.str() == "f"; std::string m = a.str(); std::string sg = a.str(), lg = a.str();
  double tol = a.d(); etype t = (etype)a.i(); int f = (int)a.i();
  std::vector<part_t> others; while (a.more()) others.push_back((part_t)a.i());
  if (others.empty()) others.assign(f > 0 ? f : 1, 0);
  MPI_Comm small = named_comm(sg), large = named_comm(lg);
  bool orig = small != MPI_COMM_NULL;
  if (!orig) small = MPI_COMM_SELF;
  MPI_Fint s = MPI_Comm_c2f(small), l = MPI_Comm_c2f(large);
  void* in;
  if (m == "local") in = fo ? f_lsplit(g, s, l, orig, f, tol, others.data(), (int)t) : cengpar_createLocalSplitInput(g, s, l, orig, f, tol, others.data(), t);
  else in = fo ? f_gsplit(g, s, l, orig, tol, (int)t) : cengpar_createGlobalSplitInput(g, s, l, orig, tol, t);
  std::string how = m == "local" ? "LOCAL_PARMETIS" : "GLOBAL_PARMETIS";
  if (fo) f_split(in, how.c_str()); else cengpar_split(in, how.c_str());
}
OP(ceval) {
  Ngraph* g = G(a.i()); cap_begin();
  if (a.str() == "f") f_eval(g); else cengpar_evaluatePartition(g);
  emit_lines("o", cap_end());
}
// ccomm <c|f> <group>: cengpar_setftncommunicator
OP(ccomm) {
  bool f = a.str() == "f"; MPI_Fint c = MPI_Comm_c2f(named_comm(a.str()));
  if (f) f_comm(c); else cengpar_setftncommunicator(c);
}
// spybal <0|1>: report the inputs of balance()
bool spy_balance = false;
OP(spybal) { spy_balance = a.i(); }
static void reset_spy() { spy_balance = false; }
static AtReset rspy(reset_spy);
namespace engpar { void real_balance(Input* in, int verbosity) __asm__("__real__ZN6engpar7balanceEPNS_5InputEi"); void wrap_balance(Input* in, int verbosity) __asm__("__wrap__ZN6engpar7balanceEPNS_5InputEi");
void wrap_balance(Input* i, int verbosity) {
  DiffusiveInput* in = dynamic_cast<DiffusiveInput*>(i);
  if (spy_balance && in) {
    out.f("bi %d %.17g %.17g %d %d %d", verbosity, in->step_factor, in->limitEdgeCutGrowth, (int)in->maxIterations, (int)in->countGhosts, (int)in->priorities.size());
    for (size_t k = 0; k < in->priorities.size(); k++) out.f(" %d %.17g", (int)in->priorities[k], k < in->tolerances.size() ? in->tolerances[k] : -1.0);
    out.f("\n");
  }
  real_balance(i, verbosity);
} }
// split <slot> <method> <small group> <large group> <tol> <etype> <factor> ranks...   (members of large)
OP(split) {
  Ngraph* g = G(a.i()); std::string m = a.str(); std::string sg = a.str(), lg = a.str();
  double tol = a.d(); etype t = (etype)a.i(); int f = (int)a.i();
  std::vector<part_t> others; while (a.more()) others.push_back((part_t)a.i());
  // ranks outside the small group pass a communicator of their own
  MPI_Comm small = named_comm(sg), large = named_comm(lg);
  bool orig = small != MPI_COMM_NULL;
  if (!orig) small = MPI_COMM_SELF;
  engpar::SplitInput* in;
  if (m == "local") in = engpar::createLocalSplitInput(g, small, large, orig, f, tol, others.data(), t);
  else in = engpar::createGlobalSplitInput(g, small, large, orig, tol, t);
  engpar::split(in, m == "local" ? engpar::LOCAL_PARMETIS : m == "global" ? engpar::GLOBAL_PARMETIS : engpar::ZOLTAN_PHG);
}
// ---- metrics ----------------------------------------------------------------------------------------
OP(evalp) {
  Ngraph* g = G(a.i()); cap_begin();
  if (a.more()) engpar::evaluatePartition(g, a.str().c_str()); else engpar::evaluatePartition(g);
  emit_lines("o", cap_end());
}
OP(metrics) {
  Ngraph* g = G(a.i());
  for (int d = -1; d < g->numEdgeTypes(); d++)
    for (int gh = 0; gh < 2; gh++) {
      double w = engpar::getWeight(g, d, gh);
      out.f("w %d %d %.17g %.17g\n", d, gh, w, engpar::EnGPar_Get_Imbalance(w));
    }
  out.f("w1 %.17g\n", engpar::getWeight(g, -1));
  char buf[400];
  for (int gh = 0; gh < 2; gh++) { memset(buf, 0, sizeof buf); engpar::getImbalances(g, buf, gh); out.f("imb %d %s\n", gh, buf); }
}
// ---- binary edge lists --------------------------------------------------------------------------------
OP(bingraph) {
  long long s = a.i(); std::string f = a.str();
  if (G(s)) destroyGraph(G(s));
  std::string p = a.more() ? a.str() : "";
  G(s) = createBinGraph(&f[0], p.empty() ? NULL : &p[0]);
}
