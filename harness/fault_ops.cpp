// Misuse and injected faults: runs an operation and reports whether it stopped (abort, exit, MPI_Abort or an
// exception) or went on.
#include "worker.h"
#include <csetjmp>
#include <csignal>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <engpar_support.h>
#include <agiMigrationTimers.h>

static sigjmp_buf back;
static volatile bool guarding = false;
static void on_abort(int) { if (guarding) siglongjmp(back, 1); }
extern "C" {
void __real_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) __attribute__((noreturn));
void __wrap_exit(int c) { if (guarding) siglongjmp(back, 1); __real_exit(c); }
int MPI_Abort(MPI_Comm c, int e) { if (guarding) siglongjmp(back, 1); return PMPI_Abort(c, e); }
}
static bool guarded(Args& a) {
  struct sigaction sa, old; memset(&sa, 0, sizeof sa); sa.sa_handler = on_abort; sa.sa_flags = SA_NODEFER;
  sigaction(SIGABRT, &sa, &old);
  volatile bool stopped = false;
  guarding = true;
  if (sigsetjmp(back, 1) == 0) { try { run_op(a); } catch (...) { stopped = true; } }
  else stopped = true;
  guarding = false;
  sigaction(SIGABRT, &old, nullptr);
  return stopped;
}
static Args* rest(Args& a) { Args* b = new Args; b->tok.assign(a.tok.begin() + a.pos, a.tok.end()); return b; }
// guard <op ...>: reports what became of the operation
OP(guard) {
  Args* b = rest(a); size_t had = out.buf.size();
  bool stopped = guarded(*b);
  if (stopped) out.buf.resize(had);
  out.f("gd %s\n", stopped ? "stopped" : "went on");
  delete b;
}
// room <bytes> <op ...>: as guard, while no file can grow beyond so many bytes (a full disk)
OP(room) {
  rlim_t n = (rlim_t)a.u(); Args* b = rest(a); size_t had = out.buf.size();
  fflush(stdout);
  struct rlimit old, lim; getrlimit(RLIMIT_FSIZE, &old); lim = old; lim.rlim_cur = n;
  signal(SIGXFSZ, SIG_IGN);
  setrlimit(RLIMIT_FSIZE, &lim);
  bool stopped = guarded(*b);
  setrlimit(RLIMIT_FSIZE, &old);
  clearerr(stdout);
  if (stopped) out.buf.resize(had);
  out.f("gd %s\n", stopped ? "stopped" : "went on");
  delete b;
}
// cutfile <path> <bytes>: as if the rest had been lost
OP(cutfile) { const std::string& p = a.str(); if (truncate(p.c_str(), (off_t)a.u())) {} }
// fsize <path>: size and a checksum
OP(fsize) {
  const std::string& p = a.str(); FILE* f = fopen(p.c_str(), "rb"); if (!f) { out.f("fs none\n"); return; }
  uint64_t h = 1, n = 0; int c; while ((c = fgetc(f)) != EOF) { h = mix64(h + (uint64_t)c); n++; }
  fclose(f); out.f("fs %llu %llu\n", (unsigned long long)n, (unsigned long long)h);
}
// leave <slot>: forgets a graph that an interrupted call has left in the middle
OP(leave) { graphs.erase((int)a.i()); }
// calls of PCU by name, for those that have no operation of their own
OP(pcu) {
  const std::string& k = a.str(); int i = 0; size_t z = 0; void* p = nullptr; double d = 1; long l = 1;
  if (k == "self") PCU_Comm_Self(); else if (k == "peers") PCU_Comm_Peers();
  else if (k == "rank") PCU_Comm_Rank(&i); else if (k == "size") PCU_Comm_Size(&i);
  else if (k == "procself") PCU_Proc_Self(); else if (k == "procpeers") PCU_Proc_Peers();
  else if (k == "begin") PCU_Comm_Begin(); else if (k == "start") PCU_Comm_Start(PCU_GLOBAL_METHOD);
  else if (k == "send") PCU_Comm_Send(); else if (k == "listen") PCU_Comm_Listen(); else if (k == "receive") PCU_Comm_Receive();
  else if (k == "read") PCU_Comm_Read(&i, &p, &z); else if (k == "sender") PCU_Comm_Sender(); else if (k == "from") PCU_Comm_From(&i);
  else if (k == "received") PCU_Comm_Received(&z); else if (k == "unpacked") PCU_Comm_Unpacked();
  else if (k == "order") PCU_Comm_Order(true); else if (k == "barrier") PCU_Barrier(); else if (k == "addd") PCU_Add_Doubles(&d, 1);
  else if (k == "addl") PCU_Add_Longs(&l, 1); else if (k == "mini") PCU_Min_Ints(&i, 1); else if (k == "maxi") PCU_Max_Ints(&i, 1);
  else if (k == "exi") PCU_Exscan_Ints(&i, 1); else if (k == "or") PCU_Or(i); else if (k == "and") PCU_And(i);
  else if (k == "maxd") PCU_Max_Doubles(&d, 1); else if (k == "mind") PCU_Min_Doubles(&d, 1); else if (k == "exl") PCU_Exscan_Longs(&l, 1);
  else if (k == "adds") PCU_Add_SizeT(z);
  else if (k == "debugopen") PCU_Debug_Open(); else if (k == "debugprint") PCU_Debug_Print("x"); else if (k == "switch") PCU_Switch_Comm(MPI_COMM_WORLD);
  else if (k == "comm") PCU_Get_Comm(); else if (k == "free") PCU_Comm_Free(); else if (k == "init") PCU_Comm_Init();
  else if (k == "pack") { std::vector<char> b(64); int to = (int)a.i(); PCU_Comm_Pack(to, b.data(), (size_t)a.u()); }
  else if (k == "write") { std::vector<char> b(64); int to = (int)a.i(); PCU_Comm_Write(to, b.data(), (size_t)a.u()); }
  else if (k == "packed") PCU_Comm_Packed((int)a.i(), &z);
  else if (k == "unpack") { size_t n = (size_t)a.u(); std::vector<char> b(n); PCU_Comm_Unpack(b.data(), n); }
  else if (k == "extract") PCU_Comm_Extract((size_t)a.u());
  else { fprintf(stderr, "HARNESS: unknown call %s\n", k.c_str()); _exit(3); }
}
// badcoord <slot>: asks for the coordinates of the first ghost there is
OP(badcoord) {
  agi::Ngraph* g = G(a.i()); agi::GraphVertex* ghost = NULL; agi::EdgeIterator* it = g->begin(0); agi::GraphEdge* e;
  while (!ghost && (e = g->iterate(it))) {
    agi::PinIterator* p = g->pins(e); agi::GraphVertex* v;
    for (agi::lid_t i = 0; i < g->degree(e) && (v = g->iterate(p)); i++) if (g->owner(v) != PCU_Comm_Self()) { ghost = v; break; }
    g->destroy(p);
  }
  g->destroy(it);
  if (!ghost) { abort(); }
  out.f("%g\n", (double)g->coord(ghost)[0]);
}
OP(badtimer) {
  const std::string& k = a.str(); agi::MigrationTimers t; t.addTimer("setup");
  if (k == "update") t.update("nosuch", 1); else if (k == "count") t.getCount("nosuch"); else if (k == "time") t.getTime("nosuch");
  else if (k == "max") t.processMax("nosuch"); else if (k == "callmax") t.perCallProcessMax("nosuch"); else if (k == "callavg") t.perCallProcessAvg("nosuch"); else t.processAvg("nosuch");
}
