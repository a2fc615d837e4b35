// Schedule perturbation: while enabled, MPI_Iprobe and MPI_Test may pretend that nothing has arrived /
// completed yet, and short delays are inserted, driven by a seeded PRNG.  Both answers are legal at any
// time under MPI's progress rules, so every schedule produced this way is one the library must handle.
#include "worker.h"
#include <unistd.h>
#include <sched.h>

static int mode = 0;
static uint64_t state = 1;
static int skip_budget = 0;
uint64_t mix64(uint64_t x) {
  x += 0x9E3779B97F4A7C15ull;
  x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
  x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
  return x ^ (x >> 31);
}
static uint64_t rnd() { state = mix64(state + 0x1234567); return state; }
void perturb_set(int rank, unsigned long long seed, int m) { mode = m; state = mix64(seed * 1000003ull + rank); skip_budget = 0; }
void perturb_off() { mode = 0; }

// returns true when this poll should be answered "not yet"
static bool not_yet() {
  if (!mode) return false;
  if (skip_budget > 0) { skip_budget--; return true; }
  uint64_t r = rnd() % 100;
  if (mode == 1) { if (r < 30) return true; }
  else if (mode == 2) { if (r < 15) { skip_budget = rnd() % 40; return true; } }
  else if (mode == 3) { // one slow rank now and then
    if (r < 3) { usleep(rnd() % 800); return true; }
    if (r < 30) { sched_yield(); return true; }
  } else if (mode == 4) { if (r < 85) return true; }
  return false;
}
extern "C" int MPI_Iprobe(int source, int tag, MPI_Comm comm, int* flag, MPI_Status* st) {
  if (not_yet()) { *flag = 0; int f; if (state % 8 == 0) PMPI_Iprobe(MPI_ANY_SOURCE, 32000, comm, &f, MPI_STATUS_IGNORE); return MPI_SUCCESS; }
  if (mode && source == MPI_ANY_SOURCE) {
    // arrival order between different senders is not defined: pick any sender first
    int n = 1;
    PMPI_Comm_size(comm, &n);
    int start = (int)(rnd() % n);
    for (int i = 0; i < n; i++) {
      int rc = PMPI_Iprobe((start + i) % n, tag, comm, flag, st);
      if (rc != MPI_SUCCESS || *flag) return rc;
    }
    return MPI_SUCCESS;
  }
  return PMPI_Iprobe(source, tag, comm, flag, st);
}
extern "C" int MPI_Test(MPI_Request* r, int* flag, MPI_Status* st) {
  if (not_yet()) { *flag = 0; int f; MPI_Status s; if (state % 8 == 0) PMPI_Request_get_status(*r, &f, &s); return MPI_SUCCESS; }
  return PMPI_Test(r, flag, st);
}
OP(perturb) { unsigned long long s = a.u(); int m = (int)a.i(); perturb_set(wrank, s, m); }
OP(perturb_off) { perturb_off(); }
OP(delay) { usleep((useconds_t)a.i()); }
