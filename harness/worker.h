// Interpreter core shared by the op files.  Every rank executes the same program text; a line that
// starts with "@<rank>" is executed by that rank only (it may only set local state).
#ifndef VERIF_WORKER_H
#define VERIF_WORKER_H
#include <mpi.h>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <PCU.h>
#include <ngraph.h>

struct Args {
  std::vector<std::string> tok;
  size_t pos = 1;
  bool more() const { return pos < tok.size(); }
  const std::string& str() {
    if (pos >= tok.size()) { fprintf(stderr, "HARNESS: missing argument in op %s\n", tok[0].c_str()); abort(); }
    return tok[pos++];
  }
  long long i() { return strtoll(str().c_str(), nullptr, 0); }
  unsigned long long u() { return strtoull(str().c_str(), nullptr, 0); }
  double d() { return strtod(str().c_str(), nullptr); }
};

struct Out {
  std::string buf;
  void f(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
    va_list ap; va_start(ap, fmt);
    va_list ap2; va_copy(ap2, ap);
    char tmp[512];
    int n = vsnprintf(tmp, sizeof tmp, fmt, ap);
    if (n < (int)sizeof tmp) buf.append(tmp, n);
    else { std::vector<char> b(n + 1); vsnprintf(b.data(), n + 1, fmt, ap2); buf.append(b.data(), n); }
    va_end(ap); va_end(ap2);
  }
};

extern Out out;            // output of this rank for the current case
extern int wrank, wsize;   // rank/size in MPI_COMM_WORLD
extern std::string scratch;// scratch directory of this worker

typedef void (*OpFn)(Args&);
struct Reg { Reg(const char* name, OpFn fn); };
#define OP(name) static void op_##name(Args& a); static Reg reg_##name(#name, op_##name); static void op_##name(Args& a)

void run_op(Args& a);

// graph slots
extern std::map<int, agi::Ngraph*> graphs;
agi::Ngraph*& G(long long slot);

MPI_Comm named_comm(const std::string& n);
// reset hooks, run at the end of each case
struct AtReset { AtReset(void (*fn)()); };

// schedule perturbation (perturb.cpp)
void perturb_set(int rank, unsigned long long seed, int mode);
void perturb_off();
uint64_t mix64(uint64_t x);
#endif
