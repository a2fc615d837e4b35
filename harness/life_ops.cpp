// Starting and stopping the library, its communicators, debug files.
#include "worker.h"
#include "c_api.h"
#include <engpar_support.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
void cap_begin(); std::string cap_end();

// the communicators the library has made and not freed
static std::set<MPI_Comm> live;
static int made(int rc, MPI_Comm* c) { if (*c != MPI_COMM_NULL) live.insert(*c); return rc; }
extern "C" {
int MPI_Comm_dup(MPI_Comm c, MPI_Comm* n) { return made(PMPI_Comm_dup(c, n), n); }
int MPI_Comm_dup_with_info(MPI_Comm c, MPI_Info i, MPI_Comm* n) { return made(PMPI_Comm_dup_with_info(c, i, n), n); }
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm* n) { return made(PMPI_Comm_split(c, color, key, n), n); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm* n) { return made(PMPI_Comm_create(c, g, n), n); }
int MPI_Comm_create_group(MPI_Comm c, MPI_Group g, int tag, MPI_Comm* n) { return made(PMPI_Comm_create_group(c, g, tag, n), n); }
int MPI_Comm_free(MPI_Comm* c) { live.erase(*c); return PMPI_Comm_free(c); }
}

OP(pcuinit) { PCU_Comm_Init(); }
OP(pcufree) { PCU_Comm_Free(); }
// enginit <x|c> <verbosity>: through C++ or C (which has no verbosity); reports what is printed
OP(enginit) {
  std::string k = a.str(); int v = (int)a.i();
  cap_begin();
  if (k == "c") cengpar_initialize(); else if (k == "f") f_init(); else EnGPar_Initialize(v);
  std::string s = cap_end(); size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); out.f("gh %s\n", s.substr(p, e - p).c_str()); p = e + 1; }
  out.f("ei");
  for (int k = -2; k <= 4; k++) out.f(" %d", (int)EnGPar_Check_Verbosity(k));
  out.f("\n");
}
OP(engfinal) { std::string k = a.str(); if (k == "c") cengpar_finalize(); else if (k == "f") f_final(); else EnGPar_Finalize(); }
OP(life) {
  bool on = PCU_Comm_Initialized(); int cmp = -1;
  if (on) MPI_Comm_compare(PCU_Get_Comm(), MPI_COMM_WORLD, &cmp);
  out.f("life %d %d %d %d %d %d\n", (int)on, on ? PCU_Comm_Self() : -1, on ? PCU_Comm_Peers() : -1, (int)(cmp == MPI_IDENT), (int)EnGPar_Is_Log_Open(), on ? 0 : (int)live.size());
}
static void slurp(const char* pre, const std::string& path, long from = 0) {
  FILE* f = fopen(path.c_str(), "r");
  if (!f) { out.f("%s NOFILE\n", pre); return; }
  std::string s; int c; fseek(f, from, SEEK_SET); while ((c = fgetc(f)) != EOF) s += (char)c; fclose(f);
  size_t p = 0;
  while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) e = s.size(); out.f("%s %s\n", pre, s.substr(p, e - p).c_str()); p = e + 1; }
}
// debug files of PCU
OP(pdopen) { PCU_Debug_Open(); }
OP(pdprint) { int k = (int)a.i(); PCU_Debug_Print("%s %d\n", "line", k); }
OP(pdread) { char p[40]; snprintf(p, sizeof p, "debug%d.txt", wrank); slurp("pd", p); }
OP(pdgone) { char p[40]; snprintf(p, sizeof p, "debug%d.txt", wrank); unlink(p); }
// debug files of the library
OP(edopen) { EnGPar_Debug_Open(a.str()); }
OP(edclose) { EnGPar_Debug_Close(); }
OP(say) {
  const std::string& k = a.str(); int n = (int)a.i();
  if (k == "status") EnGPar_Status_Message("S%d\n", n);
  else if (k == "level") { int v = (int)a.i(); EnGPar_Status_Message(v, "S%d\n", n); }
  else if (k == "warning") EnGPar_Warning_Message("S%d\n", n);
  else if (k == "error") EnGPar_Error_Message("S%d\n", n);
  else printf("S%d\n", n);
}
static long from_out = 0;
static std::string outfile() { char p[40]; snprintf(p, sizeof p, "stdout.%d", wrank); return p; }
OP(outstart) { fflush(stdout); struct stat st; from_out = stat(outfile().c_str(), &st) ? 0 : (long)st.st_size; }
OP(outread) { fflush(stdout); slurp("so", outfile(), from_out); }
OP(edread) { fflush(stdout); char p[40]; snprintf(p, sizeof p, "debug/debug%d.txt", wrank); slurp("ed", p); }
OP(edgone) { char p[40]; snprintf(p, sizeof p, "debug/debug%d.txt", wrank); unlink(p); }
OP(starttest) { EnGPar_Start_Test(); }
OP(hiterror) { out.f("hit %d\n", (int)EnGPar_Hit_Error()); }
