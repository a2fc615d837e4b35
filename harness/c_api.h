// The C interface and, through harness/fwrap.f90, the Fortran one.
#ifndef VERIF_C_API_H
#define VERIF_C_API_H
#include <cengpar.h>
extern "C" {
void* f_empty(); void f_destroy(void* g);
void f_verts(void* g, bool hg, agi::gid_t* v, agi::wgt_t* w, int n);
int f_edges(void* g, agi::gid_t* e, agi::lid_t* d, agi::wgt_t* w, agi::gid_t* p, int ne, int np);
void f_ghosts(void* g, agi::gid_t* v, agi::part_t* o, int n);
void f_valid(void* g); void f_getpart(void* g, agi::gid_t* v, agi::part_t* p, int n);
void f_load(void* g, const char* s); void f_save(void* g, const char* s); void f_eval(void* g);
void* f_dinput(void* g, double sf); void f_prio(void* in, int t, double tol); void f_cut(void* in, double x);
void f_bghosts(void* in, bool e); void f_balance(void* in, int v);
void* f_lsplit(void* g, int sc, int lc, bool orig, int f, double tol, agi::part_t* ranks, int t);
void* f_gsplit(void* g, int sc, int lc, bool orig, double tol, int t);
void f_split(void* in, const char* s); void f_comm(int c); void f_init(); void f_final();
}
#endif
