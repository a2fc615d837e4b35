// Records what the library hands to ParMETIS and Zoltan and what they answer (linked with --wrap).
#include "worker.h"
#include <parmetis.h>
#include <zoltan.h>

extern "C" int __real_ParMETIS_V3_PartKway(idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, idx_t*, real_t*, real_t*, idx_t*, idx_t*, idx_t*, MPI_Comm*);
extern "C" int __wrap_ParMETIS_V3_PartKway(idx_t* vtxdist, idx_t* xadj, idx_t* adjncy, idx_t* vwgt, idx_t* adjwgt, idx_t* wgtflag, idx_t* numflag,
                                           idx_t* ncon, idx_t* nparts, real_t* tpwgts, real_t* ubvec, idx_t* options, idx_t* edgecut, idx_t* part, MPI_Comm* comm) {
  int s, n; MPI_Comm_rank(*comm, &s); MPI_Comm_size(*comm, &n);
  bool vw = *wgtflag & 2, ew = *wgtflag & 1; idx_t b = *numflag;
  out.f("pm %d %d %d %d %.6g", s, n, (int)*nparts, (int)*ncon, (double)ubvec[0]);
  for (int i = 0; i < *nparts; i++) out.f(" %.6g", (double)tpwgts[i]);
  out.f("\npd"); for (int i = 0; i <= n; i++) out.f(" %d", (int)vtxdist[i]);
  out.f("\n");
  idx_t nv = vtxdist[s + 1] - vtxdist[s];
  for (idx_t i = 0; i < nv; i++) {
    out.f("pv %d", vw && vwgt ? (int)vwgt[i] : 1);
    for (idx_t j = xadj[i] - b; j < xadj[i + 1] - b; j++) out.f(" %d %d", (int)(adjncy[j] - b), ew && adjwgt ? (int)adjwgt[j] : 1);
    out.f("\n");
  }
  int ret = __real_ParMETIS_V3_PartKway(vtxdist, xadj, adjncy, vwgt, adjwgt, wgtflag, numflag, ncon, nparts, tpwgts, ubvec, options, edgecut, part, comm);
  out.f("pr"); for (idx_t i = 0; i < nv; i++) out.f(" %d", (int)(part[i] - b));
  out.f("\n");
  return ret;
}

struct Fn { void (*f)(); void* data; };
static std::map<int, Fn> fns;
static std::map<std::string, std::string> params;
extern "C" int __real_Zoltan_Set_Fn(struct Zoltan_Struct*, ZOLTAN_FN_TYPE, void (*)(), void*);
extern "C" int __wrap_Zoltan_Set_Fn(struct Zoltan_Struct* zz, ZOLTAN_FN_TYPE t, void (*f)(), void* data) {
  fns[(int)t] = Fn{f, data}; return __real_Zoltan_Set_Fn(zz, t, f, data);
}
extern "C" int __real_Zoltan_Set_Param(struct Zoltan_Struct*, const char*, const char*);
extern "C" int __wrap_Zoltan_Set_Param(struct Zoltan_Struct* zz, const char* n, const char* v) { params[n] = v; return __real_Zoltan_Set_Param(zz, n, v); }
extern "C" int __real_Zoltan_LB_Partition(struct Zoltan_Struct*, int*, int*, int*, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**, int*, ZOLTAN_ID_PTR*, ZOLTAN_ID_PTR*, int**, int**);
extern "C" int __wrap_Zoltan_LB_Partition(struct Zoltan_Struct* zz, int* ch, int* ng, int* nl, int* ni, ZOLTAN_ID_PTR* ig, ZOLTAN_ID_PTR* il, int** ip, int** it,
                                          int* ne, ZOLTAN_ID_PTR* eg, ZOLTAN_ID_PTR* el, int** ep, int** et) {
  int err = 0;
  out.f("zp %s %s %s\n", params["LB_METHOD"].c_str(), params["NUM_GLOBAL_PARTS"].c_str(), params["IMBALANCE_TOL"].c_str());
  if (fns.count(ZOLTAN_NUM_OBJ_FN_TYPE) && fns.count(ZOLTAN_OBJ_LIST_FN_TYPE)) {
    Fn& f = fns[ZOLTAN_NUM_OBJ_FN_TYPE]; int n = ((ZOLTAN_NUM_OBJ_FN*)f.f)(f.data, &err);
    std::vector<ZOLTAN_ID_TYPE> g(n + 1), l(n + 1); std::vector<float> w(n + 1);
    Fn& o = fns[ZOLTAN_OBJ_LIST_FN_TYPE];
    ((ZOLTAN_OBJ_LIST_FN*)o.f)(o.data, 1, 1, g.data(), l.data(), 1, w.data(), &err);
    for (int i = 0; i < n; i++) out.f("zo %u %g\n", (unsigned)g[i], w[i]);
    if (fns.count(ZOLTAN_NUM_EDGES_FN_TYPE) && fns.count(ZOLTAN_EDGE_LIST_FN_TYPE))
      for (int i = 0; i < n; i++) {
        Fn& a = fns[ZOLTAN_NUM_EDGES_FN_TYPE]; Fn& b = fns[ZOLTAN_EDGE_LIST_FN_TYPE];
        int d = ((ZOLTAN_NUM_EDGES_FN*)a.f)(a.data, 1, 1, &g[i], &l[i], &err);
        std::vector<ZOLTAN_ID_TYPE> nb(d + 1); std::vector<int> ow(d + 1); std::vector<float> ew(d + 1);
        ((ZOLTAN_EDGE_LIST_FN*)b.f)(b.data, 1, 1, &g[i], &l[i], nb.data(), ow.data(), 1, ew.data(), &err);
        out.f("zg %u", (unsigned)g[i]);
        for (int j = 0; j < d; j++) out.f(" %u %d %g", (unsigned)nb[j], ow[j], ew[j]);
        out.f("\n");
      }
  }
  if (fns.count(ZOLTAN_HG_SIZE_CS_FN_TYPE) && fns.count(ZOLTAN_HG_CS_FN_TYPE)) {
    Fn& a = fns[ZOLTAN_HG_SIZE_CS_FN_TYPE]; Fn& b = fns[ZOLTAN_HG_CS_FN_TYPE]; int n, np, fmt;
    ((ZOLTAN_HG_SIZE_CS_FN*)a.f)(a.data, &n, &np, &fmt, &err);
    std::vector<ZOLTAN_ID_TYPE> v(n + 1), p(np + 1); std::vector<int> ptr(n + 2);
    ((ZOLTAN_HG_CS_FN*)b.f)(b.data, 1, n, np, fmt, v.data(), ptr.data(), p.data(), &err);
    ptr[n] = np;
    for (int i = 0; i < n; i++) { out.f("zh %d %u", fmt == ZOLTAN_COMPRESSED_VERTEX, (unsigned)v[i]); for (int j = ptr[i]; j < ptr[i + 1]; j++) out.f(" %u", (unsigned)p[j]); out.f("\n"); }
  }
  if (fns.count(ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE) && fns.count(ZOLTAN_HG_EDGE_WTS_FN_TYPE)) {
    Fn& a = fns[ZOLTAN_HG_SIZE_EDGE_WTS_FN_TYPE]; Fn& b = fns[ZOLTAN_HG_EDGE_WTS_FN_TYPE]; int n;
    ((ZOLTAN_HG_SIZE_EDGE_WTS_FN*)a.f)(a.data, &n, &err);
    std::vector<ZOLTAN_ID_TYPE> g(n + 1), l(n + 1); std::vector<float> w(n + 1);
    ((ZOLTAN_HG_EDGE_WTS_FN*)b.f)(b.data, 1, 1, n, 1, g.data(), l.data(), w.data(), &err);
    for (int i = 0; i < n; i++) out.f("zw %u %g\n", (unsigned)g[i], w[i]);
  }
  fns.clear(); params.clear();
  int ret = __real_Zoltan_LB_Partition(zz, ch, ng, nl, ni, ig, il, ip, it, ne, eg, el, ep, et);
  if (ret == ZOLTAN_OK) { out.f("zr"); for (int i = 0; i < *ne; i++) out.f(" %u %d", (unsigned)(*eg)[i], (*ep)[i]); out.f("\n"); }
  return ret;
}
