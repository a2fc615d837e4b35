// PCU: phased messages, collectives, stream files.
#include "worker.h"
#include <pcu_io.h>
#include <time.h>
#include <engpar_support.h>
#include <sys/stat.h>

// byte j of message pattern p: the checks compute the same bytes
static void pattern(std::vector<unsigned char>& b, unsigned long long p, size_t n) {
  b.resize(n);
  unsigned a = (unsigned)(p * 37 + 11), c = (unsigned)(2 * (p % 100) + 1);
  for (size_t j = 0; j < n; j++) b[j] = (unsigned char)(a + c * (unsigned)(j % 251));
}
static uint32_t crcTable[256]; static bool crcReady = false;
static uint32_t crc(uint32_t c, const unsigned char* p, size_t n) {
  if (!crcReady) { for (uint32_t i = 0; i < 256; i++) { uint32_t x = i; for (int k = 0; k < 8; k++) x = x & 1 ? 0xEDB88320u ^ (x >> 1) : x >> 1; crcTable[i] = x; } crcReady = true; }
  c = ~c;
  while (n--) c = crcTable[(c ^ *p++) & 255] ^ (c >> 8);
  return ~c;
}
static long long nowns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }

OP(order) { PCU_Comm_Order(a.i()); }
static void reset_order() { PCU_Comm_Order(true); }
static AtReset r1(reset_order);

// pbegin [start]; pack <to> <size> <pattern> ...; write <to> <size> <pattern> ...; psend; then one of
// recv/listen/pread <chunk seed>
OP(pbegin) { if (a.more()) PCU_Comm_Start(PCU_GLOBAL_METHOD); else PCU_Comm_Begin(); }
OP(pack) {
  std::vector<unsigned char> b;
  while (a.more()) {
    int to = (int)a.i(); size_t n = (size_t)a.u(); pattern(b, a.u(), n);
    PCU_Comm_Pack(to, b.data(), n);
    // the caller may reuse its memory at once
    for (auto& x : b) x = 0xEE;
  }
}
OP(write) {
  std::vector<unsigned char> b;
  while (a.more()) { int to = (int)a.i(); size_t n = (size_t)a.u(); pattern(b, a.u(), n); PCU_Comm_Write(to, b.data(), n); for (auto& x : b) x = 0xEE; }
}
OP(packed) { out.f("pk"); while (a.more()) { int to = (int)a.i(); size_t n = 12345; PCU_Comm_Packed(to, &n); out.f(" %d %zu", to, n); } out.f("\n"); }
OP(psend) { PCU_Comm_Send(); }
static size_t chunk(unsigned long long& s, size_t left) {
  s = mix64(s); size_t c;
  switch (s % 4) { case 0: c = left; break; case 1: c = 1 + (s >> 8) % 9; break; case 2: c = 1 + (s >> 8) % 70; break; default: c = 1 + (s >> 8) % (left ? left : 1); }
  return c < left ? c : left;
}
static uint32_t eat(unsigned long long& s, uint32_t c, size_t n) {
  if (s & 64) { unsigned char* p = (unsigned char*)PCU_Comm_Extract(n); return crc(c, p, n); }
  std::vector<unsigned char> b(n); PCU_Comm_Unpack(b.data(), n); return crc(c, b.data(), n);
}
static void head(const char* k) {
  int f = -9; size_t n = 99999; PCU_Comm_From(&f); PCU_Comm_Received(&n);
  out.f("%s %d %d %zu", k, PCU_Comm_Sender(), f, n);
}
// every message: "rx <sender> <from> <size> <crc> <calls>"
OP(listen) {
  unsigned long long s = a.u();
  while (PCU_Comm_Listen()) {
    head("rx"); size_t n; PCU_Comm_Received(&n); size_t left = n; uint32_t c = 0;
    if (n > 5000 && s % 3) { c = eat(s, c, n - 100); left = 100; }
    while (left) { if (PCU_Comm_Unpacked()) { out.f(" EARLY"); break; } size_t k = chunk(s, left); c = eat(s, c, k); left -= k; }
    out.f(" %u %d\n", c, (int)PCU_Comm_Unpacked());
  }
  out.f("end\n");
}
OP(recv) { // the idiom of the library: one Receive per item
  unsigned long long s = a.u(); bool open = false; size_t left = 0; uint32_t c = 0; int from = -1;
  while (PCU_Comm_Receive()) {
    if (!open) { head("rx"); PCU_Comm_Received(&left); c = 0; open = true; from = PCU_Comm_Sender(); }
    else if (PCU_Comm_Sender() != from) { out.f(" CHANGED\n"); return; }
    size_t k = left > 5000 ? left - 100 : chunk(s, left);
    c = eat(s, c, k); left -= k;
    if (!left) { out.f(" %u %d\n", c, (int)PCU_Comm_Unpacked()); open = false; }
  }
  out.f("end\n");
}
OP(pread) {
  int from; void* d; size_t n;
  while (PCU_Comm_Read(&from, &d, &n)) out.f("rd %d %d %zu %u\n", from, PCU_Comm_Sender(), n, crc(0, (unsigned char*)d, n));
  out.f("end\n");
}

// coll <kind> values...; every rank has its own line
template <class T> static void show(const char* k, const std::vector<T>& v, const char* f) { out.f("c %s", k); for (auto& x : v) { out.f(" "); out.f(f, x); } out.f("\n"); }
OP(coll) {
  std::string k = a.str();
  size_t one = k.size() > 1 && k[k.size() - 1] == '1'; // scalar form
  std::string b = one ? k.substr(0, k.size() - 1) : k;
  if (b == "addd" || b == "mind" || b == "maxd") {
    std::vector<double> v; while (a.more()) v.push_back(a.d());
    if (one) v[0] = b == "addd" ? PCU_Add_Double(v[0]) : b == "mind" ? PCU_Min_Double(v[0]) : PCU_Max_Double(v[0]);
    else if (b == "addd") PCU_Add_Doubles(v.data(), v.size()); else if (b == "mind") PCU_Min_Doubles(v.data(), v.size()); else PCU_Max_Doubles(v.data(), v.size());
    show(k.c_str(), v, "%.17g");
  } else if (b == "addi" || b == "mini" || b == "maxi" || b == "exi" || b == "or" || b == "and") {
    std::vector<int> v; while (a.more()) v.push_back((int)a.i());
    if (b == "or") v[0] = PCU_Or(v[0]); else if (b == "and") v[0] = PCU_And(v[0]);
    else if (one) v[0] = b == "addi" ? PCU_Add_Int(v[0]) : b == "mini" ? PCU_Min_Int(v[0]) : b == "maxi" ? PCU_Max_Int(v[0]) : PCU_Exscan_Int(v[0]);
    else if (b == "addi") PCU_Add_Ints(v.data(), v.size()); else if (b == "mini") PCU_Min_Ints(v.data(), v.size());
    else if (b == "maxi") PCU_Max_Ints(v.data(), v.size()); else PCU_Exscan_Ints(v.data(), v.size());
    show(k.c_str(), v, "%d");
  } else if (b == "addl" || b == "exl") {
    std::vector<long> v; while (a.more()) v.push_back((long)a.i());
    if (one) v[0] = b == "addl" ? PCU_Add_Long(v[0]) : PCU_Exscan_Long(v[0]);
    else if (b == "addl") PCU_Add_Longs(v.data(), v.size()); else PCU_Exscan_Longs(v.data(), v.size());
    show(k.c_str(), v, "%ld");
  } else if (b == "adds" || b == "mins" || b == "maxs") {
    std::vector<size_t> v; while (a.more()) v.push_back((size_t)a.u());
    if (one) v[0] = b == "adds" ? PCU_Add_SizeT(v[0]) : b == "mins" ? PCU_Min_SizeT(v[0]) : PCU_Max_SizeT(v[0]);
    else if (b == "adds") PCU_Add_SizeTs(v.data(), v.size()); else if (b == "mins") PCU_Min_SizeTs(v.data(), v.size()); else PCU_Max_SizeTs(v.data(), v.size());
    show(k.c_str(), v, "%zu");
  } else { fprintf(stderr, "HARNESS: coll %s\n", k.c_str()); abort(); }
}
OP(barrier) { long long t = nowns(); PCU_Barrier(); out.f("bar %lld %lld\n", t, nowns()); }
OP(whoami) {
  int r = -1, n = -1; PCU_Comm_Rank(&r); PCU_Comm_Size(&n); int cr = -1, cs = -1;
  MPI_Comm_rank(PCU_Get_Comm(), &cr); MPI_Comm_size(PCU_Get_Comm(), &cs);
  int cmp = -1; if (a.more()) MPI_Comm_compare(PCU_Get_Comm(), named_comm(a.str()), &cmp);
  out.f("me %d %d %d %d %d %d %d %d %d %d\n", PCU_Comm_Self(), PCU_Comm_Peers(), r, n, PCU_Proc_Self(), PCU_Proc_Peers(), cr, cs, (int)(cmp == MPI_IDENT), (int)PCU_Comm_Initialized());
}
OP(engswitch) { EnGPar_Switch_Comm(named_comm(a.str())); }

// ---- files ------------------------------------------------------------------------------------------
static std::string unhex(const std::string& h) { std::string s; for (size_t i = 1; i + 1 < h.size(); i += 2) s.push_back((char)strtol(h.substr(i, 2).c_str(), 0, 16)); return s; }
static void hexout(const char* p, size_t n) { out.f(" x"); for (size_t i = 0; i < n; i++) out.f("%02x", (unsigned char)p[i]); }
// iow <path> [u n v.. | d n bits.. | s xHEX | b xHEX]...: reports whether the caller's arrays are intact
OP(iow) {
  std::string path = a.str(); pcu_file* f = pcu_fopen(path.c_str(), true, false); bool same = true;
  while (a.more()) {
    std::string k = a.str();
    if (k == "u") { std::vector<unsigned> v(a.u()); for (auto& x : v) x = (unsigned)a.u(); std::vector<unsigned> w = v; pcu_write_unsigneds(f, v.data(), v.size()); same = same && v == w; }
    else if (k == "d") {
      std::vector<double> v(a.u()); for (auto& x : v) { uint64_t b = a.u(); memcpy(&x, &b, 8); }
      std::vector<double> w = v; pcu_write_doubles(f, v.data(), v.size()); same = same && (v.empty() || !memcmp(v.data(), w.data(), 8 * v.size()));
    } else if (k == "s") pcu_write_string(f, unhex(a.str()).c_str());
    else { std::string s = unhex(a.str()); pcu_write(f, s.data(), s.size()); }
  }
  pcu_fclose(f);
  out.f("iow %d\n", (int)same);
}
OP(ior) {
  std::string path = a.str(); pcu_file* f = pcu_fopen(path.c_str(), false, false);
  out.f("ior");
  while (a.more()) {
    std::string k = a.str();
    if (k == "u") { std::vector<unsigned> v(a.u()); pcu_read_unsigneds(f, v.data(), v.size()); for (auto x : v) out.f(" %u", x); }
    else if (k == "d") { std::vector<double> v(a.u()); pcu_read_doubles(f, v.data(), v.size()); for (auto& x : v) { uint64_t b; memcpy(&b, &x, 8); out.f(" %llu", (unsigned long long)b); } }
    else if (k == "s") { char* p = NULL; pcu_read_string(f, &p); hexout(p, strlen(p)); free(p); }
    else { std::vector<char> v(a.u()); pcu_read(f, v.data(), v.size()); hexout(v.data(), v.size()); }
  }
  pcu_fclose(f);
  out.f("\n");
}
OP(swapu) { std::vector<unsigned> v; while (a.more()) v.push_back((unsigned)a.u()); pcu_swap_unsigneds(v.data(), v.size()); out.f("sw"); for (auto x : v) out.f(" %u", x); out.f("\n"); }
OP(swapd) {
  std::vector<double> v; while (a.more()) { uint64_t b = a.u(); double x; memcpy(&x, &b, 8); v.push_back(x); }
  pcu_swap_doubles(v.data(), v.size()); out.f("sw"); for (auto& x : v) { uint64_t b; memcpy(&b, &x, 8); out.f(" %llu", (unsigned long long)b); } out.f("\n");
}
OP(popen) { std::string p = a.str(), e = a.str(), t = unhex(a.str()); FILE* f = pcu_open_parallel(p.c_str(), e.c_str()); if (f) { fwrite(t.data(), 1, t.size(), f); fclose(f); } out.f("po %d\n", (int)(f != NULL)); }
