#include "worker.h"
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <engpar_support.h>

const char* engpar_version() { return "verif"; }

Out out;
int wrank, wsize;
std::string scratch;
std::map<int, agi::Ngraph*> graphs;
agi::Ngraph*& G(long long s) { return graphs[(int)s]; }

static std::map<std::string, OpFn>& ops() { static std::map<std::string, OpFn> m; return m; }
Reg::Reg(const char* n, OpFn fn) { ops()[n] = fn; }
static std::vector<void (*)()>& resets() { static std::vector<void (*)()> v; return v; }
AtReset::AtReset(void (*fn)()) { resets().push_back(fn); }

static int sock = -1;
static bool readn(char* p, size_t n) {
  while (n) { ssize_t k = read(sock, p, n); if (k <= 0) return false; p += k; n -= k; }
  return true;
}
static bool writen(const char* p, size_t n) {
  while (n) { ssize_t k = write(sock, p, n); if (k <= 0) return false; p += k; n -= k; }
  return true;
}

static std::map<std::string, std::vector<int>> groups;
static std::map<std::string, MPI_Comm> comms;
static bool comm_touched = false;
static bool in_group(const std::string& n) {
  for (int r : groups[n]) if (r == wrank) return true;
  return false;
}
MPI_Comm named_comm(const std::string& n) {
  if (n == "world") return MPI_COMM_WORLD;
  if (n == "self") return MPI_COMM_SELF;
  if (n == "null") return MPI_COMM_NULL;
  return comms[n];
}
// group <name> r...: ranks of MPI_COMM_WORLD, in the order they get in the communicator of that name
OP(group) {
  std::string n = a.str(); std::vector<int> v; while (a.more()) v.push_back((int)a.i());
  groups[n] = v;
  MPI_Group wg, g; MPI_Comm_group(MPI_COMM_WORLD, &wg);
  MPI_Group_incl(wg, (int)v.size(), v.data(), &g);
  MPI_Comm c; PMPI_Comm_create(MPI_COMM_WORLD, g, &c);   // PMPI: not the library's
  MPI_Group_free(&wg); MPI_Group_free(&g);
  comms[n] = c;
}
OP(usecomm) { PCU_Switch_Comm(named_comm(a.str())); }
// wrfile <path> xHEX: written by world rank 0
OP(wrfile) {
  std::string p = a.str(); std::string h = a.str();
  if (wrank == 0) {
    FILE* f = fopen(p.c_str(), "wb");
    for (size_t i = 1; i + 1 < h.size(); i += 2) fputc((int)strtol(h.substr(i, 2).c_str(), 0, 16), f);
    fclose(f);
  }
  MPI_Barrier(MPI_COMM_WORLD);
}
OP(mkdirs) {
  std::string p = a.str();
  if (wrank == 0) for (size_t i = 1; i <= p.size(); i++) if (i == p.size() || p[i] == '/') mkdir(p.substr(0, i).c_str(), 0755);
  MPI_Barrier(MPI_COMM_WORLD);
}
OP(comminfo) { out.f("ci %d %d\n", PCU_Comm_Self(), PCU_Comm_Peers()); }
static void reset_comms() {
  if (comm_touched) PCU_Switch_Comm(MPI_COMM_WORLD);
  for (auto& c : comms) if (c.second != MPI_COMM_NULL) PMPI_Comm_free(&c.second);
  comms.clear(); groups.clear();
}

void run_op(Args& a) {
  auto it = ops().find(a.tok[0]);
  if (it == ops().end() && (a.tok[0] == "queue" || a.tok[0] == "corrupt")) { out.f("unsupported\n"); return; }
  if (it == ops().end()) { fprintf(stderr, "HARNESS: unknown op %s\n", a.tok[0].c_str()); abort(); }
  it->second(a);
}
static void run_program(const std::string& text) {
  size_t p = 0;
  while (p < text.size()) {
    size_t e = text.find('\n', p);
    if (e == std::string::npos) e = text.size();
    const char* s = text.data() + p;
    size_t n = e - p;
    p = e + 1;
    if (!n) continue;
    size_t off = 0;
    if (s[0] == '@') {
      char* endp;
      long r = strtol(s + 1, &endp, 10);
      if (r != wrank) continue;
      off = endp - s + 1;
    }
    if (s[0] == 35) continue; // comment
    if (off < n && s[off] == '%') { // %<group>: members of the group only
      size_t q = off + 1;
      while (q < n && s[q] != ' ') q++;
      if (!in_group(std::string(s + off + 1, q - off - 1))) continue;
      off = q + 1;
    }
    Args a;
    while (off < n) {
      size_t q = off;
      while (q < n && s[q] != ' ') q++;
      if (q > off) a.tok.emplace_back(s + off, q - off);
      off = q + 1;
    }
    if (a.tok.empty()) continue;
    run_op(a);
  }
}

int main(int argc, char** argv) {
  MPI_Init(&argc, &argv);
  MPI_Comm_rank(MPI_COMM_WORLD, &wrank);
  MPI_Comm_size(MPI_COMM_WORLD, &wsize);
  MPI_Comm ctl;
  PMPI_Comm_dup(MPI_COMM_WORLD, &ctl);
  scratch = argv[2];
  if (chdir(scratch.c_str())) { perror("chdir"); return 3; }
  // library output goes to a per-rank file
  char fn[64];
  snprintf(fn, sizeof fn, "stdout.%d", wrank);
  int fd = open(fn, O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644);
  dup2(fd, 1); close(fd);
  if (wrank == 0) {
    sock = socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un un; memset(&un, 0, sizeof un); un.sun_family = AF_UNIX;
    strncpy(un.sun_path, argv[1], sizeof un.sun_path - 1);
    if (connect(sock, (sockaddr*)&un, sizeof un)) { perror("connect"); MPI_Abort(MPI_COMM_WORLD, 3); }
  }
  PCU_Comm_Init();
  EnGPar_Initialize(-1);
  for (;;) {
    unsigned long long len = 0;
    std::string text;
    if (wrank == 0) {
      uint32_t n;
      if (readn((char*)&n, 4) && n) { text.resize(n); if (readn(&text[0], n)) len = n; }
    }
    // wait without spinning: the driver needs the cores between two cases
    MPI_Request rq; int done = 0;
    MPI_Ibcast(&len, 1, MPI_UNSIGNED_LONG_LONG, 0, ctl, &rq);
    for (int k = 0; !done; k++) { PMPI_Test(&rq, &done, MPI_STATUS_IGNORE); if (!done && k > 20) usleep(40); }
    if (!len) break;
    text.resize(len);
    MPI_Bcast(&text[0], (int)len, MPI_CHAR, 0, ctl);
    out.buf.clear();
    comm_touched = text.find("usecomm") != std::string::npos || text.find("split") != std::string::npos;
    run_program(text);
    perturb_off();
    fflush(stdout);
    MPI_Barrier(ctl);
    for (auto& g : graphs) if (g.second) agi::destroyGraph(g.second);
    graphs.clear();
    for (auto fn : resets()) fn();
    reset_comms();
    int n = (int)out.buf.size();
    std::vector<int> cnt(wsize), dsp(wsize);
    MPI_Gather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, 0, ctl);
    std::string all;
    size_t tot = 0;
    if (wrank == 0) { for (int i = 0; i < wsize; i++) { dsp[i] = (int)tot; tot += cnt[i]; } all.resize(tot + 1); }
    MPI_Gatherv(out.buf.data(), n, MPI_CHAR, wrank == 0 ? &all[0] : nullptr, cnt.data(), dsp.data(), MPI_CHAR, 0, ctl);
    if (wrank == 0) {
      std::vector<uint32_t> hdr(wsize);
      for (int i = 0; i < wsize; i++) hdr[i] = cnt[i];
      if (!writen((char*)hdr.data(), 4 * wsize) || !writen(all.data(), tot)) break;
    }
  }
  _exit(0);
}
