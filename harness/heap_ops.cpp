// Heap and open files of this rank between operations.
#include "worker.h"
#include <dirent.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static long long samples[512], files[512]; static int ns = 0;
OP(heap) {
  (void)a; if (ns == 512) return;
  int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); }
  files[ns] = n; samples[ns++] = (long long)__sanitizer_get_current_allocated_bytes() - (long long)out.buf.capacity();
}
OP(heapout) {
  (void)a;
  out.f("heap"); for (int i = 0; i < ns; i++) out.f(" %lld", samples[i]);
  out.f("\nfds"); for (int i = 0; i < ns; i++) out.f(" %lld", files[i]);
  out.f("\n"); ns = 0;
}
static void reset_heap() { ns = 0; }
static AtReset rh(reset_heap);
