// Runs the copy and fill of the repository against their contracts.
//   MODE asan: exact heap blocks under AddressSanitizer;  MODE rec: memcpy replaced by a recording, delaying one.
#include <atomic>
#include <algorithm>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <random>
#include <string>
#include <thread>
#include <utility>
#include <vector>
#ifdef REC
static std::mutex rec_mu;
struct Call { uintptr_t d, s; size_t n; };
static std::vector<Call> rec_calls;
static std::atomic<int> rec_open{0};
static std::thread::id rec_main;
static void *rec_copy(void *d, const void *s, size_t n) {
  rec_open++;
  if (std::this_thread::get_id() != rec_main) std::this_thread::sleep_for(std::chrono::microseconds(300));
  { std::lock_guard<std::mutex> g(rec_mu); rec_calls.push_back({(uintptr_t)d, (uintptr_t)s, n}); }
  // a wrong range is recorded, not executed
  extern uintptr_t rec_d0, rec_d1, rec_s0, rec_s1;
  if ((uintptr_t)d >= rec_d0 && (uintptr_t)d + n <= rec_d1 && (uintptr_t)s >= rec_s0 && (uintptr_t)s + n <= rec_s1 && n <= rec_d1 - rec_d0) memmove(d, s, n);
  rec_open--;
  return d;
}
uintptr_t rec_d0, rec_d1, rec_s0, rec_s1;
static void *rec_memcpy(void *d, const void *s, size_t n) { return rec_copy(d, s, n); }
namespace std { static inline void *rec_memcpy(void *d, const void *s, size_t n) { return ::rec_copy(d, s, n); } }
#define memcpy rec_memcpy
#endif
#include MEMORY_CPP
#ifdef REC
#undef memcpy
#endif
static long nev = 0;
static void fail(const char *what, long n, long sal, long dal, long bs, int th) {
  printf("FAIL %s length=%ld source_alignment=%ld destination_alignment=%ld block=%ld threads=%d\n", what, n, sal, dal, bs, th);
  fflush(stdout);
  _Exit(3);
}
static void one(long n, long sal, long dal, long bs, int th) {
  nev++;
  // under ASAN the blocks end exactly at the data; the alignment offset in front is poisoned by hand
  static thread_local std::minstd_rand g(12345);
  size_t sa = n + 256, da = n + 256;
  uint8_t *sb, *db;
  posix_memalign((void **)&sb, 256, sal + n ? sal + n : 1);
  posix_memalign((void **)&db, 256, dal + n ? dal + n : 1);
  (void)sa; (void)da;
  uint8_t *s = sb + sal, *d = db + dal;
  for (long i = 0; i < n; i++) { s[i] = (uint8_t)g(); d[i] = (uint8_t)~s[i]; }
  for (long i = 0; i < sal; i++) sb[i] = 0xA5;
  for (long i = 0; i < dal; i++) db[i] = 0x5A;
  std::vector<uint8_t> keep(s, s + n);
#ifdef REC
  rec_calls.clear();
  rec_d0 = (uintptr_t)d; rec_d1 = rec_d0 + n; rec_s0 = (uintptr_t)s; rec_s1 = rec_s0 + n;
#endif
  printf("CASE length=%ld source_alignment=%ld destination_alignment=%ld block=%ld threads=%d\n", n, sal, dal, bs, th);
  unidist::parallel_memcopy(d, s, n, bs, th);
#ifdef REC
  if (rec_open != 0) fail("threads still running at return", n, sal, dal, bs, th);
  bool eq = n == 0 || !memcmp(d, keep.data(), n);
  for (auto &c : rec_calls) {
    if (c.n == 0) continue;
    if (c.d < rec_d0 || c.d + c.n > rec_d1 || c.n > (size_t)n) fail("destination range outside of the destination", n, sal, dal, bs, th);
    if (c.s < rec_s0 || c.s + c.n > rec_s1) fail("source range outside of the source", n, sal, dal, bs, th);
  }
  if (!eq) fail("destination differs from the source at return", n, sal, dal, bs, th);
#else
  if (n && memcmp(d, keep.data(), n)) fail("destination differs from the source at return", n, sal, dal, bs, th);
#endif
  if (n && memcmp(s, keep.data(), n)) fail("source changed", n, sal, dal, bs, th);
  for (long i = 0; i < sal; i++) if (sb[i] != 0xA5) fail("memory before the source changed", n, sal, dal, bs, th);
  for (long i = 0; i < dal; i++) if (db[i] != 0x5A) fail("memory before the destination changed", n, sal, dal, bs, th);
  free(sb);
  free(db);
}
static void fill1(long n, int64_t v) {
  nev++;
  printf("CASE fill size=%ld value=%ld\n", n, (long)v);
  int64_t *b = (int64_t *)malloc((n + 1) * 8 + 0);
  int64_t *p = b + 1;
  b[0] = 77;
  for (long i = 0; i < n; i++) p[i] = ~v;
  unidist::fill(p, n, v);
  if (b[0] != 77) fail("fill changed memory before the buffer", n, 0, 0, 0, 0);
  for (long i = 0; i < n; i++) if (p[i] != v) fail("fill left an element", n, 0, 0, 0, 0);
  free(b);
}
int main(int argc, char **argv) {
  int part = atoi(argv[1]), parts = atoi(argv[2]);
  long seed = atol(argv[3]);
  double secs = atof(argv[4]);
#ifdef REC
  rec_main = std::this_thread::get_id();
#endif
  static char obuf[1 << 12];
  setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
  // the last line on a crash must be the failing case: a ring in stdout is flushed line by line only there
  setvbuf(stdout, nullptr, _IOLBF, 0);
  auto t0 = std::chrono::steady_clock::now();
  auto over = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs; };
  std::mt19937_64 g(seed * 100 + part);
  auto r = [&](long a, long b) { return (long)(a + g() % (b - a + 1)); };
  if (part == 0) {
    long ns[] = {0, 1, 2, 3, 7, 8, 9, 63, 64, 65, 1000, 4096};
    for (long n : ns) { fill1(n, -1); fill1(n, 0); fill1(n, (int64_t)0x8000000000000000LL); fill1(n, 1234567890123LL); }
    long big[] = {1 << 20, (1 << 20) + 1, (1 << 22) + 77, 30000001};
    for (long n : big) for (int th : {1, 6, 12}) one(n, r(0, 63), r(0, 63), 64, th);
  }
  // boundaries first, then random
  long edge[] = {0, 1, 63, 64, 65, 127, 128, 129, 191, 192, 193, 255, 256, 257, 383, 384, 385, 447, 448, 449, 767, 768, 769, 831, 833};
  long k = 0;
  for (long sal : {0L, 1L, 2L, 31L, 62L, 63L, 64L, 65L}) for (long n : edge) for (int th : {1, 2, 3, 4, 6, 7, 12}) {
    if (k++ % parts != part) continue;
    one(n, sal, r(0, 70), 64, th);
    if (over()) goto out;
  }
  while (!over()) {
    long c = r(0, 9);
    long n = c < 5 ? r(0, 400) : c < 9 ? r(0, 5000) : r(0, 300000);
    long bs = r(0, 3) ? 64 : (1L << r(0, 8));
    one(n, r(0, 70), r(0, 70), bs, (int)(r(0, 4) ? r(1, 8) : r(1, 40)));
  }
out:
  printf("DONE %ld\n", nev);
  return 0;
}
