// Native replay: loads the very shared object whose bitcode was analysed, provides the vsym_*
// primitives from a counterexample file and runs one harness.
//   replay SO ENTRY CEX [real]
// exit: 0 completed, 42 property assertion violated, 77 assumption not met, SIGABRT = panic.
// With "real" the hash is SHA-256 instead of the counterexample's message/digest table.
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;
static uint64_t *vals; static int *ws; static int nv, pos;
static struct H { u8 *m; size_t n; u8 d[32]; } *hs; static int nh, capv, caph;
static int real_hash;
static uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
static void sha256(const u8 *p, size_t n, u8 *out) {
  static uint32_t K[64]; uint32_t H[8];
  // constants from the fractional parts of cube / square roots of the first primes (integer arithmetic)
  static int init; static uint32_t H0[8];
  if (!init) { int c = 0; for (unsigned q = 2; c < 64; q++) { int pr = 1; for (unsigned d = 2; d * d <= q; d++) if (q % d == 0) pr = 0; if (!pr) continue;
      unsigned __int128 t = (unsigned __int128)q << 96; uint64_t lo = 0, hi = (uint64_t)1 << 36; // cube root * 2^32
      while (hi - lo > 1) { uint64_t m = lo + (hi - lo) / 2; unsigned __int128 cu = (unsigned __int128)m * m; if (cu > t / m) hi = m; else lo = m; } K[c] = (uint32_t)lo;
      if (c < 8) { unsigned __int128 s = (unsigned __int128)q << 64; lo = 0; hi = (uint64_t)1 << 36; while (hi - lo > 1) { uint64_t m = lo + (hi - lo) / 2; if ((unsigned __int128)m * m > s) hi = m; else lo = m; } H0[c] = (uint32_t)lo; }
      c++; } init = 1; }
  memcpy(H, H0, 32);
  size_t tot = (n + 9 + 63) / 64 * 64; u8 *b = calloc(1, tot); memcpy(b, p, n); b[n] = 0x80;
  for (int i = 0; i < 8; i++) b[tot - 1 - i] = (u8)((uint64_t)n * 8 >> (8 * i));
  for (size_t o = 0; o < tot; o += 64) { uint32_t w[64];
    for (int i = 0; i < 16; i++) w[i] = (uint32_t)b[o+4*i] << 24 | b[o+4*i+1] << 16 | b[o+4*i+2] << 8 | b[o+4*i+3];
    for (int i = 16; i < 64; i++) w[i] = w[i-16] + (rr(w[i-15],7)^rr(w[i-15],18)^w[i-15]>>3) + w[i-7] + (rr(w[i-2],17)^rr(w[i-2],19)^w[i-2]>>10);
    uint32_t a=H[0],B=H[1],c=H[2],d=H[3],e=H[4],f=H[5],g=H[6],h=H[7];
    for (int i = 0; i < 64; i++) { uint32_t t1 = h + (rr(e,6)^rr(e,11)^rr(e,25)) + ((e&f)^(~e&g)) + K[i] + w[i], t2 = (rr(a,2)^rr(a,13)^rr(a,22)) + ((a&B)^(a&c)^(B&c)); h=g;g=f;f=e;e=d+t1;d=c;c=B;B=a;a=t1+t2; }
    H[0]+=a;H[1]+=B;H[2]+=c;H[3]+=d;H[4]+=e;H[5]+=f;H[6]+=g;H[7]+=h; }
  free(b); for (int i = 0; i < 32; i++) out[i] = (u8)(H[i/4] >> (24 - 8 * (i % 4)));
}
uint64_t vsym_nd(uint32_t bits) {
  if (pos >= nv) { if (getenv("VSYM_PAD")) return 0; printf("REPLAY: input exhausted\n"); fflush(stdout); _Exit(78); }
  uint64_t v = vals[pos++]; return bits >= 64 ? v : v & ((1ull << bits) - 1);
}
void vsym_assume(uint64_t c) { if (!c) { printf("REPLAY: assumption not met\n"); fflush(stdout); _Exit(77); } }
void vsym_assert(uint64_t c, const char *p, size_t n) { if (!c) { printf("REPLAY: violated: %.*s\n", (int)n, p); fflush(stdout); _Exit(42); } }
void vsym_cover(uint64_t c, const char *p, size_t n) { (void)c; (void)p; (void)n; }
uint64_t vsym_conc(uint64_t x) { return x; }
uint64_t vsym_eq(const u8 *a, const u8 *b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t vsym_and(uint64_t a, uint64_t b) { return a && b; }
void vsym_obs(uint64_t x) { printf("OBS %llu\n", (unsigned long long)x); fflush(stdout); }
void vsym_panic_is_violation(void) {}
uint64_t vsym_is_symbolic_run(void) { return 0; }
void vsym_log(const char *p, size_t n) { fprintf(stderr, "LOG %.*s\n", (int)n, p); }
void vsym_hash(const u8 *p, size_t n, u8 *out) {
  if (!real_hash) for (int i = 0; i < nh; i++) if (hs[i].n == n && !memcmp(hs[i].m, p, n)) { memcpy(out, hs[i].d, 32); return; }
  sha256(p, n, out);
}
static int hx(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static size_t unhex(const char *s, u8 *o) { size_t n = 0; while (s[0] && s[1] && s[0] != '-') { o[n++] = (u8)(hx(s[0]) * 16 + hx(s[1])); s += 2; } return n; }
int main(int c, char **v) {
  if (c >= 2 && !strcmp(v[1], "selftest")) { u8 o[32]; sha256((const u8 *)"abc", 3, o); for (int i = 0; i < 32; i++) printf("%02x", o[i]); puts(""); return 0; }
  if (c < 4) return 2;
  real_hash = c > 4 && !strcmp(v[4], "real");
  FILE *f = fopen(v[3], "r"); if (!f) return 2;
  char *line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    if (!strncmp(line, "nd ", 3)) { if (nv == capv) { capv = capv * 2 + 64; vals = realloc(vals, capv * 8); ws = realloc(ws, capv * 4); } unsigned w; unsigned long long x; if (sscanf(line, "nd %u %llu", &w, &x) == 2) { ws[nv] = w; vals[nv++] = x; } }
    else if (!strncmp(line, "hash ", 5)) { char *m = strtok(line + 5, " \n"), *d = strtok(0, " \n"); if (!d) continue; if (nh == caph) { caph = caph * 2 + 16; hs = realloc(hs, caph * sizeof *hs); } hs[nh].m = malloc(strlen(m) / 2 + 1); hs[nh].n = unhex(m, hs[nh].m); unhex(d, hs[nh].d); nh++; }
  }
  fclose(f);
  void *so = dlopen(v[1], RTLD_NOW | RTLD_GLOBAL); if (!so) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*h)(void) = (void (*)(void))dlsym(so, v[2]); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  h();
  printf("REPLAY: completed\n");
  fflush(stdout);
  _Exit(0);
}
