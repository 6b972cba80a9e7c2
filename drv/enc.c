/* Arithmetic encoder for MPEG-H/USAC spectral data: the inverse of the normative decoder.
   Used by the stream generator only; shares no code with /repo (tables come from vt/tables.npz). */
#include <stdint.h>
#include <string.h>
static const uint32_t *H; static int NH; static const uint8_t *HM1; static int dummy; static const uint16_t *LK; static const uint16_t *CFM, *CFR; static const uint32_t *ESC;
void ae_tables(const uint32_t *h, int nh, const uint8_t *hm1, const uint16_t *lk, const uint16_t *cfm, const uint16_t *cfr, const uint32_t *esc)
{ H = h; NH = nh; HM1 = hm1; LK = lk; CFM = cfm; CFR = cfr; ESC = esc; (void)dummy; }
typedef struct { uint8_t *o; int n; int pend; int32_t lo, hi; } E;
static void bit(E *e, int b) { e->o[e->n++] = (uint8_t)b; while (e->pend) { e->o[e->n++] = (uint8_t)!b; e->pend--; } }
static void enc(E *e, const uint16_t *cf, int sym) {
  int32_t range = e->hi - e->lo + 1, lo = e->lo, hi = e->hi;
  if (sym) hi = lo + ((range * cf[sym - 1]) >> 14) - 1;
  lo += (range * cf[sym]) >> 14;
  for (;;) {
    if (hi < 32768) bit(e, 0);
    else if (lo >= 32768) { bit(e, 1); lo -= 32768; hi -= 32768; }
    else if (lo >= 16384 && hi < 49152) { e->pend++; lo -= 16384; hi -= 16384; }
    else break;
    lo += lo; hi += hi + 1;
  }
  e->lo = lo; e->hi = hi;
}
static uint32_t pk(uint32_t c) {
  int mn = -1, mx = NH - 1;
  while (mx - mn > 1) { int i = mn + ((mx - mn) >> 1); if (c > H[i]) mn = i; else if (c < H[i]) mx = i; else return HM1[i]; }
  return LK[mx];
}
/* q: 2*n quantised values; stop: emit the stop symbol after the last non-zero tuple when that shortens. returns bit count in out (one bit per byte) */
int ae_encode(const int32_t *q, int n, int pres_n, int8_t *c_prev, int8_t *c_pres, int stop, uint8_t *out) {
  E e = { out, 0, 0, 0, 65535 };
  int i, last = n; int32_t c, s1;
  for (i = 0; i < pres_n; i++) { c_prev[i] = c_pres[i]; c_pres[i] = 1; }
  if (stop) { while (last > 0 && !q[2 * last - 2] && !q[2 * last - 1]) last--; }
  c = (int32_t)c_prev[0] << 12;
  for (i = 0; i < n; i++) {
    c = c >> 4; c += (int32_t)c_prev[i + 1] << 12; c = (c & 0xFFF0) + c_pres[i - 1];
    s1 = c; if (i > 3 && c_pres[i - 1] + c_pres[i - 2] + c_pres[i - 3] < 5) s1 = c + 0x10000;
    if (i == last) { enc(&e, CFM + 17 * pk((uint32_t)s1 + ESC[0]), 16); enc(&e, CFM + 17 * pk((uint32_t)s1 + ESC[1]), 0); break; }
    int32_t a = q[2 * i] < 0 ? -q[2 * i] : q[2 * i], b = q[2 * i + 1] < 0 ? -q[2 * i + 1] : q[2 * i + 1];
    int lev = 0; while ((a >> lev) > 3 || (b >> lev) > 3) lev++;
    int esc = 0, k;
    for (k = 0; k < lev; k++) { enc(&e, CFM + 17 * pk((uint32_t)s1 + ESC[esc]), 16); esc = k + 1 > 7 ? 7 : k + 1; }
    enc(&e, CFM + 17 * pk((uint32_t)s1 + ESC[esc]), (a >> lev) | ((b >> lev) << 2));
    for (k = lev - 1; k >= 0; k--) {
      int32_t pa = a >> (k + 1), pb = b >> (k + 1);
      int id = pa == 0 ? 1 : (pb == 0 ? 0 : 2);
      enc(&e, CFR + 4 * id, ((a >> k) & 1) | (((b >> k) & 1) << 1));
    }
    int t = a + b + 1; c_pres[i] = (int8_t)(t > 15 ? 15 : t);
  }
  e.pend++;
  bit(&e, e.lo < 16384 ? 0 : 1);
  for (i = 0; i < 2 * n; i++) if (q[i]) out[e.n++] = q[i] > 0;
  return e.n;
}
