// C21: the simulated channel. The generator's outputs are enumerated on a grid; the same noise numbers at all
// signal-to-noise ratios, code rates and codewords.
#define ST_N 300000 // longer codes
#include "simstub.h"
static double SNR[60]; static int nsnr, per_point; static double fixedR;
static int pos, bits_calls, pattern;            // rand calls in this trial; calls before the encoder call
static double z0[ST_N]; static int have_z0;
static int mode;                                // 0: same noise in all trials, 1: grid
static long gi, G; static int *perm; static double *Z; static long nz;
static int bitgrid; static long bi; static long ones[8], combos[16], ntr;
static const int ED[] = { 0, 1, 2, RAND_MAX / 2 - 1, RAND_MAX / 2, RAND_MAX / 2 + 1, RAND_MAX / 2 + 2, RAND_MAX - 1, RAND_MAX }; static int edge;
static int bit(int p) { return p < 20 ? pattern >> p & 1 : __builtin_popcount(p * 77 + pattern) & 1; }
static int rnd(void) {
  int p = pos++;
  if (ST.rndcw && p < ST.k) { // information bits
    if (bitgrid == 1) return (int)(((double)((bi + p * 7919) % 65536) + 0.5) / 65536 * RAND_MAX);
    if (bitgrid == 2) return (int)(((double)(p == 0 ? bi % 64 : bi / 64 % 64) + 0.5) / 64 * RAND_MAX);
    return bit(p) ? RAND_MAX - 1000 - p : 1000 + p;
  }
  if (mode == 1) { // all pairs of the grid in a scrambled order
    long i = gi / 2 % (G * G), q = perm[i], v = gi & 1 ? q / G : q % G;
    gi++;
    return (int)(((double)v + 0.5) / G * RAND_MAX);
  }
  p -= ST.rndcw ? ST.k : 0;
  if (mode == 3 && p < 2) return ED[p ? edge / 9 : edge % 9];
  return (int)(mc_mix(p + 1000) >> 33);
}
static double want_sg(int p) { double R = fixedR > 0 ? fixedR : (double)ST.k / ST.n; return 1 / sqrt(2 * R * pow(10, SNR[p] / 10)); }
static int dec(const double *y, int *xd) {
  int i, p = ST.trial / per_point; static int cw[ST_N];
  if (p >= nsnr) { mc_fail("too-many", "more than %d trials at a point", per_point); return -1; }
  double s = want_sg(p);
  if (!(fabs(ST.sg / s - 1) < 1e-9)) mc_fail("noise-level", "point %d (SNR %.10g): the decoder is told %.12g instead of %.12g", p, SNR[p], ST.sg, s);
#ifdef CSNRN
  if (ST.last_csnrn != p) mc_fail("point-number", "the decoder is told point %d instead of %d", ST.last_csnrn, p);
#endif
  if (ST.rndcw && ST.trial == 0 && mode == 0) for (i = 0; i < ST.k; i++) if (ST.sent[i] != bit(i)) mc_fail("information-bit", "bit %d is %d for an output at the %s end of the generator's range", i, ST.sent[i], bit(i) ? "upper" : "lower");
  st_code(ST.sent, cw);
  static double z[ST_N];
  for (i = 0; i < ST.n; i++) {
    z[i] = (y[i] - (cw[i] ? 1 : -1)) / s;
    if (!isfinite(y[i])) mc_fail("not-finite", "the channel gives %g", y[i]);
  }
  if (mode == 0) {
    if (!have_z0) { memcpy(z0, z, ST.n * sizeof(double)); have_z0 = 1; }
    for (i = 0; i < ST.n; i++) if (!(fabs(z[i] - z0[i]) < 1e-7 * (1 + fabs(z0[i]) + 2 / s))) { mc_fail("noise", "point %d (SNR %.10g, deviation %g), symbol %d: %.12g for sent %d is not the sent symbol plus the same noise %.12g", p, SNR[p], s, i, y[i], cw[i], z0[i]); break; }
  } else if (mode == 3) {
    for (i = 0; i < ST.n; i++) if (!(fabs(z[i]) < 20)) mc_fail("edge", "generator outputs %d, %d give the noise number %g", ED[edge % 9], ED[edge / 9], z[i]);
  } else if (mode == 1) for (i = 0; i < ST.n && nz < 2 * G * G; i++) Z[nz++] = z[i];
  if (bitgrid) { int c = 0; for (i = 0; i < ST.k; i++) { ones[i] += ST.sent[i]; c |= ST.sent[i] << i; } combos[c & 15]++; ntr++; bi++; }
  for (i = 0; i < ST.k; i++) xd[i] = ST.sent[i] ^ (i == 0);
  pos = 0; ST.now += 10;
  return 0;
}
static void run(int n, int k, int rw, const char *opts) {
  void *h; int rc, i; sim_init_params_ sp = { "t.spf", 5, 1 };
  st_reset(n, k); ST.rndcw = rw; st_dec = dec; st_rand = rnd; pos = 0;
  FILE *f = fopen("t.spf", "w");
  fprintf(f, "res_file r.srf\nrandom_codeword %s\n%s\nSNR_val_trn { ", rw ? "on" : "off", opts);
  for (i = 0; i < nsnr; i++) fprintf(f, "%.17g %d ", SNR[i], per_point);
  fprintf(f, "}\n"); fclose(f);
  so_reset();
  if (sim_init((sim_init_params *)&sp, &h)) { mc_fail("init", "initialisation failed: %s", so_get()); return; }
  while ((rc = sim_run(h)) == RC_SIMUL_NOT_COMPLETED);
  if (rc) mc_fail("run", "sim_run returned %d", rc);
  if (ST.trial != nsnr * per_point) mc_fail("trials", "%d trials instead of %d", ST.trial, nsnr * per_point);
  sim_close(h);
  mc.evals += ST.trial;
}
static double Phi(double x) { return 0.5 * erfc(-x / sqrt(2)); }
static int cmpd(const void *a, const void *b) { double x = *(double *)a, y = *(double *)b; return x < y ? -1 : x > y; }
int main(int argc, char **argv) {
  mc_init(argc, argv);
  so_init();
  int i, j, b, c;
  // all signal-to-noise ratios in steps of 0.01 dB, all rates
  static const int NK[][2] = { { 2, 1 }, { 4, 2 }, { 4, 3 }, { 8, 3 }, { 8, 7 }, { 16, 5 }, { 32, 6 }, { 64, 7 }, { 8, 8 } };
  static const double FR[] = { 0, 0.5, 1, 0.1, 2, 1e-3, 0.333333 };
  double step = mc.thorough ? 0.002 : 0.01;
  for (c = 0; c < 9; c++) for (b = 0; b < 7; b++) for (int blk = 0; blk < (int)(60 / step / 50); blk += (b || c > 1) ? 7 : 1) {
    if (!mc_group()) continue;
    if (!mc_case()) continue;
    nsnr = 50; per_point = 1; fixedR = FR[b]; mode = 0; bitgrid = 0; have_z0 = 0;
    for (i = 0; i < 50; i++) SNR[i] = -20 + (blk * 50 + i) * step;
    char o[60] = ""; if (fixedR > 0) sprintf(o, "fixed_R %.10g", fixedR);
    mc_note("code (%d, %d), %s, SNR %g to %g", NK[c][0], NK[c][1], o, SNR[0], SNR[49]);
    for (j = 0; j < 2; j++) { pattern = 0x5a >> (blk & 1); run(NK[c][0], NK[c][1], j, o); }
    mc_state(mc_h2(c * 8 + b, blk));
    if (blk % 40 == 0 && !c) mc_sample("%s: deviations %.6g to %.6g", mc.note, want_sg(0), want_sg(49));
  }
  // all codewords, several trials per point, other orders of points
  for (c = 0; c < 9; c++) if (mc_group()) for (pattern = 0; pattern < (1 << NK[c][1]); pattern++) for (b = 0; b < 3; b++) {
    if (!mc_case()) continue;
    nsnr = b == 0 ? 1 : 4; per_point = b == 2 ? 3 : 1; fixedR = b == 1 ? 0.7 : 0; mode = 0; bitgrid = 0; have_z0 = pattern > 0 && have_z0 == c + 1 ? have_z0 : 0;
    have_z0 = 0;
    static const double O[3][4] = { { 2.2 }, { 3, -4, 0, 60 }, { 0, 7, -7, 1 } };
    memcpy(SNR, O[b], sizeof(O[b]));
    mc_note("code (%d, %d), information word %x, points of kind %d", NK[c][0], NK[c][1], pattern, b);
    // reference noise: zero codeword
    run(NK[c][0], NK[c][1], 0, b == 1 ? "fixed_R 0.7" : "");
    run(NK[c][0], NK[c][1], 1, b == 1 ? "fixed_R 0.7" : "");
    mc_state(mc_h2(500 + c * 4 + b, pattern));
  }
  // long codes: the same noise at all points, of the right size in every block of symbols
  static const int LK[][2] = { { 128, 22 }, { 128, 64 }, { 256, 30 }, { 1000, 999 }, { 1024, 300 }, { 2048, 1024 }, { 4096, 4096 }, { 8192, 500 }, { 32768, 30000 }, { 65536, 32768 }, { 131072, 21 }, { 262144, 262144 } };
  for (c = 0; c < 12; c++) for (b = 0; b < 4; b++) {
    if (!mc_group() || !mc_case()) continue;
    nsnr = 6; per_point = b == 3 ? 2 : 1; fixedR = b == 1 ? 0.25 : 0; mode = per_point > 1 ? 2 : 0; bitgrid = 0; have_z0 = 0; pattern = 0x2d5 + b * 0x333;
    for (i = 0; i < 6; i++) SNR[i] = i * 2.5 - 7 + b * 0.3;
    mc_note("code (%d, %d), points of kind %d", LK[c][0], LK[c][1], b);
    if (b != 2) run(LK[c][0], LK[c][1], 0, b == 1 ? "fixed_R 0.25" : "");
    run(LK[c][0], LK[c][1], 1, b == 1 ? "fixed_R 0.25" : "");
    if (have_z0) for (i = 0; i < ST.n; i += 256) {
      double m = 0, v = 0; int e = i + 256 <= ST.n ? 256 : ST.n - i;
      for (j = i; j < i + e; j++) { m += z0[j]; v += z0[j] * z0[j]; }
      if (e > 30 && (fabs(m / e) > 6 / sqrt(e) || fabs(v / e - 1) > 6 * sqrt(2.0 / e))) { mc_fail("block", "noise numbers of symbols %d to %d: mean %g, variance %g", i, i + e - 1, m / e, v / e); break; }
    }
    mc_state(mc_h2(600 + c, b));
    if (!b) mc_sample("%s", mc.note);
  }
  // distribution over all pairs of generator outputs on a grid
  for (b = 0; b < 4; b++) if (mc_group() && mc_case()) {
    G = b == 0 ? 256 : b == 1 ? 601 : b == 2 ? 1024 : mc.thorough ? 8192 : 4096;
    Z = (double *)malloc(2 * G * G * sizeof(double)); nz = 0; gi = 0; mode = 1; bitgrid = 0; nsnr = 1; fixedR = 0; SNR[0] = 1;
    perm = (int *)malloc(G * G * sizeof(int));
    for (long k = 0; k < G * G; k++) perm[k] = (int)k;
    for (long k = G * G - 1; k > 0; k--) { long l = mc_mix(k * 31 + G) % (k + 1); int t = perm[k]; perm[k] = perm[l]; perm[l] = t; }
    per_point = (int)(G * G * 0.785 * 2 / 64);
    mc_note("all pairs of %ld generator outputs", G);
    run(64, 7, 0, "");
    double m = 0, v = 0, s3 = 0, q = 0, r = 0, lag = 0, d = 0, jd = 0; long n = nz / 2 * 2, k;
    double tol = 1.5 / sqrt(G) / 10;
    for (k = 0; k < n; k++) { m += Z[k]; v += Z[k] * Z[k]; s3 += Z[k] * Z[k] * Z[k]; q += Z[k] * Z[k] * Z[k] * Z[k]; }
    for (k = 0; k + 1 < n; k += 2) r += Z[k] * Z[k + 1];
    for (k = 0; k + 3 < n; k += 2) lag += Z[k] * Z[k + 2];
    static const double JP[] = { -1.5, -0.7, 0, 0.4, 1.2 };
    for (i = 0; i < 5; i++) for (j = 0; j < 5; j++) { long cn = 0; for (k = 0; k + 1 < n; k += 2) cn += Z[k] <= JP[i] && Z[k + 1] <= JP[j]; double e = fabs((double)cn / (n / 2) - Phi(JP[i]) * Phi(JP[j])); if (e > jd) jd = e; }
    m /= n; v /= n; s3 /= n; q /= n; r /= n / 2; lag /= n / 2;
    qsort(Z, n, sizeof(double), cmpd);
    for (k = 0; k < n; k++) { double e = fabs((k + 0.5) / n - Phi(Z[k])); if (e > d) d = e; }
    mc_sample("%s: %ld noise numbers, mean %.2g, variance %.5f, third %.2g, fourth moment %.4f, correlation %.2g, next pair %.2g, distribution error %.2g (joint %.2g), largest %.3g", mc.note, n, m, v, s3, q, r, lag, d, jd, Z[n - 1]);
    if (fabs(m) > tol || fabs(s3) > 4 * tol) mc_fail("mean", "mean %g, third moment %g over %ld noise numbers", m, s3, n);
    if (fabs(v - 1) > 2 * tol || fabs(q - 3) > 12 * tol) mc_fail("variance", "variance %g, fourth moment %g over %ld noise numbers", v, q, n);
    if (fabs(r) > tol || fabs(lag) > 4 * tol) mc_fail("correlation", "correlation %g within pairs, %g between pairs", r, lag);
    if (d > tol || jd > tol) mc_fail("distribution", "the distribution deviates from the normal one by %g (joint %g)", d, jd);
    if (G > 2000) { // tails, on either side
      static const double TP[] = { 2, 2.5, 3, 3.5, 4, 4.5 };
      for (i = 0; i < 6; i++) for (j = -1; j < 2; j += 2) {
        long cn = 0; double ex = n * Phi(-TP[i]);
        for (k = 0; k < n; k++) cn += j * Z[k] > TP[i];
        if (fabs(cn - ex) > 0.25 * ex + 6) mc_fail("tail", "%ld of %ld noise numbers are beyond %g, %.0f are expected", cn, n, j * TP[i], ex);
        if (i > 3) mc_sample("%ld of %ld noise numbers beyond %g (expected: %.0f)", cn, n, j * TP[i], ex);
      }
    }
    mc_state(mc_h2(900, G)); free(Z); free(perm); Z = NULL;
  }
  // ends and middle of the generator's range
  for (b = 0; b < 81; b++) if (mc_group()) for (c = 0; c < 3; c++) {
    if (!mc_case()) continue;
    static const double S[] = { 0, -20, 40 };
    mode = 3; bitgrid = 0; edge = b; nsnr = 1; per_point = 1; fixedR = 0; SNR[0] = S[c]; pattern = 2;
    mc_note("first generator outputs %d, %d, SNR %g", ED[b % 9], ED[b / 9], S[c]);
    run(4, 2, c == 1, "");
    mc_state(mc_h2(902, b * 3 + c));
  }
  // information bits
  for (b = 1; b < 3; b++) if (mc_group() && mc_case()) {
    bitgrid = b; mode = 0; have_z0 = 0; bi = 0; ntr = 0; memset(ones, 0, sizeof(ones)); memset(combos, 0, sizeof(combos)); mode = 2;
    nsnr = 1; SNR[0] = 2; per_point = b == 1 ? 65536 : 4096; fixedR = 0;
    mc_note("information bits over %d generator outputs", per_point);
    run(b == 1 ? 8 : 4, b == 1 ? 4 : 2, 1, "");
    for (i = 0; i < ST.k; i++) if (labs(2 * ones[i] - ntr) > 4) mc_fail("bit-balance", "information bit %d is one in %ld of %ld trials", i, ones[i], ntr);
    if (b == 2) for (i = 0; i < 4; i++) if (labs(4 * combos[i] - ntr) > 16) mc_fail("word-balance", "information word %d occurs %ld times in %ld trials", i, combos[i], ntr);
    mc_state(mc_h2(901, b));
    bitgrid = 0;
  }
  return mc_done();
}
