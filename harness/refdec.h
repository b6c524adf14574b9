// Reference successive cancellation list decoder, written from the definition (no shared code, no
// in-place tricks): every path keeps the decided words of the border nodes; the soft input of the next
// border node is recomputed from the channel values for each path.
// Equal metrics (within tol) make the model nondeterministic: all choices are explored.
#ifndef REFDEC_H
#define REFDEC_H
#include "refcode.h"
enum { F_EPS5, F_RHO1, F_RHO5 };
#ifndef FMT
#define FMT F_EPS5
#endif
static double rf_clip(double e) {
  if (FMT != F_EPS5) return e;
  const double t = 1.0 - 1e-8;
  return e > t ? t : e < -t ? -t : e;
}
static double rf_conv(double y) { return FMT == F_EPS5 ? rf_clip(-tanh(y / 2)) : -y; }
static double rf_xor(double a, double b) {
  if (FMT == F_EPS5) return a * b;
  double s = (a < 0) != (b < 0) ? -1.0 : 1.0, m = fmin(fabs(a), fabs(b));
  if (FMT == F_RHO5) return s * m;
  return s * m + log1p(exp(-fabs(a + b))) - log1p(exp(-fabs(a - b)));
}
static double rf_add(double a, double b) { return FMT == F_EPS5 ? rf_clip((a + b) / (1 + a * b)) : a + b; }
static double rf_lnp(double e, int bit) {
  if (bit) e = -e;
  if (FMT == F_EPS5) return log1p(e);
  return e >= 0 ? -log1p(exp(-e)) : e - log1p(exp(e));
}
static double rf_llr(double e) { return FMT == F_EPS5 ? log1p(e) - log1p(-e) : e; }

#define RD_NMAX 4096
#define RD_LMAX 260
#define RD_CMAX (RD_LMAX * 4 + 1100)
typedef struct { int m, r, off, len, xoff, k, on; } rd_node;
typedef struct { double metric; int perm; unsigned char *cw, *x; } rd_path; // n bytes each
typedef struct {
  rcode c; int n, k, nn, L, np; rd_node nd[RD_NMAX];
  double tol;
  int **perm;                // np permutations of symbol positions: path sees y[perm[i]]
  rd_path *pt, *cand; int npt, ncand; int *permbuf; unsigned char *pathbuf;
  double *yroot;             // np * n
  uint64_t cfgh;
  // nondeterminism
  int ch[64], chn[64], chd; int ambiguous, overflow, nruns, quiet;
} rd_ctx;

static void rd_layout(rd_ctx *d, int m, int r, int *off, int *xoff) {
  if (rc_is_border(d->c.kind, m, r)) {
    rd_node *q = &d->nd[d->nn];
    q->m = m; q->r = r; q->off = *off; q->len = 1 << m; q->xoff = *xoff;
    q->on = !(d->c.mask && d->c.mask[d->nn] == '0');
    q->k = q->on ? rc_border_k(d->c.kind, m, r) : 0;
    *off += q->len; *xoff += q->k; d->nn++;
    return;
  }
  rd_layout(d, m - 1, r - 1, off, xoff);
  rd_layout(d, m - 1, r, off, xoff);
}
static int rd_cnts[3][16][16];
static int rd_nodes(int kind, int m, int r) {
  if (rc_is_border(kind, m, r)) return 1;
  int rr = kind == K_POLAR ? 1 : r;
  int (*rd_cnt)[16] = rd_cnts[kind];
  if (rd_cnt[m][rr] == 0) rd_cnt[m][rr] = rd_nodes(kind, m - 1, r - 1) + rd_nodes(kind, m - 1, r);
  return rd_cnt[m][rr];
}
static rd_ctx *rd_new(const rcode *c, int L, int np, const int *vperm /* np*m or NULL */, uint64_t cfgh) {
  rd_ctx *d = (rd_ctx *)calloc(1, sizeof(rd_ctx));
  int off = 0, xoff = 0, i, j, p;
  d->c = *c; d->n = 1 << c->m; d->L = L; d->np = np; d->cfgh = cfgh;
  rd_layout(d, c->m, c->r, &off, &xoff);
  d->k = xoff;
  d->tol = 1e-6 + 2e-8 * d->n;
  d->perm = (int **)malloc(sizeof(int *) * np); d->permbuf = (int *)malloc(sizeof(int) * np * d->n);
  for (p = 0; p < np; p++) d->perm[p] = d->permbuf + p * d->n;
  for (p = 0; p < np; p++) for (i = 0; i < d->n; i++) {
    int q = 0;
    for (j = 0; j < c->m; j++) if ((i >> j) & 1) q |= 1 << (vperm ? vperm[p * c->m + j] : j);
    d->perm[p][i] = q;
  }
  d->yroot = (double *)malloc(sizeof(double) * np * d->n);
  int lm = L > np ? L : np;
  int nc = c->kind == K_RM1 ? RD_CMAX : 4 * lm + 8;
  d->pt = (rd_path *)malloc(sizeof(rd_path) * (lm + 1)); d->cand = (rd_path *)malloc(sizeof(rd_path) * nc);
  d->pathbuf = (unsigned char *)malloc((size_t)(lm + 1 + nc) * 2 * d->n);
  for (i = 0; i < lm + 1 + nc; i++) { rd_path *q = i <= lm ? &d->pt[i] : &d->cand[i - lm - 1]; q->cw = d->pathbuf + (size_t)2 * i * d->n; q->x = q->cw + d->n; }
  return d;
}
static void rd_copy(rd_ctx *d, rd_path *a, const rd_path *b) { a->metric = b->metric; a->perm = b->perm; memcpy(a->cw, b->cw, d->n); memcpy(a->x, b->x, d->n); }
static void rd_free(rd_ctx *d) { free(d->perm); free(d->permbuf); free(d->pathbuf); free(d->yroot); free(d->pt); free(d->cand); free(d); }
// Codeword of a block all of whose border nodes are decided.
static void rd_code(rd_ctx *d, int m, int r, const unsigned char *cw, unsigned char *out, int *cur) {
  int n = 1 << m, h = n / 2, i;
  if (rc_is_border(d->c.kind, m, r)) { memcpy(out, cw + d->nd[*cur].off, n); (*cur)++; return; }
  unsigned char v[h], u[h];
  rd_code(d, m - 1, r - 1, cw, v, cur);
  rd_code(d, m - 1, r, cw, u, cur);
  for (i = 0; i < h; i++) { out[i] = u[i] ^ v[i]; out[i + h] = u[i]; }
}
// Soft input of border node target (cur = first node of this block).
static void rd_input(rd_ctx *d, int m, int r, const double *y, const unsigned char *cw, int cur, int target, double *res) {
  int n = 1 << m, h = n / 2, i;
  if (rc_is_border(d->c.kind, m, r)) { memcpy(res, y, n * sizeof(double)); return; }
  double t[h];
  int nv = rd_nodes(d->c.kind, m - 1, r - 1);
  if (target < cur + nv) {
    for (i = 0; i < h; i++) t[i] = rf_xor(y[i], y[i + h]);
    rd_input(d, m - 1, r - 1, t, cw, cur, target, res);
  } else {
    unsigned char v[h]; int c2 = cur;
    rd_code(d, m - 1, r - 1, cw, v, &c2);
    for (i = 0; i < h; i++) t[i] = rf_add(v[i] ? -y[i] : y[i], y[i + h]);
    rd_input(d, m - 1, r, t, cw, cur + nv, target, res);
  }
}
static int rd_choose(rd_ctx *d, int options) {
  if (options <= 1) return 0;
  d->ambiguous = 1;
  if (d->chd >= 64 || options > 5000) { d->overflow = 1; return 0; }
  int i = d->chd++;
  if (d->chn[i] == 0) { d->chn[i] = options; d->ch[i] = 0; }
  return d->ch[i];
}
static int rd_cmp(const void *a, const void *b) {
  double x = (*(rd_path *const *)a)->metric, y = (*(rd_path *const *)b)->metric;
  return x > y ? -1 : x < y;
}
static long rd_comb(int n, int k) { double r = 1; for (int i = 0; i < k; i++) r = r * (n - i) / (i + 1); return r > 1e6 ? 1000000 : (long)(r + 0.5); }
// Of the sorted values v[0..cnt) (descending) select q; ties at the boundary are a choice. sel[i] = 1 if kept.
static void rd_select(rd_ctx *d, const double *v, int cnt, int q, char *sel) {
  int i, lo, hi;
  for (i = 0; i < cnt; i++) sel[i] = i < q;
  if (cnt <= q) return;
  if (v[q - 1] - v[q] > d->tol) return;
  lo = q - 1; while (lo > 0 && v[lo - 1] - v[lo] <= d->tol) lo--;
  hi = q; while (hi + 1 < cnt && v[hi] - v[hi + 1] <= d->tol) hi++;
  int t = hi - lo + 1, need = q - lo;
  int c = rd_choose(d, (int)rd_comb(t, need));
  // c-th combination of need out of t (lexicographic).
  for (i = lo; i <= hi; i++) sel[i] = 0;
  for (i = lo; need > 0; i++) {
    long w = rd_comb(hi - i, need - 1);
    if (c < w) { sel[i] = 1; need--; } else c -= w;
  }
}
static void rd_emit(rd_ctx *d, const rd_path *p, const rd_node *q, const double *in, const int *cw, const int *x) {
  rd_path *e = &d->cand[d->ncand++];
  int i;
  rd_copy(d, e, p);
  for (i = 0; i < q->len; i++) { e->cw[q->off + i] = cw[i]; e->metric += rf_lnp(in[i], cw[i]); }
  for (i = 0; i < q->k; i++) e->x[q->xoff + i] = x[i];
}
static void rd_run(rd_ctx *d, const double *y);
static void rd_extend(rd_ctx *d, const rd_path *p, const rd_node *q) {
  double in[q->len];
  int cw[q->len], x[q->len], i, j;
  rd_input(d, d->c.m, d->c.r, d->yroot + p->perm * d->n, p->cw, 0, (int)(q - d->nd), in);
  if (!q->on) { memset(cw, 0, sizeof(cw)); rd_emit(d, p, q, in, cw, x); return; }
  if (d->c.kind == K_POLAR || q->r == 0) {
    for (j = 0; j < 2; j++) { for (i = 0; i < q->len; i++) cw[i] = j; x[0] = j; rd_emit(d, p, q, in, cw, x); }
    return;
  }
  if (d->c.kind == K_RM1 && q->r == 1 && q->m > 1) {
    // Maximum likelihood among all words. When reliabilities may saturate in the format, the word of a
    // full-size list over the node's own recursion is possible as well.
    rcode t = { K_RM, q->m, 1, NULL };
    double sum = 0;
    for (i = 0; i < q->len; i++) sum += fabs(rf_llr(in[i]));
    if (FMT == F_EPS5 && sum > 17 && rd_choose(d, 2) == 0) {
      rd_ctx *s = rd_new(&t, 1 << q->k, 1, NULL, 0);
      s->quiet = 1;
      rd_run(s, in);
      // Equal metrics at the end: choice.
      int z = 1, cur = 0;
      while (z < s->npt && s->pt[0].metric - s->pt[z].metric <= d->tol) z++;
      z = rd_choose(d, z);
      unsigned char c[q->len];
      rd_code(s, q->m, 1, s->pt[z].cw, c, &cur);
      for (i = 0; i < q->len; i++) cw[i] = c[i];
      for (i = 0; i < q->k; i++) x[i] = s->pt[z].x[i];
      rd_free(s);
      rd_emit(d, p, q, in, cw, x);
      return;
    }
    for (long w = 0; w < (1L << q->k); w++) {
      for (i = 0; i < q->k; i++) x[i] = (w >> i) & 1;
      rc_enc(&t, x, cw);
      rd_emit(d, p, q, in, cw, x);
    }
    return;
  }
  // (m,m): the four most likely words are among the flips of the three least reliable symbols.
  int ord[q->len], hard[q->len];
  for (i = 0; i < q->len; i++) {
    int a = i; hard[i] = !(in[i] > 0);
    while (a > 0 && fabs(in[ord[a - 1]]) > fabs(in[i])) { ord[a] = ord[a - 1]; a--; }
    ord[a] = i;
  }
  // With ties among the least reliable, widen the set of flipped symbols.
  int f = 3;
  while (f < q->len && f < 8 && fabs(rf_llr(fabs(in[ord[f]])) - rf_llr(fabs(in[ord[2]]))) <= d->tol) f++;
  if (f > q->len) f = q->len;
  if (f == 8 && f < q->len && fabs(rf_llr(fabs(in[ord[f]])) - rf_llr(fabs(in[ord[2]]))) <= d->tol) d->overflow = 1;
  int nw = 1 << f, wi[256], k, cnt = 0;
  double wv[256];
  for (j = 0; j < nw; j++) {
    double s = 0;
    for (i = 0; i < f; i++) if ((j >> i) & 1) s -= rf_llr(fabs(in[ord[i]]));
    for (k = cnt; k > 0 && wv[k - 1] < s; k--) { wv[k] = wv[k - 1]; wi[k] = wi[k - 1]; }
    wv[k] = s; wi[k] = j; cnt++;
  }
  char sel[256];
  int want = cnt < 4 ? cnt : 4;
  if (d->L == 1 && d->np == 1) want = 1; // only the best can survive
  rd_select(d, wv, cnt, want, sel);
  for (k = 0; k < cnt; k++) if (sel[k]) {
    for (i = 0; i < q->len; i++) cw[i] = hard[i];
    for (i = 0; i < f; i++) if ((wi[k] >> i) & 1) cw[ord[i]] ^= 1;
    rc_inv_full(q->m, cw, x);
    rd_emit(d, p, q, in, cw, x);
  }
}
static void rd_run(rd_ctx *d, const double *y /* in the format */) {
  int i, j;
  d->chd = 0; d->npt = d->np;
  for (i = 0; i < d->np; i++) {
    d->pt[i].metric = 0; d->pt[i].perm = i;
    for (j = 0; j < d->n; j++) d->yroot[i * d->n + j] = y[d->perm[i][j]];
  }
  int cap = d->L * 4 + 8; if (cap < 4 * d->np) cap = 4 * d->np; if (d->c.kind == K_RM1) cap = RD_CMAX;
  rd_path *ptr[cap]; double v[cap]; char sel[cap];
  for (int a = 0; a < d->nn; a++) {
    d->ncand = 0;
    for (i = 0; i < d->npt; i++) rd_extend(d, &d->pt[i], &d->nd[a]);
    mc.trans += d->ncand;
    for (i = 0; i < d->ncand; i++) ptr[i] = &d->cand[i];
    qsort(ptr, d->ncand, sizeof(ptr[0]), rd_cmp);
    for (i = 0; i < d->ncand; i++) v[i] = ptr[i]->metric;
    int q = d->nd[a].on ? d->L : d->ncand;
    rd_select(d, v, d->ncand, q, sel);
    d->npt = 0;
    uint64_t h = 0;
    for (i = 0; i < d->ncand; i++) if (sel[i]) {
      rd_copy(d, &d->pt[d->npt++], ptr[i]);
      h += mc_hbytes(ptr[i]->perm + 1, ptr[i]->x, d->nd[a].xoff + d->nd[a].k);
    }
    if (d->nd[a].on && !d->quiet) mc_state(mc_h2(mc_h2(d->cfgh, a), h));
  }
}
// Next combination of choices; 0 when exhausted.
static int rd_next(rd_ctx *d) {
  int i = 63;
  while (i >= 0 && d->chn[i] == 0) i--;
  for (; i >= 0; i--) {
    if (d->ch[i] + 1 < d->chn[i]) { d->ch[i]++; for (int j = i + 1; j < 64; j++) d->chn[j] = 0; return 1; }
    d->chn[i] = 0;
  }
  return 0;
}
// Information word of survivor i mapped back through its permutation.
static void rd_word(rd_ctx *d, int i, int *x) {
  int j, id = 1;
  rd_path *p = &d->pt[i];
  for (j = 0; j < d->n; j++) if (d->perm[p->perm][j] != j) id = 0;
  if (id) { for (j = 0; j < d->k; j++) x[j] = p->x[j]; return; }
  unsigned char c[d->n]; int cur = 0, full[d->n], inv[d->n];
  rd_code(d, d->c.m, d->c.r, p->cw, c, &cur);
  for (j = 0; j < d->n; j++) full[d->perm[p->perm][j]] = c[j];
  rc_inv_full(d->c.m, full, inv);
  // information positions of RM(r,m): those of the full transform not frozen, in order
  int o = 0, q;
  for (j = 0; j < d->n; j++) {
    // index j of the transform <-> row; position j carries a product of (number of zero bits of j) variables
    q = d->c.m - __builtin_popcount(j);
    if (q <= d->c.r) x[o++] = inv[j];
  }
}
// Is (x, rc) a possible outcome? crc NULL or polynomial. Returns 1 yes, 0 no, -1 undecided.
static int rd_check(rd_ctx *d, const double *y, const int *x, int rc, const char *crc, int *best, int *best_rc) {
  int cl = crc ? (int)strlen(crc) : 0, ek = d->k - cl, first = 1;
  memset(d->ch, 0, sizeof(d->ch)); memset(d->chn, 0, sizeof(d->chn));
  d->ambiguous = d->overflow = 0; d->nruns = 0;
  do {
    rd_run(d, y);
    d->nruns++;
    int w[d->k + 1], g[64], i, b = -1, valid_any = 0;
    for (i = 0; i < d->npt; i++) { // survivors are in descending order of metric
      if (cl) {
        int xx[d->k];
        for (int j = 0; j < d->k; j++) xx[j] = d->pt[i].x[j];
        rc_crc(xx, ek, crc, g);
        if (memcmp(g, xx + ek, cl * sizeof(int))) continue;
        valid_any = 1;
      }
      b = i; break;
    }
    int erc = (cl && !valid_any) ? 1 : 0;
    if (b < 0) b = 0;
    if (first) { rd_word(d, b, w); memcpy(best, w, ek * sizeof(int)); *best_rc = erc; first = 0; }
    if (rc == erc) for (i = b; i < d->npt && d->pt[b].metric - d->pt[i].metric <= d->tol; i++) {
      if (cl && valid_any) {
        int xx[d->k];
        for (int j = 0; j < d->k; j++) xx[j] = d->pt[i].x[j];
        rc_crc(xx, ek, crc, g);
        if (memcmp(g, xx + ek, cl * sizeof(int))) continue;
      }
      if (i != b) d->ambiguous = 1;
      rd_word(d, i, w);
      if (memcmp(w, x, ek * sizeof(int)) == 0) return 1;
    }
    if (d->nruns >= (d->n <= 16 ? 300 : d->n <= 64 ? 40 : 8)) { d->overflow = 1; break; }
  } while (rd_next(d));
  return d->overflow ? -1 : 0;
}
#endif
