// Reference definition of the codes: recursive (u+v | u), v's information bits first.
#ifndef REFCODE_H
#define REFCODE_H
enum { K_RM, K_POLAR, K_RM1 };   // border nodes: (0,m)&(m,m) | single symbols | (1,m)&(m,m)
typedef struct { int kind, m, r; const char *mask; } rcode; // mask: NULL or '0'/'1' per border node

static int rc_is_border(int kind, int m, int r) {
  if (kind == K_POLAR) return m == 0;
  if (kind == K_RM1) return r == m || r == 1;
  return r == 0 || r == m;
}
static int rc_border_k(int kind, int m, int r) {
  if (kind == K_POLAR || r == 0) return 1;
  if (r == m) return 1 << m;
  return m + 1;
}
static int rc_nodes(int kind, int m, int r) {
  if (rc_is_border(kind, m, r)) return 1;
  return rc_nodes(kind, m - 1, r - 1) + rc_nodes(kind, m - 1, r);
}
static int rc_k_(const rcode *c, int m, int r, int *nd) {
  if (rc_is_border(c->kind, m, r)) {
    int i = (*nd)++;
    if (c->mask && c->mask[i] == '0') return 0;
    return rc_border_k(c->kind, m, r);
  }
  int a = rc_k_(c, m - 1, r - 1, nd);
  return a + rc_k_(c, m - 1, r, nd);
}
static int rc_k(const rcode *c) { int nd = 0; return rc_k_(c, c->m, c->r, &nd); }
static void rc_enc_full(int m, const int *x, int *y) { // RM(m,m)
  if (m == 0) { y[0] = x[0]; return; }
  int h = 1 << (m - 1), i;
  int v[h], u[h];
  rc_enc_full(m - 1, x, v); rc_enc_full(m - 1, x + h, u);
  for (i = 0; i < h; i++) { y[i] = u[i] ^ v[i]; y[i + h] = u[i]; }
}
static void rc_inv_full(int m, const int *y, int *x) {
  if (m == 0) { x[0] = y[0]; return; }
  int h = 1 << (m - 1), i;
  int v[h], u[h];
  for (i = 0; i < h; i++) { u[i] = y[i + h]; v[i] = y[i] ^ y[i + h]; }
  rc_inv_full(m - 1, v, x); rc_inv_full(m - 1, u, x + h);
}
static const int *rc_enc_(const rcode *c, int m, int r, int *nd, const int *x, int *y) {
  int n = 1 << m, i;
  if (rc_is_border(c->kind, m, r) && !(c->kind == K_RM1 && r == 1 && m > 1)) {
    int id = (*nd)++;
    if (c->mask && c->mask[id] == '0') { for (i = 0; i < n; i++) y[i] = 0; return x; }
    if (c->kind == K_POLAR || r == 0) { for (i = 0; i < n; i++) y[i] = x[0]; return x + 1; }
    rc_enc_full(m, x, y);
    return x + n;
  }
  if (c->kind == K_RM1 && r == 1) { // (1,m): (0,m-1) and (1,m-1)
    rcode t = { K_RM, m, 1, NULL }; int z = 0;
    (*nd)++;
    return rc_enc_(&t, m, 1, &z, x, y);
  }
  int h = n / 2;
  int v[h], u[h];
  x = rc_enc_(c, m - 1, r - 1, nd, x, v);
  x = rc_enc_(c, m - 1, r, nd, x, u);
  for (i = 0; i < h; i++) { y[i] = u[i] ^ v[i]; y[i + h] = u[i]; }
  return x;
}
static void rc_enc(const rcode *c, const int *x, int *y) { int nd = 0; rc_enc_(c, c->m, c->r, &nd, x, y); }
// CRC of x[0..n): remainder of the polynomial with coefficients x (highest power first) modulo
// z^l + g[0] z^(l-1) + ... ; out has l bits.
static void rc_crc(const int *x, int n, const char *g, int *out) {
  int l = (int)strlen(g), i, j;
  // Horner: s <- (s * z + x[i]) mod g, state of l coefficients.
  int s[300] = {0};
  for (i = 0; i < n; i++) {
    int top = l ? s[0] : 0;
    for (j = 0; j + 1 < l; j++) s[j] = s[j + 1];
    if (l) s[l - 1] = x[i];
    if (top) for (j = 0; j < l; j++) s[j] ^= g[j] - '0';
  }
  for (j = 0; j < l; j++) out[j] = s[j];
}
#endif
