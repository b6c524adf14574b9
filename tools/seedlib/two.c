#include <stdio.h>
#include <string.h>
int cdc_init(char param_str[], void **cdc); void cdc_set_sg(void *cdc, double sg); int enc_bpsk(void *cdc, int x[], double y[]); int dec_bpsk(void *cdc, double c[], int x[]);
/* the deviation of an instance is the one it was told last, whatever other instances are told */
int main() {
  char p[] = "RM_m\1" "5\1RM_r\1" "2\1", q[sizeof p]; void *a, *b; int i, t, x[16], z[16], bad = 0; double y[32]; unsigned s = 1;
  strcpy(q, p); if (cdc_init(q, &a)) return 2; strcpy(q, p); if (cdc_init(q, &b)) return 2;
  for (t = 0; t < 3000; t++) {
    for (i = 0; i < 32; i++) { s = s * 1103515245u + 12345; y[i] = ((s >> 8) % 20001) / 10000.0 - 1.2; }
    cdc_set_sg(a, 0.3); cdc_set_sg(b, 1.5); cdc_set_sg(a, 1.5); dec_bpsk(a, y, x);
    dec_bpsk(b, y, z); if (memcmp(x, z, sizeof x)) bad++;
  }
  printf("%d differences\n", bad); return bad != 0;
}
