#include <string.h>
#include "common/crc.h"
#include <stdio.h>
int main(void) {
  int poly[11] = { 0, 1, 1, 0, 1, 0, 0, 1, 0, 1, 1 }, buf[64], x[32], i, j, v, bad = 0;
  for (i = 0; i < 1 << 12; i++) {
    for (j = 0; j < 12; j++) x[j] = (i >> j) & 1;
    int *c = calc_crc(x, 12, poly, 11, buf); memcpy(x + 12, c, 11 * sizeof(int));
    if (!is_valid_crc(x, 12, poly, 11, buf)) bad++;
    for (v = 0; v < 11; v++) { x[12 + v] ^= 1; if (is_valid_crc(x, 12, poly, 11, buf)) bad++; x[12 + v] ^= 1; }
  }
  printf("%d wrong answers\n", bad);
  return bad != 0;
}
