from mkseed import *
import sys
E = {}
def S(id, prop, edits, needs, breaks, demo='exit 0', files=CD): E[id] = (prop, edits, needs, breaks, demo, files)
S('b01_masked_mm_consumes', 'C01', [('common/srm_utils.c', """         for (i = 0; i < n; i++) y[i] = 0;
         return 0;
      }
      else return mrm_enc_mm_bsc(m, x, y);""", """         for (i = 0; i < n; i++) y[i] = 0;
         return m > 1;
      }
      else return mrm_enc_mm_bsc(m, x, y);""")],
  'a SubRM code in which an (m,m) border node of at least 4 symbols is masked and a later node is not', 'information bits after the masked node are shifted')
S('b02_crc_byte', 'C03', [('common/crc.c', '  int s = 0, j;\n', '  unsigned char s = 0;\n  int j;\n'), ('common/crc.c', 's += x[info_len + j] ^ crc[j];', 's |= (x[info_len + j] ^ crc[j]) << j;')],
  'a CRC of more than 8 bits with errors in the check bits beyond the eighth only', 'validation ignores the check bits beyond the eighth',
  '''D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -w -I. "$D/crc_t.c" common/crc.c -o "$T/t" || exit 2
"$T/t"''', ['crc_t.c'])
S('b03_llr_sum', 'C04', [('dtrm/dtrm0.c', 'p1 += EST2LLR(y_in[i]);', 'p1 += 2.0 * y_in[i];')],
  'a (0,m) node with a few strong symbols against many weak ones', 'repetition nodes are decided by the sum of epsilons instead of LLRs')
S('b04_mm_third', 'C06', [('dtrm_glp/dtrm_glp_inner.c', """        y1 = INV_EST(y1);
        if (STRONGER_EST0(ym, y1)) {
          ym3 = ym2; i3 = i2;""", """        y1 = INV_EST(y1);
        if (STRONGER_EST0(ym, y1)) {""")],
  'an (m,m) node whose third least reliable symbol votes for 1 and was pushed down by a later one, list size 4 or more', 'one of the four most likely words of the node is a wrong one')
S('b05_perm_inverse', 'C06', [('dtrm_glp/dtrm_glp_main.c', "         for (j = 0; j < c_m; j++) i1 |= ((i >> j) & 1) << p1[j];\n         py[i] = i1;", "         for (j = 0; j < c_m; j++) i1 |= ((i >> p1[j]) & 1) << j;\n         py[i] = i1;")],
  'a permutation that is not its own inverse', 'the symbols are permuted by the inverse of the permutation used for the information bits')
S('b06_lst_comp', 'C07', [('polar_scl/polar_scl_inner.c', "   if (slist[*(int *)i] < slist[*(int *)j]) return 1;\n   return -1;", "   return (int)(slist[*(int *)j] - slist[*(int *)i]);")],
  'CA-polar: two CRC-valid survivors, or an erasure, with metrics differing by less than one', 'the candidate order ignores metric differences below one')
S('b07_skip_metric', 'C08', [('polar_scl/polar_scl_inner.c', "    slist[cur_ind0] += EST_TO_LNP0(yp[0]);\n    yp = YLISTP(cur_ind0, 0) = YLIST_POP(0);", "    if (!CHECK_EST0(yp[0])) slist[cur_ind0] += EST_TO_LNP0(yp[0]);\n    yp = YLISTP(cur_ind0, 0) = YLIST_POP(0);")],
  'a frozen position between unfrozen ones and close candidates', 'frozen bits that agree with the paths no longer contribute to the metric')
S('b08_clip_one_side', 'C09', [('formats/format_eps5.h', "   if ((e) < -CLIP_T) (e) = -CLIP_T; \\\n", "")],
  'a high signal-to-noise ratio, where an epsilon reaches -1', 'not-a-number reliabilities at high SNR')
S('b09_rm1_word', 'C05', [('rm1_ml/rm1_ml.c', """      if (s1 > s2) { s2 = s1; j = (i << 1) + 1; }
      ADD_OPS(2, 1);
   }

   // if (j != 0) printf""", """      if (i > 0 && s1 > s2) { s2 = s1; j = (i << 1) + 1; }
      ADD_OPS(2, 1);
   }

   // if (j != 0) printf""", 0)],
  'a first-order node whose best word is the all-one word', 'the all-one word of a first-order node is never chosen')
S('b10_xor_minsum', 'C23', [('formats/format_rho5.h', "#define XOR_EST(y1, y2) ((ABSF(y1) < ABSF(y2)) ?", "#define XOR_EST(y1, y2) ((ABSF(y1) < (y2)) ?")],
  'the min-sum format and a second symbol that votes for 1 more strongly than the first one', 'the larger magnitude is taken')
S('b11_crc_single_path', 'C07', [('polar_scl/ca_polar_scl_main.c', "      if (best_ind < 0) {\n        is_erasure = 1;", "      if (best_ind < 0) {\n        is_erasure = dd->dc.peak_lsiz > 1;")],
  'CA-polar with list size 1 and an undetectable-looking failure', 'with list size 1 a failed CRC check is reported as success')
def D(id, codec, *lines):
    e = list(E[id]); e[4] = cdemo(codec, *lines); E[id] = tuple(e)
D('b01_masked_mm_consumes', 'glp', 'ck "16 11 0110001001010010" enc "RM_m 4 RM_r 3 border_node_mask 1101 border_node_lsize 1" 10110011010')
D('b03_llr_sum', 'dtrm0', 'ck "0 111111" dec "RM_m 5 RM_r 1" 1 0.6371857678 -0.8470662134 0.9189223293 0.8970984311 1.151016791 0.6531123575 -0.8480552449 1.144278768 1.959008638 -3.719354284 -0.7164071836 1.675106856 -1.876419091 0.2183674045 2.007890265 -1.15727067 0.7154152161 0.2618837974 -1.471327806 0.3466055064 -1.400589663 1.010230624 0.7336862584 1.267850117 1.148116705 1.908256583 -1.193662837 -0.3298982391 0.1627916217 0.8085996817 -0.8710298293 1.433607178')
D('b04_mm_third', 'glp', 'ck "0 0111110111111111111111" dec "RM_m 5 RM_r 4 border_node_mask 01101 border_node_lsize 16" 0.6 -0.5979389435 0.497674973 0.08515980901 -0.9226178976 -0.7398356932 -0.01768853931 -2.108239728 0.9513533976 0.1382590586 -0.9093899253 -0.008132585473 -0.908833147 -0.9134327393 -0.4245948174 -2.63161257 1.17015569 -0.5949358865 -1.525851455 -1.468979557 -0.3952658409 -1.094362402 -1.17075087 -0.2428697216 -1.282796683 -1.392036696 -1.240353798 -0.9938616257 -1.159788245 0.36071007 0.2888700228 -0.45504605 -0.3161977024')
D('b05_perm_inverse', 'glp', 'ck "0 1010111" dec "RM_m 3 RM_r 2 border_node_mask 111 border_node_lsize 3 permutations { 0 2 1 0 1 2 1 2 0 }" 0.7 1.171437448 -1.181070669 0.9619123862 -1.123157423 0.8937184301 -1.034376432 -0.9518622258 -0.8598908621', 'ck "0 same" clean "RM_m 3 RM_r 2 border_node_mask 111 border_node_lsize 1 permutations { 1 2 0 }" 0.5 1011010')
D('b06_lst_comp', 'polar', 'ck "0 0" dec "c_m 2 info_bits_mask 1100 ca_polar_crc 1 list_size 2" 1 -1.074415119 -0.03171674899 -0.7315114307 1.229794291')
D('b07_skip_metric', 'polar', 'ck "0 001" dec "c_m 3 info_bits_mask 11111000 list_size 32 ca_polar_crc 11" 0.980842 -1.1714374 -1.1810707 0.96191239 -1.1231574 -0.89371843 1.0343764 -0.95186223 -0.85989086')
D('b08_clip_one_side', 'dtrm0', 'ck "0 0000000000000000" dec "RM_m 5 RM_r 2" 0.1 1 $(yes -- -1 | head -31)')
D('b09_rm1_word', 'dtrm1', 'ck "0 001" dec "RM_m 2 RM_r 1" 0.3 1.387447606 -0.6719825229 1.201385223 0.7498077802')
E['b10_xor_minsum'] = E['b10_xor_minsum'][:4] + ('FMT="-DFORMAT_EPS5_H -include formats/format_rho5.h"\n' + cdemo('dtrm0', 'ck "0 11000001100" dec "RM_m 4 RM_r 2" 1 -1.074415119 -0.03171674899 0.7315114307 1.229794291 -0.05706298423 -1.116195003 -0.779642777 -0.01145176032 -0.9958655529 -0.7418912947 -0.1045588053 -1.14875706 -1.263040442 -0.0525953287 -0.9200994847 -0.9484325398'), CD)
D('b11_crc_single_path', 'polar', 'ck "1 1" dec "c_m 2 info_bits_mask 1100 ca_polar_crc 1 list_size 1" 0.7 1.171437448 -1.181070669 -0.9619123862 -1.123157423')
if __name__ == '__main__':
    for i in E:
        if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
        if i.startswith('b12'): continue
        seed(i, *E[i])
