from mkseed import *
import sys, subprocess
from seeds2 import S, sim, SB, SD, E as _E, cdemo, CD
import seeds3
E = _E; OLD = set(E); MD = ('multi.c', 'multi.sh')
def mdemo(codec, *args, pre=''):
    """Checksum of the words decoded by /repo's decoder, which is unchanged."""
    a = ' '.join('"%s"' % x for x in args)
    o = subprocess.run(pre + 'mkdir -p /tmp/mhd && cp /verif/tools/seedlib/multi.* /tmp/mhd && printf \'. /tmp/mhd/multi.sh %s\\n"$T/multi" "$@"\\n\' > /tmp/mhd/x.sh && cd /repo && bash /tmp/mhd/x.sh %s' % (codec, a), shell=True, stdout=subprocess.PIPE, text=True).stdout.split('\n')[-2]
    print(codec, o)
    return pre + '. "$(dirname "$0")/multi.sh" %s\nmk %s %s' % (codec, o, a)
def M(id, prop, edits, needs, breaks, *a, **k):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    S(id, prop, edits, needs, breaks, mdemo(*a, **k), MD)
PM = '0000000100010111000101110111111100010111011111110111111111111111'
PI, GI, GM = 'polar_scl/polar_scl_inner.c', 'dtrm_glp/dtrm_glp_inner.c', 'dtrm_glp/dtrm_glp_main.c'
M('b42_best_index', 'C07', [(PI, "      if (slist[lorder[i]] > slist[lorder[i1]]) {\n        i1 = i;", "      if (slist[lorder[i]] > slist[i1]) {\n        i1 = i;")],
  'a list whose order differs from its cell order', 'another than the most likely survivor is returned', 'polar', 300, 0.8, 'c_m 6 info_bits_mask %s list_size 4' % PM)
M('b43_recycled_perm', 'C06', [(GI, "  plist[i1] = plist[i0];\n", "  if (i1 >= dd_p_num) plist[i1] = plist[i0]; // The first ones have their permutations.\n"), (GI, "int branch(int i0, xlist_item *xle0) {", "static int dd_p_num;\n\nint branch(int i0, xlist_item *xle0) {"), (GI, "  cur_lsiz = frindp = dd->p_num;", "  cur_lsiz = frindp = dd_p_num = dd->p_num;")],
  'permutations, and a list cell of one of the first paths reused for a path of another permutation', 'the word is mapped back through the wrong permutation', 'glp', 300, 1.2, 'RM_m 5 RM_r 2 border_node_mask 1111111111 border_node_lsize 4 permutations { 0 1 2 3 4 1 2 3 4 0 3 0 4 1 2 }')
M('b44_reset_levels', 'C10', [(GI, "  for (i = 0; i < 32; i++) YLIST_RESET(i);", "  for (i = 0; i < c_m - 1; i++) YLIST_RESET(i);")],
  'many decodings by the same instance', 'the top level buffers run over into the next arrays', 'glp', 300, 1.2, 'RM_m 5 RM_r 2 border_node_mask 1111111111 border_node_lsize 4 permutations { 0 1 2 3 4 1 2 3 4 0 3 0 4 1 2 }')
M('b46_masked_v', 'C01', [('common/srm_utils.c', "   kv = smrm_enc_bsc_p(m - 1, r - 1, node_table, x, y);\n   ku = smrm_enc_bsc_p(m - 1, r, node_table, x + kv, y + n2);\n   \n   for (i = 0; i < n2; i++) y[i] ^= y[i + n2];", "   kv = smrm_enc_bsc_p(m - 1, r - 1, node_table, x, y);\n   ku = smrm_enc_bsc_p(m - 1, r, node_table, x + kv, y + n2);\n   \n   if (kv != 0) for (i = 0; i < n2; i++) y[i] ^= y[i + n2];")],
  'a SubRM code all of whose border nodes in the v half of some node are masked', 'the left half stays zero', 'glp', 30, 0.5, 'RM_m 4 RM_r 2 border_node_mask 000111 border_node_lsize 4')
M('b48_log1p_cut', 'C23', [('formats/format_rho1.h', "#define EST0_TO_LNP0(y) RHO1LOGP0(y)", "#define EST0_TO_LNP0(y) ((y) > 2.0 ? 0.0 : RHO1LOGP0(y))")],
  'the exact LLR format and candidates that differ by less than 0.13', 'the metric of more reliable symbols is approximated', 'polar', 3000, 0.8, 'c_m 6 info_bits_mask %s list_size 4' % PM, pre='FMT="-DFORMAT_EPS5_H -include formats/format_rho1.h"\nexport FMT\n')
M('b49_stage_distance', 'C06', [(GM, "         d1 *= dd->sg22 / 2.0;", "         d1 *= dd->sg22;")],
  'a variable list and a distance between half its threshold and the threshold', 'later stages than necessary are used', 'glp', 300, 0.8, 'RM_m 5 RM_r 2 border_node_mask 1111111111 border_node_lsize 16 use_variable_list on distance_threshold { 1 40 4 30 16 0 }')
M('b56_rmm_skip', 'C06', [(GI, "      yp3[j] = YLDEC0;\n    }\n    slist[cur_ind0] += s1;\n  }\n}", "      yp3[j] = YLDEC0;\n    }\n    if (m > 1) slist[cur_ind0] += s1;\n  }\n}")],
  'a masked (1, 1) border node', 'its symbols do not count', 'glp', 300, 0.8, 'RM_m 4 RM_r 2 border_node_mask 110111 border_node_lsize 4')
import os
if os.path.exists('/verif/seeded/b30_mler'):
    L = ('ldr.c', 'mex.h')
    S('b62_no_code_k', 'C22', [('Octave/loadsrf.c', "      || (c_n == 0) || (c_k == 0)) {", "      || (c_n == 0)) {")], 'a results file without code_k', 'the bit error rate is infinite', open('/verif/seeded/b30_mler/demo.sh').read().split('\n', 1)[1].rsplit('printf', 1)[0] + 'printf "code_n 8\\nSNR { 0 }\\ntr_num { 10 }\\nen_bit { 1 }\\nen_bl { 1 }\\nerasures_num { 0 }\\nml_tr_num { 10 }\\nenml_bl { 1 }\\n" > r\n./ldr r > o; grep -q "none" o || bad "$(cat o)"', L)
S('b63_fixed_rate', 'C21', [(SB, "  c_R = sim->fixedR ? sim->fixedR : ((double)c_k / (double)c_n);", "  c_R = ((sim->fixedR > 0.0) && (sim->fixedR < 1.0)) ? sim->fixedR : ((double)c_k / (double)c_n);")],
  'a fixed rate of one or more', 'the code rate is used', sim('printf "res_file r\\nfixed_R 2\\nSNR_val_trn { 0 4 }\\n" > s', './simd s init run > o; grep -q "^sg 0.5$\\|^sg 0.5[^0-9]\\|^sg 0.50*$" o || bad "$(grep sg o)"'), SD)
if __name__ == '__main__':
    for i in E:
        if i in OLD and i not in sys.argv[1:]: continue
        if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
        seed(i, *E[i])
