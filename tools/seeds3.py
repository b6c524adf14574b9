from mkseed import *
import sys
from seeds2 import S, sim, SB, SD, E as _E, cdemo, CD
E = _E; 
OLD = set(E)
PF = 'printf "res_file r\\nSNR_val_trn { 0 %s }\\nmin_errors_per_snr 1\\n" > s'
S('b35_less_floor', 'C27', [(SB, "      if (sim->trn_req[csnrn] < sim->pt[csnrn].trn) sim->trn_req[csnrn] = sim->pt[csnrn].trn;", "      if (sim->trn_req[csnrn] < sim->min_trn) sim->trn_req[csnrn] = sim->pt[csnrn].trn;")],
  'requests for fewer trials when most of them are simulated already', 'the requirement falls below the trials simulated',
  sim(PF % 9, 'OUT=b TSTEP=1 ./simd s init3 step step state less less state > o', 'grep -q "trn: 8 / 8," o || bad "$(cat o)"'), SD)
S('b36_less_rounding', 'C27', [(SB, "      sim->trn_req[csnrn] -= sim->trn_req[csnrn] / 3;", "      sim->trn_req[csnrn] = 2 * (sim->trn_req[csnrn] / 3);")],
  'a number of trials that is not a multiple of three', 'the requirement falls by more than a third',
  sim(PF % 11, 'OUT=b TSTEP=1 ./simd s init1 step less state run save > o', 'grep -q "^tr_num { 8 }" r || bad "$(cat o r)"'), SD)
S('b37_next_least', 'C27', [(SB, "      sim->trn_req[csnrn] = sim->pt[csnrn].trn;\n  }", "      sim->trn_req[csnrn] = MAX(sim->pt[csnrn].trn, MIN(sim->min_trn, sim->trn_req[csnrn]));\n  }")],
  'the next point requested before min_trials_per_snr trials', 'the point goes on',
  sim('printf "res_file r\\nEbNo_values { 0 1 }\\nmin_trials_per_snr 12\\nmin_errors_per_snr 1\\n" > s', 'OUT=b TSTEP=1 ./simd s init2 step next run save > o', 'grep -q "^tr_num { 3 12 }" r || bad "$(cat o r)"'), SD)
S('b38_rm1_silent', 'C26', [('dtrm/dtrm1.c', '      if (rm1_dec_sh_finp(m, y_in, x_dec)) return 1;', '      rm1_dec_sh_finp(m, y_in, x_dec);')],
  'memory runs out inside a first-order node', 'an undefined word is returned as decoded',
  cdemo('dtrm1', 'export FAIL=2', 'ck "-1" dec "RM_m 3 RM_r 1" 1 -1 -1 -1 -1 1 1 1 1'))
S('b39_glp_leak', 'C26', [('dtrm_glp/dtrm_glp_main.c', "      if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);\n      if (dd->dc.pyarr != NULL) free(dd->dc.pyarr);\n      if (dd->dc.node_table != NULL) free(dd->dc.node_table);\n      free(dd);", "      if (dd->dc.pxarr != NULL) free(dd->dc.pxarr);\n      if (dd->dc.node_table != NULL) free(dd->dc.node_table);\n      free(dd);")],
  'an initialisation that fails after the permutation tables are allocated', 'a table is lost for good',
  cdemo('glp', 'for f in 1 2 3 4 5 6 7 8 9 10 11 12; do export FAIL=$f; g=$("$T/drv" init "RM_m 4 RM_r 2 border_node_mask 111111 border_node_lsize 4" | tail -1); case "$g" in *" 0") ;; *) echo "allocation $f: $g"; exit 1;; esac; done'))
S('b40_run_buffers', 'C26', [(SB, "  if ((x == NULL) || (x_dec == NULL) || (c_in == NULL) || (c_out == NULL)) {", "  if ((x == NULL) || (c_in == NULL) || (c_out == NULL)) {")],
  'the second allocation of a simulation step fails', 'the simulator crashes',
  sim(PF % 11, 'OUT=b TSTEP=1 ./simd s init1 fail2 step > o; [ $? -lt 100 ] && grep -q "run -1" o || bad "$(cat o)"'), SD)
S('b41_preparse_leak', 'C26', [('common/spf_par.c', "      err_msg(\"spf_read_preparse(): short of memory!\");\n      free(str1);\n      return RC_ERROR;", "      err_msg(\"spf_read_preparse(): short of memory!\");\n      return RC_ERROR;")],
  'the second allocation of the parser fails', 'the file buffer is lost',
  sim(PF % 11, './simd s live fail2 init live > o; set -- $(grep live o); [ "$2" = "$4" ] || bad "$(cat o)"'), SD)
if __name__ == '__main__':
    for i in E:
        if i in OLD and i not in sys.argv[1:]: continue
        if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
        seed(i, *E[i])
