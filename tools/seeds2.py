from mkseed import *
import sys
E = {}
SD = ('simd.c', 'sim.sh')
def S(id, prop, edits, needs, breaks, demo='exit 0', files=CD): E[id] = (prop, edits, needs, breaks, demo, files)
def sim(*lines): return '. "$(dirname "$0")/sim.sh"\n' + '\n'.join(lines)
SB = 'simulators/sim_bg.c'
S('b12_list_byte', 'C02', [('polar_scl/ca_polar_scl_main.c', "      dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : dd->dc.peak_lsiz;", "      dd->dc.node_table[i] = (dd->dc.node_table[i] == 0) ? 0 : (uint8)dd->dc.peak_lsiz;")],
  'a list size that is a multiple of 256', 'every position is encoded and decoded as frozen',
  cdemo('polar', 'ck "4 2 1111" enc "c_m 2 info_bits_mask 0101 list_size 1" 01', 'ck "4 2 1100" enc "c_m 2 info_bits_mask 0101 list_size 256" 10'))
S('b13_shared_sg', 'C10', [('dtrm/dtrm0.c', "   dd = (cdc_inst_type *)cdc;\n   dd->sg22 = 2.0 / (noise_sg * noise_sg);", "   static double last_sg = 0.0, last_sg22;\n\n   dd = (cdc_inst_type *)cdc;\n   if (noise_sg == last_sg && dd->sg22 != 0.0) return; // Nothing changed.\n   last_sg = noise_sg;\n   last_sg22 = 2.0 / (noise_sg * noise_sg);\n   dd->sg22 = last_sg22;")],
  'two live instances that are set to different deviations in turn, the first one being set to the last deviation of the other', 'the instance keeps its old deviation',
  '''D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -w -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -I. "$D/two.c" dtrm/dtrm0.c common/srm_utils.c common/spf_par.c common/ui_txt.c -o "$T/t" -lm || exit 2
"$T/t"''', ['two.c'])
S('b14_membuf_xtmp2', 'C11', [('dtrm_glp/dtrm_glp_main.c', "   mem_buf_size += dd->c_n * sizeof(xlitem); // xtmp2.\n", "")],
  'an (m,m) node of at least four symbols; visible as a write behind the decoder buffer', 'heap overflow in the list decoder',
  'export ASAN_OPTIONS=detect_leaks=0\nSAN=-fsanitize=address\n' + cdemo('glp', 'ck "0 1011010" clean "RM_m 3 RM_r 2 border_node_mask 111 border_node_lsize 1" 0.5 1011010').replace('1011010" clean', 'same" clean'))
S('b15_comment_lf', 'C12', [('common/spf_par.c', "         if (sstr[i] == LF_CHAR) {\n            dstr[dstr_len++] = sstr[i];\n            i2 = 0;", "         if (sstr[i] == LF_CHAR) {\n            i2 = 0;")],
  'a comment that starts right after a value, the next parameter starting in the first column of the next line', 'the value and the next key are joined',
  cdemo('dtrm0', 'true') + '''
cat > "$T/p.c" <<'X'
#include <stdio.h>
#include <string.h>
#include "common/spf_par.h"
int main(int argc, char **argv) { char *s = NULL, *p; int rc = spf_read_preparse(argv[1], &s); printf("%d ", rc); if (!rc) for (p = s; *p; p++) putchar(*p == 1 ? '|' : *p); puts(""); return 0; }
X
gcc -w -I. "$T/p.c" common/spf_par.c common/ui_txt.c -o "$T/p" || exit 2
printf 'RM_m 4%% rows\\nRM_r 2%% order\\n' > "$T/a"
[ "$("$T/p" "$T/a")" = "0 RM_m|4|RM_r|2|" ] || { "$T/p" "$T/a"; exit 1; }''')
S('b16_crlf', 'C12', [('common/spf_par.c', r'char token_seps[] = " ,\t\n\r";', r'char token_seps[] = " ,\t\n";')],
  'a parameter file with CR LF line ends whose last value on a line is a word (on, a file name, a mask, a bracket)', 'the CR becomes part of the token',
  E['b15_comment_lf'][4].replace("RM_m 4%% rows\\nRM_r 2%% order\\n", "ml_lb on\\r\\nRM_r 2\\r\\n").replace('RM_m|4|RM_r|2|', 'ml_lb|on|RM_r|2|'))
S('b17_include_total', 'C13', [('common/spf_par.c', "         if (i1 + str2_len >= SP_STR_MAX) {", "         if (i1 >= SP_STR_MAX - 1) {")],
  'a file that includes itself, or large included files', 'the buffer overflows instead of the file being refused',
  'SAN=-fsanitize=address\n' + E['b15_comment_lf'][4].replace('gcc -w', 'gcc -w -fsanitize=address').replace("printf 'RM_m 4%% rows\\nRM_r 2%% order\\n' > \"$T/a\"", '{ echo "include $T/a"; yes "key value" | head -3000; } > "$T/a"').replace('"0 RM_m|4|RM_r|2|"', '"Error: spf_read_preparse(): file is too huge.-1 "').replace('$("$T/p" "$T/a")', '$("$T/p" "$T/a" 2>&1 | tr -d "\\n")'))
S('b18_ml_tie', 'C14', [(SB, "        if (d1 > d2) sim->pt[csnrn].enml_bl++;", "        if (en && d1 >= d2) sim->pt[csnrn].enml_bl++;")],
  'a tie of the two distances, as with ml_lb_hard', 'ties are counted as ML errors',
  sim('printf "res_file r\\nSNR_val_trn { 0 3000 }\\nml_lb on\\nml_lb_hard on\\nrandom_codeword on\\n" > s', 'OUT=w ./simd s init run ml save > o; cat o', 'set -- $(grep expected o); [ "$3" -gt 0 ] || bad "no ML errors"', 'g=$(sed -n "s/^enml_bl { \\([0-9]*\\) }/\\1/p" r); [ "$g" = "$3" ] || bad "ML errors $g, expected $3"'), SD)
S('b19_ml_after_erasure', 'C14', [(SB, "      if (sim->do_ml && rc != RC_DEC_ERASURE) {\n        sim->pt[csnrn].trn_ml++;", "      if (sim->do_ml && (rc != RC_DEC_ERASURE || !en)) {\n        sim->pt[csnrn].trn_ml++;")],
  'an erasure whose candidate happens to be the transmitted word, with ml_lb on', 'an erased trial is counted as an ML trial',
  sim('printf "res_file r\\nSNR_val_trn { 0 30 }\\nml_lb on\\nrandom_codeword on\\n" > s', 'OUT=obeE ./simd s init run ml save > o', 'grep -q "^ml_tr_num { 16 }" r || bad "$(cat r)"'), SD)
S('b20_estimate', 'C15', [(SB, "      estimate = sim->pt[csnrn].trn * 1.5;", "      estimate = sim->trn_req[csnrn] * 1.5;")],
  'no block error for more than half of the requested trials, the first ones in a narrow window afterwards', 'the requested number grows beyond one and a half times the trials needed',
  sim('printf "res_file r\\nmin_errors_per_snr 1\\nSNR_val_trn { 0 1000 }\\n" > s', 'OUT=$(printf "%0510d" 0 | tr 0 o)b$(printf "%05000d" 0 | tr 0 o) ./simd s init run save > o', 't=$(sed -n "s/^tr_num { \\([0-9]*\\) }/\\1/p" r); [ "$t" -le 1000 ] || bad "$t trials"'), SD)
S('b21_estimate_reached', 'C15', [(SB, "  if (sim->pt[csnrn].en_bl < sim->min_en_bl) {\n    double estimate;", "  if (sim->pt[csnrn].en_bl <= sim->min_en_bl) {\n    double estimate;")],
  'the last required block error falls early and no further one follows', 'the point is prolonged although the minimum has been reached',
  sim('printf "res_file r\\nmin_errors_per_snr 2\\nSNR_val_trn { 0 100 }\\n" > s', 'OUT=bb$(printf "%05000d" 0 | tr 0 o) ./simd s init run save > o', 'grep -q "^tr_num { 100 }" r || bad "$(grep tr_num r)"'), SD)
S('b22_sub_er', 'C16', [(SB, "  dst->er_n = src1->er_n - src2->er_n;", "  dst->er_n = src1->er_n;")],
  'two saves of one session, erasures before the first one, trials in between', 'erasures are saved twice',
  sim('printf "res_file r\\nSNR_val_trn { 0 8 }\\n" > s', 'OUT=oebE TSTEP=1 ./simd s init2 step save step save run save > o', 'grep -q "^erasures_num { 4 }" r || bad "$(cat r)"'), SD)
S('b23_no_erasures', 'C16', [(SB, "(en_bl_n != trn_n) || (er_n_n != trn_n)\n", "(en_bl_n != trn_n) || (er_n_n > trn_n)\n")],
  'an old results file whose erasures row is missing or shorter', 'an invalid file is accepted and rows are made up',
  sim('printf "res_file r\\nSNR_val_trn { 0 8 }\\n" > s', 'printf "code_n 8 code_k 4 SNR { 0 1 } tr_num { 8 8 } en_bit { 1 1 } en_bl { 1 1 } erasures_num { 1 } ml_tr_num { 0 0 } enml_bl { 0 0 }\\n" > r; cp r r0', './simd s init run save > o', 'cmp -s r r0 && grep -q "save -1" o || bad "$(cat r o)"'), SD)
S('b24_early_flush', 'C17', [(SB, "  fprintf(fp, \"\\n\");\n  fprintf(fp, \"%% SNR   BER", "  if ((fprintf(fp, \"\\n\") < 0) || fflush(fp)) {\n    err_msg(\"sim_bg saving error: cannot write results.\");\n    fclose(fp);\n    return RC_ERROR;\n  }\n  fprintf(fp, \"%% SNR   BER")],
  'a write of the results fails', 'the busy flag stays behind',
  sim('printf "res_file r\\nSNR_val_trn { 0 8 }\\n" > s', './simd s init run save > o; cp r r0', 'cat > f.c <<X', '#include <stdio.h>\nint __wrap_fflush(FILE *f) { static int c; return -1; }', 'X', 'cat > w.c <<X', '#define _GNU_SOURCE\n#include <stdio.h>\n#include <string.h>\n#include <errno.h>\nFILE *__real_fopen(const char *, const char *);\nstatic ssize_t wr(void *c, const char *b, size_t n) { errno = ENOSPC; return -1; }\nFILE *__wrap_fopen(const char *f, const char *m) { if (!strcmp(f, "r.bsy") && !strcmp(m, "wt")) { cookie_io_functions_t io = {0, wr, 0, 0}; return fopencookie(0, "w", io); } return __real_fopen(f, m); }', 'X', 'gcc -w -c w.c', 'gcc -w -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -I"$R" "$D/simd.c" w.o "$R/simulators/sim_bg.c" "$R/common/spf_par.c" -o simf -lm -Wl,--wrap=time,--wrap=clock,--wrap=fopen || exit 2', './simf s init run save > o; cmp -s r r0 || bad "old results changed"', 'grep -q "save -1" o && [ ! -e r.bsy ] || bad "$(ls; cat o)"'), SD)
S('b25_steal_lock', 'C18', [(SB, "      err_msg(\"sim_bg saving error: output file is busy too long.\");\n", "      err_msg(\"sim_bg saving error: output file is busy too long.\");\n      remove(bsyfn); // Do not block forever.\n"), (SB, "    if (n++ > 30) {", "    if (++n > 30) {")],
  'one process gives up waiting while another one still saves, and a third save starts', 'the busy flag of another process is removed: two processes save at a time',
  sim('printf "res_file r\\nSNR_val_trn { 0 8 }\\n" > s', 'echo Busy > r.bsy', './simd s init run save > o', '[ -f r.bsy ] && grep -q "save -1" o || bad "$(cat o)"'), SD)
S('b26_early_remove', 'C19', [(SB, "    // Check validity of the data.\n    if ((snr_num != trn_n)", "    // Check validity of the data. Nobody needs the old file any more if it is valid.\n    if ((snr_num == trn_n) && (enml_bl_n == trn_n)) remove(sim->rf_name);\n    if ((snr_num != trn_n)")],
  'the process is killed between reading the old results and the end of the save', 'the previous results are lost',
  sim('printf "res_file r\\nSNR_val_trn { 0 8 }\\n" > s', './simd s init run save > o; cp r r0', 'cat > f.c <<X', '#include <stdio.h>\n#include <string.h>\n#include <stdlib.h>\n#include <unistd.h>\nFILE *__real_fopen(const char *, const char *);\nFILE *__wrap_fopen(const char *f, const char *m) { if (!strcmp(f, "r.bsy") && !strcmp(m, "wt")) _exit(9); return __real_fopen(f, m); }', 'X', 'gcc -w -c f.c', 'gcc -w -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -I"$R" "$D/simd.c" f.o "$R/simulators/sim_bg.c" "$R/common/spf_par.c" -o simf -lm -Wl,--wrap=time,--wrap=clock,--wrap=fopen || exit 2', './simf s init run save > o; cmp -s r r0 || bad "results lost"'), SD)
S('b27_update_after_return', 'C20', [(SB, "      update_trn_req(sim, csnrn);\n\n      // Check elapsed time.", "      // Check elapsed time."), (SB, "        return RC_SIMUL_NOT_COMPLETED;\n      }\n    }", "        return RC_SIMUL_NOT_COMPLETED;\n      }\n\n      update_trn_req(sim, csnrn);\n    }")],
  'a status update right at a trial after which the number of trials would have been estimated', 'the number of trials depends on the clock',
  sim('printf "res_file r\\nmin_errors_per_snr 3\\nSNR_val_trn { 0 4 1 9 2 30 }\\n" > s', 'for ri in 0 1 2 3; do rm -f r; OUT=oooooobooo TSTEP=1 ./simd s init$ri run save > o; md5sum < r; done | sort -u | wc -l > c', '[ "$(cat c)" = 1 ] || bad "results depend on the clock"'), SD)
S('b28_sigma_once', 'C21', [(SB, "  // Main simulation loop.\n  while (csnrn < sim->snr_num) {\n\n    noise_sg", "#ifdef DEC_NEEDS_SIGMA\n  // Set sg in the codec.\n  cdc_set_sg(sim->dc_inst, 1 / sqrt(2 * c_R * db2val(sim->snr_db[csnrn])));\n#endif // DEC_NEEDS_SIGMA\n\n  // Main simulation loop.\n  while (csnrn < sim->snr_num) {\n\n    noise_sg"), (SB, "#ifdef DEC_NEEDS_SIGMA\n    // Set sg in the codec.\n    cdc_set_sg(sim->dc_inst, noise_sg);\n#endif // DEC_NEEDS_SIGMA\n\n    while", "    while")],
  'several SNR values, one completed without a status update in between', 'the decoder works with the deviation of an earlier point',
  sim('printf "res_file r\\nSNR_val_trn { 0 4 1 4 2 4 }\\n" > s', './simd s init run > o; [ "$(grep -c ^sg o)" -ge 3 ] && grep -q "^sg 0.794328" o || bad "$(cat o)"'), SD)
S('b29_noise_pair', 'C21', [(SB, "    yd[i] = ys[i] + v2 * r * sg;", "    yd[i] = ys[i] + (v2 < 0.0 ? -1.0 : 1.0) * sqrt(1.0 - v1 * v1 > 0.0 ? v2 * v2 : 0.0) * r * sg;\n    if (csn_pair++ % 64 == 63) yd[i] = ys[i] + v1 * r * sg;"), (SB, "  double v1, v2, r;\n", "  double v1, v2, r;\n  static int csn_pair = 0;\n")],
  'one noise pair in 64', 'one of 64 noise pairs is completely correlated', 'exit 0', ())
S('b30_mler', 'C22', [('Octave/loadsrf.c', "    d[n] = (ml_trn[n] > 0) ? (double)(enml_bl[n]) / ml_trn[n] : 0.0;", "    d[n] = (trn[n] > 0) ? (double)(enml_bl[n]) / ml_trn[n] : 0.0;")],
  'a point of a results file simulated without ML bound', 'the ML rate is not a number', 'exit 0', ())
S('b31_erasure_rows', 'C22', [('Octave/loadsrf.c', "    d[n] = (trn[n] > 0 && er_n_n > 0) ? (double)(er_n[n]) / trn[n] : 0.0;", "    d[n] = (trn[n] > 0 && er_n_n > 0) ? (double)(er_n[n]) / (ml_trn[n] > 0 ? ml_trn[n] + er_n[n] : trn[n]) : 0.0;")],
  'a point that was simulated partly with and partly without ML bound', 'the erasure rate is related to the trials with ML bound', 'exit 0', ())
S('b32_small_files', 'C24', [('common/spf_par.h', "#define SP_STR_MAX         140000 // Max length of params file (with includes).", "#define SP_STR_MAX         1600 // Max length of params file (with includes).")],
  'a shipped simulation file that includes a large set of permutations', 'the file is refused', 'exit 0', ())
S('b33_save_clock', 'C25', [('simulators/main_txt.c', "         sim_save_res(sim_inst);\n         time(&start_time);\n", "         sim_save_res(sim_inst);\n         start_time += save_int;\n")],
  'status updates that come later than twice the saving interval', 'a second save follows too early', 'exit 0', ())
S('b34_save_at', 'C25', [('simulators/main_txt.c', "      if (time(NULL) - start_time > save_int) {", "      if (time(NULL) - start_time >= save_int) {")],
  'a status update exactly one saving interval after the last save', 'results are saved too early', 'exit 0', ())
def X(id, demo, files):
    e = list(E[id]); e[4] = demo; e[5] = files; E[id] = tuple(e)
def ldr(*l): return '''D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -r "$T"' EXIT
gcc -w -I"$D" -I. "$D/ldr.c" Octave/loadsrf.c common/spf_par.c -o "$T/ldr" -lm || exit 2
cd "$T"
bad() { echo "$*"; exit 1; }
''' + '\n'.join(l)
LF = ('ldr.c', 'mex.h')
X('b30_mler', ldr('printf "code_n 8\\ncode_k 4\\nSNR { 0 1 }\\ntr_num { 10 10 }\\nen_bit { 1 1 }\\nen_bl { 1 1 }\\nerasures_num { 0 0 }\\nml_tr_num { 10 0 }\\nenml_bl { 1 0 }\\n" > r', './ldr r > o; grep -q "^MLER 0.1 0$" o || bad "$(cat o)"'), LF)
X('b31_erasure_rows', ldr('printf "code_n 8\\ncode_k 4\\nSNR { 0 1 }\\ntr_num { 10 20 }\\nen_bit { 1 1 }\\nen_bl { 1 1 }\\nerasures_num { 2 4 }\\nml_tr_num { 8 8 }\\nenml_bl { 1 0 }\\n" > r', './ldr r > o; grep -q "^ERR 0.2 0.2$" o || bad "$(cat o)"'), LF)
def prog(*l): return '. "$(dirname "$0")/prog.sh"\n' + '\n'.join(l)
PF = ('prog.c', 'prog.sh')
X('b33_save_clock', prog('printf "res_file r\\nRM_m 4\\nRM_r 1\\nEbNo_values { 0 }\\nmin_trials_per_snr 60\\n" > s', 'TSTEP=1 TJUMP=40:60 ./prog s -nr -si 10 -ri 0 | grep -o "SAVE [0-9]*" | cut -d" " -f2 | sed \'$d\' > o', 'p=-100; for t in $(cat o); do [ $((t - p)) -gt 9 ] || bad "saved at $p and at $t"; p=$t; done'), PF)
X('b34_save_at', prog('printf "res_file r\\nRM_m 4\\nRM_r 1\\nEbNo_values { 0 }\\nmin_trials_per_snr 60\\n" > s', 'TSTEP=1 ./prog s -nr -si 9 -ri 0 | grep -o "SAVE [0-9]*" | cut -d" " -f2 > o', 'set -- $(cat o)', '[ "$1" -gt 12 ] || bad "saved at $1"; [ "$1" -lt 20 ] || bad late'), PF)
X('b32_small_files', prog('for i in dtrm0 dtrm1 dtrm_glp ca_polar_scl; do :; done', '''gcc -w -O1 -DUSE_STDLIB_RND -DDEC_NEEDS_SIGMA -DDEC_NEEDS_CSNRN -I"$R" "$D/clk.c" "$R"/simulators/*.c "$R/common/spf_par.c" "$R/common/ui_txt.c" "$R/common/srm_utils.c" "$R"/dtrm_glp/*.c -o "$T/glp" -lm -Wl,--wrap=sim_run || exit 2
cp -a "$R/work" . && cd work || exit 2
for f in bg_rm*glp*.spf; do timeout 60 "$T/glp" "$f" -nr > "$T/o" 2>&1 || bad "$f: $(head -3 "$T/o")"; done'''), PF + ('clk.c',))
X('b29_noise_pair', sim('printf "res_file r\\nSNR_val_trn { 0 100000 }\\n" > s', './simd s show init run | awk "NF==8{for(i=1;i<8;i+=2){d=\\$i-\\$(i+1); if(d<1e-9&&d>-1e-9)c++}} END{exit c>2000}" || bad "equal pairs"'), SD)
if __name__ == '__main__':
    for i in E:
        if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
        seed(i, *E[i])
