#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "RM and SubRM encoders produce exactly the documented code",
  "For every accepted RM(r,m) or masked SubRM configuration the codec reports length 2^m and the dimension of the code, and encodes every information word to the codeword of the recursive (u+v | u) construction, with every masked-out border node contributing zeros and consuming no information bits. The channel word is exactly -1 for bit 0 and +1 for bit 1. The map is linear and one-to-one and the information array is left untouched.",
  ["inputs", "configurations"], "all information words of all RM(r,m) and all border masks (small m), unit/pair/dense words for large m",
  "The tests encode one word of RM(1,3); dimension, masks, larger m and all other words are never exercised.",
  ["common/srm_utils.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c"],
  [("recursive encoders", "mrm_enc_bsc, smrm_enc_bsc_p, calc_rm_k, calc_srm_k")], ["cdc_get_n", "cdc_get_k", "enc_bpsk"])

p("C02", "Polar and CA-polar encoders produce exactly the documented code",
  "For every accepted polar configuration the codec reports length 2^m and the number of unfrozen positions minus the CRC length, and encodes every information word, followed by its CRC when one is configured, to the polar codeword with frozen positions zero. The channel word is exactly -1 for bit 0 and +1 for bit 1, and the information array is left untouched.",
  ["inputs", "configurations"], "all information words of all frozen-bit masks and CRC polynomials (small m), unit/pair/dense words for large m",
  "The tests encode one word of one 16-bit code with a 1-bit CRC.",
  ["common/srm_utils.c", "polar_scl/ca_polar_scl_main.c", "common/crc.c"],
  [("par0 encoder with CRC append", "smrm_par0_enc_bsc_p, enc_bpsk")], ["cdc_get_n", "cdc_get_k", "enc_bpsk"])

p("C03", "CRC calculation is the polynomial remainder and validation accepts exactly it",
  "For every bit sequence at least as long as the CRC and every CRC polynomial, the computed CRC is the remainder of the sequence, read as a binary polynomial highest power first, modulo the polynomial with its implicit leading 1. Validation accepts a sequence with appended check bits if and only if the check bits equal that remainder. Inputs are left untouched and nothing is written beyond the scratch buffer's documented length.",
  ["inputs"], "all polynomials and all sequences up to a bounded length, unit/pair sequences beyond",
  "Three fixed vectors with one 3-bit polynomial are tested.",
  ["common/crc.c", "common/crc.h"], [("bitwise long division", "calc_crc, is_valid_crc")], ["calc_crc", "is_valid_crc"])

p("C04", "Recursive RM decoder takes the documented decision on every channel output",
  "For every RM(r,m) code, noise level and channel output, the recursive decoder returns the information word obtained by decoding v from the exact soft combination of the two halves, then u from the sum of the second half and the v-corrected first half, with sums of log-likelihood ratios deciding (0,m) nodes and symbol signs deciding (m,m) nodes (ties, and reliabilities clipped by the format, aside). The channel output array is left untouched.",
  ["inputs", "configurations"], "all sign patterns over several reliability profiles (n <= 16), all patterns of few inverted symbols for larger codes",
  "The tests decode noiseless words and two noisy words of RM(1,4) only.",
  ["dtrm/dtrm0.c", "formats/formats.h", "formats/format_eps5.h"], [("recursive decoding to (0,m) and (m,m)", "tri0_dec")], ["dec_bpsk"])

p("C05", "First-order nodes are decoded to maximum likelihood",
  "For RM(1,m) the dtrm1 decoder returns a codeword of maximum likelihood for every channel output and noise level (ties, and reliabilities clipped by the format, aside). For higher orders it returns the word of the recursive decoder whose first-order nodes are decoded to maximum likelihood and whose (m,m) nodes are decided by symbol signs. The library's first-order decoders return a word of maximum likelihood when called directly, too.",
  ["inputs", "configurations"], "all sign patterns over several reliability profiles (n <= 16), few-error patterns for larger codes",
  "No test covers dtrm1 or rm1_ml at all.",
  ["dtrm/dtrm1.c", "rm1_ml/rm1_ml.c"], [("fast first-order decoder", "rm1_dec_sh_finp"), ("recursion", "tri1_dec")], ["dec_bpsk"])

p("C06", "RM list decoder keeps the L most likely paths and returns the best",
  "For every RM/SubRM configuration, list size, permutation set and noise level, the list decoder behaves as successive cancellation list decoding: at each unmasked border node every path is extended by both words of a (0,m) node or by the up to four most likely words of an (m,m) node, exactly the border_node_lsize most likely extensions survive, and masked nodes extend every path by zeros. Paths start one per permutation of the variables, and the returned word is the most likely survivor mapped back through its permutation (ties aside). With a variable list the first stage whose word is closer than its distance threshold gives the result, else the last one.",
  ["inputs", "configurations"], "all masks, list sizes 1..32, permutation sets, all sign patterns over reliability profiles for small codes, few-error patterns for larger codes",
  "dtrm_glp has no test at all; a pruning error only lowers performance statistically.",
  ["dtrm_glp/dtrm_glp_inner.c", "dtrm_glp/dtrm_glp_main.c"],
  [("branch and prune", "rm1_branch, rm11_branch, rmm_branch, qpartition"), ("permutation tables", "cdc_init")], ["dec_bpsk"],
  state=[("lorder/slist/lind2xl", "surviving paths, metrics and bits", "dtrm_glp_inner.c globals")])

p("C07", "Polar SCL decoder keeps the L best paths and applies the CRC rule",
  "For every polar or CA-polar configuration, list size and noise level, decoding is successive cancellation list decoding that keeps exactly the list_size most likely paths at every unfrozen bit (ties aside). Without CRC the most likely survivor is returned with success; with CRC the most likely survivor whose CRC is valid is returned with success, and if there is none the most likely survivor is returned together with the erasure code.",
  ["inputs", "configurations"], "all masks (n <= 8), CRC polynomials, list sizes, all sign patterns over reliability profiles; few-error patterns for larger codes",
  "The tests check one code with a 1-bit CRC at noiseless or single-error inputs.",
  ["polar_scl/polar_scl_inner.c", "polar_scl/ca_polar_scl_main.c", "common/crc.c"],
  [("branch and prune", "polar0_branch, qpartition"), ("CRC selection", "get_best_in_list, lst_comp")], ["dec_bpsk"])

p("C08", "Full-size list decoding is maximum likelihood",
  "With a list at least as large as the number of codewords, the list decoders for polar codes, CA-polar codes (among CRC-valid words) and RM(2,m) codes and subcodes return a codeword at minimum Euclidean distance from the channel output, for every channel output whose reliabilities stay below the clipping threshold (ties aside). The recursive RM decoder does so for the repetition-free cases r = m, where decisions are symbolwise.",
  ["inputs", "configurations"], "all sign patterns over several reliability profiles, all small codes",
  "Tests never compare a decoder with brute-force maximum likelihood.",
  ["polar_scl/polar_scl_inner.c", "dtrm_glp/dtrm_glp_inner.c", "dtrm/dtrm0.c"], [("exhaustive list", "list_size >= 2^k")], ["dec_bpsk", "enc_bpsk"])

p("C09", "Undistorted and lightly distorted words decode to what was sent",
  "Every decoder returns the transmitted information word with success when the channel output equals the transmitted word, for every accepted configuration and information word and at every noise deviation from 0.5 (for lengths above 2^15 from 0.35, since reliabilities vanish in double precision beyond) down to arbitrarily small values. It also does so for single inverted symbols in any code of minimum distance at least 4 with any decoder at these deviations, and, at deviations between 0.5 and 1, whenever fewer than half the minimum distance symbols are inverted for RM(1,m) codes with dtrm1.",
  ["inputs", "configurations"], "all information words (small codes), unit/pair words (large), a ladder of noise settings including extreme SNR",
  "Noiseless decoding is tested at one noise setting for one code per codec.",
  ["formats/formats.h", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c"],
  [("conversion to the clipped epsilon format", "VY_TO_FORMAT, FORMAT_CLIP")], ["dec_bpsk"])

p("C10", "Codec calls are pure and instances are independent",
  "The result of every encode or decode call depends only on its instance's configuration, current noise setting and input: not on earlier calls, on other live or closed instances, or on failed initialisations. Inputs are never modified, nothing is written outside the documented output lengths, no memory is lost by repeated calls, and closing an instance releases everything it allocated.",
  ["histories"], "all operation sequences (init/set noise/encode/decode/close on two slots) up to a bounded depth",
  "Each test makes one instance and a handful of calls in one order.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_inner.c", "polar_scl/polar_scl_inner.c", "common/srm_utils.c"],
  [("per-instance state plus module-level work variables", "mem_buf, node_table, enc_utils_ntp")], ["codec interface"],
  state=[("module globals of the list decoders", "work area pointers re-established on each decode", "rm_dec, polar_dec")])

p("C11", "Every codec configuration is either rejected or fully usable",
  "For every combination of codec parameters, initialisation either fails cleanly with a nonzero code, or yields an instance on which encoding and decoding stay within memory, terminate, and decode undistorted words correctly. In particular out-of-range orders, masks whose length does not match the code, invalid or excessively large permutation sets, and CRCs longer than the information block are never accepted silently.",
  ["configurations"], "a full product of small in-range and out-of-range parameter values for each codec",
  "Tests cover missing parameters only.",
  ["dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c"],
  [("parameter checks", "cdc_init")], ["cdc_init", "enc_bpsk", "dec_bpsk"])

p("C12", "Parameter files are read by the documented grammar, whatever their layout",
  "For every well-formed parameter file the tokens delivered to the simulator and codec are exactly those of the file with comments removed and each include directive replaced by the named file's content. Line endings, blank space, comments anywhere, braces with or without space between them and the items of their group, and where an include stands (including nested, first or last in the file) make no difference, nor do the order of the parameters (a permutation set follows RM_m) or parameters with unknown keys.",
  ["inputs"], "all files of bounded length over an alphabet of lexemes, separators, comments and includes",
  "No test reads a parameter file.",
  ["common/spf_par.c", "common/spf_par.h"], [("preparser", "spf_read_preparse_ext, strcpy_strip_comments")], ["spf_read_preparse", "sim_init"])

p("C13", "Malformed parameter input never crashes or hangs the program",
  "For every parameter file, however truncated or malformed, initialisation of the simulator and of each codec terminates, stays within memory, and either reports an error or proceeds with well-defined settings. Missing values, unbalanced braces, too many values, missing or recursive includes, missing required parameters and over-long inputs are reported rather than silently misread.",
  ["inputs"], "all token sequences of bounded length over keys, values and braces, all truncations of valid files, size extremes",
  "Only the empty configuration and configurations missing one key are tested.",
  ["common/spf_par.c", "common/spf_par.h", "simulators/sim_bg.c"], [("token macros", "TRYGET_*, SPF_SKIP_UNKNOWN_PARAMETER")], ["sim_init", "cdc_init", "spf_read_preparse"])

p("C14", "Simulation counters equal what happened in the trials",
  "For every sequence of decoder outcomes, the reported trial, bit-error, block-error, erasure, ML-trial and ML-bound counters of each SNR point, and every rate printed or saved from them, equal the counts over the simulated trials. A block error is a trial with any wrong information bit, and an ML-bound error is a non-erased trial whose decoded codeword is strictly closer to the channel output than the transmitted one; the ML bound therefore never exceeds the block error count.",
  ["histories", "configurations"], "all outcome sequences of bounded length for scripted codecs, times random/zero codeword and ML modes",
  "The simulator has no test at all.",
  ["simulators/sim_bg.c"], [("trial loop", "sim_run"), ("result formatting", "sim_cur_res_str, sim_save_res")], ["sim_run", "results file", "sim_cur_res_str"])

p("C15", "A simulation point stops neither too early nor never",
  "When an SNR point completes, at least the requested number of trials (its own SNR_val_trn entry or min_trials_per_snr) was simulated and at least min_errors_per_snr block errors were observed. If the error minimum is reached within the first half of the requested trials, exactly the requested number is simulated; otherwise no more trials are simulated than the larger of the requested number and one and a half times the number at which the minimum was reached. Points are simulated in the listed order and the run ends after the last one.",
  ["histories", "configurations"], "all error/no-error outcome sequences of bounded length, periodic and bursty long sequences, grids of requested trials and errors",
  "The simulator has no test at all; a premature stop only biases statistics.",
  ["simulators/sim_bg.c"], [("adaptive trial requirement", "update_trn_req")], ["sim_run", "sim_save_res"],
  state=[("trn_req", "currently required trials", "sim_bg_inst")])

p("C16", "The results file accumulates every trial of every session exactly once",
  "After any history of sessions with any SNR lists and saves at any times, as long as counters stay below 2^53 and nobody else replaces the file during a session, the results file holds one row per SNR value in ascending order, whose counters are the sums over all trials ever simulated and saved for that value, with rates computed from those sums. SNR values are recognised again whatever their number of digits, and a file that is full or invalid is refused without being altered.",
  ["histories"], "all histories of up to three sessions over a menu of SNR lists with saves after any subset of trials; boundary row counts",
  "No test saves results.",
  ["simulators/sim_bg.c", "common/spf_par.c"], [("merge with old results", "sim_save_res, pt_saved")], ["results file"],
  state=[("pt / pt_saved", "counters now and at last save", "sim_bg_inst")])

p("C17", "A failed save loses nothing and leaves no lock behind",
  "Whenever a system call fails during a save, saving reports an error, or succeeds with complete results in the file. After a reported failure the previously saved results are still in the file, the busy flag does not stay behind, and the next successful save stores every trial exactly once.",
  ["fault_sequences"], "every single (and pair of) failing system call of the save path, with several error codes, over several file states",
  "No test saves results, let alone under I/O failures.",
  ["simulators/sim_bg.c"], [("busy flag and file replacement", "sim_save_res")], ["results file", "busy flag file", "return code"])

p("C18", "Concurrent simulations sharing a results file lose no trials",
  "When several simulator processes save to the same results file, under every interleaving of their file operations the file finally holds the sum of all their trials, no process reads a partially written file, and a process that cannot get access reports that the file is busy and can save later.",
  ["schedules"], "all interleavings of two saving processes at system-call granularity up to a preemption bound",
  "Interleavings are not tested.",
  ["simulators/sim_bg.c"], [("busy flag protocol", "sim_save_res")], ["results file"])

p("C19", "A crash during a save never destroys saved results",
  "If the simulator is killed at any point of saving, the results file afterwards is either exactly the previously saved one or the complete new one, and can be read and extended by a later session once any left-over busy flag is removed.",
  ["crash_points"], "every system-call boundary of a save, and every partial write of the data, over several file states",
  "Crashes are not tested.",
  ["simulators/sim_bg.c"], [("file replacement", "sim_save_res")], ["results file"])

p("C20", "Status and save intervals never change the results",
  "With a fixed random sequence the channel words given to the decoder, all counters and the final results file are identical however the clock advances and whatever status and save intervals are chosen. Two runs with randomisation disabled are identical, and without it the generator is reseeded.",
  ["schedules", "configurations"], "all patterns of clock advancement over the trials of a run, times interval settings",
  "The simulator loop is not tested.",
  ["simulators/main_txt.c", "simulators/sim_bg.c"], [("resumable trial loop", "sim_run"), ("main loop", "main")], ["decoder input", "results file"])

p("C21", "The simulated channel is AWGN at the requested Eb/No",
  "At every SNR point each symbol is the transmitted symbol plus zero-mean Gaussian noise of standard deviation 1/sqrt(2 R Eb/No), with R the code rate or the fixed rate given, independent of the transmitted word; the decoder is told exactly this deviation (and point number, where it asks for it) before the point's first trial. With random codewords both bit values occur equally often over the generator's range; otherwise the zero codeword is sent.",
  ["inputs", "configurations"], "a full grid over the uniform generator's range, SNR values and rates",
  "The simulator has no test at all.",
  ["simulators/sim_bg.c"], [("noise generation", "copy_add_noise, db2val, sim_run")], ["cdc_set_sg", "dec_bpsk input"])

p("C22", "The Octave loader returns what the results file says",
  "For every valid results file the loader returns the code parameters, the SNR values in file order, and bit, word, erasure and ML-bound error rates equal to the quotient of the corresponding counters, with zero where there were no trials or the erasure counter is absent. Invalid files are reported and yield no structure.",
  ["inputs"], "all small results files over a menu of counter values including very large ones, and all section omissions",
  "Octave sources are not even built by the test suite.",
  ["Octave/loadsrf.c", "Octave/ui_octave_txt.c", "common/spf_par.c"], [("SRF parser", "mexFunction")], ["mxArray structure"])

p("C23", "Every shipped reliability format gives the decisions its definition implies",
  "Compiling the decoders with the exact LLR format instead of the clipped epsilon format changes no decision (ties and clipping aside), and compiling them with the min-sum format gives exactly the decisions of the same recursions with the min-sum rule.",
  ["inputs", "configurations"], "all sign patterns over reliability profiles for small codes, for each format and codec",
  "Only the default format is ever compiled.",
  ["formats/formats.h", "formats/format_eps5.h", "formats/format_rho1.h", "formats/format_rho5.h"],
  [("format macros", "XOR_EST, ADD_EST, EST_TO_LNP*, VY_TO_FORMAT")], ["dec_bpsk"])

p("C24", "Every shipped code and simulation file is valid and means what its name says",
  "Every simulation parameter file and code file in the work directory is accepted by the simulator it names, yields the length and dimension its name states, uses permutations that are all distinct permutations of the variables, and decodes undistorted words correctly.",
  ["configurations"], "every shipped file, completely",
  "No test reads the shipped files.",
  ["work/codes", "work"], [("shipped parameter files", "work/*.spf, work/codes/**")], ["sim_init", "cdc_get_n", "cdc_get_k", "dec_bpsk"])

p("C25", "The simulator program saves when due and ends with complete results",
  "For every combination of options and every clock behaviour the program saves at the first status update after more than the saving interval has passed since the start or the last save and not before, prints a status line at least once per status interval, and after the last trial writes complete results and exits with status 0. It exits with a nonzero status, running no trial, when arguments are missing or initialisation fails, and with a nonzero status, completed trials being saved, when encoding or decoding fails or when the final results cannot be saved.",
  ["schedules", "configurations"], "all option combinations over a small menu, all clock patterns of bounded length",
  "The program's main loop is never run by tests.",
  ["simulators/main_txt.c", "simulators/sim_bg.c"], [("main loop", "main")], ["exit status", "results file", "standard output"])

p("C26", "Running out of memory is reported and costs nothing",
  "Whenever a memory allocation fails in a codec or in the simulator, the call either reports an error or still gives its right result: no codec returns a word that is not its decision, no trial is counted or counted twice because of it, and nothing is saved that was not simulated. A failed call loses no memory, keeps results file, counters and instance as they were, leaves no busy flag behind, and when memory is at hand again the same call gives what it would have given.",
  ["fault points", "histories"], "every single, consecutive and pair of failing allocations in codec histories and in two simulation sessions",
  "Allocations never fail in tests.",
  ["simulators/sim_bg.c", "common/spf_par.c", "common/srm_utils.c", "dtrm/dtrm0.c", "dtrm/dtrm1.c", "dtrm_glp/dtrm_glp_main.c", "polar_scl/ca_polar_scl_main.c", "rm1_ml/rm1_ml.c"],
  [("out-of-memory paths", "cdc_init, enc_bpsk, dec_bpsk, spf_read_preparse_ext, sim_init, sim_run, sim_save_res")], ["return codes", "allocated memory", "results file", "sim_cur_res_str"])

p("C27", "Control requests change the current point's trial requirement and nothing else",
  "A control request given between two steps of a simulation that is not complete changes only the required number of trials of the current point: 'more' raises it by half of itself (at most to the general limit), 'less' lowers it by a third but not below the trials already simulated, and 'next' ends the point with the trials simulated so far. When the error minimum was reached before the last request, the point completes with exactly the number required then. Counters, results and all points without requests are the same as without it.",
  ["histories"], "all sequences of trial outcomes and requests of bounded length over several points",
  "Tests never run the simulator, let alone control it.",
  ["simulators/sim_bg.c", "interfaces/simul.h"], [("on-the-fly control", "sim_control, update_trn_req")], ["sim_state_str", "sim_cur_res_str", "results file"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
