"""What each check builds and explores."""
import os, build
from build import codec_sources, sim_sources, CODECS, REPO

def X(*a, **kw):
    import runner
    return runner.Explorer(*a, **kw)

def codec_bin(name, codec, harness, defs=(), **kw):
    return build.build(name, harness, codec_sources(codec), defs=['-D' + CODECS[codec][1]] + list(defs), **kw)

def codec_explorers(harness, codecs, **kw):
    def f(tier):
        out = []
        for c in codecs:
            out.append(X(c, codec_bin('%s_%s' % (os.path.splitext(harness)[0], c), c, harness, **kw)))
        return out
    return f

def big(codecs, prop):
    return lambda tier: [X(c + '_big', codec_bin('big%d_%s' % (prop, c), c, 'big.c', defs=['-DPROP=%d' % prop])) for c in codecs]
def both(*f): return lambda tier: [x for g in f for x in g(tier)]

def enclib(tier):
    src = [t for t in codec_sources('glp') if 'dtrm_glp' not in t[0]]
    return [X('enclib', build.build('enclib', 'enclib.c', src))] if src else []
SPECS = {}
SPECS['C01'] = dict(level='model_checking', explorers=both(codec_explorers('enc.c', ['dtrm0', 'dtrm1', 'glp']), big(['dtrm0', 'dtrm1', 'glp'], 1), enclib),
    rule='Every RM(r,m), m<=10 (12 thorough); every border mask of the codes with up to 10 border nodes, every single-node/prefix mask beyond; '
         'all information words up to k=11 (16), beyond that zero, ones, all unit words and complements, all pairs (k<=64), all periodic words of period<=9; list sizes up to 66000 / n for the list decoder\'s codec; m from 11 to 20 (the largest accepted): seven orders, three masks, 2 to 8 (12) words. '
         'The encoders, dimension and node counts and the permutation check of common/srm_utils.c called directly: every RM(r,m), 0<=r<=m<=5 (6), every mask of up to 10 nodes, also with (0,m) border nodes only. '
         'A state is a (configuration, codeword) pair; every execution is compared symbol by symbol with the recursive definition.',
    assumptions=['Border masks of codes with more than 10 border nodes are explored as single-node and prefix masks only.'])
SPECS['C02'] = dict(level='model_checking', explorers=both(codec_explorers('enc.c', ['polar']), big(['polar'], 1)),
    rule='Every frozen mask for n<=8 with no CRC and all CRC polynomials of length 1..4; masks of n=16 (all; quick tier thins the middle weights); '
         'weight/range/residue masks up to n=1024 (2048 thorough), eight masks for each length from 2048 to 2^20; list sizes up to 8200. Words as for C01. A state is a (configuration, codeword) pair.')
SPECS['C03'] = dict(level='model_checking',
    explorers=lambda tier: [X('crc', build.build('crc', 'crc.c', [s for s in codec_sources('polar') if '/crc' in s[0]]))],
    rule='All polynomials of degree 1..6 (8 thorough) and all sequences up to 12 (15) bits, all check words (degree<=5, <=9 bits) or all error patterns of '
         'weight<=2 and the full one; long polynomials (up to 32) with sequences up to 500 bits: zero, ones, unit, pair and periodic ones; polynomials up to 257 bits with some sequences of up to 140001 bits. '
         'A state is a (polynomial, sequence) pair.')
ALPHA = ('five reliability profiles (near-equal, widely varying, every third symbol weak, strong with clipping active, very noisy) '
         'without accidental ties; ')
REFN = ('The reference decoder is a separate nondeterministic model in real arithmetic: equal metrics (within 1e-6) are a choice, all choices are explored up to a cap, '
        'and the code has to produce one of the model outcomes. A state is a (configuration, border node, surviving set of paths) of the model. ')
def fmt_bin(codec, fmt, harness='dec.c', defs=()):
    return codec_bin('%s_%s_%s' % (os.path.splitext(harness)[0], codec, fmt), codec, harness, defs=['-DFMT=F_' + fmt.upper(), '-DSMALL'] + list(defs),
                     rflags=['-DFORMAT_EPS5_H', '-include', os.path.join(REPO, 'formats', 'format_%s.h' % fmt)])
SPECS['C04'] = dict(level='model_checking', explorers=codec_explorers('dec.c', ['dtrm0']),
    rule=REFN + 'All RM(r,m), m<=9 (10 thorough); ' + ALPHA + 'all sign patterns for n<=8, n=16 (quick: all for one profile, every third one for the others); '
         'beyond, three words with all single (pairs up to n=32, one word of n=64) inverted symbols and all cyclic shifts of a fixed noise vector at three noise levels, and 60 to 200 words of strong noise alone at five levels; n=1024..4096: five orders, some inverted symbols and noise shifts.')
def rm1_bin(fmt=None):
    src = [t for t in codec_sources('dtrm1') if os.path.basename(t[0]) == 'rm1_ml.c']
    fl = ['-DFORMAT_EPS5_H', '-include', os.path.join(REPO, 'formats', 'format_%s.h' % fmt)] if fmt else []
    return X('rm1_' + (fmt or 'eps5'), build.build('rm1_' + (fmt or 'eps5'), 'rm1.c', src, defs=(['-DRHO'] if fmt else []) + (['-DMINSUM'] if fmt == 'rho5' else []), rflags=fl), nshards=16)
SPECS['C05'] = dict(level='model_checking', explorers=lambda tier: codec_explorers('dec.c', ['dtrm1'])(tier) + [rm1_bin()],
    rule=REFN + 'Inputs as for C04; first-order nodes are decoded by brute force over all their words; RM(1,m), m=5..14 (16), on very noisy words against the largest entry of the Hadamard transform. '
         'The decoders of rm1_ml/ alone (rm1_dec_sh, rm1_dec_sh_finp, the first word of rm1_dec_lst): m<=7 (8), all sign patterns for n<=16 (quick: each for one of three profiles), every word with up to 19 errors in two layouts beyond.',
    assumptions=['Where the reliabilities inside a first-order node may saturate the clipped format, the word of a full-size list over the clipped recursion is accepted as well.'])
SPECS['C06'] = dict(level='model_checking', explorers=codec_explorers('dec.c', ['glp']),
    rule=REFN + 'RM(2,3): every border mask, nine list sizes 1..33, all sign patterns for five profiles; n=16: every border mask, list sizes, every 13th/97th sign pattern; '
         'all pairs and triples of the permutations of 3 variables (L=1,3,5) and 36 permutation sets of 4 variables; 24 variable-list settings, 48 for other codes, up to 50 stages and with permutations; cyclic, two-last and pseudorandom permutation sets of 5 to 7 (8) variables; list sizes 63 to 8193 around powers of two, 300 to 2500 with more words than the list has places; lists that shrink from stage to stage; words of noise alone; '
         'n=32..256 (512): all orders, four mask families, five list sizes, few-error patterns and noise shifts; some for n=512..2048.',
    assumptions=['Permutation sets are explored with unmasked codes only.'])
SPECS['C07'] = dict(level='model_checking', explorers=codec_explorers('dec.c', ['polar']),
    rule=REFN + 'Every frozen mask for n<=8 with seven CRC polynomials and none, eight list sizes (quick: a quarter of the n=8 combinations), all sign patterns of two profiles (five thorough); '
         '316 mask families of n=16 on every 401st (53rd) sign pattern; n=32..256 (512) with CRCs up to 16 bits, list sizes up to 32, few-error patterns and noise shifts; some for n=512..2048; list sizes 63 to 8193 around powers of two, 300 to 2500 with more words than the list has places, 33 to 257 with CRC and much noise.')
def c08(tier):
    return [X(c, codec_bin('ml_' + c, c, 'ml.c')) for c in ('dtrm0', 'glp', 'polar')]
SPECS['C08'] = dict(level='model_checking', explorers=c08,
    rule='Brute-force minimum Euclidean distance over all codewords (all CRC-valid words for CA-polar codes, which equal all information words) against the decoder with list size >= 2^k '
         '(and several larger ones): RM(2,3) all masks, RM(2,4) and RM(2,5) masks with k<=9 (11), polar n<=8 all masks, n=16 and 32 families with k<=9, CRCs of 0..4 bits, dtrm0 RM(m,m); '
         'sixteen codes of up to 2^13 words; all sign patterns (n<=8), all or every few for n=16; three unsaturated reliability profiles. A state is a (configuration, decoded word) pair.',
    assumptions=['Only channel outputs whose reliabilities cannot saturate the clipped format are compared.'])
SPECS['C09'] = dict(level='model_checking', explorers=both(codec_explorers('clean.c', ['dtrm0', 'dtrm1', 'glp', 'polar']), big(['dtrm0', 'dtrm1', 'glp', 'polar'], 9)),
    rule='All information words for k<=8 (12 thorough; polar 6/8), beyond that zero, ones, unit and periodic words; noise deviations 0.5, 0.35, 0.2, 0.1, 0.06, 0.0531, 0.05, 0.04, 0.02, 1e-3, 1e-6, 1e-9, 1e-13, 1e-30, 1e-100, 1e-150; '
         'all RM(r,m) m<=10 (12), all masks up to six border nodes and families beyond for six list sizes, with and without all cyclic permutations; polar masks and CRCs for n<=512 (1024); for all codecs lengths 2^11 to 2^20 with seven orders or eight masks, 2 to 8 (12) words and six deviations. '
         'Single inverted symbols in every position; for RM(1,m) with dtrm1 all error patterns of weight < d/2 (n<=16) and periodic bursts of that weight beyond. A state is a (configuration, word) pair.')
def c23(tier):
    out = []
    for f in ('rho1', 'rho5'):
        for c in ('dtrm0', 'glp', 'polar'):
            out.append(X(c + '_' + f, fmt_bin(c, f)))
            out.append(X('clean_' + c + '_' + f, fmt_bin(c, f, 'clean.c')))
        out.append(rm1_bin(f))
    return out
SPECS['C23'] = dict(level='model_checking', explorers=c23,
    rule=REFN + 'The decoders are compiled with format_rho1.h (exact LLR) and format_rho5.h (min-sum) and compared with the reference decoder using exact or min-sum rules over the C04, C06, C07 enumerations, '
         'and on undistorted words as for C09; codes up to n=64 (quick) or one size below the bounds of those properties (thorough).',
    assumptions=['dtrm1 refuses any format but the epsilon one and is not covered here (C05 covers it); the decoders of rm1_ml/ (rm1_dec_sh, rm1_dec_sh_finp, rm1_dec_sh_dotp, rm1_dec_lst) are compiled alone; the first two with min-sum rules are held to the best metric of the min-sum recursion, the others to maximum likelihood.'])
SPECS['C10'] = dict(level='model_checking', explorers=codec_explorers('life.c', ['dtrm0', 'dtrm1', 'glp', 'polar']),
    rule='All sequences of 6 (7 thorough) operations (initialise with one of 3 valid and 2 incomplete configurations, set one of 2 noise levels, encode and decode one of 2 words, close) '
         'over two instances, up to exchange of the instances; the channel words are chosen so that the decision depends on the noise level. Every result is compared with that of the same call on a fresh instance in a fresh process whose memory is filled differently; '
         'buffers have the exact documented sizes under AddressSanitizer, inputs are compared afterwards, and the allocated byte count is compared before and after. A state is a history of operations.')
SPECS['C11'] = dict(level='model_checking', explorers=codec_explorers('cfg.c', ['dtrm0', 'dtrm1', 'glp', 'polar']),
    rule='Products of parameter values: 24 values of m and 22 of r from -2^31 to 2^31-1 or absent, mask lengths from 0 to four times the right one, masks, list sizes from -2^31 to 2^31-1, CRCs of 0 to k+1 bits, '
         '16 permutation groups (missing, incomplete, repeated, out of range, not closed, 12000 numbers), 45 variable-list settings (a bad list size at ten of fifty places), repeated and reordered keys; every entry of a permutation of up to 20 variables replaced by every other one. A state is a configuration; '
         'rejected ones must lose no memory, accepted ones must encode by the definition, decode undistorted words and survive noise, all under AddressSanitizer.',
    assumptions=['RM/polar orders from 14 to 30 are not explored (codes of millions of symbols).'])

WRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('time', 'clock', 'rand', 'srand', 'clock_gettime', 'gettimeofday'))]
def sim_bin(harness, codec='glp', name=None, defs=(), **kw):
    """The real simulator (sim_bg.c, main_txt.c, spf_par.c, ui_txt.c) linked with the scripted codec of the harness."""
    src = [(s, f + (['-Dmain=ecclab_main'] if os.path.basename(s).startswith('main') else [])) for s, f in sim_sources(codec)
           if os.path.basename(s) != 'srm_utils.c' and not os.path.basename(s).startswith('crc')]
    return build.build(name or os.path.splitext(harness)[0], harness, src, link=WRAP, defs=defs, **kw)
SPECS['C14'] = dict(level='model_checking', explorers=lambda tier: [X('trial', sim_bin('trial.c'))],
    rule='All sequences of 3 (5 thorough) trial outcomes out of 12 (correct, one wrong bit, all bits wrong; with and without erasure; two noise patterns), continued with wrong words until the point completes, '
         'for ML bound off, soft and hard, zero and random codewords, five layouts of points (two with a fixed rate); codes of 512 and 1024 symbols with 0 to 1024 wrong bits and with words that are barely closer or barely farther; displayed state and rates after every trial, saved counters and rates at the end. '
         'A state is a (point, counters) tuple.')
SPECS['C15'] = dict(level='model_checking', explorers=lambda tier: [X('stop', sim_bin('stop.c'))],
    rule='All error/no-error sequences of 9 to 12 (13 to 16 thorough) trials, continued with errors in every or every third trial, for 19 combinations of requested trials, error minimum, number of points and way of '
         'stating them, with and without interrupting the run after every trial; and all sequences of four runs with eight lengths each, followed by four error periods, for eight combinations with error minima above 20; error minima of 100 to 2^31-1 that are not reached in 2500 trials. '
         'A state is a (trials, errors, requested trials, error minimum, trial at which it was reached) tuple.',
    assumptions=['2e9 trials are not simulated.'])
SPECS['C16'] = dict(level='model_checking', explorers=lambda tier: [X('hist', sim_bin('hist.c'))],
    rule='All histories of two sessions (partly three; thorough: all histories of three) over 15 SNR lists (unsorted, repeated, 7 to 17 digits, signed zero) and 6 (8) sets of save points, each session complete or abandoned; all sets of save points of '
         'one session; 22 layouts and sizes of an existing file (up to 50 rows; counters around 2^31 and of 14 digits), lists of 50 values in six orders; 25 kinds of invalid files, files with every combination of wrong numbers of values in the groups, and a file cut off at every byte. '
         'A state is the content of the results file (SNR values with their counters).',
    assumptions=['Counters stay below 2^53.', 'The results file is not replaced or deleted by others during a session.'])
PROGR = 'All sequences of clock advances {0, 1, 7, 700, -5} s over the first 5 (6 thorough) trials of a two-point simulation, for 4 status and 4 saving intervals and six orders of options; '
SPECS['C20'] = dict(level='model_checking', explorers=lambda tier: [X('prog20', sim_bin('prog.c', name='prog20', defs=['-DPROP=20']))],
    rule=PROGR + 'channel words, noise levels and results file are compared with a run whose clock stands still; all error patterns of the first seven trials with four error minima and all sets of trials after which the status is updated; seeding with 40 start times. A state is a (clock, options, status lines, saves) combination.')
SPECS['C25'] = dict(level='model_checking', explorers=lambda tier: [X('prog25', sim_bin('prog.c', name='prog25', defs=['-DPROP=25']))],
    rule=PROGR + 'status output and saved trials are observed before every trial and compared with the intervals; a decoder error in each of five trials, an encoder error in each of the first nine (12) calls, an unwritable results file, 13 argument lists. '
         'A state is a (clock, options, status lines, saves) combination.',
    assumptions=['Only decoding takes time on the scripted clock.'])
SPECS['C21'] = dict(level='model_checking', explorers=lambda tier: [X('chan', sim_bin('chan.c', defs=['-DCSNRN'])), X('chan_nocsnrn', sim_bin('chan.c', codec='dtrm0', name='chan0'))],
    rule='SNR -20 to 40 dB in steps of 0.01 (0.002 thorough) dB for nine code sizes and seven fixed rates, zero and random codewords; all information words of nine code sizes; all pairs of 256, 601 and 1024 (3001) '
         'equally spaced generator outputs, whose noise numbers are compared with the normal distribution (moments, distribution function, joint distribution in pairs) up to its tails; information bits over 65536 generator outputs; codes of 128 to 262144 symbols at six points (the same noise at every SNR, mean and variance in blocks of 256 symbols). '
         'A state is a (code, rate, SNR block), a (code, word) or a grid.',
    assumptions=['Only the generator configured in the build files (stdlib rand) is explored; each of its outputs counts as equally likely.'])
SPECS['C17'] = dict(level='model_checking', explorers=lambda tier: [X('fault', sim_bin('fault.c'))],
    rule='Every file system call of every save (trapped by seccomp, whichever library function makes it) fails with each of up to three errors, is transferred partly, or fails together with all later calls (all kinds or one kind), '
         'in each of up to three saves of a session, for seven existing files and four SNR lists; and all pairs of such single faults in one save (quick: a third of the scenarios); every read ends after every number of bytes, alone or with read errors after it. '
         'Afterwards faultless saves of this and another session have to hold every trial once. A state is a (scenario, save, faults) combination.',
    assumptions=['A busy flag may stay when its removal itself is the failing call.', 'Reading calls fail with an error, never by pretending that a file does not exist.'])
SPECS['C19'] = dict(level='model_checking', explorers=lambda tier: [X('crash', sim_bin('crash.c', san=False))],
    rule='A process running a save is killed before every file system call and after every byte of every write, in each of up to three saves of a session, for seven existing files and '
         'four SNR lists; the file has to be byte for byte the old or the new one. A later session is then refused without effect (flag left) or, once the flag is removed, has to hold every trial once; for every crash before a call '
         'the later session crashes before each of its calls as well and a third one follows. A state is a (scenario, save, crash points) combination.',
    assumptions=['Killing the process, not losing power: data handed to the system is kept.'])
SPECS['C18'] = dict(level='model_checking', explorers=lambda tier: [X('conc', sim_bin('conc.c', san=False), nshards=75)],
    rule='Two processes with up to three saves each (48 combinations of existing file, SNR lists and save points) and three processes (27 combinations; thorough: four as well) run the real saving code; every file system call that others can see is a '
         'scheduling point (trapped by seccomp). Exhaustive search over schedules with a table of visited states (files, open files, everything each process has seen): all interleavings for two processes saving once (thorough: always), otherwise all '
         'interleavings in which a process that waits is scheduled again when the files have changed or is run until it gives up; three processes with two or more saves with at most two preemptions (thorough: all), four with at most three. '
         'After every call the results file has to be complete; a save may fail only by reporting a busy file; at the end the processes that could not save do so, and the file has to hold the sum of all trials. A state is a visited state of the search.',
    assumptions=['All processes see one coherent file system.'])
def parse_x(p):
    import runner
    out = [X('parse%d' % p, sim_bin('parse.c', name='parse%d' % p, defs=['-DPROP=%d' % p]), env={'ASAN_OPTIONS': runner.ENV['ASAN_OPTIONS'].replace('max_malloc_fill_size=1048576', 'max_malloc_fill_size=4096')})]
    return out + [X('keys_' + c, codec_bin('keys%d_%s' % (p, c), c, 'keys.c', defs=['-DPROP=%d' % p])) for c in ('dtrm0', 'dtrm1', 'glp', 'polar')]
PTEXT = ('All strings of 6 (7 thorough) characters over {a, b, blank, LF, CRLF, %, {, }}, of 5 (6) lexical items out of 16 (words, braces with and without blanks, comments, includes of files with and without comments, '
         'line ends and nested includes), of 5 items out of 10 (includes of half groups and lone braces) and of 4 (5) out of 12 (missing, empty, directly and mutually recursive includes), before or after the required parameters or as an included file; '
         'files padded in nine ways to 1200 sizes around every buffer limit. ')
SPECS['C12'] = dict(level='model_checking', explorers=lambda tier: parse_x(12),
    rule=PTEXT + 'Those that an independent reader of the grammar finds well-formed have to be accepted and the tokens reaching the codec have to be that reader\'s tokens. '
         'All orders of seven simulator settings in five layouts and four value sets: the noise levels, trials, ML bound, random words and results file that are observed have to be those set. Results file names of 1 to 250 characters and of 18 kinds, 1 to 50 SNR values in three lists, ten notations of a number. '
         'For the real codecs all orders of the parameters of four configurations with unknown parameters (16 kinds, single values and groups, values that are names of keys) in any two gaps: same dimensions, codewords and decoded words. '
         'A state is a token sequence or an arrangement of parameters.',
    assumptions=['Commas, control characters, empty included files, and braces inside a token are not specified and not explored here.', 'permutations has to follow RM_m (the program says so).'])
SPECS['C13'] = dict(level='model_checking', explorers=lambda tier: parse_x(13),
    rule=PTEXT + 'Those that are not well-formed have to be survived (AddressSanitizer, time limit), and rejected when a value, a closing brace or an included file is missing or an include never ends. 49 erroneous sets of simulator parameters, '
         'up to 120 SNR values, names of up to 1300 characters, every byte of three files replaced by, or preceded by, 17 bytes, dropped, or the file cut there. '
         'For the real codecs all pairs (quick: a fifth of the pairs for long lists) of 62 edits (delete, repeat, swap, cut, 29 tokens replacing or inserted) at every token of four configurations, every cut, dropped or doubled byte, values and groups of up to 131072 characters: '
         'rejected without loss of memory, or usable and, where the values are proper numbers, the code that is meant. A state is a file or a parameter list.')

def c22(tier):
    fl = ['-fPIC', '-I' + os.path.join(build.VERIF, 'harness', 'mex')]
    so = build.build('loader.so', 'mexmock.c', [(os.path.join(REPO, f), fl) for f in ('Octave/loadsrf.c', 'Octave/ui_octave_txt.c', 'common/spf_par.c')],
                     defs=fl, link=['-shared', '-Wl,-Bsymbolic'])
    return [X('load', sim_bin('load.c', name='load', defs=['-DLOADER="%s"' % so]))]
SPECS['C22'] = dict(level='model_checking', explorers=c22,
    rule='Octave/loadsrf.c and ui_octave_txt.c run with a stand-in for the MEX host (errors do not return). Results files: those saved by the real simulator after all histories of two sessions over nine SNR lists, 16 (64) save masks of the first and four of the second session; '
         'all orders of the nine entries (quick: every seventh) in five layouts; all combinations of six values (two sets, up to 2^53) of the six counters; 1 to 59 rows; all combinations of correct, too few, too many and missing values of the seven groups; '
         'files cut off at every byte. Every field is compared with the quotient of the counters that an independent reader finds; files it finds invalid have to raise an error. A state is a file content.',
    assumptions=['The MEX host is a stand-in written after the Octave documentation; the loader source is compiled as README.md says (loadsrf.c, ui_octave_txt.c, spf_par.c).',
                 'Files without any SNR value are not specified.'])

def full_bin(name, codec, harness, link=(), defs=(), **kw):
    """The whole program as built by /repo's build files (main renamed), with the real codec."""
    src = [(s, f + (['-Dmain=ecclab_main'] if os.path.basename(s).startswith('main') else [])) for s, f in build.target(CODECS[codec][0])]
    return build.build(name, harness, src, link=link, defs=['-D' + CODECS[codec][1]] + list(defs), **kw)
SPECS['C24'] = dict(level='model_checking',
    explorers=lambda tier: [X('work_' + c, full_bin('work_' + c, c, 'work.c', link=['-Wl,--wrap=cdc_init'], defs=['-DWORK="%s"' % os.path.join(REPO, 'work')])) for c in ('dtrm0', 'dtrm1', 'glp', 'polar')],
    rule='Every *.spf file of a copy of the work directory is read by the real simulator with the codec its name states, and every file of work/codes with every permutation file for it, two list sizes and two ways of including it, with each RM codec. '
         'n, k, mask, CRC length, list size, results file and the kind and number of permutations have to be those of the name (all permutations distinct); zero, one, unit, complement and neighbour-pair words are encoded by the recursive definition '
         'and decoded undistorted; some trials are simulated and saved. A state is a (file, word) pair.')

MEMWRAP = ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'strdup'))]
def c26(tier):
    out = [X('memc_' + c, codec_bin('memc_' + c, c, 'memc.c', link=MEMWRAP), nshards=8) for c in ('dtrm0', 'dtrm1', 'glp', 'polar')]
    return out + [X('mems_' + c, full_bin('mems_' + c, c, 'mems.c', link=MEMWRAP + ['-Wl,' + ','.join('--wrap=' + f for f in ('time', 'clock', 'rand', 'srand'))])) for c in ('dtrm0', 'dtrm1', 'glp', 'polar')]
SPECS['C26'] = dict(level='model_checking', explorers=c26,
    rule='The allocations made by the code under test are numbered in the order they happen (linked with stand-ins for malloc, calloc, realloc and strdup). Codec: for ten configurations (valid and invalid) of each codec a history of initialisation, '
         'two encodings, two decodings and closing, each call repeated until it succeeds; every allocation fails alone, with up to three following ones, and together with every other one. Simulator: for two configurations of each codec and three simulations, two sessions with '
         'two saves each, run trial by trial; every allocation fails alone, with up to four following ones, and together with each of the next 14 and every 29th later one (thorough: every pair). Results, displayed state, files and allocated memory after every call are compared with the history without failures. '
         'A state is a (history, set of failing allocations) pair.',
    assumptions=['Allocations inside the C library (streams) do not fail here; C17 covers failing file operations.'])
SPECS['C27'] = dict(level='model_checking', explorers=lambda tier: [X('ctrl', sim_bin('ctrl.c'))],
    rule='All sequences of five (thorough: six) trial outcomes and requests (none, more, less, next) after each trial for 13 layouts of one to three points, continued with a fixed pattern of outcomes, and all sequences of requests for four requested numbers near the limits; '
         'displayed state and results before and after every request, whether the point goes on, final trials of every point and the saved counters are compared with the requests and with the run without requests; a number of trials lowered before the error minimum is reached stays lowered. A state is a (trials, required trials, errors, request) tuple.',
    assumptions=['Requests are given only while the simulation is not complete (as the program does).'])
