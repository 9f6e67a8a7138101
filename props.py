"""What each property's check builds and explores.

A build is a shell script: every source of /repo is a translation unit of its own, compiled unmodified;
@OUT, @HERE and @REPO are filled in by run.py."""
ASAN = '-DNO_ARENA -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all'
FLAGS = '-O2 -ftrivial-auto-var-init=pattern -march=native -std=c++17 -w -I@HERE/lib -I@HERE/h -I@REPO -I@REPO/include'
def script(units, libs, flags=FLAGS, link=''):
    """units: (source, extra flags, symbols to rename or None)"""
    s = 'set -e; pids=""; '
    objs = []
    for i, (src, extra, ren) in enumerate(units):
        o = '@OUT.%d.o' % i; objs.append(o)
        c = 'clang++ %s %s -c %s -o %s' % (flags, extra, src, o)
        if ren: c += ' && objcopy --redefine-sym %s %s' % (ren, o)
        s += '( %s ) & pids="$pids $!"; ' % c
    s += 'for p in $pids; do wait $p; done; clang++ %s %s -o @OUT %s; rm -f %s' % (link, ' '.join(objs), libs, ' '.join(objs))
    return s
FIELD_SRC = [('@REPO/src/linear_gkr/prime_field.cpp', '', None), ('@REPO/src/linear_gkr/polynomial.cpp', '', None)]
GKR = {1: ('linear_gkr/prover_fast_track', 'linear_gkr/verifier_fast_track', 'linear_gkr/main_fast_track'), 2: ('traditional_gkr/prover_clogc', 'traditional_gkr/verifier_traditional', 'traditional_gkr/bclogc'),
       4: ('linear_gkr/prover_fast_para_track', 'linear_gkr/verifier_fast_para_track', 'linear_gkr/main_fast_para_track'),
       3: ('traditional_gkr/prover_bc_clogc', 'traditional_gkr/verifier_bc_clogc', 'traditional_gkr/bc_clogc')}
def gkr(p, extra='', inst=False):
    pr, ve, ma = ('@REPO/src/%s.cpp' % x for x in GKR[p])
    d = '-DPROTO=%d ' % p
    w = d + '-include @HERE/h/gkr_wrap.h'
    t = tsan = ''
    if p == 4: t = '-include @HERE/h/para_thread.h '
    if inst: tsan = '-fsanitize=thread -mllvm -tsan-instrument-atomics=0 '; d += '-DSCHED_TSAN '
    return script([(s, tsan, r) for s, _, r in FIELD_SRC] + [(pr, t + tsan + '-Dprover=real_prover', None), (ve, w, None), (ma, w, 'main=prog_main'), ('@HERE/h/gkr.cpp', d, None)], '-lgmpxx -lgmp', FLAGS + ' ' + extra, extra)
def zk(extra=''):
    fl = '-O2 -ftrivial-auto-var-init=pattern -march=native -std=c++17 -w -I@HERE/lib -I@HERE/h/zk -I@HERE/h -I@REPO -I@REPO/include ' + extra
    w = '-include @HERE/h/zk_wrap.h'
    return script(FIELD_SRC + [('@REPO/src/VPD/%s.cpp' % x, '', None) for x in ('inputvpd', 'vpdR', 'vpd_test')] + [('@REPO/src/linear_gkr/zk_prover.cpp', '-Dzk_prover=real_zk_prover', None),
        ('@REPO/src/linear_gkr/zk_verifier.cpp', w, None), ('@REPO/src/linear_gkr/main_zk.cpp', w, 'main=prog_main'), ('@HERE/h/zk.cpp', '', None)], '-lgmpxx -lgmp -ldl', fl, extra)   # ZKB
def tool(t, src):
    return script([('@REPO/' + src, '', 'main=tool_main'), ('@HERE/h/tools.cpp', '-DTOOL=%d' % t, None)], '-lgmp')
def tool_asan(t, src): return script([('@REPO/' + src, ASAN, 'main=tool_main'), ('@HERE/h/tools.cpp', ASAN + ' -DTOOL=%d' % t, None)], '-lgmp', link=ASAN)
def program(src): return script([('@REPO/' + src, '', None)], '')
BUILDS = {
    'gkr1': gkr(1), 'gkr2': gkr(2), 'gkr3': gkr(3),
    'gkr4': gkr(4), 'gkr4_race': gkr(4, inst=True), 'gkr4_asan': gkr(4, ASAN),
    'gkr1_asan': gkr(1, ASAN), 'gkr2_asan': gkr(2, ASAN), 'gkr3_asan': gkr(3, ASAN),
    'zk': zk(), 'zk_asan': zk(ASAN),
    'field': script(FIELD_SRC + [('@HERE/h/field.cpp', '', None)], '-lgmpxx -lgmp'),
    'sha': script([('@HERE/h/sha.cpp', '', None)], '-lgmp'), 'psdp': program('parser_sha_data_parallel.cpp'), 'psdp_tests': program('tests/SHA256/parser_sha_data_parallel.cpp'),
    'tool1': tool(1, 'bin/gen.cpp'), 'tool2': tool(2, 'parser_sha_data_parallel.cpp'), 'tool3': tool(3, 'parser_lanczos.cpp'), 'tool4': tool(4, 'parser_sha.cpp'),
    'tool1_asan': tool_asan(1, 'bin/gen.cpp'), 'tool2_asan': tool_asan(2, 'parser_sha_data_parallel.cpp'), 'tool3_asan': tool_asan(3, 'parser_lanczos.cpp'), 'tool4_asan': tool_asan(4, 'parser_sha.cpp'),
    'field_asan': script([(a, ASAN, c) for a, b, c in FIELD_SRC] + [('@HERE/h/field.cpp', ASAN, None)], '-lgmpxx -lgmp', link=ASAN),
}
ACCEPT = ['accept_one_layer', 'accept_two_layers', 'accept_shapes', 'accept_one_gate', 'accept_large', 'accept_fan', 'accept_coins', 'accept_inputs', 'accept_depth']
VALUE = ['value_one_layer', 'value_two_layers', 'value_shapes', 'value_one_gate', 'value_large', 'value_fan', 'value_inputs', 'value_chain', 'value_text']
SOUND = ['sound_chain', 'sound_far', 'sound_pairs', 'sound_shortcuts', 'sound_other_circuit']
FRESH = ['fresh_coins', 'fresh_runs']
MEM = ['memory_shapes', 'memory_kinds', 'memory_large', 'memory_reject']
FIELD = ['field_pairs_edges', 'field_pairs_limbs', 'field_pairs_limbs_deep', 'field_preimages', 'field_preimages_limbs', 'field_programs', 'field_programs_deep',
         'reduce_quotients', 'reduce_limbs', 'reduce_sums', 'wide_ops', 'conversions', 'random_draws', 'init_history']
POLY = ['poly_linear', 'poly_quadratic', 'poly_cubic', 'poly_quadruple', 'poly_quintuple', 'poly_products']

RUNS = {'states': 'points', 'transitions': ['messages'], 'traces': ['protocol_runs']}
R_HONEST = 'every circuit, input vector and coin assignment of the named bounded families; a point is one complete execution of the real verifier against the real prover, states are the distinct points, transitions the prover messages exchanged'
R_CHEAT = 'every deviation of the adversary model (output position x check at which it becomes honest x error value x correction style x absorption) for every circuit of the family, each executed against the real verifier; skipped_vacuous counts the deviations that leave the claim true'
A_COINS = 'the verifier draws its coins from the process random source (rand), which the harness supplies; a false claim surviving by luck has probability below 2^-60 per point'
A_DOMAIN = 'circuits are well formed: layer sizes powers of two (or one gate), wires in range, input values signed 64-bit numbers (a negative -k stands for p - k)'

GEN = ['gen_layers', 'gen_blocks', 'gen_product_tree', 'gen_product_sum']
TRANSLATE = ['translate_small', 'translate_three', 'translate_outputs', 'translate_relays', 'translate_widths', 'translate_data', 'translate_names']
TOOLS = {'states': 'points', 'transitions': ['gates_read', 'meta_lines_compared'], 'traces': ['tool_runs']}
R_TRANSLATE = 'every source program of the bounded families (all gate kinds and operand choices to 3 gates, all data-layer maps to 6 outputs, levels, widths, numbers of copies) is translated by the real tool; every output of the written circuit is evaluated and compared with the meaning of the source'
A_TRANSLATE = ['sources are well formed: variables are defined before use in increasing order, a summation range lies on the level directly below, the number of copies is a power of two', 'random inputs come from rand, which the harness supplies']
ZK_ACCEPT = ['zk_one_layer', 'zk_two_layers', 'zk_shapes', 'zk_one_gate', 'zk_large', 'zk_coins', 'zk_inputs', 'zk_depth', 'zk_parallel', 'zk_parallel_shapes']
ZK_SOUND = ['zk_sound_chain', 'zk_sound_far', 'zk_sound_pairs', 'zk_sound_lies', 'zk_every_message']
A_ZK = 'circuits are well formed: layer sizes powers of two (or one gate), wires in range, input values signed 64-bit numbers (a negative -k stands for p - k), dummy inputs written with zero fields, block descriptions matching the layers; one proof per prover and verifier object, as the program does'
A_COINS_ZK = 'coins come from rand and the GMP generator, both supplied by the harness; the key of the commitment is generated inside the prover (trusted setup)'
A_GROUP = 'the pairing library is not part of the repository: its groups are replaced by exponents modulo their order, so every equation of the schemes is decided exactly, and discrete logarithms are not hidden from the adversary'
A_SHA = 'jython runs the generator as the tests do; the meaning of the summation gate is the binary-weighted sum of tests/README.md; message words other than the first of a leaf are 32-bit numbers'
def part(b, g): return (b, g)
PROPS = {
    'F01': dict(quick='thorough', parts=[part('field', FIELD)], level='model_checking', rule='every operand tuple and operation sequence of the boundary alphabets, each result compared bit for bit with GMP arithmetic mod p; states are compared machine states, transitions compared operations',
                measure={'states': ['states_compared'], 'transitions': ['operations_compared', 'reductions_compared', 'conversions_compared'], 'traces': 'points'}, assumptions=['operands are reduced elements (0 <= x < p) or unreduced sums below 2^508', 'GMP computes correctly']),
    'F02': dict(quick='thorough', parts=[part('field', POLY)], level='model_checking', rule='every coefficient vector over the boundary alphabet for each degree; sums, products and values compared with GMP arithmetic mod p',
                measure={'states': ['states_compared'], 'transitions': ['coefficients_compared'], 'traces': 'points'}, assumptions=['GMP computes correctly']),
    'G01': dict(quick='thorough', parts=[part('gkr1', ACCEPT)], level='model_checking', rule=R_HONEST, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'G02': dict(quick='thorough', parts=[part('gkr1', VALUE)], level='model_checking', rule='every circuit text of the bounded families read by the real reader and evaluated by the real prover; every output compared with an independent evaluator',
                measure={'states': 'points', 'transitions': ['outputs_compared'], 'traces': ['points_checked']}, assumptions=[A_DOMAIN]),
    'G03': dict(quick='thorough', parts=[part('gkr1', SOUND)], level='model_checking', rule=R_CHEAT, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'G04': dict(quick='thorough', parts=[part('gkr1', FRESH), part('gkr2', FRESH), part('gkr3', FRESH), part('gkr4', FRESH)], level='model_checking', rule='for every circuit of the family and every single coin of the run, the run is repeated with that coin changed; every challenge must be changed by a coin that leaves all challenges the prover saw earlier unchanged',
                measure=RUNS, assumptions=[A_DOMAIN, 'a challenge is what the prover is handed; the quality of rand() itself is outside']),
    'T01': dict(quick='thorough', parts=[part('gkr2', ACCEPT + VALUE)], level='model_checking', rule=R_HONEST, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'T02': dict(quick='thorough', parts=[part('gkr2', SOUND)], level='model_checking', rule=R_CHEAT, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'B01': dict(quick='thorough', parts=[part('gkr3', ACCEPT + ['accept_blocks'] + VALUE)], level='model_checking', rule=R_HONEST, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'B02': dict(quick='thorough', parts=[part('gkr3', SOUND)], level='model_checking', rule=R_CHEAT, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'N01': dict(quick='thorough', parts=[part('gkr4', ACCEPT + VALUE)], level='model_checking', rule=R_HONEST, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'N02': dict(quick='thorough', parts=[part('gkr4', SOUND)], level='model_checking', rule=R_CHEAT, measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'N03': dict(parts=[part('gkr4_race', ['sched_shapes', 'sched_reps', 'sched_one_gate', 'sched_large'])], level='model_checking',
                rule='for every circuit of the families: all 24 orders of the thread bodies (the same in every fork-join pass, and, for the shape families, in each single pass), the three starting times, and for every pass in which two bodies touch a common address (one writing) every interleaving with up to two suspensions at those addresses; messages, outputs and verdict must be the same. Without contended addresses a pass has a single trace up to reordering of independent steps, so the exploration is complete',
                measure={'states': ['points_checked'], 'transitions': ['bodies_run', 'accesses'], 'traces': ['schedules']}, assumptions=[A_DOMAIN, 'threads are std::thread objects; sequential consistency (a racy program has no other guarantee anyway)']),
    'H01': dict(quick='thorough', parts=[part('gkr1', ['history']), part('gkr2', ['history']), part('gkr3', ['history']), part('gkr4', ['history'])], level='model_checking', rule='every sequence of three proofs over the circuit family, the first honest, rejected or evaluated only; every step must give what it gives alone; memory handed out is poisoned',
                measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'P01': dict(quick='thorough', parts=[part('gkr1', ['program_verdict']), part('gkr2', ['program_verdict']), part('gkr3', ['program_verdict']), part('gkr4', ['program_verdict']), part('zk', ['zk_program_verdict'])], level='model_checking', rule='every program, number of copies or blocks, circuit of the family and position of a single false claim; the whole program runs in process and what it prints is compared with the outcome',
                measure=RUNS, assumptions=[A_DOMAIN, A_COINS]),
    'M01': dict(parts=[part('gkr1_asan', MEM), part('gkr2_asan', MEM), part('gkr3_asan', MEM), part('gkr4_asan', MEM), part('zk_asan', ['zk_shapes', 'zk_parallel_shapes', 'zk_sound_lies', 'vpd_hiding', 'transcript_file', 'transcript_proof'])], level='model_checking', rule='every circuit shape and gate kind of the family, and rejections at every early check, executed under AddressSanitizer and UndefinedBehaviorSanitizer',
                measure=RUNS, assumptions=[A_DOMAIN, A_COINS, 'the sanitizers report every out-of-bounds or freed access they instrument']),
    'M02': dict(parts=[part('tool1_asan', GEN), part('tool2_asan', TRANSLATE + ['translate_sums']), part('tool3_asan', TRANSLATE), part('tool4_asan', TRANSLATE), part('field_asan', FIELD + POLY)], level='model_checking', rule='every generator run, source program and field operation of the bounded families of X01-X03, F01 and F02, executed under AddressSanitizer and UndefinedBehaviorSanitizer',
                measure={'states': 'points', 'transitions': ['gates_read', 'meta_lines_compared', 'operations_compared', 'coefficients_compared'], 'traces': 'points'}, assumptions=A_TRANSLATE + ['the sanitizers report every out-of-bounds or freed access they instrument']),
    'X01': dict(quick='thorough', parts=[part('tool1', GEN)], level='model_checking', rule='every mode, size and sequence of random draws of the bounded families; the real generator runs and every gate it writes is read and evaluated by an independent evaluator',
                measure=TOOLS, assumptions=['the generator draws its inputs with rand, which the harness supplies', 'modes 0, 1, 2 and 4 (mode 5 is an unfinished placeholder)']),
    'X02': dict(quick='thorough', parts=[part('tool2', TRANSLATE + ['translate_sums'])], level='model_checking', rule=R_TRANSLATE, measure=TOOLS, assumptions=A_TRANSLATE),
    'X03': dict(quick='thorough', parts=[part('tool3', TRANSLATE), part('tool4', TRANSLATE)], level='model_checking', rule=R_TRANSLATE, measure=TOOLS, assumptions=A_TRANSLATE),
    'Z01': dict(parts=[part('zk', ZK_ACCEPT)], level='model_checking', rule=R_HONEST, measure=RUNS, assumptions=[A_ZK, A_COINS_ZK]),
    'Z02': dict(parts=[part('zk', ZK_SOUND)], level='model_checking', rule=R_CHEAT, measure=RUNS, assumptions=[A_ZK, A_COINS_ZK, A_GROUP]),
    'Z03': dict(parts=[part('zk', ['zk_binding'])], level='model_checking', rule='every prover message (and every bit of a family of bits of it) of every circuit of the family is changed consistently with the checks that precede the next challenge; every later challenge must change',
                measure=RUNS, assumptions=[A_ZK, 'the hash behind the transcript is not attacked; opened values are not part of the transcript by design']),
    'Z04': dict(parts=[part('zk', ['zk_masks', 'zk_masks_inputs'])], level='model_checking', rule='for every circuit of the family every coin of the prover is moved up and down and the argument repeated; the exact rank of the directions in which the messages move is compared with the number of messages the verifier leaves free',
                measure=RUNS, assumptions=[A_ZK, 'rank is over the prime field at the explored challenges', A_GROUP]),
    'K01': dict(quick='thorough', parts=[part('zk', ['transcript_hash', 'transcript_binding', 'transcript_long', 'transcript_distinct', 'transcript_file', 'transcript_proof'])], level='model_checking', rule='every sequence of up to 5 entries (field element, group element, challenge) over the alphabets is put into the real transcript; the file it writes and the reported size are compared byte for byte, every single bit of every entry is changed and every pair of entries exchanged, and all challenges must change; all sequences over the value alphabet must give different challenges; the compression function is compared with AES-128 written from the standard for all blocks at one or two bits from the base blocks',
                measure={'states': ['points_checked'], 'transitions': ['challenges_checked'], 'traces': 'points'}, assumptions=[A_GROUP, 'at least one entry precedes a challenge, as in the protocol']),
    'V01': dict(quick='thorough', parts=[part('zk', ['vpd_honest', 'vpd_reject'])], level='model_checking', rule='every polynomial of the basis and dense families at every point of the alphabet grid is committed and opened by the real code; every component of every honest opening is then moved (every bit of the value, every witness, commitment, coordinate) and presented to the real verifier',
                measure={'states': 'points', 'transitions': ['openings_checked'], 'traces': ['points_checked']}, assumptions=[A_GROUP, 'the key is generated honestly']),
    'V02': dict(quick='thorough', parts=[part('zk', ['vpd_hiding'])], level='model_checking', rule='every coin of every commitment and opening of the family is changed; the exact rank of the directions in which the transmitted group elements move is compared with their number less the one relation the verifier checks',
                measure={'states': 'points', 'transitions': ['coins_moved'], 'traces': ['points_checked']}, assumptions=[A_GROUP, 'coins come from the GMP generator, supplied by the harness']),
    'S01': dict(parts=[part('sha', ['sha_accept', 'sha_forge', 'sha_bits', 'tree_translated'])], programs=['psdp', 'psdp_tests'], level='model_checking', rule='every departure of the adversary model (object x bit, honest afterwards) from every base computation, every bit input, every honest computation of the message family: the generated program is evaluated on the complete trace; states are points, transitions evaluated constraints', measure={'states': 'points', 'transitions': ['constraints_evaluated'], 'traces': ['traces_evaluated']}, assumptions=[A_SHA]),
    'S02': dict(parts=[part('sha', ['tree_layout', 'tree_check'])], level='model_checking', rule='every input position of every block of every tree size with and without padding is compared with its place in the tree; honest trees, other roots (every word) and forged inner nodes (every word) are evaluated block by block on the generated program', measure={'states': 'points', 'transitions': ['constraints_evaluated'], 'traces': ['traces_evaluated']}, assumptions=[A_SHA]),
}
