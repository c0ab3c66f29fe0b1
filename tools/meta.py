#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the compiled code (LLVM IR + inline assembly) with z3 deciding every obligation'
NOTE = ('Bounded: z3 decides the property for every value of the symbolic inputs at the listed concrete shapes/parameters; '
        'trusts clang IR generation, the executor (validated against native/qemu runs) and z3.')
P = []


def prop(i, title, statement, over, text, why, files, mech, observe=(), note=NOTE, tech=TECH, level='other', na=None):
    P.append(dict(id=i, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=list(observe),
                  note=note, tech=tech, level=level, na=na))


prop('C01', 'GEMM computes the exact integer matrix product',
     'A GEMM of uint8 matrices with an empty output pipeline stores in every result entry exactly the sum over the depth of (lhs+lhs_offset)*(rhs+rhs_offset), '
     'modulo 2^32, whatever the operand values, offsets, sizes, storage orders, strides and cache-size settings, on every supported kernel (portable, SSE4, AVX2, NEON 32/64).',
     ['inputs', 'configurations'], 'all operand bytes and offsets, all shapes/orders/strides, cache settings, five build configurations',
     'tests sample pseudo-random operands at a few shapes and mostly compare against a reference with the same offsets',
     ['internal/pack*.h', 'internal/kernel_*.h', 'internal/compute.h', 'internal/unpack.h', 'internal/single_thread_gemm.h', 'internal/dispatch_gemm_shape.h'],
     [('pack / compute / unpack', 'internal/single_thread_gemm.h'), ('offset terms from slice sums', 'internal/unpack.h')], ['public/gemmlowp.h'])
prop('C02', 'Kernels for restricted operand ranges are exact on those ranges',
     'With bit-depth parameters that promise a restricted operand range (left operand never 0, or never -128 for int8 inputs; small right operand), the GEMM result is still the exact '
     'integer product for every operand in the promised range, at every depth, including where intermediate 16-bit accumulation could overflow.',
     ['inputs', 'configurations'], 'all operand values in the declared range, all offsets, depths and shapes',
     'the overflow-critical operand values are rare and never sampled; tests use random data',
     ['internal/kernel_neon.h', 'internal/kernel_default.h', 'public/bit_depth.h', 'internal/pack_neon.h'],
     [('int8-operand NEON kernels, 12-bit product kernel', 'internal/kernel_neon.h')], ['public/gemmlowp.h'])
prop('C03', 'Per-channel zero points apply to their own row and column',
     'When an offset per left-hand row and/or per right-hand column is given, result entry (i,j) is the sum of (lhs_ik + left_offset_i)*(rhs_kj + right_offset_j), for every offset vector, '
     'shape, storage order and cache blocking, including wide results.',
     ['inputs', 'configurations'], 'all operand bytes and offset vectors, shapes, orders, cache settings',
     'tests exercise one per-channel case with constant offsets',
     ['public/gemmlowp.h', 'internal/unpack.h', 'internal/dispatch_gemm_shape.h', 'internal/simd_wrappers*.h', 'public/map.h'],
     [('offset vectors sliced per block and transposed with the problem', 'internal/single_thread_gemm.h')], ['public/gemmlowp.h'])
prop('C05', 'Integer requantization rounds to nearest, ties away from zero',
     'The quantize-down stages (global or per-channel offset and multiplier) map an accumulator x to (x+offset)*mult divided by 2^shift, rounded to nearest with ties away from zero, '
     'for every int32 x, offset, multiplier and shift 0..31 for which the product does not overflow, identically at every position of the result; per-channel parameters are those of the entry\'s own row or column.',
     ['inputs', 'configurations'], 'all accumulators, offsets and multipliers, every shift, every register-block position',
     'tests sample a few accumulators and shifts; ties and extreme values are not reached on the SIMD paths',
     ['internal/output.h', 'internal/output_sse.h', 'internal/output_neon.h', 'public/output_stages.h'],
     [('OutputStageEvalImpl', 'internal/output.h')], ['public/gemmlowp.h'])
prop('C06', 'Fixed-point multiplier stages are exact and saturating',
     'The fixed-point requantization stages map an accumulator x to round(sat_round(x*2^left * mult / 2^31) / 2^right) + offset, where the high multiplication saturates only for '
     'INT_MIN*INT_MIN and the right shift rounds ties away from zero, for every int32 x and multiplier and every shift or exponent, globally or per channel, on every SIMD path.',
     ['inputs', 'configurations'], 'all accumulators, multipliers, offsets; every shift and exponent',
     'tests use one multiplier/shift per run; saturation and ties are not reached',
     ['internal/output.h', 'fixedpoint/fixedpoint*.h', 'public/output_stages.h'],
     [('SaturatingRoundingDoublingHighMul, RoundingDivideByPOT', 'fixedpoint/fixedpoint.h')], ['public/gemmlowp.h'])
prop('C07', 'Bias, clamp and cast stages are exact at every result position',
     'Bias addition adds the bias of the entry\'s own row (column vector) or column (row vector); clamping limits to [min,max]; saturating casts to uint8/int8/int16 limit to the type\'s range; '
     'and each result entry is stored at its own position, for every accumulator, bias, bound, result shape and storage order.',
     ['inputs', 'configurations'], 'all accumulators, biases and bounds; all result shapes and orders',
     'tests sample values; lane- or position-dependent errors at block borders are missed',
     ['internal/output*.h', 'internal/unpack.h', 'internal/simd_wrappers*.h', 'public/output_stages.h'],
     [('register-block stages and stores', 'internal/output.h')], ['public/gemmlowp.h'])
exec(open(os.path.join(ROOT, 'tools', 'meta_more.py')).read()) if os.path.exists(os.path.join(ROOT, 'tools', 'meta_more.py')) else None

P.sort(key=lambda p: p['id'])
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                                        'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt check.py %s quick' % p['id'], 'thorough_cmd': 'python3-vt check.py %s thorough' % p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['tech'], 'level': p['level'], 'level_note': p['note']} for p in P if not p['na']],
     'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']],
     'notes': 'No hooks in /repo; five fix: commits (see known_findings.json).'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
