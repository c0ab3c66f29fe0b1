prop('C08', 'Scalar fixed-point primitives have their documented integer meaning',
     'Each scalar fixed-point primitive (bitwise operations, shifts, masks and selects, comparisons, RoundingHalfSum, SaturatingRoundingDoublingHighMul, RoundingDivideByPOT, '
     'saturating/rounding multiplication by a power of two, saturating addition, Rescale, constants, FixedPoint operators) returns exactly its mathematical value for every operand, '
     'rounding to nearest with ties away from zero and saturating where documented.',
     ['inputs', 'configurations'], 'all operand values, every shift amount and power of two',
     'tests use about a thousand sample values and a few exponents',
     ['fixedpoint/fixedpoint.h'], [('generic templates and scalar specialisations', 'fixedpoint/fixedpoint.h')], ['fixedpoint/fixedpoint.h'])
prop('C09', 'SIMD fixed-point primitives equal the scalar ones in every lane',
     'Each SIMD fixed-point primitive on SSE4, AVX2 and NEON (32-bit and 16-bit lanes) computes in every lane exactly what the scalar primitive computes, for every combination of lane values, '
     'including saturation of INT_MIN*INT_MIN, ties, and masks in every lane (All/Any included).',
     ['inputs', 'configurations'], 'all lane values, every shift amount and power of two, four SIMD configurations',
     'tests sample values and never put the extreme operands in both inputs; the AVX2 path is not built by the tests for all types',
     ['fixedpoint/fixedpoint_sse.h', 'fixedpoint/fixedpoint_avx.h', 'fixedpoint/fixedpoint_neon.h'],
     [('specialisations per raw type', 'fixedpoint/fixedpoint_sse.h')], ['fixedpoint/fixedpoint.h'])
prop('C10', 'exp, tanh and logistic are accurate, and SIMD equals scalar',
     'exp_on_negative_values, tanh and logistic return a value within the documented tolerance of the true function (int16: 3, 13 and 7 units in the last place; int32: 501, 311 and 156) '
     'for every argument in their domain and every number of integer bits, and the SIMD instances return exactly the scalar result in every lane.',
     ['inputs', 'configurations'], 'all arguments of int16 and int32 fixed-point numbers; four SIMD configurations',
     'tests sample about a thousand arguments',
     ['fixedpoint/fixedpoint.h'], [('barrel shifter exponential, Newton division', 'fixedpoint/fixedpoint.h')], ['fixedpoint/fixedpoint.h'])
prop('C11', 'The multi-threaded GEMM result does not depend on threads or schedule',
     'A GEMM run on several threads stores exactly the single-threaded result in every entry and nothing elsewhere, whatever the number of threads, the order or interleaving of the tasks, '
     'the shape, storage orders, cache settings and offsets: the tasks of a call write disjoint memory and none reads what another writes.',
     ['inputs', 'schedules', 'configurations'], 'all operand values, all interleavings of the tasks, thread counts, shapes and orders',
     'tests run a few thread counts on the schedules that happen to occur',
     ['internal/multi_thread_gemm.h', 'internal/dispatch_gemm_shape.h'],
     [('row partition and GemmWithPackedRhsTask', 'internal/multi_thread_gemm.h')], ['public/gemmlowp.h'])
prop('C12', 'The worker pool runs every task exactly once, without races or deadlock',
     'Under every interleaving of the caller and the worker threads: when WorkersPool::Execute (either form) returns, each of its tasks has run exactly once, with an allocator that no other task uses at the same '
     'time, and its effects are visible to the caller; the pool can be used for further rounds with fewer or more tasks, and destroyed; no assertion fails, no data race and no use of freed memory '
     'occurs, and no thread waits forever (no lost wake-up, spurious wake-ups included).',
     ['schedules', 'histories'], 'all interleavings of up to two workers and the caller over one or two rounds of tasks', 'tests see the few schedules that happen to occur, on one machine',
     ['internal/multi_thread_gemm.h', 'internal/common.h'],
     [('Worker, BlockingCounter, WorkersPool, WaitForVariableChange', 'internal/multi_thread_gemm.h')], ['public/gemmlowp.h', 'internal/multi_thread_gemm.h'],
     note='Symbolic execution of every thread of the real pool code, all interleavings of the stated scenarios as one SMT problem per query (clocks, reads-from, mutexes); counterexample schedules replayed on the real code. '
          'Trusted: clang IR, the executor, z3, the POSIX semantics of the pthread calls; sequentially consistent interleavings plus a race query under the C++11 orders.',
     tech='symbolic execution of the threads of the real pool, partial-order SMT encoding of all interleavings, scheduled replay', level='model_checking')
prop('C04', 'GEMM reads only its operands and writes exactly its result entries',
     'A GEMM call reads no byte outside the operand, offset and parameter storage described by its arguments (matrices may end at the end of their allocation and have alignment 1), never writes the '
     'operands, writes every result entry and no other byte of the result storage (padding between rows or columns included), and its result does not depend on padding, on the previous result or on '
     'uninitialised memory, for every shape, stride, storage order, result type and cache setting.',
     ['inputs', 'configurations'], 'all operand values, shapes, strides, orders, result types, cache settings',
     'tests use over-sized, aligned buffers and do not look at what is read or at the padding',
     ['internal/pack*.h', 'internal/unpack.h', 'internal/simd_wrappers*.h', 'internal/kernel_*.h', 'internal/block_params.h', 'internal/allocator.h'],
     [('edge handling in packing and unpacking', 'internal/pack.h')], ['public/gemmlowp.h'])
prop('C16', 'A GEMM with a zero dimension returns at once and touches nothing',
     'When the number of rows, of columns or the depth is zero, every GEMM entry point returns without reading operands or offsets and without writing any result byte, for all values of the other two '
     'sizes, all storage orders and thread settings.',
     ['inputs', 'configurations'], 'all non-negative sizes with at least one zero',
     'tests try a handful of zero sizes', ['internal/dispatch_gemm_shape.h', 'public/gemmlowp.h'],
     [('early return', 'internal/dispatch_gemm_shape.h')], ['public/gemmlowp.h'])
prop('C13', 'The allocator gives out aligned, disjoint blocks over every history',
     'In every sequence of reserve/commit/use/decommit rounds on one allocator, each block handed out after a commit is cache-line aligned, lies inside the live storage, has room for the reserved '
     'elements and overlaps no other block of the round; an allocation failure aborts instead of returning; and all storage is freed exactly once when the allocator is destroyed.',
     ['inputs', 'histories', 'faults'], 'all block sizes and types, all sequences of rounds up to three, a failing system allocator',
     'the allocator test tries a few random sizes and one order', ['internal/allocator.h', 'internal/platform.h', 'internal/common.h'],
     [('Reserve, Commit, GetPointer, Decommit', 'internal/allocator.h')], ['internal/allocator.h'])
prop('C14', 'A GEMM result does not depend on what its context was used for before',
     'Any sequence of GEMM calls on one context, growing or shrinking, with different storage orders, thread counts and cache settings and empty products in between, gives each call exactly the '
     'result it has on a fresh context, and no later call disturbs an earlier result.',
     ['inputs', 'histories', 'configurations'], 'all operand values and offsets of every call; histories of calls',
     'tests reuse a context but compare only a few shapes in one order', ['internal/allocator.h', 'internal/single_thread_gemm.h', 'internal/multi_thread_gemm.h', 'internal/pack.h'],
     [('persistent allocator and context settings', 'internal/allocator.h')], ['public/gemmlowp.h'])
prop('C15', 'Cache blocking and thread counts always respect the kernel and the request',
     'For every positive matrix size, cache size, L2 share and thread count, the chosen block sizes are positive multiples of the kernel\'s rows, columns and depth, l2_depth covers the whole depth, L1 '
     'blocks fit in L2 blocks and L2 blocks in the (rounded-up) matrix; and the number of threads chosen for a GEMM is between 1 and the requested maximum, with at least one row slice per thread.',
     ['inputs', 'configurations'], 'all sizes, cache sizes, thread counts within the bounds, symbolically',
     'a wrong block size shows only for particular size/cache combinations', ['internal/block_params.h', 'internal/multi_thread_gemm.h', 'internal/common.h'],
     [('FindL2BlockSizes, FindL1BlockSizes', 'internal/block_params.h'), ('HowManyThreads', 'internal/multi_thread_gemm.h')], ['public/gemmlowp.h'])
prop('C17', 'EightBitIntGemm computes the product for every layout and history',
     'EightBitIntGemm with uint8 results stores the rounded, saturated requantization of the integer product, and with float results stores float(integer product)*c_offset, at the place given by the '
     'transposition flags and leading dimensions, for every combination of flags and bit-depth settings, whatever calls came before; padding is left alone, and a zero m, n or k leaves the result untouched.',
     ['inputs', 'histories', 'configurations'], 'all operands, offsets, multipliers, all transposition flags; sequences of two calls',
     'tests use a few random matrices and only some flag combinations', ['eight_bit_int_gemm/eight_bit_int_gemm.cc'],
     [('dispatch on transposition, global scratch', 'eight_bit_int_gemm/eight_bit_int_gemm.cc')], ['eight_bit_int_gemm/eight_bit_int_gemm.h'])
prop('C21', 'Matrix and vector views address exactly the described entries',
     'MatrixMap(row, col), VectorMap(index) and VectorDup give the entry at that position of the described storage for every size, stride, storage order and position, and a block of a view (or of a '
     'block) is the view of exactly that part, with the same stride.',
     ['inputs'], 'all sizes, strides, positions and block bounds below 2^15',
     'no direct tests of the views', ['public/map.h'], [('data(), block()', 'public/map.h')], ['public/map.h'])
prop('C22', 'Integer helpers satisfy their definitions',
     'RoundDown and RoundUp return the nearest multiple of the modulus not above / not below the argument, CeilQuotient the quotient rounded up, and RoundUpToPowerOfTwo the smallest power of two not '
     'below its argument, for every representable non-negative argument of int and size_t.',
     ['inputs', 'configurations'], 'all arguments', 'no tests of the helpers; large arguments never occur in tests', ['internal/common.h'],
     [('rounding helpers', 'internal/common.h')], ['internal/common.h'])
prop('C23', 'The quantized GEMM is exact end to end',
     'Gemm() with uint8 results stores in every entry clamp(round((acc + result_offset) * multiplier / 2^shift), 0, 255), rounding ties away from zero, where acc is the exact sum of '
     '(lhs+lhs_offset)*(rhs+rhs_offset), for every operand, offset, result offset and multiplier without overflow, at every shape, storage order, stride and cache setting.',
     ['inputs', 'configurations'], 'all operands, offsets and multipliers; shapes, orders, shifts', 'tests accept a tolerance against a reference and sample values',
     ['public/gemmlowp.h', 'internal/*.h'], [('Gemm -> GemmWithOutputPipeline', 'public/gemmlowp.h')], ['public/gemmlowp.h'])
prop('C24', 'Every kernel format packs, multiplies and unpacks correctly',
     'With the portable kernel on any kernel format - depth-major, width-major or diagonal cells, one or several cells per side, sizes that are not powers of two - the GEMM stores exactly the integer '
     'product, for every operand, offset, storage order, stride and cache setting.',
     ['inputs', 'configurations'], 'all operand values and offsets; eleven kernel formats', 'tests sample pseudo-random operands', ['internal/pack.h', 'internal/kernel_reference.h', 'internal/kernel.h', 'internal/compute.h'],
     [('OffsetIntoCell, generic packing', 'internal/kernel.h')], ['internal/single_thread_gemm.h'])
