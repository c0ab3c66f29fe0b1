"""Shared by the checks."""
ALL = ['x86_default', 'x86_sse4', 'x86_avx2', 'aarch64', 'armhf']
ARM = ['aarch64', 'armhf']
ORDERS = ['rrr', 'rrc', 'rcr', 'rcc', 'crr', 'crc', 'ccr', 'ccc']
# kernel block (rows, cols, depth granule) per configuration: only steers the choice of sizes
KERN = {'x86_default': (4, 4, 16), 'x86_sse4': (12, 4, 2), 'x86_avx2': (24, 8, 2), 'aarch64': (12, 8, 2), 'armhf': (12, 4, 2)}
TRUST = ['clang 18 translation of /repo to LLVM IR (compiled with -fwrapv, no vectoriser) is faithful; counterexamples are replayed on the gcc build',
         'the executor\'s semantics of LLVM IR, SSE/AVX/NEON intrinsics and inline assembly (validated against native/qemu runs in this check)',
         'z3']
