T = 'symbolic execution of the compiler IR with symbolic sizes, obligations discharged by z3 (nonlinear integer arithmetic via product lemmas)'
PATHN = ('For each family (entry point, thread count, register tile, bound on full blocks per dimension) every path is executed on clang IR with M, N, K and tile sizes symbolic; '
         'z3 proves each obligation for all values on the path. Paths that are not proved are reported as inconclusive and their models replayed on the real code; only a reproduced failure is a violation. '
         'Assumes exact sums, mathematical integers, and the microkernel contract (C09).')
CLAIMS = {
 'C01': (T, 'model_checking', PATHN),
 'C02': (T, 'model_checking', PATHN),
 'C03': (T, 'model_checking', PATHN),
 'C04': (T, 'model_checking', PATHN),
 'C05': (T, 'model_checking', PATHN),
 'C07': (T, 'model_checking', PATHN + ' Obligations here: bounds, initialisation, const operands, heap use.'),
 'C10': (T, 'model_checking', PATHN + ' Families with the register tiles 6x32, 8x16 and 8x32.'),
 'C11': (T, 'model_checking', PATHN + ' The caller packs with init_block_dims, the size functions and pack_A/pack_B; both are executed symbolically.'),
 'C12': (T, 'model_checking', PATHN + ' Families with beta = 1; three known findings are replayed and listed.'),
 'C16': (T, 'model_checking', PATHN + ' The schedule that the derivation returns is fixed per family and the call is made with NA.'),
 'C14': (T, 'model_checking', 'init_block_dims and init_block_dims_2d are executed for fixed thread counts, grids and register tiles with M, N, K and tile sizes symbolic; z3 proves each field relation for all values on every path. Integers are mathematical; at most one or two full register-tile multiples are fixed per family.'),
 'C09': (T, 'model_checking', 'Each generated register-tile kernel is executed from its IR (intrinsics as lane-wise fused multiply-add over exact reals) with the depth k symbolic: the depth loop is summarised by induction and every lane of C is proved to be C0 + sum over k of A*B. Sums are exact (no rounding); alignment of A/B/C accesses is an obligation.'),
 'C13': (T, 'model_checking', 'pack_C followed by unpack_C with the blocks of init_block_dims: symbolic M, N and tiles within each family (schedule, threads, register tile, bound on full blocks); round trip, bounds and untouched source are obligations.'),
 'C17': (T, 'model_checking', 'transpose and transpose_mat with symbolic matrix sizes; transpose_mat for fixed tile sizes (the ones listed in the evidence). The cover of every destination element by exactly the mirrored source element is one z3 query per path.'),
 'C25': (T, 'model_checking', 'The generator of the current tree is run for several limits on both architectures (the limits are in the evidence: up to 14x64 and 14x48 quick, 24x128 and 24x96 thorough); each generated kernel is executed from IR of its own target (AVX; NEON on aarch64) through update_mr_nr and the dispatch, with the depth k and the previous tile symbolic. Sums are exact. Counterexamples on armv8 are replayed on the host with a portable stand-in for the NEON intrinsics.'),
 'C26': (T, 'model_checking', PATHN + ' The tree is generated and lowered for aarch64 as the Makefile does; all entry points with armv8 register tiles, its kernels, block sizing and machine query. Replays on the host with a portable stand-in for the NEON intrinsics.'),
 'C06': (T, 'model_checking', 'get_cache_dims and init_block_dims_2d are executed with M, N, K and the L2 and L3 sizes symbolic (square roots over interval bounds with outward rounding): tiles are positive multiples of the register tile; the product with arbitrary such tiles is decided by the contract families. Thread counts, core counts and register tiles as listed in the evidence.'),
 'C15': (T, 'model_checking', 'grid_dims_2d for each listed thread count; the rounded square root is an arbitrary non-negative integer, so every real shape is covered.'),
 'C18': ('symbolic execution of the compiler IR with symbolic matrix contents; z3 decides floating point (mat_equals, add_checker) and real (product checker) queries per path', 'model_checking', 'The checkers are executed for small fixed shapes with every matrix element a free IEEE single value (or exact real for the product): on each path z3 proves that the answer is "different" when some pair differs by more than the tolerance or is incomparable, and "equal" when all agree, up to a 5 % band around the tolerance.'),
 'C19': (T, 'model_checking', 'The query functions run on symbolic command output: every length of digits up to the bound, each digit symbolic, or no output; libc string functions and popen are modelled. Obligations: result relations, initialised fields, buffer bounds, streams closed.'),
 'C20': (T, 'model_checking', PATHN + ' Obligation: at the end of every path each heap block the call made is freed exactly once and no stream is open; with and without a context given.'),
 'C22': (T, 'model_checking', PATHN + ' The scratch field of the context is uninitialised at entry, so any read of a value left by an earlier call is a failed obligation; every other field must be unchanged at the end.'),
 'C21': (T, 'model_checking', PATHN.replace('mathematical integers', 'operands, result and blocks below 2^31 elements after padding') + ' Obligation: the exact value of every signed 32-bit operation and of every conversion to int on the path lies in the range of int. Candidates are replayed with operands near the bound under the sanitizers.'),
 'C08': (T + '; pairs of accesses of two arbitrary iterations', 'model_checking', PATHN + ' Obligation: the footprints of two arbitrary iterations of a parallel loop are disjoint unless both read.'),
}
NA = {
 'C23': 'The vendor build needs headers and machine-code kernels that are not in the sandbox; the code cannot be compiled to IR here.',
 'C24': 'The autotuner is not part of the built library (not compiled by build.sh) and its cost is a wall-clock measurement; there is no deterministic semantics to encode.',
}
