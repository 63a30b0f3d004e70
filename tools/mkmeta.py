#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (keeps the two in step with the checks that exist)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I, CF, SC, HI, PR = 'inputs', 'configurations', 'schedules', 'histories', 'programs'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

TST = 'The existing tests run six sizes per dimension {1,10,96,111,960,2111}, 2-4 threads, the tile sizes derived for one machine and one register tile, on one random matrix each'
DIMS = 'all M, N, K >= 1, thread counts, positive tile sizes that are multiples of the register tile, and all matrix contents'

prop('C01', 'K-first product is exact for every shape and tiling',
 'Multiplying with the K-first schedule leaves in every element C[i][j] the sum over all k of A[i][k]*B[k][j], each product counted exactly once, whatever C held before. This holds for every shape, including exact multiples of the tiles, single remainders, and shapes smaller than a tile, and for every thread count and caller-chosen tile size.',
 [I, CF], DIMS, TST + '; a wrong block order, remainder or last-core size outside those shapes is invisible to them.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_k_first.cpp', 'src/pack_k_first.cpp', 'src/unpack_k_first.cpp', 'src/block_sizing.cpp'],
 [('block loop nest with serpentine order and partial-result write-out', 'src/cake_sgemm_k_first.cpp schedule_KMN'), ('operand packing', 'src/pack_k_first.cpp'), ('block counts and remainders', 'src/block_sizing.cpp init_block_dims')],
 [('block dimensions', 'numbers of blocks, remainder sizes, last-core sizes', 'include/common.h blk_dims_t')])
prop('C02', 'M-first product is exact for every shape and tiling',
 'Multiplying with the M-first schedule leaves in every element C[i][j] the sum over all k of A[i][k]*B[k][j] (plus the previous C when accumulation is requested), each product counted exactly once. This holds for every shape, thread count and caller-chosen tile size.',
 [I, CF], DIMS, TST + '; K-split remainders across threads and the reversed traversals need block counts they never produce.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_m_first.cpp', 'src/pack_m_first.cpp', 'src/unpack_m_first.cpp', 'src/block_sizing.cpp'],
 [('block loop nest, threads split the M blocks, cores split K', 'src/cake_sgemm_m_first.cpp schedule_MKN'), ('operand packing', 'src/pack_m_first.cpp'), ('result unpacking', 'src/unpack_m_first.cpp')])
prop('C03', 'N-first product is exact for every shape and tiling',
 'Multiplying with the N-first schedule leaves in every element C[i][j] the sum over all k of A[i][k]*B[k][j] (plus the previous C when accumulation is requested), each product counted exactly once. This holds for every shape, thread count and caller-chosen tile size.',
 [I, CF], DIMS, TST + '.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_n_first.cpp', 'src/pack_n_first.cpp', 'src/unpack_n_first.cpp', 'src/block_sizing.cpp'],
 [('block loop nest, threads split the N blocks', 'src/cake_sgemm_n_first.cpp schedule_NKM'), ('operand packing', 'src/pack_n_first.cpp'), ('result unpacking', 'src/unpack_n_first.cpp')])
prop('C04', 'On-the-fly packing product equals the product of the operands',
 'The variant that packs each block of A and B just before using it produces the same exact product: C[i][j] is the sum over all k of A[i][k]*B[k][j], whatever C held before. Packed blocks that are kept from one step to the next are only reused when they are the blocks the next step needs.',
 [I, CF], DIMS, TST + '; reuse of a stale packed block needs particular parities and counts of blocks in two dimensions.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_k_first.cpp', 'src/pack_ob.cpp'],
 [('reuse of packed blocks at the turns of the traversal', 'src/cake_sgemm_k_first.cpp schedule_KMN_online'), ('edge tile packing', 'src/pack_ob.cpp')])
prop('C05', '2D-partitioned product equals the product of the operands',
 'The variant that divides every block over a two-dimensional grid of threads produces the exact product: C[i][j] is the sum over all k of A[i][k]*B[k][j], whatever C held before, for every shape, thread count (including primes) and tile size.',
 [I, CF], 'all M, N, K >= 1, thread counts and grids, tile sizes, and all matrix contents', TST + '; grids other than those of 2, 3 and 4 threads are never built.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_k_first.cpp', 'src/block_sizing.cpp'],
 [('grid block loop nest', 'src/cake_sgemm_k_first.cpp schedule_KMN_2d'), ('grid and tile sizing', 'src/block_sizing.cpp init_block_dims_2d')])
prop('C06', 'Automatic tiling is valid and correct for every cache geometry',
 'For every plausible cache geometry, core count, thread count and shape, the automatically chosen tile sizes are positive and the tile of each result block is a multiple of the register tile. The multiplication with automatically chosen tiles returns the exact product.',
 [I, CF], 'all L1/L2/L3 sizes in the range of real machines, core counts, thread counts and shapes', 'The tests only see the cache sizes of the machine they run on.',
 ['src/block_sizing.cpp', 'src/cake_sgemm.cpp'],
 [('cache-derived tile sizes', 'src/block_sizing.cpp get_cache_dims'), ('2D tile sizes', 'src/block_sizing.cpp init_block_dims_2d')])
prop('C07', 'A multiplication touches only the memory it was given',
 'No multiplication reads outside the M*K elements of A or the K*N elements of B, writes outside the M*N elements of C, writes to A or B, or reads or writes outside (or uninitialised parts of) its own working buffers. This holds for every shape, thread count and tiling.',
 [I, CF], DIMS, TST + ' and without a memory checker: an over-read, or a write past a buffer, goes unnoticed.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_k_first.cpp', 'src/cake_sgemm_m_first.cpp', 'src/cake_sgemm_n_first.cpp', 'src/pack_helper.cpp', 'src/pack_ob.cpp', 'src/pack_k_first.cpp', 'src/pack_m_first.cpp', 'src/pack_n_first.cpp', 'src/unpack_k_first.cpp'],
 [('buffer sizes', 'src/pack_helper.cpp cake_sgemm_packed_A_size and siblings'), ('edge tiles go through a padding packer', 'src/pack_ob.cpp'), ('bounded write-back', 'src/unpack_k_first.cpp')])
prop('C08', 'Concurrent threads never conflict within a multiplication',
 'Within one parallel phase of a multiplication, no two threads access the same memory location unless both only read it. The result therefore does not depend on how the threads are scheduled.',
 [SC, I, CF], 'all interleavings of the threads of every parallel phase, for all shapes, thread counts and tile sizes', 'A race rarely changes a result on an idle test machine, and the tests run no race detector.',
 ['src/cake_sgemm_k_first.cpp', 'src/cake_sgemm_m_first.cpp', 'src/cake_sgemm_n_first.cpp', 'src/pack_k_first.cpp', 'src/pack_m_first.cpp', 'src/pack_n_first.cpp', 'src/unpack_k_first.cpp'],
 [('private variables and disjoint buffers per core', 'the parallel loops of the listed files')])
prop('C09', 'Every microkernel adds exactly the outer-product sum of its panels',
 'For every supported register tile and every depth k >= 1, the microkernel adds to each element of its result tile the sum over the depth of the matching elements of the two panels, and reads and writes nothing but its panels and its tile.',
 [I, CF], 'all supported register tiles, all depths, all panel and tile contents', 'The tests run one register tile, and only depths that the default tiling produces.',
 ['src/kernels/haswell/dense.cpp', 'python/kernel_gen.py'],
 [('generated vector kernels', 'python/kernel_gen.py'), ('kernel table', 'include/kernels.h (generated)')])
prop('C10', 'Changing the register tile keeps every product exact',
 'After the register tile of a context is changed to any supported shape, every multiplication with that context still returns the exact product: the kernel that runs, the packing and the block arithmetic all use the new shape.',
 [CF, I], 'all supported register tiles, for all shapes, thread counts and tilings', 'The tests never change the register tile.',
 ['src/block_sizing.cpp', 'include/kernel_wrapper.h', 'src/cake_sgemm_k_first.cpp', 'src/cake_sgemm_m_first.cpp', 'src/cake_sgemm_n_first.cpp'],
 [('tile change and kernel index', 'src/block_sizing.cpp update_mr_nr'), ('kernel dispatch', 'include/kernel_wrapper.h')])
prop('C11', 'Operands packed in advance give the same product',
 'Packing A or B in advance with the public packing functions, into a buffer of the size the library reports, and passing it as a packed operand gives the same exact product as passing the plain matrix, for every schedule, shape, thread count and tiling.',
 [I, CF], DIMS, 'No test passes a packed operand.',
 ['src/pack_helper.cpp', 'src/cake_sgemm.cpp'],
 [('packed sizes', 'src/pack_helper.cpp cake_sgemm_packed_A_size, cake_sgemm_packed_B_size'), ('packed operand flags', 'src/cake_sgemm.cpp')])
prop('C12', 'Accumulation adds the product to the previous result',
 'A multiplication asked to accumulate (beta = 1) with the M-first or N-first schedule leaves in C the previous contents plus the product; one that is not asked to (beta = 0) leaves the product alone, independent of the previous contents.',
 [I, CF], DIMS + ', and all previous contents of C', 'Every test passes beta = 0 and a zeroed C.',
 ['src/cake_sgemm.cpp', 'src/pack_m_first.cpp', 'src/pack_n_first.cpp', 'src/pack_k_first.cpp'],
 [('packing of C before the schedule runs', 'src/pack_helper.cpp pack_C'), ('zeroed buffer otherwise', 'src/cake_sgemm.cpp')])
prop('C13', 'Packing the result matrix and unpacking it is the identity',
 'Packing a matrix C into the blocked layout of a schedule and unpacking it again reproduces every element, for every shape, thread count, register tile and tiling; neither direction touches memory outside the matrix or a buffer of the size the library reports.',
 [I, CF], DIMS, 'No test calls the packing of C.',
 ['src/pack_k_first.cpp', 'src/pack_m_first.cpp', 'src/pack_n_first.cpp', 'src/unpack_k_first.cpp', 'src/unpack_m_first.cpp', 'src/unpack_n_first.cpp', 'src/pack_helper.cpp'],
 [('block layout of C', 'pack_C_single_buf_* and unpack_C_single_buf_*')])
prop('C14', 'Block dimensions partition the iteration space',
 'The blocks computed for a multiplication cover each dimension exactly: full blocks plus the remainder add up to the dimension rounded up to whole register tiles (for the depth: exactly), and the shares of the cores in a remainder block are non-empty, at most the share of the others for the last core, and add up to the remainder. Counts are consistent with the padding flags.',
 [I, CF], 'all shapes, thread counts, register tiles and tile sizes, for each schedule', 'The tests see block dimensions only through a final product at six sizes.',
 ['src/block_sizing.cpp'],
 [('block arithmetic', 'src/block_sizing.cpp init_block_dims, init_block_dims_2d')])
prop('C15', 'The thread grid is always a factorisation of the thread count',
 'For every shape and every thread count the 2D grid has a column count between 1 and the number of threads that divides it, so rows times columns is the thread count.',
 [I, CF], 'all shapes and thread counts within the bound', 'The tests build grids for 2, 3 and 4 threads only.',
 ['src/block_sizing.cpp'], [('grid selection', 'src/block_sizing.cpp grid_dims_2d')])
prop('C16', 'The schedule used is the one asked for, or a valid derived one',
 'A multiplication uses the schedule the caller names; when the caller leaves the choice to the library it derives one of the three schedules deterministically from the shape, threads and caches, and the product is exact with the derived schedule.',
 [I, CF], 'all shapes, thread counts, cache geometries and schedule arguments', 'Every test names a schedule; the derivation never runs.',
 ['src/block_sizing.cpp', 'src/cake_sgemm.cpp'], [('schedule derivation', 'src/block_sizing.cpp derive_schedule, get_cache_dims')])
prop('C17', 'Transposition moves every element to its mirrored place',
 'Both transposition routines store element (i,j) of the source at (j,i) of the destination, for every shape and every block size, touch nothing outside the two matrices, and leave the source unchanged.',
 [I, CF], 'all shapes and block sizes, all contents', 'No test calls either routine.',
 ['src/transpose.cpp', 'src/kernels/haswell/transpose_haswell.cpp', 'src/util.cpp'],
 [('blocked vector transposition', 'src/transpose.cpp transpose_mat'), ('plain transposition', 'src/util.cpp transpose')])
prop('C18', 'The result checkers report wrong results and only wrong results',
 'The comparison of two matrices reports a difference exactly when some pair of elements differs by more than the tolerance or is incomparable (NaN on one side), at any position; the product checker compares against the true product of its operands and the sum checker against the true sum of its arrays.',
 [I], 'all matrix contents, including NaN, infinities and signed zeros, and all small shapes', 'The tests only ever show the checkers correct results of the same library.',
 ['src/util.cpp'], [('comparison with tolerance', 'src/util.cpp mat_equals, cake_sgemm_checker, add_checker')])
prop('C19', 'The machine query always yields a usable context',
 'Whatever the system commands it runs print, or if they print nothing, the machine query returns a fully initialised context: at least one core, a consistent register tile and kernel index, cache sizes that are those printed (in K, M units) or documented fallbacks, and no out-of-bounds access while parsing.',
 [I, CF], 'all outputs of the system commands within the length bound', 'The tests see the output of one machine.',
 ['src/block_sizing.cpp'], [('command output parsing', 'src/block_sizing.cpp get_cache_size, get_num_physical_cores'), ('context construction', 'src/block_sizing.cpp cake_query_cntx, cake_query_cntx_torch')])
prop('C20', 'A multiplication or query releases everything it acquired',
 'Every multiplication frees exactly once every buffer it allocates and nothing of the caller; every machine query closes every stream it opens. Nothing is used after it is released.',
 [I, CF], 'all shapes, thread counts, tilings, flags and command outputs', 'The tests run each multiplication a few times in a process that exits; leaks and double frees of rare paths are invisible.',
 ['src/cake_sgemm.cpp', 'src/cake_sgemm_k_first.cpp', 'src/block_sizing.cpp'], [('matching allocation and release', 'the entry points of src/cake_sgemm.cpp')])
prop('C21', 'Index arithmetic never overflows for operands within the size bound',
 'No size, offset or index computed during a multiplication overflows its machine type as long as the padded operands and result have fewer than 2^31 elements, and no conversion from floating point leaves the range of its target.',
 [I, CF], 'all shapes, thread counts and tilings whose padded operands stay below the bound', 'The largest test matrix has 4.5 million elements.',
 ['src/block_sizing.cpp', 'src/pack_helper.cpp', 'src/cake_sgemm_k_first.cpp', 'src/cake_sgemm_m_first.cpp', 'src/cake_sgemm_n_first.cpp'], [('32-bit index arithmetic', 'all block loops')])
prop('C22', 'A result does not depend on what the context was used for before',
 'A context can be reused for any sequence of multiplications with different shapes, threads, tilings and schedules: each result, and each choice of blocks, is the one a fresh context would give. A multiplication leaves the machine description of the context unchanged.',
 [HI, I, CF], 'all histories of uses of a context (arbitrary values in the fields a use may change)', 'Tests reuse a context in one fixed order and check nothing about it.',
 ['src/block_sizing.cpp', 'src/cake_sgemm.cpp'], [('the block shape factor is recomputed before it is read', 'src/block_sizing.cpp get_cache_dims')],
 [('block shape factor', 'scratch field rewritten by every use', 'include/common.h cake_cntx_t')])
prop('C23', 'A product with externally supplied machine code kernels is exact',
 'The vendor-library build (external microkernels and packing routines in hand-written assembly) returns the same exact product as the built-in kernels.',
 [I, CF], DIMS, 'That build needs a library that is not installed; no test runs it.',
 ['src/kernels/haswell/sparse.cpp', 'include/bli_x86_asm_macros.h', 'src/linear.cpp'], [('external kernels', 'include/kernel_wrapper.h')])
prop('C24', 'The autotuner never returns a tiling worse than its start',
 'The search for tile sizes by simulated annealing terminates and returns valid tile sizes whose measured cost is no worse than the start.',
 [I, HI], 'all random choices and measurements', 'No test runs it.',
 ['src/autotune_sa.cpp'], [('annealing loop', 'src/autotune_sa.cpp')])

prop('C25', 'Every kernel the generator can emit is exact and reachable',
 'For both architectures the kernel generator supports (haswell and armv8) and for any limits it is given, it emits for every register tile from the smallest up to the limits a kernel and a table entry. After the register tile of a context is changed to such a tile, the microkernel call adds to each element of the result tile the sum over the depth of the matching elements of the two panels, for every depth k >= 1, and reads and writes nothing but its panels and its tile.',
 [PR, I, CF], 'all generator limits, both architectures, all register tiles within the limits, all depths and contents', 'Tests use the kernels of one pair of limits on one architecture, and of those only the smallest register tile.',
 ['python/kernel_gen.py', 'include/kernel_wrapper.h', 'src/block_sizing.cpp'], [('kernel text per register tile', 'python/kernel_gen.py gen_kernel, class Haswell, class Armv8'), ('kernel table', 'python/kernel_gen.py gen_dense_kernel_headers'), ('index of the tile', 'src/block_sizing.cpp update_mr_nr')])
prop('C26', 'The armv8 build computes the same exact product',
 'Built for armv8 (its macros, its generated kernels and its register tiles), every multiplication entry point returns the exact product and stays within the memory it was given, the machine query yields a context whose register tile and kernel index belong to the armv8 kernels, and the block dimensions partition the iteration space.',
 [PR, I, CF], DIMS + ', with the armv8 register tiles', 'No test can run that build on the machine the tests run on.',
 ['src/block_sizing.cpp', 'include/common.h', 'include/kernel_wrapper.h', 'include/packing.h', 'python/kernel_gen.py', 'src/cake_sgemm.cpp'], [('architecture branches', 'src/block_sizing.cpp, include/common.h, include/kernel_wrapper.h, include/packing.h (USE_CAKE_ARMV8)'), ('generated kernels', 'python/kernel_gen.py class Armv8')])

sys.path.insert(0, os.path.join(HERE, 'tools'))
from claims import CLAIMS, NA
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in P]
checks = []
for p in P:
    c = CLAIMS.get(p['id'])
    if not c: continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt lib/check.py %s' % p['id'], thorough_cmd='python3-vt lib/check.py %s thorough' % p['id'],
                       technique=c[0], level=c[1], level_note=c[2]))
na = [dict(property=i, reason=NA.get(i, 'not claimed yet')) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd='python3-vt lib/setup.py', checks=checks, not_applicable=na,
         notes='All checks rebuild their encoding from /repo on every run; see DESIGN.md. Known findings are in known-findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
for p in P:
    assert len(p['title']) <= 80, p['id']
