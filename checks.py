"""Registry of the checks: property -> harness units (see check.py)."""
import os

FLOATS = ('float', 'double', 'long double')
SAN = ['-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']
MEM = ['-DVH_MEMONLY', '-DVH_LEAK'] + SAN
A_FP = 'floating point results are compared within a running error bound of the reference computation (16 times the first order rounding bound of the operation sequence)'
A_API = 'only the public interface is used; the reference model is written from the mathematics, not from the code'
A_ULP = 'results of one elementary function are compared with a quadruple precision evaluation within a few tens of units in the last place, scaled by the condition of the reference formula'


def T(real):
    return real.replace(' ', '')


def um(name, mon, **k):
    flags = ['-DMON=%d' % mon] + k.pop('flags', [])
    return dict(name=name, src='ureal_machine.cpp', flags=flags, **k)


def um2(name, mon, **k):
    flags = ['-DMON=%d' % mon] + k.pop('flags', [])
    return dict(name=name, src='ureal2_machine.cpp', flags=flags, **k)


def mom(name, mon, real='double', prop=None, **k):
    flags = ['-DMON=%d' % mon, '-DREAL=%s' % real] + (['-DPROP=uncertainties::Prop::' + prop] if prop else [])
    return dict(name=name, src='moments.cpp', flags=flags, **k)


def fn(name, mon, real, prop=None, **k):
    flags = ['-DMON=%d' % mon, '-DREAL=%s' % real] + (['-DPROP=uncertainties::Prop::' + prop] if prop else [])
    return dict(name=name, src='mathfn.cpp', std='gnu++14', flags=flags, libs=['-lquadmath'], **k)


def unit(name, src, real=None, mon=None, **k):
    flags = (['-DMON=%d' % mon] if mon is not None else []) + (['-DREAL=%s' % real] if real else []) + k.pop('flags', [])
    return dict(name=name, src=src, flags=flags, **k)


UMB = ('UReal register machine: 3 registers, up to 5 independent inputs, 9 start states; every program of length <= 2 (thorough 3) over the full '
       'alphabet of ~330 operations and of length <= 3 (thorough 4) over the core alphabet of ~60 operations; every program that repeats one operation 24 (thorough 48) times or a cycle of two core operations for 12 steps (thorough 36; cycles of three for 18); '
       'every pair of intervals with strides over 36 (thorough 70) inputs x 5 merging operations; a variable built through 300 (thorough 1030) inputs; '
       'every operation, and every core program of length 2 (thorough: every program of length 2), with the inputs scaled by 6 patterns of powers of two up to 2^+-300')
PATB = '; every pair of input subsets of 5 (thorough 6) inputs x 9 ways of building the operands x 8 merging operations'
UM2B = ('UReal2 register machine: 3 registers, up to 5 inputs; every program of length <= 2 (core alphabet 3, thorough one more), both propagation modes; '
        'every pair of input subsets of 3 and 4 inputs x ways of building the operands x merging operations; every program repeating one operation 8 (thorough 16) times or a cycle of two core operations for 6 (thorough 12) steps; '
        'every operation, and every core program of length 2, with the inputs and their derivatives scaled by 8 patterns of powers of two up to 2^+-40; '
        'C10: every pair of intervals with strides over 12 (thorough 20) inputs x 5 structures of mixed derivatives x 5 operations, and a variable of 260 inputs')

# C23: the wrapped user-defined types of harness/wrap.hpp, and the other precisions
WR = ['-include', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'wrap.hpp'), '-DREAL=wrapped::W']
QD = dict(std='gnu++14', libs=['-lquadmath'])
QF = WR + ['-DQUAD', '-DLIGHT=2']
C23 = ([unit('fn1_quad', 'mathfn.cpp', mon=7, flags=QF, **QD), unit('fn2_quad', 'mathfn.cpp', mon=8, flags=QF, **QD),
        um('um_quad', 2, flags=QF, **QD), um('um_grad_quad', 6, flags=QF, **QD), um2('um2_quad', 10, flags=QF, **QD),
        unit('mom_quad', 'moments.cpp', mon=11, flags=QF, **QD), unit('cov_quad', 'moments.cpp', mon=12, flags=QF, **QD),
        um('um_query_quad', 3, flags=QF, thorough_only=True, **QD), um2('um2_modes_quad', 13, flags=QF, thorough_only=True, **QD),
        unit('fn1_wrap', 'mathfn.cpp', mon=7, std='gnu++14', flags=WR, libs=['-lquadmath']), unit('fn2_wrap', 'mathfn.cpp', mon=8, std='gnu++14', flags=WR, libs=['-lquadmath'])] +
       [unit(n + '_wrap', f + '.cpp', mon=m, flags=WR) for n, f, m in (('fact', 'functions', 0), ('cons', 'construct', 14), ('distr', 'construct', 15), ('ureals', 'linalg', 17), ('stat', 'linalg', 18), ('fmt', 'format', 19), ('class', 'classify', 0))] +
       [g for r in ('float', 'long double') for g in (um('um_' + T(r), 2, flags=['-DREAL=' + r]), um('um_grad_' + T(r), 6, flags=['-DREAL=' + r], thorough_only=True),
                                                      um2('um2_' + T(r), 10, flags=['-DREAL=' + r, '-DLIGHT=1']), mom('mom_' + T(r), 11, r), mom('cov_' + T(r), 12, r))])

CHECKS = {
    'C01': dict(units=[um('um_moments', 1)], bounds=UMB + PATB, assumptions=[A_FP, A_API]),
    'C02': dict(units=[um('um_inplace', 2)], bounds=UMB + PATB + '; each program also run with every op= replaced by op', assumptions=[A_FP, A_API]),
    'C03': dict(units=[um('um_query', 3)], bounds=UMB + '; each program also run with every query removed', assumptions=[A_FP, A_API]),
    'C04': dict(units=[um('um_ids', 4), um2('um2_ids', 4), unit('ids', ['ids.cpp', 'ids_b.cpp']), unit('idcount', 'idcount.cpp')], bounds=UMB + PATB + '. ' + UM2B + '. Every sequence of 3 (thorough 4) constructions of 26 kinds (all classes, numeric types, modes, distributions, failing constructions) in each of 2 translation units. One history of 2^32 + 2^24 constructions, all ids positive and different, with every pair of the variables created around powers of two',
                assumptions=[A_API, 'UReal(n, 0) and UReal2 with all dispersion zero are left out: the documentation does not say whether they create an independent variable']),
    'C05': dict(units=[dict(name='threads', src=['threads_ops.cpp', 'threads_tree.cpp'], rt='threads_rt.cpp'),
                       dict(name='threads_wrap', src=['threads_ops.cpp', 'threads_tree.cpp'], rt='threads_rt.cpp', flags=WR, rtflags=['-DDEEP=0'])],
                technique='stateless model checking of the real code: controlled scheduler over the synchronization operations with a preemption bound, happens-before race detection on every plain access (compiler instrumentation, own runtime)',
                bounds='40 operations (9 constructing). Every interleaving of the synchronization operations of 2 constructing threads, with at most 4 preemptions (thorough: no bound) of 3 constructing threads and of 2 threads constructing twice; every unordered pair of operations with at most 4 (thorough 6) preemptions, on independent and on computed shared variables; '
                       'every unordered triple with repetition with at most 2 (all equal), 1 (two equal), 0 (distinct; thorough 2) preemptions; two operations in sequence against a third. double, and a user-defined type which makes the initialization of function-local statics dynamic. '
                       'Each execution in a new process, so that every first use is explored',
                assumptions=[A_API, 'switching threads only before synchronization operations is enough because executions with a data race are reported as such whatever the order, and without races the plain accesses between two synchronization operations are invisible to the other threads',
                             'interleavings are sequentially consistent; weaker memory orders enter through the happens-before relation only', 'the C++ library compiled in libstdc++.so is trusted']),
    'C06': dict(units=[um('um_grad', 6)], bounds=UMB, assumptions=[A_FP, A_API]),
    'C07': dict(units=[fn('fn1_' + T(r), 7, r) for r in FLOATS],
                bounds='every function of math.hpp on UReal x a grid of means covering every branch of the definition, both signs, 0 where allowed, near-boundary, tiny (1e-12) and large (1e12) values (thorough: denser grid) '
                       'x operand kinds (constant, plain number, independent, dependent, correlated, the same variable twice) x float, double, long double', assumptions=[A_ULP, A_API]),
    'C08': dict(units=[fn('fn2_' + T(r), 8, r) for r in FLOATS] + [fn('fn2m_double', 8, 'double', 'mean')],
                bounds='every function of math.hpp on UReal2 x the grid of C07 x operand kinds x float, double, long double (est) and double (mean)', assumptions=[A_ULP, A_API]),
    'C10': dict(units=[um2('um2_chain', 10)], bounds=UM2B, assumptions=[A_FP, A_API]),
    'C11': dict(units=[mom('mom', 11), mom('mom_mean', 11, prop='mean', thorough_only=True), mom('mom_float', 11, 'float', thorough_only=True), mom('mom_ld', 11, 'long double', thorough_only=True)],
                bounds='every quadratic polynomial in n inputs whose gradient and hessian patterns run over a determining lattice (total degree <= 4 in the coefficients, up to 6 nonzero coefficients; thorough 7) '
                       'and every presence pattern of <= 5 (thorough 6) coefficients on up to 4 inputs, with asymmetric inputs of distinct moments, any creation order; 65 to 90 structures of mixed derivatives over 7 and 9 (thorough 12) inputs x 5 x 5 subsets of first and second derivatives; presence patterns and structures also with the standard deviations and coefficients scaled by 6 patterns of powers of two up to 2^+-40; sums of independent groups of up to 33 (thorough 48), 131 and 257 inputs, whose cumulants add; plus quadratic results of every program of length <= 2 of the register machine',
                assumptions=[A_FP, A_API, 'the oracle integrates the polynomial over the input moments, exactly in the number of inputs explored']),
    'C12': dict(units=[mom('cov', 12), mom('cov_mean', 12, prop='mean', thorough_only=True), mom('cov_float', 12, 'float', thorough_only=True), mom('cov_ld', 12, 'long double', thorough_only=True)],
                bounds='covariance is bilinear: every pair of basis monomials (gradient and hessian elements) on up to 4 (thorough 5) inputs, every pair of sparse patterns of 4 and 5 inputs, every pair of ~700 structures over 7 and ~970 over 9 (thorough 12) inputs, basis and sparse patterns also scaled by 6 patterns of powers of two up to 2^+-40; sums of independent groups of up to 33 (thorough 48), 131 and 257 inputs; and all pairs of results of programs of the register machine',
                assumptions=[A_FP, A_API]),
    'C13': dict(units=[um2('um2_modes', 13)], bounds=UM2B + '; each program run in both modes', assumptions=[A_FP, A_API]),
    'C09': dict(units=[unit('fact_' + T(r), 'functions.cpp', r) for r in FLOATS],
                bounds='every overload of the four factories x every monomial up to the order distinguished by the stencil x steps x means x operand kinds x 3 numeric types; functions of one argument only with the other mean up to 1e30; which supplied derivative goes where is decided by distinct values in every slot',
                assumptions=[A_API]),
    'C14': dict(units=[unit('cons_' + T(r), 'construct.cpp', r, 14) for r in FLOATS],
                bounds='moments of every discrete distribution on up to 5 points of a small grid with small integer weights, at 8 scales from 2^-40 to 2^40, every perturbation of their moments over a small lattice, border moments of distributions of 2 to 5 points moved by 2^-1 to 2^-34 with thresholds within 1e-9 to 1 around the eigenvalue ratio, thresholds over a grid, central and standardized constructors, both modes, 3 numeric types; '
                       'acceptance is decided by an exact eigenvalue bracket of the moment matrix with a margin of 256 machine epsilons inside which either answer is allowed', assumptions=[A_API]),
    'C15': dict(units=[unit('distr_' + T(r), 'construct.cpp', r, 15) for r in FLOATS],
                bounds='every factory x a grid of parameters (chi square up to 2^31 - 1 degrees), valid and invalid, both modes, 3 numeric types; moments 2 to 8 observed through m() of the variable and of its square', assumptions=[A_API]),
    'C16': dict(units=[unit('conv_' + T(r), 'convert.cpp', r) for r in FLOATS],
                bounds='every program of length <= 2 (thorough 3) over the operation alphabet, queried or not, converted to each of float, double, long double and (UReal2) each mode, 3 source types; variables of 6 to 33 inputs, of similar and of very different sizes', assumptions=[A_API, A_FP]),
    'C17': dict(units=[unit('ureals_' + T(r), 'linalg.cpp', r, 17) for r in FLOATS],
                bounds='every symmetric integer matrix of size <= 3 with elements -2..3, of size 4 with off-diagonal -1..1 and diagonal 0..3 (thorough 0..4), of size 5 with off-diagonal -1..0 (thorough -1..1) and 6 diagonals, x 4 scalings x garbage in the unread triangle; '
                       'classified exactly by integer minors; all sizes of means and matrix up to 5 x 39; matrices of size 6 to 16 (thorough 33) built as L D L^T from 6 families of L, with one pivot made negative or rows set to zero in every position, 3 permutations',
                assumptions=[A_API, 'singular positive semidefinite matrices with no null row may be rejected or reproduced, since rounding decides']),
    'C18': dict(units=[unit('stat_' + T(r), 'linalg.cpp', r, 18) for r in FLOATS],
                bounds='every list of up to 4 (thorough 5) variables of a palette of 7, for UReal and both modes of UReal2, x 6 combinations of containers and iterators, guarded outputs; every sigma vector of length <= 3 x correlation buffer length < 20; lists of 5 to 16 (thorough 20) variables and sigma vectors of length 4 to 10 in periodic patterns', assumptions=[A_API]),
    'C19': dict(units=[unit('fmt_' + T(r), 'format.cpp', r, 19) for r in FLOATS],
                bounds='uncertainty mantissas 1.00 to 9.99 in steps of 0.01 and 24 mantissas around every carry and tie x exponents -4..4 (thorough -20..20) x means of 16 mantissas, both signs, 8 (thorough 16) relative exponents x up to 10 digit counts; '
                       'wide ratios 1e-20..1e23; 11 separators x member function x stream operator x default arguments; UReal and both modes of UReal2, 3 numeric types',
                assumptions=[A_API, 'the number of digits is not checked within 1e-5 of a boundary of the rule, nor the rounding within 1e-9 units of a tie', 'when to use the common exponent is not specified except through the number of significant digits']),
    'C20': dict(units=[unit('fmtx_' + T(r), 'format.cpp', r, 20) for r in FLOATS],
                bounds='every pair of 37 extreme values x 9 digit counts; every power of ten of the type (long double: every 61st, thorough every 7th) x mantissas near carries x extremes, as mean and as uncertainty; all pairs of the 24 smallest and largest decades; '
                       '64 digit counts, valid and invalid; hang detection by CPU time', assumptions=[A_API]),
    'C21': dict(units=[unit('alloc_' + T(r), 'alloc.cpp', r, flags=['-fno-allocation-dce']) for r in FLOATS],
                bounds='every sequence of up to 3 (thorough 4) of 51 operations on 2 variables from 4 start states, counting every call of operator new, 3 numeric types',
                assumptions=['allocations are observed through operator new; plain malloc is not used by the containers of the library']),
    'C22': dict(units=[um('um_value', 7, flags=['-DVH_LEAK']), um2('um2_value', 22, flags=['-DVH_LEAK']),
                       um('um_asan', 7, flags=SAN), um2('um2_asan', 22, flags=SAN + ['-DLIGHT=1']),
                       unit('fact_asan', 'functions.cpp', flags=MEM), unit('stat_asan', 'linalg.cpp', mon=18, flags=MEM), unit('ureals_asan', 'linalg.cpp', mon=17, flags=MEM),
                       unit('fmt_asan', 'format.cpp', mon=20, flags=MEM), unit('distr_asan', 'construct.cpp', mon=15, flags=MEM), unit('class_asan', 'classify.cpp', mon=25, flags=MEM),
                       unit('fn1_asan', 'mathfn.cpp', mon=7, flags=MEM, std='gnu++14', libs=['-lquadmath']), unit('fn2_asan', 'mathfn.cpp', mon=8, flags=MEM, std='gnu++14', libs=['-lquadmath']), unit('conv_asan', 'convert.cpp', flags=MEM, thorough_only=True),
                       unit('cons_asan', 'construct.cpp', mon=14, flags=MEM, thorough_only=True), unit('fmtg_asan', 'format.cpp', mon=19, flags=MEM, thorough_only=True)],
                bounds=UMB + PATB + '. ' + UM2B + '. All of them also under the address and undefined behaviour sanitizers and counting live heap blocks, and so the explorations of C09, C17, C18, C20 (thorough: also C14, C16, C19), there judged only for memory errors, undefined behaviour and leaks',
                assumptions=[A_FP, A_API]),
    'C23': dict(units=C23,
                bounds='two user-defined types with implicit conversions from and only explicit conversions to the builtin types, whose functions are found by argument-dependent lookup only: one wrapping __float128 (register machines of C01, C02, C06, C10; moments and covariances of C11, C12 with up to 5 inputs; compared to 1e-33; the explorations of C07 and C08 compared to 1e-25) '
                       'and one wrapping long double (explorations of C07, C08, C09, C14, C15, C17, C18, C19, C25); float and long double on the explorations of C02, C10, C11, C12 (the other checks run them directly)',
                assumptions=[A_API, A_FP, 'a user-defined type mixes with UReal only through its own values, since C++ makes no two user-defined conversions']),
    'C24': dict(units=[dict(name='compose', py='compose')], technique='exhaustive enumeration of build configurations (include orders, standards, compilers, macros, translation units), each compiled from the real headers, linked, run and compared',
                bounds='each header alone (2 compilers x C++11/20) and every ordered pair of the 10 headers using all the features they offer (thorough: every ordered triple containing ureal or ureal2, 2 compilers); complete programs of two translation units in 4 x 4 include orders '
                       '(thorough: all choices of the first two headers), 4 macro settings, gcc and clang with C++11 to C++20 (thorough C++23), comparing what they print and that ids are shared',
                assumptions=[A_API, 'outputs are compared to 11 digits']),
    'C25': dict(units=[unit('class_' + T(r), 'classify.cpp', r) for r in FLOATS],
                bounds='UReal: 6 ways of building x 11 means x 11 x 11 coefficients (finite, zero, subnormal, smallest, largest, infinite, NaN, both signs); UReal2, both modes: all means, gradients and hessians over 7 (thorough 11) of these values for functions of 1, 2 and 3 variables in every creation order; each of these values at each position among up to 64 inputs (UReal2: 12, in every derivative; 17 means); 3 numeric types',
                assumptions=[A_API, 'mixed hessian elements that are exactly zero may or may not be counted by isnormal, because the library does not store all of them']),
}
