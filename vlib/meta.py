"""Static description of the checks, used in MANIFEST.json and the evidence files."""

TRUSTED = [
    'JAX tracing: the jaxpr obtained by running the current /repo code (with symbolic sizes where the contract has them) is the computation that runs; jit compilation and XLA execution are not verified',
    'vlib/e1/sem.py: the meaning given to each JAX primitive, guarded on every run by evaluating the terms of every contract numerically against JAX (selfcheck)',
    'vlib/e1/ix.py, decide.py: normalisation of terms over the reals and the equality decision (a wrong equality is guarded by the same selfcheck: the two sides are also compared numerically)',
    'z3 for facts about sizes and indices',
    'jax.jvp of uninterpreted and of primitive functions (the specifications use it as the derivative)',
    'floating point is treated as exact real arithmetic in the obligations; the bounded cases compare within tolerances',
    'outside the differentiability set (ties, poles, branch cuts) nothing is claimed',
]

_RULE = (
    'obligation: one contract on real folx code, identified by its name, with one goal per output and control path; '
    'bounded case: one seeded evaluation of real folx code against an independent oracle (jax.hessian/jacfwd or NumPy), distinct by id, '
    'non-trivial when the compared derivatives are not all zero'
)


def M(level, technique, note, explain, bounded='', trusted=(), bounded_functions=()):
    return dict(level=level, technique=technique, note=note, explain=explain, bounded=bounded, trusted=list(trusted), bounded_functions=list(bounded_functions), rule=_RULE)


_T = 'deductive: contracts on the real functions, traced with symbolic sizes and proved for all values'
_B = 'run-time contract cases on concrete inputs stand in for what the verifier does not reach (bounded, never counted as proved)'
_P = 'Proof over the reals for all values and, where the contract has symbolic sizes, all sizes, for the listed contracts; '

META = {
    'C01': M(
        'proof', _T,
        _P + 'the quantifier over programs is covered by contracts over uninterpreted functions and program schemas plus the per-operation contracts of C03-C07; bounded program runs cover combinations.',
        'Contracts of forward_laplacian on programs built from arbitrary (uninterpreted) smooth functions, with symbolic array sizes: value, full Jacobian and Laplacian equal those of the program. ' + _B,
        'bounded: a list of concrete programs at fixed shapes, seeded inputs, jit on and off',
    ),
    'C02': M(
        'exploration', 'contracts on every rule applied to sparse states, discharged by the deductive engine for all values and arbitrary functions at fixed shapes and masks (bounded), plus run-time contracts',
        'Bounded: sparse masks are concrete arrays computed by NumPy during tracing, so shapes and masks are fixed per contract (stated bound); all real values, Jacobian entries and arbitrary smooth functions are covered at those shapes, and the representation invariant of the mask is part of the postcondition. Bounded runs vary shapes and masks.',
        'Each contract fixes shapes and a threshold; the real code is traced, every output element is proved equal to the derivative of the program. ' + _B,
        'all obligations are at fixed shapes (bounded_shape_obligations); bounded: concrete programs x thresholds x random masks',
    ),
    'C03': M('proof', _T, _P + 'sparse Jacobians are covered at fixed shapes and by bounded runs.', 'Per supported elementwise primitive, and for arbitrary uninterpreted elementwise functions: forward_laplacian of operands in any derivative state equals the second-order chain rule. ' + _B, 'bounded: sparse masks (uniform, permuted, repeated, padded), random states'),
    'C04': M('proof', _T, _P + 'operations with data-dependent order (sort, top_k) and sparse Jacobians are bounded.', 'Per structural operation: the state after the operation is the linear map applied to value, Jacobian rows and Laplacian. ' + _B, 'bounded: sort/top_k, scatter variants, sparse masks'),
    'C05': M('proof', _T, _P + 'sparse contractions at fixed shapes and bounded.', 'dot_general for all dimension-number patterns up to rank 4 with symbolic sizes, both, left or right operand dependent. ' + _B, 'bounded: sparse masks, precision/element type'),
    'C06': M('proof', _T, 'The value/derivative functions of the matrix inverse and determinant are assumed contracts (jnp.linalg.inv, lax slogdet); the trace formulas of the rule are proved against them; the end-to-end comparison with jax.hessian is bounded.', 'slogdet rule: Jacobian and Hessian-trace term proved equal to the trace formulas for symbolic matrix and batch sizes. ' + _B, 'bounded: sizes 1-5, batches, real/complex, sparse masks', ['jnp.linalg.inv(A) is the inverse; d log|det A| = Re tr(A^-1 dA)']),
    'C07': M('proof', _T, _P + 'complex numbers are pairs of reals; transcendental functions of complex argument are opaque unless listed.', 'Complex operations on arbitrary complex derivative states, compared with the second-order chain rule; real-input programs through complex intermediates. ' + _B, 'bounded: dtype tables, complex transcendental functions'),
    'C08': M('proof', _T, _P + 'sparse runs at fixed shapes.', 'forward_laplacian with symbolic weights on programs over uninterpreted functions: row k scaled by w_k, Laplacian by w_k^2. ' + _B, 'bounded: concrete programs, weight trees'),
    'C09': M('proof', _T, _P + 'scan lengths are fixed per contract (unrolled) with symbolic array sizes.', 'Nested jit, custom derivative rules and scan on arbitrary functions against the unwrapped/unrolled program. ' + _B, 'bounded: scan lengths, nested structures, rejected dependence'),
    'C10': M('proof', 'deductive: registry functions executed on symbolic keys, rules and an arbitrary registry state (path exploration + z3), and custom rules proved for arbitrary functions with symbolic sizes', _P + 'the registry dictionary is replaced by a symbolic map with the dict operations the code uses; histories are up to four operations over arbitrary initial states (each single operation is proved for every state, so longer histories follow by composition).', 'E2: register / deregister / is_registered / wrapped-rule lookup on symbolic keys, with the frame over the whole map. E1: a registered second-order rule replaces exactly the trace term for arbitrary rule and function; register/evaluate/deregister through the interpreter. ' + _B, 'bounded: histories of register/evaluate/deregister on concrete programs'),
    'C11': M('proof', _T, _P + 'the argument/output tree shapes are a fixed list.', 'batched_vmap over uninterpreted functions for every mapped size and batch size (three size cases), including the bound on elements evaluated at once. ' + _B, 'bounded: more trees and axes on concrete sizes'),
    'C12': M('proof', _T, _P + 'sparse forward operator at fixed shapes.', 'Three operators on uninterpreted functions with symbolic shapes. ' + _B, 'bounded: concrete functions'),
    'C13': M('proof', _T, _P + 'complex outputs are pairs of reals.', 'vjp, vjp_rc, jacrev, jacfwd, hessian on uninterpreted functions with symbolic shapes. ' + _B, 'bounded: concrete complex functions'),
    'C14': M('proof', 'deductive: the real environment and equation loop executed on an arbitrary program (symbolic variables, values and use counts) with loop invariants, path exploration + z3', 'The number of equations is unbounded (induction with a loop invariant injected through the iterator the real loop runs over); per equation the number of operands (up to three, thorough four) and results (up to two, thorough three) is fixed per contract. Programs are assumed well formed (variables are defined once, before their uses), as JAX guarantees. The dictionary, the counter and the operands are replaced by symbolic proxies with the operations the code uses; code which does anything else with them is reported as not discharged. The operations and rules themselves are opaque here (C03-C07).', 'Constructor: establishes the counter and environment invariants. One equation from any state satisfying the invariant at k: the operation receives the values of its operands and its parameters, rule or ordinary evaluation as required, and the invariant at k + 1 holds: the counter is the number of remaining uses and exactly the values still needed are held. Exit: the outputs are returned. ' + _B, 'bounded: every program of up to three equations with recording operations, random recorded programs, numeric comparison of generated programs', trusted=['z3 and the proxies of vlib/e2 (SymMap, SymInt) for Python dictionaries and integers']),
    'C15': M('proof', 'deductive: contracts on the Jacobian container, traced with symbolic sizes, data and index arrays and proved for all values', _P + 'index arrays are arbitrary integers (symbolic) where the code accepts traced index arrays (row selection, index lookup, aggregation; up to three requested rows); the paths which analyse NumPy masks are discharged for all data on a list of masks and on every mask of small shapes (fixed sizes, counted separately).', 'materialize_for_idx, get_index_mask, construct_jac_for, dense_array, as_dense, __add__, astype/real/imag/conj, get_reduced_jacobians, trace_jac_jacT, jac_jacT, extend_jacobians, add_jacobians against the denotation. ' + _B, 'bounded: random data, masks, widths'),
    'C16': M('proof', _T, _P + 'sparse states at fixed shapes.', 'Two chained forward Laplacians over uninterpreted functions against the composed function. ' + _B, 'bounded: concrete programs and thresholds'),
    'C17': M('proof', _T, _P + 'sparse runs at fixed shapes.', 'Blocked operations return plain arrays and mixed programs have the derivatives of the other branches. ' + _B, 'bounded: concrete programs'),
    'C18': M('proof', 'deductive: the real memory walk and batch-size choice executed on arbitrary programs, sizes, limits and estimates with loop invariants, path exploration + z3', 'Number of equations, sizes, element sizes, memory limit, fraction (as a real) and estimates are unbounded; operands (up to three) and results (up to two) per equation, scan splits and argument counts are fixed per contract. batched_vmap is used by its contract (C11). That compute_memory prints and parses the peak, and the end-to-end estimate, are bounded.', 'Memory walk: the counted memory is the memory of the values held, each is released once after its last use, the peak is the maximum including nested programs. Batch size: at least one, fits the estimates, single elements after any failure, arguments and result passed through. ' + _B, 'bounded: memory limits, fractions, programs; every program of up to three equations against a liveness analysis', trusted=['z3 and the proxies of vlib/e2 for Python dictionaries, integers and floats (exact reals)'], bounded_functions=['experimental.memory.compute_memory']),
}
