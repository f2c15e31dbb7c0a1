"""Writes properties.jsonl (one source for ids, titles and statements)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    a = dict(
        files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe]
    )
    if state:
        a['state'] = [dict(name=n, meaning=m) for n, m in state]
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))


API = 'result of the transformed function: value, dense Jacobian and Laplacian of every output leaf'

prop('C01', 'The forward Laplacian of any composed function is exact in dense mode',
     'For every differentiable real function composed of array operations (elementwise, binary, reductions, indexing, scatters, contractions), the transformed function without sparsity returns, for each output, exactly the function value, the full Jacobian with respect to all inputs and the trace of the Hessian. The results have the shapes of the original outputs and agree with nested automatic differentiation of the same function.',
     ['programs', 'inputs'], 'every program up to the composition depth over the operation catalogue, every catalogued operand shape, positive and mixed-sign inputs',
     'The tests check about thirty fixed programs at fixed shapes; a rule that is wrong for one axis, one broadcast or one composition is not among them.',
     ['folx/interpreter.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/wrapped_functions.py', 'folx/utils.py', 'folx/ad.py'],
     [('jaxpr interpreter', 'folx/interpreter.py eval_jaxpr_with_forward_laplacian'), ('dense first-order rule', 'folx/jvp.py dense_jvp'), ('trace of the Hessian', 'folx/hessian.py vmapped_jac_hessian_jac')], API,
     [('propagated triple', 'value, Jacobian and Laplacian carried for every intermediate')])

prop('C02', 'The sparsity threshold never changes any result',
     'For every function composed of array operations and every sparsity threshold (zero, one, any integer, a fraction of the input size, or larger than the input), the value, the dense Jacobian and the Laplacian of every output are the same exact numbers. Only the internal storage and the speed may depend on the threshold.',
     ['programs', 'configurations'], 'every catalogued program over every sparsity structure of the operand x all relevant thresholds, including those at which intermediate results switch from sparse to dense',
     'Tests run each of their few programs at one or two thresholds; the switch to dense can happen at any operation and mask shape.',
     ['folx/interpreter.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/utils.py', 'folx/api.py', 'folx/wrapped_functions.py'],
     [('sparse first-order rules', 'folx/jvp.py sparse_jvp, sparse_sum_jvp, sparse_index_jvp, sparse_scatter_jvp'), ('static output indices', 'folx/hessian.py find_out_idx'), ('threshold switch', 'folx/jvp.py sparsity_threshold')], API,
     [('sparsity mask', 'static index of the inputs that each stored Jacobian entry refers to')])

prop('C03', 'Sparse Jacobians are sound: every index valid, every entry accounted for',
     'Whenever a result carries a sparse Jacobian, each of its indices is either the padding marker or names an input scalar, and summing its entries by index gives exactly the true Jacobian, so that no nonzero derivative is missing and no entry is attributed to the wrong input. Converting it to a dense matrix, adding sparse Jacobians, casting and taking real or imaginary parts preserve that meaning, and chains of linear maps, activations and reductions acting on each node separately keep a sparse Jacobian with no more entries per element than the node has inputs.',
     ['programs', 'inputs', 'configurations'], 'every catalogued program that keeps a sparse Jacobian, and every pair of small sparse Jacobians up to the bound',
     'Tests only look at the densified result; wrong or dangling indices are hidden whenever the densification happens to agree.',
     ['folx/api.py', 'folx/jvp.py', 'folx/utils.py', 'folx/interpreter.py'],
     [('sparse Jacobian container', 'folx/api.py FwdJacobian'), ('mask propagation', 'folx/jvp.py sparse_index_jvp, sparse_diag_jvp, sparse_sum_jvp'), ('mask seeding', 'folx/interpreter.py init_forward_laplacian_state')], 'data and index arrays of each returned Jacobian and its dense form',
     [('x0_idx', 'input index of each stored entry, -1 for padding')])

prop('C04', 'Results do not depend on how a sparse Jacobian is represented',
     'Feeding a function with propagated inputs whose sparse Jacobians are stored in different but equivalent ways (entries permuted, padded, split over repeated indices, in another order per element, or dense) yields the same value, Jacobian and Laplacian. Composing two transformed functions through the propagated result equals transforming the composition. The accessors of a result (dense Jacobian, dense form, real and imaginary part, conjugate, cast, shape, dtype) all show the same value, Jacobian and Laplacian.',
     ['inputs', 'configurations', 'programs'], 'every equivalent representation in the catalogue for each argument x every operation in the catalogue x thresholds; every split point of the catalogued programs',
     'Tests start from the identity mask only, so later operations never see padded, permuted or repeated indices in most rules.',
     ['folx/api.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/utils.py', 'folx/custom_hessian.py', 'folx/interpreter.py'],
     [('index matching', 'folx/api.py get_index_mask, materialize_for_idx'), ('union and intersection of masks', 'folx/hessian.py merge_and_populate'), ('reduction masks', 'folx/utils.py get_jacobian_for_reduction'), ('already propagated inputs', 'folx/interpreter.py init_forward_laplacian_state')], API)

prop('C05', 'Tensor contractions are exact for every layout of dimensions',
     'For matrix products, dot products, einsum and the general contraction with any choice of contracted, batch and free dimensions in any order, with either or both operands depending on the input and any sparsity structure, value, Jacobian and Laplacian are exact and the output dimensions are in the documented order.',
     ['programs', 'inputs', 'configurations'], 'all layouts of operands with up to three dimensions (all contract/batch pairs and orders), which operands depend on the input, sparsity structure, threshold',
     'The tests use a handful of matmul shapes; fast paths are selected by dimension layout and mask structure and only some combinations reach them.',
     ['folx/wrapped_functions.py', 'folx/hessian.py', 'folx/jvp.py', 'folx/utils.py'],
     [('contraction rule', 'folx/wrapped_functions.py dot_general, rearrange'), ('zero entry removal', 'folx/hessian.py remove_zero_entries'), ('joint first-order rule', 'folx/jvp.py dense_joint_jvp')], API)

prop('C06', 'Rearranging, indexing and scattering move derivatives exactly',
     'Reshaping, transposing, broadcasting, slicing, gathering, concatenating, padding, selecting and scattering (set, add, multiply, min, max, apply) move every derivative to exactly the elements the values move to, also when part of the operands is constant, when positions repeat or fall outside the array, and when positions depend on the input values.',
     ['programs', 'inputs', 'configurations'], 'all axes, permutations, factorizations and index patterns of operands up to three dimensions x which operands are constant x sparsity structures x thresholds',
     'Tests exercise a few slices; constants mixed with dependent parts and repeated or dynamic positions each take a different path.',
     ['folx/jvp.py', 'folx/wrapped_functions.py', 'folx/utils.py'],
     [('index rule', 'folx/jvp.py sparse_index_jvp'), ('scatter rule', 'folx/jvp.py sparse_scatter_jvp'), ('registry flags', 'folx/wrapped_functions.py _LAPLACE_FN_REGISTRY')], API)

prop('C07', 'Reductions are exact over every subset of axes',
     'Sums, products, maxima, minima, means, variances, norms, log-sum-exp, softmax, cumulative operations and sorting over any subset of axes give the exact value, Jacobian and Laplacian, whatever inputs the reduced elements share and whichever threshold is used.',
     ['programs', 'inputs', 'configurations'], 'every nonempty subset of axes of operands up to three dimensions (positive and negative axis numbers, kept and dropped axes) x reductions x sparsity structures x thresholds',
     'The tests reduce over all axes or the last one; merging of the index masks differs for each subset of axes and overlap.',
     ['folx/jvp.py', 'folx/utils.py', 'folx/wrapped_functions.py', 'folx/hessian.py'],
     [('sparse sum', 'folx/jvp.py sparse_sum_jvp'), ('reduction masks', 'folx/utils.py get_jacobian_for_reduction'), ('reduction flags', 'folx/wrapped_functions.py')], API)

prop('C08', 'Control flow and nested calls are exact or rejected, never silently wrong',
     'Functions containing loops with carried state, stacked outputs or scanned constants, conditionals, nested compiled functions, custom derivative rules, rematerialization and nested vectorization give exact results, at every threshold. A construct that is not supported raises an exception; it never returns a wrong value, Jacobian or Laplacian.',
     ['programs', 'configurations'], 'all combinations of loop kind, carried/constant/scanned operands, direction, length, unrolling, nesting and body operation in the catalogue x thresholds',
     'Only one scan-free custom derivative and no loop is tested; carry, constants, stacked outputs and nesting combine freely.',
     ['folx/interpreter.py', 'folx/wrapper.py', 'folx/utils.py'],
     [('scan', 'folx/interpreter.py eval_scan'), ('nested compiled calls', 'folx/interpreter.py eval_pjit'), ('custom derivative calls', 'folx/interpreter.py eval_custom_jvp'), ('mask restore', 'folx/utils.py extract_jacobian_mask')], API + ', or the exception raised')

prop('C09', 'Determinants: sign and log-determinant derivatives are exact',
     'For single and batched, real and complex matrices of any small size, the sign (phase) and the logarithm of the determinant have exact value, Jacobian and Laplacian, for matrices with positive and negative determinant, also when the matrix depends sparsely or only partly on the inputs and when the results are used in further operations such as summing weighted determinants.',
     ['inputs', 'programs', 'configurations'], 'matrix sizes, batch shapes, real/complex entries, permuted rows (both signs), sparsity structures, thresholds and follow-up operations up to the bound',
     'One size with a single random matrix is tested; batch dimensions, the phase and partial dependence are separate code.',
     ['folx/wrapped_functions.py', 'folx/custom_hessian.py', 'folx/vmap.py'],
     [('determinant rule', 'folx/wrapped_functions.py slogdet_wrapper, slogdet_jvp'), ('trace of the Hessian', 'folx/custom_hessian.py slogdet_jac_hessian_jac')], API)

prop('C10', 'Complex intermediate values are differentiated exactly',
     'For functions of real inputs that pass through complex values (complex arithmetic, exponentials, absolute value, real and imaginary parts, conjugation, complex contractions and determinants), the real or complex outputs have exact value, Jacobian and Laplacian for every threshold.',
     ['programs', 'inputs', 'configurations'], 'all compositions up to depth of complex producers, complex operations and consumers in the catalogue x thresholds and sparsity structures',
     'Tests cover a few complex programs at one threshold; the complex-to-real rules are chosen by dtype and by the ratio of entries.',
     ['folx/ad.py', 'folx/custom_hessian.py', 'folx/wrapped_functions.py', 'folx/hessian.py', 'folx/wrapper.py'],
     [('complex absolute value', 'folx/custom_hessian.py complex_abs_jac_hessian_jac'), ('complex derivatives', 'folx/ad.py vjp'), ('elementwise complex parts', 'folx/wrapper.py wrap_elementwise'), ('result dtype', 'folx/wrapper.py astype')], API)

prop('C11', 'Weights scale every derivative exactly',
     'With weights given per argument (one scalar, or any tree prefix of the arguments), the returned Jacobian is the true Jacobian with each input column multiplied by its weight and the Laplacian is the sum of second derivatives each multiplied by its squared weight, for every program and threshold. The values do not depend on the weights, and omitting weights equals weights of one.',
     ['inputs', 'configurations', 'programs'], 'all weight structures (scalar, tuple, nested prefix, full tree) for all argument structures up to the bound x signs and zero weights x thresholds x programs',
     'One weighted attention test with scalar weights exists; prefix structures, zero and negative weights are not reached.',
     ['folx/interpreter.py'],
     [('weight broadcasting', 'folx/interpreter.py broadcast_weights, init_forward_laplacian_state')], API)

prop('C12', 'Any argument and result structure is accepted and mapped correctly',
     'The transformed function accepts the same positional arguments (nested tuples, lists, dictionaries, several arrays of different shape, zero-dimensional arrays) and keyword arguments as the original and returns the same result structure with each output in its place, including outputs that are passed through, constant or repeated. Derivatives are taken with respect to all positional arguments, ordered as their flattened concatenation, while keyword arguments are constants.',
     ['inputs', 'configurations', 'programs'], 'all argument structures x result structures x keyword use in the catalogue x thresholds and execution modes',
     'Tests use one array argument and one array result almost everywhere.',
     ['folx/interpreter.py', 'folx/utils.py'],
     [('calling convention', 'folx/interpreter.py forward_laplacian'), ('input seeding', 'folx/interpreter.py init_forward_laplacian_state'), ('flattening', 'folx/utils.py ravel')], 'structure, order and content of the returned tree')

prop('C13', 'Derivatives have the dtype of the value, and values the original dtype',
     'For every supported program and input dtype (single and double precision, real and complex intermediates, casts to lower or higher precision, integer or boolean intermediates), each output has the dtype the original function returns and its Jacobian and Laplacian have that same dtype. Casting to integers or booleans drops derivatives, and outputs that do not depend on the inputs keep their dtype.',
     ['programs', 'inputs', 'configurations'], 'all dtype pairs (input, constant, cast) x operations x thresholds',
     'One dtype test with one program exists; promotion happens at each rule.',
     ['folx/wrapper.py', 'folx/wrapped_functions.py', 'folx/api.py', 'folx/interpreter.py', 'folx/custom_hessian.py'],
     [('final cast', 'folx/wrapper.py new_fn'), ('conversion rule', 'folx/wrapped_functions.py dtype_conversion'), ('casting propagated arrays', 'folx/api.py FwdLaplArray.astype')], 'dtype of value, Jacobian and Laplacian of each output')

prop('C14', 'Compilation, vectorization and repetition never change the results',
     'The transformed function gives the same results whether it runs eagerly or compiled, inside another compiled or vectorized function, or under first-order differentiation with respect to other parameters. Calling it repeatedly, in any order with different inputs, shapes or structures, gives each time the result of a fresh call and leaves the inputs unchanged.',
     ['configurations', 'histories', 'programs'], 'all combinations of execution wrappers up to depth two x programs x thresholds; all call sequences up to the bound over inputs of different shape and value',
     'Tests call each transformed function once.',
     ['folx/interpreter.py', 'folx/api.py', 'folx/jvp.py', 'folx/utils.py'],
     [('compiled wrapper', 'folx/interpreter.py forward_laplacian'), ('compile-time index evaluation', 'folx/jvp.py sparse_index_jvp, folx/hessian.py find_out_idx')], API)

prop('C15', 'Rule registration histories behave as a map and never leak',
     'After any sequence of registering, re-registering and deregistering rules for primitives and named functions, a transformed function uses exactly the most recently registered rule for each operation, and falls back to the general exact rule or to the body of the function when none is registered. Rules for other operations are unaffected, deregistering something unregistered raises an error and changes nothing, and results stay exact throughout.',
     ['histories', 'configurations'], 'all sequences of register, deregister and evaluate operations over several names and primitives up to the depth bound',
     'Tests register one custom rule once.',
     ['folx/wrapped_functions.py', 'folx/interpreter.py', 'folx/wrapper.py'],
     [('registry', 'folx/wrapped_functions.py register_function, deregister_function, get_laplacian'), ('named calls', 'folx/interpreter.py eval_pjit')], 'which rule was invoked, the result, and the exceptions raised',
     [('registry', 'map from primitive or function name to rule')])

prop('C16', 'Failures of compile-time evaluation fall back to exact results',
     'When an operation on constants or an indexing operation cannot be evaluated ahead of time (out of memory, or data that is not available while tracing), the computation falls back to a general path and returns the same exact results. A failure of ahead-of-time evaluation at any single point or pair of points is either absorbed with exact results or reaches the caller unchanged: it never produces a wrong number and never leaves the process in a changed state. An error raised by user code or by an unsupported operation is passed on to the caller unchanged.',
     ['fault_sequences', 'programs'], 'every program in the catalogue x every single (and every pair of) ahead-of-time evaluation made to fail',
     'No test injects any failure, so the fallback paths never execute.',
     ['folx/interpreter.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/utils.py'],
     [('eager evaluation of constants', 'folx/interpreter.py eval_jaxpr_with_forward_laplacian'), ('index evaluation', 'folx/jvp.py sparse_index_jvp'), ('unique indices', 'folx/hessian.py find_out_idx'), ('log prefix', 'folx/utils.py LoggingPrefix')], API + '; the exception; logging handlers afterwards')

prop('C17', 'All Laplacian operators agree on Laplacian and gradient',
     'For every scalar function of an array of any shape, the forward operator at any threshold, the loop operator and the parallel operator return the same Laplacian (a scalar) and the same flat gradient, equal to nested automatic differentiation, also when compiled or vectorized over a batch, and when some inputs have no influence.',
     ['programs', 'inputs', 'configurations'], 'all catalogued scalar functions x input shapes x thresholds x execution wrappers',
     'Tests compare the operators on one function and one shape.',
     ['folx/operators.py', 'folx/interpreter.py'],
     [('operators', 'folx/operators.py ForwardLaplacianOperator, LoopLaplacianOperator, ParallelLaplacianOperator')], 'pair (Laplacian, gradient) returned by each operator')

prop('C18', 'Batched vectorization equals plain vectorization for every batch size',
     'For every function, batch length, maximum batch size and assignment of mapped and unmapped axes to nested arguments and results, batched vectorization returns the same arrays in the same order as plain vectorization, never evaluates more than the allowed number of samples at once, and handles a remainder of any size.',
     ['inputs', 'configurations'], 'all batch lengths and batch sizes up to the bound x all input and output axis assignments x argument and result structures',
     'Four fixed configurations are tested.',
     ['folx/vmap.py'],
     [('chunked map', 'folx/vmap.py batched_vmap')], 'returned tree; number of samples seen per evaluation')

prop('C19', 'Automatic batching equals plain vectorization at any memory limit',
     'Automatically batched vectorization returns the same result as plain vectorization for every memory limit and fraction, and when memory cannot be analysed, and its batch size shrinks with the limit and, when it is larger than two, fits the limit according to the memory extrapolated from one and two samples. The memory estimate of a function is deterministic, positive, at least the size of the operands and results of its largest operation, and does not shrink for more samples nor grow with the length of a chain of operations whose intermediate results are used once, and does not disturb the process or execute the function on data.',
     ['configurations', 'inputs'], 'all memory limits around each switching point x functions x argument structures; all programs in the estimator catalogue',
     'The experimental module has no test at all.',
     ['folx/experimental/memory.py', 'folx/experimental/vmap.py', 'folx/vmap.py'],
     [('memory estimate', 'folx/experimental/memory.py compute_memory'), ('batch size choice', 'folx/experimental/vmap.py auto_batched_vmap')], 'returned tree, estimates, standard output')

prop('C20', 'The derivative helpers are correct for real and complex functions',
     'The forward-mode Jacobian, reverse-mode Jacobian, Hessian and vector-Jacobian helpers return the true derivatives for real-to-real, real-to-complex and holomorphic complex-to-complex functions of one or several arguments of any shape, in the documented layout, and agree with each other.',
     ['programs', 'inputs'], 'all catalogued functions x real/complex arguments and results x argument structures and shapes up to the bound',
     'Tests use one function per helper.',
     ['folx/ad.py'],
     [('helpers', 'folx/ad.py vjp, jacrev, jacfwd, hessian')], 'arrays returned by the helpers')

prop('C21', 'Concurrent use from several threads is safe',
     'When several threads transform, trace and evaluate functions at the same time, under every interleaving each thread gets the same result as alone. Afterwards the process-wide logging handlers and standard output are exactly as before, also if one of the threads raises an exception, and no thread deadlocks.',
     ['schedules'], 'all interleavings of two or three threads up to the preemption bound at the accesses to process-wide state (logging handlers, output streams, rule registry)',
     'All tests are single threaded.',
     ['folx/utils.py', 'folx/interpreter.py', 'folx/wrapped_functions.py', 'folx/experimental/memory.py'],
     [('log prefix', 'folx/utils.py LoggingPrefix'), ('rule lookup', 'folx/wrapped_functions.py get_laplacian'), ('estimator', 'folx/experimental/memory.py compute_memory')], 'results per thread; root logger handlers and sys.stdout after all threads ended',
     [('root logger handlers', 'process-wide list replaced while a rule reports')])

prop('C22', 'Every data flow graph is evaluated correctly and frees what is no longer used',
     'For every way of wiring intermediate results (used once, several times, never, as repeated arguments, across nested calls, or returned directly), each operation receives exactly the operands it names and each output the value it names. An intermediate result is kept as long as it is still needed and released after its last use.',
     ['programs', 'histories'], 'all directed acyclic data flow graphs up to the bound on steps and fan-in, with all choices of outputs',
     'Tests have few straight-line programs; reference counting errors need specific reuse patterns.',
     ['folx/interpreter.py', 'folx/experimental/memory.py'],
     [('variable environment', 'folx/interpreter.py JaxExprEnvironment')], 'results, and lifetime of intermediate propagated arrays observed through a custom rule',
     [('environment', 'live variables with the number of remaining uses')])

prop('C23', 'Truthful annotations and custom rules never change results',
     'Registering or calling a function with any truthful annotation (elementwise, relevant axes, linear, linear in one argument, multiplication, dot product, reduction, summation, indexing, joint evaluation, custom trace rule) or without annotation gives the same exact value, Jacobian and Laplacian, at every threshold and for every sparsity structure of the operands.',
     ['configurations', 'programs'], 'all truthful combinations of annotations for each function in the catalogue x operand structures x thresholds',
     'Tests use one custom rule with one annotation.',
     ['folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/utils.py', 'folx/api.py'],
     [('annotations', 'folx/api.py FunctionFlags'), ('axis mapping', 'folx/utils.py vmap_sequences, broadcast_shapes_to_args'), ('wrapper', 'folx/wrapper.py wrap_forward_laplacian')], API)

prop('C24', 'Elementwise and binary operations are exact for all operand roles',
     'Every elementwise function and every binary operation (arithmetic, powers, maximum and minimum, arctangent, log-add-exp, selection) is exact for each role of its operands: dependent or constant on either side, equal, scalar, broadcast in any dimension, sharing all, some or no inputs, sparse or dense, and of positive or mixed sign in its domain.',
     ['programs', 'inputs', 'configurations'], 'all operations x operand roles x broadcast shapes x overlaps of the input sets x thresholds',
     'The tests take two equal-shape arguments or one; broadcasting and overlap change the matching of indices.',
     ['folx/jvp.py', 'folx/hessian.py', 'folx/custom_hessian.py', 'folx/wrapped_functions.py', 'folx/utils.py'],
     [('elementwise first-order rule', 'folx/jvp.py sparse_diag_jvp, dense_elementwise_jvp'), ('product and quotient traces', 'folx/hessian.py dot_product_jac_hessian_jac, folx/custom_hessian.py div_jac_hessian_jac'), ('broadcasting', 'folx/utils.py broadcast_mask_to_jacobian')], API)

prop('C25', 'Neural wave functions are propagated exactly as a whole',
     'A particle network built from the usual blocks (pair distances and other input features, dense, residual, attention, gated, normalized, pooled and pair-interaction layers, loops over layers with stacked parameters, vectorized, compiled and rematerialized sub-networks, real or complex determinant or pooled readouts, pairwise correlation factors) gets the exact value, Jacobian and Laplacian, with or without weights, for every combination of blocks and every sparsity threshold.',
     ['programs', 'inputs', 'configurations'], 'all pairs of feature, layers and readout (thorough: all combinations) x correlation factors x 2 or 3 particles x thresholds',
     'The tests run a few fixed networks; the sparsity that reaches a block depends on which blocks came before it.',
     ['folx/api.py', 'folx/interpreter.py', 'folx/wrapper.py', 'folx/operators.py', 'folx/wrapped_functions.py', 'folx/custom_hessian.py'],
     [('transform', 'folx/interpreter.py forward_laplacian'), ('rules', 'folx/wrapped_functions.py'), ('determinant trace', 'folx/custom_hessian.py slogdet_jac_hessian_jac')], API)

prop('C26', 'Operations without a dedicated rule are exact',
     'Programs of the numerical library that use operations for which no rule is registered (special functions, decompositions and linear solves with constant matrices, Fourier transforms, window and associative reductions, convolutions, interpolation with constant positions, sorting, differentiation inside the program, random numbers, effects) get the exact value, Jacobian and Laplacian for every dependency and sparsity structure of the operand and every threshold, eager and compiled.',
     ['programs', 'inputs', 'configurations'], 'all operations of a list of 113 library programs x 7 operand structures x thresholds x eager/compiled (thorough: followed by a further operation)',
     'The tests use operations with dedicated rules; the generic rule serves all others.',
     ['folx/wrapped_functions.py', 'folx/wrapper.py', 'folx/jvp.py', 'folx/hessian.py', 'folx/interpreter.py'],
     [('generic rule', 'folx/wrapped_functions.py get_laplacian'), ('interpreter', 'folx/interpreter.py eval_jaxpr_with_forward_laplacian')], API)

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P))
