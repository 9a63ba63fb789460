#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, tests, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)))
A = 'numga/algebra/'; O = 'numga/operator/'; S = 'numga/subspace/'; M = 'numga/multivector/'; X = M + 'extension/'; B = 'numga/backend/'

prop('C01', 'The geometric product is the Clifford product of the declared signature',
 "For every algebra declared by a signature of +, - and 0 generators in any order (as a string, a (p,q,r) tuple or a product of algebras), the geometric product of any two multivectors over any two subspaces equals the associative bilinear Clifford product in which distinct generators anticommute and each generator squares to its declared +1, -1 or 0. The result is reported on the right blades with the right signs in every dimension the library accepts, including beyond 8 generators.",
 ['inputs', 'configurations'],
 'all signatures (including permuted and degenerate ones), all pairs of subspaces, all coefficient values; blade-index width changes at 8/9 and 16/17 generators',
 'The tests pin one Cayley table and a few products in PGA-like signatures; the quantifier is over every signature order, dimension and pair of subspaces.',
 [A + 'algebra.py', A + 'bitops.py', A + 'description.py', O + 'factory.py', O + 'sparse_tensor.py'],
 [('bit-blade xor/swap-count product', A + 'algebra.py: Algebra.cayley, Algebra.product'), ('signature parsing', A + 'description.py: from_str, from_pqr, __mul__'), ('kernel construction', O + 'factory.py: make_product, geometric_product')],
 ['multivector * multivector', 'context.operator.product(a, b)(x, y)', 'Algebra.pseudo_scalar_squared'])

prop('C02', 'Grade-selected products are exactly the stated parts of the geometric product',
 "For all multivectors a, b: wedge, inner, scalar, left and right contraction keep from each pair of grade-r and grade-s terms exactly the part of grade r+s, |r-s|, 0, s-r and r-s of their geometric product (nothing when negative); bivector_product, trivector_product and n_product keep exactly the requested grade or subspace of a*b. Commutator and anticommutator are exactly (ab-ba)/2 and (ab+ba)/2, and cross is the dual of the wedge.",
 ['inputs', 'configurations'], 'all signatures, all pairs of (possibly mixed-grade) subspaces, all coefficients',
 'Tests compare a few homogeneous products in 2-4 dimensions; mixed-grade operands over degenerate and permuted signatures are never enumerated.',
 [O + 'factory.py', O + 'operator.py', M + 'multivector.py'],
 [('grade selection', O + 'factory.py: make_product; ' + O + 'operator.py: grade_selection'), ('commutators', O + 'factory.py: make_commutator'), ('method forwarding', M + 'multivector.py: wedge, inner, left_contract, ..., operators ^ |')],
 ['mv ^ mv', 'mv | mv', 'mv.left_contract', 'mv.commutator', 'context.operator.n_product'])

prop('C03', 'Involutions and involution-fused products',
 "On every multivector: reverse reverses the order of generators in each blade, involute negates every generator, conjugate does both, scalar_negation and study_conjugate negate everything but the scalar, and pseudoscalar_negation negates everything but scalar and pseudoscalar; none changes the subspace and applying any of them twice restores the input. Each *_product named after an involution equals a times the involution of b.",
 ['inputs', 'configurations'], 'all grades up to the dimension, all subspaces, all signatures',
 'Signs have period 4 in the grade; tests touch grades up to about 4 and rarely check mixed subspaces or fused forms.',
 [O + 'factory.py', A + 'algebra.py', M + 'multivector.py'],
 [('diagonal sign operators', O + 'factory.py: reverse, involute, conjugate, scalar_negation, pseudoscalar_negation, study_conjugate'), ('fused products', O + 'factory.py: reverse_product and siblings')],
 ['~mv', 'mv.involute()', 'mv.conjugate()', 'mv.reverse_product(mv)'])

prop('C04', 'Duals, complements, regressive and anti-products',
 "For every blade v with pseudoscalar I: v ^ right_complement_dual(v) = I = left_complement_dual(v) ^ v; the hodge duals multiply these by -1 for each negative generator in v, and each hodge inverse undoes its dual on every subspace; left/right_complement are I*v and v*I with null generators treated as squaring to +1. The regressive product is dual_inverse(dual(a) ^ dual(b)), every anti_X product is left_complement(X(right_complement(a), right_complement(b))), and left/right interior products are left_complement(a) anti-wedge b and a anti-wedge right_complement(b).",
 ['inputs', 'configurations'], 'all signatures including degenerate ones, odd and even dimensions, all subspaces',
 'Tests print or spot-check duals in 2-4 dimensional signatures; sign conventions depend on dimension parity, grade and metric.',
 [O + 'factory.py', S + 'subspace.py', M + 'multivector.py'],
 [('complement kernels', O + 'factory.py: *_complement, *_complement_dual, *_hodge, unary_inverse'), ('antify / regressive', O + 'factory.py: antify, anti_*, regressive_product, left/right_interior_product')],
 ['mv.dual()', 'mv.dual_inverse()', 'mv & mv', 'mv.anti_wedge(mv)', 'context.operator.left_hodge(...)'])

prop('C05', 'One canonical object per subspace, whatever the construction history',
 "Within an algebra, every way of naming, constructing or deriving a set of blades, in any order and after any history of other constructions, returns the very same subspace object, and different blade sets or different algebras never share one. Its blades are free of duplicates, ordered by grade and then by generator bit pattern, complete, and cannot be mutated through the object.",
 ['histories', 'inputs', 'configurations'], 'all blade sets, all construction routes and orders, all dimensions including the blade width changes',
 'Tests build a few subspaces once each; identity is what every cache key and dispatch decision relies on, over arbitrary histories.',
 [S + 'factory.py', S + 'subspace.py', 'numga/flyweight.py', A + 'bitops.py'],
 [('flyweight pool', 'numga/flyweight.py: factory_construct'), ('canonical order', S + 'factory.py: order_blades, from_blades')],
 ['algebra.subspace.*', 'subspace.blades', 'subspace is subspace'],
 [('flyweight_pool', 'blade-set key to subspace object', 'numga/flyweight.py')])

prop('C06', 'Subspace algebra, named subspaces and predicates',
 "Union, intersection, difference, complement, (non)degenerate parts, select/restrict and the membership predicates on subspaces agree with set algebra on their blades; every named constructor (grades counted from either end, even/odd, self_reverse, mod4, k-reflections, translator, rotor, ...) denotes exactly the blades of its definition in every signature. is_subalgebra, minimal_subalgebra, minimal_exponential and the n-simplicity predicates report exactly closure under the product, the least closure, and reducibility to a scalar by the named symmetric products.",
 ['inputs', 'configurations'], 'all subspaces of all signatures; grade indices from both ends',
 'Tests evaluate a handful of named subspaces in one or two algebras.',
 [S + 'factory.py', S + 'subspace.py', S + 'namespaces.py'],
 [('set operations', S + 'subspace.py: union, intersection, difference, complement, is_subspace'), ('constructors', S + 'factory.py: from_grades, k_vector, ...'), ('closures and predicates', S + 'subspace.py: minimal_subalgebra, is_n_simple, simplicity')],
 ['subspace.union(...)', 'x in y', 'subspace.inside.*()', 'subspace.select[...]', 'subspace.is_subalgebra'])

prop('C07', 'Declared result subspaces are sound and tight',
 "For every operator and input subspaces, the declared result subspace contains every blade on which some inputs give a nonzero result, so no component is ever lost; for the products, grade-selected, anti-, regressive, interior, commutator and symmetrised operators it contains no blade that is zero for all inputs. The symbolic subspace of an expression always equals the subspace of the computed multivector.",
 ['inputs', 'configurations'], 'all operators, all input subspaces, all signatures; cancellations coming from symmetry and metric zeros',
 'Tests assert only a few output subspaces; dropping a blade that is rarely nonzero, or keeping a provably zero one, needs the whole kernel.',
 [O + 'operator.py', O + 'factory.py', S + 'subspace.py'],
 [('squeeze / symmetry', O + 'operator.py: squeeze, symmetry, grade_selection'), ('operator factories', O + 'factory.py')],
 ['operator.subspace', 'multivector.subspace', 'subspace.product(other)'])

prop('C08', 'Operators compose like the multilinear maps they denote',
 "Binding, fusing, slicing, deslicing, adding, subtracting, scaling, exact integer dividing, swapping axes, output selection, grade selection, squeezing, summing an axis and symmetrising operators yield operators that act on every argument tuple as the corresponding composition, restriction, sum, multiple, permutation or symmetrised map of the originals, with arguments of inner operators taking the place of the axis they are bound to. This includes binding only some axes, several axes at once and operators of different arity, and passing operators where subspaces are expected.",
 ['programs', 'inputs'], 'all compositions of operators of mixed arities over all subspaces',
 'Tests exercise a few fixed compositions; argument-order errors only show for particular arities and binding positions.',
 [O + 'operator.py', O + 'factory.py'],
 [('composition', O + 'operator.py: fuse, bind, build, slice, deslice, select_subspace, symmetry')],
 ['Operator.bind', 'Operator.fuse', 'algebra.operator.<op>(operator, subspace)', 'context.operator(op)(...)'])

prop('C09', 'Partial application and bound-operator utilities',
 "Binding any subset of the arguments of an operator to (batched) multivectors, in any order or in several stages, and then supplying the rest gives the same result as supplying all at once; sandwich_map and inertia_map are such bindings. Sum, inverse, transpose, squeeze, concatenation, indexing and functional update of bound operators act as the corresponding operation on the linear maps, leaving the original unchanged.",
 ['programs', 'inputs'], 'all arities, binding subsets and orders, batch shapes and utilities',
 'Tests bind one argument pattern of a couple of operators.',
 [B + 'numpy/operator.py', B + 'jax/operator.py', B + 'torch/operator.py', O + 'abstract.py', M + 'multivector.py'],
 [('einsum partial application', O + 'abstract.py: precompute_einsum_partial; ' + B + '*/operator.py: partial'), ('operator utilities', B + '*/operator.py: sum, inverse, transpose, concatenate, __getitem__, at')],
 ['operator.partial({i: mv})(...)', 'mv.sandwich_map()', 'mv.inertia_map()'])

prop('C10', 'Fused repeated-argument operators equal the plain expressions',
 "For every multivector x: squared, cubed, each symmetric_*_product, inverse_factor, its completed and alternative forms, the inertia operator and full_sandwich, which are simplified under the assumption that repeated arguments are the same value, equal the unsimplified expression evaluated step by step (x*x, x*x*x, x*inv(x), ~x*conj(x*~x), ..., p & (p x b), R*v*~R). No term is lost or double counted by the simplification.",
 ['inputs', 'configurations'], 'all subspaces of all signatures, all coefficients; arities 2 to 4',
 'Tests check a few subspaces; the loss-less symmetrisation test depends on the pattern of every kernel.',
 [O + 'operator.py', O + 'factory.py'],
 [('symmetrisation', O + 'operator.py: symmetry'), ('fused operators', O + 'factory.py: squared, cubed, symmetric_*, inverse_factor*, inertia, full_sandwich')],
 ['mv.squared()', 'mv.symmetric_reverse_product()', 'mv.inverse_factor()', 'context.operator.cubed(...)'])

prop('C11', 'Sandwich and transform',
 "R >> v equals R*v*~R restricted to the grades present in the subspace of v, R << v equals ~R*v*R with the same restriction, for all R and v, and full_sandwich is the unrestricted product. For a product R of k unit vectors the sandwich loses nothing, composes as (RS)>>v = R>>(S>>v), is inverted by <<, and transform(R, v) equals the sandwich with the sign (-1)^(k*grade), so that it preserves wedge products; the same holds for operators obtained by partial binding.",
 ['inputs', 'configurations'], 'all signatures, even and odd R, all subspaces of v, batches',
 'Tests sandwich a few motors in 2-5 dimensional PGA/CGA; odd versors, mixed-grade targets and indefinite metrics are not enumerated.',
 [O + 'factory.py', M + 'multivector.py'],
 [('sandwich operators', O + 'factory.py: full_sandwich, sandwich, reverse_sandwich, transform, inverse_transform'), ('operators >> <<', M + 'multivector.py: sandwich, reverse_sandwich, sandwich_map')],
 ['mv >> mv', 'mv << mv', 'mv.full_sandwich(mv)', 'mv.transform(mv)'])

prop('C12', 'Execution strategies and backends agree',
 "Every supported execution strategy and backend (numpy einsum and sparse; jax dense, einsum and sparse, eager or jitted; torch einsum and sparse; plain python) computes the same multivector, on the same subspace, for the same operation and inputs, up to the rounding of its dtype. Constructors, indexing, element update, sum, mean, concatenation and shape manipulation of multivectors agree as well.",
 ['configurations', 'inputs'], 'all backends and operator types, all operations, subspaces and batch shapes',
 'Backend tests compare a single product per backend at one shape.',
 [B + 'numpy/operator.py', B + 'jax/operator.py', B + 'torch/operator.py', B + 'python/operator.py', B + 'jax/multivector.py', B + 'torch/multivector.py', O + 'abstract.py'],
 [('dense/einsum/sparse execution', B + '*/operator.py: __call__'), ('sparse term lists', O + 'abstract.py: precompute_sparse'), ('pytree registration', B + 'jax/pytree.py')],
 ['context.operator.<op>(...)(...)', 'multivector methods per backend'])

prop('C13', 'Batches behave as independent multivectors',
 "Every operation on multivectors with leading batch axes, including mixed batch shapes, size-one and zero-size axes and non-contiguous or reordered storage, equals the operation applied separately to each element under array broadcasting rules. Indexing, reshape, flatten, concatenate, sum, mean, repeat, rearrange, take_along_axis and functional element update act on the batch axes only, never on the component axis, and leave the source unchanged.",
 ['inputs', 'configurations'], 'all operations, batch ranks and shape combinations, memory layouts',
 'Tests use one or two batch shapes for a few operations.',
 [B + 'numpy/operator.py', B + 'numpy/multivector.py', O + 'abstract.py', M + 'multivector.py', M + 'helper.py'],
 [('broadcasting kernels', B + 'numpy/operator.py: broadcast_allocate, broadcast_einsum'), ('batch helpers', B + 'numpy/multivector.py; ' + M + 'helper.py')],
 ['mv[...]', 'mv.reshape', 'mv.sum', 'mv.at[...].set', 'batched mv * mv'])

prop('C14', 'Linear structure, scalar coercion and component selection',
 "Addition and subtraction of multivectors over any two subspaces give the componentwise sum on the union of the subspaces; plain numbers (on either side) and arrays (on the right) act as scalars in +, -, *, /, negation is componentwise, and division by a scalar divides every component. select returns exactly the requested subspace with absent components zero, and restrict returns exactly the components shared with it, for named, grade-indexed and explicit subspaces alike.",
 ['inputs', 'configurations'], 'all pairs of subspaces (nested, overlapping, disjoint, empty), scalar kinds and batch shapes',
 'Tests add a few overlapping subspaces and select a few grades.',
 [M + 'multivector.py', M + 'namespaces.py', O + 'factory.py'],
 [('combine / upcast', M + 'multivector.py: combine, upcast, _divide'), ('select / restrict', O + 'factory.py: select, restrict; ' + M + 'namespaces.py')],
 ['mv + mv', 'mv - 1', '2 * mv', 'mv.select[...]', 'mv.restrict.name()'])

prop('C15', 'Results do not depend on history and inputs are never modified',
 "The result of any operation depends only on the values of its operands, the algebra and the context configuration: never on which operations, algebras, contexts, dtypes or batch shapes were used before, on cache contents, or on evaluation order. No operation modifies its operands, a previously returned result, or a shared constant such as a cached basis blade.",
 ['histories', 'programs'], 'all interleavings of operations over several algebras and contexts in one process',
 'Each test runs a short fixed sequence; a stale or colliding cache entry or an aliased buffer needs a particular history.',
 ['numga/context.py', 'numga/dynamic_dispatch.py', 'numga/flyweight.py', M + 'multivector.py', M + 'factory.py', O + 'factory.py'],
 [('operator caches', 'numga/context.py: ConcreteOperatorFactory; numga/util.py: cache'), ('dispatch cache', 'numga/dynamic_dispatch.py'), ('copy semantics', M + 'multivector.py: copy, at')],
 ['any sequence of public operations'],
 [('cache', 'concrete operator cache', 'numga/context.py'), ('flyweight_pool', 'subspace pool', 'numga/flyweight.py'), ('values', 'backing array of a multivector', M + 'multivector.py')])

prop('C16', 'Dispatch picks the first matching implementation',
 "A dispatching method called on any tuple of multivectors runs the first implementation, in registration order with explicit positions honoured, whose condition accepts the subspaces of the arguments, passes the arguments through unchanged and returns its result; it raises if none matches. This holds for every history of registrations and calls, including registrations made after calls with the same subspaces.",
 ['histories'], 'all interleavings of registrations (appended or at a position) and calls over all subspace tuples',
 'Tests never register after calling, nor several overlapping conditions.',
 ['numga/dynamic_dispatch.py'],
 [('ordered options with cache', 'numga/dynamic_dispatch.py: register, match, __call__, __get__')],
 ['SubspaceDispatch.register', 'SubspaceDispatch.__call__'],
 [('options', 'ordered (condition, implementation) list', 'numga/dynamic_dispatch.py'), ('cache', 'subspace tuple to implementation', 'numga/dynamic_dispatch.py')])

prop('C17', 'Inverses and division',
 "For every invertible multivector x of any subspace in fewer than six dimensions, x.inverse() satisfies x*x.inverse() = 1 = x.inverse()*x; inverse_la, inverse_shirokov (any dimension) and, where the completed inverse factor is scalar, inverse_hitzer give the same inverse. a / b equals a * b.inverse() for multivectors, numbers and mixtures of these, elementwise over batches.",
 ['inputs', 'configurations'], 'all signatures below six dimensions, all subspaces, all invertible coefficient vectors',
 'Tests invert random elements of some named subspaces in some signatures.',
 [X + 'inverse.py', M + 'multivector.py', B + 'numpy/multivector.py', O + 'factory.py'],
 [('recursive involution rules', X + 'inverse.py: simplify_inverses, register_special_case_5d'), ('direct methods', M + 'multivector.py: inverse_hitzer, inverse_shirokov; ' + B + 'numpy/multivector.py: inverse_la')],
 ['mv.inverse()', 'mv / mv', '1 / mv', 'mv.inverse_shirokov()'])

prop('C18', 'Norms, normalisation and square roots',
 "norm_squared is x*~x and norm is its root; normalized(x) satisfies n*~n = 1 and is proportional to x whenever the norm is a positive scalar. square_root(s) satisfies r*r = s for scalars and study numbers in the domain, inverse_square_root(s) is the inverse of it, motor_square_root(m)^2 = m for normalised motors away from -1, and motor_geometric_mean(a, b) is the normalised midpoint g with g*~a*g = b.",
 ['inputs', 'configurations'], 'all signatures below six dimensions with even, odd and single-grade subspaces in the domain of each function',
 'Tests sample a few motors and study numbers in some signatures.',
 [X + 'norms.py', X + 'roots.py'],
 [('normalisation', X + 'norms.py: normalized, norm, study_norm'), ('roots', X + 'roots.py: square_root, motor_square_root, motor_geometric_mean')],
 ['mv.normalized()', 'mv.norm()', 'mv.square_root()', 'mv.motor_square_root()'])

prop('C19', 'Exponentials and logarithms',
 "exp of a scalar or bivector equals its exponential power series, for elliptic, hyperbolic, null and mixed bivectors, and is a motor with m*~m = 1; motor_log inverts it for normalised motors near the identity. The quadratic, linear, linear-normalised (given a non-null generator) and bisection variants are exact inverses of their counterparts near the identity, and exp_quadratic is the Cayley map (1+b/2)/(1-b/2).",
 ['inputs', 'configurations'], 'all signatures below six dimensions, all bivector subspaces, batches',
 'Tests sample random bivectors in some signatures and compare round trips only.',
 [X + 'logexp.py'],
 [('exp/log dispatch', X + 'logexp.py: exp, motor_log, exp_bisect, motor_log_bisect, exp_quadratic, motor_log_quadratic, *_linear*')],
 ['mv.exp()', 'mv.motor_log()', 'mv.exp_quadratic()', 'mv.motor_log_linear_normalized()'])

prop('C20', 'Decompositions reproduce their input',
 "For bivectors b whose square has a nonzero real study norm, decompose_invariant(b) returns simple bivectors l, r with l + r = b, zero inner product, commuting, each squaring to a scalar; decompose_polar(b) returns l, s with b = l*s where b*~b has an invertible root. For a normalised Euclidean PGA motor m, motor_translator(m) * motor_rotor(m) = m with a translator 1+(null bivector) and a rotor without null generators, and motor_split(m, o) gives t, r with t*r = m where r leaves o invariant.",
 ['inputs', 'configurations'], 'all bivectors and motors in the domain of each decomposition, generic and special ones',
 'Tests sample random inputs in a few algebras.',
 [X + 'decompose.py', O + 'factory.py'],
 [('decompositions', X + 'decompose.py'), ('factorisation kernel', O + 'factory.py: euclidian_factorization')],
 ['mv.decompose_invariant()', 'mv.decompose_polar()', 'mv.motor_split(o)', 'mv.motor_translator()', 'mv.motor_rotor()'])

prop('C21', 'Names, descriptions and printed tables denote what they say',
 "Algebra descriptions parse to and print as the declared generators and signs in order (string, (p,q,r), product of algebras); a blade name in any generator order denotes the wedge of those generators with its permutation sign, and zero when repeated, also for multi-character generator names. The bit and name strings of a subspace list its blades in component order, and the printed table of a unary or binary operator shows exactly its result blade and sign for every input pair.",
 ['inputs', 'configurations'], 'all signatures, generator names, blade names and subspaces',
 'Tests print tables without asserting them and parse one or two names.',
 [A + 'description.py', M + 'factory.py', S + 'subspace.py', S + 'factory.py', O + 'operator.py'],
 [('parsing', A + 'description.py: from_str, from_pqr, parse_tokens'), ('names', S + 'subspace.py: bit_str, named_str; ' + M + 'factory.py: __getattr__'), ('tables', O + 'operator.py: unary_operator_str, binary_operator_str')],
 ['Algebra(...).description', 'context.multivector.xy', 'subspace.named_str', 'str(operator)'])

prop('C22', 'Numerical motor normalisation',
 "For every motor-subspace element close to a normalised motor in fewer than six dimensions, normalize_motor returns n with n*~n = 1 that equals s*m for a self-reverse s, and inverse_sandwich(s) returns x with x*s*~x = 1 for self-reverse s close to 1, elementwise over batches. An already normalised motor is returned unchanged.",
 ['inputs', 'configurations'], 'all signatures below six dimensions, all such motors, batches',
 'Tests sample a few algebras with fixed seeds.',
 [M + 'numerical_normalize.py'],
 [('Gauss-Newton on the sandwich', M + 'numerical_normalize.py: inverse_sandwich, normalize_motor')],
 ['normalize_motor(m)', 'inverse_sandwich(s)'])

Z = 'numga/examples/'

prop('C23', 'Conformal and planar projective models denote their geometry',
 "In the conformal model of a base space of any signature, through either way of setting it up: embedding the point x with radius r gives ni*(x^2-r^2)/2 + no + x, whose square is r^2 and whose inner products and reflections are those of points and spheres; the position of an embedding is x; normalisation makes o|ni = -1; and split_points takes a real point pair apart into its two distinct null points. The planar projective helper's points, lines, rotors, translators and exponentials (including of pure translations and of batches) are those of the euclidean plane, transform_points moves points as the motor does, and importing it leaves every other algebra alone.",
 ['inputs', 'configurations'], 'all base signatures, points, radii, weights, motors, batches and backends',
 'Tests print results or check one primitive at one point.',
 [Z + 'conformal.py', Z + 'pga2d.py'],
 [('embedding and point pairs', Z + 'conformal.py: embed_point, point_position, normalize, split_points'), ('planar helpers', Z + 'pga2d.py')],
 ['Conformal(context).embed_point(P, r)', 'split_points(T)', 'pga2d.transform_points(m, p)'])

prop('C24', 'Sparse matrices of multivectors are matrices',
 "A sparse matrix built from entries in any order, repeated ones adding up, or as a diagonal or from a scipy matrix, denotes the matrix of those entries, independently of any other builder. Sums, negation, scaling, adjoint, dual and products, under any binary operator of the algebra, with multivectors, vectors of multivectors and other matrices are those of the denoted matrices; a product bound to a subspace of operands agrees with it when applied, written out as a dense matrix, or used as a flat linear operator. Operands stay unchanged.",
 ['inputs', 'programs'], 'all sparsity patterns, repetitions, algebras, subspaces, operators and compositions of operations',
 'The tests in this module are not collected, and print results for two fixed matrices.',
 [Z + 'ga_sparse.py'],
 [('entries', Z + 'ga_sparse.py: Builder, MatrixContainer'), ('products', Z + 'ga_sparse.py: MatrixOperator, BoundMatrixOperator')],
 ['Builder.finalize()', 'matrix * vector', 'matrix * matrix', 'matrix.wedge(V).as_dense()'])

prop('C25', 'Rigid bodies and their constraints',
 "For a body made from any cloud of points in flat or curved spaces, the first moment, inertia map, its inverse, kinetic energy, forques and rate derivative are those of the points (momentum is the sum of p & (p x rate), and Euler's equation holds), and an integration step advances rates by the classical Runge-Kutta method and motors by the normalised step whose motion over dt is the new rate. Constraints exchange equal and opposite impulses along the line joining, or the relative velocity of, their anchors, sized by the violation over the total compliance: they conserve total momentum, do not increase kinetic energy or move anchors apart, and leave satisfied constraints and bodies at rest alone. Sets of bodies and constraints behave as their elements, also when sliced, concatenated, or compiled.",
 ['inputs', 'configurations', 'histories'], 'all point clouds, rates, motors, compliances, spaces of two to four generators, chains, backends',
 'The only tests of this code plot one chain and one spinning body.',
 [Z + 'physics/core.py', Z + 'physics/base.py', Z + 'physics/setup_chain.py', 'numga/backend/jax/pytree.py'],
 [('bodies', Z + 'physics/base.py: Body.from_point_cloud; ' + Z + 'physics/core.py: Body'), ('constraints', Z + 'physics/core.py: Constraint'), ('chains', Z + 'physics/setup_chain.py: setup_bodies')],
 ['Body.from_point_cloud', 'body.integrate(dt, constraints)', 'constraint.apply', 'constraint.v_apply'])

prop('C26', 'Integrators have their declared order and solve their equations',
 "RK1 and RK4 satisfy all order conditions up to orders 1 and 4 and RK8 those up to order 7, for every smooth vector field, step and state type; on linear fields their step is the power series truncated there. The Lie group integrators step by the maps they name: the quadratic exponentials and logarithms are the Cayley map, its half-step square and their inverses, the Newton solver takes exact Newton steps, and the explicit and implicit steps solve Euler's equations and move the motor by the Cayley map of the rate.",
 ['inputs', 'configurations'], 'all smooth vector fields (by Butcher trees), all states, steps, spaces and bodies',
 'Tests print trajectories; an order condition is a statement about every vector field.',
 [Z + 'integrators.py', Z + 'physics/lie_integrators.py'],
 [('tableaus', Z + 'integrators.py: RK1, RK4, RK8'), ('Lie group steps', Z + 'physics/lie_integrators.py')],
 ['RK4(f, y, h)', 'explicit_lie_newmark(...)', 'newton_solver(f, n)'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
