"""Writes /verif/properties.jsonl (kept as code so that the wording lives in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=state or [], observe_at=observe or [], hook_needed=None)))

p('C01', 'Products and (anti)commutators of strings are exact',
  'For any two Pauli strings, or any two Majorana strings, with increasing labels, the product, commutator and anticommutator return a coefficient and a string whose product is exactly the corresponding operator product AB, AB-BA or AB+BA, with a coefficient of zero and no string exactly when that operator vanishes. '
  'The returned string is in canonical form (increasing labels, no repeated or identity factors, its own fixed prefactor), and the inputs are left unchanged. Strings of types without such an algebra are rejected.',
  ['inputs'], 'every pair of Pauli (or Majorana) strings: any number of factors, any non-negative labels, any overlap pattern',
  'tests multiply a few dozen hand-picked short strings; signs depend on the interleaving of arbitrarily many labels',
  ['qosy/algebra.py', 'qosy/tools.py', 'qosy/operatorstring.py', 'qosy/config.py'],
  [('_operation_opstring', 'qosy/algebra.py'), ('sort_sign', 'qosy/tools.py'), ('PRODUCT_DICT', 'qosy/config.py')],
  ['qosy.product', 'qosy.commutator', 'qosy.anticommutator'])

p('C02', 'Operator products and (anti)commutators are the exact bilinear extension',
  'The product, commutator or anticommutator of two operators equals the sum over all pairs of their terms of the product of the coefficients with the exact product, commutator or anticommutator of the strings, with equal strings collected into one term and vanishing pairs dropped. '
  'Neither input operator is changed, operators of different types are rejected, and mixing a string with an operator is rejected.',
  ['inputs'], 'every pair of operators: any number of terms, any coefficients, any strings, any collisions between produced strings',
  'tests check a handful of small products; collisions and cancellations between terms are not enumerated',
  ['qosy/algebra.py', 'qosy/basis.py'], [('_operation_operator', 'qosy/algebra.py'), ('Operator.__init__', 'qosy/basis.py')],
  ['qosy.product', 'qosy.commutator', 'qosy.anticommutator'])

p('C03', 'Strings are well-formed, Hermitian, comparable values with faithful names',
  'Every string that can be constructed is well formed: as many operators as labels, and a prefactor which makes a Pauli or Majorana string Hermitian with square one (Fermion prefactors are only 1 or i); anything else is rejected with an error. '
  'Two strings are equal exactly when their type, prefactor, operators and labels agree, equal strings hash equally, and printing a non-identity string and parsing the result gives back an equal string. '
  'Parsing accepts names with or without the prefactor and rejects malformed names or a disagreeing type.',
  ['inputs'], 'every list of operator names and labels, every prefactor, every textual name',
  'tests construct a few strings; the prefactor rule depends on the number of factors modulo four and hashing on every field',
  ['qosy/operatorstring.py', 'qosy/config.py'], [('OperatorString.__init__', 'qosy/operatorstring.py'), ('opstring', 'qosy/operatorstring.py'), ('__eq__/__hash__', 'qosy/operatorstring.py')],
  ['qosy.OperatorString', 'qosy.opstring'])

p('C04', 'A basis is a faithful ordered set of strings under any history',
  'After any sequence of constructions and additions of strings or bases, a basis holds each string once, in order of first insertion, and lookup, membership, iteration and length all agree: the element at position i has index i, and exactly the elements are contained. '
  'Adding returns a new basis without changing either operand, adding in place changes only the left operand, repeated strings at construction are rejected, and operands of other kinds are rejected.',
  ['inputs', 'histories'], 'every sequence of construction, +, += with strings, bases (including itself) and duplicates',
  'tests check fixed small bases; aliasing and duplicate handling over longer histories are not sampled',
  ['qosy/basis.py'], [('Basis.__init__', 'qosy/basis.py'), ('Basis.__add__/__iadd__', 'qosy/basis.py')], ['qosy.Basis'],
  [dict(name='op_strings/_indices', meaning='ordered list of strings and its inverse map', where='qosy/basis.py Basis')])

p('C05', 'Operators form a vector space without hidden side effects',
  'Sums, differences, scalar multiples and negation of operators have, for every string, exactly the sum, difference, multiple or negative of the coefficients of the operands, and expanding an operator as a vector over a basis that contains its strings puts each coefficient at the position of its string. '
  'Out-of-place operations leave their operands unchanged, in-place addition and subtraction change only the left operand, removing zeros drops exactly the terms with coefficients of magnitude at most the tolerance, and norms and normalization agree with the coefficient vector. '
  'Adding operators of different types is rejected.',
  ['inputs', 'histories'], 'every pair of operators over arbitrary (overlapping, disjoint, differently ordered) strings, every scalar, every sequence of operations',
  'tests add a few operators; alignment of coefficients depends on how the two bases overlap',
  ['qosy/basis.py'], [('Operator.__add__/__iadd__/__mul__/to_vector/remove_zeros', 'qosy/basis.py')], ['qosy.Operator'])

p('C06', 'Jordan-Wigner conversion between Pauli and Majorana is exact',
  'Converting a Pauli string or operator to the Majorana form, or a Majorana string or operator to the Pauli form, gives exactly the same operator under the Jordan-Wigner mapping a_j = Z_0...Z_{j-1} X_j, b_j = Z_0...Z_{j-1} Y_j, d_j = Z_j; converting there and back returns the original operator, and conversion to its own type returns an equal operator.',
  ['inputs'], 'every Pauli or Majorana string (any labels, any length) and every real or complex combination of them',
  'tests convert specific strings on a few orbitals; tails of Z or d factors grow with the labels',
  ['qosy/conversion.py', 'qosy/algebra.py'], [('_jordan_wigner', 'qosy/conversion.py'), ('_convert_operator', 'qosy/conversion.py')], ['qosy.convert'])

p('C07', 'Fermion conversions and conversion matrices are exact and invertible',
  'Converting a Fermion string c^dag...c (with its Hermitian conjugate added when the two index lists differ) or Fermion operator to Majorana or Pauli form, or back, yields exactly the same operator when identity terms are included, and the same operator up to a multiple of the identity when they are not. '
  'A conversion matrix has in each column exactly the coefficients of the converted basis string, so matrices between two complete bases are inverse to each other.',
  ['inputs'], 'every Fermion string with at most one creation and one annihilation per orbital in the documented order, every Majorana or Pauli string, every pair of complete bases',
  'tests convert a few strings of one or two orbitals and small bases',
  ['qosy/conversion.py', 'qosy/basis.py'], [('_convert_majorana_string', 'qosy/conversion.py'), ('_convert_fermion_string', 'qosy/conversion.py'), ('conversion_matrix', 'qosy/conversion.py')], ['qosy.convert', 'qosy.conversion_matrix'])

p('C08', 'Structure constants, Liouvillian and commutant matrices represent the bracket',
  'For a basis (or list of operators) and an operator, column j of the Liouvillian matrix holds exactly the coefficients, in the returned extended basis, of the commutator of the j-th basis element with the operator (or of their anticommutator or product in those modes); the structure constants do the same string by string; the extended basis contains exactly the strings that appear, each once. '
  'The commutant matrix is exactly the conjugate transpose of the Liouvillian matrix times the Liouvillian matrix.',
  ['inputs'], 'every basis, operator and operation mode, including collisions, cancellations, complex coefficients and strings that commute with everything',
  'tests check a few small bases',
  ['qosy/algebra.py'], [('structure_constants', 'qosy/algebra.py'), ('_liouvillian_matrix_opstrings', 'qosy/algebra.py'), ('_liouvillian_matrix_operators', 'qosy/algebra.py'), ('commutant_matrix', 'qosy/algebra.py')],
  ['qosy.structure_constants', 'qosy.liouvillian_matrix', 'qosy.commutant_matrix'])

p('C09', 'Transformations act as the symmetries they represent',
  'Label permutations and particle-hole (a -> a, b -> -b) act on strings and operators as the exact algebra automorphism; time reversal acts as an antiunitary automorphism (Pauli strings change sign with each factor; spinless Majorana a -> a, b -> -b, with i -> -i; with spin information combined with the spin rotation). '
  'A product of transformations applies the right factor first and a power repeats its base; applying to an operator is linear, leaves the input unchanged, and the symmetry matrix over a basis or list of operators represents that action.',
  ['inputs'], 'every string and operator, every permutation, every product and power of transformations, every basis',
  'tests apply a few transformations to fixed strings; Majorana signs depend on the reordering caused by the permutation',
  ['qosy/transformation.py', 'qosy/tools.py'], [('_permutation_rule', 'qosy/transformation.py'), ('_time_reversal_rule', 'qosy/transformation.py'), ('_particle_hole_rule', 'qosy/transformation.py'), ('Transformation.__mul__/__pow__/apply', 'qosy/transformation.py'), ('symmetry_matrix', 'qosy/transformation.py')],
  ['qosy.label_permutation', 'qosy.time_reversal', 'qosy.particle_hole', 'qosy.Transformation.apply', 'qosy.symmetry_matrix'])

p('C10', 'Commuting and invariant operators are found soundly and completely',
  'The vectors returned for the operators commuting (or anticommuting) with a given operator span exactly the null space of the corresponding superoperator over the given basis, and the vectors returned for the operators invariant (or changing sign) under a given transformation span exactly the operators in the span of the basis on which it acts as +1 (or -1), up to the stated tolerance.',
  ['inputs'], 'every basis or list of operators, every Hermitian operator or transformation that maps the span into itself, both modes',
  'tests look at a few known conserved quantities',
  ['qosy/core.py', 'qosy/algebra.py', 'qosy/transformation.py'], [('commuting_operators', 'qosy/core.py'), ('invariant_operators', 'qosy/core.py')],
  ['qosy.commuting_operators', 'qosy.invariant_operators'])

p('C11', 'Operators generated from several symmetries satisfy all of them',
  'For any list of imposed symmetries (operators or transformations, commuting or anticommuting) given in any order, after each stage the generated operators span exactly the operators in the span of the basis that satisfy all symmetries imposed so far, in both generation modes and with or without the sparsification and orthogonalization options.',
  ['inputs', 'configurations'], 'every basis, every list of symmetries and operation modes, every combination of options',
  'tests impose one or two symmetries with the default options',
  ['qosy/core.py', 'qosy/tools.py'], [('SymmetricOperatorGenerator.generate', 'qosy/core.py'), ('intersection', 'qosy/tools.py'), ('sparsify', 'qosy/tools.py')],
  ['qosy.SymmetricOperatorGenerator'])

p('C12', 'Symmetrization uses the whole group and keeps exactly the invariants',
  'Symmetrizing a basis that is closed under the given permutations returns operators that are each invariant under every generator, normalized, with disjoint sets of strings, and that together span all operators in the span of the basis invariant under the group generated by the permutations. '
  'Symmetrizing a lattice returns a lattice whose set of orbitals is mapped to itself by every given point group operation and contains the original ones, with no repeated orbitals.',
  ['inputs'], 'every set of generators (any order and number, any relations), every closed basis, every lattice and point group compatible with it',
  'tests use one or two generators of small cyclic groups',
  ['qosy/symmetrization.py', 'qosy/tools.py'], [('symmetrize_basis', 'qosy/symmetrization.py'), ('_symmetrize_opstring', 'qosy/symmetrization.py'), ('symmetrize_lattice', 'qosy/symmetrization.py')],
  ['qosy.symmetrize_basis', 'qosy.symmetrize_lattice'])

p('C13', 'Generated bases are complete, duplicate-free and respect their bounds',
  'The cluster basis contains each Hermitian string supported on the given labels with one of the allowed numbers of factors (creation factors for Fermions) exactly once and nothing else (for Fermions, each string with creation labels ascending, annihilation labels descending, both real and imaginary versions when the two lists differ, and no string together with its conjugate), plus the identity exactly when requested. '
  'The distance basis contains exactly the cluster strings supported on sets of allowed orbitals whose pairwise distances are at most the range.',
  ['inputs'], 'every cluster, every number or list of numbers of factors, every operator type, every lattice, range and set of allowed orbitals',
  'tests count or list the strings for two or three labels',
  ['qosy/basis.py', 'qosy/tools.py', 'qosy/lattice.py'], [('cluster_basis', 'qosy/basis.py'), ('distance_basis', 'qosy/basis.py')],
  ['qosy.cluster_basis', 'qosy.distance_basis'])

p('C14', 'Graph helpers return exactly the maximal cliques and connected components',
  'For any undirected graph given by adjacency lists, the maximal cliques returned are exactly the maximal complete subgraphs, each once, and the connected components returned are exactly the classes of mutually reachable nodes, each node appearing once, for either search mode. The graph passed in is not changed.',
  ['inputs'], 'every finite undirected graph without self-loops',
  'tests use two or three small graphs',
  ['qosy/tools.py'], [('maximal_cliques', 'qosy/tools.py'), ('connected_components', 'qosy/tools.py')],
  ['qosy.tools.maximal_cliques', 'qosy.tools.connected_components'])

p('C15', 'Permutation signs and list comparisons are exact',
  'Sorting with sign returns the vector in non-decreasing order together with the parity of the permutation that sorts it, without changing the input, for either sorting method; the sign of a permutation is its parity; composing two permutations applies the second one first. '
  'Comparing two lists orders them first by length and then lexicographically, returning -1, 0 or 1 consistently as a total order.',
  ['inputs'], 'every integer vector of any length (distinct entries for the parity, repeats allowed for sorting), every permutation, every pair of lists',
  'tests sort a few vectors',
  ['qosy/tools.py'], [('sort_sign', 'qosy/tools.py'), ('sign', 'qosy/tools.py'), ('compare', 'qosy/tools.py'), ('compose_permutations', 'qosy/tools.py')],
  ['qosy.tools.sort_sign', 'qosy.tools.sign', 'qosy.tools.compare', 'qosy.tools.compose_permutations'])

p('C16', 'Lattices enumerate, locate and measure their orbitals correctly',
  'A lattice contains one orbital for every cell, atom and orbital name, numbered consecutively in that order, with position equal to the cell origin plus the atom position; looking up the position and name of an orbital returns its number, also when the position is shifted by a lattice period along a periodic direction, and returns -1 for positions or names that do not exist. '
  'The distance between two orbitals is the smallest distance between their periodic images within one period along each periodic direction, hence symmetric and zero on the diagonal.',
  ['inputs', 'configurations'], 'every unit cell, number of cells, boundary condition and orbital, in any dimension',
  'tests use a few small lattices and print them',
  ['qosy/lattice.py'], [('Lattice.__init__', 'qosy/lattice.py'), ('Lattice.index', 'qosy/lattice.py'), ('Lattice.distance', 'qosy/lattice.py')],
  ['qosy.lattice.Lattice'])

p('C17', 'Matrix representations are exact and consistent with the algebra',
  'The matrix of a Pauli string or operator on n orbitals is exactly the sum of coefficients times Kronecker products of the 2x2 Pauli matrices with orbital 0 leftmost, so it respects sums, products and Hermiticity. '
  'Expanding a matrix over a basis returns the trace overlaps with the basis strings, so converting an operator to a matrix and back over a basis containing its strings returns the same coefficients.',
  ['inputs'], 'every Pauli string or operator and every number of orbitals containing its labels',
  'tests build matrices for a few operators on few orbitals',
  ['qosy/diagonalization.py'], [('_apply_opstring', 'qosy/diagonalization.py'), ('to_matrix', 'qosy/diagonalization.py'), ('to_vector', 'qosy/diagonalization.py')],
  ['qosy.to_matrix', 'qosy.to_vector', 'qosy.to_operator'])

p('C18', 'State permutations, reduced density matrices and Renyi entropies are exact',
  'Permuting the orbitals of a many-body basis configuration or state vector moves the occupation of orbital l to orbital p(l) and hence permutes the amplitudes, consistently with each other. '
  'A reduced density matrix equals the partial trace of the projector (or transition projector) over the other orbitals, with the kept orbitals in ascending order, and the Renyi entropy of order n is log(tr rho^n)/(1-n).',
  ['inputs'], 'every number of orbitals, permutation, state vector, subset of orbitals and order n >= 2',
  'tests use one or two small states',
  ['qosy/diagonalization.py'], [('apply_transformation', 'qosy/diagonalization.py'), ('_reshape_vector_subsystems', 'qosy/diagonalization.py'), ('reduced_density_matrix', 'qosy/diagonalization.py'), ('renyi_entropy', 'qosy/diagonalization.py')],
  ['qosy.apply_transformation', 'qosy.reduced_density_matrix', 'qosy.renyi_entropy'])

p('C19', 'Quadratic solvers diagonalize exactly the operator they are given',
  'Diagonalizing an operator returns eigenvalues and eigenvectors of its matrix in ascending order; the tight-binding solver does so for the hopping matrix that the operator encodes. '
  'The Bogoliubov-de Gennes and Majorana quadratic solvers return excitation energies whose signed half-sums, together with the shift they report (for the Majorana solver), reproduce the many-body spectrum of the operator, and operators that are not quadratic are rejected.',
  ['inputs'], 'every Hermitian operator (respectively every hopping, pairing or Majorana-quadratic operator) on any number of orbitals',
  'tests diagonalize a few textbook models',
  ['qosy/diagonalization.py', 'qosy/conversion.py'], [('diagonalize', 'qosy/diagonalization.py'), ('diagonalize_quadratic_tightbinding', 'qosy/diagonalization.py'), ('diagonalize_bdg', 'qosy/diagonalization.py'), ('diagonalize_quadratic', 'qosy/diagonalization.py')],
  ['qosy.diagonalize', 'qosy.diagonalize_bdg', 'qosy.diagonalize_quadratic', 'qosy.diagonalize_quadratic_tightbinding'])

p('C20', 'Generated Lie algebras are exactly the closure of their generators',
  'The Lie algebra generated from a basis of strings (or list of operators) contains the generators first and unchanged, is closed under commutation, has linearly independent elements beyond the generators, and contains nothing outside the smallest closed space containing the generators; the generators passed in are not changed.',
  ['inputs'], 'every basis of Pauli or Majorana strings and every list of independent operators with a finite closure',
  'tests generate a few small algebras',
  ['qosy/algebra.py', 'qosy/tools.py'], [('generate_lie_algebra', 'qosy/algebra.py')], ['qosy.generate_lie_algebra'])

p('C21', 'Vector-space helpers preserve the spaces they work on',
  'Gram-Schmidt on the columns of a dense or sparse matrix with a nonzero first column returns orthonormal columns that span the same space and nested partial spans, dropping exactly the dependent columns for a suitable tolerance; the intersection returns normalized vectors spanning exactly the intersection of the two column spaces given as independent columns; sparsifying a set of independent columns keeps the span; none of them changes its inputs. '
  'Removing duplicates keeps the first representative of each class, in order.',
  ['inputs'], 'every matrix (any rank, real or complex, dense or sparse), every pair of subspaces, every list of objects',
  'tests use a few fixed or random matrices',
  ['qosy/tools.py'], [('gram_schmidt', 'qosy/tools.py'), ('intersection', 'qosy/tools.py'), ('sparsify', 'qosy/tools.py'), ('remove_duplicates', 'qosy/tools.py')],
  ['qosy.tools.gram_schmidt', 'qosy.tools.intersection', 'qosy.tools.sparsify', 'qosy.tools.remove_duplicates'])

p('C22', 'Adaptive commutant searches report true residuals, with or without caches',
  'In every adaptive search for operators commuting with a Hamiltonian, the residual reported for each returned operator is the squared norm of the commutator of the Hamiltonian with that normalized operator, and the best operator returned is one with the smallest reported residual. '
  'Restricted commutators computed with a shared cache equal the ones computed from scratch, whatever was explored before with the same Hamiltonian, and bases are truncated to the largest coefficients above the threshold up to the size limit.',
  ['inputs', 'histories'], 'every Hamiltonian, starting operator, number of steps, truncation setting and every history of cached explorations',
  'tests run the searches on one chain without checking residuals independently',
  ['qosy/algorithms.py'], [('_explore', 'qosy/algorithms.py'), ('selected_ci*', 'qosy/algorithms.py'), ('_truncate_basis', 'qosy/algorithms.py')],
  ['qosy.algorithms.selected_ci', 'qosy.algorithms.selected_ci_sweep', 'qosy.algorithms.selected_ci_greedy', 'qosy.algorithms.selected_ci_simple'],
  [dict(name='explored_data', meaning='cache of structure constants for the explored basis', where='qosy/algorithms.py')])

p('C23', 'Text and ordering helpers substitute and sort exactly',
  'Replacing names in a text substitutes every occurrence simultaneously, longer names taking precedence and the results never being substituted again, and swapping two names is its own inverse when they do not overlap in the text; sorting positions of a list, by value or by a comparison of positions, returns the permutation of positions that puts it in order, keeping the order of equal elements.',
  ['inputs'], 'every text, every set of names (with special characters, or containing one another), every list and comparison',
  'tests use one or two fixed strings and lists',
  ['qosy/tools.py'], [('replace', 'qosy/tools.py'), ('swap', 'qosy/tools.py'), ('argsort', 'qosy/tools.py')],
  ['qosy.tools.replace', 'qosy.tools.swap', 'qosy.tools.argsort'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties', max(len(x['title']) for x in P))
