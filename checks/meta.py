"""Single source of properties.jsonl and MANIFEST.json (python3 checks/meta.py writes both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SP = 'include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/sparse_mat.h'
CO = 'include/qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h'
FS = 'include/qlmps/one_dim_tn/mpo/mpogen/fsm.h'
IF = 'include/qlmps/one_dim_tn/mpo/mpogen/ifsm.h'
MG = 'include/qlmps/one_dim_tn/mpo/mpogen/mpogen_impl.h'
MP = 'include/qlmps/one_dim_tn/mps/mps.h'
DV = 'include/qlmps/one_dim_tn/framework/duovector.h'
TV = 'include/qlmps/one_dim_tn/framework/ten_vec.h'
CP = 'include/qlmps/case_params_parser.h'
FM = 'include/qlmps/one_dim_tn/mps/finite_mps/finite_mps.h'
FO = 'include/qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h'

PROPERTIES = []


def P(id, title, statement, over, text, why, files, mech, **kw):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)))


P('P01', 'Element containers own their elements: copies are independent, nothing leaks',
  'Copying the fixed-size element container (by construction or assignment, including onto itself) yields the same slots, allocated where the source is allocated, with equal elements stored at fresh addresses, so changing one never shows in the other; moving hands over all slots. Every element is released exactly once: no double release, no use after release, no leak.',
  ['histories', 'inputs'], 'every container size, every allocation pattern, every sequence of copies, moves, self-assignments, allocations and releases',
  'the tests copy a few small fully or partly allocated containers; self-assignment and arbitrary interleavings of allocate/copy/move/release are unbounded',
  [DV], [('copy/move constructors and assignments, destructor', DV)])
P('P02', 'Element container slots hold exactly what was last put there',
  'A slot read returns the element last written to that slot and every other slot is untouched; writing to an unallocated slot allocates it; explicit allocation replaces the element by a default one, release empties exactly that slot, clear empties all; size never changes and emptiness is reported exactly when no slot is allocated.',
  ['histories', 'inputs'], 'every size and every sequence of slot operations', 'tests run one short sequence per operation on tiny containers', [DV],
  [('element access, alloc, dealloc, clear, empty, cdata', DV)])
P('P03', 'Sparse matrix returns the last value set for every position',
  'After any sequence of sets, reading a position of the symbolic sparse matrix returns the last non-null value set there, or the null value if there was none (setting null changes nothing), and no other position is affected. The null query is true exactly for positions whose value is the null value; reserving space changes nothing observable.',
  ['histories', 'inputs'], 'all dimensions, all element types with a null value, all sequences of set, read, reserve, at positions inside the matrix',
  'the tests set a handful of positions of 5x5 matrices; the index table is correct for every history only by an invariant', [SP],
  [('position index table and element store', SP)])
P('P04', 'Removing a row or column shifts the rest and loses nothing else',
  'Removing row or column k of a symbolic sparse matrix leaves every other row/column with its elements in order, those behind k shifted by one; the number of rows/columns drops by one (removing the last one empties the matrix) and the matrix remains usable.',
  ['inputs', 'histories'], 'all dimensions, all fillings, every k, any history before and after', 'tests remove one or two lines of a fixed small matrix; storage compaction depends on storage order, which is history dependent', [SP],
  [('row and column removal', SP)])
P('P05', 'Row and column permutations of a sparse matrix move whole lines only',
  'Swapping two rows/columns exchanges exactly these (a line with itself: nothing happens); reordering rows/columns by an index list puts at position i exactly the line that was at the i-th listed index. No element is created, lost or changed.',
  ['inputs'], 'all dimensions, fillings and permutations', 'a random permutation of one small matrix per test run; the in-place element moves must be right for all permutations', [SP],
  [('line swaps and transpositions', SP)])
P('P06', 'Sparse matrix lines, copies and equality agree with its elements',
  'Extracting a row or column lists exactly the elements of that line in order. Two matrices compare equal exactly when they have the same shape and equal elements at every position, however they were filled; a copy or an assigned matrix has the same shape and elements and is independent of the source.',
  ['inputs', 'histories'], 'all dimensions, fillings and fill orders', 'equality must be insensitive to storage order, which tests exercise for one or two orders', [SP],
  [('line extraction, equality, copy', SP)])
P('P07', 'Symbolic coefficients form sums: equality, addition and value are exact',
  'A symbolic coefficient is a finite sum of labels. Adding concatenates the sums without losing or duplicating a summand (also when adding to itself), equality holds exactly when both have the same summands with the same multiplicities in any order, and its value under any assignment is the sum of the values of its labels, so equal coefficients have equal values and the value of a sum is the sum of values.',
  ['inputs'], 'all label lists, all value assignments', 'tests compare a few random short lists', [CO],
  [('symbolic coefficient class', CO)])
P('P08', 'Symbolic operators form linear combinations: equality, addition, realization',
  'A symbolic operator is a finite linear combination of basis operator labels with symbolic coefficients, with at most one term per label. Building from lists and adding sum up the coefficients label by label, equality holds exactly for the same labels with equal coefficients, and realizing it yields the sum over its terms of coefficient value times basis operator, zero operator for no term.',
  ['inputs'], 'all term lists (with repeated labels), all coefficient and operator assignments', 'tests use a few random lists of at most 5 labels', [CO],
  [('symbolic operator class', CO)])
P('P09', 'Splitting a coefficient off a symbolic operator is exact',
  'Splitting an operator into coefficient and base never changes its meaning: coefficient times base equals the operator under every assignment of values (the identity label being one), and either the base carries identity coefficients only or nothing was split off. Multiplying a coefficient onto an operator whose coefficients are all identity (or with the identity coefficient, or onto zero) yields exactly that product.',
  ['inputs'], 'all operators and coefficients, all assignments', 'tests cover two-term operators', [CO],
  [('coefficient splitting and incomplete product', CO)])
P('P10', 'Sorting an operator matrix is a pure, reported permutation',
  'Sorting the rows/columns of an operator matrix by their number of non-null elements returns a permutation of the line indices, and the new matrix has at line i exactly the old line listed at i, lines ordered by non-decreasing number of non-null elements.',
  ['inputs'], 'all operator matrices', 'tests sort one or two matrices', [CO], [('row/column sorting', CO)])
P('P11', 'Operator-matrix line analysis is exact: common coefficients, combinations',
  'The common coefficient found for a row/column is a coefficient of every non-null element of the line whenever it is not the identity (zero for an empty line), and removing it leaves elements whose product with it is the original. The linear combination of lines computed from given coefficients is exactly the sum of coefficient times line, wherever that product is defined.',
  ['inputs'], 'all operator matrices, lines and coefficient vectors', 'tests use hand-made 2x2 to 5x5 matrices', [CO],
  [('common divisor, coefficient removal, overlaps, line combinations', CO)])
P('P12', 'Compressing adjacent operator matrices preserves their product',
  'Row and column delinearization and compression of two adjacent operator matrices leave the product of the two (as a symbolic operator sum over all bond channels, for every entry) unchanged under every assignment, provided that on each bond channel the elements of one of the two matrices carry identity coefficients only, while never increasing the bond dimension; a coefficient matrix times an operator matrix is the exact matrix product.',
  ['inputs'], 'all pairs of adjacent operator matrices in which every bond channel has non-identity coefficients on at most one side', 'tests compare a few hand-made matrices with expected results', [CO],
  [('delinearization, compression, coefficient-matrix products', CO)])
P('P13', 'A path of operators through the finite state machine is recorded faithfully',
  'Adding a term acting on a contiguous range of sites records, on every site, the given operator inside the range and the site identity outside; the state sequence stays ready before the range, final from its end on, and takes in between a state no other path uses. Previously added paths are unchanged.',
  ['inputs', 'histories'], 'all system sizes, ranges, operators and path sequences', 'tests add at most a few paths to systems of 1 to 6 sites', [FS],
  [('path insertion', FS)])
P('P14', 'The matrix representation generated is the sum of all added terms',
  'For every system size and every set of added terms, multiplying the generated per-site operator matrices gives exactly the sum over all added terms of the tensor product of their operators, each counted once (repeated terms add up); the first matrix has one row and the last one column once there is a term.',
  ['inputs', 'histories'], 'all sets of terms on all chain lengths', 'tests compare the matrices of a few chosen sets with hand-written ones', [FS],
  [('matrix representation of the state machine', FS)])
P('P15', 'The compressed matrix representation equals the uncompressed one',
  'When the first operator of each term is one basis operator (or a sum of basis operators with one common coefficient) and carries the coefficient of the term, the compressed per-site operator matrices multiply to the same sum of tensor products as the uncompressed ones under every assignment of values, have matching bond dimensions, and no bond dimension is larger than in the uncompressed form.',
  ['inputs', 'histories'], 'all sets of terms (the empty set included) with one coefficient on the first operator, all chain lengths', 'tests check a dozen chosen Hamiltonians by comparing matrices', [FS, CO],
  [('compression sweep', FS)])
P('P16', 'State machine nodes are totally ordered pairs and paths report what was stored',
  'Nodes compare as (site, state) pairs in lexicographic order, consistently between less, greater and equal; accessors return the component they name, setters change only that one, and a path returns exactly the node or operator last stored at a position.',
  ['inputs'], 'all nodes, all paths', 'no test covers nodes as map keys beyond a few values', [FS],
  [('node and path types', FS)])
P('P17', 'Object labels are a stable bijection',
  'Converting an object to a label returns the same label for equal objects and different labels for different ones, forever; labels are consecutive from zero in order of first appearance (zero being the identity given at construction), and the label table maps every label back to its object.',
  ['inputs', 'histories'], 'all object sequences', 'tests convert a handful of objects', [FS], [('label table', FS)])
P('P18', 'Parameter files: a typed read returns the stored value or fails loudly',
  'Reading a named parameter as integer, real number, character, string, boolean or vector of them returns exactly the value in the file when the file holds a value of that kind, and ends the program with an error instead of returning a converted, truncated or default value when the name is missing or the kind differs.',
  ['inputs'], 'all JSON documents, names and requested types', 'tests read one good file', [CP], [('typed parameter access', CP)])
P('P19', 'Optional parameters: presence test and default agree with the file',
  'The presence test is true exactly for the names in the parameter section. Reading with a default returns the file value when the name is present (ending the program with an error if it is of another kind) and the default only when it is absent. A tentative read never ends the program, succeeds exactly when the name holds a value of the requested type, then delivers that value and otherwise leaves its target alone. No read changes the parsed parameters.',
  ['inputs', 'histories'], 'all JSON documents, names, types and defaults', 'tests read one good file', [CP], [('presence tests and defaults', CP)])
P('P20', 'Infinite-chain state machine: generated unit-cell matrix is the sum of its paths',
  'For an infinite chain, every term added to the unit cell is represented by a chain of links whose operators multiply to that term, and the generated unit-cell matrices contain the sum of all added terms, each once.',
  ['inputs', 'histories'], 'all unit cells and term sequences', 'the infinite machine has no test that adds a path', [IF], [('infinite state machine', IF)])
P('P21', 'Hamiltonian terms added to the MPO generator mean the operator product written',
  'A generator made for a site vector starts with no term. Adding a term (operators with their sites in any order, every site at most once and inside the chain; or operators with strings between them that fill the gap site by site or sit on listed sites, with or without a tail behind the last one; or one or two operators with an optional string) records exactly one more path and leaves the earlier ones alone: on every site with an operator that operator, with its sign moved into the coefficient where the first nonzero element has a negative real part; the coefficient once, on the first site; the identity on all other sites. A term with zero or negligible coefficient records nothing.',
  ['inputs', 'histories'], 'all site tuples and orders, operator and string choices, coefficients, chain lengths and earlier terms', 'tests build a few standard Hamiltonians and compare the final tensors', [MG],
  [('term insertion of the MPO generator', MG)])
P('P22', 'Canonical-form records of a matrix product state tell the truth',
  'At every point of any history of element accesses, canonicalization steps and sweeps, centralizations and reversals on a finite matrix product state whose tensors are in memory: a site labelled left- (right-) canonical holds a left (right) isometry; the recorded center is unknown, or all sites to its left are left-canonical and all to its right right-canonical; writing access to a site forgets its label and the center. Left- (right-) canonicalizing up to a site labels that whole stretch, centralizing ends with the center at the given site; steps, sweeps and centralizing leave the state itself (the product of all site tensors) unchanged, the labels and tensors outside their stretch alone, and leak no tensor. Reversing puts the reversed tensors in reverse order. A new state has empty sites, no label and no center.',
  ['histories', 'inputs'], 'all chain lengths, all histories of steps, sweeps, accesses and reversals', 'tests canonicalize a few fixed states', [FM],
  [('canonicalization of finite matrix product states', FM)])
P('P23', 'Saved matrix product states load back tensor by tensor; failures are reported',
  'Dumping a site tensor, or all site tensors of a matrix product state, puts exactly those tensors into their files (each site its own file of the directory, which is created when missing) and touches no other file; loading them back restores each tensor at its own site and leaves the other sites alone. Memory is released exactly when asked to. A file that is missing or damaged, or cannot be created or written, raises an exception; a tensor that cannot be written stays in memory.',
  ['inputs', 'histories', 'fault_sequences'], 'all chain lengths, paths, release flags, histories of dumps and loads; missing, truncated, unwritable files, full disks', 'tests dump and load one state in a good directory', [TV, MP, FM],
  [('tensor vector dump and load', TV), ('state dump and load', MP)])
P('P24', 'Variational sweeps lower the energy and reach the ground state',
  'Two-site, noised two-site and single-site variational sweeps and DMRG with enough bond dimension converge to the lowest eigenvalue, the energy never increases in noiseless sweeps, and the state stays normalized.',
  ['inputs', 'configurations'], 'all Hamiltonians, initial states and sweep parameters', 'tests run a few models with exact reference energies', ['include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h', 'include/qlmps/algorithm/dmrg/dmrg_impl.h'],
  [('variational sweep', 'include/qlmps/algorithm/vmps/two_site_update_finite_vmps_impl.h')])
P('P25', 'Time evolution follows the Schroedinger equation',
  'Time-dependent variational evolution of a state over a step tau approximates exp(-i H tau) applied to it, conserves norm and energy up to truncation, and dumps expectation values at the time they belong to.',
  ['inputs', 'configurations'], 'all Hamiltonians, states, steps', 'tests compare with exact evolution for small chains', ['include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h'],
  [('two-site time evolution', 'include/qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h')])
P('P26', 'Lanczos returns the lowest eigenpair',
  'The Lanczos solvers return the lowest eigenvalue and a normalized eigenvector of the effective Hamiltonian within the requested error or the iteration limit.',
  ['inputs'], 'all Hermitian effective Hamiltonians and starting vectors', 'tests use random tensors of fixed size', ['include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h'],
  [('Lanczos iteration', 'include/qlmps/algorithm/vmps/lanczos_vmps_solver_impl.h')])
P('P27', 'Parallel (MPI) runs compute what the serial ones do',
  'Master/slave parallel sweeps, environment updates and Lanczos give the same results as the serial algorithms for every number of processes and schedule, and terminate without deadlock.',
  ['schedules', 'configurations'], 'all process counts and message schedules', 'tests run one process count', ['include/qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi_impl_master.h'],
  [('master/slave protocol', 'include/qlmps/algo_mpi')])
P('P28', 'Measurements return expectation values in the measured state',
  'One-site, two-site and multi-site measurements return the expectation value of the operator product (with inserted string operators) in the normalized state, labelled by the sites measured.',
  ['inputs'], 'all states, operators and site tuples', 'tests measure a few states', ['include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h'],
  [('measurement functions', 'include/qlmps/one_dim_tn/mps/finite_mps/finite_mps_measu_memory.h')])
P('P29', 'Printed symbolic expressions name every summand',
  'The printed form of a symbolic coefficient or operator lists every summand exactly once in order, with the symbol of its own label, zero for an empty expression and one for the identity coefficient.',
  ['inputs'], 'all coefficients and operators over the printable label range', 'no test reads the printed form', [CO], [('text conversion', CO)])

LEVEL_NOTE = ('Deductive proof, for all inputs and without bounds, of the contracts of the functions named in the evidence file; every obligation is regenerated from /repo on every run. '
              'Trusted: clang AST, the VC generator in /verif/engine, z3/cvc5, assumed contracts on the C++ standard library. '
              'A sanitizer-instrumented falsifier runs beside it to produce failing inputs; what leaves the verifier subset is reported as BOUNDED and not counted as proved.')
TECH = 'contract-based deductive verification (clang AST -> VCs -> z3/cvc5) of the real functions, with a falsifier for counterexamples'

NA_NUM = 'a statement about floating-point tensor numerics (SVD/QR/Lanczos convergence) of the external tensor library qlten, which is not installed here: the code does not compile and no contract within a deductive verifier\'s reach expresses convergence or approximation'
NOT_APPLICABLE = {
    'P24': NA_NUM, 'P25': NA_NUM, 'P26': NA_NUM, 'P28': NA_NUM,
    'P27': 'needs MPI and the external tensor library, neither installed; equivalence under all message schedules of a multi-process protocol is outside sequential function contracts',
    'P20': 'the infinite state machine is broken at base (adding any path throws, see known-findings.txt), so there is no behaviour to put under contract before a redesign',
}
PENDING = 'not built yet'


def write():
    import sys
    sys.path.insert(0, os.path.join(HERE, 'checks'))
    from units import PROPS
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPERTIES:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='python3-vt /verif/checks/setup_check.py', checks=[], not_applicable=[],
               notes='Contract-based deductive verification of /repo headers; see DESIGN.md. No hooks in /repo are needed.')
    for p in PROPERTIES:
        i = p['id']
        if i in PROPS:
            man['checks'].append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s --tier quick' % i, thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % i,
                                      evidence_file='evidence/%s.json' % i, technique=PROPS[i].get('technique', TECH), level=PROPS[i].get('level', 'proof'), level_note=PROPS[i].get('note', LEVEL_NOTE)))
        else:
            man['not_applicable'].append(dict(property=i, reason=NOT_APPLICABLE.get(i, PENDING)))
    json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(man['checks']), 'claimed', [n['property'] for n in man['not_applicable']])


if __name__ == '__main__':
    write()
