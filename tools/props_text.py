NOTE = ('Each obligation is one function (or call path) evaluated abstractly on symbolic arrays with unknown dimensions and entries; "holds" is '
        'proved for all values, conditional on the modelled numpy semantics and, for chains, on the analysed lengths. Undecided obligations are '
        'listed in the evidence and raise no alarm.')

prop('C01', 'Environment blocks and effective Hamiltonians are the exact contractions',
     'Adding a site to a left or right environment block, building all left/right blocks of a chain, and applying the zero-, one- or two-site '
     'effective Hamiltonian (with or without operator-carrying blocks) give exactly the tensor-network contraction of state, operator and conjugated '
     'state, with every physical, bond and operator leg joined to its counterpart and complex conjugation only on the bra side. '
     'The left and right versions are mirror images of each other, for every shape and dtype.',
     ['inputs'], 'all tensor shapes (unequal left/right bonds, unequal in/out physical legs, any operator bond), real and complex entries, both directions, chains of any length (decided for one to four sites)',
     'the tests only exercise real or hermitian, mostly square inputs through converged energies, where a swapped symmetric leg or a missing conjugate cancels',
     [MFP, ENGP], [('addLayer / addELayer / one-step contractions', MFP), ('getL/getR block builders', MFP + ' ; ' + MPSP), ('HAproduct family and effective-Hamiltonian operators', MFP)],
     ['returned arrays of the environment and effective-Hamiltonian functions'], TECH_NET, NOTE)

prop('C02', 'Transfer operators and block densities are the exact contractions',
     'Applying the (mixed, generalized, pseudo, momentum-carrying or multi-site) transfer operator of one or two states to a left or right vector gives '
     'exactly the contraction of the vector with ket tensors and conjugated bra tensors in the stated direction, site order, momentum phase and projector '
     'convention, whichever of a tensor, a list or a state object is passed. The vector is handed in and out in the same index order.',
     ['inputs'], 'all bond dimensions, complex entries, both directions, unit cells of one to three sites, all momenta',
     'the tests use one or two unit cells with hermitian dominant eigenvectors, for which several wrong index orders agree',
     [MFP], [('transfer operator kernels', MFP), ('unit-cell and linear-operator wrappers', MFP)],
     ['arrays returned by the transfer-operator functions and operators'], TECH_NET, NOTE)

prop('C03', 'Matrix and tensor factorisations reconstruct the input and are isometric',
     'Every QR or SVD preparation of a matrix or site tensor (in either direction, with or without phase fixing, truncation, singular-value rescaling or the '
     'fallback solver) returns factors whose product times the returned scalar is the input up to discarded singular vectors, with the kept factor isometric '
     'in its direction, singular values of norm one, and the scalar equal to the norm of the untruncated input. Splitting a site into two reproduces the mapped site tensor.',
     ['inputs', 'fault_sequences'], 'all tensor shapes and entries, both directions, every option combination, primary solver failing or not',
     'tests check a few random tensors; the fallback path and zero or negative diagonal entries never occur there',
     [MFP], [('svd / qr wrappers with fallback', MFP), ('prepareTensor, prepareTensorSVD, prepareTruncate', MFP), ('site splitting', MFP)],
     ['returned factors and scalars'], TECH_NET, NOTE)

prop('C04', 'Moving the gauge centre never changes the represented state',
     'Moving the gauge centre between any two bonds, absorbing the centre or connector matrix, reading out a tensor or the tensor list, orthonormalising a '
     'tensor list, and bringing an open chain into canonical form leave the represented state unchanged (up to a positive factor, or a global phase where '
     'normalisation is specified, when truncating); the passed tensors are isometric and the centre matrix has norm one. The recorded position, scalar factor and matrices stay consistent with the tensors.',
     ['inputs', 'histories'], 'all start and target bonds, chain lengths one to four (each site runs the same loop body), open and general boundary bonds, any tensor entries',
     'tests look at a few random chains and compare norms or energies, which do not see a lost phase, a matrix absorbed on the wrong side or a stale position',
     [MPSP, MFP], [('gauge motion of the state class', MPSP), ('list-level orthonormalisation and canonisation', MFP)],
     ['tensors, centre matrix, position and scalar factor of the state; returned lists'], TECH_NET, NOTE)

prop('C05', 'Measured values and overlaps are exact and leave the state unchanged',
     'Overlaps, local expectation values, lists of expectation values, matrix elements between two states and products of operators at several sites (with or without a '
     'parity string) equal the contraction of the represented ket, the operators at their sites and the conjugated bra, including centre matrices and scalar '
     'factors, wherever the gauge centre sits. Measuring never changes the represented state.',
     ['inputs', 'histories'], 'all gauge positions of either state, chain lengths one to three, site-dependent physical dimensions, non-hermitian complex operators, every ordering of coinciding and distinct sites (up to three operators)',
     'tests measure hermitian, site-independent operators in normalised states at few gauge positions, where index transposition, dropped phases or shifted sites are invisible',
     [MPSP, MFP], [('overlap and list measurements', MFP), ('measurement methods of the state class', MPSP)],
     ['returned values; state object after the call'], TECH_NET, NOTE)

prop('C06', 'State constructors build the requested state',
     'A freshly constructed random, constant, product or given state has the requested length, bond dimensions, local dimensions, dtype and boundary type; product states are '
     'exactly the product of the local vectors, and a state built from tensors represents those tensors up to a positive factor, and the all-zeros state is the zero vector with finite tensors. Gauge position, orthogonality and scalar factor are recorded as they are.',
     ['inputs'], 'all bond and local dimensions (site-dependent ones included), both boundary types, real and complex, chains of one to four sites',
     'tests always start from the same few random shapes, then optimise, which hides a wrong initial vector',
     [MPSP, MFP], [('class constructors', MPSP), ('tensor list initialiser', MFP)], ['constructed state object, initial tensor list'], TECH_NET, NOTE)

prop('C08', 'Copies and saved states reproduce every attribute without sharing memory',
     'Copying a state, and saving it and loading it into another object, reproduces every attribute (tensors, centre and connector matrix, gauge position, scalar factor, '
     'boundary type, dtype, cut-offs, bond limit, canonical-form lists). Copies, constructed states and read-out tensor lists share no array with their source.',
     ['inputs', 'histories'], 'all states: either boundary type with any boundary bond dimensions, any gauge position, one to three sites',
     'tests never compare all attributes, and sharing shows only when one of the two objects is changed later',
     [MPSP], [('copy', MPSP), ('save and load', MPSP), ('constructor and tolist', MPSP)], ['attributes of the copy / loaded object'],
     'abstract interpretation: structural comparison of every attribute and may-alias analysis of array origins; files modelled as path-to-value map', NOTE)

prop('C09', 'State arithmetic acts on the represented vectors',
     'Adding, subtracting, negating, conjugating, and multiplying or dividing a state by a number (including the in-place forms) gives an object that represents exactly the '
     'corresponding combination of the operand vectors, whatever their gauge positions, bond dimensions and scalar factors. Operands keep their vector and share no array with the result.',
     ['inputs'], 'open chains of two to four sites (one to three for scalar operations), periodic chains of one to three sites, all gauge positions, unequal bond dimensions, complex entries and factors',
     'tests use norms or overlaps of one or two random states; lost centre matrices, wrong blocks or aliasing do not show there',
     [MPSP, MFP], [('operators of the state class', MPSP), ('direct sum of tensor lists', MFP)], ['represented vector of result and operands'], TECH_NET, NOTE)

prop('C10', 'Applying gates and operators acts on the state as the operator',
     'Applying a one-site gate, a two-site gate or a matrix-product operator to an open chain gives the operator applied to the represented vector with the gate\'s input legs joined to the state, '
     'for every gauge position the state was in before; a two-site gate gives it up to a positive factor and the discarded singular vectors. After a gate (unless position keeping is switched off) the tensors around it are isometric towards '
     'the centre, the centre matrix has norm one and sits at the recorded bond; the returned bond dimension is the actual one and obeys the limit.',
     ['inputs'], 'open chains of one to four sites, every gauge position and gate site, complex non-hermitian gates, with and without bond limit and threshold',
     'tests apply hermitian or symmetric gates at one position and look at energies; a transposed gate or a stale centre matrix survives that',
     [MPSP], [('one-site and two-site gate application', MPSP), ('operator application', MPSP)], ['represented vector, recorded gauge and returned bond dimension'], TECH_NET, NOTE)

prop('C07', 'Bond limits are never exceeded and only the smallest values are dropped',
     'Whenever a bond limit is passed to the truncating factorisation of a site tensor, to moving the gauge centre, to truncating a state or to truncating a list of tensors, every bond the operation passes ends with at most '
     'that dimension, whatever limit the state remembers from earlier. The values kept are the leading ones, as many as limit and threshold admit, and the truncated state is the original one up to a positive factor and the discarded singular vectors.',
     ['inputs'], 'all tensor shapes, all limits >= 1, both directions, every gauge position, open chains of one to four sites, fallback solver included',
     'tests truncate one or two random states with limits larger than needed; an off-by-one or an ignored limit needs a particular history of the state to show',
     [MFP, MPSP], [('truncating factorisation', MFP), ('gauge motion with limit, truncate', MPSP)], ['bond dimensions and represented vector after truncation'], TECH_NET, NOTE)

prop('C12', 'TEBD applies exactly the second-order splitting of the requested time',
     'A TEBD run of any number of steps applies, up to commuting gates on disjoint bonds and merging gates on the same bond, exactly even bonds dt/2, then alternating odd bonds dt and even bonds dt, ending with odd bonds dt and even bonds dt/2; no bond is left out. '
     'The accumulated time is that of the requested steps and the truncated weight the sum over all gates, independent of the checkpoint interval and of verbosity. '
     'Every state saved on the way has completed the whole number of steps its recorded time says.',
     ['inputs', 'histories'], 'open chains of two to six sites, zero to five steps, every checkpoint interval, verbose or silent, one run or two runs in sequence',
     'the tests compare one observable with loose tolerance: a missing half step at a checkpoint, or a wrong first layer, is within the error of the method',
     [ENGP], [('TEBD time evolution loop', ENGP)], ['sequence of gates applied, recorded time and truncated weight, saved states'], TECH_NET, NOTE)

prop('C13', 'A TDVP step integrates every site forward and every bond backward',
     'In one TDVP step the local integrations are site k forward by dt/2 and the bond to its right backward by dt/2 going right, the last site forward by dt, and the mirror image going left, for every local integrator offered. '
     'At every integration the environment blocks are the contraction of the currently stored tensors, and the integrated tensor takes its place in the state. The recorded time grows by the step length per step, also in states written to file, verbose or not.',
     ['inputs', 'histories'], 'chains of two to four sites, open and with boundary blocks, zero to three steps, repeated runs, checkpoints, all integrators, real and imaginary time (ODE integrators: real time)',
     'tests run one solver in imaginary time, where a sign or a stale block only slows convergence',
     [ENGP, MFP], [('TDVP sweep', ENGP), ('local integrators', MFP)], ['arguments of every local integration, state and time after the step'], TECH_NET, NOTE)

prop('C14', 'Sweep optimisers never use stale environment blocks',
     'In every DMRG sweep and single-site or two-site step, at each local eigenproblem the left and right blocks are the contraction of the currently stored tensors with the boundary blocks, the operator is that of the optimised site or sites, and the start tensor describes the current state; '
     'the state held afterwards is the one with the returned solution in place. After moving the centre all blocks up to it are current and the state is unchanged; two-site updates obey the bond limit of the state.',
     ['inputs', 'histories'], 'chains of two to four sites, both boundary types, every start position of the centre, one- and two-site updates, all local solvers, several sweeps',
     'tests check the converged energy, which a stale block or a lost update only reaches more slowly',
     [ENGP], [('DMRG and single-site engines: sweep, position, block updates', ENGP)], ['arguments of every local eigenproblem, stored blocks and state afterwards'], TECH_NET, NOTE)

TECH_EFF = 'abstract interpretation with trace partitioning and alias/effect analysis of every array and list'
TECH_DT = 'abstract interpretation with an element-type lattice (real/complex provenance of every array)'
UTILP = 'lib/utils/utilities.py'

prop('C11', 'Arrays and lists the caller holds are never overwritten in place',
     'No operation of the library changes the entries of an array that the caller could reach before the call: tensors, environment blocks, density matrices, vectors, operators and the site tensors of states and operators keep their values, whatever shapes and arguments are used. '
     'A list passed as an argument keeps its members, except in the functions documented to work in place.',
     ['inputs'], 'every evaluation of the other checks (all listed entry points, argument kinds, shapes and partitions) and the infinite-system routines',
     'a test reads its inputs once; an in-place update of a shared array only shows in a second use of it',
     [MFP, MPSP, ENGP], [('infinite-state gauging and eigenvector routines', MFP), ('state class', MPSP), ('engines', ENGP)],
     ['arrays and lists passed to, or held before, each call'], TECH_EFF,
     'An in-place write anywhere below an entry point is attributed to the array it reaches through views and aliases. A state may overwrite its own centre matrix, connector and scalar factor.')

prop('C21', 'Local eigenvector and time-step solvers get the right operator and start vector',
     'Every local eigenvector search and every local time-step integration passes to the chosen library solver exactly the effective Hamiltonian of the given blocks and operators, the start tensor and the requested options, '
     'for each supported method. It returns the lowest of the values found with the vector(s) belonging to it, in the shape of the site tensor(s), whatever order the solver reports.',
     ['inputs'], 'all tensor shapes, all methods (dense, Krylov, sparse and preconditioned solvers; exponential and Runge-Kutta integrators), one or several vectors, real and complex entries',
     'tests run two of the methods on symmetric chains, where a transposed operator or a badly picked vector still converges',
     [MFP], [('local eigensolvers (bond, one-site, two-site)', MFP), ('local time-step integrators', MFP)],
     ['linear map, start vector and options handed to the solver; returned value and tensor'], TECH_NET,
     'The iterative solvers themselves are modelled by what they document (values ascending for the hermitian solvers); their convergence is out of scope.')

prop('C22', 'Every operation can be carried out: names, attributes and calls resolve',
     'In every function of the library all names, imported names and module attributes that are used exist, no local name is used where no assignment to it can have been executed, every attribute read from a library object is set somewhere for that kind of object, and every call of a library function or method matches its signature. '
     'No documented use of an operation ends in an unresolved name or attribute.',
     ['inputs'], 'all functions of all modules, all branches; the evaluated entry points on every partition',
     'rarely used branches (fallbacks, options, other boundary conditions) are never executed by the tests',
     [MFP, MPSP, ENGP, HAMP, UTILP], [('all library modules', 'lib/')], ['NameError, UnboundLocalError, AttributeError or signature TypeError at run time'],
     'custom static name, attribute and signature resolution (scopes, imports, class hierarchy, reaching definitions), plus exceptions found by abstract interpretation',
     'Attributes of objects whose class the resolution cannot determine are only checked for private names. A use of a name that is assigned on some paths only is reported when an evaluated partition reaches it.')

prop('C23', 'No value loses its imaginary part by being stored as real',
     'Whenever a value is stored into an array, converted, or accumulated in place, the element type of the destination can hold it, for every combination of real and complex states, operators, scalars and time steps; imaginary parts are only dropped where the exact result is real. '
     'The element type a state reports covers its tensors, centre matrix and scalar factor.',
     ['inputs'], 'every evaluation of the other checks with every symbolic array independently real or complex',
     'a discarded imaginary part is a warning at most, and the tests mix real and complex data in few places',
     [MFP, MPSP, ENGP], [('array allocation and assignment in all numerical routines', MFP), ('state class', MPSP), ('engines', ENGP)],
     ['element type of every array written'], TECH_DT,
     'Every symbolic input array carries its own unknown element type; a destination type is accepted when it joins the types of everything stored in it.')

prop('C25', 'Infinite-system eigenvector and linear-equation routines pose the exact problem',
     'The dominant left and right eigenvectors of a transfer operator of one or two infinite states are computed from the exact transfer operator in the requested direction, and the returned value and vector are those of the dominant eigenvalue whatever order the solver reports. '
     'The linear equations for the environment blocks of infinite states have exactly the map one minus phase times transfer operator (plus projector), the stated right-hand side with its energy part removed, and the solution is returned in the stated legs together with the exact energy of the cell.',
     ['inputs'], 'unit cells of one to three sites, all bond and physical dimensions, complex entries, both directions, zero and nonzero momentum',
     'the tests only look at converged energies of real translation-invariant states, in which left and right density matrices can be exchanged unnoticed',
     [MFP], [('transfer-operator eigenvectors', MFP), ('momentum and projector linear equations', MFP), ('steady-state Hamiltonian of a unit cell', MFP)],
     ['linear map and right-hand side given to the solver; returned arrays'], TECH_NET,
     'ARPACK and GMRES are modelled by their documented contract; convergence is out of scope.')

prop('C17', 'Predefined Hamiltonians are the operators their names and parameters state',
     'Every predefined spin and fermion chain, open or periodic, multiplies out to the sum of its one-site and nearest-neighbour terms with the parameters of exactly that site or bond, the fermionic terms with the right signs. '
     'Every predefined lattice field-theory operator is hermitian for real parameters, and its open version carries the same terms as its periodic one.',
     ['inputs'], 'all real parameter values (symbolic), different on every site and bond; chains of 2 to 4 sites, cells of 1 to 3 sites repeated, boson cutoffs 2 and 3',
     'tests use one set of mostly uniform couplings, which hides an operator that uses the coupling of a neighbouring bond or that is wrong only at an edge or in the periodic version',
     [HAMP], [('spin and fermion Hamiltonians', HAMP), ('lattice field theories', HAMP)],
     ['entries of the operator tensors'], TECH_NET,
     'Longer chains repeat the bulk tensor of the sizes analysed; the physics of the field theories (which coefficients approximate which continuum theory) is not judged.')

prop('C18', 'Gates generated from a chain Hamiltonian exponentiate exactly its terms',
     'The two-site gates generated from a nearest-neighbour operator for all bonds of an open chain are exponentials of local generators that add up to the requested time times the whole operator: every bond term once, every on-site term once in total, also at the two ends. '
     'Each gate acts on the two sites in the order of the state and does not depend on which site is named first.',
     ['inputs'], 'chains of two to five sites (every combination of first, inner and last bond), equal and different local dimensions, zero to two bond terms, arbitrary complex time',
     'tests evolve one uniform model where on-site terms shared wrongly between bonds change the result only slightly',
     [HAMP], [('two-site gates of an operator', HAMP)], ['exponentiated matrix and returned gate'], TECH_NET,
     'Operators in the triangular form of the predefined Hamiltonians (nearest-neighbour terms); the matrix exponential itself is taken from scipy.')

prop('C16', 'Checkpointing never loses the last complete checkpoint or a foreign file',
     'From its first checkpoint on, a checkpointed run has a complete and recent checkpoint on disk at every point between two file operations, so that a crash at any moment loses no more than the work since then. '
     'A run removes or replaces only files it has written itself; asked to keep only the last checkpoint it leaves exactly the last one behind, asked to keep all it leaves all under different names.',
     ['crash points', 'histories'], 'one to six steps with every checkpoint interval, both retention modes, TEBD, TDVP and DMRG; any set of files already present',
     'no test interrupts a run or looks at the files that remain',
     [ENGP, MPSP], [('time-evolution checkpoints', ENGP), ('DMRG checkpoints', ENGP), ('saving', MPSP)],
     ['sequence of file operations'], TECH_EFF,
     'A file counts as complete once the object has been dumped to it; the durability of the operating system cache is not modelled.')

LANP, EXPP = 'lib/Lanczos/LanczosEngine.py', 'lib/mpslib/sexpmv.py'
prop('C20', 'Krylov routines solve the projected problem of the given map and vector',
     'The iterative eigensolver and the Krylov time steppers diagonalise or exponentiate exactly the projection of the given linear map on the Krylov space of the given start vector, for every complex map. '
     'The eigensolver returns the lowest values of that projection in ascending order, value k together with its normalised vector k; a time step returns the exponential of the map over the requested time applied to the start vector with its length and imaginary part, using all Krylov vectors. '
     'When the Krylov space is invariant the time stepper covers the whole remaining time in one exact step.',
     ['inputs'], 'all maps and start vectors up to a unitary change of basis (symbolic entries), real and complex in every combination, up to four Krylov vectors, early termination at every step, every diagonalisation interval',
     'tests feed normalised vectors of symmetric problems, for which a lost length, a transposed projection or a dropped Krylov vector is invisible or tiny',
     [LANP, EXPP], [('Lanczos eigensolver and time step', LANP), ('Arnoldi exponential time step', EXPP)],
     ['matrix given to the dense eigensolver or exponential; returned values and vectors'], TECH_NET,
     'Lanczos theorem: in the Krylov basis (with arbitrary phases) every hermitian map is tridiagonal and every map upper Hessenberg with the first basis vector as start; the routines see the map only through products, inner products and combinations. Step-size control and error estimates are out of scope.')

NCONP = 'lib/ncon/ncon.py'
prop('C19', 'Network contraction is exact and independent of the contraction order',
     'Contracting a network given by label lists sums over every label that occurs twice, keeps every free leg once and returns the free legs in the requested order, for every order of contraction, for traces, repeated bonds, scalars and disconnected parts. '
     'Label lists that do not describe a network of the given tensors (wrong count, a label once or three times, legs of different size) are refused. '
     'The tensors, label lists and order of the caller are left as they were.',
     ['inputs'], 'all tensor entries and dimensions; 24 network shapes of one to four tensors (traces, multiple bonds, rings, stars, disconnected parts) with every contraction order and free-leg order, arbitrary label values, with and without index checking',
     'everything else is written with this routine, but only for a few connected networks in default order',
     [NCONP], [('network contraction', NCONP)], ['returned array; caller lists; exceptions'], TECH_NET, NOTE)

prop('C24', 'Infinite-system growth steps insert exactly the two halves',
     'A growth step of the infinite-system optimiser adds the left half of the unit cell to the left block and the right half to the right block and exchanges the halves: the new cell is the right half, centre, connector, centre, left half, with the inverse of the old middle centre as its new connector and the operators re-ordered alike. '
     'Afterwards every stored block is the contraction of the tensors, operators and boundary blocks now stored, with or without regauging, and the sweeps between growth steps use the options of the caller. '
     'The initial boundary blocks are available for every gauge position of an infinite state and belong to tensors isometric towards them.',
     ['inputs', 'histories'], 'all tensors, unequal bond and physical dimensions, unit cells of one to five sites (odd ones included), every gauge position at the start, one- and two-site loops of up to five steps with and without regauging',
     'there is no test of the infinite-system optimiser at all; the examples use two-site cells of uniform dimension',
     [ENGP, MFP], [('infinite-system growth and outer loop', ENGP), ('boundary blocks of infinite states', MFP)],
     ['state, connector, operators, boundary and environment blocks after the step; arguments of the sweeps'], TECH_NET,
     'Gauge motion is modelled by its contract (decided by C03/C04); dominant eigenvectors and block equations are decided by C25.')

TECH_DIFF = 'differential abstract interpretation (two evaluations compared path by path), output-effect tracking, symbolic tensors'
prop('C15', 'Verbosity and checkpoints never change a calculation, and 0 is silent',
     'Every ground-state, time-evolution, infinite-system and Krylov routine returns the same values, leaves the same state, writes the same files and raises the same exceptions for every setting of its verbosity or trace option. '
     'Ground-state and state-evolving (TDVP) runs have the same outcome whether or not checkpoints are written. With verbosity 0 no progress is reported, however many steps are taken.',
     ['inputs', 'schedules'], 'verbosity 0, 1 and 2, checkpoint intervals 1 and 2, all local solvers, several steps, every branch on computed values (convergence reached or not)',
     'tests run one verbosity each; a report that changes a state, a missing format argument, or an update placed inside a reporting branch only shows when two settings are compared',
     [ENGP, EXPP, LANP], [('DMRG, IDMRG, TEBD and TDVP engines', ENGP), ('Krylov exponential and Lanczos', EXPP)], ['results, engine and state attributes, files, exceptions and output of each run'], TECH_DIFF,
     'The local solvers are functions of everything they are given (value numbering), so any change of an argument, an option or the order of operations becomes a difference of the outcome. TEBD checkpoints are the subject of the splitting property.')

prop('C26', 'Regauging keeps the state and yields orthonormal and Schmidt form',
     'Bringing an infinite unit cell into left, right or symmetric gauge leaves the represented infinite state unchanged up to a positive factor and makes every tensor of the cell orthonormal in the requested direction, also if it arrives with a centre matrix inside the cell. '
     'In the symmetric gauge the returned centre matrix is diagonal, non-negative, of norm one, and its square is the other fixed point of the cell; the Gamma-Lambda form built from it represents the same state, is left-orthonormal as Lambda Gamma and right-orthonormal as Gamma Lambda. '
     'After truncation no bond exceeds the requested dimension; the Schmidt values reported for a bond are the singular values of the centre matrix placed there.',
     ['inputs'], 'all unit cells of one to three sites with full-rank fixed points, unequal bond and physical dimensions, every gauge and every position of the centre matrix; the state is compared on periodic arrangements of one and two cells',
     'tests regauge random states of one length and compare energies, which a wrong rotation at the cell boundary does not change',
     [MFP, MPSP], [('regauging and canonical form of infinite states', MFP), ('state objects', MPSP)],
     ['returned and stored tensors, centre matrix, connector, Gamma and Lambda lists'], TECH_NET,
     'Dominant eigenvectors are modelled by the fixed-point equation with arbitrary phase and normalisation (decided by C25); no eigenvalue of a fixed point lies below the pseudo-inverse cut-off.')

na('C90', 'Ground-state searches converge to the lowest state',
   'For every hermitian chain operator a ground-state search run to convergence ends, within the bond limit, at the lowest energy, and the energy never rises from one local optimisation to the next.',
   ['inputs', 'schedules'], 'all hermitian operators, start states, sweep numbers and local solver tolerances',
   'tests compare two models at one size with an exact energy',
   [ENGP], [('single-site and two-site ground-state search', ENGP)], ['energy after each local step'],
   'Convergence of an alternating minimisation depends on spectra and on floating-point solver tolerances; no static argument bounds them (and global convergence is false in general). The structural part (exact local problem, current blocks, lowest returned vector) is decided by C14, C21 and C01.')

na('C91', 'The accumulated discarded weight bounds the truncation error',
   'The distance between a state before and after truncation or truncated time evolution is bounded by the discarded weight that is reported.',
   ['inputs', 'histories'], 'all states, limits and thresholds',
   'tests use states that are not truncated, or compare observables at a few times',
   [MPSP, ENGP, MFP], [('truncating factorisation and two-site gates', MFP)], ['discarded weight and state'],
   'A numerical inequality over singular values; the analysis has equalities between networks, not norms of their differences. What it can decide (which values are kept, that the returned weight is that of the dropped ones, that the rest is exact) is in C03, C07, C10 and C12.')

na('C92', 'Time evolution converges with the stated order in the step size',
   'The error of an evolution over a fixed time falls with the third power (locally) of the time step, and real-time evolution keeps norm and energy up to that error.',
   ['inputs', 'schedules'], 'all operators, states, step sizes and numbers of steps',
   'tests compare with exact diagonalisation for one model and step size',
   [ENGP], [('time-evolution engines', ENGP)], ['state after a fixed time for several steps'],
   'An asymptotic statement about matrix exponentials of non-commuting operators. That the splitting, order, step lengths and signs are those of the second-order scheme is decided exactly by C12, C13 and C18, and that scheme has the order by a textbook theorem.')

na('C93', 'Iterative library solvers converge to the requested tolerance',
   'Every eigenvector search, linear solve and ODE integration handed to a library solver returns a solution within the requested tolerance, or the caller is told otherwise.',
   ['inputs'], 'all blocks, start vectors, tolerances and iteration limits',
   'tests check a few well-conditioned problems',
   [MFP, LANP], [('local solvers and infinite-environment solvers', MFP)], ['residual of the returned solution'],
   'Depends on conditioning and on the inside of compiled solver libraries, which cannot be bounded from the Python source. That the right map, start vector and options are passed and the right result is picked is decided by C20, C21 and C25.')

na('C94', 'Variational infinite-state optimisers reach a fixed point',
   'The tangent-space (VUMPS-like, gradient and excitation) optimisers for homogeneous infinite states lower the gradient norm below the requested tolerance and report the energy density of the state they return.',
   ['inputs', 'schedules'], 'all translation-invariant operators and start states',
   'there is no test of these optimisers',
   [ENGP, MFP], [('homogeneous-state engines', ENGP)], ['gradient norm, energy density'],
   'Convergence of a non-convex optimisation with adaptive steps is a run-time matter. The transfer operators, environments and gauge steps they are composed of are decided by C01, C02, C25 and C26.')

na('C95', 'Krylov step-size control meets the requested error',
   'The adaptive exponential integrator chooses sub-steps such that the accumulated error stays below the requested tolerance and finishes after a finite number of rejected steps.',
   ['inputs', 'schedules'], 'all maps, vectors, times and tolerances',
   'no test reaches a rejected step',
   [EXPP], [('adaptive Krylov exponential', EXPP)], ['sub-step lengths, returned vector'],
   'The error estimate is a heuristic on computed norms, and termination depends on their size. The exactness of a step and of the break-down case is decided by C20.')

na('C96', 'Results agree with exact arithmetic to the stated precision',
   'Rounding errors of contractions, factorisations and gauge moves stay proportional to machine precision for well-conditioned states, so that long runs do not drift away from canonical form.',
   ['inputs', 'histories'], 'all states and run lengths',
   'tests use a fixed tolerance on small random states',
   [MFP, MPSP], [('tensor kernels and gauge moves', MFP)], ['deviation from isometry and norm'],
   'The analysis treats entries as exact numbers. A floating-point error analysis of LAPACK calls with data-dependent conditioning is out of reach of a static argument on the Python source.')
