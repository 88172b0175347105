W = ('The suite runs six fixed programs through the library with one option set each and never examines the order of '
     'instances; ')
TV = ('TLA+ trace validation (TLC): TLC-generated programs are replayed into libpluto and the recorded behaviour is '
      'checked as a behaviour of the specification')
NOTE = ('Exact for every generated program and parameter vector (all statement instances and all dependent pairs are '
        'enumerated); the programs are a bounded, seeded sample of the generator specification.')
TABLE = [
 dict(id='C01', title='Every schedule returned respects every dependence',
  statement='For any set of statement domains and dependences and any supported combination of optimization options, if '
   'the library returns a schedule then, for every pair of statement instances related by a dependence, the source '
   'instance is scheduled lexicographically strictly before the target instance.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all statement domains and dependence relations (several statements, unions, parametric, non-uniform), all option '
   'combinations, all parameter values, all pairs of dependent instances',
  why=W + 'legality is a statement about every pair of dependent instances for every parameter value, program and option set.',
  files=['lib/plutolib.c', 'lib/pluto.c', 'lib/framework.cpp', 'lib/tile.c', 'lib/post_transform.c'],
  mech=[('hyperplane search under dependence-satisfaction constraints', 'lib/pluto.c: pluto_auto_transform, find_permutable_hyperplanes; lib/framework.cpp'),
        ('distribution of statements by dependence-graph cuts', 'lib/pluto.c: cut_all_sccs, cut_smart, cut_scc_dim_based'),
        ('tiling, wavefronting and intra-tile reordering', 'lib/tile.c, lib/post_transform.c')],
  observe='isl schedule returned by pluto_transform', technique=TV, note=NOTE),
 dict(id='C02', title='A schedule orders every instance exactly once and unambiguously',
  statement='A returned schedule gives every instance of every statement exactly one execution date, dates of all '
   'statements have the same length, no instance outside the statement domains is needed to define them, and two '
   'different instances of one statement never share a date.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all programs, options and parameter values; all instances of every statement',
  why=W + 'losing, duplicating or merging instances only shows on particular domain shapes, ranks and tile sizes.',
  files=['lib/plutolib.c', 'lib/program.cpp', 'lib/pluto.c', 'lib/tile.c'],
  mech=[('linear independence of the hyperplanes of a statement', 'lib/framework.cpp: get_stmt_ortho_constraints; lib/pluto.c: pluto_stmt_get_num_ind_hyps'),
        ('emission of the schedule relation', 'lib/program.cpp: pluto_stmt_get_schedule; lib/plutolib.c'),
        ('padding of statements with scalar dimensions', 'lib/pluto.c: normalize_domains, pluto_stmt_add_hyperplane')],
  observe='isl schedule returned by pluto_transform', technique=TV, note=NOTE),
 dict(id='C03', title='Tiling groups iterations into exact floor tiles of the requested sizes',
  statement='When loops are tiled, the new tile dimensions of every instance equal the integer floor of the tiled dimension '
   'divided by the tile size in force (given or default, first and second level), the dimensions tiled are left in place inside the '
   'tile, nothing else changes, and the tiled order is still legal.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all programs, bands, tile sizes, one or two levels of tiling, all instances',
  why=W + 'wrong tile boundaries only change the instance order for particular offsets, skews and sizes.',
  files=['lib/tile.c', 'lib/polyloop.c', 'lib/program.cpp'],
  mech=[('strip-mining of a band', 'lib/tile.c: pluto_tile_band, pluto_tile_scattering_dims'),
        ('tile size selection and the tile.sizes file', 'lib/tile.c: read_tile_sizes, pluto_tile')],
  observe='statement domains and transformations before and after tiling', technique=TV, note=NOTE),
 dict(id='C04', title='Loops marked parallel carry no dependence',
  statement='Every loop that the optimizer reports as parallel, alone or in a group, can have its iterations executed in any order or '
   'concurrently: two dependent instances that reach that loop together always fall in the same iteration of it.',
  over=['programs', 'schedules', 'configurations'],
  qtext='all programs, options and parameter values; all interleavings of the iterations of the loops reported parallel',
  why=W + 'a race is a property of all interleavings of all iterations and never shows in a sequential comparison.',
  files=['lib/polyloop.c', 'lib/pluto.c', 'lib/tile.c'],
  mech=[('parallel loop detection', 'lib/polyloop.c: pluto_loop_is_parallel, pluto_get_parallel_loops, pluto_get_dom_parallel_loops'),
        ('dependence satisfaction levels', 'lib/pluto.c: pluto_compute_dep_satisfaction, pluto_detect_transformation_properties')],
  observe='loops returned by the parallel-loop query on the final program', technique=TV, note=NOTE),
 dict(id='C05', title='Only fully permutable loops are grouped into a tilable band',
  statement='The loops the optimizer groups into one band for tiling are fully permutable: no dependence between two '
   'instances that reach the band together goes backwards along any loop of the band, unless a constant position inside '
   'the band has already separated the two statements.',
  over=['programs', 'configurations'],
  qtext='all programs, options and parameter values; all bands and all dependent pairs',
  why=W + 'a wrong band only matters for dependence patterns with a negative component inside it.',
  files=['lib/polyloop.c', 'lib/pluto.c'],
  mech=[('band detection', 'lib/polyloop.c: pluto_get_outermost_permutable_bands, pluto_get_innermost_permutable_bands, pluto_is_band_...')],
  observe='bands handed to the tiling stage', technique=TV, note=NOTE),
 dict(id='C06', title='Dependence directions and satisfaction levels are claimed soundly',
  statement='When the analysis says a dependence has a zero, non-negative or non-positive direction along a schedule '
   'dimension, or that it is satisfied at a dimension, or that a dimension carries none of it, then that is true of every '
   'instance pair of the dependence.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all dependences, schedule dimensions and instance pairs',
  why=W + 'an unsound direction is invisible unless a later stage relies on exactly that entry.',
  files=['lib/pluto.c', 'lib/program.cpp', 'lib/constraints.c'],
  mech=[('direction vectors', 'lib/pluto.c: get_dep_direction, pluto_compute_dep_directions'),
        ('satisfaction levels and vectors', 'lib/pluto.c: dep_satisfaction_test, pluto_compute_dep_satisfaction')],
  observe='direction and satisfaction vectors after each analysis', technique=TV, note=NOTE),
 dict(id='C07', title='The optimizer works on exactly the program it was given',
  statement='The iteration domains and the ordered instance pairs the optimizer works with are exactly those of the isl '
   'domain and dependence relations passed in: none is lost, added or attached to another statement, including unions, '
   'empty pieces, equalities and several parameters.',
  over=['inputs', 'programs'],
  qtext='all isl union sets and union maps over named statement spaces',
  why=W + 'a dropped piece of a union only makes a rare reordering illegal.',
  files=['lib/plutolib.c', 'lib/constraints_isl.c', 'lib/isl_support.c', 'lib/program.cpp'],
  mech=[('extraction of statements', 'lib/plutolib.c: extract_stmts; lib/program.cpp'),
        ('extraction of dependences', 'lib/program.cpp: extract_deps_from_isl_union_map'),
        ('conversion between isl and constraint matrices', 'lib/constraints_isl.c')],
  observe='statements and dependences at the entry of the hyperplane search', technique=TV, note=NOTE),
 dict(id='C08', title='Wavefronts and intra-tile reorderings keep the order legal',
  statement='Creating a wavefront replaces the outermost loop of a tile band by its sum with other loops of that band and '
   'changes nothing else, and leaves a loop of the band that carries no dependence; the reordering of loops inside tiles only '
   'permutes loops; neither makes a legal order illegal.',
  over=['programs', 'configurations'],
  qtext='all programs, options, bands and parameter values',
  why=W + 'these stages run last, so an illegal permutation shows only for dependences the moved loop carries.',
  files=['lib/tile.c', 'lib/post_transform.c'],
  mech=[('wavefront of tile loops', 'lib/tile.c: pluto_create_tile_schedule, pluto_create_tile_schedule_band'),
        ('locality and vectorization reordering', 'lib/post_transform.c: pluto_intra_tile_optimize, pluto_intra_tile_optimize_band, pluto_pre_vectorize_band')],
  observe='transformations before and after the stage', technique=TV, note=NOTE),
 dict(id='C09', title='Scheduling from accesses preserves every value-carrying order of the program',
  statement='Given domains, an original schedule and read/write access relations, the library derives an order requirement '
   'for every two conflicting accesses of the same memory cell (at least one a write) that follows from the ones it uses, '
   'never one against the original order or without a conflict, and returns a schedule that runs the earlier access first.',
  over=['programs', 'inputs', 'configurations'],
  qtext='all access relations, domains, original schedules, dependence analysis options and parameter values; all pairs of conflicting accesses',
  why=W + 'a lost conflict between two accesses only shows when the optimizer happens to reorder exactly those two instances.',
  files=['lib/plutolib.c', 'lib/pluto.h', 'lib/program.cpp', 'lib/isl_support.c'],
  mech=[('dependence analysis on accesses', 'lib/program.cpp: compute_deps_isl, compute_deps_pet-like helpers; lib/plutolib.c: pluto_schedule'),
        ('last-writer and coalescing options', 'lib/program.cpp: compute_deps_isl')],
  observe='dependences at the entry of the hyperplane search and the schedule returned by pluto_schedule', technique=TV, note=NOTE),
 dict(id='C10', title='Remapping matrices invert the schedule',
  statement='The remapping of a statement returned by the library sends the execution date of each of its instances back to that very '
   'instance, using the divisors returned for it.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all programs, options, statements and instances (including tiled schedules)',
  why=W + 'the matrices are never applied to an instance by any test.',
  files=['lib/program.cpp', 'lib/math_support.c', 'lib/plutolib.c'],
  mech=[('inverse transformation of a statement', 'lib/program.cpp: pluto_stmt_get_remapping; lib/math_support.c'),
        ('export of remappings', 'lib/plutolib.c: pluto_get_remapping, pluto_get_remapping_str')],
  observe='remapping returned by pluto_get_remapping_str', technique=TV, note=NOTE),
 dict(id='C11', title='The string interface agrees with the isl interface',
  statement='The string interface returns the same schedule as the isl interface for the same program and options, and the '
   'parallel loops it returns are exactly the parallel loops of that schedule, in number and position.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all programs and option settings that can be passed as strings',
  why=W + 'the two interfaces are separate code paths and their results are never compared.',
  files=['lib/plutolib.c'],
  mech=[('string front end', 'lib/plutolib.c: pluto_schedule_str'), ('export of parallel loops', 'lib/plutolib.c: pluto_schedule_str')],
  observe='strings and parallel loop list returned by pluto_schedule_str', technique=TV, note=NOTE),
 dict(id='C12', title='Calls do not influence each other',
  statement='The result of a call depends only on its own program and options: calls made before it, on the same or another '
   'library context, with other options or programs, or in other threads with contexts of their own, do not change it.',
  over=['histories', 'schedules', 'programs'],
  qtext='all sequences and concurrent pairs of library calls with any programs and options',
  why=W + 'interference needs a particular earlier or concurrent call with other options.',
  files=['lib/plutolib.c', 'lib/pluto.c', 'lib/framework.cpp', 'lib/tile.c', 'lib/program.cpp'],
  mech=[('per-call context and options', 'lib/plutolib.c: pluto_context_alloc, pluto_transform, pluto_schedule'),
        ('state kept inside the framework between calls', 'lib/framework.cpp, lib/tile.c, lib/ddg.c')],
  observe='results of library calls after histories and in threads, compared with a fresh process', technique=TV, note=NOTE),

 dict(id='C13', title='A schedule is found whenever there is an obvious one',
  statement='If no statements of a program depend on each other in a circle and no lower bound of a loop grows with a parameter, the '
   'library always returns a schedule, whatever the options; it never gives up on such a program, aborts or fails an internal assertion.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all programs whose dependence graph between different statements is acyclic, all options',
  why=W + 'giving up depends on the interplay of cuts, linear independence and the order in which loops are found.',
  files=['lib/pluto.c', 'lib/framework.cpp', 'lib/plutolib.c'],
  mech=[('alternation of hyperplane search and dependence-graph cuts', 'lib/pluto.c: pluto_auto_transform, cut_between_sccs, cut_all_sccs'),
        ('linear independence constraints', 'lib/framework.cpp: get_stmt_ortho_constraints')],
  observe='return value of pluto_transform, pluto_schedule_str and the remapping interface', technique=TV, note=NOTE),
 dict(id='C14', title='The library touches only its own memory and stays within integer range',
  statement='Whatever program, options, user files and history of earlier calls it is given, the library never reads or writes outside '
   'a live object, never uses freed memory, and performs no undefined arithmetic, and neither do its constraint, matrix and graph operations.',
  over=['programs', 'configurations', 'histories'],
  qtext='all programs, options, structure files and call histories; all histories of component operations',
  why='An out-of-bounds access usually goes unnoticed and only changes a result for a particular heap layout.',
  files=['lib/pluto.c', 'lib/framework.cpp', 'lib/tile.c', 'lib/polyloop.c', 'lib/program.cpp', 'lib/constraints.c', 'lib/math_support.c', 'lib/plutolib.c'],
  mech=[('growth of constraint systems and matrices', 'lib/constraints.c, lib/math_support.c'),
        ('ownership of statements, dependences, bands and loops', 'lib/program.cpp, lib/polyloop.c, lib/pluto.c')],
  observe='end of every replayed call or operation in an instrumented build',
  technique='TLC-generated behaviours of the program, option, history and operation specifications are replayed into an instrumented '
   '(address and undefined-behaviour checked) build of the library; the specification allows only the normal end of a step',
  note='Seeded sample of behaviours; memory errors inside isl are seen only where they are reported by the allocator.'),
 dict(id='C15', title='The outermost loops minimize dependence distance among all legal choices',
  statement='The space of loop transformations searched contains exactly the legal ones (every dependence non-negative and within the '
   'distance bound), and the outermost loop chosen has the smallest distance bound any legal choice with non-negative coefficients has; '
   'in particular a loop without any dependence is found if there is one.',
  over=['programs', 'configurations'],
  qtext='all programs without diamond tiling; all legal hyperplanes with small coefficients as competitors',
  why=W + 'a suboptimal but legal choice is invisible to any correctness test.',
  files=['lib/framework.cpp', 'lib/pluto.c', 'lib/constraints.c'],
  mech=[('legality and bounding constraints by the Farkas lemma', 'lib/framework.cpp: compute_permutability_constraints_dep, get_permutability_constraints'),
        ('lexicographic minimum with the bound in front', 'lib/pluto.c: find_permutable_hyperplanes; lib/framework.cpp')],
  observe='constraint system of each search and the transformation it leads to', technique=TV,
  note='Competing hyperplanes with coefficients 0..2 (all of them) for the optimum, sparse vectors with coefficients -1..2 for the '
   'space; programs are a seeded sample. Completeness is decided where the domains are integral (difference constraints).'),
 dict(id='C21', title='Fusion is done as asked for',
  statement='Without fusion, statements that do not depend on each other in a circle never share a loop; with maximal fusion, loops are separated '
   'at the outermost level only if no legal common outermost loop exists; a fusion structure or a partial transformation supplied in a file is kept in '
   'the result, which remains a legal, complete and unambiguous schedule.',
  over=['programs', 'configurations', 'inputs'],
  qtext='all programs, structure files consistent with the dependences, and fusion options',
  why='No test supplies a structure file or looks at which statements share a loop.',
  files=['lib/pluto.c', 'lib/framework.cpp', 'lib/plutolib.c'],
  mech=[('reading of .fst and .precut', 'lib/pluto.c: precut'), ('cuts by fusion policy', 'lib/pluto.c: cut_all_sccs, cut_scc_dim_based, cut_smart, cut_conservative')],
  observe='transformations found by the search', technique=TV, note=NOTE),
 dict(id='C22', title='The loops of the transformed program are reported completely',
  statement='The loops the library reports for a transformed program are exactly the loops the schedule implies, each with exactly the '
   'statements it surrounds; every loop along which no dependence moves is reported parallel; the outermost parallel, outermost and innermost loops are exactly those.',
  over=['programs', 'configurations'],
  qtext='all programs, options and schedules; all loops of the resulting nest',
  why=W + 'a missed loop only costs parallelism or vectorization and breaks no output comparison.',
  files=['lib/polyloop.c', 'lib/pluto.c'],
  mech=[('loop enumeration', 'lib/polyloop.c: pluto_get_loops_under, pluto_get_all_loops'),
        ('dominated and innermost loops', 'lib/polyloop.c: pluto_get_dom_parallel_loops, pluto_get_innermost_loops')],
  observe='loop queries on the final program', technique=TV, note=NOTE),

 dict(id='C23', title='All loops that can be tiled together are tiled together',
  statement='The sets of loops found to be tilable leave out no loop nest of two or more mutually permutable loops and stop only at a loop that '
   'a dependence among their statements, not satisfied before, crosses backwards. When tiling is requested each of these sets is tiled exactly once, '
   'or exactly twice when a second level is requested, and nothing is tiled otherwise.',
  over=['programs', 'configurations'],
  qtext='all programs, options and schedules; all loops of the nest and all dependences',
  why=W + 'a nest that stays untiled or is tiled in fewer dimensions than possible still computes the right values.',
  files=['lib/polyloop.c', 'lib/tile.c', 'lib/plutolib.c'],
  mech=[('band detection', 'lib/polyloop.c: pluto_get_permutable_band, pluto_get_dominator_bands'),
        ('tiling of the bands', 'lib/tile.c: pluto_tile, pluto_tile_scattering_dims')],
  observe='bands found and bands tiled', technique=TV, note=NOTE + ' Maximality of bands is decided for programs without parameters.'),

 dict(id='C24', title='Splitting index sets keeps the program',
  statement='Index set splitting replaces statements by pieces such that every instance of a statement belongs to exactly one of its pieces '
   'and no other instance does, and the dependences between pieces relate exactly the instances the original dependences related. '
   'The transformation then found for the pieces executes every instance after those it depends on, and loops reported parallel for it carry no dependence.',
  over=['programs', 'configurations'],
  qtext='all programs (in particular with dependences on mirrored or far away instances), options and parameter values; all instances and dependent pairs',
  why=W + 'an instance lost or repeated at the cut, or a dependence dropped between two pieces, needs instances on both sides of the cut to show; no test splits index sets.',
  files=['lib/iss.c', 'lib/program.cpp', 'lib/constraints.c'],
  mech=[('choice of cuts, splitting of statements and dependences', 'lib/iss.c: pluto_iss_dep, pluto_find_iss, pluto_iss, pluto_update_deps_after_iss'),
        ('copies of statements and dependences', 'lib/program.cpp: pluto_stmt_dup, pluto_dep_dup, pluto_add_given_stmt, pluto_remove_stmt')],
  observe='statements, domains and dependences after the split; transformation, tiles and parallel loops of the split program', technique=TV,
  note=NOTE + ' The split is requested right before the transformation is searched, as the source-to-source driver does; the PolyLib projection the driver links is replaced by isl.'),

 dict(id='C25', title='Loops chosen for unroll-and-jam can be jammed',
  statement='Every loop selected for unroll-and-jam on the final program belongs to a loop of that program, has a loop inside it and runs over points, not tiles. '
   'No dependence between instances that reach that loop together goes backwards along it or along any loop inside it shared by the two statements.',
  over=['programs', 'configurations'],
  qtext='all programs with their accesses, options and parameter values; all selected loops and all dependent pairs',
  why=W + 'jamming is wrong only for dependences that run backwards along an inner loop, and only in the unrolled part.',
  files=['lib/polyloop.c', 'lib/program.cpp'],
  mech=[('selection', 'lib/polyloop.c: pluto_get_unroll_jam_loops, is_unroll_jam_profitable, pluto_is_band_innermost'),
        ('tile space loops', 'lib/program.cpp: is_tile_space_loop')],
  observe='loops returned by the unroll-and-jam query on the final program', technique=TV, note=NOTE),

 dict(id='C16', title='Operations on constraint systems compute exactly the set they stand for',
  statement='Every operation on a union of integer constraint systems - building, adding, intersecting, uniting, copying, '
   'bounding, inserting, removing and swapping dimensions, eliminating variables, simplifying, negating, converting, writing and '
   'reading back, testing for emptiness, finding the lexicographic minimum and constant bounds of a variable, deriving the affine functions that are non-negative on it '
   '- yields exactly the points its meaning prescribes, whatever operations came before, and leaves its other arguments unchanged.',
  over=['inputs', 'histories'],
  qtext='all constraint systems and all sequences of operations on them',
  why='The unit test compares one printed system; a wrong row only matters for systems where that row is not implied by the others.',
  files=['lib/constraints.c', 'lib/constraints_isl.c', 'include/pluto/internal/constraints.h'],
  mech=[('constraint algebra', 'lib/constraints.c'), ('conversion to and from isl, emptiness, lexmin', 'lib/constraints_isl.c'),
        ('Farkas multipliers', 'lib/constraints.c: farkas_lemma, farkas_lemma_affine')],
  observe='constraint systems after each operation', technique='TLA+ trace validation (TLC): TLC-generated operation histories on a '
   'register machine of constraint systems, replayed into the library; after each operation the points of every register are compared '
   'with the specification', note='Exact on a box of integer points for every step of every history; elimination is checked as the '
   'rational shadow where that is its meaning. Histories are a seeded sample.'),
 dict(id='C17', title='The driver never loses or alters the source file it was given',
  statement='Whatever the number of marked regions, whenever the optimizer fails, and at whatever point the driver is interrupted or '
   'terminated, the source file is afterwards exactly what it was before; when the driver succeeds, every region of the '
   'output has been transformed, and when the optimizer failed the driver reports failure.',
  over=['crash_points', 'fault_sequences', 'programs'],
  qtext='all numbers of regions, all rounds in which the optimizer fails, all points at which a signal arrives',
  why='The tests never run the driver script, let alone stop it half-way.',
  files=['polycc.sh.in', 'inscop'],
  mech=[('one round per region on the same file name, with the original moved aside', 'polycc.sh.in: run and the loop after it'),
        ('restoring the original', 'polycc.sh.in: cleanup')],
  observe='source and output file after the driver has ended', technique='TLA+ model of the driver with faults (TLC, invariants and '
   'termination), and every such history replayed into the real script with a stand-in optimizer', note='Exhaustive over regions '
   '<= 3 (5), failing rounds and signals before and after each external command of the driver.'),
 dict(id='C18', title='Inserting a transformed kernel leaves the rest of the program as it was',
  statement='The result of inserting a kernel consists of the program text before the first marked region, the kernel, and '
   'the text after that region, in this order and unchanged; no header the program or the kernel includes is lost, and the helper '
   'macros for rounded division, minimum and maximum are defined once, before the kernel, and compute these functions for all arguments.',
  over=['inputs', 'histories'],
  qtext='all programs, spellings of the markers, kernels and repeated insertions',
  why='The tests never run the script; losing text depends on the spelling of markers and includes.',
  files=['inscop'],
  mech=[('cutting the program at the markers', 'inscop'), ('headers and helper macros', 'inscop')],
  observe='file written by the script', technique='TLA+ specification of the result; TLC-generated programs and kernels are replayed into '
   'the real script and its output is validated by TLC', note='Seeded sample of line sequences; macro values checked on a grid.'),
 dict(id='C19', title='The dependence graph is partitioned into its true components',
  statement='The statements of a program are grouped into exactly the strongly connected components of its dependence graph, '
   'numbered so that dependences never lead from a later to an earlier component; connected components, reachability and the '
   'bookkeeping per component are those of the graph, also after dependences have been satisfied or edges changed.',
  over=['programs', 'histories'],
  qtext='all dependence graphs and sequences of updates',
  why='The tests have graphs with at most two components.',
  files=['lib/ddg.c', 'include/pluto/internal/ddg.h'],
  mech=[('strongly connected components', 'lib/ddg.c: ddg_compute_scc, dfs'), ('connected components', 'lib/ddg.c: ddg_compute_cc'),
        ('transitive closure and updates', 'lib/ddg.c: compute_transitive_closure, ddg_update')],
  observe='component numbers and component tables', technique='TLA+ trace validation (TLC): TLC-generated graphs replayed into the '
   'library, the resulting partition compared with the graph-theoretic definition', note='Graphs with up to 7 statements, seeded sample.'),
 dict(id='C20', title='Integer matrix operations are exact',
  statement='Every operation on integer matrices - copying, products, inserting, removing, moving and negating rows and columns, '
   'normalizing, elimination, rank, row echelon form, comparing - yields the mathematically exact result, whatever operations came '
   'before, and the rank-based test of linear independence of schedule rows agrees with the rational rank.',
  over=['inputs', 'histories'],
  qtext='all matrices and sequences of operations on them',
  why='Ranks and echelon forms are only exercised on the square, well-conditioned matrices of six programs.',
  files=['lib/math_support.c', 'include/pluto/internal/math_support.h'],
  mech=[('elimination, rank, echelon form', 'lib/math_support.c'), ('row and column editing', 'lib/math_support.c')],
  observe='matrix after each operation', technique='TLA+ trace validation (TLC): TLC-generated operation histories replayed into the '
   'library and compared with exact integer arithmetic in the specification', note='Matrices up to 4 by 5 with small entries, seeded sample.'),
]
NOT_APPLICABLE = []
