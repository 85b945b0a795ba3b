# The properties, their anchors, and the bounds of the checks. tools/gen.py writes
# properties.jsonl, MANIFEST.json and the bounds in harness/index.json from this.
P = []
def prop(id, title, statement, over, text, why, files, mech, quick, thorough, outside, harness, claim=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  quick=quick, thorough=thorough, outside=outside, harness=harness, claim=claim))

prop('C01', 'Index ranges obey box algebra',
 'A range is a half-open box: for every lower and upper bound its lengths, volume and bounds are the ones it was given, and construction, copying, assignment, resizing, extrusion, shifting and per-dimension changes produce exactly the box they describe and leave every other dimension alone. Equality holds exactly when all bounds agree, and one range includes another exactly when every cell of the other lies in it. Asking about a dimension that does not exist is refused.',
 ['inputs'], 'every number of dimensions, bound, offset and dimension argument',
 'The tests build a few ranges with fixed bounds; aliasing (assigning or resizing a range from itself), negative bounds, empty lengths and out-of-range dimensions are never sampled.',
 ['src/lib/range.h', 'src/lib/range.cpp'], [('range setup/resize/extrude/shift/set', 'src/lib/range.cpp'), ('range::includes, operator==', 'src/lib/range.cpp')],
 '1..5 dimensions, lower bounds -1000..1000 and lengths 0..60 (0..6 in 4 and 5 dimensions) symbolic, offsets -50..50 symbolic', None,
 'volumes that overflow 32 bits, more than 6 dimensions', ['c01_range.cpp'])

prop('C02', 'Traversal visits every cell of a sub-range exactly once, in order',
 'Walking over a sub-range of a range visits each of its cells exactly once in row-major order, reports the cell\'s coordinates and its position in the enclosing storage correctly at every step, ends after the last cell, and visits nothing when the sub-range is empty. Moving along or resetting one dimension changes only that coordinate. A sub-range that does not lie inside the enclosing range, or a dimension that does not exist, is refused.',
 ['inputs'], 'every enclosing range, contained sub-range, padding and starting point',
 'The tests walk two or three fixed boxes starting at the enclosing corner; padding on either side, negative bounds, empty sub-ranges and foreign sub-ranges are not sampled.',
 ['src/lib/indexer.h', 'src/lib/indexer.cpp'], [('indexer construction and next()', 'src/lib/indexer.cpp'), ('linear_index bookkeeping', 'src/lib/indexer.cpp')],
 '1..4 dimensions, sub-range lengths 0..6 (1D), 0..3 (2D), 0..2 (3D), 1..2 (4D); positions and padding symbolic', 'lengths 0..12 (1D), 0..5 (2D), 0..3 (3D), 1..2 (4D)',
 'longer sub-ranges', ['c02_indexer.cpp'])

prop('C03', 'Array containers read, write, fill, copy and swap exactly the cells asked for',
 'Reading or writing by position touches exactly that cell; filling or copying a sub-range changes exactly the cells of that sub-range to exactly the requested values, in corresponding order; copies are independent of the original, and swapping two containers exchanges their whole contents. Fills, copies and swaps that reach outside a container, or whose source and destination hold different numbers of cells, are refused and change nothing.',
 ['inputs'], 'every shape, sub-range, offset between source and destination, and contents',
 'The tests fill and copy one small fixed container with one concrete sub-range; offsets that differ between source and destination, partial sub-ranges in several dimensions, and refused requests are not sampled.',
 ['src/lib/indexer_interface.h', 'src/data/datachunk.h', 'src/data/datachunk.cpp', 'src/data/functions.h', 'src/data/extended_datachunk.cpp'],
 [('indexer_interface operator[]/fill/pull/swap/copy', 'src/lib/indexer_interface.h'), ('datachunk copy_to / full_copy', 'src/data/functions.h')],
 '1..3 dimensions, lengths 1..4 (1D), 1..3 (2D), 1..2 (3D), lower bounds -50..50 symbolic, all contained sub-ranges, cell contents symbolic', 'lengths to 5 (1D) and 3 (2D/3D)',
 'larger containers; element types other than double and the int used in the harness', ['c03_container.cpp'])

prop('C04', 'Subdividing a range tiles it exactly',
 'Splitting a range into a requested number of divisions per dimension yields non-inverted pieces that lie inside it, do not overlap, and together contain every one of its cells, in the requested number and arrangement. This includes divisions that do not divide the length evenly, more divisions than cells, and lengths too large to be represented in single precision.',
 ['inputs'], 'every range and every number of divisions per dimension',
 'No test exercises subdivision; uneven and oversubscribed splits depend on rounding of every quotient.',
 ['src/lib/range_set.cpp', 'src/lib/range_set.h'], [('range_set partition construction', 'src/lib/range_set.cpp')],
 '1D: 1..5 divisions, lengths 0..40; 2D: 1..2 divisions, lengths 0..6; 3D: 2 divisions, lengths 1..2; lower bounds -1000..1000; all symbolic; plus lengths about 2^24', '1D: 1..9 divisions, lengths to 90; 2D: 1..3 divisions, lengths to 10; 3D lengths to 4',
 'more divisions', ['c04_rangeset.cpp'])

prop('C05', 'Ghost layers surround the interior and the boundary slabs pair up',
 'A field chunk consists of the interior cells plus the requested number of ghost layers (two, as the schemes need, unless asked otherwise) on both sides of every mesh dimension and of no other dimension, also after it was resized, copied or assigned. For each dimension and side, the slab to send is the layer of interior cells next to that boundary and the slab to receive is the ghost layer next to it, equal in shape, so that what one side sends is what its neighbour receives.',
 ['inputs', 'configurations'], 'every mesh range, dimension, side, ghost depth and number of components',
 'The only field test constructs one variable; slab positions for other dimensions, depths and offsets are never looked at.',
 ['src/data/extended_datachunk.h', 'src/data/extended_datachunk.cpp', 'src/data/dataset.cpp', 'src/variable/variable.cpp'],
 [('extended_datachunk internal/send/recv ranges', 'src/data/extended_datachunk.cpp'), ('dataset::resize', 'src/data/dataset.cpp')],
 '1..3 mesh dimensions, 0..3 ghost layers, 1..3 components, lower bounds -100..100 symbolic, lengths 1..2', None, 'longer meshes (the geometry does not depend on the length beyond offsets)', ['c05_ghost.cpp'])

_bcb = '1..3 dimensions, lengths 2..5 (1D), 2..3 (2D), 2 (3D), every subset of dimensions in both orders, two output fields, every cell value symbolic'
_bct = 'as quick with lengths 2..3 in 3D'
_bco = 'meshes shorter than the two ghost layers; ghost cells diagonal to the mesh (no solver reads them); larger meshes'
prop('C06', 'Periodic boundaries wrap the domain',
 'After applying periodic boundaries, every ghost cell facing the mesh in a requested dimension holds the value of the interior cell one full domain length away, component by component. Interior cells, ghost cells of dimensions that were not requested and every other field keep their values.',
 ['inputs', 'configurations'], 'every mesh, set and order of requested dimensions, and field contents',
 'No test applies a boundary condition.', ['src/solver/bc_periodic.cpp', 'src/solver/bc_periodic.h'], [('bc_periodic::solve', 'src/solver/bc_periodic.cpp')],
 _bcb, _bct, _bco, ['c06_periodic.cpp'])
prop('C07', 'Outflow and wall boundaries for the gas mirror the interior correctly',
 'After applying an outflow, no-slip or free-slip boundary, every ghost cell facing the mesh in a requested dimension holds the mirror image of the interior across that boundary; outflow copies all components, no-slip reverses the whole momentum and free-slip reverses only the momentum component normal to the wall, while density and energy are always copied unchanged. Interior cells, ghost cells of dimensions that were not requested and every other field keep their values.',
 ['inputs', 'configurations'], 'every mesh, set and order of requested dimensions, and field contents',
 'No test applies a boundary condition.', ['src/solver/bc_copy_out.cpp', 'src/solver/bc_no_slip.cpp', 'src/solver/bc_free_slip.cpp'],
 [('bc_copy_out::solve', 'src/solver/bc_copy_out.cpp'), ('bc_no_slip::solve', 'src/solver/bc_no_slip.cpp'), ('bc_free_slip::solve', 'src/solver/bc_free_slip.cpp')],
 _bcb, _bct, _bco, ['c07_copy_out.cpp', 'c07_no_slip.cpp', 'c07_free_slip.cpp'])
prop('C08', 'A conducting wall mirrors the electromagnetic field with the right signs',
 'After applying a conducting wall, every ghost cell facing the mesh in a requested dimension holds the mirror image of the interior with the electric field and the magnetic component normal to the wall reversed and the tangential magnetic components copied unchanged. Interior cells, ghost cells of dimensions that were not requested and every other field keep their values.',
 ['inputs', 'configurations'], 'every mesh, set and order of requested dimensions, and field contents',
 'No test applies a boundary condition.', ['src/solver/bc_conducting_wall.cpp'], [('bc_conducting_wall::solve', 'src/solver/bc_conducting_wall.cpp')],
 _bcb, _bct, _bco, ['c08_conducting.cpp'])

_fv = 'meshes of 1..5 (1D), up to 3x3 (2D), up to 2x2x2 (3D) cells plus two ghost layers, first cell index -1..1 in 1D; every origin, extent, cell value and coefficient symbolic'
_fvt = 'meshes to 8 cells (1D), 4x3 (2D), 3x2x2 (3D), first cell index -1..1 in every number of dimensions'
_fvo = 'larger meshes; floating-point rounding (doubles are interpreted as reals); states with division by zero or negative pressure under a square root'
prop('C09', 'The gas solver conserves mass, momentum and energy and treats axes alike',
 'On a periodic domain the rates of change produced by the gas solver sum to zero over all cells for mass, every momentum component and energy. A uniform flow produces no change at all. Exchanging two coordinate axes of mesh, flow and momentum exchanges the result in the same way.',
 ['inputs', 'configurations'], 'every mesh size and spacing, every state and adiabatic index',
 'No test runs a physics solver; conservation has to hold for every state, not the profile of one example.',
 ['src/solver/euler.cpp'], [('left and right face fluxes of every cell', 'src/solver/euler.cpp')], _fv, _fvt, _fvo, ['c09_euler.cpp'])
prop('C10', 'The gas solver computes the limited HLL finite-volume rates',
 'For every interior cell the gas solver adds to the output exactly the divergence, along every mesh dimension, of HLL fluxes between slope-limited face states of the ideal-gas equations with the given adiabatic index and the mesh\'s own spacing. The state it reads and every other field are not modified.',
 ['inputs', 'configurations'], 'every mesh size, origin and spacing, every state with ordered signal speeds, every adiabatic index and prior contents of the output',
 'No test runs a physics solver.', ['src/solver/euler.cpp', 'src/solver/euler.h'], [('reconstruction, pressure, HLL flux, accumulation', 'src/solver/euler.cpp')],
 _fv + '; every interior cell checked', _fvt, _fvo + '; face states whose left and right signal speeds cross (where the HLL formula is undefined)', ['c10_euler_ref.cpp'])
prop('C11', 'The field solver advances Maxwell\'s curl equations',
 'For every interior cell the field solver adds to the output exactly the divergence of upwind fluxes between slope-limited face states of Maxwell\'s curl equations with the given speed of light, for every mesh dimension and all six components. On a periodic domain the rates sum to zero, a uniform field produces no change, and the field it reads and every other field are not modified.',
 ['inputs', 'configurations'], 'every mesh size, origin and spacing, every field, speed of light and prior contents of the output',
 'No test runs a physics solver.', ['src/solver/maxwell.cpp', 'src/solver/maxwell.h'], [('flux kernels of the three dimensions', 'src/solver/maxwell.cpp')],
 _fv, _fvt, _fvo, ['c11_maxwell.cpp'])
prop('C12', 'Charged fluids feel exactly the Lorentz force',
 'In every interior cell the force solver adds charge-to-mass times (density times electric field plus momentum cross magnetic field) to the momentum rate, the work of the electric field to the energy rate, and nothing to the mass rate. Fluid, field and every other variable are not modified.',
 ['inputs', 'configurations'], 'every mesh, fluid state, field, charge and mass', 'No test runs a source term.',
 ['src/solver/lorentz_force.cpp', 'src/solver/lorentz_force.h'], [('lorentz_force::solve', 'src/solver/lorentz_force.cpp')],
 _fv, _fvt, _fvo, ['c12_lorentz.cpp'])
prop('C13', 'Currents of all species drive the electric field',
 'In every interior cell the current solver adds minus the sum over all species of charge over mass times momentum, divided by the permittivity, to the rate of each electric component, and leaves the magnetic rates alone. The fluids and every other variable are not modified.',
 ['inputs', 'configurations'], 'every mesh, number of species, charges, masses, permittivity and fluid states', 'No test runs a source term.',
 ['src/solver/current_source.cpp', 'src/solver/current_source.h'], [('current_source::setup and solve', 'src/solver/current_source.cpp')],
 '0..3 species; ' + _fv, _fvt, _fvo, ['c13_current.cpp'])
prop('C14', 'Energy exchanged between field and fluids balances',
 'With the same charges and masses, the energy the force solver gives to the fluids in a cell equals the energy the current solver takes from the electric field there. The magnetic field does no work: the kinetic energy rate implied by the momentum rate equals the total energy rate.',
 ['inputs', 'configurations'], 'every mesh, species set, field and fluid state', 'It relates two solvers; no test runs either.',
 ['src/solver/lorentz_force.cpp', 'src/solver/current_source.cpp'], [('both source terms', 'src/solver/lorentz_force.cpp')],
 '1..2 species; ' + _fv, _fvt, _fvo, ['c14_exchange.cpp'])
prop('C15', 'Runge-Kutta stages form exactly the published combinations',
 'Each stage of the third-order strong-stability-preserving integrator and the single stage of the first-order one writes, in every interior cell and component, exactly its published combination of previous stages, rate and time step, to floating-point accuracy, and modifies nothing but its own output. Run in sequence on a linear problem the three stages reproduce the third-order expansion.',
 ['inputs', 'configurations', 'histories'], 'every mesh, number of components, stage, time step and contents',
 'No test runs a time integrator.', ['src/solver/ssprk3.cpp', 'src/solver/rk1.cpp', 'src/lib/parallelization.h'], [('stage_0, stage_1, stage_2', 'src/solver/ssprk3.cpp'), ('rk1 stage', 'src/solver/rk1.cpp')],
 '1, 2 and 6 components; ' + _fv, _fvt, _fvo, ['c15_rk.cpp'])
prop('C16', 'Advection moves the field downstream conservatively',
 'Each of the two advection stages changes every interior cell by exactly the difference of slope-limited upwind fluxes for the given velocity along every mesh dimension, whichever the sign of each velocity component. On a periodic domain the total is conserved, a uniform field does not change, and the input and every other field are not modified. A velocity with fewer components than the mesh has dimensions is refused.',
 ['inputs', 'configurations', 'histories'], 'every mesh, velocity of either sign, time step, stage and contents',
 'No test runs a physics solver.', ['src/solver/ssprk2_advection.cpp'], [('advection_iterate, stage_0, stage_1', 'src/solver/ssprk2_advection.cpp')],
 '1 and 6 components; ' + _fv, _fvt, _fvo, ['c16_advection.cpp'])
prop('C17', 'An identifier always names the same field, and fields share no storage',
 'Looking up an identifier, for reading or writing and after any history of creating other fields, always yields the same field with the name, components and shape the identifier and mesh imply; different identifiers yield fields that share no storage. Clones of an identifier are distinct from it and from each other, reading a field that was never created is refused, and two managers share nothing.',
 ['inputs', 'histories'], 'every sequence of lookups, names, bases and clone requests',
 'The tests create one variable; collisions depend on the history of names and bases.',
 ['src/variable/variable_manager.cpp', 'src/variable/variable_id.h', 'src/basis/basis.h'], [('variable map lookup and creation', 'src/variable/variable_manager.cpp'), ('unique_clone', 'src/variable/variable_id.h')],
 'sequences of 3 lookups over 3 names x 3 bases, histories of 12 clone requests in four patterns and of 300 from one field, names of 1, 3 or 24 characters with the first two and the last symbolic, meshes up to 2 cells per dimension', 'sequences of 4 lookups over 5 names x 4 bases, otherwise as quick', 'longer histories', ['c17_manager.cpp'])
prop('C18', 'A written frame is the mesh and the interior data',
 'A frame written for a set of fields, read back as its legacy format prescribes, describes exactly the mesh (dimensions, lowest corner, spacing, cell count) and, for each field and component, exactly its interior values in the format\'s order and at full precision. Frames do not influence each other and no field is modified.',
 ['inputs', 'configurations', 'histories'], 'every mesh, index offset, set of fields, number of components and contents',
 'No test reads a written file.', ['src/variable/variable_manager.cpp', 'src/variable/variable.cpp', 'src/grid/rectilinear.cpp'], [('write_vtk of manager, grid and variable', 'src/variable/variable.cpp')],
 '1..3 dimensions, up to 3x2x2 cells, 1..2 fields of 1, 2, 3 or 6 components, values symbolic; written tokens are captured by a stream model', None, 'the text formatting of numbers by the C++ library', ['c18_vtk.cpp'])
prop('C19', 'The grid cuts the domain into equal cells and knows where they are',
 'For every origin, extent and index range the grid reports the range, origin and extent it was given, its cells have equal width and exactly fill the extent, and the centre of every cell, ghosts included, is where its index says. Copies describe the same grid, and cells or dimensions outside the grid are refused.',
 ['inputs'], 'every index range, origin, extent, dimension and cell index', 'No test constructs a grid beyond one fixed instance.',
 ['src/grid/grid.h', 'src/grid/grid.cpp', 'src/grid/rectilinear.cpp'], [('rectilinear dx, centroid, xc', 'src/grid/rectilinear.cpp')],
 '1..3 dimensions, lower bounds -1000..1000, lengths 1..1000 and cell index symbolic; cells of a field on meshes up to 3x2x2', None, 'rounding', ['c19_grid.cpp'])
prop('C20', 'Shock-tube set-ups are the Riemann problems they are named after',
 'After a planar, radial or Brio-Wu shock-tube set-up every cell of the mesh holds exactly the density, pressure (as energy), zero velocity and field of the side of the discontinuity its centre lies on, for the given or default parameters and in any number of dimensions. Every output field is set and every other field is not modified.',
 ['inputs', 'configurations'], 'every mesh, parameter set and number of outputs', 'No test runs an initial condition.',
 ['src/solver/shock_tube.cpp', 'src/solver/radial_shock_tube.cpp', 'src/solver/brio_wu_shock_tube.cpp'], [('solve of each set-up', 'src/solver/shock_tube.cpp')],
 _fv + '; parameters symbolic', _fvt, _fvo, ['c20_piecewise.cpp'])
prop('C21', 'Smooth set-ups are the functions of position they are named after',
 'After a Gaussian, magnetic-pulse, plane electromagnetic wave or GEM-challenge set-up every cell, ghosts included, holds exactly the value of the named function at its centre for the given parameters and in any number of dimensions (a coordinate that the mesh or the given centre lacks is zero), with all other components zero. Every output field is set and every other field is not modified.',
 ['inputs', 'configurations'], 'every mesh, parameter set, wave direction and number of outputs', 'No test runs an initial condition.',
 ['src/solver/gaussian.cpp', 'src/solver/magnetic_pulse.cpp', 'src/solver/electromagnetic_wave_1D.cpp', 'src/solver/gem_challenge.cpp'], [('solve of each set-up', 'src/solver/gaussian.cpp')],
 _fv + '; parameters symbolic; exp, sin, cos, cosh, tanh uninterpreted', _fvt, _fvo, ['c21_smooth.cpp'])
prop('C22', 'Swapping exchanges whole fields and filling sets every value',
 'The swap step exchanges the complete contents, ghosts included, of each listed pair of equally shaped fields and of nothing else, and doing it twice restores them. The fill step sets every value, ghosts included, of every listed field to the given number and changes no other field.',
 ['inputs', 'configurations', 'histories'], 'every mesh, list of fields and contents', 'No test runs these steps.',
 ['src/solver/swap.cpp', 'src/solver/fill.cpp', 'src/lib/indexer_interface.h'], [('swap::solve', 'src/solver/swap.cpp'), ('fill::solve', 'src/solver/fill.cpp')],
 '0..3 pairs, 1, 3 or 5 components, up to 4 cells (1D), 2x2 (2D), 2x2x2 (3D), values symbolic', None, 'pairs of different shape', ['c22_swap_fill.cpp'])
prop('C23', 'A solver wired up wrongly refuses to run and changes nothing',
 'A solver given the wrong number of input or output fields, an input field that does not exist, or species lists of unequal length reports an error instead of running, and no field has then been modified. Writing or printing a field that does not exist is an error too.',
 ['configurations', 'fault_sequences'], 'every solver, number of inputs and outputs, and choice of missing input', 'No test wires a solver.',
 ['src/solver/solver.h', 'src/solver/euler.cpp', 'src/solver/maxwell.cpp', 'src/solver/lorentz_force.cpp', 'src/solver/current_source.cpp', 'src/solver/ssprk3.cpp', 'src/solver/rk1.cpp', 'src/solver/ssprk2_advection.cpp', 'src/solver/swap.cpp', 'src/solver/brio_wu_shock_tube.cpp', 'src/solver/gem_challenge.cpp', 'src/variable/variable_manager.cpp'],
 [('argument checks at the head of each solve', 'src/solver/euler.cpp')],
 '0..3 inputs, 0..5 outputs per solver, 1..2 dimensions, field contents symbolic', '1..3 dimensions', 'larger counts', ['c23_misuse.cpp'])
prop('C24', 'Parallel loops give the serial result under every schedule',
 'When built with OpenMP, the iterations that a parallel loop hands to different threads never access the same memory with one of them writing, under any number of threads and any assignment of iterations to threads. Every solver therefore produces the result of its serial loop.',
 ['schedules', 'inputs', 'configurations'], 'every assignment of iterations to threads and interleaving, every mesh and contents',
 'Tests are built without OpenMP and run no solver; a race shows only under particular schedules.',
 ['src/solver/ssprk2_advection.cpp', 'src/solver/euler.cpp', 'src/solver/maxwell.cpp', 'src/solver/ssprk3.cpp', 'src/lib/parallelization.h'],
 [('omp parallel for loops and their private lists', 'src/solver/euler.cpp'), ('flux kernels', 'src/solver/maxwell.cpp'), ('stage loops', 'src/solver/ssprk3.cpp')],
 'meshes of 1..3 (1D), up to 2x2 (2D), 2x1x1 (3D) cells plus ghosts; one thread per iteration, thread assignment and racing iterations symbolic; contents symbolic; results compared with the serial oracle of C10-C13, C15, C16', 'meshes to 5 (1D), 2x2 (2D), 2x2x1 (3D)',
 'larger meshes; OpenMP constructs other than parallel regions, static and dynamic loops, barriers, critical sections and reductions; kernels no public call reaches',
 ['c10_euler_ref.cpp', 'c11_maxwell.cpp', 'c12_lorentz.cpp', 'c13_current.cpp', 'c15_rk.cpp', 'c16_advection.cpp', 'c24_rest.cpp'])
P[-1]['extra'] = dict(flags=['-fopenmp', '-DQKV_SMALL'], only='hll|rusanov|lorentz|current|stages|euler1|upwindStages|otherSteps')
prop('C25', 'An error keeps its message',
 'The message read from an error is exactly the text it was built from, however often it is read and for as long as the error lives. Copying, assigning, throwing and catching preserve it, and extending one error does not alter another.',
 ['inputs', 'histories'], 'every message text, length and sequence of copies and assignments', 'No test reads an error message.',
 ['src/lib/exception.h'], [('exception storage and what()', 'src/lib/exception.h')],
 'six message lengths including empty and longer than small-string storage, leading characters symbolic; all pairs', None, 'longer texts', ['c25_exception.cpp'])
prop('C26', 'Bases and identifiers are consistently ordered',
 'The orderings of bases and of field identifiers are strict and total: of two, exactly one is less or they are equal, and the order is transitive and agrees with equality. Lookup structures built on them therefore find what was stored.',
 ['inputs'], 'every pair and triple of names, point counts and component lists', 'An ordering fault shows only for particular combinations of names and counts; tests use one basis.',
 ['src/basis/basis.h', 'src/variable/variable_id.h'], [('operator< and operator== of basis and variable_id', 'src/basis/basis.h')],
 'names from a set of 4, point counts -1000..1000 symbolic, component lists of 0..2 names; names of 0, 1, 3 or 24 characters with the first two and the last symbolic', None, 'names that differ elsewhere only', ['c26_order.cpp'])

prop('C27', 'A complete time step conserves on periodic and closed domains',
 'A whole step as the drivers compose it - boundaries, rate reset, rates, Runge-Kutta stages, exchange of old and new - leaves the domain totals of every gas, field or advected component unchanged on a periodic domain, whatever ghost cells, stage fields and rate fields held before. In a box closed by no-slip or free-slip walls the gas keeps its mass and energy, and free-slip walls exert no force along themselves.',
 ['inputs', 'configurations', 'histories'], 'every mesh, initial state, coefficient, time step and stale contents of the work fields',
 'It relates boundary, rate, integrator and swap steps; no test runs any of them, and each can look right alone.',
 ['src/solver/euler.cpp', 'src/solver/maxwell.cpp', 'src/solver/ssprk2_advection.cpp', 'src/solver/ssprk3.cpp', 'src/solver/bc_periodic.cpp', 'src/solver/bc_no_slip.cpp', 'src/solver/bc_free_slip.cpp', 'src/solver/swap.cpp', 'src/solver/fill.cpp'],
 [('stage loop of boundary, reset, rate, integrator', 'src/example'), ('ghost exchange feeding the face fluxes', 'src/solver/bc_periodic.cpp')],
 'one step (two for 1D advection) on 2..4 cells (1D), 2x2 (2D), 2x2x2 (3D, gas and advection); walls in either dimension; all contents, geometry, coefficients and time step symbolic', 'to 6 cells (1D), 3x2 (2D), 2x2x2 (3D)',
 'larger meshes, more steps; rounding (doubles are read as reals)', ['c27_step.cpp'])
prop('C28', 'Stretched meshes tile their extent with the requested spacing law',
 'A structured mesh is uniform until biased; after biasing one dimension of N cells with exponent p its cells adjoin, exactly fill the extent, and have edges at the fractions 1-((N-k)/N)^(1/p) of the extent (linear bias) or, mirrored about the middle, at half (k/(N/2))^(1/p) (symmetric bias, refused for odd N). Every other dimension is unaffected. Dimensions and cells that do not exist are refused.',
 ['inputs', 'configurations'], 'every index range, origin, extent, bias exponent and biased dimension', 'No test constructs a structured mesh.',
 ['src/grid/structured.cpp', 'src/grid/structured.h'], [('bias laws and cell lookup', 'src/grid/structured.cpp')],
 '1..3 dimensions, 1..6 cells in the biased dimension, first index -3..3, origin, extent and exponent symbolic', '1..10 cells', 'more cells; rounding', ['c28_structured.cpp'])
prop('C29', 'A solver is its last configuration',
 'A solver that was configured, wired to variables or run before behaves, once configured and wired again, exactly like a fresh solver given only the last configuration. A copy or assignment carries the whole configuration and is not affected by what happens to the original afterwards. A refused configuration changes nothing.',
 ['configurations', 'histories', 'inputs'], 'every solver, former and final parameter values, variable lists, mesh and field contents',
 'No test configures a solver twice or copies one.',
 ['src/solver/solver.h', 'src/solver'], [('setup and set_*_variables', 'src/solver'), ('variable lists', 'src/solver/solver.h')],
 'all 20 solvers with a setup or a variable list; one former configuration, then reconfigured, used, copied or assigned; meshes of 1..2 dimensions with up to 2 cells each; all parameters and contents symbolic', None,
 'longer histories, larger meshes; the file writer (stateful by design, see C18)', ['c29_config.cpp'])
prop('C30', 'What is printed is what is stored',
 'Printing variables lists, per variable in the given order, its name and every interior cell exactly once with its index and value, no ghost cell and nothing else, and modifies nothing. Printing a range gives its lower bounds, then its upper bounds, one per dimension.',
 ['inputs', 'configurations'], 'every mesh, number of variables and components, and contents; every range', 'No test prints anything.',
 ['src/solver/print.cpp', 'src/lib/range.h'], [('print::solve', 'src/solver/print.cpp'), ('operator<<', 'src/lib/range.h')],
 '0..2 variables of 1..2 components on meshes of 1..3 dimensions (up to 3, 2, 2 cells, lower index -1..1); ranges of 0..4 dimensions with bounds in -1000..1000; all contents symbolic', 'up to 4 cells in the first dimension',
 'larger meshes; the digits of a printed real beyond the sixth; layout of the text', ['c30_print.cpp'])
prop('C31', 'A frame that could not be written is reported',
 'If the file of a frame cannot be opened, or writing fails at any point from its first to its last byte - noticed at once or only when buffers are flushed - the call reports an error instead of returning as if the frame existed. No field is modified, and later frames are written normally.',
 ['fault_sequences', 'inputs'], 'every point at which the device can fail, mesh and contents', 'No test writes a file, none injects a fault.',
 ['src/variable/variable_manager.cpp', 'src/variable/variable.cpp', 'src/grid/rectilinear.cpp'], [('variable_manager::write_vtk', 'src/variable/variable_manager.cpp')],
 '1..2 fields on meshes of 1..2 dimensions with 2 cells each; failure at opening and at each of the first 70 writes, immediate or deferred to the flush', 'each of the first 140 writes',
 'failures after the file was closed (lost caches, crashes)', ['c31_fault.cpp'])
prop('C32', 'A basis describes the points it holds and shapes its fields',
 'A volume average has one point per cell and a face basis one per direction it was set up for; unsupported point counts are refused and change nothing, setting up again replaces, and bases are equal exactly when they are of one kind and size. A field holds points times components numbers per cell, fields on different bases are different fields, and frames of anything but volume averages, or of mixed bases, are refused.',
 ['inputs', 'configurations', 'histories'], 'every direction count, point count, component count and mesh', 'Tests use the volume average only.',
 ['src/basis/face_basis.cpp', 'src/basis/volume_average.cpp', 'src/basis/basis.h', 'src/data/dataset.cpp'], [('face_basis::setup', 'src/basis/face_basis.cpp'), ('dataset::resize', 'src/data/dataset.cpp')],
 '1..4 directions, -1..3 points per direction, two set-ups; fields of 1..3 points and 1..2 components on meshes of 1..2 dimensions with 2 cells', None,
 'larger counts and meshes', ['c32_basis.cpp'])
prop('C33', 'A two-fluid plasma step obeys the global balances',
 'One explicit step of electrons, ions and field on a periodic domain, composed of the gas, field, force and current solvers in any order, keeps the mass of each species and the total magnetic field. Each species gains exactly the total Lorentz force and the total work of the electric field, and the electric field changes by exactly minus the total current over the permittivity, whatever ghost cells, rates and outputs held before.',
 ['inputs', 'configurations'], 'every mesh, state of both fluids and the field, charge, mass, permittivity, adiabatic index, speed of light and time step',
 'It relates six solvers; no test runs any.',
 ['src/solver/euler.cpp', 'src/solver/maxwell.cpp', 'src/solver/lorentz_force.cpp', 'src/solver/current_source.cpp', 'src/solver/rk1.cpp', 'src/solver/bc_periodic.cpp', 'src/solver/fill.cpp'],
 [('coupling of fluid and field rates', 'src/solver/lorentz_force.cpp'), ('current', 'src/solver/current_source.cpp')],
 'two species, one step, 2..3 cells (1D), 2x2 (2D); all contents, geometry and parameters symbolic', '2..4 cells (1D), 2x2 (2D), 2x2x2 (3D)',
 'larger meshes, more species, more steps; rounding (doubles are read as reals)', ['c33_plasma.cpp'])
prop('C34', 'Nothing depends on what memory held before',
 'An object that was constructed but never configured behaves in one way, whatever its memory held before: every solver run without set-up either refuses, changing nothing, or gives one and the same result from its own defaults; time and time step are zero until they are set, new fields are zero, and empty ranges, indexers, chunks, fields and bases are empty.',
 ['inputs', 'configurations'], 'all leftover memory, and every mesh and contents the solver is then run on',
 'A test sees one leftover, usually zero.',
 ['src/solver', 'src/variable/variable_manager.cpp', 'src/lib/range.cpp', 'src/lib/indexer.cpp', 'src/data/extended_datachunk.cpp', 'src/basis/face_basis.cpp'],
 [('constructors of every solver', 'src/solver'), ('variable_manager constructor', 'src/variable/variable_manager.cpp')],
 'every solver on meshes of 1..2 dimensions with 2 cells each, two objects built over leftovers that are arbitrary reals or two different byte patterns; all contents symbolic', None,
 'larger meshes; leftovers that are not reals or repeated bytes', ['c34_fresh.cpp'])

prop('C35', 'Results do not depend on what was computed before',
 'What a solver computes depends only on its configuration and on the fields, grid and time step it is given: a solve gives the same result in a process that did nothing else and after other solves, whether by another object on another mesh, by the same object on another mesh, by the same object on the same fields with other contents and another step, or by a call that was refused.',
 ['inputs', 'histories'], 'all earlier and later contents, meshes and parameters, one earlier use',
 'Every test starts a fresh process and runs one set-up; a value remembered from an earlier mesh, step or field is the right value there.',
 ['src/solver', 'src/variable/variable_manager.cpp', 'src/grid/rectilinear.cpp', 'src/lib/indexer.cpp', 'src/data/extended_datachunk.cpp'],
 [('solve of every solver', 'src/solver'), ('variable lookup', 'src/variable/variable_manager.cpp'), ('cell sizes and centres', 'src/grid/rectilinear.cpp')],
 'all 21 solvers; one earlier use of each of the four kinds; meshes of 1..2 dimensions with up to 3 cells each; all contents, geometry and parameters symbolic', None,
 'longer histories, larger meshes; histories of the file writer and the printer are part of C18 and C30', ['c35_history.cpp'])

# one large instance next to the small ones
LARGE = {
 'C02': 'one long sub-range per number of dimensions (300; 17x13; 7x5x9; 3x5x4x6; 3x4x2x2x5)',
 'C03': '1500, 41x29 and 11x9x13 cells for filling, pulling, copying, swapping and scaling',
 'C18': '150, 11x7 and 6x5x4 cells', 'C22': '400, 17x13 and 7x5x6 cells', 'C28': '31 and 32 cells', 'C30': '150, 11x7 and 6x5x4 cells',
}
for c, t in {'C06': '300; 17x11; 7x5x6', 'C07': '300; 17x11; 7x5x6', 'C08': '300; 17x11; 7x5x6', 'C09': '33; 9x7; 5x4x3',
             'C10': '33; 9x7; 5x4x3, every tenth cell', 'C11': '70; 11x9; 6x4x5', 'C12': '270; 23x17; 11x7x5', 'C13': '270; 23x17; 11x7x5',
             'C14': '270; 23x17; 11x7x5', 'C15': '1100; 23x17; 11x7x5', 'C16': '150; 13x11; 6x5x4', 'C20': '33; 9x7; 5x4x3', 'C21': '33; 9x7; 5x4x3'}.items():
    LARGE[c] = 'one large mesh per number of dimensions (' + t + ')'
for p in P:
    if p['id'] in LARGE:
        for k in ('quick', 'thorough'):
            if p[k]: p[k] += '; plus ' + LARGE[p['id']]
    if p['id'] == 'C05':
        p['quick'] = p['quick'].replace('lengths 1..2', 'lengths 1, 2 and 5 to 9')

NA = []
