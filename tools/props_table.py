prop('C01', 'Every exact engine computes softened Newtonian gravity',
 'For any masses, any state and any number of bodies, each exact CPU engine returns as derivative the velocities for the positions and, for the velocities, the sum over all other bodies of m_j (r_j - r_i) / d^3 with d^2 = max(|r_i - r_j|^2, 1e-8). The distance-limited engine returns the same on its full recompute steps and on its first call; between them it returns the frozen far part plus the current near part. Nothing but the output buffer changes.',
 ['inputs', 'configurations', 'schedules'], 'all body counts, masses, positions (coincident and close ones included), velocities, engines and thread partitions',
 'tests compare engines with each other within an eps on one random universe per engine; an error common to the compared engines, or one needing close bodies or an odd size, is invisible',
 ['nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp', 'nbody/nbody_engine_block.cpp', 'nbody/nbody_engine_ah.cpp', 'nbody/nbody_data.cpp'],
 [('pair force', 'nbody_data::force'), ('direct sums', 'nbody_engine_simple/openmp/block::fcompute'), ('neighbour scheme', 'nbody_engine_ah::fcompute, fcompute_full, fcompute_sparse')],
 'loop summarisation gives the exact sum over j as the postcondition for symbolic N; the OpenMP outlined body is verified for a symbolic thread chunk',
 'the block engine for N a multiple of its block size (its own precondition); double arithmetic read as real arithmetic; concrete cases against a long double oracle replay any failure')
prop('C02', 'Vector algebra of the engines is exact per element and changes only its output',
 'For every CPU engine, any number of bodies and any values: copy, fill, scaled add, linear combination, maximum norm and box wrapping produce for every element exactly the documented value. They leave every other buffer unchanged, also when operands coincide. Invalid operands (missing, foreign, more coefficients than vectors) change nothing.',
 ['inputs', 'configurations', 'schedules'], 'all buffer contents, sizes, coefficients, aliasing patterns, engines and thread partitions',
 'tests use one size per engine and one random fill, and check that invalid operands do not crash rather than that nothing changed',
 ['nbody/nbody_engine.cpp', 'nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp'],
 [('elementwise kernels', 'nbody_engine_simple/openmp::copy_buffer, fill_buffer, fmadd_inplace, fmadd, fmaxabs, clamp'), ('linear combinations', 'nbody_engine::fmaddn, fmaddn_inplace')],
 'postcondition and frame per element for symbolic size; in-place combination for a symbolic number of terms',
 'combination into a separate output by unrolling to 5 terms (bounded in the number of terms); one known finding: with all coefficients zero the output is left alone')
prop('C03', 'Compensated accumulation is the Kahan algorithm, bit for bit',
 'When correction is on, each element of the accumulated state and its carried rounding error go through exactly the Kahan step y = b - c, t = a + y, c = (t - a) - y for every term with a non-zero coefficient, in order. No element sees another element\'s error, and in exact arithmetic no error is carried.',
 ['inputs', 'configurations', 'schedules'], 'all values, coefficients, sizes and thread partitions of the engines with a compensated kernel',
 'tests compare the sum with a tolerance that a lost or mis-signed correction also meets',
 ['nbody/summation.h', 'nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp', 'nbody/nbody_engine.cpp'],
 [('one step', 'summation_k'), ('kernels', 'nbody_engine_simple/openmp::fmaddn_corr')],
 'floating point operations uninterpreted (bit exact up to IEEE identities), postcondition per element',
 'number of terms unrolled to 4 (bounded in that number only), any size; longer ones concretely')
SOLV = ['nbody/nbody_solver_euler.cpp', 'nbody/nbody_solver_midpoint.cpp', 'nbody/nbody_solver_rk4.cpp', 'nbody/nbody_solver_trapeze.cpp', 'nbody/nbody_solver_midpoint_stetter.cpp', 'nbody/nbody_solver_adams.cpp']
prop('C05', 'Fixed-formula solvers follow their published formula, and time grows by dt',
 'Whatever the derivative (a function of time and state), the state, the step sizes and the engine, one step of the Euler, midpoint, classic Runge-Kutta, trapeze, smoothed midpoint and Adams-Bashforth (rank 1 to 5) solvers leaves exactly the state of the published formula. An Adams-Bashforth solver uses its starter for at most rank+1 steps and the rank-step formula with the derivatives of the last rank states afterwards; with compensation the state minus the carried error advances exactly by it, whatever the rounding errors. The engine time grows by exactly dt per step.',
 ['inputs', 'histories', 'configurations'], 'all right hand sides, states, step size sequences, ranks, refinement counts, compensation on or off, restarts in between',
 'tests compare one short trajectory per solver with a stored one; a formula error that needs other settings, a longer history or varying step sizes does not show',
 SOLV, [('one-step formulas', 'nbody_solver_euler/midpoint/rk4/trapeze::advise'), ('smoothed midpoint', 'nbody_solver_midpoint_stetter::advise, reset'), ('multistep', 'nbody_solver_adams::advise, reset')],
 'the engine interface is replaced by its contracts (verified as C01-C03); the derivative is an uninterpreted function, so equality of terms is equality for every right hand side',
 'any number of steps by induction over the state of the solver object; trapeze with 0, 1, 2, 3, 5 refinements; exact real arithmetic')
RKF = ['nbody/nbody_solver_rk_butcher.cpp'] + ['nbody/nbody_solver_%s.cpp' % n for n in ('rkck', 'rkdp', 'rkdverk', 'rkf', 'rkfeagin10', 'rkfeagin12', 'rkfeagin14', 'rkgl', 'rklc')]
prop('C06', 'Runge-Kutta solvers advance by exactly the formula of their tableau',
 'For every tableau the library has and any right hand side, an accepted step has stages k_i = f(t + c_i dt, y + dt sum_j a_ij k_j) and new state y + dt sum_i b2_i k_i, and the time grows by exactly dt. Implicit tableaux use the configured number of refinement sweeps, which start from an Euler predictor on the first step and from the previous stages later. Compensation changes nothing in exact arithmetic; whatever rounding errors its accumulations make, the state minus the carried error advances exactly by the formula.',
 ['inputs', 'histories', 'configurations'], 'all right hand sides, states, step sizes, tableaux, refinement counts, compensation on or off',
 'tests run one short trajectory per tableau with default settings against a stored result',
 RKF, [('explicit stages', 'nbody_solver_rk_butcher::sub_step_explicit'), ('implicit stages', 'nbody_solver_rk_butcher::sub_step_implicit'), ('advance', 'nbody_solver_rk_butcher::sub_step, advise')],
 'symbolic execution of the real sub_step with the tableau read through the real getters; uninterpreted derivative',
 'any number of steps by induction; refinement sweeps 0..3 unrolled; exact real arithmetic')
prop('C07', 'Every tableau satisfies the order conditions of its order',
 'Each Runge-Kutta tableau has nodes equal to its row sums, and its advancing weights and its comparison weights satisfy all rooted tree order conditions up to the order they are documented to have (comparison weights: 5, 5, 6, 7, 8, 10, 12, 6, 4 for rkck, rkdp, rkdverk, rkf, rkfeagin10, 12, 14, rkgl, rklc). The advancing weights of rkck, rkdp, rkgl, rklc reach only 4, 4, 2, 2 (known finding).',
 ['inputs', 'configurations'], 'every coefficient of every tableau',
 'tests check that rows and weights sum up, which almost any wrong coefficient pair passes',
 RKF + ['nbody/nbody_butcher_table.cpp'], [('coefficients', 'nbody_butcher_table_*::get_a, get_b1, get_b2, get_c')],
 'tableau values obtained from the real getters, all rooted trees up to order 14 evaluated, exactly for the small tableaux',
 'residual tolerance 2e-13 (rounding of the coefficients to double); Feagin tableaux in 80 bit arithmetic')
prop('C08', 'Adaptive steps subdivide exactly when the error estimate demands it',
 'An embedded Runge-Kutta step of size dt at recursion level l is replaced by the configured number of sub steps of equal size exactly if l is below the recursion limit, dt exceeds the minimum step and the largest component of sum (b2-b1) k exceeds the threshold; otherwise it is accepted as it is. Sub steps start from the unmodified state before the rejected step. A whole step always advances the time by exactly dt and counts as one step.',
 ['inputs', 'histories', 'configurations'], 'all right hand sides, thresholds, minimum steps, recursion limits, subdivision counts and nesting patterns of rejections',
 'the stored trajectories of the tests never or hardly subdivide',
 RKF, [('control', 'nbody_solver_rk_butcher::sub_step'), ('whole step', 'nbody_solver_rk_butcher::advise')],
 'one activation of the recursion against its defining equation with the recursive call by contract, plus whole steps with the recursion unfolded',
 'recursion unfolded to depth 2, sub step counts 2 and 3; by induction any level with 1..3 sub steps per activation')
prop('C09', 'Bulirsch-Stoer steps return the extrapolated limit under error control',
 'For any right hand side, a Bulirsch-Stoer step returns the value at h = 0 of the polynomial in h^2 through the smoothed midpoint solutions with 2, 4, 6, 8, 12, 16, ... sub steps. It stops at the first level from the third on whose two best values differ by less than the threshold, or at the last level, and the time grows by exactly dt. The Neville extrapolator returns this for any order and sub step sequence; the Berrut one returns the Berrut rational value over the earlier levels; each estimate is the largest difference between consecutive values.',
 ['inputs', 'histories', 'configurations'], 'all right hand sides, states, thresholds, level limits, sub step sequences, reuse of the table across steps',
 'tests extrapolate a few scalar sequences and one stored trajectory with four levels',
 ['nbody/nbody_solver_bulirsch_stoer.cpp', 'nbody/nbody_extrapolator.cpp', 'nbody/nbody_solver_midpoint_stetter.cpp'], [('step', 'nbody_solver_bulirsch_stoer::advise, compute_substep'), ('extrapolators', 'nbody_extrapolator_neville, nbody_extrapolator_berrut')],
 'result proved equal to the Lagrange weights prod n_i^2/(n_i^2-n_j^2), with symbolic threshold, state and derivative',
 'level limits 1..8; extrapolators over two fixed sub step sequences symbolically, random ones concretely')
prop('C20', 'After reset a solver behaves like a new one',
 'For every solver and configuration: after reset, whatever was computed before and whatever state the engine now holds, all following steps give exactly what a newly created solver of the same configuration gives. This includes starters of multistep solvers, carried rounding errors, stage guesses of implicit solvers and histories.',
 ['histories', 'configurations'], 'all solvers, configurations, histories before the reset and states after it',
 'no test calls reset on a solver other than indirectly inside Bulirsch-Stoer',
 SOLV + RKF[:1] + ['nbody/nbody_solver_bulirsch_stoer.cpp'], [('reset', 'nbody_solver_*::reset')],
 'product of two symbolic runs (with and without history) compared term by term',
 'any history and any number of later steps by induction; derivative uninterpreted; configurations as listed in the evidence')
prop('C04', 'Engine state, clock and buffers are faithful to the bodies',
 'For every CPU engine and any number of bodies: after init the state buffer holds exactly the positions and velocities of the bodies, component by component. get_data writes exactly the current state back, into the bodies or into any other container of the same size, and changes no mass. Buffers return exactly what was written, at any offset of the documented kind, and never disturb each other; the clock and the step counter are those of the bodies. Reading or writing a missing or foreign buffer changes nothing.',
 ['inputs', 'histories', 'configurations'], 'all body counts, contents, engines, orders of buffer creation, reading, writing and release',
 'tests round trip one random buffer per engine and never look at other buffers or at unusual containers',
 ['nbody/nbody_engine.cpp', 'nbody/nbody_engine_simple.cpp', 'nbody/nbody_engine_openmp.cpp', 'nbody/nbody_data.cpp'],
 [('state transfer', 'nbody_engine_simple::init, get_data'), ('buffers', 'nbody_engine_simple::create_buffer, read_buffer, write_buffer, free_buffer; nbody_engine::create_buffers, free_buffers'), ('clock', 'nbody_engine_simple::get_time, set_time, advise_time, get_step, set_step')],
 'postcondition and frame per element for symbolic size and symbolic contents',
 'up to 4 buffers per create_buffers call symbolically, 40 concretely; release and repeated init concretely under the address sanitizer')
prop('C10', 'Heap index functions form one binary tree walked in preorder',
 'For every index: children, parent, side tests and sibling are mutually consistent; skipping a node leads to the next node in preorder outside its subtree, and advancing leads to the left child or, at a leaf, to what skipping gives. A walk from the root stays within the tree, visits no node twice, leaves out exactly the skipped subtrees and ends back at the root.',
 ['inputs'], 'all indices below 2^31, both index types, all even heap sizes',
 'tests walk two or three small heaps', ['nbody/nbody_space_heap_func_priv.h', 'nbody/nbody_space_heap_func.h'],
 [('index functions', 'nbody_heap_func<index_t>::left_idx, rght_idx, parent_idx, is_left, is_right, left2right, next_down, skip_idx, next_up')],
 'the index functions executed bit-precisely, the tree laws discharged by bit-vector solving for all indices',
 'one obligation (a skip leaves out exactly the subtree) for trees up to 2048 bodies; the fallback for compilers without bit counting by concrete runs')
BHF = ['nbody/nbody_space_tree.cpp', 'nbody/nbody_space_tree.h', 'nbody/nbody_space_heap.cpp', 'nbody/nbody_space_heap.h', 'nbody/nbody_space_heap_stackless.cpp', 'nbody/nbody_engine_simple_bh.cpp']
prop('C11', 'Space trees partition the bodies and carry their exact aggregates',
 'For any number of bodies, positions (coincident ones included), positive masses and opening ratio, a built tree or heap has every body in exactly one leaf, at its position and with its mass, whatever was built before. Every inner node holds the sum of masses, the mass center and the bounding box of exactly its bodies, and the squared radius (half the box diagonal plus the distance of box and mass center, times the ratio) that contains all of them. Updating for moved bodies keeps the assignment and makes all aggregates those of the new positions.',
 ['inputs', 'histories', 'schedules'], 'all body counts (any shape of heap and tree), positions, masses, ratios, earlier builds, OpenMP task schedules',
 'tests count leaves of one or two random trees and compare forces within a loose tolerance',
 BHF, [('node aggregates', 'nbody_space_tree::node::update, nbody_space_heap::update'), ('build', 'nbody_space_tree::build, node::build, nbody_space_heap::build, build_p'), ('update', 'nbody_space_tree::rebuild, node::rebuild, nbody_space_heap::rebuild')],
 'one activation of each recursive function for symbolic count with the recursive calls by contract, the level loops of the heap by invariant, tasks deferred to their taskwait',
 'none in the size; std::nth_element by its standard contract')
prop('C21', 'Barnes-Hut forces follow the opening rule exactly, on every layout',
 'For every body the Barnes-Hut engines return the sum over the nodes accepted by the opening rule: starting at the root, a node farther than its radius counts as one point mass, otherwise its children decide, and a body contributes nothing to itself. No accepted node is left out or counted twice. The result is the same for pointer tree, heap and stackless heap and for both traversal types, and it is the exact softened sum when the ratio is large. The tree is made anew at the first evaluation and every tree_build_rate steps (always with rate 0) and updated otherwise. Only the output buffer changes.',
 ['inputs', 'configurations', 'schedules', 'histories'], 'all body counts, positions, masses, ratios, layouts, traversal types, build rates, thread partitions',
 'tests compare with the exact engine within a tolerance that hides a lost or doubled node',
 BHF, [('traversals', 'nbody_space_tree/heap/heap_stackless::traverse'), ('engines', 'nbody_engine_simple_bh::space_subdivided_fcompute, nbody_engine_simple_bh_*::fcompute')],
 'loop invariants over the traversal stack and over the preorder walk, engine glue for symbolic size with build and traversal by contract',
 'none in the size; pair force, structure and index laws by the contracts of C01, C11 and C10')

prop('C14', 'A run steps to the end time, recording frames and checks at their intervals',
 'For any solver, engine, intervals and sequence of times, run takes steps of the maximal step size while the time is below the end time and not longer, wrapping the state to the box of the bodies before each step exactly if asked to. With a stream and a positive frame interval a frame is written first if the time is not positive, then after each step at which a frame interval (less a tenth of a step) has passed since the last frame; likewise statistics are computed and every visitor called once. Frames carry the state and time of their moment. The result is 0, or -1 at once when a write fails.',
 ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'all times, intervals (zero and negative included), step sizes, solvers, engines, streams, write failures at any frame',
 'tests run one simulation and look at the number of frames',
 ['nbody/nbody_solver.cpp'], [('run loop', 'nbody_solver::run'), ('settings', 'nbody_solver::set_time_step, set_clamp_to_box, set_engine, add_check_visitor')],
 'loop contract over the event history of one iteration with symbolic times; solver step, stream, visitors, statistics and engine by contract',
 'number of visitors by unrolling to 3; termination is not claimed')
prop('C16', 'The body container keeps positions, velocities, masses, colors and radii in step',
 'For any number of bodies: a new container is empty; add_body appends one body with exactly the given position, velocity, mass, color and radius, changing no other; resize gives every array that many entries and clear none; clock, step, box and getters report what was set. is_equal is true exactly when the counts are equal and no position, velocity, mass or radius differs by more than eps. A galaxy gets a central body and stars inside its radius whose masses make up the given total, in a whole number of blocks; a universe has two such galaxies side by side with opposite velocities and the box of its size.',
 ['inputs', 'histories'], 'all counts, contents and orders of operations',
 'tests append a few bodies and compare one copy with one changed coordinate',
 ['nbody/nbody_data.cpp', 'nbody/nbody_data.h'], [('container', 'nbody_data::add_body, resize, clear, is_equal, get_*, set_time, set_step'), ('generators', 'nbody_data::add_galaxy, make_universe')],
 'postcondition and frame per element for symbolic count; early exit loop of the comparison and rejection loop of the generator by invariant',
 'none in the size; std::vector and the random numbers by their standard contract (any value in the range)')
prop('C17', 'Statistics are the exact conserved quantities of the current bodies',
 'For any bodies and check list, print_statistics sets the last total momentum, angular momentum, energy (kinetic plus pair potential, pairs closer than 1e-4 leaving none) and mass center to the exact sums over the bodies, for the letters of the check list; with an engine, over the current state of that engine, which it brings into the bodies. The first call also sets the initial values, later ones keep them. Deviations are the distance to the initial value in percent of its size. Nothing else of the bodies changes.',
 ['inputs', 'histories', 'configurations'], 'all counts, masses, positions, velocities, check lists, engines, first and later calls',
 'tests look at a conserved total within a loose tolerance on one universe',
 ['nbody/nbody_data.cpp', 'nbody/summation.h', 'nbody/summation_proxy.h'], [('totals', 'nbody_data::print_statistics, summation'), ('deviations', 'nbody_data::get_impulce_err, get_impulce_moment_err, get_energy_err')],
 'compensated summation by loop summary to the exact sum, postcondition for symbolic count',
 'one body or more, fewer than 2^31; exact real arithmetic, the compensated order concretely')
prop('C12', 'A recording lists exactly the frames that are completely on disk',
 'The index lists every successfully written frame exactly once, in the order of writing, with its step, its time (15 significant digits), the part it lies in and its position there, and only after positions and velocities of all bodies have been written completely and flushed. Parts rotate exactly when the current part has reached the maximum size (if one is set). Header, colors and masses are on disk before the first frame is reported, anew for every recording; one object can make several recordings. A write that fails anywhere is reported by a non-zero result. Appending continues the last part and the index where they end.',
 ['inputs', 'histories', 'crash_points', 'fault_sequences', 'configurations'], 'all body counts, part sizes, sequences of open, write and close, and every write, flush or open that may fail',
 'tests write one recording that fits and never fails, and read it back',
 ['nbody/nbody_data_stream.cpp', 'nbody/nbody_data_stream.h'], [('writing', 'nbody_data_stream::write, data::open_data_file, data::write'), ('opening', 'nbody_data_stream::open, append, close')],
 'files and text streams are replaced by their documented contract with a ghost history of what was written where; every operation may fail; postconditions over that history',
 'none in sizes and counts; histories by induction over one call from any reachable state')
prop('C13', 'Seeking to any frame and reading gives that frame',
 'After loading a recording with a good index, seeking to any frame it lists and reading gives the recorded positions, velocities, step and time of that frame, in any order and any number of times; reading goes on to the next frame, and the last frame stays current. Colors and masses come with the first read of each recording. An index with a wrong number of columns, a bad number, an incomplete header or another coordinate size is rejected, a part that is missing fails only the frames in it, and reading into a null or differently sized object fails without touching it. Nothing of an earlier recording survives a load. (Box sizes of at least 1.)',
 ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'all index contents, numbers of frames and parts, orders of seek, read, load and close, truncated or missing files',
 'tests read the frames of one well formed recording in order',
 ['nbody/nbody_data_stream_reader.cpp', 'nbody/nbody_data_stream_reader.h'], [('index', 'nbody_data_stream_reader::load, data::parse_header_line'), ('frames', 'nbody_data_stream_reader::seek, read, data::read_colors, data::read_masses, close')],
 'contents of files are uninterpreted functions of name and position; postconditions say which bytes each component comes from, for a symbolic index and frame',
 'none in sizes and counts; parsing of single numbers and lines by the documented contract of QString')
prop('C15', 'Text files give exactly the bodies they describe, and saving loses nothing',
 'Loading a text file gives one body per line with content, in order: position, velocity, mass times the gravitational constant of the unit system (1, SI, or au/day/kg), and radius if an eighth column is there (else 0), colored white. Comments from // on, blank lines, extra spaces and further columns do not matter. A line with fewer than seven columns or a bad number makes the load fail, as do a file that cannot be opened (which leaves the bodies alone), an unknown type, and a Zeno file with a bad header, a missing line, a wrong number of components or a bad number. load_initial also sets the box size to the integral part of the largest coordinate, at least 1. Saving and loading gives back the same numbers bit for bit, and a save that could not write everything fails.',
 ['inputs', 'fault_sequences', 'configurations'], 'all file contents, unit systems, body counts, body values and write failures',
 'tests load one small file per format and save one universe',
 ['nbody/nbody_data.cpp', 'nbody/nbtype.h'], [('loaders', 'nbody_data::load, load_zeno_ascii, load_initial, get_mass_factor'), ('saving', 'nbody_data::save')],
 'a file is an uninterpreted sequence of lines; loop contracts relate every line to the body it gives, for any number of lines and bodies',
 'none in sizes; splitting of lines and conversion of numbers by the documented contract of Qt, concretely in the harness')
prop('C18', 'Options give the engine and solver they name, configured as they say',
 'The parser maps the name of every argument of the form --name=value (exactly one =) to its value; of several with one name the last wins; other arguments and the program name are ignored. nbody_create_engine and nbody_create_solver make an object of exactly the kind named, and every option that kind has takes effect, or else its default: engine ah full_recompute_rate 1000, max_dist 10, min_force 1e-4; simple_bh distance_to_node_radius_ratio 10, traverse_type cycle, tree_layout tree, tree_build_rate 0; opencl device 0:0 and opencl_bh tree_layout heap; solvers min_step 1e-9, max_step 1e-2, clamp false; Runge-Kutta pairs error_threshold 1e-4, max_recursion 8, substep_subdivisions 8, correction false; they and trapeze refine_steps_count 1; bs max_level 8, error_threshold 1e-11; adams rank 1, correction false, starter_solver euler, which is configured by the same options. Unknown names, an adams rank outside 1 to 5, an unknown starter, traverse type or tree layout, and OpenCL devices that cannot be selected give none.',
 ['inputs', 'configurations'], 'all argument lists, all maps of options with valid numbers',
 'tests create a few engines and solvers with default options and do not look at what they are configured with',
 ['nbody/nbody_arg_parser.cpp', 'nbody/nbody_engines.cpp', 'nbody/nbody_solvers.cpp', 'nbody/nbody_solver.cpp', 'nbody/nbody_solver_rk_butcher.cpp'], [('parser', 'nbody_parse_arguments'), ('factories', 'nbody_create_engine, nbody_create_solver, tree_layout_from_str')],
 'for an arbitrary map of options the object made is compared member by member with one built by constructor and setters from the documented meaning of the options; loop contract for the parser',
 'none; QMap, QVariant and QString by their documented contract, concretely in the harness')
prop('C19', 'The OpenCL engines compute what the CPU engines compute',
 'On one, two, four or more OpenCL devices (a power of two, of one or more contexts), with any block size that divides the bodies of each device, and however the devices order their work-items and outstanding commands, nbody_engine_opencl gives the derivative, vector operations, compensated sums, maximum, clamping, buffers, state and clock that nbody_engine_simple gives, and nbody_engine_opencl_bh, for every tree layout, traversal type, ratio and build rate, the derivative of the CPU Barnes-Hut engines, up to rounding. Only the output buffer of an operation changes; null buffers, buffers of another engine, copies between different sizes, more coefficients than vectors and unknown devices are refused without effect. Whole solver runs agree.',
 ['inputs', 'schedules', 'configurations', 'histories'], 'all bodies, device lists, block sizes, buffers, coefficients, tree settings and orders in which devices run work-items and commands',
 'the tests run only where a device exists (here none does), on one device and one body count',
 ['nbody/nbody_engine_opencl.cpp', 'nbody/nbody_engine_opencl.cl', 'nbody/nbody_engine_opencl_bh.cpp', 'nbody/nbody_engine_opencl.h', 'nbody/nbody_space_heap_func_priv.h'],
 [('kernels', 'nbody_engine_opencl.cl'), ('host', 'nbody_engine_opencl::fcompute*, fmadd*, fmaxabs, clamp, copy_buffer, read_buffer, write_buffer, synchronize_*, update_tree, select_devices')],
 'every kernel is compiled to IR as the engine assembles it and proved for one arbitrary work-item (postcondition and frame per element, barrier rule for local memory, traversal invariants of C21)',
 'kernels: none in sizes, block size 64, OpenCL 1.x; host code: concrete runs on a stand-in platform with up to 8 devices and random schedules')
