"""Per property: (what is enumerated and how, against what oracle, bounds and cost (quick tier, 8 cores), what this reaches)."""
D = {}
D["T01"] = ("Breadth-first search over instants. States are (sec, nsec) values reached, transitions are every arithmetic operator with every operand of a boundary alphabet; the oracle is an exact 128-bit nanosecond count. All pairs of reached boundary states go through all six comparisons and both subtraction orders.",
 "100k states, 1.36 M transitions, 5 s.", "Carry and borrow only go wrong for particular nanosecond pairs and signs; the search visits all of them around every boundary.")
D["T02"] = ("Every week 0..4095 x boundary times of week for the three systems, every second of nine whole weeks, every civil day 1970..2105, and a lattice of (reference, GLONASS time of day). Oracle: independent day count.", "~15 s.", "Rollovers.")
D["T03"] = ("Every nanosecond offset around the resolution boundary from boundary instants (thorough: every offset within three resolutions). Oracle: exact distance.", "3 s.", "The verdict changes at one nanosecond in 1e5.")
D["B01"] = ("All words over 17 operations (push, also of own elements,/pop at both ends, clear, copy, assign, self-assign, index) on two buffers, from every rotation and fill of capacities 1-3. Oracle: std::deque, plus a ledger of every element object (no double construction, destruction or leak). ASan/UBSan.", "1.3 M transitions, 30 s.", "Wrap-around and lifetime errors need a rotation, a fill and a sequence.")
D["B02"] = ("Field lengths 1..32 x bit positions 0..23 x all two-byte patterns and walking bits, exact-size heap buffers under ASan; CRC of all two-byte and single-bit-flip messages against bitwise division; six GLONASS strings with every one-, two-bit error and byte value against a Hamming code written from its definition.", "1.2 M cases, 10 s.", "Shift and sign errors at particular positions.")
D["E01"] = ("All words to a length over nine subframes (three issues) and foreign, damaged and short ones; every field at boundary and walking-bit values; all week x transmission x reference-time combinations at the week ends. Oracle: ICD encoder/decoder and a set model of what has arrived.", "2.9 M transitions, 6 s.", "Mixing issues needs an interleaving; sign and scale errors need particular bits.")
D["E02"] = ("As E01 for I/NAV words 0-5 of two issues plus word 6, other satellites, damaged, alert and short pages, from the initial state and from every stage of a collection; every field; every 1- and 2-bit error and burst up to 24 bits.", "1 M transitions, 15 s. Six known findings (fields at the end of a word).", "as E01")
D["E03"] = ("As E01 for strings 1-5 of two superframes (three time-mark pairs), plus unrelated, damaged and short strings; fields; dates over the four-year cycle; every 1- and 2-bit error.", "1.2 M transitions, 7 s.", "as E01")
D["L01"] = ("All write histories to a length over 3 streams x 4 time steps written by the real Logger to real files (scratch directory), each read back in all reader configurations; amendment chains of up to three logs. Oracle: one queue per stream merged by time.", "285k transitions, 45 s.", "Merge and look-ahead errors need particular interleavings.")
D["L02"] = ("Crash enumeration: two streams of 0..N records, three interleavings; each file cut at every byte or missing, all pairs of cuts for the small logs. Oracle: the complete records that remain.", "41k crash states, 30 s.", "Recovery depends on the exact byte.")
D["L03"] = ("27 loggable types as fields of two-field streams of 0-3 records with distinct leaf values. Oracle: every leaf read by the repository's own Python reader through the header equals the value logged; the C++ reader gives back the same records.", "60 s, most of it compiling.", "Header and bytes come from different code.")
D["L04"] = ("Names of a contiguous key range and of the ends of the type; all ordered pairs of 38 look-alike keys written to and read from real logs.", "10 s.", "Collisions concern pairs.")
D["S01"] = ("All arrival orders over 7 reference times to a length for three systems, each followed by 72 queries; almanacs of 9-40 entries followed by late, repeated and in-between ephemerides. Oracle: map from reference time to last message.", "20 s.", "Search and replacement errors need orders and in-between queries.")
D["S02"] = ("All words over 7 messages in three systems from empty, partly filled, full and overflowed managers. Oracle: FIFO map.", "15 s.", "Eviction and cross-talk.")
D["S03"] = ("Lattice of eccentricity x anomaly x orbit shape x reference time x query time; all ordered pairs of queries on one state object; ephemeris replacement; receivers over the Earth for the light-time equation. Oracle: long-double ICD algorithm; Runge-Kutta integration at a finer step for GLONASS; numerical derivative for velocities.", "7 s.", "Perigee/apogee, clock reference times apart from toe, state left by an earlier call.")
D["S04"] = ("Lattice of receiver x azimuth x elevation x time of week. Oracle: long-double Klobuchar and Saastamoinen and local-frame geometry.", "5 s.", "Clamps and wrap-arounds.")
D["W01"] = ("Lattice of latitude (poles, equator and neighbours) x longitude x altitude x local offset. Oracle: long-double forward mapping; inverse by residual.", "3 s.", "Poles, quadrants, iteration.")
D["M01"] = ("All words up to length 4 (5) over 21 operations on two transforms held simultaneously as Quat, SO3, DQuat and SE3 and as a long double matrix, in value and in-place forms (x *= x included); all words up to length 3 (4) over assignments, copies and element/part writes on four dual quaternions, two of them maps onto memory, against plain arrays. Then 152 x 152 vector pairs (parallel and opposite included), 560 Euler triples, perturbed matrices for rectify. ASan/UBSan.", "34k states, 1.8 M transitions, 35 s.", "aliasing")
D["M02"] = ("Angle lattice (all branch thresholds of the four classes and their neighbours, 0, pi, 2 pi with offsets from 1e-14) x 35 axes x 4 translations x both quaternion signs, and all single-entry roundings of 385 matrices. Oracle: scaling-and-squaring power series in long double.", "221k cases, 15 s.", "branches")
D["M03"] = ("Angle lattice x 31 axes x 3 translations x both signs. Oracle: the series sum ad^k/(k+1)! in long double, its inverse, and exp(ad).", "52k cases, 17 s.", "branches")
D["U01"] = ("The real parser fed with every byte string up to 9 bytes over {B5,62,00,01,03} (empty and one-byte messages are expressible in it), every continuation of a header, every sequence of three out of 28 tokens (frames of boundary lengths, damaged frames, noise, partial headers, a frame inside a frame), in several divisions into calls; initial memory filled. Oracle: a scanner over the complete stream; content compared with a parser that saw only that frame.", "4.1 M streams, 90 M bytes, 20 s; thorough 11 bytes / four tokens.", "histories of bytes and call boundaries")
D["U02"] = ("Sequences of 20 commands and 4 receptions for five receiver generations and three initial memory contents; for the waiting calls the clock is replaced and two answers out of eight kinds arrive at every reading (also while the request is being sent).", "296k executions, 5 s; thorough one step deeper.", "schedules")
D["U03"] = ("The gatherer's own listener classes on the real parser, logger and log reader, with the wall clock and serial port replaced; all interleavings of message streams, all sequences of three out of 16 messages, acceptance limits, all signals and slots, all measurement counts.", "9.6k logs, 45 s; thorough adds three satellites at once and one more message.", "interleavings")
D["C01"] = ("The real Config on documents built from an own tree type that is also the oracle: every value of a set in every place of the shapes, every path (through maps, lists, plain values and nothing), every type, required and not, asked forwards and backwards; the end of the program through check() is intercepted.", "2k documents, 2.2M lookups, 75 s on eight cores; thorough takes every pair of values.", "combinations of document shape, path and type")
D["G01"] = ("Every well-formed expression over a small alphabet of blocks, scalars, zero and identity up to four leaves, every sum of up to four products, and products of block matrices for every sparsity, built with the repository's classes in every operator order; rendered text and reduced form are both evaluated on integer matrices and compared with the value of the operation tree. Operands are compared before and after; equality is compared with equality of values; a time limit finds endless reductions.", "157k expressions, 13 s; thorough 4.6 M, 8 min.", "coincidences of factors, signs and multiplicities. Seven defects found and repaired.")
D["K01"] = ("vlib/ekfcfg.py writes, for a filter description, the glue that fills and reads the generated types block by block; the generator and the glue are run and compiled for four small descriptions (no variable states; variable states coupled to all others; rotations and poses; everything coupled) and the two of the repository. harness/ekf/core.h then explores all sequences of predictions (two time steps) and updates (every measurement, every element count) to depth 3 for every size of every variable state, in lock-step with a dense filter, on painted memory and stack.", "106k transitions, 64k states, 100 s cold (most of it compiling); thorough depth 4 and more sizes of the large filters.", "sizes x sequences x leftovers. Eleven defects of the generator found and repaired.")
D["K02"] = ("Same machinery: every measurement of every filter at sizes of states and measurements is offered with residuals scaled to 0, 1/4, just inside, just outside, 4 and 100 times the gate, and with a NaN or an infinity in each place (residual, covariance, jacobian, state derivative, process and input noise, time).", "16k transitions, 105 s cold (compiling).", "thresholds and faults. Two defects found and repaired.")
D["G02"] = ("The real generator is run in a process whose set type iterates in an order chosen by the explorer (every permutation of up to four elements, all rotations of larger sets), and under a range of hash seeds, for six descriptions; the files must be identical byte for byte. The self-test the generator writes beside the filter is left out (it comes from a test file of the repository, which stays as it is, and still depends on the seed).", "192 runs, 29 s; thorough 2100 runs.", "nondeterminism of the generator. One defect found and repaired.")
D["K03"] = ("Stateless depth-first exploration of the real `RtkEkfEstimator` around the real generated filter (the estimator is copied at every branch). Alphabets of (kind, time) are closed under every order of arrival: ties, jitter below the time quantum, times around the initial state, a window of several seconds with stale measurements, observations of unknown satellites and bundles larger than the filter. After every arrival the estimator is compared bit for bit with a reference that keeps the oldest retained snapshot and a sorted list of measurements and starts over from it. Process and measurement models are stand-ins whose operations do not commute, so any measurement applied twice, skipped, or out of order changes the result.", "355k transitions, 115k states, 90 s cold (60 of them compiling); thorough one level deeper.", "arrival interleavings. Five defects found and repaired (a measurement applied twice after a late arrival of the same time, also emptying the state buffer; all observations treated as GPS; re-initialisation; more than 30 observations; an IMU sample within the time quantum ended the process).")
D["K04"] = ("Every sequence is fed to two real `RtkEkfEstimator`s around the real generated filter, one of them with a real `Logger`; the log is read back and compared, record by record, with the residuals that the generated `update` gives when the same measurements are applied in order of time (satellites evaluated afresh for each). A measurement that a late one makes the estimator apply again is logged again: its last record is the one compared. Process and measurement models are stand-ins whose residuals depend on state, input, satellite and measurement.", "9k states, 54k transitions, 100 s cold (mostly compiling); thorough one arrival deeper.", "which residual goes with which satellite and time, after late arrivals and for bundles of none to 30.")
D["J01"] = ("The real models of `rtk_ekf_impl.cxx`, called on states and measurements built from lattices of attitudes (the 24 of the cube and generic ones), Earth attitudes, positions, lever arms, velocities and rates; for observations every list of up to three over the three systems and one satellite each, and lists up to the filter's capacity. Value and every column of the Jacobian are compared with `harness/dual.h`: the geometry in long double, differentiated in forward mode along the error coordinates of the filter.", "335k states, 18 M comparisons, 85 s cold (mostly compiling the generated filter).", "attitudes, lever arms and lists away from the trivial ones. Known finding: the Earth-rotation part of the Doppler has the wrong sign.")
D["J02"] = ("State derivative, both Jacobians and `errorStateDynamics` at every point of the lattice against a rigid body in long double with forward-mode derivatives; then motions of constant rate and acceleration whose exact solution is known are fed as IMU inputs to the generated `predict` at two step sizes.", "20k states, 34 M comparisons, 90 s cold (mostly compiling).", "frames. Three defects found and repaired (gravity rotated the wrong way, rotation of the velocity's frame left out, Jacobian entries missing).")
D["I01"] = ("Lattice of motions against the exact solution at two step sizes; residual and Jacobians against re-integration with changed biases and central differences along right tangents; then every word of sample spacings (one time quantum, 1.3 ms, 10 ms) up to length 5 with every split time of a grid on both sides of every sample, pairs of splits, and parts that go on integrating. Words of changing rates (turning about a fixed axis, speeding up along a line) against the exact integral, with every split; covariance against the sum of the numerically differentiated noise of every step.", "330k states, 2.2 M transitions, 43 s; thorough length 6.", "branch choice at splits, attitudes away from the identity. Three defects found and repaired.")
D["F01"] = ("The real factor with a satellite stand-in whose orbit and light time are exact, over the full product of the lattices; residual whitened with the Cholesky factor of the covariance computed by the harness; derivatives in forward mode.", "25k factors, 1 s after compiling.", "correlated noise, lever arms, origins. One defect found and repaired; the sign of the Earth-rotation term in the Doppler is a known finding.")
D["A01"] = ("Covariances are built from exactly representable factors (every combination of a set of correlations and conditional variances), so the oracle knows the exact factors and enumerates integer vectors by distance in the original order, in long double, without reduction. The code gets the covariance itself, or one mixed by every word of elementary integer operations up to a depth (strongly correlated ambiguities whose answer is known by transforming back). `reduction` and `search` are checked by their contracts as well; indefinite and semidefinite covariances must be refused.", "2.8 M problems, 14 M runs of the code, 40 s; thorough 16 M problems, 155 s.", "pruning. Two defects found and repaired.")
D["F02"] = ("The real factor around a satellite stand-in with exact orbit and light time, over the product of the lattices; change of range and its forward-mode derivative in long double.", "108k points, 5.9 M derivatives, 10 s.", "frames, lever arms, units. Known finding: metres are multiplied by the wavelength where they should be divided (pinned by the tests of the factor).")
D["F03"] = ("Pose factor: the residual is followed from the anchor by a matrix exponential in long double and has to arrive at the pose, with both signs of the pose's quaternion; Jacobian against central differences along right tangents. Clock factor: formulas evaluated exactly on a lattice of intervals and values.", "220k factors, 8 s.", "branches of the logarithm and the sign of the quaternion. One defect found and repaired.")
D["D01"] = ("The real sensors are sampled at every point of the product of attitudes, twists, rates, positions, biases, lever arms, origins and clocks; satellites are stand-ins with exact orbits, so range, Doppler and phase follow in long double. Every word of sampling intervals up to length 6 is run at several rates and all sixteen noise mixes against an integer schedule; every mix of four levels of each of the three GNSS noises and of three levels of clock walk and initial clock is compared, observable by observable, with the same receiver without noise; every log of up to two ephemerides (12 symbols) against every schedule of steps; every word of steps of the whole simulator, from memory filled two ways and beside a twin car driven by the same controllers.", "61k states, 2.6 M transitions, 16 s; thorough: words up to 8, logs up to 3.", "frames, the rotating body, the instants at which things are due, memory that was never written. Seven defects found and repaired; the Earth-rotation sign of the Doppler is the known finding of J01 and F01.")
D["D02"] = ("All words of up to three (measurement, set point) pairs (25 symbols) for twelve gain sets, constant and changing time steps, both derivative sources, with the law in long double until it saturates and the anti-windup rule afterwards; all words of positions around the waypoints; all bearings against all headings; products of torques, masses, geometries, commands and initial speeds for the car, and circles at constant rates.", "53k states, 9.9 M transitions, 9 s; thorough: one step deeper.", "histories: saturation followed by a change of sign, time steps that change, waypoints reached one after another. One defect found and repaired.")
D["P01"] = ("The tool's own `main()` is compiled into the harness and run for every word of up to four ticks over nine contents, every variant of the configuration over four histories (and the shipped configuration), and every pair of ephemerides out of systems and ages; logs are real ones in a scratch directory. The filter is the real one, with a subclass put in its place which records how it is started and what it is handed. The harness's own record of the log says what should have been handed over; the written log is decoded by its header and has to be a subsequence of the states the filter was in.", "7.9k runs, 135 s cold (80 of them compiling); thorough one tick deeper.", "epochs assembled across ticks, late observations, refused epochs. Seven defects found and repaired.")
D["J03"] = ("Every word of five operations on two error states and three on three (12 kinds: writes through the whole, through parts and elements, copies, assignments, expressions, swaps, containers, destruction of the original), all on the heap, compared element by element with plain arrays under ASan. Plus and minus over the lattice of attitudes, positions, directions and angles up to pi against rotation matrices in long double, and between all pairs of the states reached. RK4 against the method in long double over sign patterns of a quadratic system.", "400k states, 40 M transitions, 32 s; thorough four on three.", "aliasing after copies. One defect found and repaired.")
D["P02"] = ("The tool's own `main()` is compiled into the harness and run for every set of none, one, two, all but one and all of the 19 keys of its configuration, with two values each, from painted memory; for all steps, lengths, rates and logs of ephemerides; and with an interrupt raised in every step. The simulation is the real one, with a subclass put in its place which records its options, steps, samples and observations; the log is compared with that record field by field, and runs without noise are repeated with the random generator elsewhere.", "1.2k runs, 25 s (compiling included); thorough: triples of keys, 60 interrupts.", "keys left out, interrupts. Three defects found and repaired (an uninitialised lever arm, input noise that could not be configured, an interrupt that lost the log).")
D["L05"] = ("A C++ harness writes, with the real Logger, every history in the bounds (chains of one to three logs amending each other with every choice of three streams in each; folders with every choice of three logs and of eight kinds of strays; streams cut at every byte) and opens every one under every spelling of its name with the real LogReader, under ASan; it notes what was logged. The repository's own Python reader then opens the same names. Both are compared with the history: streams, records, start and end, refusal when there is no log. One reader opens every sequence of three logs.", "1.1k histories, 5.6k openings, 25 s.", "a trailing slash, strays that look like logs, empty logs, reuse of a reader. Three repairs (five defects) found by it.")

D["V01"] = ("print.cxx and check.cxx are compiled for each of the five log levels. For each, every pair of messages (five functions, three forms, twelve texts) is printed with stdout and stderr captured, and must appear exactly as formatted, with the caller's file and line, on its stream and nowhere else; check and weak_check are run in children with every text. Results (five value types): every word of four operations of twelve kinds on two variables against a model. RETURN_IF_NOT_OK and RETURN_OR_ASSIGN: every outcome of three steps that count their calls. Collections: every order of four items, with bases at different offsets. All under ASan and UBSan.", "14k states, 443k transitions, 40 s.", "levels and repeated evaluation, which no test looks at. Two defects found and repaired.")

D["U04"] = ("For each message a table of name, offset, width and kind, written from the interface description, is compared with what a listener reads through the structures after the frame went through the real parser: all block counts, and every byte replaced by every value over three backgrounds. Named messages are subscribed to and every identifier of every class is fed; named keys are configured and the bytes on the wire inspected; flags are compared on every 16-bit value.", "545k frames and names, 88 M fields, 10 s; thorough every value in long messages too.", "sign and width of single fields. Two defects found and repaired.")

D["F04"] = ("The real states, factors and graph. Every kind of factor is made over every choice out of two states of each kind (the same one in two roles included); then every component of every state is written, through the member and through the state's data, and every view of the factor and all other components are compared. All sequences of attachments of factors to states; every set of options of a new graph over values and times, the options changed afterwards.", "2k states, 109k comparisons, 10 s.", "roles mixed up, aliases. No defect found.")

D["U05"] = ("The system clock is replaced by one the harness sets; what the bar prints is captured and read back: glyphs counted, stamps decoded field by field, rates and speeds compared with exact quotients. Every duration of an alphabet around the carries of the stamp (1 ms to 400 days) x eight totals x seven shares of the work x four widths; every word of four calls over twelve (progress, time passed) pairs for both constructions, five themes, three ways of giving times, on memory filled two ways.", "69k states, 2.6 M calls, 12 s; thorough words of five, 37 M calls.", "durations of days and unfinished estimates. One defect found and repaired.")

D["T04"] = ("Every instant of the alphabets is printed, formatted and converted; the text is read back by a parser that knows the calendar by counting years, and must name the instant to the millisecond. ASan/UBSan.", "1 M instants, 9 s.", "times without a date, small millisecond parts. One defect found and repaired.")

D["N01"] = ("The helpers themselves (compute_jac on either side with several steps, left_jac, right_jac and their variants into and out of vectors) are run on the four pose types over the full product of attitudes, positions and constants for the identity, inverse, translations, square, constants, points turned, and exponentials, whose derivatives are adjoints and series summed in long double; and on affine and quadratic maps between vectors of several dimensions.", "2.5k states, 110k Jacobians, 10 s and compiling; thorough: the cube group and 24 generic attitudes.", "the side of a perturbation, which symmetric examples do not show. No defect found.")

D["X01"] = ("The real helpers. Every pair of thirteen bounds and every shape up to 4 x 3 is drawn from 1500 times from the generators' fixed seeds: bounds kept, and filled to a tenth; every text up to a length over five characters is split at every separator and stripped of every set; every history of making, removing and writing over the paths of a small tree runs in a scratch folder and the whole tree is compared with a model. The draws are the bounded history of a deterministic generator, not a sample: nothing is claimed of their distribution beyond bounds.", "741k states, 2.8 M operations, 29 s.", "widths which are not whole numbers, separators at ends, parents. One defect found and repaired.")

D["F05"] = ("All model sources are linked into one program. Each of five kinds of factor is built in poisoned memory from arguments on the heap; every word over changing each argument, overwriting all of them, copying and destroying the original, moving, making and discarding a copy that goes its own way, giving the satellite a new ephemeris or removing it, linearising again at three positions, and for inertial factors integrating, finishing and splitting, is followed by evaluating residual and Jacobians at fixed points in every combination of outputs over two fillings of memory, and compared with a factor that was left alone.", "19k histories, 620k evaluations, 25 s.", "data that the caller still owned, sharing between copies, stale caches, and names shared between source files. Two defects found and repaired; F01, F02, F03 and I01 now link all factors too.")

D["P03"] = ("The tool's own main() runs in the check's process on logs written by the library's own writer into a scratch folder; what it prints is captured and every entry is compared with the record it stands for.", "2.4k logs, 16 s.", "the threshold to the microsecond in both directions, ages of years, systems and satellite numbers, logs without entries.")
