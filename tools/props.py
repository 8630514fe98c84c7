"""The properties, their checks' levels, and what is not claimed. gen_meta.py turns this into properties.jsonl and MANIFEST.json."""
MC, EX = "model_checking", "exploration"
PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, technique, level, note, observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=[{"crash points":"crash_points"}.get(over, over)], qtext=qtext, why=why, files=files, mech=mech, technique=technique,
                      level=level, note=note, observe=list(observe)))
SEQ = "explicit-state exploration of all operation sequences to a depth on the real code, against a reference model"
GRID = "bounded exhaustive enumeration of an input lattice on the real code, against an independent reference"

P("T01", "Instants are exact and totally ordered",
  "A UTCTime is an exact instant: however it was reached (construction from seconds and nanoseconds of either sign, addition and subtraction of instants, integer or floating-point seconds, in-place or not), 0 <= nsec < 1e9 and the value is the exact sum; == != < <= > >= form one total order that agrees with the instant, and + and - are inverse to each other.",
  "histories", "every sequence of arithmetic operations from boundary instants to the explored depth", "Unit tests sample a few sums; carries, borrows and sign changes only go wrong for particular combinations of nanosecond parts and signs reached by particular sequences.",
  ["common/utctime.h", "common/utctime.cxx"], [("wrapNsec / operators", "common/utctime.cxx")], SEQ, MC, "BFS with exact 128-bit model; every operator on every reached pair", ["UTCTime operators"])
P("T02", "GNSS week/time-of-week, calendar and UTC conversions are exact and inverse",
  "Converting a GPS or Galileo (week, time of week in ms), a GLONASS (week, ms) or a calendar date and time to UTCTime gives the exact instant in the library's time scale, for every week and every millisecond of it; GpsWeek/GpsTow/GlonassWeek/GlonassDayOfWeek invert it; fromGlonassTimeOfDay gives the instant with that GLONASS time of day which is closest to the reference; and the GPS and GLONASS times of one physical instant give one UTCTime.",
  "inputs", "all weeks 0..4095 with boundary times of week, all seconds of nine weeks, all days 1970-2105, a lattice of references and times of day", "Rollovers (week, day, leap year, millisecond part) fail only at particular values among millions.",
  ["common/utctime.h", "common/utctime.cxx"], [("fromGPS/fromGlonass/fromGalileo/fromCalendar/fromGlonassTimeOfDay", "common/utctime.cxx")], GRID, EX, "independent day-count arithmetic is the oracle; the 36 s offset between scales is a known finding")
P("T03", "Quantized times compare consistently at every offset",
  "Two QuantizedTimes are equal exactly when they lie within half the time quantization of each other; otherwise they are ordered as the instants are; exactly one of <, ==, > holds for every pair and <=, >=, != agree with them.",
  "inputs", "every nanosecond offset around the resolution boundary from boundary instants (thorough: every offset within three resolutions)", "The verdict changes at one nanosecond among 1e5; samples miss it.",
  ["common/quantized_time.h", "common/quantized_time.cxx"], [("comparison operators", "common/quantized_time.cxx")], GRID, EX, "exactly half the resolution is left open, consistency is still required")
P("B01", "The circular buffer is a bounded deque",
  "After any sequence of push_back/push_front/pop_back/pop_front/clear/copy/assignment/indexing, a CircularBuffer holds exactly the elements a double-ended queue of the same capacity would (pushing into a full buffer drops the element at the other end as documented), iterates and indexes them in order, and constructs and destroys each element exactly once; copies are independent of their source.",
  "histories", "all words over 17 operations on two buffers from every rotation and fill of capacities 1-3", "Wrap-around, self-overlap and lifetime errors need a particular rotation, fill and operation sequence.",
  ["common/circular_buffer.h"], [("CircularBuffer", "common/circular_buffer.h")], SEQ, MC, "std::deque model plus per-object lifetime ledger, ASan/UBSan")
P("B02", "Bit fields, CRC-24Q and the GLONASS check judge exactly the bits they name",
  "getbitu/getbits/getbit-style access returns the big-endian unsigned or two's-complement value of exactly the named bits for every position and length up to 32, without touching bytes outside the field, and the CRC-24Q of a message equals the polynomial division bit by bit, for every length; the GLONASS string check accepts exactly the strings whose Hamming syndrome and overall parity are clear or name a damaged check bit.",
  "inputs", "lengths 1..32 at every bit position 0..23 over constant, walking and all two-byte patterns; all two-byte and single-bit messages; GLONASS strings with every one- and two-bit error and every value of every byte", "Off-by-one shifts and sign extensions show only for particular positions, lengths and bit patterns.",
  ["common/ephemeris/bit_tools.h", "utils/crc.cxx", "utils/crc.h"], [("bit access", "common/ephemeris/bit_tools.h"), ("crc24, gloTest", "utils/crc.cxx")], GRID, EX, "bit-by-bit reference; heap buffers of exact size under ASan")
P("E01", "A GPS ephemeris is delivered only complete, of one issue, correctly decoded",
  "Whatever sequence of GPS navigation subframes arrives (any order, repetitions, interleaved issues of data, foreign, damaged-preamble-free or short words), parse() reports an ephemeris only when it holds subframes 1, 2 and 3 of one and the same issue of data that arrived since the last report, and does report when all three arrive one after another; its fields are exactly the scaled values transmitted, and toe, toc and time of transmission are resolved to the right week, also across the end of a week.",
  "histories", "all sequences to a length over nine subframes of three issues plus foreign and short ones; every field at boundary and walking-bit values; week-boundary combinations", "Mixing two issues needs a particular interleaving; scale and sign errors need particular bit values; week errors need times around the week end.",
  ["common/ephemeris/gps.cxx", "common/ephemeris/gps.h"], [("GPSEphemeris::parse/frame1/frame2/frame3", "common/ephemeris/gps.cxx")], SEQ, MC, "ICD reference encoder/decoder; message sequences exhaustive to the depth")
P("E02", "A Galileo ephemeris is delivered only complete, of one issue, correctly decoded",
  "Whatever sequence of Galileo I/NAV pages arrives, a page with a wrong CRC, an alert page, a page too short or one of another satellite changes nothing; parse() reports an ephemeris only when it holds words 0 to 5, words 1 to 4 with one issue of data, that arrived since the last report, and does report when all six arrive one after another starting with word 2; its fields are exactly the scaled values transmitted.",
  "histories", "all sequences to a length, also from every stage of a collection, over the words of two issues plus foreign, damaged, alert and short pages; every field at boundary and walking-bit values; every 1-, 2-bit and burst error", "Mixing issues needs an interleaving; field errors need particular bits; damage detection needs every error position.",
  ["common/ephemeris/galileo.cxx", "common/ephemeris/galileo.h"], [("GalileoEphemeris::parse", "common/ephemeris/galileo.cxx")], SEQ, MC, "six known findings: the last 16 bits of a word are taken from behind the CRC, as the tests pin")
P("E03", "A GLONASS ephemeris is delivered only complete, of one frame, correctly decoded",
  "Whatever sequence of GLONASS strings arrives, a string with a wrong Hamming code or too short changes nothing; an ephemeris is reported only when strings 1 to 5 of one frame (one time mark) are held, and is reported when string 5 arrives right after strings 1 to 4; position, velocity, acceleration, clock and time fields are exactly the transmitted sign-magnitude values, and toe is the transmitted time on the transmitted day.",
  "histories", "all sequences to a length, also from every stage of a collection, over the strings of two superframes plus unrelated, damaged and short ones; every field at boundary and walking-bit values; dates over the four-year cycle; every 1- and 2-bit error", "Sign-magnitude, day-count and mixing errors show only for particular values, days or interleavings.",
  ["common/ephemeris/glonass.cxx", "common/ephemeris/glonass.h"], [("GlonassEphemeris::parse/convertTime", "common/ephemeris/glonass.cxx")], SEQ, MC, "ICD reference encoder/decoder")
P("L01", "What is logged is what is read back, in time order",
  "For every history of records logged to any set of streams, the log reader delivers every record exactly once, with the time stamp, key and bytes written, in time order across streams (write order within a stream) to the callbacks registered; per-stream reading, stream subsets, maintenance callbacks, amended logs, start/end times and the latest-log lookup agree with what was written; misuse is refused.",
  "histories", "all write histories to a length over 3 streams x 4 time steps, all reader configurations, amendment chains of up to 3 logs", "Merging, look-ahead and end-of-stream errors need particular interleavings of streams and times.",
  ["common/logging/log_writer.h", "common/logging/log_reader.h", "common/logging/log_reader.cxx", "common/logging/log_writer.cxx"], [("Logger::log", "common/logging/log_writer.h"), ("LogReader::readCallback/getNext", "common/logging/log_reader.h")], SEQ, MC, "real files, queue model of the log")
P("L02", "A log cut short at any byte gives back every complete record, and reading ends",
  "If a stream file of a log ends early at any byte (crash, full disk) or is missing, reading terminates, delivers every complete record of every stream in order, delivers nothing whose time stamp is incomplete, and makes up no records.",
  "crash points", "two streams, three interleavings, each file cut at every byte or missing, including pairs of cuts", "The behaviour depends on the exact byte at which the file ends.",
  ["common/logging/log_reader.h", "common/logging/log_reader.cxx"], [("StreamReader / readNext", "common/logging/log_reader.cxx")], "exhaustive crash-point enumeration (every truncation of the write history) on the real reader", MC, "the torn tail record's payload is unconstrained")
P("L03", "The stream header describes exactly the bytes of the stream",
  "For every loggable type (scalars, strings of fixed size, Eigen matrices, times, quaternions, measurements, ephemerides of all systems, nested and in combination) the header written with a stream describes precisely the fields, types, sizes and order of the bytes written, so that the Python reader returns the same value for every leaf that was logged and the C++ reader reads back the same record.",
  "inputs", "every loggable type as a field of several streams, several records with distinct values per leaf", "The header and the bytes are produced by separate code; they disagree only for particular types, and only another reader notices.",
  ["common/logging/log_format.h", "common/logging/log_format.cxx", "common/logging/serialize.h", "common/logging/serialize.cxx", "common/logging/log_reader.py"], [("header generation", "common/logging/log_format.h"), ("log_reader.py", "common/logging/log_reader.py")], "bounded exhaustive enumeration of types and records, cross-checked between writer, C++ reader and Python reader", EX, "leaf-by-leaf comparison")
P("L04", "Distinct stream keys never share a file",
  "For every pair of distinct stream keys the logger uses distinct files, and each stream gives back its own records.",
  "inputs", "a contiguous range of keys and the ends of the type; all ordered pairs of 38 look-alike keys in real logs", "Name collisions concern particular pairs of keys.",
  ["common/logging/log_writer.h", "common/logging/log_writer.cxx"], [("stream names", "common/logging/log_format.cxx")], GRID, EX, "names and real files")
P("S01", "The almanac keeps the latest ephemeris per toe and answers with the closest",
  "Whatever order ephemerides of a satellite arrive in, its almanac holds exactly one per reference time, the one that arrived last; findClosestEphemeris returns one whose reference time is closest to the time asked; ephemerides of another satellite or system are refused.",
  "histories", "all arrival orders over 7 reference times to a length, for the three systems, each followed by 72 queries", "Replacement, insertion and search errors need particular orders and queries between particular reference times.",
  ["common/satellite/satellite.h"], [("Satellite::addEph/findClosestEphemeris", "common/satellite/satellite.h")], SEQ, MC, "map model")
P("S02", "Every ephemeris reaches its own satellite; only the oldest satellite makes room",
  "Whatever sequence of ephemerides of GPS, GLONASS and Galileo satellites arrives, the satellite manager hands out for every system and number exactly the satellite that received exactly those ephemerides; unknown satellites and unsupported systems are reported as errors; when a system's table is full, only the satellite discovered first is dropped.",
  "histories", "all words over 7 messages in three systems from empty, partly filled and overflowing managers", "Cross-talk and eviction errors need particular mixes and fills.",
  ["core/sat_manager.h", "core/sat_manager.cxx"], [("SatelliteManager", "core/sat_manager.h")], SEQ, MC, "FIFO map per system")
P("S03", "Satellite states follow the broadcast models and the light-time equation",
  "For every valid ephemeris and every time within its validity the satellite position is that of the interface document's user algorithm (GPS, Galileo) or of the integrated equations of motion (GLONASS); the velocity is the derivative of the position; the clock offset and drift follow the broadcast polynomial (with the relativistic term in the offset); the result does not depend on earlier queries or ephemerides; a GPS or Galileo ephemeris more than two hours from its reference time is refused. SatelliteCache::update finds the satellite where it was when the signal left (within millimetres), with the Sagnac and atmospheric terms of that satellite, receiver and time.",
  "inputs", "lattice of eccentricities, anomalies, orbit shapes, reference times of week, query times; all pairs of an earlier and a later query; receivers over the whole Earth", "Errors hide at perigee/apogee, at clock reference times other than toe, in the sign of time, in particular terms, or in state left by an earlier call.",
  ["common/satellite/satellite_state.cxx", "common/satellite/satellite_cache.cxx"], [("eph2Sat", "common/satellite/satellite_state.cxx"), ("SatelliteCache::update", "common/satellite/satellite_cache.cxx")], GRID, EX, "independent long-double ICD implementation; all ordered query pairs")
P("S04", "Look angles and atmospheric delays follow their models everywhere",
  "For every receiver position, direction and time, azimuth and elevation are the geometric ones in the local level frame (also near the poles and the date line), the tropospheric delay is Saastamoinen's (zero below the horizon and outside the model's heights) and the ionospheric delay is Klobuchar's with all its clamps.",
  "inputs", "lattice of latitudes x longitudes x heights x azimuths x elevations x times of week", "Clamps, wrap-arounds and hemispheres each affect only part of the input space.",
  ["common/satellite/azel.cxx", "common/satellite/atm_correction.cxx"], [("los2AzEl/getAzEl", "common/satellite/azel.cxx"), ("computeIonosphericDelay/computeTroposphericDelay", "common/satellite/atm_correction.cxx")], GRID, EX, "independent long-double formulas")
P("W01", "Geodetic, earth-fixed and local-level coordinates name the same point",
  "For every point from 11 km below the surface to geostationary height, at every latitude (poles and equator included) and longitude, lla2ecef is the WGS-84 mapping, ecef2lla inverts it, the local level frame at a point has its axes north, east and down, and ned2ecef/ecef2ned/ned2lla/lla2ned are consistent with it and inverse to each other, in both call forms.",
  "inputs", "lattice of latitudes x longitudes x altitudes x local offsets", "Iteration, pole and quadrant errors affect only particular regions.",
  ["utils/wgs84.cxx", "utils/wgs84.h"], [("WGS84", "utils/wgs84.cxx")], GRID, EX, "independent long-double forward mapping")
P("M01", "All rotation and pose types hold the same transform under every operation",
  "Through every sequence of products, inverses, in-place updates, copies, assignments and swaps, Quat, SO3, DQuat and SE3 represent the same rigid transform (in the library's passive convention): composition, inverse, rotp/rota/transformp/transforma and the conversions between the types, matrices, axis-angle, Euler angles and vector pairs (parallel and opposite ones included) agree; copies are independent of their source, objects mapped to memory write through, and the parts of a dual quaternion are always its own numbers.",
  "histories", "all words over 21 operations on two transforms, all words over copies and writes on four objects, vector pairs and Euler angles on a lattice", "Aliasing (x *= x, copies of maps) and branch-dependent conversions go wrong only for particular sequences and elements.",
  ["common/math/quat.h", "common/math/so3.h", "common/math/dquat.h", "common/math/se3.h"], [("Quat / SO3 / DQuat / SE3", "common/math/quat.h")], SEQ, MC, "long double matrices in lock-step; ASan/UBSan")
P("M02", "exp and log of rotations and poses are the matrix exponential and its inverse",
  "For every tangent vector, Quat/SO3/DQuat/SE3::exp (every overload) is the matrix exponential, and log of every element (either sign of a quaternion, every angle including 0, pi and the neighbourhoods of all branch points, matrices off by a rounding error) is finite and exponentiates back to that element; log is the rotation the short way round, and below pi returns the argument of exp.",
  "inputs", "angles around every branch point and around 0, pi and 2 pi x 35 axes x translations up to 1e6 x both signs", "Series, branches and sign choices are wrong only in small neighbourhoods that random elements miss.",
  ["common/math/quat.h", "common/math/so3.h", "common/math/dquat.h", "common/math/se3.h"], [("exp/log", "common/math/quat.h")], GRID, EX, "power series in long double; 1e-13 for quaternions, 2e-6 for SO3 within 2e-4 of pi (acos)")
P("M03", "Jacobians of exp and log and the adjoints are the derivatives they stand for",
  "For every element, the left and right Jacobians returned by exp and log of Quat, SO3, DQuat and SE3, their adjoints Ad, and the Jacobians between parameters and generators (dParamDGen, dGenDParam) equal the derivatives they are named for, also at zero, at half a turn and around every branch point.",
  "inputs", "angles around every branch point and around 0 and pi x 31 axes x 3 translations x both signs", "A solver with a wrong Jacobian still converges on the cases tests use; wrong branches are rarely taken.",
  ["common/math/quat.h", "common/math/so3.h", "common/math/dquat.h", "common/math/se3.h"], [("exp/log with Jacobian, Ad, dParamDGen, dGenDParam", "common/math/quat.h")], GRID, EX, "series of the adjoint in long double")
P("U01", "Any byte stream is cut into exactly the intact UBX messages it contains",
  "For every byte stream, however it is divided into calls, the parser hands each listener exactly the messages it subscribed to that occur intact in the stream (both sync bytes, length up to the buffer size, both checksum bytes right), once, in order, with class, identifier and payload unchanged and nothing left over from earlier traffic; payloads may be empty; damaged, over-long or interrupted messages are skipped without blocking or crashing, and scanning resumes after them.",
  "histories", "all byte strings over a small alphabet; all sequences of frames, damaged frames and noise; all one- and two-bit damage; all lengths", "Framing errors need a particular byte sequence (sync bytes inside noise, empty payload, stale buffer) or call boundary.",
  ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h", "parsers/ubx/ubx_defs.h"], [("Ubx::receive_callback / decodeMessage", "parsers/ubx/ubx.cxx")], SEQ, EX, "independent frame scanner over the whole stream; ASan/UBSan")
P("U02", "Receiver commands are well formed and answers are attributed correctly",
  "Whatever was sent or received before, every configuration command puts on the wire exactly the UBX message its documentation describes (header, length, payload with all other fields zero, checksum), in the form the receiver generation understands; getVersion (and waiting for an acknowledgement) succeeds exactly when a matching, intact answer to this request arrives within the time limit, ends at the limit otherwise, and reports the version and module name of that answer.",
  "schedules", "all sequences of commands and receptions; every arrival time of two answers; every place and size of the version strings", "Stale buffers, uninitialised members and answers that come early or twice show only in particular orders.",
  ["parsers/ubx/ubx.cxx", "parsers/ubx/ubx.h", "parsers/ubx/ubx_defs.h"], [("Ubx commands, getVersion", "parsers/ubx/ubx.cxx")], SEQ, EX, "wire images written from the interface description; controlled clock")
P("U03", "The gatherer logs exactly the completed ephemerides and supported observations",
  "For every interleaving of the navigation and observation messages of several satellites and systems, the log contains exactly one ephemeris record per completed issue of each satellite whose reference time lies within two hours of now, and one record per received observation of a supported signal, with the right satellite, time, carrier frequency and units; messages of one satellite never affect another.",
  "histories", "all interleavings of the messages of two or three satellites; all short message sequences; all signals and frequency slots", "Mixed-up satellites need interleaved subframes; unit and slot errors need particular signals.",
  ["tools/gather_ephemeris.cxx", "parsers/ubx/ubx_defs.h"], [("Listener, ObsListener, Accumulator", "tools/gather_ephemeris.cxx")], SEQ, EX, "per-satellite decoders fed separately; independent frequency table; log read back")
P("C01", "A configuration lookup returns the value in the document or leaves all as it was",
  "For every configuration document, slash-separated path and value type, Config::get returns true and the value written at that path exactly when the document has a value there that is one of the type asked for (plain values, lists of them, vectors and row-major matrices of exactly the right number of elements); otherwise it returns false and the output keeps its value; a required value that is missing or unusable stops the program; a lookup never throws, never changes the configuration and does not depend on earlier lookups; a matrix written to a configuration is read back as written.",
  "inputs", "all shapes of small documents with 29 values in each place, ten paths, fourteen types, required or not", "Paths through plain values, elements of the wrong type and lists of the wrong length are rare combinations of document, path and type.",
  ["utils/config.h", "utils/config.cxx", "utils/split_string.cxx"], [("Config::get", "utils/config.h"), ("convert<Eigen::Matrix>", "utils/config.h")], GRID, EX, "own document tree is the oracle; ASan/UBSan")
P("G01", "Simplifying a symbolic block expression never changes its value",
  "For every expression the generator's algebra can build from blocks, zeros, identities and scalars with products, sums, differences, negation and transposition, the result it renders and the result of reducing it have the value of the expression; reducing ends, leaves the operands as they were, and two expressions that compare equal have equal values.",
  "inputs", "all well-formed expressions of up to four leaves, sums of up to four products, block products for every sparsity", "Factoring goes wrong for particular coincidences of factors, signs and multiplicities; the filters in the tree use a few of them.",
  ["core/ekf/ekf_gen/symb_matrix.py", "core/ekf/ekf_gen/symb_algebra.py", "core/ekf/ekf_gen/symb_block_matrix.py"], [("reduce", "core/ekf/ekf_gen/symb_algebra.py"), ("Mult/Add/Transpose", "core/ekf/ekf_gen/symb_matrix.py")], GRID, MC, "exact integer matrices decide equality of values")
P("G02", "The generated filter depends on its description alone",
  "Generating a filter from the same description always gives the same code, whatever the hash seed of the interpreter and whatever order sets happen to be iterated in; in particular accessors take their arguments in the order callers pass them.",
  "configurations", "six filter descriptions x hash seeds x iteration orders of every set the generator builds", "A test runs the generator under one hash seed; whether argument orders agree is decided anew by each interpreter.",
  ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_state.py", "core/ekf/ekf_gen/ekf_gen_utils.py", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py"], [("unique / generator main", "core/ekf/ekf_gen/ekf_gen.py")],
  "exhaustive enumeration of the nondeterministic choices (set iteration orders) of the real generator, comparing outputs", EX, "set iteration is put under the explorer's control; hash seeds cover literals and comprehensions")
P("K01", "A generated filter predicts and updates as the dense Kalman filter equations say",
  "For every sequence of predictions and updates and every number of elements of the variable-size states and measurements, state, covariance, input and time of a generated filter equal those of the dense filter: x+ = x [+] f dt, P+ = A P A' + B Q B' + Q with the second-order transition matrix, K = P H' S^-1, x+ = x [+] K r, P+ = P - K (P H')'; nothing outside the active elements and nothing uninitialised takes part; box plus and minus are inverse, dense and block forms agree, copies are equal, and finiteness tests see every active element.",
  "histories", "all sequences of operations to a depth for all sizes of variable states and measurements of six filters (the two of the repository and four built to couple everything)", "Block sparsity, element counts and leftovers of earlier sizes combine; tests use one sequence at a few sizes and zeroed memory.",
  ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_state.py", "core/ekf/ekf_gen/ekf_gen_templates.py", "core/ekf/ekf_gen/ekf_gen_matrix_manip.py"], [("predict / doUpdate (generated)", "core/ekf/ekf_gen/ekf_gen_templates.py"), ("State / ErrorState / Covariance (generated)", "core/ekf/ekf_gen/ekf_gen_state.py")], SEQ, MC, "generated code compiled and run in lock-step with a dense filter; memory painted with NaN")
P("K02", "A measurement is applied exactly when it lies inside its gate and is usable",
  "A measurement is applied exactly when its Mahalanobis distance does not exceed the chi-squared quantile of its configured probability (never gated at probability 1); a gated, empty or disabled measurement leaves state and covariance untouched and reports so; a value that is not finite in anything that goes into a prediction or update, and a prediction to a time that is not later, is refused and never filtered.",
  "fault_sequences", "every measurement type of six filters x sizes x six distances around the gate; NaN and infinities in every place of the inputs", "Gates are compared at thresholds computed by the generator; faults must be caught in every one of many places.",
  ["core/ekf/ekf_gen/ekf_gen.py", "core/ekf/ekf_gen/ekf_gen_templates.py"], [("compute_max_mahal", "core/ekf/ekf_gen/ekf_gen.py"), ("update / predict (generated)", "core/ekf/ekf_gen/ekf_gen_templates.py")], GRID, MC, "thresholds from scipy's quantile; the program's end through check() is intercepted")
P("K03", "The estimate does not depend on the order in which measurements arrive",
  "Whatever the order in which IMU samples, positions, observations and fix-and-hold measurements of the last second arrive, state, covariance, input and time of the estimator are exactly those of applying every accepted measurement once, in order of time and then kind (measurements of one time sharing one state, equal ones in order of arrival); observations are evaluated against the state, receiver position, system and satellites of their time; measurements older than the oldest state kept, of an unknown satellite, or too many for the filter, are refused and change nothing; initialising again starts afresh.",
  "histories", "all arrival sequences up to depth 5 over kinds x times with ties, jitter, stale and refused measurements; all orders of a 7-measurement history; a late one at every place of a full buffer", "The result depends on the interleaving of arrivals; the tests follow a handful of them and use a filter that does nothing.",
  ["core/ekf/rtk_ekf_estimator.h", "core/ekf/rtk_ekf_estimator.cxx"], [("addMeasurement", "core/ekf/rtk_ekf_estimator.h"), ("handleImu / handlePointPos / handleObsMeas / handleFixAndHold / rollFilter / dropOldMeasurements", "core/ekf/rtk_ekf_estimator.cxx")], GRID, MC, "process and measurement models are non-commuting stand-ins; prediction and update are the generated ones")
P("K04", "The estimator logs each measurement with the residual it had",
  "For every sequence of IMU samples, positions, bundles of observations and fixed ambiguities, in order or late, each measurement applied is in the log once per application, at its own time, of its own satellite, with the residual the filter found when it applied it (after the measurements of earlier times, with the input of its time), the measured values, and a prediction that is the measured less the residual; ambiguities a measurement does not have are marked as missing; logging changes nothing in the estimate.",
  "histories", "all sequences of distinct arrivals up to length 3 (4 thorough) over kinds x times and bundle sizes, for four numbers of ambiguities", "Residual logs are what the filter is tuned by; no test reads one back, and which residual belongs to which satellite depends on bundle sizes and order of arrival.",
  ["core/ekf/rtk_ekf_estimator.cxx", "core/ekf/rtk_ekf_estimator.h", "common/logging/log.h"], [("init", "core/ekf/rtk_ekf_estimator.cxx"), ("handlePointPos / handleFixAndHold / handleObsMeas", "core/ekf/rtk_ekf_estimator.cxx")], GRID, MC, "process and measurement models are stand-ins; prediction and update are the generated ones")
P("J01", "The filter's measurement models predict what the geometry says",
  "For every state, calibration and Earth attitude, a point position, a set of GNSS observations (any mix of systems, any number) and a set of fixed ambiguities are compared with exactly what the state implies: antenna position with its lever arm, pseudorange with the clock of its system and the corrections of the reference position, Doppler of the moving and turning antenna; the Jacobian handed to the filter is the derivative of that prediction in the filter's own error coordinates and leaves out nothing.",
  "inputs", "attitudes x positions x lever arms x velocities x rates x all short lists of observations, lists up to capacity", "A wrong Jacobian or a transform applied the wrong way vanishes at the identity, for a zero lever arm or at rest, where tests sit.",
  ["core/ekf/rtk_ekf_impl.cxx", "core/ekf/rtk_ekf.yaml", "common/satellite/satellite_base.cxx"], [("h<pointPos> / h<obs> / h<fixAndHold>", "core/ekf/rtk_ekf_impl.cxx")], GRID, EX, "long double geometry with forward-mode derivatives; one known finding")
P("J02", "The filter's process model moves as a rigid body with an IMU does",
  "For every attitude, velocity, rate, acceleration and bias, the state derivative of the filter is that of a rigid body whose IMU measures specific force and angular rate in the body frame under gravity along the vertical; both Jacobians and the error dynamics are the derivatives of it in the filter's error coordinates; a filter fed an IMU record of any constant motion follows that motion, with an error that shrinks with the step.",
  "inputs", "attitudes x velocities x rates x accelerations x biases; whole motions at two step sizes", "Errors in frames vanish at the identity attitude or at rest; unit tests do not integrate motions.",
  ["core/ekf/rtk_ekf_impl.cxx", "core/ekf/rtk_ekf.yaml"], [("predict (process model)", "core/ekf/rtk_ekf_impl.cxx")], GRID, MC, "long double rigid body with forward-mode derivatives; exact motions as second oracle")
P("I01", "IMU preintegration reproduces the motion, its Jacobians and its splits",
  "For every motion, start state and bias, the IMU factor carries the start state to the end of the motion; its residual is zero there and it corrects to first order for a change of bias; its Jacobians are the derivatives of its residual for all poses; splitting a factor at any time gives two factors that join without a gap and together say what the whole said, also when one of them goes on integrating; for rates and accelerations that change from sample to sample they are taken to change evenly in between; its covariance is that of the noise of its samples carried to the end, and its information root is that of the inverse.",
  "histories", "attitudes x rates x accelerations x velocities x biases; all spacings of samples to a depth x every split time around every sample, pairs of splits", "Splits at, before and after a sample take different branches; tests split at a few times and use poses near the identity.",
  ["models/imu_model.cxx", "models/imu_model.h"], [("ImuModel::integrate / Evaluate / split", "models/imu_model.cxx")], GRID, MC, "exact motion, re-integration and numerical derivatives")
P("F01", "The pseudorange factor predicts range and range rate from the geometry",
  "For every receiver state, satellite, lever arm, linearisation origin, switch value and noise covariance (correlated ones included), the residual of the pseudorange factor is the difference between the observation and the range and range rate of the antenna including clock, Earth rotation and atmosphere, whitened by the inverse root of the covariance and scaled by the switch; the Jacobian with respect to every parameter is its derivative.",
  "inputs", "receivers x satellites x covariances x attitudes x positions x velocities x lever arms x origins x switch", "Correlation, lever arm and origin are trivial in the tests; a wrong derivative only slows convergence.",
  ["models/prange_model.cxx", "models/prange_model.h"], [("PseudorangeModel::Evaluate", "models/prange_model.cxx")], GRID, EX, "long double geometry with forward-mode derivatives; one known finding")
P("A01", "Ambiguities are fixed to the nearest integer vector, with its true ratio",
  "For every positive definite covariance and every vector of float ambiguities, lambda() returns the integer vector nearest to it in the metric of the covariance and the ratio of its squared distance to that of the second nearest, whatever the number of candidates, the correlation, the order of the ambiguities and their magnitude; reduction() yields an invertible integer transformation with ordered, size-reduced factors of the transformed covariance; search() yields exactly the nearest distinct vectors in order; a covariance that is not positive definite is refused.",
  "inputs", "all combinations of correlations, conditional variances and float values for up to five (six) ambiguities; all words of integer mixings", "Searches prune: a wrong bound or step order misses the nearest vector only for particular geometries; tests have three problems.",
  ["core/solver/lambda.cxx", "core/solver/lambda.h", "common/matrix_defs.h"], [("lambda / reduction / search", "core/solver/lambda.cxx"), ("argsort / modf", "common/matrix_defs.h")], GRID, MC, "plain enumeration of integer vectors in long double")
P("F02", "The carrier-phase factor predicts the change of phase from the geometry",
  "For every pair of receiver states, satellite, interval, lever arm, origin, clocks and switches, the residual of the carrier-phase-difference factor is the difference between the observed change of phase and the change of the range of the antenna (satellite and receiver motion, Earth rotation, clocks) expressed in the same unit, times weight and switches; the Jacobian with respect to every parameter is its derivative; observations of different satellites, systems or frequencies, and satellites without ephemeris, are refused.",
  "inputs", "receivers x satellites x intervals x attitudes x positions x lever arms x switches x origins; all combinations of mismatches", "Frames and lever arms are trivial in the tests, and units cancel when observations are made with the formula under test.",
  ["models/relative_carrier_phase_model.cxx", "models/relative_carrier_phase_model.h"], [("RelativeCarrierPhase", "models/relative_carrier_phase_model.cxx")], GRID, EX, "long double geometry with forward-mode derivatives; one known finding")
P("F03", "Pose anchors and clock ties measure true differences and differentiate them",
  "For every anchor and pose (given by either sign of its quaternion), the residual of the pose factor is the weighted twist that takes the anchor to the pose the short way round, and its Jacobian is the derivative of that; for any interval, the clock factor is zero exactly when bias, rate and switch of the second node follow from the first with an evenly changing rate, and its Jacobians are the derivatives.",
  "inputs", "anchors x directions x angles around all branches x translations x weights x signs; intervals x biases x rates x switches", "The logarithm's branches, the sign of the quaternion and the position of the anchor matter only away from the identity.",
  ["models/pose_error_model.cxx", "models/gnss_dynamics_model.cxx", "common/math/dquat.h"], [("PoseError::Evaluate", "models/pose_error_model.cxx"), ("GnssDynamics::Evaluate", "models/gnss_dynamics_model.cxx")], GRID, EX, "matrix exponential in long double, central differences")
P("D01", "Simulated sensors report what the simulated motion implies, when it is due",
  "For every motion, a simulated IMU reads the specific force and angular rate of the body plus its biases and a simulated GNSS receiver reads, for each satellite, the range, Doppler and phase of the geometry at that instant, stamped with it; each reports exactly when its period has passed, ephemerides of the log are replayed once each, in order, as soon as due; each configured noise, walk and initial clock error disturbs its own quantity, at its own scale, and no other; and a noise-free run depends on nothing but its options.",
  "histories", "attitudes x twists x positions x lever arms x clocks; sequences of sampling instants, logs and steps, under every mix of noise levels", "Tests run one trajectory at rest or do not look at the values; frames, the rotating body and the instants at which sensors are due only show over many motions and schedules.",
  ["sim/sensors/imu.cxx", "sim/sensors/gnss.cxx", "sim/sim.cxx", "sim/dynamics/dynamics.cxx"], [("ImuSim::sample", "sim/sensors/imu.cxx"), ("GnssSim::sample", "sim/sensors/gnss.cxx"), ("GnssSim::sampleGpsEph", "sim/sensors/gnss.cxx"), ("Sim::step", "sim/sim.cxx")], SEQ, MC, "geometry in long double, exact orbits, integer schedule")
P("D02", "Simulated controllers keep their limits, do not wind up and follow their way",
  "For every history of measurements and set points the PID controller's output is that of its law, within its limits, and free again as soon as the error turns round, saturation never driving the integral further; the waypoint follower takes the waypoints in order, turns towards the next one and commands speeds within its limits; the car moves as the forces on it say and reaches any commanded speed and turn rate, each driven without disturbing the other.",
  "histories", "sequences of (measurement, set point) pairs x gains x time steps; sequences of positions; torques x masses x geometries; commands x initial states", "Wind-up and the order of waypoints are properties of histories; the tests only record trajectories.",
  ["sim/controllers/pid.cxx", "sim/dynamics/car.cxx", "sim/dynamics/dynamics.cxx"], [("PID::run", "sim/controllers/pid.cxx"), ("WaypointFollower::follow", "sim/dynamics/car.cxx"), ("SimCar::compute_wrench", "sim/dynamics/car.cxx"), ("Dynamics::step", "sim/dynamics/dynamics.cxx")], SEQ, MC, "PID law in long double; anti-windup as a property of the history")
P("P01", "The post-processor feeds the filter the whole log and logs only what it found",
  "For every log and configuration, the post-processor loads every ephemeris at most two hours old before it starts the filter; starts it once, at the time, place, attitude, velocity, covariance and noise the log (simulated state) or the configuration states; hands it every IMU sample and, once complete, every epoch of observations (all of it, stamped with its time of measurement, however late it was logged) in order; goes on when the filter refuses one; and the log it writes is what its header says and contains only states the filter was in, amending the log it was made from. The configuration shipped for it can be read.",
  "histories", "all sequences of ticks (nine contents: samples, epochs of one or several systems, late, spread over stamps, with unknown satellites) to a depth; all configuration variants x histories; all pairs of ephemerides x ages", "Epochs are assembled from single records across ticks; the tool has no test at all.",
  ["tools/post_process.cxx", "config/rtk_ekf_post_process.yaml", "core/ekf/rtk_ekf_estimator.h", "core/ekf/rtk_ekf_estimator.cxx"], [("main", "tools/post_process.cxx"), ("RtkEkfEstimator::init / logging", "core/ekf/rtk_ekf_estimator.cxx")], SEQ, MC, "the tool's own main() on real logs, the filter watched through a subclass")
P("J03", "IMU states add and subtract consistently; error states are values; RK4 is RK4",
  "Whatever is done with error states of the IMU integration (copied, assigned, made from expressions, swapped, put in containers, their originals destroyed), each has the value it was given and its three parts are parts of itself; adding an error state moves positions and turns the attitude about its own axes, subtraction undoes it by the short way round for any two states and either sign of the quaternion; a Runge-Kutta step is that of the fourth-order method, with four evaluations, for vectors and for these states.",
  "histories", "all sequences of operations on two error states; attitudes x positions x directions x angles; sign patterns of quadratic systems x steps", "An aliased copy shows only when the original changes or dies first; the test copies a constant.",
  ["models/imu_state.h", "models/imu_state.cxx", "common/math/rk4.h"], [("ImuErrorState", "models/imu_state.h"), ("ImuState::operator+ / operator-", "models/imu_state.cxx"), ("RK4", "common/math/rk4.h")], SEQ, MC, "plain arrays, rotation matrices and Runge-Kutta in long double; ASan/UBSan")
P("P02", "The simulator drives what its configuration says and logs all of it",
  "For every configuration and log of ephemerides, the simulator uses every value configured and the default of every value that is not (never memory that was not written); the drive begins where the ephemerides begin, proceeds in steps of the configured length for the configured time; the log holds the motion of every step and every sample and observation, stamped with the time of the simulation, is whole, amends the log of ephemerides and ends with the drive, also when the drive is interrupted in any step; a drive configured without noise has none.",
  "configurations", "sets of configured keys x values; steps x lengths x rates x logs; an interrupt in every step", "Defaults and configured values only differ when one is left out; interrupts come at any step; the tool has no test.",
  ["sim/simulate.cxx", "sim/sim.h", "sim/sim.cxx", "sim/sensors/gnss.h"], [("main", "sim/simulate.cxx"), ("GnssSim::Options", "sim/sensors/gnss.h"), ("Sim::step", "sim/sim.cxx")], GRID, EX, "the tool's own main() with the simulation watched through a subclass; memory painted; SIGINT raised in every step")
P("L05", "Both readers open the log that was named and agree on what is in it",
  "However a log is named (its path or that of the folder it lies in, absolute or relative, with or without a trailing slash, among whatever other files and folders), the C++ and the Python reader open exactly that log, or the latest of the folder, and refuse when there is none; both then see exactly the same streams and records: those of the log, and of the logs it amends the streams it has none of its own of, also when a log has no streams, streams have no records, a stream was cut short, or the reader has opened another log before.",
  "histories",
  "chains of up to three logs; folders of up to three logs with eight kinds of strays; up to three logs opened in turn by one reader; streams cut at every byte (Python)",
  "The two readers are written twice in two languages, look the log up by different code and are tested on one or two hand-made logs each; which streams of which log come together depends on the whole history of amendments and on what else lies in the folder.",
  ["common/logging/log_reader.cxx", "common/logging/log_reader.h", "common/logging/log_reader.py", "common/logging/log_writer.cxx"],
  [("getLatestLog / LogReader::open / openLog", "common/logging/log_reader.cxx"), ("load / get_log_files", "common/logging/log_reader.py"), ("Logger::amends", "common/logging/log_writer.cxx")],
  SEQ, MC, "every log history in the bounds is written by the real Logger and read by both real readers")

P("V01", "Failures are reported once, whole and in place; results carry what was put in",
  "Every message at or above the level the library is built for is printed exactly once, whole, with the place it was written at, in order and on its stream, and no other; a check whose condition fails reports text and place at every level and ends the process with a failure, one that holds does nothing; a result holds exactly the value or the error it was given, through any copies, moves and assignments, and refuses to give the other; a chain of fallible steps takes each step once, in order, up to the first failure, which it returns; outputs and collections refer to the very objects they were made from, in order.",
  "programs",
  "five build levels x pairs of messages; checks; words of four operations on two results of five types; chains of three steps; collections of up to four items",
  "Every other guarantee that says a fault is refused rests on these: the tests print without looking at what appears, at one level only, and call each macro with a function without effects.",
  ["common/print.cxx", "common/check.cxx", "common/error.h", "common/error_result.h", "common/out.h", "common/hetero_collection.h"],
  [("dbg/info/warn/error/fatal", "common/print.cxx"), ("check / weak_check", "common/check.cxx"), ("RETURN_OR_ASSIGN / ErrorResult", "common/error_result.h"), ("HeteroCollection", "common/hetero_collection.h")],
  SEQ, MC, "the real functions, compiled for each of the five levels, with both streams captured; results against a model of two variables")

P("U04", "Received messages read field by field as the receiver sent them",
  "Every field, of every message the driver has a structure for, that a listener reads from a delivered message has exactly the value (offset, width, sign, byte order) the receiver wrote there, whatever the other bytes, the number of repeated blocks and the message before; what the message did not carry reads as zero; and every name the driver gives to a message, configuration key, value, flag, satellite range or signal stands for the number the interface description gives it, on the wire.",
  "inputs",
  "21 messages x all block counts x every byte replaced by every value, over three backgrounds; 76 message names, 41 keys in three layers, 100 values and flags; all satellite and signal numbers",
  "The structures are laid over raw bytes: a wrong width, sign or order shows only for particular values of particular bytes, and no test decodes a message.",
  ["parsers/ubx/ubx_defs.h", "parsers/ubx/ubx.h", "parsers/ubx/ubx.cxx"],
  [("UbxMessage and the message structures", "parsers/ubx/ubx_defs.h"), ("sysId / sigId", "parsers/ubx/ubx_defs.h"), ("Ubx::decodeMessage", "parsers/ubx/ubx.cxx")],
  GRID, EX, "tables of offset, width and sign written from the interface description; frames sent through the real parser")

P("F04", "Factors connect exactly their states; graphs start with what they are given",
  "However states are shared between factors, every factor lists exactly the states it connects, each once per role and in the declared order, and its members, its lists and its indexed accessors are those very states and see what they hold now; the data of a state are its own components, in order, of its dimension, and writing one changes that one alone; kinds of states are told apart; a state lists exactly the factors attached to it; a new graph holds one node with the time, pose, velocity and clock it was given, all satellites switched on, whatever becomes of the options afterwards.",
  "programs", "four kinds of factor x every choice of states, aliases included, x every single write; sequences of attachments; sets of options x values x times",
  "A role connected twice, or in the wrong order, shows only when the two states differ, and the tests of these classes only compile them.",
  ["core/factor_graph.cxx", "core/node.h", "core/imu_bias.h", "core/factors/base.h", "core/factors/relative_carrier_phase.h", "core/factors/imu.h", "core/states/base.h", "core/states/pose.h"],
  [("FactorGraph::FactorGraph", "core/factor_graph.cxx"), ("FactorTemplate", "core/factors/base.h"), ("StateTemplate", "core/states/base.h"), ("HeteroCollection", "common/hetero_collection.h")],
  SEQ, MC, "the real states, factors and graph; addresses and every component compared with what was connected and written")

P("U05", "Progress shown is the progress made and the time it takes",
  "Whenever progress is reported, the bar shows it at most about thirty times a second and always when all is done, on one line as wide as asked: filled as far as the work is done and no further, with the percentage, the time since the start, the time the rest takes at the mean rate (nothing when unknown), the rate, and when times of the data are given the smoothed speed against real time; times are days, hours, minutes, seconds and milliseconds however long they are; a bar can be finished, and set up again for other work.",
  "histories", "durations around every carry up to 400 days x totals x progress x widths; all sequences of (progress, time passed) to a depth, for both ways to make a bar, five themes and three ways to give times",
  "What is shown depends on the clock and on the calls before; the bar has no tests and its carries and overflows need days.",
  ["utils/progress_bar.cxx", "utils/progress_bar.h"],
  [("ProgressBar::print", "utils/progress_bar.cxx"), ("ProgressBar::ms_to_stamp", "utils/progress_bar.cxx")],
  SEQ, MC, "the real bar, its clock replaced and its output captured and read back")

P("T04", "The text of an instant names it",
  "Every instant there is (whatever its distance from today, before or after 1970, and the ends of the range too) has a text, printed or formatted, which names that instant and no other to the millisecond: a date and time of day that exist, or the number of seconds, with milliseconds in three digits; printing leaves the stream as it was.",
  "inputs", "every millisecond of seconds, every second of eight days, every day of three centuries, powers of two of seconds with neighbours, the ends of the type",
  "Texts go wrong for particular milliseconds and for times without a date; the test prints the present time.",
  ["common/utctime.cxx", "common/utctime.h"], [("UTCTime::str / operator<<", "common/utctime.cxx")], GRID, EX, "every text is read back with independent calendar arithmetic")

P("N01", "Numerical differentiation gives the derivative on the side asked for",
  "For every function between rotations, poses and vectors, the numerical Jacobian helpers return its derivative to the accuracy of central differences: perturbing and comparing on the left or on the right as asked, with a column for every degree of freedom of the argument and a row for every one of the result, whatever the step and with all further arguments handed on.",
  "inputs", "all pose types x functions with known derivatives x attitudes x positions x constants x sides x steps; dimensions, matrices and points for vectors", "Every analytic Jacobian of the repository is judged against these helpers; a test of them looks at a few random elements.",
  ["common/numerical_jacobian.h", "common/has_plus.h"], [("compute_jac / PerturbHelper / DiffHelper", "common/numerical_jacobian.h"), ("left_jac, right_jac and their 2 and 3", "common/numerical_jacobian.h")], GRID, MC, "adjoints and series of exp in long double")

P("X01", "Random draws fill their bounds; text and folders come out exact",
  "Uniform draws of any shape stay within the bounds asked for and fill them, whatever the bounds; normal draws have the shape asked for, mean zero and unit deviation, and do not repeat; splitting a text at a separator gives pieces without the separator which joined again are the text, but for a separator at its very end, none lost, wherever the separators are; stripping removes every one of the characters named and nothing else; making a folder makes its parents too, removing one removes it and all in it, each is a harmless repetition the second time, a file of that name is kept, and nothing beside is touched.",
  "inputs", "every pair of bounds x shape x the first N draws; every text up to a length over five characters x separators and sets; every history of making, removing and writing in a small tree",
  "The simulation, the parsers of descriptions and every log folder rest on these helpers; they have no tests, and errors show only for particular widths or texts.",
  ["common/random.h", "utils/split_string.cxx", "utils/strip_string.cxx", "utils/file.h"],
  [("randomUniform / randomUniformat", "common/random.h"), ("split_string", "utils/split_string.cxx"), ("strip_string", "utils/strip_string.cxx"), ("makeDirectoryIfNotExist / removeDirectoryIfExist", "utils/file.h")],
  SEQ, MC, "the real helpers; a model of a tree in a scratch folder, and of texts")

P("F05", "A factor goes on saying what it was built to say",
  "Whatever becomes of the observations, samples, weights, noise, positions and frame a factor was built from (changed, or their memory reused), of the ephemeris of its satellite, and of the object it was copied or moved from, its residual and Jacobians as functions of the states stay what they were; linearising again at a position gives what building there gives, whatever was done before; evaluating changes nothing and gives the same numbers whichever outputs are asked for and whatever their memory held; and so with all the kinds of factor in one program.",
  "histories", "all words of changes, releases, copies, moves, new ephemerides, linearisations, integration steps, finishing and splits to a depth, for five kinds of factor x variants", "A factor that refers to the caller's data works as long as the caller keeps it, which every test does; helpers of two factors that share a name work until both are linked into one program, which no test does.",
  ["models/prange_model.h", "models/prange_model.cxx", "models/relative_carrier_phase_model.h", "models/relative_carrier_phase_model.cxx", "models/gnss_dynamics_model.h", "models/gnss_dynamics_model.cxx", "models/pose_error_model.h", "models/imu_model.h", "models/imu_model.cxx"],
  [("PseudorangeModel", "models/prange_model.h"), ("RelativeCarrierPhase", "models/relative_carrier_phase_model.h"), ("GnssDynamics", "models/gnss_dynamics_model.h"), ("PoseError", "models/pose_error_model.h"), ("ImuModel", "models/imu_model.h")],
  SEQ, MC, "the real factors, all linked together, in memory that is poisoned before and after; against factors left alone")

P("P03", "verify_ephemeris reports every ephemeris of a log once, with its age",
  "For every log of ephemerides, tools/verify_ephemeris reads the log to its end without failing and reports every GPS, Galileo and GLONASS ephemeris in it exactly once, in the order of reception, with its system, satellite number, time of reception, reference time and age (reception minus reference time); those more than two hours from their reference time, in either direction, are reported as errors with an unusual time, the others are not; other streams in the log are passed over.",
  "histories", "all sequences of up to 2 (3) ephemerides over three systems and twelve ages around two hours, a day and a year; all orders of five (seven) among inertial samples; all satellite numbers",
  "The tool has no tests; a wrong threshold, sign or stream shows only on logs with old or future ephemerides of each system.",
  ["tools/verify_ephemeris.cxx"], [("verify / main", "tools/verify_ephemeris.cxx")], SEQ, MC, "")

NA = {}
