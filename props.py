prop("P01", "Frame rotations are mutually inverse and independent of the path taken",
     "For every pair of reference frames the library converts between, converting there and back restores the original coordinates, converting directly gives the same result as converting through an intermediate frame, and converting a frame to itself changes nothing. This holds at every epoch and for every choice of Earth-orientation data, ephemeris and nutation model. Every public way of asking for a frame change (positions, directions, vectors, spherical coordinates, named conversion functions) applies that same rotation.",
     ["inputs", "configurations"], "all frame pairs, epochs, Earth-orientation values, ephemerides and nutation models, on every code path of the conversion bodies",
     "tests sample a few frame pairs at a few epochs, mostly with zero Earth-orientation values and loose tolerances",
     ["src/coordinates/transform", "src/astro/precession.rs", "src/astro/earth_rotation_provider.rs"],
     [("rotation provider implementations", "src/coordinates/transform/providers"), ("fixed-frame and context conversions", "src/coordinates/transform/frames, src/coordinates/transform/ext.rs")],
     "symbolic evaluation of MIR into reduced free-group words of axis rotations, compared word by word",
     "Exact up to floating-point rounding: angles are polynomials over opaque series values; opaque matrices are uninterpreted, so equality is decided only where both sides use the same series. Transforms into horizontal coordinates are not rotations of one frame provider and are excluded.")
prop("P02", "Centre shifts are antisymmetric, additive, and applied exactly once",
     "Changing a position's centre (barycentre, Sun, Earth, Moon, planets, Lagrange points, observer site, orbiting body) and changing it back restores the position, and a direct change of centre equals the change through the solar-system barycentre. Each body's shift is that body's own position from the selected ephemeris, and converting centre and frame together equals shifting once and rotating once. Converting to a parameterised centre records the requested parameters on the result.",
     ["inputs", "configurations"], "all centre pairs, epochs, positions, units, ephemerides and frames, on every code path of the shift bodies",
     "tests check a few body pairs with tolerances that hide a swapped body, a missing leg, or a wrong sign on small offsets",
     ["src/coordinates/transform/providers", "src/coordinates/transform/centers", "src/coordinates/transform/ext.rs"],
     [("centre-shift implementations", "src/coordinates/transform/providers"), ("topocentric and bodycentric conversions", "src/coordinates/transform/centers/position")],
     "symbolic evaluation of MIR into linear combinations of rotated source vectors, compared exactly",
     "Exact in the free module over opaque sources; the numeric accuracy of the ephemerides themselves is out of scope. Lagrange-point kernels are compared only through their inverse and triangle laws.")
prop("P03", "A caller-supplied context is never replaced by a default",
     "A computation that the caller gives an ephemeris, Earth-orientation provider or nutation model (as a value or as a type choice) uses that one everywhere, down to the last helper it calls. It never silently falls back to the library's default ephemeris, default Earth-orientation data, zero Earth-orientation values, or a fixed nutation model.",
     ["configurations", "inputs"], "all functions that accept such a choice, all call paths below them",
     "the tests almost always pass the default context, where a silent fallback is invisible",
     ["src/coordinates", "src/event", "src/astro", "src/pod"],
     [("astronomical context and its generic parameters", "src/coordinates/transform/context.rs"), ("ephemeris and Earth-orientation traits", "src/ephemeris, src/astro/eop.rs")],
     "call-graph effect analysis over MIR: no path from a context-accepting function through context-less callees reaches a concrete provider",
     "Decides replacement by a concrete provider or by values built on the spot; an argument that is accepted but not used at all is covered by P04.")
prop("P08", "Ephemerides and tables answer only inside their coverage",
     "An ephemeris, kernel or table is never evaluated outside the interval it covers, and is never refused inside it, ends included. SPK segments of every type (Chebyshev: [init, init + intlen * records]; discrete states: first to last epoch), the JPL segment descriptors and stacks (the narrower of the segment's stated interval and its records), SpkKernel and SpkKernelSet chains, CK segments and kernels ([start, end] of an instrument's segments; first to last record) and the Sun-Earth Lagrange records (mid - radius to mid + radius) return an error for every earlier and every later epoch, infinities included, and a result for every epoch inside. SCLK conversion refuses every instant before its first coefficient. Piecewise lookups use the entry that covers the instant: an SCLK coefficient and a leap second apply from their own epoch until the next one (no leap second before the first), a process-noise interval until its duration has elapsed and the last one for ever after, EOP interpolation holds the first and the last record outside the table, and a thrust arc is active, and thrusts, exactly on [start, stop). start_tdb_seconds and end_tdb_seconds report the interval that is enforced.",
     ["inputs"], "all epochs, classified by their position against the coverage; coefficients, records and everything else unknown",
     "tests probe one epoch inside and one far outside; an inclusive end turned exclusive, an offset or a factor lost in the coverage, or a check of one end only leaves them green",
     ["src/formats/spice", "src/ephemeris", "src/formats/iers/eop.rs", "src/pod/force/thrust.rs", "src/pod/process/noise.rs"],
     [("SPK and CK segments", "src/formats/spice/segment.rs, src/formats/spice/ck.rs, src/formats/spice/kernel.rs"), ("JPL and Lagrange records", "src/ephemeris/jpl/eval.rs, src/ephemeris/lagrange/mod.rs"), ("piecewise tables", "src/formats/spice/sclk.rs, src/formats/spice/lsk.rs, src/formats/iers/eop.rs, src/pod/force/thrust.rs, src/pod/process/noise.rs")],
     "abstract interpretation of MIR over classes of epochs relative to the coverage: with the epoch in one class, is success reachable and which entry is used",
     "Decides the coverage test and the choice of entry, not the interpolated value. Coverage is seeded as [0, 1], once shifted and scaled to [10, 22]; interval and record counts beyond the seeded ones are represented by an arbitrary element of a list.")
prop("P11", "Meaningless numbers are refused and meaningful ones accepted",
     "An entry point that validates a number refuses every value that has no meaning there and keeps accepting every value that has. NaN and both infinities are refused by the orbit constructors (all elements and the epoch of ConicOrbit, MeanMotionOrbit, KeplerianOrbit, PreparedOrbit), by SpacecraftProperties, thrust arcs and their mass flow and acceleration, LowThrustLog, Gauss-Markov parameters and process noise, NormalEquations rows, scalar EKF updates, gauss_newton's start and tolerances, the finite-difference step, FixedRk4Adapter, TLE elements and SGP4 targets, try_jd and try_mjd, SPK and JPL segment epochs and records, the Lagrange fit configuration, and (as a NaN result) the airglow and moonlight functions. Likewise refused: zero or negative periapsis distances, axes, mean motions, masses, specific impulses, time constants, sigmas, intervals, heights, radii and distances; negative eccentricities, areas, coefficients, variances, time spans and tolerances; eccentricity 1 always and above 1 except in ConicOrbit; a zero thrust direction, integrator step or iteration limit; altitudes below the ground. The edge values that do have meaning (a circular orbit, zero area, zero noise, a zero time span, altitude zero) are never refused.",
     ["inputs"], "all values of each validated argument, field and array element, all values of the other inputs",
     "tests try one bad value of one argument; dropping the test for infinity, weakening a comparison by its equality or forgetting one array element leaves them green",
     ["src/astro", "src/pod", "src/time.rs", "src/formats/spice", "src/ephemeris", "src/atmosphere", "src/event/lunar"],
     [("orbit and spacecraft constructors", "src/astro/conic.rs, src/astro/orbit.rs, src/astro/dynamics/state.rs"), ("estimation and process-noise guards", "src/pod/estimation, src/pod/process, src/pod/force"), ("ephemeris coverage guards", "src/formats/spice/segment.rs, src/ephemeris/jpl/eval.rs")],
     "abstract interpretation of MIR over classes of numbers (NaN, infinities, sign, below, at and above one): with one argument in one class, is success reachable",
     "One argument is constrained at a time and classes are coarse: bounds other than 0 and 1, relations between two arguments and overflow of finite arithmetic are not decided. Entry points that do no validation (the *_unchecked constructors, `new`) are outside.")
prop("P12", "Results depend on the arguments alone",
     "Calling the library twice with the same arguments and the same input files gives the same result, in one process or in two: no result depends on the clock, the environment, random numbers, the iteration order of hash tables, or on what was computed earlier. File access happens only at paths the caller supplied.",
     ["histories", "inputs"], "all call histories and all arguments, over every function of the crate",
     "hash-order and history dependence vary from process to process and usually survive a single test run",
     ["src"],
     [("hash-container iterations", "src/formats, src/pod, src/spice"), ("lazily initialised tables", "src/astro, src/atmosphere, src/ephemeris")],
     "effect analysis with a deny-list over every MIR call, static/field audit, and order-taint of hash-container iteration",
     "Environment or clock reads inside foreign crates that are not on the deny-list (for example the time-scale crate's own data bundle) are not followed.")
prop("P13", "Memory safety: no unsafe code",
     "The library contains no code that could break Rust's memory-safety guarantees: no unsafe block, unsafe function, hand-written thread-safety marker, or call to an unchecked primitive.",
     ["programs", "inputs"], "all safe client programs and inputs",
     "undefined behaviour need not show in a test run",
     ["src"],
     [("whole crate", "src")],
     "audit of every HIR/MIR body, signature and implementation for unsafe constructs",
     "Dependencies are trusted.")
prop("P14", "Every feature combination builds",
     "The library compiles with every optional feature on its own, with any single feature left out, with none, with the default set and with all of them.",
     ["configurations"], "every single-feature, all-but-one, default, empty and full feature set",
     "the test suite is only ever built with all features enabled",
     ["Cargo.toml", "src/lib.rs"],
     [("feature gates", "src")],
     "type checking of the library by the compiler under each feature set",
     "Arbitrary larger subsets are not enumerated (24 sets of 2^11); most sets are checked against dependencies built with the full set's dependency features.")
prop("P06", "No number changes its unit without a conversion",
     "Wherever the library takes a plain number out of a typed quantity (or reads one whose name documents its unit), the number keeps that unit through arithmetic, trigonometry, helpers, fields and returns until it is explicitly converted: it is never wrapped as another unit, added to or compared with a number in another unit, passed to a parameter or stored in a field documented in another unit, or given to a trigonometric function in degrees.",
     ["inputs"], "all inputs, on every code path that takes a plain number out of a typed quantity or wraps one",
     "tests pin a few numbers, often produced by the code itself; a scale error in a small term or a rarely used branch stays inside the tolerances",
     ["src"],
     [("quantity extraction and wrapping sites", "src"), ("observation models and force models", "src/pod, src/astro/dynamics")],
     "context-sensitive unit inference (dimension exponents and scale) by interprocedural dataflow over MIR",
     "Numbers from polynomials, text, external crates or multiplied by constants of unknown meaning have no inferred unit and are not judged.")
prop("P09", "No input can make a file or text reader panic",
     "Whatever text or bytes a caller hands to a public reader (TLE and OMM, CCSDS, RINEX, SP3, SINEX, ANTEX, ORBEX, CPF, CRD, EOP, SCK, ADS-B, vgosDB, star catalogues, and every SPICE kernel reader, text and binary), the reader returns a value or an error. It never indexes or slices out of range or inside a character, never unwraps a missing value, never lets an integer overflow, never divides by zero, never recurses without a fixed depth bound and never allocates an amount that is not proportional to the data actually in memory.",
     ["inputs"], "all byte strings and texts: truncated, short, multi-byte, with absurd counts, addresses, years or nesting",
     "a reader's tests feed it well-formed files and a few truncations; the inputs that panic are the one multi-byte character on a column boundary or the one record count that overflows",
     ["src/formats", "src/spice", "src/catalogs/ingest.rs", "src/ephemeris/runtime_backend.rs"],
     [("public readers of formats", "src/formats"), ("kernel loading", "src/formats/spice, src/spice/context.rs, src/ephemeris/runtime_backend.rs"), ("catalogue ingestion", "src/catalogs/ingest.rs")],
     "relational abstract interpretation of MIR from every public reader: linear facts on lengths, indices and parsed numbers, character boundaries, enum variants, inferred loop invariants, inductive cursor invariants for recursion; every panic site in reach is an obligation",
     "Termination of loops, evaluation of a loaded product and the writers are not covered; third-party parsers (serde_json, quick-xml, chrono) are assumed not to panic outside the calls modelled.")
prop("P15", "Every loop and every recursion ends",
     "Every call into the library returns: each loop consumes something finite, moves an integer or a floating-point value towards its bound by an amount that cannot vanish, or adds to its work list only what was not there before; each recursion carries a depth that is stepped towards a tested limit, a record of what was visited, or a part of its argument. This holds whatever the data (cyclic kernel segments and frame definitions, malformed files) and whatever step, tolerance or window the caller gives (zero, negative, denormal, infinite, NaN or below the resolution of the date).",
     ["inputs", "configurations"], "all inputs, options and loaded data, for every loop and recursive group of the crate",
     "a hang needs the one step below the resolution of a date, or the one cyclic table, that no test can afford to run",
     ["src"],
     [("event searches and samplers", "src/event"), ("kernel chains and frame definitions", "src/formats/spice, src/spice"), ("readers, fits and solvers", "src/formats, src/ephemeris, src/astro")],
     "termination analysis over MIR: finite consumption, linear and lexicographic ranking of integers by the relational interpreter, lower-bounded floating-point advance, visited tests of work lists, and a monomorphic call graph whose cycles must be cut by depth, record or part-of-argument",
     "Loops whose progress is none of these kinds and not evidently absent are reported as not decided (one at present: the array loop of the text-kernel parser). Running time is not bounded, only finiteness; loops inside dependencies and user callbacks that do not return are outside.")
prop("P16", "Inverse sines and cosines are always taken of values inside [-1, 1]",
     "Every angle the library recovers with an inverse sine or inverse cosine (altitudes, declinations, latitudes, separations, hour angles) is defined: the argument cannot leave [-1, 1], neither through rounding (an object exactly at the zenith, a rotated unit vector, coincident directions) nor through the inputs, so no finite input turns into NaN there.",
     ["inputs"], "all finite inputs, at every inverse sine and cosine of the crate",
     "the failing inputs are the measure-zero ones (exact zenith, pole, coincidence) where rounding happens to exceed 1 by one unit in the last place",
     ["src"],
     [("altitude and declination recovery", "src/event, src/coordinates/transform"), ("separations, eclipse and shadow geometry", "src/mission, src/astro/dynamics/forces")],
     "rounding-safe interval analysis over MIR of every asin and acos argument, with branch refinement and call-site contexts",
     "Square roots, logarithms and divisions by zero are not covered.")
prop("P07", "A coordinate's frame or centre label never changes without its transformation",
     "The frame and centre types on positions, directions and vectors tell the truth: components taken out of a coordinate in one frame are never put into a coordinate labelled with another frame, and the unmodified components of a position relative to one centre are never labelled as relative to another, unless the rotation or shift between the two was applied in between. Components of vectors in different frames are never added to, compared with or multiplied by each other.",
     ["inputs", "configurations"], "all inputs, at every construction, sum and product of components in the crate",
     "a mislabelled frame is usually wrong by arcseconds (bias, nutation, precession) or metres, below the tolerances of the tests, and no type error can show it once components are plain numbers",
     ["src"],
     [("inline rotations and re-construction of coordinates", "src/event, src/coordinates, src/mission"), ("orbit product and observation code that works on raw components", "src/pod, src/astro")],
     "interprocedural dataflow over MIR of the frame and centre labels carried by plain components",
     "After a rotation matrix is applied the label is unknown: whether it was the right matrix is decided by P01 for the provider routes only. Components kept in plain struct fields or arrays inside structs lose their label.")
prop("P05", "Every instant is used in its own time scale and day-count format",
     "An instant or day count keeps its time scale (TT, UT1, UTC, TDB, TAI) and its format (Julian date, modified Julian date, ephemeris seconds) on its way through the library until it is converted: a UT1 epoch is never used where TT is meant or the reverse (earth rotation angle against precession and nutation polynomials, Earth-orientation lookups in UTC, kernel lookups in TDB), epochs in different scales are never subtracted or compared, no MJD is read as a JD, and day counts move between these formats and J2000 by the exact epoch offset and Julian-century length.",
     ["inputs", "configurations"], "all epochs, at every argument, field, return, comparison and century polynomial that an instant reaches, over every function of the crate",
     "swapped scales shift results by about a minute of time at most (and by nothing at all in tests that pass the same number for both), well inside the tolerances",
     ["src"],
     [("earth rotation, sidereal time and orientation data", "src/astro"), ("event searches and observation models", "src/event, src/pod, src/mission"), ("kernel and product readers", "src/formats, src/spice")],
     "context-sensitive time-scale inference by interprocedural dataflow over MIR, from types, documenting names and conversions",
     "Numbers from text or polynomials, and instants inside containers of unnamed fields, have no inferred scale and are not judged. TT-typed instants whose name does not say otherwise are taken as TT.")
prop("P04", "Options set by the caller govern the whole computation",
     "A public function that takes an option value (SearchOpts, PhaseSearchOpts, AzimuthQuery, CorrectionPolicy, ParseMode, the propagator's, fits', solvers' and force-model configurations) honours it on every path. Each of its fields influences what the function computes; no default, constant or freshly built option takes its place in anything the function calls; and the caller's time tolerance, scan step, tolerances and iteration limits reach the root refinement, sampling or integration they govern, never a built-in constant or another field in their place. This holds for every target type and in every branch of a search.",
     ["inputs"], "all option values and every path from a public function to the routines its options govern, over every implementation of the traits involved",
     "tests run with the default options, under which a dropped tolerance, step or policy gives the same answer",
     ["src/event", "src/astro/dynamics/propagation", "src/ephemeris/lagrange", "src/formats", "src/pod"],
     [("event and phase searches", "src/event"), ("apparent-position policies", "src/event/altitude/provider.rs, src/event/azimuth/provider.rs"), ("propagation, fits and estimation", "src/astro/dynamics/propagation, src/ephemeris/lagrange, src/pod"), ("parse modes", "src/formats/ilrs")],
     "option-flow analysis over MIR and the call graph: labels for the caller's option fields, demand summaries, replacement, bypass and builder checks",
     "Decides that an option reaches what it governs, by name and type; whether the routine then uses it numerically as documented (a tolerance in days, a step's exact grid) is not judged. Fields consulted only to reject bad options do not count as honoured.")
prop("P10", "A number that cannot be read is never replaced by another number",
     "When a number in a file or text given to a reader (TLE and OMM, CCSDS, RINEX, SP3, SINEX, ANTEX, ORBEX, CPF, CRD, EOP, SPICE text kernels, catalogues) is present but malformed, the reader fails, skips the record, or leaves that value marked absent. It never puts zero, a default, a filler value or a neighbouring field's number in its place. Fields that are absent (or blank where the format allows it) may still take their documented default.",
     ["inputs"], "all texts with a malformed number in any field of any record, over every place where a number is read from text",
     "a reader's tests damage a few obvious fields; a default substituted for an optional or rarely damaged one yields a plausible product and no error",
     ["src/formats", "src/catalogs", "src/spice"],
     [("readers of formats", "src/formats"), ("text kernels and catalogue ingestion", "src/formats/spice, src/catalogs/ingest.rs")],
     "error-flow analysis over MIR: the failure of reading a number is followed through combinators, helpers, closures and matches to where it is discharged",
     "Decides what happens when the conversion from text fails; numbers that convert but are wrong (out of range, NaN spelled out, truncated columns) and numbers decoded from binary are not judged.")
prop("P17", "A refused update leaves the object unchanged",
     "When a method that changes an object in place (`&mut self`) and can fail returns an error, the object is exactly as it was before the call: no field, list or counter has been partly updated, nothing has been added to it, and nothing it held has been consumed. This holds for kernels loaded into a SPICE context or an SPK kernel set, rows added to normal equations, measurement updates of the sequential filter, arcs appended to a thrust log, and every other fallible mutating method of the library's own types, through every helper it calls.",
     ["inputs", "histories"], "all fallible mutating methods of the library's non-generic types, all paths that end in an error, all inputs",
     "tests check that the error is returned; whether the object was already half changed on that path shows only when it is used again",
     ["src/formats/spice", "src/pod", "src/event", "src/astro"],
     [("kernel loading", "src/formats/spice/context.rs"), ("normal equations", "src/pod/estimation/wls.rs"), ("logs and lists", "src/pod")],
     "path-sensitive dataflow on MIR: no store through self reaches a return of an error, with summaries of callees per outcome",
     "Methods of generic types and state behind interior mutability are outside the rule. A method that fails after calling a library collection's own fallible operation is judged by that operation's documented effect.")
prop("P18", "No field is lost when a record is read or written",
     "Reading fills every field of the records a reader returns from its input, and writing puts every field of the records a writer is given into its output: none is left at its default or dropped, whether the record goes through the text or the XML form. What is written does not depend on the values of other fields, and no record of a list is left out. This covers the CCSDS (OEM, OPM, TDM, OMM), TLE, SP3, RINEX, CPF, CRD, SINEX, ANTEX, ORBEX, IONEX, EOP, SPICE and residual-table readers and writers; a field that the file format has no place for is named with its reason. With how many digits, in which unit and in which column a value is written is outside this property.",
     ["inputs"], "all records and files; every public reader and writer of the format modules, every field of the records they handle",
     "round-trip tests compare a few fields of one record whose other fields are equal, zero or empty",
     ["src/formats", "src/pod/product"],
     [("text readers and writers", "src/formats/ccsds, src/formats/igs, src/formats/ilrs, src/formats/rinex, src/formats/tle"), ("residual tables", "src/pod/product/residuals_csv.rs")],
     "interprocedural taint on MIR with one cell per record field, from the input to every field read and from every field to the output, with control dependence of the writes",
     "Decides that a value of the field is carried over, and under which decisions, not that its digits, unit or column are right.")
prop("P19", "What is serialised reads back as it was",
     "With the serde feature, every type that can be serialised writes each of its fields and each of its variants (and the fields of its variants) under a name of its own, and the type's deserialisation reads that same name back into that same field or variant, in the same form. No field or variant is skipped, renamed in one direction only, crossed with another, or left out for values that do not come back; a type written through another type is read through the same type. The schema of the written document (which names are chosen) is outside this property.",
     ["inputs"], "all values of all types with Serialize and Deserialize implementations, derived or written by hand", "serde tests round-trip a handful of the fifty types, with one value each",
     ["src/astro", "src/coordinates", "src/event", "src/pod", "src/ephemeris", "src/bodies"],
     [("derived implementations", "every cfg_attr(feature = \"serde\", derive(Serialize, Deserialize))"), ("hand-written implementations", "src/astro/orbit.rs")],
     "structural comparison on MIR of each pair of Serialize and Deserialize implementations: names, fields, variants and value types written against those read",
     "Decides names, fields and forms; the number formatting of the data format and the implementations of dependencies (affn, qtty, tempoch) are not analysed.")
prop("P20", "Everything the library exports can be shared between threads",
     "Every exported type can be moved to another thread and used from several at once (it is Send and Sync whenever its type parameters are), so contexts, kernels, ephemerides, observation sets, force models, searches' results and errors can be used in parallel without locks. DynAstroContext, which holds an ephemeris object of the caller that need not be shareable, is the only exception. Every error type an exported function returns implements std::error::Error, so it can be passed on as one.",
     ["schedules"], "all exported types and all of their fields, for every instantiation of their parameters; all error types of exported functions", "no test moves most of the types to another thread; one that compiles today says nothing about the other types",
     ["src"],
     [("shared objects", "src/coordinates/transform/context.rs, src/formats/spice, src/ephemeris, src/pod, src/astro/dynamics")],
     "auto-trait and trait queries to the compiler's trait solver for every field of every exported type",
     "The compiler's own decision. Data races themselves are excluded by P13 (no unsafe code); hidden shared state by P12.")
prop("P21", "A failure inside the library reaches the caller",
     "When an operation inside the library fails (an ephemeris, kernel, Earth-orientation, time-scale or provider query, a force model, an integrator step, a fit or solve, a reader, a writer or an I/O call returns an error), that failure reaches the caller of the exported function as an error, an absent result or a panic. It is never replaced by a default, a zero, an earlier or a neighbouring value, never discarded and never skipped over. The only exceptions are the documented fallbacks (the infallible eop_at and eop_at_tt, solving for a Lagrange point outside the archive, the next kernel or segment when one has no coverage or chain, indexing segments of an unsupported type, scanning when a polynomial fit fails, optional OPM header keys, and records the permissive RINEX and ILRS readers and the C04 reader leave out) and numbers that cannot be read, which are P10.",
     ["inputs", "fault_sequences"], "all calls of the library that return a Result, on all paths after they fail", "tests provoke few of the failures, and almost none from the middle of a longer computation",
     ["src"],
     [("errors", "src/ephemeris, src/spice, src/formats, src/astro/dynamics, src/pod, src/coordinates/transform/context.rs, src/event")],
     "forward flow of every failure on MIR, from the call that can fail to the return, the panic or the place that drops it",
     "A Result is followed through locals, adaptors, closures and matches; per error variant where a match tells them apart. A failure whose payload is used for anything but printing counts as passed on; failures stored in a structure are followed only to the store. Fallbacks are allowed per file and error type, with their number and variants.")
prop("P22", "An object holds what it was built from",
     "Every value given to a constructor, a builder step or a setter ends up in the attribute of that name of the object, and nowhere else in its place; building, converting or copying an object carries every attribute over to the one of the same name, and none is lost, exchanged with another or reset to a default. Setting one attribute leaves the others as they were, and reading an attribute returns that one.",
     ["inputs"], "all constructors, builder steps, setters, conversions and accessors of the library, for all values", "tests build few objects and look at few of their attributes, often with equal or default values that hide an exchange",
     ["src"],
     [("builders", "src/bodies, src/formats/tle/builder.rs, src/astro/dynamics, src/pod"), ("constructors and accessors", "src/astro/orbit.rs, src/astro/conic.rs, src/coordinates, src/formats")],
     "origins of every field of every object that is built, set or read, on MIR",
     "Decided by agreement of names: an attribute whose parameter has another name is judged only through the builder's or source object's attributes. That the value is kept unchanged is not judged (units are P06), only where it comes from. Values built inside closures are not judged.")
prop("P30", "Event searches find every event in the window",
     "Every rise, set, transit, culmination, threshold crossing, phase and azimuth crossing inside the searched window is reported once, within the requested time tolerance, and nothing is reported that did not happen.",
     ["inputs"], "all windows, bodies, observers and thresholds", "tests search a few days at a few sites", ["src/event"],
     [("searches", "src/event")],
     na="depends on how a transcendental function behaves between the sampled instants; no sound static bound on its extrema and roots is in reach. What is static about the searches is decided elsewhere: options (P04), termination (P15), context (P03), purity (P12).")
prop("P31", "Series and models reach their stated accuracy",
     "Ephemerides, nutation, precession, gravity, atmosphere and integrator results agree with the published models to the accuracy the documentation states.",
     ["inputs"], "all epochs and states", "tests compare with a few reference values", ["src/ephemeris", "src/astro", "src/pod"],
     [("series", "src/ephemeris, src/astro")],
     na="quantifies over real-valued truth and rounding outside the source; coefficient tables have no second copy in the repository to compare against. Units (P06), time scales (P05), frames (P01, P07) and centres (P02) of these computations are decided.")
prop("P32", "The C interface does what the library does",
     "Every function of the siderust-ffi crate returns what the library function it wraps returns, reports its errors, and owns its memory correctly.",
     ["inputs"], "all exported functions", "the crate's tests call a few functions", ["siderust-ffi"], [("exports", "siderust-ffi/src")],
     na="the crate depends on git repositories that are not in the sandbox, so it cannot be type-checked and has no MIR to analyse.")
