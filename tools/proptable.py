TECH_R = "TLA+ specification enumerated with TLC; every behaviour replayed into the real code"
TECH_RT = "TLA+ specifications: TLC-enumerated behaviours replayed into the code, and recorded code traces validated by TLC"
TECH_T = "TLA+ trace specification: recordings of the real code validated by TLC"


def prop(id, title, statement, over, text, why, files, mech, note, technique=TECH_R, state=(), observe=(), hook=None):
    return {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": list(observe), "hook_needed": hook},
            "technique": technique, "level_note": note}


NA = []

P = [
    prop("A01", "Altitude periods partition the window and agree with the altitude",
         "For any body, site, window, threshold and tolerance, the periods above and below an altitude threshold are chronological, disjoint and together cover the window exactly, and inside each one the body's altitude is on the side claimed (to the search tolerance). "
         "The periods inside an altitude band are exactly those above the lower and not above the upper bound. Windows that open, close or lie entirely on one side, and windows that begin at a previously returned crossing, are no exception.",
         ["inputs"], "every altitude path (order and height of rises and sets), window position within it, threshold pair, tolerance and scan-step hint; every body, site and epoch",
         "Tests sample a handful of sites and dates with the default tolerance and ordinary windows; the period algebra at window edges, grazing arcs, day boundaries and polar sites needs the whole space of altitude histories.",
         ["src/event/altitude/events.rs", "src/event/search/crossings.rs", "src/event/search/periods.rs", "src/event/search/intervals.rs", "src/event/search/scan_fallback.rs", "src/event/solar/daily_events.rs", "src/event/solar/periods.rs", "src/event/lunar/altitude_periods.rs", "src/event/stellar/altitude_periods.rs"],
         [("period assembly from labelled crossings", "src/event/search/intervals.rs build_above_periods_directed"), ("crossing search", "src/event/search/crossings.rs"), ("sun day predictor", "src/event/solar/daily_events.rs")],
         "Exhaustive over altitude paths of up to 4-5 monotone pieces on a level grid x window positions x scan hints x tolerances, replayed through a user-defined body; recordings of Sun, Moon, planets and stars at varied sites validated against the same observer. Arcs shorter than a few seconds, and samples within 0.03 deg of a threshold, do not decide.",
         TECH_RT, observe=["event::altitude::{above_threshold, below_threshold, altitude_ranges}"]),
    prop("A02", "Altitude crossings and culminations are complete, alternating, labelled",
         "Over any window the crossing events of an altitude threshold are exactly the times the body passes it, in order, alternating between rising and setting and labelled with the direction in which the altitude really changes. "
         "Culminations are exactly the turning points strictly inside the window, in order, alternating between maxima and minima, with the altitude the body has there.",
         ["inputs"], "every altitude path, window position, threshold, tolerance and scan-step hint; every body, site and epoch",
         "Tests check counts on a few dates; missed pairs, duplicates at search boundaries and wrong labels only appear for particular combinations of window edge, latitude and date.",
         ["src/event/altitude/events.rs", "src/event/search/crossings.rs", "src/event/search/extrema.rs", "src/event/search/scan_fallback.rs", "src/event/solar/daily_events.rs"],
         [("crossing search", "src/event/search/crossings.rs find_labelled_crossings"), ("extremum scan", "src/event/search/extrema.rs find_extrema_tol"), ("sun day predictor", "src/event/solar/daily_events.rs predict_day_crossings")],
         "As A01, for events instead of periods. Turning points within a few seconds of a window edge may or may not be listed.",
         TECH_RT, observe=["event::altitude::{crossings, culminations}"]),
    prop("A03", "Azimuth passages, bands and turning points describe the same motion",
         "For every body that moves in azimuth, on every window, the passages of a bearing are those at which the bearing is crossed, each labelled with the sense of the motion, and never passages of the opposite bearing; the periods inside a band, through north when its lower edge is above its upper one, are delimited by the passages of its two edges, and outside is the complement. "
         "Turning points are the instants the motion reverses, each a maximum or a minimum of the unwrapped azimuth.",
         ["inputs"], "all azimuth paths of a few linear pieces, combined with bands (narrow, wide, through north, negative, full circle), bearings, windows and scan-step hints; plus Sun, Moon, planets and stars at sites from the tropics to the poles with near-zenith passages",
         "Tests query a few wide bands for a few bodies; wrap-around, narrow bands and near-zenith swings depend on where the samples fall.",
         ["src/event/azimuth/events.rs", "src/event/azimuth/provider.rs", "src/event/search/intervals.rs", "src/event/search/extrema.rs"],
         [("passages of a bearing", "src/event/azimuth/events.rs"), ("bands", "src/event/azimuth/events.rs"), ("unwrapped azimuth and extrema", "src/event/azimuth/events.rs")],
         "Exhaustive over the path family; real bodies are sampled. Stays shorter than a scan step may be missed.", technique=TECH_RT,
         observe=["event::azimuth::{azimuth_periods, azimuth_crossings, azimuth_extrema, azimuth_ranges, outside_azimuth_range}"], hook="generic_azimuth_periods (cargo feature bench-internals)"),
    prop("S01", "SPICE kernel pool: later segment and later file win, states chain",
         "For any set of loaded SPK files and any pair of bodies and epoch, the pool answers with the state obtained by chaining segments that cover the epoch, the later segment of a file superseding the earlier ones for the same pair and the later loaded file superseding the earlier ones. "
         "The state of a relative to b is the exact negative of b relative to a, and a query has no answer exactly when no file has a supported chain covering the epoch.",
         ["histories", "inputs"], "every sequence of loads of files built from segments over a small set of bodies, spans and supported or unsupported types; every body pair and epoch; both byte orders",
         "The tests load one kernel at a time; precedence, gaps in coverage, alternative routes and byte order only matter for combinations of files.",
         ["src/formats/spice/kernel.rs", "src/formats/spice/daf.rs", "src/formats/spice/segment.rs", "src/spice/context.rs", "src/spice/kernel_set.rs"],
         [("chain search", "src/formats/spice/kernel.rs SpkKernel::find_chain"), ("file precedence", "src/spice SpiceContext state queries"), ("segment evaluation", "src/formats/spice/segment.rs")],
         "Exhaustive over two files and three segments (thorough: four segments, or three files) on four bodies; every pair and epoch is asked; written as real little- and big-endian DAF files.",
         state=[("file pool", "ordered kernel files", "src/spice/context.rs")], observe=["spice::SpiceContext state queries"]),
    prop("S02", "Text kernels: atomic loading, last definition wins, rotations compose",
         "Loading text kernels is all or nothing: a kernel that is refused leaves every later answer as it was. "
         "After any sequence of loads the last definition of a frame, body orientation, leap-second table, clock or instrument is the one in force, rotations between frames compose along the definitions and are inverse to each other, and cyclic or incomplete definitions give an error.",
         ["histories"], "every sequence of loads from a menu of interacting kernels, good and malformed, followed by every frame pair and time query",
         "The tests load one kernel and query it; interactions between redefinitions, names and ids, chains, cycles and failed loads need sequences.",
         ["src/spice/context.rs", "src/formats/spice/fk.rs", "src/formats/spice/pck.rs", "src/formats/spice/lsk.rs", "src/formats/spice/sclk.rs", "src/formats/spice/text.rs"],
         [("load", "src/spice SpiceContext::load_*"), ("rotation resolution", "src/spice rotation queries")],
         "Exhaustive over sequences of two loads (thorough: three) from the menu.", observe=["spice::SpiceContext rotations, time offsets, instruments"]),
    prop("S03", "SPK stacks resolve every body to the barycentre with the right precedence",
         "For any sequence of kernels pushed on a kernel set or runtime ephemeris, every answer is the sum of the segments in force from the body to the solar-system barycentre, later kernels superseding earlier ones where they cover the epoch and falling back where they do not. "
         "Relations between bodies are differences of those answers, and bodies with no resolvable chain give an error rather than a wrong state.",
         ["histories", "inputs"], "every sequence of segments (pairs, spans, kinds) in up to two files; every body pair and epoch",
         "Fallback and supersession depend on which spans and centres earlier and later files have; tests use one well-formed kernel.",
         ["src/ephemeris/runtime_backend.rs", "src/spice/kernel_set.rs", "src/formats/spice/segment.rs"],
         [("segment precedence", "SpkKernelSet lookup"), ("barycentre resolution", "RuntimeEphemeris")],
         "Exhaustive over three segments (thorough: four/five) on the Earth-Moon system and on the major bodies; positions and velocities compared.", observe=["SpkKernelSet::state", "RuntimeEphemeris"]),
    prop("S04", "Damaged SPICE kernels are refused whole or answer without failing",
         "A kernel whose header, summaries, segment parameters or data are damaged, or which is truncated, is either refused, leaving every earlier answer unchanged, or accepted, and in both cases every later query returns normally. "
         "No damaged kernel makes a load or query panic, overflow, read outside the file or run without end.",
         ["inputs", "crash points"], "every combination of two damaged fields from a list of all header, summary, descriptor and data fields, with boundary values, in binary SPK (types 2, 3, 9, 13), CK and text kernels, and every truncation",
         "The tests damage one field at a time in a few ways; overflow and endless chains come from particular values in pairs of fields.",
         ["src/formats/spice/daf.rs", "src/formats/spice/segment.rs", "src/formats/spice/spk.rs", "src/formats/spice/ck.rs", "src/formats/spice/kernel.rs"],
         [("DAF directory walk", "src/formats/spice/daf.rs"), ("segment bounds", "src/formats/spice/segment.rs")],
         "Exhaustive over pairs of damages; built with overflow checks on.", observe=["spice::SpiceContext::load", "SpkKernel::open"]),
    prop("P01", "Least squares: exact weighted solution, refused rows leave no trace",
         "The estimate and covariance of the normal equations are those of the weighted observation rows accepted, in any order and with repeated parameters, and a row that is refused (bad sigma, residual, index or partial) changes nothing. "
         "Unobserved parameters give an error rather than an answer, and iterated estimation converges to the least-squares solution of exact and noisy observations and otherwise reports why not.",
         ["histories", "inputs"], "every sequence of good and bad observation rows from a menu; every set of linear and nonlinear observations, start and option set",
         "The tests solve a few hand-made systems; a half-applied bad row, an unobservable combination or perfect data only matter for particular sequences.",
         ["src/pod/estimation/wls.rs", "src/pod/estimation/nonlinear.rs"],
         [("row accumulation", "src/pod/estimation/wls.rs NormalEquations::add_row"), ("iteration", "src/pod/estimation/nonlinear.rs gauss_newton")],
         "Exhaustive over sequences of up to five rows of three parameters against exact integer adjugate solutions, and over observation sets of three (thorough: four) with two parameters.",
         technique=TECH_R, state=[("normal equations", "matrix, right-hand side, chi2, count", "src/pod/estimation/wls.rs")], observe=["NormalEquations::{add_row, solve}", "gauss_newton"]),
    prop("P02", "Sequential filter: exact covariance, refused updates leave the state",
         "After any sequence of predictions and scalar updates the filter has the state and covariance of the exact Kalman recursion, the covariance stays symmetric and positive, and components that are not involved keep their values; an update that is refused or singular changes nothing and every accepted one reports its innovation and variance. "
         "Process noise over a gap does not depend on how the gap is split, and a piecewise plan applies the segment in force at each elapsed time.",
         ["histories", "inputs"], "every sequence of predictions (with and without noise), good and bad updates on each pair of components; every plan of segments, every elapsed time",
         "The tests run one or two updates; asymmetry, lost updates and wrong blocks only show in sequences over particular components.",
         ["src/pod/estimation/sequential.rs", "src/pod/process/noise.rs"],
         [("update", "src/pod/estimation/sequential.rs OrbitEkf::update_scalar"), ("process noise", "src/pod/process/noise.rs ProcessNoiseModel::q_matrix, ProcessNoise::sigma_at")],
         "Exhaustive over three operations (thorough: more operations and pairs) with exact rational arithmetic in the specification.",
         technique=TECH_R, state=[("filter", "state and covariance", "src/pod/estimation/sequential.rs")], observe=["OrbitEkf::{predict, update_scalar, state, covariance}", "ProcessNoise", "ProcessNoiseModel"]),
    prop("P03", "Thrust arcs and the thrust log: mass, propellant and delta-v add up",
         "A thrust arc accelerates along its unit direction, whatever the magnitude of the direction given, exactly from its start inclusive to its end exclusive. "
         "After any sequence of burns appended to a log the mass is the initial mass less the propellant of the accepted burns, the delta-v is the sum of their rocket equations, and a burn that cannot be flown (undefined, or more propellant than mass) is refused and leaves the log as it was.",
         ["histories", "inputs"], "every sequence of good and impossible burns from a menu, with initial masses either side of what they use",
         "The tests append one or two good burns; running out of mass part-way, refused burns between good ones and extreme directions need sequences.",
         ["src/pod/force/thrust.rs", "src/pod/force/low_thrust.rs"],
         [("arc", "src/pod/force/thrust.rs ThrustArc"), ("log", "src/pod/force/low_thrust.rs LowThrustLog::append")],
         "Exhaustive over sequences of two burns (thorough: three).",
         technique=TECH_R, state=[("log", "current mass and records", "src/pod/force/low_thrust.rs")], observe=["ThrustArc", "thrust_acceleration", "LowThrustLog"]),
    prop("P04", "A satellite is pulled and pushed by each of its forces as that force is, once",
         "The acceleration of a model is the sum of those of the terms asked for, each counted once and refused if what it needs of its surroundings is missing or its parameters are another's; names are made by what was last registered under them. "
         "Each term alone is the gradient of its potential, the tide of a body where the ephemeris puts it then, sunlight as far as the Earth leaves the Sun free, drag through air that turns with the Earth at the height above its ellipsoid, relativity, or the empirical push in the axes of the orbit at its phase.",
         ["inputs", "call sequences"], "21 harmonics at 13 places by all degrees and orders at four epochs, 91 places of Sun or Moon, 528 penumbras, 221 winds, 234 states, 98 heights, 1952 (thorough: 16384) choices of terms and surroundings, 1836 registries (thorough: four registrations)",
         "Tests look at magnitudes and signs at an equatorial point, never at a sectorial harmonic at an epoch at which UT1 is not TT, at a partial eclipse, or at all the terms together.",
         ["src/astro/dynamics/forces/geopotential.rs", "src/astro/dynamics/forces/third_body.rs", "src/astro/dynamics/forces/srp.rs", "src/astro/dynamics/forces/drag.rs", "src/astro/dynamics/forces/relativity.rs", "src/astro/dynamics/forces/empirical.rs", "src/astro/dynamics/density.rs", "src/pod/force/registry.rs", "src/pod/force/config.rs", "src/pod/force/empirical_periodic.rs"],
         [("gravity field", "src/astro/dynamics/forces/geopotential.rs"), ("third bodies", "src/astro/dynamics/forces/third_body.rs"), ("sunlight", "src/astro/dynamics/forces/srp.rs"), ("drag", "src/astro/dynamics/forces/drag.rs"), ("registry", "src/pod/force/registry.rs"), ("models", "src/pod/force/config.rs")],
         "Exhaustive over the places, terms, surroundings and registrations of ForceModel within the bounds.",
         technique=TECH_R, state=[("terms", "the accelerations that make up a model, as whole vectors over powers of a whole length", "src/pod/force/registry.rs"), ("surroundings", "where Sun and Moon are, the air, the field", "src/astro/dynamics/context.rs")],
         observe=["AccelerationModel::acceleration", "ForceModelRegistry::build", "ForceModelConfig::to_specs", "geodetic_altitude", "DensityProvider::density", "EclipseModel::eclipse_factor"]),
    prop("O01", "A body is where its conic says at any time, and what is no orbit is refused",
         "An orbit given by its elements puts the body on the conic they describe, at the place of its mean anomaly then: any number of revolutions before or after the epoch, nearly circular to nearly straight, bound or unbound, in any plane, also one given by a negative inclination. "
         "All ways to ask (Kepler's constant, another mass, a stated daily motion, from the periapsis, prepared) agree, and elements that describe no such orbit are refused with the reason.",
         ["inputs"], "1920 ellipses at twelve anomalies in four revolutions by ten ways of asking, 120 places near the ends of nearly straight orbits, 1920 hyperbolas at nine places, 14175 rows of elements good and bad",
         "Tests check a few places of circular and moderately eccentric orbits, and each refusal for one kind of orbit; none has a negative inclination or goes through every way of making one.",
         ["src/astro/orbit.rs", "src/astro/conic.rs", "src/astro/conic_equations.rs", "src/astro/units.rs", "src/bodies/planets.rs"],
         [("places", "src/astro/conic_equations.rs"), ("elements", "src/astro/orbit.rs"), ("conics", "src/astro/conic.rs"), ("periods", "src/astro/units.rs")],
         "Exhaustive over the orbits, anomalies and rows of elements of TwoBody within the bounds.",
         technique=TECH_R, state=[("orbit", "shape, plane and periapsis by the cosines and sines of whole triangles", "src/astro/orbit.rs"), ("place", "a whole vector over a whole number", "src/astro/conic_equations.rs")],
         observe=["KeplerianOrbit::kepler_position", "KeplerianOrbit::position_with_mu", "PreparedOrbit::position_at", "ConicOrbit::position_at", "MeanMotionOrbit::position_at", "try_new", "try_from", "OrbitExt::period"]),
    prop("P05", "A satellite flown forwards or backwards comes where its orbit does",
         "Each integrator and propagator takes a satellite leg by leg, forwards and backwards, to the place, speed and time of its orbit, the craft unchanged, with each crossing of a threshold on the way reported once in its direction and samples at the times asked for. "
         "What a small change at the start, or of the field, becomes is what the orbit says, step composed with step; steps, tolerances and counts that cannot be flown are refused.",
         ["inputs", "call sequences"], "11664 flights of two legs (thorough: 209952 of three) over six stops in up to three revolutions of six orbits by eight ways of flying; every first leg by three propagators with six events, four transition matrices and the field",
         "Tests fly a circular orbit a few steps forwards and check that matrices are near the identity; none flies backwards with samples, or checks a matrix after a revolution.",
         ["src/pod/propagation/integrators.rs", "src/pod/propagation/adapter.rs", "src/pod/propagation/variational.rs", "src/pod/propagation/validation.rs", "src/astro/dynamics/propagation/propagator.rs"],
         [("integrators", "src/pod/propagation/integrators.rs"), ("propagator", "src/astro/dynamics/propagation/propagator.rs"), ("transition matrices", "src/pod/propagation/variational.rs")],
         "Exhaustive over the flights of TwoBody within the bounds; integrators are compared within their accuracy (2 m at ten seconds a step, 0.5 m adaptive).",
         technique=TECH_R, state=[("satellite", "which stop of which revolution", "src/astro/dynamics/state.rs"), ("passed", "thresholds crossed on the way, in order", "src/astro/dynamics/propagation/propagator.rs")],
         observe=["propagate_orbit", "propagate_spacecraft", "Propagator::propagate", "Propagator::propagate_with_events", "Propagator::propagate_with_stm", "VariationalPropagator::propagate", "param_partials_central_diff"]),
    prop("F01", "CCSDS orbit and tracking messages are read as written and written as held",
         "A CCSDS OEM (KVN or XML), OPM or TDM yields exactly the metadata, states and observations its lines state, in order and segment by segment, wherever comments and optional blocks (covariance, manoeuvres, spacecraft parameters) stand between them. "
         "A document lacking something mandatory, or holding a field that is no number or no date, is refused rather than read with made-up values. "
         "What the writers print reads back as the same segments, states and epochs, whatever the epochs and names are.",
         ["inputs", "histories"], "every document of up to a bounded number of lines or flaws over a menu of lines, in both encodings",
         "Tests read a handful of well formed files; which block follows which, what is missing and where a bad line stands combine without bound.",
         ["src/formats/ccsds"],
         [("OEM", "src/formats/ccsds/oem.rs read_oem, write_oem, read_oem_xml, write_oem_xml"), ("OPM", "src/formats/ccsds/opm.rs"), ("TDM", "src/formats/ccsds/tdm.rs")],
         "Exhaustive over the line menus and bounds of OemDoc, OpmDoc and TdmDoc, and over every day of 1859-2203 (CalendarWalk).",
         technique=TECH_R, state=[("reader", "the current segment, block and metadata", "src/formats/ccsds/oem.rs")], observe=["read_oem", "write_oem", "read_opm", "write_opm", "read_tdm", "write_tdm"]),
    prop("F02", "Precise orbit and laser ranging files are read and written as they state",
         "SP3, CPF, CRD and ORBEX files yield exactly the epochs, satellites, positions, velocities, clocks, attitudes and normal points their lines state, under the epoch, section and system configuration in force where they stand, with laser passes continuing over midnight; reading SP3 by epoch agrees with reading it whole. "
         "A strict reader refuses a record that is no number or no date and a permissive one loses only that record; what the writers print reads back as the same records and epochs.",
         ["inputs", "histories"], "every document of up to a bounded number of lines over a menu of good, bad and ignorable lines, in both modes",
         "Tests read short well formed samples; a bad or missing line matters through what follows it, and epochs matter at the edges of seconds and days.",
         ["src/formats/igs/sp3.rs", "src/formats/igs/orbex.rs", "src/formats/ilrs/cpf.rs", "src/formats/ilrs/crd.rs"],
         [("SP3", "src/formats/igs/sp3.rs reader, streaming reader, writer"), ("CPF, CRD, ORBEX", "src/formats/ilrs/cpf.rs, src/formats/ilrs/crd.rs, src/formats/igs/orbex.rs")],
         "Exhaustive over the line menus and bounds of Sp3Doc, CpfDoc, CrdDoc and OrbexDoc, and over every day of 1972-2104 (CalendarWalk).",
         technique=TECH_R, state=[("reader", "current epoch, section, session and system configuration", "src/formats/igs/sp3.rs")], observe=["sp3, cpf, crd and orbex readers and writers"]),
    prop("F03", "RINEX navigation, observation and DORIS files are read as they state",
         "RINEX navigation, observation and DORIS files yield exactly the ephemerides, epochs, satellites and values standing in their columns, whatever is blank, adjacent or continued on further lines, with event records kept apart from epochs and each DORIS value under its epoch and beacon. "
         "A strict reader refuses a record that is no number or no date, a permissive one loses only that record, no text whatever crashes a reader, and what the writers print reads back as the same records and epochs.",
         ["inputs", "histories"], "every document of up to a bounded number of records over a menu of packed, blank, continued, event and bad records, in both modes",
         "Tests read well spaced samples; columns that touch, blanks at the end, continuation lines and a damaged record before good ones combine without bound.",
         ["src/formats/rinex"],
         [("navigation", "src/formats/rinex navigation reader and writer"), ("observation", "src/formats/rinex observation reader and writer"), ("DORIS", "src/formats/rinex DORIS reader")],
         "Exhaustive over the record menus and bounds of NavDoc, ObsDoc and DorisDoc, and over every day of 1972-2104 (CalendarWalk).",
         technique=TECH_R, state=[("reader", "header fields, current epoch and record", "src/formats/rinex")], observe=["RINEX navigation, observation and DORIS readers and writers"]),
    prop("F04", "Stations, antennas and Earth orientation are those their tables state",
         "A SINEX file yields one station for each point of a site in a solution whose three coordinates stand in the estimate block, with its velocity when complete; an ANTEX file yields the offset of each frequency of each closed antenna. "
         "An Earth orientation table gives its records at their dates, runs straight in between except that a leap second falls at its midnight, and holds its ends; fields that cannot be read are refused, not taken as zero.",
         ["inputs", "histories"], "every document of up to a bounded number of lines over a menu of lines of two points, antennas and frequencies; every table with every gap, rate and leap second, at every quarter of a day",
         "Tests read one station, antenna or a smooth table; mixing of points and solutions, blocks left open and leap seconds need particular line orders.",
         ["src/formats/igs/sinex.rs", "src/formats/igs/antex.rs", "src/formats/iers/eop.rs"],
         [("SINEX", "src/formats/igs/sinex.rs"), ("ANTEX", "src/formats/igs/antex.rs"), ("Earth orientation", "src/formats/iers/eop.rs interpolate")],
         "Exhaustive over the line menus and bounds of SinexDoc, AntexDoc and EopTable, and over every day of 1972-2104 (CalendarWalk).",
         technique=TECH_R, state=[("reader", "current block, station, antenna and frequency", "src/formats/igs/sinex.rs")], observe=["SINEX and ANTEX readers", "Earth orientation tables"]),
    prop("F05", "Two-line elements and mean-elements messages say what their fields state",
         "Two lines, or three, are read as element values only when each has 69 ASCII columns, the right leading digit and checksum, and a number in every numeric field; otherwise they are refused. "
         "A set of values is formatted into two such lines that read back as the values rounded to their columns, or refused when one does not fit. "
         "A mean-elements message in KVN, XML or JSON yields the values it states, absent optional fields counting as zero, and what is written in any of the three reads back, through to the same two lines.",
         ["inputs"], "every card and message deviating in up to two (thorough: three) fields from a base one, over a menu of good, extreme and bad texts and values per field, in every encoding and layout",
         "Tests use genuine cards; rounding carries at the edge of a column, of a day or of a year, wide numbers and damaged bytes are never in them.",
         ["src/formats/tle"],
         [("two lines", "src/formats/tle parse_tle, parse_3le, format_tle, TleBuilder, SatelliteNumber"), ("mean-elements message", "src/formats/tle/omm kvn, xml, json readers and writers, Omm::from_tle, to_tle")],
         "Exhaustive over the menus of TleCard and OmmDoc; the lines themselves, checksums included, are built by the specification.",
         technique=TECH_R, state=[("card", "the fields of both lines and what is put over their columns", "src/formats/tle/parse.rs")], observe=["parse_tle", "parse_3le", "format_tle", "validate_tle_checksum", "omm readers and writers"]),
    prop("F06", "ADS-B frames are believed only intact and give positions where they were sent",
         "An extended squitter is accepted only with 28 hexadecimal digits, a downlink format of 17 or 18 and matching parity, so that no frame with a few wrong bits is; its fields are those standing in its bits, values marked as not available being absent. "
         "An even and an odd position report sent from nearly one place, or one of them with a place nearby, decode to where the later was sent within half a unit of the encoding, everywhere from pole to pole and around the antimeridian. "
         "A pair across a longitude-zone boundary is refused, and no pair whatever decodes to a latitude beyond the poles or a longitude out of range.",
         ["inputs"], "positions at and around every longitude-zone boundary, zone edge, pole and the antimeridian, with motions between reports and references up to nearly half a zone away; every single and double bit error (thorough: triple)",
         "Tests decode one published pair and frame; the encoding wraps at zone edges and changes at 58 latitudes, and near the poles the zones run out.",
         ["src/formats/adsb"],
         [("positions", "src/formats/adsb/cpr.rs decode_globally, decode_locally"), ("frames", "src/formats/adsb/mod.rs parse_frame and the message decoders")],
         "Exhaustive over the position and field menus of CprPair and AdsbFrame; the encoder is exact integer arithmetic in the specification.",
         technique=TECH_R, state=[("pair", "the two reports and which is later", "src/formats/adsb/cpr.rs")], observe=["parse_frame", "decode_globally", "decode_locally", "decode_altitude", "message decoders"]),
    prop("M01", "Mission geometry says who sees, shades and stands over whom",
         "A line of sight is obstructed exactly when a sphere cuts the segment, an eclipse is none, partial or total exactly as the apparent discs overlap, bodies behind the target shading nothing, and an azimuth mask is piecewise linear round the circle whatever order and turn its samples come in. "
         "Range, closing speed, azimuth and elevation of a target and local solar time, LTAN and beta angle are those of the exact geometry; a site or instrument name stands for what was last registered under it, or nothing.",
         ["inputs", "histories"], "every integer geometry on bounded grids around the tangent and zenith cases, every mask of up to three (thorough: four) samples out of turn and order, and every registry history of up to four (thorough: five) operations",
         "Tests use one orbit and one station; tangency, bodies behind the target, samples beyond the circle and zenith passages are set-measure-zero cases they miss.",
         ["src/mission"],
         [("geometry", "src/mission/geometry"), ("sites and registry", "src/mission/site.rs, src/mission/context.rs")],
         "Exhaustive over the integer grids of MissionGeo; grazing lines of sight are left undecided.",
         technique=TECH_R, state=[("registry", "names and what they stand for", "src/mission/context.rs")], observe=["line_of_sight_obstructed", "occultation_fraction", "eclipse", "azimuth_elevation_range", "TerrainMask", "local_solar_time", "ltan", "beta_angle", "MissionContext"]),
    prop("C01", "Reference frames are joined by one consistent set of rotations",
         "Every rotation offered between two frames equals the one their definitions give at that epoch, Earth orientation and nutation model, is orthogonal, and undoes its opposite. "
         "Walking from frame to frame by any chain of offered pairs, with positions, directions, velocities or spherical coordinates, gives what the direct rotation gives; what does not depend on the epoch, the Earth orientation or the model ignores it.",
         ["inputs", "call sequences"], "every offered pair of the 24 frames, epochs from 1900 to 2050 (thorough: and every loop of three pairs) under every combination of Earth orientation, model and carrier; the matrices by name too",
         "Tests pin single pairs at one epoch against reference values or check a round trip, which a rotation the wrong way round passes; only comparing different ways round a loop shows that two pairs disagree.",
         ["src/coordinates/transform", "src/astro"],
         [("pairs of frames", "src/coordinates/transform/providers"), ("rotation models", "src/astro"), ("carriers", "src/coordinates/transform/ext.rs, src/coordinates/transform/frames")],
         "Exhaustive over the frame graph of FrameWalk within the bounds; models at a handful of epochs.",
         technique=TECH_R, state=[("walk", "the frames passed so far and the word of elementary turns they amount to", "src/coordinates/transform/providers/mod.rs"), ("context", "epoch, Earth orientation, nutation model", "src/coordinates/transform/context.rs")],
         observe=["frame_rotation", "frame_rotation_with", "TransformFrame::to_frame", "to_frame_with", "AstroContext"]),
    prop("C02", "A place is the same place told from any centre",
         "Moving a position between centres adds exactly what lies between them at that epoch, in the frame, the unit and by the ephemeris and Earth orientation given; going round by any chain of centres and frames and back ends where it started, and over different epochs differs by exactly how far the centres moved. "
         "Orbiting bodies, sites on the ground and Lagrange points are where their orbit, the turning Earth and the Sun and Earth have them, and positions about different bodies or sites are not subtracted.",
         ["inputs", "call sequences"], "every offered pair of the 17 named centres in 6 frames at 3 epochs, every walk of two (thorough: three) steps, walks over several epochs, every body about every hub and site, with the default and with a foreign ephemeris and Earth orientation",
         "Tests check round trips, which two equal mistakes pass, and use the default ephemeris, with which an ignored context cannot be seen.",
         ["src/coordinates/transform/centers", "src/coordinates/transform/providers", "src/coordinates/centers.rs"],
         [("shifts between centres", "src/coordinates/transform/providers"), ("bodies and sites", "src/coordinates/transform/centers/position"), ("Lagrange points", "src/ephemeris/lagrange")],
         "Exhaustive over the centre graph of CenterWalk within the bounds.",
         technique=TECH_R, state=[("place", "the sum of landmarks a position stands for, its centre and frame", "src/coordinates/transform/centers/mod.rs")],
         observe=["TransformCenter::to_center", "to_center_with", "PositionAstroExt::to_with", "center_shift_with", "Transform::transform", "to_topocentric_with", "checked_sub"]),
    prop("C03", "What an observer sees where in his sky is where it is",
         "Altitude and azimuth of a direction, position, star or body of the solar system are those that the latitude, longitude and sidereal time give, by every way of asking and at every place and clock, the poles, the zenith and the observer's own place included, with distance and site kept. "
         "Turning back to the equator ends where it started, azimuths counted from any cardinal point either way round name the same bearing, and a sky grid has the cells its steps say.",
         ["inputs", "call sequences"], "20826 things (thorough: 104130) at sites of seven Pythagorean latitudes on each of 15 ways up and 4 ways down, walks of two (three) steps up, down and through conventions, all pairs of azimuth conventions, nine bodies at 35 sites and five epochs, and 3240 grids",
         "Tests check round trips, which a mirrored sky passes, and middling places, where nothing divides by zero.",
         ["src/coordinates/transform/frames/to_horizontal.rs", "src/coordinates/transform/horizontal.rs", "src/coordinates/horizontal.rs", "src/event/horizontal.rs", "src/coordinates/sampling.rs"],
         [("to the horizon and back", "src/coordinates/transform/horizontal.rs"), ("azimuth conventions", "src/coordinates/horizontal.rs"), ("places of bodies", "src/event/horizontal.rs"), ("grids", "src/coordinates/sampling.rs")],
         "Exhaustive over the places and ways of LocalSky within the bounds.",
         technique=TECH_R, state=[("thing", "where the thing is, on the equator or the horizon, as whole numbers, and how its azimuth is counted", "src/coordinates/horizontal.rs")],
         observe=["to_horizontal", "to_equatorial", "to_horizontal_position", "Transform::transform", "star_horizontal", "altitude_at", "azimuth_at", "convert_azimuth", "SkyGrid::iter_cells"]),
    prop("C04", "A source seems to be where motion, bent light and its own course put it",
         "The direction an observer sees, for any velocity below that of light and in every frame and form, is that of the addition of velocities, and taking it away gives the source back; light is bent away from the Sun and planets by the radius of each, and straightened again. "
         "Stars go straight on from the epoch of their position, whatever they stop at on the way, over the poles too, observers have the velocity of the Earth and of their site, and corrections recorded are those made.",
         ["inputs", "call sequences"], "1452 directions and velocities and walks of two (thorough: 14179 of three) observers, 1210 bent rays, 1050 stars moved in degrees, 432 (6912) courses through space in two (four) legs, all pairs (triples) of policies, observers of five sites at five epochs",
         "Tests look at the Earth's small velocity, where a wrong sign of a second-order term or a lost factor of time is within tolerance, and at stars whose epoch is J2000.",
         ["src/astro/aberration.rs", "src/astro/light_deflection.rs", "src/astro/proper_motion.rs", "src/astro/apparent.rs", "src/coordinates/observation/observer_state.rs", "src/coordinates/observation/observational_direction.rs", "src/bodies/stars.rs"],
         [("aberration", "src/astro/aberration.rs"), ("bent light", "src/astro/light_deflection.rs"), ("motion of stars", "src/astro/proper_motion.rs"), ("observers", "src/coordinates/observation/observer_state.rs")],
         "Exhaustive over the directions, velocities and courses of Apparent within the bounds.",
         technique=TECH_R, state=[("direction", "where the source is seen after each observer, as a whole vector of whole length, or where the star is", "src/astro/aberration.rs")],
         observe=["to_apparent", "to_astrometric", "apply_aberration", "remove_aberration", "body_deflection", "solar_deflection_inverse", "propagate_space_motion", "Star::position_at", "ObserverState::topocentric_with"]),
]
