#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and checks.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "resim/transforms/"
C = "resim/curves/"
P = []


def prop(pid, title, statement, over, text, why, files, mech, harness, modes, rule, technique, note,
         shards=None, events=(), observe=(), state=()):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, harness=harness, modes=modes, rule=rule, technique=technique, note=note,
                  shards=shards, events=list(events), observe=list(observe), state=list(state)))


SAN = ("Every case runs under AddressSanitizer and UndefinedBehaviorSanitizer (incl. float-cast-overflow, "
       "libstdc++ assertions); any report is a violation.")
NUM = ("Reference results are computed in 80-bit arithmetic from first principles (homogeneous matrices, "
       "series exponentials), never with the library under test; tolerances scale with the magnitudes involved.")

prop("C01", "Rotations and poses obey the group laws and act consistently on points",
     "Rotations (SO3) and rigid poses (SE3) form groups: composition is associative, the identity is neutral, a composition with the inverse is the identity, and every result is a proper rotation (orthonormal, determinant one) with a translation. Acting on a vector is the corresponding homogeneous-matrix action, composing then acting equals acting twice, rotating a vector ignores the translation, and every way of constructing a transform (quaternion, angle-axis, axis and angle, matrix, rotation, translation, both) yields the transform it names. Two transforms compare as approximately equal exactly when they are the same transform up to the stated precision, whatever their internal representation.",
     ["inputs", "histories"], "for all rotations (any angle, incl. 0 and pi) and translations over many magnitudes, and all chains of operations",
     "The tests sample a few dozen group elements with moderate angles and check some identities among library results; they use no independent reference, few magnitudes, and no long chains of operations.",
     [T + "so3.cc", T + "so3.hh", T + "se3.cc", T + "se3.hh", T + "liegroup.hh"],
     [("quaternion representation and normalisation", T + "so3.cc"), ("semi-direct product composition, inverse and action", T + "se3.cc")],
     "c01_group", ["asan"],
     "One evaluation is one generated transform tuple (or chain); all laws are checked on it against matrix references. Distinct: by hash of the generated inputs.",
     "reference-model monitor over generated transforms, under ASan+UBSan", NUM, events=["so3_laws", "se3_laws", "chain_steps", "constructors", "approx_decisions"])

prop("C02", "The exponential and logarithm are true inverse maps, also at 0 and pi",
     "The exponential of a tangent vector is the matrix exponential of the corresponding twist, for tangent vectors of any size, and the logarithm of any rotation or pose is a tangent vector of rotation angle at most pi whose exponential is that rotation or pose again, with its frames where it has them. The logarithm inverts the exponential for rotation angles below pi. Accuracy does not collapse near angle zero or near half turns, and exponentials along one tangent direction compose additively.",
     ["inputs"], "for all tangent vectors (angles from 1e-300 to 1e3, near 0, near pi, exactly pi) and all rotations and poses",
     "Tests check exp(log(g)) on a handful of generic elements; the small-angle and near-pi branches are hit at one or two points, without an independent reference.",
     [T + "so3.cc", T + "se3.cc", T + "liegroup_exp_diff.cc"],
     [("Rodrigues/quaternion exponential and logarithm with small-angle branches", T + "so3.cc"), ("left Jacobian and its inverse", T + "liegroup_exp_diff.cc")],
     "c02_explog", ["asan"],
     "One evaluation is one tangent vector or transform; exp and log are compared with series references. Distinct: by hash of the generated inputs.",
     "reference-model monitor over generated tangent vectors, under ASan+UBSan", NUM, events=["exp_log_pairs", "tiny", "near_pi", "half_turns", "log_of_exp", "subgroup_laws"])

prop("C03", "Adjoints, brackets and exponential differentials are what they claim",
     "Conjugating an exponential by a transform equals the exponential of the adjoint-mapped tangent vector, the adjoint respects composition and inversion and its matrix and product forms agree, and the algebra bracket is antisymmetric, satisfies the Jacobi identity and equals the matrix commutator. The differential of the rotation exponential is the true derivative at every tangent vector including zero and large angles, the cross-product matrix is the matrix of the cross product, and splitting a tangent vector into its parts and joining them loses nothing.",
     ["inputs"], "for all transforms and tangent vectors",
     "Tests compare library results with each other on few random elements; no independent derivative and few angles.",
     [T + "so3.cc", T + "se3.cc", T + "liegroup_exp_diff.cc", T + "cross_matrix.cc"],
     [("adjoint(), adjoint_times()", T + "se3.cc"), ("exp_diff and its coefficients", T + "liegroup_exp_diff.cc"), ("cross_matrix()", T + "cross_matrix.cc")],
     "c03_adjoint", ["asan"],
     "One evaluation is one transform/tangent-vector tuple checked against commutators, conjugated matrices, series and finite differences. Distinct: by input hash.",
     "reference-model monitor (commutators, series, finite differences), under ASan+UBSan", NUM, events=["adjoints", "brackets", "near_parallel", "differentials", "finite_differences"])

prop("C04", "Frame bookkeeping: results carry the right frames and mismatches are rejected",
     "Every operation on framed transforms (construction, composition, inversion, interpolation, rotating framed vectors, distances) and framed vectors (sums, accumulation, scaling, comparison) yields a result in exactly the frames that the operation implies, and an operation whose frames do not chain or match is rejected with an exception instead of yielding a value; unframed operands are accepted where documented and never produce a wrongly framed result. Frames compare equal only to themselves, freshly created frames are never equal to each other or to the null frame, and comparing transforms or vectors in different frames answers unequal.",
     ["inputs", "histories"], "for all combinations of framed, semi-framed and unframed operands, and all chains of operations",
     "Tests check one matching and one mismatching example per operation; not every operand pattern, not chains, and not the combinations of null and non-null frames.",
     [T + "liegroup.hh", T + "so3.cc", T + "se3.cc", T + "frame.hh", T + "framed_vector.hh"],
     [("verify_frames/is_framed checks", T + "liegroup.hh"), ("frame assertions of framed vector arithmetic", T + "framed_vector.hh")],
     "c04_frames", ["asan"],
     "One evaluation is one operand tuple with a random frame pattern; a model predicts accept/reject and the result's frames for each operation. Distinct: by input hash.",
     "online monitor comparing every frame verdict with a frame-algebra model, under ASan+UBSan", "The model of frame algebra is a few lines and independent of the library.",
     events=["frame_verdicts", "framed_vector_ops", "constructors"])

prop("C05", "Interpolation follows the geodesic; arc lengths and distances are metric",
     "Interpolating a transform by a fraction gives the transform part way along the one-parameter subgroup: the identity at 0, the transform itself at 1, consistent and additive in between, and it extrapolates outside. The arc length of a pose is the length of the path its origin travels along that screw motion. The distance between two poses is the distance between their origins: symmetric, zero from a pose to itself, independent of the common reference frame, the same whether computed from the poses or from their inverses, and refused when the poses do not share a reference frame.",
     ["inputs"], "for all transforms, fractions inside and outside [0,1], and frames",
     "Tests check fractions 0, 1/2, 1, 2 on few elements and one arc; metric axioms are not tested.",
     [T + "so3.cc", T + "se3.cc"],
     [("interp()", T + "so3.cc"), ("interp(), arc_length(), se3_distance(), se3_inverse_distance()", T + "se3.cc")],
     "c05_interp", ["asan"],
     "One evaluation is one transform with fractions, one screw with numerically integrated arc, or one triple of poses. Distinct: by input hash.",
     "reference-model monitor (series geodesic, quadrature, metric axioms), under ASan+UBSan", NUM, events=["interpolations", "arcs", "distances"])

prop("C06", "Two-jets propagate first and second derivatives exactly",
     "A two-jet carries the value, first and second derivative of a motion; composing, inverting, and converting between left and right form give the value and the derivatives of the composed, inverted or re-expressed motion, so products of motions differentiate by the product rule. Inversion and conversion are involutions, the identity is neutral, approximate equality looks at all three parts, and frames follow the frames of the transforms with mismatches rejected.",
     ["inputs"], "for all jets on rotations and poses, left and right, framed or not",
     "Tests check algebraic identities of the library against itself on few random jets; derivatives are compared with finite differences at few points.",
     [C + "two_jet.cc", C + "two_jet.hh"],
     [("operator*, inverse, left_jet/right_jet", C + "two_jet.cc")],
     "c06_twojet", ["asan"],
     "One evaluation is one jet tuple checked against the exact chain rule in matrix form and against analytically known motions. Distinct: by input hash.",
     "reference-model monitor (matrix product rule, analytic motions), under ASan+UBSan", NUM, events=["jet_laws", "motions", "approx_decisions", "framed_jets"])

prop("C07", "A time curve interpolates its control points and is C2 everywhere",
     "A time-parameterised curve passes through every control point at its time with exactly the given pose, first and second derivative, is defined precisely on its closed time range (times outside or not a number are rejected), and the first and second derivatives it reports are the derivatives of the poses it reports, also across control points. Each span depends only on its two ends, is the quintic through them, and is unaffected by how the curve was built or copied. A control point that is out of order in time or in inconsistent frames is rejected and leaves the curve unchanged.",
     ["inputs", "histories"], "for all control point sequences, construction histories and query times",
     "Tests build a few curves with fixed times and compare at control points and some midpoints.",
     [C + "t_curve.cc", C + "t_curve_segment.cc", C + "quintic_poly_coeffs.cc"],
     [("append() validation, segment lookup", C + "t_curve.cc"), ("quintic basis on the algebra of the relative transform", C + "t_curve_segment.cc")],
     "c07_tcurve", ["asan"],
     "One evaluation is one generated curve (or span, or coefficient set) with queries at controls, inside and outside. Distinct: by input hash.",
     "reference-model monitor (quintic reference, finite differences, analytic motions), under ASan+UBSan", NUM,
     events=["control_visits", "derivative_samples", "quintic_samples", "twist_samples", "coefficient_sets", "rejections_observed", "lists"])

prop("C08", "A distance curve visits its poses along geodesics, by arc length",
     "A distance-parameterised curve passes through every given pose at the cumulative arc length of the geodesics before it, moves along the geodesic between neighbours at unit speed in its parameter, and its length is the total. It is defined exactly on [0, length]: distances outside are rejected, distances inside yield finite poses in the frames of the curve, also when poses coincide. Copies behave the same and are independent of the original, and poses in inconsistent frames are rejected.",
     ["inputs", "histories"], "for all pose sequences (incl. repeated poses and pure rotations), construction histories and query distances",
     "Tests use one circle-like curve and generic poses; coinciding poses, boundaries of the range and copies are hardly touched.",
     [C + "d_curve.cc", C + "d_curve.hh"],
     [("append() frame checks and cumulative arc length", C + "d_curve.cc"), ("segment lookup and interpolation in point_at()", C + "d_curve.cc")],
     "c08_dcurve", ["asan"],
     "One evaluation is one generated curve with queries at controls, inside spans, at and beyond the ends. Distinct: by input hash.",
     "reference-model monitor (series geodesics), under ASan+UBSan", NUM, events=["control_visits", "long_visits", "geodesic_samples", "speed_samples", "degenerate_samples", "copies", "rejections_observed", "lists"])

prop("C09", "A trajectory reports the state of the moving body at every instant in range",
     "A trajectory returns, for every instant of its closed time range to nanosecond resolution, the pose and body-frame velocity and acceleration of the moving body consistent with each other as derivatives, and exactly the given state at each control instant; instants outside, empty trajectories, and out-of-order or wrongly framed control points are rejected. Start time, end time and duration agree with the control points. A rigid body state and its parts (pose, linear and angular velocity and acceleration, in documented units and frames) convert into each other without loss, and composition, inversion and setters act on them as on the motion itself.",
     ["inputs", "histories"], "for all control point sequences, start times over the whole range, and query instants",
     "Tests use a few trajectories around one start time and compare at control points.",
     ["resim/actor/state/trajectory.cc", "resim/actor/state/rigid_body_state.cc"],
     [("conversion between timestamps and curve time", "resim/actor/state/trajectory.cc"), ("vector part extraction", "resim/actor/state/rigid_body_state.cc")],
     "c09_trajectory", ["asan"],
     "One evaluation is one generated trajectory or rigid body state. Distinct: by input hash.",
     "reference-model monitor, under ASan+UBSan", NUM + " Durations up to 2^53 ns.", events=["states_visited", "motion_samples", "state_laws", "curve_points", "rejections_observed", "extreme_queries", "lists", "setters"])

prop("C10", "Time conversions are exact, order-preserving and reversible",
     "Splitting a duration into seconds and nanoseconds and joining the parts gives the same duration for every representable one, with the nanosecond part below one second in magnitude and of matching sign. Converting seconds as a floating number to a duration and back, or a duration to seconds and back, is accurate to a nanosecond or the precision of the floating number, and larger times never convert to smaller ones.",
     ["inputs"], "for all 64-bit nanosecond counts and all seconds in range",
     "Tests check a few values; boundaries and negative values are sampled once or not at all.",
     ["resim/time/timestamp.hh"], [("to/from seconds and nanos, as_seconds/as_duration", "resim/time/timestamp.hh")],
     "c10_time", ["asan"], "One evaluation is one duration, pair or seconds value, drawn from edges, powers and uniform bits. Distinct: by input hash.",
     "reference-model monitor (128-bit integer arithmetic), under ASan+UBSan", "128-bit integer reference.", events=["splits", "pairs", "double_roundtrips", "orderings", "out_of_range"])

prop("C11", "Checked integer arithmetic is exact or refused, never wrapped",
     "The checked sum, difference and absolute value return the mathematically exact result when it is representable and refuse with an exception otherwise, for all 64-bit operands; they never wrap, truncate or invoke undefined behaviour.",
     ["inputs"], "for all pairs of operands",
     "Tests check selected boundary pairs.",
     ["resim/math/safe_integer_utils.cc", "resim/math/safe_integer_utils.hh"], [("overflow pre-checks", "resim/math/safe_integer_utils.cc")],
     "c11_safe_ints", ["asan"], "One evaluation is one operand pair: the full grid of edge values, then random ones. Distinct: by input hash.",
     "reference-model monitor (128-bit integer arithmetic), under UBSan", "128-bit integer reference.", events=["exact_results", "overflow_rejections"])

prop("C12", "Interval sampling covers the interval evenly with the minimal count",
     "Sampling an interval calls the function at both ends and at evenly spaced places in between, in order from the first end to the second, with the fewest samples whose spacing does not exceed the requested step; an empty interval is sampled once, and the reported number of samples is the number of calls made. On timestamps every sample is the instant nearest to its ideal place, for any interval that fits and in either direction. Steps that are not positive are refused on any non-empty interval, and so are sample counts that cannot be represented.",
     ["inputs"], "for all intervals, directions and steps",
     "Tests check a few intervals and steps.",
     ["resim/time/sample_interval.cc"], [("num_samples()", "resim/time/sample_interval.cc"), ("rounding to the nearest instant", "resim/time/sample_interval.cc")],
     "c12_sampling", ["asan"], "One evaluation is one interval and step; a block of small timestamp intervals is enumerated completely. Distinct: by input hash.",
     "online monitor of every sample callback against exact rational positions, under ASan+UBSan", "Exact integer arithmetic for timestamps.", events=["abandoned_samples", "close_ends", "counts", "samples_seen", "rejections_observed"])

prop("C13", "The event schedule is a stable priority queue",
     "Events leave the schedule in time order, and events of the same time leave in the order in which they were scheduled, for any interleaving of scheduling and popping; every event leaves exactly once with its payload intact and the size always counts the events held. A schedule that has used up its supply of sequence numbers refuses further events instead of misordering them, and copies are independent.",
     ["histories", "inputs"], "for all histories of schedule and pop operations, any ties, any length",
     "Tests push a few dozen events and drain them once.",
     ["resim/time/event_schedule.hh"], [("comparison by time, then sequence number", "resim/time/event_schedule.hh"), ("counter exhaustion check", "resim/time/event_schedule.hh")],
     "c13_schedule", ["asan"], "One evaluation is one history of operations compared step by step with an ordered-set model. Distinct: by hash of the operation sequence.",
     "history + executable model, under ASan+UBSan", "The model is an ordered set of (time, serial).", events=["scheduled", "popped", "exhaustions_observed", "crossing_events", "copies"])

prop("C14", "Packing to and unpacking from messages loses nothing",
     "Every value with a wire form (identifiers, frames, framed vectors, transforms, two-jets, curves, trajectories, matrices, view primitives and updates) packs into a message whose fields say what the value is, and unpacking that message, also after serialisation to bytes, gives back an equal value including frames, names, file and line. Packing into a message that already holds other content leaves no trace of that content, and neither packing nor unpacking alters its source.",
     ["inputs"], "for all values of each type, framed or not, empty or not",
     "Tests round-trip a few generated values per type; reused messages, empty curves, extreme times and odd strings are not covered.",
     [T + "proto/liegroup_to_proto.cc", C + "proto/t_curve_to_proto.cc", C + "proto/d_curve_to_proto.cc", C + "proto/two_jet_to_proto.cc", "resim/actor/state/proto/trajectory_to_proto.cc", "resim/visualization/proto/view_primitive_to_proto.cc", "resim/visualization/proto/view_update_to_proto.cc", "resim/math/proto/matrix_to_proto.hh", "resim/utils/proto/uuid_to_proto.cc"],
     [("pack()/unpack() overloads", "resim/*/proto/*_to_proto.cc")],
     "c14_roundtrip", ["asan"], "One evaluation is one value of one type, packed, inspected field by field, serialised, unpacked and compared. Distinct: by hash of the wire bytes.",
     "round-trip and field monitors over generated values, under ASan+UBSan", "Poses compare to 1e-11 relative; everything else bit-exact.", events=["bytes", "matrix"])

prop("C15", "Decoding any message either succeeds faithfully or is refused",
     "Unpacking any message, however malformed (missing, truncated, oversized or contradictory fields, non-finite numbers, wrong frames, disordered times, out-of-range timestamps, damaged bytes), either yields a valid value that says what the message says or throws a library exception; it never crashes, reads out of bounds, runs into undefined behaviour, or silently yields something else. Packing or unpacking with missing output or content is refused.",
     ["inputs"], "for all messages, valid or not",
     "Tests unpack valid messages and a null pointer or unset payload per type.",
     [T + "proto/liegroup_to_proto.cc", C + "proto/t_curve_to_proto.cc", C + "proto/d_curve_to_proto.cc", C + "proto/two_jet_to_proto.cc", "resim/actor/state/proto/trajectory_to_proto.cc", "resim/visualization/proto/view_primitive_to_proto.cc", "resim/math/proto/matrix_to_proto.hh", "resim/utils/uuid.cc"],
     [("size, frame and content checks in unpack()", "resim/*/proto/*_to_proto.cc")],
     "c15_hostile", ["asan"], "One evaluation is one damaged message (structured field damage or byte damage of valid wire bytes). Distinct: by hash of the damaged bytes.",
     "sanitizer-watched hostile-input monitor with faithful-or-refused oracle, under ASan+UBSan", "Generators damage 1-4 places of valid messages; acceptance is judged by an independent reading of the message.", events=["byte_damage", "field_damage", "content_compared"])

prop("C16", "Every viewed object is delivered exactly once, from any number of threads",
     "When a view statement returns, its object has been delivered to the view server exactly once, with its payload, its name, and the file and line of the statement (or the unknown-file marker for plain streaming), under an identifier no other object has; objects of one thread arrive in the order of its statements. Any number of threads may view at once: requests never overlap or race, one session and one consecutive numbering of updates is used for the process. If delivery fails the statement throws, the object is never delivered twice, other threads' objects are not lost, and later statements work.",
     ["schedules", "fault_sequences", "histories"], "for all interleavings of view statements and flushes of any number of threads, all object kinds, and all sequences of server failures and token rejections",
     "The tests for it need an HTTP library that is not part of the baseline, use one mock client, sample few schedules, and check counts only; failures under concurrency are not tested.",
     ["resim/visualization/view.cc", "resim/visualization/view.hh", "resim/visualization/client/view_client.cc"],
     [("one mutex over the primitive list and the client", "resim/visualization/view.cc"), ("eager sending per statement", "resim/visualization/view.cc")],
     "c16_view", ["asan", "tsan"], "One evaluation is one storm of threads; the server model checks every request online, an offline checker the delivery log. Distinct non-trivial: by hash of the delivery interleaving (more than one thread).",
     "online server model + exactly-once/order checker over concurrent histories, under TSan and ASan+UBSan", "HTTP is replaced by an in-process stand-in for the cpr client that records requests and scripts replies; scheduling is the OS's, with injected delays.",
     shards=24, events=["sequence_statements", "objects_delivered", "hard_failures", "answers_lost_after_delivery", "calls_failed", "token_rejections", "thread_switches_between_deliveries"],
     observe=["HTTP requests at the cpr boundary", "return or exception of each view statement"])

prop("C17", "The view client speaks the session protocol correctly under any reply sequence",
     "The client creates one session before its first update and keeps it for life, then posts each update, as the exact serialised content given to it, to that session under numbers that start at zero, increase by one from each accepted update to the next while nothing fails, and are never reused once accepted. A request answered 'unauthorised' leads to one token refresh and one retry of the same request with the new token; any other non-'created' answer is reported as a failure, nothing is sent without a session, and success is reported exactly when the update was accepted. An accepted update whose reply names the address of the view gets that address logged for the user. Every request carries the current bearer token, and a client without an endpoint refuses to send.",
     ["fault_sequences", "histories", "inputs"], "for all sequences of updates and server replies",
     "Its tests need an HTTP library outside the baseline; they check one success, one failure, and one rejection.",
     ["resim/visualization/client/view_client.cc", "resim/visualization/client/view_client.hh"],
     [("session set-up, refresh-and-retry, update numbering in send_view_update()", "resim/visualization/client/view_client.cc")],
     "c17_client", ["asan"], "One evaluation is one client life of 2-16 calls against scripted replies (or one long life of 70k calls). Distinct: by hash of the reply sequence.",
     "trace-specification monitor over recorded request/reply histories, under ASan+UBSan", "cpr stand-in at the HTTP boundary, scripted auth client.", events=["sessions", "session_retries", "session_failures", "nameless_sessions", "update_retries", "update_failures", "requests", "addresses_told", "large_bytes"])

prop("C18", "Device-code login yields, keeps and drops the right token",
     "Asking for a token returns the one in memory, else the one stored on disk, else performs one device-code login: it requests a code with the configured identity, shows the user the verification address before polling, polls with that device code no faster than the server's interval until authorised or the code expires, and returns the granted token, which is then in memory and on disk. A refresh drops both so that the next request logs in anew, and touches no other file. A refused, unparseable, tokenless or expired login throws and stores nothing, and a later attempt works.",
     ["fault_sequences", "histories", "inputs"], "for all sequences of token requests, refreshes, restarts and external changes of the token file, and all server reply sequences",
     "Its tests need an HTTP library outside the baseline and script one login.",
     ["resim/auth/device_code_client.cc", "resim/auth/device_code_client.hh"],
     [("get_jwt(): memory, disk, login", "resim/auth/device_code_client.cc"), ("polling loop with expiry", "resim/auth/device_code_client.cc")],
     "c18_auth", ["asan"], "One evaluation is one history of 3-14 steps over several clients sharing a token path, or one timed login. Distinct: by hash of the step sequence and tokens.",
     "history + executable model over scripted authorization server, under ASan+UBSan", "cpr stand-in at the HTTP boundary; real-time pacing with lower bounds only, plus a virtual clock (clock_gettime and sleep stand-ins for the client thread) for any interval, expiry and latency. Token files live in a scratch directory.",
     events=["logins", "polls", "served_from_memory", "served_from_disk", "faults", "refreshes", "restarts", "timeouts", "paced_logins", "competing_logins"])

prop("C19", "Gaussian sampling and statistics follow the given distribution",
     "A Gaussian can be built from every valid mean and covariance (symmetric positive semi-definite, also singular or strongly correlated) and from nothing else: mismatched sizes and asymmetric, indefinite or non-finite covariances are rejected. Samples have the given mean and covariance, lie in the covariance's range, come in the requested number and shape, successive samples are fresh, and equal objects reproduce equal sequences. Sample mean and covariance are the defined estimators of the data. Random durations are spread evenly over all representable durations and reproduce with their generator.",
     ["inputs"], "for all dimensions, means, covariances, sample counts and data",
     "Tests draw from two fixed covariances and check a few rejections.",
     ["resim/math/multivariate_gaussian.cc", "resim/math/sample_statistics.hh", "resim/time/random_duration.hh"],
     [("validation and factorisation of the covariance", "resim/math/multivariate_gaussian.cc"), ("mean and covariance estimators", "resim/math/sample_statistics.hh")],
     "c19_gaussian", ["asan"], "One evaluation is one parameter set (with up to 20000 samples in the sample section) or one data matrix. Distinct: by input hash.",
     "statistical and reference-model monitor, under ASan+UBSan", "Sampling is deterministic per object, so statistical bounds (above 6 sigma) do not flake across runs on an unchanged tree.", events=["valid_covariances", "singular_covariances", "directions_checked", "statistics", "rejections_observed", "durations"])

prop("C20", "Errors propagate exactly: statuses, status values, assertions and references",
     "A status or status-carrying value is either okay with its value or not okay with its message; every early-return helper evaluates its expression once, returns the first failure unchanged (with its origin) and otherwise hands over exactly the value, without copies of destroyed or moved-from objects. Asking for the value of a failure, building a failure from an okay status, failing assertions, and dereferencing a null reference throw with the given message and location; passing assertions and checks have no effect. Pattern matching on a variant runs exactly the branch of the held alternative with exactly the held value.",
     ["programs", "inputs", "histories"], "for all value types (copyable, move-only, tracked), nestings and interleavings of operations",
     "Tests use fixed examples of each helper with trivial types.",
     ["resim/utils/status.hh", "resim/utils/status.cc", "resim/utils/status_value.hh", "resim/utils/match.hh", "resim/utils/nullable_reference.hh", "resim/utils/inout.hh", "resim/assert/assert.hh", "resim/assert/assert.cc"],
     [("RETURN_IF_NOT_OK, RETURN_OR_ASSIGN, CHECK_STATUS_OK", "resim/utils/status.hh"), ("REASSERT", "resim/assert/assert.hh")],
     "c20_status", ["asan"], "One evaluation is one random call chain, state-machine run or assertion set over lifetime-tracked values. Distinct: by hash of the choices.",
     "lifetime-tracking probes and model monitor over generated call chains, under ASan+UBSan", "Probe objects record construction, moves, copies and destruction.", events=["failures_propagated", "values_delivered", "machine_steps", "assertions", "matches", "references"])

prop("C21", "Identifiers are unique, parse exactly and round-trip through text",
     "Every generated identifier is new (not seen before in this or another thread or process) and not null; printing gives the canonical lower-case form, and parsing accepts exactly the valid textual forms and gives back the identifier, rejecting everything else with an exception. Equality, ordering-free comparison, hashing, copying and null tests agree with the identity of the 128-bit value.",
     ["inputs", "histories"], "for all 128-bit identifiers and all strings",
     "Tests generate a few ids and parse one bad string.",
     ["resim/utils/uuid.cc", "resim/utils/uuid.hh"], [("libuuid wrapping", "resim/utils/uuid.cc")],
     "c21_uuid", ["asan"], "One evaluation is one identifier or text. Distinct: by input hash.",
     "reference-model monitor over generated ids and texts, under ASan+UBSan", "Textual grammar modelled independently.", events=["uuids", "texts", "ids_generated", "rejections_observed"])

prop("C23", "Reading shared objects from many threads is race-free and changes nothing",
     "Any number of threads may use the read-only operations of the same transforms, jets, curves, trajectories and messages at once, and use distinct objects (curves, samplers, schedules) of their own, without data races and with exactly the results a single thread gets. Identifiers and frames generated at the same time in different threads are all distinct.",
     ["schedules", "inputs"], "for all interleavings of read-only operations on shared objects and any operations on separate ones",
     "No test uses these types from more than one thread.",
     [T + "so3.cc", T + "se3.cc", C + "t_curve.cc", C + "d_curve.cc", "resim/actor/state/trajectory.cc", "resim/math/multivariate_gaussian.cc", "resim/utils/uuid.cc"],
     [("absence of hidden mutable or global state in const operations", "resim/")],
     "c23_shared", ["tsan", "asan"], "One evaluation is one set of 40 operations run by 2-6 threads and alone; results compare bit by bit. Distinct: by hash of the operations.",
     "race detection (TSan) plus concurrent-equals-sequential checker", "Races are detected on the executions produced; TSan sees all library code (instrumented), not libprotobuf/libuuid internals.",
     shards=4, events=["operations", "ids"])


# Factors on the case counts written in the harnesses: (quick, thorough).
SCALES = {"C01": (6, 1), "C02": (8, 1), "C03": (8, 1), "C04": (3, 1), "C05": (2, 1), "C06": (6, 1),
          "C07": (1.5, 1), "C08": (6, 1), "C09": (2.5, 1), "C10": (20, 1), "C11": (3, 1), "C12": (10, 1),
          "C13": (2, 1), "C14": (4, 1), "C15": (2, .3), "C18": (2, 1), "C19": (3, 1), "C20": (4, 1), "C21": (3, 1)}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            anchors["observe_at"] = p["observe"] or ["results and exceptions of the public API"]
            f.write(json.dumps({"id": p["pid"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks = {}
    for p in P:
        h = {"name": p["harness"], "modes": p["modes"]}
        if p["shards"]:
            h["shards"] = p["shards"]
        checks[p["pid"]] = {"harness": [h], "rule": p["rule"], "require_events": p["events"],
                            "assumptions": [p["note"], SAN]}
        q, d = SCALES.get(p["pid"], (1, 1))
        checks[p["pid"]]["scale"] = {"quick": q, "thorough": d}
    json.dump(checks, open(os.path.join(V, "checks.json"), "w"), indent=1)
    man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
           "notes": "No hooks in /repo: all observation points are the public API and the HTTP boundary (a cpr stand-in in /verif/stubs). Commits in /repo are repairs only (see known_findings.txt)."}
    for p in P:
        man["checks"].append({"property": p["pid"], "quick_cmd": "python3 run.py " + p["pid"],
                              "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["pid"],
                              "evidence_file": "evidence/%s.json" % p["pid"],
                              "technique": p["technique"], "level": "exploration",
                              "level_note": "Held on the executions produced (counts in the evidence file), not proved. " + p["note"] + " " + SAN})
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
