#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

FL = "p1788/flavor/infsup/setbased/"
prop("C01", "Results do not depend on call history or ambient numeric environment",
 "An operation on the same operands gives the same result (endpoints as numbers, where the sign of a zero bound has no meaning, decoration, number or truth value) whatever the thread executed before it - operations on other number formats, operations that threw or failed, cache clean-up - and whatever floating-point rounding mode, floating-point status flags, or MPFR exponent range, default precision, default rounding and flags the caller has set. "
 "The library leaves the caller's floating-point rounding mode and its const operands as they were.",
 ["histories", "configurations"],
 "all operation sequences over any mix of number formats, bare and decorated, interleaved with any changes of the ambient MPFR and floating-point environment, with failing and throwing operations in between",
 "Every unit test case starts in a fresh process with default MPFR and rounding state and uses one format per case, so state carried from one operation into the next (exponent range, caches, rounding mode) is never varied.",
 [FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_rev_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_num_func_impl.hpp", "p1788/util/mpfr_var_impl.hpp"],
 [("per-operation set-up of the thread-local MPFR exponent range", "p1788/util/mpfr_var_impl.hpp setup()"),
  ("save and restore of the rounding mode", FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp round_ties_to_even"),
  ("release of MPFR caches", "p1788/util/mpfr_var.hpp teardown()")],
 [("mpfr emin/emax", "thread-local exponent range which every operation sets for its own format and never restores"),
  ("FPU control word", "rounding mode of the calling thread")],
 ["returned object of every public operation", "fegetround() after every operation"])

prop("C02", "Results do not depend on how threads are scheduled",
 "When several threads use the library at the same time on their own objects, or read the same constant objects, every operation returns exactly what it returns when executed alone, whatever the interleaving; no interleaving crashes, deadlocks or changes a shared operand. "
 "This includes the very first use of any facility by two threads at once.",
 ["schedules", "histories"],
 "all interleavings of two or more threads at memory-access granularity, including first-use initialisation races, over all operations incl. text input/output and reductions",
 "The test suite is single threaded; no interleaving is ever executed.",
 ["p1788/util/mpfr_var_impl.hpp", "p1788/exception/exception.hpp", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", "p1788/io/io_manip.hpp", "p1788/reduction/reduction.hpp"],
 [("function-local static regular expressions", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp operator_text_to_interval"),
  ("flag and trap storage", "p1788/exception/exception.hpp cwd(), state()"),
  ("thread-local MPFR state set before use", "p1788/util/mpfr_var_impl.hpp setup()")],
 [("static storage of the headers", "anything with static storage duration that two threads can reach")],
 ["per-thread results", "shared const operands after every operation"],
 "none in /repo: the harness compiles the headers with compiler-inserted memory-access hooks and supplies the hook runtime")

prop("C03", "Every computed interval encloses the exact result, in every execution",
 "Along any sequence of operations the interval returned by an arithmetic or elementary function contains the exact value at every point of the operand intervals where the function is defined; a reverse operation keeps every point of its argument that satisfies the constraint; intersection, hull and the cancellative operations keep every point their definition requires, and midpoint, radius, width, magnitude and the bounds stand in the defining relation to the interval. "
 "This holds whatever formats are mixed and whatever state earlier operations, faults and the caller have left behind.",
 ["histories", "configurations", "inputs"],
 "all multi-step interval computations over bare, decorated and mixed-format operands, under any ambient numeric environment and after any failed operation",
 "Unit tests compare a fixed list of single calls with recorded endpoints in a fresh process; they do not run computations that chain operations and formats, and test no environment but the default.",
 [FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_rev_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_mul_rev_to_pair_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_set_op_impl.hpp", FL+"mpfr_bin_ieee754_flavor_cancel_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_num_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp"],
 [("outward rounding with subnormalisation", "p1788/util/mpfr_var_impl.hpp subnormalize()"),
  ("case analysis per function", FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp")],
 None, ["returned intervals and numbers"])

prop("C04", "Exception flags are per thread, sticky and signalled exactly",
 "Each thread has its own exception flags and trap settings: what one thread signals, clears or enables is never visible in another. "
 "A flag is raised by exactly the operations whose operands call for it (impossible bounds or malformed text: undefined operation; interval part of NaI; invalid operand), by no other operation, and stays raised until that thread clears it.",
 ["schedules", "histories"],
 "all interleavings of signalling, clearing and reading threads, and all histories within one thread",
 "Tests look at the flags after single operations in a single thread; isolation between threads and stickiness over long histories are never exercised.",
 ["p1788/exception/exception.hpp", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp", FL+"mpfr_bin_ieee754_flavor_validation_func_impl.hpp"],
 [("flag word, trap word and the signalling functions", "p1788/exception/exception.hpp")],
 [("state", "sticky flags"), ("cwd", "enabled traps")],
 ["flag and trap words read by each thread after every operation"])

prop("C05", "Enabled traps throw the right exception and leave everything unchanged",
 "If and only if a signalled exception is enabled by the calling thread the operation throws the corresponding exception type; nothing else makes an operation on intervals throw. "
 "After the throw the flag is set, the operands, the assignment or extraction target and the trap settings hold what they held before, nothing has leaked, and later operations give the results they would have given without the throw.",
 ["histories", "configurations", "fault_sequences"],
 "all histories with any subset of traps enabled, traps firing inside constructors, assignments, conversions, text input and reductions",
 "The tests trigger each exception once and never inspect targets, operands, resources or the operations that follow.",
 ["p1788/exception/exception.hpp", "p1788/infsup/interval.hpp", "p1788/infsup/decorated_interval.hpp", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp"],
 [("throw on enabled signal", "p1788/exception/exception.hpp signal_*"), ("validating constructors and assignment", "p1788/infsup/interval.hpp, decorated_interval.hpp")],
 [("cwd", "enabled traps of the calling thread")],
 ["exception type, target object, later results"])

prop("C06", "Reading an interval from a failing stream is all-or-nothing",
 "Extracting an interval or decorated interval from a stream that ends, errors or throws at any point either succeeds and stores an interval that encloses the literal formed by all characters delivered, or leaves the target exactly as it was and marks the stream as failed; a failed extraction of a plain decoration leaves its target unchanged or ill. "
 "After a device error it never reports success, it never reports success for malformed text, and well-formed text that arrives completely is accepted. (An uncertain form or a decoration suffix cut short by the end of the stream may itself be a shorter well-formed literal.)",
 ["fault_sequences", "crash_points", "inputs"],
 "all positions of end-of-file, device error or thrown exception inside all literal forms, all byte corruptions, all stream exception masks",
 "Tests read complete literals from string streams that never fail in the middle; the target's value after a failure is checked for a few inputs only.",
 [FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", "p1788/infsup/base_interval_io_impl.hpp", "p1788/decoration/decoration.hpp"],
 [("reading up to the end of a literal", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp operator_text_to_interval"), ("store on success", "p1788/infsup/base_interval_io_impl.hpp")],
 None, ["target object, stream state"])

prop("C07", "Reading does not depend on how the characters arrive",
 "The value, the stream state and the number of characters consumed depend only on the character sequence, not on how the stream buffer delivers it (one character at a time, arbitrary chunks, non-seekable source), on the locale or number base of the stream, or on whether the stream reports errors by state or by exception. "
 "Exactly one literal, including its decoration, is consumed, so a sequence of literals is read back one by one and text behind a literal stays in the stream.",
 ["schedules", "configurations", "inputs"],
 "all partitions of the input into deliveries, all sequences of literals with any separators, all exception masks",
 "Tests use one std::istringstream per literal, i.e. a single delivery and nothing behind the literal.",
 [FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", "p1788/decoration/decoration.hpp"],
 [("character by character scan", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp operator_text_to_interval"), ("decoration suffix", "p1788/decoration/decoration.hpp operator>>")],
 None, ["value, rdstate and position after each extraction"])

prop("C08", "Any text is answered in bounded work",
 "Whatever characters are offered as an interval literal - truncated, corrupted, very long, or with astronomically large or small numbers and exponents - the constructor or extraction returns in work bounded by a modest function of the text length, with either a correct enclosure or the documented failure indication. "
 "Text with a lower bound above the upper bound is never accepted. It never aborts, crashes, hangs, exhausts memory or throws anything the caller did not enable.",
 ["inputs", "fault_sequences"],
 "all character sequences, in particular valid literals with bytes lost, duplicated, changed or appended, and numbers of any magnitude",
 "Tests contain a fixed list of well-formed and a few malformed literals of ordinary size.",
 [FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp"],
 [("literal recognition", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp operator_text_to_interval"), ("exponent handling", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp")],
 None, ["outcome, allocation volume and work of each text-consuming call"])

prop("C09", "Writing to a failing stream never corrupts anything else",
 "Inserting an interval or decoration into a stream whose device fails after any number of characters delivers a prefix of exactly the text a working device would have received, reports the failure through the stream state, and throws only what the stream's exception mask asks for. "
 "In every case the operand, the stream's format flags, precision, fill, locale and all library manipulator settings (wherever in the program they were applied) survive, and after the device recovers and the state is cleared the same insertion yields the same text as on a fresh stream.",
 ["fault_sequences", "crash_points", "configurations"],
 "all failure positions and failure kinds (refused character, short write, thrown exception, failed allocation) in all output representations and manipulator settings",
 "Tests write to string streams, which never fail, and compare the text of single insertions.",
 [FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", "p1788/io/io_manip.hpp", "p1788/util/io.hpp", "p1788/decoration/decoration.hpp"],
 [("manipulator storage in the stream", "p1788/io/io_manip.hpp"), ("temporary width change with restore", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp operator_interval_to_text")],
 [("stream manipulator words", "per-stream representation, width, precision and format settings")],
 ["device contents, stream state, manipulator words"])

prop("C10", "What is written can be read back and encloses what was written",
 "The text written for any interval in a representation that is an interval literal (with punctuation; the empty interval as a word) in every width, precision and format setting and under any C locale and ambient environment, is read back successfully as one literal whose value encloses the interval written, with the same decoration when it was decorated (com becomes dac if a rounded bound overflows); with the hexadecimal number format and default precision it reads back exactly. "
 "An inf-sup literal that lost its tail before the closing bracket is never accepted.",
 ["histories", "configurations", "fault_sequences"],
 "all intervals of all formats, all manipulator combinations changed in any order and from any translation unit on a living stream, all truncations of the stored text",
 "Tests compare the text of chosen intervals with recorded strings; writing is never composed with reading, and settings are not varied jointly.",
 [FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", "p1788/util/mpfr_var_impl.hpp", "p1788/io/io_manip.hpp"],
 [("number formatting with outward rounding", "p1788/util/mpfr_var_impl.hpp get_str()"), ("literal forms", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp")],
 None, ["stored text, interval read back"])

prop("C11", "No memory is leaked, overrun or used after release",
 "Every operation, also one that fails, throws or is abandoned by a fault in the caller's stream, iterator or allocator, releases all memory it obtained except one-time caches, never touches memory outside the blocks it owns, and never uses memory it has released; after thread clean-up the library holds nothing for that thread. "
 "Repeating any operation any number of times leaves memory consumption constant.",
 ["histories", "fault_sequences", "inputs"],
 "all operations with all values and settings, repeated, with faults injected at every point",
 "Tests do not look at memory at all; overruns that stay inside a malloc chunk and leaks are invisible to them.",
 ["p1788/util/mpfr_var.hpp", "p1788/util/mpfr_var_impl.hpp", "p1788/reduction/reduction.hpp", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp"],
 [("RAII wrapper of multiple-precision variables", "p1788/util/mpfr_var.hpp"), ("element storage of reductions", "p1788/reduction/reduction.hpp"), ("number text buffer", "p1788/util/mpfr_var_impl.hpp get_str()")],
 [("live blocks", "allocations through operator new and through the GMP/MPFR allocator")],
 ["allocator seam: live blocks, guard areas"])

prop("C12", "A failed allocation is reported and leaves no trace",
 "If a memory allocation fails at any point inside an operation, the operation either succeeds anyway with its normal result or reports the failure (an out-of-memory exception, or the stream's bad state for stream operations); it never terminates the program or returns a wrong result. "
 "Operands, targets, flags and traps then hold what they held before - except that a flag the operation raises anyway may be raised already - and the same operation repeated with memory available gives its normal result.",
 ["fault_sequences", "crash_points"],
 "every allocation made by every operation failing, singly or from some point on, at any place in a history",
 "No test injects an allocation failure.",
 [FL+"mpfr_bin_ieee754_flavor_io_impl.hpp", "p1788/reduction/reduction.hpp", "p1788/util/mpfr_var_impl.hpp"],
 [("text buffers and regular expressions", FL+"mpfr_bin_ieee754_flavor_io_impl.hpp"), ("element storage of reductions", "p1788/reduction/reduction.hpp")],
 None, ["outcome, targets and follow-up results of operations with failed allocations"])

prop("C13", "Reductions are correctly rounded, order independent and survive a faulty range",
 "Sum, sum of absolute values, sum of squares and dot product return the exact real result correctly rounded in the requested direction, hence the same value for every order of delivery of the elements, for every range of finite numbers including intermediate overflow, underflow and cancellation. "
 "If the range's iterator throws in the middle the exception reaches the caller with nothing leaked, and an iterator that itself uses the library on other formats, or work done by other threads meanwhile, does not change the result.",
 ["schedules", "fault_sequences", "inputs"],
 "all element sequences and all their delivery orders, iterator faults at every element, re-entrant iterators, all interleavings with other threads",
 "Tests sum short arrays in one order with well-behaved iterators.",
 ["p1788/reduction/reduction.hpp"],
 [("exact accumulation", "p1788/reduction/reduction.hpp")],
 None, ["returned number, live memory after a fault"])

prop("C14", "Decorations stay truthful along every computation",
 "Along any sequence of decorated operations a result is decorated as defined only if every function evaluated so far is defined on its whole argument box, as continuous only if in addition it is continuous on that box (for common: the unrestricted function is), and as common only if in addition all arguments and results are bounded and nonempty; no operation improves on the weakest decoration among its arguments, and NaI, once it enters a computation, is never turned back into an ordinary decorated interval except by explicit reconstruction. "
 "Decorated and bare evaluation of the same computation agree on the interval.",
 ["histories", "configurations"],
 "all multi-step decorated computations over all operations and formats, under any ambient environment and after any failed operation",
 "Unit tests check decorations of single calls; the guarantee is about whole evaluation histories.",
 [FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp", "p1788/infsup/decorated_interval.hpp", "p1788/decoration/decoration.hpp", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp"],
 [("decoration propagation per function", FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp"), ("decoration of constructed and set intervals", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp")],
 None, ["decoration and interval part of every result"])

prop("C15", "Results are the tightest of their format, in every execution",
 "Every forward arithmetic and elementary function, set operation, cancellative operation, constructor and format conversion on one format returns the smallest interval of that format which encloses the exact result, and every bound, width, magnitude, midpoint and radius is the number of the format its definition and rounding direction require, including subnormal results, overflow to the largest finite number or infinity and signed-zero operands. "
 "Reverse operations return the smallest enclosure of the points they must keep, for the trigonometric ones at least a subset of the argument. This holds whatever exponent range, precision and rounding earlier operations on other formats, the caller or other threads left behind, and after failed or throwing operations.",
 ["histories", "configurations", "inputs"],
 "all operands of all formats, bare and decorated, at any point of any history of operations on other formats, in any ambient numeric environment, on any thread and through every form of the call",
 "Tests compare a finite list of operands with recorded endpoints, each in a fresh environment; correct rounding of subnormal and overflowing results depends on thread-local exponent ranges that only mixed histories change.",
 [FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_rev_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_num_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_set_op_impl.hpp", FL+"mpfr_bin_ieee754_flavor_cancel_func_impl.hpp", "p1788/util/mpfr_var_impl.hpp"],
 [("correct rounding through MPFR with subnormalisation", "p1788/util/mpfr_var_impl.hpp subnormalize, get()"), ("exponent range per format", "p1788/util/mpfr_var_impl.hpp setup()")],
 [("mpfr emin/emax", "thread-local; decides where results underflow and overflow")],
 ["endpoints of every result"])
prop("C16", "Comparison and overlap relations agree with their definitions, in every execution",
 "Each boolean relation (equal, subset, less, precedes, interior, strictly less, strictly precedes, disjoint, is empty, is entire, is singleton, is common, membership) gives the truth value of its set-theoretic definition on the exact operands, for one format and for mixed formats, bare and decorated; exactly one of the sixteen overlap states holds for every pair, the one its definition demands; converse relations mirror each other when operands are exchanged and operators agree with functions. "
 "NaI makes every relation false. None of this depends on earlier operations, on ambient settings or on other threads.",
 ["histories", "configurations", "inputs"],
 "all pairs of intervals of all formats, empty, unbounded and NaI included, at any point of any history and in any ambient environment",
 "Tests sample pairs, mostly of one format, in a fresh environment.",
 [FL+"mpfr_bin_ieee754_flavor_bool_func_impl.hpp", FL+"mpfr_bin_ieee754_flavor_rec_overlap_impl.hpp", "p1788/overlapping/overlapping.hpp"],
 [("relation definitions", FL+"mpfr_bin_ieee754_flavor_bool_func_impl.hpp"), ("overlap states", FL+"mpfr_bin_ieee754_flavor_rec_overlap_impl.hpp")],
 None, ["truth values and overlap states of every step"])
prop("C17", "Mixed-format operations round once, in every execution",
 "An operation whose operands have different formats from each other or from the result returns the smallest interval (or the correctly rounded number) of the result format that encloses the exact operation on the exact operands: operands are not rounded first, the result is rounded once, and the decoration is the one of the exact operation. "
 "This holds for every combination of two and three operand formats and result format, whatever earlier operations on any of these formats, the caller or other threads left behind.",
 ["histories", "configurations", "inputs"],
 "all operand and result format combinations and values, along any history, in any ambient environment",
 "Tests sample a few values for some combinations; double rounding shows only for operands whose exact result lies close to a rounding boundary of the narrower format.",
 ["p1788/util/mixed_type_traits.hpp", FL+"mpfr_bin_ieee754_flavor.hpp", FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp", "p1788/infsup/interval_operators.hpp", FL+"mpfr_bin_ieee754_flavor_class_impl.hpp"],
 [("choice of the result format", "p1788/util/mixed_type_traits.hpp"), ("evaluation at the larger of the formats", FL+"mpfr_bin_ieee754_flavor_elem_func_impl.hpp")],
 [("mpfr emin/emax", "thread-local; must be that of the result format when the result is rounded")],
 ["endpoints and decoration of every mixed result"])

# ---- listed, not claimed (see MANIFEST.not_applicable)
prop("C18", "The headers can be included in any number of translation units",
 "A program that includes any of the library's headers in several translation units compiles and links.",
 ["configurations"], "all ways to distribute a program over translation units", "Each test is a single translation unit.",
 ["p1788/decoration/decoration.hpp", "p1788/io/io_manip.hpp"],
 [("definitions in headers", "p1788/decoration/decoration.hpp is_valid")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
