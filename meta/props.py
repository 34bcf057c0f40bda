"""The properties, what decides them, and the properties that this technique cannot decide."""


def P(id, title, statement, over, text, why, files, mechanism, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "hook_needed": hook}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a}


PROPS = [
    P("C01", "Element-wise results do not depend on how the elements are delivered",
      "For every element-wise ufunc and every type combination it supports, the value written for an "
      "element depends only on the input elements at that position: not on how NumPy splits the call into "
      "chunks, the order of the chunks, strides, byte order, alignment, buffering, broadcasting, `where` "
      "masks or memory that `out` shares with an input. No input is modified, except where it shares "
      "memory with `out`, and nothing outside the selected elements of `out` is written.",
      ["inputs", "schedules", "configurations"],
      "every ufunc and loop, every operand layout, every way of splitting one call into inner-loop calls "
      "and every order of those calls",
      "Tests call each ufunc with one or two small contiguous arrays; which chunks, strides and temporary "
      "buffers an inner loop receives is decided by NumPy and by the caller's memory layout.",
      ["tools/cxxgen/generate_ufunc_extmod.py", "src/logistic/logistic.h", "src/log1p/log1p_ufunc.c",
       "src/issnan/issnan_ufunc.c.src", "src/abssq/abssq_ufunc.cpp", "src/normal", "src/step"],
      [("generated inner loops advance every operand by its own step",
        "tools/cxxgen/generate_ufunc_extmod.py"),
       ("hand-written inner loops", "src/*/*_ufunc.c*")],
      ["result arrays", "operand memory after the call"]),
    P("C02", "Each core slice of a gufunc gives the same result however it is delivered",
      "For every generalized ufunc, type combination and core dimension, the result for each core slice is "
      "what the function gives for that slice alone in contiguous memory (up to floating-point rounding), "
      "whatever the strides, axes, byte order, alignment, broadcasting, outer chunking, buffering or "
      "overlap of `out`; the Python wrappers with `axis=` and `out=` agree with the function applied "
      "slice by slice along that axis. Inputs are not modified, nothing outside `out` is written, and "
      "except for the accumulating functions the previous contents of `out` do not matter.",
      ["inputs", "schedules", "configurations"],
      "every gufunc, loop and wrapper, every core and outer stride pattern, axis choice and split of the "
      "outer loop",
      "Tests use short, mostly contiguous arrays and one core dimension at a time; specialised paths (zero "
      "strides, contiguous fast paths, length-2 and length-3 cases) are chosen by memory layout.",
      ["tools/cxxgen/gufuncgen.py", "src/util/strided.hpp", "src/util/ufunc_tools.h",
       "ufunclab/_wrapped.py", "src/means", "src/minmax", "src/sosfilter"],
      [("generated gufunc loops convert steps to per-slice pointers", "tools/cxxgen/gufuncgen.py"),
       ("get()/set() honour the core stride", "src/util/strided.hpp"),
       ("axis handling", "ufunclab/_wrapped.py")],
      ["result arrays", "operand memory after the call"]),
    P("C03", "Concurrent calls from several threads behave as if each ran alone",
      "When several threads call functions of the library at the same time on distinct outputs, every call "
      "returns exactly what it returns when it runs alone, and reports the same floating-point errors, under "
      "every interleaving of the threads; no call hangs, crashes or modifies another call's operands. This includes calls of the same function, of "
      "gufuncs made by gendot, and of the Python wrappers.",
      ["schedules"],
      "every interleaving of up to four threads at basic-block granularity in code that runs without the "
      "GIL and at line granularity in the Python wrappers",
      "The test suite is single-threaded; a shared static buffer or module-level cache passes every test.",
      ["src", "tools/cxxgen", "ufunclab/_wrapped.py", "src/gendot/gendotmodule.c"],
      [("inner loops keep all their state in arguments and locals", "src/*"),
       ("per-loop constants in the gendot data block are only read", "src/gendot/gendotmodule.c")],
      ["result arrays of each thread"]),
    P("C04", "Calls touch only their operands, and results never depend on stray memory",
      "No call, for any operand values and any core dimensions including zero and one, reads or writes "
      "memory outside its operands and its own temporary storage. Every element of every output is defined "
      "by the arguments alone: it does not depend on where the allocator places arrays, on what the memory "
      "held before, or on the previous contents of an `out` that is not documented as accumulating.",
      ["inputs", "fault_sequences"],
      "every function, loop, operand value (including NaN, infinities, out-of-range indices and extreme "
      "integers) and core dimension, under every placement and initial content of memory",
      "An out-of-bounds access by one element or an output element that is never set usually goes unnoticed "
      "in a test, because the neighbouring memory is mapped and fresh memory is often zero.",
      ["src", "tools/cxxgen/gufuncgen.py", "src/bincount/bincount_gufunc.h",
       "src/linear_interp1d/linear_interp1d_gufunc.c.src", "src/sosfilter/sosfilter_gufunc.h"],
      [("bounds tests before indexed access", "src/bincount/bincount_gufunc.h"),
       ("core dimension checks", "tools/cxxgen/gufuncgen.py")],
      ["result arrays", "page faults", "canaries around every block"]),
    P("C05", "A failed allocation becomes MemoryError and nothing else",
      "If any memory allocation made during a call fails, the call either returns the correct result or "
      "raises MemoryError; it never crashes, hangs, raises something else or returns a wrong result. It "
      "leaks no memory and no references, and the same call repeated once memory is available succeeds with "
      "the correct result.",
      ["fault_sequences", "histories"],
      "every allocation (C heap, Python objects, array data) made by every function, wrapper, gendot and "
      "the inspector, failing alone or with all that follow it",
      "No test makes an allocation fail.",
      ["src/sosfilter/sosfilter_gufunc.h", "src/gendot/gendotmodule.c",
       "src/percentileofscore", "src/ufunc-inspector/ufunc_inspector.c", "ufunclab/_wrapped.py"],
      [("result of malloc is checked and MemoryError raised with the GIL held", "src/gendot/gendotmodule.c")],
      ["exception of the call", "live blocks after the call"]),
    P("C06", "An exception raised by an element ends the call and is what the caller sees",
      "When an operation on an element of an object array raises, the call raises that same exception and "
      "starts no further operation on elements. Nothing else is affected: the arguments still hold their "
      "elements, no reference is lost or leaked, and the next call works.",
      ["fault_sequences"],
      "every function with an object loop, every operator the loop may invoke, every position at which it "
      "may raise, every outer and core layout",
      "Tests of object loops use well-behaved numbers; where an exception strikes is a fault position that "
      "they do not vary.",
      ["tools/cxxgen/gufuncgen.py", "tools/cxxgen/generate_ufunc_extmod.py", "src/minmax/minmax_gufunc.h",
       "src/first/first_gufunc.h", "src/searchsorted/searchsorted_gufunc.c.src"],
      [("object loops return when a callback failed", "src/minmax/minmax_gufunc.h")],
      ["exception of the call", "the log of operations on elements"]),
    P("C07", "Calls on object arrays conserve references",
      "After any call on object arrays, successful or not and with or without `out`, every element object "
      "has exactly the references that the surviving arrays and results account for: objects replaced in "
      "`out` are released, results are owned, inputs keep what they had. Repeating a call any number of "
      "times neither leaks objects nor frees one that is still in use.",
      ["histories", "fault_sequences"],
      "every function with an object loop, every layout, reused `out` arrays, and failures at every "
      "position",
      "Tests compare values only; a leaked or a missing reference is invisible to them until the process "
      "crashes or grows.",
      ["src/minmax/minmax_gufunc.h", "src/first/first_gufunc.h", "src/cross/cross_gufunc.h",
       "src/peaktopeak/peaktopeak_gufunc.c.src", "src/util/object_tools.h"],
      [("outputs are replaced, not overwritten", "src/util/object_tools.h")],
      ["reference counts of every element"]),
    P("C08", "Element operations may re-enter the library or change the arrays safely",
      "If an operation on an element of an object array calls back into the library, or changes, releases "
      "or replaces elements of the arrays being processed, the call still ends with a result or an "
      "exception. It never uses a freed object or crashes, and unrelated calls made inside it give the "
      "same results as outside.",
      ["schedules", "fault_sequences"],
      "every function with an object loop, every callback position, and actions: replace an element, clear "
      "the array, re-enter the same function, run the garbage collector",
      "Ordinary numbers have no side effects, so the tests never execute code between the operations of an "
      "object loop.",
      ["src/minmax/minmax_gufunc.h", "src/first/first_gufunc.h", "src/ordered/ordered_gufunc.h",
       "src/all_same/all_same_gufunc.h", "src/searchsorted/searchsorted_gufunc.c.src"],
      [("loops hold references across callbacks", "src/util/object_tools.h")],
      ["crash of the process", "references to freed objects"]),
    P("C09", "Filters resume across chunks, crashes and replays without a trace",
      "Processing a signal in pieces, carrying the documented state (filter delays, last position, last "
      "relay level) from each piece to the next, gives the same output as processing it at once with "
      "sosfilter_ic, sosfilter_ic_contig, backlash, backlash_sum, hysteresis_relay and unwrap; sosfilter "
      "equals sosfilter_ic started from rest. This holds for every split into pieces, including empty "
      "ones, when a piece is lost and replayed from the saved state after a crash, and for "
      "every channel of a multichannel signal.",
      ["histories", "crash_points", "inputs"],
      "every split of a signal into pieces, every checkpoint and crash position, every coefficient set and "
      "number of channels",
      "Tests filter one short signal once; the state output is compared at most once and never fed back "
      "over a history.",
      ["src/sosfilter/sosfilter_gufunc.h", "src/backlash/backlash_gufunc.h",
       "src/hysteresis_relay/hysteresis_relay_gufunc.h", "src/unwrap/unwrap_gufunc.h"],
      [("the final delays are an output in the layout of the initial ones", "src/sosfilter/sosfilter_gufunc.h")],
      ["outputs and state of each piece"],
      [("zi", "delays of each filter section", "src/sosfilter/sosfilter_gufunc.h")]),
    P("C10", "bincount counts every element exactly once in out",
      "After any history of bincount calls on the same `out`, each bin holds its initial value plus the "
      "exact number (or weight) of the in-range elements of all calls that returned; elements outside "
      "0..m-1 of any integer type count nowhere. Without `m` every non-negative element is counted, and a "
      "call that is rejected or runs out of memory has counted nothing, so repeating it is exactly-once.",
      ["histories", "fault_sequences", "inputs"],
      "every sequence of calls with any integer types, layouts, axes, weights, `m` and output types, with "
      "failed calls repeated",
      "Tests make at most two accumulating calls with small in-range values and an `out` of the native "
      "type.",
      ["src/bincount/bincount_gufunc.h", "ufunclab/_wrapped.py"],
      [("bounds test and increment", "src/bincount/bincount_gufunc.h"),
       ("default m and initialisation of out", "ufunclab/_wrapped.py")],
      ["contents of out after each call"],
      [("out", "accumulated counts", "ufunclab/_wrapped.py")]),
    P("C11", "A gendot gufunc is exactly the composition of its two ufuncs",
      "For every pair of ufuncs that gendot accepts, every numeric type combination it offers and every shape, the "
      "gufunc gives what reducing prodfunc(x, y) with sumfunc along the core axis gives, with the same "
      "output type, and the identity (or ValueError if there is none) for empty input. This holds whatever "
      "the item sizes, strides, chunking, number of threads, ufuncs or gufuncs created or destroyed in between, and "
      "a failed allocation raises MemoryError.",
      ["programs", "inputs", "fault_sequences", "histories"],
      "every pair of NumPy and ufunclab ufuncs, every loop, layout and history of creating and dropping "
      "gufuncs",
      "Tests compose four pairs; the item sizes, identities and loop pairing of the others are never run.",
      ["src/gendot/gendotmodule.c", "ufunclab/_gendot_wrap.py"],
      [("pairing of loops", "ufunclab/_gendot_wrap.py"),
       ("intermediate buffer and reduction", "src/gendot/gendotmodule.c")],
      ["results", "types of the gufunc", "live heap blocks"]),
    P("C12", "Lazy loading gives one consistent namespace in any order, thread or retry",
      "Every name that the package advertises can be obtained by attribute access or import, in any order, "
      "from any number of threads and after failed attempts, and is always the same single object as in "
      "its defining module. A failure while a module loads raises an ordinary exception, leaves the package "
      "usable, and the same access succeeds once the fault is gone; unknown names raise AttributeError.",
      ["schedules", "fault_sequences", "histories"],
      "every order of first accesses of the public names, every interleaving of threads doing so, and a "
      "failure of any module load or file access at any point",
      "Each test module imports the names it needs once, in one thread, with every file readable.",
      ["ufunclab/__init__.py", "ufunclab/_wrapped.py", "ufunclab/_gendot_wrap.py", "ufunclab/meson.build"],
      [("module-level __getattr__ with a table of names", "ufunclab/__init__.py")],
      ["identity of the objects", "exceptions"]),
    P("C13", "Code generation is deterministic and never leaves a wrong file after an error",
      "The code generators that the build runs (in tools/ and _build_utils/) produce byte-identical output for the same inputs, "
      "whatever the hash seed, the directory order, the current directory or files left by an earlier run. "
      "If reading or writing fails at any point they end with an error (non-zero status or an exception) "
      "instead of reporting success with missing or truncated output, and running again after the fault "
      "gives the complete output.",
      ["fault_sequences", "configurations", "crash_points"],
      "every generator invoked by the build, every file operation failing, short or crashing at any point, "
      "every hash seed",
      "The build runs each generator once on a healthy disk; no test runs a generator at all.",
      ["tools/conv_template.py", "tools/cxxgen/gufuncgen.py", "tools/cxxgen/generate_ufunc_extmod.py",
       "tools/cxxgen/generate_gufunc.py", "tools/cxxgen/generate_ufuncs.py",
       "tools/cxxgen/generate_concrete_cfuncs.py", "tools/cxxgen/generate_utils.py",
       "_build_utils/make_version_file.py"],
      [("generators write their output files", "tools/cxxgen/generate_gufunc.py")],
      ["bytes of the output files", "exit status"]),
    P("C14", "A call's result does not depend on the calls made before it",
      "The outcome of a call (result, types, exception and warnings) is the same in every history: it does "
      "not depend on which functions were called before, with what values, how many times, or whether they "
      "failed with an exception, a floating-point error, an invalid argument or a memory failure. No call "
      "changes the constants, function objects or settings that the library or NumPy share between calls.",
      ["histories", "fault_sequences"],
      "every finite history of calls of all public functions, including rejected and failing calls",
      "Each test runs in one fixed order in one process and compares single calls.",
      ["ufunclab/__init__.py", "ufunclab/_wrapped.py", "src", "tools/cxxgen"],
      [("no mutable module state", "src/*")],
      ["outcome of each call compared with its outcome in a fresh process"]),
    P("C15", "Floating-point errors are reported from the call's own arguments only",
      "Whether a call reports divide, overflow or invalid (as a warning or FloatingPointError, by the "
      "caller's np.errstate) depends only on its arguments: not on floating-point flags raised earlier, "
      "on memory layout, or on how the call is split into chunks or slices: it reports exactly the errors that "
      "its elements or slices report when each is processed alone. A call never alters the rounding mode or "
      "other floating-point controls, whether it succeeds or fails.",
      ["histories", "schedules", "inputs"],
      "every function, argument values including NaN, infinities, zeros and extremes, every error state and "
      "prior flags, every chunking",
      "Tests hardly look at warnings and always start from clear flags with one layout.",
      ["tools/cxxgen/generate_ufunc_extmod.py", "src/mad/mad_gufunc.h",
       "src/convert_to_base/convert_to_base_gufunc.h"],
      [("clearing of flags around quiet comparisons", "tools/cxxgen/generate_ufunc_extmod.py")],
      ["warnings and exceptions", "the floating-point environment before and after"]),
    P("C16", "Every call ends after work bounded by the size of its operands",
      "For any operand values, including NaN, infinities, subnormals, zeros and the extreme integers, every "
      "call finishes after a number of steps bounded by a constant times the number of elements processed "
      "(elements of the operands, or the pairs of them that the function combines, as mad and sosfilter do); no argument value makes a call loop forever, trap or take time proportional to the value itself.",
      ["inputs", "fault_sequences"],
      "every function and loop, every operand value, every core dimension",
      "Tests use ordinary values; an iteration that stops converging, or whose counter overflows, for one "
      "special value is not seen.",
      ["src/debye1", "src/expint1", "src/logfactorial", "src/unwrap/unwrap_gufunc.h",
       "src/convert_to_base/convert_to_base_gufunc.h", "src/multivariate_logbeta", "src/loggamma1p"],
      [("loops are bounded by core dimensions or fixed series lengths", "src/*")],
      ["basic blocks executed by the call"]),
    P("N01", "The special functions are accurate over their whole domain",
      "The element-wise mathematical functions (logistic family, normal distribution, debye1, expint1, "
      "log1p variants, pow1pm1, Yeo-Johnson, loggamma1p, logfactorial, steps, ramps and so on) return the "
      "documented mathematical value to within a few units in the last place for every argument.",
      ["inputs"], "every argument of every floating-point type",
      "Tests compare a few dozen points with reference values.",
      ["src/logistic", "src/normal", "src/debye1", "src/expint1", "src/log1p", "src/pow1pm1",
       "src/yeo_johnson", "src/loggamma1p", "src/logfactorial"],
      [("formulas and series", "src/*")]),
    P("N02", "Reductions and transforms compute their documented formula",
      "The gufuncs (means, meanvar, mad, gini, vnorm, pearson_corr, wjaccard, softmax, searchsorted, "
      "argmin/argmax, cross products, triangle areas, interpolation and so on) return the value given by "
      "the documented formula for every input slice.",
      ["inputs"], "every slice of every supported type",
      "Tests compare a handful of slices with reference values.",
      ["src/means", "src/meanvar", "src/mad", "src/vnorm", "src/corr", "src/wjaccard", "src/softmax",
       "src/searchsorted", "src/minmax", "src/cross", "src/tri_area", "src/linear_interp1d"],
      [("formulas", "src/*")]),
    P("N03", "Type resolution picks the documented loop or refuses",
      "For every combination of argument types each function either uses a loop that represents every "
      "argument without loss or raises a TypeError, and the output has the documented type.",
      ["inputs", "configurations"], "every combination of argument dtypes",
      "Tests use a few dtypes per function.",
      ["ufunclab/meson.build", "tools/cxxgen/gufuncgen.py", "tools/cxxgen/generate_ufunc_extmod.py"],
      [("order of the type signatures", "src/*/define_*.py")]),
    P("N04", "The documentation matches the functions",
      "Every example in the README and in the docstrings gives the printed result, and the documented "
      "signatures and shapes are those of the functions.",
      ["programs"], "every documented example", "No test runs the documented examples.",
      ["README.md", "src"], [("docstrings", "src/*")]),
]

PURE = ("a statement about the value of a pure, sequential function of its arguments: no scheduling, time, I/O, "
        "fault, history or other party can change it, so simulation would only be input sampling against a "
        "re-implemented formula, which is property-based testing and not this technique")
NOT_APPLICABLE = {
    "N01": PURE,
    "N02": PURE + " (delivery, memory, threads, faults and histories of these functions are C02 to C08, C14 to C16)",
    "N03": "decided by static tables that NumPy reads when the module is created; no source of nondeterminism "
           "or fault takes part in it, so there is nothing to simulate",
    "N04": "text compared with fixed single calls; nothing for a simulator to schedule or to fail",
}

CHECKS = {
    "C01": ("deterministic simulation of element delivery: seeded plans of chunking, layout, buffering and "
            "aliasing, checked by refinement against single-element delivery", "exploration",
            "Seeded search; compares bit for bit with the same loop fed one element per call. Trusts NumPy's "
            "casting, masking and overlap handling. Does not judge the formula itself."),
    "C02": ("deterministic simulation of slice delivery: seeded plans of chunking, layout, axes, buffering and "
            "aliasing, checked by refinement against slice-at-a-time delivery and small wrapper models",
            "exploration",
            "Seeded search; compares with the same loop fed one contiguous slice per call (floating-point "
            "results up to rounding). Does not judge the formula itself."),
    "C03": ("deterministic simulation of threads: real threads under a seeded baton scheduler that preempts at "
            "every basic block of the compiled code and every bytecode of the wrappers, checked against each "
            "call alone", "exploration",
            "Seeded search over interleavings at basic-block granularity, sequentially consistent memory."),
    "C04": ("deterministic simulation of memory: a simulated heap and array allocator with seeded placement "
            "against guard pages, seeded contents and canaries; each call runs under several worlds whose "
            "results must agree", "exploration",
            "Seeded search over values, dimensions and placements. Reads are caught at page granularity on the "
            "guarded side, or through a difference in the result between worlds."),
    "C05": ("deterministic simulation of allocation failures: every allocator the call uses (C heap, Python "
            "objects, array data) fails at a seeded point, once or from then on; outcome, live blocks and the "
            "repeated call are compared with an undisturbed run", "exploration",
            "Seeded search over calls and failing allocations; leaks are judged by repeated failing calls."),
    "C06": ("deterministic simulation of element operations: the elements are simulated objects whose n-th "
            "operation raises; exception, log of operations, arguments and references are checked",
            "exploration",
            "Seeded search over functions, layouts and raising positions."),
    "C07": ("deterministic simulation of histories of calls on simulated element objects with raising "
            "operations, reused outputs and dropped arrays; reference counts are checked against the living "
            "arrays after every step", "exploration",
            "Seeded search over histories; counts through sys.getrefcount."),
    "C08": ("deterministic simulation of element operations that act: at seeded operations of an object loop the "
            "arrays are changed, cleared or dropped, the library is re-entered, exceptions are raised; freed "
            "memory is overwritten and quarantined; crashes, references and nested results are checked",
            "exploration", "Seeded search over functions, layouts, actions and the operations they strike."),
    "C09": ("deterministic simulation of a stream processor: seeded pieces, checkpoints, crashes with replay and "
            "rejected calls; the durable output must be that of one call on the whole signal", "exploration",
            "Seeded search over histories; the reference is the function itself on the whole signal and on each "
            "channel (floating-point results up to rounding)."),
    "C10": ("deterministic simulation of histories of bincount calls with rejected calls, failing allocations and "
            "crashes, checked after every call against an exact count", "exploration",
            "Seeded search over histories; the model counts in Python integers."),
    "C11": ("deterministic simulation of histories of creating, calling and dropping gendot gufuncs on a simulated "
            "heap with failing allocations and guard pages, checked against folding one ufunc over the other",
            "exploration", "Seeded search over pairs, types, layouts and histories; trusts NumPy's loops. Where "
            "NumPy has several kernels for a function the comparison allows rounding."),
    "C12": ("deterministic simulation of loading: fresh processes whose threads access the names in seeded order "
            "under a seeded scheduler that switches at lines of the import system and of the package, while "
            "module loads, file reads and allocations in module initialisation fail; identity, exceptions and "
            "the usability afterwards are checked against an undisturbed process", "exploration",
            "Seeded search. Python lines are the finest switching points; compiled module initialisation is one "
            "step. Trusts importlib; its own deadlock error between a package and a submodule is treated as a "
            "fault."),
    "C13": ("deterministic simulation of a disk under the code generators: every file operation of a generator "
            "run goes to a simulated disk on which seeded operations fail, come up short, are torn, fill the "
            "disk or crash the process, with seeded leftovers, directory orders, clocks and hash seeds; exit "
            "status, the bytes left behind and the run after the fault are checked against an undisturbed run",
            "exploration",
            "Seeded search over histories of generator runs. Trusts Python's file objects. Generators that need "
            "mpmath and are not part of the build are not run."),
    "C14": ("deterministic simulation of histories: a process that has called nothing executes a seeded history of "
            "calls, repetitions, rejected calls, failing allocations, raising elements and stale floating-point "
            "flags; every call's outcome is compared with the same call alone in a process of its own, and "
            "the shared state with what it was before", "exploration",
            "Seeded search over histories of up to 14 steps with repetitions up to 300."),
    "C15": ("deterministic simulation of the floating-point environment: each call is executed after stale flags, "
            "failed calls, in other layouts, chunks, slices, error states and rounding modes and with failing "
            "allocations; its reports must be those of the undisturbed call and of its slices alone",
            "exploration",
            "Seeded search over values and worlds. Judges divide, overflow and invalid, not underflow. Trusts "
            "NumPy's reporting of the flags."),
    "C16": ("deterministic simulation with a step budget: every basic block of the compiled code and every line of "
            "the wrappers is counted while calls process hostile values under other rounding modes, stale flags "
            "and failing allocations; the budget is linear in the elements processed", "exploration",
            "Seeded search over values. Work inside libm and NumPy is only watched by a CPU time limit."),
}
