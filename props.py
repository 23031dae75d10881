"""The checks: what is built, how much is searched, what the evidence says."""

VARIANTS = {
    "debug": {"flags": ["-std=gnu++17", "-O1"]},
    "release": {"flags": ["-std=gnu++17", "-O2", "-DNDEBUG"]},
    # every access the source makes is made: schedules can get between all of them
    "unopt": {"flags": ["-std=gnu++17", "-O0"]},
    # the library as it is where exceptions are off
    "noexc": {"flags": ["-std=gnu++17", "-O1", "-DLIB_NOEXC"]},
}

# B01 compares these builds; the first one is the reference
BUILDS = {
    "c17-O2-ndebug": {"flags": ["-std=gnu++17", "-O2", "-DNDEBUG"]},
    "c11-O0": {"flags": ["-std=c++11", "-O0", "-ftrivial-auto-var-init=pattern"]},
    "c11-O2-ndebug": {"flags": ["-std=gnu++11", "-O2", "-DNDEBUG"]},
    "c14-O1": {"flags": ["-std=c++14", "-O1"]},
    "c17-O3-noexc-nortti-ndebug": {"flags": ["-std=c++17", "-O3", "-fno-exceptions", "-fno-rtti", "-DNDEBUG"]},
    "c11-Os-noexc": {"flags": ["-std=c++11", "-Os", "-fno-exceptions", "-funsigned-char", "-fshort-enums"]},
    "c20-O3": {"flags": ["-std=c++20", "-O3", "-ftrivial-auto-var-init=zero"]},
    "c23-Og-libchecks": {"flags": ["-std=c++23", "-Og", "-D_GLIBCXX_ASSERTIONS", "-D_GLIBCXX_DEBUG"]},
    "c20-O0-nortti-ndebug": {"flags": ["-std=c++20", "-O0", "-fno-rtti", "-DNDEBUG"]},
    "c14-O2-noexc-nortti": {"flags": ["-std=gnu++14", "-O2", "-fno-exceptions", "-fno-rtti"]},
    "clang-c11-O2": {"cxx": "clang++", "flags": ["-std=c++11", "-O2", "-DB01_NO_SIGNAL"]},
    "clang-c17-O1-noexc-ndebug": {"cxx": "clang++", "flags": ["-std=c++17", "-O1", "-fno-exceptions", "-DNDEBUG", "-DB01_NO_SIGNAL"]},
}
VARIANTS.update(BUILDS)

CBA = "include/embedded/circular_buffer_adapter.h and its iterators, unmodified, instrumented at every load and store"
COMMON = [
    "g++ 13 with libstdc++ on x86-64; the instrumentation (-fsanitize=thread call-outs) does not change the meaning of the code",
    "callers keep to the documented preconditions (no push to a full buffer, no pop from an empty one, elements adopted really exist)",
]


def cba(title, rule, quick, thorough, stub=(), **kw):
    return dict(title=title, sources=[("harness/cba.cpp", 4)], rule=rule, quick=quick, thorough=thorough,
                real=[CBA], stub=["element types (13: trivial of 1..100 bytes, move-only, copy-only, compound, over-aligned, ...)",
                                  "storage: a red-zoned arena at a fixed address"] + list(stub),
                assumptions=COMMON, state_measure="hash bitmap over (capacity, front slot, size, operation, count)", **kw)


def fn(title, rule, quick, thorough, stub=(), **kw):
    return dict(title=title, sources=[("harness/fn.cpp", 4)], rule=rule, quick=quick, thorough=thorough,
                real=["include/embedded/function.h and type_traits, unmodified, instrumented at every load and store"],
                stub=["targets (15 kinds: stateless, self-checking, move-only, copyable, pointers, references, over-aligned, storage-filling, nested, scripted)"] + list(stub),
                assumptions=COMMON, state_measure="hash bitmap over (target kind held by each of 5 wrappers, operation)", **kw)


def vi(title, rule, quick, thorough, stub=(), **kw):
    return dict(title=title, sources=[("harness/varint.cpp", 1)], rule=rule, quick=quick, thorough=thorough,
                real=["include/embedded/varint.h (and circular_buffer_adapter iterators as ranges), unmodified, instrumented"],
                stub=list(stub), assumptions=COMMON, state_measure="hash bitmap over (type, length class, value class, room)", **kw)


def filt(title, rule, quick, thorough, stub=(), parts=4, **kw):
    return dict(title=title, sources=[("harness/filter.cpp", parts)], rule=rule, quick=quick, thorough=thorough,
                real=["include/embedded/signal/* and constexpr_math/*, unmodified, instrumented (designs made at run time by the library)"],
                stub=["sample type: integers modulo 2^64 (exact)"] + list(stub),
                assumptions=COMMON + ["glibc's libm for the design formulas", "bounds on rounding errors cover the direct forms I, II and transposed II"],
                state_measure="hash bitmap over (family, response, order, sample type, form, input shape)", **kw)


PROPS = {
    "C01": cba("Ring buffer equals a bounded double-ended queue",
               "a run draws an element type, capacity, start position, existing elements, an operation mix and up to 200 operations.",
               300000, 30000000),
    "C02": cba("Failed element construction or rejected access leaves no trace",
               "a run is a history of operations in which constructors throw at drawn points and at() is called out of range.",
               400000, 30000000),
    "C03": cba("Every element is constructed and destroyed exactly once",
               "a run is a history over elements whose every construction, copy, move and destruction is recorded.",
               600000, 30000000),
    "C04": cba("Power loss at any store never damages saved elements",
               "a run is a history over persistent storage with up to 5 boots; power fails before, during (torn store) or between operations.",
               500000, 30000000),
    "C05": cba("References, iterators and raw indices stay true to their element",
               "a run is a history during which references and iterators to elements are taken, kept and compared.",
               250000, 30000000),
    "C06": cba("Bulk copies equal the single operations, even when interrupted",
               "a run executes a history of bulk copies on one buffer and the single operations on another, with power failing inside copies.",
               150000, 30000000),
    "C07": cba("The adapter touches only its storage and the slots concerned",
               "a run is a history during which every load and store to the storage and the caller's buffers is checked.",
               500000, 30000000),
    "M01": dict(cba("With assertions, misuse stops before it does harm and correct use goes on",
               "a run is a history of operations, misuses (14 kinds, all forms of each) that must end in a failing assertion, with a restart from the storage afterwards, and uses at the edge of what is allowed.",
               150000, 20000000), variants=["debug", "unopt", "noexc"]),

    "F01": fn("A function wrapper calls exactly the target last put into it",
              "a run draws a wrapper type (11 signatures/capacities/alignments) and a history of up to 160 operations on 5 wrappers; one run in six exercises argument and result passing.",
              600000, 30000000),
    "F02": fn("A function wrapper owns its target's lifetime exactly",
              "a run is a history over wrappers whose targets record every construction, copy, move and destruction.",
              600000, 30000000),
    "F03": fn("A failing call leaves the wrapper intact",
              "a run is a history in which targets throw at drawn calls, empty wrappers are called, and targets act on other wrappers or call themselves.",
              500000, 30000000),
    "F04": fn("Calling a const function wrapper is read-only and shareable",
              "a run interleaves 2-4 tasks calling shared const wrappers and working on their own, preempted at memory accesses.",
              500000, 20000000, stub=["scheduler: seeded, preempts at instrumented memory accesses"], variants=["debug", "release", "unopt"]),
    "V01": vi("A varint stream round-trips under any fragmentation",
              "a run sends up to 60 values of mixed types over each of one to three channels that fragment and delay; senders, channels and receivers are tasks, preempted at memory accesses if there are several streams; sender or oracle is an independent reference codec.",
              300000, 15000000, stub=["scheduler", "channel: ordered, fragmenting, delaying", "reference codec in 128-bit arithmetic"], variants=["debug", "release", "unopt"]),
    "V02": vi("Bounded encoding never writes beyond its end",
              "a run encodes up to 24 values into ranges, devices and containers with drawn room.",
              600000, 30000000, stub=["output device that fills up", "container that refuses bytes by throwing"]),
    "V03": vi("Decoding damaged input is exact or rejected",
              "a run builds a byte stream of valid, overlong and random parts, damages it, and decodes it at drawn offsets and lengths.",
              1500000, 40000000, stub=["damaging channel"]),

    "C08": dict(title="A buffer shared under lock_guard behaves atomically", sources=[("harness/lock.cpp", 1)],
                variants=["debug", "release", "unopt"],
                rule="a run interleaves 2-4 tasks making up to 12 critical sections each on up to 3 buffers with a mutex each, preempted at memory accesses, with stalled holders; every buffer's history is checked for linearizability.",
                quick=500000, thorough=20000000, real=[CBA, "include/embedded/mutex.h, unmodified, instrumented"],
                stub=["scheduler", "mutex (blocking or spinning)", "storage: red-zoned arena", "element types (4)"], assumptions=COMMON,
                state_measure="hash bitmap over (capacity, final size); interleavings by the hash over the sequence of task switches"),
    "L01": dict(title="lock_guard holds its mutex for exactly its lifetime", sources=[("harness/lock.cpp", 1)],
                variants=["debug", "release", "unopt"],
                rule="a run interleaves 2-4 tasks making nested and sequential guards over 6 mutexes of 5 types, left by falling out, return, throw, break, continue and goto; lock() throws at drawn calls; holders stall.",
                quick=400000, thorough=30000000, real=["include/embedded/mutex.h, unmodified, instrumented"],
                stub=["scheduler", "mutexes (plain, rich, abstract, const, recursive, large; blocking or spinning)"], assumptions=COMMON,
                state_measure="interleavings by the hash over the sequence of task switches"),
    "W01": dict(title="move_wrapper transfers single ownership, even by copy", sources=[("harness/movew.cpp", 1)],
                rule="a run is a history of up to 60 wraps, copies, moves, accesses, callback chains and container growths over 6 wrappers.",
                quick=600000, thorough=40000000, real=["include/embedded/move_wrapper.h (and function.h), unmodified, instrumented"],
                stub=["wrapped objects (5 kinds), tokens never duplicated by the harness"], assumptions=COMMON,
                state_measure="hash bitmap over (which of 6 wrappers and 6 objects exist and hold something)"),
    "W02": dict(title="A failing transfer propagates and keeps the object", sources=[("harness/movew.cpp", 1)],
                rule="a run is a history of up to 60 transfers of which half throw.",
                quick=600000, thorough=40000000, real=["include/embedded/move_wrapper.h, unmodified, instrumented"],
                stub=["wrapped objects whose moves throw before changing anything (4 kinds)"], assumptions=COMMON,
                state_measure="hash bitmap over (which of 6 wrappers and 6 objects exist and hold something)"),
    "A01": dict(title="The library never allocates",
                sources=[("harness/alloc.cpp", 1), ("harness/cba.cpp", 4), ("harness/fn.cpp", 4), ("harness/varint.cpp", 1),
                         ("harness/lock.cpp", 1), ("harness/movew.cpp", 1), ("harness/filter.cpp", 4)],
                **{"with": ["C01", "F01", "V01", "L01", "W01", "S02"]},
                rule="a run draws a component and executes a history of that component's own check with the heap withdrawn whenever library code runs.",
                quick=160000, thorough=20000000,
                real=["all headers of include/embedded except variant.h, ostream_ops.h and debug_filter_coefs.h, unmodified, instrumented"],
                stub=["heap: malloc, calloc, realloc, aligned_alloc, posix_memalign and operator new fail and report while library code runs",
                      "user-supplied elements, targets, mutexes"],
                assumptions=COMMON + ["memory for exception objects is the language runtime's, not the library's"]),
    "S01": filt("Filter instances are isolated; copies resume exactly",
                "a run interleaves 2-4 tasks with up to 5 instances each of 1-3 designs, copied, assigned and fed in bursts; every stream is afterwards fed to an instance alone and compared bit by bit.",
                150000, 20000000, stub=["scheduler"], variants=["debug", "release", "unopt"]),
    "S02": filt("A filter computes its design's difference equation from rest",
                "a run draws a design (4 families, 2 responses, orders 1-12, for integers up to 33, 2 forms, 3 sample types), soils the instance's memory and feeds up to 3 streams of up to 400 samples.",
                90000, 6000000),
    "S03": filt("A stable filter forgets input disturbances",
                "a run feeds a stream and a disturbed copy of it to two instances, then up to 500 common samples.",
                20000, 2000000, stub=["disturbing channel"]),
    "S04": filt("Cascaded and polynomial forms of a design agree",
                "a run feeds the same stream of up to 200 samples to both forms on two preempted tasks.",
                40000, 4000000, stub=["scheduler"]),
    "S05": filt("A running filter does what its specification says",
                "a run draws a specification (4 families, 2 responses, orders 1-24, 31, 32, 40 and 41, edge, sample rate, ripple), builds the filter in one form and sample type and plays constants, tones, noise, impulses and bursts to it; one run in 12 compares the poles, zeros and gain of a specification (Bessel of every order to 100, other families to 64) with the textbook's.",
                45000, 4000000, parts=8, stub=["signal generator", "textbook designs in extended precision"]),
    "T01": dict(title="The cost of an operation is bounded, whatever came before", sources=[("harness/cost.cpp", 1)],
                variants=["unopt", "debug"],
                rule="a run is a history on a ring buffer (capacity 1 to 2^33, 5 element types), 4 function wrappers (storage to 20000 bytes), a wrapped object, a codec or a filter; every call's memory accesses are counted.",
                quick=150000, thorough=10000000,
                real=["circular_buffer_adapter, function, move_wrapper, lock_guard, varint, signal (filters), unmodified, instrumented"],
                stub=["storage", "element types (5)", "targets (4)", "mutex (counting)"], assumptions=COMMON + ["cost is counted in memory accesses of the unoptimised and the lightly optimised build; memcpy and memset count once per 64th of their length"],
                state_measure="not measured; see distinct_nontrivial"),
    "Y01": dict(title="A sensor node built from the parts survives crashes and resumes", sources=[("harness/node.cpp", 1)],
                variants=["debug", "release", "unopt"],
                rule="a run boots a node up to 5 times: sampler, main loop and uplink preempted at memory accesses, power failing at stores, times or accesses, over a lossy link; the last boot is without faults and must deliver everything.",
                quick=100000, thorough=6000000,
                real=["circular_buffer_adapter (persistent byte log, event queue), function (events, callbacks), move_wrapper, lock_guard, varint, signal (filters and designs), unmodified, instrumented"],
                stub=["scheduler", "mutexes and semaphores", "persistent memory: red-zoned arena, stores can be torn", "link: loses, duplicates, reorders, delays", "receiver", "application code of the node (record format, two-slot commit header)"],
                assumptions=COMMON, state_measure="hash bitmap over (log capacity, records, position); interleavings by the hash over the sequence of task switches"),
    "B01": dict(title="Behaviour does not depend on the build configuration",
                sources=[("harness/b01.cpp", 1)], plain=True, compare=True, variants=list(BUILDS),
                rule="a run is a history over one to three components, executed in every build; the recordings are compared run by run.",
                quick=100000, thorough=4000000,
                real=["all headers of include/embedded except variant.h, ostream_ops.h and debug_filter_coefs.h, unmodified, not instrumented"],
                stub=["reaction to std::terminate: recorded, ends the run"],
                assumptions=["g++ 13 and clang 18 with libstdc++ on x86-64 (clang has no constant-expression <cmath>, so filters are compared between g++ builds only)",
                             "filter designs are compile-time constants, so that libm does not enter the comparison"],
                technique="deterministic simulation: the same seeded histories executed in twelve builds and compared run by run; minimised replay files",
                state_measure="not measured; see distinct_nontrivial"),
}
