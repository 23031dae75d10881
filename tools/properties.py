#!/usr/bin/env python3
"""Source of properties.jsonl (run: tools/properties.py > properties.jsonl)."""
import json
CB = "include/embedded/circular_buffer_adapter.h"
CBI = "include/embedded/detail/circular_buffer_adapter.h"
FN = "include/embedded/function.h"
VI = "include/embedded/varint.h"
MU = "include/embedded/mutex.h"
MW = "include/embedded/move_wrapper.h"
SF = "include/embedded/signal/filter.h"
SD = "include/embedded/signal/detail/filter.h"
SS = "include/embedded/signal/sos.h"
SP = "include/embedded/signal/poly.h"

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


CBSTATE = [("begin_/end_", "storage bounds", CB), ("first_/last_/size_", "position of the first element, of the next one at the back, element count", CB)]

prop("C01", "Ring buffer equals a bounded double-ended queue",
     "Over any history of operations, a circular buffer adapter reads exactly like a double-ended queue of the same capacity: same size, emptiness, fullness and remaining room, and the same elements in the same order through every way of reading them. "
     "This holds for every capacity from one up, every element type, every start position the constructors accept (including one past the end), and continues to hold when the adapter is moved or is dropped and re-created from the raw index of its begin and its size. A default-constructed adapter reads as an empty ring without room. "
     "What bulk operations take out is what the queue would have delivered, in order.",
     ["histories", "inputs"], "all operation histories x capacities x start positions x element types",
     "Tests run a handful of fixed histories on small buffers of one or two element types; wrap-around, full/empty boundaries and combinations of operations are sampled, not covered.",
     [CB, CBI],
     [("wrapping pointer arithmetic inc/dec/add/sub", CB), ("size_ disambiguates full from empty", CB), ("null iterator as end()", CBI)],
     CBSTATE, ["size/empty/full/remaining", "front/back/[]/at", "iterators in both directions", "copy_out_*"])
prop("C02", "Failed element construction or rejected access leaves no trace",
     "If constructing an element throws during any push or emplace at either end, the exception reaches the caller unchanged, and the buffer has the same elements, in the same places, and the same size as before; nothing leaks and no half-made element remains. "
     "A checked access out of range throws out_of_range for every index not below the size and changes nothing. "
     "The buffer stays fully usable afterwards, whatever sequence of failures and operations follows.",
     ["fault_sequences", "histories"], "every history x every construction that fails",
     "Tests inject one throw in a few fixed situations; failures at the wrap-around, on empty and almost full buffers, of parts of an element, and repeated failures mixed with other operations are not reached.",
     [CB], [("construct first, then commit position and size", CB), ("bounds check in at()", CB)], CBSTATE,
     ["exception at the caller", "contents and size afterwards", "set of live objects"])
prop("C03", "Every element is constructed and destroyed exactly once",
     "Every element added is constructed exactly once in one free slot, from exactly the arguments given and in their value category; every element removed (single, counted, cleared) is destroyed exactly once, and no other element is created, copied over or destroyed. "
     "At any moment between operations the live objects in the storage are exactly the elements of the buffer. "
     "Creating, moving, re-creating, observing and destroying an adapter creates and destroys no elements, so elements outlive it.",
     ["histories", "fault_sequences"], "all operation histories over element types with observable lifetimes",
     "Tests count constructor and destructor calls in a few straight-line scenarios; they cannot show balance for counted pops across the wrap, clear in every position, or interleavings with re-adoption and failures.",
     [CB], [("placement new / explicit destructor calls", CB), ("destroy(pointer, count)", CB), ("trivial-type shortcut", CB)], CBSTATE,
     ["constructor/destructor calls with addresses"])
prop("C04", "Power loss at any store never damages saved elements",
     "If power fails at any store the library performs, even tearing it, then re-creating the adapter over the surviving storage from the last saved raw position and element count yields exactly the saved elements, except those whose slot has been reused by a later addition or explicitly overwritten since. "
     "Removals alone never damage a saved element. "
     "This holds across any number of crashes and restarts.",
     ["crash_points", "histories"], "all histories of operations, saves, crashes at (or in the middle of) any store, and restarts",
     "No existing test interrupts an operation; a crash point is a store instruction inside an operation, which a test of return values cannot reach.",
     [CB], [("additions write only free slots before moving the position", CB), ("constructor over existing contents", CB), ("raw_index", CB)], CBSTATE,
     ["storage bytes", "contents after re-creation"])
prop("C05", "References, iterators and raw indices stay true to their element",
     "A reference, pointer or iterator to an element keeps denoting that element until the element itself is removed, whatever is added or removed elsewhere, and elements never move. "
     "Iterators obey the random-access laws (arithmetic, difference, ordering, equality across mutable and constant iterators, reverse iteration) for every pair of positions including the end, however they were reached. "
     "The raw index of an iterator is the storage slot of its element.",
     ["histories", "inputs"], "all histories x all iterator pairs x all ways of reaching a position",
     "Tests check iterator arithmetic for a few offsets on buffers in a couple of positions, and never keep an iterator across modifications.",
     [CB, CBI], [("iterators hold the slot address, end() is null", CBI), ("index() relative to the first slot", CB), ("raw_index/realiter", CBI)], CBSTATE,
     ["iterator operators", "addresses of elements", "raw_index"])
prop("C06", "Bulk copies equal the single operations, even when interrupted",
     "Copying a block into or out of either end or any range of the buffer leaves the same elements at the same positions and delivers the same bytes as the corresponding single-element operations, for every count including zero and every position of the wrap-around. "
     "If a bulk operation is interrupted by power loss, elements it was not asked to overwrite are intact, and re-creating the adapter from the position before the call gives the contents before the call (range overwrites: outside the range), so the call can be repeated.",
     ["histories", "crash_points", "inputs"], "all contents x block sizes x wrap positions x interruption points",
     "Tests use fixed block sizes on small buffers; the split of a block at the wrap and interruption between the two halves are not enumerated.",
     [CB], [("copy_in_impl / copy_out_impl two-part copy", CB), ("position committed after the copy (front/back)", CB)], CBSTATE,
     ["storage bytes", "destination bytes", "raw_index"])
prop("C07", "The adapter touches only its storage and the slots concerned",
     "No operation reads or writes outside the storage it was given, except the caller's own source (read, exactly the count given) and destination (written, exactly the count given). "
     "Within the storage, an operation writes only the slots of the elements it adds, removes or was asked to overwrite; observing operations write nothing.",
     ["histories", "inputs"], "all histories; every load and store of every operation",
     "A stray store to a free slot or a neighbouring byte changes no value a test reads; only looking at every access decides it.",
     [CB, CBI], [("pointer arithmetic within begin_/end_", CB), ("two-part copies", CB)], CBSTATE, ["every load and store (instrumented)"])
prop("C08", "A buffer shared under lock_guard behaves atomically",
     "When several tasks use one circular buffer and every access is made inside a lock_guard scope on the same mutex, every interleaving gives results that some sequential order of the operations, consistent with real time, would have given: nothing is lost, duplicated, reordered or seen half-done. "
     "Every task waiting for the mutex eventually gets it once holders stop stalling.",
     ["schedules", "histories"], "all interleavings at memory-access granularity of several tasks' operations, with stalls",
     "The tests are single-threaded: no interleaving of two users of a buffer is ever executed.",
     [MU, CB], [("lock in constructor, unlock in destructor", MU)], [("m_", "the guarded mutex", MU)], ["operation history with invocation and return times"])
prop("L01", "lock_guard holds its mutex for exactly its lifetime",
     "From the end of construction to the start of destruction, a lock_guard's task owns the mutex and nobody else does; the mutex is locked once and unlocked once, on every way out of the scope (falling out, return, exception, loop control), for any number of nested or sequential guards over any mutexes. "
     "If locking itself throws, the exception propagates and the mutex is never unlocked by the guard. "
     "A guard cannot be copied. "
     "It works with any type offering lock() and unlock(), calling nothing else.",
     ["schedules", "fault_sequences", "programs"], "all task interleavings, exits, nestings, and failures of lock()",
     "The test checks the call counts of one scope exit; contention, exceptional exits and failing lock operations are not exercised.",
     [MU], [("RAII constructor/destructor", MU), ("deleted copy operations", MU)], [("m_", "the guarded mutex", MU)], ["mutex call sequence per task", "critical-section ownership"])
prop("F01", "A function wrapper calls exactly the target last put into it",
     "Over any history of constructing, assigning, moving, swapping, self-moving and resetting, calling a function wrapper calls exactly the target it holds, with the target's accumulated state, the caller's arguments forwarded in value category and identity, and the result returned unchanged (including references). "
     "A wrapper holds a target exactly if one was put in and not moved away or reset, and its boolean value says so. "
     "This holds for every capacity and alignment of the wrapper and every target that fits: stateless, stateful, exactly filling the storage, over-aligned, move-only, function and member pointers.",
     ["histories", "inputs", "configurations"], "all histories over sets of wrappers x target types x capacities and alignments",
     "The repository's function tests are not even part of the stable test build; they check each operation once, not histories, and only the default capacity and alignment.",
     [FN], [("vtable pointer + in-place storage", FN), ("move via vtbl proc", FN), ("assignment by destroy + reconstruct", FN)],
     [("vtbl_", "operations of the held target, or the empty table", FN), ("storage_", "the target object", FN)], ["call results", "operator bool", "argument identity"])
prop("F02", "A function wrapper owns its target's lifetime exactly",
     "The target object is constructed inside the wrapper, is alive exactly as long as the wrapper holds it, is moved (never copied) when the wrapper is moved, and each constructed object is destroyed exactly once: on reset, reassignment, being moved from, or destruction of the wrapper. "
     "A moved-from or reset wrapper holds nothing, and no history of operations leaks a target or touches a dead one; the target always lies within the wrapper, suitably aligned.",
     ["histories", "fault_sequences"], "all histories over sets of wrappers, including containers that relocate them",
     "Balance of constructions and destructions over histories is sampled in one or two fixed scenarios.",
     [FN], [("vt_proc move/destroy", FN), ("destructor through vtbl", FN)], [("vtbl_", "operations of the held target", FN)], ["constructor/destructor calls with addresses"])
prop("F03", "A failing call leaves the wrapper intact",
     "An exception thrown by the target reaches the caller unchanged and the wrapper still holds the same target with the state the target gave itself; calling an empty wrapper throws bad_function_call without side effects. "
     "After any sequence of failed calls all operations work as if the failures had not happened. "
     "A target may reset, replace or move other wrappers, and recursively call its own, while being called.",
     ["fault_sequences", "histories"], "all histories with failures at every call",
     "No stable test throws from a target or calls an empty wrapper repeatedly among other operations.",
     [FN], [("empty_call", FN), ("vt_call forwards", FN)], [("vtbl_", "operations of the held target", FN)], ["exception identity", "state afterwards"])
prop("F04", "Calling a const function wrapper is read-only and shareable",
     "A wrapper with a const signature invokes its target as const and calling it modifies neither the wrapper nor anything the target does not modify itself, so any number of tasks may call the same const wrapper concurrently and each gets its own correct result. "
     "Different wrappers never influence each other, whatever the interleaving of calls, moves and resets on them.",
     ["schedules", "histories"], "all interleavings of tasks at memory-access granularity",
     "The tests are single-threaded and never observe stores made by a call.",
     [FN], [("const function_traits", FN), ("const vtables", FN), ("mutable storage_", FN)], [("storage_", "the target object", FN)], ["stores made during calls", "results per task"])
prop("A01", "The library never allocates",
     "No operation of the circular buffer, function wrapper, varint codec, filters, lock guard or move wrapper requests dynamic memory, apart from what user-supplied types and targets do themselves and from raising the exception that reports a misuse. "
     "It does not matter whether the heap is full or absent: no operation needs it.",
     ["fault_sequences", "histories"], "all histories with every allocation failing",
     "Tests run with a working heap, where an allocation in some branch goes unnoticed.",
     [CB, FN, VI, SF, SD, SS, SP, MU, MW], [("in-place storage", FN), ("caller-provided storage", CB), ("fixed-size state", SD)], [], ["calls of the allocator while library code runs", "results with failing allocator"])
prop("V01", "A varint stream round-trips under any fragmentation",
     "Any sequence of integers of mixed widths and signedness that is encoded back to back decodes to the same sequence, and every encoding is the shortest one and the one the documented format prescribes, so independent implementations interoperate in both directions. "
     "This holds however the stream is cut into chunks on its way: a decoder that retries when more bytes have arrived obtains exactly the values, in order, and never a wrong one early. "
     "It holds for every kind of iterator.",
     ["inputs", "histories"], "all value sequences x types x fragmentations x iterator kinds",
     "Tests check listed values of some types, one value at a time, in one contiguous buffer.",
     [VI], [("7-bit groups, least significant first", VI), ("zig-zag for signed", VI), ("decode fails by returning begin", VI)], [], ["bytes", "decoded values", "returned iterators"])
prop("V02", "Bounded encoding never writes beyond its end",
     "Encoding into a bounded range succeeds exactly if the shortest encoding fits, then writes exactly the announced number of bytes and returns the position after them; otherwise it returns the start, having written nothing outside the range. "
     "The announced size is exact for every value of every integer type. "
     "With an output device that fills up at any point the encoder stops at it.",
     ["inputs", "fault_sequences"], "all values x types x room left",
     "Tests try a few values against a few buffer lengths; overruns by a byte outside the array are invisible to them.",
     [VI], [("check before every byte", VI), ("size()", VI)], [], ["every store to the output", "returned iterator"])
prop("V03", "Decoding damaged input is exact or rejected",
     "For any byte sequence whatsoever, decoding either consumes a well-formed encoding and yields exactly its value, or returns the start because the encoding is cut off or its value does not fit the type; it never yields a truncated or otherwise different value, never reads beyond the end of the range or beyond the encoding, and always terminates.",
     ["inputs", "fault_sequences"], "all byte sequences (truncated, corrupted, overlong, duplicated) x types",
     "Tests feed a few malformed sequences per type; which bytes are read is not observable to them.",
     [VI], [("end check before each byte", VI), ("shift bound", VI), ("overflow check of the last group", VI)], [], ["every load of the input", "returned iterator and value"])
prop("S01", "Filter instances are isolated; copies resume exactly",
     "Feeding one filter instance never affects another, even of the same design and interleaved or preempted in any way: each output stream is bit-identical to the one it would produce alone. "
     "A copy of an instance, taken at any point, continues exactly like the original, independently of it.",
     ["schedules", "histories"], "all interleavings of any number of instances, samples and copies",
     "Tests run one instance at a time from start to end.",
     [SF, SD, SS, SP], [("per-instance delay state", SD), ("shared immutable coefficients", SF)], [("state of each section", "delay line", SD)], ["output samples"])
prop("S02", "A filter computes its design's difference equation from rest",
     "Fed with any input stream of any length, a fresh filter outputs the stream defined by its coefficients' difference equation from zero initial state, whatever the instance's memory contained before it was created, in both the cascaded and the polynomial form and for every order and sample type. "
     "Integer-like sample types give the exact result, floating-point types the result within rounding.",
     ["inputs", "histories", "configurations"], "all input streams x designs x sample types x start memory contents",
     "Tests compare impulse or step responses of fixed designs with stored tables over short streams.",
     [SD, SS, SP], [("direct form II transposed update", SD), ("zero-initialised state", SD), ("cascade of sections", SS)], [("state", "delay line", SD)], ["output samples"])
prop("S03", "A stable filter forgets input disturbances",
     "After any finite disturbance of its input (dropped, duplicated, reordered or corrupted samples, bursts up to large amplitude), a stable filter's output returns to the undisturbed output within a number of further samples determined by its poles, and stays there.",
     ["fault_sequences", "inputs"], "all finite disturbances of the input stream x stable designs",
     "No test disturbs an input stream and watches recovery.",
     [SD, SS, SP], [("recursion over bounded state only", SD)], [("state", "delay line", SD)], ["output samples"])
prop("S04", "Cascaded and polynomial forms of a design agree",
     "For the same design and the same input stream, the cascade of second-order sections and the single polynomial form produce the same output within rounding, sample by sample, from the first sample and under any interruption and resumption of the two streams.",
     ["inputs", "configurations"], "all streams x designs (low orders, where both forms are well conditioned)",
     "Tests compare both against tables over a short response, not against each other over arbitrary streams.",
     [SS, SP, SD], [("zpk to sections, zpk to polynomial", SF)], [("state", "delay line", SD)], ["output samples"])
prop("S05", "A running filter does what its specification says",
     "Fed with any signal, a filter designed for a family (Butterworth, Bessel, Chebyshev type I and II), order, response (lowpass, highpass), sample rate, edge frequency and ripple outputs sample by sample what the textbook filter of that specification, started from rest, would: "
     "its pass band, stop band, attenuation at the edge, gain at the reference frequency and transients, in the cascaded and the polynomial form, for designs made in single and double precision, within rounding wherever the form is well conditioned.",
     ["inputs", "configurations"], "all specifications x forms x sample types x signals",
     "Tests compare designs of seven orders at one edge frequency and one sample rate with stored tables.",
     ["include/embedded/signal/butterworth.h", "include/embedded/signal/bessel.h", "include/embedded/signal/chebyshev.h", SF, SD, SS, SP], [("pole and zero formulas", "include/embedded/signal"), ("bilinear transform, gain, pairing", SF)], [("state", "delay line", SD)], ["output samples"])
prop("W01", "move_wrapper transfers single ownership, even by copy",
     "The wrapped object is held by exactly one wrapper at a time: copying or moving a wrapper moves the object to the new wrapper, never duplicates or loses it, and access through either operator reaches exactly the object held. "
     "This holds along any chain of copies, including through callbacks that copy their captures.",
     ["histories"], "all histories of copies, moves and accesses over sets of wrappers",
     "The test performs two transfers of a unique_ptr.",
     [MW], [("moving copy constructor", MW)], [("val_", "the wrapped object", MW)], ["holder of each object", "constructor/destructor calls"])
prop("W02", "A failing transfer propagates and keeps the object",
     "If moving the wrapped object throws, during construction of a wrapper from an object or from another wrapper, the exception reaches the caller unchanged and the object is still held, intact, where it was. "
     "No history of failed and repeated transfers leaks, loses or duplicates an object.",
     ["fault_sequences", "histories"], "all histories x every move that fails",
     "No test uses a type whose move can fail.",
     [MW], [("conditional noexcept", MW)], [("val_", "the wrapped object", MW)], ["exception at the caller", "objects alive"])
prop("Y01", "A sensor node built from the parts survives crashes and resumes",
     "A node that samples, filters, encodes and logs into a persistent ring buffer shared under lock with a reader, with callbacks in function wrappers, delivers every committed record exactly once, in order and undamaged, across crashes and restarts at arbitrary points, and loses at most the records not yet committed. "
     "Once faults stop, everything logged is delivered within a bounded number of steps.",
     ["schedules", "crash_points", "fault_sequences"], "all task interleavings x crash points x link faults of the composed system",
     "No test composes the components, runs tasks, or restarts anything.",
     [CB, MU, FN, VI, SF, SD, SS, MW], [("the guarantees C01..C08, L01, F01..F04, V01..V03, S01..S02 in combination", "include/embedded")], [], ["records received", "persistent storage"])
prop("M01", "With assertions, misuse stops before it does harm and correct use goes on",
     "In builds with assertions on, a call that breaks a buffer's contract never returns: adding to a full buffer; removing, copying out or reading elements that are not there; copying in more than there is room for; an index, dereference, step or jump of an iterator outside the elements; copying a reversed range; creating an adapter with a start or count outside its storage; at() out of range where exceptions are off. "
     "It ends in a failing assertion before any memory outside the storage is written, any element is overwritten or created, and any is destroyed but those asked to be removed, so that a program restarted over the surviving storage adopts the elements undamaged. "
     "This holds after every history, for every size of the error, and for adapters without storage; and a call that keeps the contract, however close to its edge, never fails an assertion.",
     ["histories", "inputs"], "all histories x every misuse x every argument of it",
     "The tests are built with assertions off, and cannot continue after one that fails; a bound that is one too high or takes the capacity for the size makes no difference to correct use.",
     [CB, CBI], [("assertions in front of every operation", CB), ("assertions of the iterators, which compare indices with the size", CBI)],
     CBSTATE, ["whether the call returns", "contents of the storage after the stop"])
prop("T01", "The cost of an operation is bounded, whatever came before",
     "What an operation costs, counted in memory accesses, is bounded by a constant plus a constant for each element it has to construct, copy or destroy, each byte of an encoding of its type, and each order of its filter. "
     "It does not depend on capacity, fill level, position in the storage, distance between iterators, values, input or the history of operations: pushing, popping, indexing, iterator arithmetic, clearing an almost empty huge buffer, calling or moving a function that has been moved many times, transferring a wrapped object, decoding an endless encoding and filtering any sample all take a bounded number of steps.",
     ["histories", "inputs"], "all operation histories x capacities x fill levels x positions x values",
     "Tests use buffers of a few elements and measure nothing; an operation that walks the storage returns the right result.",
     [CB, CBI, FN, VI, MU, MW, SF, SD], [("position arithmetic without loops", CB), ("removal of trivial elements by position only", CB), ("single indirection through the vtable", FN), ("shift bound", VI), ("fixed-length state", SD)],
     CBSTATE, ["number of memory accesses per call"])
prop("B01", "Behaviour does not depend on the build configuration",
     "The same history of calls has the same observable outcome, value for value, in every supported build: language standard (C++11 and later), optimisation level, assertions on or off, with and without exceptions and run-time type information, whether plain char is signed or not, and whatever uninitialised memory happens to hold.",
     ["configurations", "histories"], "all histories x build configurations",
     "The tests are built in one configuration only.",
     [CB, CBI, FN, VI, MU, MW, SF, SD, "include/embedded/config.h"], [("LIBEMB_HAS_EXCEPTIONS / LIBEMB_HAS_RTTI", "include/embedded/config.h"), ("C++11-only constructs", "include/embedded")], [], ["event stream of each run"])
prop("D02", "Type-level and constant-expression utilities are exact",
     "Type lists, integer sequences, type traits and constant-expression complex and vector arithmetic compute the documented results for all arguments.",
     ["programs", "inputs"], "all instantiations",
     "Tests instantiate samples.",
     ["include/embedded/typelist.h", "include/embedded/utility/integer_sequence.h", "include/embedded/type_traits.h"], [("templates", "include/embedded")])

if __name__ == "__main__":
    for p in P:
        print(json.dumps(p, ensure_ascii=False))
