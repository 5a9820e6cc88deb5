#!/usr/bin/env python3
"""Single source of properties.jsonl (run: tools/gen_properties.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A writable tuple reads back exactly what its write history says",
 "After any sequence of sets, inserts, overwrites with values of other sizes, erasures, resets, clears by empty value and housekeeping calls on a writable tuple of any capacity, with or without a schema, every scalar field reads as the last value written to it (or as absent) and every field not touched by a call is unchanged. This holds for every data type and every value length the type admits, for fields located at schema-fixed places as well as for free ones.",
 ["histories", "inputs", "configurations"],
 "every finite history of field operations over every data type and length, every schema/no-schema layout and every buffer capacity",
 "Values live in one contiguous area where gaps are split, merged, reused and returned to the tail; which path runs depends on the whole history of sizes and on how full the index and data areas are. The unit tests walk a few fixed add/erase patterns.",
 ["src/gear.cxx", "src/rw.cxx", "fast_positive/tuples/details/rw.h", "fast_positive/tuples/details/field.h", "fast_positive/tuples/details/meta.h"],
 [("gap reuse/split/merge", "src/gear.cxx alloc_loose, alloc_data, release_loose, release_data, merge_holes, trim_hole"),
  ("in-place resize or move of a value", "src/gear.cxx realloc_data"),
  ("typed assignment", "fast_positive/tuples/details/rw.h assign_field_value, append_field")],
 [("index head/pivot/tail", "boundaries of descriptor index and payload", "fast_positive/tuples/details/rw.h tuple_rw"),
  ("junk counters", "free descriptors and free payload inside the used span", "fast_positive/tuples/details/rw.h junk_")],
 ["typed getters of the writable tuple", "typed getters over a read-only view"], False)

prop("C02", "The tuple layout stays well formed and its space accounting exact",
 "After every call, successful or not, the bytes of a writable tuple form a well-formed layout: every stored value and every free gap lies inside the used area, no two of them overlap, together they cover it exactly, and the reported sizes (free index slots, free tail, junk, used, net and gross size, number of fields) equal what a scan of the layout finds. Nothing outside the buffer given to the tuple is ever written, and the built-in validation accepts the tuple.",
 ["histories", "inputs", "configurations", "fault_sequences"],
 "every history of operations including those ending in an error, every capacity from zero upward",
 "Counters are maintained incrementally by a dozen code paths and never recomputed in release builds; a one-off slip only shows up many operations later as a corrupted value, a lost byte of capacity or an overrun.",
 ["src/gear.cxx", "src/audit.cxx", "fast_positive/tuples/details/rw.h", "fast_positive/tuples/details/field.h"],
 [("junk accounting", "src/gear.cxx (all of class gear)"), ("layout audit", "src/audit.cxx"), ("size queries", "fast_positive/tuples/details/rw.h head_space..capacity")],
 None, ["size query functions", "serialized bytes", "validate()"], False)

prop("C03", "An operation that fails leaves the tuple exactly as it was",
 "Whenever a call on a writable tuple reports an error - no room in a fixed buffer, value out of range or too long, wrong type, wrong kind of field, reserved value, or memory exhaustion - every field of the tuple still reads as before the call and the tuple remains fully usable. The error reported is the one documented for the situation, and an operation is never refused for lack of room while the free index and tail space reported before the call suffice for it.",
 ["histories", "inputs", "fault_sequences"],
 "every failing operation at every point of every history, with the buffer exhausted in the index, in the data, or in both",
 "Rollback is by ordering of steps rather than by undo; whether a given order is safe depends on the state of gaps, index and tail at that moment. Tests only try to overfill an otherwise simple tuple.",
 ["src/gear.cxx", "src/rw.cxx", "fast_positive/tuples/details/rw.h", "src/except.cxx"],
 [("allocate-before-release ordering", "src/gear.cxx realloc_data, release_data, index_alloc, tail_alloc"), ("error raising", "src/except.cxx")],
 None, ["exception type", "content after exception"], False)

prop("C04", "Auto-growing tuples grow transparently or fail cleanly",
 "A write to an auto-growing tuple succeeds whatever the initial capacity as long as the result, together with the value being replaced, fits the limits of the format and memory is available, and after growth the content, the junk accounting and the schema binding are the same as if capacity had been sufficient from the start. If memory cannot be obtained the call reports it, the content is unchanged, nothing is leaked, and the same call succeeds once memory is available again.",
 ["histories", "fault_sequences", "inputs"],
 "every history of writes on an auto-growing tuple with allocation failing at any subset of requests",
 "Growth happens at a point determined by the whole history, moves the data to another buffer in one of several ways, and allocation failures never happen in the unit tests.",
 ["src/autogrowth.cxx", "src/managed.cxx", "src/rw.cxx", "fast_positive/tuples.h"],
 [("growth policy and move", "src/autogrowth.cxx manage_space_deficit"), ("retry loop", "fast_positive/tuples.h tuple_rw_managed")],
 [("junk counters after move", "must describe the copied layout", "fast_positive/tuples/details/rw.h junk_")],
 ["content", "size queries", "allocator ledger"], False)

prop("C05", "Compaction and index sorting keep the content and reclaim all junk",
 "Compacting, optimising or sorting a tuple at any moment of any history changes no field value, leaves no junk behind when it compacts, keeps everything inside the area used before, and leaves the tuple fully usable; it reports correctly when iterators become stale, and a request not to optimise moves nothing. If memory for the operation cannot be obtained, the tuple keeps its content and stays usable.",
 ["histories", "inputs", "fault_sequences"],
 "every state of fragmentation reachable by a history, any number of fields, allocation failing inside the operation",
 "Compaction rewrites every relative reference in two coupled passes; sorting rewrites the whole index; above some hundreds of fields both need heap memory. Tests fragment a tuple in one or two shapes only.",
 ["src/gear.cxx", "fast_positive/erthink/erthink_short_alloc.h"],
 [("two-pass compaction", "src/gear.cxx compactify"), ("index sort", "src/gear.cxx sort"), ("entry point", "src/gear.cxx tuple_rw::optimize")],
 None, ["content before/after", "junk_units", "sizes"], False)

prop("C06", "A stored tuple image survives crash and reopen with identical content",
 "Whatever form a tuple is taken out in (as is, optimised, managed clone, moved to read-only, through the C interface), the bytes are self-contained and position independent: written to storage and reopened by any reader, validated or converted back into a writable tuple with any extra room, they yield exactly the content at the time of taking, and further history continues correctly. If a crash leaves only a proper prefix of the image on storage, opening it with validation is rejected.",
 ["histories", "crash_points", "inputs"],
 "every history, every point at which the image is taken, every crash point of the write, every re-open mode and buffer address",
 "Needs arbitrary fragmented states, several take/reopen round trips and torn writes; tests take and reread a few freshly built tuples.",
 ["src/ro.cxx", "src/rw.cxx", "src/managed.cxx", "src/compat_rw.cxx", "src/compat_ro.cxx", "src/audit.cxx"],
 [("header synthesis and take", "src/rw.cxx take_asis, take_optimized"), ("open with validation", "src/ro.cxx make_from_buffer"), ("rebuild of the writable form", "src/rw.cxx create_from_buffer, create_from_ro")],
 None, ["reader getters and iterators over the reopened image", "independent byte-level decoder"], False)

prop("C07", "A corrupted or torn image is rejected or is safe to use",
 "For any bytes offered as a tuple image - truncated, extended, torn, bit-flipped, stale-mixed or random - validation itself never reads outside them, and it either rejects them or accepts an image on which every read, iteration, clone and conversion to a writable tuple stays inside the given bytes and terminates, through the C++ as well as through the C interface, and a writable tuple made of it stays well formed in use (a nested tuple counts as an image in its own right, validated when it is opened). A rejected image is reported as an error and leaves no partially built object or leaked memory.",
 ["inputs", "fault_sequences"],
 "every byte sequence produced from a valid image by any sequence of storage faults, with and without a schema",
 "Each descriptor and each variable-length header is an independent attack point; only guided corruption of many layouts with memory checking exercises them.",
 ["src/audit.cxx", "src/ro.cxx", "src/rw.cxx", "fast_positive/tuples/details/audit.h"],
 [("image audit", "src/audit.cxx"), ("entry points with validation", "src/ro.cxx make_from_buffer, src/rw.cxx create_from_buffer")],
 None, ["validate result", "reads under guard bytes/AddressSanitizer"], False)

prop("C08", "A shared buffer is released exactly once, after its last owner",
 "However owners of a shared managed buffer are created, copied, moved and destroyed by concurrent threads, the buffer is returned to its allocator exactly once, by the last owner, and no owner ever touches it after that. No schedule leaks the buffer, frees it twice or frees it while someone still holds it.",
 ["schedules", "histories"],
 "every interleaving of owner operations of any number of threads, at the granularity of single memory accesses",
 "A wrong interleaving window in reference counting is a few instructions wide; tests are single threaded.",
 ["fast_positive/tuples/1Hippeus/buffer.h", "src/1Hippeus/buffer.cxx", "src/managed.cxx", "src/1Hippeus/allot_stdcxx.cxx"],
 [("reference counting", "fast_positive/tuples/1Hippeus/buffer.h add_reference, detach"), ("release", "src/1Hippeus/buffer.cxx"), ("owners", "src/managed.cxx tuple_ro_managed")],
 [("reference counter", "number of owners", "fast_positive/tuples/1Hippeus/buffer.h ref_counter")],
 ["allocator ledger (borrow/repay)", "memory access log against freed buffers"], False)

prop("C09", "A read-only tuple never changes while someone can see it",
 "A managed read-only tuple keeps its bytes and values for as long as any owner exists, no matter what other owners of the same buffer do: turning one of the owners into a writable tuple reuses the buffer only when it is the sole owner and otherwise works on a private copy. This holds for managed nested views, clones and moves, under every thread schedule.",
 ["schedules", "histories"],
 "every interleaving and every sharing graph of owners, nested views, clones and conversions to writable form",
 "Copy-on-write decisions race with owners coming and going; violating them silently changes data seen through another handle.",
 ["src/managed.cxx", "src/autogrowth.cxx", "fast_positive/tuples/1Hippeus/buffer.h", "fast_positive/tuples.h"],
 [("reuse-or-copy decision", "src/managed.cxx tuple_rw_fixed(tuple_ro_managed&&), fast_positive/tuples/1Hippeus/buffer.h is_alterable"), ("basis discovery", "src/managed.cxx peek_basis")],
 None, ["bytes of every live read-only handle after each scheduled step"], False)

prop("C10", "Construction, clone and move conserve memory and content under any fault",
 "Creating, cloning, copying, moving, converting and destroying tuples of all kinds, with any allocator and with allocation failing at any request, leaks nothing and frees nothing twice: when all handles are gone every buffer obtained has been returned to the allocator it came from. A failed construction leaves its sources intact, a successful one yields the source's content, and a moved-from handle is empty.",
 ["histories", "fault_sequences", "configurations"],
 "every sequence of ownership operations over a pool of handles, every allocator assignment, every allocation failure pattern",
 "There are dozens of constructor/clone/convert routes, each with its own partially-constructed states; failures in the middle never occur in tests.",
 ["src/managed.cxx", "src/rw.cxx", "src/1Hippeus/buffer.cxx", "src/1Hippeus/allot_stdcxx.cxx", "fast_positive/tuples.h"],
 [("constructors and clones", "src/managed.cxx"), ("borrow/repay", "src/1Hippeus/buffer.cxx"), ("placement construction", "src/rw.cxx create_new, create_from_ro, create_from_buffer")],
 None, ["allocator ledger", "content of all handles"], False)

prop("C11", "The C interface obeys the same map semantics and reports errors by code",
 "Through the C interface, any history of inserts, upserts, updates, erasures, clears, shrinks, takes, fetches and reallocations on buffers of any size behaves as the reference multimap of typed fields; a call that cannot succeed returns the documented error code, changes nothing and never lets an exception escape. Lookups, field accessors and iteration agree with the reference in both writable and taken forms.",
 ["histories", "inputs", "fault_sequences"],
 "every history of C calls over all field types, buffer sizes and allocation failure patterns",
 "Error translation and buffer sizing at the C boundary is separate code per call; tests check a handful of full-buffer cases.",
 ["src/compat_rw.cxx", "src/compat_ro.cxx", "src/compat_field.cxx", "src/compat_common.cxx", "fast_positive/tuples/legacy.h", "fast_positive/tuples/details/legacy_compat.h"],
 [("C wrappers and error translation", "src/compat_rw.cxx, src/compat_common.cxx"), ("field access", "src/compat_field.cxx")],
 None, ["return codes", "content via C accessors"], False)

prop("C12", "Last-error information belongs to the calling thread",
 "The last error recorded by the C interface describes the most recent failed call of the asking thread, with that failure's code and message, no matter what other threads do in between and even if memory is short at that moment; a thread that had no failure sees none. A text handed out to one thread is not disturbed by the calls of another.",
 ["schedules", "histories"],
 "every interleaving of failing and succeeding calls and queries of several threads",
 "Only concurrent failures with interleaved queries can reveal shared or torn error state; tests query it on one thread if at all.",
 ["src/compat_common.cxx", "fast_positive/tuples/details/legacy_common.h"],
 [("per-thread error record", "src/compat_common.cxx")],
 None, ["last error code/message per thread"], False)

prop("C13", "Schema definition is consistent, collision free and all-or-nothing",
 "After any sequence of field definitions and imports - valid, conflicting, malformed or interrupted by memory exhaustion - the schema contains exactly the definitions that succeeded: names and tokens map to each other one-to-one, fixed places do not overlap except for an opaque area and fields imported inside it, initial values are exact, and a rejected or failed definition changes nothing.",
 ["histories", "inputs", "fault_sequences"],
 "every sequence of definitions with every flag combination and allocation failing at any request",
 "Definitions update several containers; only failure in the middle of one or a long mixed sequence shows disagreement between them.",
 ["src/schema.cxx", "fast_positive/tuples/schema.h", "fast_positive/tuples/token.h"],
 [("definition and import", "src/schema.cxx"), ("offset navigation", "src/schema.cxx by_offset, next_by_offset, prev_by_offset")],
 None, ["token and name lookups", "init image", "token list"], False)

prop("C14", "Absent, null and empty are distinguished exactly as the field declares",
 "For a field declared with distinguishable null, reading an absent value is reported as absence and empty or zero values are stored and read back; for a field declared without it, writing an empty or zero value removes the field and reading an absent field yields empty or zero. Presence queries and the result of erasure always agree with what reading would do, for schema-placed, free and repeated fields of every type and after every history.",
 ["histories", "inputs"],
 "every history over every combination of field placement, type and null declaration, including the reserved null values of each type",
 "The behaviour is a product of placement, type, null mode and history; tests check isolated combinations on fresh tuples.",
 ["fast_positive/tuples/details/getter.h", "fast_positive/tuples/details/rw.h", "fast_positive/tuples/details/meta.h", "src/tablets.cxx", "src/misc.cxx"],
 [("read with null handling", "fast_positive/tuples/details/getter.h accessor_ro::get, exist"), ("write with null handling", "fast_positive/tuples/details/rw.h assign_field_value"), ("null test by type", "src/tablets.cxx, src/misc.cxx")],
 None, ["getters, is_present, erase results"], False)

prop("C15", "Collections and iteration enumerate exactly the stored fields",
 "At any moment of any history, iterating a repeated field yields exactly the multiset of values inserted and not erased, iterating the whole tuple yields every present field exactly once and, besides, at most its free gaps, marked by the gap type, and erasing through an iterator or a range removes exactly the designated elements. Forward and backward traversal, range and accessor forms agree, in writable and in read-only tuples.",
 ["histories", "inputs"],
 "every history of inserts and erasures with iterators, ranges and whole collections interleaved with other fields and housekeeping",
 "Elements are scattered in the index among gaps and other fields; enumeration correctness depends on the arrangement left by the history.",
 ["src/ro.cxx", "src/rw.cxx", "fast_positive/tuples/details/ro.h", "fast_positive/tuples/details/getter.h", "fast_positive/tuples/details/rw.h"],
 [("iterators", "fast_positive/tuples/details/ro.h loose_iterator, field_iterator; details/getter.h collection_iterator_ro"), ("index scan", "src/scan_*.cxx"), ("range erase", "src/rw.cxx erase")],
 None, ["enumerated sequences vs reference multiset"], False)

prop("C16", "Buffer guards detect every overrun and never accuse an intact buffer",
 "A managed buffer whose guard words have been changed, whether by an overrun, an underrun, a stray write or a swap of two guards, is reported as damaged by the buffer check (barring the one in four billion chance that the new content is itself a valid guard), and a buffer that was not damaged is never reported, whatever value the time-stamp source produces when guards are created. A released buffer no longer passes as valid.",
 ["fault_sequences", "inputs"],
 "every pattern of stray writes to guard words and every value of the hardware tick counter used to salt them",
 "Detection depends on the salt taken from the hardware tick counter; a test never controls it.",
 ["src/1Hippeus/hipagut.cxx", "src/1Hippeus/buffer.cxx", "fast_positive/tuples/1Hippeus/hipagut.h", "fast_positive/tuples/1Hippeus/hipagut_allocator.h"],
 [("guard creation and probing", "src/1Hippeus/hipagut.cxx"), ("buffer check", "src/1Hippeus/buffer.cxx check, ensure")],
 [("guard word", "salted pair checked by probing", "fast_positive/tuples/1Hippeus/hipagut.h")],
 ["check results"], "the tick counter that salts guards must come from the simulator")

prop("C17", "Results do not depend on the processor the code runs on",
 "Every processor-specific implementation of the index search returns the same answer as the reference one for every index content, length, alignment and key, including not-found; the answer depends on nothing outside the index and no memory page outside it is touched. Only instructions which the processor and the operating system provide are used, so any history yields the same results on machines with different vector extensions and in every floating-point mode of the caller.",
 ["configurations", "inputs"],
 "every detected-feature configuration and every index array",
 "On a given machine only one implementation is ever used, and alignment/tail handling depends on index length modulo the vector width.",
 ["src/scan_AVX.cxx", "src/scan_AVX2.cxx", "src/scan_SSE2.cxx", "src/scan_portable.cxx", "src/scan_ifunc.cxx", "src/cpu_features_ia32.cxx"],
 [("search variants", "src/scan_*.cxx"), ("selection", "src/scan_ifunc.cxx, src/cpu_features_ia32.cxx")],
 None, ["search results", "out-of-bounds access trap"], False)

prop("C18", "Timestamps follow the system clock through jumps, coarse sources and failures",
 "The current-time functions return the system clock reading at the requested granularity: never later than the clock, with the low bits cleared when that many bits are declined, and taken from the coarse source only if that is at least as accurate as the grain, through forward and backward clock steps. If the clock cannot be read the failure is reported with its cause instead of returning a made-up time.",
 ["fault_sequences", "inputs"],
 "every sequence of clock readings including jumps, coarse/fine disagreement, any resolution and clock call failure, and every grain",
 "The real clock cannot be stepped, made coarse or made to fail in a unit test.",
 ["src/time.cxx", "fast_positive/tuples/types/datetime.h"],
 [("clock access and rounding", "src/time.cxx"), ("fixed point conversion", "fast_positive/tuples/types/datetime.h")],
 None, ["returned fixed-point time vs simulated clock"], False)

prop("C19", "Number to text and text to number conversions are exact inverses",
 "Converting any numeric value to its shortest decimal text and back yields the same value, and the text is correctly rounded.",
 ["inputs"], "every representable number",
 "Too many inputs for tests.",
 ["fast_positive/erthink/erthink_d2a.h", "fast_positive/erthink/erthink_u2a.h"],
 [("formatting", "fast_positive/erthink/erthink_d2a.h")])

prop("C20", "Compile-time field tokens behave exactly like the schema's run-time tokens",
 "When the fixed fields of a tuple are described by a C++ structure, every operation by a compile-time token (read, presence query, assignment, removal, wrong-type request; on the tuple or through an accessor; in a fixed or a growing tuple) has the same result, the same error and the same effect as that operation by the schema's token for the same field: assigning makes exactly that field hold exactly that value, removing makes it absent whether or not the caller looks at the answer, a failed call (no room, no memory, wrong type) changes nothing, and the structure laid over a taken tuple reads the same values.",
 ["operation_sequences", "fault_sequences", "inputs"],
 "every field type with and without distinguishable absence, every value, every history of operations mixed with ordinary fields, full buffers and failing allocations",
 "The suite never writes, removes or even instantiates most operations by compile-time tokens.",
 ["fast_positive/tuples/token.h", "fast_positive/tuples/details/getter.h", "fast_positive/tuples/details/rw.h", "fast_positive/tuples.h"],
 [("compile-time tokens", "fast_positive/tuples/token.h"), ("inline access by static token", "fast_positive/tuples/details/rw.h"), ("auto-growing forms", "fast_positive/tuples.h")],
 None, ["values, presence and errors of a twin driven by run-time tokens", "reference model"], False)

for p in P: print(json.dumps(p, ensure_ascii=False))
