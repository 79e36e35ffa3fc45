NOTE["P01"] = ("drawn multi-hop conversions with drawn splits, slices, ranges and reader/writer kinds, checked against an independent model and codec", "exploration",
  "Every run compares all rows with an independent encoder/decoder and the geometry model. Sampled, not exhaustive; assumes the ASan -O1 clang build represents the shipped code.")
NOTE["P05"] = ("WKB byte strings, valid and corrupted by drawn faults, read through visitor, view, array and C++ parser", "exploration",
  "Outcome and geometry compared with an independent full-grammar decoder; unspecified encodings (listed in DESIGN.md) only checked for safety. Sampled.")
NOTE["P06"] = ("WKT texts in drawn spellings and with drawn corruptions, read by one reused reader and as arrays", "exploration",
  "Outcome, geometry and every number compared bit-exactly with an independent parser; unspecified spellings only checked for safety. Both number parsers (fast_float, libc) run. Sampled.")
NOTE["P08"] = ("drawn rows visited through drawn readers with a visitor failing at a drawn callback and malformed rows injected", "exploration",
  "Every event stream is compared with the model and, under a fault, with the fault-free prefix. Sampled.")
NOTE["P14"] = ("drawn histories of building, copying, resetting, appending and visiting over three geometry objects", "exploration",
  "After each operation the object is compared with the model structurally and through its events. Sampled; nesting up to 36 levels.")
NOTE["P13"] = ("drawn histories of appending, reserving, buffer wrapping and finishing on native array builders of every type", "exploration",
  "Every finished array is compared buffer by buffer with a small model of what was appended since the previous finish. Sampled.")
NOTE["P09"] = ("drawn, mutated and well-formed callback sequences sent to WKT/WKB/native writers and geometry objects, with drawn abandonment and direct appends", "exploration",
  "Row count, structural validity and the exact value of every well-formed feature are checked after Finish; the content of features whose callbacks broke the grammar is unspecified. Sampled.")
NOTE["P02"] = ("drawn kernels over drawn batch partitions and slices, with out-of-phase calls and unusable starts injected", "exploration",
  "Rows, aggregates, schemas and metadata compared with the model; format_wkt text compared with the library's own unlimited writer (decided by P01/P06). Sampled.")
NOTE["P10"] = ("drawn features written under drawn byte limits by feature, through the kernel, and with simulated steps and memory measured on large features", "exploration",
  "Text compared with the unlimited text; callbacks, library edges and peak allocation bounded by a linear function of the limit from the first callback on. Sampled.")
NOTE["P03"] = ("drawn operation histories replayed once per allocation with exactly that allocation failing, plus bursts, exhaustion and random failures", "fault_enumeration",
  "Every allocation of each drawn history fails once (a drawn stretch of 80 when there are more); histories are sampled. Results after surviving a fault compared with the fault-free play; leaks by exact live-allocation accounting; memory safety by ASan and fill bytes.")
NOTE["P04"] = ("drawn histories on kernels, writers, readers and builders with malformed rows, malformed arrays, unrepresentable features and allocation failures, then used further", "exploration",
  "Every array delivered after a failure is checked structurally and against the model's rows (failed rows absent, null or whole); scalar kernel batches exactly. Sampled.")
NOTE["P07"] = ("metadata texts, schema trees and kernel options drawn as valid ones and then damaged by drawn faults, decided by an independent JSON reader and layout recogniser", "exploration",
  "Accepted or rejected exactly as the reference says, with the stated content; what JSON or the documentation leaves open is only checked for safety, bounds and termination (step budget). Sampled.")
NOTE["P17"] = ("drawn histories of creating, describing, copying, changing and re-reading schemas, metadata views and C++ data types, some steps under allocation failures", "exploration",
  "After each step every schema is compared entry by entry with the model, its storage with an independent layout recogniser and its JSON with an independent reader. Sampled.")
NOTE["P12"] = ("drawn histories of moving, lending, owning, slicing, re-reading and releasing arrays, schemas, buffers and visitors between library objects and the caller, some steps under allocation failures", "exploration",
  "Every producer-side release, every deallocator call and every live allocation is counted; a poisoned or moved-from structure is read only where the ABI allows. Sampled.")
NOTE["P15"] = ("drawn arrays, slices and iterator walks through the C++ views, and drawn histories of the C++ reader, writer and builder wrappers next to the C interface, some under allocation failures", "exploration",
  "Values, vertices, edges, bounds, nulls and sizes compared bit-exactly with the model, wrapper results and errors with the C interface on the same input; every native type reached through the dispatch macros. Sampled.")
NOTE["P11"] = ("2 to 4 drawn histories on threads under a baton scheduler that preempts at drawn library edges and outside calls, some with their own failing allocations", "exploration",
  "Every observation of a thread is compared with the same history played alone (and kernel results with the model). Interleavings are sampled at basic-block and call granularity; weak-memory effects are out of reach, but any shared mutable state is a difference here.")
NOTE["P16"] = ("drawn large, repetitive, damaged and finely divided inputs whose steps, bytes moved and allocations are measured by the simulated clock and allocator", "exploration",
  "Cost compared with a linear bound per operation, five times the largest cost seen on the tree; inputs up to about 10^4 coordinates (10^5 thorough), so a super-linear cost shows as a factor of hundreds. Sampled.")
NOTE["P18"] = ("drawn histories over data types, schemas, kernels, array views, buffer exports and builders of the Python extension, with failing allocations, malformed rows, unusable arguments, hostile buffer owners and releases without the interpreter's lock or on another thread", "exploration",
  "The extension runs in a real CPython with the malloc family of its objects behind the simulator; results compared with a model written in Python and an own reader of the Arrow structures, owners and allocations counted. Sampled; interleavings of two Python threads inside one kernel are not explored.")
