NA = {
 "C36": "The executor and its runtime (crates/engine) depend on crates that are not available offline, on async subgraph I/O and on a WASM component host; a whole gateway execution is outside what the executor can encode. What comes before execution - loading the graph, binding, coercion, limits - is decided by C47 and later.",
 "C37": "True concurrency over crossbeam's lock-free SegQueue (third-party atomics and memory ordering); the executor encodes one thread of wasm code without interleavings.",
 "C38": "The limiter is the external governor crate plus the runtime crates, which do not build offline here; nothing of the admission logic is in a crate that can be compiled.",
}
