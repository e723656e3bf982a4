#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

prop("C01", "Algebraic simplification never changes a traced result",
 "Whatever simplification is applied while an arithmetic, comparison, logical, select, min/max, fma, shift or cast operation is traced, the variable that is returned denotes, lane by lane, the same value as the un-simplified operation applied to its operands; its type is the operation's result type and its size is the broadcast size of the operands. The only tolerated differences are the documented ones: the sign of a floating point zero in x+0 / x-0, and multiplication by the reciprocal instead of division by a floating point literal. Incompatible operands (size, type, backend) raise an error instead of yielding a variable.",
 ["inputs", "configurations", "programs"],
 "for every operation, operand type, backend, operand structure (literal or not, any literal value, same variable twice, any size) and flag combination",
 "Tests check a handful of literal/operand combinations on hardware the sandbox does not have; a rewrite rule is wrong only for particular literal/type/size combinations.",
 ["src/op.cpp", "src/op.h", "src/var.h"],
 [("jitc_var_add/sub/mul/div/.. simplification rules", "src/op.cpp"), ("jitc_is_zero/one/any_zero predicates", "src/op.cpp, src/var.h"), ("jitc_var_check operand checks", "src/op.cpp")],
 observe=["jit_var_op()", "jit_var_add() .. jit_var_cast()"])

prop("C02", "Constant folding is exact",
 "An operation on literal operands yields a literal whose bits equal the result of the operation on those values in the operand type: two's complement wrap-around for integers, signedness-correct division, shift, comparison and conversion, IEEE-754 results for floating point, and zero in every bit above the type's width.",
 ["inputs"],
 "for every foldable operation, every variable type it accepts and all literal bit patterns (integer division by zero and out-of-range shift amounts / float-to-int conversions excluded as undefined)",
 "The value domain is 2^64 per operand per type per operation; tests evaluate a few literals.",
 ["src/op.cpp"],
 [("jitc_eval_literal and the eval_* functors", "src/op.cpp")],
 observe=["jit_var_op() on literals", "jit_var_cast() on literals"])

prop("C03", "Variables live exactly as long as they are referenced",
 "A variable is released at exactly the moment its last reference (user reference, dependency edge of another live variable, or pending side effect) disappears; increments and decrements are exact inverses, and creating an operation node takes exactly one reference on each operand.",
 ["histories", "inputs"],
 "for every sequence of reference operations and every reference count state",
 "Leak and use-after-free bugs need specific operation sequences and counter states; tests exercise only short histories.",
 ["src/var.cpp", "src/var.h", "include/drjit-core/array.h"],
 [("jitc_var_inc_ref/dec_ref(_se)", "src/var.cpp"), ("jitc_var_free", "src/var.cpp"), ("jitc_var_stash_ref/unstash_ref", "src/var.cpp"), ("JitArray constructors, assignment, destructor", "include/drjit-core/array.h")],
 state=[("ref_count, ref_count_se", "number of owners / pending side-effect owners", "src/internal.h Variable")],
 observe=["jit_var_ref()", "jit_var_inc_ref()", "jit_var_dec_ref()"])

prop("C04", "Value numbering only merges identical expressions",
 "Two traced nodes share a variable only if they agree in everything that determines their value: operation, operands, type, size, backend, literal payload and scope. Nodes with side effects or explicit opt-out are never merged, and equal keys always have equal hashes.",
 ["programs", "histories", "inputs"],
 "for every pair of traced nodes and any contents of the value numbering table",
 "A missing key field only matters for two programs that differ solely in that field.",
 ["src/internal.h", "src/hash.h", "src/var.cpp"],
 [("VariableKey, VariableKeyHasher, operator==", "src/internal.h"), ("jitc_var_new, jitc_lvn_put/drop", "src/var.cpp")],
 state=[("lvn_map", "key to variable index", "src/internal.h ThreadState/State")],
 observe=["jit_var_new_node_*() return values"])

prop("C05", "Slot and registry ids are unique, dense and stable",
 "An id handed out for a variable slot or a registered instance is never handed out again before it has been released, the lowest free id is always reused first, and the registry is a bijection between registered pointers and ids of a domain: looking an id up returns exactly the pointer registered under it, looking up a pointer returns its id, and the reported upper bound covers all live ids.",
 ["histories"],
 "for every sequence of allocate/release (register/unregister) operations",
 "Double hand-out needs a particular history of releases; tests use a few registrations.",
 ["src/free_slots.h", "src/registry.cpp"],
 [("FreeSlots", "src/free_slots.h"), ("jitc_registry_put/remove/ptr/id/id_bound", "src/registry.cpp")],
 state=[("fwd_map, rev_map, Domain", "pointer<->id tables", "src/registry.cpp")],
 observe=["jit_registry_put()", "jit_registry_remove()", "jit_registry_ptr()", "jit_registry_id_bound()"])

prop("C06", "The memory cache returns adequate, unshared, accounted memory",
 "An allocation of any size returns a block of at least that size and of the requested kind, which stays exclusively owned until it is released; size classes are monotone, encode/decode of block descriptors is lossless, and the usage and high-watermark statistics equal the sums over live blocks.",
 ["histories", "inputs"],
 "for all sizes, kinds, devices and alloc/free histories",
 "Size rounding and descriptor packing fail only for boundary sizes; cache hits need particular histories.",
 ["src/malloc.cpp", "src/malloc.h", "src/alloc.h"],
 [("jitc_malloc, jitc_free, round_pow2", "src/malloc.cpp"), ("alloc_info_encode/decode", "src/malloc.h")],
 state=[("alloc_used, alloc_free, alloc_usage, alloc_watermark", "allocation tables and counters", "src/internal.h State")],
 observe=["jit_malloc()", "jit_free()", "jit_malloc_watermark()"])

prop("C07", "CPU block reductions compute the exact block-wise fold",
 "Reducing an array in blocks yields, for each block, the combination of exactly the elements of that block (each used once, starting from the operation's identity) in the element type's arithmetic, for every size and block size including a partial last block and blocks split over several work items, and writes nothing else.",
 ["inputs", "configurations"],
 "for all array contents, sizes, block sizes, element types and reduction operations supported by the LLVM backend, and all work splits",
 "Tests need a running LLVM backend; splitting errors only show for particular size / block size / thread count combinations.",
 ["src/llvm_red.h", "src/llvm_ts.cpp"],
 [("Reduction functors, block_reduce kernels", "src/llvm_red.h"), ("LLVMThreadState::block_reduce, reduce_dot", "src/llvm_ts.cpp")],
 observe=["jit_block_reduce()", "jit_var_block_reduce()", "jit_var_reduce()"])

prop("C08", "CPU prefix reductions compute exact running folds",
 "A blocked prefix reduction yields at every position the fold of exactly the preceding elements of the same block (including or excluding the element itself, in forward or reverse order), for every size and block size, also when a block is split over several work items.",
 ["inputs", "configurations"],
 "for all contents, sizes, block sizes, types, operations, exclusive/inclusive and forward/reverse",
 "Same as C07: multi-pass splits are only reached with large arrays and specific sizes.",
 ["src/llvm_red.h", "src/llvm_ts.cpp"],
 [("block_prefix_reduce kernels", "src/llvm_red.h"), ("LLVMThreadState::block_prefix_reduce", "src/llvm_ts.cpp")],
 observe=["jit_block_prefix_reduce()", "jit_var_block_prefix_reduce()"])

prop("C09", "Mask compression and bucket sorting are exact",
 "Compressing a mask yields the ascending list of exactly the positions that are set and their count; computing a permutation by bucket yields a stable permutation of all positions grouped by bucket together with the exact bucket offsets and sizes.",
 ["inputs", "configurations"],
 "for all masks / bucket assignments, sizes, block splits and bucket counts",
 "Errors occur only for particular combinations of size, worker count and contents.",
 ["src/llvm_ts.cpp"],
 [("LLVMThreadState::compress", "src/llvm_ts.cpp"), ("LLVMThreadState::block_mkperm", "src/llvm_ts.cpp")],
 observe=["jit_compress()", "jit_block_mkperm()", "jit_var_compress()"])

prop("C10", "CPU fill, poke and aggregate write exactly what was asked",
 "Filling memory sets every element of the range to the given 1, 2, 4 or 8 byte value and touches nothing else; poking writes exactly one element; aggregation writes for each entry the given literal, the contents of the given address, or a pointer, of the given size at the given offset, and nothing else.",
 ["inputs"],
 "for all sizes, element sizes, fill values and entry lists",
 "Boundary sizes and element sizes are sampled only sparsely by tests that need a backend.",
 ["src/llvm_ts.cpp"],
 [("LLVMThreadState::memset_async/poke/aggregate", "src/llvm_ts.cpp")],
 observe=["jit_memset_async()", "jit_memcpy()", "jit_aggregate()"])

prop("C11", "String buffers hold exactly the concatenation of what was appended",
 "Appending text, characters or numbers to a string buffer appends exactly the canonical text (shortest decimal, lower-case hexadecimal, or 16-digit zero-padded hexadecimal) and keeps the buffer zero-terminated and within its capacity; trimming, rewinding and moving a suffix rearrange the text exactly as documented.",
 ["inputs", "histories"],
 "for all 32/64-bit values, text lengths, buffer fill levels and capacities",
 "Number formatting uses fixed-point tricks that may fail for isolated values among 2^64; overflow depends on the fill level.",
 ["src/strbuf.h", "src/strbuf.cpp"],
 [("w_u32/w_u64/w_x64/w_q64", "src/strbuf.cpp"), ("StringBuffer::put*/expand/move_suffix/...", "src/strbuf.h, src/strbuf.cpp")],
 state=[("m_start, m_cur, m_end", "buffer start, write cursor, end of storage", "src/strbuf.h")],
 observe=["StringBuffer::get()", "StringBuffer::size()"])

prop("C12", "Half precision conversion and arithmetic round correctly",
 "Conversion from single to half precision is IEEE-754 round-to-nearest-even including subnormals, overflow to infinity, signed zeros and NaN, conversion from half to single is exact, and every arithmetic, comparison and assignment operator of the half type equals the single precision operation followed by that rounding.",
 ["inputs"],
 "for all 2^32 single and 2^16 half bit patterns (and all pairs for the operators)",
 "The existing test prints but tolerates float-to-half mismatches and does not cover operators.",
 ["include/drjit-core/half.h"],
 [("half::float32_to_float16, float16_to_float32, operators", "include/drjit-core/half.h")],
 observe=["drjit::half"])

prop("C13", "Cached kernels are only reused for identical source",
 "A compiled kernel is reused from memory or disk only if its full source text, device and flags are identical to the request, and a kernel file that is truncated, corrupted or written by a different version or for a different hash is rejected rather than executed.",
 ["inputs", "crash_points", "histories"],
 "for all kernel sources, cache contents and file contents",
 "Tests run with an empty or well-formed cache.",
 ["src/io.cpp", "src/io.h", "src/internal.h"],
 [("jitc_kernel_load/write", "src/io.cpp"), ("KernelKey, KernelHash", "src/internal.h, src/hash.h")],
 observe=["jit_eval()"])

prop("C14", "CPU matrix multiplication packs, batches and accumulates exactly",
 "Batched CPU matrix multiplication computes for every batch and output cell the sum over the contraction (and reduction) dimensions of products of exactly the addressed elements of A and B honouring transposition and broadcast strides, with zero padding never leaking into the result and no cell outside the output written.",
 ["inputs", "configurations"],
 "for all matrix sizes, batch/reduce shapes, strides, transposition flags and contents",
 "Edge tiles, K segments and column panels are only reached for particular sizes.",
 ["src/llvm_gemm.h", "src/llvm_ts.cpp", "src/util.cpp"],
 [("pack_a/pack_b/gemm_micro/gemm_row_sweep/gemm_reduce_decode", "src/llvm_gemm.h"), ("LLVMThreadState::batched_gemm", "src/llvm_ts.cpp"), ("jitc_batched_gemm", "src/util.cpp")],
 observe=["jit_batched_gemm()", "jit_var_batched_gemm()"])

prop("C15", "Cooperative vector matrix packing is lossless and non-overlapping",
 "Packing a list of matrices/vectors for cooperative vectors assigns each its own in-bounds region respecting the backend's alignment, and converting between row-major and packed layouts copies every coefficient exactly once to its place so that unpacking a packed set restores it.",
 ["inputs"],
 "for all lists of matrix shapes, strides, offsets and layouts",
 "Layout bugs depend on odd shapes and strides.",
 ["src/coop_vec.cpp", "src/llvm_coop_vec.cpp", "src/llvm_ts.cpp"],
 [("jitc_coop_vec_pack_matrices / layout computation", "src/coop_vec.cpp"), ("LLVMThreadState::coop_vec_pack", "src/llvm_ts.cpp")],
 observe=["jit_coop_vec_pack_matrices()"])

prop("C16", "Launch configurations cover every element exactly once",
 "For any number of elements, the launch configuration chosen for a device covers all elements, respects the device limits on threads per block and blocks, uses whole warps, and the CPU work split partitions the index range into disjoint consecutive pieces.",
 ["inputs", "configurations"],
 "for all sizes, device limits and requested block counts/sizes",
 "Off-by-one and overflow errors only appear near multiples of the block size or the 32-bit limit.",
 ["src/internal.h", "src/llvm_ts.cpp"],
 [("CUDADevice::get_launch_config, ceil_div/round_up helpers", "src/internal.h"), ("block split in LLVMThreadState", "src/llvm_ts.cpp")],
 observe=["kernel launches"])

prop("C17", "The nano-STL containers behave like sequences",
 "vector, string, unique_ptr and tuple behave like the standard containers they replace: every operation yields the sequence / text that the standard operation would yield, elements are constructed and destroyed exactly once, and no access leaves the storage, for every order of operations.",
 ["histories", "inputs"],
 "for all operation sequences, sizes, capacities and element values",
 "Container bugs depend on size/capacity coincidences and aliasing arguments.",
 ["include/drjit-core/nanostl.h"],
 [("drjit::vector", "include/drjit-core/nanostl.h"), ("drjit::string and formatters", "include/drjit-core/nanostl.h"), ("drjit::unique_ptr", "include/drjit-core/nanostl.h")],
 observe=["drjit::vector", "drjit::string", "drjit::unique_ptr"])

prop("C18", "JIT code memory sections are aligned, disjoint and in bounds",
 "Sections handed to the code generator are aligned as requested, lie inside the prepared buffer, do not overlap one another, and a request that does not fit is refused without writing outside the buffer.",
 ["inputs", "histories"],
 "for all section sizes, alignments, request sequences and buffer sizes",
 "Only the usual handful of section sizes occurs in tests.",
 ["src/llvm_memmgr.cpp"],
 [("jitc_llvm_memmgr_allocate/prepare/shutdown", "src/llvm_memmgr.cpp")],
 state=[("jitc_llvm_memmgr_data/offset/size", "buffer, position, capacity", "src/llvm_memmgr.cpp")],
 observe=["LLVM memory manager callbacks"])

prop("C19", "Gathers and scatters keep index, mask and copy-on-write semantics",
 "A gather or scatter touches only lanes enabled by its mask, treats every index as unsigned element index, and a scatter never modifies data visible through another variable: if the target is shared it is copied first.",
 ["inputs", "programs", "histories"],
 "for all operand structures, masks, sharing states and reduction modes",
 "Depends on sharing state and on simplification paths that particular programs trigger.",
 ["src/op.cpp"],
 [("jitc_var_gather, jitc_var_scatter, jitc_scatter_target...", "src/op.cpp")],
 observe=["jit_var_gather()", "jit_var_scatter()"])

prop("C20", "Type tables and reduction identities agree with the types",
 "For every variable type the recorded size, one, minimum, maximum and all-ones patterns are those of the type, and the identity reported for a reduction operation and type is neutral for that operation.",
 ["inputs"],
 "for all variable types, reduction operations and element values",
 "Table entries for rare types are not exercised by tests.",
 ["src/var.cpp", "src/var.h", "include/drjit-core/jit.h"],
 [("type_size/type_one/type_min/type_max/type_all_ones", "src/var.cpp"), ("jitc_reduce_identity", "src/var.cpp"), ("jitc_is_int/uint/float/...", "src/var.h")],
 observe=["jit_type_size()", "jit_var_reduce_identity()"])

prop("C21", "Scopes are renumbered without changing their order",
 "When scope identifiers are compacted, live variables keep the relative order (and equality) of their scopes and no scope limit is exceeded.",
 ["histories"],
 "for any set of live variables and scope values",
 "Compaction needs 2^32 scopes or an adversarial history.",
 ["src/var.cpp"],
 [("jitc_compact_scopes", "src/var.cpp")],
 observe=["jit_new_scope()"])

prop("C22", "Internal data structures are race free",
 "Concurrent use of the public API from several threads behaves like some serial order of the calls, with no data race on shared state and no deadlock.",
 ["schedules"],
 "for all thread interleavings",
 "Schedules are not controllable in tests.",
 ["src/lock.h", "src/api.cpp", "src/internal.h"],
 [("state.lock, eval_lock, lock_guard in api.cpp", "src/api.cpp, src/lock.h")])

prop("C23", "Generated kernels implement the traced graph",
 "The machine code generated for a traced program by every backend computes the denotation of the program.",
 ["programs", "inputs"],
 "for all traced programs, backends and inputs",
 "The space of programs is unbounded and backends are not present in the sandbox.",
 ["src/llvm_eval.cpp", "src/cuda_eval.cpp", "src/metal_eval.cpp"],
 [("jitc_llvm_assemble and render functions", "src/llvm_eval.cpp"), ("jitc_cuda_assemble", "src/cuda_eval.cpp")])

prop("C24", "Evaluation executes every scheduled computation once and in order",
 "jit_eval() computes every scheduled variable and performs every pending side effect exactly once, operands before users and scopes in order.",
 ["programs", "histories"],
 "for all sets of scheduled variables and side effects",
 "Needs graph shapes not covered by tests.",
 ["src/eval.cpp"],
 [("jitc_var_traverse, jitc_assemble, jitc_eval", "src/eval.cpp")])

prop("C25", "Frozen functions replay what was recorded",
 "Replaying a recorded function on new inputs yields the same outputs as re-tracing it, or reports that replay is impossible.",
 ["programs", "inputs"],
 "for all recorded functions and input sizes",
 "Depends on recorded operation sequences and new input sizes.",
 ["src/record_ts.cpp", "src/record_ts.h"],
 [("RecordThreadState, Recording::replay", "src/record_ts.cpp")])

prop("C26", "Loops, conditionals and calls keep their traced semantics",
 "Symbolic loops, conditionals and indirect calls compute what the corresponding evaluated control flow computes, also after loop-invariant and dead state optimisation and call deduplication.",
 ["programs"],
 "for all loop/conditional/call bodies and states",
 "Depends on the traced bodies.",
 ["src/loop.cpp", "src/cond.cpp", "src/call.cpp"],
 [("jitc_var_loop, jitc_var_cond, jitc_var_call", "src/loop.cpp, src/cond.cpp, src/call.cpp")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
