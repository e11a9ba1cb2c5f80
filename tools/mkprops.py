#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, state, mech, observe, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
      quantifier=dict(over=over, text=text), why_tests_cant=why,
      anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

p("C01", "Type descriptions get exactly the C compiler's layout",
  "For every tree of scalar, complex and nested structure descriptions, preparing a call interface or asking for structure offsets computes the size, alignment and member offsets that the C ABI gives the same declaration, and the built-in descriptors have the C sizes and alignments. A structure description that comes with its size and alignment (the manual's way to describe a union) keeps them. The result does not depend on which entry point laid the type out first, on sharing of sub-descriptions between types, or on repetition: re-preparing an already laid-out description changes nothing, and asking for offsets always yields the same offsets.",
  ["inputs", "histories"], "every description tree (any depth, member count, sharing), every order and repetition of prep_cif / prep_cif_var / get_struct_offsets over it",
  "The suite lays out about two dozen fixed structs, once each; type trees and preparation histories are unbounded.",
  ["src/prep_cif.c", "src/types.c", "include/ffi.h.in"],
  [("ffi_type.size/alignment", "0 until laid out, then the C size/alignment", "include/ffi.h.in")],
  [("initialize_aggregate", "src/prep_cif.c"), ("ffi_get_struct_offsets", "src/prep_cif.c"), ("FFI_TYPEDEF", "src/types.c")],
  ["ffi_prep_cif", "ffi_prep_cif_var", "ffi_get_struct_offsets", "ffi_type"])
p("C02", "Invalid descriptions are always rejected with the documented status",
  "Preparing an interface with an ABI number outside the supported set yields FFI_BAD_ABI, a description that is or contains an aggregate without any storage (no member list, or no members) yields FFI_BAD_TYPEDEF, a variadic argument narrower than int or of type float yields FFI_BAD_ARGTYPE, and everything else yields FFI_OK; the closure-preparation calls reject an interface of an unsupported ABI with FFI_BAD_ABI without making the closure usable. The answer depends only on the request: the same invalid request is rejected every time, whatever was prepared or rejected before, and a rejected request never turns an invalid description into an accepted one.",
  ["inputs", "histories"], "every request (ABI number, description tree, variadic split) after every history of accepted and rejected requests over shared descriptions",
  "Tests try four or five bad requests, each once and on fresh descriptions; status after a rejected attempt is never looked at.",
  ["src/prep_cif.c", "src/x86/ffi64.c", "src/x86/ffiw64.c"],
  [("ffi_type.size", "non-zero marks a description as already laid out", "include/ffi.h.in")],
  [("ffi_prep_cif_core", "src/prep_cif.c"), ("ffi_prep_cif_var", "src/prep_cif.c"), ("ffi_prep_cif_machdep", "src/x86/ffi64.c")],
  ["ffi_prep_cif", "ffi_prep_cif_var", "ffi_get_struct_offsets", "ffi_prep_closure_loc", "ffi_prep_go_closure"])
p("C03", "A call leaves everything the caller passed in unchanged",
  "Making a call through a prepared interface modifies neither the interface, nor the type descriptions, nor the caller's vector of argument pointers, nor the argument objects it points to; arguments are passed by value, so whatever the called function does to its parameters, the caller's objects keep their contents. Repeating the same call any number of times with the same interface and the same argument vector therefore always delivers the same arguments.",
  ["inputs", "histories"], "every signature, argument values, ABI, call entry point (plain, Go, raw, Java raw), callee that overwrites its parameters, and number of repetitions",
  "Tests call once per argument vector and look at the result only; nothing compares the argument vector or objects afterwards.",
  ["src/x86/ffi64.c", "src/x86/ffiw64.c", "src/raw_api.c", "src/java_raw_api.c"],
  [("avalue", "caller's vector of pointers to argument objects", "include/ffi.h.in")],
  [("ffi_call / ffi_call_int copies", "src/x86/ffi64.c"), ("ffi_call_int copies", "src/x86/ffiw64.c")],
  ["ffi_call", "ffi_call_go", "ffi_raw_call", "ffi_java_raw_call"])
p("C04", "Native calls deliver every argument where the platform ABI expects it",
  "For every signature and argument values under the default x86-64 ABI, the called function finds each argument, bit for bit, in exactly the registers or stack bytes the System V psABI assigns to it (including structure classification, complex types, long double, alignment of stack arguments, and the hidden return-storage pointer), narrow integers in registers extended to the whole register by the sign of their type, for fixed and variadic interfaces alike. At entry the stack is 16-byte aligned and AL is an upper bound, at most 8, on the vector registers used.",
  ["inputs", "programs"], "every signature (return type, any number of arguments from the scalar/complex/struct universe, variadic split) and every argument value",
  "Tests and the bhaible suite sample a few hundred signatures with chosen small values; combinations of register exhaustion with struct classes are barely sampled.",
  ["src/x86/ffi64.c", "src/x86/unix64.S"],
  [("register_args", "register image handed to the call stub", "src/x86/ffi64.c"), ("cif.flags/bytes", "return class and stack bytes", "include/ffi.h.in")],
  [("classify_argument/examine_argument", "src/x86/ffi64.c"), ("ffi_call_int", "src/x86/ffi64.c"), ("ffi_call_unix64", "src/x86/unix64.S")],
  ["registers and stack at the entry of the called function"])
p("C05", "Native call results reach the caller's buffer exactly",
  "For every return type, the value the called function returns under the System V psABI (integer, vector and x87 registers, mixed register pairs, or hidden pointer) is stored bit for bit in the caller's result buffer: integers narrower than a register are widened to ffi_arg with the sign of their type, other types write exactly their size, and no byte outside is touched. A null result buffer is accepted for every return type and simply discards the result.",
  ["inputs", "programs"], "every return type (scalars, complex, every struct shape), every returned bit pattern, with and without a result buffer, alone and after any arguments",
  "Tests check a few dozen return types with one value each and never look at the bytes around the buffer or at junk in unused register bits.",
  ["src/x86/ffi64.c", "src/x86/unix64.S"],
  [("cif.flags", "return-value class and size", "src/x86/internal64.h")],
  [("ffi_prep_cif_machdep return classes", "src/x86/ffi64.c"), ("store_table of ffi_call_unix64", "src/x86/unix64.S")],
  ["ffi_call result buffer and its surroundings"])
p("C06", "A native closure hands its function exactly the caller's arguments",
  "For every signature under the default x86-64 ABI, when compiled code calls a closure's code address, the closure function is invoked exactly once, with the interface and user data it was prepared with and with one pointer per argument to storage, aligned for the argument's type, holding, bit for bit, the value the caller passed according to the System V psABI.",
  ["inputs", "programs"], "every signature, every argument value, every content of unrelated registers, for static, dynamic and Go closures",
  "Closure tests cover a handful of signatures with small values; register-exhaustion and two-eightbyte struct combinations are hardly sampled.",
  ["src/x86/ffi64.c", "src/x86/unix64.S"],
  [("register_args", "register image saved by the closure entry", "src/x86/ffi64.c")],
  [("ffi_closure_unix64*", "src/x86/unix64.S"), ("ffi_closure_unix64_inner", "src/x86/ffi64.c")],
  ["arguments of the closure function"])
p("C07", "A native closure's result reaches its caller exactly",
  "For every return type, the value a closure function writes to its result pointer is what the caller of the closure receives, bit for bit, in the registers, x87 stack or hidden-pointer memory the System V psABI prescribes (with the hidden pointer itself returned in RAX); integers narrower than 32 bits arrive extended to 32 bits by the sign of their type. No other caller memory is written.",
  ["inputs", "programs"], "every return type, returned bit pattern and argument signature, for static, dynamic and Go closures",
  "Only a few return types are exercised through closures and only by value equality in C.",
  ["src/x86/ffi64.c", "src/x86/unix64.S"],
  [("cif.flags", "return-value class", "src/x86/internal64.h")],
  [("load_table of ffi_closure_unix64", "src/x86/unix64.S"), ("ffi_closure_unix64_inner", "src/x86/ffi64.c")],
  ["registers and memory at the return of the closure's code"])
p("C08", "Microsoft-x64 calls follow the Microsoft calling convention",
  "For every signature under FFI_WIN64 and FFI_GNUW64, the called function finds argument i in slot i (RCX/RDX/R8/R9 duplicated in XMM0-3 for the first four, then the stack above 32 bytes of home space), with objects of 1, 2, 4 or 8 bytes inline and every other size behind a pointer to a private copy, and the hidden return pointer as the first slot when the result is not register-sized. The result is stored exactly, narrow integers widened to ffi_arg, nothing outside the result buffer touched, and a null result buffer is accepted.",
  ["inputs", "programs"], "every signature supported under the two ABI numbers, every value, any callee that writes to its parameters",
  "The suite runs ms_abi calls only for a handful of functions compiled with the ms_abi attribute.",
  ["src/x86/ffiw64.c", "src/x86/win64.S"],
  [("stack/frame", "slot image and frame handed to the stub", "src/x86/ffiw64.c")],
  [("ffi_call_int", "src/x86/ffiw64.c"), ("ffi_call_win64", "src/x86/win64.S")],
  ["registers, stack and referenced memory at entry of the called function; result buffer"])
p("C09", "Microsoft-x64 closures follow the Microsoft calling convention",
  "For every signature under FFI_WIN64 and FFI_GNUW64, calling a closure's code address with the Microsoft convention invokes its function exactly once with the right interface and user data and one pointer per argument to the value passed, and returns the function's result, bit for bit, in RAX, XMM0 or the hidden-pointer memory (the pointer then in RAX).",
  ["inputs", "programs"], "every signature and value under the two ABI numbers, static, dynamic and Go closures",
  "Only one or two ms_abi closures exist in the suite.",
  ["src/x86/ffiw64.c", "src/x86/win64.S"],
  [("win64_closure_frame", "image saved by the closure entry", "src/x86/ffiw64.c")],
  [("ffi_closure_win64_inner", "src/x86/ffiw64.c"), ("ffi_closure_win64*", "src/x86/win64.S")],
  ["arguments of the closure function; registers and memory at return"])
p("C10", "Calls and closures preserve the machine state the ABI protects",
  "Whatever the signature, ABI, entry point and callee, on return from a call or from a closure's code the stack pointer, every callee-saved register of the convention in force, the floating-point control words, the direction flag and the depth of the x87 register stack (apart from results returned there) are as the ABI requires, and the called function or closure function starts with an aligned stack, clear direction flag and empty x87 stack. This holds for any number of repetitions, with or without a result buffer.",
  ["inputs", "programs", "histories"], "every signature, return class, null/non-null result buffer, call and closure kind, repeated any number of times",
  "No test reads machine state; a leaked x87 slot or clobbered register only shows in unrelated later code.",
  ["src/x86/unix64.S", "src/x86/win64.S", "src/x86/ffi64.c", "src/x86/ffiw64.c"],
  [("rbx,rbp,r12-r15,rsp,x87,mxcsr", "protected machine state", "src/x86/unix64.S")],
  [("ffi_call_unix64 prologue/epilogue", "src/x86/unix64.S"), ("ffi_call_win64", "src/x86/win64.S"), ("closure entries", "src/x86/unix64.S")],
  ["machine registers around ffi_call and around closure code"])
p("C11", "Nested and abandoned calls and callbacks behave like plain C calls",
  "Calls and closures nest to any depth in any mix (a call into a closure whose function calls through libffi again, recursively through the same interface or the same closure, across ABIs), and every activation keeps its own arguments, result and user data. Leaving any number of such activations by longjmp, or by a C++ exception on the default ABI, unwinds exactly to the catching frame and leaves all interfaces and closures usable.",
  ["histories", "programs"], "every finite nesting of calls/closures over several signatures and ABIs, every choice of activation abandoned by longjmp or exception",
  "One test nests two levels and a few throw across one frame; deep mixed chains and reuse after abandonment are not sampled.",
  ["src/x86/unix64.S", "src/x86/win64.S", "src/x86/ffi64.c", "src/x86/ffiw64.c", "include/ffi_cfi.h"],
  [("activation frames", "per-call register image and argument vector on the stack", "src/x86/ffi64.c")],
  [("CFI of ffi_call_unix64/ffi_closure_unix64", "src/x86/unix64.S"), ("ffi_call_int", "src/x86/ffi64.c")],
  ["values seen at every level of the chain"])
p("C12", "Go-style calls and closures carry the static chain",
  "A Go-style call passes exactly the given closure word in the static-chain register together with arguments and results identical to those of a plain call of the same signature, and calling a Go closure's code with the closure's address in the static-chain register invokes its function with that closure as user data, the prepared interface and exactly the caller's arguments, returning its result exactly. A Go closure keeps its code and interface words where compiled code expects them, and preparing one rejects unsupported ABIs.",
  ["inputs", "programs"], "every signature, value and closure word under every ABI of the platform",
  "Three small tests call one or two signatures.",
  ["src/x86/ffi64.c", "src/x86/ffiw64.c", "src/x86/unix64.S", "src/x86/win64.S"],
  [("ffi_go_closure", "tramp, cif, fun words of the closure object", "include/ffi.h.in")],
  [("ffi_call_go", "src/x86/ffi64.c"), ("ffi_go_closure_unix64*", "src/x86/unix64.S"), ("ffi_go_closure_win64", "src/x86/win64.S")],
  ["r10 at callee entry; user data of the closure function"])
p("C13", "The raw API moves arguments exactly between slots and C calls",
  "A raw argument area is a sequence of machine words with each argument occupying the words its type needs, in order; calling through it delivers to the function exactly the arguments stored there, a raw closure hands its function an area holding exactly the caller's arguments with narrow integers widened by the sign of their type, and the size query covers the whole area. Converting an argument vector to a raw area and back refers to the same values, and results travel as in ordinary calls and closures.",
  ["inputs", "programs"], "every signature of types the raw API admits (any mix and number of scalars, and structures by reference), every value, static and dynamic closures",
  "The suite's raw tests are a handful of signatures, and none runs raw closures in the static-trampoline configuration with data checks on every slot.",
  ["src/raw_api.c"],
  [("ffi_raw", "argument word area", "include/ffi.h.in")],
  [("ffi_raw_to_ptrarray / ffi_ptrarray_to_raw / ffi_raw_size", "src/raw_api.c"), ("ffi_translate_args", "src/raw_api.c"), ("ffi_prep_raw_closure_loc", "src/raw_api.c")],
  ["ffi_raw_call", "ffi_prep_raw_closure_loc", "ffi_raw_size", "ffi_raw_to_ptrarray", "ffi_ptrarray_to_raw"])
p("C14", "The Java raw API moves arguments exactly between slots and C calls",
  "In the Java raw area each argument occupies the Java slots its type needs, in order; a Java raw call delivers exactly the stored arguments and returns the exact result widened as documented, and a Java raw closure hands its function an area holding exactly the caller's arguments and returns its result. The size query covers the whole area and converting between argument vectors and Java raw areas refers to the same values.",
  ["inputs", "programs"], "every signature of the scalar types the Java raw API admits, every value, static and dynamic closures",
  "Only the test suite's few raw signatures touch it, if at all.",
  ["src/java_raw_api.c"],
  [("ffi_java_raw", "Java slot area", "include/ffi.h.in")],
  [("ffi_java_raw_to_ptrarray / ffi_java_ptrarray_to_raw / ffi_java_raw_size", "src/java_raw_api.c"), ("ffi_java_translate_args", "src/java_raw_api.c"), ("ffi_java_rvalue_to_raw", "src/java_raw_api.c")],
  ["ffi_java_raw_call", "ffi_prep_java_raw_closure_loc", "ffi_java_raw_size"])
p("C15", "Live closures are isolated from each other and stay correctly bound",
  "At any point of any history of allocating, preparing, re-preparing, calling and freeing closures, every live closure has its own code address and its own writable memory of at least the requested size, disjoint from those of every other live closure, and its contents beyond the library's own part are left alone. Calling any live, prepared closure runs exactly the function, interface and user data of its latest preparation, no matter what happened to other closures in between, and mapping a closure's writable address to its code address gives the address returned at allocation.",
  ["histories"], "every finite history of alloc(size)/prep/re-prep/call/free over any number of closures, in static-trampoline and dynamic-trampoline configurations",
  "Tests allocate one to a few closures and free them in order; reuse of freed trampolines and crossing of table boundaries is never checked.",
  ["src/closures.c", "src/tramp.c", "src/dlmalloc.c", "src/x86/ffi64.c"],
  [("tramp_globals free list", "free trampolines and their tables", "src/tramp.c"), ("dlmalloc segments", "closure heap and its exec offset", "src/closures.c")],
  [("ffi_closure_alloc/ffi_closure_free", "src/closures.c"), ("ffi_tramp_alloc/ffi_tramp_free", "src/tramp.c"), ("ffi_data_to_code_pointer", "src/closures.c")],
  ["code/writable addresses, function/user data seen at each call"])
p("C16", "Closure memory is reclaimed and bounded",
  "Executable trampoline pages are created only when no already mapped one has room, and are given back as closures are freed, so that at most one such page remains once no closure is live; closure heap memory freed is reused. Over any number of allocate/free cycles with bounded live closures the process's mappings and memory stay bounded by a function of the peak number of live closures.",
  ["histories"], "every history of allocations and frees with any order of frees, in static and dynamic trampoline configurations",
  "Tests run a few closures and exit; nothing measures mappings over a history.",
  ["src/tramp.c", "src/closures.c", "src/dlmalloc.c"],
  [("tramp_globals.free_tables / nfree", "tables and free slots", "src/tramp.c")],
  [("tramp_table_alloc/tramp_table_free/tramp_add/tramp_del", "src/tramp.c"), ("dlfree/sys_trim", "src/dlmalloc.c")],
  ["process memory map after each operation"])
p("C17", "Closure memory is never writable and executable at one address",
  "With static trampolines, and in the dual-mapping mode of dynamic trampolines, no page is ever mapped both writable and executable: closure code addresses lie in pages that are executable and not writable, closure data addresses in pages that are writable and not executable, at every point of every history. No memory protection of such a page is changed afterwards to make it both.",
  ["histories", "configurations"], "every history of closure operations, in the static-trampoline and dual-mapping configurations",
  "No test inspects page protections.",
  ["src/tramp.c", "src/closures.c"],
  [("mappings", "protections of closure and trampoline pages", "src/tramp.c")],
  [("tramp_table_map", "src/tramp.c"), ("dlmmap_locked", "src/closures.c")],
  ["mmap/mprotect calls and the process memory map"])
p("C18", "A failed closure allocation has no effect and does not persist",
  "When any system resource the allocator needs (memory mapping, backing file, descriptor, heap memory) is refused at any point, closure allocation either still succeeds by an alternative or returns a null pointer; it never crashes or leaves a descriptor, mapping or lock behind, and every other closure keeps working. As soon as the resource is available again, allocation succeeds again.",
  ["fault_sequences", "histories"], "every sequence of injected failures of mmap, open, memfd/temporary-file creation, write/ftruncate and malloc at any call, interleaved with any closure history",
  "The tests never make a system call fail.",
  ["src/tramp.c", "src/closures.c", "src/dlmalloc.c"],
  [("tramp_globals.status", "outcome of one-time initialisation", "src/tramp.c"), ("execfd/execsize", "backing file of the dual mapping", "src/closures.c")],
  [("ffi_closure_alloc error paths", "src/closures.c"), ("tramp_table_alloc error paths", "src/tramp.c"), ("dlmmap_locked", "src/closures.c")],
  ["results of ffi_closure_alloc under failing system calls; descriptors and mappings afterwards"])
p("C19", "Executable backing storage is found in the documented order",
  "When closure memory needs a file to map, the candidates are tried in the documented order (anonymous memory file, the LIBFFI_TMPDIR directory, the TMPDIR directory, /tmp, /var/tmp, /dev/shm, the home directory, mount points from the mount tables), candidates unsuitable for executable mappings are skipped, and the first that works is used and reused for later growth. Allocation fails only if no candidate works.",
  ["configurations", "fault_sequences"], "every combination of usable and unusable candidates and environment settings",
  "Tests run in one environment, where the first candidate works.",
  ["src/closures.c"],
  [("open_temp_exec_file_opts", "candidate list and cursor", "src/closures.c")],
  [("open_temp_exec_file/open_temp_exec_file_opts_next", "src/closures.c"), ("dlmmap_locked retry", "src/closures.c")],
  ["order and outcome of file creation attempts"])
p("C20", "The library leaves no files or descriptors behind",
  "Every temporary file the library creates is unlinked before it is used, every descriptor it opens is either closed before the public call returns or marked close-on-exec, and failed attempts close what they opened. A program executed by the process therefore inherits nothing from libffi, and no files remain on disk, whatever sequence of operations and failures occurred.",
  ["histories", "fault_sequences", "configurations"], "every closure history and every pattern of failing system calls, in static-trampoline and dynamic-trampoline configurations",
  "No test looks at descriptors or directories.",
  ["src/tramp.c", "src/closures.c"],
  [("tramp_globals.fd, execfd", "kept descriptors", "src/tramp.c")],
  [("ffi_tramp_get_libffi / ffi_tramp_get_temp_file", "src/tramp.c"), ("open_temp_exec_file_*", "src/closures.c")],
  ["open descriptors with flags and directory contents after each operation"])
p("C21", "Closure management and calls are safe from any number of threads",
  "Threads may allocate, prepare, call and free closures concurrently, and share prepared interfaces and type descriptions for calls, without external locking: every interleaving gives each thread results that some sequential order of the operations gives, with all guarantees of live-closure isolation intact. First use from several threads at once initialises the library exactly once.",
  ["schedules"], "every interleaving of concurrent closure operations and calls, including concurrent first use",
  "One small threaded test runs under whatever schedule the kernel picks.",
  ["src/closures.c", "src/tramp.c", "src/dlmalloc.c"],
  [("tramp lock / heap lock / open_temp_exec_file_mutex", "mutual exclusion of allocator state", "src/tramp.c"), ("segment list", "heap segments searched for the exec offset", "src/dlmalloc.c")],
  [("tramp_lock", "src/tramp.c"), ("PREACTION/POSTACTION", "src/dlmalloc.c"), ("segment_holding callers", "src/closures.c")],
  ["results of concurrent public operations under controlled schedules"])
p("C22", "Fork keeps parent and child closures independent",
  "After fork, closures created before it work in both processes with the binding they had, and with static trampolines each process can prepare, re-prepare, free and allocate closures without any effect on the other's. This holds for any number of forks at any point of a closure history.",
  ["histories"], "every interleaving of closure operations in parent and child after forks at any point, static-trampoline configuration",
  "No test forks.",
  ["src/tramp.c", "src/closures.c"],
  [("trampoline parameter pages", "private per process", "src/tramp.c")],
  [("tramp_table_map MAP_PRIVATE mappings", "src/tramp.c"), ("heap mappings", "src/dlmalloc.c")],
  ["bindings observed in both processes"])
p("C23", "Closures in caller-provided memory work and leave the rest alone",
  "A closure may be built in memory the caller provides (writable at one address and executable at the same or another), without the closure allocator: preparing it writes only inside the closure object, calling its executable address runs the prepared function with the prepared interface and user data, and re-preparing or relocating via the separate executable address behaves the same. Such closures never interfere with closures from the allocator.",
  ["inputs", "histories"], "every placement and alignment of caller memory, same-address and separate executable mappings, re-preparation, mixed with allocator closures and any signature",
  "One test maps one page once.",
  ["src/x86/ffi64.c", "src/x86/ffiw64.c", "src/prep_cif.c", "src/tramp.c"],
  [("ffi_closure.tramp", "dynamic trampoline bytes", "include/ffi.h.in")],
  [("ffi_prep_closure_loc dynamic path", "src/x86/ffi64.c"), ("ffi_tramp_is_present", "src/tramp.c")],
  ["bytes around the closure object; binding at each call"])
p("C24", "Trampolines never run code from a replaced library file",
  "If the file the library was loaded from is deleted, or another file is put in its place, while the process runs, closure allocation either produces closures that work as specified or fails with a null pointer. It never yields a closure whose code comes from the changed file.",
  ["fault_sequences", "configurations"], "every change to the library's file on disk before the first or any later closure allocation",
  "No test changes the library file while running.",
  ["src/tramp.c"],
  [("tramp_globals.fd/offset", "file and offset the code table is mapped from", "src/tramp.c")],
  [("ffi_tramp_get_libffi", "src/tramp.c"), ("tramp_table_map", "src/tramp.c")],
  ["bytes and behaviour of closure code after the file changed"])

p("C25", "32-bit x86 calls follow their conventions",
  "On 32-bit x86 (sysv, ms_cdecl, stdcall, thiscall, fastcall), ffi_call, ffi_call_go and ffi_raw_call place every argument and the hidden result pointer in the register or stack bytes where compiled code of that convention looks for it, widened as the convention says, deliver the result from where it leaves it, and leave the stack pointer, callee-saved registers, x87 stack and the caller's argument objects as the convention requires. Type layouts, raw-area sizes and conversions follow the same i386 rules.",
  ["inputs"], "every signature of fixed arguments of every type under every 32-bit convention gcc implements, every value",
  "The tests run for 64-bit x86 only; this port is never executed by them.",
  ["src/x86/ffi.c", "src/x86/sysv.S", "src/raw_api.c", "src/types.c"],
  [("narg_reg/argp", "position in the assignment of arguments", "src/x86/ffi.c")],
  [("ffi_prep_cif_machdep", "src/x86/ffi.c"), ("ffi_call_int", "src/x86/ffi.c"), ("ffi_raw_call", "src/x86/ffi.c"), ("ffi_call_i386", "src/x86/sysv.S")],
  ["registers and stack at the callee's entry; result storage, machine state and caller's memory after the call"])
p("C26", "32-bit x86 closures follow their conventions",
  "On 32-bit x86, code compiled for sysv, ms_cdecl, stdcall, thiscall or fastcall that calls a closure, Go closure or raw closure prepared for that convention runs the prepared function with the prepared interface and user data, sees every argument's value delivered to it, receives the result where the convention leaves it, and gets back its stack pointer with exactly the bytes removed that the convention says, its callee-saved registers and x87 stack intact, with static as with dynamic trampolines.",
  ["inputs"], "every signature of fixed arguments of every type under every 32-bit convention gcc implements, every value",
  "The tests run for 64-bit x86 only; this port is never executed by them.",
  ["src/x86/ffi.c", "src/x86/sysv.S", "src/closures.c", "src/tramp.c"],
  [("closure_frame", "saved registers and result storage", "src/x86/ffi.c")],
  [("ffi_closure_inner", "src/x86/ffi.c"), ("ffi_closure_i386/STDCALL, ffi_go_closure_*, ffi_closure_raw_*", "src/x86/sysv.S"), ("ffi_prep_closure_loc, ffi_prep_go_closure, ffi_prep_raw_closure_loc", "src/x86/ffi.c")],
  ["what the prepared function receives; result, stack pointer and machine state back in the caller"])

p("C27", "AArch64 calls follow the procedure call standard",
  "On 64-bit Arm (FFI_SYSV and FFI_WIN64), ffi_call and ffi_call_go place every fixed and variadic argument and the result pointer in the register or stack bytes where code compiled for AAPCS64 (or Microsoft's variant) looks for it, large composites as aligned copies, deliver the result from where it is left, and leave the stack pointer, callee-saved registers, the caller's argument objects, and memory outside the result storage as the standard requires, with a result pointer or a null rvalue.",
  ["inputs"], "every signature of fixed and variadic arguments of every type (complex included), every value, both ABIs",
  "The tests run for 64-bit x86 only; this port is never executed by them.",
  ["src/aarch64/ffi.c", "src/aarch64/sysv.S", "src/prep_cif.c"],
  [("arg_state", "next register numbers and stack offset", "src/aarch64/ffi.c")],
  [("ffi_prep_cif_machdep", "src/aarch64/ffi.c"), ("ffi_call_int", "src/aarch64/ffi.c"), ("ffi_call_SYSV", "src/aarch64/sysv.S")],
  ["registers and stack at the callee's entry; result storage, machine state and caller's memory after the call"])
p("C28", "AArch64 closures follow the procedure call standard",
  "On 64-bit Arm (FFI_SYSV and FFI_WIN64), compiled code that calls a closure (dynamic or static trampoline) or a Go closure runs the prepared function with the prepared interface and user data, sees every argument's value delivered to it suitably aligned, receives the result where the standard leaves it, and gets back its stack pointer and callee-saved registers; also when the library is built with branch protection.",
  ["inputs"], "every signature of fixed and variadic arguments of every type (complex included), every value, both ABIs, builds with and without branch protection",
  "The tests run for 64-bit x86 only; this port is never executed by them.",
  ["src/aarch64/ffi.c", "src/aarch64/sysv.S"],
  [("arg_state", "next register numbers and stack offset", "src/aarch64/ffi.c")],
  [("ffi_closure_SYSV_inner", "src/aarch64/ffi.c"), ("ffi_prep_closure_loc, ffi_prep_go_closure", "src/aarch64/ffi.c"), ("ffi_closure_SYSV(_V), ffi_go_closure_SYSV(_V)", "src/aarch64/sysv.S")],
  ["what the prepared function receives; result, stack pointer and machine state back in the caller"])
p("C29", "RISC-V calls and closures follow the LP64D convention",
  "On 64-bit RISC-V with hardware doubles, ffi_call, ffi_call_go, closures and Go closures exchange every fixed and variadic argument, the result and the result pointer in the registers or stack bytes the LP64D convention gives them (narrow integers extended, narrow floats boxed, large values as aligned copies), whichever compiler builds the library, and leave stack pointer, callee-saved registers, the caller's arguments and memory outside the result storage as the convention requires.",
  ["inputs"], "every signature of fixed and variadic arguments of every type the port has, every value",
  "The tests run for 64-bit x86 only; this port is never executed by them.",
  ["src/riscv/ffi.c", "src/riscv/sysv.S"],
  [("call_builder", "registers and stack used so far", "src/riscv/ffi.c")],
  [("marshal, unmarshal", "src/riscv/ffi.c"), ("ffi_call_int, ffi_closure_inner", "src/riscv/ffi.c"), ("ffi_call_asm, ffi_closure_asm, ffi_go_closure_asm", "src/riscv/sysv.S")],
  ["registers and stack at entry of callee or prepared function; result, machine state and memory afterwards"])
p("C30", "LoongArch calls and closures follow the LP64D convention",
  "On 64-bit LoongArch with hardware doubles, ffi_call, ffi_call_go, closures (dynamic and static trampolines) and Go closures exchange every fixed and variadic argument, the result and the result pointer in the registers or stack bytes the LP64D convention gives them (narrow integers extended, large values as aligned copies), and leave stack pointer, callee-saved registers, the caller's arguments and memory outside the result storage as the convention requires.",
  ["inputs"], "every signature of fixed and variadic arguments of every type the port has, every value",
  "The tests run for 64-bit x86 only; this port is never executed by them.",
  ["src/loongarch64/ffi.c", "src/loongarch64/sysv.S"],
  [("call_builder", "registers and stack used so far", "src/loongarch64/ffi.c")],
  [("marshal, unmarshal", "src/loongarch64/ffi.c"), ("ffi_call_int, ffi_closure_inner", "src/loongarch64/ffi.c"), ("ffi_call_asm, ffi_closure_asm, ffi_go_closure_asm", "src/loongarch64/sysv.S")],
  ["registers and stack at entry of callee or prepared function; result, machine state and memory afterwards"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
