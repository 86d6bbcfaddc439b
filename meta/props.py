"""Source of properties.jsonl and MANIFEST.json (run meta/gen.py)."""
PROPS = []
NA = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="other"):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
                      _technique=technique, _note=note, _level=level))


prop("K01", "Every admitted operation and element type reaches its own CPU kernel",
     "Every operation applied to an element type that operation validation accepts is executed on the CPU by the kernel "
     "of exactly that operation and exactly that element type. No accepted combination panics or fails for want of a "
     "kernel, and none is silently computed by the kernel of another operation or type.",
     ["inputs", "configurations"],
     "every tensor operation, every element type its validation admits, and every input of that type",
     "153 operations times 15 element types are selected by strings built at run time; the tests exercise a few types per "
     "operation and call most kernels by hand-written names, bypassing the name construction.",
     ["crates/hodu_core/src/be_cpu/storage", "crates/hodu_cpu_kernels/src/kernels", "crates/hodu_core/src/utils/valid.rs",
      "crates/hodu_core/src/ops.rs"],
     [("kernel name construction per operation and type", "crates/hodu_core/src/be_cpu/storage/*.rs"),
      ("name to foreign function dispatch tables", "crates/hodu_cpu_kernels/src/kernels/*.rs"),
      ("admission of element types", "crates/hodu_core/src/utils/valid.rs: validate_dtype_for_op")],
     "abstract interpretation of the compiler's MIR with constant operation and element type",
     "Every path from the storage layer to the foreign call is interpreted for each (operation, type) cell; sound up to the "
     "MIR models of std in lib/absint.py. Kernel bodies are other properties' subject.")

TOPS = ["crates/hodu_core/src/tensor/ops", "crates/hodu_core/src/utils/valid.rs"]
TWHY = ("There are 182 public tensor operations, each with an eager and a capturing branch and a choice of which operands "
        "require grad; the existing tests call the C kernels directly and exercise no tensor operation in either mode.")
TNOTE = ("Every path of every public tensor operation is interpreted over the compiler's MIR, entering whatever helpers it "
         "uses; std and the storage layer are modelled by name. Values of shapes and arguments stay symbolic.")

prop("K02", "Both sides of every CPU kernel call agree on the data passed",
     "Every C kernel the Rust side declares is defined with the declared arguments and result. Every data pointer and scalar "
     "passed to a kernel addresses values of exactly the element type as which the kernel (thread workers included) reads "
     "and writes them: same width, same signedness, same float format. Nothing is written through a pointer that was passed "
     "as shared.",
     ["inputs", "configurations"],
     "all 1805 foreign declarations, and every call of a kernel for every operation and element type",
     "the pointers are untyped at the boundary, so nothing but agreement of the two sources keeps a kernel from reading past a "
     "buffer or reinterpreting its bits; the tests reach a small part of the combinations.",
     ["crates/hodu_cpu_kernels/src/kernels", "crates/hodu_cpu_kernels/kernels", "crates/hodu_core/src/be_cpu/storage"],
     [("foreign declarations and dispatch", "crates/hodu_cpu_kernels/src/kernels/*.rs"),
      ("kernel definitions", "crates/hodu_cpu_kernels/kernels/*.c")],
     "type agreement across the language boundary: compiler MIR of the calls against the clang syntax tree and LLVM IR of the kernels",
     "Rust calls by abstract interpretation per (operation, type) cell; C accesses by points-to over the compiled IR of each "
     "kernel. The pointer array of einsum is not followed (listed as undecided).")

prop("K05", "No tensor rank overruns the fixed index arrays of a CPU kernel",
     "A CPU kernel never indexes one of its fixed-size coordinate, stride or shape arrays at or past its length: a backend "
     "operation given more dimensions (or, for einsum, more operands or index letters) than its kernel has room for is refused "
     "with an error before the kernel is called.",
     ["inputs"],
     "every CPU operation and element type, operands of every rank", 
     "nothing in the library bounds the rank of a tensor, the arrays hold 4, 16 or 32 entries, and no test goes past rank 6; an "
     "overrun silently corrupts the stack.",
     ["crates/hodu_core/src/be_cpu/storage.rs", "crates/hodu_core/src/op_metadatas.rs", "crates/hodu_cpu_kernels/kernels"],
     [("entries", "crates/hodu_core/src/be_cpu/storage.rs"), ("kernels", "crates/hodu_cpu_kernels/kernels/*.c")],
     "abstract interpretation of MIR for metadata words at ranks around every array length; value analysis of array indices in LLVM IR",
     "Ranks are enumerated around each array length (up to three past it); indices the analysis cannot bound (data dependent) are "
     "not counted as checked.")

prop("K06", "Kernels compute in at least the precision of their elements",
     "A kernel called for f64 or for 32- or 64-bit integers computes no element, coordinate or partial result in single "
     "precision, and truncates no 64-bit element to a narrower integer; only small-float kernels use small-float conversions. "
     "(Conversions between element types, which round by design, are exempt.)",
     ["inputs", "configurations"],
     "every f64, i32, u32, i64 and u64 kernel the back end selects, with its workers, comparators and helpers",
     "the loss shows only for values beyond 24 bits of mantissa, which tests with small round numbers never contain.",
     ["crates/hodu_cpu_kernels/kernels"],
     [("kernels", "crates/hodu_cpu_kernels/kernels/*.c"), ("math helpers", "crates/hodu_cpu_kernels/kernels/math_utils.h")],
     "effect-style type analysis over the clang syntax tree: no single-precision expression reachable in the call graph of a wide kernel",
     "The kernels and their element types come from the interpreted Rust calls; constants equal in every precision are allowed.")

prop("K09", "Small floats are computed on as floats, never on their bits",
     "In the CPU kernels, elements of f16, bf16 and the 8-bit float types (stored as unsigned integers) are only computed on "
     "through the conversions of their own type: no arithmetic, comparison, truth test or numeric conversion applies to the "
     "raw bits, no value of one such type is used as another or as a plain number, and no plain number as one of them.",
     ["inputs", "configurations"],
     "every C function of the CPU kernels that handles one of the four storage types",
     "C accepts arithmetic on the bit patterns silently; the result is wrong for most inputs but the tests sample f32 almost "
     "exclusively.",
     ["crates/hodu_cpu_kernels/kernels"],
     [("conversion helpers", "crates/hodu_cpu_kernels/kernels/t_*.h"), ("kernels", "crates/hodu_cpu_kernels/kernels/*.c")],
     "typedef-sensitive type system over the clang syntax tree of every kernel (qualifier checking)",
     "Every expression of every function is checked after macro expansion; the conversion functions themselves are trusted.")

prop("N03", "No library function is bound to call itself for ever",
     "Every function of the library can return: no function calls itself, directly or through others, on every path from its "
     "entry to its return. In particular each method that the derives generate for a module, loss, optimizer or dataset "
     "(parameters, forward, step, zero_grad, len, get) forwards to a method of the type, and not back to itself.",
     ["inputs"],
     "every function of every workspace crate, the output of the derives included",
     "the generated method names the inherent method it expects; when that is missing the same call resolves to the generated "
     "method itself, compiles, and overflows the stack only for the types whose method somebody calls; no test calls parameters().",
     ["crates/hodu_nn/src", "crates/hodu_nn/macros", "crates/hodu_datasets/macros", "crates/hodu_datasets/src", "crates/hodu_core/src"],
     [("derived trait impls", "crates/hodu_nn/macros/src"), ("methods they forward to", "crates/hodu_nn/src/modules/*.rs, losses/*.rs")],
     "must-call analysis over MIR: cycles of calls made on every path to return, through statically resolved callees",
     "Recursion that some path avoids (and whose progress would have to be argued) is not judged.")

NFILES = ["crates/hodu_nn/src"]
NTXT = ("The constructors, forward, step and parameters methods are interpreted over the compiler's MIR with the tensor operations as "
        "uninterpreted terms (their own properties are T01 to T08); vectors of tensors have a fixed small length, ranks are 1 to 5.")

prop("N01", "parameters() returns every trainable tensor once, and each gets a gradient",
     "For every module and loss and however it is constructed, parameters() returns exactly the tensors it holds that require grad, "
     "each once. Every one of them feeds the result of every successful forward call through differentiable operations only, and so "
     "does the input (unless it holds indices): nothing on the way detaches, re-creates or drops it, in training and in evaluation mode.",
     ["inputs", "configurations"],
     "every module and loss, every constructor and choice of its options, forward on every rank it accepts in both modes",
     "a parameter that is left out, or whose gradient is cut, just does not learn: the forward result is right and no test trains.",
     NFILES + ["crates/hodu_nn/src/modules", "crates/hodu_nn/src/losses"],
     [("parameters of modules", "crates/hodu_nn/src/modules/*.rs: parameters"), ("forward methods", "crates/hodu_nn/src/modules/*.rs, losses/*.rs")],
     "abstract interpretation of MIR on concrete module configurations; dataflow reachability in the term graph of the result", NTXT)

prop("N02", "An optimizer step updates each parameter from its own gradient and state",
     "One step of an optimizer writes each parameter it is given exactly once and no other tensor. The value is computed from that "
     "parameter, its own gradient and its own running statistics, never from those of another parameter, in the first step and in "
     "later ones, whatever the options; every step updates every running statistic and counts itself once. Every numeric option given to the constructor influences some step; after set_learning_rate "
     "the new rate is used and the old one is not; zero_grad resets every parameter.",
     ["inputs", "histories", "configurations"],
     "every optimizer and choice of options, the first three steps over three parameters, and a step after set_learning_rate",
     "state is kept in vectors indexed by hand; the wrong slot, or an option read in one branch only, still moves the parameters and "
     "still decreases a loss. No test steps an optimizer.",
     ["crates/hodu_nn/src/optimizers", "crates/hodu_nn/src/optimizer.rs", "crates/hodu_nn/macros/src"],
     [("step", "crates/hodu_nn/src/optimizers/*.rs: step"), ("derived step and zero_grad", "crates/hodu_nn/macros/src")],
     "abstract interpretation of MIR over successive steps; dependence of each written value on parameters, gradients, state and options",
     NTXT + " The arithmetic of the update formulas is not judged.")

prop("N04", "Modules, losses and optimizers never mix element types",
     "A module, loss or optimizer applied to tensors of one floating element type (whichever it is) applies no tensor operation to "
     "operands of different element types: tensors it creates, masks and scalar constants are converted to the type of the tensor "
     "they meet. So no element type makes a forward call or a step fail or be computed in another type.",
     ["inputs", "configurations"],
     "every module, loss and optimizer, every configuration and mode, any floating element type of the input",
     "the operations refuse mixed element types at run time, and a constant of type f32 works as long as the test uses f32.",
     NFILES + ["crates/hodu_nn/src/modules", "crates/hodu_nn/src/losses", "crates/hodu_nn/src/optimizers"],
     [("scalar conversions", "crates/hodu_core/src/scalar"), ("modules", "crates/hodu_nn/src/modules/*.rs"), ("losses", "crates/hodu_nn/src/losses/*.rs")],
     "abstract interpretation of MIR with a symbolic element type per tensor and scalar (element-type inference)", NTXT)

prop("N06", "Evaluation mode is deterministic and leaves a module unchanged",
     "In evaluation mode a forward call draws no random number and modifies neither the module nor a tensor it holds. What evaluation "
     "mode reads and training mode does not (running statistics) is updated by every training call. The mode is Training until it is "
     "set, the mode read is the one last set, and train!() and eval!() called from a user's crate set it to Training and Evaluation.",
     ["inputs", "histories", "configurations"],
     "every module and loss, every configuration, both modes",
     "no test calls a module in evaluation mode; one branch that forgets the mode is invisible in training.",
     NFILES + ["crates/hodu_nn/src/modules", "crates/hodu_nn/src/state.rs"],
     [("mode", "crates/hodu_nn/src/state.rs"), ("dropout, batch normalisation, RReLU, attention", "crates/hodu_nn/src/modules/*.rs")],
     "abstract interpretation of MIR in both modes; effect analysis (random draws, writes to the module or its tensors)", NTXT)

prop("N07", "The derives and macros work in a user's crate and forward to its methods",
     "A program that depends on hodu, or on hodu_core, hodu_nn and hodu_datasets directly, can derive Module, Optimizer and Dataset for "
     "its own (also generic) types and call train!() and eval!(). Every generated method calls the user's method of that name on the "
     "same object, with the same arguments, and returns its answer.",
     ["inputs"],
     "user programs over the public prelude: module, loss, optimizer and dataset types, with and without type parameters",
     "macros are only expanded inside the workspace by the tests, where paths like crate:: resolve; whether they compile elsewhere is "
     "a property of every user's program.",
     ["crates/hodu_nn/macros/src", "crates/hodu_datasets/macros/src", "crates/hodu_macro_utils/src", "crates/hodu_nn/src/state.rs", "src/lib.rs"],
     [("derives", "crates/hodu_nn/macros/src, crates/hodu_datasets/macros/src"), ("crate path resolution", "crates/hodu_macro_utils/src/lib.rs")],
     "must-compile witness programs typed by the compiler; dataflow over the MIR of the generated methods",
     "Two witness programs (the umbrella crate; its parts); nothing of them is run.")

prop("T04", "Recording of operations resumes after every suspension, also on errors",
     "Whatever suspends the recording of operations on the gradient tape (the backward pass, an optimizer step, a context guard) "
     "resumes it on every way out of the function that suspended it, error returns included, in the library and in the code the "
     "derives generate. Derivative rules and optimizer updates run only while recording is suspended.",
     ["inputs", "fault_sequences", "histories"],
     "every function that raises one of the flags that suspend recording, on all of its control-flow paths",
     "after one failed step or backward call nothing is recorded any more and every later gradient is silently missing; no test "
     "lets such a call fail.",
     ["crates/hodu_core/src/tensor/gradient", "crates/hodu_nn/macros/src", "crates/hodu_nn/src/optimizer.rs"],
     [("suspension flags", "crates/hodu_core/src/tensor/gradient"), ("derived step", "crates/hodu_nn/macros/src")],
     "typestate of the suspension flags over every control-flow path of the MIR (guard drops included), derived user code included",
     "Unwinding from a panic is not followed.")

prop("T06", "A tensor is freed only when nothing refers to it any more",
     "The reference count of every registered tensor equals the number of handles that name it plus the gradient links that "
     "name it: every function that makes, copies, gives up or leaks handles, or that sets, replaces or removes gradient links, "
     "changes the count by the same amount on every path, by single atomic steps. An entry is removed from the registry only on a "
     "path that knows its count has reached zero; removing it gives up its gradient's reference exactly once; dropping a handle "
     "removes nothing while gradients are being computed. Recorded operations own handles of their operands, so an operand "
     "the user dropped is still there when gradients are computed.",
     ["schedules", "histories"],
     "every function that touches handles, counts, gradient links or the registry, on all of its paths; counts are changed atomically, so the "
     "balance holds for every interleaving of such functions",
     "one unmatched step frees a tensor that is still in use only after a particular history of clones, drops and backward passes.",
     ["crates/hodu_core/src/tensor/core.rs", "crates/hodu_core/src/tensor/internal.rs", "crates/hodu_core/src/tensor/registry.rs",
      "crates/hodu_core/src/tensor/gradient"],
     [("handles and their count", "crates/hodu_core/src/tensor/core.rs: Clone and Drop of Tensor"),
      ("gradient links", "crates/hodu_core/src/tensor/internal.rs: set_grad_tensor_id"),
      ("tape entries own operands", "crates/hodu_core/src/tensor/gradient/tape.rs")],
     "ownership analysis: balance of handles, links and counts over every path of the MIR, callers included",
     "Leaks (a count that stays above the number of references) are reported only where a function's own paths are unbalanced; "
     "unwinding is not followed.")

prop("T01", "Differentiable results of grad-requiring operands, and only they, are recorded",
     "A tensor produced by a public tensor operation requires grad if and only if one of its (non-index) operands requires "
     "grad and the operation is differentiable. Outside backward each such tensor is the output of exactly one tape entry, "
     "which names the operation that was performed and the operands it was performed on, in order; tensors that do not "
     "require grad have no tape entry. No way through an operation (for instance because the operand is not contiguous) "
     "loses the gradient.",
     ["inputs", "configurations"],
     "every public tensor operation, every choice of which operands require grad, eager and captured, inside and outside backward",
     TWHY, TOPS + ["crates/hodu_core/src/tensor/gradient"],
     [("recording of operations on the gradient tape", "crates/hodu_core/src/tensor/gradient/compute.rs: record_operation"),
      ("table of differentiable operations", "crates/hodu_core/src/utils/valid.rs: validate_requires_grad_for_op"),
      ("per-operation recording", "crates/hodu_core/src/tensor/ops/*.rs")],
     "path-sensitive abstract interpretation of every tensor operation's MIR; typestate of created tensors against tape entries",
     TNOTE)

prop("T02", "A captured operation describes what eager execution does",
     "While a snapshot is being captured a tensor operation executes nothing and adds exactly one node per result: under the "
     "placeholder's own id and layout, with one layout per operand and each the operand's own. The captured operation, "
     "parameters, operands and result layout are those the same call uses when it executes eagerly.",
     ["inputs", "configurations"],
     "every public tensor operation on every operand shape, layout and argument", TWHY,
     TOPS + ["crates/hodu_core/src/snapshot/capture"],
     [("capture of operations", "crates/hodu_core/src/snapshot/capture/storage.rs: capture_operation"),
      ("twin branches of each operation", "crates/hodu_core/src/tensor/ops/*.rs")],
     "path-sensitive abstract interpretation; term equality between the capturing and the executing branch", TNOTE)

prop("T07", "Nothing reaches the back end or a captured graph unvalidated",
     "Before a tensor operation calls the back end or captures itself, the element types that remain possible are all "
     "admitted for the operation that runs; operands of one call are on one device and, apart from index and condition "
     "operands, of one element type; index operands are integers. Otherwise the operation returns an error.",
     ["inputs", "configurations"],
     "every public tensor operation and every combination of operand element types and devices", TWHY, TOPS,
     [("validation helpers", "crates/hodu_core/src/utils/valid.rs"), ("operations", "crates/hodu_core/src/tensor/ops/*.rs")],
     "path-sensitive abstract interpretation; must-precede analysis of validations with interpreted admission table", TNOTE)

prop("T08", "Buffers and layouts are always paired correctly",
     "A tensor built around a buffer the back end has just filled has the contiguous, offset-free layout of its shape, "
     "whatever the strides and offsets of the operands; a tensor that shares an operand's buffer has a layout derived from "
     "that operand's layout; and every back-end call is given, for each operand buffer, the layout of the tensor the buffer "
     "belongs to.",
     ["inputs", "configurations"],
     "every public tensor operation on views of every shape, stride and offset", TWHY, TOPS,
     [("result construction", "crates/hodu_core/src/tensor/internal.rs"), ("operations", "crates/hodu_core/src/tensor/ops/*.rs")],
     "path-sensitive abstract interpretation; provenance of layouts and buffers", TNOTE)

KERN = ["crates/hodu_core/src/be_cpu/storage", "crates/hodu_core/src/op_metadatas.rs", "crates/hodu_cpu_kernels/kernels"]

prop("K03", "CPU kernels read every operand through its own layout",
     "Whatever view an operand is (transposed, sliced, broadcast, offset, of any rank), each CPU operation reads exactly its "
     "elements: the address of every read of an operand is computed from that operand's own offset and strides, each index "
     "paired with the stride of its own dimension; a path that ignores the strides is taken only after they have been "
     "tested, or after the operand was copied contiguous under its own layout. Kernels read metadata only where the caller "
     "wrote it, each word with the meaning it was written with. Results are written densely, independent of operand strides.",
     ["inputs", "configurations"],
     "every CPU operation and element type on operands with any shape, strides and offset", 
     "Metadata vectors are built in Rust and taken apart in C by position; there is one layout per operation and the tests "
     "call the C kernels with hand-made contiguous metadata, or use contiguous tensors.",
     KERN,
     [("metadata builders", "crates/hodu_core/src/op_metadatas.rs"), ("storage operations", "crates/hodu_core/src/be_cpu/storage/*.rs"),
      ("kernels", "crates/hodu_cpu_kernels/kernels/*.c")],
     "abstract interpretation of MIR for metadata words; conditional constant propagation and dependence analysis of kernel LLVM IR",
     "All cells of (operation, element type) that reach a kernel except einsum, at two ranks each; addresses are decided by "
     "which metadata words they depend on and how indices and strides are paired, not by their full arithmetic.")

prop("F01", "An element type means the same in every table",
     "The enums of element types (the core's and the plugins' DType, Scalar, the CPU storage) have the same variants and every "
     "function between them maps a type to itself; its printed name is its own and reads back as it; its width in bytes and its "
     "class (float, integer, signed, bool) are right; storage turned into bytes and back is the same elements in order; a "
     "tensor's elements are read out in the tensor's own type; serialized tags read back as the type they were written for.",
     ["inputs", "configurations"],
     "every element type, through every table of the core, the plugin crates and the command line tool",
     "Some forty hand-written tables repeat the fifteen element types, five of them in private copies of the same function in "
     "different crates; the tests go through f32 and a few others, and a slip in a rare type shows only when a tensor of that "
     "type crosses that particular boundary.",
     ["crates/hodu_core/src/types/dtype.rs", "crates/hodu_core/src/scalar.rs", "crates/hodu_core/src/be_cpu/storage.rs",
      "crates/hodu_core/src/tensor/bytes.rs", "crates/hodu_core/src/format/json.rs", "crates/hodu_plugin/src/tensor.rs",
      "crates/hodu_plugin_runtime/src/runtime.rs", "hodu-cli/src", "hodu-plugin-sdk/src/tensor.rs"],
     [("byte encoding", "crates/hodu_core/src/tensor/bytes.rs: storage_to_bytes, bytes_to_storage"),
      ("plugin types", "crates/hodu_plugin/src/tensor.rs: PluginDType"),
      ("captured constants", "crates/hodu_core/src/snapshot/capture/board.rs: extract_constants")],
     "abstract interpretation of MIR: every table evaluated on every variant, encoders and decoders composed on symbolic elements",
     "Byte order is decided for two elements of each type; wider vectors go through the same loops.")

prop("P01", "A plugin call gets the reply to its own request, whatever came before",
     "A plugin call succeeds only with a reply whose id equals the id of the request it wrote and flushed and that carries no "
     "error; a null result is a result, and a late reply to an earlier request or to a cancel does not end the call. Every request "
     "(calls, cancel, shutdown) goes out under an id drawn for it alone, and the id cancellation names is set before the request is "
     "written and cleared however the call ends. The server answers each request once, under its id, with its result or error, and flushes.",
     ["histories", "schedules", "fault_sequences"],
     "every sequence of replies, notifications, timeouts, broken pipes and cancellations",
     "No test talks to a plugin process; a reply is late, a pipe closes, or a cancel crosses a reply only in histories of "
     "several calls with a fault between them.",
     ["crates/hodu_plugin_runtime/src/client.rs", "hodu-plugin-sdk/src/server.rs", "crates/hodu_plugin/src/rpc.rs"],
     [("client", "crates/hodu_plugin_runtime/src/client.rs: PluginClient::call, CancellationHandle::cancel"),
      ("server", "hodu-plugin-sdk/src/server.rs: handle_message, run")],
     "path-sensitive abstract interpretation of the client's and server's message loops; typestate of request ids",
     "Up to three received lines a call (the loop carries no other state); scheduling between the calling thread and a "
     "cancelling one is limited to what the order of stores and writes in each decides.")

prop("P02", "The plugin registry is whole at every moment and names only plugins with files",
     "Saving the registry never changes its file in place: a file of the saving process's own, beside it, is written completely and "
     "renamed over it, only if every write succeeded, and saving reports success only then. So a reader or a crash at any point sees "
     "the old registry or the new one. Installing puts a plugin's files in place before the registry that names it is saved; removing "
     "saves the registry before it deletes the files, and does delete them.",
     ["crash_points", "schedules", "fault_sequences"],
     "every point at which a save can be interrupted, fail or be overtaken by another process",
     "Tests save and load in one process that does not crash; a torn or empty registry needs a kill, a full disk or a second "
     "process between two system calls.",
     ["crates/hodu_plugin_runtime/src/registry.rs", "hodu-cli/src/commands/plugin.rs", "hodu-cli/src/commands/plugin/install.rs"],
     [("save", "crates/hodu_plugin_runtime/src/registry.rs: PluginRegistry::save"),
      ("install and remove", "hodu-cli/src/commands/plugin/install.rs: install_from_path; hodu-cli/src/commands/plugin.rs: remove_plugin")],
     "path-sensitive effect analysis of file operations on MIR; ordering by control-flow and call-graph reachability",
     "Two commands that load, change and save at once can still lose one change: the registry offers no transaction, and none is "
     "claimed here.")

prop("P03", "No plugin process is left behind or waited for in vain",
     "A process that was started is, on every path, handed on in the result, kept in the map of running plugins, or ended and "
     "reaped; in particular when its pipes or its initialization fail. A process is waited for only after it was killed or the "
     "request to stop was written to it. A running process is never replaced in the map, and dropping a manager ends all it keeps.",
     ["fault_sequences", "histories"],
     "every failure of spawning, connecting, initializing, stopping and waiting, in every copy of the process manager",
     "Tests never start a plugin; the failing paths need a process that starts and then misbehaves.",
     ["hodu-cli/src/plugins/process.rs", "crates/hodu_plugin_runtime/src/backend.rs", "crates/hodu_plugin_runtime/src/format.rs"],
     [("three process managers", "process.rs, backend.rs, format.rs: spawn_plugin, get_plugin, shutdown_plugin, Drop")],
     "path-sensitive abstract interpretation; typestate of child processes",
     "A plugin that was told to stop and does not is outside: the wait for it is not bounded by the code.")

prop("T05", "Nobody waits for a lock it holds, and locks are taken in one order",
     "While a lock of the library's shared state (the tensor registry, the gradient tapes, the capture boards, the kernel names, the "
     "training mode, a plugin's pipe) or a borrow of a per-thread cell is held, nothing runs that may take the same one again in a "
     "conflicting way: no call, no callback handed on, no drop or clone of a value. Two locks are never taken in opposite orders, so "
     "threads cannot wait for each other in a circle.",
     ["schedules", "histories", "inputs"],
     "every interleaving of threads, and every call, callback and drop under a lock",
     "A deadlock needs two threads between two particular acquisitions, or an operation on a tensor that lies in the same shard; the "
     "tests of the library share no tensors between threads.",
     ["crates/hodu_core/src/tensor/registry.rs", "crates/hodu_core/src/tensor/gradient/tape.rs", "crates/hodu_core/src/tensor/gradient/core.rs",
      "crates/hodu_core/src/snapshot/capture/storage.rs", "crates/hodu_core/src/cache/kernel.rs", "crates/hodu_nn/src/lib.rs"],
     [("registry", "crates/hodu_core/src/tensor/registry.rs: with_tensor, with_tensor_mut"),
      ("tapes", "crates/hodu_core/src/tensor/gradient/tape.rs"), ("boards", "crates/hodu_core/src/snapshot/capture/storage.rs")],
     "lock-order analysis: flow-sensitive guard liveness on MIR, transitive acquisition summaries over the call graph",
     "Locks are named by the type they protect; nested shared access to the registry's map is admitted because the version of the map "
     "in Cargo.lock lets readers in while writers wait. Waiting for processes and channels is not covered.")


def na(id, title, statement, over, text, why, files, reason):
    prop(id, title, statement, over, text, why, files, [("see files", files[0])], None, None)
    NA.append((id, reason))


na("T03", "Backward computes the derivatives of the forward computation",
   "For every differentiable operation the gradient computed for each operand equals the derivative of the operation at the operand's "
   "value, has the operand's shape and type, and is summed over all uses.",
   ["inputs"], "every operation, shape, view and value", "Tests compare a few gradients with finite differences.",
   ["crates/hodu_core/src/tensor/gradient"],
   "numeric identity between two programs over run-time shapes and real values; a static rule would need the calculus of every "
   "operation as an oracle and an evaluator for it, which is execution (symbolic) of the rules rather than analysis. Which operations "
   "are recorded, with which operands, is decided by T01.")
na("K07", "Kernels compute the values their operation defines",
   "Every kernel's result equals, up to the rounding of its element type, the mathematical definition of its operation for every "
   "operand, including infinities, NaN, empty operands and integer overflow.",
   ["inputs"], "every operand of every kernel", "Tests compare small f32 examples.",
   ["crates/hodu_cpu_kernels/kernels"],
   "values of loops over run-time data; no sound static bound in reach decides them. What is decided: dispatch (K01), types (K02), "
   "addresses (K03), bounds (K05), precision (K06) and small floats (K09).")
na("N08", "Optimizers follow the formulas of their algorithms",
   "Each optimizer's step computes the update its algorithm defines, with its bias corrections and weight decay, for every option.",
   ["inputs", "histories"], "every history of gradients", "Tests check that a loss decreases.",
   ["crates/hodu_nn/src/optimizers"],
   "equality of arithmetic with a formula that is written nowhere in the code: the oracle would be a second implementation. N02 decides "
   "which quantities each update is computed from and that state and options are used.")
na("T10", "Threads that compute gradients at once do not disturb each other",
   "Gradients computed by one thread are the same whatever other threads record or compute meanwhile.",
   ["schedules"], "every interleaving of two training threads", "No test trains in two threads.",
   ["crates/hodu_core/src/tensor/gradient/core.rs"],
   "known not to be offered: the flags that suspend recording and the default tape are shared by the whole process by design, so the "
   "property does not hold and no small repair makes it hold; T05 and T06 decide the deadlock and ownership parts.")
na("T11", "Memory of tensors nobody can reach is given back",
   "A tensor is removed from the registry as soon as no handle, gradient link or recorded operation refers to it.",
   ["histories"], "every sequence of operations", "Tests do not look at the registry's size.",
   ["crates/hodu_core/src/tensor/registry.rs", "crates/hodu_core/src/tensor/gradient/tape.rs"],
   "a liveness property of run-time histories: when the last reference goes is a run-time quantity, and results of recorded operations "
   "are kept until backward by design. T06 decides the safety half (nothing is removed too early, counts are exact).")
na("F02", "A saved tensor or model is loaded back unchanged",
   "Loading what was saved in any of the formats gives a tensor or graph equal to the one saved, whatever its values.",
   ["inputs"], "every element value and graph", "Tests save and load small finite examples.",
   ["hodu-cli/src/tensor", "crates/hodu_core/src/format"],
   "for JSON the property is about the decimal text of every float (its last digit needs a feature of serde_json that the crate does not "
   "enable; non-finite values have no JSON), a question about values. F01 decides the type tags, names, widths and byte layouts.")
na("P05", "A plugin that stops responding does not hang its user",
   "Every call, stop and wait ends within a bounded time whatever the plugin process does.",
   ["fault_sequences", "schedules"], "every behaviour of the other process", "Tests start no plugin.",
   ["crates/hodu_plugin_runtime/src/client.rs"],
   "real time and the behaviour of another process: no static argument over this code bounds how long the other side takes.")
na("P06", "Concurrent changes of the plugin registry are all kept",
   "When two processes install or remove plugins at once, the registry ends up with the effect of both.",
   ["schedules"], "every interleaving of two commands", "Tests run one process.",
   ["crates/hodu_plugin_runtime/src/registry.rs"],
   "known not to be offered: load, change and save are separate calls without a lock between processes; P02 decides what is offered (no "
   "reader ever sees a torn registry).")
na("N09", "Training converges and is reproducible within tolerance",
   "Training a model with the library's modules and optimizers reduces its loss, at a speed and memory use the user can plan with.",
   ["inputs", "histories"], "every model and data set", "A property of numeric histories.",
   ["crates/hodu_nn/src"],
   "convergence, performance and memory use are quantities of runs, not of the source.")
