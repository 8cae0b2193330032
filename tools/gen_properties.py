#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The list below is the source of truth."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe_at, state=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe_at}
    if state: a["state"] = state
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

R = "src/Runtime/"
prop("P01", "OMTensor descriptors address exactly the caller's elements",
  "A tensor created from any data, shape and element type reports back exactly that pointer, shape, rank and type, row-major strides, the element count (product of the dimensions) and the byte size (count times element size). "
  "Setting shape, strides or type changes only what was set; the typed helpers (create, offset, element access, index sets) visit exactly the elements at base + sum(index*stride), each once and in row-major order. "
  "Two dense tensors are reported 'close' exactly when their shapes agree and every element pair is within rtol*|b|+atol.",
  ["inputs", "histories"], "every rank, shape (including 0- and 1-sized dimensions and scalars), element type and stride vector, and every sequence of setters and getters",
  "OMTensorTest samples a handful of 2-D/3-D shapes of float; dimensions of size 0, scalars, non-float types, permuted strides and large element counts are never exercised",
  [R+"OMTensor.inc", R+"OMTensorHelper.cpp", R+"OMTensorHelper.hpp", R+"OnnxDataType.inc", "include/onnx-mlir/Runtime/OMTensor.h", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"],
  [("descriptor construction and stride computation", R+"OMTensor.inc: omTensorCreate*, omTensorSetShape/Strides, computeStridesFromShape"),
   ("index arithmetic", R+"OMTensor.inc: omTensorComputeElemOffset, omTensorComputeIndexSet, omTensorGetElem"),
   ("tolerance comparison", R+"OMTensor.inc: omTensorAreTwoOmtsClose")],
  "public OMTensor C API and OMTensorHelper C++ API results, against an independent model of the descriptor")

prop("P02", "Tensor and list buffers: freed exactly once, never leaked, never overrun",
  "Over any history of creating (owning, borrowing or empty), listing, re-pointing, changing ownership of, and destroying tensors and tensor lists, every owned buffer is freed exactly once, every borrowed buffer is never freed, and nothing is leaked or accessed out of bounds or after free. "
  "Destroying a list destroys its tensors, destroying it shallowly leaves them, and the caller's pointer array is never freed; a tensor list returns exactly the tensors, in order and count, it was created with.",
  ["histories", "inputs"], "every interleaving of API calls that respects the documented ownership rules, any sizes, NULL elements and lists of any length",
  "unit tests create and destroy one tensor; ownership histories and lists are not tested and leaks/over-frees are invisible to assertions",
  [R+"OMTensor.inc", R+"OMTensorList.inc", "include/onnx-mlir/Runtime/OMTensor.h", "include/onnx-mlir/Runtime/OMTensorList.h"],
  [("ownership flag and allocated/aligned pointers", R+"OMTensor.inc: omTensorDestroy, omTensorSetOwning, omTensorSetDataPtr, omTensorCreateEmpty"),
   ("list ownership", R+"OMTensorList.inc: omTensorListCreate*, omTensorListDestroy*, OM list accessors")],
  "allocator events (interposed malloc/free ledger, AddressSanitizer, LeakSanitizer) under random API histories")

prop("P03", "Sort orders an index tensor correctly for every type, axis and direction",
  "Sorting along an axis rearranges each lane of the order tensor into a permutation of its own indices such that the referenced values are non-decreasing (ascending) or non-increasing (descending), equal values ordered by their lower index first. "
  "The input values and every memory location outside the order tensor are untouched, for every supported element type and rank.",
  ["inputs"], "every shape up to rank 6 whose last axis is the sorted one and contiguous (as compiled code calls it), every supported element type, both directions, with ties, extreme values, lanes of length 0 and 1; with NaN in a lane only that the result is a permutation",
  "no unit test runs the runtime sort; model tests need the full compiler, which samples one or two shapes",
  [R+"OMSort.c", R+"OMSort.h"],
  [("comparators per type", R+"OMSort.h / OMSort.c compare functions"), ("merge/quick sort and lane traversal", R+"OMSort.c: omTensorSort and sort routines")],
  "order tensor contents against a stable reference sort; guard zones and ASan/UBSan around all buffers")

prop("P04", "TopK returns the K extreme elements with ONNX tie-breaking",
  "For every lane along the axis, TopK returns the indices of the K largest (or smallest) elements; with sorted output they are in value order, and among equal elements the lower index comes first and is the one selected. "
  "Nothing but the result tensor is written and the full result is written, for every supported type, rank and K from 0 to the length of the (last) axis.",
  ["inputs"], "every shape, K, element type, largest/smallest, sorted/unsorted, heavy ties (values without NaN)",
  "no unit test covers the runtime TopK; ties and K near the bounds are input-dependent",
  [R+"OMTopK.c", R+"OMSort.h"], [("selection", R+"OMTopK.c: omTensorTopK")],
  "index output vs. the first K of a stable reference sort; guard zones, ASan/UBSan")

prop("P05", "Unique agrees with ONNX Unique for values, indices, inverse and counts",
  "For any input tensor, Unique (flattened or along an axis, sorted or in first-occurrence order) reports the number of distinct elements or slices, and produces Y, first-occurrence indices, inverse indices and counts exactly as ONNX defines them. "
  "Only the requested outputs are written, completely and within their bounds, and the input is unchanged.",
  ["inputs"], "every shape up to rank 6, axis, sorted flag, element type, and combination of optional outputs (zero elements: not requested), values without NaN",
  "the runtime routine has no unit test; correctness depends on slice gathering and ordering over all inputs",
  [R+"OMUnique.c", R+"OMUnique.h"], [("slice traversal, insertion and output production", R+"OMUnique.c: omTensorUnique")],
  "outputs vs. numpy-style reference for ONNX Unique; guard zones, ASan/UBSan")

prop("P06", "Resize matches ONNX interpolation semantics within bounds",
  "For any input and any scales or sizes, the runtime Resize (linear and cubic with half_pixel coordinates and default attributes, on float data) writes every output element with the value the ONNX specification defines up to floating-point rounding. "
  "It never reads outside the input nor writes outside the output.",
  ["inputs", "configurations"], "every rank, input/output shape combination, scales or sizes, and mode the runtime accepts",
  "backend tests fix a few 4-D shapes and scales; edges of coordinate clamping are input-dependent",
  [R+"OMResize.c"], [("interpolation", R+"OMResize.c: Resize_Scales, Resize_Size and interpolation helpers")],
  "output values vs. an independent reference; canaries and ASan/UBSan on input and output")

prop("P07", "Category mapper lookup finds exactly the index the compiler stored",
  "For any set of distinct int64 or string keys, the perfect hash table built at compile time lets the runtime lookup return, for each key, the slot the compiler assigned to it, distinct for distinct keys. "
  "Lookup of a key that was not stored returns a value without touching memory outside the tables.",
  ["inputs"], "every key set (any int64 including extremes, any strings without NUL including empty, with high bytes, and long), any table size",
  "the hash pair lives in two files (compiler and runtime) that no unit test runs together",
  [R+"OMIndexLookup.c", "src/Conversion/ONNXToKrnl/PerfectHash.cpp", "src/Conversion/ONNXToKrnl/PerfectHash.hpp"],
  [("runtime hash", R+"OMIndexLookup.c: find_index_i64, find_index_str"), ("compile-time hash", "src/Conversion/ONNXToKrnl/PerfectHash.cpp: PerfectHash")],
  "round trip of compile-time tables through the runtime lookup")

prop("P08", "Random generators are reproducible, complete and within bounds",
  "Given the same seed, RandomNormal and RandomUniform produce the same tensor on every call and for every earlier call history; different seeds produce different streams. "
  "They write exactly the requested number of elements; uniform values lie in [low, high) and normal values are finite with the requested mean and scale.",
  ["inputs", "histories"], "every nonzero integral seed, size, mean/scale, low/high and element type, and every sequential history of calls",
  "no unit test calls these; reproducibility is a property of call histories and distribution a property of all seeds",
  [R+"OMRandomNormal.c", R+"OMRandomUniform.c"],
  [("normal generator", R+"OMRandomNormal.c: get_random_normal_value_f32/f64"), ("uniform generator", R+"OMRandomUniform.c: run_uniform_random and omGetRandomUniform*")],
  "generated streams, replay comparison, statistical bounds, canaries around buffers")

prop("P09", "External constants map exactly the compiled bytes or fail cleanly",
  "Loading a model's constant file returns exactly the file's bytes at the right offset for every constant, from the directory the caller designated; loading again yields the mapping made first. "
  "A missing, short, oversized-path or otherwise unreadable file makes the load report failure with an error code, never a crash, a leak of descriptors or a partially initialised pointer.",
  ["inputs", "fault_sequences", "histories"], "every file size and content, path, OM_CONSTANT_PATH setting, endianness flag, failing system call and repeated load",
  "external constants only appear in big-model integration runs; failures of open/mmap/fstat are never injected",
  [R+"OMExternalConstant.c"],
  [("mapping and publication", R+"OMExternalConstant.c: omMMapBinaryFile, omGetExternalConstantAddr, omLoadExternalConstants*/checkEndianness")],
  "returned pointers/contents, errno, open descriptors and mappings under system-call fault injection")

prop("P10", "float16/bfloat16 conversions are exact in one way and rounded in the other",
  "Converting any 16-bit float16 or bfloat16 pattern to float gives the exactly represented value (NaN to NaN), and converting any float to float16 or bfloat16 gives the nearest representable value with ties to even, overflow to infinity and subnormals preserved. "
  "The C runtime conversions, the C++ value types (also from doubles that are exact floats) and their comparisons agree with each other.",
  ["inputs"], "all 2^16 half/bfloat patterns and all 2^32 float patterns",
  "TestSmallFP samples a few dozen values",
  ["src/Support/SmallFPConversion.c", "src/Support/SmallFPConversion.h", "src/Support/SmallFP.hpp", "src/Support/SmallFP.cpp"],
  [("bit-level conversion", "src/Support/SmallFPConversion.c: om_f16_to_f32, om_f32_to_f16, om_bf16_to_f32, om_f32_to_bf16"), ("value classes", "src/Support/SmallFP.hpp: float_16, bfloat_16")],
  "exhaustive comparison with hardware/compiler conversions (F16C or _Float16) and llvm::APFloat")

prop("P11", "8-bit float types convert and behave exactly as their formats define",
  "For each 8-bit float format, converting every bit pattern to float gives the exactly represented value, and converting any float gives the format's nearest value with ties to even and the format's own rule for NaN, infinity, negative zero and overflow. "
  "Overflow becomes infinity where the format has one and NaN otherwise; bit-casting round-trips every pattern, and comparisons behave as those of the float values do.",
  ["inputs"], "all 2^8 patterns of each format, and all float patterns (dense samples plus all rounding boundaries)",
  "TestSmallFP checks a few constants per format",
  ["src/Support/SmallFP.hpp", "src/Support/SmallFP.cpp"], [("value classes", "src/Support/SmallFP.hpp: detail::SmallFPBase, float_8e4m3fn, float_8e4m3fnuz, float_8e5m2, float_8e5m2fnuz")],
  "comparison with an independent table-driven model of each format")

prop("P12", "Instrumentation reports record every operation event faithfully",
  "With instrumentation on, the log contains every before/after operation event exactly once, in execution order, with its operation and node name, non-negative elapsed time since the previous event and non-decreasing total time, memory fields only when asked, and in the format the tools parse. "
  "Log file, flush frequency and the disabling variables are obeyed in every combination; reports may be started and printed repeatedly without loss, corruption, truncation or leak.",
  ["histories", "inputs", "configurations"], "every sequence of instrument init/point/print calls, op and node names of any length, and any setting of the environment variables, on one thread, each inference starting with an init point and the last inference before a print reported in full",
  "TestInstrumentation calls a short fixed sequence and does not read the log back",
  [R+"OMInstrument.c", R+"OMInstrumentHelper.h", "include/onnx-mlir/Runtime/OMInstrument.h"],
  [("record buffer and flush", R+"OMInstrument.c: OMInstrumentPointInit, OMInstrumentPoint, omInstrumentPrint"), ("tag encoding", R+"OMInstrumentHelper.h")],
  "offline checker over the emitted log against the issued call sequence; ASan/LSan")

prop("P13", "ExecutionSession runs exactly the model it loaded and reports every failure",
  "A session loads the given library and entry point, exposes the model's entry points and signatures verbatim, passes inputs to and returns outputs from the model unchanged and in order, and leaves ownership as documented; a successful run prints a pending instrumentation report once. "
  "Every failure (missing file, missing symbol, wrong tag, model returning NULL, use before initialisation) is reported by an exception with a message and errno, and leaves the session, the process environment and loaded libraries as they were.",
  ["inputs", "histories", "fault_sequences"], "every library (well- or malformed), tag and entry point choice, input list, sequence of load/query/run/destroy calls and model-reported errors",
  "only usable with compiled models, which the unit tests do not have; error paths and repeated histories are not exercised",
  [R+"ExecutionSession.cpp", R+"ExecutionSession.hpp", "include/onnx-mlir/Runtime/OMEntryPoint.h", "include/onnx-mlir/Runtime/OMSignature.h"],
  [("loading and symbol resolution", R+"ExecutionSession.cpp: loadModel/constructors, setEntryPoint"), ("run and error reporting", R+"ExecutionSession.cpp: run, report*Error")],
  "mock model libraries that log calls; exceptions, errno, environment, dlopen handles and allocation ledger")

prop("P14", "A crashing model is contained and the process is left as it was",
  "When the model raises a fatal signal during a signal-protected run, the session throws a describing exception instead of killing the process, every time it happens. "
  "After any run, successful or not, the signal dispositions and the signal mask of the process are exactly what they were before.",
  ["fault_sequences", "histories"], "every handled signal, any sequence of crashing and normal runs, any previously installed handlers and masks, crashes at any point of the model (one protected run at a time; not stack overflow)",
  "unit tests never crash a model; repeated crashes depend on history",
  [R+"ExecutionSession.cpp"], [("signal interception", R+"ExecutionSession.cpp: runWithSignalHandler / runDebug paths")],
  "sigaction/sigprocmask snapshots and exceptions across injected crashes in mock models")

prop("P15", "The runtime library is free of data races and safe for concurrent use",
  "Independent threads using the runtime (tensor and list operations, sort, top-k, unique, resize, lookup, conversions, external constants, sessions on the same or different models) see no data race, and each obtains the result it would obtain running alone. Instrumentation, debugging helpers and signal-protected runs are outside this promise.",
  ["schedules"], "every interleaving of any number of threads calling documented entry points on distinct objects, and on one shared session or constant file",
  "all tests are single threaded",
  [R+"OMTensor.inc", R+"OMSort.c", R+"OMUnique.c", R+"OMTopK.c", R+"OMExternalConstant.c", R+"ExecutionSession.cpp"],
  [("static/global state in the runtime", R+"*.c file-scope variables; compare-and-swap publication in OMExternalConstant.c")],
  "ThreadSanitizer reports plus per-thread result comparison with sequential runs")

prop("P16", "Generated inputs match the signature they were generated from",
  "For any input signature, the generated tensor list has one tensor per signature entry with its element type, and shape equal to the signature's with dynamic dimensions replaced as requested, filled with values inside the requested bounds for its type (integers: bounds truncated toward zero and clamped to the type), identical for the same seed. "
  "A malformed signature or unsupported request is reported as an error, never a crash or an inconsistent list.",
  ["inputs"], "every signature JSON, dtype, shape information string, bounds map and seed",
  "no unit test covers signature parsing; types and bounds combinations are many",
  [R+"OMTensorListHelper.cpp", R+"OMTensorListHelper.hpp", R+"OMTensorHelper.cpp"],
  [("signature parsing and shape override", R+"OMTensorListHelper.cpp: omTensorListCreateFromInputSignature"), ("random fill", R+"OMTensorHelper.cpp: omTensorCreateWithRandomData, omTensorCreateSozData")],
  "created lists against an independent signature model; ASan/UBSan")

prop("P17", "The Python session moves numpy data in and out unchanged",
  "Running a model from Python hands it exactly the given arrays (values, shape, element type, whatever their memory layout) and returns arrays equal to what the model produced (strings as arrays of str objects), valid after the session and other outputs are gone, without leak or double free. "
  "Wrong usage (bad type, missing library or entry point, failing model) raises a Python exception and leaves the interpreter usable.",
  ["inputs", "histories"], "every supported dtype, rank, memory layout (C, Fortran, transposed, sliced, negative step, broadcast, empty), dense output, output sharing pattern and sequence of calls",
  "Python runtime tests need compiled models; numpy layouts are an open input space",
  [R+"python/PyExecutionSession.cpp", R+"python/PyExecutionSession.hpp", R+"python/PyRuntime.py"],
  [("numpy to OMTensor", R+"python/PyExecutionSession.cpp: pyRunImplementation"), ("OMTensor to numpy", R+"python/PyExecutionSession.cpp: copyTensorToPyArray and capsules of pyRunImplementation"), ("front end", R+"python/PyRuntime.py: OMExecutionSession.run")],
  "values recorded by a mock model vs. numpy arrays passed/returned; allocation ledger in the mock model; ASan build of the extension")

prop("P18", "Compiler driver passes arguments, logs and status through faithfully",
  "Invoking the compiler through the library runs the chosen compiler with exactly the given flags in order (shell-style quoting honoured), the given model and the output option; its standard output and error go to the requested log. "
  "The call succeeds exactly when the compiler exits with 0 and otherwise throws with a message, leaving the caller's working directory, environment, descriptors, children, exit handlers and buffered output unchanged; a failed compile leaves the session without output names, whatever happened before. Sessions on different threads do not affect each other.",
  ["inputs", "fault_sequences", "histories"], "every flag string, path, log setting, compiler exit status or death by signal, missing compiler, and sequence of compiles",
  "unit tests compile nothing; quoting and exit-status behaviour are an open input space",
  ["src/Compiler/Command.cpp", "src/Compiler/Command.hpp", "src/Compiler/CommandUtils.cpp", "src/Compiler/OMCompile.cpp", "include/OMCompile.h"],
  [("process execution", "src/Compiler/Command.cpp: Command::exec"), ("flag parsing", "src/Compiler/CommandUtils.cpp: parseFlags"), ("driver", "src/Compiler/OMCompile.cpp: OMCompile::compile")],
  "argv/cwd/env recorded by a fake compiler; log file contents; caller process state before/after")

prop("P19", "The announced output file is the one the compiler writes",
  "The output file name and constants file name reported for a compile are those the compiler derives from the same flags and model: the -o option in any of its spellings, or the model name, with the extension of the selected emission target; an output directory chosen by the caller applies when the flags name none. "
  "The model path and tag are read from the flags as the compiler's own option parser reads them, for every flag text that parser accepts.",
  ["inputs", "configurations"], "every model path (with and without directories, dots and extensions), -o form, emission flag and flag order",
  "no unit test; combinations of flags, dots and directories are open-ended",
  ["src/Compiler/CommandUtils.cpp", "src/Compiler/CommandUtils.hpp", "src/Compiler/OMCompile.cpp"],
  [("flag scanning", "src/Compiler/CommandUtils.cpp: getOutputFilename, getModelTag, applyOutputPath"), ("session output", "src/Compiler/OMCompile.cpp: getOutputFilename, getOutputConstantFilename, getModelTag")],
  "reported names vs. files a fake compiler writes by the driver's documented rule")

prop("P20", "Container compiles mount what is needed and run the same compile inside",
  "When a container image is selected, the driver runs the chosen engine with that image, mounts the directories of the model and output so that the paths given inside name the same files, and passes the same compile flags. "
  "The result and errors are reported as for a local compile, and no command text in a path or flag is interpreted differently from a local compile.",
  ["inputs", "configurations", "fault_sequences"], "every model/output path, flags, engine and image name, and engine failure",
  "needs docker/podman; no test",
  ["src/Compiler/OMCompile.cpp", "src/Compiler/CommandUtils.cpp"],
  [("container command construction", "src/Compiler/OMCompile.cpp: container mode of compile")],
  "argv recorded by a fake docker/podman that maps mounts to a scratch root and runs a fake compiler")

prop("P21", "Operation selection by regex enables exactly the listed operations",
  "An op-selection option enables an operation exactly when its whole name matches one of the comma-separated items, each read by itself: as a plain name with '*' wildcards and literal '.', or as a regular expression when it is written as one. The items ALL and NONE enable everything and nothing. "
  "The answer for a name does not depend on which names were asked before.",
  ["inputs", "histories"], "every option string, operation name and sequence of queries",
  "no unit test; caching makes it history dependent",
  ["src/Compiler/OptionUtils.cpp", "src/Compiler/OptionUtils.hpp"], [("pattern matching with cache", "src/Compiler/OptionUtils.cpp: EnableByRegexOption::isEnabled")],
  "query answers vs. an independent glob matcher over random query histories")

prop("P22", "Strided-view algebra preserves the viewed elements",
  "Row-major strides, reshaping, transposing and expanding of strided views either describe exactly the elements of the mathematical view or report that it is impossible; they never describe wrong elements. "
  "Traversals over strided views visit each index once in row-major order with the right element offset for each operand, and linearisation and its inverse agree.",
  ["inputs"], "every shape, stride vector (including 0 and permuted), reshape target, permutation and expansion",
  "TestStrides samples small fixed shapes",
  ["src/Dialect/ONNX/ElementsAttr/Strides.hpp", "src/Dialect/ONNX/ElementsAttr/Strides.cpp", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp", "src/Dialect/ONNX/ElementsAttr/Arrays.hpp"],
  [("stride algebra", "src/Dialect/ONNX/ElementsAttr/Strides.cpp"), ("traversal", "src/Dialect/ONNX/ElementsAttr/StridesRange.hpp"), ("buffer movement", "Strides.hpp: restrideArray / widen helpers")],
  "results vs. brute-force index arithmetic")

prop("P23", "Constant-tensor operations compute what the ONNX operators compute",
  "Every operation on constant tensors used for constant propagation (reshape, transpose, expand, split, concat, slice, gather, scatter, pad, reduce, matmul, range, where, cast, element-wise transforms, equality tests) yields the elements the corresponding ONNX operator defines, whatever chain of views produced the operands. "
  "Reading an element, iterating, raw bytes and conversion to a dense attribute of the same constant all agree. Intermediate results keep 64-bit precision and are narrowed to the element type when read.",
  ["inputs", "programs"], "every composition of operations on constants of every element type, shape and layout (splat, dense, transposed, expanded, transformed)",
  "lit tests with the full compiler cover single operations on fixed values; compositions of lazy views are unbounded",
  ["src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "src/Dialect/ONNX/ElementsAttr/BType.cpp", "src/Dialect/ONNX/ElementsAttr/ElementsAttrHelper.cpp"],
  [("builder operations", "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.cpp"), ("lazy attribute", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"), ("element widening", "src/Dialect/ONNX/ElementsAttr/WideNum.cpp, BType.cpp")],
  "element values through each access path vs. an independent dense tensor model")

prop("P24", "Disposable constants stay valid while used and are freed when not",
  "Garbage collecting or scrubbing the constant pool frees the buffer of every constant no longer reachable from the module and replaces reachable ones by equal dense constants, and never touches a constant that is reachable. "
  "The pool stays consistent when constants are created and collected concurrently, and after scrubbing nothing is leaked and no element value has changed.",
  ["histories", "schedules"], "every history of create/attach/detach/collect/scrub/close and concurrent creation",
  "compiler-internal lifetime; lit tests cannot observe frees or races",
  ["src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp", "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp", "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.cpp"],
  [("pool bookkeeping", "src/Dialect/ONNX/ElementsAttr/DisposablePool.cpp"), ("disposal", "DisposableElementsAttr.cpp: dispose")],
  "buffer deleters, attribute validity and values vs. model reachability; ASan/LSan/TSan")

prop("P25", "Element type mapping and numeric casts are consistent everywhere",
  "The mapping between ONNX/MLIR element types, C++ types, widths and the wide 8-byte number form is one-to-one and self-consistent; widening and narrowing a value of any element type is the identity on representable values. "
  "The runtime's type numbers are those of the ONNX standard and its sizes, MLIR and NumPy names are those of the types. "
  "Casting between element types keeps every representable value, reduces integers modulo the target's range, rounds (ties to even) or truncates floats as requested and clips them to the range of an integer target with NaN becoming 0, gives a float target the nearest value, clipped to the largest finite one when saturation is asked for, and makes bool of everything but zero true. "
  "Shape information strings and the sizes of types are read as documented.",
  ["inputs"], "every element type, pair of types and value (all patterns for 8/16-bit types)",
  "TestStrides/TestSmallFP touch a few types and values",
  ["src/Dialect/ONNX/ElementsAttr/BType.hpp", "src/Dialect/ONNX/ElementsAttr/BType.cpp", "src/Dialect/ONNX/ElementsAttr/WideNum.hpp", "src/Dialect/ONNX/ElementsAttr/WideNum.cpp", "src/Support/TypeUtilities.cpp", R+"OnnxDataType.inc", "include/onnx-mlir/Runtime/OnnxDataTypeMetaData.inc"],
  [("type tables", "BType.hpp/BType.cpp, OnnxDataTypeMetaData.inc"), ("casts", "WideNum.hpp/WideNum.cpp")],
  "round trips and cross-table comparison over all types and values")

prop("P26", "Compile options survive the JSON config, environment and command line",
  "Options given in the environment variable (ONNX_MLIR_FLAGS or the one --customEnvFlags names), in a JSON configuration file (omconfig.json beside the model, or the one --config-file names) and on the command line take effect in that order, later ones winning and lists accumulating; every other option keeps its documented default, and the options recorded in the model are those of the file and command line without directories. "
  "What a configuration object stores is read back identical. Setting an option through the API is observable through the matching getter and clears back to the default; malformed input is reported, not ignored or crashed on.",
  ["inputs", "histories", "configurations"], "every JSON document, option set and sequence of set/get/clear calls",
  "no unit test reads configuration files",
  ["src/Compiler/CompilerOptions.cpp", "src/Compiler/CompilerOptions.hpp", "src/Compiler/JsonConfigObject.cpp", "src/Compiler/JsonConfigObject.hpp", "src/onnx-mlir.cpp"],
  [("sources of options", "src/onnx-mlir.cpp: main, src/Compiler/CompilerOptions.cpp: loadCompileOptionsFromConfig, parseCustomEnvFlagsCommandLineOption, initCompilerConfig"), ("JSON config", "src/Compiler/JsonConfigObject.cpp"), ("option access", "src/Compiler/CompilerOptions.cpp setters/getters/parse helpers")],
  "values read back vs. model of the options store")

prop("P27", "The Java binding passes tensors through unchanged and reports failures",
  "Calling a model from Java hands it exactly the data, shape and type of every input tensor, and returns output tensors with exactly the model's data, shape and type; entry point and signature queries return the model's text. "
  "Any failure (model error, JVM exception or allocation failure at any call) surfaces as a Java exception with all native memory released, and never as a crash or a wrong result.",
  ["inputs", "fault_sequences"], "every element type, rank, empty tensor, number of tensors, log level, and a failure injected at each JNI call",
  "JNI is not built by the tests at all",
  [R+"jni/jniwrapper.c", R+"jni/jnilog.c", R+"jni/jnilog.h", R+"jni/src/com/ibm/onnxmlir/OMTensor.java", R+"jni/src/com/ibm/onnxmlir/OMModel.java", R+"jni/src/com/ibm/onnxmlir/OMTensorList.java"],
  [("native bridge", R+"jni/jniwrapper.c"), ("Java tensor", R+"jni/src/com/ibm/onnxmlir/OMTensor.java")],
  "mock JNIEnv event log (references, exceptions) with fault injection under ASan/LSan, and a real JVM with -Xcheck:jni")

prop("P28", "Printing a tensor shows its real contents",
  "Printing a tensor (of a type and rank the runtime supports printing) shows its name, rank, shape and type where the format asks for them and exactly its elements, in row-major order of the logical index, rendered by element type and nested brackets by rank. "
  "Printing never alters the tensor, loses elements or reads outside it, and text printed from several calls stays in call order.",
  ["inputs", "histories"], "every format string, rank up to 6, shape, stride vector, type and value",
  "the tests never look at printed text",
  [R+"OMTensor.inc", "include/onnx-mlir/Runtime/OMTensor.h"], [("printing", R+"OMTensor.inc: omTensorPrint and printData/printElement helpers")],
  "captured stdout parsed and compared with an independent rendering")

prop("P29", "binary-decoder prints exactly the bytes asked for",
  "The binary decoder prints, for the given start, size and element type, exactly the elements stored in that range of the file, and rejects impossible ranges, types or files with a message and a nonzero status. "
  "Removing the file happens only when asked and only after decoding.",
  ["inputs", "fault_sequences"], "every file content, range, element type and flag combination",
  "used by a few lit tests with one type each",
  ["src/Tools/binary-decoder/BinaryDecoder.cpp"], [("decode and print", "src/Tools/binary-decoder/BinaryDecoder.cpp: main and decode")],
  "program output vs. reference decoding; ASan/UBSan")
prop("P30", "Every CPU operator compiles to code computing its ONNX semantics",
  "A model made of one supported operator, with any attributes, opset, operand shapes (static or dynamic, broadcast), element types and constant or runtime operands the CPU target accepts, compiles, and its results have "
  "the number, types, shapes and values the ONNX specification gives (floats within a tolerance), at every optimisation level.",
  ["programs", "inputs", "configurations"], "every operator, attribute setting, opset, shape, element type and value, at -O0 to -O3",
  "backend and lit tests sample a few attribute settings and static shapes per operator; most lit tests look at text, not at results",
  ["src/Conversion/ONNXToKrnl", "src/Dialect/ONNX/ONNXOps", "src/Builder/FrontendDialectTransformer.cpp", "src/Conversion/KrnlToAffine", "src/Conversion/KrnlToLLVM", "src/Dialect/Mlir"],
  [("import and opset conversion", "src/Builder/FrontendDialectTransformer.cpp, ImportONNXUtils.cpp"), ("shape inference", "src/Dialect/ONNX/ONNXOps/*: shape helpers"), ("lowering", "src/Conversion/ONNXToKrnl/*: ConversionPattern::matchAndRewrite")],
  "outputs of the compiled library vs. ONNX reference evaluator and oracles of our own")
prop("P31", "Graph rewriting keeps what a model computes",
  "A model of several operators, whatever pattern it forms or nearly forms, keeps its meaning through import, shape inference, simplification, decomposition, recomposition, fusion and lowering: the compiled model gives every output "
  "(including intermediate values made outputs) with the number, types, shapes and values of the operators computed one by one (floats within a tolerance), at every optimisation level, for static and dynamic dimensions.",
  ["programs", "inputs", "configurations"], "every graph of supported operators, with any shapes, attributes, sharing of values, opset and optimisation level",
  "lit tests compare printed IR of one graph per pattern and never run it; backend tests have mostly single operators",
  ["src/Dialect/ONNX/Transforms", "src/Dialect/ONNX/DialectBuilder.cpp", "src/Transform", "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp", "src/Conversion/ONNXToKrnl"],
  [("canonicalisation", "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp, Canonicalize.td"), ("decomposition and recomposition", "src/Dialect/ONNX/Transforms/Decompose.cpp, Recompose.cpp"), ("convolutions", "src/Dialect/ONNX/Transforms/ConvOpt.cpp"), ("dimension analysis", "src/Dialect/ONNX/ONNXDimAnalysis.cpp"), ("fusion", "src/Conversion/ONNXToKrnl/Math/Elementwise.cpp")],
  "outputs of the compiled library vs. the operators evaluated one by one")
prop("P32", "Values folded at compile time are the values computed at run time",
  "Making any of a model's operands constant, in initializers or as attributes, never changes its results: what constant propagation folds, reassociates or narrows equals the ONNX semantics of the folded operators "
  "for every element type, broadcast, splat and strided view, and equals what the same model computes with folding off or bounded.",
  ["programs", "inputs", "configurations"], "every supported operator and graph, element type, shape, constant value and choice of which operands are constant",
  "lit tests fold a few hand-written constants, mostly float and int64",
  ["src/Dialect/ONNX/Transforms/ConstProp.cpp", "src/Dialect/ONNX/ElementsAttr", "src/Dialect/ONNX/OnnxElementsAttrBuilder.cpp", "src/Dialect/ONNX/Transforms/ConstProp.td"],
  [("folding patterns", "src/Dialect/ONNX/Transforms/ConstProp.cpp, ConstProp.td"), ("elements attributes", "src/Dialect/ONNX/ElementsAttr"), ("elements builder", "src/Dialect/ONNX/OnnxElementsAttrBuilder.cpp")],
  "outputs of the compiled library vs. reference evaluator, folded and unfolded")
prop("P33", "Compiler options that are not meant to change results do not change them",
  "Whatever combination of meaning-preserving options a model is compiled with (passes off or on, bounded or repeated, instrumentation, profiling, safety checks, reports, dimension and shape information that is true of the inputs, constants "
  "in files, tags, or compilation in two steps through a printed intermediate form), the compiler accepts it and the library returns what the ONNX semantics of the model says.",
  ["programs", "inputs", "configurations"], "every supported model and every combination of options",
  "lit tests pin the IR of a few options one at a time; nothing runs the result",
  ["src/Compiler", "src/Conversion", "src/Transform", "src/Dialect/ONNX/Transforms"],
  [("options", "src/Compiler/CompilerOptions.cpp"), ("pass pipelines", "src/Compiler/CompilerPasses.cpp"), ("instrumentation and profiling", "src/Transform/ONNX/InstrumentPass.cpp"), ("constants to file", "src/Conversion/KrnlToLLVM/ConvertKrnlToLLVM.cpp")],
  "outputs under other options vs. reference evaluator")
prop("P34", "Generated code and its entry point never touch memory they should not",
  "For every valid input, a compiled model reads and writes only inside its inputs, outputs, constants and live buffers, never reads a value it has not written, frees every buffer exactly once and none that it hands out, and leaks nothing.",
  ["programs", "inputs"], "every supported model, shape and input value (with indices and sizes at their limits)",
  "tests compare values; a read one element past a buffer or a use after free usually still gives the right ones",
  ["src/Conversion/ONNXToKrnl", "src/Conversion/KrnlToAffine", "src/Conversion/KrnlToLLVM", "src/Transform"],
  [("lowering", "src/Conversion/ONNXToKrnl"), ("buffer passes", "src/Transform"), ("entry points", "src/Conversion/KrnlToLLVM/KrnlEntryPoint.cpp")],
  "sanitizers in the generated code")
prop("P35", "Compiled models describe their interface truly and refuse wrong inputs",
  "The input and output signatures of a compiled model are JSON that names every input and output with its element type, rank and dimensions as in the ONNX model (-1 where unknown) and as the returned tensors have them; "
  "entry points are listed, tagged or not, and found by name; with --verifyInputTensors any input of a wrong element type, rank, static dimension or too few inputs are refused with errno EINVAL and nothing is computed; names given to dimensions never change results.",
  ["programs", "inputs"], "every supported model, name, dimension name and wrong input",
  "lit tests compare the signature of a few models as text; nothing parses it, calls the model or passes a wrong input",
  ["src/Compiler/CompilerUtils.cpp", "src/Conversion/KrnlToLLVM", "src/Dialect/ONNX/ONNXDimAnalysis.cpp", "src/Builder/FrontendDialectTransformer.cpp"],
  [("signatures", "src/Conversion/ONNXToKrnl/ConvertONNXToKrnl.cpp"), ("entry points and input checks", "src/Conversion/KrnlToLLVM/KrnlEntryPoint.cpp"), ("dimension analysis", "src/Dialect/ONNX/ONNXDimAnalysis.cpp")],
  "signatures and refusals vs. the ONNX model")
prop("P36", "Branches, loops and scans compute what their bodies say",
  "A compiled model with If, Loop or Scan, however nested, runs the branch or the iterations the ONNX semantics says, hands states from one iteration to the next as a whole, collects scan outputs in order, sees the values of outer scopes, "
  "and takes trip counts and conditions into account whether constant, computed, zero, absent or derived by the compiler.",
  ["programs", "inputs"], "every supported nest of control flow, body, trip count, condition and state",
  "the backend tests have a handful of fixed loops; lit tests only look at IR",
  ["src/Conversion/ONNXToKrnl/ControlFlow", "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp", "src/Builder"],
  [("lowering", "src/Conversion/ONNXToKrnl/ControlFlow"), ("derived trip counts", "src/Dialect/ONNX/ONNXOps/Canonicalize.cpp"), ("krnl regions", "src/Conversion/KrnlToAffine/ConvertKrnlToAffine.cpp")],
  "outputs vs. an evaluator of control flow")
prop("P37", "A model means the same in every form, and compiles reproducibly",
  "Whether a model is given as a file, on standard input, as JSON or as ONNX text, with its tensors as typed or raw data, in external files or as Constant nodes, its nodes in any order, its operators inside model-local functions, with comments or unusual line breaks: "
  "the compiled code computes the same results; compiling the same model twice with the same options gives the same object code.",
  ["programs", "inputs"], "every supported model and way to write it down",
  "importer tests read a handful of fixed files",
  ["src/Builder", "src/Compiler/CompilerUtils.cpp"],
  [("import", "src/Builder/FrontendDialectTransformer.cpp"), ("tensors", "src/Builder/FrontendDialectHelper.cpp"), ("model-local functions and order", "src/Builder/ModelInputShaper.cpp"), ("input files", "src/Compiler/CompilerUtils.cpp")],
  "outputs of one form vs. evaluator; object code of one run vs. another")
prop("P38", "What is no valid model is refused, and models read no files but their own",
  "A file that is missing, empty, a directory, cut short or noise, a model with undefined or cyclic names, missing outputs, tensors with fewer or more data than their shape or invalid shapes, or external data that is missing, short or outside the directory of the model "
  "(by .., absolute paths or links) makes the compiler end with an error message and a status of failure: it neither crashes nor writes an output, and no data from outside the model reaches the compiled code.",
  ["inputs", "faults"], "every damaged or hostile model file",
  "tests compile valid models",
  ["src/Builder", "src/Compiler/CompilerUtils.cpp"],
  [("import", "src/Builder/FrontendDialectTransformer.cpp"), ("tensors and external data", "src/Builder/FrontendDialectHelper.cpp")],
  "exit status, message and outputs of the compiler on models known to be broken")
prop("P39", "Compiled models can be called from several threads at once",
  "Calls of the same compiled model from any number of threads at the same time, the first ones included, each give the result a call alone gives on the same inputs, with no data race in generated code or the runtime.",
  ["programs", "schedules"], "every supported model, number of threads and interleaving",
  "tests call a model from one thread",
  ["src/Conversion/KrnlToLLVM", "src/Runtime"],
  [("constants from files", "src/Runtime/OMExternalConstant.c"), ("generated code", "src/Conversion/KrnlToLLVM")],
  "results under contention vs. alone; thread sanitizer")
prop("P40", "Custom operators call the user's function with what the model says",
  "A model with custom operators calls the functions named by them, in the order the values need, with result and operand tensors of the model's types, shapes and values and with the attributes as given; what the functions write is what the rest of the model reads, and result shapes follow the declared inference pattern.",
  ["programs", "inputs"], "every function, element type, number of operands, attribute and surrounding graph",
  "tests look at the generated code of a few examples",
  ["src/Conversion/KrnlToLLVM/KrnlCall.cpp", "src/Conversion/ONNXToKrnl/Additional/Custom.cpp", "src/Dialect/ONNX/ONNXOps/Additional/Custom.cpp"],
  [("lowering of custom operators", "src/Conversion/ONNXToKrnl/Additional/Custom.cpp"), ("calls of user functions", "src/Conversion/KrnlToLLVM/KrnlCall.cpp"), ("shape inference of custom operators", "src/Dialect/ONNX/ONNXOps/Additional/Custom.cpp")],
  "arguments the functions record, and model outputs vs. the model")
prop("P91", "NNPA accelerator code computes the same results as the CPU code",
  "A model compiled for the NNPA accelerator gives the CPU result within the accelerator's documented tolerance, and stickified tensors round-trip.",
  ["programs", "inputs"], "all models with NNPA-eligible operations", "needs an IBM z16 machine",
  ["src/Accelerators/NNPA"], [("zlow/zhigh lowering", "src/Accelerators/NNPA")], "model outputs on hardware or zdnn")

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            p["statement"] = p["statement"].strip()
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P))
