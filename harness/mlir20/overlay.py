#!/usr/bin/env python3
"""Copies of a few headers of the installed MLIR/LLVM 20 and ONNX 1.14 with the names the sources of
onnx-mlir use from newer releases. Only inline functions are added, so the installed libraries fit.
   overlay.py OUTDIR"""
import os, re, sys
L = "/usr/lib/llvm-20/include/"
out = sys.argv[1]
def sub(path, *edits, root=L):
    s = open(root + path).read()
    for old, new in edits:
        assert old in s, (path, old)
        s = s.replace(old, new) if new.startswith("@all") else s.replace(old, new, 1)
        s = s.replace("@all", "")
    put(path, s)
def put(path, s):
    os.makedirs(os.path.dirname(f"{out}/{path}"), exist_ok=True)
    open(f"{out}/{path}", "w").write(s)

# OpTy::create(builder, ...)
sub("mlir/IR/OpDefinition.h",
    ("  /// Create a deep copy of this operation.\n  ConcreteType clone() {",
     """  template <typename BuilderT, typename... CreateArgs>
  static ConcreteType create(BuilderT &&b, CreateArgs &&...args) {
    return ::mlir20::Create<ConcreteType>::at(b, std::forward<CreateArgs>(args)...);
  }
  /// Create a deep copy of this operation.
  ConcreteType clone() {"""),
    ("namespace mlir {\n", """namespace mlir20 {
template <typename OpT> struct Create {
  template <typename B, typename... A> static OpT at(B &b, A &&...a) { return b.template create<OpT>(std::forward<A>(a)...); }
};
} // namespace mlir20
namespace mlir {
"""))
mk = lambda op: f"""  template <typename B, typename... A> static {op} create(B &&b, A &&...a) {{ return b.template create<{op}>(std::forward<A>(a)...); }}
"""
sub("mlir/Dialect/Arith/IR/Arith.h",
    ("  static void build(OpBuilder &builder, OperationState &result, int64_t value,\n                    Type type);\n",
     "  static void build(OpBuilder &builder, OperationState &result, int64_t value,\n                    Type type);\n  static void build(OpBuilder &builder, OperationState &result, Type type, int64_t value) { build(builder, result, value, type); }\n" + mk("ConstantIntOp")),
    ("                    const APFloat &value, FloatType type);\n",
     "                    const APFloat &value, FloatType type);\n  static void build(OpBuilder &builder, OperationState &result, FloatType type, const APFloat &value) { build(builder, result, value, type); }\n" + mk("ConstantFloatOp")),
    ("  static void build(OpBuilder &builder, OperationState &result, int64_t value);\n", "  static void build(OpBuilder &builder, OperationState &result, int64_t value);\n" + mk("ConstantIndexOp")))
sub("mlir/Dialect/LLVMIR/LLVMDialect.h", ("#endif // MLIR_DIALECT_LLVMIR_LLVMDIALECT_H_", """
namespace mlir20 {
template <> struct Create<mlir::LLVM::GlobalCtorsOp> {
  static mlir::LLVM::GlobalCtorsOp at(mlir::OpBuilder &b, mlir::Location l, mlir::ArrayAttr f, mlir::ArrayAttr p, mlir::ArrayAttr) { return b.create<mlir::LLVM::GlobalCtorsOp>(l, f, p); }
};
template <> struct Create<mlir::LLVM::GlobalDtorsOp> {
  static mlir::LLVM::GlobalDtorsOp at(mlir::OpBuilder &b, mlir::Location l, mlir::ArrayAttr f, mlir::ArrayAttr p, mlir::ArrayAttr) { return b.create<mlir::LLVM::GlobalDtorsOp>(l, f, p); }
};
template <> struct Create<mlir::LLVM::InlineAsmOp> {
  template <typename R, typename O, typename S, typename D>
  static mlir::LLVM::InlineAsmOp at(mlir::OpBuilder &b, mlir::Location l, R r, O o, S s, S c, bool e, bool a, mlir::LLVM::TailCallKind, D d, mlir::ArrayAttr n) { return b.create<mlir::LLVM::InlineAsmOp>(l, r, o, s, c, e, a, d, n); }
};
} // namespace mlir20
#endif // MLIR_DIALECT_LLVMIR_LLVMDIALECT_H_"""))
sub("mlir/Dialect/LLVMIR/LLVMOpsAttrDefs.h.inc", ("  static DICompileUnitAttr get(DistinctAttr id,", "  template <typename F> static DICompileUnitAttr get(::mlir::MLIRContext *context, DistinctAttr id, unsigned sourceLanguage, F file, StringAttr producer, bool isOptimized, DIEmissionKind emissionKind, DINameTableKind nameTableKind, StringAttr) { return get(context, id, sourceLanguage, file, producer, isOptimized, emissionKind, nameTableKind); }\n  static DICompileUnitAttr get(DistinctAttr id,"))
sub("mlir/Conversion/LLVMCommon/MemRefBuilder.h", ("  /// Builds IR creating an `undef` value of the descriptor type.\n  static MemRefDescriptor undef", "  template <typename B> static MemRefDescriptor poison(B &b, Location l, Type t) { return undef(b, l, t); }\n  /// Builds IR creating an `undef` value of the descriptor type.\n  static MemRefDescriptor undef"))
sub("mlir/Transforms/GreedyPatternRewriteDriver.h", ("  bool cseConstants = true;\n", """  bool cseConstants = true;
  GreedyRewriteConfig &setUseTopDownTraversal(bool v = true) { useTopDownTraversal = v; return *this; }
  GreedyRewriteConfig &setRegionSimplificationLevel(GreedySimplifyRegionLevel v) { enableRegionSimplification = v; return *this; }
  GreedyRewriteConfig &setMaxIterations(int64_t v) { maxIterations = v; return *this; }
  GreedyRewriteConfig &setMaxNumRewrites(int64_t v) { maxNumRewrites = v; return *this; }
"""))
sub("mlir/Dialect/Vector/Transforms/LoweringPatterns.h",
    ("void populateVectorContractLoweringPatterns(\n    RewritePatternSet &patterns, VectorTransformsOptions options,\n    PatternBenefit benefit = 1, bool disableOuterProductLowering = false);",
     "void populateVectorContractLoweringPatterns(\n    RewritePatternSet &patterns, VectorTransformsOptions options,\n    PatternBenefit benefit = 1, bool disableOuterProductLowering = false);\ninline void populateVectorContractLoweringPatterns(RewritePatternSet &p, VectorContractLowering l) { VectorTransformsOptions o; o.setVectorTransformsOptions(l); populateVectorContractLoweringPatterns(p, o); }"),
    ("void populateVectorTransposeLoweringPatterns(RewritePatternSet &patterns,\n                                             VectorTransformsOptions options,\n                                             PatternBenefit benefit = 1);",
     "void populateVectorTransposeLoweringPatterns(RewritePatternSet &patterns,\n                                             VectorTransformsOptions options,\n                                             PatternBenefit benefit = 1);\ninline void populateVectorTransposeLoweringPatterns(RewritePatternSet &p, VectorTransposeLowering l) { VectorTransformsOptions o; o.setVectorTransposeLowering(l); populateVectorTransposeLoweringPatterns(p, o); }"))
s = open(L + "mlir/Interfaces/FunctionInterfaces.h.inc").read()
for this in ("(*this)", "(*static_cast<ConcreteOp *>(this))"):
    a = "    ::mlir::Attribute removeResultAttr(unsigned index, ::mlir::StringAttr name) {\n      return ::mlir::function_interface_impl::removeResultAttr(%s, index, name);\n    }\n" % this
    assert a in s
    s = s.replace(a, a + a.replace("::mlir::StringAttr name", "::llvm::StringRef name").replace("index, name)", "index, ::mlir::StringAttr::get(%s->getContext(), name))" % this))
put("mlir/Interfaces/FunctionInterfaces.h.inc", s)
sub("mlir/Dialect/OpenMP/OpenMPOps.h.inc", ("  ::mlir::MutableOperandRange getNumThreadsMutable();", "  ::mlir::MutableOperandRange getNumThreadsVarsMutable() { return getNumThreadsMutable(); }\n  ::mlir::MutableOperandRange getNumThreadsMutable();"))
sub("mlir/IR/Types.h", ("  bool isF16() const;", "  bool isFloat() const;\n  bool isFloat(unsigned width) const;\n  bool isF16() const;"))
sub("mlir/IR/BuiltinTypes.h", ("#endif // MLIR_IR_BUILTINTYPES_H", "namespace mlir {\ninline bool Type::isFloat() const { return llvm::isa<FloatType>(*this); }\ninline bool Type::isFloat(unsigned width) const { auto f = llvm::dyn_cast<FloatType>(*this); return f && f.getWidth() == width; }\n} // namespace mlir\n#endif // MLIR_IR_BUILTINTYPES_H"))
sub("mlir/Dialect/Bufferization/Transforms/Passes.h", ("createOneShotBufferizePass(const OneShotBufferizationOptions &options);", "createOneShotBufferizePass(const OneShotBufferizationOptions &options);\nstruct OneShotBufferizePassOptions { bool bufferizeFunctionBoundaries = false, allowUnknownOps = false; };\ninline std::unique_ptr<Pass> createOneShotBufferizePass(const OneShotBufferizePassOptions &) { return createOneShotBufferizePass(); }"))
sub("mlir/Conversion/BufferizationToMemRef/BufferizationToMemRef.h", ("std::unique_ptr<Pass> createBufferizationToMemRefPass();", "std::unique_ptr<Pass> createBufferizationToMemRefPass();\ninline std::unique_ptr<Pass> createConvertBufferizationToMemRefPass() { return createBufferizationToMemRefPass(); }"))
sub("mlir/Conversion/SCFToControlFlow/SCFToControlFlow.h", ("std::unique_ptr<Pass> createConvertSCFToCFPass();", "std::unique_ptr<Pass> createConvertSCFToCFPass();\ninline std::unique_ptr<Pass> createSCFToControlFlowPass() { return createConvertSCFToCFPass(); }"))
sub("llvm/MC/TargetRegistry.h",
    ("  static const Target *lookupTarget(StringRef Triple, std::string &Error);", "  static const Target *lookupTarget(StringRef Triple, std::string &Error);\n  static const Target *lookupTarget(const Triple &T, std::string &Error) { return lookupTarget(StringRef(T.str()), Error); }"),
    ("  TargetMachine *createTargetMachine(\n      StringRef TT,", "  TargetMachine *createTargetMachine(const Triple &TT, StringRef CPU, StringRef Features, const TargetOptions &Options, std::optional<Reloc::Model> RM) const { return createTargetMachine(StringRef(TT.str()), CPU, Features, Options, RM); }\n  TargetMachine *createTargetMachine(\n      StringRef TT,"))
put("mlir/Dialect/Affine/Transforms/Passes.h", '#include "mlir/Dialect/Affine/Passes.h"\n')
# element types that ONNX 1.14 does not know yet
new = [("UINT4", 21), ("INT4", 22), ("FLOAT4E2M1", 23), ("FLOAT8E8M0", 24), ("UINT2", 25), ("INT2", 26)]
p = "/usr/include/onnx/onnx-ml.pb.h"
s = open(p).read()
have = [n for n, _ in new if f"TensorProto_DataType_{n} " in s]
m = re.search(r"class ONNX_API TensorProto final :[^{]*\{\n public:\n", s)
s = s[:m.end()] + "".join(f"  static constexpr TensorProto_DataType {n} = TensorProto_DataType_{n};\n" for n, v in new if n not in have) + s[m.end():]
e = re.search(r"enum TensorProto_DataType : int \{\n", s)
s = s[:e.end()] + "".join(f"  TensorProto_DataType_{n} = {v},\n" for n, v in new if n not in have) + s[e.end():]
put("onnx/onnx-ml.pb.h", s)
