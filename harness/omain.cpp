// The compiler's real main with the compilation itself replaced by a recorder of every option.
#include "src/Compiler/CompilerUtils.hpp"
#include "src/Version/Version.hpp"
#include "mlir/IR/MLIRContext.h"
#include "ExternalUtil.hpp"
#include <cstdio>
#include <cstdlib>
mlir::DefaultTimingManager timingManager; mlir::TimingScope rootTimingScope;
using namespace onnx_mlir;
static std::string esc(const std::string &s) { std::string o; for (unsigned char c : s) { char b[8]; if (c < 33 || c == '%' || c == '|' || c > 126) { snprintf(b, 8, "%%%02x", c); o += b; } else o += c; } return o; }
static FILE *F;
static void put(const char *n, const std::string &v) { fprintf(F, "%s=%s\n", n, esc(v).c_str()); }
static void put(const char *n, bool v) { fprintf(F, "%s=%s\n", n, v ? "true" : "false"); }
template <class T, class = std::enable_if_t<(std::is_integral_v<T> && !std::is_same_v<T, bool>) || std::is_enum_v<T>>> static void put(const char *n, T v) { fprintf(F, "%s=%lld\n", n, (long long)v); }
static void put(const char *n, float v) { fprintf(F, "%s=%.9g\n", n, v); }
static void put(const char *n, const std::vector<std::string> &v) { fprintf(F, "%s=[", n); for (auto &x : v) fprintf(F, "%s|", esc(x).c_str()); fprintf(F, "\n"); }
static void put(const char *n, const std::vector<accel::Accelerator::Kind> &v) { fprintf(F, "%s=[", n); for (auto x : v) fprintf(F, "%d|", (int)x); fprintf(F, "\n"); }
#define P(x) put(#x, x)
namespace onnx_mlir {
uint64_t CURRENT_COMPILE_PHASE, TOTAL_COMPILE_PHASE;
void showCompilePhase(std::string) {}
void loadDialects(mlir::MLIRContext &) {}
int processInputFile(llvm::StringRef f, mlir::MLIRContext &c, mlir::OwningOpRef<mlir::ModuleOp> &m, std::string *) { m = mlir::ModuleOp::create(mlir::UnknownLoc::get(&c)); return 0; }
int compileModule(mlir::OwningOpRef<mlir::ModuleOp> &m, mlir::MLIRContext &ctx, std::string out, EmissionTargetType target) {
  F = fopen(getenv("OMAIN_RECORD"), "w"); if (!F) return 99;
  put("out", out); put("target", target); put("threads", (int)ctx.getNumThreads()); put("multithreaded", ctx.isMultithreadingEnabled());
  if (auto a = m.get()->getAttrOfType<mlir::StringAttr>("onnx-mlir.compile_options")) put("record", a.getValue().str());
  P(inputFilename); P(outputBaseName); P(maccel); P(OptimizationLevel); P(mtriple); P(mcpu); P(nnpaEpsilon); P(march); P(instrumentStage); P(onnxConstPropRoundFPToInt); P(onnxConstPropExpansionBound); P(onnxConstPropDisablePatterns); P(enableONNXHybridPass); P(functionsToDecompose); P(opsForCall); P(disableKrnlOpFusion); P(disableQuantZeroPoint); P(enableKrnlBufferReuse); P(enableSafeCodeGen); P(disableMemRefPrefetch); P(compilationNumThreads); P(decomposeOpsInONNX); P(shapeInformationUB); P(shapeInformationLB); P(linalgOps); P(emissionTarget); P(invokeOnnxVersionConverter); P(preserveLocations); P(printIR); P(printONNXBasicIR); P(doNotEmitFullMLIRCode); P(omitCompileInfo); P(preserveBitcode); P(preserveLLVMIR); P(preserveMLIR); P(useOnnxModelTypes); P(repeatOnnxTransform); P(shapeInformation); P(dimParams); P(modelSize); P(storeConstantsToFile); P(constantsToFileTotalThreshold); P(constantsToFileSingleThreshold); P(VerboseOutput); P(Xopt); P(Xllc); P(mllvm); P(instrumentOps); P(instrumentControlBits); P(parallelizeOps); P(instrumentSignatures); P(instrumentOnnxNode); P(ONNXOpStats); P(onnxOpTransformThreshold); P(onnxOpTransformReport); P(enableParallel); P(disableSimdOption); P(enableFastMathOption); P(disableRecomposeOption); P(enableSimdDataLayout); P(verifyInputTensors); P(allowSorting); P(reportHeapBefore); P(reportHeapAfter); P(modelTag); P(enableConvOptPass); P(disableConvToMatmul); P(disableFusedOp); P(disableEliminateWriteOnlyAlloc); P(replaceOpWithItsOperand); P(disableConstantProp); P(disableCountIncludePad); P(extraLibPaths); P(extraLibs); P(profileIR); P(profileIRWithSig); P(optReport); P(enableTiming); P(enableBoundCheck); P(useLinalgPath); P(enableDebugInfo); P(configFile); P(saveConfigFile);
  put("libdeps", getCompilerConfig(CCM_SHARED_LIB_DEPS)); put("libpaths", getCompilerConfig(CCM_SHARED_LIB_PATH_DEPS));
  put("libpath", getLibraryPath()); put("instpath", kInstPath);
  for (const char *t : {"opt", "llc", "cxx", "onnx-mlir"}) { put((std::string("tool:") + t).c_str(), getToolPath(t)); put((std::string("built:") + t).c_str(), getToolPath(t, true)); }
  fprintf(F, "END=1\n"); fclose(F); return 0; }
std::string getOnnxMlirFullVersion() { return "v"; } std::string getOnnxMlirCommitVersion() { return "v"; } std::string getVendorName() { return "V"; } void getVersionPrinter(llvm::raw_ostream &o) { o << "v\n"; } std::string getOnnxMlirRepositoryPath() { return ""; } std::string getLLVMRepositoryPath() { return ""; } std::string getOnnxMlirRevision() { return ""; } std::string getLLVMRevision() { return ""; }
}
