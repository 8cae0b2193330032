// What the parts left out of the build would have provided.
#include "src/Pass/Passes.hpp"
namespace onnx_mlir {
std::unique_ptr<mlir::Pass> createConvertONNXToLinalg(const std::string &, bool) { llvm::report_fatal_error("not built"); }
} // namespace onnx_mlir
