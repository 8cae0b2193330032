#pragma once
#include "onnxlike.hpp"
namespace mlir {
struct ONNXConstantOp { static llvm::StringRef getOperationName() { return "onnx.Constant"; } };
struct ONNXConstantOfShapeOp { static llvm::StringRef getOperationName() { return "onnx.ConstantOfShape"; } };
}
