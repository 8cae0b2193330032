#pragma once
#include "onnxlike.hpp"
namespace onnx_mlir { namespace zhigh { struct ZHighStickifiedConstantOp { static llvm::StringRef getOperationName() { return "zhigh.StickifiedConstant"; } }; } }
