#pragma once
#include "onnxlike.hpp"
namespace mlir { using ONNXDialect = ::OnnxLike; }
