#pragma once
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttr.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposableElementsAttributeStorage.hpp"
#include "src/Dialect/ONNX/ElementsAttr/DisposablePool.hpp"
#include "src/Dialect/ONNX/ElementsAttr/ElementsAttrBuilder.hpp"
#include "mlir/IR/Dialect.h"
#include "mlir/IR/DialectImplementation.h"
#include "mlir/IR/MLIRContext.h"
// ---- the real constants live in this dialect ----
class OnnxLike : public mlir::Dialect {
public:
  explicit OnnxLike(mlir::MLIRContext *c) : Dialect(getDialectNamespace(), c, mlir::TypeID::get<OnnxLike>()) { addAttributes<mlir::DisposableElementsAttr>(); addInterface<onnx_mlir::DisposablePool>(c); allowUnknownOperations(); }
  static constexpr llvm::StringLiteral getDialectNamespace() { return llvm::StringLiteral("onnx"); }
  static inline bool asDense = false;
  mlir::Attribute parseAttribute(mlir::DialectAsmParser &p, mlir::Type type) const override {
    llvm::StringRef k; if (p.parseKeyword(&k)) return {}; auto st = mlir::cast<mlir::ShapedType>(type); auto buf = mlir::DisposableElementsAttr::parse(p, st); if (!buf) return {};
    return onnx_mlir::ElementsAttrBuilder(*onnx_mlir::DisposablePool::get<OnnxLike>(type.getContext())).fromMemoryBuffer(st, std::move(buf)); }
  void printAttribute(mlir::Attribute a, mlir::DialectAsmPrinter &p) const override { if (auto d = mlir::dyn_cast<mlir::DisposableElementsAttr>(a)) { if (asDense) d.printAsDenseElementsAttr(p); else d.printWithoutType(p); } }
};
MLIR_DECLARE_EXPLICIT_TYPE_ID(OnnxLike)
