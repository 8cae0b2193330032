// What the compiler itself makes of an argument vector: its own option definitions and
// LLVM's parser, followed by the rule of the compiler's main for the output name.
#pragma once
#include "src/Compiler/CompilerOptions.hpp"
#include <string>
#include <vector>
struct Parsed { bool ok = false; std::string input, base, tag, ext; };
inline Parsed parseAsCompiler(const std::vector<std::string> &args) {
  static bool once = (onnx_mlir::removeUnrelatedOptions({&onnx_mlir::OnnxMlirCommonOptions, &onnx_mlir::OnnxMlirOptions}), true); (void)once;
  llvm::cl::ResetAllOptionOccurrences();
  std::vector<const char *> argv = {"onnx-mlir"}; for (auto &a : args) argv.push_back(a.c_str());
  Parsed p; std::string errs; llvm::raw_string_ostream es(errs);
  if (!llvm::cl::ParseCommandLineOptions(argv.size(), argv.data(), "", &es)) return p;
  p.ok = true; p.input = onnx_mlir::inputFilename; p.tag = onnx_mlir::modelTag; p.base = onnx_mlir::outputBaseName;
  std::string name = p.base.substr(p.base.find_last_of("/\\") + 1); bool dots = true; for (char c : name) if (c != '.') dots = false;
  if (p.base == "-" || dots) p.base = p.input == "-" ? "stdin" : p.input.substr(0, p.input.find_last_of("."));
  switch (onnx_mlir::emissionTarget) { case onnx_mlir::EmitObj: p.ext = ".o"; break; case onnx_mlir::EmitLib: p.ext = ".so"; break; case onnx_mlir::EmitJNI: p.ext = ".jar"; break; default: p.ext = ".onnx.mlir"; }
  return p; }
