// The compiler calls a newer LLVM's ParseCommandLineOptions, which takes a file system before the
// name of the environment variable; with the installed LLVM the call would compile to something else.
#pragma once
#include "llvm/Support/CommandLine.h"
namespace llvm { namespace cl {
inline bool ParseCommandLineOptions(int argc, const char *const *argv, StringRef overview, raw_ostream *errs, std::nullptr_t, const char *envVar, bool dd = false) { return ParseCommandLineOptions(argc, argv, overview, errs, envVar, dd); }
} }
