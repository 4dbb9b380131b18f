#pragma once
// Stand-in for the debug-log header of newer LLVM: logging is off.
#include "llvm/include/llvm/Support/raw_ostream.h"
#define LDBG(...) \
  if (true) {     \
  } else          \
    ::llvm::nulls()
