#pragma once
#include "llvm/Support/Debug.h"
#include "llvm/Support/raw_ostream.h"
#define LDBG(...) if (true) {} else ::llvm::nulls()
