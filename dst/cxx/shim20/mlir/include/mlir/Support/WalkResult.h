#include "mlir/IR/Visitors.h"
