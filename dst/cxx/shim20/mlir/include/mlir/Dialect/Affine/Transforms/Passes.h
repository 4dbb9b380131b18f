#include "mlir/Dialect/Affine/Passes.h"
