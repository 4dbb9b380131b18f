#pragma once
#include "mlir/Analysis/DataFlow/ConstantPropagationAnalysis.h"
#include "mlir/Analysis/DataFlow/DeadCodeAnalysis.h"
namespace mlir::dataflow {
inline void loadBaselineAnalyses(DataFlowSolver &solver) {
  solver.load<DeadCodeAnalysis>();
  solver.load<SparseConstantPropagation>();
}
} // namespace mlir::dataflow
