// Dialects and passes of the simulator built with SIM_SECRET.
#include "lib/Dialect/Debug/IR/DebugDialect.h"
#include "lib/Dialect/Mgmt/IR/MgmtDialect.h"
#include "lib/Dialect/Secret/IR/SecretDialect.h"
#include "lib/Dialect/Secret/IR/SecretOps.h"
#include "lib/Dialect/Secret/IR/SecretTypes.h"
#include "lib/Dialect/Secret/Transforms/Passes.h"
#include "lib/Transforms/AnnotateSecretness/AnnotateSecretness.h"
#include "lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.h"
#include "lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.h"
#include "lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.h"
#include "lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.h"
#include "lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.h"
#include "lib/Transforms/Secretize/Passes.h"

static void registerSecretSim() {
  mlir::heir::secret::registerSecretPasses();
  mlir::heir::registerAnnotateSecretnessPasses();
  mlir::heir::registerConvertIfToSelectPasses();
  mlir::heir::registerConvertSecretExtractToStaticExtractPasses();
  mlir::heir::registerConvertSecretForToStaticForPasses();
  mlir::heir::registerConvertSecretInsertToStaticInsertPasses();
  mlir::heir::registerConvertSecretWhileToStaticForPasses();
  mlir::heir::registerSecretizePasses();
}
