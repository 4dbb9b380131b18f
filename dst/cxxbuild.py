"""Compile C++ simulators against /repo's working tree."""
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXX = "/usr/lib/llvm-20/bin/clang++"
FLAGS = ["-std=c++20", "-O1", "-w", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1", "-I/repo", "-isystem", "/opt/vp/heir/shim", "-isystem",
         "/usr/lib/llvm-20/include", "-isystem", "/usr/include/eigen3", "-I" + HERE + "/dst/cxx"]
LINK = ["-fuse-ld=lld", "-L/usr/lib/llvm-20/lib", "-Wl,-rpath,/usr/lib/llvm-20/lib"]


class BuildFailed(Exception):
  pass


def compile_one(src, obj, extra, before=()):
  r = subprocess.run([CXX] + list(before) + FLAGS + list(extra) + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if r.returncode:
    raise BuildFailed("%s does not compile:\n%s" % (src, r.stdout[-3000:]))
  return obj


def build(base, name, srcs, libs, extra=(), flags_for=None, before=()):
  """-> path of the binary, compiled in base/bin."""
  d = os.path.join(base, "bin")
  os.makedirs(d, exist_ok=True)
  os.chmod(d, 0o755)
  out = os.path.join(d, name)
  with ThreadPoolExecutor(8) as ex:
    objs = list(ex.map(lambda s: compile_one(s, os.path.join(d, name + "-" + s.strip("/").replace("/", "_") + ".o"),
                                             list(extra) + list((flags_for or (lambda s: ()))(s)), before), srcs))
  r = subprocess.run([CXX] + LINK + objs + ["-o", out] + list(libs), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if r.returncode:
    raise BuildFailed("link of %s failed:\n%s" % (name, r.stdout[-3000:]))
  for o in objs:
    os.unlink(o)
  return out


MLIR_TBLGEN = "/usr/lib/llvm-20/bin/mlir-tblgen"


def includes(srcs):
  """Repository headers and generated files reachable from the sources."""
  seen, gen, todo = set(), set(), [os.path.relpath(s, "/repo") if s.startswith("/repo/") else s for s in srcs]
  while todo:
    f = todo.pop()
    if f in seen:
      continue
    seen.add(f)
    path = f if f.startswith("/") else "/repo/" + f
    if not os.path.exists(path):
      if f.endswith(".inc"):
        gen.add(f)
      continue
    with open(path) as fh:
      todo += re.findall(r'#include\s+"(lib/[^"]+)"', fh.read())
  return gen


def rules():
  """generated file -> (td, options, uses heir-tblgen), from the repository's BUILD files."""
  sys.path.insert(0, "/opt/vp/heir")
  import buildfiles
  cwd = os.getcwd()
  os.chdir("/repo")
  try:
    loaded = list(buildfiles.load_all("lib"))
  finally:
    os.chdir(cwd)
  out = {}
  for pkg, kind, kw in loaded:
    if kind != "gentbl_cc_library":
      continue
    td = kw["td_file"].removeprefix("@heir")
    td = td[2:].replace(":", "/") if td.startswith("//") else pkg + "/" + td.removeprefix(":")
    outs = kw["tbl_outs"]
    for opts, o in [(v, k) for k, v in outs.items()] if isinstance(outs, dict) else outs:
      out[pkg + "/" + o] = (td, opts, "heir-tblgen" in kw["tblgen"])
  return out


def heir_tblgen(base):
  out = os.path.join(base, "bin", "heir-tblgen")
  if not os.path.exists(out):
    build(base, "heir-tblgen", ["/repo/lib/Tablegen/CompilationTargetEmitter.cpp", "/repo/lib/Tablegen/TablegenMain.cpp"],
          ["-lLLVMTableGen", "-lLLVM-20"])
  return out


def generate(base, srcs, over=None):
  """Generate the tablegen outputs the sources include, under base/gen."""
  need, r, gen = includes(srcs), rules(), os.path.join(base, "gen")
  if any(r[n][2] for n in need if n in r):
    heir_tblgen(base)

  def one(n):
    td, opts, heir = r[n]
    o = os.path.join(gen, n)
    os.makedirs(os.path.dirname(o), exist_ok=True)
    tool = os.path.join(base, "bin", "heir-tblgen") if heir else MLIR_TBLGEN
    p = subprocess.run([tool] + opts + ["-I/repo", "-I/repo/" + os.path.dirname(td)] + (["-I" + over] if over else []) + ["-I/usr/lib/llvm-20/include", "/repo/" + td, "-o", o],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
      raise BuildFailed("tablegen of %s failed:\n%s" % (n, p.stdout[-3000:]))

  with ThreadPoolExecutor(8) as ex:
    list(ex.map(one, [n for n in sorted(need) if n in r]))
  return gen


def overlay(base):
  """What the installed MLIR lacks of the one the repository is written for, as an include directory placed before it."""
  out, src = os.path.join(base, "overlay"), "/usr/lib/llvm-20/include/"

  def patch(f, *edits, last=False, end=None):
    with open(src + f) as fh:
      s = fh.read()
    for old, new in zip(edits[::2], edits[1::2]):
      i = s.rindex(old) if last else s.index(old)
      s = s[:i] + new + s[i + len(old):]
    if end:
      i = s.rindex("#endif")
      s = s[:i] + end + s[i:]
    os.makedirs(os.path.dirname(os.path.join(out, f)), exist_ok=True)
    if os.path.exists(os.path.join(out, f)):
      raise RuntimeError("overlay twice")
    with open(os.path.join(out, f), "w") as fh:
      fh.write(s)

  if os.path.isdir(out):
    return out
  op = "class Op : public OpState, public Traits<ConcreteType>... {\npublic:\n"
  patch("mlir/IR/OpDefinition.h", op, op + """
  /// OpTy::create(builder, location, arguments...)
  template <typename B, typename... A>
  static ConcreteType create(B &builder, A &&...args) {
    return builder.template create<ConcreteType>(std::forward<A>(args)...);
  }
""")
  with open(os.path.join(out, "mlir/IR/OpDefinition.h"), "a") as f:
    f.write("""
#ifndef SIM_OVERLAY_TRAIT
#define SIM_OVERLAY_TRAIT
namespace mlir::AttributeTrait {
template <typename ConcreteType>
class OpAsmAttrInterfaceShim : public TraitBase<ConcreteType, OpAsmAttrInterfaceShim> {};
}
#endif
""")
  patch("mlir/IR/AttrTypeBase.td", "  bit genStorageClass = 1;\n", "  bit genStorageClass = 1;\n  bit genMnemonicAlias = 0;\n")
  patch("mlir/IR/OpAsmInterface.td", "#endif", 'def OpAsmAttrInterface : NativeAttrTrait<"OpAsmAttrInterfaceShim">;\n#endif', last=True)
  patch("mlir/IR/CommonTypeConstraints.td", "class Optional<Type type> : TypeConstraint<type.predicate, type.summary,\n"
        "                                           type.cppType> {\n  Type baseType = type;",
        "class Optional<TypeConstraint type> : TypeConstraint<type.predicate, type.summary,\n"
        "                                           type.cppType> {\n  TypeConstraint baseType = type;",
        end="class TensorOrMemRef<list<Type> allowedTypes> :\n    AnyTypeOf<[TensorOf<allowedTypes>, MemRefOf<allowedTypes>]>;\n")

  create = """
  template <typename B, typename... A>
  static %s create(B &builder, A &&...args) {
    return builder.template create<%s>(std::forward<A>(args)...);
  }
"""
  ctor = "  using arith::ConstantOp::ConstantOp;\n"
  names = ("ConstantIntOp", "ConstantFloatOp", "ConstantIndexOp")
  edits = []
  for n in names:
    head = "class %s : public arith::ConstantOp {\npublic:\n" % n
    edits += [head, head + create % (n, n)]
    if n != "ConstantIndexOp":
      v, t = ("int64_t", "Type") if n == "ConstantIntOp" else ("const APFloat &", "FloatType")
      edits[-1] += "  static void build(OpBuilder &b, OperationState &r, %s type, %s value) { build(b, r, value, type); }\n" % (t, v)
  patch("mlir/Dialect/Arith/IR/Arith.h", *edits)
  head = "  static FuncOp create(Location location,"
  patch("mlir/Dialect/Func/IR/FuncOps.h.inc", head, """
  static FuncOp create(::mlir::OpBuilder &builder, Location location, StringRef name, FunctionType type, ArrayRef<NamedAttribute> attrs = {}) {
    return builder.create<FuncOp>(location, name, type, attrs);
  }
  template <typename B>
  static FuncOp create(B &builder, StringRef name, FunctionType type) {
    return builder.template create<FuncOp>(name, type);
  }
""" + head)
  patch("mlir/Transforms/DialectConversion.h", "struct ConversionConfig {\n", "struct ConversionConfig {\n  static inline bool allowPatternRollback;\n")
  head = "  /// Constructor with no arguments.\n  RegionSuccessor() : inputs(ValueRange()) {}\n"
  tail = "  Region *maybeRegion;\n};\n"
  patch("mlir/Interfaces/ControlFlowInterfaces.h", "RegionSuccessor(Region *region, Block::BlockArgListType regionInputs = {})",
        "RegionSuccessor(Region *region) : region(region), inputs(region->getArguments()) {}\n"
        "  RegionSuccessor(Operation *op) : inputs(ValueRange(op->getResults())) {}\n"
        "  inline RegionSuccessor(class RegionBranchPoint point);\n"
        "  bool isOperation() const { return isParent(); }\n"
        "  RegionSuccessor(Region *region, Block::BlockArgListType regionInputs)",
        tail, tail + "inline RegionSuccessor::RegionSuccessor(RegionBranchPoint point) : region(point.getRegionOrNull()), inputs(ValueRange()) {}\n"
        "using RegionBranchSuccessorMapping = llvm::DenseMap<OpOperand *, llvm::SmallVector<Value>>;\n"
        "using RegionBranchInverseSuccessorMapping = llvm::DenseMap<Value, llvm::SmallVector<OpOperand *>>;\n",
        '#include "mlir/Interfaces/ControlFlowInterfaces.h.inc"\n', """#include "mlir/Interfaces/ControlFlowInterfaces.h.inc"
inline void mlir::RegionBranchOpInterface::getSuccessorOperandInputMapping(RegionBranchSuccessorMapping &mapping, RegionBranchPoint point) {
  llvm::SmallVector<RegionSuccessor> next;
  getSuccessorRegions(point, next);
  for (auto &s : next) {
    OperandRange from = getEntrySuccessorOperands(s);
    for (auto [k, v] : llvm::enumerate(s.getSuccessorInputs()))
      if (k < from.size()) mapping[&(*this)->getOpOperand(from.getBeginOperandIndex() + k)].push_back(v);
  }
}
""")
  head = "class RegionBranchOpInterface : public ::mlir::OpInterface<RegionBranchOpInterface, detail::RegionBranchOpInterfaceInterfaceTraits> {\npublic:\n"
  patch("mlir/Interfaces/ControlFlowInterfaces.h.inc", head, head + "  inline void getSuccessorOperandInputMapping(RegionBranchSuccessorMapping &mapping, RegionBranchPoint point);\n")
  head = '"::mlir::OperandRange", "getEntrySuccessorOperands",\n      (ins "::mlir::RegionBranchPoint":$point)'
  new = '"::mlir::OperandRange", "getEntrySuccessorOperands",\n      (ins "::mlir::RegionSuccessor":$successor)'
  at = "    InterfaceMethod<[{\n        Returns the potential region successors when first executing the op.\n"
  patch("mlir/Interfaces/ControlFlowInterfaces.td", head, new, at,
        '    InterfaceMethod<"", "::mlir::ValueRange", "getSuccessorInputs", (ins "::mlir::RegionSuccessor":$successor), [{}], [{ return {}; }]>,\n' + at)
  os.makedirs(out + "/mlir/include")
  os.symlink("..", out + "/mlir/include/mlir")
  return out


def graph(base):
  build(base, "graph_sim", [HERE + "/dst/cxx/graph_sim.cpp"], ["-lLLVM-20", "-lpthread"], extra=["-DSIM_LONGEST"])


def dag(base):
  build(base, "dag_sim", [HERE + "/dst/cxx/dag_sim.cpp", "/repo/lib/Kernel/EvalVisitor.cpp", "/repo/lib/Kernel/RotationCountVisitor.cpp",
                          "/repo/lib/Kernel/TestingUtils.cpp", "/repo/lib/Analysis/RotationAnalysis/RotationEvalVisitor.cpp"],
        ["-lMLIR", "-lLLVM-20", "-lpthread"], extra=["-isystem", HERE + "/dst/cxx/shim"])


PASSES = """Transforms/AnnotateModule/AnnotateModule Transforms/AnnotateModule/ApplyConfigOverride Transforms/EmitCInterface/EmitCInterface
Transforms/ForwardInsertToExtract/ForwardInsertToExtract Transforms/ForwardStoreToLoad/ForwardStoreToLoad Transforms/FullLoopUnroll/FullLoopUnroll
Transforms/RemoveUnusedPureCall/RemoveUnusedPureCall Transforms/UnusedMemRef/UnusedMemRef Dialect/Debug/IR/DebugDialect Dialect/Debug/IR/DebugOps
Dialect/Debug/Transforms/ValidateNames Dialect/Preprocessing/IR/PreprocessingDialect Dialect/Preprocessing/IR/PreprocessingOps
Dialect/Preprocessing/Transforms/ValidatePreprocessing Target/CompilationTarget/CompilationTarget Target/CompilationTarget/RegisterAllBackends
Dialect/ModuleAttributes Utils/TensorUtils Dialect/FuncUtils Target/Metadata/MetadataEmitter Target/TfheRust/TfheRustEmitter Target/TfheRust/Utils
Target/TfheRustBool/TfheRustBoolEmitter Target/TfheRustHL/TfheRustHLEmitter Dialect/TfheRust/IR/TfheRustDialect Dialect/TfheRust/IR/TfheRustPatterns
Dialect/TfheRustBool/IR/TfheRustBoolDialect Analysis/SelectVariableNames/SelectVariableNames Utils/TargetUtils Target/OpenFhePke/OpenFhePkePybindEmitter""".split()


def mlir(base):
  if os.path.exists(os.path.join(base, "bin", "mlir_sim")):
    return
  lib = ["/repo/lib/%s.cpp" % p for p in PASSES]
  main = HERE + "/dst/cxx/mlir_sim.cpp"
  gen = generate(base, lib + [main])
  build(base, "mlir_sim", [main] + lib, ["-lMLIR", "-lLLVM-20", "-lpthread", "-ldl", "-rdynamic"], extra=["-I" + gen],
        flags_for=lambda s: () if s == main else ("-fsanitize-coverage=trace-pc-guard",))


SECRET = """Analysis/SecretnessAnalysis/SecretnessAnalysis Analysis/Utils Dialect/HEIRInterfaces Dialect/Secret/IR/SecretDialect Dialect/Secret/IR/SecretOps
Dialect/Secret/IR/SecretPatterns Dialect/Secret/Transforms/AddDebugPort Dialect/Secret/Transforms/CaptureGenericAmbientScope
Dialect/Secret/Transforms/DistributeGeneric Dialect/Secret/Transforms/ExtractGenericBody Dialect/Secret/Transforms/ForgetSecrets
Dialect/Secret/Transforms/GenericAbsorbConstants Dialect/Secret/Transforms/GenericAbsorbDealloc Dialect/Secret/Transforms/ImportExecutionResult
Dialect/Secret/Transforms/MergeAdjacentGenerics Transforms/AnnotateSecretness/AnnotateSecretness Transforms/ConvertIfToSelect/ConvertIfToSelect
Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor
Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor
Transforms/Secretize/Secretize Transforms/Secretize/WrapGeneric Dialect/Mgmt/IR/MgmtDialect Dialect/Mgmt/IR/MgmtOps Dialect/Mgmt/IR/MgmtAttributes Dialect/Mgmt/IR/MgmtPatterns Utils/AttributeUtils Utils/TransformUtils Utils/MathUtils Utils/APIntUtils Kernel/Kernel Utils/Utils
Utils/ConversionUtils Utils/TensorUtils Dialect/Debug/IR/DebugDialect Dialect/Debug/IR/DebugOps Dialect/FuncUtils Dialect/ModuleAttributes""".split()


def secret(base):
  """The simulator with the secret dialect and the passes around it."""
  if os.path.exists(os.path.join(base, "bin", "secret_sim")):
    return
  lib = ["/repo/lib/%s.cpp" % p for p in SECRET if os.path.exists("/repo/lib/%s.cpp" % p)]
  main = HERE + "/dst/cxx/mlir_sim.cpp"
  over = overlay(base)
  gen = generate(base, lib + [HERE + "/dst/cxx/secret_sim.h"], over)
  build(base, "secret_sim", [main] + lib, ["-lMLIR", "-lLLVM-20", "-lpthread", "-ldl", "-rdynamic"],
        extra=["-DSIM_SECRET", "-I" + gen, "-include", "mlir/IR/OpDefinition.h", "-include", "mlir/IR/ImplicitLocOpBuilder.h"],
        flags_for=lambda s: () if s == main else ("-fsanitize-coverage=trace-pc-guard",), before=["-isystem", over, "-isystem", HERE + "/dst/cxx/shim20"])


def rust(base):
  """The simulator plus the stand-ins for the crates the emitted programs use."""
  d = os.path.join(base, "bin")
  os.makedirs(d, exist_ok=True)
  os.chmod(d, 0o755)
  sysroot = subprocess.check_output(["rustc", "--print", "sysroot"], text=True, cwd="/").strip()
  with open(os.path.join(d, "rustc.path"), "w") as f:
    f.write(sysroot + "/bin/rustc")
  with ThreadPoolExecutor(3) as ex:
    todo = [ex.submit(mlir, base)]
    for n in ("tfhe", "rayon"):
      todo.append(ex.submit(rlib, d, n))
    for t in todo:
      t.result()


def rlib(d, n):
  out = os.path.join(d, "lib%s.rlib" % n)
  if os.path.exists(out):
    return
  r = subprocess.run([open(d + "/rustc.path").read(), "--edition", "2021", "--crate-type", "rlib", "--crate-name", n, "-O", HERE + "/dst/rust/%s.rs" % n, "-o", out], cwd="/",
                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
  if r.returncode:
    raise RuntimeError("the stand-in crate %s does not compile:\n%s" % (n, r.stdout[-2000:]))
  os.chmod(out, 0o644)


def tblgen(base):
  """heir-tblgen, the fault injector and a precompiled header for what it generates."""
  d = os.path.join(base, "bin")
  heir_tblgen(base)
  flags = ["-std=c++20", "-O0", "-w", "-DLLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING=1", "-I/repo", "-isystem", "/opt/vp/heir/shim", "-isystem",
           "/usr/lib/llvm-20/include"]
  for cmd in (["/usr/bin/gcc", "-O1", "-shared", "-fPIC", HERE + "/dst/tblgen/iofault.c", "-o", d + "/iofault.so", "-ldl"],
              [CXX] + flags + ["-x", "c++-header", HERE + "/dst/tblgen/pre.h", "-o", d + "/pre.pch"]):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/")
    if r.returncode:
      raise RuntimeError("%s failed:\n%s" % (cmd[0], r.stdout[-2000:]))
