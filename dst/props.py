"""The checks: which simulation decides which property."""
from dst import cxxbuild
from dst.orch import Check, PairHost

FE_REAL = ("real code: frontend/heir (pipeline, emitter, backends, CLI wrappers, clients), numba's front half, "
           "importlib, tempfile, shutil, subprocess.run. Stand-ins: heir-opt, heir-translate, the C++ compiler, the "
           "dynamic loader, the OpenFHE runtime, process spawning, clocks, randomness, thread scheduling")
FE_RULE = ("one case = one simulated process running 1-4 threads of compiles, client calls and (C06) client histories "
           "against simulated tools with injected faults, generated from one seed; non-trivial: a fault fired, or "
           "threads interleaved, or the plan has more than two operations; distinct: by hash of the whole history")


def get(prop):
  return TABLE[prop]()


TABLE = {}
for _p in ("C01", "C02", "C03", "C04", "C06"):
  TABLE[_p] = lambda _p=_p: Check(_p, "fe", rule=FE_RULE, components={"python_frontend": FE_REAL})
TABLE["C05"] = lambda: Check("C05", "fe", host=PairHost, rule=FE_RULE + "; every case is run in two processes with different "
                             "hash seeds, clocks and object addresses", components={"python_frontend": FE_REAL})

_FE_NOTE = ("Seeded exploration, not proof: every violation is replayable; absence of one covers the runs listed in the "
            "evidence. Trusted: the stand-ins for heir-opt/heir-translate/C++ compiler/OpenFHE (an executable model of the "
            "textual MLIR the frontend emits) and CPython/numba. ")
TECH = {
    "C01": "concurrent compile histories against simulated tools, reference interpreter as oracle",
    "C02": "tool, spawn, load and I/O failures injected at every tool run; history oracle on outcome, diagnostic and retry",
    "C03": "failures and interrupts at each file operation and tool run; scratch-tree oracle",
    "C04": "interleaved compiles sharing caller-owned objects; before/after state and per-tool argv/env oracle",
    "C05": "twin executions differing only in hash seed, addresses, clock; byte comparison of tool inputs",
    "C06": "seeded client operation histories over a model of the OpenFHE runtime, refinement oracle",
}
NOTE = {k: _FE_NOTE for k in TECH}
TABLE["C07"] = lambda: Check("C07", "disc", quick_s=60, rule="one case = one history of environment changes, file-system changes and "
                             "resolutions, each resolution repeated under another directory order; non-trivial: at least one resolution; "
                             "distinct: by hash of all results", components={
                                 "python_frontend": "real code: heir_cli_config, openfhe/config, cpp_compiler, common. Simulated: file tree under "
                                 "/usr, /usr/local, */bazel-*, PATH; directory order; read errors; installation paths"})
TABLE["C08"] = lambda: Check("C08", "launch", quick_s=60, rule="one case = one fresh interpreter running a history of launcher calls, or of "
                             "imports and uses with changing sets of installed extras; non-trivial: more than one step",
                             components={"python_frontend": "real code: heir/__init__, _extras, entrypoints, pipeline.compile, numba import. "
                                         "Simulated: exec*, module lookup of optional dependencies, file layout of the installed package"})
TECH["C07"] = "histories of environment and file-tree states under seeded directory orders and read errors; reference resolver"
TECH["C08"] = "simulated exec and module lookup with failures; histories of installed extras"
NOTE["C07"] = "Seeded exploration. Trusted: the reference resolver, written from the docstrings; os-level interposition in Python."
NOTE["C08"] = "Seeded exploration. Trusted: interposed os.exec*, PathFinder; CPython's import system is real."

_SC = ("real code: the script itself and the standard library above os/open/subprocess. Simulated: file operations (faults, order of "
       "directory entries), spawned programs, network, clock, sleeping, interrupts")
_SRULE = ("one case = one generated history of script runs over a changing file tree / repository / service with injected faults; "
          "non-trivial: a fault fired or more than one run; distinct: by hash of every run's output and the final tree")


def _script(prop, sim, q, host=None, extra=""):
  kw = {"host": host} if host else {}
  TABLE[prop] = lambda: Check(prop, sim, quick_s=q, rule=_SRULE + extra, components={"scripts": _SC}, **kw)


_script("C09", "version", 45)
_script("C10", "torchci", 60)
_script("C11", "mdfoot", 50)
_script("C12", "gendocs", 60, PairHost, "; every case is run in two processes with different hash seeds and directory orders")
_script("C13", "scaffold", 60)
_script("C14", "e2e", 50)
_script("C15", "stats", 50)
TECH["C09"] = "release histories over a simulated package index and clock; failing, truncated and wrong responses"
TECH["C10"] = "simulated docker/torch/heir-opt tool runs with failures, kills and stale artefacts; report-vs-world oracle"
TECH["C11"] = "histories of footer runs with read/write/rename faults, kills and interrupts; content and footer oracle"
TECH["C12"] = "twin executions with other hash seeds and directory orders, plus failing example tools; byte comparison"
TECH["C13"] = "scaffolding histories with faults and interrupts at every file operation; tree conservation oracle"
TECH["C14"] = "simulated bazel over a workspace model with failing, cut and noisy queries; command-vs-target oracle"
TECH["C15"] = "simulated paged commit service growing and failing during the run; count-exactly-once oracle"
for _k in ("C09", "C10", "C11", "C12", "C13", "C14", "C15"):
  NOTE[_k] = "Seeded exploration. Trusted: the service/tool/file-tree models and the Python-level interposition of os, open, subprocess and sockets."

_CX = ("real code: the listed C++ of /repo, compiled for the check. Simulated: the memory allocator (which freed block is handed "
       "out again and where new ones lie), vertex addresses")
_CRULE = ("one case = one generated history of operations in a process of its own under a seeded allocator; non-trivial: more than five "
          "operations; distinct: by hash of every answer")
TABLE["C22"] = lambda: Check("C22", "graph", quick_s=50, builder=cxxbuild.graph, rule=_CRULE, components={"lib/Utils/Graph": _CX})
TABLE["C23"] = lambda: Check("C23", "dag", quick_s=50, builder=cxxbuild.dag, rule=_CRULE, components={"lib/Kernel, lib/Analysis/RotationAnalysis": _CX})
TECH["C22"] = "mutation and query histories against a reference graph; twin graphs with other vertex addresses"
TECH["C23"] = "build/evaluate/drop histories under an allocator that reuses freed nodes; reference evaluator and fresh-visitor oracle"
NOTE["C22"] = "Seeded exploration. Trusted: the reference graph model and the compiler used to build the harness."
NOTE["C23"] = "Seeded exploration. Trusted: the reference evaluator; values are kept inside int range."

_MX = ("real code: the listed passes of /repo, compiled for the check, on the installed MLIR (parser, verifier, pass manager, rewrite "
       "driver, dialects). Simulated: malloc (which freed block is handed out, where new ones lie), thread creation, mutexes, "
       "condition variables, the thread pool and the choice of the running thread at lock operations, allocations and basic blocks. "
       "Passes of /repo that do not build here are absent")
TABLE["C20"] = lambda: Check("C20", "passes", quick_s=75, builder=cxxbuild.mlir, rule="one case = one compiler process: contexts, generated "
                             "modules, pipelines of passes on 1-6 simulated worker threads, compared with each module's own history alone in a "
                             "fresh single-threaded process; non-trivial: threads interleaved or more than two operations; distinct: by hash of all results",
                             components={"lib/Transforms, lib/Target/CompilationTarget": _MX})
TECH["C20"] = "compiler processes under seeded thread schedules, allocators and histories; fresh single-threaded process as reference"
NOTE["C20"] = ("Seeded exploration. Trusted: the simulated pthread layer and allocator, the installed MLIR, the compiler used to build the harness. "
               "When a pipeline nested on functions fails, only the failure is compared, since a worker thread stops early by design.")
TABLE["C26"] = lambda: Check("C26", "meaning", quick_s=60, builder=cxxbuild.mlir, rule="one case = one generated module and a history of passes; after "
                             "every pass each function is executed by an interpreter in several environments (coinciding indices, results and writes of "
                             "unknown functions); non-trivial: at least one pass ran; distinct: by hash of all results",
                             components={"lib/Transforms": _MX})
TECH["C26"] = "pass histories under a seeded allocator and scheduler; reference interpreter as oracle before and after every pass"
NOTE["C26"] = ("Seeded exploration. Trusted: the reference interpreter; unknown functions are modelled as deterministic in their arguments and the "
               "call's position; distinct memref values are assumed not to alias.")
_EX = ("real code: lib/Target/TfheRust, TfheRustBool, TfheRustHL, Metadata and the OpenFHE pybind emitter, lib/Dialect/TfheRust*, lib/Utils/Graph and "
       "lib/Analysis/SelectVariableNames of /repo, compiled for the check, on the installed MLIR. Simulated: malloc, the thread pool, the output "
       "stream (chunk sizes)")
TABLE["C21"] = lambda: Check("C21", "emit", quick_s=60, builder=cxxbuild.mlir, rule="one case = one compiler process emitting generated modules again and "
                             "again, in different orders, contexts, heap layouts and output chunk sizes; every emission is compared with the module's own "
                             "in a fresh process and checked for uses before definitions; non-trivial: more than two emissions; distinct: by hash of all texts",
                             components={"lib/Target": _EX})
TECH["C21"] = "emission histories under seeded allocators, output chunk sizes and contexts; fresh process as reference; def-before-use of levels"
NOTE["C21"] = "Seeded exploration. Trusted: the simulated allocator, the installed MLIR, the parser of the emitted text's level structure."
TABLE["C28"] = lambda: Check("C28", "iface", quick_s=60, builder=cxxbuild.mlir, rule="one case = one compiler process describing the interfaces of generated "
                             "modules again and again, in different orders, contexts, heap layouts and chunk sizes, with refused modules between; bindings are "
                             "compiled, registered and called; non-trivial: more than two operations; distinct: by hash of all texts",
                             components={"lib/Target/Metadata, lib/Target/OpenFhePke": _EX, "emitted bindings": "real code: compiled by g++ and run. Stand-ins: "
                                         "pybind11 (records and calls what is registered, models the interpreter lock), the OpenFHE types, the generated header"})
TECH["C28"] = "emission histories under seeded allocators and schedules; metadata read back, bindings executed against a simulated interpreter"
NOTE["C28"] = "Seeded exploration. Trusted: the signature model of the generated modules, the stand-in pybind11, g++. Dynamic memref shapes are not decided."
_SX = ("real code: lib/Dialect/Secret, lib/Analysis/SecretnessAnalysis, lib/Transforms/{AnnotateSecretness,ConvertIfToSelect,ConvertSecret*,Secretize} "
       "of /repo, compiled for the check on the installed MLIR, whose headers are extended by what newer ones have (dst/cxxbuild.py overlay). "
       "Simulated: malloc placement and reuse, the thread pool")
TABLE["C29"] = lambda: Check("C29", "obliv", quick_s=60, builder=cxxbuild.secret, rule="one case = one generated program over secret and public values and a "
                             "history of passes; before and after every pass each function is executed with several public and secret inputs, following "
                             "what is computed from a secret; non-trivial: at least one pass ran; distinct: by hash of all results",
                             components={"lib/Transforms, lib/Analysis/SecretnessAnalysis, lib/Dialect/Secret": _SX})
TECH["C29"] = "pass histories under a seeded allocator and scheduler; reference interpreter with taint as oracle before and after every pass"
NOTE["C29"] = ("Seeded exploration. Trusted: the reference interpreter, the extended MLIR headers. Secrecy is followed along data flow; what a program "
               "learns by having taken a branch is decided by convert-if-to-select itself.")
TABLE["C27"] = lambda: Check("C27", "rustgen", quick_s=80, builder=cxxbuild.rust, rule="one case = one set of generated modules, emitted, compiled by rustc and "
                             "run several times on other inputs with the parallel tasks of every level in other seeded orders; non-trivial: at least one "
                             "program ran; distinct: by hash of all results", components={"lib/Target": _EX, "emitted Rust": "real code: compiled by rustc and run. "
                             "Stand-ins: the tfhe crate (plaintext values) and rayon (tasks run one after another in the seeded order)"})
TECH["C27"] = "emitted programs run under seeded schedules of their parallel tasks; interpreter of the input module as oracle"
NOTE["C27"] = ("Seeded exploration. Trusted: the stand-in crates' signatures and plaintext meaning, the module interpreter, rustc. Tasks of one parallel "
               "iteration run one after another in any order; the type system rules out finer interleavings.")

TABLE["C24"] = lambda: Check("C24", "tblgen", quick_s=60, builder=cxxbuild.tblgen, rule="one case = generated target descriptions, a history of heir-tblgen runs "
                             "over outputs that may exist, with faults at their system calls, and the generated C++ compiled and executed against a model of the "
                             "description; non-trivial: more than one run; distinct: by hash of all answers",
                             components={"lib/Tablegen, lib/Target/CompilationTarget": "real code: heir-tblgen built from /repo, CompilationTarget.cpp with the "
                             "generated code, on the installed LLVM/MLIR. Simulated: open, read, write, close, mmap of files below the scratch directory (interposed)"})
TECH["C24"] = "tool histories with failing, short, interrupted and fatal system calls; execution of the generated code against a description model"
NOTE["C24"] = "Seeded exploration. Trusted: the interposed system calls, the description model, the compiler used for the generated code."
TABLE["C25"] = lambda: Check("C25", "target", quick_s=45, builder=cxxbuild.mlir, rule="one case = one compiler process: registrations, lookups, overrides and passes "
                             "over several modules, contexts and simulated threads, every answer predicted by a model; non-trivial: more than three operations; "
                             "distinct: by hash of all answers", components={"lib/Target/CompilationTarget, lib/Transforms/AnnotateModule": _MX})
TECH["C25"] = "registration, lookup and override histories under seeded thread schedules and allocators; attribute model as oracle"
NOTE["C25"] = "Seeded exploration. Trusted: the model of described values and overrides (parsed from the descriptions), the simulated pthread layer and allocator."
