From fd7def4dbf1e2a088e9caad4f0dd379299b8fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 01/65] fix: draw unique function names atomically

The counter was read and then incremented, so two functions with look-alike
names compiled from different threads could get the same unique name.
---
 frontend/heir/pipeline.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index a8ad936..3e6d8b5 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -1,5 +1,6 @@
 """The compilation pipeline."""
 
+import itertools
 import os
 import pathlib
 import re
@@ -31,7 +32,7 @@ Path = pathlib.Path
 HEIRConfig = heir_cli_config.HEIRConfig
 
 
-_UNIQUE_NAME_COUNTER = 0
+_UNIQUE_NAME_COUNTER = itertools.count()
 
 
 def _get_unique_func_name(func: Callable) -> str:
@@ -41,13 +42,11 @@ def _get_unique_func_name(func: Callable) -> str:
   and sanitize it to be a valid C++ identifier. This is used to avoid name
   collisions when compiling multiple functions with the same name.
   """
-  global _UNIQUE_NAME_COUNTER
   sanitized = re.sub(
       r"[^a-zA-Z0-9_]", "_", f"{func.__module__}_{func.__qualname__}"
   )
-  unique_name = f"{sanitized}_{_UNIQUE_NAME_COUNTER}"
-  _UNIQUE_NAME_COUNTER += 1
-  return unique_name
+  # next() on a count is atomic, so concurrent compiles never share a name.
+  return f"{sanitized}_{next(_UNIQUE_NAME_COUNTER)}"
 
 
 def run_pipeline(
-- 
2.43.0


From 9eab2743889b7963c1e646b7594338f7e3a12137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 02/65] fix: do not share tensor shapes between type
 annotations

numba interns array types, so setting `shape` on one changed the shape of every
other tensor argument of the same rank and element type.
---
 frontend/heir/mlir/types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/mlir/types.py b/frontend/heir/mlir/types.py
index 39a6b8f..440aa58 100644
--- a/frontend/heir/mlir/types.py
+++ b/frontend/heir/mlir/types.py
@@ -255,8 +255,12 @@ def to_numba_type(type: type) -> NumbaType:
       raise TypeError("Nested Tensors are not yet supported.")
     # This is slightly cursed, as numba constructs array types via slice syntax
     # Cf. https://numba.pydata.org/numba-doc/dev/reference/types.html#arrays
-    ty = to_numba_type(inner_type)[(slice(None),) * len(shape)]
-    # We augment the type object with `shape` for the actual sizes
+    array_ty = to_numba_type(inner_type)[(slice(None),) * len(shape)]
+    # We augment the type object with `shape` for the actual sizes. Numba interns
+    # its types, so the object is shared by every array of this rank and element
+    # type: annotate a private copy instead.
+    ty = object.__new__(array_ty.__class__)
+    ty.__dict__.update(array_ty.__dict__)
     ty.shape = shape  # type: ignore
     return ty
 
-- 
2.43.0


From 52b89a5ab54ee6199e777367ca2798e9725773e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 03/65] fix: leave the caller's heir_opt_options list unchanged

Options appended for one compile showed up in the next one.
---
 frontend/heir/pipeline.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index 3e6d8b5..fae738b 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -201,9 +201,9 @@ def run_pipeline(
         f.write(graph)
 
     # Run heir_opt
-    heir_opt_options.append(
+    heir_opt_options = heir_opt_options + [
         "--mlir-print-debuginfo"
-    )  # to preserve location info
+    ]  # to preserve location info
     if debug:
       heir_opt_options.append("--view-op-graph")
       DebugMessage(f"Running heir-opt {' '.join(heir_opt_options)}")
-- 
2.43.0


From 5eb8fb461a3616998744aa2b6cc9b10b42847524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 04/65] fix: report failures of MLIR string and CGGI compiles

A failing heir-opt run on an MLIR string hid its error output behind an
UnboundLocalError, and CGGI without debugging raised a NameError.
---
 frontend/heir/pipeline.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index fae738b..2f364b1 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -75,6 +75,7 @@ def run_pipeline(
 
     # If it's a python function, parse it via Numba/etc
     mlir_raw_textual = ""
+    numba_ir = None
     if isinstance(function_or_mlir_str, Callable):
       numba_ir = compiler.run_frontend(function_or_mlir_str)
       if not isinstance(numba_ir, FunctionIR):
@@ -241,8 +242,8 @@ def run_pipeline(
         opt.startswith("--mlir-to-cggi") for opt in heir_opt_options
     ) and not isinstance(backend, CleartextBackend):
       raise NotImplementedError(
-          "Backend compilation is unsupported for CGGI scheme, check CGGI"
-          f" output at {mlirpath}"
+          "Backend compilation is unsupported for CGGI scheme"
+          + (f", check CGGI output at {mlirpath}" if debug else "")
       )
 
     result = backend.run_backend(
-- 
2.43.0


From 8c7d4e722a53d2182badb71dbe85deabb8209900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 05/65] fix: pass ABC and techmap locations to the tools, not
 to os.environ

Compiles changed the environment of the whole process, so one compile's
configuration reached the tools of another and later configuration lookups.
---
 frontend/heir/heir_cli/heir_cli.py | 14 +++++++++-----
 frontend/heir/pipeline.py          | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/frontend/heir/heir_cli/heir_cli.py b/frontend/heir/heir_cli/heir_cli.py
index 5862cd5..bdd00ed 100644
--- a/frontend/heir/heir_cli/heir_cli.py
+++ b/frontend/heir/heir_cli/heir_cli.py
@@ -39,8 +39,10 @@ class CLIError(Exception):
 
 class CLIBackend:
 
-  def __init__(self, binary_path: str | Path):
+  def __init__(self, binary_path: str | Path, env: dict[str, str] | None = None):
     self.binary_path = binary_path
+    # Variables to set for the binary, on top of this process's environment.
+    self.env = env or {}
 
   def run_binary(self, options, input) -> str:
     """Run the binary on the input.
@@ -58,6 +60,7 @@ class CLIBackend:
         text=True,
         capture_output=True,
         check=False,
+        env={**os.environ, **self.env},
     )
     if completed_process.returncode != 0:
       raise CLIError(
@@ -86,6 +89,7 @@ class CLIBackend:
         text=True,
         capture_output=True,
         check=False,
+        env={**os.environ, **self.env},
     )
     if completed_process.returncode != 0:
       raise CLIError(
@@ -100,12 +104,12 @@ class CLIBackend:
 
 class HeirOptBackend(CLIBackend):
 
-  def __init__(self, binary_path="heir-opt"):
+  def __init__(self, binary_path="heir-opt", env=None):
     """Initialize heir-opt with a path to the heir-opt binary.
 
     If not specified, will assume heir-opt is on the path.
     """
-    super().__init__(binary_path)
+    super().__init__(binary_path, env)
 
   @classmethod
   def from_pip(cls):
@@ -117,12 +121,12 @@ class HeirOptBackend(CLIBackend):
 
 class HeirTranslateBackend(CLIBackend):
 
-  def __init__(self, binary_path="heir-translate"):
+  def __init__(self, binary_path="heir-translate", env=None):
     """Initialize heir-translate with a path to the heir-translate binary.
 
     If not specified, will assume heir-translate is on the path.
     """
-    super().__init__(binary_path)
+    super().__init__(binary_path, env)
 
   @classmethod
   def from_pip(cls):
diff --git a/frontend/heir/pipeline.py b/frontend/heir/pipeline.py
index 2f364b1..1235af3 100644
--- a/frontend/heir/pipeline.py
+++ b/frontend/heir/pipeline.py
@@ -60,11 +60,14 @@ def run_pipeline(
   if not heir_config:
     heir_config = heir_cli_config.from_os_env()
 
-  # Set environment variables from HEIR config
-  os.environ["HEIR_ABC_BINARY"] = os.path.abspath(str(heir_config.abc_path))
-  os.environ["HEIR_YOSYS_SCRIPTS_DIR"] = os.path.abspath(
-      str(heir_config.techmap_dir_path)
-  )
+  # Environment variables for the tools, from HEIR config
+  tool_env = {}
+  if str(heir_config.abc_path):
+    tool_env["HEIR_ABC_BINARY"] = os.path.abspath(str(heir_config.abc_path))
+  if str(heir_config.techmap_dir_path):
+    tool_env["HEIR_YOSYS_SCRIPTS_DIR"] = os.path.abspath(
+        str(heir_config.techmap_dir_path)
+    )
 
   # The temporary workspace dir is so that heir-opt and the backend
   # can have places to write their output files. It is cleaned up once
@@ -146,9 +149,9 @@ def run_pipeline(
       mlir_raw_textual = function_or_mlir_str
 
     # Try to find heir_opt and heir_translate
-    heir_opt = heir_cli.HeirOptBackend(heir_config.heir_opt_path)
+    heir_opt = heir_cli.HeirOptBackend(heir_config.heir_opt_path, env=tool_env)
     heir_translate = heir_cli.HeirTranslateBackend(
-        binary_path=heir_config.heir_translate_path
+        binary_path=heir_config.heir_translate_path, env=tool_env
     )
 
     # If we have a raw MLIR string, we need to ask heir for the function name,
-- 
2.43.0


From d493199a678a2d4e23a59b3175aa461bfbc1a03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 06/65] fix: load each compiled module from its own workspace

Importing by name returned an earlier module for a second MLIR function of the
same name, and every compile left its workspace on sys.path.
---
 frontend/heir/backends/openfhe/backend.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/frontend/heir/backends/openfhe/backend.py b/frontend/heir/backends/openfhe/backend.py
index d24c4c2..54b7acc 100644
--- a/frontend/heir/backends/openfhe/backend.py
+++ b/frontend/heir/backends/openfhe/backend.py
@@ -1,8 +1,7 @@
 """OpenFHE Backend."""
 
-import importlib
+import importlib.util
 import pathlib
-import sys
 
 import colorama
 
@@ -293,9 +292,11 @@ class OpenFHEBackend(BackendInterface):
         arg_printer=debug_printer if debug else None,
     )
 
-    sys.path.append(workspace_dir)
-    importlib.invalidate_caches()
-    bound_module = importlib.import_module(module_name)
+    spec = importlib.util.spec_from_file_location(
+        module_name, pybind_so_filepath
+    )
+    bound_module = importlib.util.module_from_spec(spec)
+    spec.loader.exec_module(bound_module)
 
     def wrap_enc_fn(arg_name, enc_fn, *args, **kwargs):
       return EncValue(arg_name, enc_fn(*args, **kwargs))
-- 
2.43.0


From 4cce2a5d32e47024d661eb898baa1a5ddcb2cfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 07/65] fix: emit loop and branch variables in program order

They were kept in sets of numba variables, which hash by address, so the same
function gave different MLIR from run to run, and a branch on several variables
was rejected or accepted depending on the layout of memory.
---
 frontend/heir/mlir_emitter.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/frontend/heir/mlir_emitter.py b/frontend/heir/mlir_emitter.py
index 6381250..7ed62b5 100644
--- a/frontend/heir/mlir_emitter.py
+++ b/frontend/heir/mlir_emitter.py
@@ -196,8 +196,8 @@ class Loop:
 
 
 def get_ambient_vars(block):
-  # Get vars defined in the ambient scope.
-  vars = set()
+  # Get vars defined in the ambient scope, in program order.
+  vars = {}
   for instr in block.body:
     match type(instr):
       case ir.Assign:
@@ -206,12 +206,13 @@ def get_ambient_vars(block):
         # Defined before the loop block
         if not instr.target.is_temp:
           if instr.target.loc.line < block.loc.line:
-            vars.add(instr.target)
-  return vars
+            vars[instr.target] = None
+  return list(vars)
 
 
 def get_vars_used_after(block, post_dominators, ssa_ir):
-  # Find any vars assigned in the block scopes used in the post dominators.
+  # Find any vars assigned in the block scopes used in the post dominators, in
+  # the order of their first use.
   block_vars = set()
   for instr in block.body:
     match type(instr):
@@ -221,8 +222,8 @@ def get_vars_used_after(block, post_dominators, ssa_ir):
         if not instr.target.is_temp:
           block_vars.add(instr.target)
 
-  vars = set()
-  for id in post_dominators:
+  vars = {}
+  for id in sorted(post_dominators):
     pblock = ssa_ir.blocks[id]
     for instr in pblock.body:
       match type(instr):
@@ -235,7 +236,7 @@ def get_vars_used_after(block, post_dominators, ssa_ir):
               continue
             # var must be defined in the block
             if var in block_vars:
-              vars.add(var)
+              vars[var] = None
   return list(vars)
 
 
@@ -261,15 +262,16 @@ def build_loop_from_call(index, block_id, blocks, cfa):
   assert loop_body.body[0].value == header.phi_var
   iter_var = loop_body.body[0].target
 
-  inits = set()
+  inits = {}
   loop_body_blocks = cfa.graph._loops[header_id].body
   loop_header_blocks = set([l.header for l in cfa.graph._loops.values()])
   loop_body_blocks = loop_body_blocks - loop_header_blocks
 
-  for id in loop_body_blocks:
+  for id in sorted(loop_body_blocks):
     block = blocks[id]
-    ambient_vars = get_ambient_vars(block)
-    [inits.add(var) for var in ambient_vars if var != iter_var]
+    for var in get_ambient_vars(block):
+      if var != iter_var:
+        inits[var] = None
 
   return Loop(
       header_id,
-- 
2.43.0


From 375baec1da29f229e85af7b5ebe0778d2cd74216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:32 +0000
Subject: [PATCH 08/65] fix: pick OpenFHE libraries independently of directory
 order

---
 frontend/heir/backends/openfhe/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/frontend/heir/backends/openfhe/config.py b/frontend/heir/backends/openfhe/config.py
index 35679a5..6fde222 100644
--- a/frontend/heir/backends/openfhe/config.py
+++ b/frontend/heir/backends/openfhe/config.py
@@ -124,7 +124,11 @@ def _resolve_link_libs(lib_dir: os.PathLike | str) -> list[str]:
   pke_lib = None
   binfhe_lib = None
 
-  for p in lib_path.iterdir():
+  # Directories list their entries in any order, so sort them: with several
+  # versions installed, the libraries of the same (last) version are picked.
+  entries = sorted(lib_path.iterdir())
+
+  for p in entries:
     if not p.is_file():
       continue
     name = p.name.lower()
@@ -147,7 +151,7 @@ def _resolve_link_libs(lib_dir: os.PathLike | str) -> list[str]:
     ]
 
   link_libs = []
-  for p in lib_path.iterdir():
+  for p in entries:
     if not p.is_file():
       continue
     name = p.name.lower()
-- 
2.43.0


From eeaef1a1b1ff0499f4123a8ef4e02d99e0489b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:06 +0000
Subject: [PATCH 09/65] fix: recognize normalized dev versions when picking the
 next one

PyPI lists 2026.01.05.dev0 as 2026.1.5.dev0, so the next version computed on
days with a one-digit month or day was always dev0.
---
 scripts/get_version.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/get_version.py b/scripts/get_version.py
index 430754e..01f8ac2 100644
--- a/scripts/get_version.py
+++ b/scripts/get_version.py
@@ -26,8 +26,10 @@ def get_next_dev_version(package_name):
   today = datetime.datetime.now(datetime.timezone.utc).strftime("%Y.%m.%d")
   versions = get_pypi_versions(package_name)
 
-  # Find versions matching today's date and the .dev suffix
-  pattern = re.compile(rf"^{re.escape(today)}\.dev(\d+)$")
+  # Find versions matching today's date and the .dev suffix. Published versions
+  # are normalized, i.e., 2026.04.01.dev0 is listed as 2026.4.1.dev0.
+  date = r"\.".join(f"0*{int(part)}" for part in today.split("."))
+  pattern = re.compile(rf"^{date}\.dev(\d+)$")
   max_dev = -1
 
   for v in versions:
-- 
2.43.0


From 4ab1b7f399e2a3332cde52c533a642ba08a7b13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 10/65] fix: find markdown files whose names git would quote

Without -z, git ls-files quotes names with non-ASCII characters, quotes or
backslashes, and these files were silently skipped.
---
 scripts/disable_mdformat.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/disable_mdformat.py b/scripts/disable_mdformat.py
index 6fa6324..50d5fb9 100644
--- a/scripts/disable_mdformat.py
+++ b/scripts/disable_mdformat.py
@@ -47,6 +47,7 @@ def get_non_ignored_files(root_dir, glob_pattern):
   cmd = [
       "git",
       "ls-files",
+      "-z",
       "--cached",
       "--others",
       "--exclude-standard",
@@ -65,7 +66,7 @@ def get_non_ignored_files(root_dir, glob_pattern):
         check=True,
         encoding="utf-8",
     )
-    file_list = [line for line in result.stdout.splitlines() if line]
+    file_list = [path for path in result.stdout.split("\0") if path]
     return file_list
   except subprocess.CalledProcessError as e:
     print("Error: 'git ls-files' failed.", file=sys.stderr)
-- 
2.43.0


From 1ebd3251578ff5e0d6aa0f209d72ef86368ee532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:58 +0000
Subject: [PATCH 11/65] fix: exit non-zero when a markdown file could not be
 processed

---
 scripts/disable_mdformat.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/disable_mdformat.py b/scripts/disable_mdformat.py
index 50d5fb9..9706eec 100644
--- a/scripts/disable_mdformat.py
+++ b/scripts/disable_mdformat.py
@@ -80,6 +80,7 @@ def add_footer_to_files(root_dir, relative_file_list):
   comment exists anywhere, and appends it if not.
   """
   count = 0
+  failed = 0
   root_path = Path(root_dir)
 
   print(f"Scanning {len(relative_file_list)} files...")
@@ -112,9 +113,10 @@ def add_footer_to_files(root_dir, relative_file_list):
       print(f"Skipping (not utf-8): {rel_path}")
     except Exception as e:
       print(f"Error processing {rel_path}: {e}", file=sys.stderr)
+      failed += 1
 
   print(f"\nDone. Footer added to {count} files.")
-  if count > 0:
+  if count > 0 or failed > 0:
     sys.exit(1)
 
 
-- 
2.43.0


From f0379a5e11e9e813ea4218ba8b96eb263ba3671b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:34 +0000
Subject: [PATCH 12/65] fix: count a commit once when the history grows between
 pages

---
 scripts/author_stats.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/author_stats.py b/scripts/author_stats.py
index 701c7c0..acf7f1d 100644
--- a/scripts/author_stats.py
+++ b/scripts/author_stats.py
@@ -50,6 +50,7 @@ def fetch_commits(repo):
   # headers = {"Authorization": f"token {TOKEN}"}
   params = {"per_page": 100}  # Fetch up to 100 commits per page
   commits = []
+  seen = set()
   page = 0
 
   while url:
@@ -61,7 +62,11 @@ def fetch_commits(repo):
 
     response.raise_for_status()  # Raise an error if the request failed
     data = response.json()
-    commits.extend(data)
+    # Commits pushed since the last request shift the pages, so that they overlap.
+    for commit in data:
+      if commit["sha"] not in seen:
+        seen.add(commit["sha"])
+        commits.append(commit)
 
     # Check if there's another page of results
     if "next" in response.links:
-- 
2.43.0


From 3cc4226f2134089f09ce6e496285e68b52a5903c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:03 +0000
Subject: [PATCH 13/65] fix: one model's undecodable output or failed spawn no
 longer stops the torch coverage run

---
 scripts/torch_ci/entrypoint.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/scripts/torch_ci/entrypoint.py b/scripts/torch_ci/entrypoint.py
index d9b6662..7b54aad 100644
--- a/scripts/torch_ci/entrypoint.py
+++ b/scripts/torch_ci/entrypoint.py
@@ -17,14 +17,19 @@ class CommandExecutor:
   """Executes shell commands, separated by an interface for easier mocking."""
 
   def run(self, cmd, cwd=None):
-    return subprocess.run(
-        cmd,
-        shell=True,
-        capture_output=True,
-        text=True,
-        cwd=cwd,
-        check=False,
-    )
+    try:
+      return subprocess.run(
+          cmd,
+          shell=True,
+          capture_output=True,
+          text=True,
+          errors="replace",
+          cwd=cwd,
+          check=False,
+      )
+    except OSError as e:
+      # One command that cannot be started must not stop the others.
+      return subprocess.CompletedProcess(cmd, 126, "", f"error: {e}")
 
 
 class CoverageRunner:
-- 
2.43.0


From 78666890dd70f2b7e83ec322f2b34989d5df30c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 14/65] fix: never delete a directory the scaffolding script
 did not create

When the directory appeared after the existence check (or a regular file was
in the way), the clean-up removed it.
---
 scripts/templates/templates.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/templates/templates.py b/scripts/templates/templates.py
index 9cdcc8b..9dac8bc 100644
--- a/scripts/templates/templates.py
+++ b/scripts/templates/templates.py
@@ -130,8 +130,8 @@ class CLI:
         templ_lib / "ConversionPass.cpp.jinja": lib_path / f"{pass_name}.cpp",
     }
 
+    try_create_dirs(lib_path, force)
     try:
-      try_create_dirs(lib_path, force)
       copy_all(path_mapping)
 
       render_all(
@@ -197,8 +197,8 @@ class CLI:
         templ_lib / "Passes.td.jinja": lib_path / "Passes.td",
     }
 
+    try_create_dirs(lib_path, force)
     try:
-      try_create_dirs(lib_path, force)
       copy_all(path_mapping)
       render_all(
           lib_path,
@@ -246,8 +246,8 @@ class CLI:
         templ_lib / "Pass.td.jinja": lib_path / f"{pass_name}.td",
     }
 
+    try_create_dirs(lib_path, force)
     try:
-      try_create_dirs(lib_path, force)
       copy_all(path_mapping)
       render_all(
           lib_path,
@@ -327,8 +327,8 @@ class CLI:
           templ_lib / "Ops.cpp.jinja": lib_path / f"{dialect_name}Ops.cpp",
       })
 
+    try_create_dirs(lib_path, force)
     try:
-      try_create_dirs(lib_path, force)
       copy_all(path_mapping)
       render_all(
           lib_path,
-- 
2.43.0


From 98e7051f3719667241b400f6b588bafb0f23123c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:33 +0000
Subject: [PATCH 15/65] fix: default new_transform's pass flag instead of
 renaming the pass

---
 scripts/templates/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/templates/templates.py b/scripts/templates/templates.py
index 9dac8bc..dae6d03 100644
--- a/scripts/templates/templates.py
+++ b/scripts/templates/templates.py
@@ -230,7 +230,7 @@ class CLI:
       raise ValueError("pass_name must be provided")
 
     if not pass_flag:
-      pass_name = f"{pass_name.lower()}"
+      pass_flag = f"{pass_name.lower()}"
 
     lib_path = self.root / "lib" / "Transforms" / pass_name
 
-- 
2.43.0


From cfa52ac69c54cf5150b246b8db95626350a95c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:16 +0000
Subject: [PATCH 16/65] fix: generate documentation independently of directory
 and set order

---
 scripts/docs/copy_tblgen_files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scripts/docs/copy_tblgen_files.py b/scripts/docs/copy_tblgen_files.py
index 64d8fc7..fe337d8 100644
--- a/scripts/docs/copy_tblgen_files.py
+++ b/scripts/docs/copy_tblgen_files.py
@@ -102,7 +102,7 @@ if __name__ == "__main__":
   conversion_files = glob.glob(
       f"{SRC_BASE}/Dialect/**/Conversions/**/*.md", recursive=True
   )
-  for src_path in set(passes_files + conversion_files):
+  for src_path in sorted(set(passes_files + conversion_files)):
     print(src_path)
     with open(src_path, "r") as src_file:
       with open(PASSES_FILE, "a") as dest_file:
@@ -125,7 +125,9 @@ if __name__ == "__main__":
     dest_path = f"{DEST_BASE}/Dialects/{filename}"
 
     markdown_files = {}
-    for src_path in glob.glob(f"{dialect_dir}/IR/**/*.md", recursive=True):
+    for src_path in sorted(
+        glob.glob(f"{dialect_dir}/IR/**/*.md", recursive=True)
+    ):
       markdown_files[src_path] = True
       print(f"Adding {src_path} to the queue")
 
@@ -145,7 +147,7 @@ github_url: https://github.com/google/heir/edit/main/lib/Dialect/{dialect_name}/
 
     for index, group in enumerate(groups):
       search_pattern = f"{dialect_dir}/IR/*{group}.md"
-      for src_path in glob.glob(search_pattern):
+      for src_path in sorted(glob.glob(search_pattern)):
         if not os.path.isfile(src_path):
           continue
 
-- 
2.43.0


From 7f7411cddbb41e6d28493531bafe21641fa1ff75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:16 +0000
Subject: [PATCH 17/65] fix: fail when any stage of a documented example's
 pipeline fails

---
 scripts/docs/lit_to_doc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/docs/lit_to_doc.py b/scripts/docs/lit_to_doc.py
index e8236f8..05a9e83 100644
--- a/scripts/docs/lit_to_doc.py
+++ b/scripts/docs/lit_to_doc.py
@@ -56,8 +56,12 @@ def lit_to_doc(
   if not is_command_executable("heir-opt"):
     command = command.replace("heir-opt", "bazel-bin/tools/heir-opt")
 
+  # pipefail, so that a failure anywhere in a pipeline is not ignored.
   result = subprocess.run(
-      command, shell=True, capture_output=True, text=True, check=True
+      ["bash", "-o", "pipefail", "-c", command],
+      capture_output=True,
+      text=True,
+      check=True,
   )
   mlir_output = result.stdout.strip()
 
-- 
2.43.0


From b4b378fdfcc7f17bbd3d8af3162b688185afc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 18/65] fix: do not build a command from a failed bazel query's
 output

---
 scripts/e2e_to_bazel_lib.py | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/scripts/e2e_to_bazel_lib.py b/scripts/e2e_to_bazel_lib.py
index b29c542..fbb195a 100644
--- a/scripts/e2e_to_bazel_lib.py
+++ b/scripts/e2e_to_bazel_lib.py
@@ -9,7 +9,7 @@ DEFAULT_TOOL_PREFIX = "bazel run --noallow_analysis_cache_discard //tools"
 
 
 def run_blaze_query(query_str, options=None):
-  """Runs a blaze query and returns the output."""
+  """Runs a blaze query and returns the output, or None if it failed."""
   cmd = ["bazel", "query"]
   if options:
     cmd.extend(options)
@@ -23,10 +23,21 @@ def run_blaze_query(query_str, options=None):
     if result.returncode not in [0, 3]:
       print(f"Warning: blaze query failed with exit code {result.returncode}")
       print(result.stderr)
+      # What a failed query printed may be incomplete.
+      return None
     return result.stdout
   except Exception as e:
     print(f"Error running blaze query: {e}")
-    return ""
+    return None
+
+
+def query_targets(query):
+  """Returns the targets a query lists, or None if the query failed."""
+  output = run_blaze_query(query)
+  if output is None:
+    return None
+  lines = output.strip().split("\n")
+  return [l for l in lines if l.startswith("//")]
 
 
 def path_to_label(path, base_path=""):
@@ -83,9 +94,7 @@ def get_heir_opt_target(target_or_path, base_path=""):
 
   if label.endswith(".mlir"):
     query = f"kind(heir_opt, rdeps(//tests/Examples/..., {label}))"  # fmt: skip
-    output = run_blaze_query(query)
-    lines = output.strip().split("\n")
-    targets = [l for l in lines if l.startswith("//")]
+    targets = query_targets(query)
     if targets:
       return targets[0]
     return None
@@ -102,9 +111,7 @@ def get_heir_opt_target(target_or_path, base_path=""):
     if not label.startswith("//"):
       label = "//" + label
     query = f"kind(heir_opt, {label}:*)"
-    output = run_blaze_query(query)
-    lines = output.strip().split("\n")
-    targets = [l for l in lines if l.startswith("//")]
+    targets = query_targets(query)
     if targets:
       return targets[0]
     return None
@@ -113,17 +120,13 @@ def get_heir_opt_target(target_or_path, base_path=""):
     # Try to find heir_opt targets in the same package first
     pkg = target_or_path.split(":")[0]
     query = f"kind(heir_opt, {pkg}:*)"
-    output = run_blaze_query(query)
-    lines = output.strip().split("\n")
-    targets = [l for l in lines if l.startswith("//")]
+    targets = query_targets(query)
     if targets:
       return targets[0]
 
     # Fallback: search deps
     query = f"kind(heir_opt, deps({target_or_path}))"
-    output = run_blaze_query(query)
-    lines = output.strip().split("\n")
-    targets = [l for l in lines if l.startswith("//")]
+    targets = query_targets(query)
     if targets:
       return targets[0]
     return None
-- 
2.43.0


From f078d29f82717dc5e5b59d1aac60c90165ad7fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 19/65] fix: prefer the heir_opt rule a test depends on over
 its package's first

---
 scripts/e2e_to_bazel_lib.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/scripts/e2e_to_bazel_lib.py b/scripts/e2e_to_bazel_lib.py
index fbb195a..32486b0 100644
--- a/scripts/e2e_to_bazel_lib.py
+++ b/scripts/e2e_to_bazel_lib.py
@@ -117,15 +117,17 @@ def get_heir_opt_target(target_or_path, base_path=""):
     return None
 
   if target_or_path.startswith("//"):
-    # Try to find heir_opt targets in the same package first
-    pkg = target_or_path.split(":")[0]
-    query = f"kind(heir_opt, {pkg}:*)"
+    # The rule the target was built from
+    query = f"kind(heir_opt, deps({target_or_path}))"
     targets = query_targets(query)
     if targets:
       return targets[0]
+    if targets is None:
+      return None
 
-    # Fallback: search deps
-    query = f"kind(heir_opt, deps({target_or_path}))"
+    # Fallback: any heir_opt target in the same package
+    pkg = target_or_path.split(":")[0]
+    query = f"kind(heir_opt, {pkg}:*)"
     targets = query_targets(query)
     if targets:
       return targets[0]
-- 
2.43.0


From 239be16c17f18c094947bef62f920f0339f4fe23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 20/65] fix: quote the input path in the printed heir-opt
 command

---
 scripts/e2e_to_bazel_lib.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/e2e_to_bazel_lib.py b/scripts/e2e_to_bazel_lib.py
index 32486b0..f94b4de 100644
--- a/scripts/e2e_to_bazel_lib.py
+++ b/scripts/e2e_to_bazel_lib.py
@@ -200,7 +200,7 @@ def e2e_to_bazel(target_or_path, tool_prefix=DEFAULT_TOOL_PREFIX):
         src_path = os.path.join(workspace_root, src_path)
 
     flags_str = " ".join(shlex.quote(f) for f in pass_flags)
-    command = f"{tool_prefix}:heir-opt -- {flags_str} {src_path}"
+    command = f"{tool_prefix}:heir-opt -- {flags_str} {shlex.quote(src_path)}"
     print(command)
 
   except Exception as e:
-- 
2.43.0


From 130149bd9265ff9fed0ac83fbffb63625012ded9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:23 +0000
Subject: [PATCH 21/65] fix: keep the continued part of a redirected RUN line

---
 scripts/lit_to_bazel_lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/lit_to_bazel_lib.py b/scripts/lit_to_bazel_lib.py
index 4d0a755..8d08c67 100644
--- a/scripts/lit_to_bazel_lib.py
+++ b/scripts/lit_to_bazel_lib.py
@@ -48,7 +48,8 @@ def convert_to_run_commands(run_lines):
 
     # redirecting to a file implicitly ends the command on that line
     if OUT_REDIRECT in line or IN_REDIRECT in line:
-      cmds.append(line.strip())
+      current_command += " " + line.strip()
+      cmds.append(current_command.strip())
       current_command = ""
       continue
 
-- 
2.43.0


From 51784c4c6ffe264c1884960d131494965f7c66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 22/65] fix: do not keep edges cached by a merge function
 across a contraction

---
 lib/Utils/Graph/Graph.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index c01c705..4c25a72 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -117,10 +117,12 @@ class Graph {
                     std::function<void(V&, const V&)> mergeFn = nullptr) {
     if (!hasEdge(source, target)) return false;
 
-    invalidateCachedEdges();
     // Merge target into source
     if (mergeFn) mergeFn(source, target);
 
+    // After mergeFn, which may query the graph and fill the cache.
+    invalidateCachedEdges();
+
     // Redirect all outgoing edges from target to source
     for (V succ : edgesOutOf(target)) {
       // Avoid creating a edge to self
-- 
2.43.0


From 2f3d37f7cc3fd04dcdf55698fcc0670c5b40637c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 23/65] fix: contracting a self-loop must not delete the vertex

---
 lib/Utils/Graph/Graph.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 4c25a72..dac5071 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -102,7 +102,7 @@ class Graph {
 
   // Contract the edge from source to target, thus merging target into source
   // and removing target from the graph. Returns false if the edge doesn't
-  // exist. The optional mergeFn is a functor that takes the source and target
+  // exist or is a self-loop. The optional mergeFn is a functor that takes the source and target
   // vertex and is expected to perform custom logic on the vertices that need to
   // be updated as a result of the merge, and is called before the graph is
   // modified. It is called exactly once for the contracted edge if provided.
@@ -115,7 +115,7 @@ class Graph {
   // information from both vertices before v2 is removed from the graph.
   bool contractEdge(V source, V target,
                     std::function<void(V&, const V&)> mergeFn = nullptr) {
-    if (!hasEdge(source, target)) return false;
+    if (source == target || !hasEdge(source, target)) return false;
 
     // Merge target into source
     if (mergeFn) mergeFn(source, target);
@@ -247,8 +247,7 @@ class Graph {
         for (const V& u : aliveSnapShot) {
           if (!alive.count(u)) continue;
           for (V v : edgesOutOf(u)) {
-            if (alive.count(v)) {
-              contractEdge(u, v, mergeFn);
+            if (alive.count(v) && contractEdge(u, v, mergeFn)) {
               alive.erase(v);
             }
           }
-- 
2.43.0


From cbe198c10960edf46954dbef16b233c63d4c587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:41 +0000
Subject: [PATCH 24/65] fix: follow predecessors when reporting a shortest path

---
 lib/Utils/Graph/Graph.h | 80 ++++++++++++++++-------------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index dac5071..5e8509d 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -267,8 +267,8 @@ class Graph {
         if (src == sink) continue;  // isolated node is both source and sink
         auto res = getShortestPath(src, sink);
         if (succeeded(res)) {
-          if (result.size() < res.size()) {
-            result = res;
+          if (result.size() < res->size()) {
+            result = *res;
           }
         }
       }
@@ -434,63 +434,43 @@ class Graph {
     return getShortestPath(start, end, weight_fn);
   }
 
-  // assume uniform weight for edges; alternatively provide weight matrix
+  // Shortest path by the given (non-negative) edge weights, using Dijkstra's
+  // algorithm.
   FailureOr<std::vector<V>> getShortestPath(
       V start, V end, std::function<uint64_t(V, V)> weight_fn) {
-    std::vector<V> path;
-    std::queue<V> q;
-
-    std::set<V> visited;
     std::map<V, uint64_t> distance;  // from @start node
-    std::map<V, V> linkback;
-    for (auto& v : vertices) {
-      distance[v] = std::numeric_limits<uint64_t>::max();
-    }
-    distance[start] = 0;
-
-    q.push(start);
-
-    while (!q.empty()) {
-      V curr = q.front();
-      q.pop();
-
-      if (curr == end) {
-        distance[curr] = 0;
-        break;
-      }
-
-      if (!visited.insert(curr).second) {
-        // backedge
-        continue;
-      }
+    std::map<V, V> linkback;         // predecessor on the shortest path
+    std::set<V> visited;
+    std::set<std::pair<uint64_t, V>> active;
 
-      // nothing to reduce on this edge.
-      if (!outEdges.count(curr)) {
-        continue;
-      }
+    distance[start] = 0;
+    active.insert({0, start});
 
-      for (auto& next : outEdges.at(curr)) {
-        if (distance[next] > distance[curr] + weight_fn(curr, next)) {
-          linkback[curr] = next;
-          distance[next] = distance[curr] + weight_fn(curr, next);
-        } else if (distance[curr] == 0) {
-          linkback[curr] = next;
+    while (!active.empty()) {
+      V curr = active.begin()->second;
+      active.erase(active.begin());
+      visited.insert(curr);
+      if (curr == end) break;
+
+      for (const V& next : edgesOutOf(curr)) {
+        if (visited.count(next)) continue;
+        uint64_t candidate = distance.at(curr) + weight_fn(curr, next);
+        auto known = distance.find(next);
+        if (known != distance.end()) {
+          if (known->second <= candidate) continue;
+          active.erase({known->second, next});
         }
-        q.push(next);
+        distance[next] = candidate;
+        linkback[next] = curr;
+        active.insert({candidate, next});
       }
     }
 
-    if (distance[end] != std::numeric_limits<uint64_t>::max()) {
-      // some path found
-      auto curr = start;
-      while (curr != end) {
-        path.push_back(curr);
-        curr = linkback[curr];
-      }
-      path.push_back(end);
-    } else {
-      return failure();
-    }
+    if (!visited.count(end)) return failure();
+
+    std::vector<V> path = {end};
+    while (path.back() != start) path.push_back(linkback.at(path.back()));
+    std::reverse(path.begin(), path.end());
     return path;
   }
 
-- 
2.43.0


From 9bd0647d7fcafe59c1aa434eedf8321dd076ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 25/65] fix: keep cached DAG nodes alive while their results
 are cached

The visitor cache is keyed by raw node addresses. A visitor that outlives a
kernel returned the cached result of a destroyed node for an unrelated new
node allocated at the same address.
---
 lib/Kernel/ArithmeticDag.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/Kernel/ArithmeticDag.h b/lib/Kernel/ArithmeticDag.h
index 8c66f3b..e5e3460 100644
--- a/lib/Kernel/ArithmeticDag.h
+++ b/lib/Kernel/ArithmeticDag.h
@@ -520,7 +520,7 @@ class CachingVisitor {
 
     const auto* nodePtr = node.get();
     if (auto it = cache.find(nodePtr); it != cache.end()) {
-      return it->second;
+      return it->second.result;
     }
 
     ResultType result = std::visit(
@@ -528,7 +528,7 @@ class CachingVisitor {
           return (*this)(n, std::forward<ExtraArgs>(args)...);
         },
         node->node_variant);
-    cache[nodePtr] = result;
+    cache.insert_or_assign(nodePtr, CacheEntry{node, result});
     return result;
   }
 
@@ -732,7 +732,14 @@ class CachingVisitor {
   }
 
  private:
-  std::unordered_map<const ArithmeticDagNode<T>*, ResultType> cache;
+  // Each entry holds on to its node, so that the address used as the key cannot
+  // be reused by another node while the entry exists.
+  struct CacheEntry {
+    NodePtr node;
+    ResultType result;
+  };
+
+  std::unordered_map<const ArithmeticDagNode<T>*, CacheEntry> cache;
 };
 
 }  // namespace kernel
-- 
2.43.0


From adb1d6ee23e41d8d392306ef214fea88228e48bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 26/65] fix: evaluate floor division of vectors and of zero

The scalar case was selected by the value of the scalar instead of by its
presence, dereferencing a null pointer for vector operands and asserting for
a zero scalar.
---
 lib/Kernel/EvalVisitor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Kernel/EvalVisitor.cpp b/lib/Kernel/EvalVisitor.cpp
index cfe710b..54dc8e2 100644
--- a/lib/Kernel/EvalVisitor.cpp
+++ b/lib/Kernel/EvalVisitor.cpp
@@ -139,7 +139,7 @@ EvalResults EvalVisitor::operator()(const FloorDivNode<LiteralValue>& node) {
 
   // Scalar case
   const auto* lScalar = std::get_if<int>(&lVal);
-  if (*lScalar) {
+  if (lScalar) {
     return {LiteralValue(*lScalar / node.divisor)};
   }
 
-- 
2.43.0


From cafac4d7c12abad52abf9260ce2671240e0a840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 27/65] fix: count the last partial step of a loop in the
 rotation count

A loop whose step does not divide its range runs ceil(range / step) times,
and one with an empty range does not run at all.
---
 lib/Kernel/RotationCountVisitor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Kernel/RotationCountVisitor.cpp b/lib/Kernel/RotationCountVisitor.cpp
index 600fbb3..14f269d 100644
--- a/lib/Kernel/RotationCountVisitor.cpp
+++ b/lib/Kernel/RotationCountVisitor.cpp
@@ -266,7 +266,12 @@ int64_t RotationCountVisitor::operator()(
   nodeSecretStatus[thisNode] = initIsSecret || bodyIsSecret;
 
   // Total rotations = init + body rotations * number of iterations
-  return initCount + bodyCount * ((node.upper - node.lower) / node.step);
+  int64_t iterations = 0;
+  if (node.upper > node.lower) {
+    iterations =
+        (int64_t{node.upper} - node.lower + node.step - 1) / node.step;
+  }
+  return initCount + bodyCount * iterations;
 }
 
 int64_t RotationCountVisitor::operator()(const SplatNode& node) {
-- 
2.43.0


From 0ed52805497d9f8e30920560f7d933e3907f7f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:31 +0000
Subject: [PATCH 28/65] fix: drop self-loops when condensing a graph

condenseGraph promises an acyclic result, but a vertex kept an edge to itself.
---
 lib/Utils/Graph/Graph.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Utils/Graph/Graph.h b/lib/Utils/Graph/Graph.h
index 5e8509d..e0c48ff 100644
--- a/lib/Utils/Graph/Graph.h
+++ b/lib/Utils/Graph/Graph.h
@@ -254,6 +254,15 @@ class Graph {
         }
       }
     }
+
+    // A vertex with an edge to itself is a cycle, too.
+    for (const V& v : vertices) {
+      if (!hasEdge(v, v)) continue;
+      invalidateCachedEdges();
+      outEdges[v].erase(v);
+      inEdges[v].erase(v);
+      weights.erase({v, v});
+    }
   }
 
   FailureOr<std::vector<V>> getLongestSourceToSinkPath() {
-- 
2.43.0


From dbf222ec7c20bd4c2084ed484381ef2651ce0c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 29/65] fix: only forward or drop a store if nothing between
 may touch its element

Operations between the store and the load (or the later store) were
ignored if they accessed the same memref at a different SSA index, which
may have the same value at run time, or accessed it by anything but
memref.load and memref.store.
---
 .../ForwardStoreToLoad/ForwardStoreToLoad.cpp | 58 ++++++++++++++-----
 1 file changed, 44 insertions(+), 14 deletions(-)

diff --git a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
index 7e2fa72..0e0d007 100644
--- a/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
+++ b/lib/Transforms/ForwardStoreToLoad/ForwardStoreToLoad.cpp
@@ -7,10 +7,12 @@
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/Utils.h"      // from @llvm-project
 #include "mlir/include/mlir/Dialect/MemRef/IR/MemRef.h"  // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
 #include "mlir/include/mlir/IR/ValueRange.h"             // from @llvm-project
+#include "mlir/include/mlir/Interfaces/SideEffectInterfaces.h"  // from @llvm-project
 #include "mlir/include/mlir/Support/LLVM.h"              // from @llvm-project
 #include "mlir/include/mlir/Support/LogicalResult.h"     // from @llvm-project
 #include "mlir/include/mlir/Transforms/GreedyPatternRewriteDriver.h"  // from @llvm-project
@@ -69,6 +71,38 @@ class AffineLoadLowering : public OpRewritePattern<affine::AffineLoadOp> {
   }
 };
 
+/// Returns true if the two lists of indices cannot refer to the same element,
+/// i.e., in some dimension both are constants and the constants differ.
+/// Different SSA values may still have the same value at run time.
+static bool areDistinctIndices(ValueRange lhs, ValueRange rhs) {
+  for (auto [l, r] : llvm::zip(lhs, rhs)) {
+    APInt lhsConst, rhsConst;
+    if (matchPattern(l, m_ConstantInt(&lhsConst)) &&
+        matchPattern(r, m_ConstantInt(&rhsConst)) && lhsConst != rhsConst)
+      return true;
+  }
+  return false;
+}
+
+/// Returns true if `op` may have effect `EffectTy` on the element of `memref`
+/// at `indices`. Distinct memref values are assumed not to alias.
+template <typename EffectTy>
+static bool mayAffectElement(Operation* op, Value memref, ValueRange indices) {
+  if (!llvm::is_contained(op->getOperands(), memref)) return false;
+
+  if (auto storeOp = dyn_cast<memref::StoreOp>(op)) {
+    // The memref may also be the value stored (in a memref of memrefs).
+    if (storeOp.getValueToStore() != memref &&
+        areDistinctIndices(storeOp.getIndices(), indices))
+      return false;
+  } else if (auto loadOp = dyn_cast<memref::LoadOp>(op)) {
+    if (areDistinctIndices(loadOp.getIndices(), indices)) return false;
+  }
+
+  auto effectOp = dyn_cast<MemoryEffectOpInterface>(op);
+  return !effectOp || effectOp.hasEffect<EffectTy>();
+}
+
 bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                                memref::LoadOp& loadOp) const {
   if (!dominanceInfo.properlyDominates(potentialStore, loadOp.getOperation())) {
@@ -104,13 +138,11 @@ bool ForwardSingleStoreToLoad::isForwardableOp(Operation* potentialStore,
                                        "store and load op\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::StoreOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op stores to the same index\n");
-              return false;
-            }
+          if (mayAffectElement<MemoryEffects::Write>(
+                  currentNode, storeOp.getMemRef(), storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may store to the same index\n");
+            return false;
           }
         }
 
@@ -197,13 +229,11 @@ bool RemoveUnusedStore::isPostDominated(Operation* potentialOp,
             LLVM_DEBUG(llvm::dbgs() << "an intermediate load op was found\n");
             return false;
           }
-          if (auto op = dyn_cast<memref::LoadOp>(currentNode)) {
-            if (op.getMemRef() == storeOp.getMemRef() &&
-                op.getIndices() == storeIndices) {
-              LLVM_DEBUG(llvm::dbgs()
-                         << "an intermediate op loads at the same index\n");
-              return false;
-            }
+          if (mayAffectElement<MemoryEffects::Read>(
+                  currentNode, storeOp.getMemRef(), storeIndices)) {
+            LLVM_DEBUG(llvm::dbgs()
+                       << "an intermediate op may load at the same index\n");
+            return false;
           }
         }
 
-- 
2.43.0


From 8fc1316d4be982d743721ea59e9a375b5022c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 30/65] fix: do not forward past an insert whose indices may be
 equal

An insertion with different SSA indices was skipped although the indices
may have the same value at run time.
---
 .../ForwardInsertToExtract.cpp                   | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
index fe33d5e..79436b6 100644
--- a/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
+++ b/lib/Transforms/ForwardInsertToExtract/ForwardInsertToExtract.cpp
@@ -59,6 +59,22 @@ FailureOr<OpFoldResult> ForwardSingleInsertToExtract::getValueAtIndex(
               return getAsOpFoldResult(insertOp.getScalar());
             }
 
+            // Different index values may still be equal at run time, so the
+            // insertion can only be skipped if some dimension has two
+            // different constants.
+            if (llvm::none_of(
+                    llvm::zip(insertIndices, indices), [](auto indexPair) {
+                      auto [insertIndex, index] = indexPair;
+                      auto insertConst = getConstantIntValue(insertIndex);
+                      auto indexConst = getConstantIntValue(index);
+                      return insertConst && indexConst &&
+                             *insertConst != *indexConst;
+                    })) {
+              LLVM_DEBUG(llvm::dbgs()
+                         << "insert and extract op may have equal indices\n");
+              return failure();
+            }
+
             LLVM_DEBUG(llvm::dbgs()
                        << "insert and extract op do not have matching "
                           "indices, continuing to defining op\n");
-- 
2.43.0


From 3dab70b20f22d1a4fc9a82bfd36de3806a97638d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 31/65] fix: emit the operations of a level in program order

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 2c42c39..aee0c0f 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -185,6 +185,13 @@ LogicalResult TfheRustEmitter::emitBlock(::mlir::Operation* op, int batch) {
       llvm_unreachable("Only possible failure is a cycle in the SSA graph!");
     }
     auto levels = sortedGraph.value();
+    // The graph orders its vertices by pointer value; emit each level in
+    // program order so that the output does not depend on memory layout.
+    for (auto& level : levels) {
+      llvm::sort(level, [](Operation* a, Operation* b) {
+        return a->isBeforeInBlock(b);
+      });
+    }
     // Print lists of operations per level.
     for (size_t level = 0; level < levels.size(); ++level) {
       os << "static LEVEL_" << batch << "_" << level
-- 
2.43.0


From bb5519b37cd6c35d0d65187c0c77509c362f9551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 32/65] fix: keep the default ciphertext width of the HL
 emitter per emission

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 8 ++------
 lib/Target/TfheRustHL/TfheRustHLEmitter.h   | 4 ++++
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 8de9c9b..b525d04 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -75,10 +75,6 @@ FailureOr<DenseElementsAttr> getConstantGlobalData(memref::GetGlobalOp op) {
 
 }  // namespace
 
-// Global Variable
-// Here the input size of the function arguments is stored
-int16_t DefaultTfheRustHLBitWidth = 32;
-
 void registerToTfheRustHLTranslation() {
   TranslateFromMLIRRegistration reg(
       "emit-tfhe-rust-hl", "translate the tfhe-rs dialect to HL Rust code",
@@ -150,7 +146,7 @@ LogicalResult TfheRustHLEmitter::printOperation(ModuleOp moduleOp) {
     for (Type resultType : op->getResultTypes()) {
       if (resultType.hasTrait<EncryptedInteger>()) {
         auto size = getTfheRustBitWidth(resultType);
-        DefaultTfheRustHLBitWidth = size;
+        defaultBitWidth = size;
 
         os << "type Ciphertext = tfhe::FheUint<tfhe::FheUint" << size
            << "Id>; \n\n";
@@ -862,7 +858,7 @@ FailureOr<std::string> TfheRustHLEmitter::convertType(Type type) {
 
   if (type.hasTrait<EncryptedInteger>()) {
     auto ctxtWidth = getTfheRustBitWidth(type);
-    if (ctxtWidth == DefaultTfheRustHLBitWidth) {
+    if (ctxtWidth == defaultBitWidth) {
       return std::string("Ciphertext");
     }
     return "tfhe::FheUint<tfhe::FheUint" + std::to_string(ctxtWidth) + "Id>";
diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.h b/lib/Target/TfheRustHL/TfheRustHLEmitter.h
index ab2de1a..2809c1c 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.h
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.h
@@ -46,6 +46,10 @@ class TfheRustHLEmitter {
   /// values.
   SelectVariableNames* variableNames;
 
+  /// The bit width of the ciphertext type that the emitted module aliases as
+  /// `Ciphertext`.
+  int16_t defaultBitWidth = 32;
+
   // Functions for printing individual ops
   LogicalResult printOperation(::mlir::ModuleOp op);
   LogicalResult printOperation(::mlir::func::FuncOp op);
-- 
2.43.0


From 16c23a2edad3d34ad36074748c375ee52aa81d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 33/65] fix: do not crash in the tfhe-rs emitter on stored
 function arguments

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index aee0c0f..9c6f615 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -61,7 +61,7 @@ namespace tfhe_rust {
 namespace {
 
 bool isLevelledOp(Operation* op) {
-  return isa<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
+  return isa_and_nonnull<ApplyLookupTableOp, AddOp, ScalarLeftShiftOp>(op);
 }
 
 bool usedByLevelledOp(Value value) {
@@ -818,8 +818,9 @@ LogicalResult TfheRustEmitter::printOperation(memref::StoreOp op) {
                       variableNames->getIntForValue(op.getValueToStore()));
   } else if (isa<tfhe_rust::TfheRustDialect>(
                  op.getValueToStore().getType().getDialect()) &&
-             !isa<tfhe_rust::TfheRustDialect>(
-                 op.getValueToStore().getDefiningOp()->getDialect())) {
+             (isa<BlockArgument>(op.getValueToStore()) ||
+              !isa<tfhe_rust::TfheRustDialect>(
+                  op.getValueToStore().getDefiningOp()->getDialect()))) {
     valueToStore += ".clone()";
   }
 
-- 
2.43.0


From a30ec32b2464c1d2dbb84239fba20e50b069d0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 34/65] fix: do not crash in the tfhe-rs bool emitter on
 function arguments

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index f5bdced..784c8c4 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -204,10 +204,10 @@ LogicalResult TfheRustBoolEmitter::printOperation(func::ReturnOp op) {
     if (isa<BlockArgument>(value)) {
       suffix = ".clone()";
     }
-    if (isa<tensor::FromElementsOp>(value.getDefiningOp())) {
+    if (value.getDefiningOp<tensor::FromElementsOp>()) {
       suffix = ".into_iter().cloned().collect()";
     }
-    if (isa<memref::AllocOp>(value.getDefiningOp())) {
+    if (value.getDefiningOp<memref::AllocOp>()) {
       // MemRefs (BTreeMap<(usize, ...), Ciphertext>) must be converted to
       // Vec<Ciphertext>
       suffix = ".into_values().collect()";
@@ -232,7 +232,7 @@ void TfheRustBoolEmitter::emitAssignPrefix(Value result) {
 void TfheRustBoolEmitter::emitReferenceConversion(Value value) {
   auto tensorType = dyn_cast<TensorType>(value.getType());
 
-  if (isa<EncryptedBoolType>(tensorType.getElementType())) {
+  if (tensorType && isa<EncryptedBoolType>(tensorType.getElementType())) {
     auto varName = variableNames->getNameForValue(value);
 
     os << "let " << varName << "_ref = " << varName << ".clone();\n";
@@ -522,8 +522,9 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::FromElementsOp op) {
     // Check if block argument, if so, clone.
     const auto* cloneStr = isa<BlockArgument>(value) ? ".clone()" : "";
     // Get the name of defining operation its dialect
-    auto tfheOp =
-        value.getDefiningOp()->getDialect()->getNamespace() == "tfhe_rust_bool";
+    auto* definingOp = value.getDefiningOp();
+    auto tfheOp = definingOp && definingOp->getDialect()->getNamespace() ==
+                                    "tfhe_rust_bool";
     const auto* prefix = tfheOp ? "&" : "";
     return std::string(prefix) + variableNames->getNameForValue(value) +
            cloneStr;
@@ -645,7 +646,8 @@ std::pair<std::string, std::string> TfheRustBoolEmitter::checkOrigin(
 
   } else {
     prefix = "&";
-    suffix = "_ref";
+    // Only tensor arguments are converted to vectors of references.
+    if (isa<TensorType>(value.getType())) suffix = "_ref";
   }
 
   return std::make_pair(prefix, suffix);
-- 
2.43.0


From 8283fb4cac7c8a1e8bd9dd865f6aa149443b38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 35/65] fix: emit the body of a nested loop once in the tfhe-rs
 bool emitter

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 784c8c4..c0b22c3 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -349,15 +349,11 @@ LogicalResult TfheRustBoolEmitter::printOperation(affine::AffineForOp op) {
      << " {\n";
   os.indent();
 
-  auto res = op.getBody()->walk([&](Operation* op) {
-    if (failed(translate(*op))) {
-      return WalkResult::interrupt();
+  // Nested loops translate their own bodies.
+  for (Operation& bodyOp : *op.getBody()) {
+    if (failed(translate(bodyOp))) {
+      return failure();
     }
-    return WalkResult::advance();
-  });
-
-  if (res.wasInterrupted()) {
-    return failure();
   }
 
   os.unindent();
-- 
2.43.0


From 958b390c6e49b4c5280486fa0063281cb8b65963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 36/65] fix: accept loops without iter args in the tfhe-rs HL
 emitter

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index b525d04..40f140a 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -432,6 +432,11 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineYieldOp op) {
     return op.emitOpError() << "AffineYieldOp has non-zero number of results";
   }
 
+  // A loop without iter args yields nothing.
+  if (op->getNumOperands() == 0) {
+    return success();
+  }
+
   os << variableNames->getNameForValue(op->getOperand(0)) << "\n";
 
   return success();
-- 
2.43.0


From ffa6bcbe0e2db244f7fffeb555b3fd290a3a2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 37/65] fix: report success for create_trivial with an integer
 attribute

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 40f140a..68bf1fa 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -356,6 +356,7 @@ LogicalResult TfheRustHLEmitter::printOperation(CreateTrivialOp op) {
          << "::try_encrypt_trivial(" << intAttr.getValue() << "u"
          << getRustIntegerType(intAttr.getType().getIntOrFloatBitWidth());
       os << ").unwrap();\n";
+      return success();
     }
   } else {
     os << "FheUint" << getTfheRustBitWidth(op.getResult().getType())
-- 
2.43.0


From ccde38f31577b77988123826585ff60e9c53b554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 38/65] fix: honour the step of a loop in the tfhe-rs emitter

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 9c6f615..8f26595 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -525,8 +525,15 @@ std::string TfheRustEmitter::operationType(Operation* op) {
 
 LogicalResult TfheRustEmitter::printOperation(affine::AffineForOp forOp) {
   os << "for " << variableNames->getNameForValue(forOp.getInductionVar())
-     << " in " << forOp.getConstantLowerBound() << ".."
-     << forOp.getConstantUpperBound() << " {\n";
+     << " in ";
+  if (forOp.getStepAsInt() > 1) {
+    os << "(" << forOp.getConstantLowerBound() << ".."
+       << forOp.getConstantUpperBound() << ").step_by("
+       << forOp.getStepAsInt() << ") {\n";
+  } else {
+    os << forOp.getConstantLowerBound() << ".."
+       << forOp.getConstantUpperBound() << " {\n";
+  }
   os.indent();
 
   if (failed(translateBlock(*forOp.getBody()))) {
-- 
2.43.0


From b365083346effcef25f60feca4a072e9067827ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 39/65] fix: read levelled operands of other ops from
 temp_nodes

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 8f26595..491a07c 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -452,6 +452,11 @@ LogicalResult TfheRustEmitter::printSksMethod(
     if (isa<LookupTableType>(value.getType()) && useLevels) {
       valueStr = "luts[\"" + variableNames->getNameForValue(value) + "\"]";
     }
+    if (isLevelledOp(value.getDefiningOp()) && useLevels) {
+      // Results of levelled ops only exist in temp_nodes.
+      valueStr = llvm::formatv("temp_nodes[&{0}]",
+                               variableNames->getIntForValue(value));
+    }
     std::string prefix = value.getType().hasTrait<PassByReference>() ? "&" : "";
     std::string suffix = operandTypes.empty() ? "" : *operandTypesIt++;
     return prefix + valueStr + suffix;
-- 
2.43.0


From dbb200813da81000c09a7b15978ae4ccf836c11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:53 +0000
Subject: [PATCH 40/65] fix: make lookup table arguments available to levelled
 ops

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index 491a07c..ce8d551 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -357,9 +357,14 @@ LogicalResult TfheRustEmitter::printOperation(func::FuncOp funcOp) {
           "HashMap::new();\n";
     os << kRunLevelDefn << "\n";
 
-    // Seed the temp_nodes with the block arguments.
+    // Seed the temp_nodes and luts with the block arguments.
     for (Value arg : funcOp.getArguments()) {
       auto type = arg.getType();
+      if (isa<LookupTableType>(type)) {
+        os << llvm::formatv("luts.insert(\"{0}\", {0}.clone());\n",
+                            variableNames->getNameForValue(arg));
+        continue;
+      }
       if (!type.hasTrait<EncryptedInteger>() && !isa<EncryptedBoolType>(type)) {
         continue;
       }
-- 
2.43.0


From e1c0c69111dffd0b80391b33c95348f143c78cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 41/65] fix: load ciphertexts from allocated memrefs by value
 in the tfhe-rs emitters

---
 lib/Target/TfheRust/TfheRustEmitter.cpp         | 4 +++-
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index ce8d551..bee6c08 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -889,7 +889,9 @@ LogicalResult TfheRustEmitter::printOperation(memref::LoadOp op) {
         isa<tfhe_rust::TfheRustDialect>(op.getResult().getType().getDialect());
     os << (isRef ? "&" : "");
     printLoadOp(op);
-    os << ";\n";
+    // An element of an internally allocated memref may be overwritten while
+    // the loaded value is still in use.
+    os << (isRef && !isa<BlockArgument>(op.getMemRef()) ? ".clone();\n" : ";\n");
   }
 
   return success();
diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index c0b22c3..92cd6ea 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -495,7 +495,8 @@ LogicalResult TfheRustBoolEmitter::printOperation(memref::LoadOp op) {
                                return variableNames->getNameForValue(value) +
                                       " as usize";
                              })
-     << ")).unwrap();\n";
+     // The element may be overwritten while the loaded value is still in use.
+     << ")).unwrap().clone();\n";
   return success();
 }
 
-- 
2.43.0


From 4b938f69674cc719de3f9ee2b7cacf654cb5ac8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 42/65] fix: collect references to function arguments in the
 tfhe-rs bool emitter

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 92cd6ea..cf78c30 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -516,15 +516,12 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::ExtractOp op) {
 LogicalResult TfheRustBoolEmitter::printOperation(tensor::FromElementsOp op) {
   emitAssignPrefix(op.getResult());
   os << "vec![" << commaSeparatedValues(op.getOperands(), [&](Value value) {
-    // Check if block argument, if so, clone.
-    const auto* cloneStr = isa<BlockArgument>(value) ? ".clone()" : "";
-    // Get the name of defining operation its dialect
+    // Block arguments and values of other dialects are already references.
     auto* definingOp = value.getDefiningOp();
     auto tfheOp = definingOp && definingOp->getDialect()->getNamespace() ==
                                     "tfhe_rust_bool";
     const auto* prefix = tfheOp ? "&" : "";
-    return std::string(prefix) + variableNames->getNameForValue(value) +
-           cloneStr;
+    return std::string(prefix) + variableNames->getNameForValue(value);
   }) << "];\n";
   return success();
 }
-- 
2.43.0


From 9dfde4aaa59cd2fe246d217b3ebc5cf86be66309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 43/65] fix: do not move stored ciphertexts that are used again
 in the tfhe-rs emitter

---
 lib/Target/TfheRust/TfheRustEmitter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRust/TfheRustEmitter.cpp b/lib/Target/TfheRust/TfheRustEmitter.cpp
index bee6c08..f633831 100644
--- a/lib/Target/TfheRust/TfheRustEmitter.cpp
+++ b/lib/Target/TfheRust/TfheRustEmitter.cpp
@@ -837,7 +837,10 @@ LogicalResult TfheRustEmitter::printOperation(memref::StoreOp op) {
                  op.getValueToStore().getType().getDialect()) &&
              (isa<BlockArgument>(op.getValueToStore()) ||
               !isa<tfhe_rust::TfheRustDialect>(
-                  op.getValueToStore().getDefiningOp()->getDialect()))) {
+                  op.getValueToStore().getDefiningOp()->getDialect()) ||
+              // Only the last use may move the value, and only once.
+              !op.getValueToStore().hasOneUse() ||
+              op.getValueToStore().getParentBlock() != op->getBlock())) {
     valueToStore += ".clone()";
   }
 
-- 
2.43.0


From 28cbb18b50816a8b2f8cb0e4c52b3c690f800218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:06 +0000
Subject: [PATCH 44/65] fix: do not take references to references in the
 tfhe-rs bool emitter

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index cf78c30..5e543da 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -504,7 +504,9 @@ LogicalResult TfheRustBoolEmitter::printOperation(memref::LoadOp op) {
 LogicalResult TfheRustBoolEmitter::printOperation(tensor::ExtractOp op) {
   // We assume here that the indices are SSA values (not integer attributes).
   emitAssignPrefix(op.getResult());
-  os << "&" << variableNames->getNameForValue(op.getTensor()) << "["
+  // The elements collected by a from_elements op are references already.
+  os << (op.getTensor().getDefiningOp<tensor::FromElementsOp>() ? "" : "&")
+     << variableNames->getNameForValue(op.getTensor()) << "["
      << commaSeparatedValues(
             op.getIndices(),
             [&](Value value) { return variableNames->getNameForValue(value); })
-- 
2.43.0


From 62d7f70c5cf17d7ab3b99fc2820d8428d2a8ad57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 45/65] fix: load ciphertexts from allocated memrefs by value
 in the HL emitter

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 68bf1fa..8df827c 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -654,12 +654,16 @@ LogicalResult TfheRustHLEmitter::printOperation(memref::LoadOp op) {
     return success();
   }
 
-  // Treat this as a BTreeMap
-  os << variableNames->getNameForValue(op.getMemref());
+  // Treat this as a BTreeMap. A ciphertext is copied, since the element may be
+  // overwritten while the loaded value is still in use.
+  bool isCiphertext = op.getType().hasTrait<EncryptedInteger>();
+  os << (isCiphertext ? "&" : "")
+     << variableNames->getNameForValue(op.getMemref());
 
   os << ".get(&(" << commaSeparatedValues(op.getIndices(), [&](Value value) {
     return variableNames->getNameForValue(value) + " as usize";
-  }) << ")).unwrap();\n";
+  }) << ")).unwrap()"
+     << (isCiphertext ? ".clone()" : "") << ";\n";
 
   return success();
 }
@@ -721,7 +725,7 @@ LogicalResult TfheRustHLEmitter::printOperation(affine::AffineLoadOp op) {
             [&](Value value) {
               return std::to_string(extractIntFromValue(value));
             })
-     << ")).unwrap();\n";
+     << ")).unwrap().clone();\n";
   return success();
 }
 
-- 
2.43.0


From 5f25c2a998ef9b43efc23489abac00e124e30759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 46/65] fix: emit empty ciphertext tensors of any rank and
 width in the HL emitter

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 8df827c..450bb24 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -737,9 +737,13 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::EmptyOp op) {
   std::string res = "";
 
   if (getTfheRustBitWidth(op.getType().getElementType()) != -1) {
-    os << " = std::array::from_fn(|_| Ciphertext::try_encrypt_trivial(0u"
-       << getRustIntegerType(getTfheRustBitWidth(op.getType().getElementType()))
-       << ").unwrap());\n";
+    int width = getTfheRustBitWidth(op.getType().getElementType());
+    res = llvm::formatv("FheUint{0}::try_encrypt_trivial(0u{1}).unwrap()",
+                        width, getRustIntegerType(width));
+    for ([[maybe_unused]] int64_t dim : op.getType().getShape()) {
+      res = llvm::formatv("std::array::from_fn(|_| {0})", res);
+    }
+    os << " = " << res << ";\n";
 
     return success();
   } else if (isa<IntegerType>(op.getType().getElementType()) &&
-- 
2.43.0


From 6de50de6f8cf1f25f69cee369cfb39017833e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 47/65] fix: keep the old tensor intact when the HL emitter
 inserts into it

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 450bb24..99c1cae 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -808,17 +808,21 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::FromElementsOp op) {
 // Does not need to produce a value
 LogicalResult TfheRustHLEmitter::printOperation(tensor::InsertOp op) {
   auto tensor = op.getDest();
+  // The old tensor may only be reused if nothing else reads it.
+  bool move = !isa<BlockArgument>(tensor) && tensor.hasOneUse() &&
+              tensor.getParentBlock() == op->getBlock();
 
-  os << variableNames->getNameForValue(tensor)
+  os << "let mut " << variableNames->getNameForValue(op.getResult()) << " = "
+     << variableNames->getNameForValue(tensor) << (move ? "" : ".clone()")
+     << ";\n";
+
+  os << variableNames->getNameForValue(op.getResult())
      << bracketEnclosedValues(
             op.getIndices(),
             [&](Value value) { return variableNames->getNameForValue(value); })
      << " = " << variableNames->getNameForValue(op.getScalar())
      << ".clone();\n";
 
-  emitAssignPrefix(op.getResult());
-  os << variableNames->getNameForValue(tensor) << ";\n";
-
   return success();
 }
 
-- 
2.43.0


From 351531f803e95b6ac77b598bbbac80b14ece2ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 48/65] fix: nest the elements of from_elements by dimension in
 the HL emitter

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 27 ++++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 99c1cae..01a4f97 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -9,6 +9,7 @@
 #include <numeric>
 #include <string>
 #include <string_view>
+#include <vector>
 
 #include "lib/Analysis/SelectVariableNames/SelectVariableNames.h"
 #include "lib/Dialect/TfheRust/IR/TfheRustDialect.h"
@@ -18,6 +19,7 @@
 #include "lib/Target/TfheRustHL/TfheRustHLTemplates.h"
 #include "lib/Utils/TargetUtils.h"
 #include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
+#include "llvm/include/llvm/ADT/StringExtras.h"        // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"          // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/raw_ostream.h"     // from @llvm-project
@@ -786,22 +788,23 @@ LogicalResult TfheRustHLEmitter::printOperation(tensor::FromElementsOp op) {
 
   emitAssignPrefix(op.getResult());
 
-  std::string valueList;
-
-  for (int i = 0; i < op.getNumOperands(); i++) {
-    valueList = llvm::formatv("{0}{1}.clone()", valueList,
-                              variableNames->getNameForValue(op.getOperand(i)));
-
-    if (i != op->getNumOperands() - 1) {
-      valueList = llvm::formatv("{0}, ", valueList);
-    }
+  std::vector<std::string> layer;
+  for (Value operand : op.getOperands()) {
+    layer.push_back(variableNames->getNameForValue(operand) + ".clone()");
   }
 
-  for (int i = 0; i < op.getResult().getType().getShape().size(); i++) {
-    valueList = llvm::formatv("[{0}]", valueList);
+  // Group the elements of the innermost dimension first.
+  for (int64_t dim : llvm::reverse(resultType.getShape())) {
+    std::vector<std::string> groups;
+    for (size_t i = 0; i < layer.size(); i += dim) {
+      groups.push_back(
+          "[" + llvm::join(ArrayRef<std::string>(layer).slice(i, dim), ", ") +
+          "]");
+    }
+    layer = std::move(groups);
   }
 
-  os << valueList << ";\n";
+  os << (layer.empty() ? "[]" : layer[0]) << ";\n";
   return success();
 }
 
-- 
2.43.0


From e2a5a0f7bcb60e0687cb6b8fcaf9f07604767d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:59 +0000
Subject: [PATCH 49/65] fix: flatten the indices of tensor.extract in the
 tfhe-rs bool emitter

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index 5e543da..ab91ea6 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -507,8 +507,8 @@ LogicalResult TfheRustBoolEmitter::printOperation(tensor::ExtractOp op) {
   // The elements collected by a from_elements op are references already.
   os << (op.getTensor().getDefiningOp<tensor::FromElementsOp>() ? "" : "&")
      << variableNames->getNameForValue(op.getTensor()) << "["
-     << commaSeparatedValues(
-            op.getIndices(),
+     << flattenIndexExpression(
+            op.getTensor().getType(), op.getIndices(),
             [&](Value value) { return variableNames->getNameForValue(value); })
      << "];\n";
   return success();
-- 
2.43.0


From dee38614d988bac7d156ca08096a4b6f1daebd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:09 +0000
Subject: [PATCH 50/65] fix: separate all arguments of a call in the HL emitter

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 01a4f97..1cd864e 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -269,19 +269,14 @@ LogicalResult TfheRustHLEmitter::printOperation(func::ReturnOp op) {
 LogicalResult TfheRustHLEmitter::printOperation(func::CallOp op) {
   os << "let " << variableNames->getNameForValue(op->getResult(0)) << " = ";
 
-  os << op.getCallee() << "(";
+  SmallVector<Value> args;
   for (Value arg : op->getOperands()) {
-    if (!isa<tfhe_rust::ServerKeyType>(arg.getType())) {
-      auto argName = variableNames->getNameForValue(arg);
-      if (op.getOperands().back() == arg) {
-        os << "&" << argName;
-      } else {
-        os << "&" << argName << ", ";
-      }
-    }
+    if (!isa<tfhe_rust::ServerKeyType>(arg.getType())) args.push_back(arg);
   }
 
-  os << "); \n";
+  os << op.getCallee() << "(" << commaSeparatedValues(args, [&](Value arg) {
+    return "&" + variableNames->getNameForValue(arg);
+  }) << "); \n";
   return success();
 }
 
-- 
2.43.0


From 0e0627de5f44043e620d57f525986c61740000cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 51/65] fix: clone returned values a returned tensor may refer
 to in the bool emitter

---
 lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
index ab91ea6..ea41ccf 100644
--- a/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
+++ b/lib/Target/TfheRustBool/TfheRustBoolEmitter.cpp
@@ -199,9 +199,16 @@ LogicalResult TfheRustBoolEmitter::printOperation(func::FuncOp funcOp) {
 }
 
 LogicalResult TfheRustBoolEmitter::printOperation(func::ReturnOp op) {
+  // The elements of a tensor are references, so values they may refer to can't
+  // be moved out while the tensor is still to be returned.
+  bool returnsReferences =
+      llvm::any_of(op.getOperands(), [](Value value) {
+        return value.getDefiningOp<tensor::FromElementsOp>() != nullptr;
+      });
   std::function<std::string(Value)> valueOrClonedValue = [&](Value value) {
     auto* suffix = "";
-    if (isa<BlockArgument>(value)) {
+    if (isa<BlockArgument>(value) ||
+        (returnsReferences && !isa<ShapedType>(value.getType()))) {
       suffix = ".clone()";
     }
     if (value.getDefiningOp<tensor::FromElementsOp>()) {
-- 
2.43.0


From f08d6440d5af57cd2bdec5f25db475d93f6c46cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:58 +0000
Subject: [PATCH 52/65] fix: declare the ciphertext type of modules without
 scalar results in the HL emitter

---
 lib/Target/TfheRustHL/TfheRustHLEmitter.cpp | 32 +++++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
index 1cd864e..fcecd67 100644
--- a/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
+++ b/lib/Target/TfheRustHL/TfheRustHLEmitter.cpp
@@ -144,20 +144,34 @@ LogicalResult TfheRustHLEmitter::printOperation(ModuleOp moduleOp) {
   os << kModulePrelude << "\n";
 
   // Find default type of the module and use a Type alias
-  moduleOp.getOperation()->walk([&](Operation* op) {
-    for (Type resultType : op->getResultTypes()) {
-      if (resultType.hasTrait<EncryptedInteger>()) {
-        auto size = getTfheRustBitWidth(resultType);
-        defaultBitWidth = size;
+  auto emitTypeAlias = [&](Type type) {
+    if (!type.hasTrait<EncryptedInteger>()) return false;
 
-        os << "type Ciphertext = tfhe::FheUint<tfhe::FheUint" << size
-           << "Id>; \n\n";
+    auto size = getTfheRustBitWidth(type);
+    defaultBitWidth = size;
 
-        return WalkResult::interrupt();
-      }
+    os << "type Ciphertext = tfhe::FheUint<tfhe::FheUint" << size
+       << "Id>; \n\n";
+    return true;
+  };
+  WalkResult found = moduleOp.getOperation()->walk([&](Operation* op) {
+    if (llvm::any_of(op->getResultTypes(), emitTypeAlias)) {
+      return WalkResult::interrupt();
     }
     return WalkResult::advance();  // Continue walking to the next operation
   });
+  // A module that computes no single ciphertext may still use them in its
+  // function signatures and tensors.
+  if (!found.wasInterrupted()) {
+    moduleOp.getOperation()->walk([&](func::FuncOp funcOp) {
+      for (Type type : funcOp.getArgumentTypes()) {
+        if (emitTypeAlias(getElementTypeOrSelf(type))) {
+          return WalkResult::interrupt();
+        }
+      }
+      return WalkResult::advance();
+    });
+  }
 
   // Emit rest the actual program
   for (Operation& op : moduleOp) {
-- 
2.43.0


From 43021aa8bf1164ea50a748b19522f9f9700573d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 53/65] fix: emit the overrides of all supported fields of a
 compilation target

---
 lib/Tablegen/CompilationTargetEmitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Tablegen/CompilationTargetEmitter.cpp b/lib/Tablegen/CompilationTargetEmitter.cpp
index 194fab3..49126ec 100644
--- a/lib/Tablegen/CompilationTargetEmitter.cpp
+++ b/lib/Tablegen/CompilationTargetEmitter.cpp
@@ -123,7 +123,7 @@ bool emitCompilationTargetOverrides(const llvm::RecordKeeper& records,
     } else {
       llvm::errs() << "Warning: unsupported field type for override: "
                    << fieldName << "\n";
-      return false;
+      continue;
     }
   }
 
@@ -150,7 +150,7 @@ bool emitCompilationTargetOverrides(const llvm::RecordKeeper& records,
     } else {
       llvm::errs() << "Warning: unsupported field type for parser: "
                    << fieldName << "\n";
-      return false;
+      continue;
     }
   }
 
-- 
2.43.0


From da9af92cf826e3217517f496b1f537e28665fca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 54/65] fix: register every described field of a compilation
 target

---
 lib/Tablegen/CompilationTargetEmitter.cpp | 29 ++++++++++++++++-------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/lib/Tablegen/CompilationTargetEmitter.cpp b/lib/Tablegen/CompilationTargetEmitter.cpp
index 49126ec..3551af4 100644
--- a/lib/Tablegen/CompilationTargetEmitter.cpp
+++ b/lib/Tablegen/CompilationTargetEmitter.cpp
@@ -3,6 +3,7 @@
 #include <string>
 #include <string_view>
 
+#include "llvm/include/llvm/ADT/StringExtras.h"          // from @llvm-project
 #include "llvm/include/llvm/ADT/StringRef.h"             // from @llvm-project
 #include "llvm/include/llvm/Support/Casting.h"           // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"    // from @llvm-project
@@ -77,21 +78,31 @@ constexpr std::string_view kStringFieldParser = R"cpp(
 bool emitCompilationTargetRegistration(const llvm::RecordKeeper& records,
                                        llvm::raw_ostream& os) {
   auto targets = records.getAllDerivedDefinitions("CompilationTarget");
+  const llvm::Record* targetClass = records.getClass("CompilationTarget");
 
   for (auto* target : targets) {
     auto name = target->getName();
-    auto bootstrapLevelsConsumed =
-        target->getValueAsInt("bootstrapLevelsConsumed");
-    auto hasKernelChebyshev = target->getValueAsInt("has_kernel_chebyshev");
-    auto hasKernelLinearTransform =
-        target->getValueAsInt("has_kernel_linear_transform");
 
     os << "void registerTarget" << name << "() {\n"
        << "  "
-          "CompilationTargetRegistry::registerTarget(CompilationTarget{"
-          "BackendName::"
-       << name << ", " << bootstrapLevelsConsumed << ", " << hasKernelChebyshev
-       << ", " << hasKernelLinearTransform << "});\n"
+          "CompilationTargetRegistry::registerTarget(CompilationTarget{";
+    // One initializer per member of the generated struct, in the same order
+    llvm::ListSeparator sep;
+    for (const auto& value : targetClass->getValues()) {
+      if (value.isTemplateArg()) {
+        continue;
+      }
+      llvm::StringRef fieldName = value.getName();
+      if (fieldName == "backendName") {
+        os << sep << "BackendName::" << name;
+      } else if (llvm::isa<llvm::IntRecTy>(value.getType())) {
+        os << sep << target->getValueAsInt(fieldName);
+      } else if (llvm::isa<llvm::StringRecTy>(value.getType())) {
+        os << sep << "\"";
+        os.write_escaped(target->getValueAsString(fieldName)) << "\"";
+      }
+    }
+    os << "});\n"
        << "}\n\n";
   }
   return false;
-- 
2.43.0


From 13b61deefb2d4e58fa5dc7797ebe783eeb2030ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:59 +0000
Subject: [PATCH 55/65] fix: escape string defaults of compilation target
 fields

---
 lib/Tablegen/CompilationTargetEmitter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Tablegen/CompilationTargetEmitter.cpp b/lib/Tablegen/CompilationTargetEmitter.cpp
index 3551af4..3ad108c 100644
--- a/lib/Tablegen/CompilationTargetEmitter.cpp
+++ b/lib/Tablegen/CompilationTargetEmitter.cpp
@@ -246,7 +246,9 @@ bool emitCompilationTargetStruct(const llvm::RecordKeeper& records,
       cppType = "std::string";
       if (init && init->isConcrete()) {
         if (auto* stringInit = llvm::dyn_cast<llvm::StringInit>(init)) {
-          defaultVal = " = \"" + stringInit->getValue().str() + "\"";
+          llvm::raw_string_ostream stringOs(defaultVal);
+          stringOs << " = \"";
+          stringOs.write_escaped(stringInit->getValue()) << "\"";
         }
       }
     } else {
-- 
2.43.0


From 85e2151a56b59e4c70418ca728f8227bc63a57e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:16 +0000
Subject: [PATCH 56/65] fix: do not pipe independent RUN lines into each other

---
 scripts/lit_to_bazel_lib.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/scripts/lit_to_bazel_lib.py b/scripts/lit_to_bazel_lib.py
index 8d08c67..c36f1c7 100644
--- a/scripts/lit_to_bazel_lib.py
+++ b/scripts/lit_to_bazel_lib.py
@@ -129,17 +129,22 @@ def get_command_without_bazel_prefix(lit_test_file) -> str:
         run_lines.append(line)
 
   commands = convert_to_run_commands(run_lines)
-  commands = [x for x in commands if "FileCheck" not in x]
-  # remove consecutive and trailing pipes
-  if commands[-1] == PIPE:
-    commands.pop()
-  deduped_commands = []
+  # Commands without a pipe between them come from separate RUN lines
+  pipelines = []
+  after_pipe = False
   for command in commands:
-    if command == PIPE and deduped_commands[-1] == PIPE:
+    if command == PIPE:
+      after_pipe = True
       continue
-    deduped_commands.append(command)
-
-  joined = " ".join(deduped_commands)
+    if not after_pipe:
+      pipelines.append([])
+    after_pipe = False
+    if "FileCheck" not in command:
+      pipelines[-1].append(command)
+
+  joined = " && ".join(f" {PIPE} ".join(p) for p in pipelines if p)
+  if not joined:
+    raise ValueError("No command to run in '%s'" % lit_test_file)
   return joined
 
 
-- 
2.43.0


From e2d8c84cdd35450138a212b55a27844d19a94bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 57/65] fix: keep redirects and escapes of continued RUN lines

---
 scripts/lit_to_bazel_lib.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/lit_to_bazel_lib.py b/scripts/lit_to_bazel_lib.py
index c36f1c7..81df47e 100644
--- a/scripts/lit_to_bazel_lib.py
+++ b/scripts/lit_to_bazel_lib.py
@@ -46,6 +46,10 @@ def convert_to_run_commands(run_lines):
       run_lines.appendleft(RUN_PREFIX + " " + second.strip())
       continue
 
+    if line.strip().endswith("\\"):
+      current_command += " " + line.strip()[:-1].strip()
+      continue
+
     # redirecting to a file implicitly ends the command on that line
     if OUT_REDIRECT in line or IN_REDIRECT in line:
       current_command += " " + line.strip()
@@ -53,10 +57,6 @@ def convert_to_run_commands(run_lines):
       current_command = ""
       continue
 
-    if line.strip().endswith("\\"):
-      current_command += " " + line.replace("\\", "").strip()
-      continue
-
     current_command += line
     cmds.append(current_command.strip())
     current_command = ""
-- 
2.43.0


From 83142eef622f26de8dfe311db7cbc6163b3b503b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 58/65] fix: list the parameters of declared functions in the
 metadata

---
 lib/Target/Metadata/MetadataEmitter.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/Target/Metadata/MetadataEmitter.cpp b/lib/Target/Metadata/MetadataEmitter.cpp
index ad48643..58cb53c 100644
--- a/lib/Target/Metadata/MetadataEmitter.cpp
+++ b/lib/Target/Metadata/MetadataEmitter.cpp
@@ -2,6 +2,7 @@
 
 #include <utility>
 
+#include "llvm/include/llvm/ADT/STLExtras.h"           // from @llvm-project
 #include "llvm/include/llvm/ADT/TypeSwitch.h"          // from @llvm-project
 #include "llvm/include/llvm/Support/FormatVariadic.h"  // from @llvm-project
 #include "llvm/include/llvm/Support/JSON.h"            // from @llvm-project
@@ -173,8 +174,9 @@ FailureOr<llvm::json::Object> MetadataEmitter::typeAsJson(MemRefType& ty) {
 
 FailureOr<llvm::json::Object> MetadataEmitter::emitOperation(FuncOp funcOp) {
   llvm::json::Array arguments;
-  for (auto arg : funcOp.getArguments()) {
-    Type type = arg.getType();
+  // The function type also covers declarations, which have no block arguments.
+  for (auto [index, argType] : llvm::enumerate(funcOp.getArgumentTypes())) {
+    Type type = argType;
     auto result = llvm::TypeSwitch<Type&, FailureOr<llvm::json::Object>>(type)
                       .Case<IntegerType, MemRefType>(
                           [&](auto ty) { return typeAsJson(ty); })
@@ -186,7 +188,7 @@ FailureOr<llvm::json::Object> MetadataEmitter::emitOperation(FuncOp funcOp) {
       return failure();
     }
     arguments.push_back(llvm::json::Object{
-        {"index", arg.getArgNumber()},
+        {"index", index},
         {"type", std::move(result.value())},
     });
   }
-- 
2.43.0


From 1a90a0cdcb9b1beab0c30d74dbfc584e165e7908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 59/65] fix: drop the states of erased operations when
 re-running the analysis

convert-if-to-select, convert-secret-extract-to-static-extract and
convert-secret-insert-to-static-insert re-run the secretness analysis after
each rewrite, with a solver that still held the states of operations that had
been erased. When a new operation is allocated where an erased one was, it
inherits the stale state, and solving can crash or compute a wrong secretness.

Constant indices and the induction variables of constant loops are now left
alone explicitly: in code that the analysis considers unreachable they are of
unknown secretness, and were rewritten over and over.
---
 lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp   | 1 +
 .../ConvertSecretExtractToStaticExtract.cpp              | 9 +++++++++
 .../ConvertSecretInsertToStaticInsert.cpp                | 9 +++++++++
 3 files changed, 19 insertions(+)

diff --git a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
index 2c77fea..52baec8 100644
--- a/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
+++ b/lib/Transforms/ConvertIfToSelect/ConvertIfToSelect.cpp
@@ -93,6 +93,7 @@ struct IfToSelectConversion : OpRewritePattern<scf::IfOp> {
 
     // re-run the analysis propagate secretness across
     // newly created Values
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index 30edd66..eccc5c8 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -14,6 +14,7 @@
 #include "mlir/include/mlir/IR/Diagnostics.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"   // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
@@ -48,6 +49,13 @@ struct SecretExtractToStaticExtractConversion
 
     auto index = extractOp.getIndices().front();
 
+    // Constants and the induction variables of loops with constant bounds are
+    // public, also in code the analysis considers unreachable (and hence of
+    // unknown secretness)
+    auto loop = affine::getForInductionVarOwner(index);
+    if (matchPattern(index, m_Constant()) || (loop && loop.hasConstantBounds()))
+      return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
@@ -141,6 +149,7 @@ struct SecretExtractToStaticExtractConversion
 
     // re-run the analysis propagate secretness across
     // newly created Values
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index 8ede6ee..5e676f5 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -14,6 +14,7 @@
 #include "mlir/include/mlir/IR/Diagnostics.h"            // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"   // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"            // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"               // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                  // from @llvm-project
@@ -48,6 +49,13 @@ struct SecretInsertToStaticInsertConversion
     auto tensor = insertOp.getDest();
     auto insertedValue = insertOp.getScalar();
 
+    // Constants and the induction variables of loops with constant bounds are
+    // public, also in code the analysis considers unreachable (and hence of
+    // unknown secretness)
+    auto loop = affine::getForInductionVarOwner(index);
+    if (matchPattern(index, m_Constant()) || (loop && loop.hasConstantBounds()))
+      return failure();
+
     auto* indexSecretnessLattice =
         solver->lookupState<SecretnessLattice>(index);
 
@@ -126,6 +134,7 @@ struct SecretInsertToStaticInsertConversion
     // Replace the old tensor.insert op with forOp's result
     rewriter.replaceOp(insertOp, forOp);
 
+    solver->eraseAllStates();
     return solver->initializeAndRun(top);
   }
 
-- 
2.43.0


From 4245dd0f4523c3a9920c570655ec1ac59bbba6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 60/65] fix: do not convert accesses to tensors of dynamic size

convert-secret-extract-to-static-extract and -insert- took the sentinel for a
dynamic dimension as the number of elements, and replaced the access by a loop
without iterations.
---
 .../ConvertSecretExtractToStaticExtract.cpp                | 7 +++++++
 .../ConvertSecretInsertToStaticInsert.cpp                  | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
index eccc5c8..4cf1321 100644
--- a/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
+++ b/lib/Transforms/ConvertSecretExtractToStaticExtract/ConvertSecretExtractToStaticExtract.cpp
@@ -76,6 +76,13 @@ struct SecretExtractToStaticExtractConversion
     if (indexSecretness.isInitialized() && !indexSecretness.getSecretness())
       return failure();
 
+    if (extractOp.getTensor().getType().isDynamicDim(0)) {
+      extractOp->emitWarning()
+          << "Cannot convert tensor.extract with a secret index to a static "
+             "extract since the size of the tensor is not static:";
+      return failure();
+    }
+
     ImplicitLocOpBuilder builder(extractOp->getLoc(), rewriter);
 
     // Create index 0
diff --git a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
index 5e676f5..a9a8a15 100644
--- a/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
+++ b/lib/Transforms/ConvertSecretInsertToStaticInsert/ConvertSecretInsertToStaticInsert.cpp
@@ -76,6 +76,13 @@ struct SecretInsertToStaticInsertConversion
     if (indexSecretness.isInitialized() && !indexSecretness.getSecretness())
       return failure();
 
+    if (insertOp.getDest().getType().isDynamicDim(0)) {
+      insertOp->emitWarning()
+          << "Cannot convert tensor.insert with a secret index to a static "
+             "insert since the size of the tensor is not static:";
+      return failure();
+    }
+
     ImplicitLocOpBuilder builder(insertOp->getLoc(), rewriter);
 
     int size = insertOp.getDest().getType().getShape().front();
-- 
2.43.0


From 45c273bf4e68e7b647db069f896f7a3e0064fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 61/65] fix: convert secret loops nested in a converted loop

convert-secret-for-to-static-for clones the body of the loop it converts, and
looked up the secretness of the clones in a solver that does not know them (or
that has the state of an erased operation at the same address), so a secret
loop nested in a converted one was left as it was.
---
 .../ConvertSecretForToStaticFor.cpp           | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index e9483ea..f5dd545 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -31,10 +31,11 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
   using OpRewritePattern<scf::ForOp>::OpRewritePattern;
 
  public:
-  SecretForToStaticForConversion(DataFlowSolver* solver, MLIRContext* context,
-                                 bool convertAllScfFor)
+  SecretForToStaticForConversion(DataFlowSolver* solver, Operation* top,
+                                 MLIRContext* context, bool convertAllScfFor)
       : OpRewritePattern(context),
         solver(solver),
+        top(top),
         convertAllScfFor(convertAllScfFor) {}
 
   LogicalResult matchAndRewrite(scf::ForOp forOp,
@@ -147,7 +148,8 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
       // Replace scf.for with affine.for
       rewriter.replaceOp(forOp, newForOp);
-      return success();
+
+      return rerunAnalysis();
     }
 
     // Handle secret bounds with conditional logic
@@ -201,11 +203,19 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     // Replace scf.for with affine.for
     rewriter.replaceOp(forOp, newForOp);
 
-    return success();
+    return rerunAnalysis();
   }
 
  private:
+  // Re-run the analysis to propagate secretness across newly created Values,
+  // e.g., the bounds of a nested loop in the copied body
+  LogicalResult rerunAnalysis() const {
+    solver->eraseAllStates();
+    return solver->initializeAndRun(top);
+  }
+
   DataFlowSolver* solver;
+  Operation* top;
   bool convertAllScfFor;
 };
 
@@ -230,7 +240,7 @@ struct ConvertSecretForToStaticFor
       return;
     }
 
-    patterns.add<SecretForToStaticForConversion>(&solver, context,
+    patterns.add<SecretForToStaticForConversion>(&solver, getOperation(), context,
                                                  this->convertAllScfFor);
     (void)applyPatternsGreedily(getOperation(), std::move(patterns));
   }
-- 
2.43.0


From 7e0db086a4cff18a52a5b432d2440a5188d1eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 62/65] fix: do not create an affine.for with an invalid bound

convert-secret-for-to-static-for made public bounds operands of the affine.for
also when they are no valid symbols, e.g., when they are computed inside of a
surrounding loop, and so left invalid IR.
---
 .../ConvertSecretForToStaticFor.cpp           | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index f5dd545..1cdf401 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -13,6 +13,7 @@
 #include "mlir/include/mlir/IR/Diagnostics.h"           // from @llvm-project
 #include "mlir/include/mlir/IR/ImplicitLocOpBuilder.h"  // from @llvm-project
 #include "mlir/include/mlir/IR/MLIRContext.h"           // from @llvm-project
+#include "mlir/include/mlir/IR/Matchers.h"              // from @llvm-project
 #include "mlir/include/mlir/IR/Operation.h"             // from @llvm-project
 #include "mlir/include/mlir/IR/PatternMatch.h"          // from @llvm-project
 #include "mlir/include/mlir/IR/Value.h"                 // from @llvm-project
@@ -61,6 +62,26 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
                        "since the step is not constant and "
                        "affine.for only supports strictly static step size");
 
+    // A bound that remains an operand of the affine.for must be a valid symbol,
+    // e.g., a value computed inside of a surrounding loop is not
+    Region* scope = affine::getAffineScope(forOp);
+    auto isValidBound = [&](Value bound) {
+      if (isa<IndexType>(bound.getType()))
+        return affine::isValidSymbol(bound, scope);
+      // The index_cast created below will be right before the loop
+      return matchPattern(bound, m_Constant()) ||
+             forOp->getParentRegion() == scope;
+    };
+    if ((!isLowerBoundSecret && !isValidBound(lowerBound)) ||
+        (!isUpperBoundSecret && !isValidBound(upperBound))) {
+      if (isLowerBoundSecret || isUpperBoundSecret)
+        return emitError(forOp.getLoc(),
+                         "Cannot convert secret scf.for to static affine.for "
+                         "since the public bound is not a valid affine symbol");
+      return rewriter.notifyMatchFailure(
+          forOp, "bounds are not valid affine symbols");
+    }
+
     // There are a few cases to handle:
     // If a bound is determined to be secret, we need to replace it
     // with the annotated static bound, which we wrap in a constant op
-- 
2.43.0


From 069341cb9e5330fd4b30143daea1076daeb6f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 63/65] fix: visit the right indices for a secret lower bound
 with a step

With a secret lower bound and a step other than 1,
convert-secret-for-to-static-for started at the static lower bound and hence
visited different indices than the original loop, unless both happen to be
congruent modulo the step.
---
 .../ConvertSecretForToStaticFor.cpp           | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index 1cdf401..379d4bd 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -135,10 +135,13 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
       }
     }
 
+    // With a secret lower bound, the static lower bound need not be congruent to
+    // it modulo the step, so the new loop has to visit every index
+    int64_t step = forOp.getConstantStep()->getLimitedValue();
     auto newForOp = affine::AffineForOp::create(
         builder, ValueRange(newLowerBound), builder.getSymbolIdentityMap(),
         ValueRange(newUpperBound), builder.getSymbolIdentityMap(),
-        forOp.getConstantStep()->getLimitedValue(), forOp.getInitArgs());
+        isLowerBoundSecret ? 1 : step, forOp.getInitArgs());
 
     newForOp->setAttrs(forOp->getAttrs());
 
@@ -174,13 +177,24 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     }
 
     // Handle secret bounds with conditional logic
-    arith::CmpIOp cmpIUpper, cmpILower;
-    arith::AndIOp andI;
+    Value cmpIUpper, cmpILower;
+    Value andI;
 
     if (isLowerBoundSecret) {
       // Create arith.cmpi (iv >= oldLowerBound)
       cmpILower = arith::CmpIOp::create(builder, arith::CmpIPredicate::sge,
                                         inductionVariable, lowerBound);
+      if (step != 1) {
+        // Join it with ((iv - oldLowerBound) % step == 0)
+        auto distance =
+            arith::SubIOp::create(builder, inductionVariable, lowerBound);
+        auto remainder = arith::RemSIOp::create(
+            builder, distance, arith::ConstantIndexOp::create(builder, step));
+        auto onGrid = arith::CmpIOp::create(
+            builder, arith::CmpIPredicate::eq, remainder,
+            arith::ConstantIndexOp::create(builder, 0));
+        cmpILower = arith::AndIOp::create(builder, cmpILower, onGrid);
+      }
     }
 
     if (isUpperBoundSecret) {
@@ -196,9 +210,8 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
     }
 
     // Create scf.if to conditionally execute the body of scf.for
-    auto cond = isLowerBoundSecret ? isUpperBoundSecret ? andI.getResult()
-                                                        : cmpILower.getResult()
-                                   : cmpIUpper.getResult();
+    auto cond = isLowerBoundSecret ? isUpperBoundSecret ? andI : cmpILower
+                                   : cmpIUpper;
     scf::IfOp ifOp = scf::IfOp::create(
         builder, cond,
         // 'Then' region
-- 
2.43.0


From 89845a39c48bd1f8350bf23686bd94f717651743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 64/65] fix: keep the type of the induction variable of
 converted integer loops

convert-secret-for-to-static-for replaced the integer induction variable of a
loop with integer bounds by the index one of the affine.for, and so left
invalid IR when the body used it.
---
 .../ConvertSecretForToStaticFor.cpp                      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
index 379d4bd..cf2c487 100644
--- a/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretForToStaticFor/ConvertSecretForToStaticFor.cpp
@@ -149,6 +149,13 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
 
     builder.setInsertionPointToStart(newForOp.getBody());
 
+    // The induction variable of the original loop, in its original type
+    Value oldInductionVariable = inductionVariable;
+    if (!isa<IndexType>(forOp.getInductionVar().getType())) {
+      oldInductionVariable = arith::IndexCastOp::create(
+          builder, forOp.getInductionVar().getType(), inductionVariable);
+    }
+
     if (!isLowerBoundSecret && !isUpperBoundSecret) {
       // If neither bound is secret,
       // we can directly copy the body
@@ -157,6 +164,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
         mp.map(blockArg,
                newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
       }
+      mp.map(forOp.getInductionVar(), oldInductionVariable);
       for (auto& op : forOp.getBody()->getOperations()) {
         // Convert scf.yield to affine.yield
         if (auto yieldOp = dyn_cast<scf::YieldOp>(&op)) {
@@ -222,6 +230,7 @@ struct SecretForToStaticForConversion : OpRewritePattern<scf::ForOp> {
             mp.map(blockArg,
                    newForOp.getBody()->getArguments()[blockArg.getArgNumber()]);
           }
+          mp.map(forOp.getInductionVar(), oldInductionVariable);
           for (auto& op : forOp.getBody()->getOperations()) {
             b.clone(op, mp);
           }
-- 
2.43.0


From c95fb34b5f488e2d77a855d9f0cb8b290d9a1805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 65/65] fix: only convert while loops that pass on all their
 variables unchanged

convert-secret-while-to-static-for compared the defining operations of the
values passed on by scf.condition, which are null for all block arguments, so
it accepted arguments in a different order or number, or those of an
enclosing region, and changed the result of the program. A condition defined
outside of the loop made it crash, and secret loops nested in a converted one
were not converted, as the analysis did not know the cloned operations.
---
 .../ConvertSecretWhileToStaticFor.cpp         | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
index 4d22b79..9e05ebf 100644
--- a/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
+++ b/lib/Transforms/ConvertSecretWhileToStaticFor/ConvertSecretWhileToStaticFor.cpp
@@ -3,6 +3,7 @@
 #include <utility>
 
 #include "lib/Analysis/SecretnessAnalysis/SecretnessAnalysis.h"
+#include "llvm/include/llvm/ADT/STLExtras.h"                // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlow/Utils.h"     // from @llvm-project
 #include "mlir/include/mlir/Analysis/DataFlowFramework.h"  // from @llvm-project
 #include "mlir/include/mlir/Dialect/Affine/IR/AffineOps.h"  // from @llvm-project
@@ -30,8 +31,9 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
   using OpRewritePattern<scf::WhileOp>::OpRewritePattern;
 
  public:
-  SecretWhileToStaticForConversion(DataFlowSolver* solver, MLIRContext* context)
-      : OpRewritePattern(context), solver(solver) {}
+  SecretWhileToStaticForConversion(DataFlowSolver* solver, Operation* top,
+                                   MLIRContext* context)
+      : OpRewritePattern(context), solver(solver), top(top) {}
 
   // TODO(#846): Add support for do-while loops
   LogicalResult matchAndRewrite(scf::WhileOp whileOp,
@@ -39,28 +41,20 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     auto conditionOp = whileOp.getConditionOp();
     auto whileCondition = conditionOp->getOperand(0);
 
-    auto* beforeRegionArgs = whileOp.getBefore().front().getArguments().data();
+    auto beforeRegionArgs = whileOp.getBeforeArguments();
 
     auto conditionOpArgs =
         // Get Loop variables: includes all arguments without the condition
         conditionOp->getOperands().drop_front(1);
 
-    int counter = 0;
-    for (auto arg : conditionOpArgs) {
-      // Check if the defining operation of the loop variable passed in
-      // scf.condition is the same as the operation defining the block argument
-      // passed by scf.while. A true value implies that the loop variable is the
-      // same as the block argument, i.e., the original block argument passed by
-      // scf.while has not been changed.
-      bool isEqual =
-          arg.getDefiningOp() == beforeRegionArgs[counter].getDefiningOp();
-      if (!isEqual) {
-        InFlightDiagnostic diag =
-            whileOp.emitWarning()
-            << "Current loop transformation has no support for do-while loops:";
-        return failure();
-      }
-      counter++;
+    // Check that the loop variables passed on by scf.condition are the block
+    // arguments of the "before" region, all of them and in the same order, i.e.,
+    // that the "before" region only computes the condition.
+    if (!llvm::equal(conditionOpArgs, beforeRegionArgs)) {
+      InFlightDiagnostic diag =
+          whileOp.emitWarning()
+          << "Current loop transformation has no support for do-while loops:";
+      return failure();
     }
 
     auto* conditionSecretnessLattice =
@@ -117,7 +111,7 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     for (auto& op : whileOp.getBefore().getOps()) {
       if (auto conditionOp = dyn_cast<scf::ConditionOp>(op)) {
         // Get condition used in scf.condition op
-        condition = mp.lookup(conditionOp.getOperand(0));
+        condition = mp.lookupOrDefault(conditionOp.getOperand(0));
       } else {
         // Copy op in "before" region to the forOp's body
         builder.clone(op, mp);
@@ -146,11 +140,15 @@ struct SecretWhileToStaticForConversion : OpRewritePattern<scf::WhileOp> {
     // Replace scf.while with affine.for
     rewriter.replaceOp(whileOp, newForOp);
 
-    return success();
+    // re-run the analysis to propagate secretness across
+    // newly created Values
+    solver->eraseAllStates();
+    return solver->initializeAndRun(top);
   }
 
  private:
   DataFlowSolver* solver;
+  Operation* top;
 };
 
 struct ConvertSecretWhileToStaticFor
@@ -174,7 +172,7 @@ struct ConvertSecretWhileToStaticFor
       return;
     }
 
-    patterns.add<SecretWhileToStaticForConversion>(&solver, context);
+    patterns.add<SecretWhileToStaticForConversion>(&solver, getOperation(), context);
     // TODO (#1221): Investigate whether folding (default: on) can be skipped
     // here.
     (void)applyPatternsGreedily(getOperation(), std::move(patterns));
-- 
2.43.0

