From 2dbe2ddd1ef7715ddecb97f6853767aa29c826a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 01/63] fix: propagate the exit code of the Python compiler
 wrapper

A failed gcc was reported to make as success, because the return value of
wrapper() was dropped when running as a Python script.
---
 diffkemp/building/cc_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index a1c1275..c16a5ad 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -220,4 +220,4 @@ def target(driver, args):
 
 # Enable running directly under Python interpreter
 if __name__ == "__main__":
-    wrapper(sys.argv)
+    sys.exit(wrapper(sys.argv))
-- 
2.43.0


From a4be1b59ad55bfe3e62fe9253b29d520d54f6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 02/63] fix: record IR files of compilations without an
 explicit output file

The condition choosing source files was inverted and the source directory was
kept in the path, so no such file was ever put into the wrapper database.
---
 diffkemp/building/cc_wrapper.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index c16a5ad..b9bd831 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -164,9 +164,10 @@ def wrapper(argv):
         db.append(prefix + os.path.join(os.getcwd(), output_file))
     elif not linking:
         # Compiling to default output file
-        db.extend(["o:" + os.path.join(os.getcwd(),
-                                       arg.rsplit(".", 1)[0] + ".ll")
-                   for arg in clang_argv if not arg.endswith(".c")])
+        # Note: the compiler puts these into the current working directory
+        db.extend(["o:" + os.path.join(os.getcwd(), os.path.basename(
+                                       arg).rsplit(".", 1)[0] + ".ll")
+                   for arg in clang_argv if arg.endswith(".c")])
 
     # Analyze and modify parameters for clang (phase 2)
     clang_argv[0] = clang
-- 
2.43.0


From 3bd6e381e3f9715ae80426bdafdb6bbcfbaf9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 03/63] fix: handle colons in paths recorded by the compiler
 wrapper

---
 diffkemp/building/cc_wrapper.py          | 2 +-
 diffkemp/llvm_ir/wrapper_build_finder.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index b9bd831..8a6ad9a 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -208,7 +208,7 @@ def wrapper(argv):
     with open(db_filename, "a") as db_file:
         # TODO: RPython-compatible file locking
         for entry in db:
-            if not os.path.exists(entry.split(":")[1]):
+            if not os.path.exists(entry.split(":", 1)[1]):
                 continue
             db_file.write(entry + "\n")
 
diff --git a/diffkemp/llvm_ir/wrapper_build_finder.py b/diffkemp/llvm_ir/wrapper_build_finder.py
index c058d28..33f8637 100644
--- a/diffkemp/llvm_ir/wrapper_build_finder.py
+++ b/diffkemp/llvm_ir/wrapper_build_finder.py
@@ -31,7 +31,7 @@ class WrapperBuildFinder(LlvmSourceFinder):
         # present in the o: files
         llvm_files = []
         with open(self.wrapper_db_filename, 'r') as db_file:
-            llvm_files = [line.split(':')[1].rstrip()
+            llvm_files = [line.split(':', 1)[1].rstrip('\n')
                           for line in db_file.readlines()
                           if line.startswith("o:")]
 
-- 
2.43.0


From 93cabbeb3e4aca499c47fa627eee0ba5a4035736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 04/63] fix: do not let clang overwrite the native output given
 as -ofile

---
 diffkemp/building/cc_wrapper.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index 8a6ad9a..e31ea1d 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -113,6 +113,17 @@ def wrapper(argv):
         print("cc_wrapper: warning: original build command failed")
         return 1
 
+    # Split the joined form of the output option (-ofile), so that clang does
+    # not overwrite the output of GCC
+    split_argv = []
+    for arg in argv:
+        if arg.startswith("-o") and len(arg) > 2:
+            split_argv.append("-o")
+            split_argv.append(arg[2:])
+        else:
+            split_argv.append(arg)
+    argv = split_argv
+
     # Analyze and modify parameters for clang (phase 1)
     clang_argv = []
     old_clang = clang
-- 
2.43.0


From 82c6662db0bac5c9d77d3d58043919ce1ba5d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 05/63] fix: warn about a missing LLVM file instead of raising
 AttributeError

---
 diffkemp/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/utils.py b/diffkemp/utils.py
index c7d1cb9..6559b7f 100644
--- a/diffkemp/utils.py
+++ b/diffkemp/utils.py
@@ -1,6 +1,7 @@
 import os
 import subprocess
 import re
+import sys
 
 LLVM_FUNCTION_REGEX = re.compile(r"^define.*@(\w+)\(", flags=re.MULTILINE)
 
@@ -87,7 +88,7 @@ def get_functions_from_llvm(llvm_files):
     functions = {}
     for llvm_filename in llvm_files:
         if not os.path.exists(llvm_filename):
-            os.stderr.write(
+            sys.stderr.write(
                 f"Warning: llvm file '{llvm_filename}' does not exist\n")
             continue
         with open(llvm_filename, 'r') as llvm_file:
-- 
2.43.0


From 167c170f4315ff817d6ddf7c7f594115c9d7c155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 06/63] fix: do not reuse incomplete LLVM IR of an interrupted
 kernel build

---
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 083a83c..42b6440 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -577,16 +577,20 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
                 command = self._kbuild_object_command("{}.o".format(name))
                 # Convert the GCC command to a corresponding Clang command
                 command = self._gcc_to_llvm(command)
+                # Build into a temporary file so that an incomplete file is
+                # never taken for an up-to-date one
+                output_file = command[-1]
+                command[-1] = "{}.tmp".format(output_file)
                 # Run the Clang command
                 with open(os.devnull, "w") as stderr:
                     try:
                         check_call(command, stderr=stderr)
                     except CalledProcessError:
-                        os.chdir(cwd)
                         raise BuildException(
                             "Could not build {}".format(llvm_file))
                 # Run opt with selected optimisations
-                self._opt_llvm(llvm_file)
+                self._opt_llvm(command[-1])
+                os.replace(command[-1], output_file)
             except BuildException:
                 raise
             finally:
-- 
2.43.0


From a5e85f437ba91c39f3489cd707ffd8eed91e1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:14 +0000
Subject: [PATCH 07/63] fix: do not reuse an incomplete cscope database

---
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 42b6440..ed1479e 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -179,8 +179,10 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
         if os.path.isfile(cscope_path):
             return
 
-        # Write all files that need to be scanned into cscope.files
-        with open(cscope_path, "w") as cscope_file:
+        # Write all files that need to be scanned into a temporary file, which
+        # becomes cscope.files once the database is complete
+        tmp_path = "{}.tmp".format(cscope_path)
+        with open(tmp_path, "w") as cscope_file:
             for root, dirs, files in os.walk(self.source_dir):
                 if ("/Documentation/" in root or
                         "/scripts/" in root or
@@ -197,10 +199,12 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
 
         # Build cscope database
         try:
-            check_call(["cscope", "-b", "-q", "-k"], cwd=self.source_dir)
+            check_call(["cscope", "-b", "-q", "-k", "-i", tmp_path],
+                       cwd=self.source_dir)
         except CalledProcessError:
-            os.remove(cscope_path)
+            os.remove(tmp_path)
             raise BuildException("Error building cscope database")
+        os.replace(tmp_path, cscope_path)
 
     def _cscope_run(self, symbol, definition):
         """
-- 
2.43.0


From 3115bf37453f11b6938873b0e439b8ebbf6dca41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:37 +0000
Subject: [PATCH 08/63] fix: restore kernel headers when building of a kernel
 snapshot fails

---
 diffkemp/diffkemp.py                           | 15 ++++++++++++++-
 diffkemp/llvm_ir/kernel_llvm_source_builder.py |  6 +++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 4b53dd1..047eac8 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -165,8 +165,21 @@ def build_kernel(args):
       - list of functions (default)
       - list of sysctl options
     """
-    # Create a new snapshot from the kernel source directory.
     source_finder = KernelLlvmSourceBuilder(args.source_dir)
+    try:
+        generate_kernel_snapshot(args, source_finder)
+    finally:
+        # Restore the kernel sources, even if the build failed
+        source_finder.finalize()
+
+
+def generate_kernel_snapshot(args, source_finder):
+    """
+    Generate the snapshot of a Linux kernel source tree.
+    :param args: CLI arguments of the "diffkemp build-kernel" command.
+    :param source_finder: Source finder for the kernel source tree.
+    """
+    # Create a new snapshot from the kernel source directory.
     source = KernelSourceTree(args.source_dir, source_finder)
     list_kind = "sysctl" if args.sysctl else "function"
     snapshot = Snapshot.create_from_source(source,
diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index ed1479e..c18ff98 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -28,7 +28,11 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
                                  ["include/linux/compiler-gcc.h",
                                   "include/linux/compiler_types.h"]]
         # Prepare kernel so that it can be built with Clang
-        self.initialize()
+        try:
+            self.initialize()
+        except BaseException:
+            self.finalize()
+            raise
         # Caching built modules to reuse them
         self.built_modules = dict()
 
-- 
2.43.0


From 3c259733f63457445a4b3640a104ab87040b5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 09/63] fix: restore kernel headers when a comparison fails

---
 diffkemp/config.py   | 18 +++++++++++++++++-
 diffkemp/diffkemp.py | 15 +++++++++++++++
 diffkemp/snapshot.py | 17 ++++++++++++-----
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/diffkemp/config.py b/diffkemp/config.py
index cfa2862..65d2fc2 100644
--- a/diffkemp/config.py
+++ b/diffkemp/config.py
@@ -170,8 +170,24 @@ class Config:
         """
         # Parse both the new and the old snapshot.
         snapshot_first = Snapshot.load_from_dir(args.snapshot_dir_old)
-        snapshot_second = Snapshot.load_from_dir(args.snapshot_dir_new)
+        snapshot_second = None
+        try:
+            snapshot_second = Snapshot.load_from_dir(args.snapshot_dir_new)
+            return cls._from_snapshots(args, snapshot_first, snapshot_second)
+        except BaseException:
+            snapshot_first.finalize()
+            if snapshot_second is not None:
+                snapshot_second.finalize()
+            raise
 
+    @classmethod
+    def _from_snapshots(cls, args, snapshot_first, snapshot_second):
+        """
+        Create the configuration from command line arguments and snapshots.
+        :param args: Command line arguments
+        :param snapshot_first: First (loaded) snapshot.
+        :param snapshot_second: Second (loaded) snapshot.
+        """
         if args.function:
             snapshot_first.filter([args.function])
             snapshot_second.filter([args.function])
diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 047eac8..f2ac22f 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -384,6 +384,21 @@ def compare(args):
         output_dir = None
 
     config = Config.from_args(args)
+    try:
+        return compare_snapshots(args, config, output_dir)
+    finally:
+        # Restore the snapshots, even if the comparison failed
+        config.snapshot_first.finalize()
+        config.snapshot_second.finalize()
+
+
+def compare_snapshots(args, config, output_dir):
+    """
+    Compare the snapshots given by the configuration.
+    :param args: CLI arguments of the "diffkemp compare" command.
+    :param config: Configuration (contains the loaded snapshots).
+    :param output_dir: Directory for the results (None for standard output).
+    """
     result = Result(Result.Kind.NONE, args.snapshot_dir_old,
                     args.snapshot_dir_old, start_time=default_timer())
 
diff --git a/diffkemp/snapshot.py b/diffkemp/snapshot.py
index 0aa4797..62c81d4 100644
--- a/diffkemp/snapshot.py
+++ b/diffkemp/snapshot.py
@@ -97,21 +97,28 @@ class Snapshot:
 
         with open(os.path.join(snapshot_dir, config_file), "r") as \
                 snapshot_yaml:
-            loaded_snapshot._from_yaml(snapshot_yaml.read())
+            yaml_file = snapshot_yaml.read()
+        try:
+            loaded_snapshot._from_yaml(yaml_file)
+            loaded_snapshot._check_llvm_version(snapshot_dir)
+        except BaseException:
+            loaded_snapshot.finalize()
+            raise
 
+        return loaded_snapshot
+
+    def _check_llvm_version(self, snapshot_dir):
         # Check if the snapshot LLVM version is compatible with
         # the current version.
         llvm_version = get_llvm_version()
-        if llvm_version != loaded_snapshot.llvm_version:
+        if llvm_version != self.llvm_version:
             sys.stderr.write(
                 f"Error: The snapshot {snapshot_dir} was built with LLVM"
-                f"{loaded_snapshot.llvm_version}, "
+                f"{self.llvm_version}, "
                 f"the current version is {llvm_version}.\n"
             )
             sys.exit(errno.EINVAL)
 
-        return loaded_snapshot
-
     def finalize(self):
         """Run finalize for both source trees."""
         if self.source_tree is not None:
-- 
2.43.0


From 590df409d27af54067779393600cfca7fe95ae99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 10/63] fix: never leave an incomplete snapshot that can be
 loaded

---
 diffkemp/snapshot.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/diffkemp/snapshot.py b/diffkemp/snapshot.py
index 62c81d4..c2d2bdb 100644
--- a/diffkemp/snapshot.py
+++ b/diffkemp/snapshot.py
@@ -76,6 +76,10 @@ class Snapshot:
         # Cleanup or create the output directory of the new snapshot.
         if setup_dir:
             if os.path.isdir(output_path):
+                # Remove the YAML file first so that an incomplete snapshot is
+                # never left behind
+                if os.path.isfile(os.path.join(output_path, "snapshot.yaml")):
+                    os.remove(os.path.join(output_path, "snapshot.yaml"))
                 shutil.rmtree(output_path)
             os.mkdir(output_path)
 
@@ -133,9 +137,12 @@ class Snapshot:
                                            self.snapshot_tree)
 
         # Create the YAML snapshot representation inside the output directory.
-        with open(os.path.join(self.snapshot_tree.source_dir,
-                               "snapshot.yaml"), "w") as snapshot_yaml:
+        # The file must only appear once the snapshot is complete.
+        yaml_path = os.path.join(self.snapshot_tree.source_dir,
+                                 "snapshot.yaml")
+        with open(yaml_path + ".tmp", "w") as snapshot_yaml:
             snapshot_yaml.write(self.to_yaml())
+        os.replace(yaml_path + ".tmp", yaml_path)
 
     def add_fun(self, name, llvm_mod, glob_var=None, tag=None, group=None):
         """
-- 
2.43.0


From b945dde23c3c766290217c14a3e159601b441f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 11/63] fix: restore config.log when cleaning of the project is
 interrupted

---
 diffkemp/diffkemp.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index f2ac22f..c66bf58 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -79,9 +79,10 @@ def build_c_project(args):
         check_call(make_args + ["clean"], env=environment)
     except CalledProcessError:
         pass
-    if os.path.exists(config_log_filename + ".bak"):
-        # Restore config.log
-        os.rename(config_log_filename + ".bak", config_log_filename)
+    finally:
+        if os.path.exists(config_log_filename + ".bak"):
+            # Restore config.log
+            os.rename(config_log_filename + ".bak", config_log_filename)
 
     # If config.log is present, reconfigure using wrapper
     # Note: this is done to support building with nested configure
-- 
2.43.0


From 8f52e75a0a516bc27761396a15033b087a3bd357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 12/63] fix: skip sysctl options whose parent table does not
 exist

---
 diffkemp/llvm_ir/kernel_source_tree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/diffkemp/llvm_ir/kernel_source_tree.py b/diffkemp/llvm_ir/kernel_source_tree.py
index 9914b24..356ea0d 100644
--- a/diffkemp/llvm_ir/kernel_source_tree.py
+++ b/diffkemp/llvm_ir/kernel_source_tree.py
@@ -55,7 +55,10 @@ class KernelSourceTree(SourceTree):
 
             if i == len(entries) - 1:
                 return sysctl_mod
-            table = sysctl_mod.get_child(entry).name
+            child = sysctl_mod.get_child(entry)
+            if child is None:
+                raise SourceNotFoundException(sysctl)
+            table = child.name
         raise SourceNotFoundException(sysctl)
 
     def get_kernel_module(self, mod_dir, mod_name):
-- 
2.43.0


From e75276d91487a2005be07b15f3065802189ce108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:24 +0000
Subject: [PATCH 13/63] fix: go on when no use of a sysctl data variable is
 found

---
 diffkemp/diffkemp.py                           | 10 ++++++++--
 diffkemp/llvm_ir/kernel_llvm_source_builder.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index c66bf58..4c8867b 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -318,8 +318,14 @@ def generate_from_sysctl_list(snapshot, sysctl_list):
             data = sysctl_mod.get_data(sysctl)
             if not data:
                 continue
-            for data_mod in \
-                    snapshot.source_tree.get_modules_using_symbol(data.name):
+            try:
+                data_mods = snapshot.source_tree.get_modules_using_symbol(
+                    data.name)
+            except SourceNotFoundException:
+                print("  no use of data variable \"{}\" found".format(
+                    data.name))
+                continue
+            for data_mod in data_mods:
                 for data_fun in data_mod.get_functions_using_param(data):
                     if data_fun == proc_fun:
                         continue
diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index c18ff98..1295602 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -94,7 +94,7 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
         try:
             cscope_out = self._cscope_run(symbol, definition=False)
             if len(cscope_out) == 0:
-                raise SourceNotFoundException
+                raise SourceNotFoundException(symbol)
             files = set()
             for line in cscope_out:
                 if line.split()[0].endswith(".h"):
-- 
2.43.0


From e61514482ed600e417d5d448b364e216b55d4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 14/63] fix: do not let clang overwrite dependency files
 generated by GCC

---
 diffkemp/building/cc_wrapper.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index e31ea1d..9c8e4a1 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -133,6 +133,14 @@ def wrapper(argv):
     for index, arg in enumerate(argv):
         if arg in drop:
             continue
+        # Dependency files were already generated by GCC
+        if (arg.startswith("-MD") or arg.startswith("-MMD") or
+                arg.startswith("-MP") or arg.startswith("-MG") or
+                arg.startswith("-MF") or arg.startswith("-MT") or
+                arg.startswith("-MQ") or arg.startswith("-Wp,-M")):
+            continue
+        if index > 1 and argv[index - 1] in ["-MF", "-MT", "-MQ"]:
+            continue
         is_object_file = (arg.endswith(".o") or arg.endswith(".lo") or
                           arg.endswith(".ko"))
         is_source_file = arg.endswith(".c")
-- 
2.43.0


From c6d147bf2aff6cd06960c5b6b45482bd81b9446f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 15/63] fix: do not run clang when GCC only prints some
 information

---
 diffkemp/building/cc_wrapper.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diffkemp/building/cc_wrapper.py b/diffkemp/building/cc_wrapper.py
index 9c8e4a1..4ac43ae 100755
--- a/diffkemp/building/cc_wrapper.py
+++ b/diffkemp/building/cc_wrapper.py
@@ -113,6 +113,18 @@ def wrapper(argv):
         print("cc_wrapper: warning: original build command failed")
         return 1
 
+    # Do not run clang if the command did not compile or link anything, i.e. if
+    # it only preprocessed a source or printed some information
+    has_output = False
+    for arg in argv:
+        if arg in ["-E", "-M", "-MM"]:
+            return 0
+        if (arg.startswith("-o") or arg.endswith(".c") or arg.endswith(".o") or
+                arg.endswith(".lo") or arg.endswith(".ko")):
+            has_output = True
+    if not has_output:
+        return 0
+
     # Split the joined form of the output option (-ofile), so that clang does
     # not overwrite the output of GCC
     split_argv = []
-- 
2.43.0


From 7d72d1c60e8b1f1390131ebf1617fe80e3b27bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:11 +0000
Subject: [PATCH 16/63] fix: report functions without any difference as equal
 with --full-diff

---
 diffkemp/semdiff/function_diff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diffkemp/semdiff/function_diff.py b/diffkemp/semdiff/function_diff.py
index 9b0fd8f..62eedfd 100644
--- a/diffkemp/semdiff/function_diff.py
+++ b/diffkemp/semdiff/function_diff.py
@@ -307,6 +307,9 @@ def functions_diff(mod_first, mod_second,
                         fun_result.diff == ""):
                     continue
                 result.add_inner(fun_result)
+            if result.kind == Result.Kind.NONE:
+                # No object differs, neither semantically nor syntactically.
+                result.kind = Result.Kind.EQUAL
     except ValueError:
         result.kind = Result.Kind.ERROR
     except SimpLLException as e:
-- 
2.43.0


From 31138dcc4aeac182abe893e7d1e936aee9bcf206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:00 +0000
Subject: [PATCH 17/63] fix: keep results of the same function in several
 sysctl groups

---
 diffkemp/diffkemp.py       |  5 +++--
 diffkemp/output.py         |  3 ++-
 diffkemp/semdiff/result.py | 12 ++++++++----
 3 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 4c8867b..641eaa3 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -438,7 +438,8 @@ def compare_snapshots(args, config, output_dir):
 
             # Check if the module exists in both snapshots
             if old_fun_desc.mod is None or new_fun_desc.mod is None:
-                result.add_inner(Result(Result.Kind.UNKNOWN, fun, fun))
+                result.add_inner(Result(Result.Kind.UNKNOWN, fun, fun),
+                                 group_name)
                 if group_name is not None and not group_printed:
                     print("{}:".format(group_name))
                     group_printed = True
@@ -468,7 +469,7 @@ def compare_snapshots(args, config, output_dir):
                     else:
                         fun_result.kind = Result.Kind.EQUAL
 
-                result.add_inner(fun_result)
+                result.add_inner(fun_result, group_name)
 
                 # Printing information about failures and non-equal functions.
                 if fun_result.kind in [Result.Kind.NOT_EQUAL,
diff --git a/diffkemp/output.py b/diffkemp/output.py
index af34b34..5433fbb 100644
--- a/diffkemp/output.py
+++ b/diffkemp/output.py
@@ -37,7 +37,8 @@ class YamlOutput:
         """Creates call stacks of not-equal functions."""
         # list of all not-equal functions callstacks
         results = []
-        for fun_name, fun_result in self.result.inner.items():
+        for fun_result in self.result.inner.values():
+            fun_name = fun_result.first.name
             if fun_result.kind != Result.Kind.NOT_EQUAL:
                 continue
             self.function_names.add(fun_name)
diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index 7ac2423..8a04363 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -154,12 +154,16 @@ class Result:
     def __str__(self):
         return str(self.kind)
 
-    def add_inner(self, result):
+    def add_inner(self, result, group=None):
         """
         Add result of an inner entity.
         The overall current result is updated based on the entity result.
+        :param result: Result of the inner entity.
+        :param group: Group of the entity (the same entity can have a different
+                      result in every group).
         """
-        self.inner[result.first.name] = result
+        self.inner[(group, result.first.name)
+                   if group is not None else result.first.name] = result
         # The current result is joined with the inner result (the result with
         # a higher priority is chosen from the two).
         self.kind = Result.Kind(max(int(self.kind), int(result.kind)))
@@ -202,13 +206,13 @@ class Result:
                 print("\nFunctions that are unknown: ")
                 for f, r in sorted(self.inner.items()):
                     if r.kind == Result.Kind.UNKNOWN:
-                        print(f)
+                        print(r.first.name)
                 print()
             if errs > 0:
                 print("\nFunctions whose comparison ended with an error: ")
                 for f, r in sorted(self.inner.items()):
                     if r.kind == Result.Kind.ERROR:
-                        print(f)
+                        print(r.first.name)
                 print()
 
     def report_object_stat(self):
-- 
2.43.0


From 616f1aef395a9e090dbdc46b19c0c1687f966238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:36 +0000
Subject: [PATCH 18/63] fix: keep comparison graphs of all results

Definitions and statistics were lost when the last comparison had no graph or
when there were several groups of functions. Definitions are written in
a fixed order.
---
 diffkemp/output.py         | 29 +++++++++++++++--------------
 diffkemp/semdiff/result.py | 25 ++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 19 deletions(-)

diff --git a/diffkemp/output.py b/diffkemp/output.py
index 5433fbb..b05112c 100644
--- a/diffkemp/output.py
+++ b/diffkemp/output.py
@@ -76,17 +76,20 @@ class YamlOutput:
 
     def _create_definitions(self):
         self.output["definitions"] = {}
-        self._create_function_defs()
-        self._create_type_defs()
+        for graph in self.result.all_graphs():
+            self._create_function_defs(graph)
+            self._create_type_defs(graph)
 
-    def _create_function_defs(self):
-        if self.result.graph is None:
-            return
+    def _create_function_defs(self, graph):
         definitions = {}
-        for name in self.function_names:
-            if name not in self.result.graph.vertices:
+        for name in sorted(self.function_names):
+            if name not in graph.vertices:
+                continue
+            vertex = graph[name]
+            if name in self.output["definitions"] and \
+                    vertex.result == Result.Kind.ASSUMED_EQUAL:
+                # Only a declaration, another graph contains the definition.
                 continue
-            vertex = self.result.graph[name]
             definition = {
                 "kind": "function",
                 "old": self._create_def_info(vertex.lines[0],
@@ -104,18 +107,16 @@ class YamlOutput:
             definitions[name] = definition
         self.output["definitions"].update(definitions)
 
-    def _create_type_defs(self):
+    def _create_type_defs(self, graph):
         """Returns definitions of types.
         :param type_names: Set of tuples (type name, parent name),
                            parent name - name of function in which type is used
         """
-        if self.result.graph is None:
-            return
         definitions = {}
-        for type_name, parent_name in self.type_names:
-            if parent_name not in self.result.graph.vertices:
+        for type_name, parent_name in sorted(self.type_names):
+            if parent_name not in graph.vertices:
                 continue
-            vertex = self.result.graph[parent_name]
+            vertex = graph[parent_name]
             for non_fun in vertex.nonfun_diffs:
                 if non_fun.name == type_name and \
                         isinstance(non_fun, ComparisonGraph.TypeDiff):
diff --git a/diffkemp/semdiff/result.py b/diffkemp/semdiff/result.py
index 8a04363..942a8e8 100644
--- a/diffkemp/semdiff/result.py
+++ b/diffkemp/semdiff/result.py
@@ -170,7 +170,20 @@ class Result:
         # The graph of the latest inner result is the graph of the outer one.
         # Note: this is true because the graph is built incrementally, reusing
         # the already known results from the previous comparison.
-        self.graph = result.graph
+        # Results without any graph (e.g. of unknown functions) are skipped.
+        if result.graph is not None:
+            self.graph = result.graph
+
+    def all_graphs(self):
+        """
+        Get the graphs of all inner results, the latest one last. There may be
+        more of them since every group of functions has its own graph.
+        """
+        graphs = []
+        for graph in [r.graph for r in self.inner.values()] + [self.graph]:
+            if graph is not None and not any(graph is g for g in graphs):
+                graphs.append(graph)
+        return graphs
 
     def report_symbol_stat(self, show_errors=False):
         """
@@ -244,13 +257,15 @@ class Result:
                 unique_diffs.add(UniqueDiff(inner_res))
 
         # Generate counts
-        compared = len(self.graph.vertices)
+        vertices = [v for graph in self.all_graphs()
+                    for v in graph.vertices.values()]
+        compared = len(vertices)
         compared_instructions = sum([v.stats.compared_inst_cnt() for v in
-                                     self.graph.vertices.values()])
+                                     vertices])
         compared_lines = sum([v.stats.compared_lines_cnt() for v in
-                              self.graph.vertices.values()])
+                              vertices])
         equal_instructions = sum([v.stats.compared_inst_equal_cnt() for v
-                                  in self.graph.vertices.values()])
+                                  in vertices])
         if compared_instructions > 0:
             equal_percent = equal_instructions / compared_instructions * 100
         else:
-- 
2.43.0


From 5c52605da5244b7b92c44e68f1000927f253b3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 19/63] fix: notice errors of writing the .diff files

---
 diffkemp/diffkemp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 641eaa3..2b282f3 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -633,6 +633,10 @@ def print_syntax_diff(snapshot_dir_old, snapshot_dir_new, fun, fun_result,
                 output.write(text_indent("}}}\n", indent - 2))
             output.write("\n")
 
+        if output_dir:
+            # Do not miss errors of writing the last part of the file
+            output.close()
+
 
 def view(args):
     """
-- 
2.43.0


From 1e8948f8ab31ecc1536206fcfed2e82a71f0cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 20/63] fix: do not crash on modules or functions that SimpLL
 cannot compare

---
 diffkemp/simpll/SimpLL.cpp      | 10 ++++++++++
 diffkemp/simpll/library/FFI.cpp | 15 +++++++++++++++
 diffkemp/simpll/library/FFI.h   |  3 +++
 3 files changed, 28 insertions(+)

diff --git a/diffkemp/simpll/SimpLL.cpp b/diffkemp/simpll/SimpLL.cpp
index f087dfa..ab5957f 100644
--- a/diffkemp/simpll/SimpLL.cpp
+++ b/diffkemp/simpll/SimpLL.cpp
@@ -178,6 +178,16 @@ int main(int argc, const char **argv) {
             parseIRFile(FirstFileOpt, err, context_first));
     std::unique_ptr<Module> SecondModule(
             parseIRFile(SecondFileOpt, err, context_second));
+    if (!FirstModule || !SecondModule) {
+        err.print(argv[0], errs());
+        return 1;
+    }
+    if (!FunctionOpt.empty()
+        && (!FirstModule->getFunction(FunName.first)
+            || !SecondModule->getFunction(FunName.second))) {
+        errs() << argv[0] << ": function " << FunctionOpt << " not found\n";
+        return 1;
+    }
     Config config(FunName.first,
                   FunName.second,
                   FirstModule.get(),
diff --git a/diffkemp/simpll/library/FFI.cpp b/diffkemp/simpll/library/FFI.cpp
index 5e75d30..d46a63d 100644
--- a/diffkemp/simpll/library/FFI.cpp
+++ b/diffkemp/simpll/library/FFI.cpp
@@ -77,6 +77,14 @@ BuiltinPatterns BuiltinPatternsFromC(builtin_patterns PatternsC) {
     };
 }
 
+/// Check that both modules were loaded and contain the compared functions.
+static bool canCompare(Module *ModL,
+                       Module *ModR,
+                       const char *FunL,
+                       const char *FunR) {
+    return ModL && ModR && ModL->getFunction(FunL) && ModR->getFunction(FunR);
+}
+
 extern "C" {
 void *loadModule(const char *Path) {
     SMDiagnostic err;
@@ -243,6 +251,11 @@ void runSimpLL(void *ModL,
                const char *FunR,
                struct config Conf,
                char *Output) {
+    // Empty output signalizes a failure.
+    Output[0] = '\0';
+    if (!canCompare((Module *)ModL, (Module *)ModR, FunL, FunR))
+        return;
+
     Config config(FunL,
                   FunR,
                   (Module *)ModL,
@@ -263,6 +276,8 @@ void runSimpLL(void *ModL,
     processAndCompare(config, Result);
 
     std::string outputString = reportOutputToString(Result);
+    if (outputString.size() >= SIMPLL_OUTPUT_SIZE)
+        return;
     strcpy(Output, outputString.c_str());
 }
 
diff --git a/diffkemp/simpll/library/FFI.h b/diffkemp/simpll/library/FFI.h
index 1a8adaa..01e2608 100644
--- a/diffkemp/simpll/library/FFI.h
+++ b/diffkemp/simpll/library/FFI.h
@@ -15,6 +15,9 @@
 #ifndef DIFFKEMP_SIMPLL_FFI_H
 #define DIFFKEMP_SIMPLL_FFI_H
 
+/// Size of the buffer for the output (allocated in simpll.py).
+#define SIMPLL_OUTPUT_SIZE 1000000
+
 #ifdef __cplusplus
 extern "C" {
 #endif
-- 
2.43.0


From baf46f0f87a14a7a807d2ecc7413ae0f461522b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 21/63] fix: treat missing or invalid results of SimpLL as
 errors

---
 diffkemp/simpll/simpll.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index ebb483f..bfd9630 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -205,7 +205,10 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
             result_graph.mark_uncachable_from_assumed_equal()
             missing_defs = simpll_result["missing-defs"] \
                 if "missing-defs" in simpll_result else None
-    except yaml.YAMLError:
-        pass
+    except (yaml.YAMLError, AttributeError, LookupError, TypeError,
+            ValueError):
+        raise SimpLLException("Invalid output of SimpLL")
+    if fun_second not in result_graph.vertices:
+        raise SimpLLException("SimpLL returned no result")
 
     return first_out, second_out, result_graph, missing_defs
-- 
2.43.0


From 04a534139013c6668513964da653e66e2a626fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:12 +0000
Subject: [PATCH 22/63] fix: pass patterns to preprocessing of cached modules

---
 diffkemp/simpll/simpll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index bfd9630..d600df8 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -46,7 +46,7 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
         for module in [first, second]:
             if module not in module_cache and module in modules_to_cache:
                 module_cache[module] = SimpLLModule(module)
-                module_cache[module].preprocess(config.builtin_patterns)
+                module_cache[module].preprocess(builtin_patterns[0])
 
         use_cached_modules = (module_cache and first in module_cache and
                               second in module_cache)
-- 
2.43.0


From 1c8e187061f47b7b38d2ea5e1c4f26c92b317299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 23/63] fix: report an error when the SimpLL binary cannot be
 run

---
 diffkemp/simpll/simpll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index d600df8..8c537b0 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -164,7 +164,7 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
                 print(" ".join(simpll_command))
 
             simpll_out = check_output(simpll_command)
-        except CalledProcessError:
+        except (CalledProcessError, OSError):
             raise SimpLLException("Simplifying files failed")
 
     if config.output_llvm_ir:
-- 
2.43.0


From ebe70351ac4dec8a96f768d0d81e724176aca61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 24/63] fix: do not filter failed and unknown results by regex

---
 diffkemp/diffkemp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 2b282f3..0114cbf 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -460,7 +460,8 @@ def compare_snapshots(args, config, output_dir):
             result_graph = fun_result.graph
 
             if fun_result is not None:
-                if args.regex_filter is not None:
+                if args.regex_filter is not None and \
+                        fun_result.kind == Result.Kind.NOT_EQUAL:
                     # Filter results by regex
                     pattern = re.compile(args.regex_filter)
                     for called_res in fun_result.inner.values():
-- 
2.43.0


From 28fd286806b03727c79e6ea3a43be3ac1728bf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:04 +0000
Subject: [PATCH 25/63] fix: compare functions whose source is not available

---
 diffkemp/output.py | 2 +-
 diffkemp/utils.py  | 7 +++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/diffkemp/output.py b/diffkemp/output.py
index b05112c..e4e6c2a 100644
--- a/diffkemp/output.py
+++ b/diffkemp/output.py
@@ -138,7 +138,7 @@ class YamlOutput:
     def _create_def_info(self, line, file, snapshot_dir, kind):
         info = {
             "line": line,
-            "file": os.path.relpath(file, snapshot_dir),
+            "file": os.path.relpath(file, snapshot_dir) if file else "",
         }
         try:
             info["end-line"] = get_end_line(file, line, kind)
diff --git a/diffkemp/utils.py b/diffkemp/utils.py
index 6559b7f..a0f1845 100644
--- a/diffkemp/utils.py
+++ b/diffkemp/utils.py
@@ -62,8 +62,15 @@ def get_end_line(filename, start, kind):
     elif kind == "type":
         terminator_list = ["};"]
 
+    # The source file is not known without debugging information and it need
+    # not be available.
+    if not filename or not start or not os.path.isfile(filename):
+        raise EndLineNotFound
+
     with open(filename, "r", encoding='utf-8') as file:
         lines = file.readlines()
+        if start > len(lines):
+            raise EndLineNotFound
 
         # The end of the function is detected as a line that contains
         # nothing but an ending curly bracket
-- 
2.43.0


From b1b9018c733b15e9a8421b56b72f8c115fc1081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:26 +0000
Subject: [PATCH 26/63] fix: print failed and unknown functions with
 --full-diff too

---
 diffkemp/diffkemp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 0114cbf..0d79d6a 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -477,7 +477,9 @@ def compare_snapshots(args, config, output_dir):
                                        Result.Kind.UNKNOWN,
                                        Result.Kind.ERROR] or config.full_diff:
                     if fun_result.kind == Result.Kind.NOT_EQUAL or \
-                       config.full_diff:
+                       config.full_diff and \
+                       fun_result.kind not in [Result.Kind.UNKNOWN,
+                                               Result.Kind.ERROR]:
                         # Create the output directory if needed
                         if output_dir is not None:
                             if not os.path.isdir(output_dir):
-- 
2.43.0


From 3c855fdb780753b3b401b5d46bf333246ccd94e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:09 +0000
Subject: [PATCH 27/63] fix: do not mistake paths next to the source directory
 for paths in it

---
 diffkemp/llvm_ir/llvm_module.py | 15 ++++++++++-----
 diffkemp/llvm_ir/source_tree.py |  3 ++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/diffkemp/llvm_ir/llvm_module.py b/diffkemp/llvm_ir/llvm_module.py
index 01d0b45..197f3fa 100644
--- a/diffkemp/llvm_ir/llvm_module.py
+++ b/diffkemp/llvm_ir/llvm_module.py
@@ -153,22 +153,27 @@ class LlvmModule:
         :param new_root: Project root directory to move to.
         :return:
         """
-        if self.llvm.startswith(old_root):
+        old_root_prefix = os.path.join(old_root, "")
+        if self.llvm.startswith(old_root_prefix):
             dest_llvm = os.path.join(new_root,
                                      os.path.relpath(self.llvm, old_root))
             # Copy the .ll file and replace all occurrences of the old root by
-            # the new root. There are usually in debug info.
+            # the new root. There are usually in debug info. Paths that only
+            # contain the path to the old root must be preserved.
+            old_root_pattern = re.compile(r"(?<![\w./-]){}(?![\w.-])".format(
+                re.escape(old_root.rstrip("/"))))
+            new_root_path = new_root.rstrip("/")
             with open(self.llvm, "r") as llvm:
                 with open(dest_llvm, "w") as llvm_new:
                     for line in llvm.readlines():
                         if "constant" not in line:
-                            llvm_new.write(line.replace(old_root.strip("/"),
-                                                        new_root.strip("/")))
+                            llvm_new.write(old_root_pattern.sub(
+                                lambda _: new_root_path, line))
                         else:
                             llvm_new.write(line)
             self.llvm = dest_llvm
 
-        if self.source and self.source.startswith(old_root):
+        if self.source and self.source.startswith(old_root_prefix):
             # Copy the C source file.
             dest_source = os.path.join(new_root,
                                        os.path.relpath(self.source, old_root))
diff --git a/diffkemp/llvm_ir/source_tree.py b/diffkemp/llvm_ir/source_tree.py
index 7eafbf0..0bcfaae 100644
--- a/diffkemp/llvm_ir/source_tree.py
+++ b/diffkemp/llvm_ir/source_tree.py
@@ -115,7 +115,8 @@ class SourceTree:
 
             # Copy linked sources and headers.
             for src_sourcefile in mod.get_included_sources():
-                if not src_sourcefile.startswith(self.source_dir):
+                if not src_sourcefile.startswith(
+                        os.path.join(self.source_dir, "")):
                     continue
                 dest_sourcefile = os.path.join(
                     target_source_tree.source_dir,
-- 
2.43.0


From 1117607134b6c96840666dccc6f771c32eab51a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 28/63] fix: rebuild LLVM IR of kernel sources when their
 headers change

---
 .../llvm_ir/kernel_llvm_source_builder.py     | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 1295602..0e4b13c 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -565,6 +565,22 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
             os.chdir(cwd)
         raise BuildException("Could not build module {}".format(mod_name))
 
+    def _headers_changed(self, llvm_file):
+        """
+        Check if any of the sources that the LLVM IR file was built from is
+        newer than the LLVM IR file (or does not exist anymore). The compiler
+        headers, which are adjusted on each build, are not considered.
+        :param llvm_file: LLVM IR file to check
+        """
+        built = os.path.getmtime(llvm_file)
+        for source in LlvmModule(llvm_file).get_included_sources():
+            source = os.path.normpath(source)
+            if source in self.compiler_headers:
+                continue
+            if not os.path.isfile(source) or os.path.getmtime(source) > built:
+                return True
+        return False
+
     def _build_source_to_llvm(self, source_file):
         """
         Build C source file into LLVM IR.
@@ -575,7 +591,8 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
         """
         llvm_file = "{}.ll".format(source_file[:-2])
         if (not os.path.isfile(llvm_file) or os.path.getmtime(llvm_file) <
-                os.path.getmtime(source_file)):
+                os.path.getmtime(source_file) or
+                self._headers_changed(llvm_file)):
             cwd = os.getcwd()
             os.chdir(self.source_dir)
 
-- 
2.43.0


From bc7258d9c0ad0a16cf0f6bfbf41f27a0d6e5e861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:14 +0000
Subject: [PATCH 29/63] fix: only consider headers in the source directory when
 rebuilding IR

---
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 0e4b13c..317c035 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -568,16 +568,19 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
     def _headers_changed(self, llvm_file):
         """
         Check if any of the sources that the LLVM IR file was built from is
-        newer than the LLVM IR file (or does not exist anymore). The compiler
-        headers, which are adjusted on each build, are not considered.
+        newer than the LLVM IR file. Sources outside the source directory
+        (which the file refers to when the directory was copied or moved) and
+        the compiler headers (which are adjusted on each build) are not
+        considered.
         :param llvm_file: LLVM IR file to check
         """
         built = os.path.getmtime(llvm_file)
         for source in LlvmModule(llvm_file).get_included_sources():
             source = os.path.normpath(source)
-            if source in self.compiler_headers:
+            if (not source.startswith(os.path.join(self.source_dir, "")) or
+                    source in self.compiler_headers):
                 continue
-            if not os.path.isfile(source) or os.path.getmtime(source) > built:
+            if os.path.isfile(source) and os.path.getmtime(source) > built:
                 return True
         return False
 
-- 
2.43.0


From 0c09ad162839c6af796209e5f00f7667031c4d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 30/63] fix: link definitions without overwriting modules,
 restore them after failures

---
 diffkemp/llvm_ir/llvm_module.py   | 62 ++++++++++++++++++++-----------
 diffkemp/semdiff/function_diff.py | 16 +++++++-
 2 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/diffkemp/llvm_ir/llvm_module.py b/diffkemp/llvm_ir/llvm_module.py
index 197f3fa..fa70d7c 100644
--- a/diffkemp/llvm_ir/llvm_module.py
+++ b/diffkemp/llvm_ir/llvm_module.py
@@ -9,6 +9,7 @@ from diffkemp.utils import get_opt_command
 import os
 import re
 import shutil
+import tempfile
 from subprocess import check_call, CalledProcessError
 
 # Set of standard functions that are supported, so they should not be
@@ -27,6 +28,14 @@ def supported_fun(llvm_fun):
                 any([name.startswith(p) for p in supported_prefixes]))
 
 
+def _remove_file(path):
+    """Remove a temporary file."""
+    try:
+        os.remove(path)
+    except OSError:
+        pass
+
+
 class LlvmParam:
     """
     A parameter represented by a (global) variable and an optional list of
@@ -60,8 +69,7 @@ class LlvmModule:
 
     def clean_module(self):
         """Free the parsed LLVM module."""
-        if self.llvm_module is not None:
-            del self.llvm_module
+        self.llvm_module = None
 
     @staticmethod
     def clean_all():
@@ -75,27 +83,37 @@ class LlvmModule:
         if not link_llvm_modules:
             return False
 
-        if "-linked" not in self.llvm:
-            new_llvm = "{}-linked.ll".format(self.llvm[:-3])
-        else:
-            new_llvm = self.llvm
-        link_command = ["llvm-link", "-S", self.llvm]
-        link_command.extend([m.llvm for m in link_llvm_modules])
-        link_command.extend(["-o", new_llvm])
-        opt_command = get_opt_command([("constmerge", "module")], new_llvm)
-        with open(os.devnull, "w") as devnull:
-            try:
+        # Link into a new temporary file so that no existing file (possibly
+        # used by another comparison) is changed.
+        new_llvm = None
+        linked = False
+        try:
+            fd, new_llvm = tempfile.mkstemp(
+                prefix="{}-".format(os.path.basename(self.llvm)[:-3]),
+                suffix="-linked.ll", dir=os.path.dirname(self.llvm))
+            os.close(fd)
+            link_command = ["llvm-link", "-S", self.llvm]
+            link_command.extend([m.llvm for m in link_llvm_modules])
+            link_command.extend(["-o", new_llvm])
+            opt_command = get_opt_command([("constmerge", "module")], new_llvm)
+            with open(os.devnull, "w") as devnull:
                 check_call(link_command, stdout=devnull, stderr=devnull)
                 check_call(opt_command, stdout=devnull, stderr=devnull)
-                if self.unlinked_llvm is None:
-                    self.unlinked_llvm = self.llvm
-                self.llvm = new_llvm
-                self.linked_modules.update(link_llvm_modules)
-                self.parse_module(True)
-            except CalledProcessError:
-                return False
-            finally:
-                return any([m for m in link_llvm_modules if self.links_mod(m)])
+            self.llvm_module = SimpLLModule(new_llvm)
+            linked = True
+        except (CalledProcessError, OSError, ValueError):
+            return False
+        finally:
+            if not linked and new_llvm is not None:
+                _remove_file(new_llvm)
+
+        if self.unlinked_llvm is None:
+            self.unlinked_llvm = self.llvm
+        else:
+            _remove_file(self.llvm)
+        self.llvm = new_llvm
+        self.linked_modules.update(link_llvm_modules)
+        return True
 
     def find_param_var(self, param):
         """
@@ -141,9 +159,11 @@ class LlvmModule:
     def restore_unlinked_llvm(self):
         """Restore the module to the state before any linking was done."""
         if self.unlinked_llvm is not None:
+            linked_llvm = self.llvm
             self.llvm = self.unlinked_llvm
             self.unlinked_llvm = None
             self.linked_modules = set()
+            _remove_file(linked_llvm)
             self.parse_module(True)
 
     def move_to_other_root_dir(self, old_root, new_root):
diff --git a/diffkemp/semdiff/function_diff.py b/diffkemp/semdiff/function_diff.py
index 62eedfd..0ce3385 100644
--- a/diffkemp/semdiff/function_diff.py
+++ b/diffkemp/semdiff/function_diff.py
@@ -47,6 +47,16 @@ def _link_symbol_def(snapshot, module, symbol):
     return result
 
 
+def _restore_unlinked(*modules):
+    """Restore modules to the state before any definitions were linked."""
+    for module in modules:
+        try:
+            module.restore_unlinked_llvm()
+        except ValueError:
+            # The module cannot be parsed, its comparisons fail on their own.
+            pass
+
+
 def _run_llreve_z3(first, second, funFirst, funSecond, coupled, timeout,
                    verbosity):
     """
@@ -258,8 +268,7 @@ def functions_diff(mod_first, mod_second,
                                                      fun_second,
                                                      config.full_diff)
 
-        mod_first.restore_unlinked_llvm()
-        mod_second.restore_unlinked_llvm()
+        _restore_unlinked(mod_first, mod_second)
 
         if not objects_to_compare:
             result.kind = Result.Kind.EQUAL
@@ -316,6 +325,9 @@ def functions_diff(mod_first, mod_second,
         if config.verbosity > 0:
             print(e)
         result.kind = Result.Kind.ERROR
+    finally:
+        # Linked definitions must not be seen by the next comparisons.
+        _restore_unlinked(mod_first, mod_second)
     result.graph = (curr_result_graph if curr_result_graph
                     else prev_result_graph)
     return result
-- 
2.43.0


From 054d3342b038824f02fc391d0df4242b3b81488b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 31/63] fix: look for definitions in the snapshot before the
 original sources

---
 diffkemp/llvm_ir/wrapper_build_finder.py | 34 ++++++++++++++++++++++--
 diffkemp/snapshot.py                     |  4 ++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/diffkemp/llvm_ir/wrapper_build_finder.py b/diffkemp/llvm_ir/wrapper_build_finder.py
index 33f8637..b6f957d 100644
--- a/diffkemp/llvm_ir/wrapper_build_finder.py
+++ b/diffkemp/llvm_ir/wrapper_build_finder.py
@@ -12,9 +12,21 @@ class WrapperBuildFinder(LlvmSourceFinder):
     LLVM source finder for projects that are entirely compiled in build phase
     of DiffKemp using the compiler wrapper.
     """
-    def __init__(self, source_dir, wrapper_db_filename):
+    def __init__(self, source_dir, wrapper_db_filename, orig_source_dir=None,
+                 write_function_list=True):
+        """
+        :param source_dir: Directory with the project.
+        :param wrapper_db_filename: Database created by the wrapper.
+        :param orig_source_dir: Directory in which the project was built if it
+            differs from source_dir. LLVM IR files that were copied from there
+            into source_dir are taken from source_dir.
+        :param write_function_list: Write the list of functions found into the
+            project directory.
+        """
         LlvmSourceFinder.__init__(self, source_dir)
         self.wrapper_db_filename = wrapper_db_filename
+        self.orig_source_dir = orig_source_dir
+        self.write_function_list = write_function_list
         self.functions = {}
         # Prepare for snapshot generation
         self.initialize()
@@ -23,7 +35,9 @@ class WrapperBuildFinder(LlvmSourceFinder):
         return "wrapper_build_tree"
 
     def clone_to_dir(self, new_source_dir):
-        return WrapperBuildFinder(new_source_dir, self.wrapper_db_filename)
+        return WrapperBuildFinder(
+            new_source_dir, self.wrapper_db_filename,
+            write_function_list=self.write_function_list)
 
     def initialize(self):
         # Read LLVM IR file list from database generated by wrapper
@@ -34,15 +48,31 @@ class WrapperBuildFinder(LlvmSourceFinder):
             llvm_files = [line.split(':', 1)[1].rstrip('\n')
                           for line in db_file.readlines()
                           if line.startswith("o:")]
+        llvm_files = [self._relocate(llvm_file) for llvm_file in llvm_files]
 
         self.functions = get_functions_from_llvm(llvm_files)
 
+        if not self.write_function_list:
+            return
         # Write out functions list into a file in the snapshot directory
         with open(os.path.join(self.source_dir,
                                'function_list'), 'w') as function_list_file:
             for function_name in self.functions.keys():
                 function_list_file.write(function_name + '\n')
 
+    def _relocate(self, llvm_file):
+        """
+        Get the copy of an LLVM IR file inside source_dir if there is one.
+        """
+        if (self.orig_source_dir is not None and
+                llvm_file.startswith(os.path.join(self.orig_source_dir, ""))):
+            copied_file = os.path.join(
+                self.source_dir,
+                os.path.relpath(llvm_file, self.orig_source_dir))
+            if os.path.isfile(copied_file):
+                return copied_file
+        return llvm_file
+
     def finalize(self):
         pass
 
diff --git a/diffkemp/snapshot.py b/diffkemp/snapshot.py
index c2d2bdb..c89c8bd 100644
--- a/diffkemp/snapshot.py
+++ b/diffkemp/snapshot.py
@@ -217,7 +217,9 @@ class Snapshot:
         elif yaml_dict["llvm_source_finder"]["kind"] == "wrapper_build_tree":
             source_dir = self.snapshot_tree.source_dir
             source_finder = WrapperBuildFinder(
-                source_dir, os.path.join(source_dir, "diffkemp-wdb"))
+                source_dir, os.path.join(source_dir, "diffkemp-wdb"),
+                orig_source_dir=yaml_dict.get("source_dir"),
+                write_function_list=False)
             self.snapshot_tree = SourceTree(source_dir, source_finder)
 
         # Add source tree if present
-- 
2.43.0


From bdda710219b269b1af07fec93cb27537e47d27e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:44 +0000
Subject: [PATCH 32/63] fix: end the process forked for a comparison even on
 exceptions

---
 diffkemp/simpll/simpll.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index 8c537b0..3cbf087 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -90,13 +90,20 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
                 pid = os.fork()
                 if pid == 0:
                     # Child process - run SimpLL and send result through pipe
-                    os.close(r)
-                    lib.runSimpLL(module_left, module_right, module_left_out,
-                                  module_right_out, fun_left, fun_right,
-                                  conf_struct[0], output)
-                    os.write(w, ffi.string(output))
-                    os.close(w)
-                    os._exit(0)
+                    # The process must end here, even on an exception (e.g.
+                    # on an interrupt, which is delivered to the child, too).
+                    status = 1
+                    try:
+                        os.close(r)
+                        lib.runSimpLL(module_left, module_right,
+                                      module_left_out, module_right_out,
+                                      fun_left, fun_right, conf_struct[0],
+                                      output)
+                        os.write(w, ffi.string(output))
+                        os.close(w)
+                        status = 0
+                    finally:
+                        os._exit(status)
                 else:
                     # Parent process - collect result from pipe
                     os.close(w)
-- 
2.43.0


From 67099f8859e323e9c69bfdc2fc7f34e3d049e850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 33/63] fix: find kernel sources wherever the kernel is located

---
 diffkemp/llvm_ir/kernel_llvm_source_builder.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/diffkemp/llvm_ir/kernel_llvm_source_builder.py b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
index 317c035..ab49ea6 100644
--- a/diffkemp/llvm_ir/kernel_llvm_source_builder.py
+++ b/diffkemp/llvm_ir/kernel_llvm_source_builder.py
@@ -188,9 +188,12 @@ class KernelLlvmSourceBuilder(LlvmSourceFinder):
         tmp_path = "{}.tmp".format(cscope_path)
         with open(tmp_path, "w") as cscope_file:
             for root, dirs, files in os.walk(self.source_dir):
-                if ("/Documentation/" in root or
-                        "/scripts/" in root or
-                        "/tmp" in root):
+                # The location of the kernel does not matter
+                subdir = os.path.join("/", os.path.relpath(root,
+                                                           self.source_dir))
+                if ("/Documentation/" in subdir or
+                        "/scripts/" in subdir or
+                        "/tmp" in subdir):
                     continue
 
                 for f in files:
-- 
2.43.0


From 873d5f962a6d865a7801e25322156d23c4561025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 34/63] fix: store results of every comparison in a directory
 of its own

---
 diffkemp/diffkemp.py | 65 ++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 29 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 0d79d6a..ac580a4 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -377,46 +377,34 @@ def compare(args):
     Compare the generated snapshots. Runs the semantic comparison and shows
     information about the compared functions that are semantically different.
     """
-    # Set the output directory
-    if not args.stdout:
-        if args.output_dir:
-            output_dir = args.output_dir
-            if os.path.isdir(output_dir):
-                sys.stderr.write("Error: output directory exists\n")
-                sys.exit(errno.EEXIST)
-        else:
-            output_dir = default_output_dir(args.snapshot_dir_old,
-                                            args.snapshot_dir_new)
-    else:
-        output_dir = None
+    # Check the output directory
+    if not args.stdout and args.output_dir and os.path.isdir(args.output_dir):
+        sys.stderr.write("Error: output directory exists\n")
+        sys.exit(errno.EEXIST)
 
     config = Config.from_args(args)
     try:
-        return compare_snapshots(args, config, output_dir)
+        return compare_snapshots(args, config)
     finally:
         # Restore the snapshots, even if the comparison failed
         config.snapshot_first.finalize()
         config.snapshot_second.finalize()
 
 
-def compare_snapshots(args, config, output_dir):
+def compare_snapshots(args, config):
     """
     Compare the snapshots given by the configuration.
     :param args: CLI arguments of the "diffkemp compare" command.
     :param config: Configuration (contains the loaded snapshots).
-    :param output_dir: Directory for the results (None for standard output).
     """
+    # Directory for the results (created when the first one is to be stored)
+    output_dir = None
     result = Result(Result.Kind.NONE, args.snapshot_dir_old,
                     args.snapshot_dir_old, start_time=default_timer())
 
     for group_name, group in sorted(config.snapshot_first.fun_groups.items()):
         group_printed = False
-
-        # Set the group directory
-        if output_dir is not None and group_name is not None:
-            group_dir = os.path.join(output_dir, group_name)
-        else:
-            group_dir = None
+        group_dir = None
 
         result_graph = None
         cache = SimpLLCache(mkdtemp())
@@ -481,12 +469,12 @@ def compare_snapshots(args, config, output_dir):
                        fun_result.kind not in [Result.Kind.UNKNOWN,
                                                Result.Kind.ERROR]:
                         # Create the output directory if needed
-                        if output_dir is not None:
-                            if not os.path.isdir(output_dir):
-                                os.mkdir(output_dir)
+                        if not args.stdout and output_dir is None:
+                            output_dir = create_output_dir(args)
                         # Create the group directory or print the group name
                         # if needed
-                        if group_dir is not None:
+                        if output_dir is not None and group_name is not None:
+                            group_dir = os.path.join(output_dir, group_name)
                             if not os.path.isdir(group_dir):
                                 os.mkdir(group_dir)
                         elif group_name is not None and not group_printed:
@@ -515,7 +503,7 @@ def compare_snapshots(args, config, output_dir):
             new_fun_desc.mod.clean_module()
             LlvmModule.clean_all()
     # Create yaml output
-    if output_dir is not None and os.path.isdir(output_dir):
+    if output_dir is not None:
         old_dir_abs = os.path.join(os.path.abspath(args.snapshot_dir_old), "")
         new_dir_abs = os.path.join(os.path.abspath(args.snapshot_dir_new), "")
         yaml_output = YamlOutput(snapshot_dir_old=old_dir_abs,
@@ -524,7 +512,7 @@ def compare_snapshots(args, config, output_dir):
     config.snapshot_first.finalize()
     config.snapshot_second.finalize()
 
-    if output_dir is not None and os.path.isdir(output_dir):
+    if output_dir is not None:
         print("Differences stored in {}/".format(output_dir))
 
     if args.report_stat or args.extended_stat:
@@ -536,15 +524,34 @@ def compare_snapshots(args, config, output_dir):
     return 0
 
 
+def create_output_dir(args):
+    """
+    Create the directory for the results. It always is a new one so that
+    results of different comparisons (running at the same time) do not mix.
+    :param args: CLI arguments of the "diffkemp compare" command.
+    :return: Path to the created directory.
+    """
+    while True:
+        output_dir = args.output_dir or default_output_dir(
+            args.snapshot_dir_old, args.snapshot_dir_new)
+        try:
+            os.mkdir(output_dir)
+            return output_dir
+        except FileExistsError:
+            if args.output_dir:
+                sys.stderr.write("Error: output directory exists\n")
+                sys.exit(errno.EEXIST)
+
+
 def default_output_dir(src_snapshot, dest_snapshot):
     """Name of the directory to put log files into."""
     base_dirname = "diff-{}-{}".format(
         os.path.basename(os.path.normpath(src_snapshot)),
         os.path.basename(os.path.normpath(dest_snapshot)))
-    if os.path.isdir(base_dirname):
+    if os.path.lexists(base_dirname):
         suffix = 0
         dirname = base_dirname
-        while os.path.isdir(dirname):
+        while os.path.lexists(dirname):
             dirname = "{}-{}".format(base_dirname, suffix)
             suffix += 1
         return dirname
-- 
2.43.0


From 5b3aec55170db4f874d0c4ad35e552b3198484e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 35/63] fix: report differences in an order independent of
 hashes

---
 diffkemp/semdiff/caching.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index fe45d9d..e91c8d1 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -469,8 +469,10 @@ class ComparisonGraph:
         # Use the intersection of called functions in the left and right
         # module (i.e. differences in functions called in one module only
         # are not processed).
-        vertices_to_compare = list(set(called_funs_left).intersection(
-            set(called_funs_right)))
+        # Note: the order must not depend on hashes of the objects.
+        called_funs_right_set = set(called_funs_right)
+        vertices_to_compare = [v for v in dict.fromkeys(called_funs_left)
+                               if v in called_funs_right_set]
         # Use methods from ComparisonGraph (on the graph variable) and
         # vertices_to_compare to generate objects_to_compare.
         objects_to_compare = []
-- 
2.43.0


From f22199a892f3cc93f161678fc7b3c677f2e75614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:14 +0000
Subject: [PATCH 36/63] fix: add functions of sysctl parameters in an order
 independent of hashes

---
 diffkemp/diffkemp.py            | 4 +++-
 diffkemp/llvm_ir/source_tree.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index ac580a4..bbb325e 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -326,7 +326,9 @@ def generate_from_sysctl_list(snapshot, sysctl_list):
                     data.name))
                 continue
             for data_mod in data_mods:
-                for data_fun in data_mod.get_functions_using_param(data):
+                # The order must not depend on hashes of the names
+                for data_fun in sorted(
+                        data_mod.get_functions_using_param(data)):
                     if data_fun == proc_fun:
                         continue
                     snapshot.add_fun(
diff --git a/diffkemp/llvm_ir/source_tree.py b/diffkemp/llvm_ir/source_tree.py
index 0bcfaae..73a156b 100644
--- a/diffkemp/llvm_ir/source_tree.py
+++ b/diffkemp/llvm_ir/source_tree.py
@@ -89,7 +89,8 @@ class SourceTree:
 
         sources = self.source_finder.find_llvm_with_symbol_use(symbol)
         modules = []
-        for src in sources:
+        # The order must not depend on hashes of the names
+        for src in sorted(sources):
             src = self._make_abs_path(src)
             if os.path.isfile(src):
                 modules.append(self._get_module_from_source(src))
-- 
2.43.0


From 803af7134e72da032691e4ce05be00de7310c9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 37/63] fix: prepare data of the viewer exclusively and always
 remove them

---
 diffkemp/diffkemp.py | 101 ++++++++++++++++++++++++++++---------------
 1 file changed, 67 insertions(+), 34 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index bbb325e..64b6925 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -697,33 +697,75 @@ def view(args):
             "The viewer was probably not installed.\n")
         sys.exit(errno.ENOENT)
 
+    # Check if snapshot dirs exist
+    if not os.path.isdir(yaml_result["old-snapshot"]):
+        sys.stderr.write("Error: expecting to find old snapshot in "
+                         f"{yaml_result['old-snapshot']}\n")
+        sys.exit(errno.EINVAL)
+    if not os.path.isdir(yaml_result["new-snapshot"]):
+        sys.stderr.write("Error: expecting to find new snapshot in "
+                         f"{yaml_result['new-snapshot']}\n")
+        sys.exit(errno.EINVAL)
+
     # Dir for storing necessary data for a visualisation of a compared project.
     data_directory = os.path.join(public_directory, "data")
+
+    if args.devel:
+        try:
+            prepare_view_data(yaml_result, data_directory, YAML_FILE_NAME)
+            os.chdir(view_directory)
+            os.system("npm install")
+            os.system("npm start")
+        finally:
+            clean_view_data(data_directory, YAML_FILE_NAME)
+        return
+
+    handler = SimpleHTTPRequestHandler
+    handler.log_message = lambda *_, **__: None
+    # The server is created first: its port makes sure that the data are not
+    # used by another viewer.
+    try:
+        httpd = HTTPServer(("localhost", 3000), handler)
+    except OSError as e:
+        sys.stderr.write(f"Error: could not start the viewer: {e}\n")
+        sys.exit(errno.EADDRINUSE)
+    with httpd:
+        try:
+            prepare_view_data(yaml_result, data_directory, YAML_FILE_NAME)
+            os.chdir(public_directory)
+            print("Result viewer is available at http://localhost:3000")
+            print("Press Ctrl+C to exit")
+            try:
+                httpd.serve_forever()
+            except KeyboardInterrupt:
+                httpd.shutdown()
+        finally:
+            clean_view_data(data_directory, YAML_FILE_NAME)
+
+
+def prepare_view_data(yaml_result, data_directory, yaml_file_name):
+    """
+    Prepare source files, diffs and the YAML description of the results for
+    the viewer.
+    :param yaml_result: Results of the comparison.
+    :param data_directory: Directory for the data (accessible to the viewer).
+    :param yaml_file_name: Name of the file for the description of the results.
+    """
     if not os.path.exists(data_directory):
         os.mkdir(data_directory)
+    # Remove leftovers of a viewer which was killed
+    clean_view_data(data_directory, yaml_file_name)
 
     # Preparing source directory
     source_directory = os.path.join(data_directory, "src")
-    if not os.path.exists(source_directory):
-        os.mkdir(source_directory)
+    os.mkdir(source_directory)
     # Preparing diff directory
     diff_directory = os.path.join(data_directory, "diffs")
-    if not os.path.exists(diff_directory):
-        os.mkdir(diff_directory)
+    os.mkdir(diff_directory)
 
     # Prepare source and diff files to view directory
     old_snapshot_dir = yaml_result["old-snapshot"]
     new_snapshot_dir = yaml_result["new-snapshot"]
-    # Check if snapshot dirs exist
-    if not os.path.isdir(old_snapshot_dir):
-        sys.stderr.write(
-            f"Error: expecting to find old snapshot in {old_snapshot_dir}\n")
-        sys.exit(errno.EINVAL)
-    if not os.path.isdir(new_snapshot_dir):
-        sys.stderr.write(
-            f"Error: expecting to find new snapshot in {new_snapshot_dir}\n")
-        sys.exit(errno.EINVAL)
-
     processed_files = set()
     for name, definition in yaml_result["definitions"].items():
         # Relatives paths to source files
@@ -764,25 +806,16 @@ def view(args):
             definition["diff"] = False
 
     # save YAML
-    with open(os.path.join(data_directory, YAML_FILE_NAME), "w") as file:
+    with open(os.path.join(data_directory, yaml_file_name), "w") as file:
         yaml.dump(yaml_result, file, sort_keys=False)
 
-    if args.devel:
-        os.chdir(view_directory)
-        os.system("npm install")
-        os.system("npm start")
-    else:
-        os.chdir(public_directory)
-        handler = SimpleHTTPRequestHandler
-        handler.log_message = lambda *_, **__: None
-        with HTTPServer(("localhost", 3000), handler) as httpd:
-            print("Result viewer is available at http://localhost:3000")
-            print("Press Ctrl+C to exit")
-            try:
-                httpd.serve_forever()
-            except KeyboardInterrupt:
-                httpd.shutdown()
-    # Cleaning
-    shutil.rmtree(source_directory)
-    shutil.rmtree(diff_directory)
-    os.remove(os.path.join(data_directory, YAML_FILE_NAME))
+
+def clean_view_data(data_directory, yaml_file_name):
+    """Remove the data prepared for the viewer."""
+    for directory in ["src", "diffs"]:
+        path = os.path.join(data_directory, directory)
+        if os.path.isdir(path):
+            shutil.rmtree(path)
+    yaml_path = os.path.join(data_directory, yaml_file_name)
+    if os.path.exists(yaml_path):
+        os.remove(yaml_path)
-- 
2.43.0


From dd4bb688ca044066b5e25499ebc87bbca601b672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:18 +0000
Subject: [PATCH 38/63] fix: show results of comparisons whose sources are not
 (all) in the snapshot

---
 diffkemp/diffkemp.py | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 64b6925..cc10c59 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -775,6 +775,19 @@ def prepare_view_data(yaml_result, data_directory, yaml_file_name):
         old_file_abs_path = os.path.join(old_snapshot_dir, old_file)
         new_file_abs_path = os.path.join(new_snapshot_dir, new_file)
 
+        definition["diff"] = False
+        if not os.path.isfile(old_file_abs_path):
+            # The source file is not available
+            continue
+
+        if old_file.split(os.sep)[0] == os.pardir:
+            # The file is not in the snapshot (e.g. a system header): it still
+            # must be stored inside of the source directory.
+            old_file = os.path.join(
+                "outside-snapshot",
+                os.path.abspath(old_file_abs_path).lstrip(os.sep))
+            definition["old"]["file"] = old_file
+
         # Copy source file
         if old_file not in processed_files:
             processed_files.add(old_file)
@@ -787,23 +800,25 @@ def prepare_view_data(yaml_result, data_directory, yaml_file_name):
             shutil.copy(old_file_abs_path, output_dir_path)
 
         # Make diff of function, add diff info to YAML
-        if "end-line" in definition["old"] and "end-line" in definition["new"]:
-            diff = unified_syntax_diff(first_file=old_file_abs_path,
-                                       second_file=new_file_abs_path,
-                                       first_line=definition["old"]["line"],
-                                       second_line=definition["new"]["line"],
-                                       first_end=definition["old"]["end-line"],
-                                       second_end=definition["new"]["end-line"]
-                                       )
-            if diff.isspace() or diff == "":
-                definition["diff"] = False
-            else:
+        if "end-line" in definition["old"] and \
+                "end-line" in definition["new"] and \
+                os.path.isfile(new_file_abs_path):
+            try:
+                diff = unified_syntax_diff(
+                    first_file=old_file_abs_path,
+                    second_file=new_file_abs_path,
+                    first_line=definition["old"]["line"],
+                    second_line=definition["new"]["line"],
+                    first_end=definition["old"]["end-line"],
+                    second_end=definition["new"]["end-line"])
+            except UnicodeDecodeError:
+                # The diff of the definition is not available
+                continue
+            if not diff.isspace() and diff != "":
                 definition["diff"] = True
                 diff_path = os.path.join(diff_directory, name + ".diff")
                 with open(diff_path, "w") as file:
                     file.write(diff)
-        else:
-            definition["diff"] = False
 
     # save YAML
     with open(os.path.join(data_directory, yaml_file_name), "w") as file:
-- 
2.43.0


From a9682258afe97a14e1ccc3d5519c4280708fb134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:02 +0000
Subject: [PATCH 39/63] fix: do not show code whose source files are not
 available in the viewer

---
 diffkemp/diffkemp.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index cc10c59..2223572 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -776,8 +776,10 @@ def prepare_view_data(yaml_result, data_directory, yaml_file_name):
         new_file_abs_path = os.path.join(new_snapshot_dir, new_file)
 
         definition["diff"] = False
-        if not os.path.isfile(old_file_abs_path):
-            # The source file is not available
+        if not os.path.isfile(old_file_abs_path) or \
+                not os.path.isfile(new_file_abs_path):
+            # The code cannot be shown without its source files
+            definition["old"].pop("end-line", None)
             continue
 
         if old_file.split(os.sep)[0] == os.pardir:
@@ -800,9 +802,7 @@ def prepare_view_data(yaml_result, data_directory, yaml_file_name):
             shutil.copy(old_file_abs_path, output_dir_path)
 
         # Make diff of function, add diff info to YAML
-        if "end-line" in definition["old"] and \
-                "end-line" in definition["new"] and \
-                os.path.isfile(new_file_abs_path):
+        if "end-line" in definition["old"] and "end-line" in definition["new"]:
             try:
                 diff = unified_syntax_diff(
                     first_file=old_file_abs_path,
@@ -812,7 +812,7 @@ def prepare_view_data(yaml_result, data_directory, yaml_file_name):
                     first_end=definition["old"]["end-line"],
                     second_end=definition["new"]["end-line"])
             except UnicodeDecodeError:
-                # The diff of the definition is not available
+                definition["old"].pop("end-line")
                 continue
             if not diff.isspace() and diff != "":
                 definition["diff"] = True
-- 
2.43.0


From 582f79917f28d004bafc80f531c102d17cb8148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:11 +0000
Subject: [PATCH 40/63] fix: do not reuse results of functions sliced w.r.t. a
 variable

---
 diffkemp/diffkemp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diffkemp/diffkemp.py b/diffkemp/diffkemp.py
index 2223572..79aa375 100644
--- a/diffkemp/diffkemp.py
+++ b/diffkemp/diffkemp.py
@@ -440,14 +440,20 @@ def compare_snapshots(args, config):
             glob_var = LlvmParam(old_fun_desc.glob_var) \
                 if old_fun_desc.glob_var else None
 
+            # Functions compared w.r.t. a variable are sliced, so their results
+            # must not be shared with the other comparisons.
+            share_results = glob_var is None
+
             # Run the semantic diff
             fun_result = functions_diff(
                 mod_first=old_fun_desc.mod, mod_second=new_fun_desc.mod,
                 fun_first=fun, fun_second=fun,
                 glob_var=glob_var, config=config,
-                prev_result_graph=result_graph, function_cache=cache,
+                prev_result_graph=result_graph if share_results else None,
+                function_cache=cache if share_results else None,
                 module_cache=module_cache, modules_to_cache=modules_to_cache)
-            result_graph = fun_result.graph
+            if share_results:
+                result_graph = fun_result.graph
 
             if fun_result is not None:
                 if args.regex_filter is not None and \
-- 
2.43.0


From 875a1ab450f1f783336dc5e89055b3ab3e6ab4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 41/63] fix: honour --enable-pattern and --disable-pattern for
 unused-returns

---
 diffkemp/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diffkemp/config.py b/diffkemp/config.py
index 65d2fc2..71a1f18 100644
--- a/diffkemp/config.py
+++ b/diffkemp/config.py
@@ -10,6 +10,9 @@ class ConfigException(Exception):
 
 
 class BuiltinPatterns:
+    # Patterns whose name on the command line differs from the one in settings
+    CLI_NAMES = {"unused-return-types": "unused-returns"}
+
     def __init__(
         self,
         struct_alignment=True,
@@ -74,9 +77,10 @@ class BuiltinPatterns:
                 self.settings[pattern] = False
 
         for pattern in self.settings.keys():
-            if pattern in args.enable_pattern:
+            names = {pattern, self.CLI_NAMES.get(pattern, pattern)}
+            if names.intersection(args.enable_pattern):
                 self.settings[pattern] = True
-            if pattern in args.disable_pattern:
+            if names.intersection(args.disable_pattern):
                 self.settings[pattern] = False
 
         self.resolve_dependencies()
-- 
2.43.0


From 139247d9fefc30320c6a0d3a41db09d6038493b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 42/63] fix: load configurations of custom patterns without a
 file extension

---
 diffkemp/semdiff/custom_pattern_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/custom_pattern_config.py b/diffkemp/semdiff/custom_pattern_config.py
index 44d7c9b..23982af 100644
--- a/diffkemp/semdiff/custom_pattern_config.py
+++ b/diffkemp/semdiff/custom_pattern_config.py
@@ -45,7 +45,7 @@ class CustomPatternConfig:
         config = cls(path, patterns_path)
 
         # Process the configuration file based on its extension.
-        if CustomPatternConfig.get_extension(path) not in ("ll"):
+        if CustomPatternConfig.get_extension(path) != "ll":
             config._load_yaml()
         else:
             config.add_pattern(path)
-- 
2.43.0


From ac26122c8d5ec5e1a7249fe8303fbe0edea2d32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 43/63] fix: a failure of opt on a simplified module does not
 end the whole comparison

---
 diffkemp/simpll/simpll.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index 3cbf087..255aead 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -175,12 +175,15 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
             raise SimpLLException("Simplifying files failed")
 
     if config.output_llvm_ir:
-        check_call(get_opt_command([("deadargelim", "module")],
-                                   first_out_name),
-                   stderr=stderr)
-        check_call(get_opt_command([("deadargelim", "module")],
-                                   second_out_name),
-                   stderr=stderr)
+        try:
+            check_call(get_opt_command([("deadargelim", "module")],
+                                       first_out_name),
+                       stderr=stderr)
+            check_call(get_opt_command([("deadargelim", "module")],
+                                       second_out_name),
+                       stderr=stderr)
+        except (CalledProcessError, OSError):
+            raise SimpLLException("Simplifying files failed")
 
     first_out = LlvmModule(first_out_name)
     second_out = LlvmModule(second_out_name)
-- 
2.43.0


From b3d7aec89c66e6f0e2017f909f8413013176780d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:01 +0000
Subject: [PATCH 44/63] fix: compare snapshots whose paths are not in ASCII

---
 diffkemp/simpll/library.py |  3 ++-
 diffkemp/simpll/simpll.py  | 12 ++++++------
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/diffkemp/simpll/library.py b/diffkemp/simpll/library.py
index f4fd121..06d1ec8 100644
--- a/diffkemp/simpll/library.py
+++ b/diffkemp/simpll/library.py
@@ -2,6 +2,7 @@
 Python interface for the SimpLL library.
 """
 from diffkemp.simpll.simpll_lib import ffi, lib
+import os
 
 
 def _ptrarray_to_list(ptrarray):
@@ -31,7 +32,7 @@ def _stringarray_to_list(ptrarray):
 class SimpLLModule:
     """Represents a Module class in LLVM."""
     def __init__(self, path):
-        self.pointer = lib.loadModule(ffi.new("char []", path.encode("ascii")))
+        self.pointer = lib.loadModule(ffi.new("char []", os.fsencode(path)))
         if self.pointer == ffi.NULL:
             raise ValueError("Cannot import module " + path)
 
diff --git a/diffkemp/simpll/simpll.py b/diffkemp/simpll/simpll.py
index 255aead..29206ca 100644
--- a/diffkemp/simpll/simpll.py
+++ b/diffkemp/simpll/simpll.py
@@ -52,11 +52,11 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
                               second in module_cache)
 
         output = ffi.new("char [1000000]")
-        cache_dir = ffi.new("char []", cache_dir.encode("ascii") if cache_dir
+        cache_dir = ffi.new("char []", os.fsencode(cache_dir) if cache_dir
                             else b"")
         custom_patterns = ffi.new(
             "char []",
-            config.custom_pattern_config.path.encode("ascii")
+            os.fsencode(config.custom_pattern_config.path)
             if config.custom_pattern_config else b""
         )
         variable = ffi.new("char []", var.encode("ascii") if var else b"")
@@ -76,11 +76,11 @@ def run_simpll(first, second, fun_first, fun_second, var, config, suffix=None,
             module_left = module_cache[first].pointer
             module_right = module_cache[second].pointer
         else:
-            module_left = ffi.new("char []", first.encode("ascii"))
-            module_right = ffi.new("char []", second.encode("ascii"))
+            module_left = ffi.new("char []", os.fsencode(first))
+            module_right = ffi.new("char []", os.fsencode(second))
 
-        module_left_out = ffi.new("char []", first_out_name.encode("ascii"))
-        module_right_out = ffi.new("char []", second_out_name.encode("ascii"))
+        module_left_out = ffi.new("char []", os.fsencode(first_out_name))
+        module_right_out = ffi.new("char []", os.fsencode(second_out_name))
         fun_left = ffi.new("char []", fun_first.encode("ascii"))
         fun_right = ffi.new("char []", fun_second.encode("ascii"))
 
-- 
2.43.0


From d0ef6c7f522309c522751e371dbfd54d2cfb891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:35 +0000
Subject: [PATCH 45/63] fix: use the latest result of a function compared
 several times

Functions of the same name in different files (static ones) and functions of
headers included in different contexts share one vertex of the graph. The
first result stayed there, so a later difference was missed and the verdict
depended on the order of comparisons.
---
 diffkemp/semdiff/caching.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index e91c8d1..aa4caab 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -158,9 +158,13 @@ class ComparisonGraph:
             """
             if self.result in [Result.Kind.ASSUMED_EQUAL, Result.Kind.UNKNOWN]:
                 return True
-            if (not self.same_file() and
-                    self.result == Result.Kind.NOT_EQUAL and
-                    other.result == Result.Kind.EQUAL):
+            if (other.result in [Result.Kind.EQUAL, Result.Kind.NOT_EQUAL] and
+                    (not self.same_file() or
+                     other.result == Result.Kind.NOT_EQUAL)):
+                # Both results come from a real comparison. The latest one must
+                # be used since it can be of another function (functions of the
+                # same name in different files) or of another version of it
+                # (a function in a header included from different files).
                 return True
             # Check lengths of successor lists (this is important for cases
             # where linking happened).
-- 
2.43.0


From 8be107b61c360fd0498a58a738f5bc899c024720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 46/63] fix: do not mistake lines of numbers for line ranges of
 context diffs

Lines of code made of digits, blanks and commas only (e.g. rows of an
initialiser) were rewritten as if they were headers of diff hunks, or
failed the comparison of the function.
---
 diffkemp/syndiff/function_syntax_diff.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/diffkemp/syndiff/function_syntax_diff.py b/diffkemp/syndiff/function_syntax_diff.py
index c3aa1b5..c18afb4 100644
--- a/diffkemp/syndiff/function_syntax_diff.py
+++ b/diffkemp/syndiff/function_syntax_diff.py
@@ -12,6 +12,11 @@ from enum import IntEnum
 import re
 
 DIFF_NOT_OBTAINED_MESSAGE = "  [could not obtain diff]\n"
+CONTEXT_HUNK_HEAD_REGEX = re.compile(r"""^(\*{3}|-{3})
+                                          \           # space
+                                          (\d+(?:,\d+)?) # line range
+                                          \           # space
+                                          (\*{4}|-{4})$""", re.VERBOSE)
 UNIFIED_HUNK_HEAD_REGEX = re.compile(r"""^@@\ -(\d+) # from file start
                                          ((?:,\d+)?) # from file count
                                          \           # space
@@ -52,18 +57,14 @@ def syntax_diff(first_file, second_file, name, kind, first_line, second_line):
                 line += " " + extract.readline().strip()
 
         # Check whether the line is a line number line
-        number_line_set = set([" ", "*", "-", ","] +
-                              list(map(str, list(range(0, 10)))))
-        if ((not set(list(line)).issubset(number_line_set)) or
-            (not any(char.isdigit() for char in line)) or
-                line.isspace() or line == ""):
+        match = CONTEXT_HUNK_HEAD_REGEX.match(line)
+        if not match:
             diff_lines_new += [line]
             continue
 
-        polarity = "*" if line.count("*") > 1 else "-"
+        polarity = line[0]
 
-        line = line.replace("*", "").replace("-", "").replace(" ", "")
-        line = ",".join(map(fix_line, line.split(",")))
+        line = ",".join(map(fix_line, match.group(2).split(",")))
         line = polarity * 3 + " " + line + " " + polarity * 3
 
         diff_lines_new += [line]
-- 
2.43.0


From 8c117933eb837500ae4c760279261ed429ef7ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 47/63] fix: report the line on which a differing macro is used

If the macro was found on the line preceding the difference, the line of
the difference was reported.
---
 diffkemp/simpll/SourceCodeUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diffkemp/simpll/SourceCodeUtils.cpp b/diffkemp/simpll/SourceCodeUtils.cpp
index 46264d1..9cd017f 100644
--- a/diffkemp/simpll/SourceCodeUtils.cpp
+++ b/diffkemp/simpll/SourceCodeUtils.cpp
@@ -91,7 +91,7 @@ void MacroDiffAnalysis::collectMacroUsesAtLocation(
                     // which uses the current macro.
                     newMacroUse.line = parentMacroUse
                                                ? parentMacroUse->def->line
-                                               : Loc->getLine();
+                                               : Loc->getLine() + lineOffset;
                     newMacroUse.sourceFile =
                             parentMacroUse ? parentMacroUse->def->sourceFile
                                            : getSourceFilePath(Loc->getScope());
-- 
2.43.0


From a52046d5388d3db3aecee01b4d77c333aaf1cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 48/63] fix: do not create entry blocks with predecessors when
 slicing

Removing the first block of a function whose slice is an infinite loop
gave invalid LLVM IR, on which later passes crashed (with the FFI, the whole
comparison did).
---
 diffkemp/simpll/passes/VarDependencySlicer.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/diffkemp/simpll/passes/VarDependencySlicer.cpp b/diffkemp/simpll/passes/VarDependencySlicer.cpp
index 0af315a..ee53439 100644
--- a/diffkemp/simpll/passes/VarDependencySlicer.cpp
+++ b/diffkemp/simpll/passes/VarDependencySlicer.cpp
@@ -440,11 +440,16 @@ bool VarDependencySlicer::canRemoveBlock(const BasicBlock *bb) {
 
 /// Check if the first basic block can be removed.
 // The first block cannot be removed if it has a successor that is included
-// and has incoming edges (since first block cannot have incoming edges).
+// and has incoming edges or that has incoming edges from other blocks (since
+// first block cannot have incoming edges).
 bool VarDependencySlicer::canRemoveFirstBlock(const BasicBlock *bb) {
     for (const auto &Succ : successors(bb)) {
         if (isIncluded(Succ) && pred_begin(Succ) != pred_end(Succ))
             return false;
+        for (const auto &Pred : predecessors(Succ)) {
+            if (Pred != bb)
+                return false;
+        }
     }
     return true;
 }
-- 
2.43.0


From 2f008bb8b5c4a5a0622e0042935ef39a33d2eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:14 +0000
Subject: [PATCH 49/63] fix: do not replace definitions of functions by
 declarations in results

A function which is called with its return value unused and whose
definition was compared was replaced by its declaration from another
module, so the results pointed to the declaration.
---
 diffkemp/semdiff/caching.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index aa4caab..0565711 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -151,11 +151,21 @@ class ComparisonGraph:
         def same_file(self):
             return self.files[0] == self.files[1]
 
+        def is_defined(self):
+            """Check if the bodies of the functions were compared."""
+            return (self.stats is not None and
+                    self.stats.compared_inst_cnt() > 0)
+
         def compare_vertex_priority(self, other):
             """
             Compares the priority of the two vertices. If the first should be
             prefered when merging graphs, returns False, else returns True.
             """
+            if (self.result == Result.Kind.ASSUMED_EQUAL and
+                    other.result == Result.Kind.ASSUMED_EQUAL and
+                    self.is_defined() and not other.is_defined()):
+                # Do not replace a definition by a declaration.
+                return False
             if self.result in [Result.Kind.ASSUMED_EQUAL, Result.Kind.UNKNOWN]:
                 return True
             if (other.result in [Result.Kind.EQUAL, Result.Kind.NOT_EQUAL] and
-- 
2.43.0


From 273732bbafe894976871c44e77f11feb824f8a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:30 +0000
Subject: [PATCH 50/63] fix: compare functions without debugging information

Their files are not known, so no cache file can be made for them. The
comparison of such functions ended with an error.
---
 diffkemp/semdiff/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index 0565711..9e9847c 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -624,7 +624,9 @@ class SimpLLCache:
         # Sort vertices into a map based on source file pairs.
         vertex_map = {}
         for vertex in vertices:
-            if not vertex.cachable:
+            if not vertex.cachable or not all(vertex.files):
+                # Note: files of functions without debugging information are
+                # not known.
                 continue
             if vertex.files not in vertex_map:
                 vertex_map[vertex.files] = []
-- 
2.43.0


From 45d9396b25f485b4746e23c534cf317071b3618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:47 +0000
Subject: [PATCH 51/63] fix: do not reuse results of functions whose files are
 not known

Without debugging information, results of functions with the same name in
different modules were mixed up.
---
 diffkemp/semdiff/caching.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diffkemp/semdiff/caching.py b/diffkemp/semdiff/caching.py
index 9e9847c..36c587b 100644
--- a/diffkemp/semdiff/caching.py
+++ b/diffkemp/semdiff/caching.py
@@ -149,7 +149,9 @@ class ComparisonGraph:
             self.nonfun_diffs.append(diff)
 
         def same_file(self):
-            return self.files[0] == self.files[1]
+            # Note: files of functions without debugging information are not
+            # known.
+            return bool(self.files[0]) and self.files[0] == self.files[1]
 
         def is_defined(self):
             """Check if the bodies of the functions were compared."""
-- 
2.43.0


From 172970a5a92bc8e833b133c5f65b7ad5d84cf7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:31 +0000
Subject: [PATCH 52/63] fix: report the right lines of calls found after moved
 code

When looking for code that was moved, the called functions were reported
to be called from the line where the search started.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index c11ed20..70c73ec 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -1983,6 +1983,12 @@ bool DifferentialFunctionComparator::findMatchingOpWithOffset(
     auto &MovedInst = prog_to_search == Program::First ? InstL : InstR;
     auto MovedInstBackup = MovedInst;
 
+    // The location of the moved instruction must be kept up-to-date since it is
+    // used as the location of found function calls.
+    auto &MovedLoc =
+            prog_to_search == Program::First ? CurrentLocL : CurrentLocR;
+    auto MovedLocBackup = MovedLoc;
+
     auto tryInlineBackup = ModComparator->tryInline;
 
     // Mark the possible relocation beginning.
@@ -1998,6 +2004,8 @@ bool DifferentialFunctionComparator::findMatchingOpWithOffset(
         auto sn_mapL_backup = sn_mapL;
         auto sn_mapR_backup = sn_mapR;
         auto mappedValuesBySnBackup = mappedValuesBySn;
+        MovedLoc = MovedInst->getDebugLoc() ? &MovedInst->getDebugLoc()
+                                            : nullptr;
         if (cmpOperationsWithOperands(&*InstL, &*InstR) == 0) {
             // Found possible relocation - mark the end.
             auto end = MovedInst;
@@ -2028,6 +2036,7 @@ bool DifferentialFunctionComparator::findMatchingOpWithOffset(
         MovedInst++;
     }
     MovedInst = MovedInstBackup;
+    MovedLoc = MovedLocBackup;
     ModComparator->tryInline = tryInlineBackup;
     return false;
 }
-- 
2.43.0


From d0902c050c56ecc6f3d91933df691aafca6ae109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:40 +0000
Subject: [PATCH 53/63] fix: do not skip instructions when a relocation is
 refused

When an instruction which could follow a relocated block depends on that
block, the search for relocations ended without restoring the position of
the moved instruction. The skipped instructions were then never compared
and functions which differ were reported as equal.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 70c73ec..606b25e 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -2017,8 +2017,13 @@ bool DifferentialFunctionComparator::findMatchingOpWithOffset(
             Reloc.end = end;
             // Make sure that the first equal instruction is not depending on
             // the relocation
-            if (isDependingOnReloc(*MovedInst))
-                return false;
+            if (isDependingOnReloc(*MovedInst)) {
+                // Restore the state so that nothing gets skipped
+                sn_mapL = sn_mapL_backup;
+                sn_mapR = sn_mapR_backup;
+                mappedValuesBySn = mappedValuesBySnBackup;
+                break;
+            }
             Reloc.status = RelocationInfo::Stored;
             Reloc.prog = prog_to_search;
             Reloc.tryInlineBackup = tryInlineBackup;
-- 
2.43.0


From 159c5c43bcd2b00eaee00f2e5cd83aaf2ba5bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:05 +0000
Subject: [PATCH 54/63] fix: find all dependencies on relocated code

Only the first store (load) of a relocated block was compared with a load
(store) moved over the block and the last instruction of the block was
left out, so functions whose loads and stores of the same variable were
swapped were reported as equal.
---
 .../simpll/DifferentialFunctionComparator.cpp | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 606b25e..255e509 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -2060,21 +2060,21 @@ bool DifferentialFunctionComparator::isDependingOnReloc(
     if (!Load && !Store)
         return false;
 
-    auto RelocInst = Reloc.begin;
-    do {
-        if (!Load)
-            Load = dyn_cast<LoadInst>(&*RelocInst);
-        if (!Store)
-            Store = dyn_cast<StoreInst>(&*RelocInst);
-
-        if (Load && Store
-            && Load->getPointerOperand() == Store->getPointerOperand())
-            return true;
+    for (auto RelocInst = Reloc.begin;; ++RelocInst) {
+        auto *RelocLoad = dyn_cast<LoadInst>(&*RelocInst);
+        auto *RelocStore = dyn_cast<StoreInst>(&*RelocInst);
 
-        RelocInst++;
-    } while (RelocInst != Reloc.end);
+        if (Load && RelocStore
+            && Load->getPointerOperand() == RelocStore->getPointerOperand())
+            return true;
+        if (Store && RelocLoad
+            && Store->getPointerOperand() == RelocLoad->getPointerOperand())
+            return true;
 
-    return false;
+        // The last instruction is a part of the relocated code, too.
+        if (RelocInst == Reloc.end)
+            return false;
+    }
 }
 
 /// Recursively collect operands of reorderable binary operators.
-- 
2.43.0


From d4e92af9e9549351be60959e6fd6a1e3d3e18dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:48 +0000
Subject: [PATCH 55/63] fix: do not inline recursive functions endlessly

When mutually recursive functions differ, each inlining brings calls which
are inlined again, so the comparison never ended.
---
 diffkemp/simpll/ModuleComparator.cpp | 33 ++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/diffkemp/simpll/ModuleComparator.cpp b/diffkemp/simpll/ModuleComparator.cpp
index bb492fb..6229a2d 100644
--- a/diffkemp/simpll/ModuleComparator.cpp
+++ b/diffkemp/simpll/ModuleComparator.cpp
@@ -21,6 +21,28 @@
 #include "passes/SimplifyKernelFunctionCallsPass.h"
 #include <llvm/Support/raw_ostream.h>
 #include <llvm/Transforms/Utils/Cloning.h>
+#include <vector>
+
+/// Check if a function may call itself, either directly or via other functions.
+static bool isRecursive(const Function *Fun) {
+    std::set<const Function *> Visited;
+    std::vector<const Function *> Worklist = {Fun};
+    while (!Worklist.empty()) {
+        auto *Current = Worklist.back();
+        Worklist.pop_back();
+        for (auto &BB : *Current) {
+            for (auto &Inst : BB) {
+                auto *Call = dyn_cast<CallInst>(&Inst);
+                auto *Called = Call ? getCalledFunction(Call) : nullptr;
+                if (Called == Fun)
+                    return true;
+                if (Called && Visited.insert(Called).second)
+                    Worklist.push_back(Called);
+            }
+        }
+    }
+    return false;
+}
 
 /// Updates the statistics based on the results of function comparison.
 void ModuleComparator::updateStats(
@@ -131,6 +153,13 @@ void ModuleComparator::compareFunctions(Function *FirstFun,
         ComparedFuns.at({FirstFun, SecondFun}).kind = Result::NOT_EQUAL;
 
         std::set<ConstFunPair> inlinedPairs;
+        // Recursive functions are inlined at most once, otherwise the inlining
+        // might never end.
+        std::set<const Function *> inlinedRecursive;
+        auto canInline = [&inlinedRecursive](const Function *Fun) {
+            return !Fun || !isRecursive(Fun)
+                   || inlinedRecursive.insert(Fun).second;
+        };
 
         while (tryInline.first || tryInline.second) {
             LOG_INDENT();
@@ -140,6 +169,10 @@ void ModuleComparator::compareFunctions(Function *FirstFun,
             CallInst *callSecond = findCallInst(tryInline.second, SecondFun);
             auto calledFirst = getCalledFunction(callFirst);
             auto calledSecond = getCalledFunction(callSecond);
+            if (!canInline(calledFirst))
+                callFirst = nullptr;
+            if (!canInline(calledSecond))
+                callSecond = nullptr;
 
             auto inlineResultFirst = tryToInline(
                     callFirst, Program::First, config.Patterns.FunctionSplits);
-- 
2.43.0


From 6ff0d470333bc0a05b23bd500d0e4b02d46b8599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 56/63] fix: code that continues in another block is not equal

Successors of two terminators that do not correspond to each other were
taken for equal so that calls may be inlined, but also when nothing was
inlined: a missing break or another loop exit gave no difference.
---
 diffkemp/simpll/DifferentialFunctionComparator.cpp | 6 ++++++
 diffkemp/simpll/DifferentialFunctionComparator.h   | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index 255e509..a47b490 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -40,6 +40,7 @@ std::set<std::string> ignoredMacroList = {
 void DifferentialFunctionComparator::beginCompare() {
     FunctionComparator::beginCompare();
     Reloc.status = RelocationInfo::None;
+    unmatchedBlocks = false;
 }
 
 /// Run comparison of PHI instructions after comparing everything else. This is
@@ -53,6 +54,10 @@ int DifferentialFunctionComparator::compare() {
         ModComparator->tryInline = Reloc.tryInlineBackup;
         return 1;
     }
+    // Control flow that continues in blocks which do not correspond to each
+    // other is a difference unless it could be handled by inlining.
+    if (Res == 0 && unmatchedBlocks)
+        return 1;
     if (Res == 0) {
         for (auto &PhiPair : phisToCompare)
             if (cmpPHIs(PhiPair.first, PhiPair.second))
@@ -1570,6 +1575,7 @@ int DifferentialFunctionComparator::cmpValues(const Value *L,
                 if ((unsigned long)sn_mapR[R] == (sn_mapR.size() - 1))
                     sn_mapR.erase(R);
             }
+            unmatchedBlocks = true;
             RETURN_WITH_LOG_NEQ(0);
         }
         if (CustomPatternComp.matchValues(L, R)) {
diff --git a/diffkemp/simpll/DifferentialFunctionComparator.h b/diffkemp/simpll/DifferentialFunctionComparator.h
index 7c67c64..3acde8f 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.h
+++ b/diffkemp/simpll/DifferentialFunctionComparator.h
@@ -150,6 +150,9 @@ class DifferentialFunctionComparator : public FunctionComparator {
     mutable std::set<std::pair<const Value *, const Value *>> inverseConditions;
     mutable std::vector<std::pair<const PHINode *, const PHINode *>>
             phisToCompare;
+    /// Set when successors of compared terminators do not correspond to each
+    /// other.
+    mutable bool unmatchedBlocks = false;
 
     /// Map of skipped instructions with replacements.
     mutable std::unordered_map<const Value *, const Value *>
-- 
2.43.0


From 85cda79e511cfa6ae1c12f5052b3c5d51635a5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:34 +0000
Subject: [PATCH 57/63] fix: start from operands of reordered binary operations

The compared instructions are in the synchronization maps already, so they
were matched as leaves whenever their operands could not be collected, e.g.
y * 3 and y * 4 with y changed in a loop.
---
 .../simpll/DifferentialFunctionComparator.cpp | 24 +++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/diffkemp/simpll/DifferentialFunctionComparator.cpp b/diffkemp/simpll/DifferentialFunctionComparator.cpp
index a47b490..aee7e3a 100644
--- a/diffkemp/simpll/DifferentialFunctionComparator.cpp
+++ b/diffkemp/simpll/DifferentialFunctionComparator.cpp
@@ -1003,11 +1003,27 @@ int DifferentialFunctionComparator::cmpBasicBlocks(
                         dyn_cast<BinaryOperator>(&*InstR)->getOpcode();
                 std::multiset<int> SnSetL, SnSetR;
                 std::multiset<int64_t> ConstantsSetL, ConstantsSetR;
+                // The compared instructions are synchronized already, hence
+                // it is necessary to start from their operands.
                 if (OpcodeL == OpcodeR
-                    && collectBinaryOperands(
-                            &*InstL, OpcodeL, SnSetL, ConstantsSetL, sn_mapL)
-                    && collectBinaryOperands(
-                            &*InstR, OpcodeR, SnSetR, ConstantsSetR, sn_mapR)
+                    && llvm::all_of(InstL->operands(),
+                                    [&](const Value *Op) {
+                                        return collectBinaryOperands(
+                                                Op,
+                                                OpcodeL,
+                                                SnSetL,
+                                                ConstantsSetL,
+                                                sn_mapL);
+                                    })
+                    && llvm::all_of(InstR->operands(),
+                                    [&](const Value *Op) {
+                                        return collectBinaryOperands(
+                                                Op,
+                                                OpcodeR,
+                                                SnSetR,
+                                                ConstantsSetR,
+                                                sn_mapR);
+                                    })
                     && SnSetL == SnSetR && ConstantsSetL == ConstantsSetR) {
                     InstL++;
                     InstR++;
-- 
2.43.0


From 446dbe4bddcf6d4016576ceea3cf9eda217cf5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:38 +0000
Subject: [PATCH 58/63] fix: find functions that use the given element of a
 parameter

Indices of a parameter and of the instructions were never compared (except
beyond the end of the former), and addresses in initializers have indices
of another type than those in functions: of functions using an array or
a structure, just those not using the element were found.
---
 diffkemp/simpll/library/DiffKempUtils.cpp | 88 +++++++++++++++++------
 1 file changed, 68 insertions(+), 20 deletions(-)

diff --git a/diffkemp/simpll/library/DiffKempUtils.cpp b/diffkemp/simpll/library/DiffKempUtils.cpp
index b016e59..f50eb38 100644
--- a/diffkemp/simpll/library/DiffKempUtils.cpp
+++ b/diffkemp/simpll/library/DiffKempUtils.cpp
@@ -14,6 +14,7 @@
 //===----------------------------------------------------------------------===//
 
 #include "DiffKempUtils.h"
+#include <llvm/IR/DataLayout.h>
 #include <llvm/IR/GlobalVariable.h>
 #include <llvm/IR/Instructions.h>
 #include <llvm/IR/Operator.h>
@@ -51,28 +52,73 @@ StringRef extractParamName(const Value *ParamVal) {
     return "";
 }
 
-/// Checks whether the indices in the GEP correspond to the indices in
-/// the list. When one list is longer than the other, the function behaves
-/// like one is cut to the size of the other and compares the rest.
-/// \param[in] gep: The GEP operator. Both the instruction and the constant
+/// Get the end of the biggest part of a global variable (of composite type)
+/// that starts at the given offset. Offsets are in bytes.
+uint64_t getPartEnd(const GlobalVariable *Var, const uint64_t Begin) {
+    auto &Layout = Var->getParent()->getDataLayout();
+    auto Ty = Var->getValueType();
+
+    uint64_t Offset = Begin;
+    while (Offset != 0) {
+        if (auto STy = dyn_cast<StructType>(Ty)) {
+            auto SLayout = Layout.getStructLayout(STy);
+            if (Offset >= SLayout->getSizeInBytes())
+                return Begin + 1;
+            auto Elem = SLayout->getElementContainingOffset(Offset);
+            Ty = STy->getElementType(Elem);
+            Offset -= SLayout->getElementOffset(Elem);
+        } else if (auto ATy = dyn_cast<ArrayType>(Ty)) {
+            Ty = ATy->getElementType();
+            uint64_t Size = Layout.getTypeAllocSize(Ty);
+            if (Size == 0)
+                return Begin + 1;
+            Offset %= Size;
+        } else {
+            return Begin + 1;
+        }
+    }
+    return Begin + Layout.getTypeAllocSize(Ty);
+}
+
+/// Checks whether the address computed by the GEP may belong to the part of
+/// the variable given by the list of indices. The same address can be expressed
+/// by indices of different types (e.g. addresses in initializers are offsets in
+/// bytes), therefore the parts of the variable that they lead to are compared.
+/// When one of the parts contains the other one, they correspond.
+/// If an index of the GEP is not constant, it stands for all elements.
+/// \param[in] GEP: The GEP operator. Both the instruction and the constant
 /// expression are supported.
-/// \param[in] indices: A list of integers representing indices to compare the
-/// GEP operator with.
+/// \param[in] Var: The global variable that the GEP is applied to.
+/// \param[in] indices: A (non-empty) list of integers representing indices to
+/// compare the GEP operator with. A single index is an offset in bytes.
 /// \return True or false based on whether the indices correspond.
 bool checkGEPIndicesCorrespond(const GEPOperator *GEP,
-                               std::vector<int> indices) {
-    for (unsigned i = 1; i < GEP->getNumOperands(); i++) {
-        if ((i - 1) >= indices.size()) {
-            auto Op = GEP->getOperand(i);
-            if (isa<ConstantInt>(Op)
-                && (dyn_cast<ConstantInt>(Op)->getZExtValue()
-                    != (unsigned)indices[i - 1])) {
-                return false;
-            }
-        }
+                               const GlobalVariable *Var,
+                               const std::vector<int> &indices) {
+    auto &Layout = Var->getParent()->getDataLayout();
+
+    std::vector<Value *> GEPIndices;
+    for (auto &Index : GEP->indices()) {
+        if (!isa<ConstantInt>(Index))
+            break;
+        GEPIndices.push_back(Index);
+    }
+    if (GEPIndices.empty())
+        return true;
+    uint64_t GEPBegin = Layout.getIndexedOffsetInType(
+            GEP->getSourceElementType(), GEPIndices);
+
+    uint64_t Begin = indices[0];
+    if (indices.size() > 1) {
+        std::vector<Value *> Indices;
+        for (int Index : indices)
+            Indices.push_back(ConstantInt::get(
+                    Type::getInt32Ty(Var->getContext()), Index));
+        Begin = Layout.getIndexedOffsetInType(Var->getValueType(), Indices);
     }
 
-    return true;
+    return GEPBegin < getPartEnd(Var, Begin)
+           && Begin < getPartEnd(Var, GEPBegin);
 }
 
 /// Find names of all functions using the given parameter (global variable).
@@ -90,8 +136,8 @@ std::set<StringRef> getFunctionsUsingParam(std::string Param,
             auto Fun = Inst->getFunction();
 
             if (isa<GetElementPtrInst>(Inst) && !indices.empty()) {
-                if (!checkGEPIndicesCorrespond(dyn_cast<GEPOperator>(Inst),
-                                               indices))
+                if (!checkGEPIndicesCorrespond(
+                            dyn_cast<GEPOperator>(Inst), Glob, indices))
                     continue;
             }
 
@@ -105,7 +151,9 @@ std::set<StringRef> getFunctionsUsingParam(std::string Param,
 
                     if (isa<GEPOperator>(CExpr) && !indices.empty()) {
                         if (!checkGEPIndicesCorrespond(
-                                    dyn_cast<GEPOperator>(CExpr), indices))
+                                    dyn_cast<GEPOperator>(CExpr),
+                                    Glob,
+                                    indices))
                             continue;
                     }
 
-- 
2.43.0


From b58009a1b95d262897e060e507188177755cbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:01 +0000
Subject: [PATCH 59/63] fix: find functions that use a parameter in nested
 constant expressions

An address of a variable may be a part of several constant expressions, e.g.
it may be an element of an array in a structure, converted to an integer.
---
 diffkemp/simpll/library/DiffKempUtils.cpp | 55 +++++++++++------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/diffkemp/simpll/library/DiffKempUtils.cpp b/diffkemp/simpll/library/DiffKempUtils.cpp
index f50eb38..c5eccec 100644
--- a/diffkemp/simpll/library/DiffKempUtils.cpp
+++ b/diffkemp/simpll/library/DiffKempUtils.cpp
@@ -88,7 +88,8 @@ uint64_t getPartEnd(const GlobalVariable *Var, const uint64_t Begin) {
 /// If an index of the GEP is not constant, it stands for all elements.
 /// \param[in] GEP: The GEP operator. Both the instruction and the constant
 /// expression are supported.
-/// \param[in] Var: The global variable that the GEP is applied to.
+/// \param[in] Var: The global variable that the GEP is applied to (directly or
+/// by other constant expressions).
 /// \param[in] indices: A (non-empty) list of integers representing indices to
 /// compare the GEP operator with. A single index is an offset in bytes.
 /// \return True or false based on whether the indices correspond.
@@ -103,10 +104,15 @@ bool checkGEPIndicesCorrespond(const GEPOperator *GEP,
             break;
         GEPIndices.push_back(Index);
     }
-    if (GEPIndices.empty())
+    // The pointer operand may be another part of the variable.
+    APInt Base(Layout.getIndexTypeSizeInBits(GEP->getType()), 0);
+    if (GEP->getPointerOperand()->stripAndAccumulateConstantOffsets(
+                Layout, Base, true)
+        != Var)
         return true;
-    uint64_t GEPBegin = Layout.getIndexedOffsetInType(
-            GEP->getSourceElementType(), GEPIndices);
+    uint64_t GEPBegin = Base.getZExtValue()
+                        + Layout.getIndexedOffsetInType(
+                                GEP->getSourceElementType(), GEPIndices);
 
     uint64_t Begin = indices[0];
     if (indices.size() > 1) {
@@ -129,37 +135,26 @@ std::set<StringRef> getFunctionsUsingParam(std::string Param,
     if (!Glob)
         return std::set<StringRef>();
 
+    // Users of the parameter and of the constant expressions (typically GEPs or
+    // casts) that it is used in, unless they belong to other parts of it.
     std::set<StringRef> Result;
-    for (const Use &U : Glob->uses()) {
-        if (auto Inst = dyn_cast<Instruction>(U.getUser())) {
-            // User is an instruction.
-            auto Fun = Inst->getFunction();
-
-            if (isa<GetElementPtrInst>(Inst) && !indices.empty()) {
+    std::vector<const Constant *> Values{Glob};
+    while (!Values.empty()) {
+        auto Value = Values.back();
+        Values.pop_back();
+        for (const User *Usr : Value->users()) {
+            if (isa<GEPOperator>(Usr) && !indices.empty()) {
                 if (!checkGEPIndicesCorrespond(
-                            dyn_cast<GEPOperator>(Inst), Glob, indices))
+                            dyn_cast<GEPOperator>(Usr), Glob, indices))
                     continue;
             }
 
-            if (!Fun->getName().contains(".old"))
-                Result.insert(Fun->getName());
-        } else if (auto CExpr = dyn_cast<ConstantExpr>(U.getUser())) {
-            // User is a constant expression (typically GEP).
-            for (const Use &UU : CExpr->uses()) {
-                if (auto Inst = dyn_cast<Instruction>(UU.getUser())) {
-                    auto Fun = Inst->getFunction();
-
-                    if (isa<GEPOperator>(CExpr) && !indices.empty()) {
-                        if (!checkGEPIndicesCorrespond(
-                                    dyn_cast<GEPOperator>(CExpr),
-                                    Glob,
-                                    indices))
-                            continue;
-                    }
-
-                    if (!Fun->getName().contains(".old"))
-                        Result.insert(Fun->getName());
-                }
+            if (auto Inst = dyn_cast<Instruction>(Usr)) {
+                auto Fun = Inst->getFunction();
+                if (!Fun->getName().contains(".old"))
+                    Result.insert(Fun->getName());
+            } else if (auto CExpr = dyn_cast<ConstantExpr>(Usr)) {
+                Values.push_back(CExpr);
             }
         }
     }
-- 
2.43.0


From ff2ecbe8f99d009a09e6e30de92283749cac69a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:17 +0000
Subject: [PATCH 60/63] fix: do not read sysctl tables that are only declared
 in a module

When the source defining a table cannot be built, the table is looked for
in modules that merely declare it, which ended the whole process.
---
 diffkemp/simpll/library/SysctlTable.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diffkemp/simpll/library/SysctlTable.cpp b/diffkemp/simpll/library/SysctlTable.cpp
index 157a1cb..17cd972 100644
--- a/diffkemp/simpll/library/SysctlTable.cpp
+++ b/diffkemp/simpll/library/SysctlTable.cpp
@@ -69,7 +69,7 @@ std::vector<std::string>
 
     // Sysctl table is a global variable.
     auto TableRoot = Mod->getNamedGlobal(CtlTableParsed[0]);
-    if (!TableRoot)
+    if (!TableRoot || !TableRoot->hasInitializer())
         return Result;
 
     // Get global variable initializer. If SysctlPattern contains indices,
@@ -99,7 +99,7 @@ std::vector<std::string>
         // Sysctl name is a constant string stored inside a global variable.
         auto GVar = dyn_cast<GlobalVariable>(GEP->getOperand(0));
 #endif
-        if (!GVar)
+        if (!GVar || !GVar->hasInitializer())
             continue;
         auto StringConst =
                 dyn_cast<ConstantDataSequential>(GVar->getInitializer());
-- 
2.43.0


From b30901997bed9da3cf6db7fb4830f68cf51136db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:31 +0000
Subject: [PATCH 61/63] fix: find all code that depends on the variable when
 slicing

Dependencies through loops, blocks reachable from both sides of a branch
that are chosen by an inner branch, and values chosen by a dependent branch
in a block that is not dependent were missed. Loops with no dependent code
were turned into infinite ones if only the exit block was dependent.
---
 .../simpll/passes/VarDependencySlicer.cpp     | 173 +++++++++---------
 diffkemp/simpll/passes/VarDependencySlicer.h  |   7 +
 2 files changed, 95 insertions(+), 85 deletions(-)

diff --git a/diffkemp/simpll/passes/VarDependencySlicer.cpp b/diffkemp/simpll/passes/VarDependencySlicer.cpp
index ee53439..2de2bb1 100644
--- a/diffkemp/simpll/passes/VarDependencySlicer.cpp
+++ b/diffkemp/simpll/passes/VarDependencySlicer.cpp
@@ -39,51 +39,20 @@ PreservedAnalyses
     DependentInstrs.clear();
     IncludedInstrs.clear();
     AffectedBasicBlocks.clear();
+    ProcessedBranches.clear();
     IncludedBasicBlocks.clear();
     IncludedParams.clear();
 
     LOG_VERBOSE_EXTRA_NO_INDENT("Function: " << Fun.getName().str() << "\n");
 
     // First phase - determine which instructions are dependent on the parameter
-    for (auto &BB : Fun) {
-        if (isAffected(&BB))
-            continue;
-        for (auto &Instr : BB) {
-            bool dependent = false;
-            for (auto &Op : Instr.operands()) {
-                if (checkDependency(&Op))
-                    dependent = true;
-            }
-            if (auto CallInstr = dyn_cast<CallInst>(&Instr)) {
-                // Call instructions
-                for (auto &Arg : CallInstr->args()) {
-                    if (checkDependency(&Arg))
-                        dependent = true;
-                }
-            }
-            if (auto PhiInstr = dyn_cast<PHINode>(&Instr)) {
-                // Phi instructions
-                if (checkPhiDependency(*PhiInstr))
-                    dependent = true;
-            }
-
-            if (dependent) {
-                addToDependent(&Instr);
-                LOG_VERBOSE_EXTRA_NO_INDENT("Dependent: ";
-                                            Instr.print(dbgs()););
-                if (auto BranchInstr = dyn_cast<BranchInst>(&Instr)) {
-                    auto affectedBBs = affectedBasicBlocks(BranchInstr);
-                    addAllInstrs(affectedBBs);
-                }
-                if (auto StoreInstr = dyn_cast<StoreInst>(&Instr)) {
-                    auto Ptr = StoreInstr->getPointerOperand();
-                    if (auto PtrInstr = dyn_cast<Instruction>(Ptr)) {
-                        addToDependent(PtrInstr);
-                    }
-                }
-            }
-        }
-    }
+    // This is repeated since a value may depend on values computed later in
+    // the function (if there is a loop).
+    size_t dependentCount;
+    do {
+        dependentCount = DependentInstrs.size();
+        findDependent(Fun);
+    } while (DependentInstrs.size() != dependentCount);
 
     // Second phase - determine which additional instructions we need to
     // produce a valid CFG
@@ -231,6 +200,59 @@ PreservedAnalyses
     return PreservedAnalyses::none();
 }
 
+/// Go through a function and extend the set of instructions dependent on the
+/// value of the global variable.
+void VarDependencySlicer::findDependent(Function &Fun) {
+    for (auto &BB : Fun) {
+        if (isAffected(&BB)) {
+            // All instructions are dependent; the branch may affect blocks that
+            // are reachable from other affected blocks, too.
+            addAffectedBlocks(dyn_cast<BranchInst>(BB.getTerminator()));
+            continue;
+        }
+        for (auto &Instr : BB) {
+            bool dependent = false;
+            for (auto &Op : Instr.operands()) {
+                if (checkDependency(&Op))
+                    dependent = true;
+            }
+            if (auto CallInstr = dyn_cast<CallInst>(&Instr)) {
+                // Call instructions
+                for (auto &Arg : CallInstr->args()) {
+                    if (checkDependency(&Arg))
+                        dependent = true;
+                }
+            }
+            if (auto PhiInstr = dyn_cast<PHINode>(&Instr)) {
+                // Phi instructions
+                if (checkPhiDependency(*PhiInstr))
+                    dependent = true;
+            }
+
+            if (dependent) {
+                addToDependent(&Instr);
+                LOG_VERBOSE_EXTRA_NO_INDENT("Dependent: ";
+                                            Instr.print(dbgs()););
+                if (auto BranchInstr = dyn_cast<BranchInst>(&Instr)) {
+                    addAffectedBlocks(BranchInstr);
+                }
+                if (auto StoreInstr = dyn_cast<StoreInst>(&Instr)) {
+                    auto Ptr = StoreInstr->getPointerOperand();
+                    if (auto PtrInstr = dyn_cast<Instruction>(Ptr)) {
+                        addToDependent(PtrInstr);
+                    }
+                }
+            }
+        }
+    }
+}
+
+/// Add blocks affected by a dependent branch.
+void VarDependencySlicer::addAffectedBlocks(BranchInst *Branch) {
+    if (Branch && ProcessedBranches.insert(Branch).second)
+        addAllInstrs(affectedBasicBlocks(Branch));
+}
+
 /// Calculate the set of basic blocks affected by a conditional branch
 /// A condition affects those blocks that are reachable through one branch
 /// only: hence it is a difference of union and intersection of sets of
@@ -363,18 +385,12 @@ std::set<BasicBlock *>
     auto TrueSucc = Terminator.getSuccessor(0);
     auto FalseSucc = Terminator.getSuccessor(1);
 
-    // Find all included blocks (except exit block) that are reachable through
-    // true edge
+    // Find all included blocks that are reachable through true edge
     auto reachableTrue = reachableBlocksThroughSucc(&Terminator, TrueSucc);
     intersectWith(reachableTrue, IncludedBasicBlocks);
-    if (ExitBlock)
-        reachableTrue.erase(ExitBlock);
-    // Find all included blocks (except exit block) that are reachable through
-    // false edge
+    // Find all included blocks that are reachable through false edge
     auto reachableFalse = reachableBlocksThroughSucc(&Terminator, FalseSucc);
     intersectWith(reachableFalse, IncludedBasicBlocks);
-    if (ExitBlock)
-        reachableFalse.erase(ExitBlock);
 
     if (reachableTrue != reachableFalse) {
         // If one successor covers all included blocks reachable from the other
@@ -555,55 +571,42 @@ bool VarDependencySlicer::isIncludedDebugInfo(const Instruction &Inst) {
     return false;
 }
 
-/// Check if a PHI instruction must be included.
+/// Check if the value of a PHI instruction depends on the value of the global
+/// variable since the variable chooses the incoming block.
 bool VarDependencySlicer::checkPhiDependency(const PHINode &Phi) {
+    // Find values that come from blocks whose execution is dependent or through
+    // branches that are dependent.
     Value *Val = nullptr;
-    // Check if there are two incoming dependent blocks with different values
-    bool has_included = false;
     for (auto incomingBB : Phi.blocks()) {
-        if (isIncluded(incomingBB)) {
-            has_included = true;
-            auto *BBVal = Phi.getIncomingValueForBlock(incomingBB);
-            if (!Val)
-                Val = BBVal;
-            else {
-                if (BBVal != Val)
-                    return true;
-            }
-        }
+        if (!isChosenByVariable(incomingBB))
+            continue;
+        auto *BBVal = Phi.getIncomingValueForBlock(incomingBB);
+        if (Val && BBVal != Val)
+            return true;
+        Val = BBVal;
     }
-    if (!has_included)
+    if (!Val)
         return false;
-    // If there are no such two blocks, check if there is another block with
-    // a  different incoming value that is possibly not removed in future
+    // If there are no two different values, check if there is another value
+    // that may come after a dependent branch
     for (auto incomingBB : Phi.blocks()) {
-        if (!isIncluded(incomingBB)) {
-            auto *BBVal = Phi.getIncomingValueForBlock(incomingBB);
-            if (BBVal != Val) {
-                for (auto included : IncludedBasicBlocks) {
-                    // Do not consider those blocks whose terminator is not
-                    // included (since we search for included blocks where both
-                    // branches can be included and one of them leads through
-                    // a block from which a different value comes to PHI
-                    if (!isIncluded(included->getTerminator()))
-                        continue;
-
-                    if (included->getTerminator()->getNumSuccessors() == 2) {
-                        if (isPotentiallyReachable(
-                                    included->getTerminator()->getSuccessor(0),
-                                    incomingBB)
-                            != isPotentiallyReachable(
-                                    included->getTerminator()->getSuccessor(1),
-                                    incomingBB))
-                            return true;
-                    }
-                }
-            }
+        if (Phi.getIncomingValueForBlock(incomingBB) == Val)
+            continue;
+        for (auto Branch : ProcessedBranches) {
+            if (isPotentiallyReachable(Branch->getParent(), incomingBB))
+                return true;
         }
     }
     return false;
 }
 
+/// Check if the value of the global variable chooses whether a block is
+/// executed or how it is left.
+bool VarDependencySlicer::isChosenByVariable(const BasicBlock *BB) {
+    auto Branch = dyn_cast<BranchInst>(BB->getTerminator());
+    return isAffected(BB) || (Branch && ProcessedBranches.count(Branch));
+}
+
 /// Add all stores to an allocated memory between the allocation and a read
 /// access into included.
 bool VarDependencySlicer::addStoresToIncluded(const Instruction *Alloca,
diff --git a/diffkemp/simpll/passes/VarDependencySlicer.h b/diffkemp/simpll/passes/VarDependencySlicer.h
index 49bd2ea..e1b4052 100644
--- a/diffkemp/simpll/passes/VarDependencySlicer.h
+++ b/diffkemp/simpll/passes/VarDependencySlicer.h
@@ -40,6 +40,8 @@ class VarDependencySlicer : public PassInfoMixin<VarDependencySlicer> {
     std::set<const Instruction *> IncludedInstrs = {};
     // Basics blocks whose execution is dependent on the parameter
     std::set<const BasicBlock *> AffectedBasicBlocks = {};
+    // Branches whose affected blocks are in AffectedBasicBlocks
+    std::set<const BranchInst *> ProcessedBranches = {};
     // Basic blocks that must be included
     std::set<const BasicBlock *> IncludedBasicBlocks = {};
     // Function parameters to be included
@@ -48,7 +50,11 @@ class VarDependencySlicer : public PassInfoMixin<VarDependencySlicer> {
     // Return block
     BasicBlock *RetBB = nullptr;
 
+    // Searching for dependent instructions
+    void findDependent(Function &Fun);
+
     // Functions for adding to sets
+    void addAffectedBlocks(BranchInst *Branch);
     void addAllInstrs(const std::vector<const BasicBlock *> BBs);
     bool addToSet(const Instruction *Inst, std::set<const Instruction *> &set);
     bool addToDependent(const Instruction *Instr);
@@ -69,6 +75,7 @@ class VarDependencySlicer : public PassInfoMixin<VarDependencySlicer> {
                                               const BasicBlock *ExitBlock);
 
     bool checkPhiDependency(const PHINode &Phi);
+    bool isChosenByVariable(const BasicBlock *BB);
 
     // Computing reachable blocks
     std::set<const BasicBlock *> reachableBlocks(const BasicBlock *Src,
-- 
2.43.0


From 6bb4e50a22af9b16654e565b5d21dec949e2eac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:02 +0000
Subject: [PATCH 62/63] fix: slice loops and functions without a used return
 value correctly

A block that is executed again depending on the variable was not included.
Functions whose return type changes to void were cloned before they were
cleaned up and the original was cleaned instead of the clone (which could make
a function differ from its own copy). A function with a single block that does
not depend on the variable became a declaration.
---
 .../simpll/passes/VarDependencySlicer.cpp     | 37 +++++++++++++------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/diffkemp/simpll/passes/VarDependencySlicer.cpp b/diffkemp/simpll/passes/VarDependencySlicer.cpp
index 2de2bb1..3be9acf 100644
--- a/diffkemp/simpll/passes/VarDependencySlicer.cpp
+++ b/diffkemp/simpll/passes/VarDependencySlicer.cpp
@@ -150,13 +150,10 @@ PreservedAnalyses
     }
 
     // If the return instruction is not included, we can transform the function
-    // to return void
-    if (RetBB && !RetBB->empty() && !isIncluded(RetBB->getTerminator())
-        && !Fun.getReturnType()->isVoidTy()) {
-        LOG_VERBOSE_EXTRA_NO_INDENT("Changing return type of "
-                                    << Fun.getName() << " to void.\n");
-        changeToVoid(Fun);
-    }
+    // to return void (once it is cleaned up since it is cloned)
+    bool unusedReturn = RetBB && !RetBB->empty()
+                        && !isIncluded(RetBB->getTerminator())
+                        && !Fun.getReturnType()->isVoidTy();
 
     // Clear BBs except first that have no incoming edges
     for (auto BB_it = ++Fun.begin(); BB_it != Fun.end();) {
@@ -196,6 +193,12 @@ PreservedAnalyses
                                             << " after cleanup:\n";
                                 Fun.print(dbgs()));
     LOG_VERBOSE_EXTRA_NO_INDENT("\n");
+
+    if (unusedReturn) {
+        LOG_VERBOSE_EXTRA_NO_INDENT("Changing return type of "
+                                    << Fun.getName() << " to void.\n");
+        changeToVoid(Fun);
+    }
     LOG_UNINDENT();
     return PreservedAnalyses::none();
 }
@@ -256,7 +259,8 @@ void VarDependencySlicer::addAffectedBlocks(BranchInst *Branch) {
 /// Calculate the set of basic blocks affected by a conditional branch
 /// A condition affects those blocks that are reachable through one branch
 /// only: hence it is a difference of union and intersection of sets of
-/// blocks reachable from individual branches.
+/// blocks reachable from individual branches. The block of the condition is
+/// affected, too, if the condition decides whether it is executed again.
 std::vector<const BasicBlock *>
         VarDependencySlicer::affectedBasicBlocks(BranchInst *Branch) {
     std::set<const BasicBlock *> reachableUnion;
@@ -265,6 +269,8 @@ std::vector<const BasicBlock *>
     if (Branch->isConditional()) {
         for (auto Succ : Branch->successors()) {
             auto reachable = reachableBlocksThroughSucc(Branch, Succ);
+            if (isPotentiallyReachable(Succ, Branch->getParent()))
+                reachable.insert(Branch->getParent());
 
             // Compute union with blocks reachable from other branches
             uniteWith(reachableUnion, reachable);
@@ -457,8 +463,11 @@ bool VarDependencySlicer::canRemoveBlock(const BasicBlock *bb) {
 /// Check if the first basic block can be removed.
 // The first block cannot be removed if it has a successor that is included
 // and has incoming edges or that has incoming edges from other blocks (since
-// first block cannot have incoming edges).
+// first block cannot have incoming edges). The only block of a function must be
+// kept.
 bool VarDependencySlicer::canRemoveFirstBlock(const BasicBlock *bb) {
+    if (succ_begin(bb) == succ_end(bb))
+        return false;
     for (const auto &Succ : successors(bb)) {
         if (isIncluded(Succ) && pred_begin(Succ) != pred_end(Succ))
             return false;
@@ -589,12 +598,18 @@ bool VarDependencySlicer::checkPhiDependency(const PHINode &Phi) {
         return false;
     // If there are no two different values, check if there is another value
     // that may come after a dependent branch
+    SmallPtrSet<BasicBlock *, 1> PhiBlock;
+    PhiBlock.insert(const_cast<BasicBlock *>(Phi.getParent()));
     for (auto incomingBB : Phi.blocks()) {
         if (Phi.getIncomingValueForBlock(incomingBB) == Val)
             continue;
         for (auto Branch : ProcessedBranches) {
-            if (isPotentiallyReachable(Branch->getParent(), incomingBB))
-                return true;
+            for (auto Succ : Branch->successors()) {
+                if (isPotentiallyReachable(&Succ->front(),
+                                           incomingBB->getTerminator(),
+                                           &PhiBlock))
+                    return true;
+            }
         }
     }
     return false;
-- 
2.43.0


From 1ae6f401b64288a2d93373fc03718d12d791590a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 63/63] fix: keep branches that choose dependent values when
 slicing

If all included blocks could be reached through one side of a branch, the other
side was removed even if dependent values came from it. Blocks in loops whose
execution depends on the variable were missed if they could be reached later.
---
 .../simpll/passes/VarDependencySlicer.cpp     | 55 +++++++++++++++++++
 diffkemp/simpll/passes/VarDependencySlicer.h  |  5 ++
 2 files changed, 60 insertions(+)

diff --git a/diffkemp/simpll/passes/VarDependencySlicer.cpp b/diffkemp/simpll/passes/VarDependencySlicer.cpp
index 3be9acf..ceeaf36 100644
--- a/diffkemp/simpll/passes/VarDependencySlicer.cpp
+++ b/diffkemp/simpll/passes/VarDependencySlicer.cpp
@@ -17,6 +17,7 @@
 #include "Logger.h"
 #include <Config.h>
 #include <llvm/Analysis/CFG.h>
+#include <llvm/Analysis/PostDominators.h>
 #include <llvm/IR/CFG.h>
 #include <llvm/IR/Operator.h>
 #include <llvm/Transforms/Utils/BasicBlockUtils.h>
@@ -261,6 +262,9 @@ void VarDependencySlicer::addAffectedBlocks(BranchInst *Branch) {
 /// only: hence it is a difference of union and intersection of sets of
 /// blocks reachable from individual branches. The block of the condition is
 /// affected, too, if the condition decides whether it is executed again.
+/// Also, a condition affects those blocks that must be executed after taking
+/// one branch but not after taking another (if there is a loop, they may be
+/// reachable through all branches).
 std::vector<const BasicBlock *>
         VarDependencySlicer::affectedBasicBlocks(BranchInst *Branch) {
     std::set<const BasicBlock *> reachableUnion;
@@ -290,6 +294,17 @@ std::vector<const BasicBlock *>
                         reachableIntersection.begin(),
                         reachableIntersection.end(),
                         std::back_inserter(result));
+    if (Branch->isConditional()) {
+        PostDominatorTree PostDomTree(*Branch->getFunction());
+        auto BranchNode = PostDomTree.getNode(Branch->getParent());
+        for (auto Succ : Branch->successors()) {
+            for (auto Node = PostDomTree.getNode(Succ);
+                 BranchNode && Node && Node->getBlock()
+                 && Node != BranchNode->getIDom();
+                 Node = Node->getIDom())
+                result.push_back(Node->getBlock());
+        }
+    }
     return result;
 }
 
@@ -398,6 +413,10 @@ std::set<BasicBlock *>
     auto reachableFalse = reachableBlocksThroughSucc(&Terminator, FalseSucc);
     intersectWith(reachableFalse, IncludedBasicBlocks);
 
+    // A dependent value may be chosen by the terminator
+    if (choosesDependentValue(Terminator))
+        return {TrueSucc, FalseSucc};
+
     if (reachableTrue != reachableFalse) {
         // If one successor covers all included blocks reachable from the other
         // successor, choose it
@@ -434,6 +453,42 @@ std::set<BasicBlock *>
     }
 }
 
+/// Check if there is a dependent PHI instruction that may get different values
+/// after different successors of a terminator instruction.
+bool VarDependencySlicer::choosesDependentValue(const BranchInst &Terminator) {
+    for (auto &BB : *Terminator.getFunction()) {
+        for (auto &Phi : BB.phis()) {
+            if (!isDependent(&Phi))
+                continue;
+            auto TrueValues = incomingValuesThroughSucc(
+                    Phi, Terminator.getParent(), Terminator.getSuccessor(0));
+            auto FalseValues = incomingValuesThroughSucc(
+                    Phi, Terminator.getParent(), Terminator.getSuccessor(1));
+            if (!TrueValues.empty() && !FalseValues.empty()
+                && TrueValues != FalseValues)
+                return true;
+        }
+    }
+    return false;
+}
+
+/// Find all values that a PHI instruction may get when it is reached for the
+/// first time through a successor of a block.
+std::set<const Value *> VarDependencySlicer::incomingValuesThroughSucc(
+        const PHINode &Phi, const BasicBlock *BB, const BasicBlock *Succ) {
+    if (Succ == Phi.getParent())
+        return {Phi.getIncomingValueForBlock(BB)};
+    SmallPtrSet<BasicBlock *, 2> Excluded;
+    Excluded.insert(const_cast<BasicBlock *>(Phi.getParent()));
+    std::set<const Value *> result;
+    for (auto incomingBB : Phi.blocks()) {
+        if (isPotentiallyReachable(
+                    &Succ->front(), incomingBB->getTerminator(), &Excluded))
+            result.insert(Phi.getIncomingValueForBlock(incomingBB));
+    }
+    return result;
+}
+
 /// Check if a basic block can be removed.
 /// If a removal of bb would result in a situation that there exists a phi
 /// node Phi with two different incoming values for the same incoming
diff --git a/diffkemp/simpll/passes/VarDependencySlicer.h b/diffkemp/simpll/passes/VarDependencySlicer.h
index e1b4052..f9faa01 100644
--- a/diffkemp/simpll/passes/VarDependencySlicer.h
+++ b/diffkemp/simpll/passes/VarDependencySlicer.h
@@ -74,6 +74,11 @@ class VarDependencySlicer : public PassInfoMixin<VarDependencySlicer> {
     std::set<BasicBlock *> includedSuccessors(BranchInst &Terminator,
                                               const BasicBlock *ExitBlock);
 
+    bool choosesDependentValue(const BranchInst &Terminator);
+    std::set<const Value *> incomingValuesThroughSucc(const PHINode &Phi,
+                                                      const BasicBlock *BB,
+                                                      const BasicBlock *Succ);
+
     bool checkPhiDependency(const PHINode &Phi);
     bool isChosenByVariable(const BasicBlock *BB);
 
-- 
2.43.0

