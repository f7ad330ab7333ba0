From 74f3be593de492f2350a11b9347f2153dd83a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 01/80] fix: reject invalid boolean test values in optimized
 mode as well

---
 libff/type.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 0147ec7..30288ad 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -444,7 +444,8 @@ class Boolean(Type):
 
     @classmethod
     def input(cls, value):
-        assert value.lower() in cls.true + cls.false
+        if value.lower() not in cls.true + cls.false:
+            raise ValueError(f"unable to parse {value!r}")
         return value.lower() in cls.true
 
     @classmethod
-- 
2.43.0


From 56a85173943a355f77a23eac120ec8c8b6031570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 02/80] fix: report invalid option values as usage errors

---
 libff/argparse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 576e1d9..b13bce6 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -420,7 +420,15 @@ class ArgumentParser:
         if not argv:
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
+
+    def convert_argument(self, option, string):
+        """Convert the argument of an option to the type the option requires.
+        """
+        try:
+            return option.type(string)
+        except ValueError as exc:
+            raise ArgumentError(f"{option.repr}: invalid value {string!r}: {exc}") from exc
 
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
@@ -428,7 +436,7 @@ class ArgumentParser:
         if not argv or argv[0].startswith("-"):
             raise ArgumentError(f"{option.repr} requires an argument")
         else:
-            return option.type(argv.pop(0))
+            return self.convert_argument(option, argv.pop(0))
 
     def parse_option(self, argv):
         """Parse a single option and act according to its action.
-- 
2.43.0


From 96ced2188dce34de8ced2e927a00afc3fd930820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:18 +0000
Subject: [PATCH 03/80] fix: enforce the choices of options

---
 libff/argparse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index b13bce6..817764e 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -426,10 +426,15 @@ class ArgumentParser:
         """Convert the argument of an option to the type the option requires.
         """
         try:
-            return option.type(string)
+            value = option.type(string)
         except ValueError as exc:
             raise ArgumentError(f"{option.repr}: invalid value {string!r}: {exc}") from exc
 
+        if option.choices is not None and value not in option.choices:
+            raise ArgumentError(f"{option.repr}: invalid value {string!r} "\
+                    f"(choose from {', '.join(option.choices)})")
+        return value
+
     def get_optional_argument(self, option, argv):
         """Fetch an optional argument from the argument list.
         """
-- 
2.43.0


From 1711be2655412bd76ca06c15b5e4687dd82fe7d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 04/80] fix: report malformed -e/--exclude arguments as usage
 errors

---
 libff/filter.py | 5 ++++-
 libff/main.py   | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/libff/filter.py b/libff/filter.py
index c8654ee..0221ee9 100644
--- a/libff/filter.py
+++ b/libff/filter.py
@@ -21,7 +21,7 @@
 import itertools
 
 from . import BaseClass
-from .parser import Parser
+from .parser import Parser, ParserError
 
 
 class MatcherParser(Parser):
@@ -65,6 +65,9 @@ class Excluder(Filter):
     def __init__(self, context, tokens):
         super().__init__(context, Parser(context, tokens))
 
+        if any(isinstance(test, list) for test in itertools.chain.from_iterable(self.parser)):
+            raise ParserError("only single tests are supported")
+
     def test_empty(self, entry):
         """Default test method when the list of tests is empty.
         """
diff --git a/libff/main.py b/libff/main.py
index f5cc1a2..6036fa8 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -137,9 +137,12 @@ class _Base(BaseClass):
         except ParserError as exc:
             raise UsageError(f"unable to parse tests: {exc}") from exc
 
-        # Setup the excluder from the command line arguments.
-        excluder = Excluder(self.context, args.exclude)
-        self.context.excluder = excluder
+        try:
+            # Setup the excluder from the command line arguments.
+            excluder = Excluder(self.context, args.exclude)
+            self.context.excluder = excluder
+        except ParserError as exc:
+            raise UsageError(f"unable to parse excludes: {exc}") from exc
 
     def setup_walker(self):
         """Set up the filesystem walker processes.
-- 
2.43.0


From 437650a420346b85e62c0e989a0f65934a97a01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 05/80] fix: report a malformed FF_OPTIONS variable as a usage
 error

---
 libff/arguments.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 393057e..d6066af 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -337,7 +337,11 @@ def parse_arguments():
     """
     parser = create_parser()
 
-    argv = collect_arguments()
+    try:
+        argv = collect_arguments()
+    except ValueError as exc:
+        parser.error(f"unable to parse FF_OPTIONS: {exc}")
+
     args = parser.parse_args(argv)
 
     if args.help == "all":
-- 
2.43.0


From 58c2c414296da8b74fa7c4d311a538f0727e3bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 06/80] fix: report an inaccessible start directory as a usage
 error

---
 libff/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 6036fa8..3121efd 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -176,7 +176,12 @@ class _Base(BaseClass):
                     self.logger.debug("info",
                             f"    found ignorefile in parent: {ignore}")
 
-            walker.put([Directory(StartDirectory(self.context.args, path), "", ignores)])
+            try:
+                start_directory = StartDirectory(self.context.args, path)
+            except OSError as exc:
+                raise UsageError(f"unable to access directory: {exc}") from exc
+
+            walker.put([Directory(start_directory, "", ignores)])
 
     def setup(self, args, error=None, warnings=None):
         """Set up context, components, processing and walkers.
-- 
2.43.0


From 0f1a04a536e5f114c08320e4b0851048a625bb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:37 +0000
Subject: [PATCH 07/80] fix: report an unusable cache database as a usage error

---
 libff/main.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 3121efd..1730312 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -21,6 +21,7 @@
 import os
 import sys
 import pstats
+import sqlite3
 import cProfile
 
 from . import BaseClass, __copyright__
@@ -87,7 +88,10 @@ class _Base(BaseClass):
             CacheClass = Cache
 
         # Once we're on Python >=3.8 we can use context.cache = (cache := CacheClass(context)).
-        cache = CacheClass(self.context)
+        try:
+            cache = CacheClass(self.context)
+        except sqlite3.Error as exc:
+            raise UsageError(f"unable to open cache {args.cache!r}: {exc}") from exc
         self.context.cache = cache
 
         # Register all types and metadata plugins.
-- 
2.43.0


From e6d674e2905cbfc817025a23f67be689c82c4542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 08/80] fix: do not fail on --count with both numeric and other
 values

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 58cf6a6..77f0eae 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -330,7 +330,7 @@ class CollectiveMixin(BaseProcessing):
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
                     for k, v in sorted(value.items(),
-                            key=lambda t: int(t[0]) if t[0].isdigit() else t[0]):
+                            key=lambda t: (0, int(t[0]), "") if t[0].isdecimal() else (1, 0, t[0])):
                         print(f"{key}[{k}]={v}")
                 else:
                     print(f"{key}={value}")
-- 
2.43.0


From aa551db515153438f43e9977cb6d58c4d8523667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 09/80] fix: do not fail on version sort with missing or
 non-string values

---
 libff/field.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index 79121de..de7061b 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -171,12 +171,12 @@ class SortFields(OutputFields):
             try:
                 value = self.registry.get_attribute(entry, field.attribute)
             except KeyError:
-                output.append(field.type.sort_none)
+                value = field.type.sort_none
             else:
                 value = field.type.sort_key(value)
-                if field.modifier == "v":
-                    value = self.prepare_sort_key(value)
-                output.append(value)
+            if field.modifier == "v" and isinstance(value, str):
+                value = self.prepare_sort_key(value)
+            output.append(value)
         return tuple(output)
 
 
-- 
2.43.0


From 2d128d858c1bb0ce1561e00770dd019cc6ab6c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 10/80] fix: always produce comparable keys for version sort

---
 libff/field.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index de7061b..8bf26ca 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -143,15 +143,13 @@ class SortFields(OutputFields):
         # Split the component into string and number parts. Make sure the list starts with a
         # string.
         parts = self.regex_digits.split(component)
-        if parts[0].isdigit():
-            parts.insert(0, "")
 
         # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdigit() else p for p in parts]
+        yield [int(p) if p.isdecimal() else p for p in parts]
 
-        # Yield extensions separately.
-        if extensions:
-            yield extensions
+        # Yield extensions separately. We do that even if there are none, so that components are
+        # not compared to extensions.
+        yield extensions
 
     def prepare_sort_key(self, value):
         """Prepare a sort key from a path for natural/version sorting.
-- 
2.43.0


From 67d5ea98453489aefef4ba59caf64a000d403e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 11/80] fix: report invalid glob patterns in tests as
 expression errors

---
 libff/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/parser.py b/libff/parser.py
index ba70ce7..418defc 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -318,5 +318,9 @@ class Parser(BaseClass):
 
             elif operator == "%":
                 value = Glob(value, path_pattern=issubclass(type_cls, Path))
+                try:
+                    value.regex
+                except re.error as exc:
+                    raise ExpressionError(f"Invalid glob pattern {value.pattern!r}: {exc}") from exc
 
         return Test(attribute, operator, type_cls, value, ignore_case)
-- 
2.43.0


From 18fc373656b5b142ffb154270570108d7bfdc9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 12/80] fix: skip invalid patterns in ignore files

---
 libff/ignore.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libff/ignore.py b/libff/ignore.py
index e04aa95..1e52a6f 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -185,6 +185,12 @@ class GitIgnore:
                 continue
 
             pattern = Glob(pattern)
+            try:
+                pattern.regex
+            except re.error:
+                # Just like in git(1) an invalid pattern matches nothing.
+                continue
+
             if pattern.get_group_key() != key:
                 # Start new group.
                 key = pattern.get_group_key()
-- 
2.43.0


From 66d04710738d1901c838b4e6ec1a6f027f03d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 13/80] fix: do not fail on ignore files with undecodable
 contents

---
 libff/ignore.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 1e52a6f..c500c8d 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -169,7 +169,7 @@ class GitIgnore:
         self.path = join(dirname, name)
 
         # pylint:disable=unspecified-encoding
-        with open(self.path) as lines:
+        with open(self.path, errors="surrogateescape") as lines:
             self.lines = list(lines)
 
         # Collect the glob patterns from the gitignore file and translate them to regular
-- 
2.43.0


From 29ed7b64e42c2bee6408ae61acc2867bd8287f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 14/80] fix: do not try to read ignore files that are not
 regular files

---
 libff/ignore.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libff/ignore.py b/libff/ignore.py
index c500c8d..cc26ba5 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -20,6 +20,8 @@
 
 import os
 import re
+import stat
+import errno
 import collections
 
 from .path import join
@@ -168,6 +170,10 @@ class GitIgnore:
         self.dirname = dirname
         self.path = join(dirname, name)
 
+        # Reading e.g. from a named pipe would block forever.
+        if not stat.S_ISREG(os.stat(self.path).st_mode):
+            raise OSError(errno.EINVAL, "Not a regular file", self.path)
+
         # pylint:disable=unspecified-encoding
         with open(self.path, errors="surrogateescape") as lines:
             self.lines = list(lines)
-- 
2.43.0


From e97471b26f24fdf88933fbe10974471bcc6049ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 15/80] fix: do not drop entries from color output if LS_COLORS
 is not set

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index dd25215..34542f0 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -261,7 +261,7 @@ class ColorConsole(Console):
     def __init__(self, context):
         super().__init__(context)
 
-        self.colors = {}
+        self.colors = {"di": None, "ex": None, "ln": None, "or": None}
         self.extensions = {}
         rules = {}
 
-- 
2.43.0


From c43aa7b9f61fb92254d313eb61d551d07999cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 16/80] fix: ignore damaged archives in the tar plugin

---
 plugins/tar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/tar.py b/plugins/tar.py
index 006867a..d522fdc 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -52,7 +52,10 @@ class Tar(Plugin):
         try:
             with tarfile.open(entry.path) as tar:
                 return set(name for name in tar.getnames())
-        except (OSError, EOFError) as exc:
+        except Exception as exc:
+            # Besides OSError and tarfile.TarError damaged archives cause all kinds of exceptions
+            # in the tarfile module and in the modules that do the decompression.
+            # pylint:disable=broad-except
             raise NoData from exc
 
     def process(self, entry, cached):
-- 
2.43.0


From b2aafbcf29c652e94dec7e52494d86b092fb1ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:17 +0000
Subject: [PATCH 17/80] fix: produce a list of members in the tar plugin

---
 plugins/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/tar.py b/plugins/tar.py
index d522fdc..c5cd8a2 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -51,7 +51,7 @@ class Tar(Plugin):
     def cache(self, entry):
         try:
             with tarfile.open(entry.path) as tar:
-                return set(name for name in tar.getnames())
+                return sorted(set(tar.getnames()))
         except Exception as exc:
             # Besides OSError and tarfile.TarError damaged archives cause all kinds of exceptions
             # in the tarfile module and in the modules that do the decompression.
-- 
2.43.0


From 4f179d76f0e8e8e2ae0a2898bf4145c668aa2c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 18/80] fix: do not open anything other than regular files in
 the tar, py and medium plugins

---
 libff/builtin/media.py | 2 ++
 plugins/introspect.py  | 2 ++
 plugins/tar.py         | 2 +-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/builtin/media.py b/libff/builtin/media.py
index 043220d..b1cf1fa 100644
--- a/libff/builtin/media.py
+++ b/libff/builtin/media.py
@@ -74,6 +74,8 @@ class Medium(Plugin):
             raise NoData from exc
 
     def can_handle(self, entry):
+        if not entry.is_file():
+            return False
         mimetype = mimetypes.guess_type(entry.name)[0]
         if not mimetype:
             return False
diff --git a/plugins/introspect.py b/plugins/introspect.py
index f03604e..1e8e17b 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -144,6 +144,8 @@ class Py(Plugin):
                 yield node.names[0].name
 
     def can_handle(self, entry):
+        if not entry.is_file():
+            return False
         if entry.ext.lower() == "py":
             return True
         shebang = Shebang.extract_shebang(entry.path)
diff --git a/plugins/tar.py b/plugins/tar.py
index c5cd8a2..7d49013 100644
--- a/plugins/tar.py
+++ b/plugins/tar.py
@@ -46,7 +46,7 @@ class Tar(Plugin):
             ".tar.xz", ".txz")
 
     def can_handle(self, entry):
-        return entry.name.endswith(self.extensions)
+        return entry.is_file() and entry.name.endswith(self.extensions)
 
     def cache(self, entry):
         try:
-- 
2.43.0


From 43c95b9e5694af845de9efb63088f549cccee359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 19/80] fix: report -X/--exec-batch arguments that are too long
 to be split further

---
 libff/processing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index 77f0eae..c225228 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -374,7 +374,7 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
                     if process.returncode != 0:
                         self.context.set_exitcode(EX_SUBPROCESS)
                 except OSError as exc:
-                    if exc.errno == errno.E2BIG:
+                    if exc.errno == errno.E2BIG and len(entries) > 1:
                         # As long as the command line is too long to pass to a subprocess, split
                         # the list of entries list in two and try again. This is much easier than
                         # to come up with a reliable heuristic based on SC_ARG_MAX, which is the
-- 
2.43.0


From 764375c210d4957ad59f7621432ffd7b934088da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 20/80] fix: consider the ignore files from all parent
 directories of a start directory

---
 libff/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index 1730312..0b33820 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -169,7 +169,7 @@ class _Base(BaseClass):
                 # Find ignore files in parent directories.
                 if self.context.args.ignore:
                     ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            os.path.dirname(path))
+                            path)
                 else:
                     ignores = []
 
-- 
2.43.0


From 3804cf0296ca8bdfd23a4d88119721ddc26d7119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 21/80] fix: commit removed entries before reclaiming space in
 --clean-cache

---
 libff/cache.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/cache.py b/libff/cache.py
index 9a814f2..a491ac9 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -199,5 +199,6 @@ class Cache(NullCache):
                 if not os.path.exists(path):
                     self.conn.execute(f"delete from {table} where path = ?", (path,))
 
-        self.conn.execute("vacuum")
+        # The database cannot be vacuumed from within a transaction.
         self.conn.commit()
+        self.conn.execute("vacuum")
-- 
2.43.0


From 0542fc63aa2bfc6c8606aef578c425279fc96a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 22/80] fix: use unambiguous path keys for the metadata cache

---
 libff/cache.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index a491ac9..6fc32c3 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -138,7 +138,7 @@ class Cache(NullCache):
     def get(self, plugin, path, tag):
         """Return a row of cached values.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
 
         for row in self.conn.execute(
@@ -153,7 +153,7 @@ class Cache(NullCache):
     def set(self, plugin, path, tag, obj):
         """Write data to the cache.
         """
-        path = path.encode("utf-8", "backslashreplace")
+        path = os.fsencode(path)
         tag = pickle.dumps(tag, pickle.HIGHEST_PROTOCOL)
         data = pickle.dumps(obj, pickle.HIGHEST_PROTOCOL)
 
-- 
2.43.0


From 73fa89da1044cafd4aea4f9ab8a6f868b2645d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 23/80] fix: do not drop the cache tables of other plugins with
 similar names

---
 libff/cache.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 6fc32c3..38eee92 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -109,12 +109,11 @@ class Cache(NullCache):
            older versions of this plugin.
         """
         # Ask the database if a table exists for this plugin.
-        curs = self.conn.execute(
-                "select name from sqlite_master where type = 'table' and name like ?",
-                (plugin_cls.sql_table_name.rstrip(string.digits) + "%",))
+        curs = self.conn.execute("select name from sqlite_master where type = 'table'")
+        prefix = plugin_cls.sql_table_name.rstrip(string.digits)
+        tables = set(row[0] for row in curs if row[0].rstrip(string.digits) == prefix)
 
         # Create a table if there is none for this plugin.
-        tables = set(row[0] for row in curs)
         if plugin_cls.sql_table_name not in tables:
             for statement in self.get_sql_create_table(plugin_cls):
                 self.conn.execute(statement)
-- 
2.43.0


From 2b6c54e3a63f559631e2264e2d6eedfa63a70b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 24/80] fix: store rows in the cache that were added by the
 main process

---
 libff/find.py | 1 +
 libff/main.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 506b968..8bed8e3 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -133,3 +133,4 @@ class Find(_Base):
         self.context.close()
         self.context.walker.close()
         self.context.processing.close()
+        self.context.cache.close()
diff --git a/libff/main.py b/libff/main.py
index 0b33820..28b1eca 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -308,6 +308,7 @@ class Main(_Base):
         self.context.close()
         self.context.walker.close()
         self.context.processing.close()
+        self.context.cache.close()
 
         if __debug__:
             hits = self.context.cache_hits.value
-- 
2.43.0


From 1487602d52c7f179770c25099b47db118ee3809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 25/80] fix: report failed processes in the Python API

---
 libff/find.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libff/find.py b/libff/find.py
index 8bed8e3..26986c7 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -24,6 +24,7 @@ import argparse
 from .main import _Base
 from .ignore import IGNORE_FILES
 from .arguments import Defaults, ArgumentsPostProcessor
+from .exceptions import EX_PROCESS, ProcessError
 from .processing import ImmediateGenerator, CollectiveGenerator
 
 
@@ -134,3 +135,7 @@ class Find(_Base):
         self.context.walker.close()
         self.context.processing.close()
         self.context.cache.close()
+
+        if self.context.exitcode == EX_PROCESS:
+            raise ProcessError("One or more ff processes had unrecoverable errors! "\
+                    "Result is probably incomplete!")
-- 
2.43.0


From 3ba18e756f85378caaaf0bbc0bcc1c3886d3ac66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 26/80] fix: stop all processes if the iteration over a Find
 object is abandoned

---
 libff/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/find.py b/libff/find.py
index 26986c7..5e79989 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -126,7 +126,7 @@ class Find(_Base):
 
             yield from self.context.processing
 
-        except KeyboardInterrupt:
+        except (KeyboardInterrupt, GeneratorExit):
             # Stop all processes immediately.
             self.context.stop()
             raise
-- 
2.43.0


From bab2d25b160f2c2913bca1a4bc24db0208ac7113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 27/80] fix: set up plugins for each Find object

---
 libff/cache.py    | 4 ++--
 libff/registry.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/cache.py b/libff/cache.py
index 38eee92..8fe5d36 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -64,8 +64,6 @@ class Cache(NullCache):
     """A cache that stores pickled Python objects in an sqlite3 database.
     """
 
-    registered = {}
-
     commit_every_seconds = 30
     commit_every_count = 500
 
@@ -74,6 +72,8 @@ class Cache(NullCache):
 
         self.conn = sqlite3.connect(self.context.args.cache, timeout=30)
 
+        self.registered = {}
+
         self.num_cached_rows = 0
         self.last_commit = time.time()
         self.cached_rows = {}
diff --git a/libff/registry.py b/libff/registry.py
index ff70017..c179332 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -44,12 +44,12 @@ class Registry(BaseClass):
     registered_types = set()
     registered_plugins = {}
 
-    plugins = {}
     attributes = {}
 
     def __init__(self, context):
         super().__init__(context)
 
+        self.plugins = {}
         self.optimize_for_slow_plugins = False
 
         with self.context.global_lock:
-- 
2.43.0


From 88d1f1b52c60978d1cbfa965ea6feee702bc93cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 28/80] fix: do not change the meaning of regular expressions
 with --case=ignore

---
 libff/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libff/parser.py b/libff/parser.py
index 418defc..8be197f 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -306,13 +306,15 @@ class Parser(BaseClass):
             else:
                 ignore_case = self.args.case == "ignore"
 
-            if ignore_case:
+            # Regular expressions must not be converted because the case of escape sequences has a
+            # meaning.
+            if ignore_case and operator != "~":
                 value = value.lower()
 
             # Pre-compile regular expressions.
             if operator == "~":
                 try:
-                    value = re.compile(value)
+                    value = re.compile(value, re.IGNORECASE if ignore_case else 0)
                 except re.error as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
-- 
2.43.0


From 32f2c1674e2f54b822927b830489eb81ea030bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 29/80] fix: reject references to list attributes

---
 libff/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/parser.py b/libff/parser.py
index 8be197f..cae1616 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -299,6 +299,9 @@ class Parser(BaseClass):
         # Do some preparation for Type classes that claim to be string types, i.e. handle case
         # sensitivity and compile regexes.
         if type_cls.string_type:
+            if not isinstance(value, str):
+                raise ExpressionError(f"Attribute {attribute} cannot be used with a reference")
+
             if self.args.case == "smart":
                 # If the value is in lower case compare ignoring the case, if it contains uppercase
                 # letters compare using sensitive case.
-- 
2.43.0


From 9d48fb43f5c64e26c97c4c39a5c73338e92f1be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 30/80] fix: produce hashsums for algorithms with variable
 digest sizes

---
 plugins/hash.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/hash.py b/plugins/hash.py
index 193670a..971eda3 100644
--- a/plugins/hash.py
+++ b/plugins/hash.py
@@ -29,6 +29,9 @@ class _Hash(Plugin):
 
     use_cache = True
 
+    # Digest sizes of the algorithms that have no fixed one.
+    digest_sizes = {"shake_128": 16, "shake_256": 32}
+
     def can_handle(self, entry):
         return entry.is_file()
 
@@ -38,6 +41,8 @@ class _Hash(Plugin):
             with open(entry.path, "rb") as fobj:
                 while buf := fobj.read(8192):
                     h.update(buf)
+            if self.name in self.digest_sizes:
+                return self.name, h.hexdigest(self.digest_sizes[self.name])
             return self.name, h.hexdigest()
         except (OSError, EOFError) as exc:
             raise NoData from exc
-- 
2.43.0


From 82c2313676e4e7b6841eef49453a014c2ea9acc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 31/80] fix: attribute mountpoint directories to their own
 filesystem

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 791498e..4627524 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -55,7 +55,7 @@ class Mountpoints:
         """Get the mountpoint, device name and filesystem type for path.
         """
         for mpath, devname, fstype in self.entries:
-            if mpath == path or path.startswith(mpath):
+            if (path + os.sep).startswith(mpath):
                 return mpath, devname, fstype
         return os.sep, "root_device", "rootfs"
 
-- 
2.43.0


From d598215817c15e7dd573de6899983fdcb4572b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 32/80] fix: do not abort the search if the filesystem type of
 a file is unavailable

---
 plugins/fs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plugins/fs.py b/plugins/fs.py
index 7914163..364f94f 100644
--- a/plugins/fs.py
+++ b/plugins/fs.py
@@ -104,7 +104,10 @@ class Fs(Plugin):
         else:
             path = os.path.abspath(entry.dir)
 
-        name, remote = self.get_fs_type(path)
+        try:
+            name, remote = self.get_fs_type(path)
+        except OSError as exc:
+            raise NoData from exc
 
         yield "type", name
         yield "remote", remote
-- 
2.43.0


From f8f7874a326d6987bb7b24c4f5e9ce784b9e84c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 33/80] fix: do not abort the search if a Python file is not
 parsable

---
 plugins/introspect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 1e8e17b..6d9aaf2 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -154,5 +154,5 @@ class Py(Plugin):
     def process(self, entry, cached):
         try:
             yield "imports", sorted(self.parse_imports(entry))
-        except (OSError, SyntaxError, UnicodeDecodeError) as exc:
+        except (OSError, SyntaxError, ValueError, RecursionError, MemoryError) as exc:
             raise NoData from exc
-- 
2.43.0


From a0bb72cba27c441a45f84f57b09ed96a0145e0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 34/80] fix: do not print tracebacks if the output pipe is
 closed

---
 libff/walk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/walk.py b/libff/walk.py
index 16e31e2..2ca6b8f 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -120,6 +120,10 @@ class FilesystemWalker(BaseClass):
 
             self.cache.close()
 
+        except BrokenPipeError:
+            # Nobody is interested in the rest of the output.
+            self.context.stop()
+
         except Exception:
             # Terminate all processes if an unexpected error occurs.
             self.context.set_exitcode(EX_PROCESS)
-- 
2.43.0


From 55b97f295d596511564ee7a9884f843fa7478a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 35/80] fix: accept --clean-cache together with --no-cache

---
 libff/cache.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/cache.py b/libff/cache.py
index 8fe5d36..f463ed6 100644
--- a/libff/cache.py
+++ b/libff/cache.py
@@ -44,6 +44,10 @@ class NullCache(BaseClass):
         """Close the cache.
         """
 
+    def clean(self):
+        """Remove stale entries from the cache.
+        """
+
     def register_plugin(self, plugin_cls):
         """Register a Plugin class in the cache.
         """
-- 
2.43.0


From 7930a3864d0a9a704205ba666bb1fbf904a85860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:04 +0000
Subject: [PATCH 36/80] fix: recognize files with unusual names in the git
 plugin

---
 plugins/git.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 4f3c12a..2ef0c80 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -31,10 +31,11 @@ class Filelist(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "ls-files"], capture_output=True, text=True,
+        proc = subprocess.run(["git", "-C", dirname, "ls-files", "-z"], capture_output=True,
                 check=False)
-        for filename in proc.stdout.splitlines():
-            self.add(os.path.join(dirname, filename))
+        for filename in os.fsdecode(proc.stdout).split("\0"):
+            if filename:
+                self.add(os.path.join(dirname, filename))
 
 
 class Status(set):
@@ -44,11 +45,11 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain"], capture_output=True,
-                text=True, check=False)
-        for line in proc.stdout.splitlines():
-            status, filename = line.split(None, 1)
-            if status == "??":
+        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "--no-renames", "-z"],
+                capture_output=True, check=False)
+        for line in os.fsdecode(proc.stdout).split("\0"):
+            status, filename = line[:2], line[3:]
+            if not filename or status == "??":
                 continue
             self.add(os.path.join(dirname, filename))
 
-- 
2.43.0


From bb5bc7996a4eed04b7c304b8cb081ca9c9a456e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 37/80] fix: do not fail if the output encoding cannot
 represent a file name

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 34542f0..19b6a4e 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -109,7 +109,7 @@ class Console(BaseConsole):
     """Print entries as separator delimited records of fields.
     """
 
-    encoding = sys.getfilesystemencoding()
+    encoding = getattr(sys.stdout, "encoding", None) or sys.getfilesystemencoding()
 
     def __init__(self, context):
         super().__init__(context)
-- 
2.43.0


From 340d994baaaff64caabfcf242f77a80e1172c5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:31 +0000
Subject: [PATCH 38/80] fix: do not fail on --count with undecodable values

---
 libff/processing.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index c225228..e50be61 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -331,9 +331,18 @@ class CollectiveMixin(BaseProcessing):
                 if isinstance(value, dict):
                     for k, v in sorted(value.items(),
                             key=lambda t: (0, int(t[0]), "") if t[0].isdecimal() else (1, 0, t[0])):
-                        print(f"{key}[{k}]={v}")
+                        self.print_line(f"{key}[{k}]={v}")
                 else:
-                    print(f"{key}={value}")
+                    self.print_line(f"{key}={value}")
+
+    @staticmethod
+    def print_line(line):
+        """Print a line of output handling encoding errors.
+        """
+        try:
+            print(line)
+        except UnicodeEncodeError:
+            print(line.encode(Console.encoding, "backslashreplace").decode(Console.encoding))
 
 
 class CollectiveConsoleProcessing(CollectiveMixin, BaseConsoleProcessing):
-- 
2.43.0


From 022153454b0ecf776b2de5bb5834e1b27a6d6ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 39/80] fix: reject empty alternatives inside brackets

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index cae1616..5f6f42d 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -130,7 +130,7 @@ class Parser(BaseClass):
                 continue
 
             elif token in self.CLOSING_BRACKETS:
-                if not sequences[-1]:
+                if any(not seq for seq in sequences):
                     raise ParserError("empty expression")
                 self.tokens.insert(0, token)
                 return
-- 
2.43.0


From fcb9c4903b47164073eb804e487577933b8d97d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 40/80] fix: let internal errors prevail over failed commands
 in the exit status

---
 libff/context.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index 174304a..fcba425 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -21,7 +21,6 @@
 import threading
 import subprocess
 import multiprocessing
-import multiprocessing.sharedctypes
 
 from . import TIMEOUT
 from .exceptions import EX_SUBPROCESS
@@ -76,7 +75,7 @@ class Context:
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
         # errors to the main process.
-        self.exitcode_object = multiprocessing.sharedctypes.RawValue("i", 0)
+        self.exitcode_object = multiprocessing.Value("i", 0)
         self.process_succeeded = multiprocessing.Value("L")
         self.process_failed = multiprocessing.Value("L")
 
@@ -95,7 +94,9 @@ class Context:
     def set_exitcode(self, exitcode):
         """Set the shared resource 'exitcode' to the value that will be used as the main exit code.
         """
-        self.exitcode_object.value = exitcode
+        with self.exitcode_object.get_lock():
+            # Errors in ff processes (EX_PROCESS) prevail over failed subprocesses (EX_SUBPROCESS).
+            self.exitcode_object.value = max(self.exitcode_object.value, exitcode)
 
     @property
     def exitcode(self):
-- 
2.43.0


From 57eef45c86caa3eddf70f363494f83aee85f48f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:17 +0000
Subject: [PATCH 41/80] fix: report every regular expression that cannot be
 compiled as an error

---
 libff/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/parser.py b/libff/parser.py
index 5f6f42d..e51e7fc 100644
--- a/libff/parser.py
+++ b/libff/parser.py
@@ -318,7 +318,7 @@ class Parser(BaseClass):
             if operator == "~":
                 try:
                     value = re.compile(value, re.IGNORECASE if ignore_case else 0)
-                except re.error as exc:
+                except (re.error, OverflowError, RecursionError) as exc:
                     raise ExpressionError(f"Invalid regex pattern {value!r}: {exc}") from exc
 
             elif operator == "%":
-- 
2.43.0


From 1dc7316116743fbca74a9aad6e5b71da912c8ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:25 +0000
Subject: [PATCH 42/80] fix: report too deeply nested expressions as an error

---
 libff/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libff/main.py b/libff/main.py
index 28b1eca..230c035 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -140,6 +140,8 @@ class _Base(BaseClass):
             self.context.matcher = matcher
         except ParserError as exc:
             raise UsageError(f"unable to parse tests: {exc}") from exc
+        except RecursionError as exc:
+            raise UsageError("unable to parse tests: too many nested brackets") from exc
 
         try:
             # Setup the excluder from the command line arguments.
@@ -147,6 +149,8 @@ class _Base(BaseClass):
             self.context.excluder = excluder
         except ParserError as exc:
             raise UsageError(f"unable to parse excludes: {exc}") from exc
+        except RecursionError as exc:
+            raise UsageError("unable to parse excludes: too many nested brackets") from exc
 
     def setup_walker(self):
         """Set up the filesystem walker processes.
-- 
2.43.0


From ed616694c7c6c04fc28ca98675bcb67e1444a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 43/80] fix: report an inaccessible current directory as an
 error

---
 libff/arguments.py |  7 +++++--
 libff/main.py      | 36 ++++++++++++++++++------------------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index d6066af..8fd1f5e 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -266,8 +266,11 @@ class ArgumentsPostProcessor:
                 # XXX With --one-file-system it would be okay to specify a directory argument that
                 # only looks like a subdirectory of another argument but actually lives on a
                 # different mount. We should take this into account here.
-                abs_directory = os.path.abspath(directory)
-                abs_subdir = os.path.abspath(subdir)
+                try:
+                    abs_directory = os.path.abspath(directory)
+                    abs_subdir = os.path.abspath(subdir)
+                except OSError as exc:
+                    raise UsageError(f"unable to access directory: {exc}") from exc
                 if os.path.commonpath([abs_directory, abs_subdir]) == abs_subdir:
                     raise UsageError(f"{directory!r} is a sub-directory of {subdir!r}")
 
diff --git a/libff/main.py b/libff/main.py
index 230c035..df096d8 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -163,28 +163,28 @@ class _Base(BaseClass):
 
         # Preload the in-queue with the path arguments.
         for path in self.context.args.directories:
-            if self.context.args.absolute_path:
-                path = os.path.abspath(path)
+            try:
+                if self.context.args.absolute_path:
+                    path = os.path.abspath(path)
 
-            if self.context.args.no_parent_ignore:
-                # Don't use ignore files from parent directories.
-                ignores = []
-            else:
-                # Find ignore files in parent directories.
-                if self.context.args.ignore:
-                    ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
-                            path)
-                else:
+                if self.context.args.no_parent_ignore:
+                    # Don't use ignore files from parent directories.
                     ignores = []
-
-            if __debug__:
-                self.logger.debug("info",
-                        f"  {path if path != '.' else os.path.abspath(path)}")
-                for ignore in ignores:
+                else:
+                    # Find ignore files in parent directories.
+                    if self.context.args.ignore:
+                        ignores = GitIgnore.from_parent_directories(self.context.args.ignore_files,
+                                path)
+                    else:
+                        ignores = []
+
+                if __debug__:
                     self.logger.debug("info",
-                            f"    found ignorefile in parent: {ignore}")
+                            f"  {path if path != '.' else os.path.abspath(path)}")
+                    for ignore in ignores:
+                        self.logger.debug("info",
+                                f"    found ignorefile in parent: {ignore}")
 
-            try:
                 start_directory = StartDirectory(self.context.args, path)
             except OSError as exc:
                 raise UsageError(f"unable to access directory: {exc}") from exc
-- 
2.43.0


From dc5052e92a71409d8a7a1d47a9be2b9a199978dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:42 +0000
Subject: [PATCH 44/80] fix: reject trailing garbage in symbolic modes

---
 libff/type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/type.py b/libff/type.py
index 30288ad..a3aa973 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -285,7 +285,7 @@ class Mode(Type):
     sort_none = 0
     count = Count.COUNT
 
-    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)|([-+=])?([0-7]+)$")
+    regex = re.compile(r"([ugoa]*)([-+=])([rwxXst]+)$|([-+=])?([0-7]+)$")
 
     MODE_ALL = stat.S_ISUID | stat.S_ISGID | stat.S_ISVTX | \
                stat.S_IRWXU | stat.S_IRWXG | stat.S_IRWXO
-- 
2.43.0


From 4da89ee3200fcb4319593b3e4bcbee80f214571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:33 +0000
Subject: [PATCH 45/80] fix: apply each part of a symbolic mode only to its own
 classes

---
 libff/type.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/libff/type.py b/libff/type.py
index a3aa973..86bc4f4 100644
--- a/libff/type.py
+++ b/libff/type.py
@@ -295,9 +295,9 @@ class Mode(Type):
         """Parse an octal or symbolic file mode.
         """
         # pylint:disable=too-many-branches
-        affected = 0
         result = 0
         for part in value.split(","):
+            affected = 0
             val = 0
 
             match = cls.regex.match(part)
@@ -346,12 +346,15 @@ class Mode(Type):
                 affected = cls.MODE_ALL
                 val = int(val, 8)
 
-            if operator in "+=":
+            val &= affected
+            if operator == "+":
                 result |= val
             elif operator == "-":
                 result &= ~val
+            elif operator == "=":
+                result = result & ~affected | val
 
-        return affected & result
+        return result
 
     @classmethod
     def input(cls, value):
-- 
2.43.0


From 9edbdb00b513c8f2cf62d48275d50f598de41bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 46/80] fix: report a cache that is no database as a usage
 error

---
 libff/main.py     | 5 ++++-
 libff/registry.py | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/libff/main.py b/libff/main.py
index df096d8..9630bc0 100644
--- a/libff/main.py
+++ b/libff/main.py
@@ -122,7 +122,10 @@ class _Base(BaseClass):
                 print(__copyright__)
 
             elif args.action == "clean":
-                self.context.cache.clean()
+                try:
+                    self.context.cache.clean()
+                except sqlite3.Error as exc:
+                    raise UsageError(f"unable to clean cache {args.cache!r}: {exc}") from exc
 
             else:
                 manpage = getattr(registry, f"get_{args.action}_manpage")()
diff --git a/libff/registry.py b/libff/registry.py
index c179332..1a228a8 100644
--- a/libff/registry.py
+++ b/libff/registry.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import sqlite3
 import functools
 import importlib.util
 
@@ -162,6 +163,8 @@ class Registry(BaseClass):
         except MissingImport as exc:
             raise BadPluginError(f"Plugin {name!r} needs the following module: {exc.module!r}") \
                     from exc
+        except sqlite3.Error as exc:
+            raise UsageError(f"unable to use cache {self.args.cache!r}: {exc}") from exc
         except Exception as exc:
             raise BadPluginError.from_exception(f"Unable to setup plugin {name!r}") from exc
 
-- 
2.43.0


From 4450dca0c133909f62e193be4c9a7ed6db820dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:03 +0000
Subject: [PATCH 47/80] fix: do not fail on modification times that are not
 representable as a date

---
 libff/convert.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/convert.py b/libff/convert.py
index 6ef183c..4e86598 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -133,7 +133,11 @@ def parse_duration(string):
 def format_time(seconds):
     """Format a number of seconds from epoch to a date and a time.
     """
-    return time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(seconds))
+    try:
+        return time.strftime("%Y-%m-%d %H:%M:%S", time.localtime(seconds))
+    except (OSError, OverflowError, ValueError):
+        # The time is not representable as a date.
+        return str(seconds)
 
 
 time_formats = (
-- 
2.43.0


From ae468168ca3effcc4e3d87fe9b2b48235f954974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:38 +0000
Subject: [PATCH 48/80] fix: report a man program that cannot be executed

---
 libff/help.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/help.py b/libff/help.py
index 2753c77..26eb06a 100644
--- a/libff/help.py
+++ b/libff/help.py
@@ -261,7 +261,7 @@ class ManPage:
         """
         try:
             subprocess.run(["man", "-l", "-"], input="\n".join(self.lines), text=True, check=True)
-        except FileNotFoundError as exc:
+        except OSError as exc:
             raise SystemExit("unable to call man(1), is it installed?") from exc
         except subprocess.CalledProcessError as exc:
             raise SystemExit("calling man(1) failed") from exc
-- 
2.43.0


From 6375a2b3f74c39b12adc992083a688ab353650c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:15 +0000
Subject: [PATCH 49/80] fix: reject field widths that are too large to be
 padded

---
 libff/field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/field.py b/libff/field.py
index 8bf26ca..b049bbe 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -49,7 +49,7 @@ class Fields(list):
     """
 
     regex = re.compile(r"^((?:[a-zA-Z][a-zA-Z0-9_]+\.)?[a-zA-Z][a-zA-Z0-9_]+?)"\
-            r"(?::(-?\d+)?(h|o|x|n|v)?)?$")
+            r"(?::(-?\d{1,6})?(h|o|x|n|v)?)?$")
 
     def __init__(self, context, argument):
         super().__init__()
-- 
2.43.0


From 8e8c8e45351a60853125abf4347c709aef980bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:29 +0000
Subject: [PATCH 50/80] fix: the git plugin exhausted the stack in deeply
 nested directories

---
 plugins/git.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 2ef0c80..1a9c611 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -82,15 +82,20 @@ class Git(Plugin):
         """Find a .git directory in the current or upper directories and return a list of changed
            files and a list of tracked files.
         """
-        if dirname not in self._cache:
+        pending = []
+        while dirname not in self._cache:
             path = os.path.join(dirname, ".git")
             if os.path.isdir(path):
                 self._cache[dirname] = dirname, Filelist(dirname), Status(dirname)
+            elif dirname == os.sep:
+                self._cache[dirname] = None, None, None
             else:
-                if dirname == os.sep:
-                    self._cache[dirname] = None, None, None
-                else:
-                    self._cache[dirname] = self.find_repo(os.path.dirname(dirname))
+                # Continue the search in the parent directory.
+                pending.append(dirname)
+                dirname = os.path.dirname(dirname)
+
+        for path in pending:
+            self._cache[path] = self._cache[dirname]
 
         return self._cache[dirname]
 
-- 
2.43.0


From 112a99375472cf1108afb904c6b7af098f32e805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 51/80] fix: the git plugin let git rewrite the index of the
 searched repository

---
 plugins/git.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/plugins/git.py b/plugins/git.py
index 1a9c611..5e0ac53 100644
--- a/plugins/git.py
+++ b/plugins/git.py
@@ -45,8 +45,9 @@ class Status(set):
     def __init__(self, dirname):
         super().__init__()
 
-        proc = subprocess.run(["git", "-C", dirname, "status", "--porcelain", "--no-renames", "-z"],
-                capture_output=True, check=False)
+        # Keep git(1) from rewriting the index of the repository.
+        proc = subprocess.run(["git", "--no-optional-locks", "-C", dirname, "status",
+                "--porcelain", "--no-renames", "-z"], capture_output=True, check=False)
         for line in os.fsdecode(proc.stdout).split("\0"):
             status, filename = line[:2], line[3:]
             if not filename or status == "??":
-- 
2.43.0


From 06dcd8f5222d8adc2d5d44da222c75519a4cc846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:17 +0000
Subject: [PATCH 52/80] fix: the shebang plugin took any line that starts with
 #! for the shebang

---
 plugins/introspect.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 6d9aaf2..a498530 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -93,10 +93,10 @@ class Shebang(Plugin):
         """Extract the shebang line.
         """
         try:
-            with open(path, "rb") as lines:
-                for line in lines:
-                    if line.startswith(b"#!"):
-                        return line[2:].decode("ascii").rstrip()
+            with open(path, "rb") as fobj:
+                line = fobj.readline()
+                if line.startswith(b"#!"):
+                    return line[2:].decode("ascii").rstrip()
         except (OSError, UnicodeDecodeError):
             pass
 
-- 
2.43.0


From ff1c08537f839927bbe521bc17602a2704da4579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 53/80] fix: add up the counts of values that are displayed
 alike

---
 libff/processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/processing.py b/libff/processing.py
index e50be61..d0c8fa3 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -305,7 +305,8 @@ class CollectiveMixin(BaseProcessing):
                         # Format the key which is the counted value in this case, JSON objects
                         # allow only string keys anyway.
                         key = field.type.output(self.args, field.modifier, key)
-                        count[name][key] = val
+                        # Different values may have the same representation.
+                        count[name][key] = count[name].get(key, 0) + val
 
                 else:
                     if field.modifier is not None:
-- 
2.43.0


From 4d88353adb833c3e3a4379d98b51d963b61d17fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:28 +0000
Subject: [PATCH 54/80] fix: count a repeated --count attribute only once

---
 libff/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/field.py b/libff/field.py
index b049bbe..c1b2bab 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -116,6 +116,9 @@ class CountFields(OutputFields):
     def store(self, argument):
         super().store(argument)
 
+        # Do not count the same attribute twice.
+        self[:] = dict.fromkeys(self)
+
         for field in self:
             if field.type.count is Count.UNCOUNTABLE:
                 raise UsageError(f"Attribute {field.attribute} is not suited for --count!")
-- 
2.43.0


From 598b7bca7f586e32ecd6c9e76a89c7e77da640d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 55/80] fix: a file modified within the same second kept its
 stale cached data

---
 libff/plugin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/plugin.py b/libff/plugin.py
index 51c9790..8bbf6bf 100644
--- a/libff/plugin.py
+++ b/libff/plugin.py
@@ -96,7 +96,7 @@ class Plugin:
            invalidated. The default uses the modification time of the file. The returned value may
            have any type.
         """
-        return entry.time
+        return entry.status.st_mtime_ns
 
     def cache(self, entry):
         """Extract and prepare data from the Entry object and cache it. It is then passed on to the
-- 
2.43.0


From 909ab8040e14d264844cba07a2169f15b63d3c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:21 +0000
Subject: [PATCH 56/80] fix: do not mix up the records of different processes

---
 libff/console.py | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/libff/console.py b/libff/console.py
index 19b6a4e..40f430c 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -78,9 +78,11 @@ class JsonlConsole(BaseConsole):
     def _print_record(self, record):
         """Dump a newline delimited JSON object to standard output.
         """
-        json.dump(record, sys.stdout)
-        print()
-        sys.stdout.flush()
+        # Do not mix up the output of different processes.
+        with self.context.global_lock:
+            json.dump(record, sys.stdout)
+            print()
+            sys.stdout.flush()
 
 
 class JsonConsole(JsonlConsole):
@@ -241,16 +243,18 @@ class Console(BaseConsole):
     def _write_line(self, line):
         """Print a line of output handling encoding errors.
         """
-        try:
-            print(line, end=self.args.newline)
-        except UnicodeEncodeError:
-            print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
-                    end=self.args.newline)
-
-        # If we don't flush stdout, printed results may be lost. That is because when the main
-        # process exits, all multiprocessing processes vanish instantly without pending output
-        # buffers being written.
-        sys.stdout.flush()
+        # Do not mix up the output of different processes.
+        with self.context.global_lock:
+            try:
+                print(line, end=self.args.newline)
+            except UnicodeEncodeError:
+                print(line.encode(self.encoding, "backslashreplace").decode(self.encoding),
+                        end=self.args.newline)
+
+            # If we don't flush stdout, printed results may be lost. That is because when the main
+            # process exits, all multiprocessing processes vanish instantly without pending output
+            # buffers being written.
+            sys.stdout.flush()
 
 
 class ColorConsole(Console):
-- 
2.43.0


From 9af284709427340b27f3c33c22e89b42acdfdc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 57/80] fix: resolve absolute symbolic links in subdirectories

---
 libff/entry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 4627524..78b6256 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -133,7 +133,7 @@ class Entry:
         # Collect information early to avoid having OSErrors later on.
         if stat.S_ISLNK(self.status.st_mode):
             self.link = os.readlink(self.path)
-            self.target = os.path.realpath(join(self.dir, self.link))
+            self.target = os.path.realpath(os.path.join(self.dir, self.link))
             self.broken = not os.path.exists(self.target)
         else:
             # Don't set link and target so that KeyError is raised in get_attribute().
-- 
2.43.0


From 727772445ab448f08be8f86abf161dd88373ab82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 58/80] fix: print paths of files in the root directory with
 one slash only

---
 libff/console.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/console.py b/libff/console.py
index 40f430c..4a1c37f 100644
--- a/libff/console.py
+++ b/libff/console.py
@@ -154,7 +154,7 @@ class Console(BaseConsole):
         name = self.render_name(entry)
 
         if entry.dir:
-            dirname = self.render_directory(entry.dir + os.sep)
+            dirname = self.render_directory(os.path.join(entry.dir, ""))
             path = String(dirname.value + name.value, dirname.length + name.length)
         else:
             path = name
-- 
2.43.0


From 4053f6c7850321b7b20b6c3fda71203006ed9f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 59/80] fix: the search ended early when a queue was slow to
 deliver its contents

---
 libff/context.py | 19 ++++++++++++++++++-
 libff/walk.py    |  7 +++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/libff/context.py b/libff/context.py
index fcba425..d4d5e92 100644
--- a/libff/context.py
+++ b/libff/context.py
@@ -48,6 +48,7 @@ class Context:
         self.global_lock = None
         self.stop_queue = None
         self.barrier = None
+        self.pending = None
         self.exitcode_object = None
         self.process_succeeded = None
         self.process_failed = None
@@ -71,7 +72,11 @@ class Context:
             num_jobs = 1
         else:
             num_jobs = self.args.jobs + 1
-        self.barrier = multiprocessing.Barrier(num_jobs)
+        self.barrier = multiprocessing.Barrier(num_jobs, self.check_pending)
+
+        # Count the chunks in the queue of the FilesystemWalker that have not been processed yet. The
+        # queue may seem to be empty although there are chunks on their way.
+        self.pending = multiprocessing.Value("L", 0)
 
         # The exitcode object provides a way for --exec and --exec-batch processes to feed back
         # errors to the main process.
@@ -126,6 +131,18 @@ class Context:
         else:
             return True
 
+    def check_pending(self):
+        """Do not let the processes pass the Barrier as long as there is something left to do.
+        """
+        if self.pending.value > 0:
+            raise threading.BrokenBarrierError
+
+    def add_pending(self, number):
+        """Add a number to the count of chunks that have not been processed yet.
+        """
+        with self.pending.get_lock():
+            self.pending.value += number
+
     def idle_processes(self):
         """Return the number of idle processes, i.e. processes that are waiting for the barrier
            because there is nothing in the queue.
diff --git a/libff/walk.py b/libff/walk.py
index 2ca6b8f..3bdb98d 100644
--- a/libff/walk.py
+++ b/libff/walk.py
@@ -60,6 +60,7 @@ class FilesystemWalker(BaseClass):
            ImmediateExecProcessing processor to run as subprocesses in the context of the
            FilesystemWalker.
         """
+        self.context.add_pending(1)
         self.queue.put(chunk)
 
     def start_processes(self):
@@ -118,6 +119,8 @@ class FilesystemWalker(BaseClass):
                     for obj in objs:
                         self.process_arguments(obj)
 
+                self.context.add_pending(-1)
+
             self.cache.close()
 
         except BrokenPipeError:
@@ -220,7 +223,7 @@ class FilesystemWalker(BaseClass):
                         self.context.idle_processes() / self.args.jobs > 0.25 and \
                         len(entries) > 10:
                     split = len(entries) // 2 + 1
-                    self.queue.put(Entries(parent, entries[split:]))
+                    self.put(Entries(parent, entries[split:]))
                     entries = entries[:split]
 
         except OSError as exc:
@@ -232,7 +235,7 @@ class FilesystemWalker(BaseClass):
             chunk_size = min(100, max(10, int(len(search) / self.args.jobs) + 1))
 
             for i in range(0, len(search), chunk_size):
-                self.queue.put(search[i:i + chunk_size])
+                self.put(search[i:i + chunk_size])
 
         while process:
             # Reduce number of Entry object that are sent in one go. This resolves issues with
-- 
2.43.0


From 91f04ec2d826fa8faaca2f2d6bdaade61dde040d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 60/80] fix: results were lost when a queue was slow to deliver
 its contents

---
 libff/processing.py | 91 ++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 47 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index d0c8fa3..1ea1dd1 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -210,21 +210,54 @@ class ImmediateConsoleProcessing(BaseConsoleProcessing):
     """
 
 
-class CollectiveMixin(BaseProcessing):
-    """Processing mixin class that collects all entries first and then does the processing
-       afterwards.
+class QueueMixin(BaseProcessing):
+    """Processing mixin class that passes all entries on to the main process.
     """
 
     def __init__(self, context):
         super().__init__(context)
 
         self.out_queue = multiprocessing.Queue()
-        self.entries = []
-        self.count = collections.Counter()
+        self.pending = multiprocessing.Value("L", 0)
 
     def process(self, entries):
+        with self.pending.get_lock():
+            self.pending.value += 1
+
         self.out_queue.put(entries)
 
+    def iter_chunks(self):
+        """Iterate over the chunks of Entry objects in the queue until processing is done.
+        """
+        done = False
+        while True:
+            try:
+                entries = self.out_queue.get(timeout=TIMEOUT)
+            except queue.Empty:
+                if not done:
+                    done = self.processing_done()
+                elif self.pending.value == 0 or self.context.is_stopping() or \
+                        self.check_for_failed_processes():
+                    # The queue may seem to be empty although there are chunks on their way.
+                    break
+            else:
+                with self.pending.get_lock():
+                    self.pending.value -= 1
+
+                yield entries
+
+
+class CollectiveMixin(QueueMixin):
+    """Processing mixin class that collects all entries first and then does the processing
+       afterwards.
+    """
+
+    def __init__(self, context):
+        super().__init__(context)
+
+        self.entries = []
+        self.count = collections.Counter()
+
     def entries_range(self):
         """Limit the list of entries according to the -l/--limit option.
         """
@@ -235,15 +268,7 @@ class CollectiveMixin(BaseProcessing):
             return self.entries[start:stop]
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_chunks():
             if self.args.count is not None:
                 self.collect_count(entries)
 
@@ -402,34 +427,14 @@ class CollectiveExecProcessing(CollectiveMixin, BaseProcessing):
             raise AssertionError("wrong usage of CollectiveExecProcessing class")
 
 
-class ImmediateGenerator(ImmediateBaseProcessing):
+class ImmediateGenerator(QueueMixin):
     """Processing class that allows immediate iteration over the results.
     """
 
-    def __init__(self, context):
-        super().__init__(context)
-
-        self.out_queue = multiprocessing.Queue()
-
-    def loop(self):
-        pass
-
-    def finalize(self):
-        pass
-
-    def process(self, entries):
-        self.out_queue.put(entries)
-
     def __iter__(self):
-        while True:
-            try:
-                for entry in self.out_queue.get(timeout=TIMEOUT):
-                    yield self.args.output.to_dict(entry)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
+        for entries in self.iter_chunks():
+            for entry in entries:
+                yield self.args.output.to_dict(entry)
 
 
 class CollectiveGenerator(ImmediateGenerator):
@@ -442,15 +447,7 @@ class CollectiveGenerator(ImmediateGenerator):
         self.entries = []
 
     def loop(self):
-        while True:
-            try:
-                entries = self.out_queue.get(timeout=TIMEOUT)
-            except queue.Empty:
-                if self.processing_done():
-                    break
-                else:
-                    continue
-
+        for entries in self.iter_chunks():
             self.entries += entries
 
     def finalize(self):
-- 
2.43.0


From 51eac45264c03af5cc237df052d7b379484e53e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:34 +0000
Subject: [PATCH 61/80] fix: processes that ended regularly were taken for
 failures while results were on their way

---
 libff/processing.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libff/processing.py b/libff/processing.py
index 1ea1dd1..47a5999 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -230,16 +230,24 @@ class QueueMixin(BaseProcessing):
         """Iterate over the chunks of Entry objects in the queue until processing is done.
         """
         done = False
+        gone = False
         while True:
             try:
                 entries = self.out_queue.get(timeout=TIMEOUT)
             except queue.Empty:
                 if not done:
                     done = self.processing_done()
-                elif self.pending.value == 0 or self.context.is_stopping() or \
-                        self.check_for_failed_processes():
-                    # The queue may seem to be empty although there are chunks on their way.
+                elif self.pending.value == 0 or self.context.is_stopping():
                     break
+                elif gone:
+                    # The rest was lost together with a process.
+                    self.context.set_exitcode(EX_PROCESS)
+                    break
+                else:
+                    # The queue may seem to be empty although there are chunks on their way, a
+                    # process does not end before all of its chunks are written to the queue.
+                    gone = self.walker.processes and \
+                            not any(process.is_alive() for process in self.walker.processes)
             else:
                 with self.pending.get_lock():
                     self.pending.value -= 1
-- 
2.43.0


From 68ced85ae4296567159dcddb66e0e9f27bb747ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:53 +0000
Subject: [PATCH 62/80] fix: glob patterns ignored a trailing newline of a name

---
 libff/ignore.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index cc26ba5..8944a58 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -93,11 +93,11 @@ class Glob:
         parts = []
         for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
             if part == "/**/":
-                part = "(?:/|/.+/)"
+                part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
-                part = "(?:.+/)?"
+                part = "(?:(?s:.+)/)?"
             elif part == "/**":
-                part = "(?:/.+)?"
+                part = "(?:/(?s:.+))?"
             elif part == "*":
                 part = "[^/]*"
             elif part == "?":
@@ -110,7 +110,7 @@ class Glob:
                 part = re.escape(part)
             parts.append(part)
 
-        return "^" + "".join(parts) + "$", include, anchored, directory
+        return "^" + "".join(parts) + r"\Z", include, anchored, directory
 
     def match(self, path, basename=None, is_dir=None):
         """Match a path against the pattern. If the path matches the pattern, you must use the
-- 
2.43.0


From 33d4e2ae074a949713ddc360c8f7a24a776c7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 63/80] fix: directories at the end of the arguments were not
 recognized if there are others at the start

---
 libff/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/arguments.py b/libff/arguments.py
index 8fd1f5e..b69e978 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -245,8 +245,8 @@ class ArgumentsPostProcessor:
             # Check which arguments are existing directories and append them to
             # self.args.directories. We allow directory arguments only at the start or the end of
             # the list of tests.
-            for tests in (list(self.args.tests), reversed(self.args.tests)):
-                for test in tests:
+            for step in (1, -1):
+                for test in self.args.tests[::step]:
                     if os.sep in test and os.path.isdir(test):
                         self.args.tests.remove(test)
                         directory = os.path.normpath(test)
-- 
2.43.0


From ba668d20937c2909d96fb6621257ab4ab2d0b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:17 +0000
Subject: [PATCH 64/80] fix: a trailing slash of a start directory was doubled
 in the paths of its entries

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index 78b6256..dba5049 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -75,7 +75,8 @@ class StartDirectory:
     """
 
     def __init__(self, args, root):
-        self.root = root
+        # Remove trailing slashes, they would be doubled in the paths of the entries.
+        self.root = root.rstrip(os.sep) or root[:1]
         self.absroot = os.path.abspath(root)
         self.status = os.stat(self.root, follow_symlinks=args.follow_symlinks)
         self.device = self.status.st_dev
-- 
2.43.0


From fe620a82bb98f02768e9e7934688655c362acd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:28 +0000
Subject: [PATCH 65/80] fix: reference files in the root directory, without a
 directory or with a trailing slash

---
 libff/entry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index dba5049..ab9e915 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -105,14 +105,14 @@ class Entry:
         for directory in args.directories:
             # Go through the list of search directories and pick the first one that matches the
             # reference file.
-            dirname = os.path.abspath(directory) + os.sep
+            dirname = os.path.join(os.path.abspath(directory), "")
             if abspath.startswith(dirname):
                 relpath = abspath[len(dirname):]
                 break
         else:
-            directory, relpath = split(path)
+            directory, relpath = split(path.rstrip(os.sep) or path[:1])
 
-        start_directory = StartDirectory(args, directory)
+        start_directory = StartDirectory(args, directory or ".")
         status = os.stat(path, follow_symlinks=args.follow_symlinks)
 
         return cls(start_directory, relpath, status)
@@ -140,7 +140,7 @@ class Entry:
             # Don't set link and target so that KeyError is raised in get_attribute().
             self.broken = False
 
-        self.hide = self.name[0] == "."
+        self.hide = self.name.startswith(".")
 
         self.mode = self.status.st_mode
 
-- 
2.43.0


From dd870b11e90f262a5ca0c7f5da50038f217bd8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 66/80] fix: files below a start directory with '..' in its
 path were reported as hidden

---
 libff/entry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/entry.py b/libff/entry.py
index ab9e915..afbf0e9 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -300,7 +300,8 @@ class Entry:
         """Whether the file is "hidden" or not, i.e. if one of the path components contains a
            leading dot.
         """
-        return any(part.startswith(".") for part in self.path.split(os.sep))
+        return any(part.startswith(".") and part not in (os.curdir, os.pardir)
+                for part in self.path.split(os.sep))
 
     @property
     def empty(self):
-- 
2.43.0


From ee4099ebd8abe505133ddb592be0e11af5d23129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:22 +0000
Subject: [PATCH 67/80] fix: the list of tests passed to Find was changed

---
 libff/find.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/find.py b/libff/find.py
index 5e79989..22a3669 100644
--- a/libff/find.py
+++ b/libff/find.py
@@ -74,7 +74,7 @@ class Find(_Base):
         elif isinstance(query, str):
             tests = shlex.split(query)
         else:
-            tests = query
+            tests = list(query)
 
         args = FindNamespace()
         args.tests = tests
-- 
2.43.0


From 46a5d4a4b42c547fa9c9c146492b16dc0c5de0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 68/80] fix: bundled short options lost the argument that
 follows them, -xcmd was taken for a bundle

---
 libff/argparse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libff/argparse.py b/libff/argparse.py
index 817764e..bff2ab0 100644
--- a/libff/argparse.py
+++ b/libff/argparse.py
@@ -357,9 +357,11 @@ class ArgumentParser:
             short_option = f"-{arg[0]}"
             option = self.get_option(short_option)
 
-            if option.action in ("store", "store_optional", "append"):
+            if option.action in ("store", "store_optional", "append", "store_remainder"):
                 argv.insert(i, short_option)
-                argv.insert(i + 1, arg[1:])
+                if len(arg) > 1:
+                    # The rest of the bundle is the argument of this option.
+                    argv.insert(i + 1, arg[1:])
                 break
             else:
                 argv.insert(i, short_option)
-- 
2.43.0


From 940f6d700ab9674eef51be2d47605a1db2751711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:47 +0000
Subject: [PATCH 69/80] fix: read the table of mountpoints as the kernel writes
 it

Names are escaped with octal numbers and may contain any other character, and
the file system that was mounted last on a directory hides the others.
---
 libff/entry.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index afbf0e9..d9d89f0 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -19,6 +19,7 @@
 # -----------------------------------------------------------------------
 
 import os
+import re
 import grp
 import pwd
 import stat
@@ -37,18 +38,24 @@ class Mountpoints:
     """A list of mountpoints and their device name and filesystem type.
     """
 
+    regex_escape = re.compile(r"\\([0-7]{3})")
+
     def __init__(self):
         self.entries = []
         try:
-            # pylint:disable=unspecified-encoding
-            with open("/proc/mounts") as lines:
+            with open("/proc/mounts", "rb") as lines:
                 for line in lines:
-                    devname, mpath, fstype, _ = line.split(None, 3)
+                    # Whitespace, backslashes and hashes are escaped as octal numbers.
+                    devname, mpath, fstype = (
+                            self.regex_escape.sub(lambda match: chr(int(match[1], 8)), os.fsdecode(field))
+                            for field in line.split(b" ", 3)[:3])
                     self.entries.append((mpath.rstrip(os.sep) + os.sep, devname, fstype))
         except OSError:
             pass
         else:
-            self.entries.sort(reverse=True)
+            # The mountpoint that was mounted last hides the other ones on the same directory.
+            self.entries.reverse()
+            self.entries.sort(key=lambda entry: entry[0], reverse=True)
 
     @lru_cache(maxsize=512)
     def get(self, path):
-- 
2.43.0


From b7f30ea88d934d365de437381af8d83539160df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 70/80] fix: refuse durations with unknown units, fractions or
 trailing garbage instead of taking them for something else

---
 libff/convert.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index 4e86598..fee1795 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -89,7 +89,7 @@ def format_duration(seconds):
         return f"{minutes}m{seconds:02}s"
 
 
-regex_duration = re.compile(r"(\d+)([smhdwMy])?")
+regex_duration = re.compile(r"(\d+)([smhdwMy])")
 
 def parse_duration(string):
     """Convert a human readable duration from a string to seconds.
@@ -104,7 +104,7 @@ def parse_duration(string):
     for match in regex_duration.finditer(string):
         if match.start(0) != end:
             raise ValueError(f"unable to parse {string!r}")
-        end = match.end(1) + 1
+        end = match.end()
 
         count, unit = match.groups()
         count = int(count)
-- 
2.43.0


From 68151fbdad93c81dc17be93743d79a5355c2f7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:28 +0000
Subject: [PATCH 71/80] fix: recognise dates and times without separators
 (YYmmddHHMM, YYmmdd, HHMM) before plain numbers, as documented

---
 libff/convert.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/libff/convert.py b/libff/convert.py
index fee1795..43a3db5 100644
--- a/libff/convert.py
+++ b/libff/convert.py
@@ -155,17 +155,12 @@ def parse_time(string):
     """Convert a date and time or a duration to the corresponding number of seconds. A simple
        integer or float is taken as seconds since epoch.
     """
-    # Accept float epoch times but convert them to int.
-    try:
-        # XXX Cython can't handle int(float(string)).
-        number = float(string)
-    except ValueError:
-        pass
-    else:
-        return int(number)
-
     if len(string) >= 4:
         for typ, fmt in time_formats:
+            # Without separators all digits are required, other numbers are epoch times.
+            if string.isdigit() and len(string) != len(time.strftime(fmt)):
+                continue
+
             try:
                 time_obj = datetime.datetime.strptime(string, fmt)
             except ValueError:
@@ -179,6 +174,15 @@ def parse_time(string):
                         time_obj -= datetime.timedelta(days=1)
                 return int(time_obj.timestamp())
 
+    # Accept float epoch times but convert them to int.
+    try:
+        # XXX Cython can't handle int(float(string)).
+        number = float(string)
+    except ValueError:
+        pass
+    else:
+        return int(number)
+
     try:
         return int(time.time() - parse_duration(string))
     except ValueError as exc:
-- 
2.43.0


From 4d88e5ad7c1cc1db822cc4ec41d885dc01015812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:10 +0000
Subject: [PATCH 72/80] fix: a negated bracket expression in an ignore pattern
 must not match a slash

---
 libff/ignore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 8944a58..55e7a31 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -103,7 +103,8 @@ class Glob:
             elif part == "?":
                 part = "[^/]"
             elif part.startswith("[!"):
-                part = f"[^{part[2:-1]}]"
+                # Wildcards never match a slash.
+                part = f"[^/{part[2:-1]}]"
             elif part.startswith("["):
                 part = f"[{part[1:-1]}]"
             else:
-- 
2.43.0


From 6c914764390bcc9ff8a358fc39f30fed82dd9e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:41 +0000
Subject: [PATCH 73/80] fix: a bracket that is never closed in an ignore
 pattern is an ordinary character

---
 libff/ignore.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index 55e7a31..bae8093 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -91,8 +91,11 @@ class Glob:
 
         # Translate the wildcards to regular expression syntax.
         parts = []
-        for part in re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]]+\])", pattern):
-            if part == "/**/":
+        for i, part in enumerate(re.split(r"(/\*\*/|\*\*/|/\*\*|\*|\?|\[![^\]]+\]|\[[^\]!][^\]]*\])", pattern)):
+            if i % 2 == 0:
+                # The text between two wildcards, it may start with a "[" that is never closed.
+                part = re.escape(part)
+            elif part == "/**/":
                 part = "(?:/|/(?s:.+)/)"
             elif part == "**/":
                 part = "(?:(?s:.+)/)?"
@@ -107,8 +110,6 @@ class Glob:
                 part = f"[^/{part[2:-1]}]"
             elif part.startswith("["):
                 part = f"[{part[1:-1]}]"
-            else:
-                part = re.escape(part)
             parts.append(part)
 
         return "^" + "".join(parts) + r"\Z", include, anchored, directory
-- 
2.43.0


From e35d0f59768fccc2f7208e2dc7208fb706c1d803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 74/80] fix: py.imports must list every module of an 'import a,
 b' statement

---
 plugins/introspect.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index a498530..39eb443 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -141,7 +141,8 @@ class Py(Plugin):
                         yield node.module
 
             elif isinstance(node, ast.Import):
-                yield node.names[0].name
+                for alias in node.names:
+                    yield alias.name
 
     def can_handle(self, entry):
         if not entry.is_file():
-- 
2.43.0


From 0e0efcb2844a3dafdaa923ad263bd8af985d4cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 75/80] fix: py.imports must resolve a relative import against
 the package it names, wherever ff is started

---
 plugins/introspect.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/plugins/introspect.py b/plugins/introspect.py
index 39eb443..2c5bd49 100644
--- a/plugins/introspect.py
+++ b/plugins/introspect.py
@@ -131,12 +131,10 @@ class Py(Plugin):
             if isinstance(node, ast.ImportFrom):
                 if node.module is not None:
                     if node.level > 0:
-                        parts = [node.module]
-                        dirname = entry.dir
-                        for _ in range(node.level):
-                            dirname, basename = os.path.split(dirname)
-                            parts.insert(0, basename)
-                        yield ".".join(parts)
+                        dirname = os.path.dirname(entry.abspath)
+                        for _ in range(node.level - 1):
+                            dirname = os.path.dirname(dirname)
+                        yield f"{os.path.basename(dirname)}.{node.module}"
                     else:
                         yield node.module
 
-- 
2.43.0


From 27e3cfa3bddb2d04251fdc592d75b7515d7f4948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:24 +0000
Subject: [PATCH 76/80] fix: pacman must look up the absolute path of a file,
 which is what the package database lists

---
 plugins/pacman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/pacman.py b/plugins/pacman.py
index c17f896..672729e 100644
--- a/plugins/pacman.py
+++ b/plugins/pacman.py
@@ -50,10 +50,10 @@ class Pacman(Plugin):
         return True
 
     def process(self, entry, cached):
-        if entry.path in self.filelist:
+        if entry.abspath in self.filelist:
             yield "installed", True
             for pkgname, filelist in self.pkglist.items():
-                if entry.path in filelist:
+                if entry.abspath in filelist:
                     yield "pkgname", pkgname
         else:
             yield "installed", False
-- 
2.43.0


From 0e6644a07e55dcd3a4887e3f497b889d8298c6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:59 +0000
Subject: [PATCH 77/80] fix: a closing bracket among the tests must not close
 the brackets that --depth puts around them

---
 libff/arguments.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libff/arguments.py b/libff/arguments.py
index b69e978..01bf6b3 100644
--- a/libff/arguments.py
+++ b/libff/arguments.py
@@ -302,6 +302,16 @@ class ArgumentsPostProcessor:
         tests.append("}}")
 
         if self.args.tests:
+            # The given tests must not be able to close the brackets they are embedded in.
+            level = 0
+            for test in self.args.tests:
+                if test in ("(", "{{"):
+                    level += 1
+                elif test in (")", "}}"):
+                    level -= 1
+                if level < 0:
+                    raise UsageError(f"unable to parse tests: superfluous closing bracket {test!r}")
+
             tests.append("{{")
             tests += self.args.tests
             tests.append("}}")
-- 
2.43.0


From a5b83409d2425daca9ff4c9a67f8697e3798add9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:44 +0000
Subject: [PATCH 78/80] fix: natural sorting and the listing of counts must not
 fail for numbers with thousands of digits

---
 libff/field.py      | 5 +++--
 libff/processing.py | 6 ++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/libff/field.py b/libff/field.py
index c1b2bab..fbed1ea 100644
--- a/libff/field.py
+++ b/libff/field.py
@@ -20,6 +20,7 @@
 
 import os
 import re
+import decimal
 import itertools
 import collections
 
@@ -147,8 +148,8 @@ class SortFields(OutputFields):
         # string.
         parts = self.regex_digits.split(component)
 
-        # Yield a list of tokens with all numbers converted to ints.
-        yield [int(p) if p.isdecimal() else p for p in parts]
+        # Yield a list of tokens with all numbers converted, note that int() refuses very long ones.
+        yield [decimal.Decimal(p) if p.isdecimal() else p for p in parts]
 
         # Yield extensions separately. We do that even if there are none, so that components are
         # not compared to extensions.
diff --git a/libff/processing.py b/libff/processing.py
index 47a5999..3b8a664 100644
--- a/libff/processing.py
+++ b/libff/processing.py
@@ -24,6 +24,7 @@ import json
 import time
 import errno
 import queue
+import decimal
 import threading
 import subprocess
 import collections
@@ -363,8 +364,9 @@ class CollectiveMixin(QueueMixin):
         else:
             for key, value in sorted(count.items()):
                 if isinstance(value, dict):
-                    for k, v in sorted(value.items(),
-                            key=lambda t: (0, int(t[0]), "") if t[0].isdecimal() else (1, 0, t[0])):
+                    # Please note that int() refuses very long numbers.
+                    for k, v in sorted(value.items(), key=lambda t: (0, decimal.Decimal(t[0]), "")
+                            if t[0].isdecimal() else (1, 0, t[0])):
                         self.print_line(f"{key}[{k}]={v}")
                 else:
                     self.print_line(f"{key}={value}")
-- 
2.43.0


From af724fe93a92cac7c4575427ec73fe829e6f3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:25 +0000
Subject: [PATCH 79/80] fix: a character range in an ignore pattern must not
 match a slash

---
 libff/ignore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/ignore.py b/libff/ignore.py
index bae8093..46d9175 100644
--- a/libff/ignore.py
+++ b/libff/ignore.py
@@ -109,7 +109,8 @@ class Glob:
                 # Wildcards never match a slash.
                 part = f"[^/{part[2:-1]}]"
             elif part.startswith("["):
-                part = f"[{part[1:-1]}]"
+                # A range may contain a slash.
+                part = f"(?!/)[{part[1:-1]}]"
             parts.append(part)
 
         return "^" + "".join(parts) + r"\Z", include, anchored, directory
-- 
2.43.0


From ed4500471425280fa7c6c016bae49ec4bedef151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:01 +0000
Subject: [PATCH 80/80] fix: file times were rounded up to the next second

---
 libff/entry.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/libff/entry.py b/libff/entry.py
index d9d89f0..25e8b74 100644
--- a/libff/entry.py
+++ b/libff/entry.py
@@ -236,19 +236,20 @@ class Entry:
     def mtime(self):
         """The modification time of the file in seconds since epoch.
         """
-        return int(self.status.st_mtime)
+        # Please note that st_mtime is a float that may be rounded up to the next second.
+        return self.status.st_mtime_ns // 1_000_000_000
 
     @property
     def ctime(self):
         """The inode change time of the file in seconds since epoch.
         """
-        return int(self.status.st_ctime)
+        return self.status.st_ctime_ns // 1_000_000_000
 
     @property
     def atime(self):
         """The access time of the file in seconds since epoch.
         """
-        return int(self.status.st_atime)
+        return self.status.st_atime_ns // 1_000_000_000
 
     @property
     def perm(self):
-- 
2.43.0

