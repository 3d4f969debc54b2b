From 8d2c6590d1fdcb755125dfbcd28a13f4952a91ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:08 +0000
Subject: [PATCH 01/44] fix: read the cached LVSDB on a cache hit

On a cache hit, the file in the run directory was read instead of the
cached one. It can be missing (different --out_dir, cleaned run directory)
or stem from another layout with the same file name.
---
 klayout_pex/kpex_cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index ba88909..6507909 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -817,6 +817,7 @@ class KpexCLI:
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
                         subproc(lvsdb_cache_path)
+                        shutil.copyfile(lvsdb_cache_path, lvsdb_path)
                         lvs_needed = False
 
                 if lvs_needed:
-- 
2.43.0


From 967380d3e0e6a580520bc16e961b624b0eab4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 02/44] fix: don't reuse or cache the LVSDB of a failed LVS run

If KLayout LVS failed before it wrote its report, the LVSDB of an earlier run
in the same run directory was read (and cached as the new result). If it died
while writing, the partial file was cached, so that all later runs failed.
Caching also could be interrupted, leaving a truncated cache entry.
---
 klayout_pex/kpex_cli.py | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 6507909..32eacd8 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -821,6 +821,10 @@ class KpexCLI:
                         lvs_needed = False
 
                 if lvs_needed:
+                    # never mistake the LVSDB of an earlier run for the result of this LVS run
+                    if os.path.exists(lvsdb_path):
+                        os.remove(lvsdb_path)
+
                     lvs_runner = LVSRunner()
                     lvs_runner.run_klayout_lvs(exe_path=args.klayout_exe_path,
                                                lvs_script=args.lvs_script_path,
@@ -829,13 +833,25 @@ class KpexCLI:
                                                log_path=lvs_log_path,
                                                lvsdb_path=lvsdb_path,
                                                verbose=args.klayout_lvs_verbose)
-                    if args.cache_lvs:
-                        cache_dir_path = os.path.dirname(lvsdb_cache_path)
-                        if not os.path.exists(cache_dir_path):
-                            os.makedirs(cache_dir_path, exist_ok=True)
-                        shutil.copy(lvsdb_path, lvsdb_cache_path)
+                    if not os.path.isfile(lvsdb_path):
+                        raise Exception(f"KLayout LVS did not create an LVSDB at {lvsdb_path}, "
+                                        f"see log file: {lvs_log_path}")
 
                 lvsdb.read(lvsdb_path)
+                if lvsdb.netlist().top_circuit_count() == 0:
+                    raise Exception(f"LVSDB at {lvsdb_path} is incomplete, it has no top circuit")
+
+                # NOTE: only a usable LVSDB (see above) enters the cache,
+                #       and it appears there at once, never partially written
+                if lvs_needed and args.cache_lvs:
+                    os.makedirs(os.path.dirname(lvsdb_cache_path), exist_ok=True)
+                    tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
+                    try:
+                        shutil.copyfile(lvsdb_path, tmp_path)
+                        os.replace(tmp_path, lvsdb_cache_path)
+                    finally:
+                        if os.path.exists(tmp_path):
+                            os.remove(tmp_path)
         return lvsdb
 
     def main(self, argv: List[str]):
-- 
2.43.0


From f2f612014b054926ab348b18e62f53a840f9e447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:49 +0000
Subject: [PATCH 03/44] fix: bind a cached LVSDB to the version of the GDS it
 was extracted from

Comparing the time the LVSDB was cached with the modification time of the GDS
reused stale results, if the GDS was edited while LVS was running, if an older
file was restored with its time stamp, or if the clock was set back.
---
 klayout_pex/kpex_cli.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 32eacd8..1999548 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -367,6 +367,9 @@ class KpexCLI:
                 error(f"Can't read GDS file (LVS input) at path {args.gds_path}")
                 found_errors = True
             else:
+                # NOTE: sampled before the layout is read for the first time, so that a layout
+                #       which is changed during the run never matches the cached LVSDB
+                args.gds_mtime_ns = os.stat(args.gds_path).st_mtime_ns
                 args.layout = kdb.Layout()
                 args.layout.read(args.gds_path)
 
@@ -787,11 +790,6 @@ class KpexCLI:
 
         set_log_level(args.log_level)
 
-    @staticmethod
-    def modification_date(filename: str) -> datetime:
-        t = os.path.getmtime(filename)
-        return datetime.fromtimestamp(t)
-
     def create_lvsdb(self, args: argparse.Namespace) -> kdb.LayoutVsSchematic:
         lvsdb = kdb.LayoutVsSchematic()
 
@@ -811,8 +809,8 @@ class KpexCLI:
                     if not os.path.exists(lvsdb_cache_path):
                         info(f"Cache miss: extracted LVSDB does not exist")
                         subproc(lvsdb_cache_path)
-                    elif self.modification_date(lvsdb_cache_path) <= self.modification_date(args.gds_path):
-                        info(f"Cache miss: extracted LVSDB is older than the input GDS")
+                    elif os.stat(lvsdb_cache_path).st_mtime_ns != args.gds_mtime_ns:
+                        info(f"Cache miss: extracted LVSDB does not belong to this version of the input GDS")
                         subproc(lvsdb_cache_path)
                     else:
                         warning(f"Cache hit: Reusing cached LVSDB")
@@ -848,6 +846,8 @@ class KpexCLI:
                     tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
                     try:
                         shutil.copyfile(lvsdb_path, tmp_path)
+                        # the entry carries the modification time of the GDS it was extracted from
+                        os.utime(tmp_path, ns=(args.gds_mtime_ns, args.gds_mtime_ns))
                         os.replace(tmp_path, lvsdb_cache_path)
                     finally:
                         if os.path.exists(tmp_path):
-- 
2.43.0


From 3095b7bd5acb9b133f30899cbc576e7c5179be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:09 +0000
Subject: [PATCH 04/44] fix: don't overwrite the log backup of an earlier run

The logs of earlier runs are kept under a name with a resolution of one second,
so the backup of a run could replace the one of another run.
---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 1999548..bcb72ca 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -768,6 +768,10 @@ class KpexCLI:
                 dt = datetime.fromtimestamp(ctime)
                 timestamp = dt.strftime('%Y-%m-%d_%H-%M-%S')
                 backup_path = f"{new_path[:-4]}_{timestamp}.bak.log"
+                suffix = 1
+                while os.path.exists(backup_path):  # another run within the same second
+                    suffix += 1
+                    backup_path = f"{new_path[:-4]}_{timestamp}_{suffix}.bak.log"
                 shutil.move(new_path, backup_path)
             log_path = shutil.move(log_path, new_path)
             register_log_file_handler(log_path, formatter)
-- 
2.43.0


From 4b6c02b552066a144e0a9979ec0ddfd2cea60e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:35 +0000
Subject: [PATCH 05/44] fix: keep the preliminary logs of simultaneous runs
 apart

Runs that share an output directory wrote their logs into the same preliminary
files, so that a run moved away (or took over) the log of another one, or
failed. The messages of a killed run ended up in the log of the next run.
---
 klayout_pex/kpex_cli.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index bcb72ca..d564c8a 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -27,6 +27,7 @@ import argparse
 from datetime import datetime
 from enum import StrEnum
 from functools import cached_property
+import itertools
 import logging
 import os
 import os.path
@@ -746,6 +747,15 @@ class KpexCLI:
         return extraction_results
 
     def setup_logging(self, args: argparse.Namespace):
+        def create_preliminary_log(stem: str) -> str:
+            for i in itertools.count():
+                log_path = os.path.join(args.output_dir_base_path, f"{stem}_{os.getpid()}_{i}.log")
+                try:
+                    open(log_path, 'x').close()
+                    return log_path
+                except FileExistsError:
+                    pass
+
         def register_log_file_handler(log_path: str,
                                       formatter: Optional[logging.Formatter]) -> logging.Handler:
             handler = logging.FileHandler(log_path)
@@ -757,12 +767,13 @@ class KpexCLI:
 
         def reregister_log_file_handler(handler: logging.Handler,
                                         log_path: str,
+                                        log_name: str,
                                         formatter: Optional[logging.Formatter]):
             deregister_additional_handler(handler)
             handler.flush()
             handler.close()
             os.makedirs(args.output_dir_path, exist_ok=True)
-            new_path = os.path.join(args.output_dir_path, os.path.basename(log_path))
+            new_path = os.path.join(args.output_dir_path, log_name)
             if os.path.exists(new_path):
                 ctime = os.path.getctime(new_path)
                 dt = datetime.fromtimestamp(ctime)
@@ -777,8 +788,10 @@ class KpexCLI:
             register_log_file_handler(log_path, formatter)
 
         # setup preliminary logger
-        cli_log_path_plain = os.path.join(args.output_dir_base_path, f"kpex_plain.log")
-        cli_log_path_formatted = os.path.join(args.output_dir_base_path, f"kpex.log")
+        # NOTE: the base directory can be shared by runs executing at the same time,
+        #       and a killed run leaves its preliminary logs behind
+        cli_log_path_plain = create_preliminary_log('kpex_plain')
+        cli_log_path_formatted = create_preliminary_log('kpex')
         formatter = logging.Formatter('[%(asctime)s] [%(levelname)s]    %(message)s')
         file_handler_plain = register_log_file_handler(cli_log_path_plain, None)
         file_handler_formatted = register_log_file_handler(cli_log_path_formatted, formatter)
@@ -786,11 +799,11 @@ class KpexCLI:
             self.validate_args(args)
         except ArgumentValidationError:
             if hasattr(args, 'output_dir_path'):
-                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+                reregister_log_file_handler(file_handler_plain, cli_log_path_plain, 'kpex_plain.log', None)
+                reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, 'kpex.log', formatter)
             sys.exit(1)
-        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, None)
-        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, formatter)
+        reregister_log_file_handler(file_handler_plain, cli_log_path_plain, 'kpex_plain.log', None)
+        reregister_log_file_handler(file_handler_formatted, cli_log_path_formatted, 'kpex.log', formatter)
 
         set_log_level(args.log_level)
 
-- 
2.43.0


From 035d8592b44ad5937252ef6cfb938ad5ee300a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 06/44] fix: close the log files at the end of a run

The file handlers stayed registered, so that a following run in the same process
also logged into the log files of the earlier run, and kept its log level.
---
 klayout_pex/kpex_cli.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index d564c8a..1cb4158 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -58,6 +58,7 @@ from .klayout.repair_rdb import repair_rdb
 from .log import (
     LogLevel,
     set_log_level,
+    get_log_level,
     register_additional_handler,
     deregister_additional_handler,
     # console,
@@ -746,6 +747,12 @@ class KpexCLI:
 
         return extraction_results
 
+    def close_log_files(self):
+        for handler in self._log_file_handlers:
+            deregister_additional_handler(handler)
+            handler.close()
+        self._log_file_handlers.clear()
+
     def setup_logging(self, args: argparse.Namespace):
         def create_preliminary_log(stem: str) -> str:
             for i in itertools.count():
@@ -763,6 +770,7 @@ class KpexCLI:
             if formatter:
                 handler.setFormatter(formatter)
             register_additional_handler(handler)
+            self._log_file_handlers.append(handler)
             return handler
 
         def reregister_log_file_handler(handler: logging.Handler,
@@ -872,6 +880,16 @@ class KpexCLI:
         return lvsdb
 
     def main(self, argv: List[str]):
+        self._log_file_handlers: List[logging.Handler] = []
+        log_level = get_log_level()
+        try:
+            self._run(argv)
+        finally:
+            # the logger outlives this run (e.g. another run in the same process)
+            self.close_log_files()
+            set_log_level(log_level)
+
+    def _run(self, argv: List[str]):
         if '-v' not in argv and \
            '--version' not in argv and \
            '-h' not in argv and \
-- 
2.43.0


From 1cc5e03b3a2b4d26464654bcd82dd5d65d97a128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:50 +0000
Subject: [PATCH 07/44] fix: run FastCap2 in its working directory without
 changing kpex' own

After the chdir, relative paths (e.g. the default --out_dir) were resolved
against the directory of the FastCap2 input: the run failed to write its results,
or wrote them elsewhere. Two runs in one process disturbed each other.
---
 klayout_pex/fastcap/fastcap_runner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 2d7caf7..a0b871f 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -48,13 +48,13 @@ def run_fastcap(exe_path: str,
                 iterative_tolerance: float = 0.01):
     work_dir = os.path.dirname(lst_file_path)
 
-    # we have to chdir into the directory containing the lst file,
+    # FastCap2 has to run in the directory containing the lst file,
     # so make all paths absolute, and the lst_file relative
+    # NOTE: kpex itself stays where it is, as its other paths can be relative
     log_path = os.path.abspath(log_path)
     lst_file_path = os.path.basename(lst_file_path)
 
-    info(f"Chdir to {work_dir}")
-    os.chdir(work_dir)
+    info(f"Working directory: {work_dir}")
     args = [
         exe_path,
         f"-o{expansion_order}",
@@ -78,6 +78,7 @@ def run_fastcap(exe_path: str,
     start = time.time()
 
     proc = subprocess.Popen(args,
+                            cwd=work_dir,
                             stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT,
-- 
2.43.0


From 50f0b389fecf7db8683d455990271c2a62c8d539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:42 +0000
Subject: [PATCH 08/44] fix: reject incomplete capacitance matrices of
 FasterCap and FastCap2

A log which ends within the matrix was parsed using negative list indices,
i.e. rows were taken from the beginning of the log.
---
 klayout_pex/fastcap/fastcap_runner.py     | 15 ++++++++++-----
 klayout_pex/fastercap/fastercap_runner.py |  7 ++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index a0b871f..eaa5525 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -123,18 +123,23 @@ def fastcap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                     raise Exception(f"Could not parse capacitor unit")
                 unit_str = section_m.group(1)
 
-                dimension_line = rlines[idx-1].strip()
+                dimension_line = rlines[idx-1].strip() if idx >= 1 else ''
                 dimensions = dimension_line.split()  # remove whitespace
                 dim = len(dimensions)
+                if dim == 0 or dim > idx-1 or not rlines[idx-1-dim].endswith('\n'):
+                    raise Exception(f"Capacitance matrix is incomplete in FastCap2 log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
                     line = rlines[i].strip()
-                    cells = [cell.strip() for cell in line.split(' ')]
-                    if cells[1] != str(i):
-                        warning(f"Expected capacitor matrix row to have index {i}, but obtained {cells[1]}")
+                    cells = line.split()
+                    if len(cells) != dim + 2:
+                        raise Exception(f"Expected {dim} capacitance matrix columns in FastCap2 log file {log_path}, "
+                                        f"but obtained: {line}")
+                    row_index = len(rows) + 1
+                    if cells[1] != str(row_index):
+                        warning(f"Expected capacitor matrix row to have index {row_index}, but obtained {cells[1]}")
                     cells.pop(1)
-                    cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
                     rows.append(row)
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index f91640f..7587e70 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -110,10 +110,12 @@ def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
         # multiple iterations possible, find the last matrix
         for idx, line in enumerate(rlines):
             if line.strip() == "Capacitance matrix is:":
-                m = re.match(r'^Dimension (\d+) x (\d+)$', rlines[idx-1])
+                m = re.match(r'^Dimension (\d+) x (\d+)$', rlines[idx-1]) if idx >= 1 else None
                 if not m:
                     raise Exception(f"Could not parse capacitor matrix dimensions")
                 dim = int(m.group(1))
+                if dim > idx-1 or not rlines[idx-1-dim].endswith('\n'):
+                    raise Exception(f"Capacitance matrix is incomplete in FasterCap log file {log_path}")
                 conductor_names: List[str] = []
                 rows: List[List[float]] = []
                 for i in reversed(range(idx-1-dim, idx-1)):
@@ -122,6 +124,9 @@ def fastercap_parse_capacitance_matrix(log_path: str) -> CapacitanceMatrix:
                     cells = list(filter(lambda c: len(c) >= 1, cells))
                     conductor_names.append(cells[0])
                     row = [float(cell)/1e6 for cell in cells[1:]]
+                    if len(row) != dim:
+                        raise Exception(f"Expected {dim} capacitance matrix columns in FasterCap log file {log_path}, "
+                                        f"but obtained: {line}")
                     rows.append(row)
                 cm = CapacitanceMatrix(conductor_names=conductor_names, rows=rows)
                 return cm
-- 
2.43.0


From 478ea28278af3477e69386ec4936fe7cccc7ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:27 +0000
Subject: [PATCH 09/44] fix: repair marker databases with escaped characters in
 category names

The escapes in category paths were not decoded (after a backslash, all following
special characters were taken literally, octal escapes of non-ASCII characters
were taken as digits), so the repaired database had wrong categories and could
not be loaded. A name with a quote was not a valid XPath expression.
---
 klayout_pex/klayout/repair_rdb.py | 46 ++++++++++++++-----------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/klayout_pex/klayout/repair_rdb.py b/klayout_pex/klayout/repair_rdb.py
index 99dc179..be2d0d8 100644
--- a/klayout_pex/klayout/repair_rdb.py
+++ b/klayout_pex/klayout/repair_rdb.py
@@ -24,6 +24,7 @@
 import gzip
 import io
 import os.path
+import re
 import shutil
 import sys
 from typing import *
@@ -46,34 +47,26 @@ from ..log import (
 
 
 def parse_category_path(category_path: str) -> List[str]:
+    def unescape(m: re.Match) -> str:
+        if m.group('octal'):  # KLayout escapes each byte of the UTF-8 representation
+            return bytes(int(o, 8) for o in m.group('octal')[1:].split('\\')).decode('utf-8')
+        c = m.group('char')
+        return {'n': '\n', 'r': '\r', 't': '\t'}.get(c, c)
+
     within_escaped = False
-    within_backslash = False
     current_word = ''
     path_list = []
-    for c in category_path:
-        match c:
-            case '.':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                elif within_escaped:
-                    current_word += c
-                else:
-                    path_list.append(current_word)
-                    current_word = ''
-            case '\\':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_backslash = True
+    pattern = re.compile(r"(?P<octal>(\\[0-7]{3})+)|\\(?P<char>.)|(?P<plain>.)", re.DOTALL)
+    for m in pattern.finditer(category_path):
+        match m.group('plain'):
+            case None:
+                current_word += unescape(m)
+            case '.' if not within_escaped:
+                path_list.append(current_word)
+                current_word = ''
             case '\'':
-                if within_backslash:
-                    current_word += c
-                    within_backslash = False
-                else:
-                    within_escaped = not within_escaped
-            case _:
+                within_escaped = not within_escaped
+            case c:
                 current_word += c
     if len(current_word) >= 1:
         path_list.append(current_word)
@@ -93,7 +86,10 @@ def repair_rdb_xml(xml_file: io.IOBase, new_xml_path: str):
         elem = root
         for c in p:
             elemcats = elem.find("./categories")
-            subelem = elemcats.find("./category/name[.='{0}']/..".format(c))
+            if elemcats is None:
+                elemcats = ET.SubElement(elem, "categories")
+            # NOTE: names can contain quotes, so they can't be part of an XPath expression
+            subelem = next((e for e in elemcats.findall("./category") if e.findtext("./name") == c), None)
             if subelem is None:
                 warning(f"In category path {p}, can't find element for component {c}")
                 new_category = ET.SubElement(elemcats, "category")
-- 
2.43.0


From 395da2523a6aca6114e4ac6ea38f6efa4f6d77c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 10/44] fix: don't report the MAGIC results of an earlier run

If MAGIC exits with 0 without having extracted (which is what its Tcl errors
lead to), the *.ext files and the netlist of an earlier run were taken for its
results.
---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 1cb4158..41b2adf 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -595,6 +595,10 @@ class KpexCLI:
 
         os.makedirs(magic_run_dir, exist_ok=True)
 
+        # never mistake the files of an earlier run for the results of this MAGIC run
+        for stale_path in [*Path(magic_run_dir).glob('*.ext'), Path(output_netlist_path), Path(report_db_path)]:
+            stale_path.unlink(missing_ok=True)
+
         prepare_magic_script(gds_path=args.effective_gds_path,
                              cell_name=args.effective_cell_name,
                              run_dir_path=magic_run_dir,
-- 
2.43.0


From 6080ddd28c182d34df48010d1f304d541b3a48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:51 +0000
Subject: [PATCH 11/44] fix: don't let the MAGIC report depend on the order of
 directory entries

---
 klayout_pex/magic/magic_ext_file_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index e64bf0e..de2ad36 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -45,7 +45,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
     # search for <cell>.ext files (C related)
     # search for <cell>.res.ext files (R related)
     # ext_files = [f.resolve() for f in self.magic_log_dir_path.glob('*.ext')]
-    ext_files = run_dir.glob('*.ext')
+    ext_files = sorted(run_dir.glob('*.ext'))  # NOTE: the order of directory entries is arbitrary
 
     main_paths_by_cell_name: Dict[CellName, Path] = dict()
     res_paths_by_cell_name: Dict[CellName, Path] = dict()
-- 
2.43.0


From f1b75138abefd09045b9b17461d5478a7ae64726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:08 +0000
Subject: [PATCH 12/44] fix: end the tool if its kpex run fails or is
 interrupted

After Ctrl-C, or an error while its output was processed (e.g. disk full), the
tool kept running in the background, and kept writing into the run directory.
---
 klayout_pex/fastcap/fastcap_runner.py       |  5 ++-
 klayout_pex/fastercap/fastercap_runner.py   |  5 ++-
 klayout_pex/klayout/lvs_runner.py           |  5 ++-
 klayout_pex/magic/magic_runner.py           |  5 ++-
 klayout_pex/netlistsvg/netlistsvg_runner.py |  5 ++-
 klayout_pex/util/process.py                 | 43 +++++++++++++++++++++
 6 files changed, 58 insertions(+), 10 deletions(-)
 create mode 100644 klayout_pex/util/process.py

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index eaa5525..8c17002 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -37,6 +37,7 @@ from ..log import (
     subproc,
 )
 from ..common.capacitance_matrix import CapacitanceMatrix
+from ..util.process import terminate_on_error
 
 
 def run_fastcap(exe_path: str,
@@ -84,14 +85,14 @@ def run_fastcap(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True)
-    with open(log_path, 'w', encoding='utf-8') as f:
+    with terminate_on_error(proc), open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
             if not line:
                 break
             subproc(line[:-1])  # remove newline
             f.writelines([line])
-    proc.wait()
+        proc.wait()
 
     duration = time.time() - start
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 7587e70..7ad3b45 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -33,6 +33,7 @@ from ..log import (
     subproc,
 )
 from ..common.capacitance_matrix import CapacitanceMatrix
+from ..util.process import terminate_on_error
 
 
 def run_fastercap(exe_path: str,
@@ -82,14 +83,14 @@ def run_fastercap(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True)
-    with open(log_path, 'w', encoding='utf-8') as f:
+    with terminate_on_error(proc), open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
             if not line:
                 break
             subproc(line[:-1])  # remove newline
             f.writelines([line])
-    proc.wait()
+        proc.wait()
 
     duration = time.time() - start
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 6fc3980..89b4ba0 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -35,6 +35,7 @@ from ..log import (
     subproc,
     rule
 )
+from ..util.process import terminate_on_error
 
 
 class LVSRunner:
@@ -79,14 +80,14 @@ class LVSRunner:
                                 stderr=subprocess.STDOUT,
                                 universal_newlines=True,
                                 text=True)
-        with open(log_path, 'w', encoding='utf-8') as f:
+        with terminate_on_error(proc), open(log_path, 'w', encoding='utf-8') as f:
             while True:
                 line = proc.stdout.readline()
                 if not line:
                     break
                 subproc(line[:-1])  # remove newline
                 f.writelines([line])
-        proc.wait()
+            proc.wait()
 
         duration = time.time() - start
 
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 28eb703..1bc43b5 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -34,6 +34,7 @@ from ..log import (
     rule,
     subproc,
 )
+from ..util.process import terminate_on_error
 from ..version import __version__
 
 
@@ -189,14 +190,14 @@ def run_magic(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True)
-    with open(log_path, 'w', encoding='utf-8') as f:
+    with terminate_on_error(proc), open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
             if not line:
                 break
             subproc(line[:-1])  # remove newline
             f.writelines([line])
-    proc.wait()
+        proc.wait()
 
     duration = time.time() - start
 
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index 66b1dc9..a199cd9 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -34,6 +34,7 @@ from ..log import (
     rule,
     subproc,
 )
+from ..util.process import terminate_on_error
 
 
 def run_netlistsvg(exe_path: str,
@@ -68,14 +69,14 @@ def run_netlistsvg(exe_path: str,
                             stderr=subprocess.STDOUT,
                             universal_newlines=True,
                             text=True)
-    with open(log_path, 'w', encoding='utf-8') as f:
+    with terminate_on_error(proc), open(log_path, 'w', encoding='utf-8') as f:
         while True:
             line = proc.stdout.readline()
             if not line:
                 break
             subproc(line[:-1])  # remove newline
             f.writelines([line])
-    proc.wait()
+        proc.wait()
 
     duration = time.time() - start
 
diff --git a/klayout_pex/util/process.py b/klayout_pex/util/process.py
new file mode 100644
index 0000000..e634af1
--- /dev/null
+++ b/klayout_pex/util/process.py
@@ -0,0 +1,43 @@
+#
+# --------------------------------------------------------------------------------
+# SPDX-FileCopyrightText: 2024-2025 Martin Jan Köhler and Harald Pretl
+# Johannes Kepler University, Institute for Integrated Circuits.
+#
+# This file is part of KPEX
+# (see https://github.com/iic-jku/klayout-pex).
+#
+# This program is free software: you can redistribute it and/or modify
+# it under the terms of the GNU General Public License as published by
+# the Free Software Foundation, either version 3 of the License, or
+# (at your option) any later version.
+#
+# This program is distributed in the hope that it will be useful,
+# but WITHOUT ANY WARRANTY; without even the implied warranty of
+# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
+# GNU General Public License for more details.
+#
+# You should have received a copy of the GNU General Public License
+# along with this program. If not, see <http://www.gnu.org/licenses/>.
+# SPDX-License-Identifier: GPL-3.0-or-later
+# --------------------------------------------------------------------------------
+#
+
+from contextlib import contextmanager
+import subprocess
+
+
+@contextmanager
+def terminate_on_error(proc: subprocess.Popen):
+    """
+    Ends the given process, if the block fails or is interrupted (Ctrl-C),
+    so that no tool keeps running (and writing files) after its kpex run has ended
+    """
+    try:
+        yield proc
+    except BaseException:
+        proc.kill()
+        proc.wait()
+        raise
+    finally:
+        if proc.stdout:
+            proc.stdout.close()
-- 
2.43.0


From c289efbcd7dd9cb7f0cbe7d77cbadd1c268bfb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 13/44] fix: write the capacitances of the 2.5D SPICE netlist
 in Farad

The values are calculated in fF, but were stored as F (unlike those of the
FasterCap netlist), i.e. the netlist was off by 1e15.
---
 klayout_pex/rcx25/netlist_expander.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 596a157..2a33d4c 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -110,7 +110,7 @@ class RCX25NetlistExpander:
             c: kdb.Device = top_circuit.create_device(cap, f"ext_{idx+1}")
             c.connect_terminal('A', net1)
             c.connect_terminal('B', net2)
-            c.set_parameter('C', cap_value)
+            c.set_parameter('C', cap_value * 1e-15)  # fF -> F
             if net1 == net2:
                 warning(f"Invalid attempt to create cap {c.name} between "
                         f"same net {net1} with value {'%.12g' % cap_value}")
-- 
2.43.0


From 9fcbdf8fefc66e9f737861d1acf510d7bf6bece8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:23 +0000
Subject: [PATCH 14/44] fix: fail if the technology file can't be written
 completely

gen_tech_pb ended with exit code 0 and left a truncated or empty JSON file, if
the disk was full or the conversion failed.
---
 cxx/gen_tech_pb/protobuf.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/cxx/gen_tech_pb/protobuf.cpp b/cxx/gen_tech_pb/protobuf.cpp
index 4443787..28c97c5 100644
--- a/cxx/gen_tech_pb/protobuf.cpp
+++ b/cxx/gen_tech_pb/protobuf.cpp
@@ -21,6 +21,8 @@
  * SPDX-License-Identifier: GPL-3.0-or-later
  * --------------------------------------------------------------------------------
  */
+#include <stdexcept>
+
 #include "protobuf.h"
 
 const char *describeFormat(Format format) {
@@ -38,19 +40,27 @@ void write(const kpex::tech::Technology &tech,
     std::cout << "Writing technology protobuf message to file '" << outputPath << "' "
               << "in " << describeFormat(format) << " format." << std::endl;
     
+    bool ok = false;
+
     switch (format) {
         case Format::PROTOBUF_TEXTUAL: {
             std::ofstream output(outputPath, std::ios::out | std::ios::binary);
             output << "# proto-file: tech.proto" << std::endl
                    << "# proto-message: kpex.tech.Technology" << std::endl << std::endl;
-            google::protobuf::io::OstreamOutputStream zcos(&output);
-            google::protobuf::TextFormat::Print(tech, &zcos);
+            {
+                google::protobuf::io::OstreamOutputStream zcos(&output);
+                ok = google::protobuf::TextFormat::Print(tech, &zcos);
+            } // flushes
+            output.close();
+            ok = ok && output.good();
             break;
         }
 
         case Format::PROTOBUF_BINARY: {
             std::ofstream output(outputPath, std::ios::out | std::ios::binary);
-            tech.SerializeToOstream(&output);
+            ok = tech.SerializeToOstream(&output);
+            output.close();
+            ok = ok && output.good();
             break;
         }
             
@@ -64,9 +74,14 @@ void write(const kpex::tech::Technology &tech,
             std::ofstream output(outputPath, std::ios::out | std::ios::binary);
             output << jsonString;
             output.close();
+            ok = status.ok() && output.good();
             break;
         }
     }
+
+    if (!ok) {
+        throw std::runtime_error("Failed to write technology file '" + outputPath + "'");
+    }
 }
 
 void read(kpex::tech::Technology *tech,
-- 
2.43.0


From 106660061246acb76a9ee1de850d1055e9c437f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:13 +0000
Subject: [PATCH 15/44] fix: write cached LVSDBs durably and under a unique
 temporary name

---
 klayout_pex/kpex_cli.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 41b2adf..f26dc84 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -40,6 +40,7 @@ import shlex
 import shutil
 import sys
 from typing import *
+import uuid
 
 import klayout.db as kdb
 import klayout.rdb as rdb
@@ -872,9 +873,13 @@ class KpexCLI:
                 #       and it appears there at once, never partially written
                 if lvs_needed and args.cache_lvs:
                     os.makedirs(os.path.dirname(lvsdb_cache_path), exist_ok=True)
-                    tmp_path = f"{lvsdb_cache_path}.{os.getpid()}.tmp"
+                    # NOTE: process IDs are not unique, if runs in several containers share the cache
+                    tmp_path = f"{lvsdb_cache_path}.{uuid.uuid4().hex}.tmp"
                     try:
-                        shutil.copyfile(lvsdb_path, tmp_path)
+                        with open(lvsdb_path, 'rb') as src, open(tmp_path, 'xb') as dst:
+                            shutil.copyfileobj(src, dst)
+                            dst.flush()
+                            os.fsync(dst.fileno())  # the content has to be on disk before its final name is
                         # the entry carries the modification time of the GDS it was extracted from
                         os.utime(tmp_path, ns=(args.gds_mtime_ns, args.gds_mtime_ns))
                         os.replace(tmp_path, lvsdb_cache_path)
-- 
2.43.0


From 07c506dfd23b9d188deeec3e8598e0d00a3008f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:39 +0000
Subject: [PATCH 16/44] fix: keep the last character of an unterminated last
 line of tool output in the log

---
 klayout_pex/fastcap/fastcap_runner.py       | 2 +-
 klayout_pex/fastercap/fastercap_runner.py   | 2 +-
 klayout_pex/klayout/lvs_runner.py           | 2 +-
 klayout_pex/magic/magic_runner.py           | 2 +-
 klayout_pex/netlistsvg/netlistsvg_runner.py | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/klayout_pex/fastcap/fastcap_runner.py b/klayout_pex/fastcap/fastcap_runner.py
index 8c17002..40636d7 100644
--- a/klayout_pex/fastcap/fastcap_runner.py
+++ b/klayout_pex/fastcap/fastcap_runner.py
@@ -90,7 +90,7 @@ def run_fastcap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix("\n"))
             f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/fastercap/fastercap_runner.py b/klayout_pex/fastercap/fastercap_runner.py
index 7ad3b45..9be2d73 100644
--- a/klayout_pex/fastercap/fastercap_runner.py
+++ b/klayout_pex/fastercap/fastercap_runner.py
@@ -88,7 +88,7 @@ def run_fastercap(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix("\n"))
             f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/klayout/lvs_runner.py b/klayout_pex/klayout/lvs_runner.py
index 89b4ba0..03f33da 100644
--- a/klayout_pex/klayout/lvs_runner.py
+++ b/klayout_pex/klayout/lvs_runner.py
@@ -85,7 +85,7 @@ class LVSRunner:
                 line = proc.stdout.readline()
                 if not line:
                     break
-                subproc(line[:-1])  # remove newline
+                subproc(line.removesuffix("\n"))
                 f.writelines([line])
             proc.wait()
 
diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 1bc43b5..85b8c78 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -195,7 +195,7 @@ def run_magic(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix("\n"))
             f.writelines([line])
         proc.wait()
 
diff --git a/klayout_pex/netlistsvg/netlistsvg_runner.py b/klayout_pex/netlistsvg/netlistsvg_runner.py
index a199cd9..4f31467 100644
--- a/klayout_pex/netlistsvg/netlistsvg_runner.py
+++ b/klayout_pex/netlistsvg/netlistsvg_runner.py
@@ -74,7 +74,7 @@ def run_netlistsvg(exe_path: str,
             line = proc.stdout.readline()
             if not line:
                 break
-            subproc(line[:-1])  # remove newline
+            subproc(line.removesuffix("\n"))
             f.writelines([line])
         proc.wait()
 
-- 
2.43.0


From 2466590a4205a3a00ac028f82e820218c22e6590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 17/44] fix: fail if the MAGIC report can't be written
 completely

---
 klayout_pex/kpex_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index f26dc84..4d72f8a 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -27,6 +27,7 @@ import argparse
 from datetime import datetime
 from enum import StrEnum
 from functools import cached_property
+import gzip
 import itertools
 import logging
 import os
@@ -629,6 +630,10 @@ class KpexCLI:
                                               dbu=layout.dbu)
         magic_log_analyzer.analyze()
         report.save(report_db_path)
+        # NOTE: KLayout ignores errors while closing a compressed file (e.g. disk full)
+        with gzip.open(report_db_path) as f:
+            if not f.read().rstrip().endswith(b'</report-database>'):
+                raise Exception(f"Could not completely write report DB {report_db_path}")
 
         rule("Paths")
         subproc(f"Report DB saved at: {report_db_path}")
-- 
2.43.0


From 082ec3585eb2d8b5eed3187d60f74e48c4135564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:28 +0000
Subject: [PATCH 18/44] fix: name the metal label layers of sky130A as the LVS
 deck does

The label layers were registered as met*_pin_con and replaced the pin layers
of that name, so extracting resistances of a cell with met1..met5 pins crashed.
---
 cxx/gen_tech_pb/pdk/sky130A.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cxx/gen_tech_pb/pdk/sky130A.cpp b/cxx/gen_tech_pb/pdk/sky130A.cpp
index 45b1ef1..a14f23f 100644
--- a/cxx/gen_tech_pb/pdk/sky130A.cpp
+++ b/cxx/gen_tech_pb/pdk/sky130A.cpp
@@ -130,11 +130,11 @@ void buildLVSComputedLayers(kpex::tech::Technology *tech) {
 
     addComputedLayer(tech, METAL,   KLBL, "poly_label",   66, 5,  "poly.label", "Poly label");
     addComputedLayer(tech, METAL,   KLBL, "li_label",     67, 5,  "li1.label",  "li1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met1_pin_con", 68, 5,  "met1.label", "met1 label");
-    addComputedLayer(tech, METAL,   KLBL, "met2_pin_con", 69, 5,  "met2.label", "met2 label");
-    addComputedLayer(tech, METAL,   KLBL, "met3_pin_con", 70, 5,  "met3.label", "met3 label");
-    addComputedLayer(tech, METAL,   KLBL, "met4_pin_con", 71, 5,  "met4.label", "met4 label");
-    addComputedLayer(tech, METAL,   KLBL, "met5_pin_con", 72, 5,  "met5.label", "met5 label");
+    addComputedLayer(tech, METAL,   KLBL, "met1_label",   68, 5,  "met1.label", "met1 label");
+    addComputedLayer(tech, METAL,   KLBL, "met2_label",   69, 5,  "met2.label", "met2 label");
+    addComputedLayer(tech, METAL,   KLBL, "met3_label",   70, 5,  "met3.label", "met3 label");
+    addComputedLayer(tech, METAL,   KLBL, "met4_label",   71, 5,  "met4.label", "met4 label");
+    addComputedLayer(tech, METAL,   KLBL, "met5_label",   72, 5,  "met5.label", "met5 label");
 }
 
 void buildProcessStackInfo(kpex::tech::ProcessStackInfo *psi) {
-- 
2.43.0


From 887f5e9196400b08e765c34d5e8c2dd930edb7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 19/44] fix: fail if a SPICE netlist can't be written
 completely

KLayout ignores errors while closing the file, so the run succeeded with
an empty or truncated netlist if the disk was full.
---
 klayout_pex/kpex_cli.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 4d72f8a..1338c82 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -479,6 +479,14 @@ class KpexCLI:
         if found_errors:
             raise ArgumentValidationError("Argument validation failed")
 
+    @staticmethod
+    def check_netlist_file(netlist: kdb.Netlist, path: str):
+        # NOTE: KLayout ignores errors while closing a file (e.g. disk full)
+        with open(path, 'r', encoding='utf-8') as f:
+            num_circuits = sum(1 for line in f if line.startswith('.ENDS') and line.endswith('\n'))
+        if num_circuits != sum(1 for _ in netlist.each_circuit()):
+            raise Exception(f"Could not completely write SPICE netlist {path}")
+
     def build_fastercap_input(self,
                               args: argparse.Namespace,
                               pex_context: KLayoutExtractionContext,
@@ -569,12 +577,14 @@ class KpexCLI:
         spice_writer.use_net_names = True
         spice_writer.with_comments = False
         expanded_netlist.write(expanded_netlist_path, spice_writer)
+        self.check_netlist_file(expanded_netlist, expanded_netlist_path)
         info(f"Wrote expanded netlist to: {expanded_netlist_path}")
 
         netlist_reducer = NetlistReducer()
         reduced_netlist = netlist_reducer.reduce(netlist=expanded_netlist,
                                                  top_cell_name=pex_context.annotated_top_cell.name)
         reduced_netlist.write(reduced_netlist_path, spice_writer)
+        self.check_netlist_file(reduced_netlist, reduced_netlist_path)
         info(f"Wrote reduced netlist to: {reduced_netlist_path}")
 
         self._fastercap_extracted_csv_path = expanded_netlist_csv_path
@@ -680,12 +690,14 @@ class KpexCLI:
         spice_writer.use_net_names = True
         spice_writer.with_comments = False
         expanded_netlist.write(expanded_netlist_path, spice_writer)
+        self.check_netlist_file(expanded_netlist, expanded_netlist_path)
         info(f"Wrote expanded netlist to: {expanded_netlist_path}")
 
         netlist_reducer = NetlistReducer()
         reduced_netlist = netlist_reducer.reduce(netlist=expanded_netlist,
                                                  top_cell_name=pex_context.annotated_top_cell.name)
         reduced_netlist.write(reduced_netlist_path, spice_writer)
+        self.check_netlist_file(reduced_netlist, reduced_netlist_path)
         info(f"Wrote reduced netlist to: {reduced_netlist_path}")
 
     def run_kpex_2_5d_engine(self,
@@ -743,6 +755,7 @@ class KpexCLI:
             spice_writer.use_net_names = True
             spice_writer.with_comments = False
             expanded_netlist.write(expanded_netlist_path, spice_writer)
+            self.check_netlist_file(expanded_netlist, expanded_netlist_path)
             subproc(f"Wrote expanded netlist to: {expanded_netlist_path}")
 
         # NOTE: there was a KLayout bug that some of the categories were lost,
-- 
2.43.0


From 09440e028d57328558698aad3e57ec81f6f83cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 20/44] fix: don't lose nets without pins in the reduced
 netlist

Such nets were treated as internal nodes whose devices get combined in series.
For layouts without devices this removed arbitrary nets (depending on memory
addresses), up to an empty netlist or a short between nets.
---
 klayout_pex/klayout/netlist_reducer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_reducer.py b/klayout_pex/klayout/netlist_reducer.py
index d4f0dd2..27becf5 100644
--- a/klayout_pex/klayout/netlist_reducer.py
+++ b/klayout_pex/klayout/netlist_reducer.py
@@ -36,10 +36,23 @@ class NetlistReducer:
                top_cell_name: str,
                cap_threshold: float = 0.05e-15) -> kdb.Netlist:
         reduced_netlist: kdb.Netlist = netlist.dup()
-        reduced_netlist.combine_devices()  # merge C/R
 
         top_circuit: kdb.Circuit = reduced_netlist.circuit_by_name(top_cell_name)
 
+        # NOTE: nets without a pin (e.g. all nets of a layout without devices) must not be mistaken for internal nodes,
+        #       otherwise devices are also combined in series, so nets get lost (which ones depends on memory addresses)
+        nets_without_pin: List[kdb.Net] = [n for n in top_circuit.each_net() if n.pin_count() == 0]
+        temporary_pin_ids: List[int] = []
+        for net in nets_without_pin:
+            pin = top_circuit.create_pin(net.name)
+            temporary_pin_ids.append(pin.id())
+            top_circuit.connect_pin(pin, net)
+
+        reduced_netlist.combine_devices()  # merge parallel C/R
+
+        for pin_id in temporary_pin_ids:
+            top_circuit.remove_pin(pin_id)
+
         devices_to_remove: List[kdb.Device] = []
 
         for d in top_circuit.each_device():
-- 
2.43.0


From fda9138715b582872793ed3a9220f61fbd9a5bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:23 +0000
Subject: [PATCH 21/44] fix: don't lose nodes and resistors from the MAGIC
 report

Names of nets are not only word characters (a_n50_10#, in[0], x1/y),
capacitances are not integers, and values may have an exponent.
---
 klayout_pex/magic/magic_ext_data_structures.py |  4 ++--
 klayout_pex/magic/magic_ext_file_parser.py     | 12 ++++++------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/klayout_pex/magic/magic_ext_data_structures.py b/klayout_pex/magic/magic_ext_data_structures.py
index 7083809..93eb093 100644
--- a/klayout_pex/magic/magic_ext_data_structures.py
+++ b/klayout_pex/magic/magic_ext_data_structures.py
@@ -48,7 +48,7 @@ class Port:
 class Node:
     net: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
     layer: str
@@ -94,7 +94,7 @@ class ExtData:
 class ResNode:
     name: str
     int_r: int
-    fin_c: int
+    fin_c: float
     x_bot: int
     y_bot: int
 
diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index de2ad36..83b93bf 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -90,7 +90,7 @@ def parse_magic_ext_file(path: Path) -> ExtData:
             # port "VDD" 2 -600 800 500 1000 m1
             # port "VSS" 3 -600 500 500 700 m1
             m = re.match(
-                r'^port "(?P<net>\w+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
+                r'^port "(?P<net>[^"]+)" (?P<nr>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<x_top>-?\d+) (?P<y_top>-?\d+) (?P<layer>\w+)$',
                 line.strip())
             if m:
                 ports.append(Port(net=m.group('net'),
@@ -101,12 +101,12 @@ def parse_magic_ext_file(path: Path) -> ExtData:
                                   layer=m.group('layer')))
 
             m = re.match(
-                r'^(node|substrate) "(?P<net>\w+)" (?P<int_r>\d+) (?P<fin_c>\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
+                r'^(node|substrate) "(?P<net>[^"]+)" (?P<int_r>\d+) (?P<fin_c>[-+\d.eE]+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) (?P<layer>\w+) .*$',
                 line.strip())
             if m:
                 nodes.append(Node(net=m.group('net'),
                                   int_r=int(m.group('int_r')),
-                                  fin_c=int(m.group('fin_c')),
+                                  fin_c=float(m.group('fin_c')),
                                   x_bot=int(m.group('x_bot')),
                                   y_bot=int(m.group('y_bot')),
                                   layer=m.group('layer')))
@@ -133,17 +133,17 @@ def parse_magic_res_ext_file(path: Path) -> ResExtData:
     with open(path, 'r') as f:
         for line in f.readlines():
             m = re.match(
-                r'^rnode "(?P<name>[\w\\.]+)" (?P<int_r>-?\d+) (?P<fin_c>-?\d+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
+                r'^rnode "(?P<name>[^"]+)" (?P<int_r>-?\d+) (?P<fin_c>[-+\d.eE]+) (?P<x_bot>-?\d+) (?P<y_bot>-?\d+) 0$',
                 line.strip())
             if m:
                 rnodes.append(ResNode(name=m.group('name'),
                                       int_r=int(m.group('int_r')),  # NOTE: R is always 0!
-                                      fin_c=int(m.group('fin_c')),
+                                      fin_c=float(m.group('fin_c')),
                                       x_bot=int(m.group('x_bot')),
                                       y_bot=int(m.group('y_bot'))))
 
             m = re.match(
-                r'^resist "(?P<node1>[\w\\.]+)" "(?P<node2>[\w\\.]+)" (?P<value>-?[\d\\.]+)$',
+                r'^resist "(?P<node1>[^"]+)" "(?P<node2>[^"]+)" (?P<value>[-+\d.eE]+)$',
                 line.strip())
             if m:
                 resistors.append(Resistor(node1=m.group('node1'),
-- 
2.43.0


From c1af1e35ce81a14d56f2de9d3783d0ce0c2eea9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:37 +0000
Subject: [PATCH 22/44] fix: notice lost parts of SPICE netlists

KLayout ignores errors while writing a netlist, so the check has to look at the beginnings of the circuits and their elements too, not only at their ends.
---
 klayout_pex/kpex_cli.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 1338c82..6dd1a22 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -481,10 +481,20 @@ class KpexCLI:
 
     @staticmethod
     def check_netlist_file(netlist: kdb.Netlist, path: str):
-        # NOTE: KLayout ignores errors while closing a file (e.g. disk full)
+        # NOTE: KLayout ignores errors while writing or closing a file (e.g. disk full), so parts can be missing
+        num_elements = 0
+        num_subckt = 0
+        num_ends = 0
         with open(path, 'r', encoding='utf-8') as f:
-            num_circuits = sum(1 for line in f if line.startswith('.ENDS') and line.endswith('\n'))
-        if num_circuits != sum(1 for _ in netlist.each_circuit()):
+            for line in f:
+                num_elements += line[0].isalpha()
+                num_subckt += line.startswith('.SUBCKT ')
+                num_ends += line.startswith('.ENDS') and line.endswith('\n')
+
+        circuits = list(netlist.each_circuit())
+        expected_elements = sum(1 for c in circuits for _ in c.each_device()) + \
+                            sum(1 for c in circuits for _ in c.each_subcircuit())
+        if num_subckt != len(circuits) or num_ends != len(circuits) or num_elements < expected_elements:
             raise Exception(f"Could not completely write SPICE netlist {path}")
 
     def build_fastercap_input(self,
-- 
2.43.0


From 3ae89db1d3e9a9c986b436244226eca544dc1544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 23/44] fix: don't keep an earlier run's SPICE netlist if
 writing fails

KLayout brings back the backup of an existing file if it can't write the new one, without reporting the error.
---
 klayout_pex/kpex_cli.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 6dd1a22..e8254be 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -480,8 +480,13 @@ class KpexCLI:
             raise ArgumentValidationError("Argument validation failed")
 
     @staticmethod
-    def check_netlist_file(netlist: kdb.Netlist, path: str):
-        # NOTE: KLayout ignores errors while writing or closing a file (e.g. disk full), so parts can be missing
+    def write_netlist_file(netlist: kdb.Netlist, path: str, writer: kdb.NetlistWriter):
+        # NOTE: KLayout ignores errors while writing or closing a file (e.g. disk full):
+        #       it either leaves an incomplete netlist, or brings back the one of an earlier run
+        if os.path.exists(path):
+            os.remove(path)
+        netlist.write(path, writer)
+
         num_elements = 0
         num_subckt = 0
         num_ends = 0
@@ -586,15 +591,13 @@ class KpexCLI:
         spice_writer = kdb.NetlistSpiceWriter()
         spice_writer.use_net_names = True
         spice_writer.with_comments = False
-        expanded_netlist.write(expanded_netlist_path, spice_writer)
-        self.check_netlist_file(expanded_netlist, expanded_netlist_path)
+        self.write_netlist_file(expanded_netlist, expanded_netlist_path, spice_writer)
         info(f"Wrote expanded netlist to: {expanded_netlist_path}")
 
         netlist_reducer = NetlistReducer()
         reduced_netlist = netlist_reducer.reduce(netlist=expanded_netlist,
                                                  top_cell_name=pex_context.annotated_top_cell.name)
-        reduced_netlist.write(reduced_netlist_path, spice_writer)
-        self.check_netlist_file(reduced_netlist, reduced_netlist_path)
+        self.write_netlist_file(reduced_netlist, reduced_netlist_path, spice_writer)
         info(f"Wrote reduced netlist to: {reduced_netlist_path}")
 
         self._fastercap_extracted_csv_path = expanded_netlist_csv_path
@@ -699,15 +702,13 @@ class KpexCLI:
         spice_writer = kdb.NetlistSpiceWriter()
         spice_writer.use_net_names = True
         spice_writer.with_comments = False
-        expanded_netlist.write(expanded_netlist_path, spice_writer)
-        self.check_netlist_file(expanded_netlist, expanded_netlist_path)
+        self.write_netlist_file(expanded_netlist, expanded_netlist_path, spice_writer)
         info(f"Wrote expanded netlist to: {expanded_netlist_path}")
 
         netlist_reducer = NetlistReducer()
         reduced_netlist = netlist_reducer.reduce(netlist=expanded_netlist,
                                                  top_cell_name=pex_context.annotated_top_cell.name)
-        reduced_netlist.write(reduced_netlist_path, spice_writer)
-        self.check_netlist_file(reduced_netlist, reduced_netlist_path)
+        self.write_netlist_file(reduced_netlist, reduced_netlist_path, spice_writer)
         info(f"Wrote reduced netlist to: {reduced_netlist_path}")
 
     def run_kpex_2_5d_engine(self,
@@ -764,8 +765,7 @@ class KpexCLI:
             spice_writer = kdb.NetlistSpiceWriter()
             spice_writer.use_net_names = True
             spice_writer.with_comments = False
-            expanded_netlist.write(expanded_netlist_path, spice_writer)
-            self.check_netlist_file(expanded_netlist, expanded_netlist_path)
+            self.write_netlist_file(expanded_netlist, expanded_netlist_path, spice_writer)
             subproc(f"Wrote expanded netlist to: {expanded_netlist_path}")
 
         # NOTE: there was a KLayout bug that some of the categories were lost,
-- 
2.43.0


From 90cb4fd963f4910a4c06465c4b7000fe505b0aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 24/44] fix: log messages with square brackets as they are

Paths, net names and category names are plain text. Names such as '[/x]' ended the
run with a MarkupError, names such as '[red]' were swallowed by the console.
---
 klayout_pex/log/logger.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/log/logger.py b/klayout_pex/log/logger.py
index ed882fd..a893bff 100644
--- a/klayout_pex/log/logger.py
+++ b/klayout_pex/log/logger.py
@@ -27,6 +27,7 @@ from functools import cached_property
 import logging
 import rich.console
 import rich.logging
+import rich.markup
 from typing import *
 
 
@@ -49,7 +50,8 @@ class LogLevel(IntEnum):
 
 class LogLevelFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
-        msg = record.getMessage()
+        # NOTE: messages are plain text, e.g. paths can contain square brackets
+        msg = rich.markup.escape(record.getMessage())
         match record.levelno:
             case LogLevel.WARNING.value: return f"[yellow]{msg}"
             case LogLevel.ERROR.value: return f"[red]{msg}"
-- 
2.43.0


From 58bec8834dce818cce748aecc19f724544d03170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 25/44] fix: quote paths and cell names within the MAGIC script

TCL splits at spaces and substitutes $ and [], so that MAGIC read another
layout, loaded another cell, or wrote its netlist elsewhere.
---
 klayout_pex/magic/magic_runner.py | 37 +++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/klayout_pex/magic/magic_runner.py b/klayout_pex/magic/magic_runner.py
index 85b8c78..b41be4e 100644
--- a/klayout_pex/magic/magic_runner.py
+++ b/klayout_pex/magic/magic_runner.py
@@ -26,6 +26,7 @@ import time
 from typing import *
 
 import os
+import re
 import subprocess
 
 from ..log import (
@@ -59,6 +60,15 @@ class MagicMergeMode(StrEnum):
     DEFAULT = NONE
 
 
+def tcl_word(text: str) -> str:
+    """
+    Quotes the text (if necessary), so that TCL reads it as one word, as it is
+    """
+    if re.fullmatch(r'[\w./+:@%,=-]+', text):
+        return text
+    return '"' + re.sub(r'(["\\$\[\]])', r'\\\1', text) + '"'
+
+
 def prepare_magic_script(gds_path: str,
                          cell_name: str,
                          run_dir_path: str,
@@ -71,9 +81,12 @@ def prepare_magic_script(gds_path: str,
                          halo: Optional[float],
                          short_mode: MagicShortMode,
                          merge_mode: MagicMergeMode):
-    gds_path = os.path.abspath(gds_path)
-    run_dir_path = os.path.abspath(run_dir_path)
-    output_netlist_path = os.path.abspath(output_netlist_path)
+    # NOTE: TCL must not split or substitute anything within paths and cell names (e.g. spaces, $, [])
+    gds_path = tcl_word(os.path.abspath(gds_path))
+    run_dir_path = tcl_word(os.path.abspath(run_dir_path))
+    output_netlist_path = tcl_word(os.path.abspath(output_netlist_path))
+    flat_cell_name = tcl_word(f"{cell_name}_flat")
+    cell_name = tcl_word(cell_name)
 
     halo_scale = 200.0
     halo_decl = '' if halo is None else f"\nextract halo {round(halo * halo_scale)}"
@@ -87,10 +100,10 @@ drc off
 gds read {gds_path}
 load {cell_name}
 select top cell
-flatten {cell_name}_flat
-load {cell_name}_flat
+flatten {flat_cell_name}
+load {flat_cell_name}
 cellname delete {cell_name} -noprompt
-cellname rename {cell_name}_flat {cell_name}
+cellname rename {flat_cell_name} {cell_name}
 select top cell
 extract path {run_dir_path}{halo_decl}
 extract all
@@ -108,10 +121,10 @@ drc off
 gds read {gds_path}
 load {cell_name}
 select top cell
-flatten {cell_name}_flat
-load {cell_name}_flat
+flatten {flat_cell_name}
+load {flat_cell_name}
 cellname delete {cell_name} -noprompt
-cellname rename {cell_name}_flat {cell_name}
+cellname rename {flat_cell_name} {cell_name}
 select top cell
 extract path {run_dir_path}{halo_decl}
 extract do resistance
@@ -137,10 +150,10 @@ drc off
 gds read {gds_path}
 load {cell_name}
 select top cell
-flatten {cell_name}_flat
-load {cell_name}_flat
+flatten {flat_cell_name}
+load {flat_cell_name}
 cellname delete {cell_name} -noprompt
-cellname rename {cell_name}_flat {cell_name}
+cellname rename {flat_cell_name} {cell_name}
 select top cell
 extract path {run_dir_path}{halo_decl}
 extract do resistance
-- 
2.43.0


From a72088e280d98d656a749e69f6bf063109837937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 26/44] fix: allow slashes within net names of solver input
 files

Net names are part of file names: a slash named a directory that does not exist.
---
 .../fastercap/fastercap_model_generator.py    | 40 ++++++++++++++-----
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/klayout_pex/fastercap/fastercap_model_generator.py b/klayout_pex/fastercap/fastercap_model_generator.py
index f0a1d2c..b4d4f36 100644
--- a/klayout_pex/fastercap/fastercap_model_generator.py
+++ b/klayout_pex/fastercap/fastercap_model_generator.py
@@ -64,6 +64,7 @@ import base64
 from collections import defaultdict
 import hashlib
 import os
+import re
 from typing import *
 from dataclasses import dataclass
 from functools import reduce
@@ -735,13 +736,32 @@ class FasterCapModelGenerator:
 
         self.diel_data = dk
 
-    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
+    @staticmethod
+    def _net_file_name(output_dir_path: str,
+                       prefix: str,
+                       net_name: str,
+                       suffix: str) -> str:
         max_filename_length: Optional[int] = None
         try:
             max_filename_length = os.pathconf(output_dir_path, 'PC_NAME_MAX')
         except AttributeError:
             pass  # NOTE: windows does not support the os.pathconf attribute
 
+        fn = f"{prefix}{net_name}{suffix}"
+        # NOTE: slashes separate directories, and whitespace separates the fields of the list file
+        short_nn = re.sub(r'[\s/]', '_', net_name)
+        too_long = max_filename_length is not None and len(os.fsencode(fn)) > max_filename_length
+        if too_long or short_nn != net_name:
+            warning(f"Unusual net name detected: {net_name}")
+            d = hashlib.md5(net_name.encode('utf-8')).digest()
+            h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
+            if max_filename_length is not None:
+                remaining_len = max_filename_length - len(os.fsencode(f"{prefix}_{h}{suffix}"))
+                short_nn = os.fsencode(short_nn)[0:max(0, remaining_len)].decode('utf-8', errors='ignore')
+            fn = f"{prefix}{short_nn}_{h}{suffix}"
+        return fn
+
+    def write_fastcap(self, output_dir_path: str, prefix: str) -> str:
         lst_fn = os.path.join(output_dir_path, f"{prefix}.lst")
         file_num = 0
         lst_file: List[str] = [f"* k_void={'%.12g' % self.k_void}"]
@@ -800,14 +820,10 @@ class FasterCapModelGenerator:
 
                 outside = outside or '(void)'
                 # lst_file.append(f"* Conductor interface: outside={outside}, net={nn}")
-                fn = f"{prefix}{file_num}_outside={outside}_net={nn}.geo"
-                if max_filename_length is not None and len(fn) > max_filename_length:
-                    warning(f"Unusual long net name detected: {nn}")
-                    d = hashlib.md5(nn.encode('utf-8')).digest()
-                    h = base64.urlsafe_b64encode(d).decode('utf-8').rstrip('=')
-                    remaining_len = len(f"{prefix}_{file_num}_outside={outside}_net=.geo")
-                    short_nn = nn[0: (max_filename_length - remaining_len - len(h) - 1)] + f"_{h}"
-                    fn = f"{prefix}{file_num}_outside={outside}_net={short_nn}.geo"
+                fn = self._net_file_name(output_dir_path=output_dir_path,
+                                         prefix=f"{prefix}{file_num}_outside={outside}_net=",
+                                         net_name=nn,
+                                         suffix='.geo')
                 output_path = os.path.join(output_dir_path, fn)
                 self._write_fastercap_geo(output_path=output_path,
                                           data=data,
@@ -971,7 +987,11 @@ class FasterCapModelGenerator:
 
         for nn in self.net_names:
             tris = self._collect_cond_tris(nn)
-            output_path = os.path.join(output_dir_path, f"{prefix}cond_{nn}.stl")
+            fn = self._net_file_name(output_dir_path=output_dir_path,
+                                     prefix=f"{prefix}cond_",
+                                     net_name=nn,
+                                     suffix='.stl')
+            output_path = os.path.join(output_dir_path, fn)
             self._write_as_stl(output_path, tris)
 
     @staticmethod
-- 
2.43.0


From 3ced7db9c6aee25e9966430c4bcfa47a49b6ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:42 +0000
Subject: [PATCH 27/44] fix: report a cell that is not in the layout as an
 argument error

The run went on and ended with an AttributeError.
---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index e8254be..7c0d524 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -394,7 +394,7 @@ class KpexCLI:
                     is_only_top_cell = len(top_cells) == 1 and top_cells[0].name == args.cell_name
                     if is_only_top_cell:
                         info(f"Found cell {args.cell_name} in GDS {args.gds_path} (only top cell)")
-                    else:  # there are other cells => extract the top cell to a tmp layout
+                    elif found_cell:  # there are other cells => extract the top cell to a tmp layout
                         run_dir_id = f"{input_file_stem(args.gds_path)}__{args.effective_cell_name}"
                         args.output_dir_path = os.path.join(args.output_dir_base_path, run_dir_id)
                         os.makedirs(args.output_dir_path, exist_ok=True)
-- 
2.43.0


From 8abef1bb42278311fa009ba7cad2b5a6c5eea998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:16 +0000
Subject: [PATCH 28/44] fix: report an invalid dielectric pattern

The message was lost, because logging could not format it.
---
 klayout_pex/kpex_cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 7c0d524..96397c2 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -470,7 +470,7 @@ class KpexCLI:
             pattern_string: str = args.dielectric_filter
             args.dielectric_filter = MultipleChoicePattern(pattern=pattern_string)
         except ValueError as e:
-            error("Failed to parse --diel arg", e)
+            error(f"Failed to parse --diel arg: {e}")
             found_errors = True
 
         if args.cache_dir_path is None:
-- 
2.43.0


From 60dd40de346570e4ab4bc7afd884f4020caff9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:05 +0000
Subject: [PATCH 29/44] fix: don't remove devices while iterating over them

---
 klayout_pex/klayout/netlist_expander.py | 3 ++-
 klayout_pex/rcx25/netlist_expander.py   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/klayout/netlist_expander.py b/klayout_pex/klayout/netlist_expander.py
index 53d07c2..c9a20b3 100644
--- a/klayout_pex/klayout/netlist_expander.py
+++ b/klayout_pex/klayout/netlist_expander.py
@@ -45,7 +45,8 @@ class NetlistExpander:
         top_circuit: kdb.Circuit = expanded_netlist.circuit_by_name(top_cell_name)
 
         if not blackbox_devices:
-            for d in top_circuit.each_device():
+            # NOTE: devices are removed, so don't iterate the circuit itself (undefined behaviour, can crash)
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 info(f"Removing whiteboxed device {name}")
                 top_circuit.remove_device(d)
diff --git a/klayout_pex/rcx25/netlist_expander.py b/klayout_pex/rcx25/netlist_expander.py
index 2a33d4c..62e40cc 100644
--- a/klayout_pex/rcx25/netlist_expander.py
+++ b/klayout_pex/rcx25/netlist_expander.py
@@ -49,7 +49,8 @@ class RCX25NetlistExpander:
             #       because we only want to replace resistor / capacitor devices
             #       and for example not transitors
 
-            for d in top_circuit.each_device():
+            # NOTE: devices are removed, so don't iterate the circuit itself (undefined behaviour, can crash)
+            for d in list(top_circuit.each_device()):
                 name = d.name or d.expanded_name()
                 match d.device_class().__class__:
                     case kdb.DeviceClassResistor | kdb.DeviceClassResistorWithBulk:
-- 
2.43.0


From b7d8a542e218e0d6fed6d9fe4ae1f15fcb203a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:05 +0000
Subject: [PATCH 30/44] fix: don't merge capacitors into other devices in the
 reduced netlist

---
 klayout_pex/klayout/netlist_reducer.py | 38 +++++++++++++++++---------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/klayout_pex/klayout/netlist_reducer.py b/klayout_pex/klayout/netlist_reducer.py
index 27becf5..1aa0c48 100644
--- a/klayout_pex/klayout/netlist_reducer.py
+++ b/klayout_pex/klayout/netlist_reducer.py
@@ -31,6 +31,30 @@ from ..log import (
 
 
 class NetlistReducer:
+    @staticmethod
+    def _combine_parallel_capacitors(circuit: kdb.Circuit):
+        # NOTE: kdb.Netlist.combine_devices() can't be used here: for a dup() of a netlist, it mixes up the device
+        #       classes (depending on uninitialized memory), so capacitors are merged into e.g. transistors.
+        #       Also, it combines devices in series, so nets without pins get lost.
+        net_by_terminal: Dict[Tuple[int, int], int] = {}
+        for net_index, net in enumerate(circuit.each_net()):
+            for terminal in net.each_terminal():
+                net_by_terminal[(terminal.device().id(), terminal.terminal_id())] = net_index
+
+        combined: Dict[Tuple, kdb.Device] = {}
+        for d in list(circuit.each_device()):
+            dc = d.device_class()
+            if not isinstance(dc, kdb.DeviceClassCapacitor):
+                continue
+            nets = [net_by_terminal.get((d.id(), td.id()), -1) for td in dc.terminal_definitions()]
+            nets = sorted(nets[:2]) + nets[2:]  # A and B can be swapped (unlike a bulk terminal)
+            first = combined.setdefault((dc.name, *nets), d)
+            if first.id() == d.id():
+                continue
+            for parameter in ('C', 'A', 'P'):
+                first.set_parameter(parameter, first.parameter(parameter) + d.parameter(parameter))
+            circuit.remove_device(d)
+
     @staticmethod
     def reduce(netlist: kdb.Netlist,
                top_cell_name: str,
@@ -39,19 +63,7 @@ class NetlistReducer:
 
         top_circuit: kdb.Circuit = reduced_netlist.circuit_by_name(top_cell_name)
 
-        # NOTE: nets without a pin (e.g. all nets of a layout without devices) must not be mistaken for internal nodes,
-        #       otherwise devices are also combined in series, so nets get lost (which ones depends on memory addresses)
-        nets_without_pin: List[kdb.Net] = [n for n in top_circuit.each_net() if n.pin_count() == 0]
-        temporary_pin_ids: List[int] = []
-        for net in nets_without_pin:
-            pin = top_circuit.create_pin(net.name)
-            temporary_pin_ids.append(pin.id())
-            top_circuit.connect_pin(pin, net)
-
-        reduced_netlist.combine_devices()  # merge parallel C/R
-
-        for pin_id in temporary_pin_ids:
-            top_circuit.remove_pin(pin_id)
+        NetlistReducer._combine_parallel_capacitors(top_circuit)
 
         devices_to_remove: List[kdb.Device] = []
 
-- 
2.43.0


From 3ef96483abd5e2489e3706d80e9fc45fe908263e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 31/44] fix: write the names of nets without labels to the
 netlist CSV

---
 klayout_pex/klayout/netlist_csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/netlist_csv.py b/klayout_pex/klayout/netlist_csv.py
index c30e145..288a584 100644
--- a/klayout_pex/klayout/netlist_csv.py
+++ b/klayout_pex/klayout/netlist_csv.py
@@ -56,4 +56,4 @@ class NetlistCSVWriter:
                     net2 = d.net_for_terminal('B')
                     cap = params['C']
                     cap_femto = round(cap * 1e15, 2)
-                    f.write(f"{dn};{net1.name};{net2.name};{cap_femto}\n")
+                    f.write(f"{dn};{net1.expanded_name()};{net2.expanded_name()};{cap_femto}\n")
-- 
2.43.0


From b4f1f0fe3b4f8f4c98b0635a80d386f376414164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 32/44] fix: don't lose nets without labels in solver models
 and resistance extraction

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 ++--
 klayout_pex/rcx25/r/r_extractor.py     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index c2ea97c..86cf647 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -270,7 +270,7 @@ class KLayoutExtractionContext:
         shapes = kdb.Region()
         shapes.enable_properties()
 
-        requested_net_name = net.name if isinstance(net, kdb.Net) else net
+        requested_net_name = net.expanded_name() if isinstance(net, kdb.Net) else net
 
         def add_shapes_from_region(source_region: kdb.Region):
             iter, transform = source_region.begin_shapes_rec()
@@ -397,7 +397,7 @@ class KLayoutExtractionContext:
                     terminal.device_id = d.id
                     terminal.terminal_id = td.id()
                     terminal.name = td.name
-                    terminal.net_name = n.name
+                    terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
                         lyr_idx = self.layer_index_map[idx]
diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index b80f0f1..5f75538 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -267,7 +267,7 @@ class RExtractor:
                             r = self.pex_context.shapes_of_net(lyr.gds_pair, net)
                             if not r:
                                 continue
-                            l2r = get_or_create_net_request(net.name).region_by_layer.add()
+                            l2r = get_or_create_net_request(net.expanded_name()).region_by_layer.add()
                             l2r.layer.id = self.pex_context.annotated_layout.layer(*lvs_gds_pair)
                             l2r.layer.canonical_layer_name = self.pex_context.tech.canonical_layer_name_by_gds_pair[lvs_gds_pair]
                             l2r.layer.lvs_layer_name = lyr.lvs_layer_name
-- 
2.43.0


From a025a85fad74b319e5479b278d2ac4939338ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:04 +0000
Subject: [PATCH 33/44] fix: mode R crashed for layouts with blackboxed
 capacitors

---
 klayout_pex/klayout/lvsdb_extractor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/klayout/lvsdb_extractor.py b/klayout_pex/klayout/lvsdb_extractor.py
index 86cf647..f66cecc 100755
--- a/klayout_pex/klayout/lvsdb_extractor.py
+++ b/klayout_pex/klayout/lvsdb_extractor.py
@@ -400,7 +400,9 @@ class KLayoutExtractionContext:
                     terminal.net_name = n.expanded_name()
 
                     for idx, shapes in shapes_by_lyr_idx.items():
-                        lyr_idx = self.layer_index_map[idx]
+                        lyr_idx = self.layer_index_map.get(idx, None)
+                        if lyr_idx is None:
+                            continue  # NOTE: layers of blackboxed devices are not mapped
                         lyr_info: kdb.LayerInfo = self.annotated_layout.layer_infos()[lyr_idx]
 
                         region_by_layer = terminal.region_by_layer.add()
-- 
2.43.0


From aeddb1835eb7ec066efd5fec21e924f1e03bde2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:02 +0000
Subject: [PATCH 34/44] fix: runs without --magicrc no longer crash if PDKPATH
 is set, but PDK is not

---
 klayout_pex/kpex_cli.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 96397c2..8f951bd 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -256,9 +256,10 @@ class KpexCLI:
                                      help="FasterCap -pj Use Jacobi preconditioner (default is %(default)s)")
 
         PDKPATH = os.environ.get('PDKPATH', None)
+        PDK_NAME = os.environ.get('PDK', None)
         default_magicrc_path = \
-            None if PDKPATH is None \
-            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{os.environ['PDK']}.magicrc")
+            None if PDKPATH is None or PDK_NAME is None \
+            else os.path.abspath(f"{PDKPATH}/libs.tech/magic/{PDK_NAME}.magicrc")
         group_magic = main_parser.add_argument_group("MAGIC options")
         group_magic.add_argument('--magicrc', dest='magicrc_path', default=default_magicrc_path,
                                   help=f"Path to magicrc configuration file (default is '%(default)s')")
-- 
2.43.0


From 2fb8359451a28596a06cd1b379e70da062d7be46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:02 +0000
Subject: [PATCH 35/44] fix: MAGIC runs without a readable magicrc are refused
 before anything is started

---
 klayout_pex/kpex_cli.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/klayout_pex/kpex_cli.py b/klayout_pex/kpex_cli.py
index 8f951bd..8690985 100755
--- a/klayout_pex/kpex_cli.py
+++ b/klayout_pex/kpex_cli.py
@@ -364,6 +364,10 @@ class KpexCLI:
                 error(f"Neither GDS nor LVSDB was provided")
                 found_errors = True
 
+        if args.run_magic and not (args.magicrc_path and os.path.isfile(args.magicrc_path)):
+            error(f"Can't read magicrc configuration file at path {args.magicrc_path}, use --magicrc to specify it")
+            found_errors = True
+
         # input mode: LVS or existing LVSDB?
         if args.gds_path:
             info(f"GDS input file passed, running in LVS mode")
-- 
2.43.0


From 3f88b255366364b6c4460f2dab485fcc64d3fcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:02 +0000
Subject: [PATCH 36/44] fix: magic_log_analyzer writes its report to the
 documented default path

---
 klayout_pex/magic/magic_log_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index bd943a5..92ece0b 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -148,7 +148,7 @@ def _parse_args(arg_list: List[str] = None) -> argparse.Namespace:
         raise ArgumentValidationError(f"Intput magic log directory does not exist at '{args.magic_log_dir_path}'")
 
     if args.output_rdb_path is None:
-        os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
+        args.output_rdb_path = os.path.join(args.magic_log_dir_path, 'report.rdb.gz')
 
     return args
 
-- 
2.43.0


From 9a6f7e921511b3449661ec1f74d62a581c3a9b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:02 +0000
Subject: [PATCH 37/44] fix: the netlist tool honours --cell

---
 klayout_pex/netlist/netlist_cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/netlist/netlist_cli.py b/klayout_pex/netlist/netlist_cli.py
index 93b5e36..2cabb0a 100755
--- a/klayout_pex/netlist/netlist_cli.py
+++ b/klayout_pex/netlist/netlist_cli.py
@@ -154,6 +154,11 @@ class NetlistCLI:
         top_circuit: kdb.Circuit
 
         match n_circuits:
+            case _ if args.cell_name:  # explicit user-specified cell name
+                top_circuit = netlist.circuit_by_name(args.cell_name)
+                if not top_circuit:
+                    error(f"Could not find cell {args.cell_name} in SPICE netlist {args.input_netlist_path}")
+                    sys.exit(1)
             case 0:
                 error(f"No top circuit found in SPICE netlist, perhaps the SUBCKT with the ports is missing?!")
                 sys.exit(1)
-- 
2.43.0


From 792d710af20bfab116583c2f75427766511d9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:02 +0000
Subject: [PATCH 38/44] fix: schematics show every instance of a subcircuit

---
 klayout_pex/netlistsvg/netlist_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/netlistsvg/netlist_json.py b/klayout_pex/netlistsvg/netlist_json.py
index b04c89e..e64c3cd 100644
--- a/klayout_pex/netlistsvg/netlist_json.py
+++ b/klayout_pex/netlistsvg/netlist_json.py
@@ -86,7 +86,7 @@ class NetlistJSONWriter:
                 port_directions[pin_text] = 'input'
                 connections[pin_text] = [self._get_or_create_id(net)]
 
-            cells_dict[f"{subcircuit.name}{subcircuit.cell_index}"] = {
+            cells_dict[f"X{sc.expanded_name()}"] = {
                 'hide_name': 1,
                 'type': f"${subcircuit.name}",
                 'port_directions': port_directions,
-- 
2.43.0


From 4ad4379b01b73bfff0c73ced84b75ea4bceb24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:59 +0000
Subject: [PATCH 39/44] fix: magic_log_analyzer reports a failure to write its
 report

---
 klayout_pex/magic/magic_log_analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/klayout_pex/magic/magic_log_analyzer.py b/klayout_pex/magic/magic_log_analyzer.py
index 92ece0b..a106a0c 100755
--- a/klayout_pex/magic/magic_log_analyzer.py
+++ b/klayout_pex/magic/magic_log_analyzer.py
@@ -24,6 +24,7 @@
 #
 
 import argparse
+import gzip
 import os
 from pathlib import Path
 import re
@@ -164,6 +165,10 @@ def main():
                          dbu=1e-3)
     c.analyze()
     report.save(args.output_rdb_path)
+    # NOTE: KLayout ignores errors while writing or closing a file (e.g. disk full)
+    with (gzip.open if args.output_rdb_path.endswith('.gz') else open)(args.output_rdb_path, 'rb') as f:
+        if not f.read().rstrip().endswith(b'</report-database>'):
+            raise Exception(f"Could not completely write report DB {args.output_rdb_path}")
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 867c3e1384e56f3ebf14b22acedce5bfeae1b744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:34 +0000
Subject: [PATCH 40/44] fix: MAGIC extraction files of cells called *.res, or
 with .ext in their names, are told apart

---
 klayout_pex/magic/magic_ext_file_parser.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/klayout_pex/magic/magic_ext_file_parser.py b/klayout_pex/magic/magic_ext_file_parser.py
index 83b93bf..b17ba65 100644
--- a/klayout_pex/magic/magic_ext_file_parser.py
+++ b/klayout_pex/magic/magic_ext_file_parser.py
@@ -52,7 +52,7 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
 
     regex = r'(?P<cell>.*?)(?P<res>\.res)?\.ext'
     for ef in ext_files:
-        m = re.match(regex, ef.name)
+        m = re.fullmatch(regex, ef.name)
         if not m:
             continue
 
@@ -64,6 +64,11 @@ def parse_magic_pex_run(run_dir: Path) -> MagicPEXRun:
         else:
             main_paths_by_cell_name[cell] = ef
 
+    # NOTE: cells can be called <cell>.res as well
+    for cell in sorted(res_paths_by_cell_name):
+        if cell not in main_paths_by_cell_name:
+            main_paths_by_cell_name[f"{cell}.res"] = res_paths_by_cell_name.pop(cell)
+
     if not main_paths_by_cell_name:
         raise Exception(f"Could not find any *.ext files to analyze in {run_dir}")
 
-- 
2.43.0


From 9a51f31a61c3c400cd2c6dee7e07f2967fe4ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:34 +0000
Subject: [PATCH 41/44] fix: a dielectric filter of only inclusions selects
 these dielectrics

---
 klayout_pex/util/multiple_choice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/klayout_pex/util/multiple_choice.py b/klayout_pex/util/multiple_choice.py
index be8c74c..cabcfe5 100644
--- a/klayout_pex/util/multiple_choice.py
+++ b/klayout_pex/util/multiple_choice.py
@@ -66,4 +66,4 @@ class MultipleChoicePattern:
             return choice in self.included
         if self.has_all:
             return choice not in self.excluded
-        return False
+        return choice in self.included
-- 
2.43.0


From b8fdd845e406364aaa794b9409c292bba155cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:20 +0000
Subject: [PATCH 42/44] fix: order nodes and resistors of extracted networks
 independently of memory addresses

KLayout's order differs from run to run, and so did the report of modes R and RC.
---
 klayout_pex/rcx25/r/r_extractor.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 5f75538..1770d8e 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -329,7 +329,8 @@ class RExtractor:
             result_network = rex_result.networks.add()
             result_network.net_name = net_extraction_request.net_name
 
-            for rn in resistor_network.each_node():
+            # NOTE: KLayout's order of nodes and elements depends on memory addresses
+            for rn in sorted(resistor_network.each_node(), key=lambda n: n.to_s()):
                 loc = rn.location()
                 layer_id = rn.layer()
                 canonical_layer_name = layer_names[layer_id]
@@ -370,11 +371,13 @@ class RExtractor:
 
                 node_by_node_id[r_node.node_id] = r_node
 
-            for el in resistor_network.each_element():
+            elements = [(*sorted((el.a(), el.b()), key=lambda n: n.to_s()), el)
+                        for el in resistor_network.each_element()]
+            for node_a, node_b, el in sorted(elements, key=lambda e: (e[0].to_s(), e[1].to_s(), e[2].resistance())):
                 r_element = result_network.elements.add()
                 r_element.element_id = el.object_id()
-                r_element.node_a.node_id = el.a().object_id()
-                r_element.node_b.node_id = el.b().object_id()
+                r_element.node_a.node_id = node_a.object_id()
+                r_element.node_b.node_id = node_b.object_id()
                 r_element.resistance = el.resistance()
 
         return rex_result
-- 
2.43.0


From e49fe8b40a9ffbfe416dd2fc23e366b07d16edfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:15 +0000
Subject: [PATCH 43/44] fix: modes R and RC crashed for vias without any
 conductor below or above

---
 klayout_pex/rcx25/r/r_extractor.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 1770d8e..6dbc8f8 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -216,6 +216,14 @@ class RExtractor:
 
                             via.merge_distance = self.via_merge_distance
 
+        # NOTE: there can be shapes on a via layer, but none on the conductor below or above
+        conductor_ids = {cond.layer.id for cond in rex_tech.conductors}
+        for idx, via in reversed(list(enumerate(rex_tech.vias))):
+            if via.bottom_conductor.id not in conductor_ids or via.top_conductor.id not in conductor_ids:
+                warning(f"ignoring layer {via.layer.canonical_layer_name} (LVS {via.layer.lvs_layer_name}), "
+                        f"nothing found on the layer below or above")
+                del rex_tech.vias[idx]
+
         return rex_tech
 
     def prepare_request(self) -> pex_request_pb2.RExtractionRequest:
-- 
2.43.0


From 7bb1d3143ed2f227f072ab46b3526d6a5a622f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:10 +0000
Subject: [PATCH 44/44] fix: number internal nodes of extracted networks
 independently of memory addresses

---
 klayout_pex/rcx25/r/r_extractor.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/klayout_pex/rcx25/r/r_extractor.py b/klayout_pex/rcx25/r/r_extractor.py
index 6dbc8f8..e602f84 100644
--- a/klayout_pex/rcx25/r/r_extractor.py
+++ b/klayout_pex/rcx25/r/r_extractor.py
@@ -337,15 +337,33 @@ class RExtractor:
             result_network = rex_result.networks.add()
             result_network.net_name = net_extraction_request.net_name
 
-            # NOTE: KLayout's order of nodes and elements depends on memory addresses
-            for rn in sorted(resistor_network.each_node(), key=lambda n: n.to_s()):
+            # NOTE: KLayout's order of nodes and elements, and its numbers of internal nodes,
+            #       depend on memory addresses
+            def location_key(rn: klp.RNode):
+                box = rn.location()
+                return rn.layer(), box.left, box.bottom, box.right, box.top
+
+            node_names: Dict[int, str] = {}
+            num_internal_nodes = 0
+            for rn in sorted(resistor_network.each_node(), key=location_key):
+                node_name = rn.to_s()
+                if rn.type() == klp.RNodeType.Internal:
+                    suffix = node_name.removeprefix(f"${rn.port_index()}")
+                    node_name = f"${num_internal_nodes}{suffix}"
+                    num_internal_nodes += 1
+                node_names[rn.object_id()] = node_name
+
+            def name_of(rn: klp.RNode) -> str:
+                return node_names[rn.object_id()]
+
+            for rn in sorted(resistor_network.each_node(), key=name_of):
                 loc = rn.location()
                 layer_id = rn.layer()
                 canonical_layer_name = layer_names[layer_id]
 
                 r_node = result_network.nodes.add()
                 r_node.node_id = rn.object_id()
-                r_node.node_name = rn.to_s()
+                r_node.node_name = name_of(rn)
                 r_node.node_type = r_network_pb2.RNode.Kind.KIND_UNSPECIFIED  # TODO!
                 r_node.layer_name = canonical_layer_name
 
@@ -379,9 +397,9 @@ class RExtractor:
 
                 node_by_node_id[r_node.node_id] = r_node
 
-            elements = [(*sorted((el.a(), el.b()), key=lambda n: n.to_s()), el)
-                        for el in resistor_network.each_element()]
-            for node_a, node_b, el in sorted(elements, key=lambda e: (e[0].to_s(), e[1].to_s(), e[2].resistance())):
+            elements = [(*sorted((el.a(), el.b()), key=name_of), el) for el in resistor_network.each_element()]
+            elements.sort(key=lambda e: (name_of(e[0]), name_of(e[1]), e[2].resistance()))
+            for node_a, node_b, el in elements:
                 r_element = result_network.elements.add()
                 r_element.element_id = el.object_id()
                 r_element.node_a.node_id = node_a.object_id()
-- 
2.43.0

