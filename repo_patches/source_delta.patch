From 911808165cc99c64f834c3a5729c18e32830fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:28 +0000
Subject: [PATCH 001/103] fix: run the analyses once per file however many lint
 runs preceded it

---
 edulint/linting/analyses/patcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/analyses/patcher.py b/edulint/linting/analyses/patcher.py
index aa280e1..9948d78 100644
--- a/edulint/linting/analyses/patcher.py
+++ b/edulint/linting/analyses/patcher.py
@@ -35,6 +35,8 @@ def run_analyses(ast: astroid.nodes.Module):
 
 def patch_ast_transforms():
     old_get_ast = PyLinter.get_ast
+    if getattr(old_get_ast, "runs_edulint_analyses", False):
+        return  # the plugin is registered anew for each lint run in the process
 
     def new_get_ast(self, filepath, modname, data=None):
         ast = old_get_ast(self, filepath, modname, data)
@@ -44,6 +46,7 @@ def patch_ast_transforms():
         run_analyses(ast)
         return ast
 
+    new_get_ast.runs_edulint_analyses = True
     PyLinter.get_ast = new_get_ast
     astroid.raw_building._CONST_PROXY[AunifyVar] = None
 
-- 
2.43.0


From 04967db3e75cad14cc55bb98d4ee10798da36903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:26 +0000
Subject: [PATCH 002/103] fix: pass pylint arguments on unchanged when
 resolving enable and disable all

---
 edulint/config/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..ec9b7ae 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -156,17 +156,17 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
-            if arg == "--enable=noop":
+            lowered = arg.lower()
+            if lowered == "--enable=noop":
                 pass
-            elif arg in ("--disable=all", "--enable=all"):
+            elif lowered in ("--disable=all", "--enable=all"):
                 if all_set:
                     continue
                 all_set = True
-                enable = arg == "--enable=all"
+                enable = lowered == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (lowered.startswith("--disable=") and enable)
+                or (lowered.startswith("--enable=") and not enable)
             ):
                 continue
             result.append(arg)
-- 
2.43.0


From 24d4ac44cad91c17df8b6bf6505aaf5e1ae1d7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 003/103] fix: find edulint.toml and .edulint.toml in the
 parent directories

---
 edulint/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index ec9b7ae..9c56d37 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -341,9 +341,9 @@ def search_for_config_in_parents(path):
     path = Path(path)
     path = (path.parent if path.is_file() else path).absolute()
     while path.parent != path:
-        for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
-                return str(path / elem)
+        for name in IMPLICIT_CONFIG_FILENAMES:
+            if (path / name).is_file():
+                return str(path / name)
         path = path.parent
     return None
 
-- 
2.43.0


From 098d2a843d4762d68ff4dd15bb4ebb638c05de1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:24 +0000
Subject: [PATCH 004/103] fix: never leave a partially written configuration in
 the cache

---
 edulint/config/file_config.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..90e0ef6 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 import string
 import os
+import tempfile
 from typing import Dict, Any, Optional
 import hashlib
 import json
@@ -191,21 +192,22 @@ class CachedHTTPGet:
         base_filepath = cls._get_filepath_from_source(source)
         return base_filepath.with_suffix(base_filepath.suffix + ".metadata")
 
+    @staticmethod
+    def _replace_file(path: Path, content: str) -> None:
+        # the file never holds a partially written content, even if the process gets killed
+        with tempfile.NamedTemporaryFile(
+            "w", encoding="utf8", dir=path.parent, prefix=path.name, suffix=".tmp", delete=False
+        ) as f:
+            f.write(content)
+        os.replace(f.name, path)
+
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
-                # security: writing arbitrary content from web is not great, but at least it's written as text
-                f.write(content)
-            with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
-                json.dump(
-                    {
-                        "timestamp": cls._get_timestamp(),
-                        "source": source,
-                    },
-                    f,
-                    indent=4,
-                )
+            # security: writing arbitrary content from web is not great, but at least it's written as text
+            cls._replace_file(cls._get_filepath_from_source(source), content)
+            metadata = {"timestamp": cls._get_timestamp(), "source": source}
+            cls._replace_file(cls._get_metadata_filepath(source), json.dumps(metadata, indent=4))
         except Exception as e:
             logger.error("saving cache file for configuration failed:\n {e}", e=e)
 
-- 
2.43.0


From c82915d3953aa70162e819c527891dde7356f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 005/103] fix: show the updated explanations instead of always
 the packaged ones

---
 edulint/explanations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..75283c8 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -44,9 +44,9 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
+        with open(path_for_online_file, "rb") as f:
             return tomli.load(f)
-    except:
+    except Exception:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
 
 
-- 
2.43.0


From b3fa6f38bff6e361315bfce5de9a8bff446bdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 006/103] fix: never leave partially written explanations
 behind

---
 edulint/explanations.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index 75283c8..62f2dc7 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -4,6 +4,7 @@ from threading import Thread
 from pathlib import Path
 from typing import Optional, Dict
 import dbm
+import tempfile
 import time
 import random
 
@@ -75,8 +76,12 @@ def _thread_update_explanations(ttl: int = 600):
         if resp.status_code != 200:
             return
 
-        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "w", encoding="utf8") as f:
+        # the file never holds partially written explanations, even if the process gets killed
+        with tempfile.NamedTemporaryFile(
+            "w", encoding="utf8", dir=EDULINT_LOCAL_DATA_FOLDER, prefix="explanations_online", suffix=".tmp", delete=False
+        ) as f:
             f.write(resp.text)
+        os.replace(f.name, EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From a25cf6cfd8bb60a2629a0a53016da13cadf3735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:35 +0000
Subject: [PATCH 007/103] fix: do not update explanations in explain when told
 not to

---
 edulint/edulint.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..b88bf1f 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -230,7 +230,9 @@ def check_code(
     return _check_code(files_or_dirs, options, get_option_parses())
 
 
-def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[str, Dict[str, str]]:
+def get_message_explanations(
+    message_ids: Optional[List[str]] = None, disable_explanations_update: bool = False
+) -> Dict[str, Dict[str, str]]:
     """
     Returns explanations for given message ids. If an explanation is requested
     for a message id that does not have an explanation, the warning is
@@ -239,13 +241,16 @@ def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[st
     :param message_ids: An optional list of message ids to receive explanations
       for. If None is passed, returns all available explanations.
     :type message_ids: List[str] | None
+    :param disable_explanations_update: Whether to skip the periodical update
+      of the explanations.
+    :type disable_explanations_update: bool
     :returns: A dictionary with message ids as keys and explanations as values.
       Each explanations is a dictionary with optional keys "why" and "examples".
       "Why" Contains rationale for why the pattern should be avoided. "Examples"
       contains examples of erroneous and corrected code.
     :rtype: Dict[str, Dict[str, str]]
     """
-    explanations = get_explanations()
+    explanations = get_explanations(disable_explanations_update)
     message_ids = message_ids if message_ids is not None else explanations.keys()
 
     m_id_expls = {}
@@ -262,7 +267,7 @@ def print_message_explanations(args):
     message_ids = (
         args.message_ids if not any(id_.lower() == "all" for id_ in args.message_ids) else None
     )
-    m_id_expls = get_message_explanations(message_ids)
+    m_id_expls = get_message_explanations(message_ids, args.disable_explanations_update)
     if args.json:
         data = {"explanations": m_id_expls}
         print(json.dumps(data, indent=2))
@@ -293,9 +298,7 @@ def main() -> int:
     args = setup_argparse(option_parses)
 
     check_for_updates(args.disable_version_check)
-    update_explanations(
-        args.disable_explanations_update
-    )  # get_explanations also can trigger update, but we're not calling it anywhere else.
+    update_explanations(args.disable_explanations_update)
 
     if args.command == "check":
         return check_and_print(args, option_parses)
-- 
2.43.0


From 3d84a78b3dfaf59ee0d9fa444a5d2e483c21b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 008/103] fix: do not offer an update when the latest version
 is not known

---
 edulint/versions/version_checker.py | 222 ++++++++++++++--------------
 1 file changed, 112 insertions(+), 110 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..5e8d052 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,110 +1,112 @@
-from typing import Optional, Tuple
-import os
-import json
-from dataclasses import dataclass
-import time
-from pathlib import Path
-
-from platformdirs import PlatformDirs
-from dataclasses_json import dataclass_json
-
-from edulint.versions import pypi_helper
-
-def current_timestamp() -> int:
-    return int(time.time())
-
-
-@dataclass_json
-@dataclass
-class PackageInfo:
-    version: Optional[str] = None
-    last_update_started: int = 0
-
-
-class PackageInfoManager:
-    @staticmethod
-    def get_local_module_version(package_name: str) -> Optional[str]:
-        try:
-            from importlib.metadata import version  # This is only available in Python >= 3.8
-            return version(package_name)
-        except:
-            pass
-
-        try:
-            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
-            return pkg_resources.get_distribution(package_name).version
-        except:
-            pass
-
-        return None
-
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
-    @classmethod
-    def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
-
-    @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
-
-        if version:
-            package_info.version = version
-        if last_update_started:
-            package_info.last_update_started = last_update_started
-            
-        data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
-        
-        return package_info
-
-    @classmethod
-    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
-
-    @classmethod
-    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
-        try:
-            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
-            versions = pypi_helper.get_versions(package_name)
-            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-            latest_version_str = str(sorted_versions[-1])
-            cls._save_package_info_locally(package_name, version=latest_version_str)
-            return latest_version_str
-        except Exception as _:
-            return None
-
-    @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
-        local_package_version = cls.get_local_module_version(package_name)
-        if local_package_version is None: # unable to determine local package version
-            return False
-
-        latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
-
-
-if __name__ == "__main__":
-    print("START")
-    print(PackageInfoManager.get_latest_version("edulint"))
-    print("END")
+from typing import Optional, Tuple
+import os
+import json
+from dataclasses import dataclass
+import time
+from pathlib import Path
+
+from platformdirs import PlatformDirs
+from dataclasses_json import dataclass_json
+
+from edulint.versions import pypi_helper
+
+def current_timestamp() -> int:
+    return int(time.time())
+
+
+@dataclass_json
+@dataclass
+class PackageInfo:
+    version: Optional[str] = None
+    last_update_started: int = 0
+
+
+class PackageInfoManager:
+    @staticmethod
+    def get_local_module_version(package_name: str) -> Optional[str]:
+        try:
+            from importlib.metadata import version  # This is only available in Python >= 3.8
+            return version(package_name)
+        except:
+            pass
+
+        try:
+            import pkg_resources  # Part of setuptools, which might not be installed. But I don't want to include them as dependency.
+            return pkg_resources.get_distribution(package_name).version
+        except:
+            pass
+
+        return None
+
+    @staticmethod
+    def _create_json_file_if_doesnt_exist(filepath: str):
+        if os.path.exists(filepath):
+            return
+        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
+        with open(filepath, "w", encoding="utf8") as f:
+            f.write("{}")
+
+    @classmethod
+    def _package_info_path(cls):
+        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
+        cls._create_json_file_if_doesnt_exist(filepath)
+        return filepath 
+
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+
+        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+
+        if version:
+            package_info.version = version
+        if last_update_started:
+            package_info.last_update_started = last_update_started
+            
+        data[package_name] = package_info.to_dict()
+        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
+            json.dump(data, f, indent=4)
+        
+        return package_info
+
+    @classmethod
+    def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
+        with open(cls._package_info_path(), "r", encoding="utf8") as f:
+            data = json.load(f)
+            package_info = PackageInfo.from_dict(data.get(package_name, {}))
+            return package_info
+
+    @classmethod
+    def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
+        package_info = cls._get_package_info_locally(package_name)
+        if current_timestamp() < package_info.last_update_started + ttl:
+            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
+        try:
+            cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
+            versions = pypi_helper.get_versions(package_name)
+            sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
+            latest_version_str = str(sorted_versions[-1])
+            cls._save_package_info_locally(package_name, version=latest_version_str)
+            return latest_version_str
+        except Exception as _:
+            return None
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        local_package_version = cls.get_local_module_version(package_name)
+        if local_package_version is None: # unable to determine local package version
+            return False
+
+        latest_version = cls.get_latest_version(package_name, ttl)
+        if latest_version is None: # unable to determine the latest version
+            return False
+
+        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+
+
+if __name__ == "__main__":
+    print("START")
+    print(PackageInfoManager.get_latest_version("edulint"))
+    print("END")
-- 
2.43.0


From b8c685cf65c2f2165961f84bbf9220bfc0e174ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:23 +0000
Subject: [PATCH 009/103] fix: recover from a partially written file with the
 latest version

---
 edulint/versions/version_checker.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 5e8d052..94c9d27 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,4 +1,4 @@
-from typing import Optional, Tuple
+from typing import Any, Dict, Optional, Tuple
 import os
 import json
 from dataclasses import dataclass
@@ -53,10 +53,16 @@ class PackageInfoManager:
         return filepath 
 
     @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
+    def _load_packages_info(cls) -> Dict[str, Any]:
+        try:
+            with open(cls._package_info_path(), "r", encoding="utf8") as f:
+                return json.load(f)
+        except ValueError:  # the file is being written by another process, or its writer got killed
+            return {}
 
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        data = cls._load_packages_info()
         package_info = PackageInfo.from_dict(data.get(package_name, {}))
 
         if version:
@@ -72,10 +78,7 @@ class PackageInfoManager:
 
     @classmethod
     def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
+        return PackageInfo.from_dict(cls._load_packages_info().get(package_name, {}))
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-- 
2.43.0


From 0a6a4bc25d34b2408185355bb8d8828ee24937d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 010/103] fix: lint every python file of a directory and sort
 results of any spelling of its path

---
 edulint/config/config.py   | 52 ++++++++++++++++++--------------------
 edulint/linting/linting.py |  7 ++---
 2 files changed, 29 insertions(+), 30 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 9c56d37..60f3b08 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -508,38 +508,36 @@ def _parse_infile_configs(
         else:
             result[iconfig][1].append(path)
 
-    def aggregate_subresults(paths):
-        result = {}
-        for path in paths:
-            subresult = _parse_infile_configs_rec(path)
-            for iconfig, (config, subpaths) in subresult.items():
-                if iconfig not in result:
-                    result[iconfig] = (config, subpaths)
-                else:
-                    result[iconfig][1].extend(subpaths)
-        return result
-
-    def _parse_infile_configs_rec(path: str):
-        if not os.path.isdir(path):
-            if not os.path.splitext(path)[1].lower() == ".py":
-                return {}
-
-            infile_config = parse_infile_config(path, option_parses)
-            return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
-
-        result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
+    def expand(file_or_dir: str) -> List[str]:
+        if not os.path.isdir(file_or_dir):
+            return [file_or_dir]
+        return [
+            os.path.join(dirpath, name)
+            for dirpath, _dirnames, names in os.walk(file_or_dir)
+            for name in names
+            if is_python_file(name)
+        ]
 
-        if len(result) != 1:
-            return result
+    def is_python_file(path: str) -> bool:
+        return os.path.splitext(path)[1].lower() == ".py"
 
-        iconfig, (config, _paths) = list(result.items())[0]
-        return {iconfig: (config, [path])}
+    unique_files: Dict[str, str] = {}
+    for file_or_dir in files_or_dirs:
+        for path in expand(file_or_dir):
+            unique_files.setdefault(os.path.abspath(path), path)
+    files = unique_files.values()
 
+    result: Dict[ImmutableConfig, Tuple[Config, List[str]]] = {}
     if _ignore_infile(cmd_config):
         default_config = _get_default_config(option_parses)[0]
-        return {default_config.to_immutable(): (default_config, files_or_dirs)}
-
-    return aggregate_subresults(files_or_dirs)
+        for path in files:
+            add_to_result(result, default_config, path)
+    else:
+        for path in filter(is_python_file, files):
+            infile_config = parse_infile_config(path, option_parses)
+            iconfig = infile_config.to_immutable(log_unknown_groups=False)
+            add_to_result(result, infile_config, path, iconfig)
+    return result
 
 
 def get_config_many(
diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..84f2936 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -46,7 +46,8 @@ def flake8_to_problem(enablers: Dict[str, str], raw: ProblemJson) -> Problem:
 
 
 def is_pylint_out_of_file_problem(path):
-    return any(segment in path.lower() for segment in ("command line", "configuration file"))
+    # problems of the command line or of a configuration file do not belong to any linted file
+    return os.path.splitext(path)[1].lower() != ".py"
 
 
 def pylint_to_problem(
@@ -258,13 +259,13 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
-    files_or_dirs = [Path(path) for path in files_or_dirs]
+    files_or_dirs = [Path(path).resolve() for path in files_or_dirs]
 
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
+        path = Path(path).resolve()
         for i, fd in enumerate(files_or_dirs):
             if fd == path or fd in path.parents:
                 return i
-- 
2.43.0


From 71aaa1ea382d63915adcbd719e36f6442186723c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 011/103] fix: do not translate messages by the configuration
 of another file

---
 edulint/config/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 60f3b08..913fd39 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -585,12 +585,11 @@ def get_config_many(
         iconfig = config.to_immutable(option_sets)
         language_file = iconfig[Option.LANGUAGE_FILE]
         if language_file is not None:
-            lang_file_translations = lang_file_results.get(
-                language_file, parse_lang_file(iconfig[Option.LANGUAGE_FILE])
-            )
+            if language_file not in lang_file_results:
+                lang_file_results[language_file] = parse_lang_file(language_file)
+            lang_file_translations = lang_file_results[language_file]
             if lang_file_translations is not None:
                 lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From 432248309e0e424ca96a878413aa7cff8c1de65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 012/103] fix: restore the output streams and report a failure
 when a linter fails

---
 edulint/linting/linting.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 84f2936..9817a69 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -172,9 +172,11 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    except Exception as e:
+        raise EduLintLinterFailedException(f"{Linter.FLAKE8} failed: {e}") from e
+    finally:
+        sys.stdout = old_stdout
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -205,8 +207,10 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stderr = old_stderr
+    except Exception as e:
+        raise EduLintLinterFailedException(f"{Linter.PYLINT} failed: {e}") from e
+    finally:
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From 5009fa0b553b769037c6d6ac760dad6023d5cfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:23 +0000
Subject: [PATCH 013/103] fix: lint the current content of files changed since
 an earlier lint run of the process

---
 edulint/linting/linting.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 9817a69..536e704 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -11,9 +11,12 @@ from edulint.options import Option, ImmutableT
 from edulint.linters import Linter
 from functools import partial
 import sys
+import sysconfig
 import json
 import os
 from pathlib import Path
+from astroid import MANAGER
+from astroid.interpreter._import import spec
 from loguru import logger
 
 
@@ -189,12 +192,30 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     )
 
 
+def forget_linted_modules() -> None:
+    # astroid keeps every parsed module for the lifetime of the process, so files changed since, or other
+    # files of the same name, would be linted with the outdated content; MANAGER.clear_cache() would do, but
+    # it forgets even builtins, which take long to build again
+    libraries = tuple(
+        os.path.join(sysconfig.get_path(name), "")
+        for name in ("stdlib", "platstdlib", "purelib", "platlib")
+    )
+    for name, module in list(MANAGER.astroid_cache.items()):
+        if module.file is not None and not module.file.startswith(libraries):
+            del MANAGER.astroid_cache[name]
+    MANAGER._mod_file_cache.clear()
+    if hasattr(spec, "_find_spec"):
+        spec._find_spec.cache_clear()
+
+
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
 
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
 
+    forget_linted_modules()
+
     output = StringIO()
     reporter = JSON2Reporter(output)
 
-- 
2.43.0


From 4ec43add85f11145074e2e6e9959aa89803cc784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:17 +0000
Subject: [PATCH 014/103] fix: exit with an error status after an unexpected
 failure

---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index b88bf1f..db21b45 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -291,7 +291,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(default=2)
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
-- 
2.43.0


From 54bf7ce407294a620f63d48b9078009b229f4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 015/103] fix: extract in-file configuration from files with a
 byte order mark or in other encodings

---
 edulint/config/config.py               | 2 +-
 edulint/linting/nonparsing_checkers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 913fd39..5c63f1c 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -238,7 +238,7 @@ def extract_args(path: str) -> List[str]:
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
 
     result: List[str] = []
-    with open(path, encoding="utf-8") as f:
+    with open(path, encoding="utf-8-sig", errors="replace") as f:
         for i, line in enumerate(f):
             line = line.strip()
 
diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 9d94afc..8421c30 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -52,7 +52,7 @@ def report_infile_config(
     results = []
     ib111_re = re.compile(r".*from\s+ib111\s+import", re.IGNORECASE)
     for file_path in to_file_paths(files_or_dirs):
-        with open(file_path, encoding="utf-8") as f:
+        with open(file_path, encoding="utf-8-sig", errors="replace") as f:
             for i, line in enumerate(f, 1):
                 for pattern in patterns:
                     match = pattern.match(line)
-- 
2.43.0


From a9a9175bdfcc829061c00ed1a707f917b8747a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 016/103] fix: ignore options with unbalanced quotes instead of
 crashing

---
 edulint/config/config.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 5c63f1c..c30a935 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -233,6 +233,14 @@ class ImmutableConfig:
 # %% components
 
 
+def split_args(raw_args: str) -> List[str]:
+    try:
+        return shlex.split(raw_args)
+    except ValueError as e:
+        logger.warning("invalid options {raw_args}: {e}", raw_args=raw_args, e=e)
+        return []
+
+
 def extract_args(path: str) -> List[str]:
     edulint_re = re.compile(r"\s*#[\s#]*edulint:\s*", re.IGNORECASE)
     ib111_re = re.compile(r".*from\s+ib111\s+import.+week_(\d+)", re.IGNORECASE)
@@ -245,7 +253,7 @@ def extract_args(path: str) -> List[str]:
             edmatch = edulint_re.match(line)
             if edmatch:
                 raw_args = line[edmatch.end() :]
-                result.extend(shlex.split(raw_args))
+                result.extend(split_args(raw_args))
 
             ibmatch = ib111_re.match(line)
             if ibmatch:
@@ -596,4 +604,4 @@ def get_config_many(
 
 
 def get_cmd_args(options: List[str]) -> List[str]:
-    return [s for arg in options for s in shlex.split(arg)]
+    return [s for arg in options for s in split_args(arg)]
-- 
2.43.0


From 6d57c822567c99846420d56b5cdc7a50036cdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 017/103] fix: report all forms of magic comments the linters
 obey

---
 edulint/linting/nonparsing_checkers.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/nonparsing_checkers.py b/edulint/linting/nonparsing_checkers.py
index 8421c30..20897eb 100644
--- a/edulint/linting/nonparsing_checkers.py
+++ b/edulint/linting/nonparsing_checkers.py
@@ -11,11 +11,10 @@ from edulint.linting.problem import Problem
 CONFIG_PATTERNS = {
     Linter.FLAKE8: [
         re.compile(r"(.*)#\s*(noqa)", re.IGNORECASE),
-        re.compile(r"(.*)#\s*(flake8: *noqa)", re.IGNORECASE),
+        re.compile(r"(.*)#\s*(flake8[:=]\s*noqa)", re.IGNORECASE),
     ],
     Linter.PYLINT: [
-        re.compile(r"(.*)#\s*(pylint:\s*disable)", re.IGNORECASE),
-        re.compile(r"(.*)#\s*(pylint:\s*enable)", re.IGNORECASE),
+        re.compile(r"(.*)#.*?\b(pylint:[^;#]*?\b(?:disable|enable|skip-file))", re.IGNORECASE),
     ],
     Linter.EDULINT: [],  # handled in config
 }
-- 
2.43.0


From 16fe414c9aaa89403399e0ada5b4768d7057df0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:39 +0000
Subject: [PATCH 018/103] fix: keep a configuration file that ignores in-file
 configuration

---
 edulint/config/config.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index c30a935..fcab033 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -583,10 +583,7 @@ def get_config_many(
         file_config, option_sets, lang_translations = config_file_result
 
         if _ignore_infile(file_config):
-            if cmd_config_path is not None:
-                config = Config.combine(file_config, cmd_config)
-            else:
-                config = cmd_config
+            config = Config.combine(file_config, cmd_config)
         else:
             config = Config.combine(file_config, combined)
 
-- 
2.43.0


From ff30ac737c8734fc64ec14cd5907331d24dbe134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 019/103] fix: exit with an error status when a file could not
 be linted for its configuration

---
 edulint/config/config.py | 30 +++++++++++++++++-------------
 edulint/edulint.py       | 15 ++++++++++++++-
 2 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index fcab033..9d5e8a7 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -505,17 +505,11 @@ def _ignore_infile(config: Config) -> bool:
 #     return config_paths, filename_mapping
 
 
-def _parse_infile_configs(
-    files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
-) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
+def is_python_file(path: str) -> bool:
+    return os.path.splitext(path)[1].lower() == ".py"
 
-    def add_to_result(result, config, path, iconfig=None):
-        iconfig = config.to_immutable() if iconfig is None else iconfig
-        if iconfig not in result:
-            result[iconfig] = (config, [path])
-        else:
-            result[iconfig][1].append(path)
 
+def expand_to_files(files_or_dirs: List[str]) -> List[str]:
     def expand(file_or_dir: str) -> List[str]:
         if not os.path.isdir(file_or_dir):
             return [file_or_dir]
@@ -526,15 +520,25 @@ def _parse_infile_configs(
             if is_python_file(name)
         ]
 
-    def is_python_file(path: str) -> bool:
-        return os.path.splitext(path)[1].lower() == ".py"
-
     unique_files: Dict[str, str] = {}
     for file_or_dir in files_or_dirs:
         for path in expand(file_or_dir):
             unique_files.setdefault(os.path.abspath(path), path)
-    files = unique_files.values()
+    return list(unique_files.values())
+
+
+def _parse_infile_configs(
+    files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
+) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
+
+    def add_to_result(result, config, path, iconfig=None):
+        iconfig = config.to_immutable() if iconfig is None else iconfig
+        if iconfig not in result:
+            result[iconfig] = (config, [path])
+        else:
+            result[iconfig][1].append(path)
 
+    files = expand_to_files(files_or_dirs)
     result: Dict[ImmutableConfig, Tuple[Config, List[str]]] = {}
     if _ignore_infile(cmd_config):
         default_config = _get_default_config(option_parses)[0]
diff --git a/edulint/edulint.py b/edulint/edulint.py
index db21b45..c7ad901 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -1,6 +1,12 @@
 from edulint.options import Option
 from edulint.option_parses import OptionParse, get_option_parses
-from edulint.config.config import get_config_many, get_cmd_args, ImmutableConfig
+from edulint.config.config import (
+    get_config_many,
+    get_cmd_args,
+    expand_to_files,
+    is_python_file,
+    ImmutableConfig,
+)
 from edulint.config.language_translations import LangTranslations
 from edulint.linting.problem import Problem
 from edulint.linting.linting import lint_many, sort, EduLintLinterFailedException
@@ -199,6 +205,13 @@ def check_and_print(args, option_parses) -> int:
 
             print(problem)
 
+    configured = {file for files, _config, _translations in file_configs for file in files}
+    if any(
+        is_python_file(file) and file not in configured
+        for file in expand_to_files(args.files_or_dirs)
+    ):
+        return 2  # the reason has already been logged
+
     return 0 if len(lint_results) == 0 else 1
 
 
-- 
2.43.0


From 70f27201d43dbe117a4d89851c9689650e10e683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:47 +0000
Subject: [PATCH 020/103] fix: skip broken links in linted directories

---
 edulint/config/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 9d5e8a7..42a7425 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -517,7 +517,7 @@ def expand_to_files(files_or_dirs: List[str]) -> List[str]:
             os.path.join(dirpath, name)
             for dirpath, _dirnames, names in os.walk(file_or_dir)
             for name in names
-            if is_python_file(name)
+            if is_python_file(name) and os.path.isfile(os.path.join(dirpath, name))
         ]
 
     unique_files: Dict[str, str] = {}
-- 
2.43.0


From 681d244ef53e68530e54580937df69d5bdbd030a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:02 +0000
Subject: [PATCH 021/103] fix: keep the implicit configuration when ignoring
 in-file configuration

---
 edulint/config/config.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 42a7425..14b9c89 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -329,9 +329,11 @@ def resolve_relative_option_path(path: str, config: Config, option: Option) -> N
     config.config.append(ProcessedArg(option, config_abspath))
 
 
-def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -> Config:
+def resolve_ignore_infile_config(
+    parsed: List[UnprocessedArg], config: Config
+) -> List[UnprocessedArg]:
     if not _ignore_infile(config):
-        return config
+        return parsed
 
     ignore_infile_val = config.get_last_value(Option.IGNORE_INFILE_CONFIG_FOR, use_default=False)
     assert ignore_infile_val is not None
@@ -342,7 +344,7 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
     else:
         parsed.append(UnprocessedArg(Option.IGNORE_INFILE_CONFIG_FOR, ignore_infile_str))
 
-    return Config("in-file", parsed, config.option_parses)
+    return parsed
 
 
 def search_for_config_in_parents(path):
@@ -356,9 +358,12 @@ def search_for_config_in_parents(path):
     return None
 
 
-def parse_infile_config(path: str, option_parses: Dict[Option, OptionParse]) -> Config:
-    extracted = extract_args(path)
+def parse_infile_config(
+    path: str, option_parses: Dict[Option, OptionParse], ignore_infile: bool = False
+) -> Config:
+    extracted = extract_args(path) if not ignore_infile else []
     parsed = parse_args(extracted, option_parses)
+    parsed = resolve_ignore_infile_config(parsed, Config("in-file", parsed, option_parses))
 
     config_from_parent = search_for_config_in_parents(path)
     if config_from_parent is not None:
@@ -369,7 +374,7 @@ def parse_infile_config(path: str, option_parses: Dict[Option, OptionParse]) ->
     resolve_relative_option_path(path, infile_config, Option.CONFIG_FILE)
     resolve_relative_option_path(path, infile_config, Option.LANGUAGE_FILE)
 
-    return resolve_ignore_infile_config(parsed, infile_config)
+    return infile_config
 
 
 def parse_config_file(
@@ -531,24 +536,19 @@ def _parse_infile_configs(
     files_or_dirs: List[str], cmd_config: Config, option_parses: Dict[Option, OptionParse]
 ) -> Dict[ImmutableConfig, Tuple[Config, List[str]]]:
 
-    def add_to_result(result, config, path, iconfig=None):
-        iconfig = config.to_immutable() if iconfig is None else iconfig
+    def add_to_result(result, config, path, iconfig):
         if iconfig not in result:
             result[iconfig] = (config, [path])
         else:
             result[iconfig][1].append(path)
 
     files = expand_to_files(files_or_dirs)
+    ignore_infile = _ignore_infile(cmd_config)
     result: Dict[ImmutableConfig, Tuple[Config, List[str]]] = {}
-    if _ignore_infile(cmd_config):
-        default_config = _get_default_config(option_parses)[0]
-        for path in files:
-            add_to_result(result, default_config, path)
-    else:
-        for path in filter(is_python_file, files):
-            infile_config = parse_infile_config(path, option_parses)
-            iconfig = infile_config.to_immutable(log_unknown_groups=False)
-            add_to_result(result, infile_config, path, iconfig)
+    for path in files if ignore_infile else filter(is_python_file, files):
+        infile_config = parse_infile_config(path, option_parses, ignore_infile)
+        iconfig = infile_config.to_immutable(log_unknown_groups=False)
+        add_to_result(result, infile_config, path, iconfig)
     return result
 
 
-- 
2.43.0


From 533797820a6751a690a3cdcd5e4c49d47e8776c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:42 +0000
Subject: [PATCH 022/103] fix: fill the extracts into translations of all
 messages

Patterns were missing for the messages of checkers in subpackages, of pylint
extensions, of pylint itself, and for several messages of flake8, or did not
match the messages with other conversions than %s, %r and %d, with a percent
sign, with a newline or reworded by a tweaker. The users were then shown the
template of the translation with its placeholders.
---
 edulint/config/language_translations.py | 34 ++++++++++++++++++-------
 edulint/config/raw_flake8_patterns.py   | 12 ++++++++-
 2 files changed, 36 insertions(+), 10 deletions(-)

diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index bd8f3d0..20460d6 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -7,8 +7,10 @@ import re
 
 from loguru import logger
 
-import pylint
+import pylint.checkers
+import pylint.extensions
 from pylint.checkers import BaseChecker
+from pylint.lint.pylinter import MSGS
 
 from edulint.option_parses import LANG_TRANSLATED_EXTRACTS_LABEL
 from edulint.config.file_config import load_toml_file
@@ -16,13 +18,25 @@ from edulint.config.raw_flake8_patterns import FLAKE8
 from edulint.linting import checkers as edulint_checkers
 
 
+CONVERSION = re.compile(r"%(?:\(\w+\))?[#0+-]*\d*(?:\.\d+)?([a-z%])", flags=re.IGNORECASE)
+
+# patterns matching also the messages reworded by tweakers
+REWORDED = {"C0104": "Disallowed (?:single-character variable )?name \"(.*)\""}
+
+
 def to_pattern(message: str):
-    return re.sub("%[rsd]", "(.*)", re.escape(message), flags=re.IGNORECASE)
+    pattern = ""
+    end = 0
+    for match in CONVERSION.finditer(message):
+        pattern += re.escape(message[end : match.start()])
+        pattern += "%" if match.group(1) == "%" else "(.*)"
+        end = match.end()
+    return pattern + re.escape(message[end:])
 
 
 def checker_classes(module):
-    for module_info in pkgutil.walk_packages(module.__path__):
-        submodule = importlib.import_module(f"{module.__name__}.{module_info.name}")
+    for module_info in pkgutil.walk_packages(module.__path__, f"{module.__name__}."):
+        submodule = importlib.import_module(module_info.name)
         for name, obj in inspect.getmembers(submodule):
             if inspect.isclass(obj) and issubclass(obj, BaseChecker) and obj != BaseChecker:
                 yield obj
@@ -37,18 +51,20 @@ def get_edulint_patterns():
 
 
 def get_pylint_patterns():
-    messages = {}
-    for checker in checker_classes(pylint.checkers):
-        messages.update({code: info[0] for code, info in checker.msgs.items()})
+    messages = {code: info[0] for code, info in MSGS.items()}
+    for module in (pylint.extensions, pylint.checkers):
+        for checker in checker_classes(module):
+            messages.update({code: info[0] for code, info in checker.msgs.items()})
 
     return messages
 
 
 def get_patterns():
-    return {
+    patterns = {
         code: to_pattern(message)
         for code, message in {**get_pylint_patterns(), **get_edulint_patterns(), **FLAKE8}.items()
     }
+    return {**patterns, **REWORDED}
 
 
 @dataclass
@@ -98,7 +114,7 @@ class Translation:
         if pattern is None or "(.*)" not in pattern:
             return self.translation
 
-        match = re.match(pattern, message, flags=re.IGNORECASE)
+        match = re.match(pattern, message, flags=re.IGNORECASE | re.DOTALL)
         if not match:
             return self.translation
         return self.translation.format(*self.translate_extracts(match.groups()))
diff --git a/edulint/config/raw_flake8_patterns.py b/edulint/config/raw_flake8_patterns.py
index 86c6ce8..2807e5d 100644
--- a/edulint/config/raw_flake8_patterns.py
+++ b/edulint/config/raw_flake8_patterns.py
@@ -6,7 +6,7 @@ FLAKE8 = {
     "F404": "future import(s) name after other statements",
     "F405": "%r may be undefined, or defined from star imports: %s",
     "F406": "'from %s import *' only allowed at module level",
-    "F407": "an undefined __future__ feature name was imported",
+    "F407": "future feature %s is not defined",
     "F501": "'...' %% ... has invalid format string: %s",
     "F502": "'...' %% ... expected mapping but got sequence",
     "F503": "'...' %% ... expected sequence but got mapping",
@@ -46,6 +46,7 @@ FLAKE8 = {
     "F823": "local variable %r %s referenced before assignment",
     "F831": "duplicate argument %r in function definition",
     "F841": "local variable %r is assigned to but never used",
+    "F842": "local variable %r is annotated but never used",
     "F901": "'raise NotImplemented' should be 'raise NotImplementedError'",
     # pycodestyle
     "E101": "indentation contains mixed spaces and tabs",
@@ -80,11 +81,14 @@ FLAKE8 = {
     "E121": "under-indented for hanging indent",
     "E129": "visually indented line",
     "E125": "continuation line",
+    "E202": "whitespace before '%s'",
+    "E203": "whitespace before '%s'",
     "E211": "whitespace before '%s'",
     "E223": "tab before operator",
     "E221": "multiple spaces before operator",
     "E224": "tab after operator",
     "E222": "multiple spaces after operator",
+    "E231": "missing whitespace after %r",
     "E225": "missing whitespace around operator",
     "E242": "tab after '%s'",
     "E241": "multiple spaces after '%s'",
@@ -104,6 +108,7 @@ FLAKE8 = {
     "E502": "the backslash is redundant between brackets",
     "W503": "line break before binary operator",
     "W504": "line break after binary operator",
+    "E711": "comparison to %s should be 'if cond is %s:'",
     "E712": "comparison to %s should be 'if%s cond:'",
     "E713": "test for membership should be 'not in'",
     "E714": "test for object identity should be 'is not'",
@@ -114,4 +119,9 @@ FLAKE8 = {
     "E741": "ambiguous variable name '%s'",
     "W605": "invalid escape sequence '\\%s'",
     "W505": "doc line too long (%d > %d characters)",
+    "E902": "%s: %s",
+    # mccabe
+    "C901": "%r is too complex (%d)",
+    # flake8
+    "E999": "%s: %s",
 }
-- 
2.43.0


From 12ad7051fd1bb65e660396d2985bf794dd49c775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 023/103] fix: inherit from a configuration whatever the
 spelling of the option

An alias or another case of config-file was silently ignored in configuration
files.
---
 edulint/config/config.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 14b9c89..6b185c2 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -381,10 +381,14 @@ def parse_config_file(
     path: str, option_parses: Dict[Option, OptionParse]
 ) -> Optional[Tuple[Config, OptionSets, LangTranslations]]:
     def parse_base_config(config_dict: Dict[str, Any]) -> Optional[Config]:
-        rec_config = config_dict.get(Option.CONFIG_FILE.to_name(), BASE_CONFIG)
-        if not isinstance(rec_config, str):
-            print_invalid_type_message(Option.CONFIG_FILE, rec_config)
-            rec_config = BASE_CONFIG
+        rec_config = BASE_CONFIG
+        for name, val in config_dict.items():
+            if Option.safe_from_name(name) != Option.CONFIG_FILE:
+                continue
+            if isinstance(val, str):
+                rec_config = val
+            else:
+                print_invalid_type_message(Option.CONFIG_FILE, val)
         rec_config_abspath = get_path_relative_to(rec_config, path)
         return parse_config_file(rec_config_abspath, option_parses)
 
-- 
2.43.0


From fda2d4730fee9358b6450f641379056ee32ef4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 024/103] fix: ignore values of unexpected types in
 configuration files

Instead of being reported and ignored, they made EduLint crash.
---
 edulint/config/config.py                |  5 ++++-
 edulint/config/language_translations.py | 20 +++++++++++++++++---
 edulint/config/option_sets.py           | 12 +++++++-----
 edulint/config/utils.py                 |  4 ++--
 4 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 6b185c2..062783f 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -422,7 +422,7 @@ def parse_config_file(
             ):  # config is handled as the first option
                 continue
 
-            if option == Option.LANGUAGE_FILE:
+            if option == Option.LANGUAGE_FILE and isinstance(val, str):
                 val = get_path_relative_to(val, path)
 
             if not isinstance(val, dict):
@@ -439,6 +439,9 @@ def parse_config_file(
                     result.append(UnprocessedArg(option, str_val))
 
     enabler_name = config_dict.get(DEFAULT_ENABLER_LABEL, Path(path).stem)
+    if not isinstance(enabler_name, str):
+        print_invalid_type_message(DEFAULT_ENABLER_LABEL, enabler_name)
+        enabler_name = Path(path).stem
     this_file_config = Config(enabler_name, result, option_parses)
     return (
         Config.combine(base_config, this_file_config),
diff --git a/edulint/config/language_translations.py b/edulint/config/language_translations.py
index 20460d6..f863771 100644
--- a/edulint/config/language_translations.py
+++ b/edulint/config/language_translations.py
@@ -117,7 +117,16 @@ class Translation:
         match = re.match(pattern, message, flags=re.IGNORECASE | re.DOTALL)
         if not match:
             return self.translation
-        return self.translation.format(*self.translate_extracts(match.groups()))
+        try:
+            return self.translation.format(*self.translate_extracts(match.groups()))
+        except (LookupError, ValueError, TypeError, AttributeError) as e:
+            logger.warning(
+                "invalid translation {translation} for {code}: {e}",
+                translation=self.translation,
+                code=code,
+                e=e,
+            )
+            return message
 
 
 LangTranslations = Dict[str, Translation]
@@ -130,7 +139,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             val=raw_lang_translations,
             type=type(raw_lang_translations),
         )
-        return None
+        return {}
 
     translated_extracts = raw_lang_translations.get(LANG_TRANSLATED_EXTRACTS_LABEL, {})
     if not isinstance(translated_extracts, dict):
@@ -139,6 +148,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             type=type(translated_extracts),
         )
         translated_extracts = {}
+    valid_extracts: Dict[str, Dict[str, Dict[str, str]]] = {}
     for id_, val in translated_extracts.items():
         if not isinstance(val, dict):
             logger.warning(
@@ -147,6 +157,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                 type=type(val),
             )
             continue
+        valid_extracts[id_] = {}
         for order, mapping in val.items():
             if not order.isdecimal():
                 logger.warning(
@@ -162,6 +173,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                     type=type(mapping),
                 )
                 continue
+            valid_extracts[id_][order] = {}
             for extract, translated in mapping.items():
                 if not isinstance(translated, str):
                     logger.warning(
@@ -171,6 +183,8 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
                         id_=id_,
                         type=type(translated),
                     )
+                    continue
+                valid_extracts[id_][order][extract] = translated
 
     lang_translations = {}
     for id_, translation in raw_lang_translations.items():
@@ -184,7 +198,7 @@ def parse_lang_translations(raw_lang_translations: Any) -> LangTranslations:
             )
             continue
 
-        lang_translations[id_] = Translation(translation, translated_extracts.get(id_, {}))
+        lang_translations[id_] = Translation(translation, valid_extracts.get(id_, {}))
 
     return lang_translations
 
diff --git a/edulint/config/option_sets.py b/edulint/config/option_sets.py
index ae33a68..5887ccc 100644
--- a/edulint/config/option_sets.py
+++ b/edulint/config/option_sets.py
@@ -1,4 +1,4 @@
-from typing import Dict, Any, Optional, List
+from typing import Dict, Any, List
 from dataclasses import dataclass, field
 from loguru import logger
 
@@ -16,14 +16,14 @@ class OptionSet:
 OptionSets = Dict[str, OptionSet]
 
 
-def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
+def parse_option_sets(raw_option_sets: Any) -> OptionSets:
     if not isinstance(raw_option_sets, dict):
         logger.warning(
             "option sets are not a dictionary but a value {val} of type {type}",
             val=raw_option_sets,
             type=type(raw_option_sets),
         )
-        return None
+        return {}
 
     option_sets = {}
     for name, to in raw_option_sets.items():
@@ -39,11 +39,13 @@ def parse_option_sets(raw_option_sets: Any) -> Optional[OptionSets]:
         option_set = OptionSet()
         for linter_str, translated in to.items():
             linter = Linter.safe_from_name(linter_str)
-            if linter is None:
+            if linter is None or linter == Linter.EDULINT:  # EduLint takes no arguments of its own
                 logger.warning(
                     "invalid value {linter} where one of {linters} is expected",
                     linter=linter_str,
-                    linters=", ".join(linter.to_name() for linter in Linter),
+                    linters=", ".join(
+                        linter.to_name() for linter in Linter if linter != Linter.EDULINT
+                    ),
                 )
                 continue
 
diff --git a/edulint/config/utils.py b/edulint/config/utils.py
index d0ca572..dd3398e 100644
--- a/edulint/config/utils.py
+++ b/edulint/config/utils.py
@@ -18,8 +18,8 @@ def config_file_val_to_str(option: Union[Option, str], val: Any) -> Optional[str
         return str(val)
     if isinstance(val, str):
         return val
-    if isinstance(val, list):
-        return ",".join(val)
+    if isinstance(val, list) and all(isinstance(v, (int, str)) for v in val):
+        return ",".join(map(str, val))
     if isinstance(val, tuple):
         key, value = val
         value = config_file_val_to_str(option, value)
-- 
2.43.0


From de1223f533bdcf64319697349c38fc152d670068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:39 +0000
Subject: [PATCH 025/103] fix: attribute problems only to the groups that are
 set

A problem enabled by one group, or by any other means, was attributed to the
last defined group with the same check, although it was not set.
---
 edulint/config/config.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 062783f..42878ae 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -188,8 +188,17 @@ class Config:
                 arg = ProcessedArg(Option.PYLINT, self._resolve_enable_disable_all(arg.val))
             ordered_args[int(arg.option)] = arg
 
+        applied_sets = set()
+        for arg in self.config:
+            if arg is not None:
+                applied_sets.add(arg.option.to_name())
+                if arg.option == Option.SET_GROUPS:
+                    applied_sets.update(arg.val)
+
         enablers_from_option_sets = {}
         for name, option_set in option_sets.items():
+            if name not in applied_sets:
+                continue
             for linter, vals in option_set.to.items():
                 for val in vals:
                     add_enabled(name, enablers_from_option_sets, linter.to_option(), val)
-- 
2.43.0


From 33c402716328ee917f9efe8c9b15af59e54a93f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 026/103] fix: survive break, continue and nonlocal out of
 place

---
 edulint/linting/analyses/cfg/visitor.py    | 9 +++++++++
 edulint/linting/analyses/variable_scope.py | 6 +++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 1a3c32c..8413e0a 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -98,6 +98,8 @@ class CFGVisitor:
 
         self._current_block = self._current_cfg.create_block()
 
+        self._control_boundaries.append((node, {}))
+
         for child in node.body:
             if functions_to_render:
                 if isinstance(child, nodes.FunctionDef):
@@ -105,6 +107,8 @@ class CFGVisitor:
             else:
                 child.accept(self)
 
+        self._control_boundaries.pop()
+
         self._current_cfg.link_or_merge(self._current_block, self._current_cfg.end)
         self._current_cfg.update_block_reachability()
 
@@ -315,6 +319,11 @@ class CFGVisitor:
         old_curr = self._current_block
         old_curr.add_statement(node)
         for boundary, exits in reversed(self._control_boundaries):
+            if isinstance(node, (nodes.Break, nodes.Continue)) and isinstance(
+                boundary, (nodes.FunctionDef, nodes.ClassDef)
+            ):
+                break  # invalid, outside of any loop of its scope
+
             if isinstance(node, nodes.Raise):
                 exc_name = _get_raise_exc(node)
 
diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 465ef7f..90ef5bc 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -258,8 +258,12 @@ class VarEventListener(BaseVisitor[None]):
         return self.default
 
     def visit_nonlocal(self, node: nodes.Nonlocal):
+        scope = node.scope()
+        if scope.parent is None:
+            return self.default  # invalid at module level
+
         for name in node.names:
-            self.stack[-1][name] = (node, node.scope().parent.scope())
+            self.stack[-1][name] = (node, scope.parent.scope())
 
         return self.default
 
-- 
2.43.0


From 92100977281869f34961581ac1064c51a6385bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 027/103] fix: analyse definitions nested in any statement

---
 edulint/linting/analyses/cfg/visitor.py     | 25 ++++++++++++++++++++-
 edulint/linting/analyses/data_dependency.py |  2 +-
 edulint/linting/analyses/variable_scope.py  |  8 +++----
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index 8413e0a..dfd2b86 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -1,10 +1,11 @@
 # adapted from https://github.com/pyta-uoft/pyta/blob/4c858623549e24a49fea7aef9c8ec7c20c836bd6/python_ta/cfg/visitor.py
 
-from typing import Any, Dict, List, Optional, Tuple, Union
+from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 from astroid import nodes
 
 from edulint.linting.analyses.cfg.graph import CFGBlock, ControlFlowGraph
+from edulint.linting.analyses.cfg.utils import get_cfg_loc
 
 
 class CFGVisitor:
@@ -59,6 +60,26 @@ class CFGVisitor:
         """By default, add the expression to the end of the current block."""
         if self._current_block is not None:
             self._current_block.add_statement(node)
+            self._visit_nested_definitions(node.get_children())
+
+    def _visit_nested_definitions(self, children: Iterable[nodes.NodeNG]) -> None:
+        """Create control flow graphs of the definitions within a statement whose own control flow
+        is not modelled. The definitions take place where the statement does."""
+        for child in children:
+            if not isinstance(child, (nodes.FunctionDef, nodes.ClassDef)):
+                self._visit_nested_definitions(child.get_children())
+                continue
+
+            previous_cfg = self._current_cfg
+            previous_block = self._current_block
+
+            child.cfg_loc = get_cfg_loc(child)
+            self._current_cfg = None
+            self._current_block = None
+            child.accept(self)
+
+            self._current_cfg = previous_cfg
+            self._current_block = previous_block
 
     def visit_module(self, module: nodes.Module) -> None:
         # Modules shouldn't be considered if user specifies functions to render
@@ -419,6 +440,8 @@ class CFGVisitor:
         self._current_cfg.link_or_merge(finally_block, end_block)
         self._current_block = end_block
 
+        self._visit_nested_definitions(node.finalbody)
+
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
         if self._current_cfg is None:
diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 6edfadf..44abc81 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -790,7 +790,7 @@ def _get_defs_at_rec(
 
         explored_functions.add(function)
         # resolved calls
-        var_events = list(function.cfg_loc.var_events.all())
+        var_events = list(function.cfg_loc.var_events.for_node(function))
         assert len(var_events) == 1 and var_events[0][0].name == function.name
         event = var_events[0][1]
         for use in event.uses:
diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 90ef5bc..4b68c4f 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -80,12 +80,10 @@ class VarEventListener(BaseVisitor[None]):
     def _add_var_event(self, name: VarName, name_node: nodes.NodeNG, action: VarEventType):
         loc = get_cfg_loc(name_node)
         # fixes a bug in astroid, where vararg AssignName has the FunctionDef as parent, not Arguments
-        if (
-            isinstance(name_node, nodes.AssignName)
-            and isinstance(loc.node, nodes.FunctionDef)
-            and name != loc.node.name
+        if isinstance(name_node, nodes.AssignName) and isinstance(
+            name_node.parent, nodes.FunctionDef
         ):
-            loc = loc.node.args.cfg_loc
+            loc = name_node.parent.args.cfg_loc
 
         name_scope = self._get_var_node_scope(name)
         # assert scope is not None or VarEventListener.may_be_unscoped(
-- 
2.43.0


From f89db5e58f34365b9dc6a3a200da1eceaea7a36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 028/103] fix: do not reason about floor division by a negative
 number

---
 edulint/linting/analyses/z3_analysis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 3bb90a9..9904e2e 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -321,7 +321,8 @@ def convert_condition_to_z3_expression(
             modulo = get_const_value(node.right)
             z3_expr = left % get_const_value(node.right) if modulo > 1 else None
         elif node.op == "//":
-            z3_expr = left / get_const_value(node.right)
+            divisor = get_const_value(node.right)
+            z3_expr = left / divisor if divisor > 0 else None  # rounds differently if negative
         elif node.op == "/":
             z3_expr = left / float(get_const_value(node.right))
         elif node.op == "+":
-- 
2.43.0


From 5c010cdbc9d59227f5b5cfecbb6efb6f04c35230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 029/103] fix: parenthesize operands of suggested conditions

---
 edulint/linting/checkers/simplifiable_if.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 55e54a4..13be0fc 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -441,6 +441,14 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             )
 
     def _get_refactored(self, *args: Union[str, nodes.NodeNG]) -> str:
+        def as_operand(node: nodes.NodeNG) -> str:
+            result = node.as_string()
+            if isinstance(node, nodes.NamedExpr) or (
+                len(args) > 1 and isinstance(node, (nodes.IfExp, nodes.Lambda, nodes.Yield))
+            ):
+                return f"({result})"
+            return result
+
         result = []
         i = 0
         while i < len(args):
@@ -448,7 +456,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             if isinstance(arg, str) and arg == "not":
                 v = args[i + 1]
                 assert isinstance(v, nodes.NodeNG)
-                refactored = v.as_string()
+                refactored = as_operand(v)
                 if isinstance(v, nodes.BoolOp):
                     result.append(f"<negated ({refactored})>")
                 else:
@@ -469,7 +477,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                     result.append(f"({next_.as_string()})")
                     i += 1
             elif isinstance(arg, nodes.NodeNG):
-                result.append(arg.as_string())
+                result.append(as_operand(arg))
                 i += 1
 
         return " ".join(result)
-- 
2.43.0


From 836efb3d8ee310817de8dd4708e3f9d6cf129610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 030/103] fix: parenthesize operands of a suggestion to drop
 'is'

---
 edulint/linting/checkers/local_defects.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 983c7ce..04ccc28 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -343,6 +343,13 @@ class Local(BaseChecker):
                 self.add_message("unreachable-else", node=node.orelse[0].orelse[0])
 
     def _check_no_is(self, node: nodes.Compare) -> None:
+        def as_operand(operand: nodes.NodeNG, negate: bool) -> str:
+            if isinstance(operand, nodes.NamedExpr) or (
+                negate and isinstance(operand, (nodes.BoolOp, nodes.IfExp))
+            ):
+                return f"({operand.as_string()})"
+            return operand.as_string()
+
         for i, (op, val) in enumerate(node.ops):
             if (
                 op in ("is", "is not")
@@ -355,7 +362,7 @@ class Local(BaseChecker):
                     "no-is-bool",
                     node=node,
                     args=(
-                        f"{'not ' if negate else ''}{prev_val.as_string()}",
+                        f"{'not ' if negate else ''}{as_operand(prev_val, negate)}",
                         f"{prev_val.as_string()} {op} {val.as_string()}",
                     ),
                 )
-- 
2.43.0


From 8f65200a93896b219fa27c770a8af4999d8cfdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:59 +0000
Subject: [PATCH 031/103] fix: parenthesize bounds of a suggested comparison

---
 edulint/linting/checkers/local_defects.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 04ccc28..eedf996 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -524,7 +524,17 @@ class Local(BaseChecker):
             return guessed_type is not None and guessed_type.has_only(Type.INT)
 
         def add_brackets_if_necessary(node: nodes.NodeNG) -> str:
-            if isinstance(node, (nodes.BinOp, nodes.UnaryOp)):
+            if isinstance(
+                node, (nodes.BinOp, nodes.UnaryOp, nodes.BoolOp, nodes.Compare, nodes.IfExp)
+            ):
+                return f"({node.as_string()})"
+
+            return node.as_string()
+
+        def as_compare_operand(node: nodes.NodeNG) -> str:
+            if isinstance(node, (nodes.BoolOp, nodes.Compare, nodes.IfExp)) or (
+                isinstance(node, nodes.UnaryOp) and node.op == "not"
+            ):
                 return f"({node.as_string()})"
 
             return node.as_string()
@@ -643,8 +653,8 @@ class Local(BaseChecker):
 
         left_compare = "<="
         right_compare = "<"
-        left = start.as_string()
-        right = stop.as_string()
+        left = as_compare_operand(start)
+        right = as_compare_operand(stop)
 
         if step_val < 0:
             left_compare, right_compare, left, right = right_compare, left_compare, right, left
-- 
2.43.0


From 0bc333cc5d6c5e21533db849d78372356e0b2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 032/103] fix: do not take one chained comparison for the
 negation of another

---
 edulint/linting/analyses/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 26d08be..690f2de 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -678,7 +678,11 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if negated_rt and ops_match(lt, rt, lambda op: op):
             return all_are_negations(to_values(lt), to_values(rt), negated_rt)
 
-        if not negated_rt and ops_match(lt, rt, lambda op: NEGATED_OP[op]):
+        if (
+            not negated_rt
+            and len(lt.ops) == 1
+            and ops_match(lt, rt, lambda op: NEGATED_OP[op])
+        ):
             return all_are_negations(to_values(lt), to_values(rt), not negated_rt)
 
         if not negated_rt and mod_two_negation(lt, rt):
-- 
2.43.0


From c0da78326773d1fa0e0bb3c9ad8869119495c031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 033/103] fix: compare residues modulo two only with zero and
 one

---
 edulint/linting/analyses/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index 690f2de..dd5d904 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -643,7 +643,6 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         if op not in ("==", "!=") or is_mod_two(left) == is_mod_two(right):
             return False
 
-        # MAYBE check if value equal to mod is 0 or 1?
         return True
 
     def mod_two_negation(lt: nodes.NodeNG, rt: nodes.NodeNG):
@@ -656,7 +655,10 @@ def is_negation(lt: nodes.NodeNG, rt: nodes.NodeNG, negated_rt: bool) -> bool:
         lt_mod, lt_val = (lt_lt, lt_rt) if is_mod_two(lt_lt) else (lt_rt, lt_lt)
         rt_mod, rt_val = (rt_lt, rt_rt) if is_mod_two(rt_lt) else (rt_rt, rt_lt)
 
-        return have_same_value(lt_mod.left, rt_mod.left) and not have_same_value(lt_val, rt_val)
+        return have_same_value(lt_mod.left, rt_mod.left) and {
+            get_const_value(lt_val),
+            get_const_value(rt_val),
+        } == {0, 1}
 
     lt, negated_rt = strip_nots(lt, negated_rt)
     rt, negated_rt = strip_nots(rt, negated_rt)
-- 
2.43.0


From e9803afef0ac76768dc5dcaf00d91af073fb702d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 034/103] fix: merge ifs regardless of exits in the ifs after
 them

---
 edulint/linting/analyses/z3_block_analysis.py | 19 ++++++-----
 edulint/linting/checkers/simplifiable_if.py   | 34 ++++++++-----------
 2 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/edulint/linting/analyses/z3_block_analysis.py b/edulint/linting/analyses/z3_block_analysis.py
index e3c68b2..20dc3a0 100644
--- a/edulint/linting/analyses/z3_block_analysis.py
+++ b/edulint/linting/analyses/z3_block_analysis.py
@@ -577,14 +577,15 @@ def convert_conditions_with_blocks_after_each_to_Z3(
     conditions: List[List[nodes.NodeNG]],
     blocks: List[List[nodes.NodeNG]],
     initialized_variables: Dict[str, z3.ArithRef],
-) -> Tuple[z3.BoolRef, List[List[z3.ExprRef]]]:
+) -> Tuple[List[z3.BoolRef], List[List[z3.ExprRef]]]:
     """
     Before using this function use `validate_and_initialize_variables_for_Z3_block_analysis` to get `initialized_variables`.
     This function converts the `conditions` with `blocks` in between them (there cannot be any cycles).
 
     Returns:
-        A tuple where the first entry is BoolRef representing relations between all the newly created variables and the second entry
-        are the `conditions` converted into Z3. (the code blocks between the conditions are taken into account - the first entry)
+        A tuple where the first entry contains for each of the `conditions` a BoolRef representing what holds when the execution
+        reaches it (relations between the variables created in the blocks before it) and the second entry are the `conditions`
+        converted into Z3.
 
     When you want to know if when some condition holds and then some block of code is executed whether another condition
     holds you can use this function - `conditions = [[first condition], [second condition]]`, `blocks = [block of code between them]`.
@@ -597,16 +598,18 @@ def convert_conditions_with_blocks_after_each_to_Z3(
     assert len(conditions) == len(blocks) + 1
 
     accumulated_relations_between_vars: List[z3.ExprRef] = []
+    relations_before_conditions: List[z3.BoolRef] = []
     converted_conditions: List[List[z3.ExprRef]] = []
 
     var_rewrite_counts = {var: 0 for var in initialized_variables}
 
     for i, conds in enumerate(conditions):
+        relations_before_conditions.append(z3.And(accumulated_relations_between_vars))
         converted_conditions.append([])
         for cond in conds:
             converted = convert_condition_to_z3_expression(cond, initialized_variables, None)[0]
             if converted is None:
-                return (z3.And(), [])
+                return ([], [])
 
             converted_conditions[i].append(converted)
 
@@ -619,14 +622,14 @@ def convert_conditions_with_blocks_after_each_to_Z3(
             )
 
             if after_block is None:
-                return (z3.And(), [])
+                return ([], [])
 
             new_vars, assertions, _ = after_block
 
             initialized_variables.update(new_vars)
             accumulated_relations_between_vars.extend(assertions)
 
-    return z3.And(accumulated_relations_between_vars), converted_conditions
+    return relations_before_conditions, converted_conditions
 
 
 def condition_implies_another_with_block_in_between(
@@ -661,10 +664,10 @@ def condition_implies_another_with_block_in_between(
         ):
             return False
 
-    relations_between_vars, conditions = convert_conditions_with_blocks_after_each_to_Z3(
+    relations_before_conditions, conditions = convert_conditions_with_blocks_after_each_to_Z3(
         [[condition1], [condition2]], [block], initialized_variables
     )
 
     return conditions and implies(
-        relations_between_vars, z3.Implies(conditions[0][0], conditions[1][0]), 3000
+        relations_before_conditions[1], z3.Implies(conditions[0][0], conditions[1][0]), 3000
     )
diff --git a/edulint/linting/checkers/simplifiable_if.py b/edulint/linting/checkers/simplifiable_if.py
index 13be0fc..2487470 100644
--- a/edulint/linting/checkers/simplifiable_if.py
+++ b/edulint/linting/checkers/simplifiable_if.py
@@ -1110,7 +1110,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
 
     def _count_of_mergeable_consecutive_ifs(
         self,
-        relations_between_vars: z3.BoolRef,
+        relations_before_ifs: List[z3.BoolRef],
         converted_conditions: List[List[z3.ExprRef]],
         start_if_index: int,
     ) -> int:
@@ -1119,7 +1119,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
 
         i = start_if_index + 1
         while i < len(converted_conditions) and self.can_merge_ifs_together(
-            merged_if_conditions, converted_conditions[i], relations_between_vars
+            merged_if_conditions, converted_conditions[i], relations_before_ifs[i]
         ):
             merged_if_conditions.extend(converted_conditions[i])
             i += 1
@@ -1128,7 +1128,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
 
     def _get_most_consecutive_ifs_suitable_for_z3_block_analysis(
         self, consecutive_ifs: List[nodes.If], start_index: int
-    ) -> Tuple[z3.BoolRef, List[List[z3.ExprRef]]]:
+    ) -> Tuple[List[z3.BoolRef], List[List[z3.ExprRef]]]:
         initialized_variables: Dict[str, z3.ArithRef] = {}
 
         i = start_index
@@ -1144,20 +1144,16 @@ class SimplifiableIf(BaseChecker):  # type: ignore
             i += 1
 
         if i <= start_index + 1:
-            return z3.BoolVal(True), []
-
-        relations_between_vars, converted_conditions = (
-            convert_conditions_with_blocks_after_each_to_Z3(
-                [
-                    self._get_list_of_test_conditions(if_node)
-                    for if_node in consecutive_ifs[start_index:i]
-                ],
-                [[if_stmt] for if_stmt in consecutive_ifs[start_index : i - 1]],
-                initialized_variables,
-            )
-        )
+            return [], []
 
-        return relations_between_vars, converted_conditions
+        return convert_conditions_with_blocks_after_each_to_Z3(
+            [
+                self._get_list_of_test_conditions(if_node)
+                for if_node in consecutive_ifs[start_index:i]
+            ],
+            [[if_stmt] for if_stmt in consecutive_ifs[start_index : i - 1]],
+            initialized_variables,
+        )
 
     def _get_most_consecutive_ifs_without_var_modification(
         self, consecutive_ifs: List[nodes.If], start_index: int
@@ -1225,7 +1221,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
         while i < len(consecutive_ifs):
             # try_merging_using_Z3_block_analysis
             if corresponding_index_Z3 >= len(most_consecutive_converted_ifs_Z3):
-                relations_between_vars, most_consecutive_converted_ifs_Z3 = (
+                relations_before_ifs, most_consecutive_converted_ifs_Z3 = (
                     self._get_most_consecutive_ifs_suitable_for_z3_block_analysis(
                         consecutive_ifs, i
                     )
@@ -1233,7 +1229,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 corresponding_index_Z3 = 0
 
             mergeable_count = self._count_of_mergeable_consecutive_ifs(
-                relations_between_vars,
+                relations_before_ifs,
                 most_consecutive_converted_ifs_Z3,
                 corresponding_index_Z3,
             )
@@ -1249,7 +1245,7 @@ class SimplifiableIf(BaseChecker):  # type: ignore
                 return
 
             mergeable_count_unmodified = self._count_of_mergeable_consecutive_ifs(
-                z3.BoolVal(True),
+                [z3.BoolVal(True)] * len(most_consecutive_converted_ifs_unmodified),
                 most_consecutive_converted_ifs_unmodified,
                 corresponding_index_unmodified,
             )
-- 
2.43.0


From 11098a1d207a6ad21d80ea7d6d2e773579c0e4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:26 +0000
Subject: [PATCH 035/103] fix: do not reason about integers becoming floats

---
 edulint/linting/analyses/z3_block_analysis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/z3_block_analysis.py b/edulint/linting/analyses/z3_block_analysis.py
index 20dc3a0..322ba3c 100644
--- a/edulint/linting/analyses/z3_block_analysis.py
+++ b/edulint/linting/analyses/z3_block_analysis.py
@@ -501,7 +501,9 @@ def _update_vars_after_assignment(
 
         converted = _convert_expression_in_assignment_to_Z3(values[i], initialized_variables)
 
-        if converted is None:
+        if converted is None or (
+            z3.is_real(converted) and z3.is_int(initialized_variables[target.name])
+        ):
             return None
 
         var = _update_relations_between_vars(
-- 
2.43.0


From 8c2f10b3e12abb082b5367b8eada60a9b67c3318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 036/103] fix: compare only integers with ranges of ord

Comparing a call of ord with a constant that is not an integer made the
checker raise TypeError and the file went unlinted.
---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index eedf996..cf2054e 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -439,7 +439,7 @@ class Local(BaseChecker):
 
         for i, (op, param) in enumerate([(None, node.left), node.ops[-1]]):
             value = get_const_value(param)
-            if value is None or not self._in_suggestable_range(value):
+            if not isinstance(value, int) or not self._in_suggestable_range(value):
                 continue
 
             if i == 0:
-- 
2.43.0


From e50a68cdad81d0a68ce9d1df18e21ce599f9cf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 037/103] fix: allow a list multiplied by a list

Such a program fails when it runs, but linting it must not.
---
 edulint/linting/checkers/local_defects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index cf2054e..afaac17 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -317,7 +317,9 @@ class Local(BaseChecker):
         ):
             return
 
-        assert not isinstance(node.left, nodes.List) or not isinstance(node.right, nodes.List)
+        if isinstance(node.left, nodes.List) and isinstance(node.right, nodes.List):
+            return
+
         lst = node.left if isinstance(node.left, nodes.List) else node.right
 
         if any(is_mutable(elem) for elem in lst.elts):
-- 
2.43.0


From adcc4bbbe3c786a7c1fc93f381631fd18a2b83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 038/103] fix: negate only numbers when looking for loop
 counters

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 495c925..278a2f3 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -128,7 +128,7 @@ class UnsuitedLoop(BaseChecker):
                         const = get_const_value(binop.right)
                     if binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
-            if const is None:
+            if not isinstance(const, (int, float)):
                 return None
 
             return const if op == "+" else -const
-- 
2.43.0


From 8a34d163b2a3b2e44e1d8898885051cd55ce6684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 039/103] fix: allow calls of abs with unusual arguments in
 conditions

---
 edulint/linting/analyses/z3_analysis.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edulint/linting/analyses/z3_analysis.py b/edulint/linting/analyses/z3_analysis.py
index 9904e2e..3572ff6 100644
--- a/edulint/linting/analyses/z3_analysis.py
+++ b/edulint/linting/analyses/z3_analysis.py
@@ -102,6 +102,9 @@ def _is_abs_function(node: nodes.NodeNG) -> bool:
         isinstance(node, nodes.Call)
         and isinstance(node.func, nodes.Name)
         and node.func.name == "abs"
+        and len(node.args) == 1
+        and not isinstance(node.args[0], nodes.Starred)
+        and not node.keywords
     )
 
 
@@ -239,6 +242,8 @@ def convert_condition_to_z3_expression(
         expr, conversion_to_bool = convert_condition_to_z3_expression(
             node.args[0], initialized_variables, node
         )
+        if expr is None:
+            return None, False
         expr, bool_conversion = _convert_to_bool_if_necessary(node, parent, z3.Abs(expr))
         return expr, bool_conversion or conversion_to_bool
 
-- 
2.43.0


From 03d0e6004b3a11254af381c0303ced7a06645f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:44 +0000
Subject: [PATCH 040/103] fix: allow complex constants in similar code

---
 edulint/linting/analyses/antiunify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 5343dfe..8dca1c0 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -505,7 +505,7 @@ def set_parents(parent: nodes.NodeNG, node: Any, recursive):
             set_parents(parent, elem, recursive)
 
     elif node is not None and not isinstance(
-        node, (str, bool, int, float, bytes, type(Ellipsis), Enum)
+        node, (str, bool, int, float, complex, bytes, type(Ellipsis), Enum)
     ):
         assert False, f"unreachable, but {type(node)}"
 
-- 
2.43.0


From b32055e2410db83f24e8dd00fcc606fb69b29942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 041/103] fix: tell leaving the loop from leaving an inner loop
 or function

A break of an inner loop after a modification does not end the iteration
over the modified structure.
---
 edulint/linting/checkers/unsuited_loop.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 278a2f3..6ac6aa4 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -343,6 +343,20 @@ class UnsuitedLoop(BaseChecker):
             node = node.next_sibling()
         return node
 
+    @staticmethod
+    def _is_left_after(loop: nodes.For, node: nodes.NodeNG) -> bool:
+        """Whether the block with the node ends by leaving the loop."""
+        last = UnsuitedLoop._get_last_block_line(node)
+        if isinstance(last, nodes.Return):
+            return last.scope() == loop.scope()
+        if not isinstance(last, nodes.Break):
+            return False
+
+        child, parent = last, last.parent
+        while not isinstance(parent, (nodes.For, nodes.While)) or child in parent.orelse:
+            child, parent = parent, parent.parent
+        return parent == loop
+
     @requires_data_dependency_analysis()
     def _check_modifying_iterable(self, node: nodes.For) -> None:
         iterated = node.iter
@@ -363,9 +377,7 @@ class UnsuitedLoop(BaseChecker):
             if (
                 event.type == VarEventType.MODIFY
                 and event.is_direct_modify()
-                and not isinstance(
-                    self._get_last_block_line(event.node), (nodes.Break, nodes.Return)
-                )
+                and not self._is_left_after(node, event.node)
             ):
                 self.add_message(
                     "modifying-iterated-structure", node=event.node.parent, args=iterated_var.name
@@ -443,7 +455,7 @@ class UnsuitedLoop(BaseChecker):
                     (e.type == VarEventType.MODIFY and e.is_direct_modify())
                     or (e.type not in (VarEventType.READ, VarEventType.MODIFY))
                 )
-                and not isinstance(self._get_last_block_line(e.node), (nodes.Break, nodes.Return))
+                and not self._is_left_after(node, e.node)
                 for e in structure_events
             )
 
-- 
2.43.0


From 1ab25493c2f0451d54307199d768c71606291557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 042/103] fix: keep while True when its first if may continue

The condition of such a loop is not the negated condition of the if.
---
 edulint/linting/checkers/unsuited_loop.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 6ac6aa4..af40ff7 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -104,7 +104,14 @@ class UnsuitedLoop(BaseChecker):
             return
 
         first = node.body[0]
-        if isinstance(first, nodes.If) and isinstance(first.body[-1], nodes.Break):
+        if (
+            isinstance(first, nodes.If)
+            and isinstance(first.body[-1], nodes.Break)
+            and not any(
+                any(stmt.nodes_of_class(nodes.Continue, (nodes.For, nodes.While)))
+                for stmt in first.body
+            )
+        ):
             self.add_message("no-while-true", node=node, args=(first.test.as_string(),))
 
     @requires_data_dependency_analysis()
-- 
2.43.0


From 472dc858451385d91a22ac5164bc82ff4ca32f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:17 +0000
Subject: [PATCH 043/103] fix: bind names of definitions within compound
 statements

A function or class defined in a branch or a loop rebinds its name as any
assignment does.
---
 edulint/linting/analyses/variable_scope.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 4b68c4f..92ab989 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -175,8 +175,17 @@ class VarEventListener(BaseVisitor[None]):
     def visit_module(self, node: nodes.Module):
         return self.visit_many(self.statements_before_definitions(node))
 
-    @in_new_scope
+    def _init_nested_definition(self, node: Union[nodes.FunctionDef, nodes.ClassDef]) -> None:
+        """Binds the name of a definition that is not directly in the body of its scope."""
+        if not isinstance(node.parent, (nodes.Module, nodes.FunctionDef, nodes.ClassDef)):
+            self._init_var_in_scope(node.name, node)
+
     def visit_functiondef(self, node: nodes.FunctionDef):
+        self._init_nested_definition(node)
+        return self._visit_function_scope(node)
+
+    @in_new_scope
+    def _visit_function_scope(self, node: nodes.FunctionDef):
         self.function_defs.append(node)
 
         # args
@@ -213,8 +222,12 @@ class VarEventListener(BaseVisitor[None]):
     def visit_asyncfunctiondef(self, node: nodes.AsyncFunctionDef):
         self.visit_functiondef(node)
 
-    @in_new_scope
     def visit_classdef(self, node: nodes.ClassDef):
+        self._init_nested_definition(node)
+        return self._visit_class_scope(node)
+
+    @in_new_scope
+    def _visit_class_scope(self, node: nodes.ClassDef):
         return self.visit_many(self.statements_before_definitions(node))
 
     @in_new_scope
-- 
2.43.0


From a94cce583aa29321a82c22831ac78f44fe0b413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 044/103] fix: analyse the control flow of finally blocks

Statements of finally blocks were not part of the control flow graph, so
what they modify was not seen.
---
 edulint/linting/analyses/cfg/visitor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index dfd2b86..cad7013 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -437,10 +437,12 @@ class CFGVisitor:
 
         self._current_cfg.link_or_merge(temp, end_body)
         self._current_cfg.multiple_link_or_merge(end_body, after_body)
-        self._current_cfg.link_or_merge(finally_block, end_block)
-        self._current_block = end_block
 
-        self._visit_nested_definitions(node.finalbody)
+        self._current_block = finally_block
+        for child in node.finalbody:
+            child.accept(self)
+        self._current_cfg.link_or_merge(self._current_block, end_block)
+        self._current_block = end_block
 
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
-- 
2.43.0


From 15f7b3ab766a596362412045e159b38ba1972e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:08 +0000
Subject: [PATCH 045/103] fix: tell a counter from its difference from a
 constant

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index af40ff7..869e01b 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -133,7 +133,7 @@ class UnsuitedLoop(BaseChecker):
                     op = binop.op
                     if binop.left.as_string() == node.as_string():
                         const = get_const_value(binop.right)
-                    if binop.right.as_string() == node.as_string():
+                    if op == "+" and binop.right.as_string() == node.as_string():
                         const = get_const_value(binop.left)
             if not isinstance(const, (int, float)):
                 return None
-- 
2.43.0


From 12ae699bc744ae995d3a159a587f951af4873eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 046/103] fix: do not turn while loops with impure limits into
 for loops

---
 edulint/linting/checkers/unsuited_loop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 869e01b..09e7f34 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -12,6 +12,7 @@ from edulint.linting.analyses.utils import (
     get_range_params,
     get_const_value,
     is_builtin,
+    is_pure_expression,
     requires_data_dependency_analysis,
     is_in_try_block,
     contains_node_of_type_or_exit,
@@ -142,7 +143,9 @@ class UnsuitedLoop(BaseChecker):
 
         def var_can_be_from_range(var: Variable, test: nodes.NodeNG) -> bool:
             events = list(get_events_for([var], [test]))
-            return len(events) == 1 and events[0].node.parent == test
+            return (
+                len(events) == 1 and events[0].node.parent == test and is_pure_expression(test)
+            )
 
         def stop_on_event_node_wrap(events):
             event_nodes = {get_cfg_loc(e.node).node for e in events}
-- 
2.43.0


From 48c28bcd8360ae36d519f7914e5b37fa13190a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:05 +0000
Subject: [PATCH 047/103] fix: find the last iteration of ranges with steps and
 changing bounds

---
 edulint/linting/checkers/unsuited_loop.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 09e7f34..b0ec3b2 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -26,6 +26,7 @@ from edulint.linting.analyses.data_dependency import (
     get_events_for,
     get_events_by_var,
     filter_events_for,
+    modified_in,
 )
 from edulint.linting.analyses.mutability import vars_from_node_may_be_modified_in
 from edulint.linting.analyses.z3_block_analysis import (
@@ -270,6 +271,7 @@ class UnsuitedLoop(BaseChecker):
         ):
             self._check_infinite_loop(node)
 
+    @requires_data_dependency_analysis()
     def _check_use_tighter_bounds(self, node: nodes.For) -> None:
         def compares_equality(node: nodes.NodeNG) -> bool:
             return isinstance(node, nodes.Compare) and len(node.ops) == 1 and node.ops[0][0] == "=="
@@ -281,6 +283,18 @@ class UnsuitedLoop(BaseChecker):
                 left == start.as_string() and right == var
             )
 
+        def ends_step_before_stop(
+            start: nodes.NodeNG, stop: nodes.NodeNG, step: nodes.NodeNG
+        ) -> bool:
+            values = [get_const_value(param) for param in (start, stop, step)]
+            if values[2] in (1, -1):
+                return True
+            return (
+                all(isinstance(value, int) for value in values)
+                and values[2] != 0
+                and (values[1] - values[0]) % values[2] == 0
+            )
+
         def is_last_before_end(node: nodes.NodeNG, stop: nodes.NodeNG, step: nodes.NodeNG) -> bool:
             const_node = get_const_value(node)
             const_stop = get_const_value(stop)
@@ -321,6 +335,8 @@ class UnsuitedLoop(BaseChecker):
             return
 
         start, stop, step = range_params
+        if modified_in(list(vars_in(node.iter).keys()), node.body):
+            return
 
         var = node.target.as_string()
         if isinstance(node.body[0], nodes.If):
@@ -334,7 +350,9 @@ class UnsuitedLoop(BaseChecker):
             ):
                 if compares_to_start(test, var, start):
                     self.add_message("use-tighter-boundaries", node=node, args=("first",))
-                elif compares_to_last_before_end(test, var, stop, step):
+                elif ends_step_before_stop(
+                    start, stop, step
+                ) and compares_to_last_before_end(test, var, stop, step):
                     self.add_message("use-tighter-boundaries", node=node, args=("last",))
             # TODO expand, tips: len(node.body) == 1, isinstance(if_.body[-1], nodes.Return), allow nodes in the middle,
             #                    allow longer bodies
-- 
2.43.0


From 6f79b556e9a098c5b34ec0a93dbf9323592a50ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:05 +0000
Subject: [PATCH 048/103] fix: let values assigned in a for loop outlive the
 loop

---
 edulint/linting/analyses/cfg/visitor.py     |  4 ++--
 edulint/linting/analyses/data_dependency.py | 13 +++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index cad7013..df0c526 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -309,13 +309,13 @@ class CFGVisitor:
         self._control_boundaries.pop()
 
         # Handle "else" branch
-        else_block = self._current_cfg.create_block(test_block)
+        else_block = self._current_cfg.create_block(test_block, edge_label="False")
         self._current_block = else_block
         for child in node.orelse:
             child.accept(self)
         end_else = self._current_block
 
-        self._current_cfg.link_or_merge(end_else, after_for_block)
+        self._current_cfg.link_or_merge(end_else, after_for_block, edge_label="False")
         self._current_block = after_for_block
 
     def visit_break(self, node: nodes.Break) -> None:
diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 44abc81..eb6e9a0 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -5,7 +5,7 @@ from queue import deque
 
 from astroid import nodes
 
-from edulint.linting.analyses.cfg.graph import CFGLoc, CFGBlock
+from edulint.linting.analyses.cfg.graph import CFGLoc, CFGBlock, CFGEdge
 from edulint.linting.analyses.cfg.utils import (
     successor_blocks_from_locs,
     predecessors_from_loc,
@@ -303,6 +303,14 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
             all_parent_kills.append(result)
 
+    def leaves_for(edge: CFGEdge) -> bool:
+        target = edge.source.locs[-1].node
+        return (
+            edge.label == "False"
+            and isinstance(target.parent, nodes.For)
+            and target == target.parent.target
+        )
+
     def fixpoint(
         original_gens_kills, computed_kills, all_parent_kills, blocks, init_occupied_blocks
     ):
@@ -324,7 +332,8 @@ def collect_reaching_definitions(  # blocks fun gen kills
                     continue
                 j = blocks[edge.target]
                 child_kills = all_parent_kills[init_occupied_blocks + j]
-                for var_i, val in updated:
+                # once there is nothing to iterate over, a for loop does not assign to its target
+                for var_i, val in parent_kills.items() if leaves_for(edge) else updated:
                     if val & child_kills[var_i] != val:
                         child_kills[var_i] |= val
                         if (j, edge.target) not in to_process:
-- 
2.43.0


From d4404afeb1f265b6266ca2500aac16636ff6e709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 049/103] fix: see calls in all statements when looking for
 uses of variables

---
 edulint/linting/analyses/data_dependency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index eb6e9a0..ab91240 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -41,8 +41,8 @@ GENERATING_EVENTS = (VarEventType.READ, VarEventType.MODIFY)
 
 
 def get_calls(node: nodes.NodeNG, toplevel=True) -> Iterator[nodes.Call]:
-    if not toplevel or isinstance(
-        node, (nodes.Expr, nodes.Assign, nodes.AugAssign, nodes.AnnAssign)
+    if not toplevel or not isinstance(
+        node, (nodes.FunctionDef, nodes.ClassDef, nodes.Arguments)
     ):
         if isinstance(node, nodes.Call):
             yield node
-- 
2.43.0


From 0245d699d0b650cd11befc09a37600816caf1ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 050/103] fix: do not take variables of comprehensions for loop
 indices

---
 edulint/linting/checkers/unsuited_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index b0ec3b2..97d68cd 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -464,7 +464,7 @@ class UnsuitedLoop(BaseChecker):
         ) -> bool:
             for event in indexing_events:
                 slice_ = event.node.parent.slice
-                if not isinstance(slice_, nodes.Name) or slice_.name != index_var.name:
+                if not isinstance(slice_, nodes.Name) or node_to_var(slice_) != index_var:
                     return False
             return True
 
-- 
2.43.0


From f48397976b1c797f3b71782ed0f8bce71666cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 051/103] fix: notice a structure indexed after it is modified
 in a loop

---
 edulint/linting/checkers/unsuited_loop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 97d68cd..899c8ec 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -483,7 +483,10 @@ class UnsuitedLoop(BaseChecker):
                     (e.type == VarEventType.MODIFY and e.is_direct_modify())
                     or (e.type not in (VarEventType.READ, VarEventType.MODIFY))
                 )
-                and not self._is_left_after(node, e.node)
+                and (
+                    not self._is_left_after(node, e.node)
+                    or any(use in structure_events for use in e.uses)
+                )
                 for e in structure_events
             )
 
-- 
2.43.0


From 87945dc699191af677f26fdfeec014ac51e29078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:52 +0000
Subject: [PATCH 052/103] fix: do not drop loop indices that are used after the
 loop

---
 edulint/linting/checkers/unsuited_loop.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 899c8ec..6b95ca6 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -16,6 +16,7 @@ from edulint.linting.analyses.utils import (
     requires_data_dependency_analysis,
     is_in_try_block,
     contains_node_of_type_or_exit,
+    node_to_event,
     node_to_var,
 )
 from edulint.linting.analyses.cfg.utils import successors_from_loc, get_cfg_loc, CFGLoc
@@ -496,6 +497,10 @@ class UnsuitedLoop(BaseChecker):
         def is_index_modified(index_events: List[VarEvent]) -> bool:
             return any(e.type != VarEventType.READ for e in index_events)
 
+        def is_index_used_after(index_events: List[VarEvent]) -> bool:
+            assigned = node_to_event(node.target)
+            return any(use not in index_events for use in assigned.uses)
+
         def is_index_used_just_for(structure: nodes.NodeNG, index_events: List[VarEvent]) -> bool:
             for event in index_events:
                 if (
@@ -550,7 +555,9 @@ class UnsuitedLoop(BaseChecker):
         ):
             return
 
-        if is_index_used_outside_subscript(events_by_var[index_var], structure):
+        if is_index_used_outside_subscript(
+            events_by_var[index_var], structure
+        ) or is_index_used_after(events_by_var[index_var]):
             self.add_message("use-enumerate", args=(index_var.name, structure_var.name), node=node)
         else:
             self.add_message("use-foreach", args=structure_var.name, node=node)
-- 
2.43.0


From 88f3d5aaacc6ea233a02e7e58d3ffe138c435c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 053/103] fix: do not iterate directly over structures with
 items deleted

---
 edulint/linting/checkers/unsuited_loop.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 6b95ca6..7dc7bb7 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -494,6 +494,9 @@ class UnsuitedLoop(BaseChecker):
         def is_structure_read(indexing_events: List[VarEvent]) -> bool:
             return any(e.node.parent.ctx == Context.Load for e in indexing_events)
 
+        def is_structure_item_deleted(indexing_events: List[VarEvent]) -> bool:
+            return any(e.node.parent.ctx == Context.Del for e in indexing_events)
+
         def is_index_modified(index_events: List[VarEvent]) -> bool:
             return any(e.type != VarEventType.READ for e in index_events)
 
@@ -547,6 +550,7 @@ class UnsuitedLoop(BaseChecker):
         indexing_events = get_indexing_events(events_by_var[structure_var])
         if (
             not is_structure_read(indexing_events)
+            or is_structure_item_deleted(indexing_events)
             or not is_structure_indexed_just_by(index_var, indexing_events)
             or not is_index_used_just_for(structure, events_by_var[index_var])
             or is_index_modified(events_by_var[index_var])
-- 
2.43.0


From 3cc1f340f87b98d185985b53709995cf20da60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 054/103] fix: do not append starred items

---
 edulint/linting/checkers/local_defects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index afaac17..7d5311b 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -133,6 +133,7 @@ class Local(BaseChecker):
             and len(node.args) == 1
             and isinstance(node.args[0], nodes.List)
             and len(node.args[0].elts) == 1
+            and not isinstance(node.args[0].elts[0], nodes.Starred)
         ):
             self.add_message(
                 "use-append",
@@ -145,7 +146,12 @@ class Local(BaseChecker):
             )
 
     def _check_augassign_extend(self, node: nodes.AugAssign) -> None:
-        if node.op == "+=" and isinstance(node.value, nodes.List) and len(node.value.elts) == 1:
+        if (
+            node.op == "+="
+            and isinstance(node.value, nodes.List)
+            and len(node.value.elts) == 1
+            and not isinstance(node.value.elts[0], nodes.Starred)
+        ):
             self.add_message(
                 "use-append",
                 node=node,
-- 
2.43.0


From 28b3155f73fa038e269d1c70a1ae1a6836b2d569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 055/103] fix: do not augment chained assignments

---
 edulint/linting/checkers/local_defects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 7d5311b..057f823 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -291,6 +291,8 @@ class Local(BaseChecker):
         bin_op = node.value
 
         if isinstance(node, nodes.Assign):
+            if len(node.targets) > 1:
+                return
             target = node.targets[0].as_string()
         elif isinstance(node, nodes.AnnAssign):
             target = node.target.as_string()
-- 
2.43.0


From ab675076d922a59792121af4c97b6a19d0f90a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 056/103] fix: augment only assignments that evaluate their
 target without side effects

---
 edulint/linting/checkers/local_defects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 057f823..66d06bd 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -303,11 +303,12 @@ class Local(BaseChecker):
         if result_type is None or result_type.any_mutable():
             return
 
-        if target == bin_op.left.as_string():
+        if target == bin_op.left.as_string() and is_pure_expression(bin_op.left):
             add_message(target, bin_op.right)
         elif (
             bin_op.op in "+*|&"
             and target == bin_op.right.as_string()
+            and is_pure_expression(bin_op.right)
             and not result_type.any_container()
         ):
             add_message(target, bin_op.left)
-- 
2.43.0


From 1de7376caf92eaad69ac073ffff02d89ff65ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 057/103] fix: do not call arithmetic with impure operands
 redundant

---
 edulint/linting/checkers/local_defects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 66d06bd..3f27da6 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -269,8 +269,10 @@ class Local(BaseChecker):
                 and (
                     isinstance(node, nodes.BinOp)
                     and node.left.as_string() == node.right.as_string()
+                    and is_pure_expression(node.right)
                     or isinstance(node, nodes.AugAssign)
                     and node.target.as_string() == node.value.as_string()
+                    and is_pure_expression(node.value)
                 )
             )
             or (op == "**" and right in (0, 1))
-- 
2.43.0


From 6ac2d198b791399e965ba0cfeaf5cdec79bc0312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 058/103] fix: tell operands apart when looking for repeated
 operations

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 3f27da6..f089423 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -222,7 +222,7 @@ class Local(BaseChecker):
                 return None
 
             count_rt, _ = rt
-            return count_lt + count_rt, name
+            return count_lt + count_rt, name_lt
 
         if (
             name is None and type(node) in (nodes.Name, nodes.Attribute, nodes.Subscript)
-- 
2.43.0


From 1392e617df0ed2c6da6957adfe58b6eae81e9b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 059/103] fix: do not merge impure operands of repeated
 operations

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index f089423..7b45805 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -233,7 +233,7 @@ class Local(BaseChecker):
     def _check_repeated_operation(self, node: nodes.BinOp) -> None:
         if node.op in ("+", "*"):
             result = self._check_repeated_operation_rec(node, node.op)
-            if result is None:
+            if result is None or not is_pure_expression(node):
                 return
 
             # DANGER: on some structures, + may be available but not *
-- 
2.43.0


From 3f7240b2b9be07f5af78471d463419d4e888b905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 060/103] fix: keep the value when suggesting letters next to
 minus

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 7b45805..c80a7f3 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -422,7 +422,7 @@ class Local(BaseChecker):
             else:
                 continue
 
-            if (node.op == "-" and const_param == node.right and suggestion.endswith("+ 1")) or (
+            if (node.op == "-" and const_param == node.right and suggestion.endswith(" 1")) or (
                 node.op == "+" and const_param == node.left and suggestion.endswith("- 1")
             ):
                 add_message(const_param, value, f"({suggestion})")
-- 
2.43.0


From 0ef276dd1d9966e46301f08b92321b5a2aa13b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:13 +0000
Subject: [PATCH 061/103] fix: quote suggested letters

---
 edulint/linting/checkers/local_defects.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index c80a7f3..0a72e80 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -414,11 +414,11 @@ class Local(BaseChecker):
                 continue
 
             if self._is_preffered(value + 1):
-                suggestion = f"ord('{chr(value + 1)}') - 1"
+                suggestion = f"ord({chr(value + 1)!r}) - 1"
             elif self._is_preffered(value - 1):
-                suggestion = f"ord('{chr(value - 1)}') + 1"
+                suggestion = f"ord({chr(value - 1)!r}) + 1"
             elif not isinstance(ord_param, nodes.BinOp) or self._is_preffered(value):
-                suggestion = f"ord('{chr(value)}')"
+                suggestion = f"ord({chr(value)!r})"
             else:
                 continue
 
@@ -458,26 +458,26 @@ class Local(BaseChecker):
             if i == 0:
                 op, other = node.ops[0]
                 if self._is_preffered(value + 1) and op in ("<", ">="):
-                    add_message(param, value, f"'{chr(value + 1)}' {change(op)}")
+                    add_message(param, value, f"{chr(value + 1)!r} {change(op)}")
                 elif self._is_preffered(value - 1) and op in (">", "<="):
-                    add_message(param, value, f"'{chr(value - 1)}' {change(op)}")
+                    add_message(param, value, f"{chr(value - 1)!r} {change(op)}")
                 elif (
                     not contains_ord[1]
                     or not isinstance(other, nodes.BinOp)
                     or self._is_preffered(value)
                 ):
-                    add_message(param, value, f"'{chr(value)}' {op}")
+                    add_message(param, value, f"{chr(value)!r} {op}")
             else:
                 if self._is_preffered(value + 1) and op in (">", "<="):
-                    add_message(param, value, f"{change(op)} '{chr(value + 1)}'")
+                    add_message(param, value, f"{change(op)} {chr(value + 1)!r}")
                 elif self._is_preffered(value - 1) and op in ("<", ">="):
-                    add_message(param, value, f"{change(op)} '{chr(value - 1)}'")
+                    add_message(param, value, f"{change(op)} {chr(value - 1)!r}")
                 elif (
                     not contains_ord[-2]
                     or not isinstance(all_ops[-2][1], nodes.BinOp)
                     or self._is_preffered(value)
                 ):
-                    add_message(param, value, f"{op} '{chr(value)}'")
+                    add_message(param, value, f"{op} {chr(value)!r}")
 
     def _check_use_early_return(self, node: nodes.If):
         def ends_block(node: nodes.NodeNG) -> bool:
-- 
2.43.0


From c7264e8c87f2dc25c644b34b94e47a6311378ef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 062/103] fix: keep parentheses around what is appended to

---
 edulint/linting/checkers/local_defects.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 0a72e80..0c45c6f 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -127,6 +127,14 @@ class Local(BaseChecker):
     }
 
     def _check_extend(self, node: nodes.Call) -> None:
+        def as_object(node: nodes.NodeNG) -> str:
+            if isinstance(
+                node,
+                (nodes.BinOp, nodes.BoolOp, nodes.Compare, nodes.IfExp, nodes.NamedExpr),
+            ):
+                return f"({node.as_string()})"
+            return node.as_string()
+
         if (
             isinstance(node.func, nodes.Attribute)
             and node.func.attrname == "extend"
@@ -139,7 +147,7 @@ class Local(BaseChecker):
                 "use-append",
                 node=node,
                 args=(
-                    node.func.expr.as_string(),
+                    as_object(node.func.expr),
                     node.args[0].elts[0].as_string(),
                     node.as_string(),
                 ),
-- 
2.43.0


From 3be03e404f9a4fd1bbf43a89f18eb29321f6cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 063/103] fix: do not append to a copied slice

---
 edulint/linting/checkers/local_defects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 0c45c6f..8cd8300 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -159,6 +159,10 @@ class Local(BaseChecker):
             and isinstance(node.value, nodes.List)
             and len(node.value.elts) == 1
             and not isinstance(node.value.elts[0], nodes.Starred)
+            and not (
+                isinstance(node.target, nodes.Subscript)
+                and isinstance(node.target.slice, nodes.Slice)
+            )
         ):
             self.add_message(
                 "use-append",
-- 
2.43.0


From b829f898c5c76fb3455605fca061675375605795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 064/103] fix: do not augment assignments of variables changed
 by a called function

---
 edulint/linting/checkers/local_defects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 8cd8300..469a503 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -14,6 +14,7 @@ from edulint.linting.analyses.utils import (
     is_parents_elif,
     get_statements_count,
     is_negation,
+    is_builtin,
     is_pure_expression,
     requires_data_dependency_analysis,
 )
@@ -323,6 +324,7 @@ class Local(BaseChecker):
             bin_op.op in "+*|&"
             and target == bin_op.right.as_string()
             and is_pure_expression(bin_op.right)
+            and all(is_builtin(call.func) for call in bin_op.left.nodes_of_class(nodes.Call))
             and not result_type.any_container()
         ):
             add_message(target, bin_op.left)
-- 
2.43.0


From fb4cdca05888a61f918c5e62128cbb8a0939c305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 065/103] fix: do not take 1, 1.0 and True for identical code

---
 edulint/linting/analyses/antiunify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 8dca1c0..67a0a67 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -106,7 +106,8 @@ class Antiunify:
         return avar, [avar]
 
     def _aunify_consts(self, vals: List[Any], stop_on: Callable[[List[AunifyVar]], bool]):
-        if all(v == vals[0] for v in vals):
+        # 1, 1.0 and True are equal, and so are 0.0 and -0.0
+        if all(type(v) is type(vals[0]) and repr(v) == repr(vals[0]) for v in vals):
             return vals[0], []
 
         return self._new_aunifier(vals, stop_on)
-- 
2.43.0


From 30a582855addb4c81bb4b2427214f23431768671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 066/103] fix: compare all parts of similar statements

---
 edulint/linting/analyses/antiunify.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 67a0a67..6d55ce6 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -65,12 +65,16 @@ ASTROID_EXTRA_FIELDS = {
     nodes.UnaryOp: ("op",),
     nodes.AugAssign: ("op",),
     nodes.FunctionDef: ("name",),
+    nodes.ClassDef: ("name",),
+    nodes.Comprehension: ("is_async",),
+    nodes.FormattedValue: ("conversion",),
     nodes.Const: ("value",),
     nodes.Nonlocal: ("names",),
     nodes.Global: ("names",),
     nodes.ImportFrom: (
         "modname",
         "names",
+        "level",
     ),
     nodes.Import: ("names",),
     nodes.Keyword: ("arg",),
@@ -142,13 +146,22 @@ class Antiunify:
         if not any(isinstance(n, nodes.NodeNG) for n in to_aunify):
             return self._aunify_consts(to_aunify, stop_on)
 
-        if not all(isinstance(n, type(to_aunify[0])) for n in to_aunify):
+        if not all(type(n) is type(to_aunify[0]) for n in to_aunify):
             return self._new_aunifier(
                 to_aunify, stop_on, extra="-".join(type(n).__name__ for n in to_aunify)
             )
 
         # astroid.nodes of same type
         some = to_aunify[0]
+
+        # unlike other keywords, metaclass is not a child of the class
+        if isinstance(some, nodes.ClassDef) and any(
+            (n._metaclass and n._metaclass.as_string())
+            != (some._metaclass and some._metaclass.as_string())
+            for n in to_aunify
+        ):
+            raise DisallowedAntiunification()
+
         all_fields = get_all_fields(some)
 
         return self._aunify_by_attrs(to_aunify, all_fields, stop_on)
-- 
2.43.0


From 3a21785c59189121489ec453a6fc868dd3bb9626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:05 +0000
Subject: [PATCH 067/103] fix: do not rename variables that keep their name
 elsewhere when looking for identical code

---
 edulint/linting/analyses/antiunify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edulint/linting/analyses/antiunify.py b/edulint/linting/analyses/antiunify.py
index 6d55ce6..785a0ad 100644
--- a/edulint/linting/analyses/antiunify.py
+++ b/edulint/linting/analyses/antiunify.py
@@ -397,6 +397,12 @@ def get_merge_candidates(
 
         if not require_name_consistency and all(s == subs[0] for s in subs):
             forced_groups.setdefault(subs, []).append(avar)
+            # a variable that keeps its name cannot be a renamed one as well
+            for i, v in enumerate(subs):
+                canon = value_owner.get((i, v), subs)
+                if canon != subs:
+                    groups.pop(canon, None)
+                value_owner[(i, v)] = subs
             continue
 
         if not isinstance(avar.parent, (nodes.Name, nodes.AssignName)):
-- 
2.43.0


From 5e870493e2f38969c0bdd252d565fcfe7957e5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 068/103] fix: do not move code that changes the condition
 before the if

---
 .../checkers/duplication/duplicate_if.py      | 31 ++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_if.py b/edulint/linting/checkers/duplication/duplicate_if.py
index d2d91c5..74f1e91 100644
--- a/edulint/linting/checkers/duplication/duplicate_if.py
+++ b/edulint/linting/checkers/duplication/duplicate_if.py
@@ -14,7 +14,7 @@ from edulint.linting.analyses.antiunify import (
     contains_avar,
 )
 from edulint.linting.analyses.var_events import VarEventType
-from edulint.linting.analyses.data_dependency import vars_in, is_changed_between
+from edulint.linting.analyses.data_dependency import vars_in, is_changed_between, modified_in
 from edulint.linting.analyses.cfg.utils import get_cfg_loc
 from edulint.linting.analyses.utils import (
     is_parents_elif,
@@ -23,6 +23,7 @@ from edulint.linting.analyses.utils import (
     get_token_count,
     has_else_block,
     is_negation,
+    is_builtin,
     are_identical,
     new_node,
 )
@@ -192,6 +193,24 @@ def test_variables_change(tests, core, avars):
 #     return middle
 
 
+def may_change_tests(ifs: List[nodes.If], stmt: nodes.NodeNG) -> bool:
+    vars = [
+        var for if_ in ifs for var in vars_in([if_.test], {VarEventType.READ}).keys()
+    ]
+    if modified_in(vars, [stmt]):
+        return True
+
+    # called functions may change the variables as well
+    shared_names = {
+        name
+        for shared in ifs[0].root().nodes_of_class((nodes.Global, nodes.Nonlocal))
+        for name in shared.names
+    }
+    return any(var.name in shared_names for var in vars) and any(
+        not is_builtin(call.func) for call in stmt.nodes_of_class(nodes.Call)
+    )
+
+
 ### identical code before/after branch
 
 
@@ -226,6 +245,12 @@ def identical_before_after_branch(
             args=(lines_difference, "before" if forward else "after"),
         )
 
+    def get_movable_count(stmts: List[nodes.NodeNG]) -> int:
+        for i, stmt in enumerate(stmts):
+            if may_change_tests(ifs, stmt):
+                return i
+        return len(stmts)
+
     any_message = False
     same_prefix_len = get_stmts_difference(branches, forward=True)
     if same_prefix_len >= 1:
@@ -233,6 +258,10 @@ def identical_before_after_branch(
             checker.add_message("identical-if-branches", node=ifs[0])
             return True
 
+        # what changes the value of a condition has to stay after the condition
+        same_prefix_len = get_movable_count(branches[0][:same_prefix_len])
+
+    if same_prefix_len >= 1:
         add_message(branches, same_prefix_len, ifs[0], forward=True)
         if any(same_prefix_len == len(b) for b in branches):
             return True
-- 
2.43.0


From 6edfe454d27cd3be56854ff739cffe164330053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:52 +0000
Subject: [PATCH 069/103] fix: join only consecutive ifs whose code would not
 be executed repeatedly

---
 .../checkers/duplication/duplicate_if.py      | 72 +++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/edulint/linting/checkers/duplication/duplicate_if.py b/edulint/linting/checkers/duplication/duplicate_if.py
index 74f1e91..ba5281d 100644
--- a/edulint/linting/checkers/duplication/duplicate_if.py
+++ b/edulint/linting/checkers/duplication/duplicate_if.py
@@ -24,7 +24,10 @@ from edulint.linting.analyses.utils import (
     has_else_block,
     is_negation,
     is_builtin,
+    is_exit_call,
+    is_pure_expression,
     are_identical,
+    get_const_value,
     new_node,
 )
 from edulint.linting.checkers.duplication.utils import (
@@ -283,6 +286,72 @@ def identical_before_after_branch(
 ### identical sequential ifs
 
 
+def ends_flow(body: List[nodes.NodeNG]) -> bool:
+    last = body[-1]
+    if isinstance(last, nodes.If):
+        return len(last.orelse) > 0 and ends_flow(last.body) and ends_flow(last.orelse)
+    return isinstance(last, (nodes.Return, nodes.Raise, nodes.Break, nodes.Continue)) or (
+        isinstance(last, nodes.Expr) and is_exit_call(last.value)
+    )
+
+
+def is_idempotent(body: List[nodes.NodeNG]) -> bool:
+    targets = set()
+    for stmt in body:
+        if isinstance(stmt, nodes.Pass):
+            continue
+        if (
+            not isinstance(stmt, nodes.Assign)
+            or not all(isinstance(target, nodes.AssignName) for target in stmt.targets)
+            or not is_pure_expression(stmt.value)
+        ):
+            return False
+        targets.update(target.name for target in stmt.targets)
+    return not any(
+        name.name in targets for stmt in body for name in stmt.nodes_of_class(nodes.Name)
+    )
+
+
+def are_exclusive(test1: nodes.NodeNG, test2: nodes.NodeNG) -> bool:
+    if is_negation(test1, test2, negated_rt=False):
+        return True
+
+    if not all(
+        isinstance(test, nodes.Compare) and len(test.ops) == 1 and test.ops[0][0] == "=="
+        for test in (test1, test2)
+    ):
+        return False
+    value1 = get_const_value(test1.ops[0][1])
+    value2 = get_const_value(test2.ops[0][1])
+    return (
+        are_identical(test1.left, test2.left)
+        and value1 is not None
+        and value2 is not None
+        and value1 != value2
+    )
+
+
+def can_be_joined(ifs: List[nodes.If]) -> bool:
+    """
+    returns True iff the (identical) body of consecutive ifs would be executed the same if it was
+    executed at most once
+    """
+    body = ifs[0].body
+    if ends_flow(body):
+        return True
+
+    if any(len(if_.orelse) > 0 for if_ in ifs) or any(
+        may_change_tests(ifs, stmt) for stmt in body
+    ):
+        return False
+
+    return is_idempotent(body) or all(
+        are_exclusive(ifs[i].test, ifs[j].test) and is_pure_expression(ifs[i].test)
+        for i in range(len(ifs))
+        for j in range(i + 1, len(ifs))
+    )
+
+
 def identical_seq_ifs(
     checker, ends_with_else: bool, ifs: List[nodes.If], seq_ifs: List[nodes.If]
 ) -> bool:
@@ -294,6 +363,9 @@ def identical_seq_ifs(
             if seq_ifs[start].parent not in seq_ifs[i].node_ancestors():
                 return i - start
 
+            if not is_parents_elif(seq_ifs[i]) and not can_be_joined(seq_ifs[start : i + 1]):
+                return i - start
+
             compared = seq_ifs[i].body
             if len(reference) != len(compared):
                 return i - start
-- 
2.43.0


From 906c94a78e52a9404e569369b2ca105bf9575d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 070/103] fix: do not suggest a container for ifs comparing to
 a value repeatedly

---
 edulint/linting/checkers/duplication/duplicate_if.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edulint/linting/checkers/duplication/duplicate_if.py b/edulint/linting/checkers/duplication/duplicate_if.py
index ba5281d..4ffad7a 100644
--- a/edulint/linting/checkers/duplication/duplicate_if.py
+++ b/edulint/linting/checkers/duplication/duplicate_if.py
@@ -894,6 +894,14 @@ def get_fixed_by_container(checker, seq_ifs, has_else_block):
                 if conjunction[i][0].name != test_disjunctions[0][0][i][0].name:
                     return False
 
+    keys = [
+        tuple(const.value for _name, const in conjunction)
+        for disjunction in test_disjunctions
+        for conjunction in disjunction
+    ]
+    if len(keys) != len(set(keys)):
+        return False
+
     if_bodies = [if_.body for if_ in ifs] + ([ifs[-1].orelse] if has_else_block else [])
     result = antiunify(
         if_bodies,
-- 
2.43.0


From 8c4db986538c61953599c5309bf5d3e67935750f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:44 +0000
Subject: [PATCH 071/103] fix: do not suggest a container for a part of
 consecutive ifs with other branches

---
 edulint/linting/checkers/duplication/duplicate_if.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edulint/linting/checkers/duplication/duplicate_if.py b/edulint/linting/checkers/duplication/duplicate_if.py
index 4ffad7a..2a66807 100644
--- a/edulint/linting/checkers/duplication/duplicate_if.py
+++ b/edulint/linting/checkers/duplication/duplicate_if.py
@@ -883,6 +883,11 @@ def get_fixed_by_container(checker, seq_ifs, has_else_block):
         start_index != 0 and end_index != len(test_disjunctions) - 1
     ):
         return False
+    # the remaining branches depend on only some of the compared values
+    if end_index - start_index + 1 != len(seq_ifs) and not all(
+        is_parents_elif(if_) for if_ in seq_ifs[1:]
+    ):
+        return False
     test_disjunctions = test_disjunctions[start_index : end_index + 1]
     ifs = seq_ifs[start_index : end_index + 1]
 
-- 
2.43.0


From 55c1c3881608b09f098a781327d0c07e3f0ad5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 072/103] fix: count repetitions of decreasing sequences
 correctly

---
 edulint/linting/checkers/duplication/duplicate_sequence.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index 8202ec3..742de60 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -281,8 +281,8 @@ def consolidate_ranges(ranges):
             use = new_node(nodes.BinOp, op="+", left=use, right=new_node(nodes.Const, value=start))
         uses.append(use)
 
-    start, stop, step = 0, (stop - start - 1) // step + 1, 1
-    return [to_range_node((start, stop, step))], uses
+    count = len(range(start, stop, step))
+    return [to_range_node((0, count, 1))], uses
 
 
 def get_nice_iters(avars, to_aunify):
-- 
2.43.0


From ab17c7f64bf2f88eb85edfd93a31dde0849e8f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 073/103] fix: consider only values that form a sequence as
 such

---
 .../checkers/duplication/duplicate_sequence.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index 742de60..04b4b15 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -193,7 +193,16 @@ def iter_use_from_partition(partition):
     ):
         return None
 
-    if const_value is not None:
+    if const_value is not None and (
+        (exclusive_value is not None and binop_core.op == "*" and const_value.value == 0)
+        or (
+            exclusive_value is None
+            and (
+                binop_core.op == "+"
+                or (binop_core.op == "-" and core_as_string(binop_core.left) == const_value.as_string())
+            )
+        )
+    ):
         const_nums = [0]
     else:
         const_nums = []
@@ -204,7 +213,7 @@ def iter_use_from_partition(partition):
         ):
             exclusive_nums = [0]
         elif binop_core.op == "*" or (
-            binop_core.op in ("/", "//", "%")
+            binop_core.op in ("/", "//")
             and exclusive_value.as_string() == binop_core.left.as_string()
         ):
             exclusive_nums = [1]
@@ -262,6 +271,8 @@ def to_iter_use(avar):
     if result is None:
         return None
     range_nums, use = result
+    if len(range_nums) != len(sequence):  # some value is not expressible
+        return None
     range_args = to_range_args(range_nums)
     if range_args is None:
         return None
-- 
2.43.0


From 5d60d58483d5063dfec20f7fb7785404e9d61583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:31 +0000
Subject: [PATCH 074/103] fix: do not suggest a loop for code controlling an
 outer loop

---
 .../checkers/duplication/duplicate_sequence.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index 04b4b15..d19eacc 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -395,6 +395,20 @@ def get_fixed_by_merging_with_parent_loop(to_aunify, core, avars):
     )
 
 
+def controls_outer_loop(ns: List[nodes.NodeNG]) -> bool:
+    for n in ns:
+        for control in n.nodes_of_class((nodes.Break, nodes.Continue)):
+            current = control
+            while current is not n and not (
+                isinstance(current.parent, (nodes.For, nodes.While))
+                and current not in current.parent.orelse
+            ):
+                current = current.parent
+            if current is n:
+                return True
+    return False
+
+
 def get_fixed_by_loop(to_aunify, core, avars):
     result = get_nice_iters(avars, to_aunify)
     if result is None:
@@ -430,6 +444,10 @@ def similar_to_loop(self, to_aunify: List[List[nodes.NodeNG]]) -> bool:
     if max(len(to_aunify), len(to_aunify[0])) <= 2:  # TODO parametrize?
         return False
 
+    # break and continue would control the new loop
+    if controls_outer_loop([n for ns in to_aunify for n in ns]):
+        return False
+
     result = antiunify(
         to_aunify,
         stop_on=lambda avars: length_mismatch(avars)
-- 
2.43.0


From 169470a71c286c51857ad000eb7c64385991d4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 075/103] fix: do not suggest iterating over values that the
 loop would modify

---
 .../checkers/duplication/duplicate_sequence.py    | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index d19eacc..6efc9ca 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -8,7 +8,11 @@ from edulint.linting.analyses.antiunify import (
     new_node,
     cprint,  # noqa: F401
 )
-from edulint.linting.analyses.data_dependency import vars_in
+from edulint.linting.analyses.data_dependency import (
+    MODIFYING_EVENTS,
+    vars_in,
+    get_events_in,
+)
 from edulint.linting.analyses.utils import (
     get_statements_count,
     get_token_count,
@@ -417,6 +421,15 @@ def get_fixed_by_loop(to_aunify, core, avars):
     assert len(iters) == 1
 
     iterable = get_iter(iters)
+
+    # the collection is evaluated only once, before the loop
+    names = {name.name for name in iterable.nodes_of_class(nodes.Name)}
+    if isinstance(iterable, nodes.List) and any(
+        event.var.name in names
+        for event in get_events_in([n for ns in to_aunify for n in ns], MODIFYING_EVENTS)
+    ):
+        return None
+
     for_ = new_node(nodes.For, iter=iterable, target=get_target(avars, iters), body=core)
 
     symbol = (
-- 
2.43.0


From ed0ae3003351cb0fd7ca2ac6e1b9adf759ebf021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:48 +0000
Subject: [PATCH 076/103] fix: suggest a correct number of repetitions of a
 loop with a repetitive body

---
 .../checkers/duplication/duplicate_sequence.py   | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/checkers/duplication/duplicate_sequence.py b/edulint/linting/checkers/duplication/duplicate_sequence.py
index 6efc9ca..6334c79 100644
--- a/edulint/linting/checkers/duplication/duplicate_sequence.py
+++ b/edulint/linting/checkers/duplication/duplicate_sequence.py
@@ -12,6 +12,7 @@ from edulint.linting.analyses.data_dependency import (
     MODIFYING_EVENTS,
     vars_in,
     get_events_in,
+    get_vars_used_after,
 )
 from edulint.linting.analyses.utils import (
     get_statements_count,
@@ -376,20 +377,23 @@ def get_fixed_by_merging_with_parent_loop(to_aunify, core, avars):
     if get_const_value(start) != 0 or get_const_value(step) != 1:
         return None
 
-    used_vars = vars_in([n for ns in to_aunify for n in ns])
+    used_vars = {
+        var.name
+        for vars in (vars_in([n for ns in to_aunify for n in ns]), get_vars_used_after([parent]))
+        for var in vars
+    }
     target = parent.target
     # TODO can be weakened -- use div to get i's original value
-    if (
-        not isinstance(target, nodes.AssignName)
-        or (target.name, parent.scope()) in used_vars.keys()
-    ):
+    if not isinstance(target, nodes.AssignName) or target.name in used_vars:
         return None
 
     const_stop = get_const_value(stop)
     new_iter = (
         f"{const_stop * len(to_aunify)}"
         if isinstance(stop, nodes.Const)
-        else f"{stop.as_string()} * {len(to_aunify)}"
+        else new_node(
+            nodes.BinOp, op="*", left=stop, right=new_node(nodes.Const, value=len(to_aunify))
+        ).as_string()
     )
     return Fixed(
         "similar-block-to-loop-merge",
-- 
2.43.0


From bccd17bd13eb4dcc48eeac195321f2b8ae06b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 077/103] fix: suggest elif also when the branches are indented
 differently

---
 edulint/linting/checkers/local_defects.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 469a503..3efdbd8 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -193,11 +193,8 @@ class Local(BaseChecker):
             self.add_message("no-loop-else", node=nodes[0].parent, args=(parent_name))
 
     def _check_else_if(self, node: nodes.If) -> None:
-        if node.has_elif_block():
-            first_body = node.body[0]
-            first_orelse = node.orelse[0]
-            if first_body.col_offset == first_orelse.col_offset:
-                self.add_message("use-elif", node=node.orelse[0])
+        if node.has_elif_block() and node.orelse[0].col_offset != node.col_offset:
+            self.add_message("use-elif", node=node.orelse[0])
 
     def _check_iteration_count(self, node: nodes.For) -> None:
         range_params = get_range_params(node.iter)
-- 
2.43.0


From 0eb334d799532d900508fc1669f5251c0e7b0785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 078/103] fix: report asynchronous functions that are too long

---
 edulint/linting/checkers/basic_checker.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edulint/linting/checkers/basic_checker.py b/edulint/linting/checkers/basic_checker.py
index ab7174b..428585b 100644
--- a/edulint/linting/checkers/basic_checker.py
+++ b/edulint/linting/checkers/basic_checker.py
@@ -88,6 +88,8 @@ class LongCodeChecker(BaseChecker):
         if count > MAX_FUNC:
             self.add_message("long-function", node=node, args=(node.name, count, MAX_FUNC))
 
+    visit_asyncfunctiondef = visit_functiondef
+
 
 def register(linter: "PyLinter") -> None:
     """This required method auto registers the checker during initialization.
-- 
2.43.0


From c51ef6c096abc1b2ec3f2dbb6098b16a45fcd2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 079/103] fix: count statements in cases of match statements

---
 edulint/linting/analyses/utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edulint/linting/analyses/utils.py b/edulint/linting/analyses/utils.py
index dd5d904..813724a 100644
--- a/edulint/linting/analyses/utils.py
+++ b/edulint/linting/analyses/utils.py
@@ -560,6 +560,9 @@ def get_statements_count(
     if isinstance(node, nodes.With):
         return 1 + count(node.body)
 
+    if isinstance(node, nodes.Match):
+        return 1 + sum(1 + count(case.body) for case in node.cases)
+
     return 1
 
 
-- 
2.43.0


From ec4f5040d42d14d484c514761c95adc1db76ac0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 080/103] fix: report only targets of loops, not expressions
 within them, as invalid targets

---
 .../linting/checkers/python_ta_checkers.py    | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index a9448d8..6bccb6e 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -5,7 +5,7 @@
 # https://github.com/pyta-uoft/pyta/blob/683505e2a910c2a252739094593406e4e0f29a85/python_ta/checkers/top_level_code_checker.py
 
 
-from typing import TYPE_CHECKING, Union, List
+from typing import TYPE_CHECKING, Union, List, Iterator
 
 import re
 
@@ -39,15 +39,15 @@ class InvalidForTargetChecker(BaseChecker):
 
     @only_required_for_messages("invalid-for-target")
     def visit_for(self, node: nodes.For) -> None:
-        invalid_for_targets = node.target.nodes_of_class(self.INVALID_TARGETS)
-        for target in invalid_for_targets:
-            self.add_message("invalid-for-target", node=target, args=target.as_string())
+        for target in get_targets(node.target):
+            if isinstance(target, self.INVALID_TARGETS):
+                self.add_message("invalid-for-target", node=target, args=target.as_string())
 
     @only_required_for_messages("invalid-for-target")
     def visit_comprehension(self, node: nodes.Comprehension) -> None:
-        invalid_for_targets = node.target.nodes_of_class(self.INVALID_TARGETS)
-        for target in invalid_for_targets:
-            self.add_message("invalid-for-target", node=target, args=target.as_string())
+        for target in get_targets(node.target):
+            if isinstance(target, self.INVALID_TARGETS):
+                self.add_message("invalid-for-target", node=target, args=target.as_string())
 
 
 class OneIterationChecker(BaseChecker):
@@ -162,6 +162,19 @@ class TopLevelCodeChecker(BaseChecker):
 
 
 # Helper functions
+def get_targets(target: nodes.NodeNG) -> Iterator[nodes.NodeNG]:
+    """
+    Return the individual targets of a possibly nested <target>.
+    """
+    if isinstance(target, (nodes.Tuple, nodes.List)):
+        for elem in target.elts:
+            yield from get_targets(elem)
+    elif isinstance(target, nodes.Starred):
+        yield from get_targets(target.value)
+    else:
+        yield target
+
+
 def _is_import(statement: nodes.NodeNG) -> bool:
     """
     Return whether or not <statement> is an Import or an ImportFrom.
-- 
2.43.0


From 8ecc3c07f6fd6813d8097ec8fa26fd35a149aa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 081/103] fix: report shadowing by variables of comprehensions
 with several targets

---
 .../linting/checkers/python_ta_checkers.py    | 20 +++++++------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index 6bccb6e..c94a7d0 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -120,19 +120,13 @@ class ShadowingInComprehensionChecker(BaseChecker):
 
     @only_required_for_messages("shadowing-in-comprehension")
     def visit_comprehension(self, node: nodes.Comprehension) -> None:
-        if isinstance(node.target, nodes.Tuple):
-            for target in node.target.elts:
-                if (
-                    isinstance(target, nodes.Name)
-                    and target.name in node.parent.frame().locals
-                    and target.name != "_"
-                ):
-                    args = target.name
-                    self.add_message("shadowing-in-comprehension", node=target, args=args)
-        elif isinstance(node.target, nodes.AssignName):
-            if node.target.name in node.parent.frame().locals and node.target.name != "_":
-                args = node.target.name
-                self.add_message("shadowing-in-comprehension", node=node.target, args=args)
+        for target in get_targets(node.target):
+            if (
+                isinstance(target, nodes.AssignName)
+                and target.name in node.parent.frame().locals
+                and target.name != "_"
+            ):
+                self.add_message("shadowing-in-comprehension", node=target, args=target.name)
 
 
 class TopLevelCodeChecker(BaseChecker):
-- 
2.43.0


From 826fa0053efa756f89f820bf862e5dc50305fc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:03 +0000
Subject: [PATCH 082/103] fix: report else branches and invalid targets of
 asynchronous loops

---
 edulint/linting/checkers/local_defects.py      | 4 ++++
 edulint/linting/checkers/python_ta_checkers.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 3efdbd8..c529d64 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -765,6 +765,10 @@ class Local(BaseChecker):
         self._check_loop_else(node.orelse, "for")
         self._check_iteration_count(node)
 
+    @only_required_for_messages("no-loop-else")
+    def visit_asyncfor(self, node: nodes.AsyncFor) -> None:
+        self._check_loop_else(node.orelse, "for")
+
     @only_required_for_messages("use-elif", "redundant-elif", "use-early-return")
     def visit_if(self, node: nodes.If) -> None:
         self._check_else_if(node)
diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index c94a7d0..bbd6b8e 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -43,6 +43,8 @@ class InvalidForTargetChecker(BaseChecker):
             if isinstance(target, self.INVALID_TARGETS):
                 self.add_message("invalid-for-target", node=target, args=target.as_string())
 
+    visit_asyncfor = visit_for
+
     @only_required_for_messages("invalid-for-target")
     def visit_comprehension(self, node: nodes.Comprehension) -> None:
         for target in get_targets(node.target):
-- 
2.43.0


From b728830f08a2c479be343a17709d229ca16d6ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:26 +0000
Subject: [PATCH 083/103] fix: allow annotated assignments at top level

---
 edulint/linting/checkers/python_ta_checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/python_ta_checkers.py b/edulint/linting/checkers/python_ta_checkers.py
index bbd6b8e..a2023ec 100644
--- a/edulint/linting/checkers/python_ta_checkers.py
+++ b/edulint/linting/checkers/python_ta_checkers.py
@@ -200,7 +200,7 @@ def _is_constant_assignment(statement: nodes.NodeNG) -> bool:
 
 
 def _is_assignment(statement: nodes.NodeNG) -> bool:
-    return isinstance(statement, nodes.Assign)
+    return isinstance(statement, (nodes.Assign, nodes.AnnAssign))
 
 
 def register(linter: "PyLinter") -> None:
-- 
2.43.0


From 38a905a4e711547c9e8970e70172bf4eb9564487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 084/103] fix: explore methods of nested classes

---
 edulint/linting/analyses/cfg/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/linting/analyses/cfg/utils.py b/edulint/linting/analyses/cfg/utils.py
index 90fe845..b587059 100644
--- a/edulint/linting/analyses/cfg/utils.py
+++ b/edulint/linting/analyses/cfg/utils.py
@@ -251,6 +251,7 @@ def essor_locs_from_locs(
         assert direction == Direction.SUCCESSORS
         for child in node.body:
             yield from try_explore_function(child.cfg_loc)
+            yield from try_explore_class(child.cfg_loc)
 
     def try_explore_class(loc: CFGLoc):
         if explore_classes and isinstance(loc.node, nodes.ClassDef):
-- 
2.43.0


From c40b7dd2716a85bcaacbeefea830bbc3379eacd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 085/103] fix: treat deleting an item or iterating into it as a
 modification

---
 edulint/linting/analyses/variable_scope.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 92ab989..f49258f 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -3,6 +3,7 @@ import re
 from typing import Dict, List, Union, Optional, Iterator, Tuple, Set
 
 from astroid import nodes
+from astroid.const import Context
 
 from edulint.linting.analyses.cfg.utils import get_cfg_loc
 from edulint.linting.analyses.utils import BaseVisitor, is_builtin
@@ -348,6 +349,13 @@ class VarEventListener(BaseVisitor[None]):
     def visit_for(self, node: nodes.For):
         return self.visit_many(node.get_children())
 
+    def visit_subscript(self, node: nodes.Subscript) -> None:
+        self.visit_many(node.get_children())
+
+        stripped = strip_to_name(node)
+        if stripped is not None and node.ctx in (Context.Store, Context.Del):
+            self._add_var_event(stripped.name, stripped, VarEventType.MODIFY)
+
     def visit_name(self, node: nodes.Name) -> None:
         self._add_var_event(node.name, node, VarEventType.READ)
 
-- 
2.43.0


From 28366d317111f54a88e64d90cfc2c70159ab19e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:44 +0000
Subject: [PATCH 086/103] fix: do not take names in methods for variables of
 their class

---
 edulint/linting/analyses/variable_scope.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index f49258f..2052f29 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -31,9 +31,11 @@ class VarEventsAnalysis:
 
 
 def in_new_scope(func):
-    def inner(self, *args, **kwargs):
+    def inner(self, node, *args, **kwargs):
         self.stack.append({})
-        result = func(self, *args, **kwargs)
+        self.scopes.append(node)
+        result = func(self, node, *args, **kwargs)
+        self.scopes.pop()
         self.stack.pop()
         return result
 
@@ -51,6 +53,7 @@ class VarEventListener(BaseVisitor[None]):
 
     def __init__(self):
         self.stack: List[Dict[VarName, Tuple[nodes.NodeNG, ScopeNode]]] = []
+        self.scopes: List[ScopeNode] = []
         self.variables: Set[Variable] = set()
         self.function_defs: List[nodes.FunctionDef] = []
         self.call_graph: Dict[ScopeNode, Set[ScopeNode]] = defaultdict(set)  # caller, calees
@@ -121,6 +124,8 @@ class VarEventListener(BaseVisitor[None]):
 
     def _get_var_scope_index(self, name: VarName) -> Optional[int]:
         for i, name_scope in enumerate(reversed(self.stack), 1):
+            if i > 1 and isinstance(self.scopes[-i], nodes.ClassDef):
+                continue  # names of a class are not visible in its methods
             if name in name_scope:
                 return -i
         return None
-- 
2.43.0


From fdf65664777adef3af738e717bc26c141f4875df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:04 +0000
Subject: [PATCH 087/103] fix: bind targets of := within comprehensions in the
 scope containing them

---
 edulint/linting/analyses/variable_scope.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 2052f29..223e322 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -140,13 +140,7 @@ class VarEventListener(BaseVisitor[None]):
         was_defined = name in self.stack[-1]
 
         if name not in self.stack[-1]:
-            scope = (
-                name_node.scope()
-                if not isinstance(
-                    name_node, (nodes.FunctionDef, nodes.AsyncFunctionDef, nodes.ClassDef)
-                )
-                else name_node.parent.scope()
-            )
+            scope = self.scopes[-1]
         else:
             name_scope = self._get_var_node_scope(name)
             assert name_scope is not None
@@ -303,6 +297,20 @@ class VarEventListener(BaseVisitor[None]):
             else:
                 yield from self._names_from_tuple(target.elts)
 
+    def visit_namedexpr(self, node: nodes.NamedExpr) -> None:
+        self.visit(node.value)
+
+        # within comprehensions, the variable belongs to the scope containing them
+        end = len(self.scopes)
+        while isinstance(self.scopes[end - 1], nodes.ComprehensionScope):
+            end -= 1
+
+        inner_names, inner_scopes = self.stack[end:], self.scopes[end:]
+        del self.stack[end:], self.scopes[end:]
+        self._visit_assigned_to(node.target)
+        self.stack += inner_names
+        self.scopes += inner_scopes
+
     def visit_assignname(self, node: nodes.AssignName):
         self._visit_assigned_to(node)
         return self.default
-- 
2.43.0


From d8f8b6f7355da91b79ad92c0ab84af1d7516eb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:12 +0000
Subject: [PATCH 088/103] fix: recognise variables of uses that precede their
 binding in the text

---
 edulint/linting/analyses/variable_scope.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 223e322..9e94f0e 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -54,6 +54,7 @@ class VarEventListener(BaseVisitor[None]):
     def __init__(self):
         self.stack: List[Dict[VarName, Tuple[nodes.NodeNG, ScopeNode]]] = []
         self.scopes: List[ScopeNode] = []
+        self.deleted: Set[Tuple[VarName, ScopeNode]] = set()
         self.variables: Set[Variable] = set()
         self.function_defs: List[nodes.FunctionDef] = []
         self.call_graph: Dict[ScopeNode, Set[ScopeNode]] = defaultdict(set)  # caller, calees
@@ -132,9 +133,16 @@ class VarEventListener(BaseVisitor[None]):
 
     def _get_var_node_scope(self, name: VarName) -> Optional[Tuple[nodes.NodeNG, ScopeNode]]:
         scope_index = self._get_var_scope_index(name)
-        if scope_index is None:
-            return None
-        return self.stack[scope_index][name]
+        if scope_index is not None:
+            return self.stack[scope_index][name]
+
+        # not bound yet, but will be
+        for i, scope in enumerate(reversed(self.scopes), 1):
+            if i > 1 and isinstance(scope, nodes.ClassDef) or (name, scope) in self.deleted:
+                continue
+            if name in scope.locals:
+                return scope.locals[name][0], scope
+        return None
 
     def _init_var_in_scope(self, name: VarName, name_node: nodes.NodeNG) -> None:
         was_defined = name in self.stack[-1]
@@ -158,6 +166,7 @@ class VarEventListener(BaseVisitor[None]):
             return
 
         self.stack[scope_index].pop(name)
+        self.deleted.add((name, self.scopes[scope_index]))
 
     def statements_before_definitions(
         self, node: Union[nodes.Module, nodes.FunctionDef, nodes.AsyncFunctionDef]
-- 
2.43.0


From 4b4ef0c149cbcd5f85a0c71e8e17363a09ee8e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:48 +0000
Subject: [PATCH 089/103] fix: report unreachable else also when it is the only
 enabled check of ifs

---
 edulint/linting/checkers/local_defects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index c529d64..8a8d5ab 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -769,7 +769,7 @@ class Local(BaseChecker):
     def visit_asyncfor(self, node: nodes.AsyncFor) -> None:
         self._check_loop_else(node.orelse, "for")
 
-    @only_required_for_messages("use-elif", "redundant-elif", "use-early-return")
+    @only_required_for_messages("use-elif", "redundant-elif", "unreachable-else", "use-early-return")
     def visit_if(self, node: nodes.If) -> None:
         self._check_else_if(node)
         self._check_redundant_elif(node)
-- 
2.43.0


From 594eb03b76e1704e94b2240cbe3912c76c22328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 090/103] fix: guess the types of unpacked variables from what
 is assigned to them

---
 edulint/linting/analyses/data_dependency.py | 17 ++++++++++-------
 edulint/linting/analyses/types.py           | 13 +++++++++++--
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index ab91240..b5f8748 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -585,7 +585,7 @@ def get_assigned_expressions(
         if def_event.type not in (VarEventType.ASSIGN, VarEventType.REASSIGN):
             continue
         if isinstance(def_event.node, _ASSIGNING_STATEMENTS):
-            if type(def_event.node in include_nodes):
+            if type(def_event.node) in include_nodes:
                 yield def_event.node
             continue
         assert isinstance(def_event.node, nodes.AssignName)
@@ -600,7 +600,7 @@ def get_assigned_expressions(
             if parent.value is not None:  # AnnAssign-style declaration
                 yield parent.value
         elif isinstance(parent, _ASSIGNING_ITERS):
-            if include_destructuring:
+            if include_destructuring or type(parent) in include_nodes:
                 yield parent.iter
         elif isinstance(parent, _ASSIGNING_PARENT_STATEMENTS):
             if type(parent) in include_nodes:
@@ -608,7 +608,7 @@ def get_assigned_expressions(
         else:
 
             parents = [def_event.node]
-            while not isinstance(parent, _ASSIGNING_EXPRESSIONS + _ASSIGNING_ITERS):
+            while isinstance(parent, (nodes.Tuple, nodes.List, nodes.Starred)):
                 parents.append(parent)
                 parent = parent.parent
             assigning = parent
@@ -616,15 +616,18 @@ def get_assigned_expressions(
             if isinstance(assigning, _ASSIGNING_ITERS):
                 if include_destructuring:
                     yield assigning.iter
-            else:
+            elif isinstance(assigning, _ASSIGNING_EXPRESSIONS):
                 expr = assigning.value
 
                 require_destructuring = False
-                for child in reversed(parents):
+                for child in reversed(parents[:-1]):
                     if (
-                        not isinstance(child.parent, nodes.Tuple)
-                        or not isinstance(expr, nodes.Tuple)
+                        not isinstance(child.parent, (nodes.Tuple, nodes.List))
+                        or not isinstance(expr, (nodes.Tuple, nodes.List))
                         or len(child.parent.elts) != len(expr.elts)
+                        or any(
+                            isinstance(elt, nodes.Starred) for elt in child.parent.elts + expr.elts
+                        )
                     ):
                         require_destructuring = True
                         break
diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 9643548..91bd28b 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -250,7 +250,9 @@ class TypeVisitor(BaseVisitor[Types]):
     def visit_name(self, node: nodes.Name):
         result = Types.empty()
         for assigned in get_assigned_expressions(
-            node, include_nodes=[nodes.For, nodes.Comprehension], include_destructuring=True
+            node,
+            include_nodes=[nodes.For, nodes.Comprehension, nodes.Import, nodes.ImportFrom],
+            include_destructuring=False,
         ):
             if assigned in self.visited_exprs:
                 continue
@@ -386,7 +388,14 @@ class TypeVisitor(BaseVisitor[Types]):
                 return BUILTIN_TYPES.get(func.name, Types.empty())
             assigned = list(
                 get_assigned_expressions(
-                    func, include_nodes=[nodes.ImportFrom], include_destructuring=False
+                    func,
+                    include_nodes=[
+                        nodes.Import,
+                        nodes.ImportFrom,
+                        nodes.FunctionDef,
+                        nodes.ClassDef,
+                    ],
+                    include_destructuring=False,
                 )
             )
             if len(assigned) == 1 and isinstance(assigned[0], nodes.ImportFrom):
-- 
2.43.0


From c17db3b8818d2d84bb79ed801c47f78b55e3ee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 091/103] fix: do not ignore that a value may be None when
 guessing its type

---
 edulint/linting/analyses/types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 91bd28b..5b7e06d 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -20,6 +20,7 @@ class Type(Enum):
     DICT = auto()
     SET = auto()
     MODULE = auto()
+    OTHER = auto()  # immutable values of other types (e.g. None, bytes, complex)
 
     @staticmethod
     def from_name(type_str: str) -> "Type":
@@ -32,7 +33,7 @@ class Type(Enum):
         return self.value
 
 
-IMMUTABLE_TYPES = [Type.BOOL, Type.FLOAT, Type.INT, Type.STRING, Type.TUPLE]
+IMMUTABLE_TYPES = [Type.BOOL, Type.FLOAT, Type.INT, Type.STRING, Type.TUPLE, Type.OTHER]
 
 
 class MetaTypes(type):
@@ -245,7 +246,7 @@ class TypeVisitor(BaseVisitor[Types]):
             return Types.int()
         if isinstance(val, str):
             return Types.string()
-        return Types.empty()
+        return Types.other()
 
     def visit_name(self, node: nodes.Name):
         result = Types.empty()
@@ -405,10 +406,10 @@ class TypeVisitor(BaseVisitor[Types]):
             return Types.empty()
 
         if isinstance(func, nodes.Attribute):
-            expr_type = self.visit(func.expr)
-            if len(expr_type) != 1:
+            expr_types = [t for t in self.visit(func.expr).get() if t != Type.OTHER]
+            if len(expr_types) != 1:
                 return Types.empty()
-            expr_type = expr_type.get()[0]
+            expr_type = expr_types[0]
             if expr_type == Type.MODULE:
                 return MODULE_METHOD_TYPES.get(func.expr.as_string(), {}).get(
                     func.attrname, Types.empty()
@@ -421,4 +422,4 @@ class TypeVisitor(BaseVisitor[Types]):
 def guess_type(expr: nodes.NodeNG) -> Optional[Types]:
     """Returns possible types for the given expresssion, or None if the type cannot be determined."""
     result = TypeVisitor(expr).visit(expr)
-    return result if len(result) > 0 else None
+    return result if len(result) > 0 and not result.has_only(Type.OTHER) else None
-- 
2.43.0


From 9bffe3bba9ac09cd36026cbf5015dd4d036ac37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 092/103] fix: do not take the type of a part for the type of
 f-strings, generators and yields

---
 edulint/linting/analyses/types.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 5b7e06d..23dbc4d 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -304,6 +304,21 @@ class TypeVisitor(BaseVisitor[Types]):
     def visit_starred(self, _node: nodes.Starred):
         return Types.empty()
 
+    def visit_joinedstr(self, _node: nodes.JoinedStr):
+        return Types.string()
+
+    def visit_generatorexp(self, _node: nodes.GeneratorExp):
+        return Types.empty()
+
+    def visit_await(self, _node: nodes.Await):
+        return Types.empty()
+
+    def visit_yield(self, _node: nodes.Yield):
+        return Types.empty()
+
+    def visit_yieldfrom(self, _node: nodes.YieldFrom):
+        return Types.empty()
+
     def visit_compare(self, _node: nodes.Compare):
         return Types.bool()
 
-- 
2.43.0


From 0aa9366a87093b300dea6b630fe49959b5d7b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:29 +0000
Subject: [PATCH 093/103] fix: the type of a and b (a or b) is the type of one
 of the operands

---
 edulint/linting/analyses/types.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 23dbc4d..0fc59d6 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -322,8 +322,11 @@ class TypeVisitor(BaseVisitor[Types]):
     def visit_compare(self, _node: nodes.Compare):
         return Types.bool()
 
-    def visit_boolop(self, _node: nodes.BoolOp):
-        return Types.bool()
+    def visit_boolop(self, node: nodes.BoolOp):
+        operands = [self.visit(value) for value in node.values]
+        if any(len(operand) == 0 for operand in operands):
+            return Types.empty()
+        return self.combine(operands)
 
     def visit_ifexp(self, node: nodes.IfExp):
         return self.visit(node.body) | self.visit(node.orelse)
-- 
2.43.0


From cff77e41a4a13ba01271321e29792c5ef1118483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 094/103] fix: guess the type of an operation from the types of
 both its operands

---
 edulint/linting/analyses/types.py | 117 ++++++++++++++++++------------
 1 file changed, 70 insertions(+), 47 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 0fc59d6..d71613e 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from functools import reduce
 import sys
-from typing import Optional, List, Union
+from typing import Iterable, Optional, List, Union
 import operator
 
 from astroid import nodes
@@ -61,6 +61,10 @@ class Types(metaclass=MetaTypes):
     def empty(cls):
         return cls()
 
+    @classmethod
+    def combined(cls, types: Iterable[Type]):
+        return reduce(operator.or_, map(cls, types), cls.empty())
+
     def __and__(self, other):
         return Types._from(self.types & other.types)
 
@@ -332,65 +336,84 @@ class TypeVisitor(BaseVisitor[Types]):
         return self.visit(node.body) | self.visit(node.orelse)
 
     def visit_binop(self, node: nodes.BinOp):
-        if node.op == "+":
-            return self.visit(node.left) | self.visit(node.right)
-
-        if node.op == "-":
-            lt = self.visit(node.left)
-            rt = self.visit(node.right)
-            if (lt | rt).has(Type.SET):
-                return Types.set()
-            if (lt | rt).has(Type.FLOAT):
-                return Types.float()
-            if (lt | rt).has(Type.INT):
-                return Types.int()
-            return Types.empty()
+        return self._binop_types(node.op, node.left, node.right)
 
-        if node.op == "*":
-            return self.visit(node.left)
+    def _binop_types(self, op: str, left: nodes.NodeNG, right: nodes.NodeNG) -> Types:
+        lt = self.visit(left)
+        rt = self.visit(right)
+        either = lt | rt
 
-        if node.op == "/":
-            return Types.float()
+        if op == "@":
+            return Types.empty()
 
-        if node.op == "//":
-            return Types.int()
+        if op == "/":
+            return Types.float() | (either & Types.other())
 
-        if node.op == "%":
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.STRING):
-                return Types.string()
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.INT):
+        may_be_negative = rt.has(Type.INT) and not self._is_nonnegative_const(right)
+        if len(lt) == 0 or len(rt) == 0:
+            if op in ("//", "<<", ">>") and len(either) == 0:
                 return Types.int()
-            return Types.empty()
+            if op == "*" and len(lt) == 0 and not either.any_container():
+                return Types.empty()
+            if op == "%" and len(lt) == 0 and rt.any_container():
+                return Types.empty()
+            lt = rt = either
 
-        if node.op == "**":
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.FLOAT):
-                return Types.float()
-            if (self.visit(node.left) | self.visit(node.right)).has(Type.INT):
-                return Types.int()
-            return Types.empty()
+        result = Types.empty()
+        for left_type in lt.get():
+            for right_type in rt.get():
+                result |= self._pair_types(op, left_type, right_type)
 
-        if node.op in ("&", "|", "^"):
-            lt = self.visit(node.left)
-            rt = self.visit(node.right)
-            if (lt | rt).has(Type.SET):
-                return Types.set()
-            if (lt & rt).has(Type.BOOL):
-                return Types.bool()
-            if (lt | rt).has(Type.INT):
-                return Types.int()
-            return Types.empty()
+        if op == "**" and may_be_negative:
+            result |= Types.float()
+        return result if len(result) > 0 else either
 
-        if node.op in ("<<", ">>"):
-            return Types.int()
+    @staticmethod
+    def _pair_types(op: str, left: Type, right: Type) -> Types:
+        """Returns type of the result of the operation on values of given types."""
+        numeric = (Type.BOOL, Type.INT, Type.FLOAT)
+        sequence = (Type.STRING, Type.LIST, Type.TUPLE)
 
-        if node.op == "@":
-            return Types.empty()
+        if left == Type.OTHER or right == Type.OTHER:
+            return Types.other()
 
-        assert False, f"unreachable, but {node.op}"
+        if op == "%" and left == Type.STRING:
+            return Types.string()
+
+        if op in ("&", "|", "^") and left == right and left in (Type.BOOL, Type.SET, Type.DICT):
+            return Types(left)
+
+        if left in numeric and right in numeric:
+            return Types.float() if Type.FLOAT in (left, right) else Types.int()
+
+        if op == "+" and left == right and left in sequence:
+            return Types(left)
+
+        if op == "*" and left in sequence and right in (Type.BOOL, Type.INT):
+            return Types(left)
+
+        if op == "*" and right in sequence and left in (Type.BOOL, Type.INT):
+            return Types(right)
+
+        if op == "-" and left == right == Type.SET:
+            return Types.set()
+
+        return Types.empty()
+
+    @staticmethod
+    def _as_number(types: Types) -> Types:
+        """Returns types of the values of an operation that for a bool gives an int."""
+        if not types.has(Type.BOOL):
+            return types
+        return Types.int() | Types.combined(t for t in types.get() if t != Type.BOOL)
+
+    @staticmethod
+    def _is_nonnegative_const(node: nodes.NodeNG) -> bool:
+        return isinstance(node, nodes.Const) and isinstance(node.value, int) and node.value >= 0
 
     def visit_unaryop(self, node: nodes.UnaryOp):
         if node.op in ("+", "-"):
-            return self.visit(node.operand)
+            return self._as_number(self.visit(node.operand))
 
         if node.op == "not":
             return Types.bool()
-- 
2.43.0


From 31e16d86b4bfb066a5ba8c505d38e4b986e0bcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:54 +0000
Subject: [PATCH 095/103] fix: consider the arguments when guessing what abs,
 round and sum return

---
 edulint/linting/analyses/types.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index d71613e..e67ee67 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -423,11 +423,32 @@ class TypeVisitor(BaseVisitor[Types]):
 
         assert False, f"unreachable, but {node.op}"
 
+    def _builtin_types(self, node: nodes.Call) -> Types:
+        """Returns types of the result of a call of a builtin, some of which depend on the arguments."""
+        name = node.func.name
+
+        if name == "abs" and len(node.args) == 1:
+            types = self._as_number(self.visit(node.args[0]))
+            types &= Types.int() | Types.float()  # of a complex number, it is a float
+            return types if len(types) > 0 else Types.int() | Types.float()
+
+        if name == "round" and len(node.args) + len(node.keywords) > 1:
+            return Types.int() | Types.float()
+
+        if name == "sum" and len(node.args) + len(node.keywords) > 1:
+            start = node.args[1] if len(node.args) > 1 else node.keywords[0].value
+            types = self.visit(start)
+            if types.has_only([Type.BOOL, Type.INT, Type.FLOAT]):
+                types |= Types.int() | Types.float()
+            return types
+
+        return BUILTIN_TYPES.get(name, Types.empty())
+
     def visit_call(self, node: nodes.Call):
         func = node.func
         if isinstance(func, nodes.Name):
             if is_builtin(func):
-                return BUILTIN_TYPES.get(func.name, Types.empty())
+                return self._builtin_types(node)
             assigned = list(
                 get_assigned_expressions(
                     func,
-- 
2.43.0


From 7e2b00bd3e8e03829f1ceea2950412efca5acfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:36 +0000
Subject: [PATCH 096/103] fix: guess the type of a variable updated in place
 also from its previous value

---
 edulint/linting/analyses/types.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index e67ee67..14e00dd 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -252,7 +252,7 @@ class TypeVisitor(BaseVisitor[Types]):
             return Types.string()
         return Types.other()
 
-    def visit_name(self, node: nodes.Name):
+    def visit_name(self, node: Union[nodes.Name, nodes.AssignName]):
         result = Types.empty()
         for assigned in get_assigned_expressions(
             node,
@@ -265,10 +265,16 @@ class TypeVisitor(BaseVisitor[Types]):
             if isinstance(assigned.parent, (nodes.For, nodes.Comprehension)):
                 if get_range_params(assigned) is not None:
                     result |= Types.int()
+            elif isinstance(assigned.parent, nodes.AugAssign) and assigned == assigned.parent.value:
+                update = assigned.parent
+                result |= self._binop_types(update.op[:-1], update.target, assigned)
             else:
                 result |= self.visit(assigned)
         return result
 
+    def visit_assignname(self, node: nodes.AssignName):
+        return self.visit_name(node)  # the value which an augmented assignment updates
+
     def visit_import(self, _node: nodes.Import):
         return Types.module()
 
-- 
2.43.0


From 1aa4d1dd1fe8300e8b6b366733a0524e1d16ec7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:37 +0000
Subject: [PATCH 097/103] fix: guess types from all definitions also when one
 is reached more than once

---
 edulint/linting/analyses/types.py | 50 +++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 15 deletions(-)

diff --git a/edulint/linting/analyses/types.py b/edulint/linting/analyses/types.py
index 14e00dd..22f8a66 100644
--- a/edulint/linting/analyses/types.py
+++ b/edulint/linting/analyses/types.py
@@ -1,7 +1,7 @@
 from enum import Enum, auto
 from functools import reduce
 import sys
-from typing import Iterable, Optional, List, Union
+from typing import Dict, Iterable, Optional, List, Set, Union
 import operator
 
 from astroid import nodes
@@ -237,8 +237,21 @@ class TypeVisitor(BaseVisitor[Types]):
             return Types.empty()
         return reduce(operator.or_, results)
 
-    def __init__(self, init_expr):
-        self.visited_exprs = {init_expr}
+    def __init__(self):
+        self.visited_exprs: Set[nodes.NodeNG] = set()
+        self.expr_types: Dict[nodes.NodeNG, Types] = {}
+
+    def guess(self, expr: nodes.NodeNG) -> Types:
+        """Visits the expression again until nothing new is known on expressions it depends on."""
+        while True:
+            self.visited_exprs = {expr}
+            before = dict(self.expr_types)
+            result = self.visit(expr)
+            self.expr_types[expr] = self.expr_types.get(expr, Types.empty()) | result
+            if {e: t.types for e, t in before.items()} == {
+                e: t.types for e, t in self.expr_types.items()
+            }:
+                return self.expr_types[expr]
 
     def visit_const(self, node: nodes.Const):
         val = node.value
@@ -259,19 +272,26 @@ class TypeVisitor(BaseVisitor[Types]):
             include_nodes=[nodes.For, nodes.Comprehension, nodes.Import, nodes.ImportFrom],
             include_destructuring=False,
         ):
-            if assigned in self.visited_exprs:
-                continue
-            self.visited_exprs.add(assigned)
-            if isinstance(assigned.parent, (nodes.For, nodes.Comprehension)):
-                if get_range_params(assigned) is not None:
-                    result |= Types.int()
-            elif isinstance(assigned.parent, nodes.AugAssign) and assigned == assigned.parent.value:
-                update = assigned.parent
-                result |= self._binop_types(update.op[:-1], update.target, assigned)
-            else:
-                result |= self.visit(assigned)
+            if assigned not in self.visited_exprs:
+                self.visited_exprs.add(assigned)
+                types = self._assigned_types(assigned)
+                self.expr_types[assigned] = self.expr_types.get(assigned, Types.empty()) | types
+            result |= self.expr_types.get(assigned, Types.empty())
         return result
 
+    def _assigned_types(self, assigned: nodes.NodeNG) -> Types:
+        if isinstance(assigned.parent, (nodes.For, nodes.Comprehension)):
+            return Types.int() if get_range_params(assigned) is not None else Types.empty()
+
+        if isinstance(assigned.parent, nodes.AugAssign) and assigned == assigned.parent.value:
+            update = assigned.parent
+            types = self._binop_types(update.op[:-1], update.target, assigned)
+            if update.op in ("+=", "|="):  # which list and dict extend also by values of other types
+                types |= self.visit(update.target) & (Types.list() | Types.dict())
+            return types
+
+        return self.visit(assigned)
+
     def visit_assignname(self, node: nodes.AssignName):
         return self.visit_name(node)  # the value which an augmented assignment updates
 
@@ -489,5 +509,5 @@ class TypeVisitor(BaseVisitor[Types]):
 
 def guess_type(expr: nodes.NodeNG) -> Optional[Types]:
     """Returns possible types for the given expresssion, or None if the type cannot be determined."""
-    result = TypeVisitor(expr).visit(expr)
+    result = TypeVisitor().guess(expr)
     return result if len(result) > 0 and not result.has_only(Type.OTHER) else None
-- 
2.43.0


From ee731d6ecc0b85cdaf6597c8da78ccab9e809829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 098/103] fix: consider that the body of a try may be
 interrupted after any of its statements

---
 edulint/linting/analyses/cfg/visitor.py | 27 ++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/cfg/visitor.py b/edulint/linting/analyses/cfg/visitor.py
index df0c526..c51e510 100644
--- a/edulint/linting/analyses/cfg/visitor.py
+++ b/edulint/linting/analyses/cfg/visitor.py
@@ -4,9 +4,11 @@ from typing import Any, Dict, Iterable, List, Optional, Tuple, Union
 
 from astroid import nodes
 
-from edulint.linting.analyses.cfg.graph import CFGBlock, ControlFlowGraph
+from edulint.linting.analyses.cfg.graph import CFGBlock, CFGEdge, ControlFlowGraph
 from edulint.linting.analyses.cfg.utils import get_cfg_loc
 
+_JUMPS = (nodes.Break, nodes.Continue, nodes.Return, nodes.Raise)
+
 
 class CFGVisitor:
     """An astroid visitor that creates a control flow graph for a given Python module.
@@ -49,6 +51,7 @@ class CFGVisitor:
         self._current_cfg = None
         self._current_block = None
         self._control_boundaries = []
+        self._tries = 0  # number of try bodies being visited
 
     def __getattr__(self, attr: str):
         if attr.startswith("visit_"):
@@ -59,6 +62,9 @@ class CFGVisitor:
     def visit_generic(self, node: nodes.NodeNG) -> None:
         """By default, add the expression to the end of the current block."""
         if self._current_block is not None:
+            if self._tries > 0 and self._current_block.locs != []:
+                # the body of a try may be interrupted after any of its statements
+                self._current_block = self._current_cfg.create_block(self._current_block)
             self._current_block.add_statement(node)
             self._visit_nested_definitions(node.get_children())
 
@@ -423,9 +429,11 @@ class CFGVisitor:
         # Construct the try body so reset current block to this node's block
         self._current_block = node_block
 
+        self._tries += 1
         for child in node.body:
             child.accept(self)
         end_body = self._current_block
+        self._tries -= 1
 
         assert len(node.body) > 0
         # do not use node_block, because it may be overtaken by link_or_merge
@@ -443,6 +451,23 @@ class CFGVisitor:
             child.accept(self)
         self._current_cfg.link_or_merge(self._current_block, end_block)
         self._current_block = end_block
+        self._link_interrupted(node)
+
+    def _link_interrupted(self, node: nodes.Try) -> None:
+        """Link the blocks after which the try body may be interrupted to what is executed then."""
+        entry = node.body[0].cfg_loc.block
+        exits = {edge.source: edge.label for edge in entry.predecessors}
+        for child in node.body:
+            for part in child.nodes_of_class(nodes.NodeNG):
+                block = part.cfg_loc.block if hasattr(part, "cfg_loc") else entry
+                if block.cfg is entry.cfg and not isinstance(block.locs[-1].node, _JUMPS):
+                    exits.setdefault(block, None)
+
+        for target in [n.cfg_loc.block for n in node.handlers + node.finalbody[:1]]:
+            linked = {edge.source for edge in target.predecessors}
+            for source, label in exits.items():
+                if source not in linked:
+                    CFGEdge(source, target, label)
 
     def visit_with(self, node: nodes.With) -> None:
         # When only creating cfgs for functions, _current_cfg will only be None outside of functions
-- 
2.43.0


From 2c47e0d485812a295676e23bbdbfa0afc13ad24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:23 +0000
Subject: [PATCH 099/103] fix: do not suggest augmented assignment to what may
 be mutable

---
 edulint/linting/checkers/local_defects.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edulint/linting/checkers/local_defects.py b/edulint/linting/checkers/local_defects.py
index 8a8d5ab..4ce89bf 100644
--- a/edulint/linting/checkers/local_defects.py
+++ b/edulint/linting/checkers/local_defects.py
@@ -315,6 +315,10 @@ class Local(BaseChecker):
         if result_type is None or result_type.any_mutable():
             return
 
+        left_type = guess_type(bin_op.left)
+        if left_type is not None and left_type.any_mutable():
+            return
+
         if target == bin_op.left.as_string() and is_pure_expression(bin_op.left):
             add_message(target, bin_op.right)
         elif (
-- 
2.43.0


From ec0dc20a54d451fde79106dcf46f471028cd239b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 100/103] fix: keep values of variables which a call or a part
 of an expression need not change

---
 edulint/linting/analyses/data_dependency.py | 86 +++++++++++++++++++--
 1 file changed, 78 insertions(+), 8 deletions(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index b5f8748..42fb178 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -130,6 +130,37 @@ def ones_indices(n):
     return result
 
 
+def may_be_skipped(node: nodes.NodeNG) -> bool:
+    """Returns whether the node need not be evaluated when the statement it belongs to is."""
+    while not node.is_statement and node.parent is not None:
+        parent = node.parent
+        if (
+            isinstance(parent, nodes.BoolOp)
+            and node is not parent.values[0]
+            or isinstance(parent, nodes.IfExp)
+            and node is not parent.test
+            or isinstance(parent, nodes.Compare)
+            and node not in (parent.left, parent.ops[0][1])
+            or isinstance(parent, nodes.ComprehensionScope)
+            and node is not parent.generators[0]
+            or isinstance(parent, nodes.Comprehension)
+            and node in parent.ifs
+        ):
+            return True
+        node = parent
+    return False
+
+
+def is_always_reached(statement: nodes.NodeNG, fun_def: nodes.FunctionDef) -> bool:
+    """Returns whether the statement is executed by each call of the function that returns."""
+    if statement.parent != fun_def:
+        return False
+    previous = fun_def.body[: fun_def.body.index(statement)]
+    return not any(
+        ret.scope() == fun_def for stmt in previous for ret in stmt.nodes_of_class(nodes.Return)
+    )
+
+
 def collect_reaching_definitions(  # blocks fun gen kills
     node: nodes.Module,
     variables: List[Variable],
@@ -180,6 +211,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
         var_to_index: Dict[Variable, int],
         index_to_block: List[CFGBlock],
         original_gens_kills,
+        partial_kills,
         outside_scope_events,
         unresolved_calls,
         start_loc: CFGLoc,
@@ -189,6 +221,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
             blocks[block] = len(blocks)
             index_to_block.append(block)
             gens, kill = defaultdict(list), defaultdict(list)
+            partial: Set[int] = set()  # variables that may keep the value from before the block
             for loc in block.locs:
                 for call in get_calls(loc.node):
                     if isinstance(call.func, nodes.Name):
@@ -219,9 +252,9 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
                             in_call_var_i = var_to_index[in_call_event.var]
                             if in_call_event.type in GENERATING_EVENTS:
-                                if len(kill[in_call_var_i]) == 0:
+                                if len(kill[in_call_var_i]) == 0 or in_call_var_i in partial:
                                     gens[in_call_var_i].append(in_call_event)
-                                else:
+                                if len(kill[in_call_var_i]) > 0:
                                     for kill_event in kill[in_call_var_i][-1]:
                                         if kill_event not in in_call_event.definitions:
                                             in_call_event.definitions.append(kill_event)
@@ -235,14 +268,25 @@ def collect_reaching_definitions(  # blocks fun gen kills
                                             kill_event.redefined_by.append(in_call_event)
                                 else:
                                     kill[in_call_var_i].append([])
+                                    if (
+                                        isinstance(call.func, nodes.Attribute)
+                                        or isinstance(call.func, nodes.Name)
+                                        and call in unresolved_calls[-1:]
+                                        or may_be_skipped(call)
+                                        or may_be_skipped(in_call_event.node)
+                                        or not is_always_reached(
+                                            in_call_event.node.statement(), called_fun
+                                        )
+                                    ):
+                                        partial.add(in_call_var_i)
                                 kill[in_call_var_i][-1].append(in_call_event)
 
                 for var, event in loc.var_events.all():
                     var_i = var_to_index[var]
                     if event.type in GENERATING_EVENTS:
-                        if len(kill[var_i]) == 0:
+                        if len(kill[var_i]) == 0 or var_i in partial:
                             gens[var_i].append(event)
-                        else:
+                        if len(kill[var_i]) > 0:
                             for kill_event in kill[var_i][-1]:
                                 if kill_event not in event.definitions:
                                     event.definitions.append(kill_event)
@@ -254,9 +298,19 @@ def collect_reaching_definitions(  # blocks fun gen kills
                                 if kill_event not in event.redefines:
                                     event.redefines.append(kill_event)
                                     kill_event.redefined_by.append(event)
-                        kill[var_i].append([event])
+                        if not isinstance(
+                            event.node.parent, nodes.NamedExpr
+                        ) or not may_be_skipped(event.node):
+                            kill[var_i].append([event])
+                            partial.discard(var_i)
+                        else:
+                            if len(kill[var_i]) == 0:
+                                kill[var_i].append([])
+                                partial.add(var_i)
+                            kill[var_i][-1].append(event)
 
             original_gens_kills.append((gens, kill))
+            partial_kills.append(partial)
 
         return blocks
 
@@ -312,7 +366,12 @@ def collect_reaching_definitions(  # blocks fun gen kills
         )
 
     def fixpoint(
-        original_gens_kills, computed_kills, all_parent_kills, blocks, init_occupied_blocks
+        original_gens_kills,
+        partial_kills,
+        computed_kills,
+        all_parent_kills,
+        blocks,
+        init_occupied_blocks,
     ):
         to_process = deque(enumerate(blocks.keys()))
         while to_process:
@@ -323,7 +382,11 @@ def collect_reaching_definitions(  # blocks fun gen kills
 
             updated = []
             for var_i, val in parent_kills.items():
-                if computed_kill[var_i] != val and len(original_kill[var_i]) == 0:
+                if var_i in partial_kills[init_occupied_blocks + i]:
+                    val = val | (1 << (init_occupied_blocks + i))
+                elif len(original_kill[var_i]) > 0:
+                    continue
+                if computed_kill[var_i] != val:
                     computed_kill[var_i] = val
                     updated.append((var_i, val))
 
@@ -425,6 +488,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
     var_to_index = {var: var_i for var_i, var in enumerate(variables)}
     index_to_block = []
     original_gens_kills = []
+    partial_kills = []
     computed_kills = []
     all_parent_kills = []
     unresolved_calls = []
@@ -435,6 +499,7 @@ def collect_reaching_definitions(  # blocks fun gen kills
             var_to_index,
             index_to_block,
             original_gens_kills,
+            partial_kills,
             outside_scope_events,
             unresolved_calls,
             loc,
@@ -442,7 +507,12 @@ def collect_reaching_definitions(  # blocks fun gen kills
         collect_computed_kills(original_gens_kills, computed_kills, blocks, init_occupied_blocks)
         collect_kills_from_parents(computed_kills, all_parent_kills, blocks, init_occupied_blocks)
         fixpoint(
-            original_gens_kills, computed_kills, all_parent_kills, blocks, init_occupied_blocks
+            original_gens_kills,
+            partial_kills,
+            computed_kills,
+            all_parent_kills,
+            blocks,
+            init_occupied_blocks,
         )
     connect_events(index_to_block, all_parent_kills, original_gens_kills)
     # DANGER call relies on node.body[0].cfg_loc being the last processed
-- 
2.43.0


From 59c2a978e5559af8384e9274092f13dd438ff14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:59 +0000
Subject: [PATCH 101/103] fix: guess the type of a modified variable from what
 has been assigned to it

---
 edulint/linting/analyses/data_dependency.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/data_dependency.py b/edulint/linting/analyses/data_dependency.py
index 42fb178..98f923d 100644
--- a/edulint/linting/analyses/data_dependency.py
+++ b/edulint/linting/analyses/data_dependency.py
@@ -651,7 +651,11 @@ def get_assigned_expressions(
     if event is None:
         return
 
-    for def_event in event.definitions:
+    def_events = list(event.definitions)
+    for def_event in def_events:
+        if def_event.type == VarEventType.MODIFY:  # changes the value, but does not assign another
+            def_events.extend(e for e in def_event.definitions if e not in def_events)
+            continue
         if def_event.type not in (VarEventType.ASSIGN, VarEventType.REASSIGN):
             continue
         if isinstance(def_event.node, _ASSIGNING_STATEMENTS):
-- 
2.43.0


From e9bd03a678f8a292ee5fb18493c36666687a448d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:30 +0000
Subject: [PATCH 102/103] fix: find the function whose variable is declared
 nonlocal

---
 edulint/linting/analyses/variable_scope.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/analyses/variable_scope.py b/edulint/linting/analyses/variable_scope.py
index 9e94f0e..fff2834 100644
--- a/edulint/linting/analyses/variable_scope.py
+++ b/edulint/linting/analyses/variable_scope.py
@@ -283,10 +283,22 @@ class VarEventListener(BaseVisitor[None]):
             return self.default  # invalid at module level
 
         for name in node.names:
-            self.stack[-1][name] = (node, scope.parent.scope())
+            owner = scope.parent.scope()
+            while owner.parent is not None and (
+                isinstance(owner, nodes.ClassDef) or not self._binds(owner, name)
+            ):
+                owner = owner.parent.scope()
+            self.stack[-1][name] = (node, owner)
 
         return self.default
 
+    @staticmethod
+    def _binds(scope: ScopeNode, name: VarName) -> bool:
+        return name in scope.locals and not any(
+            name in declaration.names and declaration.scope() == scope
+            for declaration in scope.nodes_of_class(nodes.Nonlocal)
+        )
+
     def _visit_assigned_to(self, node: nodes.NodeNG) -> None:
         if isinstance(node, nodes.AssignName):
             self._init_var_in_scope(node.name, node)
-- 
2.43.0


From 25e2798948f6b0b95f5d184bd6e2236cb18ba06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:06 +0000
Subject: [PATCH 103/103] fix: recognise a change of the control variable after
 a change by the control flow

---
 edulint/linting/checkers/unsuited_loop.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/checkers/unsuited_loop.py b/edulint/linting/checkers/unsuited_loop.py
index 7dc7bb7..53034a4 100644
--- a/edulint/linting/checkers/unsuited_loop.py
+++ b/edulint/linting/checkers/unsuited_loop.py
@@ -202,7 +202,15 @@ class UnsuitedLoop(BaseChecker):
             return False
 
         def modification_after_modification(events):
-            return any(e.uses != events[0].uses for e in events)
+            test_loc = get_cfg_loc(node.test)
+            event_locs = [get_cfg_loc(e.node) for e in events]
+            return any(e.uses != events[0].uses for e in events) or any(
+                loc in event_locs
+                for event_loc in event_locs
+                for loc in successors_from_loc(
+                    event_loc, stop_on_loc=lambda loc: loc == test_loc, include_start=False
+                )
+            )
 
         def changes_towards_limit(test, only_var, change):
             lt, (op, rt) = test.left, test.ops[0]
-- 
2.43.0

