From a6dddf35c04613261cadff1b527d092e712e6c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:06 +0000
Subject: [PATCH 01/33] fix: read the updated explanations instead of the
 packaged ones

_load_updated_explanations checked for the downloaded file but then opened the
one distributed with the package, so no update ever took effect.
---
 edulint/explanations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index a35b470..3e68cee 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -44,7 +44,7 @@ def _load_updated_explanations() -> Optional[Dict[str, str]]:
     if not path_for_online_file.exists():
         return
     try:
-        with open(EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH, "rb") as f:
+        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "rb") as f:
             return tomli.load(f)
     except:
         logger.warning("Updated explanations seem to be corrupted. Falling back to those distributed with the pip package.")
-- 
2.43.0


From 96ede1eabbc0e90f7fd70a898ee2749356b7fdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 02/33] fix: replace the downloaded explanations atomically

The file was truncated and rewritten in place: a crash, a full disk or a
concurrent reader could leave or see a prefix, and a prefix of a TOML file is
often valid TOML with explanations missing. The body is now also stored as
received; decoding it by the response's default charset garbled non-ASCII
explanations when the server did not name one.
---
 edulint/atomic_write.py | 25 +++++++++++++++++++++++++
 edulint/explanations.py |  5 +++--
 2 files changed, 28 insertions(+), 2 deletions(-)
 create mode 100644 edulint/atomic_write.py

diff --git a/edulint/atomic_write.py b/edulint/atomic_write.py
new file mode 100644
index 0000000..480d446
--- /dev/null
+++ b/edulint/atomic_write.py
@@ -0,0 +1,25 @@
+import os
+import tempfile
+
+
+def write_atomically(path: str, content: bytes) -> None:
+    """
+    Replaces the file's content so that a concurrent reader, or a run after a crash, sees either the whole
+    previous content or the whole new one.
+    """
+    path = os.fspath(path)
+    fd, tmp_path = tempfile.mkstemp(
+        dir=os.path.dirname(path), prefix=os.path.basename(path) + ".", suffix=".tmp"
+    )
+    try:
+        with os.fdopen(fd, "wb") as f:
+            f.write(content)
+            f.flush()
+            os.fsync(f.fileno())
+        os.replace(tmp_path, path)
+    except BaseException:
+        try:
+            os.unlink(tmp_path)
+        except OSError:
+            pass
+        raise
diff --git a/edulint/explanations.py b/edulint/explanations.py
index 3e68cee..f67eb03 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -12,6 +12,8 @@ import requests
 from platformdirs import PlatformDirs
 from loguru import logger
 
+from edulint.atomic_write import write_atomically
+
 
 SCRIPT_PATH = os.path.dirname(os.path.abspath(__file__))
 EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH = os.path.join(SCRIPT_PATH, "explanations.toml")
@@ -75,8 +77,7 @@ def _thread_update_explanations(ttl: int = 600):
         if resp.status_code != 200:
             return
 
-        with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "w", encoding="utf8") as f:
-            f.write(resp.text)
+        write_atomically(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, resp.content)  # TOML is always UTF-8
     except Exception as e:
         logger.debug(f"Update of explanations failed with {e}. This can ocassionaly hapen for some processes due to race condition.")
 
-- 
2.43.0


From 08690814704314997f9aaa1d3ac9ba364f860043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 03/33] fix: explain with the packaged explanations if the data
 folder is not accessible

Path.exists raises PermissionError for a folder the user may not search, which
ended `edulint explain` with a traceback instead of the packaged explanations.
---
 edulint/explanations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index f67eb03..bfa8e0b 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -43,9 +43,9 @@ def get_explanations(disable_explanations_update: bool = False) -> Dict[str, Dic
 
 def _load_updated_explanations() -> Optional[Dict[str, str]]:
     path_for_online_file = Path(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH)
-    if not path_for_online_file.exists():
-        return
     try:
+        if not path_for_online_file.exists():
+            return
         with open(EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH, "rb") as f:
             return tomli.load(f)
     except:
-- 
2.43.0


From 20c38c9ac753f18aa0f461589a3d3d58e4a15db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:54 +0000
Subject: [PATCH 04/33] fix: explain honours --disable-explanations-update

get_explanations started an update on its own, regardless of the flag; without
the flag, explain started two updates that raced for the rate limit.
---
 edulint/edulint.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index c0ccff4..bd968e6 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -230,7 +230,9 @@ def check_code(
     return _check_code(files_or_dirs, options, get_option_parses())
 
 
-def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[str, Dict[str, str]]:
+def get_message_explanations(
+    message_ids: Optional[List[str]] = None, disable_explanations_update: bool = False
+) -> Dict[str, Dict[str, str]]:
     """
     Returns explanations for given message ids. If an explanation is requested
     for a message id that does not have an explanation, the warning is
@@ -239,13 +241,15 @@ def get_message_explanations(message_ids: Optional[List[str]] = None) -> Dict[st
     :param message_ids: An optional list of message ids to receive explanations
       for. If None is passed, returns all available explanations.
     :type message_ids: List[str] | None
+    :param disable_explanations_update: Do not look for updated explanations online.
+    :type disable_explanations_update: bool
     :returns: A dictionary with message ids as keys and explanations as values.
       Each explanations is a dictionary with optional keys "why" and "examples".
       "Why" Contains rationale for why the pattern should be avoided. "Examples"
       contains examples of erroneous and corrected code.
     :rtype: Dict[str, Dict[str, str]]
     """
-    explanations = get_explanations()
+    explanations = get_explanations(disable_explanations_update)
     message_ids = message_ids if message_ids is not None else explanations.keys()
 
     m_id_expls = {}
@@ -262,7 +266,8 @@ def print_message_explanations(args):
     message_ids = (
         args.message_ids if not any(id_.lower() == "all" for id_ in args.message_ids) else None
     )
-    m_id_expls = get_message_explanations(message_ids)
+    # main has already started the update, unless it is disabled
+    m_id_expls = get_message_explanations(message_ids, disable_explanations_update=True)
     if args.json:
         data = {"explanations": m_id_expls}
         print(json.dumps(data, indent=2))
@@ -293,9 +298,7 @@ def main() -> int:
     args = setup_argparse(option_parses)
 
     check_for_updates(args.disable_version_check)
-    update_explanations(
-        args.disable_explanations_update
-    )  # get_explanations also can trigger update, but we're not calling it anywhere else.
+    update_explanations(args.disable_explanations_update)
 
     if args.command == "check":
         return check_and_print(args, option_parses)
-- 
2.43.0


From af0a267821ce794b3677c8e32de7a903708e82c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 05/33] fix: survive a damaged or unavailable versions.json

The file was rewritten in place, so a crash or a full disk could leave it empty
or cut short; every later run then printed a JSONDecodeError traceback and never
checked for updates again. A data folder that cannot be written had the same
effect.
---
 edulint/versions/version_checker.py | 38 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 1bbafbc..8562879 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -1,4 +1,4 @@
-from typing import Optional, Tuple
+from typing import Any, Dict, Optional, Tuple
 import os
 import json
 from dataclasses import dataclass
@@ -8,6 +8,7 @@ from pathlib import Path
 from platformdirs import PlatformDirs
 from dataclasses_json import dataclass_json
 
+from edulint.atomic_write import write_atomically
 from edulint.versions import pypi_helper
 
 def current_timestamp() -> int:
@@ -53,11 +54,29 @@ class PackageInfoManager:
         return filepath 
 
     @classmethod
-    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
+    def _load_data(cls) -> Dict[str, Any]:
+        """An unreadable or damaged file counts as an empty one; the next save replaces it."""
+        try:
+            with open(cls._package_info_path(), "r", encoding="utf8") as f:
+                data = json.load(f)
+        except (OSError, ValueError):
+            return {}
+        return data if isinstance(data, dict) else {}
+
+    @staticmethod
+    def _to_package_info(raw: Any) -> PackageInfo:
+        if (
+            not isinstance(raw, dict)
+            or not isinstance(raw.get("version"), (str, type(None)))
+            or not isinstance(raw.get("last_update_started", 0), int)
+        ):
+            return PackageInfo()
+        return PackageInfo.from_dict(raw)
 
-        package_info = PackageInfo.from_dict(data.get(package_name, {}))
+    @classmethod
+    def _save_package_info_locally(cls, package_name: str, version = None, last_update_started: Optional[int] = None) -> PackageInfo:
+        data = cls._load_data()
+        package_info = cls._to_package_info(data.get(package_name))
 
         if version:
             package_info.version = version
@@ -65,17 +84,14 @@ class PackageInfoManager:
             package_info.last_update_started = last_update_started
             
         data[package_name] = package_info.to_dict()
-        with open(cls._package_info_path(), "w", encoding="utf8") as f:   # I'm aware there is possible race condition between read write. Risk accepted.
-            json.dump(data, f, indent=4)
+        # I'm aware there is possible race condition between read write. Risk accepted.
+        write_atomically(cls._package_info_path(), json.dumps(data, indent=4).encode("utf8"))
         
         return package_info
 
     @classmethod
     def _get_package_info_locally(cls, package_name: str) -> PackageInfo:
-        with open(cls._package_info_path(), "r", encoding="utf8") as f:
-            data = json.load(f)
-            package_info = PackageInfo.from_dict(data.get(package_name, {}))
-            return package_info
+        return cls._to_package_info(cls._load_data().get(package_name))
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-- 
2.43.0


From b31da9eea8b5534b725778155aa10753ad9bf0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 06/33] fix: announce an update only if a newer full release is
 known

The notice was printed whenever the latest known version differed from the
installed one: with "None" when PyPI could not be reached, for pre-releases,
and for releases older than the installed version. The version it named came
from a second lookup that could fail on its own.
---
 edulint/edulint.py                  |  5 +++--
 edulint/versions/pypi_helper.py     |  2 +-
 edulint/versions/version_checker.py | 18 ++++++++++++++----
 3 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index bd968e6..4f539d9 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -144,10 +144,11 @@ def _update_check():
         "python" if os.name == "nt" else "python3"
     )  # nt is Windows
     version_ttl = 600
-    if PackageInfoManager.is_update_waiting("edulint", ttl=version_ttl):
+    newer_version = PackageInfoManager.get_waiting_update("edulint", ttl=version_ttl)
+    if newer_version is not None:
         try:
             logger.warning(
-                f"Update for EduLint ({PackageInfoManager.get_latest_version('edulint', version_ttl)}) is available. "
+                f"Update for EduLint ({newer_version}) is available. "
                 f"You can upgrade using `{python_executable} -m pip install --upgrade --user edulint`"
             )
         except ValueError as e:
diff --git a/edulint/versions/pypi_helper.py b/edulint/versions/pypi_helper.py
index f7c9daa..a54bf8e 100644
--- a/edulint/versions/pypi_helper.py
+++ b/edulint/versions/pypi_helper.py
@@ -18,7 +18,7 @@ def _fully_released_versions(data: Dict[str, Any]) -> List[Version]:
         is_yanked: bool = any([x.get('yanked') for x in releases[version_id]])
         version_parsed: Optional[Version] = Version.parse(version_id)
 
-        if has_some_builds and not is_yanked and version_parsed:
+        if has_some_builds and not is_yanked and version_parsed and not version_parsed.is_prerelease:
             valid_versions.append(version_parsed)
     
     return valid_versions
diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 8562879..3077e5c 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -10,6 +10,7 @@ from dataclasses_json import dataclass_json
 
 from edulint.atomic_write import write_atomically
 from edulint.versions import pypi_helper
+from edulint.versions.utils import Version
 
 def current_timestamp() -> int:
     return int(time.time())
@@ -110,14 +111,23 @@ class PackageInfoManager:
             return None
 
     @classmethod
-    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+    def get_waiting_update(cls, package_name: str, ttl = 600) -> Optional[str]:
         local_package_version = cls.get_local_module_version(package_name)
         if local_package_version is None: # unable to determine local package version
-            return False
+            return None
 
         latest_version = cls.get_latest_version(package_name, ttl)
-        
-        return local_package_version != latest_version  # This presumes local version is never higher than pypi version
+        if latest_version is None: # the lookup failed or has not finished yet
+            return None
+
+        local_parsed, latest_parsed = Version.parse(local_package_version), Version.parse(latest_version)
+        if local_parsed is None or latest_parsed is None or not local_parsed < latest_parsed:
+            return None
+        return latest_version
+
+    @classmethod
+    def is_update_waiting(cls, package_name: str, ttl = 600) -> bool:
+        return cls.get_waiting_update(package_name, ttl) is not None
 
 
 if __name__ == "__main__":
-- 
2.43.0


From ff0a61ff8a0dbbe9fda187114776efbfffb0e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 07/33] fix: check for a newer version at most once per hour

The help text promises an hour, the code waited ten minutes.
---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index 4f539d9..447190a 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -143,7 +143,7 @@ def _update_check():
     python_executable = sys.executable or (
         "python" if os.name == "nt" else "python3"
     )  # nt is Windows
-    version_ttl = 600
+    version_ttl = 60 * 60  # at most once per hour, see --disable-version-check
     newer_version = PackageInfoManager.get_waiting_update("edulint", ttl=version_ttl)
     if newer_version is not None:
         try:
-- 
2.43.0


From 976f2f462a08a1c2f9f9f316d9c397e4916e0a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 08/33] fix: a timestamp from the future does not hold updates
 off

After the clock was set back, cached configs, the version check and the
explanations update stayed frozen until the clock caught up again.
---
 edulint/config/file_config.py       | 3 ++-
 edulint/explanations.py             | 3 ++-
 edulint/versions/version_checker.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index e94b445..74a5504 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -216,7 +216,8 @@ class CachedHTTPGet:
         try:
             with open(cls._get_metadata_filepath(source), "r", encoding="utf8") as f:
                 metadata = json.load(f)
-            if metadata["timestamp"] + max_age_in_seconds <= cls._get_timestamp():  # todo: int
+            # abs: a timestamp from the future means the clock was set back since; it must not hold updates off
+            if abs(cls._get_timestamp() - metadata["timestamp"]) >= max_age_in_seconds:  # todo: int
                 return None
 
             with open(cls._get_filepath_from_source(source), "r", encoding="utf8") as f:
diff --git a/edulint/explanations.py b/edulint/explanations.py
index bfa8e0b..1afec18 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -68,7 +68,8 @@ def _thread_update_explanations(ttl: int = 600):
         if not Path(EXPLANATIONS_DBM).exists():
             time.sleep(random.randint(1,30)/1000)  # Small random delay to lower the chance for file creation race condition 
         with dbm.open(EXPLANATIONS_DBM, 'c') as db:
-            if current_timestamp() < int(db.get('last_update', b'0')) + ttl:
+            # a timestamp from the future means the clock was set back since; it must not hold updates off
+            if 0 <= current_timestamp() - int(db.get('last_update', b'0')) < ttl:
                 return
             db['last_update'] = str(current_timestamp())  # We're counting any update attempt, not just the succesfull ones
         logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_DBM}.")
diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 3077e5c..3fa2d28 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -97,7 +97,8 @@ class PackageInfoManager:
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
         package_info = cls._get_package_info_locally(package_name)
-        if current_timestamp() < package_info.last_update_started + ttl:
+        # a timestamp from the future means the clock was set back since; it must not hold updates off
+        if 0 <= current_timestamp() - package_info.last_update_started < ttl:
             return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
 
         try:
-- 
2.43.0


From 4f0f4a0c921ef9157826b9aa283133ad7b290d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 09/33] fix: replace cached remote configs atomically

The cached copy was truncated and rewritten in place. A crash, a full disk or a
concurrent run could pair a truncated body with valid metadata, and a prefix of
a TOML file is often a valid config with options missing.
---
 edulint/config/file_config.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index 74a5504..a40830f 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -12,6 +12,8 @@ import tomli
 import requests
 from platformdirs import PlatformDirs
 
+from edulint.atomic_write import write_atomically
+
 
 ALLOWED_FILENAME_LETTERS = string.ascii_letters + string.digits + "-_"
 ALLOW_UNRESTRICTED_LOCAL_PATHS = True
@@ -194,18 +196,16 @@ class CachedHTTPGet:
     @classmethod
     def _write_version_to_disk(cls, source: str, content: str):
         try:
-            with open(cls._get_filepath_from_source(source), "w", encoding="utf8") as f:
-                # security: writing arbitrary content from web is not great, but at least it's written as text
-                f.write(content)
-            with open(cls._get_metadata_filepath(source), "w", encoding="utf8") as f:
-                json.dump(
-                    {
-                        "timestamp": cls._get_timestamp(),
-                        "source": source,
-                    },
-                    f,
-                    indent=4,
-                )
+            # security: writing arbitrary content from web is not great, but at least it's written as text
+            write_atomically(cls._get_filepath_from_source(source), content.encode("utf8"))
+            metadata = json.dumps(
+                {
+                    "timestamp": cls._get_timestamp(),
+                    "source": source,
+                },
+                indent=4,
+            )
+            write_atomically(cls._get_metadata_filepath(source), metadata.encode("utf8"))
         except Exception as e:
             logger.error("saving cache file for configuration failed:\n {e}", e=e)
 
-- 
2.43.0


From 2ec57850a1d1c73855dfcb1261a385dad042c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:45 +0000
Subject: [PATCH 10/33] fix: decode remote configs as UTF-8

Without a charset in the response's headers the text was decoded as ISO-8859-1,
which garbles non-ASCII translations.
---
 edulint/config/file_config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edulint/config/file_config.py b/edulint/config/file_config.py
index a40830f..1cb854f 100644
--- a/edulint/config/file_config.py
+++ b/edulint/config/file_config.py
@@ -143,6 +143,7 @@ class CachedHTTPGet:
         try:
             resp = requests.get(url, timeout=5)
             if resp.status_code == 200:
+                resp.encoding = "utf-8"  # TOML is always UTF-8, whatever the server's headers say or omit
                 content = resp.text
                 cls._write_version_to_disk(url, content)
                 return content
-- 
2.43.0


From 505db43dc9b3109c5d0ea5654e7585470fb4ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:44 +0000
Subject: [PATCH 11/33] fix: do not ask PyPI again while the record of the last
 attempt is unreadable

An I/O error on versions.json left the thread with a traceback; treating it as
an empty record instead would drop the once-per-hour limit.
---
 edulint/versions/version_checker.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 3fa2d28..98934a7 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -56,11 +56,11 @@ class PackageInfoManager:
 
     @classmethod
     def _load_data(cls) -> Dict[str, Any]:
-        """An unreadable or damaged file counts as an empty one; the next save replaces it."""
+        """A damaged file counts as an empty one; the next save replaces it."""
         try:
             with open(cls._package_info_path(), "r", encoding="utf8") as f:
                 data = json.load(f)
-        except (OSError, ValueError):
+        except ValueError:
             return {}
         return data if isinstance(data, dict) else {}
 
@@ -96,12 +96,12 @@ class PackageInfoManager:
 
     @classmethod
     def get_latest_version(cls, package_name: str, ttl = 600) -> Optional[str]:
-        package_info = cls._get_package_info_locally(package_name)
-        # a timestamp from the future means the clock was set back since; it must not hold updates off
-        if 0 <= current_timestamp() - package_info.last_update_started < ttl:
-            return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
-
         try:
+            package_info = cls._get_package_info_locally(package_name)
+            # a timestamp from the future means the clock was set back since; it must not hold updates off
+            if 0 <= current_timestamp() - package_info.last_update_started < ttl:
+                return package_info.version  # The might be None if the previous request didn't finish yet or if it failed.
+
             cls._save_package_info_locally(package_name, last_update_started=current_timestamp())
             versions = pypi_helper.get_versions(package_name)
             sorted_versions = list(sorted(versions, key = lambda x: (x.major, x.minor, x.micro)))
-- 
2.43.0


From 77920e9ae72684d9f67b1d79804ca04f5d88d51c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 12/33] fix: a damaged record of the last explanations update
 does not stop updates for good

The record was a dbm file: opening a damaged one fails forever (and can crash the interpreter).
---
 edulint/explanations.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/edulint/explanations.py b/edulint/explanations.py
index 1afec18..cf00e86 100644
--- a/edulint/explanations.py
+++ b/edulint/explanations.py
@@ -3,9 +3,7 @@ import os
 from threading import Thread
 from pathlib import Path
 from typing import Optional, Dict
-import dbm
 import time
-import random
 
 import tomli
 import requests
@@ -20,7 +18,7 @@ EXPLANATIONS_PIP_DISTRIBUTED_FILEPATH = os.path.join(SCRIPT_PATH, "explanations.
 
 EDULINT_LOCAL_DATA_FOLDER = PlatformDirs(appname="edulint").user_data_dir
 EXPLANATIONS_ONLINE_DISTRIBUTED_FILEPATH = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations_online.toml")
-EXPLANATIONS_DBM = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations.dbm")
+EXPLANATIONS_LAST_UPDATE_FILEPATH = os.path.join(EDULINT_LOCAL_DATA_FOLDER, "explanations_last_update.txt")
 GITHUB_URL = "https://raw.githubusercontent.com/GiraffeReversed/edulint/main/edulint/explanations.toml"
 
 try:
@@ -63,16 +61,23 @@ def update_explanations(disable_explanations_update: bool = False):
     Thread(target=_thread_update_explanations).start()
 
 
+def _load_last_update() -> int:
+    """A damaged record counts as a missing one; the next update attempt replaces it."""
+    try:
+        with open(EXPLANATIONS_LAST_UPDATE_FILEPATH, "rb") as f:
+            return int(f.read())
+    except (FileNotFoundError, ValueError):
+        return 0
+
+
 def _thread_update_explanations(ttl: int = 600): 
     try:
-        if not Path(EXPLANATIONS_DBM).exists():
-            time.sleep(random.randint(1,30)/1000)  # Small random delay to lower the chance for file creation race condition 
-        with dbm.open(EXPLANATIONS_DBM, 'c') as db:
-            # a timestamp from the future means the clock was set back since; it must not hold updates off
-            if 0 <= current_timestamp() - int(db.get('last_update', b'0')) < ttl:
-                return
-            db['last_update'] = str(current_timestamp())  # We're counting any update attempt, not just the succesfull ones
-        logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_DBM}.")
+        # a timestamp from the future means the clock was set back since; it must not hold updates off
+        if 0 <= current_timestamp() - _load_last_update() < ttl:
+            return
+        # We're counting any update attempt, not just the succesfull ones
+        write_atomically(EXPLANATIONS_LAST_UPDATE_FILEPATH, str(current_timestamp()).encode())
+        logger.debug(f"Succesfully wrote current time to {EXPLANATIONS_LAST_UPDATE_FILEPATH}.")
 
         resp = requests.get(GITHUB_URL, timeout=3)
         if resp.status_code != 200:
-- 
2.43.0


From b861d372b3f2b733ef007b4be0bfcd769de9fd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:39 +0000
Subject: [PATCH 13/33] fix: do not truncate versions.json when its existence
 cannot be determined

The missing file was created with open(..., 'w') after an existence check: a failed or outdated check emptied it.
---
 edulint/versions/version_checker.py | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/edulint/versions/version_checker.py b/edulint/versions/version_checker.py
index 98934a7..cb12073 100644
--- a/edulint/versions/version_checker.py
+++ b/edulint/versions/version_checker.py
@@ -40,27 +40,17 @@ class PackageInfoManager:
 
         return None
 
-    @staticmethod
-    def _create_json_file_if_doesnt_exist(filepath: str):
-        if os.path.exists(filepath):
-            return
-        Path(filepath).parent.mkdir(parents=True, exist_ok=True)
-        with open(filepath, "w", encoding="utf8") as f:
-            f.write("{}")
-
     @classmethod
     def _package_info_path(cls):
-        filepath = os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
-        cls._create_json_file_if_doesnt_exist(filepath)
-        return filepath 
+        return os.path.join(PlatformDirs(appname="edulint").user_data_dir, "versions.json")
 
     @classmethod
     def _load_data(cls) -> Dict[str, Any]:
-        """A damaged file counts as an empty one; the next save replaces it."""
+        """A missing or damaged file counts as an empty one; the next save replaces it."""
         try:
             with open(cls._package_info_path(), "r", encoding="utf8") as f:
                 data = json.load(f)
-        except ValueError:
+        except (FileNotFoundError, ValueError):
             return {}
         return data if isinstance(data, dict) else {}
 
@@ -86,6 +76,7 @@ class PackageInfoManager:
             
         data[package_name] = package_info.to_dict()
         # I'm aware there is possible race condition between read write. Risk accepted.
+        Path(cls._package_info_path()).parent.mkdir(parents=True, exist_ok=True)
         write_atomically(cls._package_info_path(), json.dumps(data, indent=4).encode("utf8"))
         
         return package_info
-- 
2.43.0


From 9dfa3c8733b7a36a914190a7ebd0aa6ba398dde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 14/33] fix: an unexpected exception ends the command line with
 a nonzero exit status

---
 edulint/edulint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edulint/edulint.py b/edulint/edulint.py
index 447190a..b959f16 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -292,7 +292,7 @@ def print_message_explanations(args):
     return 0
 
 
-@logger.catch
+@logger.catch(default=2)
 def main() -> int:
     setup_logger()
     option_parses = get_option_parses()
-- 
2.43.0


From 0c130916830b68d52399daf3425fcd7a102a8df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 15/33] fix: restore standard streams when a linter raises or
 is interrupted

---
 edulint/linting/linting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 70970c6..23df21b 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -171,9 +171,9 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stdout = old_stdout
-    sys.stderr = old_stderr
+    finally:
+        sys.stdout = old_stdout
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -204,8 +204,8 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code = 0
     except SystemExit as e:
         return_code = e.code
-
-    sys.stderr = old_stderr
+    finally:
+        sys.stderr = old_stderr
 
     return process_results(
         Linter.PYLINT,
-- 
2.43.0


From bf67cbeb3cf702446191eb035526bc45154d8354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 16/33] fix: do not mix translations of one config file into
 files with another one

---
 edulint/config/config.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 74932aa..99ce704 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -587,12 +587,11 @@ def get_config_many(
         iconfig = config.to_immutable(option_sets)
         language_file = iconfig[Option.LANGUAGE_FILE]
         if language_file is not None:
-            lang_file_translations = lang_file_results.get(
-                language_file, parse_lang_file(iconfig[Option.LANGUAGE_FILE])
-            )
+            if language_file not in lang_file_results:
+                lang_file_results[language_file] = parse_lang_file(language_file)
+            lang_file_translations = lang_file_results[language_file]
             if lang_file_translations is not None:
                 lang_translations = {**lang_translations, **lang_file_translations}
-                lang_file_results[language_file] = lang_translations
 
         result.append((paths, iconfig, lang_translations))
     return result
-- 
2.43.0


From 34a280404030ed55c4bd85e87b6214bda109b824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 17/33] fix: find edulint.toml and .edulint.toml in the
 directories of a checked file

---
 edulint/config/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 99ce704..2e3a6a2 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -341,9 +341,9 @@ def search_for_config_in_parents(path):
     path = Path(path)
     path = (path.parent if path.is_file() else path).absolute()
     while path.parent != path:
-        for elem in path.iterdir():
-            if elem.name == IMPLICIT_CONFIG_FILENAMES:
-                return str(path / elem)
+        for name in IMPLICIT_CONFIG_FILENAMES:
+            if (path / name).is_file():
+                return str(path / name)
         path = path.parent
     return None
 
-- 
2.43.0


From 89105d52e8c7be1d21729570d92f35f3f7034eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:38 +0000
Subject: [PATCH 18/33] fix: do not report files as clean if their config
 cannot be loaded

---
 edulint/config/config.py | 13 ++++++++++---
 edulint/edulint.py       |  7 ++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 2e3a6a2..a769ec0 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -15,7 +15,11 @@ from edulint.option_parses import (
     LANG_TRANSLATIONS_LABEL,
     DEFAULT_ENABLER_LABEL,
 )
-from edulint.config.file_config import load_toml_file, get_path_relative_to
+from edulint.config.file_config import (
+    load_toml_file,
+    get_path_relative_to,
+    EduLintConfigFileException,
+)
 from edulint.config.option_sets import OptionSets, OptionSet, parse_option_sets
 from edulint.config.language_translations import (
     LangTranslations,
@@ -438,7 +442,10 @@ def get_config_one(
     cmd_args: List[str],
     option_parses: Dict[Option, OptionParse] = get_option_parses(),
 ) -> Optional[Tuple[ImmutableConfig, LangTranslations]]:
-    configs = get_config_many([filename], cmd_args, option_parses)
+    try:
+        configs = get_config_many([filename], cmd_args, option_parses)
+    except EduLintConfigFileException:
+        return None
     if len(configs) == 0:
         return None
     _filenames, config, lang_translations = configs[0]
@@ -573,7 +580,7 @@ def get_config_many(
             ]
         )
         if config_file_result is None:
-            continue
+            raise EduLintConfigFileException(f"could not load the config for {', '.join(paths)}")
         file_config, option_sets, lang_translations = config_file_result
 
         if _ignore_infile(file_config):
diff --git a/edulint/edulint.py b/edulint/edulint.py
index b959f16..6481469 100755
--- a/edulint/edulint.py
+++ b/edulint/edulint.py
@@ -1,6 +1,7 @@
 from edulint.options import Option
 from edulint.option_parses import OptionParse, get_option_parses
 from edulint.config.config import get_config_many, get_cmd_args, ImmutableConfig
+from edulint.config.file_config import EduLintConfigFileException
 from edulint.config.language_translations import LangTranslations
 from edulint.linting.problem import Problem
 from edulint.linting.linting import lint_many, sort, EduLintLinterFailedException
@@ -168,7 +169,11 @@ def _check_code(
             return None
 
     cmd_args = get_cmd_args(options)
-    file_configs = get_config_many(files_or_dirs, cmd_args, option_parses=option_parses)
+    try:
+        file_configs = get_config_many(files_or_dirs, cmd_args, option_parses=option_parses)
+    except EduLintConfigFileException as e:
+        logger.opt(raw=True, colors=True).critical(f"<red>EduLint linting failed:</red> {e}\n")
+        return None
 
     try:
         results = lint_many(file_configs)
-- 
2.43.0


From 50ae3e6a670ec2557134e40713a868250d392591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:30 +0000
Subject: [PATCH 19/33] fix: search for edulint.toml only in real parent
 directories of a checked file

---
 edulint/config/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index a769ec0..3657242 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -342,8 +342,8 @@ def resolve_ignore_infile_config(parsed: List[UnprocessedArg], config: Config) -
 
 
 def search_for_config_in_parents(path):
-    path = Path(path)
-    path = (path.parent if path.is_file() else path).absolute()
+    path = Path(os.path.abspath(path))  # unlike Path.absolute, resolves ".."
+    path = path.parent if path.is_file() else path
     while path.parent != path:
         for name in IMPLICIT_CONFIG_FILENAMES:
             if (path / name).is_file():
-- 
2.43.0


From 642e0a47985a52f51132b961871845ce7e785baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 20/33] fix: checks in a long-lived process see the current
 content of files

---
 edulint/linting/linting.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 23df21b..eaa01e8 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -17,6 +17,9 @@ from pathlib import Path
 from loguru import logger
 
 
+_has_linted = False
+
+
 class EduLintLinterFailedException(Exception):
     pass
 
@@ -305,9 +308,22 @@ def translate(lang_translations: LangTranslations, problem: Problem):
     return problem
 
 
+def forget_earlier_runs() -> None:
+    """Pylint keeps the syntax trees of files as they were when it first read them."""
+    global _has_linted
+    if _has_linted:
+        from astroid import MANAGER
+        from pylint.checkers.utils import clear_lru_caches
+
+        clear_lru_caches()
+        MANAGER.clear_cache()
+    _has_linted = True
+
+
 def lint_many(
     partition: List[Tuple[List[str], ImmutableConfig, LangTranslations]],
 ) -> List[Problem]:
+    forget_earlier_runs()
     return [
         translate(lang_translations, problem)
         for files_or_dirs, config, lang_translations in partition
-- 
2.43.0


From bd053682fec06106c5b35230f47c21eb9882b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:43 +0000
Subject: [PATCH 21/33] fix: checks started from several threads do not mix up
 their results

---
 edulint/linting/linting.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index eaa01e8..fe273c9 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -10,6 +10,7 @@ from edulint.config.language_translations import LangTranslations
 from edulint.options import Option, ImmutableT
 from edulint.linters import Linter
 from functools import partial
+from threading import Lock
 import sys
 import json
 import os
@@ -17,6 +18,8 @@ from pathlib import Path
 from loguru import logger
 
 
+# the linters' state and the redirected standard streams are shared by the whole process
+_lint_lock = Lock()
 _has_linted = False
 
 
@@ -323,9 +326,10 @@ def forget_earlier_runs() -> None:
 def lint_many(
     partition: List[Tuple[List[str], ImmutableConfig, LangTranslations]],
 ) -> List[Problem]:
-    forget_earlier_runs()
-    return [
-        translate(lang_translations, problem)
-        for files_or_dirs, config, lang_translations in partition
-        for problem in lint(files_or_dirs, config)
-    ]
+    with _lint_lock:
+        forget_earlier_runs()
+        return [
+            translate(lang_translations, problem)
+            for files_or_dirs, config, lang_translations in partition
+            for problem in lint(files_or_dirs, config)
+        ]
-- 
2.43.0


From 79099d21deaff78f0200484691c471dba88a35f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:10 +0000
Subject: [PATCH 22/33] fix: report files that pylint fails to check whatever
 messages are enabled

---
 edulint/linting/linting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index fe273c9..610670b 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -193,7 +193,12 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 
 
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
-    pylint_args = ["--recursive=y"] + list(config[Option.PYLINT]) + files_or_dirs
+    pylint_args = (
+        ["--recursive=y"]
+        + list(config[Option.PYLINT])
+        + ["--enable=astroid-error,parse-error"]  # the file could not be (completely) checked
+        + files_or_dirs
+    )
 
     from pylint.lint import Run
     from pylint.reporters.json_reporter import JSON2Reporter
-- 
2.43.0


From 152516afe0000b1baccb90ffa15d386f3dcc576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:51 +0000
Subject: [PATCH 23/33] fix: a linter that ends without a report is an error

---
 edulint/linting/linting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index 610670b..ff9219b 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -141,8 +141,8 @@ def process_results(
     ):
         raise EduLintLinterFailedException(f"{linter} exited with return code {return_code}")
 
-    if not outs:
-        return []
+    if not outs:  # even with no problems, the report is not empty
+        raise EduLintLinterFailedException(f"{linter} ended without a report")
 
     try:
         parsed = json.loads(outs)
-- 
2.43.0


From 7f570b9abca067b5469e254acb2340b6ae033b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:06 +0000
Subject: [PATCH 24/33] fix: standard streams are redirected only where they
 get restored

---
 edulint/linting/linting.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index ff9219b..e2d9572 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -164,22 +164,17 @@ def lint_edulint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Prob
 def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     from flake8.main.application import Application
 
-    new_stdout = StringIO()
-    old_stdout = sys.stdout
-    sys.stdout = new_stdout
-
-    new_stderr = StringIO()
-    old_stderr = sys.stderr
-    sys.stderr = new_stderr
+    new_stdout, new_stderr = StringIO(), StringIO()
+    old_stdout, old_stderr = sys.stdout, sys.stderr
 
     try:
+        sys.stdout, sys.stderr = new_stdout, new_stderr
         Application()._run(["--format=json"] + list(config[Option.FLAKE8]) + files_or_dirs)
         return_code = 0
     except SystemExit as e:
         return_code = e.code
     finally:
-        sys.stdout = old_stdout
-        sys.stderr = old_stderr
+        sys.stdout, sys.stderr = old_stdout, old_stderr
 
     return process_results(
         Linter.FLAKE8,
@@ -208,9 +203,9 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
 
     new_stderr = StringIO()
     old_stderr = sys.stderr
-    sys.stderr = new_stderr
 
     try:
+        sys.stderr = new_stderr
         Run(pylint_args, reporter=reporter, exit=False)
         return_code = 0
     except SystemExit as e:
-- 
2.43.0


From c162f8157ad57ed217acdc985ea22b2ff71d5161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 25/33] fix: do not skip folders whose type cannot be
 determined

---
 edulint/config/config.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index 3657242..f579ae1 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -31,8 +31,10 @@ from typing import Dict, List, Optional, Tuple, Iterator, Any
 
 from dataclasses import dataclass
 from pathlib import Path
+import errno
 import re
 import shlex
+import stat
 from loguru import logger
 import os
 
@@ -526,8 +528,16 @@ def _parse_infile_configs(
                     result[iconfig][1].extend(subpaths)
         return result
 
+    def is_dir(path: str) -> bool:
+        try:
+            return stat.S_ISDIR(os.stat(path).st_mode)
+        except OSError as e:
+            if e.errno in (errno.ENOENT, errno.ELOOP):  # a broken link
+                return False
+            raise
+
     def _parse_infile_configs_rec(path: str):
-        if not os.path.isdir(path):
+        if not is_dir(path):
             if not os.path.splitext(path)[1].lower() == ".py":
                 return {}
 
-- 
2.43.0


From 1de0b9f0d6de2ae692e6b246c69fd17ee7813368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:48 +0000
Subject: [PATCH 26/33] fix: problems of files given through symbolic links or
 from inside of the checked folder are reported

---
 edulint/linting/linting.py | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index e2d9572..e3ffd25 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -31,6 +31,13 @@ def get_proper_path(path: str) -> str:
     return os.path.abspath(path) if os.path.isabs(path) else os.path.relpath(path)
 
 
+def is_in(path: str, file_or_dir: str) -> bool:
+    # the linters keep symbolic links in the paths they report
+    abs_path = Path(os.path.abspath(path))
+    abs_fd = Path(os.path.abspath(file_or_dir))
+    return abs_fd == abs_path or abs_fd in abs_path.parents
+
+
 def flake8_to_problem(enablers: Dict[str, str], raw: ProblemJson) -> Problem:
     assert isinstance(raw["filename"], str), f'got {type(raw["filename"])} for filename'
     assert isinstance(raw["line_number"], int), f'got {type(raw["line_number"])} for line_number'
@@ -75,22 +82,9 @@ def pylint_to_problem(
         if is_pylint_out_of_file_problem(path):
             return path
 
-        path = Path(path)
-        abs_path = path.resolve()
-        for fd in [Path(path) for path in files_or_dirs]:
-            abs_fd = fd.resolve()
-            if abs_fd == abs_path or abs_fd in abs_path.parents:
-                if fd.is_absolute():
-                    return abs_path
-                else:
-                    cwd_parts = Path.cwd().parts
-                    abs_path_parts = abs_path.parts
-
-                    for i in range(min(len(cwd_parts), len(abs_path_parts))):
-                        if cwd_parts[i] != abs_path_parts[i]:
-                            break
-
-                    return Path(*[".."] * (len(cwd_parts) - i), *abs_path_parts[i:])
+        for fd in files_or_dirs:
+            if is_in(path, fd):
+                return os.path.abspath(path) if os.path.isabs(fd) else os.path.relpath(path)
         assert False, f"unreachable, but {path}"
 
     code_enabler = enablers.get(raw["messageId"])
@@ -264,15 +258,12 @@ def lint_one(filename: str, config: Tuple[ImmutableConfig, LangTranslations]) ->
 
 
 def sort(files_or_dirs: List[str], problems: List[Problem]) -> List[Problem]:
-    files_or_dirs = [Path(path) for path in files_or_dirs]
-
     def get_file_or_dir_index(path: str):
         if is_pylint_out_of_file_problem(path):
             return -1
 
-        path = Path(path)
         for i, fd in enumerate(files_or_dirs):
-            if fd == path or fd in path.parents:
+            if is_in(path, fd):
                 return i
         assert False, "unreachable"
 
-- 
2.43.0


From a0a44ae0437160e5fd6db77cc612c461802d1c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:00 +0000
Subject: [PATCH 27/33] fix: the order of reported configs does not depend on
 the order of directory entries

---
 edulint/config/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index f579ae1..cbb151d 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -544,7 +544,8 @@ def _parse_infile_configs(
             infile_config = parse_infile_config(path, option_parses)
             return {infile_config.to_immutable(log_unknown_groups=False): (infile_config, [path])}
 
-        result = aggregate_subresults([os.path.join(path, name) for name in os.listdir(path)])
+        names = sorted(os.listdir(path))
+        result = aggregate_subresults([os.path.join(path, name) for name in names])
 
         if len(result) != 1:
             return result
-- 
2.43.0


From b566172fc400c357324a707b8e19539620154ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 28/33] fix: report files that flake8 fails to read whatever
 messages are enabled

---
 edulint/linting/linting.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index e3ffd25..d96b85d 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -161,16 +161,17 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     new_stdout, new_stderr = StringIO(), StringIO()
     old_stdout, old_stderr = sys.stdout, sys.stderr
 
+    app = Application()
     try:
         sys.stdout, sys.stderr = new_stdout, new_stderr
-        Application()._run(["--format=json"] + list(config[Option.FLAKE8]) + files_or_dirs)
+        app._run(["--format=json"] + list(config[Option.FLAKE8]) + files_or_dirs)
         return_code = 0
     except SystemExit as e:
         return_code = e.code
     finally:
         sys.stdout, sys.stderr = old_stdout, old_stderr
 
-    return process_results(
+    problems = process_results(
         Linter.FLAKE8,
         return_code,
         new_stdout.getvalue(),
@@ -180,6 +181,16 @@ def lint_flake8(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         config.enablers,
     )
 
+    reported = {problem.path for problem in problems if problem.code == "E902"}
+    for filename, results, _statistics in app.file_checker_manager.results:
+        if get_proper_path(filename) in reported:
+            continue
+        for code, line, _column, text, _physical_line in results:
+            if (code, line) == ("E902", 0) and not text.startswith("FileNotFoundError"):
+                raise EduLintLinterFailedException(f"{Linter.FLAKE8} failed on {filename}: {text}")
+
+    return problems
+
 
 def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Problem]:
     pylint_args = (
-- 
2.43.0


From 5442d5b1eb74c81a981bcedc560b31fb89014a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:42 +0000
Subject: [PATCH 29/33] fix: report files on which pylint crashes whatever
 messages are enabled

---
 edulint/linting/linting.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/linting.py b/edulint/linting/linting.py
index d96b85d..215672f 100644
--- a/edulint/linting/linting.py
+++ b/edulint/linting/linting.py
@@ -62,6 +62,14 @@ def is_pylint_out_of_file_problem(path):
     return any(segment in path.lower() for segment in ("command line", "configuration file"))
 
 
+def is_about_missing_file(raw: ProblemJson) -> bool:
+    return (
+        raw["symbol"] == "fatal"
+        and raw["message"].startswith("No module named")
+        and not os.path.exists(raw["path"])
+    )
+
+
 def pylint_to_problem(
     files_or_dirs: List[str], enablers: Dict[str, str], raw: ProblemJson
 ) -> Problem:
@@ -196,7 +204,7 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
     pylint_args = (
         ["--recursive=y"]
         + list(config[Option.PYLINT])
-        + ["--enable=astroid-error,parse-error"]  # the file could not be (completely) checked
+        + ["--enable=fatal,astroid-error,parse-error"]  # the file could not be (completely) checked
         + files_or_dirs
     )
 
@@ -223,7 +231,7 @@ def lint_pylint(files_or_dirs: List[str], config: ImmutableConfig) -> List[Probl
         return_code,
         output.getvalue(),
         new_stderr.getvalue(),
-        lambda r: r["messages"],
+        lambda r: [m for m in r["messages"] if not is_about_missing_file(m)],
         partial(pylint_to_problem, files_or_dirs),
         config.enablers,
     )
-- 
2.43.0


From dc21d18b649305f05cad51f05f808502cdde7f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:53 +0000
Subject: [PATCH 30/33] fix: values of pylint's arguments keep their letter
 case

---
 edulint/config/config.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/edulint/config/config.py b/edulint/config/config.py
index cbb151d..1cd7f5f 100644
--- a/edulint/config/config.py
+++ b/edulint/config/config.py
@@ -162,20 +162,21 @@ class Config:
         result = []
         all_set, enable = False, False
         for arg in reversed(pylint_args):
-            arg = arg.lower()
-            if arg == "--enable=noop":
+            lowered = arg.lower()
+            if lowered == "--enable=noop":
                 pass
-            elif arg in ("--disable=all", "--enable=all"):
+            elif lowered in ("--disable=all", "--enable=all"):
                 if all_set:
                     continue
                 all_set = True
-                enable = arg == "--enable=all"
+                enable = lowered == "--enable=all"
             elif all_set and (
-                (arg.startswith("--disable") and enable)
-                or (arg.startswith("--enable") and not enable)
+                (lowered.startswith("--disable") and enable)
+                or (lowered.startswith("--enable") and not enable)
             ):
                 continue
-            result.append(arg)
+            # values of other arguments (names, regular expressions, paths) are case sensitive
+            result.append(lowered if lowered.startswith(("--enable", "--disable")) else arg)
 
         result.reverse()
         return result
-- 
2.43.0


From 299ea2f7fe03db7a4b8ed4958aad7bd51cbbaccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 31/33] fix: a child's own exit status is not mistaken for a
 timeout

---
 edulint/linting/process_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/process_handler.py b/edulint/linting/process_handler.py
index 0955da5..bd42b4e 100644
--- a/edulint/linting/process_handler.py
+++ b/edulint/linting/process_handler.py
@@ -8,8 +8,8 @@ from loguru import logger
 
 """ Author: Ondrej Borysek, License: MIT, Last update: 2021-04-19"""
 
-SIGKILL_STATUS_CODE = 137 - 128  # -9
-SIGTERM_STATUS_CODE = 143 - 128  # -15
+SIGKILL_STATUS_CODE = 128 - 137  # -9
+SIGTERM_STATUS_CODE = 128 - 143  # -15
 
 
 class ProcessHandler:
-- 
2.43.0


From ee9b7ae0d16e1a9f88e87280fdd1ce6cfa12a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 32/33] fix: output that is not valid UTF-8 does not crash the
 process handler

---
 edulint/linting/process_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edulint/linting/process_handler.py b/edulint/linting/process_handler.py
index bd42b4e..e42f3bb 100644
--- a/edulint/linting/process_handler.py
+++ b/edulint/linting/process_handler.py
@@ -82,7 +82,8 @@ class ProcessHandler:
             # proc.returncode will be ignored
 
         self.__kill_children()
-        return return_code, outb.decode(), errb.decode()
+        # a killed child may have been cut in the middle of a character
+        return return_code, outb.decode(errors="replace"), errb.decode(errors="replace")
 
     @staticmethod
     def run(
-- 
2.43.0


From d18f6fdcb85b8264514afbcadcda6c71d9eded36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:47 +0000
Subject: [PATCH 33/33] fix: a timeout holds even if a grandchild keeps the
 output open

---
 edulint/linting/process_handler.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edulint/linting/process_handler.py b/edulint/linting/process_handler.py
index e42f3bb..9b008f3 100644
--- a/edulint/linting/process_handler.py
+++ b/edulint/linting/process_handler.py
@@ -78,8 +78,12 @@ class ProcessHandler:
         except TimeoutExpired:
             logger.warning("timeout, trying to kill")
             proc.kill()
-            outb, errb = proc.communicate()
-            # proc.returncode will be ignored
+            try:
+                outb, errb = proc.communicate(timeout=self.sigterm_grace_period)
+                # proc.returncode will be ignored
+            except TimeoutExpired as e:
+                # the child does not die or has passed its output on to a process that outlives it
+                outb, errb = e.stdout or b"", e.stderr or b""
 
         self.__kill_children()
         # a killed child may have been cut in the middle of a character
-- 
2.43.0

