From c70bed652fca75dba59d4812499dbd75ad91a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 01/47] fix: accept valid source descriptions on python 3

The keys view of a source description cannot be indexed, which made every
source file invalid; the cause of an invalid spec name was lost as well.
---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index eaeb3cc..82f3559 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -170,7 +170,7 @@ def verify_source_description(descr):
     if not isinstance(descr, dict):
         raise ValueError("Expected source description to be a dictionary, but "
                          "got '{0}'.".format(to_str(type(descr))))
-    keys = descr.keys()
+    keys = list(descr.keys())
     if not len(keys) == 1:
         raise ValueError("Expected source description to have one entry, but "
                          "got keys '{0}'.".format(keys))
@@ -178,7 +178,7 @@ def verify_source_description(descr):
         verify_spec_name(keys[0])
     except ValueError as e:
         raise_from(ValueError, "source description does not have valid "
-                   "spec name '{0}'".format(keys[0], e))
+                   "spec name '{0}'".format(keys[0]), e)
 
 
 def sources_cache_dir(cache_dir):
-- 
2.43.0


From 0650555e581d7fc6385b4009a46a5c5079166ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 02/47] fix: make the rules database usable on python 3

Item views cannot be indexed and hashing needs bytes.
---
 xylem/sources/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f0ce0bc..a4044da 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -29,6 +29,7 @@ from xylem.log_utils import is_verbose
 from xylem.log_utils import debug
 from .impl import get_default_source_descriptions
 from .impl import get_source_descriptions
+from xylem.text_utils import to_bytes
 from xylem.text_utils import to_str
 from xylem.sources.rules_dict import verify_installer_dict
 from xylem.sources.rules_dict import merge_installer_dict
@@ -38,7 +39,7 @@ from xylem.sources.rules_dict import merge_installer_dict
 
 
 def _id_string(unique_id):
-    return hashlib.sha1(unique_id).hexdigest()
+    return hashlib.sha1(to_bytes(unique_id)).hexdigest()
 
 
 def _cache_file_path(cache_dir, unique_id):
@@ -210,7 +211,7 @@ class RulesDatabase(object):
             sources_gen = get_default_source_descriptions()
         for source_file, source_descriptions in sources_gen:
             for descr in source_descriptions:
-                spec_name, arguments = descr.items()[0]
+                spec_name, arguments = list(descr.items())[0]
                 spec = self.sources_context.get_spec(spec_name)
                 self.sources.append(RulesSource(
                     spec,
-- 
2.43.0


From b41edd0abd225f516e0e01b17bda5a5577f60cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 03/47] fix: repair the check for outdated caches

The cache data was called instead of indexed and the load time was not
passed on to the spec plugin.
---
 xylem/sources/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index a4044da..d265651 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -151,9 +151,10 @@ class RulesSource(object):
             return True
         cache_data = _read_cache(self.cache_file_path())
         # here we could also check xylem version if needed in the future
-        if self.spec.name != cache_data('spec_name'):
+        if self.spec.name != cache_data['spec_name']:
             return True
-        return self.spec.is_data_outdated(cache_data['data'], self.arguments)
+        return self.spec.is_data_outdated(cache_data['data'], self.arguments,
+                                          cache_data['time_data_loaded'])
 
     def is_cache_available(self):
         path = self.cache_file_path()
-- 
2.43.0


From 0c451d6ba644317bf0a4d9d5ac4f6930c5d555a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 04/47] fix: repair removing the cache file of a source

---
 xylem/sources/database.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index d265651..407cecd 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -167,14 +167,14 @@ class RulesSource(object):
 
         :raises OSError: if cache file cannot be removed
         """
-        path = self.cache_file_path(self.sources_context)
+        path = self.cache_file_path()
         if os.path.exists(path):
             if is_verbose():
-                info("Removing cache file '%s'.", path)
+                info("Removing cache file '%s'." % path)
             os.remove(path)
         else:
             if is_verbose():
-                info("Cache file '%s' already clear.", path)
+                info("Cache file '%s' already clear." % path)
 
     def lookup(self, xylem_key, installer_context):
         installer_dict = self.spec.lookup(
-- 
2.43.0


From 6c0a16bf2d2309ade76e7167f3bba116a7116759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 05/47] fix: replace cache files atomically

An update interrupted while writing a cache file destroyed the previous
cache and left a file that cannot be loaded.
---
 xylem/sources/database.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index 407cecd..f3be90c 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -93,9 +93,13 @@ def _read_cache(filepath):
 
 
 def _write_cache(cache_data, filepath):
-    with open(filepath, 'wb') as f:
+    # write to a temporary file first, such that an interrupted or failing
+    # write never damages an existing cache file
+    tmp_filepath = filepath + ".tmp"
+    with open(tmp_filepath, 'wb') as f:
         # protocol 2 is compatible with python 2 and 3
         pickle.dump(cache_data, f, protocol=2)
+    os.rename(tmp_filepath, filepath)
 
 
 class RulesSource(object):
-- 
2.43.0


From 65726e046ad433fa81e6c7c1143edda101ad5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 06/47] fix: load source files in alphabetical order, skip
 hidden ones

The documented priority of sources is the alphabetical order of the
files, but the order of the directory listing was used. The test for
hidden files looked at the directory part of the path.
---
 xylem/sources/impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 82f3559..729caf6 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -85,12 +85,12 @@ def load_sources_from_path(path):
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
     return _load_sources(
-        [os.path.join(path, s) for s in os.listdir(path)])
+        [os.path.join(path, s) for s in sorted(os.listdir(path))])
 
 
 def _load_sources(files):
     for file_path in files:
-        if file_path.startswith('.'):
+        if os.path.basename(file_path).startswith('.'):
             continue
         if not file_path.endswith('.yaml'):
             continue
-- 
2.43.0


From 7f19e7de637d28f15f9908e9d89b37cb2c1e071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 07/47] fix: merge any_version rules of the default installer

Merging two rules dicts with 'default_installer' rules for any_version of
the same os raised ValueError.
---
 xylem/sources/rules_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 2922a08..7557cee 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -378,7 +378,8 @@ def merge_version_dict(new_version_dict, combined_version_dict,
             remove_rule_for_all_versions(combined_version_dict, installer)
         if "any_version" in combined_version_dict:
             merge_installer_dict(
-                new_installer_dict, combined_version_dict["any_version"], None)
+                new_installer_dict, combined_version_dict["any_version"],
+                default_installer)
         else:
             combined_version_dict["any_version"] = copy_installer_dict(
                 new_installer_dict, default_installer)
-- 
2.43.0


From d4d150e831f708eb2353b4d6a7c11ed0e103c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 08/47] fix: honor allow_default_installer when verifying rules
 dicts

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 7557cee..58974e8 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -99,7 +99,7 @@ def verify_rules_dict(rules_dict, allow_default_installer=True):
             raise_from(ValueError, "Expected rules dict to have xylem keys as "
                        "keys.", e)
         try:
-            verify_os_dict(os_dict)
+            verify_os_dict(os_dict, allow_default_installer)
         except ValueError as e:
             raise_from(ValueError, "Expected rules dict to have valid os "
                        "dicts as values, but got error for key '{0}'.".
-- 
2.43.0


From 9b3eae7d0beb00d14cc42cf975b49fce2c1e5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 09/47] fix: reject identifiers with a trailing newline in
 rules dicts

---
 xylem/sources/rules_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 58974e8..452167a 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -280,7 +280,7 @@ def verify_rules_dict_identifier(identifier, kind, allow_keywords=[]):
                          format(kind, identifier))
     if identifier in rules_dict_whitelist:
         return
-    if not re.match('(?u)^[\w.’+-]+$', identifier):
+    if not re.match('(?u)^[\w.’+-]+\\Z', identifier):
         raise ValueError(
             "{0} '{1}' has disallowed characters. Allowed are: alphanumeric, "
             "dash, dot, underscore.".format(kind, identifier))
-- 
2.43.0


From 235cd13a52efad944b31903498cbbb38b59c5b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:27 +0000
Subject: [PATCH 10/47] fix: raise the parsing error for malformed rules files

Initializing ValueError on an object that is no ValueError raises
TypeError.
---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index 620f4fe..e398384 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        ValueError.__init__(self, msg)
+        super(SpecParsingError, self).__init__(msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From 96de05f0ef969bba6134e93ad46400861e05a0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 11/47] fix: make reinstall work, report errors detecting
 uninstalled packages

---
 xylem/install.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/xylem/install.py b/xylem/install.py
index 0f833a8..28fdb43 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -25,14 +25,12 @@ from xylem.installers import InstallerError
 from xylem.resolve import resolve
 
 from xylem.exception import raise_from
-from xylem.exception import exc_to_str
 from xylem.exception import chain_exception
 from xylem.exception import XylemError
 from xylem.exception import XylemInternalError
 
 from xylem.log_utils import info
 from xylem.log_utils import info_v
-from xylem.log_utils import error
 
 from xylem.util import remove_duplicates
 
@@ -83,16 +81,13 @@ def install(xylem_keys,
                                 interactive=interactive)
 
     #  4. Determine uninstalled resolutions
+    uninstalled_errors = []
     if not reinstall:
         resolved, uninstalled_errors = filter_uninstalled(
             resolved, installer_context)
-        # TODO: figure out what exactly to do with these errors... For
-        #       now print them here
-        for err in uninstalled_errors:
-            error(exc_to_str(uninstalled_errors))
 
     if uninstalled_errors and not continue_on_error:
-        return resolve_errors, []
+        return resolve_errors, uninstalled_errors
 
     #  5. check prerequisites all resolutions to be installed
     check_install_prerequisites(_map_resolutions(resolved),
@@ -108,7 +103,7 @@ def install(xylem_keys,
                                       simulate=simulate,
                                       continue_on_error=continue_on_error)
 
-    return resolve_errors, install_errors
+    return resolve_errors, uninstalled_errors + install_errors
 
 
 def _installer_names(resolved):
-- 
2.43.0


From 2adb4bf0688c34b3dbdff2f028abacab6df63ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 12/47] fix: report installers failing to compose install
 commands

---
 xylem/install.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/install.py b/xylem/install.py
index 28fdb43..97d53ae 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -238,6 +238,7 @@ def install_resolutions(installer_name,
             "for resolutions {} with options `interactive={}` and "
             "`reinstall={}`".
             format(installer_name, resolutions, interactive, reinstall), e))
+        return errors
     except Exception as e:
         raise_from(
             XylemInternalError, "unexpected error in installer '{}' while "
-- 
2.43.0


From 9924f9d1c320059b1e7e16a0c72e31640ea721ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 13/47] fix: do not execute prerequisite fixes in dry runs

---
 xylem/install.py                              | 4 ++++
 xylem/installers/package_manager_installer.py | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/xylem/install.py b/xylem/install.py
index 97d53ae..fc17f78 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -74,6 +74,10 @@ def install(xylem_keys,
 
     resolved = _squash_resolutions(res_tuple for _, res_tuple in results)
 
+    # when simulating, installers must not actually execute any fixes
+    if fix_prerequisites and simulate:
+        fix_prerequisites = "simulate"
+
     #  3. check general prerequisites for all installers
     check_general_prerequisites(_installer_names(resolved),
                                 installer_context,
diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 4ec7150..0195832 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -19,6 +19,7 @@ from .impl import InstallerPrerequisiteError
 
 from xylem.util import is_program_installed
 
+from xylem.log_utils import info
 from xylem.log_utils import info_v
 from xylem.log_utils import warning
 from xylem.log_utils import error
@@ -73,6 +74,10 @@ class PackageManagerInstaller(InstallerBase):
             return
         info_v("Package manager '{}' not installed ('{}' not found).".
                format(self.name, self.executable_name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would try to install package manager".
+                 format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to install '{}'.".format(self.name))
             try:
@@ -110,6 +115,10 @@ class PackageManagerInstaller(InstallerBase):
             info_v("Package manager '{}' is updated.".format(self.name))
             return
         info_v("Package manager '{}' not updated.".format(self.name))
+        if fix_unsatisfied == "simulate":
+            info("# [{}] would try to update package manager".
+                 format(self.name))
+            return
         if fix_unsatisfied:
             info_v("Trying to update '{}'.".format(self.name))
             try:
-- 
2.43.0


From a497dafa6ff0a03bbd813a9adb7c04e4db959711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 14/47] fix: name the package manager in the out-of-date
 warning

---
 xylem/installers/package_manager_installer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/package_manager_installer.py b/xylem/installers/package_manager_installer.py
index 0195832..612d87d 100644
--- a/xylem/installers/package_manager_installer.py
+++ b/xylem/installers/package_manager_installer.py
@@ -132,4 +132,4 @@ class PackageManagerInstaller(InstallerBase):
                 error("Installer plugin '{}' failed to update itself.".
                       format(self.name))
         warning("Package manager '{}' seems to be out-of-date. Please "
-                "consider updating for best results.")
+                "consider updating for best results.".format(self.name))
-- 
2.43.0


From e650875ce80104ce65262d6465b5cae7ee3d8eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 15/47] fix: match the signature of install_package_manager in
 plugins

---
 xylem/installers/plugins/apt.py      | 2 +-
 xylem/installers/plugins/homebrew.py | 2 +-
 xylem/installers/plugins/macports.py | 2 +-
 xylem/installers/plugins/pip.py      | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xylem/installers/plugins/apt.py b/xylem/installers/plugins/apt.py
index 67fa757..a67b0ee 100644
--- a/xylem/installers/plugins/apt.py
+++ b/xylem/installers/plugins/apt.py
@@ -53,7 +53,7 @@ class AptInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: raise UserInterventionRequiredError with instructions,
         # handle this error specially and print instructions
         raise NotImplementedError()
diff --git a/xylem/installers/plugins/homebrew.py b/xylem/installers/plugins/homebrew.py
index 66c78f2..c4349ef 100644
--- a/xylem/installers/plugins/homebrew.py
+++ b/xylem/installers/plugins/homebrew.py
@@ -57,7 +57,7 @@ class HomebrewInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/macports.py b/xylem/installers/plugins/macports.py
index 5a302cb..6cebe6b 100644
--- a/xylem/installers/plugins/macports.py
+++ b/xylem/installers/plugins/macports.py
@@ -53,7 +53,7 @@ class MacportsInstaller(PackageManagerInstaller):
         # FIXME
         return resolved
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: install brew with ruby
         raise NotImplementedError()
 
diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 3ad68e8..32b4725 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -63,7 +63,7 @@ class PipInstaller(PackageManagerInstaller):
         installed = [row.split("==")[0] for row in installed]
         return [r for r in resolved if r.package not in installed]
 
-    def install_package_manager(self, os_tuple):
+    def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
         raise NotImplementedError()
 
-- 
2.43.0


From 23afb26fe696ee82593c3940c28d23bf99b506d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 16/47] fix: print commands containing '@' or '{'

---
 xylem/install.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index fc17f78..781b656 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -34,6 +34,7 @@ from xylem.log_utils import info_v
 
 from xylem.util import remove_duplicates
 
+from xylem.terminal_color import ansi
 from xylem.terminal_color import fmt
 
 
@@ -263,7 +264,7 @@ def install_resolutions(installer_name,
 
     # 2. else, run each install command set and collect errors
     for cmd in commands:
-        info(fmt("@!executing command: %s@|" % ' '.join(cmd)))
+        info(ansi('boldon') + "executing command: %s" % ' '.join(cmd))
         exitcode = subprocess.call(cmd)
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
-- 
2.43.0


From 0002caae1080dafe00a11f4843d15ae114157882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:43 +0000
Subject: [PATCH 17/47] fix: return the installer dict of non-compact lookups

---
 xylem/lookup.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index b4e4d50..0ea02ee 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -37,7 +37,7 @@ def lookup(xylem_key, compact=False, config=None, sources_context=None,
 
     if compact:
         default_installer_name = ic.get_default_installer_name()
-        compacted = compact_installer_dict(installer_dict,
-                                           default_installer_name)
+        return compact_installer_dict(installer_dict,
+                                      default_installer_name)
 
-    return compacted
+    return installer_dict
-- 
2.43.0


From 4cbec1a11f6a5de332ed1b588c837f38fb4d5b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 18/47] fix: do not touch the cache in update dry runs

---
 xylem/sources/database.py | 4 +++-
 xylem/update.py           | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f3be90c..f81dbf4 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -276,7 +276,7 @@ class RulesDatabase(object):
                     error("Failed to load source '{0}':\n{1}".
                           format(source.unique_id(), e))
 
-    def update(self):
+    def update(self, dry_run=False):
         # TODO: save exceptions if they are not raised and then for the
         # cli command recognize permission errors and suggest to use
         # 'sudo'
@@ -303,6 +303,8 @@ class RulesDatabase(object):
                     error("Failed to load source '{0}':\n{1}".
                           format(source.unique_id(), e))
             else:
+                if dry_run:
+                    continue
                 try:
                     source.save_to_cache()
                 except Exception as e:
diff --git a/xylem/update.py b/xylem/update.py
index 09abf20..b5dbe1d 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -78,9 +78,10 @@ def update(dry_run=False, config=None, sources_context=None):
     if config is None:
         config = get_config()
     sources_context = sources_context or SourcesContext(config)
-    sources_context.ensure_cache_dir()
+    if not dry_run:
+        sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
     database.print_info = True
     # support partial update of local sources even without connectivity:
     database.raise_on_error = False
-    database.update()
+    database.update(dry_run=dry_run)
-- 
2.43.0


From b1c6eff99e59a0ac0c56a73fa0f6249373a140bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 19/47] fix: make resolution objects hashable

---
 xylem/installers/installer_base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/xylem/installers/installer_base.py b/xylem/installers/installer_base.py
index 90e6fa8..1f37102 100644
--- a/xylem/installers/installer_base.py
+++ b/xylem/installers/installer_base.py
@@ -42,7 +42,7 @@ class Resolution(dict):
 
     Corresponds to a single package to be installed by a package
     manager. By default only key `package` is assumed. Equality is the
-    same as dictionary equality. Set the ``_to_list_keys`` instance
+    same as dictionary equality. Set the ``_to_list_keys`` class
     variable to define how the resolution is printed.
 
     These objects are hashable, which is used to remove duplicates of a
@@ -50,17 +50,19 @@ class Resolution(dict):
     should be considered immutable.
     """
 
+    _to_list_keys = ["package"]
+
     def __init__(self, *args, **kwargs):
         super(Resolution, self).__init__(*args, **kwargs)
         self.__dict__ = self  # this allows attribute access: `self.package`
-        self._to_list_keys = ["package"]
 
     def __eq__(self, other):
         # use standard dict equality
         return super(Resolution, self).__eq__(other)
 
     def __hash__(self):
-        return hash((type(self), tuple(self.items())))
+        # values may be unhashable, but equal resolutions have equal packages
+        return hash((type(self), self.get("package")))
 
     def __str__(self):
         return ' '.join(self.to_list())
-- 
2.43.0


From 7a1cec2c7274b69eed3715a5e2ad4137cdef0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 20/47] fix: repair standalone command scripts

---
 xylem/commands/main.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 2e3b342..33b295c 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -72,6 +72,7 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     command_defi['prepare_config'](get_config_description())
     add_config_arguments(parser)
     add_global_arguments(parser)
+    return parser
 
 
 def command_handle_args(args, definition):
-- 
2.43.0


From a2a346a20ed850bf8e36097c0ec9824d6838d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 21/47] fix: print text instead of bytes on python 3

---
 xylem/log_utils.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xylem/log_utils.py b/xylem/log_utils.py
index 30becc1..ab0d966 100644
--- a/xylem/log_utils.py
+++ b/xylem/log_utils.py
@@ -16,6 +16,7 @@ from __future__ import print_function
 from __future__ import unicode_literals
 
 import os
+import six
 import sys
 
 from xylem.text_utils import to_str
@@ -32,6 +33,11 @@ _verbose = False
 enable_ANSI_colors()
 
 
+def _printable(msg):
+    # python 2 needs encoding, python 3 would print the repr of bytes
+    return to_bytes(msg) if six.PY2 else msg
+
+
 def enable_verbose(state=True):
     """En- or disable printing verbose output to console."""
     global _verbose
@@ -73,7 +79,7 @@ def debug(msg, file=None, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('greenf') + msg + ansi('reset')
     if is_debug():
-        print(to_bytes(msg), file=file, *args, **kwargs)
+        print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -87,7 +93,7 @@ def info(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stdout
     msg = to_str(msg)
     msg = msg + ansi('reset')  # Assume that msg might contain colors
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -102,7 +108,7 @@ def warning(msg, file=None, *args, **kwargs):
     file = file if file is not None else sys.stderr
     msg = to_str(msg)
     msg = ansi('yellowf') + msg + ansi('reset')
-    print(to_bytes(msg), file=file, *args, **kwargs)
+    print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
@@ -117,8 +123,8 @@ def error(msg, file=None, exit=False, *args, **kwargs):
     msg = to_str(msg)
     msg = ansi('redf') + ansi('boldon') + msg + ansi('reset')
     if exit:
-        sys.exit(to_bytes(msg))
-    print(to_bytes(msg), file=file, *args, **kwargs)
+        sys.exit(_printable(msg))
+    print(_printable(msg), file=file, *args, **kwargs)
     return msg
 
 
-- 
2.43.0


From c66467456994bea79bc4aa91185a792aae24d382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 22/47] fix: name the duplicate in the warning about ignored
 plugins

---
 xylem/plugin_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 9259aa3..7fd0bbf 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -177,7 +177,7 @@ def load_plugins(kind, base_class, group, disabled=[]):
             continue
         if obj_name in name_set:
             # TODO: somehow decide when to reraise and when to display error
-            warning("Ignoring {0} plugin '{1}' with duplicate name '{1}'".
+            warning("Ignoring {0} plugin '{1}' with duplicate name '{2}'".
                     format(kind, definition['plugin_name'], obj_name))
             continue
         info_v("Loaded {0} plugin '{1}' with {0} name '{2}'.".
-- 
2.43.0


From d2d51def9a1990b25d8e37b5176298af829208ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 23/47] fix: return coerced config dict

---
 xylem/config_utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a7b3c15..adf0b8b 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -355,6 +355,7 @@ def ceorce_config_dict(config, copy=False):
     result = ConfigDict()
     for k, v in six.iteritems(config):
         result[k] = ceorce_config_dict(v, copy=copy)
+    return result
 
 
 def copy_to_dict(config):
-- 
2.43.0


From 89dbeed6a71773cd34a0edea072e070558ecb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 24/47] fix: raise config errors for config groups that are no
 dicts

---
 xylem/config_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index adf0b8b..ea697cb 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1213,7 +1213,12 @@ def config_from_parsed_yaml(data, description, use_defaults=False):
     config = ConfigDict()
     for group, group_dict in six.iteritems(description.groups):
         config[group] = ConfigDict()
-        data_group = data.get(group, {})
+        data_group = data.get(group, None)
+        if data_group == UNSET_YAML:
+            data_group = {}
+        if not isinstance(data_group, dict):
+            raise ConfigValueError(
+                type_error_msg('dict', data_group, what_for=group))
         for subname, item in six.iteritems(group_dict):
             process_item(config[group], data_group, subname, item)
     for name, item in six.iteritems(description.items):
-- 
2.43.0


From f0680ae77b29c273b706ded8a4ebc1d52476247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 25/47] fix: do not share mutable defaults between config dicts

---
 xylem/config_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index ea697cb..a22f55a 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1133,9 +1133,9 @@ def config_from_defaults(description):
             group, subname = split_group(name)
             if group not in result:
                 result[group] = ConfigDict()
-            result[group][subname] = item.default
+            result[group][subname] = deepcopy(item.default)
         else:
-            result[name] = item.default
+            result[name] = deepcopy(item.default)
     return result
 
 
-- 
2.43.0


From ec3c3a6a41d680047e05734a6cc6be969ad6c43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 26/47] fix: leave config descriptions unchanged when rejecting
 an item

---
 xylem/config_utils.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index a22f55a..d7450cc 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -876,6 +876,15 @@ class ConfigDescription(object):
 
         item = ConfigItem(name, *args, **kwargs)
 
+        if item.command_line:
+            arg_name = item.command_line_argument
+            if arg_name in self.command_line_arguments:
+                raise ConfigDescriptionError(
+                    "Duplicate command line argument name '{}' for config "
+                    "item '{}' and '{}'.".
+                    format(arg_name, item.name,
+                           self.command_line_arguments[arg_name].name))
+
         if "/" in name:
             group, subname = split_group(name)
             if group not in self.groups:
@@ -891,13 +900,6 @@ class ConfigDescription(object):
         self.items[name] = item
 
         if item.command_line:
-            arg_name = item.command_line_argument
-            if arg_name in self.command_line_arguments:
-                raise ConfigDescriptionError(
-                    "Duplicate command line argument name '{}' for config "
-                    "item '{}' and '{}'.".
-                    format(arg_name, item.name,
-                           self.command_line_arguments[arg_name].name))
             self.command_line_arguments[arg_name] = item
 
     def add_arguments(self, parser):
-- 
2.43.0


From de4792fc52b956e4009446d85b75cd829b5d66d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 27/47] fix: handle timeouts and errors while reading from urls

---
 xylem/load_url.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index d436558..872ee9a 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -18,6 +18,7 @@ from __future__ import unicode_literals
 
 import socket
 import time
+from six.moves.http_client import HTTPException
 from six.moves.urllib.error import HTTPError
 from six.moves.urllib.error import URLError
 from six.moves.urllib.request import urlopen
@@ -48,6 +49,7 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
     while True:
         try:
             req = urlopen(url, timeout=timeout)
+            data = req.read()
         except HTTPError as e:
             if e.code == 503 and retry:
                 retry -= 1
@@ -62,9 +64,18 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             else:
                 raise_from(DownloadFailure, "Failed to load url '{0}'.".
                            format(url), e)
+        except socket.timeout as e:
+            if retry:
+                retry -= 1
+                time.sleep(retry_period)
+            else:
+                raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                           format(url), e)
+        except (EnvironmentError, HTTPException) as e:
+            raise_from(DownloadFailure, "Failed to load url '{0}'.".
+                       format(url), e)
         else:
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    data = req.read()
     return to_str(data, encoding=encoding)
-- 
2.43.0


From 1a5e9f7d69bf9cff8bef8b8034c994896ec98d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 28/47] fix: parse the os override in configs passed as dict

---
 xylem/config.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/xylem/config.py b/xylem/config.py
index 12b63b0..9e9fcdd 100644
--- a/xylem/config.py
+++ b/xylem/config.py
@@ -289,6 +289,14 @@ def process_config(config, args):
             else:
                 config.sources_dir = sources_dir(
                     system_config_dir(args.prefix, XYLEM_TOOL_NAME))
+    process_os_override(config)
+
+
+def process_os_override(config):
+    """Parse ``"os_override"`` entry of a loaded config.
+
+    See :func:`process_config`.
+    """
     if config.os_override is not None:
         name, version, features = parse_os_override(config.os_override)
         config.os_override = (name, version)
@@ -313,6 +321,8 @@ def ensure_config(config):
     if isinstance(config, ConfigDict):
         return config
     if isinstance(config, dict):
-        return config_from_parsed_yaml(
+        config = config_from_parsed_yaml(
             config, get_config_description(), use_defaults=True)
+        process_os_override(config)
+        return config
     raise ValueError("invalid config of type '{}'".format(type_name(config)))
-- 
2.43.0


From 1763f354f6f33e62159046a9856ff6481b4d7dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 29/47] fix: allow empty lists of keys in install_from

---
 xylem/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/resolve.py b/xylem/resolve.py
index f2a6716..11e04c0 100644
--- a/xylem/resolve.py
+++ b/xylem/resolve.py
@@ -72,7 +72,7 @@ def resolve(xylem_keys,
     #       `install-from "pip: python-*"`
     install_from_map = dict()
     for inst, keys in six.iteritems(config.install_from):
-        for k in keys:
+        for k in keys or []:
             if k in install_from_map:
                 error("ignoring 'install from {}' for key '{}'; "
                       "already configured to install from '{}'".
-- 
2.43.0


From 8a760cec6672b9b52d82ab4b508d92fd056d5b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:12 +0000
Subject: [PATCH 30/47] fix: allow empty installer_options for an installer

---
 xylem/installers/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/installers/impl.py b/xylem/installers/impl.py
index 2ab89df..5944433 100644
--- a/xylem/installers/impl.py
+++ b/xylem/installers/impl.py
@@ -398,7 +398,7 @@ class InstallerContext(object):
 
         #  1. Go through all installers and set options from config
         for inst in self.installer_plugins:
-            inst.options = self.config.installer_options.get(inst.name, {})
+            inst.options = self.config.installer_options.get(inst.name) or {}
 
         #  2. setup core installers from config or OS plugin
         if self.config.core_installers is not None:
-- 
2.43.0


From 20e18b8aeaa91ed3a18e4c54b5617457e17b5d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:58 +0000
Subject: [PATCH 31/47] revert: leave xylem/specs as it was

---
 xylem/specs/plugins/rules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/specs/plugins/rules.py b/xylem/specs/plugins/rules.py
index e398384..620f4fe 100644
--- a/xylem/specs/plugins/rules.py
+++ b/xylem/specs/plugins/rules.py
@@ -339,7 +339,7 @@ class SpecParsingError(XylemError):
     def __init__(self, msg, related_snippet=None):
         if related_snippet:
             msg += "\n\n" + to_str(related_snippet)
-        super(SpecParsingError, self).__init__(msg)
+        ValueError.__init__(self, msg)
 
 
 # TODO: note in the docstrings that arguments are reused/modified in
-- 
2.43.0


From b395a2bdfd8a7ec5bb0a6b37c944a6a715de9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 32/47] fix: use global options given in front of the command

---
 xylem/commands/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 33b295c..19e6fa5 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -70,8 +70,14 @@ def create_command_parser(command_defi, constructor, parser_title=False):
     parser = command_defi['prepare_arguments'](parser) or parser
     parser.set_defaults(func=command_defi['main'])
     command_defi['prepare_config'](get_config_description())
+    num_command_actions = len(parser._actions)
     add_config_arguments(parser)
     add_global_arguments(parser)
+    if parser_title:
+        # The main parser has the same global arguments; defaults of the
+        # subparser must not replace values given in front of the command.
+        for action in parser._actions[num_command_actions:]:
+            action.default = argparse.SUPPRESS
     return parser
 
 
-- 
2.43.0


From 491566427f5850b15eb228e73df561123240d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 33/47] fix: report a missing command as usage error

---
 xylem/commands/main.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 19e6fa5..1de7f00 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -143,6 +143,8 @@ def main(sysargs=None):
     create_subparsers(parser, cmds)
 
     args = parser.parse_args(sysargs)
+    if not hasattr(args, 'func'):
+        parser.error("too few arguments")
     handle_global_arguments(args)
     handle_config_arguments(args)
 
-- 
2.43.0


From 6334b70fb54e51d4b35f2f2d964a1beccf0f9e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 34/47] fix: report configuration errors without traceback

---
 xylem/commands/main.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index 1de7f00..eb9587a 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -146,11 +146,10 @@ def main(sysargs=None):
     if not hasattr(args, 'func'):
         parser.error("too few arguments")
     handle_global_arguments(args)
-    handle_config_arguments(args)
 
     # FIXME: the following logic and error handling
     try:
-        args.func
+        handle_config_arguments(args)
         result = args.func(args)
     except XylemError as e:
         if is_debug() or isinstance(e, XylemInternalError):
-- 
2.43.0


From b13d229c536428bae1287fd853c65b0d1de54408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 35/47] fix: detect_os lets newly added detectors take
 precedence

The last accepting detector of the list won, although new detectors are
put first and documented to override earlier ones of the same name.
---
 xylem/os_support/os_detect.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index c0ede3a..43b254c 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -444,6 +444,7 @@ class OsDetect(object):
                     self._os_version = os_detector.get_version()
                     self._os_codename = os_detector.get_codename()
                     self._os_detector = os_detector
+                    break
 
         if self._os_name:
             return self._os_name, self._os_version, self._os_codename
-- 
2.43.0


From 07e4672ad7b99bf1a5d93499cc786755a4ecda0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:45 +0000
Subject: [PATCH 36/47] fix: OsDetect.add_detector changes only its own
 instance

Without explicit list the instance shared the list of defaults, such that
the detector was added for every other instance, too.
---
 xylem/os_support/os_detect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/os_support/os_detect.py b/xylem/os_support/os_detect.py
index 43b254c..7eaa36b 100644
--- a/xylem/os_support/os_detect.py
+++ b/xylem/os_support/os_detect.py
@@ -394,7 +394,7 @@ class OsDetect(object):
 
     def __init__(self, os_list = None):
         if os_list is None:
-            os_list = OsDetect.default_os_list
+            os_list = list(OsDetect.default_os_list)
         self._os_list = os_list
         self._os_name = None
         self._os_version = None
-- 
2.43.0


From 45fedf417f4429b588741dae86f12016f5f33e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:54 +0000
Subject: [PATCH 37/47] fix: install reports commands that cannot be executed

---
 xylem/install.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/xylem/install.py b/xylem/install.py
index 781b656..025b0f8 100644
--- a/xylem/install.py
+++ b/xylem/install.py
@@ -265,7 +265,15 @@ def install_resolutions(installer_name,
     # 2. else, run each install command set and collect errors
     for cmd in commands:
         info(ansi('boldon') + "executing command: %s" % ' '.join(cmd))
-        exitcode = subprocess.call(cmd)
+        try:
+            exitcode = subprocess.call(cmd)
+        except EnvironmentError as e:
+            errors.append(chain_exception(
+                InstallError, "command `{}` for installer '{}' could not be "
+                "executed".format(' '.join(cmd), installer), e))
+            if not continue_on_error:
+                return errors
+            continue
         info_v(fmt("@!command return code: %s@|" % exitcode))
         if exitcode != 0:
             errors.append(InstallError(
-- 
2.43.0


From b59bcb3a73048495f1f164546009d1db9d8ab711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:54 +0000
Subject: [PATCH 38/47] fix: load_url reports unknown encodings as download
 failures

---
 xylem/load_url.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xylem/load_url.py b/xylem/load_url.py
index 872ee9a..c3468ce 100644
--- a/xylem/load_url.py
+++ b/xylem/load_url.py
@@ -78,4 +78,8 @@ def load_url(url, retry=2, retry_period=1, timeout=10):
             break
     _, params = cgi.parse_header(req.headers.get('Content-Type', ''))
     encoding = params.get('charset', 'utf-8')
-    return to_str(data, encoding=encoding)
+    try:
+        return to_str(data, encoding=encoding)
+    except (LookupError, ValueError) as e:
+        raise_from(DownloadFailure, "Failed to decode data of url '{0}' with "
+                   "encoding '{1}'.".format(url, encoding), e)
-- 
2.43.0


From 4e2a01893980f50a2aa0df00ddb52c782baf86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 39/47] fix: a plugin that fails to load does not prevent
 loading the others

---
 xylem/plugin_utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/xylem/plugin_utils.py b/xylem/plugin_utils.py
index 7fd0bbf..ebc50c5 100644
--- a/xylem/plugin_utils.py
+++ b/xylem/plugin_utils.py
@@ -151,10 +151,10 @@ def load_plugins(kind, base_class, group, disabled=[]):
     plugin_list = []
     name_set = set()
     for entry_point in pkg_resources.iter_entry_points(group=group):
-        definition = entry_point.load()
         try:
+            definition = entry_point.load()
             verify_plugin_definition(definition, kind, base_class)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin. Failed to load from '{}' entry point "
                   "with name '{}':\n{}".format(
@@ -166,11 +166,11 @@ def load_plugins(kind, base_class, group, disabled=[]):
                    format(kind, plugin_name))
             continue
         plugin_class = definition[kind]
-        plugin_obj = plugin_class()
-        obj_name = plugin_obj.name
         try:
+            plugin_obj = plugin_class()
+            obj_name = plugin_obj.name
             plugin_class.verify_plugin(plugin_obj)
-        except InvalidPluginError as e:
+        except Exception as e:
             # TODO: somehow decide when to reraise and when to display error
             error("Skipping {} plugin '{}'. Plugin is invalid:\n{}".format(
                   kind, plugin_name, exc_to_str(e)))
-- 
2.43.0


From ac96ab1581e3d1a9c3fd5f983faccd0dc8abf6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:04 +0000
Subject: [PATCH 40/47] fix: a command that fails to load does not prevent
 running the others

---
 xylem/commands/main.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xylem/commands/main.py b/xylem/commands/main.py
index eb9587a..4a88228 100644
--- a/xylem/commands/main.py
+++ b/xylem/commands/main.py
@@ -53,7 +53,12 @@ def list_commands():
 def load_command_definition(command_name):
     for entry_point in pkg_resources.iter_entry_points(group=XYLEM_CMDS_GROUP):
         if entry_point.name == command_name:
-            defi = entry_point.load()
+            try:
+                defi = entry_point.load()
+            except Exception as e:
+                error("Failed to load entry point '{0}':\n{1}"
+                      .format(entry_point, exc_to_str(e)))
+                return None
             if not isinstance(defi, dict):
                 error("Invalid entry point: '{0}', expected dict got '{1}'"
                       .format(entry_point, type_name(defi)))
-- 
2.43.0


From 66ebf8e5fc86912b1ccec107d372c544a809b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 41/47] fix: concurrent updates do not share temporary files or
 fail creating the cache directory

---
 xylem/sources/database.py | 5 +++--
 xylem/sources/impl.py     | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/xylem/sources/database.py b/xylem/sources/database.py
index f81dbf4..d570d61 100644
--- a/xylem/sources/database.py
+++ b/xylem/sources/database.py
@@ -94,8 +94,9 @@ def _read_cache(filepath):
 
 def _write_cache(cache_data, filepath):
     # write to a temporary file first, such that an interrupted or failing
-    # write never damages an existing cache file
-    tmp_filepath = filepath + ".tmp"
+    # write never damages an existing cache file; the temporary file is not
+    # shared with other processes that write the same cache at the same time
+    tmp_filepath = "{0}.{1}.tmp".format(filepath, os.getpid())
     with open(tmp_filepath, 'wb') as f:
         # protocol 2 is compatible with python 2 and 3
         pickle.dump(cache_data, f, protocol=2)
diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index 729caf6..b23bf4f 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -219,7 +219,12 @@ class SourcesContext(object):
 
     def ensure_cache_dir(self):
         if not self.cache_dir_exists():
-            os.makedirs(self.cache_dir)
+            try:
+                os.makedirs(self.cache_dir)
+            except OSError:
+                # might have been created by another process meanwhile
+                if not self.cache_dir_exists():
+                    raise
         if not self.cache_dir_exists():
             raise OSError("Could not create cache dir: `{}`".
                           format(self.cache_dir))
-- 
2.43.0


From 11db8bf506ec2cb93cb0e7f01964061899d73e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 42/47] fix: source files are read as UTF-8 independent of the
 locale

---
 xylem/sources/impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/sources/impl.py b/xylem/sources/impl.py
index b23bf4f..864a580 100644
--- a/xylem/sources/impl.py
+++ b/xylem/sources/impl.py
@@ -107,7 +107,7 @@ def parse_source_file(file_path):
     :returns: lists of source urls keyed by spec type
     :rtype: :py:obj:`dict`(:py:obj:`str`: :py:obj:`list`(:py:obj:`str`))
     """
-    with open(file_path, 'r') as f:
+    with open(file_path, 'rb') as f:
         data = f.read()
         return parse_source_descriptions(to_str(data), file_path)
 
-- 
2.43.0


From 25758e4c0284c3c4e370b9c0758085b1fc5fd851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:47 +0000
Subject: [PATCH 43/47] fix: config files that cannot be decoded are refused

---
 xylem/config_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index d7450cc..1787930 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -241,7 +241,7 @@ def load_config_file_yaml(path):
         if os.path.isfile(path):
             with open(path, 'rb') as f:
                 binary_data = f.read()
-            config = load_yaml(to_str(binary_data))
+            config = load_yaml(to_str(binary_data, errors='strict'))
         else:
             config = None
         return process_config_file_yaml(config)
-- 
2.43.0


From 783e46f3cad43e88557a4aba08466b35f3b1c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:23 +0000
Subject: [PATCH 44/47] fix: update and lookup accept a dict as configuration,
 and refuse other values

Their docstrings and resolve and install document a dict; it raised an
AttributeError.
---
 xylem/lookup.py | 13 ++++++-------
 xylem/update.py |  9 ++++-----
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/xylem/lookup.py b/xylem/lookup.py
index 0ea02ee..aa60f4d 100644
--- a/xylem/lookup.py
+++ b/xylem/lookup.py
@@ -14,21 +14,20 @@
 
 from __future__ import unicode_literals
 
-from xylem.sources import SourcesContext
+from xylem.sources import ensure_sources_context
 from xylem.sources import RulesDatabase
-from xylem.installers import InstallerContext
+from xylem.installers import ensure_installer_context
 from xylem.specs.plugins.rules import compact_installer_dict
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 def lookup(xylem_key, compact=False, config=None, sources_context=None,
            installer_context=None):
 
-    if config is None:
-        config = get_config()
+    config = ensure_config(config)
 
-    sources_context = sources_context or SourcesContext(config)
-    ic = installer_context or InstallerContext(config)
+    sources_context = ensure_sources_context(sources_context, config)
+    ic = ensure_installer_context(installer_context, config)
 
     database = RulesDatabase(sources_context)
     database.load_from_cache()
diff --git a/xylem/update.py b/xylem/update.py
index b5dbe1d..d52668f 100644
--- a/xylem/update.py
+++ b/xylem/update.py
@@ -18,10 +18,10 @@
 
 from __future__ import unicode_literals
 
-from xylem.sources import SourcesContext
+from xylem.sources import ensure_sources_context
 from xylem.sources import RulesDatabase
 
-from xylem.config import get_config
+from xylem.config import ensure_config
 
 
 # TODO: remove handle_spec_urls (move some logic into the accoring
@@ -75,9 +75,8 @@ def update(dry_run=False, config=None, sources_context=None):
         context from ``config`` is created
     :type sources_context: `SourcesContext` or `None`
     """
-    if config is None:
-        config = get_config()
-    sources_context = sources_context or SourcesContext(config)
+    config = ensure_config(config)
+    sources_context = ensure_sources_context(sources_context, config)
     if not dry_run:
         sources_context.ensure_cache_dir()
     database = RulesDatabase(sources_context)
-- 
2.43.0


From 56e9de3361921f6cc6df876d905f6c61dad83f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:46 +0000
Subject: [PATCH 45/47] fix: packages pip lists as file, url or differently
 spelled are installed

They were installed again each time, and reported as failed afterwards.
---
 xylem/installers/plugins/pip.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/xylem/installers/plugins/pip.py b/xylem/installers/plugins/pip.py
index 32b4725..5ade149 100644
--- a/xylem/installers/plugins/pip.py
+++ b/xylem/installers/plugins/pip.py
@@ -36,6 +36,20 @@ __doc__ %= format(DESCRIPTION)
 PIP_INSTALLER = 'pip'
 
 
+def _frozen_name(row):
+    """Name of the package that a row of ``pip freeze`` is about."""
+    if '#egg=' in row:
+        # installed from version control in editable mode
+        return row.split('#egg=')[1].split('&')[0]
+    # packages installed from a file or url are listed as `name @ url`
+    return row.split(" @ ")[0].split("==")[0]
+
+
+def _canonical_name(package):
+    """For pip, names differing in case and separators are the same."""
+    return package.lower().replace('_', '-').replace('.', '-')
+
+
 class PipInstaller(PackageManagerInstaller):
     """
     Installer support for pip.
@@ -60,8 +74,9 @@ class PipInstaller(PackageManagerInstaller):
 
     def filter_uninstalled(self, resolved):
         installed = read_stdout(['pip', 'freeze']).split('\n')
-        installed = [row.split("==")[0] for row in installed]
-        return [r for r in resolved if r.package not in installed]
+        installed = [_canonical_name(_frozen_name(row)) for row in installed]
+        return [r for r in resolved
+                if _canonical_name(r.package) not in installed]
 
     def install_package_manager(self, os_tuple, interactive=True):
         # TODO: use get_pip or maybe apt on ubuntu to install pip
-- 
2.43.0


From f6772a0c0d57a7b4fc50c1cff6378a220728ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:57:40 +0000
Subject: [PATCH 46/47] fix: configuration items of one command do not break
 the others on the command line

---
 xylem/config_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xylem/config_utils.py b/xylem/config_utils.py
index 1787930..070b79e 100644
--- a/xylem/config_utils.py
+++ b/xylem/config_utils.py
@@ -1159,8 +1159,10 @@ def config_from_args(args, description):
 
     def process_item(target_dict, key, item):
         if item.command_line:
+            # arguments added by another command are not there
             value = item.type.from_command_line(
-                args_dict[underscorify(item.command_line_argument)])
+                args_dict.get(underscorify(item.command_line_argument),
+                              UNSET_COMMAND_LINE))
         else:
             value = item.type.unset_value()
         target_dict[key] = value
-- 
2.43.0


From 5b75494bbabca35ae3ed1587e4c91880681f99c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:49 +0000
Subject: [PATCH 47/47] fix: keys whose entries for an OS hold no rules are not
 listed

---
 xylem/sources/rules_dict.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xylem/sources/rules_dict.py b/xylem/sources/rules_dict.py
index 452167a..e4659ec 100644
--- a/xylem/sources/rules_dict.py
+++ b/xylem/sources/rules_dict.py
@@ -74,11 +74,13 @@ def lookup_rules(rules_dict,
 
 def has_rule_for_os(os_dict, os_name, os_version):
     """Return True if os dict has a rule for os name/version."""
-    if 'any_os' in os_dict:
+    if os_dict.get('any_os', {}).get('any_version'):
         return True
     if os_name in os_dict:
         version_dict = os_dict[os_name]
-        return os_version in version_dict or 'any_version' in version_dict
+        return bool(version_dict.get(os_version) or
+                    version_dict.get('any_version'))
+    return False
 
 
 def verify_rules_dict(rules_dict, allow_default_installer=True):
-- 
2.43.0

