From bb1c20d2e7782e9795ccb954e0441e668823ba9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 01/14] fix: do not share cached plugin answers between Python
 interpreters

---
 variantlib/plugins/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..e122443 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -96,7 +96,7 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash((self._python_executable, _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
-- 
2.43.0


From 531a43cf9c791f2af5d7f3670db9c02376018f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 02/14] fix: do not append the null variant to the caller's
 list when resolving

---
 variantlib/resolver/lib.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/variantlib/resolver/lib.py b/variantlib/resolver/lib.py
index f966d22..a97e0ad 100644
--- a/variantlib/resolver/lib.py
+++ b/variantlib/resolver/lib.py
@@ -208,6 +208,7 @@ def sort_and_filter_supported_variants(
         namespace_priorities = []
 
     # Avoiding modification in place
+    vdescs = vdescs.copy()
     namespace_priorities = namespace_priorities.copy()
     supported_vprops = supported_vprops.copy()
 
-- 
2.43.0


From 56b114d2fea2491638fd7beeb6a5ec0583d6abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 03/14] fix: do not add variants of a wheel whose metadata
 cannot be merged

---
 variantlib/variants_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..64c1322 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,9 +112,6 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
-
         # Verify consistency of default priorities
         for attribute in (
             "namespace_priorities",
@@ -154,6 +151,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties (only once we know that the data is consistent)
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From 9e93ceec9f2eb65a110db9be1fe99feaa87957f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 04/14] fix: refuse to merge metadata with differing static
 properties

---
 variantlib/variants_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 64c1322..54d68c5 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,11 +112,12 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Verify consistency of default priorities
+        # Verify consistency of default priorities and static properties
         for attribute in (
             "namespace_priorities",
             "feature_priorities",
             "property_priorities",
+            "static_properties",
         ):
             new_value = getattr(variant_dist_info, attribute)
             old_value = getattr(self, attribute)
-- 
2.43.0


From 4624d18bfaff917af9ee4237384235a886f07722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:12 +0000
Subject: [PATCH 05/14] fix: refuse to merge different variants sharing the
 same label

---
 variantlib/variants_json.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 54d68c5..326aabc 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -152,6 +152,14 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Verify that no label would be reused for different properties
+        for label, vdesc in variant_dist_info.variants.items():
+            if self.variants.get(label, vdesc) != vdesc:
+                raise ValidationError(
+                    f"Inconsistency in variant {label!r} when merging variants. "
+                    f"Expected: {self.variants[label]!r}, found {vdesc!r}"
+                )
+
         # Merge the variant properties (only once we know that the data is consistent)
         self.variants.update(variant_dist_info.variants)
 
-- 
2.43.0


From 7cd9c28a4e2e452ac0509146c6329a64fe873abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:16 +0000
Subject: [PATCH 06/14] fix: do not let make-variant truncate its own input
 wheel

---
 variantlib/commands/make_variant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..a2c878c 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -237,6 +237,10 @@ def _make_variant(
     output_filepath = (
         output_directory / f"{wheel_info.group('base_wheel_name')}-{variant_label}.whl"
     )
+    if output_filepath.exists() and output_filepath.samefile(input_filepath):
+        raise FileExistsError(
+            f"Output file `{output_filepath}` would overwrite the input wheel."
+        )
 
     with (
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-- 
2.43.0


From d4b391cd687010c663feed0b0f2367f4b9b0c76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 07/14] fix: handle commas in file names listed in RECORD

---
 variantlib/commands/make_variant.py   | 2 +-
 variantlib/commands/unmake_variant.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index a2c878c..65a2197 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -269,7 +269,7 @@ def _make_variant(
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
                             new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
+                            rec_filename, _sha256, _size = line.rsplit(b",", 2)
                             # Skip existing hash for the discarded copy.
                             if rec_filename.decode("utf-8") == dist_info_path:
                                 continue
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..0baa108 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -110,7 +110,7 @@ def _unmake_variant(
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
                     ).encode()
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
+                        rec_filename, _sha256, _size = line.rsplit(b",", 2)
                         if rec_filename != variant_dist_info_path:
                             output_file.write(line)
                 else:
-- 
2.43.0


From 0d2a8aac7aaa0c5e4b4aae037956496bfe7f6efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 08/14] fix: do not glue the new RECORD row to an unterminated
 last line

---
 variantlib/commands/make_variant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 65a2197..1f1450f 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -268,7 +268,7 @@ def _make_variant(
                     # Update RECORD for the new checksums.
                     with output_zip.open(file_info, "w") as output_file:
                         for line in input_file:
-                            new_line = line
+                            new_line = line if line.endswith(b"\n") else line + b"\n"
                             rec_filename, _sha256, _size = line.rsplit(b",", 2)
                             # Skip existing hash for the discarded copy.
                             if rec_filename.decode("utf-8") == dist_info_path:
-- 
2.43.0


From 0b630dfbb4d18410812c358a22192ff22f5692f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 09/14] fix: do not leave the plugin loader entered after a
 failed load

---
 variantlib/plugins/loader.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index e122443..5648c97 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -163,9 +163,8 @@ class BasePluginLoader:
             raise RuntimeError(
                 "Impossible to load plugins - `self._namespace_map` is not None"
             )
-        self._namespace_map = {}
-
         if not plugin_apis:
+            self._namespace_map = {}
             return
 
         normalized_plugin_apis = []
@@ -189,14 +188,15 @@ class BasePluginLoader:
             "namespaces"
         ]
 
+        namespace_map: dict[str, VariantNamespace] = {}
         for plugin_api, namespace in namespaces.items():
-            if namespace in self._namespace_map.values():
+            if namespace in namespace_map.values():
                 raise RuntimeError(
                     "Two plugins found using the same namespace "
                     f"{namespace}. Refusing to proceed."
                 )
 
-            self._namespace_map[plugin_api] = namespace
+            namespace_map[plugin_api] = namespace
             logger.info(
                 "Namespace %(namespace)s provided by plugin %(plugin_api)s",
                 {
@@ -205,6 +205,10 @@ class BasePluginLoader:
                 },
             )
 
+        # Assign only once everything succeeded, so that a failed load does not
+        # leave the loader in the "entered" state.
+        self._namespace_map = namespace_map
+
     def _check_plugins_loaded(self) -> None:
         if self._namespace_map is None:
             raise NoPluginFoundError("No plugin has been loaded in the environment.")
-- 
2.43.0


From 3c2d010adecb8667ba97e20076a543ce0cc713c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 10/14] fix: make-variant must reject multiple values for
 single-value features

---
 variantlib/commands/make_variant.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 1f1450f..af96570 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -227,6 +227,14 @@ def _make_variant(
                         "The following variant properties use namespaces that are not "
                         f"provided by any installed plugin: {unknown_str}"
                     )
+                if vdesc_valid.multi_value_violations:
+                    multi_value_str = ", ".join(
+                        x.to_str() for x in sorted(vdesc_valid.multi_value_violations)
+                    )
+                    raise ValidationError(
+                        "The following variant features do not permit multiple "
+                        f"values: {multi_value_str}"
+                    )
     else:
         # Create a null variant
         vdesc = VariantDescription()
-- 
2.43.0


From 9c951b9d6ec8ca2323d96454a58ffd8a17b33cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 11/14] fix: process wheels in a stable order when generating
 the index

---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..54ed9eb 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -46,7 +46,7 @@ def generate_index_json(args: list[str]) -> None:
         lambda: defaultdict(set)
     )
 
-    for wheel in directory.glob("*.whl"):
+    for wheel in sorted(directory.glob("*.whl")):
         # Skip non wheel variants
         if (wheel_info := VALIDATION_WHEEL_NAME_REGEX.fullmatch(wheel.name)) is None:
             logger.exception(
-- 
2.43.0


From 1dba0df7f0b092bb1840640241deb08e8e2714f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 12/14] fix: check_variant_supported() must consider ABI
 dependency properties

---
 variantlib/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..21c1318 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -22,6 +22,7 @@ from variantlib.models.variant import VariantValidationResult
 from variantlib.models.variant_info import VariantInfo
 from variantlib.plugins.loader import PluginLoader
 from variantlib.resolver.lib import filter_variants
+from variantlib.resolver.lib import inject_abi_dependency
 from variantlib.resolver.lib import sort_and_filter_supported_variants
 from variantlib.utils import aggregate_feature_priorities
 from variantlib.utils import aggregate_namespace_priorities
@@ -314,6 +315,9 @@ def check_variant_supported(
             )
         )
 
+    # Use the same set of supported properties as get_variants_by_priority()
+    inject_abi_dependency(supported_vprops, [])
+
     VariantConfiguration.get_config()
 
     return bool(
-- 
2.43.0


From b800130a15b2e6880cfc850d4db14101e72744d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 13/14] fix: query AoT plugins in the isolated environment
 make-variant created

---
 variantlib/commands/make_variant.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index af96570..2559d46 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -168,6 +168,8 @@ def _make_variant(
     if wheel_info is None:
         raise ValueError(f"{input_filepath.name!r} is not a valid wheel filename.")
 
+    dist_info_data: str | None = None
+
     if not is_null_variant:
         # Transform properties into a VariantDescription
         vdesc = VariantDescription(properties=properties)
@@ -235,11 +237,26 @@ def _make_variant(
                         "The following variant features do not permit multiple "
                         f"values: {multi_value_str}"
                     )
+
+                # AoT plugins must be queried in the very same environment that was
+                # used to validate the properties.
+                dist_info_data = make_variant_dist_info(
+                    vdesc,
+                    variant_info=variant_info,
+                    variant_label=get_variant_label(vdesc, variant_label),
+                    venv_python_executable=venv.python_executable
+                    if venv is not None
+                    else None,
+                )
     else:
         # Create a null variant
         vdesc = VariantDescription()
 
     variant_label = get_variant_label(vdesc, variant_label)
+    if dist_info_data is None:
+        dist_info_data = make_variant_dist_info(
+            vdesc, variant_info=variant_info, variant_label=variant_label
+        )
 
     # Determine output wheel filename
     output_filepath = (
@@ -268,9 +285,6 @@ def _make_variant(
                     # First, add new dist-info file prior to RECORD (not strictly
                     # required, but a nice convention).
                     dist_info_path = f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    dist_info_data = make_variant_dist_info(
-                        vdesc, variant_info=variant_info, variant_label=variant_label
-                    )
                     output_zip.writestr(dist_info_path, dist_info_data)
 
                     # Update RECORD for the new checksums.
-- 
2.43.0


From d772e6512c82fa4f0aeedc3c4cb06160e9388ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:49 +0000
Subject: [PATCH 14/14] fix: update-pyproject-toml wrote an invalid plugin-api
 and lost the requirement of plugins that are modules

---
 variantlib/plugins/loader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index 5648c97..3517621 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -175,7 +175,9 @@ class BasePluginLoader:
             import_name: str = plugin_api_match.group("module")
             attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(
+                f"{import_name}:{attr_path}" if attr_path else import_name
+            )
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -423,7 +425,9 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                # use the same (normalized) form as in `plugin_api_values`
+                plugin_api = "".join(ep.value.split())
+                self._plugin_provider_packages[plugin_api] = ep.dist
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0

