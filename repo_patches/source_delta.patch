From 0bf6915a5ca76f1c17f791ccca655d51021e71d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:19 +0000
Subject: [PATCH 1/9] fix: compare versions written with leading zeros by their
 components

BaseVersion('1.02') was neither equal to, lower than nor greater than
BaseVersion('1.2'), because equality and hash used the text as given.
---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 15506ff..86fea16 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -24,8 +24,8 @@ class BaseVersion:
         if not v:
             raise ValueError(v)
         if isinstance(v, str):
-            self.s = v
             self.t = tuple(int(x) for x in v.split('.'))
+            self.s = '.'.join(str(x) for x in self.t)
         elif isinstance(v, tuple):
             self.s = '.'.join(str(int(x)) for x in v)
             self.t = v
-- 
2.43.0


From 46abb1b8efa1b0c3dd948b05f9618c3a91e29463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 2/9] fix: return None for the latest patch of a storage
 without patches

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 86fea16..8b966a9 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -313,7 +313,7 @@ class Storage(metaclass=StorageRegister):
 
         it = self.patches(stored=stored)
         if version is None:
-            return next(it)
+            return next(it, None)
         for p in it:
             if p.version == version:
                 return p
-- 
2.43.0


From b65db3019957cb98abda28f8ec05648ca32c409b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 3/9] fix: parse manifests given as file objects

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index 24e3fc4..beeaac4 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -85,7 +85,7 @@ class PatcherManifest:
                 with open(path_or_f, "rb") as f:
                     self.parse_rman(f)
             else:
-                self.parse_rman(f)
+                self.parse_rman(path_or_f)
 
     def filter_files(self, langs=True) -> List[PatcherFile]:
         """Filter files from the manifest with provided filters"""
-- 
2.43.0


From 3aef5bba28c92e62b597fad4d1293b9e06d2e720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 4/9] fix: filter release files with a list of languages

---
 cdtb/patcher.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index beeaac4..a0562eb 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -69,8 +69,10 @@ class PatcherFile:
         elif langs is True:
             return lambda f: True
         else:
-            lang = langs.lower()  # compare lowercased
-            return lambda f: f.flags is not None and any(f.lower() == lang for f in f.flags)
+            if isinstance(langs, str):
+                langs = [langs]
+            langs = {lang.lower() for lang in langs}  # compare lowercased
+            return lambda f: f.flags is not None and any(f.lower() in langs for f in f.flags)
 
 
 class PatcherManifest:
-- 
2.43.0


From 338d57b9ce142495e2cc97e752fb99540ab203c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 5/9] fix: don't filter out archive files that have no checksum

---
 cdtb/export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/export.py b/cdtb/export.py
index e8422f0..0d8426a 100644
--- a/cdtb/export.py
+++ b/cdtb/export.py
@@ -201,7 +201,7 @@ class Exporter:
                 logger.debug(f"filter modified WAD file: {path}")
                 other_sha256 = {wf.path_hash: wf.sha256 for wf in other_wad.files}
                 # change the files from the wad so it only extract these
-                self_wad.files = [wf for wf in self_wad.files if wf.sha256 != other_sha256.get(wf.path_hash)]
+                self_wad.files = [wf for wf in self_wad.files if wf.sha256 is None or wf.sha256 != other_sha256.get(wf.path_hash)]
                 if not self_wad.files:
                     del self.wads[path]
 
-- 
2.43.0


From 325e73f5dfc2a444040e978bf5fa39dbae14396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:12 +0000
Subject: [PATCH 6/9] fix: select projects of languages given by their code

---
 cdtb/rads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 3cdce6d..93a1aa2 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -292,7 +292,7 @@ class RadsSolutionVersion:
         elif isinstance(langs, Language):
             return dependencies[langs]
         else:
-            return list({pv for lang in langs for pv in dependencies[lang]})
+            return list({pv for lang in langs for pv in dependencies[Language(lang)]})
 
     def filepaths(self, langs) -> Generator[str, None, None]:
         """Generate the extract path of files in the solution version"""
-- 
2.43.0


From ec194f5d15f28d983683fce10e88be64dec3f2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 7/9] fix: refuse components followed by a newline

---
 cdtb/storage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/storage.py b/cdtb/storage.py
index 8b966a9..87a7a9e 100644
--- a/cdtb/storage.py
+++ b/cdtb/storage.py
@@ -457,7 +457,7 @@ def get_content_metadata_version(path) -> str:
 def parse_storage_component(storage: Storage, component: str) -> Union[None, Patch, PatchElement]:
     """Parse a component string representation to patch elements"""
 
-    m = re.match(fr'^(patch|{"|".join(PatchElement.names)})=(|[0-9]+(?:\.[0-9]+\.?)*|main)$', component)
+    m = re.fullmatch(fr'(patch|{"|".join(PatchElement.names)})=(|[0-9]+(?:\.[0-9]+\.?)*|main)', component)
     if not m:
         raise ValueError(f"invalid component: {component}")
     name, version = m.group(1, 2)
-- 
2.43.0


From 3324022ef3719a9b14e39c078d8632681892c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:19 +0000
Subject: [PATCH 8/9] fix: rewrite already existing files when extracting
 without symlinks

---
 cdtb/patcher.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cdtb/patcher.py b/cdtb/patcher.py
index a0562eb..6dc8e70 100644
--- a/cdtb/patcher.py
+++ b/cdtb/patcher.py
@@ -453,7 +453,7 @@ class PatcherStorage(Storage):
         else:
             real_output = output
 
-        if not os.path.isfile(real_output):
+        if not self.use_extract_symlinks or not os.path.isfile(real_output):
             logger.debug(f"extract {file.name} to {real_output}")
             with write_file_or_remove(real_output) as f:
                 for chunk in file.chunks:
-- 
2.43.0


From ef6bd2ba4720007ad4711b51375ea168859ac767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:41 +0000
Subject: [PATCH 9/9] fix: extract empty files sharing the offset of another
 file of their RADS package

---
 cdtb/rads.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cdtb/rads.py b/cdtb/rads.py
index 93a1aa2..d6abe79 100644
--- a/cdtb/rads.py
+++ b/cdtb/rads.py
@@ -511,8 +511,8 @@ class RadsProjectVersion:
 
         for package, files in files_by_package.items():
             with self.project.storage.stream(f"{package_files_path}/{package}") as reader:
-                # sort files by offset to extract while streaming the bin file
-                for pkgfile in sorted(files, key=lambda f: f.offset):
+                # sort files by offset to extract while streaming the bin file (empty files come first)
+                for pkgfile in sorted(files, key=lambda f: (f.offset, f.size)):
                     logger.debug(f"extracting {pkgfile.path}")
                     reader.skip_to(pkgfile.offset)
                     fspath = self.project.storage.fspath(pkgfile.extract_path)
-- 
2.43.0

