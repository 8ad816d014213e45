From f8d4dcfd8aeb626953708651469c7db23d275bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:57 +0000
Subject: [PATCH 01/27] fix: keep the measured size of scaled texts over
 repeated layouts

---
 elsie/text/textboxitem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/text/textboxitem.py b/elsie/text/textboxitem.py
index b92b1c4..314f046 100644
--- a/elsie/text/textboxitem.py
+++ b/elsie/text/textboxitem.py
@@ -34,9 +34,10 @@ class TextBoxItem(BoxItem):
         self._make_query(box.slide.slides.backend)
 
         if scale_to_fit:
+            unscaled_size = self._text_size
 
             def callback(rect):
-                tw, th = self._text_size
+                tw, th = unscaled_size
                 if tw > 0.00001 and th > 0.00001:
                     scale = min(rect.width / tw, rect.height / th)
                     self._text_size = (tw * scale, th * scale)
-- 
2.43.0


From 10797738fd71393475c8240ab265e6573ade4726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 02/27] fix: do not hang or produce twice when cache requests
 collide or fail

---
 elsie/utils/cache.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index 2ba5f68..e1f4c2e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -42,21 +42,24 @@ class FsCache:
         with self.lock:
             self.touched_files.add(cache_file)
             condition = self.in_progress.get(cache_file)
-            if condition is not None:
-                if wait_on_collision:
-                    condition.wait()
-                    assert cache_file in self.cache_files
-                return full_path
+            while condition is not None:
+                if not wait_on_collision:
+                    return full_path
+                condition.wait()
+                condition = self.in_progress.get(cache_file)
             if cache_file in self.cache_files:
                 return full_path
 
-        condition = threading.Condition(self.lock)
-        self.in_progress[cache_file] = condition
-        constructor(input_data, full_path, data_type)
-        with self.lock:
-            self.cache_files.add(cache_file)
-            del self.in_progress[cache_file]
-            condition.notify_all()
+            condition = threading.Condition(self.lock)
+            self.in_progress[cache_file] = condition
+        try:
+            constructor(input_data, full_path, data_type)
+            with self.lock:
+                self.cache_files.add(cache_file)
+        finally:
+            with self.lock:
+                del self.in_progress[cache_file]
+                condition.notify_all()
         return full_path
 
     def remove_unused(self):
-- 
2.43.0


From dd6bf77a03feb0fe4d01b80f9eff64c5520b91d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:54 +0000
Subject: [PATCH 03/27] fix: never leave a partly written artefact under its
 cache name

---
 elsie/utils/cache.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index e1f4c2e..fa00e6e 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -53,7 +53,7 @@ class FsCache:
             condition = threading.Condition(self.lock)
             self.in_progress[cache_file] = condition
         try:
-            constructor(input_data, full_path, data_type)
+            self._produce(input_data, full_path, data_type, constructor)
             with self.lock:
                 self.cache_files.add(cache_file)
         finally:
@@ -62,24 +62,36 @@ class FsCache:
                 condition.notify_all()
         return full_path
 
+    def _produce(self, input_data, full_path, data_type, constructor):
+        # The file appears under its final name only when it is complete
+        temp_path = get_cache_file_path(self.cache_dir, data_type)
+        try:
+            constructor(input_data, temp_path, data_type)
+            os.replace(temp_path, full_path)
+        except BaseException:
+            remove_if_exists(temp_path)
+            raise
+
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
             os.remove(self._full_path(filename))
 
     def get(self, input_data, data_type, constructor):
-        cache_file = self._get_filename(input_data, data_type)
-        self.touched_files.add(cache_file)
-        full_path = os.path.join(self.cache_dir, cache_file)
+        def write_result(content, target, _data_type):
+            result = constructor(content)
+            with open(target, "w") as f:
+                f.write(result)
+
+        full_path = self.ensure(input_data, data_type, write_result)
+        with open(full_path, "r") as f:
+            return f.read()
 
-        if cache_file in self.cache_files:
-            with open(full_path, "r") as f:
-                return f.read()
 
-        result = constructor(input_data)
-        with open(full_path, "w") as f:
-            f.write(result)
-        self.cache_files.add(cache_file)
-        return result
+def remove_if_exists(path: str):
+    try:
+        os.remove(path)
+    except FileNotFoundError:
+        pass
 
 
 def get_cache_file_path(directory: str, extension: str) -> str:
-- 
2.43.0


From a929fff47acadcb8285e7f560bd18265f65d0eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 04/27] fix: produce a cached artefact again when its file was
 removed

---
 elsie/utils/cache.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/elsie/utils/cache.py b/elsie/utils/cache.py
index fa00e6e..84bc82d 100644
--- a/elsie/utils/cache.py
+++ b/elsie/utils/cache.py
@@ -47,7 +47,7 @@ class FsCache:
                     return full_path
                 condition.wait()
                 condition = self.in_progress.get(cache_file)
-            if cache_file in self.cache_files:
+            if cache_file in self.cache_files and os.path.isfile(full_path):
                 return full_path
 
             condition = threading.Condition(self.lock)
@@ -74,7 +74,8 @@ class FsCache:
 
     def remove_unused(self):
         for filename in self.cache_files.difference(self.touched_files):
-            os.remove(self._full_path(filename))
+            remove_if_exists(self._full_path(filename))
+            self.cache_files.discard(filename)
 
     def get(self, input_data, data_type, constructor):
         def write_result(content, target, _data_type):
-- 
2.43.0


From c56f863f52e1a9a950dcb8d1a44bfd4cdfc45adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:31 +0000
Subject: [PATCH 05/27] fix: keep stored text measurements usable after a
 failed or torn write

---
 elsie/render/backends/svg/backend.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 3135c28..131e490 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -3,6 +3,7 @@ import os
 import re
 from typing import Union
 
+from ....utils.cache import get_cache_file_path, remove_if_exists
 from ....utils.sxml import Xml
 from ....version import VERSION
 from ...inkscape import InkscapeShell
@@ -116,8 +117,12 @@ class InkscapeBackend(Backend):
     def _load_query_cache(self):
         cache_file = self._query_cache_file()
         if os.path.isfile(cache_file):
-            with open(cache_file) as f:
-                cache_config = json.load(f)
+            try:
+                with open(cache_file) as f:
+                    cache_config = json.load(f)
+            except ValueError:
+                print("Stored text measurements are damaged; cache dropped")
+                return {}
             if cache_config.get("version") != VERSION:
                 print("Elsie version changed; cache dropped")
                 return {}
@@ -137,5 +142,12 @@ class InkscapeBackend(Backend):
             "inkscape": self.inkscape_version,
             "queries": list(cache.items()),
         }
-        with open(cache_file, "w") as f:
-            json.dump(cache_config, f)
+        # The file is replaced only when the new one is complete
+        temp_file = get_cache_file_path(self.cache_dir, "queries")
+        try:
+            with open(temp_file, "w") as f:
+                json.dump(cache_config, f)
+            os.replace(temp_file, cache_file)
+        except BaseException:
+            remove_if_exists(temp_file)
+            raise
-- 
2.43.0


From e275013c43a5be93cff0ab369af1aa39e1c2f14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:44 +0000
Subject: [PATCH 06/27] fix: keep all measurements a deck used over repeated
 pruned renders

---
 elsie/render/backends/svg/backend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 131e490..8455d03 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -81,8 +81,7 @@ class InkscapeBackend(Backend):
         return SvgRenderUnit(slide, step, ctx.render(), self.inkscape)
 
     def prune_cache(self):
-        self.query_cache = self.used_query_cache
-        self.used_query_cache = {}
+        self.query_cache = dict(self.used_query_cache)
 
     def save_cache(self):
         self._save_query_cache(self.query_cache)
-- 
2.43.0


From de607aa3972bce47e2797a411e242a8060760841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:11 +0000
Subject: [PATCH 07/27] fix: raise when Inkscape ends instead of waiting for
 its prompt forever

---
 elsie/render/inkscape.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 87ef6b6..d899a47 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -37,6 +37,8 @@ class InkscapeShell:
         stdout = self.process.stdout
         while True:
             character = stdout.read(1)
+            if not character:
+                raise Exception("Inkscape has ended unexpectedly")
             if (
                 character == " "
                 and chars
-- 
2.43.0


From 4449fc9548c7beb868855285227c70f1ba391c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:26 +0000
Subject: [PATCH 08/27] fix: do not block on the diagnostic output of Inkscape

---
 elsie/render/inkscape.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index d899a47..6c62f1c 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -22,7 +22,8 @@ class InkscapeShell:
             [inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
-            stderr=subprocess.PIPE,
+            # Nobody reads it, a pipe would block Inkscape when it gets full
+            stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
         self.wait_for_prompt()
-- 
2.43.0


From f51d1c7c8911328d185a2e89450962fcdff18458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 09/27] fix: keep Inkscape's replies and documents in step
 after failed or interrupted commands

---
 elsie/render/inkscape.py | 44 +++++++++++++++++++++++++++++++++-------
 1 file changed, 37 insertions(+), 7 deletions(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 6c62f1c..bae1191 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,25 +11,47 @@ def svg_file_input(inkscape, svg: str, binary=False):
         f.write(svg)
         f.flush()
         inkscape.run_command(f"file-open:{f.name}")
-        yield
-        inkscape.run_command("file-close")
+        try:
+            yield
+        finally:
+            if inkscape.in_sync:
+                inkscape.run_command("file-close")
 
 
 class InkscapeShell:
     def __init__(self, inkscape_bin: str, text_to_path=False):
         self.text_to_path = text_to_path
+        self.inkscape_bin = inkscape_bin
+        self._start()
+
+    def _start(self):
+        self.in_sync = False
         self.process = subprocess.Popen(
-            [inkscape_bin, "--shell"],
+            [self.inkscape_bin, "--shell"],
             stdout=subprocess.PIPE,
             stdin=subprocess.PIPE,
             # Nobody reads it, a pipe would block Inkscape when it gets full
             stderr=subprocess.DEVNULL,
             universal_newlines=True,
         )
-        self.wait_for_prompt()
+        try:
+            self.wait_for_prompt()
+        except BaseException:
+            self.process.kill()
+            raise
+        self.in_sync = True
 
         self.run_command("file-close")
 
+    def _restart(self):
+        self.process.stdout.close()
+        try:
+            self.process.stdin.close()
+        except OSError:
+            pass
+        self.process.wait()
+        self._start()
+
     def close(self):
         self.process.stdout.close()
 
@@ -85,10 +107,18 @@ class InkscapeShell:
                 )
 
     def run_command(self, command: str):
+        if not self.in_sync:
+            self._restart()
         logging.debug(f"Sending {command} to Inkscape")
-        self.process.stdin.write(f"{command}\n")
-        self.process.stdin.flush()
-        output = self.wait_for_prompt().strip()
+        try:
+            self.process.stdin.write(f"{command}\n")
+            self.process.stdin.flush()
+            output = self.wait_for_prompt().strip()
+        except BaseException:
+            # Later replies would belong to this command, the next one gets a new Inkscape
+            self.in_sync = False
+            self.process.kill()
+            raise
         if output:
             output = output.splitlines(keepends=False)[-1]
         return output
-- 
2.43.0


From 545a04089897d854711667de3268e04f5c63782e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:55 +0000
Subject: [PATCH 10/27] fix: accept added PDF files in name lookups and slide
 postprocessing

---
 elsie/slides/slide.py     | 1 +
 elsie/slides/slidedeck.py | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index 541636f..aa88042 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -70,6 +70,7 @@ class Slide:
 class ExternPdfSlide:
     def __init__(self, filename):
         self.filename = os.path.abspath(filename)
+        self.name = None
 
     def prepare(self):
         pass
diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index e948eca..a2497ee 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -331,7 +331,9 @@ class SlideDeck(StyleContainer):
                 )
 
         if slide_postprocessing:
-            slide_postprocessing([slide.box() for slide in select_slides])
+            slide_postprocessing(
+                [slide.box() for slide in select_slides if isinstance(slide, Slide)]
+            )
 
         if prune_cache:
             self.backend.prune_cache()
-- 
2.43.0


From 7a331f59157be93756d0dbf042037abba1b0e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:10 +0000
Subject: [PATCH 11/27] fix: keep added PDF files in order when slides are put
 into grids

---
 elsie/render/render.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/elsie/render/render.py b/elsie/render/render.py
index 62574f7..3c970d9 100644
--- a/elsie/render/render.py
+++ b/elsie/render/render.py
@@ -91,6 +91,9 @@ def per_page_grouping(backend, units, count_x, count_y, width, height):
     for unit in units:
         svg = unit.get_svg()
         if svg is None:
+            close()
+            xml = new()
+            idx = 0
             new_units.append(unit)
             continue
 
-- 
2.43.0


From eaf92f955e1a08259711e66822861324d151bacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 12/27] fix: do not fail when the cache directory is created
 meanwhile

---
 elsie/slides/slidedeck.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elsie/slides/slidedeck.py b/elsie/slides/slidedeck.py
index a2497ee..c0dd474 100644
--- a/elsie/slides/slidedeck.py
+++ b/elsie/slides/slidedeck.py
@@ -106,7 +106,7 @@ class SlideDeck(StyleContainer):
         cache_dir = os.path.abspath(cache_dir)
         if not os.path.isdir(cache_dir):
             print("Creating cache directory:", cache_dir)
-            os.makedirs(cache_dir)
+            os.makedirs(cache_dir, exist_ok=True)
 
         if backend is None:
             backend = InkscapeBackend(cache_dir=cache_dir)
-- 
2.43.0


From ec4a115163ed84c8c6b6557e783fe79be48057ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:38 +0000
Subject: [PATCH 13/27] fix: leave the slide unchanged when a new box is
 rejected

---
 elsie/boxtree/box.py      | 10 ++++++++--
 elsie/boxtree/boxmixin.py |  3 ++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/elsie/boxtree/box.py b/elsie/boxtree/box.py
index b1e5b1f..4708b10 100644
--- a/elsie/boxtree/box.py
+++ b/elsie/boxtree/box.py
@@ -55,12 +55,18 @@ class Box(BoxMixin, StyleContainer):
         """Returns the current fragment (the fragment with the highest number defined so far)."""
         return self.slide.current_fragment()
 
+    def _check_position(self, above, below):
+        if above is not None and below is not None:
+            raise Exception("'above' and 'below' cannot be both set")
+        for sibling in (above, below):
+            if sibling is not None and sibling not in self.children:
+                raise ValueError("'above' and 'below' have to be children of the box")
+
     def add_child(self, obj, prepend=False, above=None, below=None):
         """Semi-internal function, you can add your child if you know what you are doing."""
         assert isinstance(obj, Box) or isinstance(obj, BoxItem)
 
-        if above is not None and below is not None:
-            raise Exception("'above' and 'below' cannot be both set")
+        self._check_position(above, below)
         if below is not None:
             self.children.insert(self.children.index(below), obj)
         elif above is not None:
diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 369e28f..f51e2e9 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -134,6 +134,8 @@ class BoxMixin:
             Name of the box (used for debugging purposes).
         """
         box = self._get_box()
+        box._check_position(above, below)
+        show = ShowInfo.parse(show, box.slide.max_step)
         layout = box.layout.add(
             x=x,
             y=y,
@@ -153,7 +155,6 @@ class BoxMixin:
         if z_level is None:
             z_level = box.z_level
 
-        show = ShowInfo.parse(show, box.slide.max_step)
         box.slide.max_step = max(box.slide.max_step, show.max_step())
 
         new_box = box.__class__(box.slide, layout, box._styles, show, z_level, name)
-- 
2.43.0


From 3a5a7bf5f4eedc67ec1022f052ea263ac1ce0ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 14/27] fix: do not reuse pages exported with a different
 text-to-path setting

---
 elsie/render/backends/svg/backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/svg/backend.py b/elsie/render/backends/svg/backend.py
index 8455d03..1859d50 100644
--- a/elsie/render/backends/svg/backend.py
+++ b/elsie/render/backends/svg/backend.py
@@ -70,7 +70,10 @@ class InkscapeBackend(Backend):
         self.used_query_cache = {}
 
     def get_version(self, elsie_version: str) -> str:
-        return f"{elsie_version}/{self.inkscape_version}"
+        version = f"{elsie_version}/{self.inkscape_version}"
+        if self.inkscape.text_to_path:
+            version += "/text-to-path"
+        return version
 
     def create_render_unit(self, slide, step, export_type):
         ctx = SvgRenderingContext(slide, step, slide.debug_boxes)
-- 
2.43.0


From f2be5fcca21ef077c32550a855bc461a3fdb84e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:07 +0000
Subject: [PATCH 15/27] fix: cache an ORA image under the data it was converted
 from

---
 elsie/boxtree/boxmixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index f51e2e9..065fb56 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -572,8 +572,8 @@ class BoxMixin:
         slide = self._get_box().slide
         if key not in slide.temp_cache:
 
-            def constructor(_content, output, _data_type):
-                svg = convert_ora_to_svg(filename)
+            def constructor(content, output, _data_type):
+                svg = convert_ora_to_svg(io.BytesIO(content))
                 with open(output, "w") as f:
                     f.write(svg)
 
-- 
2.43.0


From 2f2772538d0ed6d3464da00e41f8f5110ce8b692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 16/27] fix: remove the page file when its export fails

---
 elsie/render/backends/cairo/backend.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index f9e475a..16a6842 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -1,6 +1,6 @@
 from PIL import Image
 
-from ....utils.cache import FsCache, get_cache_file_path
+from ....utils.cache import FsCache, get_cache_file_path, remove_if_exists
 from ....utils.geom import Rect
 from ...render import RenderUnit
 from ..backend import DEFAULT_CACHE_DIR, Backend
@@ -60,6 +60,13 @@ class CairoRenderUnit(RenderUnit):
         self.ctx = ctx
 
     def export(self, fs_cache: FsCache, export_type: str):
+        try:
+            return self._export(export_type)
+        except BaseException:
+            remove_if_exists(self.ctx.filename)
+            raise
+
+    def _export(self, export_type: str):
         if export_type == "pdf":
             self.ctx.surface.finish()
             return self.ctx.filename
-- 
2.43.0


From 2f8b3d3f387b23729c8e3a83efdc42c7ce9c8b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:37 +0000
Subject: [PATCH 17/27] fix: do not count list items that were rejected

---
 elsie/ext/list.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 82f8e3a..9fd5e15 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -131,8 +131,6 @@ class ListBuilder:
             Additional arguments that will be passed to the box of the list item.
             These arguments will be combined with the `box_args` of the current list.
         """
-        self.level[-1] += 1
-
         label_padding = (
             label_padding if label_padding is not None else self.label_padding
         )
@@ -141,6 +139,7 @@ class ListBuilder:
         args.update(box_args)
         box_args["horizontal"] = True
         box, _ = self._create_box(self.parent, indent=0, **box_args)
+        self.level[-1] += 1
         box.update_style("default", TextStyle(align="left"))
 
         actual_label = label if label is not None else self.label
-- 
2.43.0


From 6b9c4583abb7aaddbfc40daa726f730f67f9d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:09 +0000
Subject: [PATCH 18/27] fix: do not remember images that cannot be used

---
 elsie/boxtree/boxmixin.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/elsie/boxtree/boxmixin.py b/elsie/boxtree/boxmixin.py
index 065fb56..70f637b 100644
--- a/elsie/boxtree/boxmixin.py
+++ b/elsie/boxtree/boxmixin.py
@@ -570,7 +570,8 @@ class BoxMixin:
     ):
         key = (filename, "svg")
         slide = self._get_box().slide
-        if key not in slide.temp_cache:
+        root = slide.temp_cache.get(key)
+        if root is None:
 
             def constructor(content, output, _data_type):
                 svg = convert_ora_to_svg(io.BytesIO(content))
@@ -578,9 +579,9 @@ class BoxMixin:
                     f.write(svg)
 
             cache_file = slide.fs_cache.ensure_by_file(filename, "svg", constructor)
-            self._get_box().slide.temp_cache[key] = et.parse(cache_file).getroot()
+            root = et.parse(cache_file).getroot()
         return self._image_svg(
-            filename, scale, fragments, show_begin, select_fragments, rotation
+            filename, scale, fragments, show_begin, select_fragments, rotation, root
         )
 
     def _image_svg(
@@ -591,20 +592,17 @@ class BoxMixin:
         show_begin=1,
         select_fragments: List[int] = None,
         rotation: float = None,
+        root=None,
     ):
         key = (filename, "svg")
-        root = self._get_box().slide.temp_cache.get(key)
+        if root is None:
+            root = self._get_box().slide.temp_cache.get(key)
         if root is None:
             root = et.parse(filename).getroot()
-            self._get_box().slide.temp_cache[key] = root
 
         image_width = svg_size_to_pixels(root.get("width"))
         image_height = svg_size_to_pixels(root.get("height"))
 
-        self._get_box().layout.set_image_size_request(
-            image_width * (scale or 1), image_height * (scale or 1)
-        )
-
         if select_fragments is not None:
             image_steps = len(select_fragments)
         else:
@@ -613,6 +611,11 @@ class BoxMixin:
             else:
                 image_steps = 1
 
+        # Nothing is remembered and changed until the image proves to be usable
+        self._get_box().slide.temp_cache[key] = root
+        self._get_box().layout.set_image_size_request(
+            image_width * (scale or 1), image_height * (scale or 1)
+        )
         self._get_box()._ensure_steps(show_begin - 1 + image_steps)
 
         image_data = None
-- 
2.43.0


From 8c63e8ed4d97f61fbb0f03e73f4b117e5ba5518a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:10 +0000
Subject: [PATCH 19/27] fix: reject measurement replies that are not finite
 numbers

---
 elsie/render/inkscape.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index bae1191..0c0a3bc 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -1,5 +1,6 @@
 import contextlib
 import logging
+import math
 import os
 import subprocess
 import tempfile
@@ -99,12 +100,15 @@ class InkscapeShell:
             self.run_command(f"select:{id}")
             value = self.run_command(query)
             try:
-                return float(value)
+                result = float(value)
             except ValueError:
+                result = math.nan
+            if not math.isfinite(result):
                 raise Exception(
                     f"Inkscape query executed ({query}) and should return "
                     f"float but returned {repr(value)}"
                 )
+            return result
 
     def run_command(self, command: str):
         if not self.in_sync:
-- 
2.43.0


From 6cfa6791933d5b64254ac1971f591e0f4d5ff36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 20/27] fix: start Inkscape again when it ended between two
 commands

---
 elsie/render/inkscape.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/inkscape.py b/elsie/render/inkscape.py
index 0c0a3bc..d7d5863 100644
--- a/elsie/render/inkscape.py
+++ b/elsie/render/inkscape.py
@@ -11,6 +11,7 @@ def svg_file_input(inkscape, svg: str, binary=False):
     with tempfile.NamedTemporaryFile("wb" if binary else "w", suffix=".svg") as f:
         f.write(svg)
         f.flush()
+        inkscape.check_running()
         inkscape.run_command(f"file-open:{f.name}")
         try:
             yield
@@ -53,6 +54,11 @@ class InkscapeShell:
         self.process.wait()
         self._start()
 
+    def check_running(self):
+        # Inkscape may have ended since the last command, e.g. by Ctrl-C in a terminal
+        if self.process.poll() is not None:
+            self.in_sync = False
+
     def close(self):
         self.process.stdout.close()
 
-- 
2.43.0


From 3e1dd5860155ed846e6d3312d13c9aa19031fe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:33 +0000
Subject: [PATCH 21/27] fix: reject a wrong list label before anything is added

---
 elsie/ext/list.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/elsie/ext/list.py b/elsie/ext/list.py
index 9fd5e15..6cb650b 100644
--- a/elsie/ext/list.py
+++ b/elsie/ext/list.py
@@ -135,6 +135,14 @@ class ListBuilder:
             label_padding if label_padding is not None else self.label_padding
         )
 
+        actual_label = label if label is not None else self.label
+        if not (
+            actual_label is None
+            or callable(actual_label)
+            or isinstance(actual_label, str)
+        ):
+            raise Exception("Label must be either a string or a function")
+
         args = dict(self.box_args)
         args.update(box_args)
         box_args["horizontal"] = True
@@ -142,15 +150,12 @@ class ListBuilder:
         self.level[-1] += 1
         box.update_style("default", TextStyle(align="left"))
 
-        actual_label = label if label is not None else self.label
         if actual_label is not None:
             label_box = box.box(y="[0%]")
             if callable(actual_label):
                 actual_label(label_box, self.level)
-            elif isinstance(actual_label, str):
-                label_box.text(actual_label)
             else:
-                raise Exception("Label must be either a string or a function")
+                label_box.text(actual_label)
         return box.box(p_left=label_padding, width="fill")
 
     def _create_sublist(
-- 
2.43.0


From 248b303d69c16b37fc60b336e02f5da8a2e5f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 22/27] fix: a dummy or outranked inline style that spans lines
 does not break the text

---
 elsie/render/backends/svg/draw.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/elsie/render/backends/svg/draw.py b/elsie/render/backends/svg/draw.py
index 6b52060..84640e3 100644
--- a/elsie/render/backends/svg/draw.py
+++ b/elsie/render/backends/svg/draw.py
@@ -82,14 +82,13 @@ def draw_text(
             for _ in active_styles:
                 xml.close("tspan")  # tspan
             for j, s in enumerate(active_styles):
-                if s is None:
-                    continue
                 xml.element("tspan")
                 xml.set("xml:space", "preserve")
                 if j == 0:
                     xml.set("x", x)
                     xml.set("dy", line_size * value)
-                set_font_from_style(xml, s)
+                if s is not None:
+                    set_font_from_style(xml, s)
         elif token_type == "begin":
             is_dummy = value and value[0] == "#"
             s = styles.get(value, None)
@@ -115,9 +114,8 @@ def draw_text(
         else:
             raise Exception("Invalid token")
 
-    for s in active_styles:
-        if s is not None:
-            xml.close("tspan")
+    for _ in active_styles:
+        xml.close("tspan")
     xml.close("text")
 
 
-- 
2.43.0


From 8cc051f6097e923bd99fe3c87cc600546ccdba58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:09 +0000
Subject: [PATCH 23/27] fix: a render never places boxes by positions left from
 an earlier render

---
 elsie/boxtree/layout.py | 6 ++++++
 elsie/slides/slide.py   | 1 +
 2 files changed, 7 insertions(+)

diff --git a/elsie/boxtree/layout.py b/elsie/boxtree/layout.py
index dd2039b..60d3408 100644
--- a/elsie/boxtree/layout.py
+++ b/elsie/boxtree/layout.py
@@ -106,6 +106,12 @@ class Layout:
     def managed_children(self):
         return [child for child in self.children if child.is_managed(self.horizontal)]
 
+    def clear(self):
+        """Forgets the positions computed by an earlier call of `set_rect`."""
+        self.rect = None
+        for child in self.children:
+            child.clear()
+
     def set_rect(self, rect):
         # assert self.rect is None
         rect = rect.shrink(self.p_left, self.p_right, self.p_top, self.p_bottom)
diff --git a/elsie/slides/slide.py b/elsie/slides/slide.py
index aa88042..afd7c3a 100644
--- a/elsie/slides/slide.py
+++ b/elsie/slides/slide.py
@@ -53,6 +53,7 @@ class Slide:
 
     def prepare(self):
         rect = Rect(0, 0, self.width, self.height)
+        self._box.layout.clear()
         self._box.layout.set_rect(rect)
 
     def steps(self):
-- 
2.43.0


From 4264566f04e18a84ff65532a092db7f7e0bf278e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 24/27] fix: Cairo pages have the size of their own deck

---
 elsie/render/backends/cairo/backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index 16a6842..07638da 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -19,7 +19,8 @@ class CairoBackend(Backend):
     def create_render_unit(self, slide, step: int, export_type: str) -> RenderUnit:
         filename = get_cache_file_path(self.cache_dir, export_type)
         ctx = CairoRenderingContext(
-            *self.dimensions,
+            slide.width,
+            slide.height,
             filename=filename,
             export_format=export_type,
             viewbox=slide.view_box,
-- 
2.43.0


From d4ef843b621bf2660f3d068426a1b9bc7faa4d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 25/27] fix: the Cairo backend can draw ellipses and pictures
 without an area

---
 elsie/render/backends/cairo/rcontext.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/elsie/render/backends/cairo/rcontext.py b/elsie/render/backends/cairo/rcontext.py
index 4c91287..2445d5b 100644
--- a/elsie/render/backends/cairo/rcontext.py
+++ b/elsie/render/backends/cairo/rcontext.py
@@ -111,6 +111,9 @@ class CairoRenderingContext(RenderingContext):
     def draw_ellipse(
         self, rect: Rect, rotation=None, color=None, bg_color=None, **kwargs
     ):
+        if not rect.width or not rect.height:
+            return  # As in SVG, it cannot be seen
+
         dim_larger = rect.width
         dim_smaller = rect.height
         if dim_larger < dim_smaller:
@@ -216,6 +219,9 @@ class CairoRenderingContext(RenderingContext):
 
     def draw_bitmap(self, x, y, width, height, data, rotation=None, **kwargs):
         assert isinstance(data, bytes)
+        if not width or not height:
+            return  # As in SVG, it cannot be seen
+
         image = Image.open(io.BytesIO(data))
         if image.mode != "RGBA":
             image = image.convert("RGBA")
-- 
2.43.0


From 26bb5565e3766ac9fc13f0b5840cafca844b15d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 26/27] fix: remove the page file of the Cairo backend when the
 page cannot be drawn

---
 elsie/render/backends/cairo/backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/elsie/render/backends/cairo/backend.py b/elsie/render/backends/cairo/backend.py
index 07638da..fa4840b 100644
--- a/elsie/render/backends/cairo/backend.py
+++ b/elsie/render/backends/cairo/backend.py
@@ -18,6 +18,13 @@ class CairoBackend(Backend):
 
     def create_render_unit(self, slide, step: int, export_type: str) -> RenderUnit:
         filename = get_cache_file_path(self.cache_dir, export_type)
+        try:
+            return self._create_render_unit(slide, step, export_type, filename)
+        except BaseException:
+            remove_if_exists(filename)
+            raise
+
+    def _create_render_unit(self, slide, step: int, export_type: str, filename: str):
         ctx = CairoRenderingContext(
             slide.width,
             slide.height,
-- 
2.43.0


From 36907c73471f19828f54c23d3d1f91db342cac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 27/27] fix: rendering onto a file that is part of the deck
 keeps its pages

---
 elsie/render/pdfmerge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elsie/render/pdfmerge.py b/elsie/render/pdfmerge.py
index 34c0237..06f96f4 100644
--- a/elsie/render/pdfmerge.py
+++ b/elsie/render/pdfmerge.py
@@ -1,3 +1,4 @@
+import io
 import subprocess
 
 
@@ -35,8 +36,12 @@ class PyPdfMerger:
         self.inner.append(filename)
 
     def write(self, output, debug):
+        # The output file may be one of the merged files, which are read until
+        # everything is written
+        data = io.BytesIO()
+        self.inner.write(data)
         with open(output, "wb") as f:
-            self.inner.write(f)
+            f.write(data.getvalue())
 
 
 def get_pdf_merger_by_name(name):
-- 
2.43.0

