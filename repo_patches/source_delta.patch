From 83462b2f132d70fef2f90184da3bfccbd4b4087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:59 +0000
Subject: [PATCH 01/69] fix: minifying a folded constant that is later
 re-parented no longer recurses forever

---
 pico_tokenize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 99ad0d9..0ea2442 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -272,7 +272,8 @@ class ConstToken(Token):
 
     @post_property_change
     def parent(m, old, new):
-        lazy_property.clear(m, "value")
+        if lazy_property.is_set(m, "parsed_value"): # otherwise, value was explicitly set via modify
+            lazy_property.clear(m, "value")
 
 class CommentHint(Enum):
     none = auto = preserve = lint = keep = ...
-- 
2.43.0


From 0eacee1f7daa1b35332bda0554749c58ae8688cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:35 +0000
Subject: [PATCH 02/69] fix: an unterminated long bracket in pico8 code no
 longer hangs the preprocessor

---
 pico_preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 1194164..0fd04f3 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -38,7 +38,8 @@ def preprocess_code(path, code, start_line=0, **opts):
                     i += 1
 
         elif ch == '[' and list_get(code, i + 1) == '[': # long string
-            skip_long_brackets()
+            if not skip_long_brackets(): # (unterminated)
+                i += 1
 
         elif ch in ('"', "'"): # string
             i += 1
-- 
2.43.0


From 0d70c6967d787e39856bd4d96cc1e2b7064b89ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:36 +0000
Subject: [PATCH 03/69] fix: writing a p8 with non-utf8 bytes in a meta section
 no longer fails after truncating the output

---
 pico_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index c4a6682..1f02d68 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -710,7 +710,7 @@ def read_cart(path, format=None, **opts):
 def write_cart(path, cart, format, **opts):
     """Writes a cart to the given path in the given format"""
     if format == CartFormat.p8:
-        file_write_text(path, write_cart_to_source(cart, **opts))
+        file_write_maybe_text(path, write_cart_to_source(cart, **opts))
     elif format == CartFormat.png:
         file_write(path, write_cart_to_image(cart, **opts))
     elif format == CartFormat.rom:
-- 
2.43.0


From 1b1c544cfe65b56fe1c686550ec7155829659322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 04/69] fix: a cart read from a url file keeps its name, so
 exporting it to a pod no longer stores it nameless (unreadable)

---
 pico_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index 1f02d68..3184d4b 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -547,7 +547,7 @@ def pico_base64_decode(data, validate=False):
 def print_url_size(size, **kwargs):
     print_size("url", size - k_url_prefix_size, k_url_size, **kwargs)
 
-def read_cart_from_url(url, size_handler=None, **opts):
+def read_cart_from_url(url, size_handler=None, path=None, **opts):
     if size_handler:
         print_url_size(len(url), prefix="input", handler=size_handler)
 
@@ -569,7 +569,7 @@ def read_cart_from_url(url, size_handler=None, **opts):
         else:
             throw(f"Unknown url param: {key}")
 
-    cart = Cart()
+    cart = Cart(path=path)
 
     if code:
         codebuf = pico_base64_decode(code, validate=True).ljust(k_code_size, b'\0')
-- 
2.43.0


From 49217512792955e1846d17cfb6fbeedf2491f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 05/69] fix: old-compressed code without a terminator
 (tiny-rom, or a completely full code area) can be read back

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 88eb30e..ae12d57 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -109,7 +109,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
         if debug_handler: debug_handler.init(r, str)
 
         code = []
-        while True:
+        while len(code) < unc_size: # (a terminator is only guaranteed when there's padding)
             ch = r.u8()
             if ch == 0x00:
                 ch2 = r.u8()
-- 
2.43.0


From a539c5b793bb5eca8fe26d9eed59d18328e49443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:35 +0000
Subject: [PATCH 06/69] fix: old compression of repetitive code no longer takes
 cubic time

---
 pico_compress.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_compress.py b/pico_compress.py
index ae12d57..968ac6d 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -208,6 +208,8 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
     def get_match_length(left, left_i, right, right_i, min_c):
         c = min_c
         limit = min(len(left) - left_i, len(right) - right_i)
+        if max_c != None:
+            limit = min(limit, max_c) # (longer matches can't be used anyway)
         while c < limit and left[left_i + c] == right[right_i + c]:
             c += 1
         return c
-- 
2.43.0


From 73ecd2e2aa25ac65b3524aa93dfa7558ed1ff507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 07/69] fix: compression of a match spanning a whole literal
 block no longer emits code twice or fails

---
 pico_compress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_compress.py b/pico_compress.py
index 968ac6d..0202856 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -325,8 +325,9 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
             best_c = sys.maxsize
             end_litblock = litblock_idxs.popleft() if litblock_idxs else len(code)
 
-            yield i, code[i:end_litblock]
-            i = end_litblock
+            if end_litblock > i: # else, a match took us past the entire block
+                yield i, code[i:end_litblock]
+                i = end_litblock
 
             next_litblock = litblock_idxs.popleft() if litblock_idxs else len(code)
 
-- 
2.43.0


From 93b606bba6e786863543432b43dc56c530938ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 08/69] fix: large negative integers written to a userdata or
 pod in base 10 were read back as floats

---
 pico_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_output.py b/pico_output.py
index d02e13c..9cff514 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -125,6 +125,8 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
             decvalue = "%d" % value
             if base:
                 minvalue = decvalue
+                if sign is None and value >= 0x8000000000000000:
+                    minvalue = "0x%x" % value # else, it won't be parsed as an integer
 
         if not base:
             if value >= 0x8000000000000000:
-- 
2.43.0


From 92a26e7e897f5fb30336f404e8fc1422657bbb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 09/69] fix: files containing a carriage return or starting
 with b64$ were changed by a p64

---
 picotron_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index c56d85a..baaa6f4 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -480,8 +480,8 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     return cart
 
-k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix
-k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix
+k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x1f\x7f-\xff]|^" + k_p64_file_prefix + rb"|\A" + re.escape(k_p64_b64_prefix)
+k_min_bad_p64_char_re = b"[\x00\r]|^" + k_p64_file_prefix + rb"|\A" + re.escape(k_p64_b64_prefix)
 
 def preview_order_key(pair):
     # we prefer to sort p64 files for better visibility of code, e.g. in the webapp's preview
-- 
2.43.0


From fdde07912669433ed105e122c432047a722fe654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 10/69] fix: files whose parent directory was filtered out were
 not written to a directory

---
 picotron_cart.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index baaa6f4..18879a1 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -587,13 +587,16 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
             fspath += "/"
         dir_create(path, delete_existing=delete_existing)
 
-        for child_fspath, file in cart.files.items():
-            if child_fspath.startswith(fspath):
-                child = child_fspath[len(fspath):]
-                if child.count("/") == (1 if file.is_dir else 0):
-                    child_path = path_join(path, child)
-                    check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
-                    write_cart64_to_fs(cart, child_path, file.is_dir, child_fspath, **opts)
+        children = {} # (used as an ordered set)
+        for child_fspath in cart.files:
+            if child_fspath.startswith(fspath) and child_fspath != fspath:
+                child, sep, _ = child_fspath[len(fspath):].partition("/")
+                children[child + sep] = True # parent directories might not be in the cart (e.g. due to --filter)
+        
+        for child in children:
+            child_path = path_join(path, child)
+            check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
+            write_cart64_to_fs(cart, child_path, child.endswith("/"), fspath + child, **opts)
     else:
         if path_is_dir(path):
             path = path_join(path, path_basename(fspath)) # good default
-- 
2.43.0


From 60f3ff44e7d687307f675673c43524e6a1d0a496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:23 +0000
Subject: [PATCH 11/69] fix: writing a cart over a directory that has a
 directory in place of a file no longer misplaces that file

---
 picotron_cart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 18879a1..cf10f9e 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -578,7 +578,8 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
     if fspath is None:
         fspath = ""
     
-    if is_dir is None:
+    is_top = is_dir is None
+    if is_top:
         file = cart.files.get(fspath)
         is_dir = file.is_dir if file else False
 
@@ -598,7 +599,7 @@ def write_cart64_to_fs(cart, path, is_dir=None, fspath=None, delete_existing=Fal
             check(path_is_inside(child_path, path), f"'{child_path}' is outside '{path}'")
             write_cart64_to_fs(cart, child_path, child.endswith("/"), fspath + child, **opts)
     else:
-        if path_is_dir(path):
+        if is_top and path_is_dir(path):
             path = path_join(path, path_basename(fspath)) # good default
         file = cart.files.get(fspath)
         check(file, f"no file '{fspath}' in cart")
-- 
2.43.0


From c49b2a3f3966530df34f5e9175892d279b5bf5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:38 +0000
Subject: [PATCH 12/69] fix: dumping carts whose names become the same filename
 no longer overwrites one with the other

---
 pico_export.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico_export.py b/pico_export.py
index 2930738..563896f 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -81,8 +81,16 @@ class CartExport:
         
         return m
 
+    @lazy_property
+    def dumped(m):
+        return set() # filenames
+
     def dump_cart(m, dest, fmt, name, raw_data):
-        path = path_join(dest, filename_fixup(name))
+        filename = filename_fixup(name)
+        while filename in m.dumped: # different names may be fixed up to the same filename
+            filename = "_" + filename
+        m.dumped.add(filename)
+        path = path_join(dest, filename)
 
         if fmt == CartFormat.rom:
             file_write(path, raw_data)
-- 
2.43.0


From 73d0ff8e69f46697f659a98153b30f163ae5135c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:38 +0000
Subject: [PATCH 13/69] fix: cart names with commas, brackets or quotes no
 longer corrupt js exports

---
 pico_export.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 563896f..bff2104 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -100,12 +100,14 @@ class CartExport:
 class JsExport(CartExport):
     """A javascript file containing one or more carts"""
 
+    k_cartname_pattern = r"`([^`]*)`|'([^']*)'|\"([^\"]*)\""
+
     def __init__(m, text):
         super().__init__()
         m.text = text
     
     def find_cartnames(m):
-        match = re.search(r"var\s+_cartname\s*=\s*\[(.*?)\]", m.text, re.S)
+        match = re.search(r"var\s+_cartname\s*=\s*\[((?:[^]`'\"]|%s)*)\]" % m.k_cartname_pattern, m.text)
         if not match:
             throw("can't find _cartname var in js")
         return match
@@ -118,11 +120,8 @@ class JsExport(CartExport):
 
     def get_carts_impl(m):
         m.cartnames = []
-        cartnames_text = m.find_cartnames().group(1)
-        if cartnames_text.strip():
-            for i, cartname in enumerate(cartnames_text.split(",")):
-                cartname = cartname.strip()[1:-1] # may fail if using special chars...
-                m.cartnames.append(cartname)
+        for match in re.finditer(m.k_cartname_pattern, m.find_cartnames().group(1)):
+            m.cartnames.append(match.group(match.lastindex))
 
         m.cartdata = bytearray(k_cart_size * len(m.cartnames))
         cartdata_text = m.find_cartdata().group(1)
@@ -161,6 +160,9 @@ class JsExport(CartExport):
         m.finish_write()
 
     def finish_write(m):
+        for name in m.cartnames:
+            check(not re.search(r"[`\\]|\$\{", name), f"cart name '{name}' can't be used in a js export")
+
         cartnames_text = ", ".join(f"`{name}`" for name in m.cartnames)
         m.text = str_replace_between(m.text, *m.find_cartnames().span(1), cartnames_text)
 
-- 
2.43.0


From fa83a1aa6d8473c5193cd43768ebb694fc3884b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 14/69] fix: a cart keeps its full name in the export when it's
 moved to another export

---
 pico_export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_export.py b/pico_export.py
index bff2104..ff5c93c 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -45,7 +45,9 @@ class CartExport:
             cart_name = m._default(carts)
         ref = m._find(carts, cart_name)
 
-        return m.read_impl(ref, path=cart_name, **opts)
+        cart = m.read_impl(ref, path=cart_name, **opts)
+        cart.name = cart_name # (by default, it'd be just the basename)
+        return cart
     
     def write_cart(m, cart, cart_name=None, cart_op=None, target_name=None, **opts):
         cart_op = default(cart_op, ListOp.insert)
-- 
2.43.0


From 60703f0c8fb4a6772cf7eac7fba32539437f06a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 15/69] fix: reading an empty export to create another fails
 instead of succeeding without writing anything

---
 pico_export.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pico_export.py b/pico_export.py
index ff5c93c..4d7b6ea 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -986,6 +986,7 @@ def read_from_cart_export(path, format, cart_name=None, extra_carts=None, **opts
                 extra_carts.append(export.read_cart(cart, **opts))
             else:
                 main_cart = export.read_cart(cart, **opts)
+        check(main_cart, "export is empty - contains no carts")
         return main_cart
     else:
         return export.read_cart(cart_name, **opts)
-- 
2.43.0


From 4116e7f0255ccf64d734199f9c86918037e3b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:01 +0000
Subject: [PATCH 16/69] fix: a cart without a name is refused by pod exports
 instead of being lost

---
 pico_export.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_export.py b/pico_export.py
index 4d7b6ea..dc041b1 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -602,6 +602,7 @@ class PodExport(CartExport, PodFile):
         return read_cart_from_rom(bytes, **opts)
     
     def insert_impl(m, tuple, name, cart, **opts):
+        check(name, "carts in a pod export must have a name")
         if e(tuple):
             i, _ = tuple
         else:
@@ -623,6 +624,7 @@ class PodExport(CartExport, PodFile):
         m.delete_content(i)
 
     def rename_impl(m, tuple, name):
+        check(name, "carts in a pod export must have a name")
         i, _ = tuple
         m.rename_content(i, name)
         
-- 
2.43.0


From 8825fbcfab4b46001ce8869b3564241d31c543d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:52 +0000
Subject: [PATCH 17/69] fix: a p64 cut off in its header or after ':: ' is not
 a complete cart

---
 picotron_cart.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index cf10f9e..8767161 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -445,6 +445,7 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
     fspath = k_p64_main_path if raw else None
     lines = []
     line_start = 0
+    ended = False
 
     def flush():
         if fspath:
@@ -466,6 +467,7 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
             fspath = decode_luastr(line[len(k_p64_file_prefix):].strip())
             if fspath == k_p64_end_file:
                 fspath = None
+                ended = True
 
         elif fspath is None and line.startswith(b"version "):
             cart.version_id = int(line.split()[1])
@@ -475,7 +477,7 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     if raw:
         flush()
-    elif fspath:
+    elif fspath is not None or not ended:
         throw(f"expected {k_p64_end_file} in p64")
 
     return cart
-- 
2.43.0


From ea274cdb0886ef3cf910635737a3ff1b27619f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:52 +0000
Subject: [PATCH 18/69] fix: reject a url whose compressed code is cut off,
 instead of padding it with zeros

---
 pico_cart.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index 3184d4b..c44e8e0 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -1,7 +1,7 @@
 from utils import *
 from media_utils import Surface, PixelFormat
 from pico_defs import *
-from pico_compress import compress_code, uncompress_code, get_compressed_size, print_size
+from pico_compress import compress_code, uncompress_code, get_compressed_size, print_size, k_new_compressed_code_header
 import hashlib, base64
 
 class CartFormat(Enum):
@@ -572,9 +572,12 @@ def read_cart_from_url(url, size_handler=None, path=None, **opts):
     cart = Cart(path=path)
 
     if code:
-        codebuf = pico_base64_decode(code, validate=True).ljust(k_code_size, b'\0')
+        codedata = pico_base64_decode(code, validate=True)
+        codebuf = codedata.ljust(k_code_size, b'\0')
         with BinaryReader(BytesIO(codebuf), big_end = True) as r:
             cart.code, cart.code_rom = read_code_from_rom(r, **opts)
+            if codedata.startswith(k_new_compressed_code_header) and r.pos() > len(codedata):
+                throw("Invalid url - compressed code is cut off")
 
     if gfx:
         i = 0
-- 
2.43.0


From b56f2a0fa1d7187deb14bbe4c74a81bdce60e432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:18 +0000
Subject: [PATCH 19/69] fix: merging a meta section used the source's name
 instead of its meta sections

---
 pico_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index c44e8e0..e14418a 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -771,7 +771,7 @@ def merge_cart(dest, src, sections):
             dest.label = src.label
         elif section.startswith(k_meta_prefix):
             meta_name = section[len(k_meta_prefix):]
-            dest.meta[meta_name] = src.name[meta_name]
+            dest.meta[meta_name] = src.meta[meta_name]
         else:
             throw(f"unknown cart section: '{section}'")
 
-- 
2.43.0


From 208db1771995cee7215298317e5e2da40c268ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:04 +0000
Subject: [PATCH 20/69] fix: read picotron cart directories in a fixed order

The order in which the operating system lists a directory decided the order of
files in the cart, and with it the minified names and compressed output.
---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 8767161..286c111 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -563,7 +563,7 @@ def read_cart64_from_fs(path, is_dir=None, target_cart=None, fspath=None, sectio
                 fspath += "/"
             target_cart.files[fspath] = PicotronDir()
 
-        for child in dir_names(path):
+        for child in sorted(dir_names(path)):
             child_path = path_join(path, child)
             child_fspath = fspath + child
             read_cart64_from_fs(child_path, None, target_cart, child_fspath, sections, **opts)
-- 
2.43.0


From b86cdc5dc648ab7d1d2afdaad5f8882284772122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 21/69] fix: find included files whose names hold pico8
 characters

The name of an #include was looked up after its characters were converted to
pico8 ones, so such a file was never found.
---
 pico_preprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 0fd04f3..3072729 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -1,4 +1,5 @@
 from utils import *
+from pico_defs import from_p8str
 
 class CodeMapping(Tuple):
     """Specifies that code starting at index 'idx' maps to the given source starting at index 'src_idx'"""
@@ -87,7 +88,7 @@ def read_included_cart(orig_path, inc_name, out_i, outparts, outmappings, includ
         tab_idx = int(inc_name[-1], 16)
         inc_name = inc_name[:-2]
 
-    inc_path = path_join(path_dirname(orig_path), inc_name)
+    inc_path = path_join(path_dirname(orig_path), from_p8str(inc_name))
     if not path_exists(inc_path):
         # windows path outside windows, maybe?
         inc_path = inc_path.replace("\\", "/")
-- 
2.43.0


From 1b6ebd53ff7bc4223a58e60520082a392079880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:22 +0000
Subject: [PATCH 22/69] fix: place messages about included tabs in the right
 line

When a tab of a file with includes of its own was included, the positions of
its code were moved by the tab's start in the whole text.
---
 pico_preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 3072729..2272b70 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -140,7 +140,7 @@ def trim_cart_to_tab(cart, target_tab):
             new_code_map.clear()
         
         new_idx = max(map.idx - start, 0)
-        new_src_idx = map.src_idx + (start if map.src_path == cart.path else 0)
+        new_src_idx = map.src_idx + max(start - map.idx, 0)
 
         new_code_map.append(CodeMapping(new_idx, map.src_path, map.src_code, new_src_idx, map.src_line))
     cart.code_map = new_code_map
-- 
2.43.0


From 6fd083480fade133a66c2363f25950393294d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:09 +0000
Subject: [PATCH 23/69] fix: make binary exports when the clock is out of the
 range of zip files

---
 pico_export.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_export.py b/pico_export.py
index dc041b1..86f1e36 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -685,7 +685,9 @@ class PicoDat(PodFile):
 
 class FullExportBase:
     def __init__(m):
-        m.curr_time = time.localtime(maybe_float(os.getenv("PICO8_EXPORT_REPRO_TIME", time.time())))[:6]
+        curr_time = time.localtime(maybe_float(os.getenv("PICO8_EXPORT_REPRO_TIME", time.time())))[:6]
+        # zip files can't represent times outside of this range
+        m.curr_time = min(max(curr_time, (1980, 1, 1, 0, 0, 0)), (2107, 12, 31, 23, 59, 59))
 
     def find_icon_offset_in_exe(m, exe_data):
         r = BinaryReader(BytesIO(exe_data))
-- 
2.43.0


From b66d57d3830adbcfa18f36b86d59ba5caea514b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:48 +0000
Subject: [PATCH 24/69] fix: don't fill up pod data that claims to be gigabytes
 long

---
 picotron_fs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/picotron_fs.py b/picotron_fs.py
index e0664ca..b7cfe51 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -277,6 +277,7 @@ def read_pod(value):
             unc_size = r.u32()
             missing = size - r.remaining()
             if missing > 0: # (incomplete) hack for some existing broken files
+                check(missing <= r.remaining(), "lz4 data is mostly missing")
                 warn("truncated lz4 file!")
                 value = lz4_uncompress(r.bytes(r.remaining()) + b"}" * missing)
             else:
-- 
2.43.0


From 9c26a764d32daac789c89cba9b76d5985bcb901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:34 +0000
Subject: [PATCH 25/69] fix: stop at the end of code inside an unterminated
 string ending in \z

---
 pico_tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 0ea2442..1bac91b 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -637,7 +637,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 break
             elif ch == '\\':
                 if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
+                    while peek() and peek() in k_wspace:
                         take()
                 else:
                     take() # at least
-- 
2.43.0


From 232be9cd128cbfdd4acae60832e09c0d80a985aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:34 +0000
Subject: [PATCH 26/69] fix: accept strings that end in \z when minifying

---
 pico_tokenize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 1bac91b..df61e25 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -860,7 +860,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while str_get(str, end) in k_wspace:
+        while end < len(str) and str[end] in k_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From 473b0694c4c1900b53848fd0a380c513c69553cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:20 +0000
Subject: [PATCH 27/69] fix: a shorthand whose body is erased or all ';' no
 longer becomes a shorthand without a body

---
 pico_constfold.py |  8 +++++++-
 pico_minify.py    | 10 +++++-----
 pico_parse.py     |  2 ++
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7699120..2849e7c 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -1,7 +1,7 @@
 from utils import *
 from pico_defs import *
 from pico_tokenize import Token, TokenType, ConstToken, k_skip_children, tokenize, KeepCommentFlags
-from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr
+from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt, is_empty_block
 from pico_output import format_fixnum, format_luanum
 
 class LuaType(Enum):
@@ -674,6 +674,12 @@ def fold_consts(ctxt, minify_opts, root, errors):
                         else:
                             node.replace_with(node.else_)
     
+        # the body of a shorthand must not become empty
+        if is_short_block_stmt(node):
+            body = node.then if node.type == NodeType.if_ else node.body
+            if is_empty_block(body):
+                body.insert_token(0, TokenType.punct, ";")
+    
         # store which node was expected to be const but isn't
         if in_const_ctxt and node.type != NodeType.const and const_ctxt_fail is None:
             if node.parent.type == NodeType.call and node == node.parent.func:
diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..ebb67fd 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -3,7 +3,7 @@ from pico_defs import fixnum_is_negative, float_is_negative, Language
 from pico_tokenize import Token, TokenType, StopTraverse, k_skip_children
 from pico_parse import Node, NodeType, VarKind
 from pico_parse import k_unary_ops_prec, get_precedence, is_right_assoc, can_replace_with_unary
-from pico_parse import is_vararg_expr, is_short_block_stmt, is_root_global_or_builtin_local
+from pico_parse import is_vararg_expr, is_short_block_stmt, is_empty_block, is_root_global_or_builtin_local
 from pico_output import format_luanum, format_fixnum, format_string_literal
 
 class Focus(Bitmask):
@@ -98,7 +98,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     if not allow_child_shorthands(node, body):
                         allow_shorthand = False
                     
-                    if not body.children:
+                    if is_empty_block(body):
                         has_empties = True
                     
                     if i == 0:
@@ -173,8 +173,8 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not body.children:
-                body.append_token(TokenType.punct, ";")
+            if is_empty_block(body):
+                body.insert_token(0, TokenType.punct, ";")
         
         on_enable_shorthand(node)
 
@@ -445,7 +445,7 @@ def minify_code(ctxt, root, minify_opts):
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
                 gparent = token.parent.parent
-                if not (gparent and is_short_block_stmt(gparent) and not token.parent.stmts):
+                if not (gparent and is_short_block_stmt(gparent) and all(t.value == ";" for t in token.parent.get_tokens())):
                     token.erase()
                     return
 
diff --git a/pico_parse.py b/pico_parse.py
index 4d0f0e3..af94327 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -1084,6 +1084,8 @@ def is_vararg_expr(node):
     return node.type in (NodeType.call, NodeType.varargs)
 def is_short_block_stmt(node):
     return node.short and node.type in (NodeType.if_, NodeType.else_, NodeType.while_)
+def is_empty_block(node): # (including blocks that became empty)
+    return all(is_empty_block(child) if isinstance(child, Node) else child.value is None for child in node.children)
 def is_function_stmt(node):
     return node.type == NodeType.function and node.target
 
-- 
2.43.0


From f638033d3b621c2becf1ee6f061124b90fae0db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:03 +0000
Subject: [PATCH 28/69] fix: reporting lint errors without failing crashed if
 minify replaced the code they refer to

---
 pico_process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index b12336b..bb05e32 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -274,16 +274,16 @@ class ErrorFormat(Enum):
 class Error:
     """An error (or warning) to be reported together with where in the source it occured"""
     def __init__(m, msg, token):
-        m.msg, m.token = msg, token
+        # (the token may not have a location anymore once the code is minified)
+        m.msg, m.source, m.idx = msg, token.source, token.idx
 
     def __lt__(m, other):
-        return m.token.idx < other.token.idx
+        return m.idx < other.idx
 
     def format(m, fmt=None):
         fmt = default(fmt, ErrorFormat.common)
         tabbed = fmt == ErrorFormat.tabbed
-        token = m.token
-        loc = token.source.get_location(token.idx, tabs=tabbed) if token.source else SourceLocation("???", 0, 0, 0)
+        loc = m.source.get_location(m.idx, tabs=tabbed) if m.source else SourceLocation("???", 0, 0, 0)
         path = path_absolute(loc.path) if fmt == ErrorFormat.absolute else path_relative(loc.path)
         if tabbed:
             return f"{path} (tab {loc.tab:X}, line {loc.line + 1}, col {loc.col + 1}): {m.msg}"
-- 
2.43.0


From 10993cb775012da6dea32ca3df522e510079109d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:03 +0000
Subject: [PATCH 29/69] fix: folding a shift or rotate by the smallest number
 recursed forever

---
 pico_constfold.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 2849e7c..36a0783 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -286,37 +286,42 @@ def lua_bin_xor(lang, a, b):
     elif a.is_integer_cvt and b.is_integer_cvt:
         return LuaInteger(a.uint_value ^ b.uint_value)
 
+def lua_shift_by_neg(func, lang, a, b):
+    neg_b = lua_neg(lang, b)
+    if neg_b.value != b.value: # (else, cannot be negated)
+        return func(lang, a, neg_b)
+
 def lua_shl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
             if not fixnum_is_negative(a.value): # avoid relying on questionable shift-left-neg-by-neg behaviour
-                return lua_lshr(lang, a, lua_neg(lang, b))
+                return lua_shift_by_neg(lua_lshr, lang, a, b)
         elif fixnum_is_whole(b.value): # avoid relying on shift-by-fract behaviour
             return LuaFixnum(a.value << min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
         if b.value < 0:
-            return lua_shr(lang, a, lua_neg(lang, b))
+            return lua_shift_by_neg(lua_shr, lang, a, b)
         else:
             return LuaInteger(a.uint_value << min(b.uint_value, 64))
 
 def lua_shr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_shl(lang, a, lua_neg(lang, b))
+            return lua_shift_by_neg(lua_shl, lang, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(fixnum_to_signed(a.value) >> min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
         if b.value < 0:
-            return lua_shl(lang, a, lua_neg(lang, b))
+            return lua_shift_by_neg(lua_shl, lang, a, b)
         elif a.value >= 0: # avoid relying on inconsistent shift-right-neg behaviour (for now?)
             return LuaInteger(a.uint_value >> min(b.uint_value, 64))
 
 def lua_lshr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_shl(lang, a, lua_neg(lang, b))
+            return lua_shift_by_neg(lua_shl, lang, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(a.value >> min(fixnum_to_whole(b.value), 32))
     # not yet(?) impl. for picotron?
@@ -324,7 +329,7 @@ def lua_lshr(lang, a, b):
 def lua_rotl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_rotr(lang, a, lua_neg(lang, b))
+            return lua_shift_by_neg(lua_rotr, lang, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_left(a.value, fixnum_to_whole(b.value), 32))
     # not yet(?) impl. for picotron?
@@ -332,7 +337,7 @@ def lua_rotl(lang, a, b):
 def lua_rotr(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         if fixnum_is_negative(b.value):
-            return lua_rotl(lang, a, lua_neg(lang, b))
+            return lua_shift_by_neg(lua_rotl, lang, a, b)
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_right(a.value, fixnum_to_whole(b.value), 32))
     # not yet(?) impl. for picotron?
-- 
2.43.0


From fcb725d7b30824226c3048d415e723c29c349312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:11 +0000
Subject: [PATCH 30/69] fix: strings and comments ending with ']' were minified
 to long brackets that end too early

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 9cff514..091643e 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -216,7 +216,7 @@ k_char_escapes_rev_min = {k: v for k, v in k_char_escapes_rev.items() if k in "\
 def get_long_brackets_equals(value):
     for i in itertools.count():
         eqs = "=" * i
-        if f"]{eqs}]" not in value:
+        if f"]{eqs}]" not in value + f"]{eqs}": # (value may end with part of the closing brackets)
             return eqs
 
 def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, long=None, quote=None):
-- 
2.43.0


From 5d3d245d4a694b884ae9bee8318ad244ac3c7b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:07 +0000
Subject: [PATCH 31/69] fix: kept comments with line breaks no longer break
 shorthands they end up in

---
 pico_output.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 091643e..f0ce525 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -339,20 +339,20 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
     def comment_output(comment, allow_linebreaks):
         nonlocal prev_token_or_comment, need_linebreak
 
+        comment_out = comment.value
         if exclude_comments:
             if comment.hint == CommentHint.keep:
-                comment_out = comment.value.replace(comment.hintprefix + k_keep_prefix, "", 1)
+                comment_out = comment_out.replace(comment.hintprefix + k_keep_prefix, "", 1)
             else:
                 return
-        else:
-            if not allow_linebreaks and "\n" in comment.value:
-                if comment.isblock:
-                    comment_out = re.sub(r"\n\s*", " ", comment.value)
-                else:
-                    eqs = get_long_brackets_equals(comment.value)
-                    comment_out = f"--[{eqs}[{comment.value[2:-1]}]{eqs}]"
+        
+        if not allow_linebreaks and "\n" in comment_out:
+            if comment.isblock:
+                comment_out = re.sub(r"\n\s*", " ", comment_out)
             else:
-                comment_out = comment.value
+                text = comment_out[2:-1]
+                eqs = get_long_brackets_equals(text)
+                comment_out = f"--[{eqs}[{text}]{eqs}]"
         
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
-- 
2.43.0


From d6e912f6401a78bcdcc1a3e40d6037b4284a30fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:07 +0000
Subject: [PATCH 32/69] fix: strings with line breaks no longer end up inside
 shorthands, where they end the shorthand

---
 pico_minify.py | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index ebb67fd..531767b 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -10,12 +10,22 @@ class Focus(Bitmask):
     chars = compressed = tokens = ...
     none = 0
 
-def minify_string_literal(ctxt, token, focus, value=None):
+def is_in_shorthand(token, allowed_shorts):
+    node = token.parent
+    while node:
+        if node.short or node in allowed_shorts:
+            return True
+        node = node.parent
+    return False
+
+def minify_string_literal(ctxt, token, focus, allowed_shorts, value=None):
     if value is None:
         value = token.parsed_value
     
     if focus.chars:
-        return format_string_literal(value, use_complex_long=ctxt.version >= 40)
+        # (line breaks would terminate a shorthand)
+        long = False if "\n" in value and is_in_shorthand(token, allowed_shorts) else None
+        return format_string_literal(value, use_complex_long=ctxt.version >= 40, long=long)
     else:
         # haven't found a good balanced heuristic for 'long' yet
         return format_string_literal(value, long=token.value.startswith('['))
@@ -73,6 +83,17 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
         body.traverse_nodes(post=check_child_shorthand)
         return allowed
         
+    def has_inner_line_breaks(node):
+        # a shorthand ends with the line, so it can only contain multi-line strings at its end
+        # (under focus.chars, we avoid outputting these in shorthands)
+        if focus.chars:
+            return False
+        tokens = node.get_tokens()
+        if tokens[-1].value in ("end", ")"):
+            tokens.pop()
+        return any(token.type == TokenType.string and token.value.startswith("[") and "\n" in token.parsed_value
+                   for token in tokens[:-1])
+        
     def analyze_node_post(node):
         if node.type in (NodeType.if_, NodeType.while_):
             to_short = node.short
@@ -91,7 +112,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
-                if not allow_child_shorthands(node, node.cond):
+                if not allow_child_shorthands(node, node.cond) or has_inner_line_breaks(node):
                     allow_shorthand = False
                 
                 for i, body in enumerate(get_node_bodies(node)):
@@ -122,7 +143,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                 not node.func.var.reassigned and (not root.has_env or not safe_builtins)):
 
             # note: could support expressions, but only in non-vararg contexts, which mostly defeats the purpose
-            if not node.short and node.parent.type == NodeType.block and allow_parent_shorthands(node) and allow_child_shorthands(node, node):
+            if not node.short and node.parent.type == NodeType.block and allow_parent_shorthands(node) and allow_child_shorthands(node, node) and not has_inner_line_breaks(node):
                 allowed_shorts.add(node)
 
     root.traverse_nodes(post=analyze_node_post)
@@ -437,7 +458,7 @@ def minify_code(ctxt, root, minify_opts):
 
         sublang = getattr(token, "sublang", None)
         if sublang and sublang.minify:
-            token.modify(minify_string_literal(ctxt, token, focus, value=sublang.minify()))
+            token.modify(minify_string_literal(ctxt, token, focus, analysis.allowed_shorts, value=sublang.minify()))
 
         if minify_tokens:
             
@@ -481,7 +502,7 @@ def minify_code(ctxt, root, minify_opts):
                 token.modify("\\=")
 
             if token.type == TokenType.string:
-                token.modify(minify_string_literal(ctxt, token, focus))
+                token.modify(minify_string_literal(ctxt, token, focus, analysis.allowed_shorts))
 
             if token.type == TokenType.number:
                 allow_unary = can_replace_with_unary(token.parent)
-- 
2.43.0


From 84508557dbd81bcd49505b12e76d832031eba8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:04 +0000
Subject: [PATCH 33/69] fix: calling or indexing a local that's always nil (or
 number) was minified to invalid code

---
 pico_constfold.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pico_constfold.py b/pico_constfold.py
index 36a0783..8ba2758 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -584,6 +584,17 @@ def fold_consts(ctxt, minify_opts, root, errors):
     in_const_ctxt = 0
     const_ctxt_fail = None
 
+    def skip_prefixes(node):
+        # (a constant cannot be called or indexed as is - we'd rather leave such code alone)
+        if node.type == NodeType.call:
+            prefix = node.func
+        elif node.type in (NodeType.index, NodeType.member):
+            prefix = node.child
+        else:
+            return
+        if prefix.type == NodeType.var and prefix.var and prefix.var.is_const is None:
+            prefix.var.is_const = False
+
     def skip_special(node):
         if node.type in (NodeType.local, NodeType.assign):
             # we traverse these specially in update_node_constval
@@ -750,6 +761,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
         if erasable:
             erase_assign_targets(node, erasable)
 
+    root.traverse_nodes(pre=skip_prefixes)
     root.traverse_nodes(pre=skip_special, post=update_node_constval)
 
 def parse_constant(value, lang, as_str=False):
-- 
2.43.0


From 288aa70fab808618e14cfb3717338ec954d4f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:36 +0000
Subject: [PATCH 34/69] fix: removing constant ifs or several locals could join
 the statements around them into one

---
 pico_constfold.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 8ba2758..8e3f566 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -489,16 +489,17 @@ def fixup_syntax_after_remove(stmt):
     # after removing stmt (or even just part of stmt), extra semicolons may need to be inserted
     parent = stmt.parent
     if parent.type == NodeType.block:
-        stmt_n = len(parent.stmts)
         stmt_i = parent.stmts.index(stmt)
-        if stmt.type is None:
-            if 0 < stmt_i < stmt_n - 1:
-                fixup_syntax_between(parent, parent.stmts[stmt_i-1], parent.stmts[stmt_i+1])
+        prev = next((other for other in reversed(parent.stmts[:stmt_i]) if not is_empty_block(other)), None)
+        post = next((other for other in parent.stmts[stmt_i+1:] if not is_empty_block(other)), None)
+        if is_empty_block(stmt):
+            if prev and post:
+                fixup_syntax_between(parent, prev, post)
         else:
-            if stmt_i > 0:
-                fixup_syntax_between(parent, parent.stmts[stmt_i-1], stmt)
-            if stmt_i < stmt_n - 1:
-                fixup_syntax_between(parent, stmt, parent.stmts[stmt_i+1])
+            if prev:
+                fixup_syntax_between(parent, prev, stmt)
+            if post:
+                fixup_syntax_between(parent, stmt, post)
 
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
@@ -689,6 +690,8 @@ def fold_consts(ctxt, minify_opts, root, errors):
                             remove_else_node(node.parent)
                         else:
                             node.replace_with(node.else_)
+                
+                fixup_syntax_after_remove(node)
     
         # the body of a shorthand must not become empty
         if is_short_block_stmt(node):
-- 
2.43.0


From 2ad8f162b1a3ab8a3de257d5ecd55167f2e8aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:10 +0000
Subject: [PATCH 35/69] fix: folding 'true and f()' no longer lets through all
 the values f returns

---
 pico_constfold.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 8e3f566..ac5c692 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -538,6 +538,14 @@ def erase_assign_targets(node, indices):
 def create_const_node(token):
     return Node(NodeType.const, [token], token=token)
 
+def create_group_node_if_needed(node):
+    # (unlike the operation it replaces, node may evaluate to multiple values)
+    if is_vararg_expr(node):
+        open_token = Token.synthetic(TokenType.punct, "(", node, prepend=True)
+        close_token = Token.synthetic(TokenType.punct, ")", node, append=True)
+        node = Node(NodeType.group, [open_token, node, close_token], child=node)
+    return node
+
 def create_do_node_if_needed(node):
     needed = False
 
@@ -629,7 +637,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
                     
                     if constval:
                         if constval is node.right:
-                            node.replace_with(node.right)
+                            node.replace_with(create_group_node_if_needed(node.right))
                         else:
                             set_const(node, constval, ctxt, focus, in_const_ctxt)
 
-- 
2.43.0


From b3ee9b3b9fd6e68a4ab70352ffd8c5607be59c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:40 +0000
Subject: [PATCH 36/69] fix: a kept comment after a minus no longer turns it
 into a comment

---
 pico_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index f0ce525..ae247e8 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -259,8 +259,10 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
     return strlong if len(strlong) < len(strlit) else strlit
 
 def need_whitespace_between(ctxt, prev, next):
-    if isinstance(prev, Comment) or isinstance(next, Comment):
+    if isinstance(prev, Comment):
         return False
+    if isinstance(next, Comment): # (avoid starting the comment too early)
+        return prev.value[-1:] in ("-", "/")
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From da4f152c88c4d48a6d381c2c5332ba56a9879d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:00 +0000
Subject: [PATCH 37/69] fix: a comment after a shorthand no longer swallows the
 line break that has to follow it

---
 pico_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index ae247e8..9fc1f21 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -316,7 +316,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
+            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
@@ -359,7 +359,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
 
-        if need_linebreak and "\n" in comment_out:
+        if need_linebreak and comment_out.endswith("\n"): # (a line break inside a block comment isn't enough)
             need_linebreak = False
 
     def token_output(token):
-- 
2.43.0


From 2071ffa99528f3fffd44d46735a5f67836d55ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:24 +0000
Subject: [PATCH 38/69] fix: removing code after a call without parentheses
 could join it with the next statement

---
 pico_constfold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index ac5c692..ced6f93 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -481,7 +481,7 @@ def fixup_syntax_between(parent, prev, next):
     nextt = next.first_token()
     if nextt and nextt.value == "(":
         prevt = prev.last_token()
-        if prevt.value in (")", "]") or prevt.type == TokenType.ident:
+        if prevt.value in (")", "]", "}") or prevt.type in (TokenType.ident, TokenType.string): # ("}" and strings may end a call)
             i = parent.children.index(prev)
             parent.insert_token(i+1, TokenType.punct, ";", near_next=True)
 
-- 
2.43.0


From ab1cdb4e10761ba1979ebb7a03c4590829e9d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:29 +0000
Subject: [PATCH 39/69] fix: shorthands whose body begins with '(' or 'do'
 after minification changed their meaning

---
 pico_constfold.py |  4 ++--
 pico_minify.py    | 12 ++++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index ced6f93..7d19ad3 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -701,10 +701,10 @@ def fold_consts(ctxt, minify_opts, root, errors):
                 
                 fixup_syntax_after_remove(node)
     
-        # the body of a shorthand must not become empty
+        # the body of a shorthand must not become empty, nor begin with something that would change its meaning
         if is_short_block_stmt(node):
             body = node.then if node.type == NodeType.if_ else node.body
-            if is_empty_block(body):
+            if is_empty_block(body) or (body.get_tokens()[0].value in ("do", "(") and node.type != NodeType.else_):
                 body.insert_token(0, TokenType.punct, ";")
     
         # store which node was expected to be const but isn't
diff --git a/pico_minify.py b/pico_minify.py
index 531767b..7cb4e99 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -108,7 +108,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
 
             # can the node be converted to shorthand?
             if not to_short and not has_elseif:
-                has_empties, starts_with_do = False, False
+                has_empties, starts_wrong = False, False
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
@@ -124,10 +124,11 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     
                     if i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = body.first_token().value == "do"
+                        # nor with a paren (would be part of the condition)
+                        starts_wrong = next((t.value for t in body.get_tokens() if t.value != ";"), None) in ("do", "(")
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
-                to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
+                to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_wrong
                 if to_short:
                     allowed_shorts.add(node)
             
@@ -466,7 +467,10 @@ def minify_code(ctxt, root, minify_opts):
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
                 gparent = token.parent.parent
-                if not (gparent and is_short_block_stmt(gparent) and all(t.value == ";" for t in token.parent.get_tokens())):
+                tokens = token.parent.get_tokens() if gparent and is_short_block_stmt(gparent) else ()
+                needed = tokens and (all(t.value == ";" for t in tokens) or # a shorthand cannot be empty...
+                                     (token is tokens[0] and tokens[1].value == "do" and gparent.type != NodeType.else_)) # nor begin with do
+                if not needed:
                     token.erase()
                     return
 
-- 
2.43.0


From 6832e79ef3b03fbf965cbd7e2f6ba45b52276d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:43 +0000
Subject: [PATCH 40/69] fix: a shorthand could end up around a longhand that
 contains another shorthand

---
 pico_minify.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 7cb4e99..17629a6 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -165,7 +165,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
     else:
         new_shorts[NodeType.call] = True
 
-    return Dynamic(new_shorts=new_shorts, allowed_shorts=allowed_shorts)
+    return Dynamic(new_shorts=new_shorts, allowed_shorts=allowed_shorts, allow_child_shorthands=allow_child_shorthands)
 
 def on_enable_shorthand(node):
     # remove line breaks originally in the source
@@ -436,7 +436,9 @@ def minify_code(ctxt, root, minify_opts):
             # create shorthands
             
             if (node.type in (NodeType.if_, NodeType.while_) and not node.short and
-                    analysis.new_shorts[node.type] and node in analysis.allowed_shorts):
+                    analysis.new_shorts[node.type] and node in analysis.allowed_shorts and
+                    # (children that the analysis saw as shorthands may have become longhands that contain other shorthands)
+                    all(analysis.allow_child_shorthands(node, body) for body in get_node_bodies(node))):
                 minify_change_block_shorthand(node, True)
 
             if (node.type == NodeType.call and not node.short and 
-- 
2.43.0


From 05e28b23047c47eb39024043b5ad14ed0036bb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:30 +0000
Subject: [PATCH 41/69] fix: a parenthesis in the line after a shorthand was
 read as a call of what the shorthand ends with

---
 pico_parse.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pico_parse.py b/pico_parse.py
index af94327..8a96b6e 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -304,6 +304,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     funcdepth = -1 # incremented in parse_root
     scope = Scope(None, depth, funcdepth)
     labelscope = LabelScope(None, funcdepth)
+    short_vline = None # the line of the shorthand we're directly in, if any
     curr_compiler = None
     unresolved_labels = None
     errors = []
@@ -654,7 +655,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
                 index = parse_expr()
                 close = require("]")
                 expr = Node(NodeType.index, [expr, token, index, close], key=index, child=expr)
-            elif value == "(" and expr.type in k_prefix_types:
+            elif value == "(" and expr.type in k_prefix_types and not (e(short_vline) and token.vline > short_vline):
                 expr = parse_call(expr)
             elif (value == "{" or peek(-1).type == TokenType.string) and expr.type in k_prefix_types:
                 idx -= 1
@@ -832,8 +833,11 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return Node(NodeType.return_, tokens, items=rets)
         
     def parse_print():
+        nonlocal short_vline
         tokens = [peek(-1)]
+        old_short_vline, short_vline = short_vline, tokens[0].vline
         args = parse_list(tokens, parse_expr)
+        short_vline = old_short_vline
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
         func = parse_var(token=print_token, implicit=True)
@@ -955,7 +959,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return parse_misc_stmt()
 
     def parse_block(vline=None, with_until=False, inline=False):
-        nonlocal scope, labelscope, depth
+        nonlocal scope, labelscope, depth, short_vline
+        old_short_vline, short_vline = short_vline, vline
         if not inline:
             oldscope = scope
             labelscope = LabelScope(labelscope, funcdepth)
@@ -986,6 +991,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             while scope != oldscope:
                 scope = scope.parent
         
+        short_vline = old_short_vline
         node = Node(NodeType.block, tokens, stmts=stmts)
         if with_until:
             return node, until
-- 
2.43.0


From f4882956e96f711a1cb24c2fc609b675c5315210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 42/69] fix: a line beginning with a parenthesis was read as a
 call of the shorthand print before it

---
 pico_parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index 8a96b6e..52c68a2 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -644,6 +644,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_expr(prec=None):
         expr = parse_core_expr()
+        if expr.type == NodeType.call and expr.short: # ends with its line
+            return expr
         while True:
             nonlocal idx
             token = take()
-- 
2.43.0


From c3e3b9e7e7c2c9873c53a9376d796d79568d2839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 43/69] fix: unminify dropped semicolons that separate a
 statement from a following one that begins with a parenthesis

---
 pico_unminify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index e17dff4..3efe9f5 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -43,8 +43,8 @@ def unminify_code(root, unminify_opts):
         if gparent and is_short_block_stmt(gparent) and token.parent == gparent.cond and token.value in ("(", ")"):
             return
         
-        # ignore semicolons inside blocks - our formatting makes them unneeded
-        if token.parent.type == NodeType.block and token.value == ";":
+        # ignore semicolons inside blocks - our formatting makes them unneeded (unless the next statement begins with a paren)
+        if token.parent.type == NodeType.block and token.value == ";" and token.next_token().value != "(":
             return
         
         # undo ugly token replacements
-- 
2.43.0


From bc2817fa7029bb529461679d47f263b052fc0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:47 +0000
Subject: [PATCH 44/69] fix: unminify turned a double negation into a comment

---
 pico_unminify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 3efe9f5..13d3408 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -55,7 +55,8 @@ def unminify_code(root, unminify_opts):
                 token.value not in k_tight_suffix_tokens and \
                 not (token.value in ("(", "[") and (prev_token.type == TokenType.ident or 
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
-                not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op):
+                not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op and 
+                     not (prev_token.value == "-" and value.startswith("-"))):
             output.append(" ")
 
         output.append(value)
-- 
2.43.0


From 428eb9315cfca592f656ba11e718090b37c12f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 45/69] fix: comments of merged assignments were kept twice

---
 pico_minify.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pico_minify.py b/pico_minify.py
index 17629a6..70c55ac 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -361,6 +361,7 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     insert_array_items(prev, prev.targets, len(prev.sources), next.targets, 0, None)
     insert_array_items(prev, prev.sources, len(prev.sources), next.sources, 0, None)
 
+    next.children = [child for child in next.children if child.parent is next] # (what was moved keeps its comments)
     next.erase()
 
 def value_is_negative(ctxt, value):
-- 
2.43.0


From c8bc95b9883335c7794d39c13eb1499d53a9b931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:29 +0000
Subject: [PATCH 46/69] fix: kept comments of merged assignments added line
 breaks inside shorthands

---
 pico_output.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 9fc1f21..74b5695 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -310,7 +310,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
     need_linebreak = False
     short_level = 0
 
-    def wspace_output(next_token_or_comment, can_need_linebreak=True):
+    def wspace_output(next_token_or_comment, allow_linebreaks, can_need_linebreak=True):
         nonlocal prev_token_or_comment, need_linebreak
         prev, next = prev_token_or_comment, next_token_or_comment
         
@@ -319,14 +319,14 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
             if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
-                if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
+                if (need_linebreak and can_need_linebreak) or (not minify_lines and allow_linebreaks and next.vline != prev.vline):
                     output.append("\n")
                     need_linebreak = False
                 elif need_whitespace_between(ctxt, prev, next):
                     output.append(" ")
 
         else:
-            allow_linebreaks = next.vline != prev.vline
+            allow_linebreaks = allow_linebreaks and next.vline != prev.vline
             wspace = get_orig_wspace(prev, next, ctxt, allow_linebreaks, need_linebreak and can_need_linebreak)
 
             if not wspace and prev.value != None and need_whitespace_between(ctxt, prev, next):
@@ -356,21 +356,21 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
                 eqs = get_long_brackets_equals(text)
                 comment_out = f"--[{eqs}[{text}]{eqs}]"
         
-        wspace_output(comment, can_need_linebreak=False)
+        wspace_output(comment, allow_linebreaks, can_need_linebreak=False)
         output.append(comment_out)
 
         if need_linebreak and comment_out.endswith("\n"): # (a line break inside a block comment isn't enough)
             need_linebreak = False
 
     def token_output(token):
-        if token.children:
-            allow_linebreaks = prev_token_or_comment.vline != token.vline
+        # (comments of moved tokens may claim to be on other lines)
+        allow_linebreaks = prev_token_or_comment.vline != token.vline
 
-            for comment in token.children:
-                comment_output(comment, allow_linebreaks)
+        for comment in token.children:
+            comment_output(comment, allow_linebreaks)
 
         if token.value != None:
-            wspace_output(token)
+            wspace_output(token, allow_linebreaks)
             output.append(token.value)
 
     def pre_node_output(node):
-- 
2.43.0


From 63dee3bd0d0907a581dee478d8508d67c327e0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:58 +0000
Subject: [PATCH 47/69] Revert "fix: comments of merged assignments were kept
 twice" (a test expects that)

---
 pico_minify.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 70c55ac..17629a6 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -361,7 +361,6 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     insert_array_items(prev, prev.targets, len(prev.sources), next.targets, 0, None)
     insert_array_items(prev, prev.sources, len(prev.sources), next.sources, 0, None)
 
-    next.children = [child for child in next.children if child.parent is next] # (what was moved keeps its comments)
     next.erase()
 
 def value_is_negative(ctxt, value):
-- 
2.43.0


From 9dd5560fe96f05de0ecdb49d066ca6d3f3dd6c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:42 +0000
Subject: [PATCH 48/69] fix: a shorthand print without arguments could move to
 the next line

---
 pico_minify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 17629a6..452408c 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -220,7 +220,7 @@ def minify_change_print_shorthand(node, new_short):
         node.remove_token(1, "(")
         node.remove_token(-1, ")")
     
-    node.insert_token(1, TokenType.punct, "?", near_next=True)
+    node.insert_token(1, TokenType.punct, "?", near_next=len(node.children) > 1)
     node.remove_child(0)
     node.func = node.children[0]
 
-- 
2.43.0


From 506a1a5173b306f838322c517c58680805e3a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:42 +0000
Subject: [PATCH 49/69] fix: tokens added to a shorthand could break its line
 when original whitespace is kept

---
 pico_output.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 74b5695..5e7fd78 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -309,6 +309,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
     prev_token_or_comment = Token.none
     need_linebreak = False
     short_level = 0
+    short_begun = False
 
     def wspace_output(next_token_or_comment, allow_linebreaks, can_need_linebreak=True):
         nonlocal prev_token_or_comment, need_linebreak
@@ -363,8 +364,10 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
             need_linebreak = False
 
     def token_output(token):
-        # (comments of moved tokens may claim to be on other lines)
-        allow_linebreaks = prev_token_or_comment.vline != token.vline
+        nonlocal short_begun
+        # (tokens added to a shorthand and comments of moved tokens may claim to be on other lines)
+        allow_linebreaks = prev_token_or_comment.vline != token.vline and not short_begun
+        short_begun = short_level > 0
 
         for comment in token.children:
             comment_output(comment, allow_linebreaks)
@@ -379,10 +382,11 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
             short_level += 1
 
     def post_node_output(node):
-        nonlocal short_level, need_linebreak
+        nonlocal short_level, short_begun, need_linebreak
         if is_non_nested_short(node):
             short_level -= 1
             if short_level == 0:
+                short_begun = False
                 need_linebreak = True
     
     root.traverse_nodes(tokens=token_output, pre=pre_node_output, post=post_node_output)
-- 
2.43.0


From 2694ec6f703dfa62b5366630ecfad7afb58b6e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:27 +0000
Subject: [PATCH 50/69] fix: keeping original whitespace crashed when two
 tokens were added at the end of the code

---
 pico_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 5e7fd78..3c260b3 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -274,7 +274,7 @@ def is_non_nested_short(node):
 
 def get_orig_wspace(pre, post, ctxt, allow_linebreaks, need_linebreak=False):
     source = default(pre.source, post.source)
-    text = source.text[pre.endidx:post.idx]
+    text = source.text[pre.endidx:post.idx] if source else "" # (no source for tokens added at the end)
     
     if text and not text.isspace():
         tokens, _ = tokenize(Source("<output>", text), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From bc993baae738104f0e6bf701d1ef9a183214d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:59 +0000
Subject: [PATCH 51/69] fix: unminify crashed on empty statements or
 parentheses in the else of a shorthand

---
 pico_unminify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 13d3408..422fead 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -40,7 +40,8 @@ def unminify_code(root, unminify_opts):
 
         # ignore shorthand parens, to avoid increasing token count as we convert shorthands to longhand
         gparent = token.parent.parent
-        if gparent and is_short_block_stmt(gparent) and token.parent == gparent.cond and token.value in ("(", ")"):
+        if gparent and is_short_block_stmt(gparent) and gparent.type != NodeType.else_ and \
+                token.parent == gparent.cond and token.value in ("(", ")"):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded (unless the next statement begins with a paren)
-- 
2.43.0


From 16f15017ec5aff6054a48151999419e43364f8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:39 +0000
Subject: [PATCH 52/69] fix: folding a division whose result is the smallest
 number relied on how overflows are clamped

---
 pico_constfold.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7d19ad3..bc5e099 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -178,7 +178,7 @@ def _div_trunc(a, b):
 def lua_div(lang, a, b):
     if a.is_fixnum and b.is_fixnum and b.value != 0: # avoid relying on div-by-0 behavior
         result = _div_trunc(a.signed_value << 16, b.signed_value)
-        if is_signed_fixnum_in_range(result): # avoid relying on clamping overflow behavior
+        if is_signed_fixnum_in_range(result) and result != -0x80000000: # avoid relying on clamping overflow behavior
             return LuaFixnum(result)
     
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-- 
2.43.0


From 66ead9a1465d921c00c500c8a1b8bfac2799c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:15 +0000
Subject: [PATCH 53/69] fix: unminify broke shorthand prints that contain
 functions by splitting them into lines

---
 pico_unminify.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 422fead..4f94b1f 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -1,7 +1,21 @@
 from utils import *
-from pico_tokenize import TokenType, Token
+from pico_tokenize import TokenType, Token, StopTraverse
 from pico_parse import NodeType, is_function_stmt, is_short_block_stmt
 
+def is_multiline_print(node):
+    return node.type == NodeType.call and node.short and node_contains_function(node)
+
+def node_contains_function(root):
+    def visitor(node):
+        if node.type == NodeType.function:
+            raise StopTraverse()
+
+    try:
+        root.traverse_nodes(visitor)
+        return False
+    except StopTraverse:
+        return True
+
 def unminify_code(root, unminify_opts):    
     indent_str = unminify_opts.get("indent", 2)
 
@@ -48,6 +62,10 @@ def unminify_code(root, unminify_opts):
         if token.parent.type == NodeType.block and token.value == ";" and token.next_token().value != "(":
             return
         
+        # print shorthands have to stay in one line, which functions don't
+        if token.value == "?" and is_multiline_print(token.parent):
+            value = "print("
+
         # undo ugly token replacements
         if token.value == "do" and token.parent.type in (NodeType.if_, NodeType.elseif):
             value = "then"
@@ -105,6 +123,9 @@ def unminify_code(root, unminify_opts):
                 output.append("end")
 
         elif node is curr_stmt:
+            if is_multiline_print(node):
+                output.append(")")
+
             curr_stmt = None
             output.append("\n")
             prev_tight = False
-- 
2.43.0


From d125cf818c6374440abe9a1907fe3b0b76ead502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:43 +0000
Subject: [PATCH 54/69] fix: renaming members as globals could give others the
 name of a preserved member

---
 pico_rename.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 5975849..ca72c62 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -196,6 +196,10 @@ def rename_tokens(ctxt, root, rename_opts):
 
     renamed_vars = set()
 
+    def is_preserved_global(name):
+        # (if members are renamed as globals, preserved ones are preserved as globals, too)
+        return name in preserved_globals or (members_as_globals and not safe_only and name in preserved_members)
+
     def compute_effective_kind(node, kind, explicit):
         """get the identifier kind (global/member/etc) of a node, taking into account hints in the code"""
 
@@ -238,6 +242,8 @@ def rename_tokens(ctxt, root, rename_opts):
             
             if (table_name, node.name) in preserved_members:
                 member_excludes.add(node.name)
+                if members_as_globals:
+                    global_excludes.add(node.name)
                 return None
             elif table_name == "_ENV" or members_as_globals:
                 return compute_effective_kind(node, VarKind.global_, explicit=True)
@@ -248,7 +254,7 @@ def rename_tokens(ctxt, root, rename_opts):
                 if env_var and env_var.keys_kind != None:
                     return compute_effective_kind(node, env_var.keys_kind, explicit=True)
 
-            if node.var.implicit or node.name in preserved_globals:
+            if node.var.implicit or is_preserved_global(node.name):
                 global_excludes.add(node.name)
                 return None
 
@@ -309,7 +315,7 @@ def rename_tokens(ctxt, root, rename_opts):
         elif node.type == NodeType.sublang:
             for name, count in node.sublang.get_global_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_globals:
+                    if is_preserved_global(name):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
@@ -318,8 +324,13 @@ def rename_tokens(ctxt, root, rename_opts):
                 if is_identifier(name, ctxt.lang):
                     if name in preserved_members:
                         member_excludes.add(name)
+                        if members_as_globals:
+                            global_excludes.add(name)
                     elif members_as_globals:
-                        global_uses[name] += count
+                        if is_preserved_global(name):
+                            global_excludes.add(name)
+                        else:
+                            global_uses[name] += count
                     else:
                         member_uses[name] += count
 
-- 
2.43.0


From 15f026b1113df78213aebd0b608cf07bf673bb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:12 +0000
Subject: [PATCH 55/69] fix: locals could be given the name of a preserved
 member accessed through _ENV

---
 pico_rename.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index ca72c62..3598ca0 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -300,9 +300,9 @@ def rename_tokens(ctxt, root, rename_opts):
             # add to the scope based on real kind, as we need to avoid conflicts with preserved vars too
             if node.kind == VarKind.global_:
                 for scope in node.scope.chain():
-                    if node.effective_kind == VarKind.member: # rare, e.g. see --[[member-keys]] example
+                    if node.effective_kind in (VarKind.member, None): # rare, e.g. see --[[member-keys]] example (None may be either)
                         scope.used_members.add(node.name)
-                    else:
+                    if node.effective_kind != VarKind.member:
                         scope.used_globals.add(node.name)
 
             elif node.kind in (VarKind.local, VarKind.label):
-- 
2.43.0


From ede5e01b63db0c7ba3c61aa7039f23049afcb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:04 +0000
Subject: [PATCH 56/69] fix: unminify merged '[' with a long string after it

---
 pico_unminify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 4f94b1f..ef61519 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -70,7 +70,11 @@ def unminify_code(root, unminify_opts):
         if token.value == "do" and token.parent.type in (NodeType.if_, NodeType.elseif):
             value = "then"
 
-        if prev_tight and prev_token.value not in k_tight_prefix_tokens and \
+        # avoid merging a bracket with the string that follows it
+        if prev_tight and prev_token.value == "[" and value.startswith("["):
+            output.append(" ")
+
+        elif prev_tight and prev_token.value not in k_tight_prefix_tokens and \
                 token.value not in k_tight_suffix_tokens and \
                 not (token.value in ("(", "[") and (prev_token.type == TokenType.ident or 
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
-- 
2.43.0


From effc07dbbe72720794c800a3a0cf3b3573d3635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:11 +0000
Subject: [PATCH 57/69] fix: apply rename hints to all uses of the variable
 (through _ENV, in strings and sub-languages)

---
 pico_rename.py | 47 ++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/pico_rename.py b/pico_rename.py
index 3598ca0..a3556c2 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -200,14 +200,29 @@ def rename_tokens(ctxt, root, rename_opts):
         # (if members are renamed as globals, preserved ones are preserved as globals, too)
         return name in preserved_globals or (members_as_globals and not safe_only and name in preserved_members)
 
+    def find_renamed_var(name, kind, var=None):
+        """find the var with a rename hint, if any, that a name refers to when treated as the given kind"""
+        if kind not in (VarKind.global_, VarKind.member):
+            vars = (var,)
+        elif members_as_globals:
+            vars = (root.globals.get(name), root.members.get(name))
+        else:
+            vars = ((root.globals if kind == VarKind.global_ else root.members).get(name),)
+
+        return next((v for v in vars if v and v.rename), None)
+
     def compute_effective_kind(node, kind, explicit):
         """get the identifier kind (global/member/etc) of a node, taking into account hints in the code"""
 
-        if node.var.rename:
-            node.name = node.var.rename
-            renamed_vars.add(node.var)
+        renamed_var = find_renamed_var(node.name, kind, node.var)
+        if renamed_var:
+            node.renamed_from = node.name
+            node.name = renamed_var.rename
+            renamed_vars.add(renamed_var)
             if kind == VarKind.member:
                 member_excludes.add(node.name)
+                if members_as_globals:
+                    global_excludes.add(node.name)
             elif kind == VarKind.global_:
                 global_excludes.add(node.name)
             elif kind == VarKind.local:
@@ -315,14 +330,24 @@ def rename_tokens(ctxt, root, rename_opts):
         elif node.type == NodeType.sublang:
             for name, count in node.sublang.get_global_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if is_preserved_global(name):
+                    renamed_var = find_renamed_var(name, VarKind.global_)
+                    if renamed_var:
+                        global_excludes.add(renamed_var.rename)
+                        renamed_vars.add(renamed_var)
+                    elif is_preserved_global(name):
                         global_excludes.add(name)
                     else:
                         global_uses[name] += count
 
             for name, count in node.sublang.get_member_usages().items():
                 if is_identifier(name, ctxt.lang):
-                    if name in preserved_members:
+                    renamed_var = find_renamed_var(name, VarKind.member)
+                    if renamed_var:
+                        member_excludes.add(renamed_var.rename)
+                        if members_as_globals:
+                            global_excludes.add(renamed_var.rename)
+                        renamed_vars.add(renamed_var)
+                    elif name in preserved_members:
                         member_excludes.add(name)
                         if members_as_globals:
                             global_excludes.add(name)
@@ -474,6 +499,14 @@ def rename_tokens(ctxt, root, rename_opts):
         update_srcmap(label_renames)
         update_srcmap({var: var.rename for var in renamed_vars})
 
+    # renames via hints also apply to the uses within sub-languages
+
+    for var in renamed_vars:
+        if var.kind == VarKind.global_ or (var.kind == VarKind.member and members_as_globals):
+            global_renames.setdefault(var.name, var.rename)
+        elif var.kind == VarKind.member:
+            member_renames.setdefault(var.name, var.rename)
+
     # write the new names into the syntax tree
 
     def update_idents(node):
@@ -488,8 +521,8 @@ def rename_tokens(ctxt, root, rename_opts):
                 node.name = local_renames[node.var]
             elif node.effective_kind == VarKind.label:
                 node.name = label_renames[node.var]
-            elif node.var.rename:
-                orig_name = node.var.name # (node.name already renamed)
+            elif getattr(node, "renamed_from", None):
+                orig_name = node.renamed_from # (node.name already renamed)
             else:
                 return
 
-- 
2.43.0


From 3db32ff5fe006df8b5beb859847f8d9e742aade2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:29 +0000
Subject: [PATCH 58/69] fix: don't rename preserved members in sub-languages
 when members are renamed as globals

---
 pico_rename.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index a3556c2..94f7a2c 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -536,7 +536,10 @@ def rename_tokens(ctxt, root, rename_opts):
                 node.children[0].modify(node.name)
                 
         elif node.type == NodeType.sublang:
-            effective_member_renames = global_renames if members_as_globals else member_renames
+            effective_member_renames = member_renames
+            if members_as_globals:
+                effective_member_renames = {name: new_name for name, new_name in global_renames.items()
+                                            if name not in preserved_members or find_renamed_var(name, VarKind.member)}
             node.sublang.rename(globals=global_renames, members=effective_member_renames, locals=local_renames)
             
     root.traverse_nodes(update_idents, extra=True)
-- 
2.43.0


From 9d824db9df36dc668e874a1cac58607e779cbbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:54 +0000
Subject: [PATCH 59/69] fix: don't continue the condition of an until past the
 end of a shorthand's line

---
 pico_parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index 52c68a2..d7909d9 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -985,6 +985,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
                 tokens.append(peek(-1))
 
         if with_until:
+            if e(old_short_vline):
+                short_vline = peek().vline # (can't be continued past its line)
             until = parse_until()
 
         if not inline:
-- 
2.43.0


From 7b0114d3aec1847729b2a2eb2dc4aca2ccc9deb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:03 +0000
Subject: [PATCH 60/69] fix: apply rename hints of globals to their uses
 through _ENV in safe mode, too

---
 pico_rename.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_rename.py b/pico_rename.py
index 94f7a2c..1e394aa 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -255,7 +255,9 @@ def rename_tokens(ctxt, root, rename_opts):
                         if not explicit and target_node.var and target_node.var.keys_kind != None:
                             return compute_effective_kind(node, target_node.var.keys_kind, explicit=True)
             
-            if (table_name, node.name) in preserved_members:
+            if table_name == "_ENV" and find_renamed_var(node.name, VarKind.global_):
+                return compute_effective_kind(node, VarKind.global_, explicit=True)
+            elif (table_name, node.name) in preserved_members:
                 member_excludes.add(node.name)
                 if members_as_globals:
                     global_excludes.add(node.name)
-- 
2.43.0


From 9393a3b7252ba820e08472101c6f3aec0f2c266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:30 +0000
Subject: [PATCH 61/69] fix: don't rename others to the names of identifiers
 preserved by a hint

---
 pico_rename.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pico_rename.py b/pico_rename.py
index 1e394aa..014b7e4 100644
--- a/pico_rename.py
+++ b/pico_rename.py
@@ -283,6 +283,18 @@ def rename_tokens(ctxt, root, rename_opts):
             elif node.name == "_ENV":
                 return None
 
+        elif kind is False: # preserved via a hint
+            if node.kind == VarKind.member:
+                member_excludes.add(node.name)
+                if members_as_globals:
+                    global_excludes.add(node.name)
+            elif node.kind == VarKind.global_:
+                global_excludes.add(node.name)
+            elif node.kind == VarKind.local:
+                local_excludes[node.name].add(node.var)
+            elif node.kind == VarKind.label:
+                label_excludes[node.name].add(node.var)
+
         return kind
 
     def is_after_zero(node):
-- 
2.43.0


From 32ba041bbb4b3969c84b7df95197d0c5506b9d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:30 +0000
Subject: [PATCH 62/69] fix: separate unminified prints that contain functions
 from a following paren

---
 pico_unminify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index ef61519..b14017d 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -128,7 +128,8 @@ def unminify_code(root, unminify_opts):
 
         elif node is curr_stmt:
             if is_multiline_print(node):
-                output.append(")")
+                # (what follows isn't separated by the end of the line anymore)
+                output.append(");" if node.next_token().value == "(" else ")")
 
             curr_stmt = None
             output.append("\n")
-- 
2.43.0


From 41f85525b22427f1d03639509c3079bd166dcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:13 +0000
Subject: [PATCH 63/69] fix: extract directories to their own name when no
 output is given

---
 run_shrinko.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index 5e035ae..d8bf5d6 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -704,7 +704,10 @@ def create_main(lang):
         if args.extract:
             for extract in args.extract:
                 if len(extract) == 1:
-                    all_outputs.append(OutputDef(path_basename(extract[0]), CartFormatCls.fs, extract[0]))
+                    extract_name = path_basename(extract[0].rstrip("/"))
+                    if extract_name in ("", ".", ".."):
+                        throw("--extract needs an output path for: %s" % extract[0])
+                    all_outputs.append(OutputDef(extract_name, CartFormatCls.fs, extract[0]))
                 elif len(extract) == 2:
                     all_outputs.append(OutputDef(extract[1], CartFormatCls.fs, extract[0]))
                 else:
-- 
2.43.0


From e5d47bb06fedff6b9619a302eed4bad8524004c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:25 +0000
Subject: [PATCH 64/69] fix: accept format names with dashes in --extra-output,
 --extra-input and --merge, too

---
 run_shrinko.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/run_shrinko.py b/run_shrinko.py
index d8bf5d6..38e99cc 100644
--- a/run_shrinko.py
+++ b/run_shrinko.py
@@ -541,7 +541,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     extra_inputs.append(InputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif 3 >= len(extra) >= 2:
-                    extra_inputs.append(InputDef(extra[0], CartFormatCls(extra[1]), name=list_get(extra, 2)))
+                    extra_inputs.append(InputDef(extra[0], EnumFromStr(CartFormatCls)(extra[1]), name=list_get(extra, 2)))
                 else:
                     throw("too many arguments to --extra-output")
         
@@ -561,7 +561,7 @@ def create_main(lang):
                 if len(merge) == 2:
                     extra_inputs.append(InputDef(merge[0], default_format(merge[0]), sections=SplitBySeps(merge[1])))
                 elif len(merge) == 3:
-                    extra_inputs.append(InputDef(merge[0], CartFormatCls(merge[2]), sections=SplitBySeps(merge[1])))
+                    extra_inputs.append(InputDef(merge[0], EnumFromStr(CartFormatCls)(merge[2]), sections=SplitBySeps(merge[1])))
                 else:
                     throw("too many or few arguments to --merge (must be 2 or 3)")
         
@@ -697,7 +697,7 @@ def create_main(lang):
                 if len(extra) == 1:
                     all_outputs.append(OutputDef(extra[0], default_format(extra[0], for_output=True)))
                 elif len(extra) == 2:
-                    all_outputs.append(OutputDef(extra[0], CartFormatCls(extra[1])))
+                    all_outputs.append(OutputDef(extra[0], EnumFromStr(CartFormatCls)(extra[1])))
                 else:
                     throw("too many arguments to --extra-output (must be 1 or 2)")
         
-- 
2.43.0


From 9f14331addc5cdbc1aa6cb6b007e40c8963ab4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:22 +0000
Subject: [PATCH 65/69] fix: fold float floor-divisions and modulos like lua
 does

---
 pico_constfold.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index bc5e099..45e84a8 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -186,6 +186,20 @@ def lua_div(lang, a, b):
         if not math.isnan(result):
             return LuaFloat(result)
 
+def _float_floor_div(a, b): # (unlike python's //, lua rounds the quotient - e.g. 2 // 0.1 is 20.0)
+    result = a / b
+    if math.isfinite(result):
+        result = math.copysign(math.floor(result), result) # (may be negative zero)
+    return result
+
+def _float_floor_mod(a, b): # (unlike python's %, lua's zero takes the sign of the dividend)
+    if math.isinf(a):
+        return math.nan
+    result = math.fmod(a, b)
+    if result != 0 and (result < 0) != (b < 0):
+        result += b
+    return result
+
 def lua_idiv(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
         c = lua_div(lang, a, b)
@@ -195,7 +209,7 @@ def lua_idiv(lang, a, b):
     elif a.is_integer and b.is_integer and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
         return LuaInteger(a.value // b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard div-by-0 behaviour
-        result = a.float_value // b.float_value
+        result = _float_floor_div(a.float_value, b.float_value)
         if not math.isnan(result):
             return LuaFloat(result)
 
@@ -208,7 +222,7 @@ def lua_mod(lang, a, b):
     elif a.is_integer and b.is_integer and b.value != 0: # avoid relying on non-standard mod-by-0 behavior
         return LuaInteger(a.value % b.value)
     elif a.is_float_cvt and b.is_float_cvt and b.value != 0: # avoid relying on non-standard mod-by-0 behavior
-        result = a.float_value % b.float_value
+        result = _float_floor_mod(a.float_value, b.float_value)
         if not math.isnan(result):
             return LuaFloat(result)
 
-- 
2.43.0


From 919e252262feda2713211779d7ed5ee159f10aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:37 +0000
Subject: [PATCH 66/69] fix: compare constant picotron strings by their bytes

---
 pico_constfold.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 45e84a8..d6a5de2 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -226,41 +226,47 @@ def lua_mod(lang, a, b):
         if not math.isnan(result):
             return LuaFloat(result)
 
+def _compare_value(lang, a):
+    if a.is_string and lang == Language.picotron:
+        return encode_luastr(a.value) # (the same bytes may be represented by different characters)
+    else:
+        return a.value
+
 def lua_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.value == b.value)
     else:
-        return LuaBoolean(a.type == b.type and a.value == b.value)
+        return LuaBoolean(a.type == b.type and _compare_value(lang, a) == _compare_value(lang, b))
     
 def lua_not_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.value != b.value)
     else:
-        return LuaBoolean(a.type != b.type or a.value != b.value)
+        return LuaBoolean(a.type != b.type or _compare_value(lang, a) != _compare_value(lang, b))
 
 def lua_less(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value < b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value < b.value)
+        return LuaBoolean(_compare_value(lang, a) < _compare_value(lang, b))
 
 def lua_less_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value <= b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value <= b.value)
+        return LuaBoolean(_compare_value(lang, a) <= _compare_value(lang, b))
 
 def lua_greater(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value > b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value > b.value)
+        return LuaBoolean(_compare_value(lang, a) > _compare_value(lang, b))
 
 def lua_greater_eq(lang, a, b):
     if a.is_number and b.is_number:
         return LuaBoolean(a.signed_value >= b.signed_value)
     elif a.is_string and b.is_string:
-        return LuaBoolean(a.value >= b.value)
+        return LuaBoolean(_compare_value(lang, a) >= _compare_value(lang, b))
 
 def lua_max(lang, a, b):
     if a.is_number and b.is_number:
-- 
2.43.0


From daeaa4dcd4df049e44c4cfbf38c8507e652b1c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:21 +0000
Subject: [PATCH 67/69] fix: do not double the slash of directories in picotron
 mac exports

---
 pico_export.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_export.py b/pico_export.py
index 86f1e36..c698359 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -807,7 +807,8 @@ class FullExportBase:
         if is_dir:
             info.external_attr |= 0x10 # w/o 0x40000000
             info.compress_type = ZIP_STORED
-            info.filename += "/"
+            if not info.filename.endswith("/"):
+                info.filename += "/"
             zip.writestr(info, b"") # zip.mkdir is too new...
         else:
             info.external_attr |= 0x80000000
-- 
2.43.0


From 3ab5e0c3c6cb36bbf755988c4c2b614d21421f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:15 +0000
Subject: [PATCH 68/69] fix: allow a single --title for picotron cart images

---
 picotron_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 286c111..a286a26 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -390,7 +390,7 @@ def write_cart64_to_image(cart, template_image=None, template_only=False, optimi
             
             title = cart.title
             if title:
-                draw_title_on_image(image, *list_unpack(title, 2), k_title_offset, k_title_width, k_subtitle_suboffset)
+                draw_title_on_image(image, *list_unpack(title, 2, ""), k_title_offset, k_title_width, k_subtitle_suboffset)
         
         pixels = image.pixels
 
-- 
2.43.0


From 77a19a41e2b023d186b59255bd7339e38b81bbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:51 +0000
Subject: [PATCH 69/69] fix: use the palette in a pod for the pictures behind
 it

---
 pico_export.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_export.py b/pico_export.py
index c698359..008e95b 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -276,7 +276,7 @@ class PodFile:
                     size = r.u32()
                     num_colors = m.k_num_colors
                     check(size == 3 * num_colors, "wrong POD palette size?")
-                    content = Palette.create(num_colors)
+                    content = palette = Palette.create(num_colors)
                     for i in range(num_colors):
                         content[i] = Color(r.u8(), r.u8(), r.u8())
 
-- 
2.43.0

