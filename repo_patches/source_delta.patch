From 063889281ac41a0961ec9da92d9f4c6f7cd88e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:13 +0000
Subject: [PATCH 01/43] fix: don't recurse endlessly when folding a shift or
 rotate by the minimum number

Folding e.g. 1>>-32768 (or 1<<0x8000000000000000 in picotron) negated the
shift count, which stays negative for the minimum, and so never ended.
---
 pico_constfold.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 7699120..6bc82c3 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -288,14 +288,18 @@ def lua_bin_xor(lang, a, b):
 
 def lua_shl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if b.value == 0x80000000: # can't be negated
+            pass
+        elif fixnum_is_negative(b.value):
             if not fixnum_is_negative(a.value): # avoid relying on questionable shift-left-neg-by-neg behaviour
                 return lua_lshr(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value): # avoid relying on shift-by-fract behaviour
             return LuaFixnum(a.value << min(fixnum_to_whole(b.value), 32))
     
     elif a.is_integer_cvt and b.is_integer_cvt:
-        if b.value < 0:
+        if b.value == -0x8000000000000000: # can't be negated
+            pass
+        elif b.value < 0:
             return lua_shr(lang, a, lua_neg(lang, b))
         else:
             return LuaInteger(a.uint_value << min(b.uint_value, 64))
@@ -323,7 +327,9 @@ def lua_lshr(lang, a, b):
 
 def lua_rotl(lang, a, b):
     if a.is_fixnum and b.is_fixnum:
-        if fixnum_is_negative(b.value):
+        if b.value == 0x80000000: # can't be negated
+            pass
+        elif fixnum_is_negative(b.value):
             return lua_rotr(lang, a, lua_neg(lang, b))
         elif fixnum_is_whole(b.value):
             return LuaFixnum(rotate_left(a.value, fixnum_to_whole(b.value), 32))
-- 
2.43.0


From 545133a681de55d8054c22b5633aeb51b7e9943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:00 +0000
Subject: [PATCH 02/43] fix: bit position of BinaryBitWriter must count the
 pending bits, not subtract them

---
 utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.py b/utils.py
index a636cfa..cb7b49b 100644
--- a/utils.py
+++ b/utils.py
@@ -1291,7 +1291,7 @@ class BinaryBitWriter(BinaryBase):
 
     @property
     def bit_position(m):
-        return m.pos() * 8 - m._nbits
+        return m.pos() * 8 + m._nbits
 
     def byte_align(m):
         m.flush()
-- 
2.43.0


From a1be3e63dceb5abb18ca0697dc1994dbeed0712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 03/43] fix: compression must not emit a literal block that
 goes back before already compressed code

---
 pico_compress.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 88eb30e..ff6a914 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -485,7 +485,8 @@ def compress_code(w, code, size_handler=None, debug_handler=None, force_compress
                         best_func = max if in_litblock else min
                         best_j = best_func(range(last_cost_len), key=lambda j: sum(ordered_costs[-j-1:]))
 
-                        litblock_idxs.append(i - best_j)
+                        # (must never go back before the previous index)
+                        litblock_idxs.append(max(i - best_j, litblock_idxs[-1] if litblock_idxs else 0))
 
                 for i, item in get_lz77(code, min_c=pre_min_c, fast_c=1):
                     if isinstance(item, Lz77Entry):
-- 
2.43.0


From cc7921819a536491afbc74aa2b25b5cfcf6f4fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:17 +0000
Subject: [PATCH 04/43] fix: old-format decompression must stop at the stored
 length, as there may be no room for a terminator

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index ff6a914..25757fd 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -109,7 +109,7 @@ def uncompress_code(r, max_code_size=k_code_size, size_handler=None, debug_handl
         if debug_handler: debug_handler.init(r, str)
 
         code = []
-        while True:
+        while len(code) < unc_size: # (the terminator may be missing, if there's no room for it)
             ch = r.u8()
             if ch == 0x00:
                 ch2 = r.u8()
-- 
2.43.0


From dc753cccd32452b9b19b850549a0d99cff9cada7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:22 +0000
Subject: [PATCH 05/43] fix: compression must not go back when a match passes
 the end of a literal block

---
 pico_compress.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pico_compress.py b/pico_compress.py
index 25757fd..403b87c 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -323,8 +323,9 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
             best_c = sys.maxsize
             end_litblock = litblock_idxs.popleft() if litblock_idxs else len(code)
 
-            yield i, code[i:end_litblock]
-            i = end_litblock
+            if end_litblock > i: # (else, a match already took us past the end of the block)
+                yield i, code[i:end_litblock]
+                i = end_litblock
 
             next_litblock = litblock_idxs.popleft() if litblock_idxs else len(code)
 
-- 
2.43.0


From 46cebe77f44b5a6da4667198f40e097d361672d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:52 +0000
Subject: [PATCH 06/43] fix: a non-overlapping match found via a sub-dict must
 not be shorter than the minimum count

---
 pico_compress.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_compress.py b/pico_compress.py
index 403b87c..7886277 100644
--- a/pico_compress.py
+++ b/pico_compress.py
@@ -226,7 +226,7 @@ def get_lz77(code, min_c=3, max_c=0x7fff, max_o=0x7fff, measure=None, min_cost=N
                     if no_repeat:
                         c = min(c, i - j)
                     
-                    if not (max_o != None and j < i - max_o):
+                    if c >= min_c and not (max_o != None and j < i - max_o):
                         best_c, best_j = c, j
                 
             return best_c, best_j
-- 
2.43.0


From ac7d3a23bb573a35415cf9bc8c131509b6df82ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:00 +0000
Subject: [PATCH 07/43] fix: merging a meta section must take it from the
 source cart's meta

---
 pico_cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_cart.py b/pico_cart.py
index c4a6682..192954b 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -768,7 +768,7 @@ def merge_cart(dest, src, sections):
             dest.label = src.label
         elif section.startswith(k_meta_prefix):
             meta_name = section[len(k_meta_prefix):]
-            dest.meta[meta_name] = src.name[meta_name]
+            dest.meta[meta_name] = src.meta[meta_name]
         else:
             throw(f"unknown cart section: '{section}'")
 
-- 
2.43.0


From 1b15eaf373766f2cf509f78c3d57286dda147357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:03 +0000
Subject: [PATCH 08/43] fix: a long-bracket string literal must not end at a
 ']' that the string itself ends with

---
 pico_output.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index d02e13c..93a1e56 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -214,14 +214,14 @@ k_char_escapes_rev_min = {k: v for k, v in k_char_escapes_rev.items() if k in "\
 def get_long_brackets_equals(value):
     for i in itertools.count():
         eqs = "=" * i
-        if f"]{eqs}]" not in value:
+        if f"]{eqs}]" not in value + f"]{eqs}": # (the end of value must not join with the closing brackets)
             return eqs
 
 def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, long=None, quote=None):
     """format a pico8 string to a pico8 string literal"""
 
     if long != False:
-        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value):
+        if "\0" not in value and "\r" not in value and (use_complex_long or "]]" not in value + "]"):
             newline = "\n" if value.startswith("\n") else ""
 
             eqs = get_long_brackets_equals(value)
-- 
2.43.0


From be7cd3f25402f3374444ac6c3e71f5060d69ffc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:27 +0000
Subject: [PATCH 09/43] fix: a \z escape at the end of a string literal (or of
 the source) must not crash or hang

---
 pico_tokenize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index 99ad0d9..4320ea2 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -636,7 +636,7 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
                 break
             elif ch == '\\':
                 if accept('z'): # skip line breaks
-                    while peek() in k_wspace:
+                    while peek() and peek() in k_wspace:
                         take()
                 else:
                     take() # at least
@@ -859,7 +859,7 @@ def parse_char_escape(str, pos, lang):
 
     elif esc == 'z':
         end = pos + 2
-        while str_get(str, end) in k_wspace:
+        while end < len(str) and str[end] in k_wspace:
             end += 1
         return "", end
 
-- 
2.43.0


From 4f007431f83880acc458ece5176fd9487a05684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:30 +0000
Subject: [PATCH 10/43] fix: write negative Picotron integers in base 10 so
 that they read back as the same integer

---
 pico_output.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index 93a1e56..fb1df31 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -137,7 +137,7 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
         
         if sign is None and value & 0x8000000000000000 and value != 0x8000000000000000:
             negvalue = format_luanum(value, sign='-', base=base)
-            if len(negvalue) < len(minvalue):
+            if len(negvalue) < len(minvalue) or base == 10: # (unsigned decimal won't be parsed as an integer)
                 minvalue = negvalue
                 
             if allow_not:
@@ -145,6 +145,9 @@ def format_luanum(value, sign=None, base=None, allow_not=True):
                 if len(notvalue) < len(minvalue):
                     minvalue = notvalue
 
+        elif sign is None and value & 0x8000000000000000 and base == 10:
+            minvalue = "0x%x" % value # no decimal form would be parsed as an integer
+
     else: # float
         parens = False
         if e(sign) and sign != float_sign(value):
-- 
2.43.0


From acb283480b786c511166b585a98680d884d62c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:46 +0000
Subject: [PATCH 11/43] fix: reading code with an unterminated [[ (e.g. in a //
 comment) never ended, and quotes in [=[ ]=] strings were taken for strings

---
 pico_preprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 1194164..a7ef6e5 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -37,8 +37,8 @@ def preprocess_code(path, code, start_line=0, **opts):
                 while list_get(code, i) not in ('\n', None):
                     i += 1
 
-        elif ch == '[' and list_get(code, i + 1) == '[': # long string
-            skip_long_brackets()
+        elif ch == '[' and skip_long_brackets(): # long string
+            pass
 
         elif ch in ('"', "'"): # string
             i += 1
-- 
2.43.0


From 28af5b4c95b8ff4b7f5ad8bb1f7b0a272d9c16a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:10 +0000
Subject: [PATCH 12/43] fix: a quote or [[ in a // comment hid the #include
 directives after it

---
 pico_preprocess.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index a7ef6e5..7af6af3 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -37,6 +37,10 @@ def preprocess_code(path, code, start_line=0, **opts):
                 while list_get(code, i) not in ('\n', None):
                     i += 1
 
+        elif ch == '/' and list_get(code, i + 1) == '/': # c-style comment
+            while list_get(code, i) not in ('\n', None):
+                i += 1
+
         elif ch == '[' and skip_long_brackets(): # long string
             pass
 
-- 
2.43.0


From 6c46bc43190758c3d74af7703743f4070f2564c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 13/43] fix: keep boolean table keys when formatting a pod

---
 picotron_fs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_fs.py b/picotron_fs.py
index e0664ca..5644c2e 100644
--- a/picotron_fs.py
+++ b/picotron_fs.py
@@ -138,7 +138,7 @@ def format_pod(value, ud_handler=None):
         index = 1
         parts = []
         for key, child in value.items():
-            if key == index:
+            if key == index and not isinstance(key, bool):
                 parts.append(format_pod(child, ud_handler))
                 index += 1
             elif isinstance(key, str) and is_identifier(key, Language.picotron):
-- 
2.43.0


From 48ff35fe36c4b9121c19499494f0bb6360073fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 14/43] fix: encode p64 files whose text would not be read back
 as it is (carriage returns, base64 mark)

---
 picotron_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index c56d85a..83c8a6f 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -480,8 +480,8 @@ def read_cart64_from_source(data, path=None, raw=False, **_):
 
     return cart
 
-k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|^" + k_p64_file_prefix
-k_min_bad_p64_char_re = b"\x00|^" + k_p64_file_prefix
+k_max_bad_p64_char_re = b"[\x00-\x08\x0b-\x0c\x0e-\x1f\x7f-\xff]|\r|^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
+k_min_bad_p64_char_re = b"\x00|\r|^" + k_p64_file_prefix + b"|\\A" + re.escape(k_p64_b64_prefix)
 
 def preview_order_key(pair):
     # we prefer to sort p64 files for better visibility of code, e.g. in the webapp's preview
-- 
2.43.0


From 380d59d8128020ce7cee6995d8613da35a9dd477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:26 +0000
Subject: [PATCH 15/43] fix: keep the directories of the files kept by a
 picotron filter

---
 picotron_cart.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/picotron_cart.py b/picotron_cart.py
index 83c8a6f..f6b8155 100644
--- a/picotron_cart.py
+++ b/picotron_cart.py
@@ -670,7 +670,11 @@ def write_cart64(path, cart, format, **opts):
 
 def filter_cart64(cart, sections):
     glob = Cart64Glob(sections)
-    to_delete = [path for path in cart.files if not glob.matches(path)]
+    kept = [path for path in cart.files if glob.matches(path)]
+    def is_parent(path): # the directories of the kept files are needed too
+        return path.endswith("/") and any(kept_path.startswith(path) for kept_path in kept)
+
+    to_delete = [path for path in cart.files if not glob.matches(path) and not is_parent(path)]
     for path in to_delete:
         del cart.files[path]
 
-- 
2.43.0


From 8783cdbe0da75dba530c1d7b5a64ea354e0f6209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:50 +0000
Subject: [PATCH 16/43] fix: escape special characters of cart names in js
 exports, which cut the name list short

---
 pico_export.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 2930738..8d3bc7c 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -96,6 +96,15 @@ class JsExport(CartExport):
         super().__init__()
         m.text = text
     
+    # characters that would end the name or the list early are written as js escapes
+    @staticmethod
+    def escape_name(name):
+        return re.sub(r"[\\`$,\]\x00-\x1f]", lambda match: "\\x%02x" % ord(match.group()), name)
+
+    @staticmethod
+    def unescape_name(name):
+        return re.sub(r"\\x([0-9a-fA-F]{2})", lambda match: chr(int(match.group(1), 16)), name)
+
     def find_cartnames(m):
         match = re.search(r"var\s+_cartname\s*=\s*\[(.*?)\]", m.text, re.S)
         if not match:
@@ -113,7 +122,7 @@ class JsExport(CartExport):
         cartnames_text = m.find_cartnames().group(1)
         if cartnames_text.strip():
             for i, cartname in enumerate(cartnames_text.split(",")):
-                cartname = cartname.strip()[1:-1] # may fail if using special chars...
+                cartname = m.unescape_name(cartname.strip()[1:-1]) # may fail if using special chars...
                 m.cartnames.append(cartname)
 
         m.cartdata = bytearray(k_cart_size * len(m.cartnames))
@@ -153,7 +162,7 @@ class JsExport(CartExport):
         m.finish_write()
 
     def finish_write(m):
-        cartnames_text = ", ".join(f"`{name}`" for name in m.cartnames)
+        cartnames_text = ", ".join(f"`{m.escape_name(name)}`" for name in m.cartnames)
         m.text = str_replace_between(m.text, *m.find_cartnames().span(1), cartnames_text)
 
         cartdata_chunks = ["\n"]
-- 
2.43.0


From b0770c4673eb451aca8b08a8517d0dac2d1c5300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:51 +0000
Subject: [PATCH 17/43] fix: keep the line breaks of js and html exports when
 editing them

---
 pico_export.py     | 2 +-
 picotron_export.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_export.py b/pico_export.py
index 8d3bc7c..293e368 100644
--- a/pico_export.py
+++ b/pico_export.py
@@ -941,7 +941,7 @@ def read_pod_file(path):
 def read_cart_export(path, format):
     """Read a CartExport from the given path, assuming it is in the given format"""
     if format == CartFormat.js:
-        return JsExport(file_read_text(path))
+        return JsExport(file_read_text(path, newline=""))
     if format == CartFormat.pod:
         return PodExport(file_read(path))
     if format == CartFormat.dat:
diff --git a/picotron_export.py b/picotron_export.py
index 3f6a845..295810e 100644
--- a/picotron_export.py
+++ b/picotron_export.py
@@ -243,7 +243,7 @@ def read_cart64_export(path, format):
     if format == Cart64Format.dat:
         return SysRomExport64(file_read(path))
     elif format == Cart64Format.html:
-        return HtmlExport64(file_read_text(path))
+        return HtmlExport64(file_read_text(path, newline=""))
     else:
         throw(f"invalid export format: {format}")
 
-- 
2.43.0


From 0193995910b020fe4c3f40032d8d84a1889463a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 18/43] fix: source locations in an included cart's tab were
 wrong (cart with its own includes, cart without mappings)

---
 pico_preprocess.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pico_preprocess.py b/pico_preprocess.py
index 7af6af3..b943758 100644
--- a/pico_preprocess.py
+++ b/pico_preprocess.py
@@ -101,14 +101,13 @@ def read_included_cart(orig_path, inc_name, out_i, outparts, outmappings, includ
         include_notifier(inc_path)
 
     inc_cart = read_cart(inc_path, **opts)
+    if not inc_cart.code_map:
+        inc_cart.code_map = [CodeMapping(0, inc_path, inc_cart.code, 0, 0)]
     if e(tab_idx):
         trim_cart_to_tab(inc_cart, tab_idx)
 
-    if inc_cart.code_map:
-        for map in inc_cart.code_map:
-            outmappings.append(CodeMapping(out_i + map.idx, map.src_path, map.src_code, map.src_idx, map.src_line))
-    else:
-        outmappings.append(CodeMapping(out_i, inc_path, inc_cart.code, 0, 0))
+    for map in inc_cart.code_map:
+        outmappings.append(CodeMapping(out_i + map.idx, map.src_path, map.src_code, map.src_idx, map.src_line))
     outparts.append(inc_cart.code)
 
     return out_i + len(inc_cart.code)
@@ -142,7 +141,7 @@ def trim_cart_to_tab(cart, target_tab):
             new_code_map.clear()
         
         new_idx = max(map.idx - start, 0)
-        new_src_idx = map.src_idx + (start if map.src_path == cart.path else 0)
+        new_src_idx = map.src_idx + max(start - map.idx, 0)
 
         new_code_map.append(CodeMapping(new_idx, map.src_path, map.src_code, new_src_idx, map.src_line))
     cart.code_map = new_code_map
-- 
2.43.0


From d114bba1ae6cf22776c27119d8b134318e9720af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 19/43] fix: positions inside a tab separator had a negative
 column

---
 pico_process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_process.py b/pico_process.py
index b12336b..3974055 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -96,7 +96,7 @@ def get_tab_line_col(text, idx, start=0): # (0-based)
 
     while start < idx and tab < 15:
         end = text.find(k_tab_break, start)
-        if end < 0 or end >= idx:
+        if end < 0 or end + len(k_tab_break) > idx:
             break
         tab += 1
         start = end + len(k_tab_break)
-- 
2.43.0


From 8dd9702d6d0827bd23592f51c44dee2729c235fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:21 +0000
Subject: [PATCH 20/43] fix: tabbed error format crashed for picotron carts

---
 picotron_defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/picotron_defs.py b/picotron_defs.py
index bce30db..8a6e129 100644
--- a/picotron_defs.py
+++ b/picotron_defs.py
@@ -189,7 +189,7 @@ class Cart64Source(Source):
             return m.parent.path + "/" + m.fspath
 
         def get_location(m, idx, tabs=False): # (0-based)
-            return get_source_location(m.path, m.text, idx, m.file.line)
+            return get_source_location(m.path, m.text, idx, m.file.line, tabs=tabs)
 
         @property
         def text(m):
-- 
2.43.0


From fc74de45ba0178fbc23a9cb35a743f615e74785c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:22 +0000
Subject: [PATCH 21/43] fix: the path of a cart read from a url file was lost
 (lint messages without file name)

---
 pico_cart.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pico_cart.py b/pico_cart.py
index 192954b..9f6682d 100644
--- a/pico_cart.py
+++ b/pico_cart.py
@@ -547,7 +547,7 @@ def pico_base64_decode(data, validate=False):
 def print_url_size(size, **kwargs):
     print_size("url", size - k_url_prefix_size, k_url_size, **kwargs)
 
-def read_cart_from_url(url, size_handler=None, **opts):
+def read_cart_from_url(url, size_handler=None, path=None, **opts):
     if size_handler:
         print_url_size(len(url), prefix="input", handler=size_handler)
 
@@ -569,7 +569,7 @@ def read_cart_from_url(url, size_handler=None, **opts):
         else:
             throw(f"Unknown url param: {key}")
 
-    cart = Cart()
+    cart = Cart(path=path)
 
     if code:
         codebuf = pico_base64_decode(code, validate=True).ljust(k_code_size, b'\0')
-- 
2.43.0


From ebb85244aa985d5184c2ce7c32d2930fe76ff12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:08 +0000
Subject: [PATCH 22/43] fix: a body starting with a parenthesis cannot become
 the body of a shorthand

---
 pico_minify.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 26f09c3..a399536 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -87,7 +87,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
 
             # can the node be converted to shorthand?
             if not to_short and not has_elseif:
-                has_empties, starts_with_do = False, False
+                has_empties, bad_start = False, False
                 allow_shorthand = allow_parent_shorthands(node)
 
                 # now check the children
@@ -103,10 +103,11 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     
                     if i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
-                        starts_with_do = body.first_token().value == "do"
+                        # or with a parenthesis. (would be a call to the condition)
+                        bad_start = body.first_token().value in ("do", "(")
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
-                to_short = allow_shorthand and not (has_empties and not focus.chars) and not starts_with_do
+                to_short = allow_shorthand and not (has_empties and not focus.chars) and not bad_start
                 if to_short:
                     allowed_shorts.add(node)
             
-- 
2.43.0


From b7d9d5313bcd5dcf78549c73221d8b7440cdf461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:21 +0000
Subject: [PATCH 23/43] fix: statements after a one-line shorthand are not part
 of its last expression

---
 pico_parse.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 4d0f0e3..09382ef 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -306,6 +306,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
     labelscope = LabelScope(None, funcdepth)
     curr_compiler = None
     unresolved_labels = None
+    end_vline = None # when inside a shorthand - the line it ends in
     errors = []
     if lang is None:
         lang = ctxt.lang if ctxt else Language.pico8
@@ -645,6 +646,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
         expr = parse_core_expr()
         while True:
             nonlocal idx
+            if e(end_vline) and peek().vline > end_vline:
+                return expr
+
             token = take()
             value = token.value
             if value == "." and expr.type in k_prefix_types:
@@ -832,8 +836,11 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return Node(NodeType.return_, tokens, items=rets)
         
     def parse_print():
+        nonlocal end_vline
         tokens = [peek(-1)]
+        old_end_vline, end_vline = end_vline, tokens[0].vline
         args = parse_list(tokens, parse_expr)
+        end_vline = old_end_vline
         # explicitly represent the implicit use of print
         print_token = Token.synthetic(TokenType.ident, "print", tokens[0])
         func = parse_var(token=print_token, implicit=True)
@@ -955,7 +962,8 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             return parse_misc_stmt()
 
     def parse_block(vline=None, with_until=False, inline=False):
-        nonlocal scope, labelscope, depth
+        nonlocal scope, labelscope, depth, end_vline
+        old_end_vline, end_vline = end_vline, vline
         if not inline:
             oldscope = scope
             labelscope = LabelScope(labelscope, funcdepth)
@@ -977,6 +985,7 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
             else:
                 tokens.append(peek(-1))
 
+        end_vline = old_end_vline
         if with_until:
             until = parse_until()
 
-- 
2.43.0


From 19d41ec46dd178976401fbfbf23d4e343f63aab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:08 +0000
Subject: [PATCH 24/43] fix: folding away a statement could join its neighbours
 into a call

---
 pico_constfold.py | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 6bc82c3..d1557f7 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -478,28 +478,27 @@ def set_const(node, value, ctxt, focus, force):
 
     node.replace_with(create_const_node(token))
 
-def fixup_syntax_between(parent, prev, next):
-    nextt = next.first_token()
-    if nextt and nextt.value == "(":
-        prevt = prev.last_token()
-        if prevt.value in (")", "]") or prevt.type == TokenType.ident:
-            i = parent.children.index(prev)
-            parent.insert_token(i+1, TokenType.punct, ";", near_next=True)
+def fixup_syntax_before(token):
+    # insert a semicolon before token, if it starts a statement but would now continue the previous one
+    if token.value == "(":
+        stmt = token.parent
+        while stmt.parent and stmt.parent.type != NodeType.block:
+            stmt = stmt.parent
+
+        prevt = token.prev_token()
+        while prevt.value is None and prevt.parent: # skip erased
+            prevt = prevt.prev_token()
+
+        if (stmt.parent and stmt.first_token() is token and
+                (prevt.value in (")", "]", "}") or prevt.type in (TokenType.ident, TokenType.string))):
+            i = stmt.parent.children.index(stmt)
+            stmt.parent.insert_token(i, TokenType.punct, ";", near_next=True)
 
 def fixup_syntax_after_remove(stmt):
     # after removing stmt (or even just part of stmt), extra semicolons may need to be inserted
-    parent = stmt.parent
-    if parent.type == NodeType.block:
-        stmt_n = len(parent.stmts)
-        stmt_i = parent.stmts.index(stmt)
-        if stmt.type is None:
-            if 0 < stmt_i < stmt_n - 1:
-                fixup_syntax_between(parent, parent.stmts[stmt_i-1], parent.stmts[stmt_i+1])
-        else:
-            if stmt_i > 0:
-                fixup_syntax_between(parent, parent.stmts[stmt_i-1], stmt)
-            if stmt_i < stmt_n - 1:
-                fixup_syntax_between(parent, stmt, parent.stmts[stmt_i+1])
+    if stmt.children:
+        fixup_syntax_before(stmt.first_token())
+    fixup_syntax_before(stmt.next_token())
 
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
@@ -652,6 +651,7 @@ def fold_consts(ctxt, minify_opts, root, errors):
         elif node.type in (NodeType.if_, NodeType.elseif):
             constval = get_const(node.cond)
             if constval:
+                is_stmt = node.type == NodeType.if_
                 if constval.is_truthy:
                     if node.else_:
                         node.else_.erase(KeepCommentFlags.first)
@@ -679,6 +679,9 @@ def fold_consts(ctxt, minify_opts, root, errors):
                             remove_else_node(node.parent)
                         else:
                             node.replace_with(node.else_)
+
+                if is_stmt: # (else, still delimited by keywords)
+                    fixup_syntax_after_remove(node)
     
         # store which node was expected to be const but isn't
         if in_const_ctxt and node.type != NodeType.const and const_ctxt_fail is None:
-- 
2.43.0


From 1575dd92f36ee39599f1dfe46632503383ce634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:32 +0000
Subject: [PATCH 25/43] fix: merging local declarations could join the next
 statement into a call

---
 pico_minify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index a399536..acceb77 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -341,6 +341,7 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     insert_array_items(prev, prev.sources, len(prev.sources), next.sources, 0, None)
 
     next.erase()
+    fixup_syntax_after_remove(next)
 
 def value_is_negative(ctxt, value):
     if ctxt.lang == Language.pico8:
@@ -502,3 +503,5 @@ def minify_code(ctxt, root, minify_opts):
                 token.modify(token.value[2:-1])
 
     root.traverse_nodes(fixup_nodes_pre, fixup_nodes_post, tokens=fixup_tokens)
+
+from pico_constfold import fixup_syntax_after_remove
-- 
2.43.0


From f67fce1eaa2d4eb5ddfd6bd5550352f7e3a80dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:39 +0000
Subject: [PATCH 26/43] fix: unminify dropped semicolons that are needed before
 a parenthesis

---
 pico_unminify.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index e17dff4..8bd1b16 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -44,7 +44,8 @@ def unminify_code(root, unminify_opts):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded
-        if token.parent.type == NodeType.block and token.value == ";":
+        # (except before a parenthesis, where the next statement could become a call)
+        if token.parent.type == NodeType.block and token.value == ";" and token.next_token().value != "(":
             return
         
         # undo ugly token replacements
-- 
2.43.0


From f9869fdfcb1e02159ffcd123278cfec0ae325b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:39 +0000
Subject: [PATCH 27/43] fix: report the token count of the code that is output

---
 pico_process.py  | 15 +++++++++++++--
 pico_tokenize.py |  8 +++++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/pico_process.py b/pico_process.py
index 3974055..846cff9 100644
--- a/pico_process.py
+++ b/pico_process.py
@@ -324,6 +324,14 @@ def process_placeholder(ctxt, token, errors):
     
     eprint(f"placeholder '{ph_name}' is not recognized")
 
+def get_output_tokens(ctxt, source, root):
+    """get the tokens to be counted, after root was output to source"""
+    tokens = root.get_tokens()
+    if not has_count_stop(tokens): # (this hint doesn't normally reach the output)
+        # (the count is affected by the final spacing, and by what was erased)
+        tokens, _ = tokenize(Source(source.path, source.text), lang=ctxt.lang)
+    return tokens
+
 def process_code(ctxt, source, input_count=False, count=False, lint=False, minify=False, rename=False, unminify=False, 
                  stop_on_lint=True, count_is_optional=False, preproc=None):
     need_lint, lint = fixup_process_args(lint)
@@ -384,7 +392,10 @@ def process_code(ctxt, source, input_count=False, count=False, lint=False, minif
 
             if count:
                 assert not source.is_super
-                new_tokens = root.get_tokens() if need_parse else tokens
+                if need_minify or need_unminify:
+                    new_tokens = get_output_tokens(ctxt, source, root)
+                else:
+                    new_tokens = root.get_tokens() if need_parse else tokens
                 print_token_count(count_tokens(new_tokens), handler=count)
 
     return True, errors
@@ -413,7 +424,7 @@ def echo_code(code, ctxt, echo=True):
     else:
         file_write_maybe_text(echo, code)    
 
-from pico_tokenize import tokenize, count_tokens
+from pico_tokenize import tokenize, count_tokens, has_count_stop
 from pico_parse import parse, create_super_root, get_sub_root
 from pico_lint import lint_code
 from pico_minify import minify_code, Focus
diff --git a/pico_tokenize.py b/pico_tokenize.py
index 4320ea2..20d53c4 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -708,12 +708,18 @@ def tokenize(source, ctxt=None, all_comments=False, lang=None, inner=False):
     return tokens, errors
     
 
+def is_count_stop(comment):
+    return comment.hint == CommentHint.lint and "count::stop" in comment.hintdata
+
+def has_count_stop(tokens):
+    return any(is_count_stop(comment) for token in tokens for comment in token.children)
+
 def count_tokens(tokens):
     count = 0
     for i, token in enumerate(tokens):
         if token.children:
             for comment in token.children:
-                if comment.hint == CommentHint.lint and "count::stop" in comment.hintdata:
+                if is_count_stop(comment):
                     return count
 
         if token.value in (",", ".", ":", ";", "::", ")", "]", "}", "end", "local", None):
-- 
2.43.0


From 6ce2c41f90f1b48ed61072b9e6fcdfc9fce862e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:35 +0000
Subject: [PATCH 28/43] fix: a kept comment could join with a preceding minus
 or slash

---
 pico_output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_output.py b/pico_output.py
index fb1df31..ce9629b 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -260,8 +260,10 @@ def format_string_literal(value, use_ctrl_chars=True, use_complex_long=True, lon
     return strlong if len(strlong) < len(strlit) else strlit
 
 def need_whitespace_between(ctxt, prev, next):
-    if isinstance(prev, Comment) or isinstance(next, Comment):
+    if isinstance(prev, Comment):
         return False
+    if isinstance(next, Comment): # must not create a different comment
+        return prev.value.endswith(next.value[0])
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
-- 
2.43.0


From 0e686f1955e40622eaf14a22c4b25906af063386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:47 +0000
Subject: [PATCH 29/43] fix: shorthand bodies emptied by folding, and line
 breaks after a shorthand followed by a kept comment

---
 pico_constfold.py | 11 ++++++++++-
 pico_minify.py    | 19 +++++++++++++++----
 pico_output.py    |  4 ++--
 pico_parse.py     |  5 +++++
 4 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index d1557f7..770bec0 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -1,7 +1,7 @@
 from utils import *
 from pico_defs import *
 from pico_tokenize import Token, TokenType, ConstToken, k_skip_children, tokenize, KeepCommentFlags
-from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr
+from pico_parse import Node, NodeType, VarKind, is_root_global_or_builtin_local, is_vararg_expr, is_short_block_stmt, get_outer_block
 from pico_output import format_fixnum, format_luanum
 
 class LuaType(Enum):
@@ -500,6 +500,15 @@ def fixup_syntax_after_remove(stmt):
         fixup_syntax_before(stmt.first_token())
     fixup_syntax_before(stmt.next_token())
 
+    # shorthand bodies can neither be empty nor begin with a 'do'
+    block = get_outer_block(stmt.parent)
+    if block and block.parent and is_short_block_stmt(block.parent):
+        tokens = block.get_tokens()
+        if not tokens:
+            block.append_token(TokenType.punct, ";")
+        elif tokens[0].value == "do":
+            block.insert_token(0, TokenType.punct, ";", near_next=True)
+
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
         indices.pop() # can't deal with this easily otherwise
diff --git a/pico_minify.py b/pico_minify.py
index acceb77..48d4173 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -3,7 +3,7 @@ from pico_defs import fixnum_is_negative, float_is_negative, Language
 from pico_tokenize import Token, TokenType, StopTraverse, k_skip_children
 from pico_parse import Node, NodeType, VarKind
 from pico_parse import k_unary_ops_prec, get_precedence, is_right_assoc, can_replace_with_unary
-from pico_parse import is_vararg_expr, is_short_block_stmt, is_root_global_or_builtin_local
+from pico_parse import is_vararg_expr, is_short_block_stmt, get_outer_block, is_root_global_or_builtin_local
 from pico_output import format_luanum, format_fixnum, format_string_literal
 
 class Focus(Bitmask):
@@ -104,7 +104,13 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     if i == 0:
                         # a shorthand cannot begin with a do block. (would be a longhand)
                         # or with a parenthesis. (would be a call to the condition)
-                        bad_start = body.first_token().value in ("do", "(")
+                        # (semicolons are skipped, as they may be removed)
+                        first = body.first_token()
+                        bad_start = first.value == "("
+                        while first.value == ";":
+                            first = first.next_token()
+                        if first.value == "do":
+                            bad_start = True
                 
                 # empty bodies require extra ';'s to shorten, which worsens compression
                 to_short = allow_shorthand and not (has_empties and not focus.chars) and not bad_start
@@ -343,6 +349,11 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
     next.erase()
     fixup_syntax_after_remove(next)
 
+def is_short_body_filler(token, body):
+    # a short body can neither be empty nor begin with a 'do'
+    tokens = body.get_tokens()
+    return tokens[0] is token and (len(tokens) == 1 or tokens[1].value == "do")
+
 def value_is_negative(ctxt, value):
     if ctxt.lang == Language.pico8:
         return fixnum_is_negative(value)
@@ -446,8 +457,8 @@ def minify_code(ctxt, root, minify_opts):
             # remove unneeded tokens
 
             if token.value == ";" and token.parent.type == NodeType.block and token.next_token().value != "(":
-                gparent = token.parent.parent
-                if not (gparent and is_short_block_stmt(gparent) and not token.parent.stmts):
+                body = get_outer_block(token.parent)
+                if not (body.parent and is_short_block_stmt(body.parent) and is_short_body_filler(token, body)):
                     token.erase()
                     return
 
diff --git a/pico_output.py b/pico_output.py
index ce9629b..2f57fd3 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -317,7 +317,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified) and prev.value:
+            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
@@ -360,7 +360,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         wspace_output(comment, can_need_linebreak=False)
         output.append(comment_out)
 
-        if need_linebreak and "\n" in comment_out:
+        if need_linebreak and "\n" in comment_out and not comment.isblock: # (newlines in a block comment don't end a line)
             need_linebreak = False
 
     def token_output(token):
diff --git a/pico_parse.py b/pico_parse.py
index 09382ef..bf5e7e6 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -1093,6 +1093,11 @@ def is_vararg_expr(node):
     return node.type in (NodeType.call, NodeType.varargs)
 def is_short_block_stmt(node):
     return node.short and node.type in (NodeType.if_, NodeType.else_, NodeType.while_)
+def get_outer_block(node):
+    # blocks may end up directly inside other blocks, after folding
+    while node and node.type == NodeType.block and node.parent and node.parent.type == NodeType.block:
+        node = node.parent
+    return node
 def is_function_stmt(node):
     return node.type == NodeType.function and node.target
 
-- 
2.43.0


From df1638201b87f7aaaf012fa6a04225ef7a9e84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:21 +0000
Subject: [PATCH 30/43] fix: empty shorthand bodies and kept comments

---
 pico_constfold.py | 6 ++----
 pico_minify.py    | 6 +++---
 pico_output.py    | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index 770bec0..b161d54 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -504,10 +504,8 @@ def fixup_syntax_after_remove(stmt):
     block = get_outer_block(stmt.parent)
     if block and block.parent and is_short_block_stmt(block.parent):
         tokens = block.get_tokens()
-        if not tokens:
-            block.append_token(TokenType.punct, ";")
-        elif tokens[0].value == "do":
-            block.insert_token(0, TokenType.punct, ";", near_next=True)
+        if not tokens or tokens[0].value == "do":
+            block.insert_token(0, TokenType.punct, ";")
 
 def erase_assign_targets(node, indices):
     if len(node.targets) < len(node.sources) and len(indices) == len(node.targets):
diff --git a/pico_minify.py b/pico_minify.py
index 48d4173..bf252e0 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -98,7 +98,7 @@ def analyze_code_for_minify(root, focus, ctxt, safe_builtins):
                     if not allow_child_shorthands(node, body):
                         allow_shorthand = False
                     
-                    if not body.children:
+                    if all(token.value == ";" for token in body.get_tokens()):
                         has_empties = True
                     
                     if i == 0:
@@ -180,8 +180,8 @@ def minify_change_block_shorthand(node, new_short):
 
         # fixup empty bodies
         for body in get_node_bodies(node):
-            if not body.children:
-                body.append_token(TokenType.punct, ";")
+            if not body.get_tokens():
+                body.insert_token(0, TokenType.punct, ";")
         
         on_enable_shorthand(node)
 
diff --git a/pico_output.py b/pico_output.py
index 2f57fd3..77a364e 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -263,7 +263,7 @@ def need_whitespace_between(ctxt, prev, next):
     if isinstance(prev, Comment):
         return False
     if isinstance(next, Comment): # must not create a different comment
-        return prev.value.endswith(next.value[0])
+        return prev.value.endswith(("-", "/"))
 
     combined = prev.value + next.value
     ct, ce = tokenize(Source("<output>", combined), lang=ctxt.lang) # TODO: optimize?
@@ -317,7 +317,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
         
         if minify_wspace:
             # (modified tokens may require whitespace not previously required - e.g. 0b/0x)
-            if (prev.endidx < next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
+            if (prev.endidx != next.idx or prev.source != next.source or prev.modified or next.modified or need_linebreak) and prev.value:
                 # TODO: can we systemtically add whitespace to imrpove compression? (failed so far)
 
                 if (need_linebreak and can_need_linebreak) or (not minify_lines and next.vline != prev.vline):
-- 
2.43.0


From 0df2b64be59ddd3107342bb850b8c53afdcd3678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:58 +0000
Subject: [PATCH 31/43] fix: kept comments and line breaks around moved code
 and nested shorthands

---
 pico_minify.py | 15 +++++++++++++--
 pico_parse.py  |  2 ++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index bf252e0..82f01df 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -161,6 +161,15 @@ def on_enable_shorthand(node):
             comment.vline = vline
     node.traverse_tokens(fix_vlines)
 
+def is_inside_shorthand(node):
+    inside = False
+    def check_parent(parent):
+        nonlocal inside
+        if parent.short:
+            inside = True
+    node.traverse_parents(check_parent)
+    return inside
+
 def minify_change_block_shorthand(node, new_short):
     if new_short:
         node.short = True
@@ -187,12 +196,14 @@ def minify_change_block_shorthand(node, new_short):
 
     else:
         node.short = False
+        # (inside another shorthand, the end must be on the same line)
+        near_next = not is_inside_shorthand(node)
         node.insert_token(2, TokenType.keyword, "then" if node.type == NodeType.if_ else "do")
         if node.type == NodeType.if_ and node.else_:
             node.else_.short = False
-            node.else_.append_token(TokenType.keyword, "end", near_next=True)
+            node.else_.append_token(TokenType.keyword, "end", near_next=near_next)
         else:
-            node.append_token(TokenType.keyword, "end", near_next=True)
+            node.append_token(TokenType.keyword, "end", near_next=near_next)
 
 def minify_change_print_shorthand(node, new_short):
     assert new_short
diff --git a/pico_parse.py b/pico_parse.py
index bf5e7e6..d16e44e 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -217,6 +217,8 @@ class Node(TokenNodeBase):
         def reset_location(token):
             token.idx, token.endidx = src.idx, src.endidx
             token.vline, token.modified = src.vline, True
+            for comment in token.children:
+                comment.vline = src.vline
 
         existing.traverse_tokens(reset_location)
         m.children.insert(i, existing)
-- 
2.43.0


From 5b6415bb03456fd10a0b5955e20411580f11e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:31 +0000
Subject: [PATCH 32/43] fix: longhand inside a one-line shorthand; comments of
 moved code

---
 pico_minify.py | 8 +++-----
 pico_parse.py  | 5 +++--
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index 82f01df..affa08c 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -196,14 +196,12 @@ def minify_change_block_shorthand(node, new_short):
 
     else:
         node.short = False
-        # (inside another shorthand, the end must be on the same line)
-        near_next = not is_inside_shorthand(node)
         node.insert_token(2, TokenType.keyword, "then" if node.type == NodeType.if_ else "do")
         if node.type == NodeType.if_ and node.else_:
             node.else_.short = False
-            node.else_.append_token(TokenType.keyword, "end", near_next=near_next)
+            node.else_.append_token(TokenType.keyword, "end", near_next=True)
         else:
-            node.append_token(TokenType.keyword, "end", near_next=near_next)
+            node.append_token(TokenType.keyword, "end", near_next=True)
 
 def minify_change_print_shorthand(node, new_short):
     assert new_short
@@ -389,7 +387,7 @@ def minify_code(ctxt, root, minify_opts):
         if minify_tokens:
             # remove shorthands
 
-            if node.type in (NodeType.if_, NodeType.while_) and node.short and (analysis.new_shorts[node.type] == False):
+            if node.type in (NodeType.if_, NodeType.while_) and node.short and (analysis.new_shorts[node.type] == False) and not is_inside_shorthand(node):
                 minify_change_block_shorthand(node, False)
                 
             # remove unneeded groups
diff --git a/pico_parse.py b/pico_parse.py
index d16e44e..f763176 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -217,8 +217,9 @@ class Node(TokenNodeBase):
         def reset_location(token):
             token.idx, token.endidx = src.idx, src.endidx
             token.vline, token.modified = src.vline, True
-            for comment in token.children:
-                comment.vline = src.vline
+            if isinstance(existing, Node): # else, a placeholder for comments
+                for comment in token.children:
+                    comment.vline = src.vline
 
         existing.traverse_tokens(reset_location)
         m.children.insert(i, existing)
-- 
2.43.0


From 80de272bb6a61af3fbaced6c8a810b9bc27c8eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:33 +0000
Subject: [PATCH 33/43] fix: a statement after a print shorthand could be
 parsed as a call of it

---
 pico_parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pico_parse.py b/pico_parse.py
index f763176..4ebdcd6 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -647,6 +647,9 @@ def parse(source, tokens, ctxt=None, super_root=None, lang=None, for_expr=False)
 
     def parse_expr(prec=None):
         expr = parse_core_expr()
+        if expr.short: # a print shorthand is a whole statement
+            return expr
+
         while True:
             nonlocal idx
             if e(end_vline) and peek().vline > end_vline:
-- 
2.43.0


From a0990289e028c216cf66b42fb9b07a3ac0faffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:33 +0000
Subject: [PATCH 34/43] fix: unminify could create comments or long strings, or
 break a print shorthand's line

---
 pico_output.py   | 15 ++++++++++-----
 pico_unminify.py | 18 ++++++++++++++++--
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/pico_output.py b/pico_output.py
index 77a364e..5fe369c 100644
--- a/pico_output.py
+++ b/pico_output.py
@@ -299,6 +299,15 @@ def get_orig_wspace(pre, post, ctxt, allow_linebreaks, need_linebreak=False):
 
     return text
     
+def get_single_line_comment(comment):
+    if "\n" not in comment.value:
+        return comment.value
+    elif comment.isblock:
+        return re.sub(r"\n\s*", " ", comment.value)
+    else:
+        eqs = get_long_brackets_equals(comment.value)
+        return f"--[{eqs}[{comment.value[2:-1]}]{eqs}]"
+
 def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None, exclude_comments=None):
     """convert a root back to a string, inserting as little whitespace as possible (under minify_wspace),
        or using original whitespace (optionally except comments)"""
@@ -349,11 +358,7 @@ def output_node(root, ctxt, minify=True, minify_wspace=None, minify_lines=None,
                 return
         else:
             if not allow_linebreaks and "\n" in comment.value:
-                if comment.isblock:
-                    comment_out = re.sub(r"\n\s*", " ", comment.value)
-                else:
-                    eqs = get_long_brackets_equals(comment.value)
-                    comment_out = f"--[{eqs}[{comment.value[2:-1]}]{eqs}]"
+                comment_out = get_single_line_comment(comment)
             else:
                 comment_out = comment.value
         
diff --git a/pico_unminify.py b/pico_unminify.py
index 8bd1b16..7ab5035 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -1,6 +1,7 @@
 from utils import *
 from pico_tokenize import TokenType, Token
 from pico_parse import NodeType, is_function_stmt, is_short_block_stmt
+from pico_output import get_single_line_comment
 
 def unminify_code(root, unminify_opts):    
     indent_str = unminify_opts.get("indent", 2)
@@ -15,12 +16,17 @@ def unminify_code(root, unminify_opts):
     k_tight_prefix_tokens = ("(", "[", "{", "?", ".", ":", "::")
     k_tight_suffix_tokens = (")", "]", "}", ",", ";", ".", ":", "::")
 
+    in_print = 0
+
     def visit_token(token):
         nonlocal prev_token, prev_tight
         value = token.value
 
         for comment in token.children:
             comment_value = comment.value
+            if in_print and token.value != "?":
+                # a print shorthand must remain on one line
+                comment_value = get_single_line_comment(comment)
             if "\n" in comment_value:
                 if prev_tight:
                     output.append("\n")
@@ -58,13 +64,18 @@ def unminify_code(root, unminify_opts):
                                                     prev_token.value in ("function", ")", "]", "}"))) and \
                 not (prev_token.type == TokenType.punct and prev_token.parent.type == NodeType.unary_op):
             output.append(" ")
+        elif prev_tight and prev_token.value in ("-", "[") and value.startswith(prev_token.value):
+            output.append(" ") # must not create a comment or a long string
 
         output.append(value)
         prev_token = token
         prev_tight = True
 
     def visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, prev_tight, in_print
+
+        if node.type == NodeType.call and node.short:
+            in_print += 1
 
         if node.type == NodeType.block:
             if node.parent:
@@ -89,7 +100,10 @@ def unminify_code(root, unminify_opts):
             prev_tight = False
 
     def end_visit_node(node):
-        nonlocal indent, curr_stmt, prev_tight
+        nonlocal indent, curr_stmt, prev_tight, in_print
+
+        if node.type == NodeType.call and node.short:
+            in_print -= 1
 
         if node.type == NodeType.block:
             if node.parent:
-- 
2.43.0


From a6ef7137cb595cbc4cd5d0c78a08591a66215a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:29 +0000
Subject: [PATCH 35/43] fix: moved comments could break the lines of one-line
 shorthands

---
 pico_minify.py   | 3 +--
 pico_parse.py    | 3 +--
 pico_tokenize.py | 6 ++++++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index affa08c..99348c4 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -157,8 +157,7 @@ def on_enable_shorthand(node):
     vline = node.first_token().vline
     def fix_vlines(token):
         token.vline = vline
-        for comment in token.children:
-            comment.vline = vline
+        token.set_comments_vline(vline)
     node.traverse_tokens(fix_vlines)
 
 def is_inside_shorthand(node):
diff --git a/pico_parse.py b/pico_parse.py
index 4ebdcd6..9a5b2f2 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -218,8 +218,7 @@ class Node(TokenNodeBase):
             token.idx, token.endidx = src.idx, src.endidx
             token.vline, token.modified = src.vline, True
             if isinstance(existing, Node): # else, a placeholder for comments
-                for comment in token.children:
-                    comment.vline = src.vline
+                token.set_comments_vline(src.vline)
 
         existing.traverse_tokens(reset_location)
         m.children.insert(i, existing)
diff --git a/pico_tokenize.py b/pico_tokenize.py
index 20d53c4..f5af561 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -228,6 +228,12 @@ class Token(TokenNodeBase):
     def remove_comments(m):
         m.children = ()
 
+    def set_comments_vline(m, vline):
+        if m.children:
+            m.children = [copy(comment) for comment in m.children] # (kept comments can belong to several tokens)
+            for comment in m.children:
+                comment.vline = vline
+
     @lazy_property
     def parsed_value(m):
         if m.type == TokenType.number:
-- 
2.43.0


From 4624d29c9606117fedd8f2811b626eb579ea6fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:21 +0000
Subject: [PATCH 36/43] fix: folded constants could be indexed or called
 without parentheses, or replace a call statement

---
 pico_constfold.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/pico_constfold.py b/pico_constfold.py
index b161d54..8eea786 100644
--- a/pico_constfold.py
+++ b/pico_constfold.py
@@ -476,7 +476,17 @@ def set_const(node, value, ctxt, focus, force):
             node.worse_const = value
             return
 
-    node.replace_with(create_const_node(token))
+    const_node = create_const_node(token)
+    if is_prefix_expr(node): # consts can only be indexed/called in parens
+        const_node = create_group_node(const_node, token)
+
+    node.replace_with(const_node)
+    fixup_syntax_before(node.first_token())
+
+def is_prefix_expr(node):
+    parent = node.parent
+    return ((parent.type in (NodeType.index, NodeType.member) and node is parent.child) or
+            (parent.type == NodeType.call and node is parent.func))
 
 def fixup_syntax_before(token):
     # insert a semicolon before token, if it starts a statement but would now continue the previous one
@@ -544,6 +554,11 @@ def erase_assign_targets(node, indices):
 def create_const_node(token):
     return Node(NodeType.const, [token], token=token)
 
+def create_group_node(node, token):
+    open_token = Token.synthetic(TokenType.punct, "(", token, prepend=True)
+    close_token = Token.synthetic(TokenType.punct, ")", token, append=True)
+    return Node(NodeType.group, [open_token, node, close_token], child=node)
+
 def create_do_node_if_needed(node):
     needed = False
 
@@ -639,7 +654,9 @@ def fold_consts(ctxt, minify_opts, root, errors):
             visit_assign(node)
         
         # we assume that in a const context, calls are always to builtins
-        elif (node.type == NodeType.call and node.func.type == NodeType.var and is_root_global_or_builtin_local(node.func) and
+        # (a call that is a statement has no result to fold)
+        elif (node.type == NodeType.call and node.parent.type != NodeType.block and
+                node.func.type == NodeType.var and is_root_global_or_builtin_local(node.func) and
                 not node.func.var.reassigned and (not root.has_env or not safe_builtins or in_const_ctxt)):
             func, num_args, func_lang = k_const_globals.get(node.func.name, (None, None, None))
             if func and (num_args is None or num_args == len(node.args)) and (func_lang is None or func_lang == lang):
-- 
2.43.0


From 1abbd83deda421560b46b4c97a2a76f37c03c1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:49:21 +0000
Subject: [PATCH 37/43] fix: unminify failed on short else bodies with
 semicolons, and broke print shorthands that contain functions

---
 pico_unminify.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pico_unminify.py b/pico_unminify.py
index 7ab5035..319fbbc 100644
--- a/pico_unminify.py
+++ b/pico_unminify.py
@@ -46,7 +46,8 @@ def unminify_code(root, unminify_opts):
 
         # ignore shorthand parens, to avoid increasing token count as we convert shorthands to longhand
         gparent = token.parent.parent
-        if gparent and is_short_block_stmt(gparent) and token.parent == gparent.cond and token.value in ("(", ")"):
+        if gparent and is_short_block_stmt(gparent) and gparent.type != NodeType.else_ and \
+                token.parent == gparent.cond and token.value in ("(", ")"):
             return
         
         # ignore semicolons inside blocks - our formatting makes them unneeded
@@ -71,6 +72,10 @@ def unminify_code(root, unminify_opts):
         prev_token = token
         prev_tight = True
 
+    def output_newline():
+        # (a print shorthand must remain on one line)
+        output.append(" " if in_print else "\n")
+
     def visit_node(node):
         nonlocal indent, curr_stmt, prev_tight, in_print
 
@@ -86,14 +91,14 @@ def unminify_code(root, unminify_opts):
 
             stmt_stack.append(curr_stmt)
             curr_stmt = None
-            output.append("\n")
+            output_newline()
             prev_tight = False
 
         elif curr_stmt is None:
             if is_function_stmt(node):
                 child_i = node.parent.children.index(node)
                 if child_i > 0 and not is_function_stmt(node.parent.children[child_i - 1]):
-                    output.append("\n")
+                    output_newline()
 
             curr_stmt = node
             output.append(indent_str * indent)
@@ -119,11 +124,11 @@ def unminify_code(root, unminify_opts):
 
         elif node is curr_stmt:
             curr_stmt = None
-            output.append("\n")
+            output_newline()
             prev_tight = False
                 
             if is_function_stmt(node):
-                output.append("\n")
+                output_newline()
 
     root.traverse_nodes(visit_node, end_visit_node, tokens=visit_token)
 
-- 
2.43.0


From a80efc82a12722c3d457dc33d93a36b747a94b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:29 +0000
Subject: [PATCH 38/43] fix: recursion without end when a folded condition
 became part of a one-line shorthand

---
 pico_tokenize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pico_tokenize.py b/pico_tokenize.py
index f5af561..f1790c8 100644
--- a/pico_tokenize.py
+++ b/pico_tokenize.py
@@ -276,9 +276,16 @@ class ConstToken(Token):
         else:
             return format_string_literal(m.parsed_value, long=False)
 
+    depends_on_parent = True
+
+    def modify(m, value, expected=None):
+        super().modify(value, expected)
+        m.depends_on_parent = False # (neither is there a parsed_value to recompute it from)
+
     @post_property_change
     def parent(m, old, new):
-        lazy_property.clear(m, "value")
+        if m.depends_on_parent:
+            lazy_property.clear(m, "value")
 
 class CommentHint(Enum):
     none = auto = preserve = lint = keep = ...
-- 
2.43.0


From bf16a888fbef701b3d7b9f89435f701f80c7a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:05 +0000
Subject: [PATCH 39/43] fix: '?' made from a print without arguments took the
 line of the next token: a line break was output inside one-line shorthands

---
 pico_minify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 99348c4..e4166d9 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -213,7 +213,7 @@ def minify_change_print_shorthand(node, new_short):
         node.remove_token(1, "(")
         node.remove_token(-1, ")")
     
-    node.insert_token(1, TokenType.punct, "?", near_next=True)
+    node.insert_token(1, TokenType.punct, "?", near_next=bool(node.args)) # (else, the next token may be on another line)
     node.remove_child(0)
     node.func = node.children[0]
 
-- 
2.43.0


From d2b692491ed6453129ab6ccaed598fe59586e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:13 +0000
Subject: [PATCH 40/43] fix: a print shorthand could end up in the middle of a
 line, when its block was expanded inside one that became a one-line shorthand

---
 pico_minify.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pico_minify.py b/pico_minify.py
index e4166d9..3f985d1 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -160,12 +160,24 @@ def on_enable_shorthand(node):
         token.set_comments_vline(vline)
     node.traverse_tokens(fix_vlines)
 
-def is_inside_shorthand(node):
+def contains_print_shorthand(node):
+    found = False
+    def check_child(child):
+        nonlocal found
+        if child.type == NodeType.call and child.short:
+            found = True
+    node.traverse_nodes(check_child)
+    return found
+
+def is_inside_shorthand(node, analysis):
     inside = False
+    has_print = contains_print_shorthand(node) # (must remain at the end of a line)
     def check_parent(parent):
         nonlocal inside
         if parent.short:
             inside = True
+        elif has_print and parent in analysis.allowed_shorts and analysis.new_shorts[parent.type]: # going to become a shorthand
+            inside = True
     node.traverse_parents(check_parent)
     return inside
 
@@ -386,7 +398,7 @@ def minify_code(ctxt, root, minify_opts):
         if minify_tokens:
             # remove shorthands
 
-            if node.type in (NodeType.if_, NodeType.while_) and node.short and (analysis.new_shorts[node.type] == False) and not is_inside_shorthand(node):
+            if node.type in (NodeType.if_, NodeType.while_) and node.short and (analysis.new_shorts[node.type] == False) and not is_inside_shorthand(node, analysis):
                 minify_change_block_shorthand(node, False)
                 
             # remove unneeded groups
-- 
2.43.0


From efc0491a0aa358107bae04042572ea62cf2652c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:44 +0000
Subject: [PATCH 41/43] fix: the label lint missed labels of the same name more
 than one block outside the function

---
 pico_parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pico_parse.py b/pico_parse.py
index 9a5b2f2..ae53597 100644
--- a/pico_parse.py
+++ b/pico_parse.py
@@ -108,7 +108,7 @@ class LabelScope:
         if var:
             return var
         elif m.parent and (crossfunc or m.parent.funcdepth == m.funcdepth):
-            return m.parent.find(name)
+            return m.parent.find(name, crossfunc)
     
     def chain(m, crossfunc=False):
         curr = m
-- 
2.43.0


From 43e0b413a827361f0cf0c3fc9eabf6afd41ccabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:34 +0000
Subject: [PATCH 42/43] fix: merged assignments could read a table before it
 was changed ('t[1]=5 n=#t' -> 't[1],n=5,#t')

---
 pico_minify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pico_minify.py b/pico_minify.py
index 3f985d1..193db9c 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -260,13 +260,15 @@ def expr_is_trivial(root, ctxt, safe_only, allow_member=True, allow_index=True,
         # nodes that may call user-defined code
         elif expr.type == NodeType.call:
             func = expr.func
-            if (safe_only or not allow_call or
+            if (safe_only or not allow_call or not allow_index or
                     not (func.type == NodeType.var and is_root_global_or_builtin_local(func) and not func.var.reassigned and func.name not in ctxt.builtins_with_callbacks)):
                 raise StopTraverse()
         elif expr.type == NodeType.member and not allow_member:
             raise StopTraverse()
         elif expr.type == NodeType.index and not allow_index:
             raise StopTraverse()
+        elif expr.type == NodeType.unary_op and expr.op == "#" and not allow_index:
+            raise StopTraverse()
         # nodes that may call user-defined code via metatables (E.g. member access, operators)
         elif safe_only:
             raise StopTraverse()
-- 
2.43.0


From c1432e0e0368dcb5a8b02f3cc85ca62560e9cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:55:34 +0000
Subject: [PATCH 43/43] fix: merged assignments could evaluate the assigned-to
 table before a function changed it ('g=f() t.x=5' -> 'g,t.x=f(),5')

---
 pico_minify.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pico_minify.py b/pico_minify.py
index 193db9c..5ae29e9 100644
--- a/pico_minify.py
+++ b/pico_minify.py
@@ -324,6 +324,12 @@ def minify_merge_assignments(prev, next, ctxt, safe_only, has_env):
             return
         if require_trivial and not expr_is_trivial(node, ctxt, safe_only, allow_member, allow_index, allow_call=False, has_env=has_env):
             return
+        # the table and key would be evaluated before - instead of after - any functions called by prev.sources, which may affect them
+        if node.type != NodeType.var:
+            has_plain_parts = all(part.type in (NodeType.var, NodeType.const) for part in (node.child, node.key))
+            for source in prev.sources:
+                if not expr_is_trivial(source, ctxt, safe_only, allow_call=has_plain_parts, has_env=has_env):
+                    return
     
     # when reordering local declarations, ensure we don't change which local wins out among identically-named locals
     # (this relies on rename being done already!)
-- 
2.43.0

