From 93c106e6a5fec71a27b5dd218581c3fbcaddccde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 01/86] fix: count line prefix/suffix once per line record in
 BIL images

---
 pdr/loaders/queries.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 154ad93..509dbb2 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -190,10 +190,12 @@ def get_image_properties(gen_props: ImageProps) -> ImageProps:
     """
     props = gen_props  # TODO: what is this variable assignment for?
     check_fix_validity(props)
-    props["pixels"] = (
-        (props["nrows"] + props["rowpad"])
-        * (props["ncols"] + props["colpad"] + props["linepad"])
+    # line pre/suffixes occur once per line record. In multiband (always BIL)
+    # images that have them, a line record contains all bands of that line.
+    props["pixels"] = (props["nrows"] + props["rowpad"]) * (
+        (props["ncols"] + props["colpad"])
         * (props["nbands"] + props["bandpad"])
+        + props["linepad"]
     )
     return props
 
-- 
2.43.0


From d40240f5440e3a9800c92a265aa6fb71f024abbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 02/86] fix: read 4- and 8-byte integer qubes at their stated
 width

---
 pdr/loaders/queries.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 509dbb2..ccb8231 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -48,9 +48,8 @@ def generic_qube_properties(
     props = {}
     use_block = block if "CORE" not in block.keys() else block["CORE"]
     props["BYTES_PER_PIXEL"] = int(use_block["CORE_ITEM_BYTES"])  # / 8)
-    # TODO: this should probably have for_numpy set to True
     props["sample_type"] = sample_types(
-        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"]
+        use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
     props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
-- 
2.43.0


From dd99a28c10e4975ae3346a0b0ca544da432fad4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:23 +0000
Subject: [PATCH 03/86] fix: don't discard the core of a qube with zero-count
 suffix/prefix planes

---
 pdr/loaders/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 51fbb58..5b19d2d 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -182,7 +182,7 @@ def extract_axplanes(
     axplanes = {}
     for side, ax in product(("prefix", "suffix"), ("row", "col", "band")):
         # noinspection PyTypedDict
-        if (count := props.get(f"{side}_{ax}s")) is None:
+        if (count := props.get(f"{side}_{ax}s")) in (None, 0):
             continue
         axn, axname = {
             "band": (0, "BAND"),
-- 
2.43.0


From aaf36a2d09286a5a330dcf253c14144d8e74528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 04/86] fix: load single-band qubes that have band
 prefix/suffix planes

---
 pdr/loaders/image.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 5b19d2d..2b2218c 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -24,10 +24,13 @@ def read_image(
     f.seek(start_byte)
     try:
         # Make sure that single-band images are 2-dim arrays.
-        if props["nbands"] == 1:
+        if props["nbands"] + props["bandpad"] == 1:
             image, axplanes, pre, suf = process_single_band_image(f, props)
         else:
             image, axplanes, pre, suf = process_multiband_image(f, props)
+            if props["nbands"] == 1:
+                # the other planes were pre/suffix planes
+                image = image[0]
     except Exception as ex:
         raise ex
     finally:
-- 
2.43.0


From 9f6f243e635ca762a041577f48078a1a1c7f40b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:10 +0000
Subject: [PATCH 05/86] fix: compute table row padding from the true end of the
 last field

---
 pdr/pd_utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index d919ab3..8a085a1 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -135,7 +135,12 @@ def compute_offsets(fmtdef: pd.DataFrame) -> pd.DataFrame:
             position += gl
         fmtdef.loc[column_groups.index, 'SB_OFFSET'] = gix_list
     pad_length = 0
-    end_byte = fmtdef["SB_OFFSET"].iloc[-1] + fmtdef["BYTES"].iloc[-1]
+    # SB_OFFSET of a repeated item is that item's own offset, and fields may be
+    # listed in any order
+    widths = fmtdef["BYTES"]
+    if "ITEM_BYTES" in fmtdef.columns:
+        widths = fmtdef["ITEM_BYTES"].fillna(widths)
+    end_byte = int((fmtdef["SB_OFFSET"] + widths).max())
     if "ROW_BYTES" in fmtdef.columns:
         pad_length += fmtdef["ROW_BYTES"].iloc[0] - end_byte
     if "ROW_SUFFIX_BYTES" in fmtdef.columns:
-- 
2.43.0


From 07bec34b4aae679807ce0bb7f1ed3849856eec23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:06 +0000
Subject: [PATCH 06/86] fix: convert multi-item IBM_REAL columns at their item
 width

---
 pdr/pd_utils.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 8a085a1..dea4188 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -334,9 +334,12 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
     for _, field in fmtdef.iterrows():
         if not re.match(r'IBM.*REAL', field['DATA_TYPE']):
             continue
-        func = ibm32_to_np_f32 if field['BYTES'] == 4 else ibm64_to_np_f64
-        converted = func(df[field['NAME']].values)
-        if field['BYTES'] == 4:
+        packed = df[field['NAME']].values
+        # 'BYTES' is the width of the whole field if it has multiple ITEMS
+        short = packed.dtype.itemsize == 4
+        func = ibm32_to_np_f32 if short else ibm64_to_np_f64
+        converted = func(packed)
+        if short:
             # IBM shorts are wider-range than IEEE shorts; check if we can
             # safely cast them back down to float32
             absolute = abs(converted)
-- 
2.43.0


From f5719b8e7c3e5f74041f5f5eadc945c35eef7285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:09 +0000
Subject: [PATCH 07/86] fix: do not round small IBM reals to subnormal float32

---
 pdr/pd_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index dea4188..59a8c6c 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -346,7 +346,7 @@ def convert_ibm_reals(df: pd.DataFrame, fmtdef: pd.DataFrame) -> pd.DataFrame:
             big = absolute.max() > np.finfo(np.float32).max
             nonzero = absolute[absolute > 0]
             if len(nonzero) > 0:
-                small = nonzero.min() < 1e-44
+                small = nonzero.min() < np.finfo(np.float32).tiny
             else:
                 small = False
             if not (big or small):
-- 
2.43.0


From 7dd2dfc90748d586184b224babd43a05dffa9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:23 +0000
Subject: [PATCH 08/86] fix: degrade to metadata when a loader returns nothing

---
 pdr/pdr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index d93891a..5b6d114 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -851,6 +851,11 @@ class Data:
                 f"Unable to load {pointer}: {loader.errors[-1]['exception']}"
             )
             raise DebugExceptionPreempted
+        if obj[pointer] is None:
+            # the loader had nothing to offer (and, unless the object is
+            # trivial, has said so)
+            trivial = unwrap.__class__.__name__ == "Trivial"
+            setattr(self, pointer, None if trivial else self.metaget_(pointer))
         return obj
 
     def get_scaled(
-- 
2.43.0


From 11fe313e281a86401f575da8ea4617cf5ee0ffa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:34 +0000
Subject: [PATCH 09/86] fix: refuse integer widths that are not supported
 instead of reading bytes

---
 pdr/datatypes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 0ce89bf..8e5c4df 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -29,8 +29,12 @@ def integer_code(
         letter = "l"
     elif sample_bytes == 2:
         letter = "h"
-    else:
+    elif sample_bytes in (1, 8):
         letter = "b"
+    else:
+        raise NotImplementedError(
+            f"{sample_bytes}-byte integers are not supported."
+        )
     if signed is False:
         letter = letter.upper()
     if for_numpy is True and sample_bytes in (4, 8):
-- 
2.43.0


From 19359164927f3031b86999bdff242d231fbda858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 10/86] fix: find label endings at chunk boundaries and prefer
 the first one

---
 pdr/parselabel/utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pdr/parselabel/utils.py b/pdr/parselabel/utils.py
index eec1151..b1aa282 100644
--- a/pdr/parselabel/utils.py
+++ b/pdr/parselabel/utils.py
@@ -6,9 +6,8 @@ from typing import Union, IO
 
 
 KNOWN_LABEL_ENDINGS = (
-    re.compile(b"\nEND {0,8}(\r| {8})"),  # common PVL convention
+    re.compile(b"\nEND {0,8}(\r|\n| {8})"),  # common PVL convention
     re.compile(b"\x00{3}"),  # just null bytes, for odder cases
-    b"\nEND\n",  # mostly for Chang'e labels
 )
 """
 Fast regex patterns for generic PVL label endings. They work for almost all PVL 
@@ -32,8 +31,10 @@ def _scan_to_end_of_label(
         if (chunk := buf.read(50 * 1024)) == b'':
             break
         for ending in KNOWN_LABEL_ENDINGS:
-            if (endmatch := re.search(ending, chunk)) is not None:
-                return text + chunk[: endmatch.span()[1]]
+            # the ending might straddle the boundary between two chunks
+            overlap = text[-20:]
+            if (endmatch := re.search(ending, overlap + chunk)) is not None:
+                return text[:-20] + (overlap + chunk)[: endmatch.span()[1]]
         text, length = text + chunk, length + 50 * 1024
     if raise_no_ending is True:
         raise InvalidAttachedLabel("Couldn't find a label ending.")
-- 
2.43.0


From 54027b29fd97023004c11ed831505d9fe068120f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 11/86] fix: close groups at bare END_GROUP, keep parameters
 whose names start with END

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a51cd78..56cec5d 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -22,7 +22,7 @@ from pdr.parselabel.utils import trim_label, DEFAULT_PVL_LIMIT
 from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
-PVL_BLOCK_TERMINAL = re.compile(r"END(_OBJECT|$)")
+PVL_BLOCK_TERMINAL = re.compile(r"END(_(OBJECT|GROUP)\b|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
@@ -112,7 +112,7 @@ class BlockParser:
         for parameter, value in statements:
             if parameter in PVL_BLOCK_INITIALS:
                 self._step_in(value)
-            elif parameter.startswith("END"):
+            elif extract_pvl_block_terminal(parameter) is not None:
                 # not bothering with aggregation name verification
                 if len(self.names) > 0:
                     self._step_out()
-- 
2.43.0


From fad7920fd8af906834a1b94476ae148975f3a38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:07 +0000
Subject: [PATCH 12/86] fix: keep words apart when a PVL value continues on the
 next line

---
 pdr/parselabel/pds3.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 56cec5d..a4d0833 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -74,8 +74,8 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             # i strongly suspect we will never make semantic use of
             # parameters like this and so we will just ignore them for now
             continue
-        value_head += " ".join(map(str.strip, statement[1:]))
-        statements.append((parameter, value_head))
+        value = " ".join(map(str.strip, [value_head, *statement[1:]]))
+        statements.append((parameter, value.strip()))
     return statements
 
 
-- 
2.43.0


From 8373dcd4a514148bcf790dd33e0813a7989cff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 13/86] fix: keep PVL statements whose values contain equals
 signs

---
 pdr/parselabel/pds3.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index a4d0833..020a4ea 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -67,12 +67,11 @@ def chunk_statements(trimmed_lines: Iterable[str]) -> list[tuple[str, str]]:
             statements.append((terminal, ""))
             continue
         try:
-            parameter, value_head = map(str.strip, assignment.split("="))
-        except ValueError:
-            # some people like to put extra '='s on assignment lines,, like:
+            # some people like to put extra '='s on assignment lines, like:
             # MRO:SPECIMEN_DESC      = "MONTMORILLONITE + FEOX, 100 % FECL2 SOL_N, PH=7,
-            # i strongly suspect we will never make semantic use of
-            # parameters like this and so we will just ignore them for now
+            parameter, value_head = map(str.strip, assignment.split("=", 1))
+        except ValueError:
+            # not an assignment at all (text before the first assignment)
             continue
         value = " ".join(map(str.strip, [value_head, *statement[1:]]))
         statements.append((parameter, value.strip()))
-- 
2.43.0


From 49ce6d7128bc06cada0a74b40b44ba8414261a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 14/86] fix: read positive exponents of PVL quantities

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 020a4ea..cfe4855 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -23,7 +23,7 @@ from pdr.utils import decompress
 
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_(OBJECT|GROUP)\b|$)")
-PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE]-?\d+)?)|NULL|UNK|N/A")
+PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
-- 
2.43.0


From f8bde7449c9feeb9fc2385ec6f6445526377ee67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:35 +0000
Subject: [PATCH 15/86] fix: do not interpret backslashes in PVL text as
 escapes

---
 pdr/parselabel/pds3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index cfe4855..6f4e17a 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -317,7 +317,8 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if (not obj.startswith('"')) and ("#" in obj[1:3]):
                 return parse_non_base_10(obj)
-            return literal_eval(obj)
+            # backslashes are not escape characters in PVL
+            return literal_eval(obj.replace("\\", "\\\\"))
     except (SyntaxError, ValueError):
         try:
             if ("<" in obj) and (">" in obj):
-- 
2.43.0


From 9b0d3eaf8ef41a8826ea3ed20f93d3ab74f7d99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 16/86] fix: convert every element of mixed PVL collections to
 its own value

---
 pdr/parselabel/pds3.py | 70 +++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index 6f4e17a..c6f5cde 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -8,7 +8,7 @@ from numbers import Number
 from operator import eq
 from pathlib import Path
 from typing import (
-    Iterable, Optional, Type, Union, Collection, Any, Callable
+    Iterable, Optional, Union, Collection, Any, Callable
 )
 
 from cytoolz import groupby, identity
@@ -186,7 +186,10 @@ def parse_pvl_quantity_statement(statement: str) -> Any:
     quantities, notably including tuples of the form '("A5.DAT", 1000 <BYTES>)'
     that are commonly used to specify start byte offsets for data objects.
     """
-    objects = statement.strip("()").split(",")
+    if statement.startswith(("(", "{")):
+        output = parse_unusual_collection(statement)
+        return next(iter(output)) if len(output) == 1 else output
+    objects = statement.split(",")
     output = []
     for obj in objects:
         # TODO, maybe: a bit redundant
@@ -268,35 +271,52 @@ def parse_non_base_10(text: str) -> int:
     integer.
     """
     try:
-        base, number = text[:-1].split("#")
-        return int(number, int(base))
+        base, number = text.lstrip("+-")[:-1].split("#")
+        sign = -1 if text.startswith("-") else 1
+        return sign * int(number, int(base))
     except ValueError:
         raise SyntaxError("possible malformatted non-base-10 number")
 
 
-def parse_non_base_10_collection(
-    class_: Union[Type[set], Type[tuple]], obj: str
-) -> Union[tuple[int], set[int]]:
+def split_collection(obj: str) -> list[str]:
     """
-    Convert a collection of PVL representations of non-base-10 integers to a
-    collection (of the same class) of base-10 Python integers.
+    Split the text of a PVL sequence or set into the texts of its elements,
+    leaving quoted strings and nested collections intact.
     """
-    return class_(
-        map(parse_non_base_10, obj.strip('{}()').replace(" ", '').split(','))
-    )
+    items, item, depth, quote = [], "", 0, None
+    for char in obj[1:]:
+        if depth < 0:
+            if char.isspace():
+                continue
+            raise ValueError("text follows the end of the collection")
+        if quote is not None:
+            quote = None if char == quote else quote
+        elif char in "\"'" and item.rstrip()[-1:] in ("", "(", "{", ","):
+            quote = char
+        elif char in "({":
+            depth += 1
+        elif char in ")}":
+            depth -= 1
+            if depth < 0:
+                continue
+        elif char == "," and depth == 0:
+            items.append(item.strip())
+            item = ""
+            continue
+        item += char
+    return items + [item.strip()]
 
 
-def parse_unusual_collection(
-    obj: str
-) -> Union[tuple[Union[int, str]], set[Union[int, str]]]:
-    """Parse a PVL collection of non-base-10 numbers or unquoted strings."""
-    class_ = set if obj.startswith('{') else tuple
-    if re.match(r'.*\d{1,2}#', obj):
-        try:
-            return parse_non_base_10_collection(class_, obj)
-        except (SyntaxError, ValueError):
-            pass
-    return class_([s.strip(' ') for s in obj.strip('{}()').split(',')])
+def parse_unusual_collection(obj: str) -> Union[tuple, set]:
+    """
+    Parse a PVL collection with elements that are not also Python literals:
+    non-base-10 numbers, unquoted strings, quantities.
+    """
+    items = [literalize_pvl(item) for item in split_collection(obj)]
+    try:
+        return set(items) if obj.startswith("{") else tuple(items)
+    except TypeError:  # quantities aren't hashable
+        return tuple(items)
 
 
 def literalize_pvl(
@@ -315,11 +335,11 @@ def literalize_pvl(
         # warnings.simplefilter("always")
         with warnings.catch_warnings():
             warnings.simplefilter("ignore", SyntaxWarning)
-            if (not obj.startswith('"')) and ("#" in obj[1:3]):
+            if re.match(r"[+-]?\d{1,2}#", obj):
                 return parse_non_base_10(obj)
             # backslashes are not escape characters in PVL
             return literal_eval(obj.replace("\\", "\\\\"))
-    except (SyntaxError, ValueError):
+    except (SyntaxError, ValueError, TypeError):
         try:
             if ("<" in obj) and (">" in obj):
                 return parse_pvl_quantity_statement(obj)
-- 
2.43.0


From 87f73f5e5e3d7f972427da996878b22914b09bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 17/86] fix: accept any kind of default value in metadata
 lookups

---
 pdr/pdr.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 5b6d114..7ccd704 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -132,7 +132,8 @@ class Metadata(MultiDict):
                 f"Returning only the first.",
                 DuplicateKeyWarning,
             )
-        return self._metaget_interior(text, default)
+        value = self._metaget_interior(text)
+        return default if value is None else value
 
     def metaget_(self, text: str, default: Any = None) -> Any:
         """quiet-by-default version of metaget"""
@@ -204,7 +205,7 @@ class Metadata(MultiDict):
         """"""
         return f"Metadata({prettify_multidict(self)})"
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
@@ -1209,16 +1210,15 @@ class Data:
         for key in self.keys():
             yield self[key]
 
-    _metaget_interior: Callable[[str, Any], Any]
+    _metaget_interior: Callable[[str], Any]
     _metablock_interior: Callable[[str], Mapping]
 
 
-def _metaget_factory(metadata: Metadata) -> Callable[[str, Any], Any]:
+def _metaget_factory(metadata: Metadata) -> Callable[[str], Any]:
 
-    def metaget_interior(text, default):
+    def metaget_interior(text):
         """"""
-        value = dig_for_value(metadata, text, mtypes=(dict, MultiDict))
-        return default if value is None else value
+        return dig_for_value(metadata, text, mtypes=(dict, MultiDict))
 
     return cache(metaget_interior)
 
-- 
2.43.0


From d517375d949772e51f63d518511c337a5863eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:40 +0000
Subject: [PATCH 18/86] fix: strip comments to the end of their line

---
 pdr/parselabel/pds3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index c6f5cde..cc4d34c 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -139,7 +139,7 @@ def parse_pvl(
     label: str, deduplicate_pointers: bool = True
 ) -> tuple[MultiDict[str, Any], list[str]]:
     """Parse a PVL-text into a MultiDict and a flattened list of keys."""
-    uncommented_label = re.sub(r"/\*.*?(\r|\n|/\*)", "\n", label)
+    uncommented_label = re.sub(r"/\*.*?(\r|\n|$)", "\n", label)
     trimmed_lines = filter(
         None, map(lambda line: line.strip(), uncommented_label.split("\n"))
     )
-- 
2.43.0


From a8c0788813d007f864628d8289cf0a2b1b7f8d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:34 +0000
Subject: [PATCH 19/86] fix: do not read PVL symbols and times as Python
 literals

---
 pdr/parselabel/pds3.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pdr/parselabel/pds3.py b/pdr/parselabel/pds3.py
index cc4d34c..6e7985d 100644
--- a/pdr/parselabel/pds3.py
+++ b/pdr/parselabel/pds3.py
@@ -24,6 +24,7 @@ from pdr.utils import decompress
 PVL_BLOCK_INITIALS = ("OBJECT", "GROUP", "BEGIN_OBJECT", "BEGIN_GROUP")
 PVL_BLOCK_TERMINAL = re.compile(r"END(_(OBJECT|GROUP)\b|$)")
 PVL_QUANTITY_VALUE = re.compile(r"((\d|\.|-)+([eE][+-]?\d+)?)|NULL|UNK|N/A")
+PVL_NUMBER = re.compile(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?$")
 PVL_QUANTITY_UNITS = re.compile(r"<(.*)>")
 
 STRUCTUREPAT = re.compile(r"\^(?:(?:\w|_)+_)?STRUCTURE$")
@@ -337,8 +338,14 @@ def literalize_pvl(
             warnings.simplefilter("ignore", SyntaxWarning)
             if re.match(r"[+-]?\d{1,2}#", obj):
                 return parse_non_base_10(obj)
+            if not (obj.startswith(tuple("\"'({[")) or PVL_NUMBER.match(obj)):
+                # some symbols and dates are also Python literals (1_0, None)
+                raise ValueError("not a PVL number, text, or collection")
             # backslashes are not escape characters in PVL
-            return literal_eval(obj.replace("\\", "\\\\"))
+            value = literal_eval(obj.replace("\\", "\\\\"))
+            if isinstance(value, dict) and len(value) > 0:
+                raise ValueError("a PVL set of times, not a dict")
+            return value
     except (SyntaxError, ValueError, TypeError):
         try:
             if ("<" in obj) and (">" in obj):
-- 
2.43.0


From 0ac6d8382deba184c050b3c132e12696668fa4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 20/86] fix: recognise PDS4 labels whatever the case of their
 extension

---
 pdr/pdr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 7ccd704..12b5e70 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -293,8 +293,8 @@ class Data:
                 # TODO: bad. need to not leave this open, although inefficient
                 self._hdulist = fits.open(self.filename)
         elif (
-            str(self.labelname).endswith(".xml") 
-            or str(self.labelname).endswith(".lblx")
+            str(self.labelname).lower().endswith(".xml")
+            or str(self.labelname).lower().endswith(".lblx")
             or ("CE" in str(self.labelname) and
                 str(self.labelname).endswith((".2BL", ".2AL", ".2CL", ".01L")))
         ):
-- 
2.43.0


From 338cac16601880652a257da2cbb311db1ef35fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:09 +0000
Subject: [PATCH 21/86] fix: count an object's records in units of the FILE
 block that holds it

---
 pdr/loaders/queries.py | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index ccb8231..52b0c38 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -876,9 +876,33 @@ def load_format_file(
         raise FileNotFoundError
 
 
-def get_identifiers(data) -> dict[str, Any]:
-    """Query wrapper for `pdr.Data.__getattr__("identifiers")`"""
-    return data.identifiers
+def _enclosing_file_block(mapping: Mapping, pointer: str) -> Optional[Mapping]:
+    """Find the (COMPRESSED_, etc.) FILE block that contains a pointer."""
+    for key, value in mapping.items():
+        if not isinstance(value, Mapping):
+            continue
+        if key.endswith("FILE") and pointer in value:
+            return value
+        if (block := _enclosing_file_block(value, pointer)) is not None:
+            return block
+
+
+def get_identifiers(data, name: Optional[str] = None) -> dict[str, Any]:
+    """
+    Query wrapper for `pdr.Data.__getattr__("identifiers")`. Products made of
+    several files may describe each file in its own FILE block; in that case,
+    an object's records are the records of the file that contains it.
+    """
+    pointer = pointerize(name) if name is not None else None
+    if pointer is None or pointer in data.metadata:
+        return data.identifiers
+    if (block := _enclosing_file_block(data.metadata, pointer)) is None:
+        return data.identifiers
+    return data.identifiers | {
+        key: block[key]
+        for key in ("RECORD_BYTES", "RECORD_TYPE")
+        if key in block
+    }
 
 
 def get_none() -> None:
-- 
2.43.0


From aea6f6867211b99783bc48962adf5c744c29ae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:28 +0000
Subject: [PATCH 22/86] fix: read binary objects from zipped files

---
 pdr/np_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 644f098..4d79aed 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -9,7 +9,7 @@ from gzip import GzipFile
 from io import BufferedIOBase, BytesIO
 from numbers import Number
 from typing import Optional, Union
-from zipfile import ZipFile
+from zipfile import ZipExtFile
 
 import numpy as np
 
@@ -79,7 +79,7 @@ def np_from_buffered_io(
     """
     if offset is not None:
         buffered_io.seek(offset)
-    if isinstance(buffered_io, (BZ2File, ZipFile, GzipFile, BytesIO)):
+    if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
         n_bytes = None if count is None else count * dtype.itemsize
-- 
2.43.0


From 0d73ee8b389e91ed9afc9f44655f61dc2ca93c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 23/86] fix: mask every special constant of PDS3 arrays, at the
 array's precision

---
 pdr/_scaling.py  | 32 +++++++++++++++++++++-----------
 pdr/datatypes.py |  4 ++--
 2 files changed, 23 insertions(+), 13 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 34122cc..4849e98 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -32,35 +32,45 @@ def find_special_constants(
         if (name in block.keys()) and not (block[name] == "N/A")
     }
     for k in specials.keys():
-        if isinstance(specials[k], Sequence):
+        if isinstance(specials[k], Sequence) and not isinstance(
+            specials[k], str
+        ):
             specials[k] = specials[k][0]
+        if isinstance(specials[k], dict):
+            specials[k] = specials[k]["value"]
     # ignore uint8 implicit constants (0, 255) for now -- too problematic
     # TODO: maybe add an override
     if obj.dtype.name == "uint8":
         return specials
     # check for implicit constants appropriate to the sample type
-    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS[obj.dtype.name]
+    implicit_possibilities = IMPLICIT_PDS3_CONSTANTS.get(obj.dtype.name, {})
     # can't check for nans with "in" because it's an equality check, so
     # we don't intend this to be used, just want to make the key and put
     # in a value that won't conflict later
     if np.any(~np.isfinite(obj.data)):
         specials["INVALIDS"] = np.nan
-    return specials | {
-        possibility: constant
-        for possibility, constant in implicit_possibilities.items()
-        if constant in obj
-    }
+    for possibility, constant in implicit_possibilities.items():
+        if constant in obj:
+            # do not discard explicit constants that share an implicit
+            # constant's name
+            if possibility in specials:
+                possibility = f"IMPLICIT_{possibility}"
+            specials[possibility] = constant
+    return specials
 
 
 def mask_specials(obj, specials):
     """"""
     obj = np.ma.masked_array(obj)
+    mask = np.zeros(obj.shape, dtype=bool)
+    for constant in specials:
+        # compare constants one by one, so that each is compared at the
+        # array's own precision
+        mask |= obj.data == constant
     if np.nan in specials:
         # masks infs and nans as well
-        obj.mask = np.ma.mask_or(np.isin(obj.data, specials),
-                                 ~np.isfinite(obj.data))
-    else:
-        obj.mask = np.isin(obj.data, specials)
+        mask |= ~np.isfinite(obj.data)
+    obj.mask = mask
     return obj
 
 
diff --git a/pdr/datatypes.py b/pdr/datatypes.py
index 8e5c4df..c5ff660 100644
--- a/pdr/datatypes.py
+++ b/pdr/datatypes.py
@@ -175,12 +175,12 @@ IMPLICIT_PDS3_CONSTANTS = MappingProxyType(
         },
         # note that signed 32-bit integers don't seem to be considered in ISIS
         "int32": {
-            "N/A": -214743648,
+            "N/A": -2147483648,
             "UNK": 2147483647,
         },
         # TODO: dubious. when do we read 64-bit integers out of PDS3
         #  arrays anyway?
-        "int64": {"N/A": -214743648, "UNK": 2147483647},
+        "int64": {"N/A": -2147483648, "UNK": 2147483647},
         "uint32": {
             "N/A": 4294967293,
             "UNK": 4294967294,
-- 
2.43.0


From b0070cd60e7ff9263995a026ea9f41a671138582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 24/86] fix: mask PDS4 special constants and leave the held
 PDS4 arrays alone

---
 pdr/_scaling.py | 14 +++++++++-----
 pdr/pdr.py      |  3 +++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 4849e98..9d3137a 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -190,9 +190,13 @@ def scale_array(
 def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
-    from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
+    from pdr.pds4_tools.reader.data_types import (
+        apply_scaling_and_value_offset,
+        mask_special_constants,
+    )
 
-    array = struct.data
+    # these functions may work in-place; leave the structure's data alone
+    array = struct.data.copy()
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
@@ -202,9 +206,9 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
-    array = apply_scaling_and_value_offset(
-        array, special_constants=special_constants, **scale_kwargs
-    )
+    # apply_scaling_and_value_offset() only masks arrays it has to scale
+    array = mask_special_constants(array, special_constants=special_constants)
+    array = apply_scaling_and_value_offset(array, **scale_kwargs)
     if hasattr(array, "mask"):
         return np.ma.masked_array(np.asarray(array.data), array.mask)
     return np.asarray(array)
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 12b5e70..854a8cb 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -724,6 +724,9 @@ class Data:
         structure = self._pds4_structures[object_name]
         from pdr.pds4_tools.reader.label_objects import Label
 
+        # structures hold on to the data they've read, which were handed out if
+        # this object was loaded before; read them from the file again
+        structure.__dict__.pop("data", None)
         if isinstance(structure, Label):
             setattr(self, "label", structure)
         elif check_special_pds4_cases(structure, self.filename,
-- 
2.43.0


From 13dce2a7aeb8c265aaec3e072ced903d67f6f2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:20 +0000
Subject: [PATCH 25/86] fix: scale unsigned PDS4 arrays

---
 pdr/pds4_tools/reader/data_types.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index a1b442c..91bf6cf 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -790,7 +790,9 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(scaling_factor, six.integer_types):
             scale_dtype = get_min_integer_numpy_type([scaling_factor])
 
-        data *= np.array(scaling_factor, dtype=scale_dtype)
+        # (data can hold the result, but perhaps not the type NumPy promotes to,
+        # see e.g. signed scaling factors for unsigned data)
+        data *= np.array(scaling_factor, dtype=scale_dtype).astype(data.dtype)
 
     if not no_offset:
 
@@ -798,7 +800,7 @@ def apply_scaling_and_value_offset(data, scaling_factor=None, value_offset=None,
         if isinstance(value_offset, six.integer_types):
             offset_dtype = get_min_integer_numpy_type([value_offset])
 
-        data += np.array(value_offset, dtype=offset_dtype)
+        data += np.array(value_offset, dtype=offset_dtype).astype(data.dtype)
 
     # Cast down integers if possible
     # (see note in `adjust_array_data_type` for why this can be necessary)
-- 
2.43.0


From 950d76503d935cede6a9a1c1b9f2a483faf52faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 26/86] fix: do not let integer arrays wrap around when they
 are scaled

---
 pdr/_scaling.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 9d3137a..2faaae4 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -81,7 +81,8 @@ def fit_to_scale(
 ) -> np.ndarray:
     """
     Return a version of `arr` cast to the minimum dtype that will hold its
-    range of values after multiplying by `offset` and adding `scale`.
+    range of values, before and after multiplying by `scale` and adding
+    `offset`. If its own dtype will do, return `arr` itself.
 
     Supports:
 
@@ -89,30 +90,46 @@ def fit_to_scale(
     """
     if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
+    valid = np.ma.compressed(arr)
+    if valid.size == 0:
+        return arr
     if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
         bases, widths, infofunc = ('f',), (4, 8), np.finfo
+        extrema = float(valid.min()), float(valid.max())
     else:
         bases, widths, infofunc = ('u', 'i'), (1, 2, 4, 8), np.iinfo
-    amin, amax = map(int, (arr.min(), arr.max()))
-    smin, smax = amin * scale + offset, amax * scale + offset
-    for base, width in product(bases, widths):
-        candidate = np.dtype(f'{base}{width}')
+        extrema = int(valid.min()), int(valid.max())
+    needed = extrema + tuple(value * scale + offset for value in extrema)
+    candidates = [np.dtype(f'{b}{w}') for b, w in product(bases, widths)]
+    for candidate in [arr.dtype] + candidates:
+        if candidate.kind not in bases:
+            continue
         cinfo = infofunc(candidate)
-        if smin >= cinfo.min and smax <= cinfo.max:
-            return arr.astype(candidate)
+        if min(needed) >= cinfo.min and max(needed) <= cinfo.max:
+            return arr.astype(candidate, copy=False)
     raise TypeError("Unable to find a suitable data type for scaling.")
 
 
 def overflow_wrap(array_func):
     @wraps(array_func)
-    def with_upcasting(arr, scale, offset, *args, **kwargs):
+    def with_upcasting(arr, offset, scale, *args, **kwargs):
+        if arr.dtype.kind in "iu" and all(
+            isinstance(operand, Integral) for operand in (scale, offset)
+        ):
+            # numpy does not report overflow in integer arrays. once the dtype
+            # can hold the results, it does no harm to any other value.
+            arr = fit_to_scale(arr, scale, offset)
+            scale, offset = (
+                np.array(operand).astype(arr.dtype)
+                for operand in (scale, offset)
+            )
         with warnings.catch_warnings():
             warnings.filterwarnings("error", message=".*overflow enc.*")
             try:
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
             except (OverflowError, RuntimeWarning):
                 arr = fit_to_scale(arr, scale, offset)
-                return array_func(arr, scale, offset, *args, **kwargs)
+                return array_func(arr, offset, scale, *args, **kwargs)
 
     return with_upcasting
 
@@ -122,7 +139,8 @@ def _copy_scale(obj, offset, scale):
         # TODO: we should also be doing this per-plane scaling in inplace case
         if len(obj) == len(scale) == len(offset) > 1:
             planes = [
-                obj[ix] * scale[ix] + offset[ix] for ix in range(len(scale))
+                overflow_wrap(_copy_scale)(obj[ix], offset[ix], scale[ix])
+                for ix in range(len(scale))
             ]
             stacked = np.rollaxis(np.ma.dstack(planes), 2)
             return stacked
-- 
2.43.0


From 6080fbde231d489089d3189ca2633c67a8119dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:00 +0000
Subject: [PATCH 27/86] fix: scale arrays in place, and only once

---
 pdr/_scaling.py | 15 +++++++++------
 pdr/pdr.py      | 14 +++++++++++---
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 2faaae4..e7698ad 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -150,12 +150,15 @@ def _copy_scale(obj, offset, scale):
 
 
 def _inplace_scale(obj, offset, scale):
-    if len(obj) == len(scale) == len(offset) > 1:
-        for ix, _ in enumerate(scale):
-            obj[ix] = obj[ix] * scale[ix] + offset[ix]
-    else:
-        obj *= scale
-        obj += offset
+    try:
+        if len(obj) == len(scale) == len(offset) > 1:
+            for ix, _ in enumerate(scale):
+                obj[ix] = obj[ix] * scale[ix] + offset[ix]
+            return obj
+    except TypeError:
+        pass  # len() is not usable on a float object
+    obj *= scale
+    obj += offset
     return obj
 
 
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 854a8cb..05a7c9c 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -551,6 +551,9 @@ class Data:
                 f"{name} is already loaded; pass reload=True to "
                 f"force reload."
             )
+        # whatever we knew about an earlier version of this object is moot
+        self._scaleflags.pop(name, None)
+        self.specials.pop(name, None)
         if self.standard == "PDS4":
             return self._load_pds4(name)
         if self.standard == "FITS":
@@ -877,11 +880,11 @@ class Data:
         with attendant memory savings and destructiveness.
         """
         obj = self[object_name]
+        if self._scaleflags.get(object_name) is True:
+            return obj
         # avoid numpy import just for type check
         if obj.__class__.__name__ != "ndarray":
             raise TypeError("get_scaled is only applicable to arrays.")
-        if self._scaleflags.get(object_name) is True:
-            return obj
         if self.standard == "PDS4":
             from pdr._scaling import scale_pds4_tools_struct
 
@@ -906,7 +909,12 @@ class Data:
             )
         if self.specials[object_name] != {}:
             obj = mask_specials(obj, list(self.specials[object_name].values()))
-        return scale_array(self, obj, object_name, inplace, float_dtype)
+        obj = scale_array(self, obj, object_name, inplace, float_dtype)
+        if inplace is True:
+            # from now on, we hold the scaled array; do not scale it again
+            setattr(self, object_name, obj)
+            self._scaleflags[object_name] = True
+        return obj
 
     def find_special_constants(self, object_name: str) -> dict[str, Number]:
         """
-- 
2.43.0


From 4cd5eed919b0dd5be61eeeb13f960fcdc146795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:57 +0000
Subject: [PATCH 28/86] fix: combine per-plane scaling with offsets common to
 all planes

---
 pdr/_scaling.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index e7698ad..880e317 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -190,6 +190,12 @@ def scale_array(
         if isinstance(offset, str):
             if offset.strip().upper() in {"NULL", "N/A", ""}:
                 offset = 0
+    if isinstance(scale, (list, tuple)) != isinstance(offset, (list, tuple)):
+        # one of these is stated per plane, the other for all planes
+        if isinstance(scale, (list, tuple)):
+            offset = [offset] * len(scale)
+        else:
+            scale = [scale] * len(offset)
     # meaningfully better for enormous unscaled arrays
     if (scale == 1) and (offset == 0):
         return obj
-- 
2.43.0


From 4ef162e8f16c8d48362d434e0d3240d1f66f2445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:38 +0000
Subject: [PATCH 29/86] fix: mask several special constants of one PDS4 array

---
 pdr/_scaling.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 880e317..06c78c5 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -217,13 +217,10 @@ def scale_array(
 def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     """see pds4_tools.reader.read_arrays.new_array"""
     # TODO: apply bit_mask
-    from pdr.pds4_tools.reader.data_types import (
-        apply_scaling_and_value_offset,
-        mask_special_constants,
-    )
+    from pdr.pds4_tools.reader.data_types import apply_scaling_and_value_offset
 
-    # these functions may work in-place; leave the structure's data alone
-    array = struct.data.copy()
+    # this function may work in-place; leave the structure's data alone
+    array = np.array(struct.data)
     element_array = struct.meta_data["Element_Array"]
     scale_kwargs = {
         "scaling_factor": element_array.get("scaling_factor"),
@@ -233,8 +230,14 @@ def scale_pds4_tools_struct(struct: object) -> np.ndarray:
     #     dtype = pds_to_numpy_type(struct.meta_data.data_type(),
     #     data=array, **scale_kwargs)
     special_constants = struct.meta_data.get("Special_Constants")
-    # apply_scaling_and_value_offset() only masks arrays it has to scale
-    array = mask_special_constants(array, special_constants=special_constants)
+    # apply_scaling_and_value_offset() only masks arrays it has to scale, and
+    # chokes on more than one special constant
+    if special_constants is not None:
+        masked = mask_specials(
+            array,
+            [v for k, v in special_constants.items() if k[:6] != "valid_"]
+        )
+        array = masked if masked.mask.any() else array
     array = apply_scaling_and_value_offset(array, **scale_kwargs)
     if hasattr(array, "mask"):
         return np.ma.masked_array(np.asarray(array.data), array.mask)
-- 
2.43.0


From 6be36f94cc48f85ce7210c400a3baec44cb7fc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 30/86] fix: convert IBM reals in images and qubes, and VAX
 reals whose type name is spelled with a space

---
 pdr/loaders/image.py   | 11 +++++++++--
 pdr/loaders/queries.py | 15 +++++++++++++--
 pdr/np_utils.py        | 21 +++++++++++++++++++++
 pdr/pdrtypes.py        |  2 ++
 4 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index 2b2218c..d7ade84 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -10,7 +10,9 @@ import numpy as np
 import vax
 
 from pdr.loaders.queries import get_image_properties
-from pdr.np_utils import make_c_contiguous, np_from_buffered_io
+from pdr.np_utils import (
+    make_c_contiguous, np_from_buffered_io, unpack_ibm_reals
+)
 from pdr.pdrtypes import ImageProps, DataIdentifiers
 from pdr.utils import decompress
 
@@ -77,9 +79,14 @@ def extract_single_band_linefix(
 
 
 def convert_if_vax(image: np.ndarray, props: dict) -> np.ndarray:
-    """If an array is in 32-bit VAX real format, convert it to 32-bit float."""
+    """
+    If an array is in 32-bit VAX real format, convert it to 32-bit float; if
+    it is in IBM real format, convert it to 32- or 64-bit float.
+    """
     if props.get('is_vax_real') is True:
         return vax.from_vax32(image)
+    if props.get('is_ibm_real') is True:
+        return unpack_ibm_reals(image)
     return image
 
 
diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 52b0c38..5827878 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -41,6 +41,11 @@ if TYPE_CHECKING:
     )
 
 
+def is_sample_type(stated: Optional[str], sample_type: str) -> bool:
+    """Is this stated sample type, however spelled, that sample type?"""
+    return str(stated).replace(" ", "_") == sample_type
+
+
 def generic_qube_properties(
     block: MultiDict, band_storage_type: BandStorageType
 ) -> ImageProps:
@@ -51,7 +56,11 @@ def generic_qube_properties(
     props["sample_type"] = sample_types(
         use_block["CORE_ITEM_TYPE"], props["BYTES_PER_PIXEL"], for_numpy=True
     )
-    props["is_vax_real"] = use_block["CORE_ITEM_TYPE"] == "VAX_REAL"
+    props["is_vax_real"] = is_sample_type(
+        use_block["CORE_ITEM_TYPE"], "VAX_REAL"
+    )
+    if is_sample_type(use_block["CORE_ITEM_TYPE"], "IBM_REAL"):
+        props["is_ibm_real"] = True
     if "AXIS_NAME" in set(block.keys()).union(use_block.keys()):
         props['axnames'] = block.get("AXIS_NAME")
         if props['axnames'] is None:
@@ -226,11 +235,13 @@ def generic_image_properties(block: MultiDict, sample_type: str) -> ImageProps:
         # TODO: BYTES_PER_PIXEL check appears repeated with slight variation
         #  from base_sample_info()
         "BYTES_PER_PIXEL": int(block["SAMPLE_BITS"] / 8),
-        "is_vax_real": block.get("SAMPLE_TYPE") == "VAX_REAL",
+        "is_vax_real": is_sample_type(block.get("SAMPLE_TYPE"), "VAX_REAL"),
         "sample_type": sample_type,
         "nrows": block["LINES"],
         "ncols": block["LINE_SAMPLES"],
     }
+    if is_sample_type(block.get("SAMPLE_TYPE"), "IBM_REAL"):
+        props["is_ibm_real"] = True
     if "BANDS" in block:
         props["nbands"] = block["BANDS"]
         props["band_storage_type"] = block.get("BAND_STORAGE_TYPE", None)
diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 4d79aed..8805209 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -132,3 +132,24 @@ def ibm64_to_np_f64(ibm):
     unsigned integers) to numpy float64.
     """
     return ibm_to_np(ibm, 63, 56, 0x00ffffffffffffff)
+
+
+def unpack_ibm_reals(packed: np.ndarray) -> np.ndarray:
+    """
+    Convert an array of IBM System 360-style 32- or 64-bit floats (expressed
+    as unsigned integers of that width) to numpy float32 or float64.
+    """
+    if packed.dtype.itemsize != 4:
+        # IBM longs just get more precise, not wider-ranged, so we don't need
+        # to check for longlong or anything like that
+        return ibm64_to_np_f64(packed)
+    converted = ibm32_to_np_f32(packed)
+    # IBM shorts are wider-range than IEEE shorts; check if we can
+    # safely cast them back down to float32
+    nonzero = abs(converted[converted != 0])
+    limits = np.finfo(np.float32)
+    if nonzero.size == 0 or (
+        nonzero.max() <= limits.max and nonzero.min() >= limits.tiny
+    ):
+        converted = converted.astype(np.float32)
+    return converted
diff --git a/pdr/pdrtypes.py b/pdr/pdrtypes.py
index 30738c1..dd2de3a 100644
--- a/pdr/pdrtypes.py
+++ b/pdr/pdrtypes.py
@@ -55,6 +55,8 @@ class ImageProps(TypedDict):
     BYTES_PER_PIXEL: Literal[1, 2, 4, 8]
     # Do the elements of the array, when loaded, represent VAX reals?
     is_vax_real: bool
+    # Do they represent IBM reals?
+    is_ibm_real: bool
     # numpy dtype string
     sample_type: str
     # total number of elements
-- 
2.43.0


From 7ba48a3ad67dda947f2543d2dd2bdafd1d5b0dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 31/86] fix: do not read samples that are not a whole number of
 bytes wide as narrower ones

---
 pdr/loaders/queries.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 5827878..50b1b20 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -220,8 +220,13 @@ def im_sample_type(base_samp_info: dict) -> str:
 
 def base_sample_info(block: MultiDict) -> dict:
     """Determine basic sample-level type info for an image object."""
+    sample_bytes = block.get("SAMPLE_BITS", 0) / 8
+    if sample_bytes == int(sample_bytes):
+        sample_bytes = int(sample_bytes)
+    # samples that don't fill whole bytes keep a fractional width, which
+    # `sample_types()` does not support
     return {
-        "BYTES_PER_PIXEL": int(block.get("SAMPLE_BITS", 0) / 8),
+        "BYTES_PER_PIXEL": sample_bytes,
         "SAMPLE_TYPE": block.get("SAMPLE_TYPE", ""),
     }
 
-- 
2.43.0


From f1f78dcc9625cf33713fafc9e3e54b0d1f97dc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:58 +0000
Subject: [PATCH 32/86] fix: convert the largest VAX reals instead of giving
 infinities and NaNs

---
 pdr/loaders/image.py |  5 ++---
 pdr/np_utils.py      | 14 ++++++++++++++
 pdr/pd_utils.py      |  8 ++++----
 3 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/pdr/loaders/image.py b/pdr/loaders/image.py
index d7ade84..74023f0 100644
--- a/pdr/loaders/image.py
+++ b/pdr/loaders/image.py
@@ -7,11 +7,10 @@ from typing import Optional
 import warnings
 
 import numpy as np
-import vax
 
 from pdr.loaders.queries import get_image_properties
 from pdr.np_utils import (
-    make_c_contiguous, np_from_buffered_io, unpack_ibm_reals
+    make_c_contiguous, np_from_buffered_io, unpack_ibm_reals, vax32_to_np_f32
 )
 from pdr.pdrtypes import ImageProps, DataIdentifiers
 from pdr.utils import decompress
@@ -84,7 +83,7 @@ def convert_if_vax(image: np.ndarray, props: dict) -> np.ndarray:
     it is in IBM real format, convert it to 32- or 64-bit float.
     """
     if props.get('is_vax_real') is True:
-        return vax.from_vax32(image)
+        return vax32_to_np_f32(image)
     if props.get('is_ibm_real') is True:
         return unpack_ibm_reals(image)
     return image
diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index 8805209..eebe760 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -153,3 +153,17 @@ def unpack_ibm_reals(packed: np.ndarray) -> np.ndarray:
     ):
         converted = converted.astype(np.float32)
     return converted
+
+
+def vax32_to_np_f32(packed: np.ndarray) -> np.ndarray:
+    """
+    Convert an array of VAX F_floats (expressed as little-endian 32-bit
+    unsigned integers) to numpy float32. Unlike `vax.from_vax32()`, this also
+    converts the largest ones (those with exponent field 255).
+    """
+    swapped = packed << 16 | packed >> 16
+    exponent = (swapped >> 23 & 0xff).astype('int16')
+    mantissa = (swapped & 0x7fffff | 0x800000) / 2 ** 24
+    mantissa[exponent == 0] = 0
+    sign = 1 - 2 * (swapped >> 31).astype('int8')
+    return (sign * np.ldexp(mantissa, exponent - 128)).astype(np.float32)
diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 59a8c6c..9db9149 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -12,12 +12,12 @@ from more_itertools import divide
 import numpy as np
 import pandas as pd
 import pandas.api.types
-import vax
 
 from pdr.datatypes import sample_types
 from pdr.formats import check_special_sample_type
 from pdr.np_utils import (
-    enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64
+    enforce_order_and_object, ibm32_to_np_f32, ibm64_to_np_f64,
+    vax32_to_np_f32
 )
 
 if TYPE_CHECKING:
@@ -368,8 +368,8 @@ def convert_vax_reals(data: pd.DataFrame, properties: pd.DataFrame) -> pd.DataFr
     for _, field in properties.iterrows():
         if not re.match(r'VAX.*REAL', field['DATA_TYPE']):
             continue
-        func = vax.from_vax32  # TODO: if field['BYTES'] == 4 else vax.from_vax64
-        converted = func(data[field['NAME']].values)
+        # TODO: if field['BYTES'] == 4 else vax.from_vax64
+        converted = vax32_to_np_f32(data[field['NAME']].values)
         reals[field['NAME']] = converted
     for k, v in reals.items():
         data[k] = v
-- 
2.43.0


From 5bdbfdb85b0f7a54fe13e41aa0231dbde09870b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 33/86] fix: order the parts of little-endian bit strings that
 are not 1, 2, 4 or 8 bytes wide by significance

---
 pdr/bit_handling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index baeb33a..b30fa6c 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -103,6 +103,9 @@ def convert_byte_column_to_bits(
             # make sure they're fixed-length
             .str.zfill(dtype[rec_ix].itemsize * 8)
         )
+    if byte_order == "<":
+        # the least significant part of a little-endian value comes first
+        bit_series.reverse()
     # TODO: should probably be a single pd.concat operation
     bits = reduce(add, bit_series)
     return bits
-- 
2.43.0


From 590f723107576dd2be3d738222faad52b890f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 34/86] fix: respect ITEM_OFFSET of repeated bit columns

---
 pdr/bit_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index b30fa6c..93f797b 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -207,9 +207,11 @@ def get_bit_start_and_size(
         if pvl_obj.get("ITEMS"):
             items = pvl_obj.get("ITEMS")
             item_bits = pvl_obj.get("ITEM_BITS")
+            # distance between the starts of consecutive items
+            item_offset = pvl_obj.get("ITEM_OFFSET", item_bits)
             first_item_start_bit = pvl_obj.get("START_BIT")
             for item_index in range(items):
-                start_bit = first_item_start_bit + item_index * item_bits
+                start_bit = first_item_start_bit + item_index * item_offset
                 start_bit_list.append(start_bit)
                 bit_size_list.append(item_bits)
         else:
-- 
2.43.0


From 090ac0729c7737f7a02064358a33a6ea6a19481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 35/86] fix: read boolean bit columns in the byte order of
 their column

---
 pdr/bit_handling.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/bit_handling.py b/pdr/bit_handling.py
index 93f797b..3563333 100644
--- a/pdr/bit_handling.py
+++ b/pdr/bit_handling.py
@@ -168,9 +168,12 @@ def set_bit_string_data_type(
     is_special, special_dtype = check_special_bit_column_case(identifiers)
     if is_special is False:
         try:
-            byteorder = sample_types(
-                obj["BIT_COLUMN"]["BIT_DATA_TYPE"], 1, True
-            )[0]
+            bit_type = obj["BIT_COLUMN"]["BIT_DATA_TYPE"]
+            if bit_type == "BOOLEAN":
+                # has no byte order of its own
+                byteorder = determine_byte_order(obj["DATA_TYPE"])
+            else:
+                byteorder = sample_types(bit_type, 1, True)[0]
         except (KeyError, ValueError):
             raise ValueError("Incompatible data type for bit columns.")
         if byteorder == ">":
-- 
2.43.0


From 6ee1e88c759e7616aba292e8a105672179821221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 36/86] fix: do not apply the JIRAM bit column correction to
 products without an INSTRUMENT_NAME

---
 pdr/formats/checkers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 7002d8c..184b914 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -770,7 +770,7 @@ def check_special_bit_start_case(
     Special case checker used by get_bit_start_and_size() to fix
     incorrectly-defined bit offsets.
     """
-    if identifiers["INSTRUMENT_NAME"] in "JOVIAN INFRARED AURORAL MAPPER":
+    if identifiers["INSTRUMENT_NAME"] == "JOVIAN INFRARED AURORAL MAPPER":
         return formats.juno.bit_start_find_and_fix(
             list_of_pvl_objects_for_bit_columns, start_bit_list
         )
-- 
2.43.0


From 8d22a85f778b8f57b3c8d2612f308f54860e78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 37/86] fix: find text tables and headers of stream files by
 line when they are pointed to by record

---
 pdr/loaders/queries.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 50b1b20..1e7f9e7 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -29,7 +29,9 @@ from pdr.loaders._helpers import (
 )
 from pdr.loaders.handlers import add_bit_column_info
 from pdr.parselabel.pds3 import pointerize, read_pvl, STRUCTUREPAT
-from pdr.utils import append_repeated_object, check_cases, find_repository_root
+from pdr.utils import (
+    append_repeated_object, check_cases, decompress, find_repository_root
+)
 
 if TYPE_CHECKING:
     from pdr.loaders.astrowrap.fits import HDUList
@@ -409,6 +411,15 @@ def get_hdulist(fn):
         return fits.open(fn)
 
 
+def _line_start_byte(fn: Union[str, list, Path], line: int) -> int:
+    """
+    Find the first byte of a (1-indexed) line of a file. The records of STREAM
+    files are lines.
+    """
+    with decompress(fn[0] if isinstance(fn, list) else fn) as f:
+        return sum(len(next(f)) for _ in range(line - 1))
+
+
 def data_start_byte(
     identifiers: DataIdentifiers, block: Mapping, target, fn
 ) -> int:
@@ -427,12 +438,17 @@ def data_start_byte(
             start_byte = 0
         elif record_bytes not in [None, ""]:
             start_byte = record_bytes * max(target - 1, 0)
-        elif "ROWS" in block.keys():
+        elif "ROWS" in block.keys() and "ROW_BYTES" in block.keys():
             rows = block["ROWS"]
             row_bytes = block["ROW_BYTES"]
             start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
+        elif identifiers.get("RECORD_TYPE") == "STREAM":
+            start_byte = _line_start_byte(fn, target)
     elif isinstance(target, dict):
-        start_byte = quantity_start_byte(target, record_bytes)
+        if target["units"] == "BYTES" or record_bytes not in [None, ""]:
+            start_byte = quantity_start_byte(target, record_bytes)
+        elif identifiers.get("RECORD_TYPE") == "STREAM":
+            start_byte = _line_start_byte(fn, target["value"])
     elif isinstance(target, str):
         start_byte = 0
     if start_byte is not None:
@@ -465,6 +481,9 @@ def _table_row_position(
     A return value of None for `length` implies that the table occupies the
     entirety of the file including and after `start`.
     """
+    if isinstance(target, (int, dict)):
+        # the table is in the same file as its label
+        target = (None, target)
     if isinstance(target[1], dict):
         # noinspection PyTypeChecker
         start = target[1]["value"] - 1
@@ -492,7 +511,7 @@ def _table_length(block, identifiers, n_records):
             elif "ROW_BYTES" in block.keys():
                 record_length = block["ROW_BYTES"]
                 record_length += block.get("ROW_SUFFIX_BYTES", 0)
-            elif identifiers["RECORD_BYTES"] is not None:
+            elif identifiers["RECORD_BYTES"] not in (None, ""):
                 # TODO, probably, and applicable many more places than here:
                 #  ideally we don't use identifiers for anything but special
                 #  case checks.
-- 
2.43.0


From e9a5ce31ed0ce8af2fbfa5324b315d36a323666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:03 +0000
Subject: [PATCH 38/86] fix: read blank-padded numeric fields of delimited
 tables as missing, not as text

---
 pdr/loaders/table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 94a4a05..b46225e 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -143,7 +143,9 @@ def _read_as_delimited(
     Attempt to read an ASCII table as a delimiter-separated file. We always
     try this first before moving to a fixed-width parser.
     """
-    table = pd.read_csv(string_buffer, sep=sep, header=None)
+    table = pd.read_csv(
+        string_buffer, sep=sep, header=None, skipinitialspace=True
+    )
     # TODO: adding this 'PLACEHOLDER' check has allowed many tables to use
     #  read_csv() instead of read_fwf(), which is generally preferable
     #  because read_fwf() is very slow. This may also be able to invalidate
-- 
2.43.0


From 2d7ec8faacbf395e1138c1ddf7480c8bd0fcde30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:02 +0000
Subject: [PATCH 39/86] fix: find records of stream files with any line endings

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 1e7f9e7..c0642b2 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -417,7 +417,7 @@ def _line_start_byte(fn: Union[str, list, Path], line: int) -> int:
     files are lines.
     """
     with decompress(fn[0] if isinstance(fn, list) else fn) as f:
-        return sum(len(next(f)) for _ in range(line - 1))
+        return sum(map(len, f.read().splitlines(keepends=True)[:line - 1]))
 
 
 def data_start_byte(
-- 
2.43.0


From 94dcaa7971aad2d952dc9c392825dd9280904575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:46 +0000
Subject: [PATCH 40/86] fix: place the elements of structured ARRAYs at the
 bytes their labels give

---
 pdr/loaders/queries.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index c0642b2..3cdf507 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -693,11 +693,25 @@ def parse_array_structure(
     # Sometimes ARRAYS give START_BYTE at top level; sometimes only their
     # elements do. We want to defer responsibility for figuring this out to
     # compute_offsets(). This satisfies its type expectations.
-    if "START_BYTE" in fmtdef.columns:
-        fmtdef['START_BYTE'].fillna(1, inplace=True)
+    import numpy as np
+    from pdr.pd_utils import compute_offsets, insert_sample_types_into_df
 
-    from pdr.pd_utils import insert_sample_types_into_df
-    return insert_sample_types_into_df(fmtdef, identifiers)
+    if "START_BYTE" in fmtdef.columns:
+        fmtdef['START_BYTE'] = fmtdef['START_BYTE'].fillna(1)
+        fmtdef = compute_offsets(fmtdef)
+    fmtdef, dt = insert_sample_types_into_df(fmtdef, identifiers)
+    # COLLECTIONs may end with bytes that belong to none of their elements
+    size = block.get("COLLECTION", {}).get("BYTES", 0)
+    if size > dt.itemsize:
+        dt = np.dtype(
+            {
+                "names": list(dt.names),
+                "formats": [dt.fields[n][0] for n in dt.names],
+                "offsets": [dt.fields[n][1] for n in dt.names],
+                "itemsize": size
+            }
+        )
+    return fmtdef, dt
 
 
 def create_placeholder_field(block_info, definition):
-- 
2.43.0


From 999cea5f9e4a6e0809e40173cba5808c71163f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:18 +0000
Subject: [PATCH 41/86] fix: convert the IBM and VAX reals of ARRAYs

---
 pdr/loaders/table.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index b46225e..7207586 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -15,8 +15,11 @@ import re
 from pdr import bit_handling
 from pdr.datatypes import sample_types
 from pdr.loaders._helpers import check_explicit_delimiter
-from pdr.loaders.queries import get_array_num_items
-from pdr.np_utils import np_from_buffered_io, enforce_order_and_object
+from pdr.loaders.queries import get_array_num_items, is_sample_type
+from pdr.np_utils import (
+    enforce_order_and_object, np_from_buffered_io, unpack_ibm_reals,
+    vax32_to_np_f32
+)
 from pdr.pd_utils import (
     booleanize_booleans, compute_offsets, convert_ebcdic, convert_ibm_reals,
     convert_vax_reals
@@ -39,15 +42,19 @@ def read_array(fn, block, start_byte, fmtdef_dt):
     Read an array object from this product and return it as a numpy array.
     """
     if block.get("INTERCHANGE_FORMAT") == "BINARY":
-        _, dt = fmtdef_dt
+        fmtdef, dt = fmtdef_dt
         count = get_array_num_items(block)
         with decompress(fn) as f:
             array = np_from_buffered_io(
                 f,
-                dtype=dt,
+                dtype=np.dtype(dt),
                 count=count,
                 offset=start_byte,
             )
+        if fmtdef is None and is_sample_type(block["DATA_TYPE"], "IBM_REAL"):
+            array = unpack_ibm_reals(array)
+        elif fmtdef is None and is_sample_type(block["DATA_TYPE"], "VAX_REAL"):
+            array = vax32_to_np_f32(array)
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
     with open(fn) as stream:
-- 
2.43.0


From 1584a824a30721a27a09f799191033deab174d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:50 +0000
Subject: [PATCH 42/86] fix: read ASCII ARRAYs where they start, exponents
 included

---
 pdr/loaders/table.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 7207586..4417590 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -57,18 +57,20 @@ def read_array(fn, block, start_byte, fmtdef_dt):
             array = vax32_to_np_f32(array)
         return array.reshape(block["AXIS_ITEMS"])
     # assume objects without the optional interchange_format key are ascii
-    with open(fn) as stream:
-        text = stream.read()
-    try:
-        text = tuple(map(float, re.findall(r"[+-]?\d+\.?\d*", text)))
-    except (TypeError, IndexError, ValueError):
-        text = re.split(r"\s+", text)
-    array = np.asarray(text).reshape(block["AXIS_ITEMS"])
-    if "DATA_TYPE" in block.keys():
-        array = array.astype(
-            sample_types(block["DATA_TYPE"], block["BYTES"], True)
-        )
-    return array
+    with decompress(fn) as f:
+        f.seek(start_byte)
+        text = f.read().decode("ISO-8859-1")
+    numbers = re.findall(r"[+-]?(?:\d+\.?\d*|\.\d+)(?:[Ee][+-]?\d+)?", text)
+    # there may be other things in the file after the array
+    numbers = numbers[:get_array_num_items(block)]
+    data_type = block.get("DATA_TYPE", "ASCII_REAL")
+    if data_type == "ASCII_INTEGER":
+        array = np.asarray(tuple(map(int, numbers)))
+    else:
+        array = np.asarray(tuple(map(float, numbers)))
+    if not data_type.startswith("ASCII"):
+        array = array.astype(sample_types(data_type, block["BYTES"], True))
+    return array.reshape(block["AXIS_ITEMS"])
 
 
 def _drop_placeholders(table: pd.DataFrame) -> pd.DataFrame:
-- 
2.43.0


From d69787c71d1cd1d28960f00d914b5994b05f2c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 43/86] fix: read text objects from compressed files

---
 pdr/loaders/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/text.py b/pdr/loaders/text.py
index 58cd558..b01e382 100644
--- a/pdr/loaders/text.py
+++ b/pdr/loaders/text.py
@@ -135,5 +135,5 @@ def ignore_if_pdf(fn: Union[str, Path]) -> Optional[str]:
     if looks_like_this_kind_of_file(fn, [".pdf"]):
         warnings.warn(f"Cannot open {fn}; PDF files are not supported.")
         return
-    # TODO: should use a context manager to avoid dangling file handles
-    return open(check_cases(fn)).read()
+    with decompress(check_cases(fn)) as f:
+        return TextIOWrapper(f).read()
-- 
2.43.0


From f603298ec769840b3ac0fe27c5e2f5a0a393ebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 44/86] fix: measure compressed files by their contents

---
 pdr/loaders/_helpers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/loaders/_helpers.py b/pdr/loaders/_helpers.py
index 7c10a37..0c6aaee 100644
--- a/pdr/loaders/_helpers.py
+++ b/pdr/loaders/_helpers.py
@@ -9,6 +9,8 @@ from typing import Any, Callable, Optional, Union, TYPE_CHECKING
 from cytoolz import curry
 from multidict import MultiDict
 
+from pdr.utils import decompress
+
 if TYPE_CHECKING:
     from pdr.pdrtypes import DataIdentifiers, PhysicalTarget
 
@@ -61,7 +63,8 @@ def count_from_bottom_of_file(
     tab_size = rows * row_bytes
     if isinstance(fn, list):
         fn = fn[0]
-    return os.path.getsize(Path(fn)) - tab_size
+    with decompress(fn) as f:
+        return f.seek(0, os.SEEK_END) - tab_size
 
 
 def _check_delimiter_stream(
-- 
2.43.0


From b115eed33d93abc55d0153c4d808550e575acc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 45/86] fix: read incomplete compressed files like uncompressed
 ones

---
 pdr/np_utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pdr/np_utils.py b/pdr/np_utils.py
index eebe760..b9c646e 100644
--- a/pdr/np_utils.py
+++ b/pdr/np_utils.py
@@ -82,9 +82,12 @@ def np_from_buffered_io(
     if isinstance(buffered_io, (BZ2File, ZipExtFile, GzipFile, BytesIO)):
         # we need to read the appropriate amount into a new buffer, especially
         # if it's monolithically compressed
+        dtype = np.dtype(dtype)
         n_bytes = None if count is None else count * dtype.itemsize
-        stream = BytesIO(buffered_io.read(n_bytes))
-        return np.frombuffer(stream.getbuffer(), dtype=dtype)
+        buffer = BytesIO(buffered_io.read(n_bytes)).getbuffer()
+        # like np.fromfile(), ignore incomplete elements at the end of the file
+        count = len(buffer) // dtype.itemsize
+        return np.frombuffer(buffer, dtype=dtype, count=count)
     count = -1 if count is None else count
     # In this case, buffered_io is just an open file stream
     return np.fromfile(buffered_io, dtype=dtype, count=count)
-- 
2.43.0


From 8f8b09035abe0c3d73f3f4201b9ccd48f1f76c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 46/86] fix: open FITS files that have cards astropy cannot
 parse

---
 pdr/loaders/handlers.py | 46 +++++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 18 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a413377..162176a 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -81,22 +81,7 @@ def handle_fits_file(
             # cases where HDUs are named things like "IMAGE HEADER"
             and name not in [h[1] for h in hdulist.info(False)]
         )
-    try:
-        hdr_val = handle_fits_header(hdulist, hdu_ix)
-    # astropy.io.fits does not call any verification on read. on 'output'
-    # tasks -- which iterating over header cards (sometimes) counts as, and
-    # which we have to do in order to place the header content into our
-    # preferred data structure -- it does call verification at the strictest
-    # settings, resulting in delayed exceptions. However, we do not want to
-    # automatically run every fix, because astropy's fixes can be quite slow
-    # on large, complicated headers. So, if and when astropy decides something
-    # is too invalid to show us, tell it to fix it.
-    except fits.VerifyError:
-        try:
-            hdulist.verify('silentfix')
-            hdr_val = handle_fits_header(hdulist, hdu_ix)
-        except (fits.VerifyError, ValueError):  # real messed up
-            hdr_val = handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+    hdr_val = handle_messy_fits_header(hdulist, hdu_ix)
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
@@ -259,6 +244,31 @@ def handle_fits_header(
     return output_hdr
 
 
+def handle_messy_fits_header(hdulist: HDUList, hdu_ix: int) -> MultiDict:
+    """
+    Load the header of a specified HDU, even if astropy considers some of its
+    cards illegal.
+    """
+    from astropy.io import fits
+
+    try:
+        return handle_fits_header(hdulist, hdu_ix)
+    # astropy.io.fits does not call any verification on read. on 'output'
+    # tasks -- which iterating over header cards (sometimes) counts as, and
+    # which we have to do in order to place the header content into our
+    # preferred data structure -- it does call verification at the strictest
+    # settings, resulting in delayed exceptions. However, we do not want to
+    # automatically run every fix, because astropy's fixes can be quite slow
+    # on large, complicated headers. So, if and when astropy decides something
+    # is too invalid to show us, tell it to fix it.
+    except fits.VerifyError:
+        try:
+            hdulist.verify('silentfix')
+            return handle_fits_header(hdulist, hdu_ix)
+        except (fits.VerifyError, ValueError):  # real messed up
+            return handle_fits_header(hdulist, hdu_ix, skip_bad_cards=True)
+
+
 # TODO: shouldn't be in this module
 def add_bit_column_info(
     obj: dict,
@@ -309,12 +319,12 @@ def unpack_fits_headers(
     for name, group in namegroups.items():
         if len(group) == 1:
             hdu_ix = group[0][0]
-            headerdict.add(name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(name, handle_messy_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
         for ix, hdu in enumerate(group):
             hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
-            headerdict.add(hdu_name, handle_fits_header(hdulist, hdu_ix))
+            headerdict.add(hdu_name, handle_messy_fits_header(hdulist, hdu_ix))
             hdumap[hdu_name] = hdu_ix
     params = []
     for hdu_name in headerdict.keys():
-- 
2.43.0


From 740a7fa75f920e605088ae66b91ae460fc292641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 47/86] fix: give every HDU of a FITS file a name of its own

---
 pdr/loaders/handlers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 162176a..a5ddaa9 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -6,6 +6,7 @@ libraries that provide high-level support for specific file formats, including
 
 from __future__ import annotations
 
+from itertools import count
 from typing import Optional, TYPE_CHECKING, Union
 import warnings
 
@@ -322,8 +323,12 @@ def unpack_fits_headers(
             headerdict.add(name, handle_messy_fits_header(hdulist, hdu_ix))
             hdumap[name] = hdu_ix
             continue
-        for ix, hdu in enumerate(group):
-            hdu_ix, hdu_name = hdu[0], f'{name}_{ix}'
+        suffixes = count()
+        for hdu in group:
+            hdu_ix, hdu_name = hdu[0], f'{name}_{next(suffixes)}'
+            # don't reuse a name that belongs to another HDU
+            while hdu_name in namegroups or hdu_name in hdumap:
+                hdu_name = f'{name}_{next(suffixes)}'
             headerdict.add(hdu_name, handle_messy_fits_header(hdulist, hdu_ix))
             hdumap[hdu_name] = hdu_ix
     params = []
-- 
2.43.0


From 46f3ad80b872af4b94b525efce6fc3a0b8eb22ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 48/86] fix: keep FITS HDUs and the headers of other HDUs
 apart, and load headers again

---
 pdr/loaders/handlers.py |  9 +--------
 pdr/pdr.py              | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index a5ddaa9..69adff7 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -74,14 +74,7 @@ def handle_fits_file(
         hdu_ix, is_header = objrec['ix'], objrec['part'] == 'header'
     else:
         # this is the case when dealing with a FITS file in 'primary' mode.
-        # This is a little sloppy, but it is more convenient to handle certain
-        # things upstream. may want to collapse the two cases at some point.
-        hdu_ix = hdu_id
-        is_header = (
-            "HEADER" in name
-            # cases where HDUs are named things like "IMAGE HEADER"
-            and name not in [h[1] for h in hdulist.info(False)]
-        )
+        hdu_ix, is_header = hdu_id, False
     hdr_val = handle_messy_fits_header(hdulist, hdu_ix)
     if is_header is True:
         return {name: hdr_val}
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 05a7c9c..fb2c405 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -637,19 +637,28 @@ class Data:
 
     def _load_primary_fits(
         self, object_name: str
-    ) -> Union[np.ndarray, pd.DataFrame, None]:
+    ) -> dict[str, Union[MultiDict, np.ndarray, pd.DataFrame]]:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
+        # the headers of HDUs we've loaded are objects in their own right
+        # (but an HDU might have a name like that as well)
+        hdu_name = object_name
+        if object_name not in self._hdumap:
+            hdu_name = object_name.removesuffix("_HEADER")
         obj = handle_fits_file(
             self.filename,
-            object_name,
-            self._hdumap[object_name],
+            hdu_name,
+            self._hdumap[hdu_name],
             self._hdulist,
             hdu_id_is_index=True
         )
-        if obj.__class__.__name__ == "ndarray":
-            self._scaleflags[object_name] = True
+        if object_name != hdu_name:
+            return {object_name: obj[object_name]}
+        if f"{hdu_name}_HEADER" in self._hdumap:
+            obj.pop(f"{hdu_name}_HEADER")
+        if obj[hdu_name].__class__.__name__ == "ndarray":
+            self._scaleflags[hdu_name] = True
         return obj
 
     def _init_primary_format(self):
-- 
2.43.0


From 9907abce0f0660fc9fc8ba7536d14f3fb004cc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:53 +0000
Subject: [PATCH 49/86] fix: read FITS HDUs from the file again when they are
 loaded again

---
 pdr/pdr.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index fb2c405..8135e5d 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -268,6 +268,8 @@ class Data:
         # cache for hdulist, for primary FITS files -- this is primarily
         # an optimization for compressed files
         self._hdulist = None
+        # indices of HDUs that have been read from that hdulist
+        self._hdus_read = set()
         # dict of [str, int] for HDU name / position in primary FITS files,
         # for reindexing duplicates and efficiency
         self._hdumap = None
@@ -646,10 +648,19 @@ class Data:
         hdu_name = object_name
         if object_name not in self._hdumap:
             hdu_name = object_name.removesuffix("_HEADER")
+        hdu_ix = self._hdumap[hdu_name]
+        # HDUs hold on to the data they've read, which were handed out if this
+        # HDU was loaded before, and headers change when data are read; read
+        # them from the file again
+        if hdu_ix in self._hdus_read:
+            from astropy.io import fits
+
+            self._hdulist, self._hdus_read = fits.open(self.filename), set()
+        self._hdus_read.add(hdu_ix)
         obj = handle_fits_file(
             self.filename,
             hdu_name,
-            self._hdumap[hdu_name],
+            hdu_ix,
             self._hdulist,
             hdu_id_is_index=True
         )
-- 
2.43.0


From 5465373647632ba6ec1102d527d0efccbe669102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 50/86] fix: number repeated FITS column names apart from other
 columns, in ASCII tables too

---
 pdr/loaders/astrowrap.py |  2 +-
 pdr/loaders/handlers.py  | 19 ++++++++++++-------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/pdr/loaders/astrowrap.py b/pdr/loaders/astrowrap.py
index 751bc96..e86424f 100644
--- a/pdr/loaders/astrowrap.py
+++ b/pdr/loaders/astrowrap.py
@@ -1,7 +1,7 @@
 try:
     from astropy.io import fits
     from astropy.io.fits import HDUList
-    from astropy.io.fits.hdu import BinTableHDU
+    from astropy.io.fits.hdu import BinTableHDU, TableHDU
 except ImportError:
     raise ModuleNotFoundError(
         "Reading FITS files requires the optional astropy dependency."
diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index 69adff7..dd6575e 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -18,7 +18,7 @@ if TYPE_CHECKING:
     from astropy.io import fits
     import numpy as np
     import pandas as pd
-    from pdr.loaders.astrowrap import BinTableHDU, HDUList
+    from pdr.loaders.astrowrap import BinTableHDU, HDUList, TableHDU
     from pdr.pdrtypes import DataIdentifiers
 
 
@@ -79,9 +79,9 @@ def handle_fits_file(
     if is_header is True:
         return {name: hdr_val}
     output, hdu = {f"{name}_HEADER": hdr_val}, hdulist[hdu_ix]
-    # binary table HDUs with repeated column names break astropy -- it will not
+    # table HDUs with repeated column names break astropy -- it will not
     # actually afford the data unless we manipulate it first.
-    if isinstance(hdu, fits.BinTableHDU):
+    if isinstance(hdu, (fits.BinTableHDU, fits.TableHDU)):
         reindex_dupe_names(hdu)
     body = hdu.data
     if body is None:
@@ -140,9 +140,9 @@ def _convert_fits_table_to_df(
     return pd.DataFrame.from_records(body)
 
 
-def reindex_dupe_names(hdu: BinTableHDU):
+def reindex_dupe_names(hdu: Union[BinTableHDU, TableHDU]):
     """
-    Astropy cannot construct the .data attribute of a BinTableHDU if the table
+    Astropy cannot construct the .data attribute of a table HDU if the table
     has duplicate column names. This changes any duplicate column names in
     place following the same convention we use for PDS binary tables (appending
     incrementing integers).
@@ -151,8 +151,13 @@ def reindex_dupe_names(hdu: BinTableHDU):
     repeats = {n for n in names if names.count(n) > 1}
     for r in repeats:
         indices = [ix for ix, n in enumerate(names) if n == r]
-        for i, ix in enumerate(indices):
-            hdu.columns[ix].name += f"_{i}"
+        suffixes = count()
+        for ix in indices:
+            name = f"{r}_{next(suffixes)}"
+            # don't reuse a name that belongs to another column
+            while name in names:
+                name = f"{r}_{next(suffixes)}"
+            hdu.columns[ix].name = name
 
 
 def handle_compressed_image(
-- 
2.43.0


From af66b1320dca7444d29e735520c9150e2c35592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:33 +0000
Subject: [PATCH 51/86] fix: load the headers that came along with labeled FITS
 objects again

---
 pdr/pdr.py | 77 +++++++++++++++++++++++++++++++-----------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 8135e5d..ae73852 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -257,6 +257,9 @@ class Data:
         self.file_mapping = {}
         # known special constants per data object
         self.specials = {}
+        # dict of [str, str] for objects that aren't in the label and the object
+        # they came along with when we loaded it
+        self._inferred = {}
         # dict to flag images loaded prescaled (currently only from FITS files)
         self._scaleflags = {}
         # where can we look for files containing data objects?
@@ -556,17 +559,21 @@ class Data:
         # whatever we knew about an earlier version of this object is moot
         self._scaleflags.pop(name, None)
         self.specials.pop(name, None)
+        # some objects come along with another one (like FITS headers)
+        source = self._inferred.get(name, name)
         if self.standard == "PDS4":
-            return self._load_pds4(name)
+            return self._load_pds4(source, name)
         if self.standard == "FITS":
-            self._add_loaded_objects(self._load_primary_fits(name))
+            self._add_loaded_objects(
+                self._load_primary_fits(source), source, name
+            )
             return
         if self.standard in DESKTOP_IMAGE_STANDARDS:
             from pdr.loaders.handlers import handle_compressed_image
 
             if self.metaget("n_frames", 1) == 1:
                 self._add_loaded_objects(
-                    {name: handle_compressed_image(self.filename)}
+                    {name: handle_compressed_image(self.filename)}, name
                 )
                 return
             # TODO: hacky!
@@ -575,23 +582,23 @@ class Data:
             else:
                 seek = int(name.split("_")[-1])
             self._add_loaded_objects(
-                {name: handle_compressed_image(self.filename, seek)}
+                {name: handle_compressed_image(self.filename, seek)}, name
             )
             return
-        if self.file_mapping.get(name) is None:
-            target = self._target_path(name)
+        if self.file_mapping.get(source) is None:
+            target = self._target_path(source)
             if target is None:
-                return self._file_not_found(name)
-            self.file_mapping[name] = target
+                return self._file_not_found(source)
+            self.file_mapping[source] = target
         try:
-            obj = self.load_from_pointer(name, **load_kwargs)
+            obj = self.load_from_pointer(source, **load_kwargs)
             if obj is None:
                 return
             if not isinstance(obj, dict):
                 raise TypeError(
                     f"loader returned non-dict object of type ({type(obj)}"
                 )
-            self._add_loaded_objects(obj)
+            self._add_loaded_objects(obj, source, name)
             return
         except DebugExceptionPreempted:
             pass
@@ -605,13 +612,25 @@ class Data:
             warnings.warn(f"Unable to load {name}: {ex}")
         setattr(self, name, self.metaget_(name))
 
-    def _add_loaded_objects(self, obj: Mapping[str, Any]):
-        """Helper for `load()`. Ingests objects returned by a `Loader`."""
+    def _add_loaded_objects(
+        self, obj: Mapping[str, Any], source: str, name: Optional[str] = None
+    ):
+        """
+        Helper for `load()`. Ingests objects returned by a `Loader` for the
+        object `source`. If it was called to get just one of the objects that
+        come along with `source` (like its FITS header), `name` is the name of
+        that object.
+        """
         for k, v in obj.items():
-            if v is not None:
-                setattr(self, k, v)
-                if k not in self.index:
-                    self.index.append(k)
+            if v is None or (name not in (None, source) and k != name):
+                continue
+            if k not in self.index:
+                self.index.append(k)
+                self._inferred[k] = source
+            elif k != source and k not in self._inferred:
+                # this is the name of some other object
+                continue
+            setattr(self, k, v)
 
     def load_all(self):
         """Handler (and alias) for `Data.load("all")`."""
@@ -643,12 +662,7 @@ class Data:
         """Handle loading an HDU from a FITS file in "primary" FITS mode."""
         from pdr.loaders.handlers import handle_fits_file
 
-        # the headers of HDUs we've loaded are objects in their own right
-        # (but an HDU might have a name like that as well)
-        hdu_name = object_name
-        if object_name not in self._hdumap:
-            hdu_name = object_name.removesuffix("_HEADER")
-        hdu_ix = self._hdumap[hdu_name]
+        hdu_ix = self._hdumap[object_name]
         # HDUs hold on to the data they've read, which were handed out if this
         # HDU was loaded before, and headers change when data are read; read
         # them from the file again
@@ -659,17 +673,13 @@ class Data:
         self._hdus_read.add(hdu_ix)
         obj = handle_fits_file(
             self.filename,
-            hdu_name,
+            object_name,
             hdu_ix,
             self._hdulist,
             hdu_id_is_index=True
         )
-        if object_name != hdu_name:
-            return {object_name: obj[object_name]}
-        if f"{hdu_name}_HEADER" in self._hdumap:
-            obj.pop(f"{hdu_name}_HEADER")
-        if obj[hdu_name].__class__.__name__ == "ndarray":
-            self._scaleflags[hdu_name] = True
+        if obj[object_name].__class__.__name__ == "ndarray":
+            self._scaleflags[object_name] = True
         return obj
 
     def _init_primary_format(self):
@@ -735,11 +745,12 @@ class Data:
 
         return None
 
-    def _load_pds4(self, object_name: str):
+    def _load_pds4(self, object_name: str, name: Optional[str] = None):
         """
         Load this object however pds4_tools wants to load this object, then
         reformat to DataFrame, expose the array handle in accordance with our
-        type conventions, etc.
+        type conventions, etc. If `name` is an object that came along with
+        this object, get just that.
 
         If the object is from a FITS file, preempt all that behavior and send
         it to our internal FITS-loading workflow.
@@ -765,12 +776,12 @@ class Data:
                 structure.parent_filename, object_name, offset
             )
             if structure.is_header() is True:
-                return self._add_loaded_objects(result)
+                return self._add_loaded_objects(result, object_name)
             if (hid := self._find_fits_header_pds4_id(offset)) is not None:
                 result[hid] = result.pop(f"{object_name}_HEADER")
             if structure.is_array() is True:
                 self._scaleflags[object_name] = True
-            self._add_loaded_objects(result)
+            self._add_loaded_objects(result, object_name, name)
         elif structure.is_array():
             import numpy as np
 
-- 
2.43.0


From 60b1e8d4f5e1690ed5819b48a350b1674f7de3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:08 +0000
Subject: [PATCH 52/86] fix: apply PDS4 bit masks to signed data and around
 special constants that don't occur

---
 pdr/pds4_tools/reader/read_arrays.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_arrays.py b/pdr/pds4_tools/reader/read_arrays.py
index 4c80e7c..1f50655 100644
--- a/pdr/pds4_tools/reader/read_arrays.py
+++ b/pdr/pds4_tools/reader/read_arrays.py
@@ -104,18 +104,18 @@ def _apply_bitmask(data, bit_mask_string, special_constants=None):
     # which is what the PDS4 standard specifies.)
     bit_mask = int(bit_mask_string, 2)
 
-    # Mask Special_Constants values so that bit mask application does not affect them
-    non_masked = np.arange(0, len(data))
-    if special_constants is not None:
+    # Treat the data as unsigned, since the bit mask of a signed integer may include its sign bit
+    bits = data.view(data.dtype.str.replace('i', 'u'))
+    bit_mask = bits.dtype.type(bit_mask)
 
-        masked_data = mask_special_constants(data, special_constants=special_constants)
-        non_masked = np.where(masked_data.mask == False)
+    # Mask Special_Constants values so that bit mask application does not affect them
+    if special_constants is None:
+        bits &= bit_mask
 
-        del masked_data
+    else:
 
-    # Apply bit mask to each datum
-    for i in np.nditer(non_masked, flags=['zerosize_ok']):
-        data[i] &= bit_mask
+        masked_data = mask_special_constants(data, special_constants=special_constants)
+        bits[~np.ma.getmaskarray(masked_data)] &= bit_mask
 
 
 def new_array(input, no_scale=False, no_bitmask=False, masked=None, copy=True, **structure_kwargs):
-- 
2.43.0


From 1a8d2e146f7c26aa9bdf96dd89ad6982092487be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:20 +0000
Subject: [PATCH 53/86] fix: show empty values of PDS4 delimited tables as
 missing

---
 pdr/pd_utils.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pdr/pd_utils.py b/pdr/pd_utils.py
index 9db9149..fae0353 100644
--- a/pdr/pd_utils.py
+++ b/pdr/pd_utils.py
@@ -294,14 +294,39 @@ def rectified_rec_df(array: np.ndarray) -> pd.DataFrame:
     return pd.DataFrame.from_records(enforce_order_and_object(array))
 
 
+def hide_masked(df: pd.DataFrame, mask: pd.DataFrame) -> pd.DataFrame:
+    """
+    Set the elements of `df` for which `mask` is True to missing. Integers
+    become floats in columns with missing values if that does not alter them.
+    """
+    columns = []
+    for ix in range(len(df.columns)):
+        column, masked = df.iloc[:, ix], mask.iloc[:, ix].to_numpy()
+        if masked.any():
+            if (
+                column.dtype.kind in "iu" and column.dtype.itemsize == 8
+                and (column.astype(float).astype(object) != column).any()
+            ):
+                column = column.astype(object)
+            column = column.mask(masked)
+        columns.append(column)
+    return pd.concat(columns, axis=1)
+
+
 def structured_array_to_df(array: np.ndarray) -> pd.DataFrame:
     """
     Attempt to convert an ndarray with a structured dtype to a DataFrame,
     flattening any nested 1- or 2-D arrays into blocks of columns and
     typecasting as necessary for pandas compatibility. This does not attempt
     to flatten nested elements with dimensionality > 2, and will raise a
-    NotImplementedError if it encounters them.
+    NotImplementedError if it encounters them. Masked elements are missing
+    values of the DataFrame.
     """
+    if isinstance(array, np.ma.MaskedArray):
+        return hide_masked(
+            structured_array_to_df(np.asarray(array.data)),
+            structured_array_to_df(np.ma.getmaskarray(array))
+        )
     sub_dfs = []
     name_buffer = []
     for field in array.dtype.descr:
-- 
2.43.0


From 655e2e65c403e8318d2ced9c44bf63f7a759f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:47 +0000
Subject: [PATCH 54/86] fix: keep PDS4 field names that look like the names of
 unnamed groups

---
 pdr/pdr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index ae73852..ad2050a 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -790,8 +790,10 @@ class Data:
             from pdr.pd_utils import structured_array_to_df
 
             df = structured_array_to_df(structure.data)
-            df.columns = df.columns.str.replace(r"GROUP_?\d+", "", regex=True)
-            df.columns = df.columns.str.strip(", ")
+            # drop the names pds4_tools makes up for unnamed groups
+            df.columns = df.columns.str.replace(
+                r"(?:^|(?<=, ))GROUP_?\d+, ", "", regex=True
+            )
             setattr(self, object_name, df)
         # TODO: do other important cases exist?
         else:
-- 
2.43.0


From d86068bceda6aa9426f1bc1aa07862ac04272058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 55/86] fix: number PDS4 structures with the same name apart

---
 pdr/pdr.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index ad2050a..c3782c2 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -346,9 +346,14 @@ class Data:
         structure_list = pds4.read(
             self.labelname, lazy_load=True, quiet=True, no_scale=True
         )
-        for structure in structure_list.structures:
-            self._pds4_structures[structure.id.replace(" ", "_")] = structure
-            self.index.append(structure.id.replace(" ", "_"))
+        names = [s.id.replace(" ", "_") for s in structure_list.structures]
+        for ix, structure in enumerate(structure_list.structures):
+            name = names[ix]
+            if names.count(name) > 1:
+                # number structures with the same name apart
+                name = f"{name}_{names[:ix].count(name)}"
+            self._pds4_structures[name] = structure
+            self.index.append(name)
         self._pds4_structures["label"] = structure_list.label
         self.index.append("label")
 
-- 
2.43.0


From f742b1ec1220bbd872f9edd5e44743af816f8cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:02 +0000
Subject: [PATCH 56/86] fix: don't count uniformly sampled fields among the
 values of PDS4 delimited records

---
 pdr/pds4_tools/reader/read_tables.py   | 2 +-
 pdr/pds4_tools/reader/table_objects.py | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pdr/pds4_tools/reader/read_tables.py b/pdr/pds4_tools/reader/read_tables.py
index 91b5cc4..9e3ac0c 100644
--- a/pdr/pds4_tools/reader/read_tables.py
+++ b/pdr/pds4_tools/reader/read_tables.py
@@ -480,7 +480,7 @@ def _get_delimited_records_and_start_bytes(records, table_structure, table_manif
     # we ignore the record delimiter as its effectively escaped by being between bounding double quotes.
     num_columns = 0
 
-    for field in table_manifest.fields():
+    for field in table_manifest.fields(skip_uniformly_sampled=True):
 
         repetitions = []
         parent_idx = table_manifest.index(field)
diff --git a/pdr/pds4_tools/reader/table_objects.py b/pdr/pds4_tools/reader/table_objects.py
index 73043e4..3833dee 100644
--- a/pdr/pds4_tools/reader/table_objects.py
+++ b/pdr/pds4_tools/reader/table_objects.py
@@ -924,7 +924,9 @@ class TableManifest(collections_abc.Sequence):
                 break
 
             elif child_item.is_field():
-                offset_num += 1
+                # Uniformly_Sampled fields have no values in the record
+                if not isinstance(child_item, Meta_FieldUniformlySampled):
+                    offset_num += 1
 
             elif child_item.is_group():
 
-- 
2.43.0


From c8238b7ae0b526290bcc73d7203901e99c6143fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:59 +0000
Subject: [PATCH 57/86] fix: don't wrap around when rendering 32/64-bit
 integers, and render booleans

---
 pdr/browsify.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 7c21d12..198f858 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -277,9 +277,9 @@ def _render_array(
             "Rendering browse images requires the optional pillow dependency."
         )
 
-    # upcast integer data types < 32-bit to prevent unhelpful wraparound
-    if (obj.dtype.char in np.typecodes["AllInteger"]) and (obj.itemsize <= 2):
-        obj = obj.astype(np.int32)
+    # upcast integer (and boolean) data types to prevent unhelpful wraparound
+    if obj.dtype.char in np.typecodes["AllInteger"] + "?":
+        obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.float64)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From abe4d4909b62b57bd6c1726c2c5520af9040f35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:02 +0000
Subject: [PATCH 58/86] fix: normalize browse images that are too uniform to be
 clipped

---
 pdr/browsify.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 198f858..1d1794f 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -88,7 +88,9 @@ def normalize_range(
     else:
         minimum, maximum = find_unmasked_bounds(image, cheat_low, cheat_high)
     if nice_clip is True and minimum == maximum:  # scaling was too intense
-        return image
+        minimum, maximum = image.min(), image.max()
+        if minimum == maximum:
+            return image
     if not ((cheat_high is None) and (cheat_low is None)):
         if inplace is True:
             image = np.clip(image, minimum, maximum, out=image)
-- 
2.43.0


From 5c8c4fbc60f7898f0985f3182d5fc440c43e01a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:05 +0000
Subject: [PATCH 59/86] fix: mask nonfinite values when rendering browse images

---
 pdr/browsify.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 1d1794f..c287e0c 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -282,6 +282,9 @@ def _render_array(
     # upcast integer (and boolean) data types to prevent unhelpful wraparound
     if obj.dtype.char in np.typecodes["AllInteger"] + "?":
         obj = obj.astype(np.int32 if obj.itemsize <= 2 else np.float64)
+    # don't let NaNs or infinities determine (and destroy) the normalization
+    elif obj.dtype.kind == "f" and not np.isfinite(obj).all():
+        obj = np.ma.masked_invalid(obj, copy=not purge)
     # convert to unsigned eight-bit integer to make it easy to write
     obj = eightbit(obj, image_clip, purge, nice_clip)
     # unless color_fill is set to None, fill masked elements -- probably
-- 
2.43.0


From 5576c5d3f3031addaa555949926b4d312bb0b924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 60/86] fix: downsample browse images that are too thin to
 scale evenly

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index c287e0c..6abca36 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -307,7 +307,7 @@ def _render_array(
             f"Axis length {max(obj.shape)} > JPEG encoder threshold of "
             f"65500; downsampling browse image to {scale * 100}%."
         )
-        image.thumbnail([int(axis * scale) for axis in image.size])
+        image.thumbnail([max(1, int(axis * scale)) for axis in image.size])
     image.save(f"{outbase}.{image_format}")
 
 
-- 
2.43.0


From ffa9ff223cc8a93f7a7cbeea45a5ff6a455e0602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:50 +0000
Subject: [PATCH 61/86] fix: don't divide by zero when a browse image is
 clipped to a single value

---
 pdr/browsify.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 6abca36..6d897ff 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -96,6 +96,9 @@ def normalize_range(
             image = np.clip(image, minimum, maximum, out=image)
         else:
             image = np.clip(image, minimum, maximum)
+    # if everything has been clipped to a single value, don't divide by zero
+    # (which also masks all the elements of a masked array)
+    extent = maximum - minimum if maximum != minimum else 1
     if inplace is True:
         # perform the operation in-place
         image -= minimum
@@ -104,14 +107,14 @@ def normalize_range(
             # this loss of precision is probably better than
             # automatically typecasting it.
             # TODO: detect rollover cases, etc.
-            image //= maximum - minimum
+            image //= extent
         else:
-            image /= maximum - minimum
+            image /= extent
         image += range_min
         return image
     return (
         (image - minimum) *
-        ((range_max - range_min) / (maximum - minimum))
+        ((range_max - range_min) / extent)
         + range_min
     )
 
-- 
2.43.0


From d3c03b02fb22f813b7bfda06074ccb688c639cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:17 +0000
Subject: [PATCH 62/86] fix: pickle arrays that can't be dumped as images or
 tables

---
 pdr/browsify.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 6d897ff..25b6d84 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -171,7 +171,13 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
         _browsify_recarray(obj, outbase, **dump_kwargs)
     elif isinstance(obj, np.ndarray):
         if len(obj.shape) == 1:
-            pd.DataFrame(obj).to_csv(outbase + ".csv", index=False)
+            try:
+                csv = pd.DataFrame(obj)
+            except ValueError:  # nested dtype
+                return _pickle_array(obj, outbase)
+            csv.to_csv(outbase + ".csv", index=False)
+        elif len(obj.shape) not in (2, 3) or obj.dtype.kind not in "biuf":
+            _pickle_array(obj, outbase)
         else:
             _browsify_array(obj, outbase, **dump_kwargs)
     elif isinstance(obj, pd.DataFrame):
@@ -192,6 +198,16 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
             stream.write(str(obj))
 
 
+def _pickle_array(obj: np.ndarray, outbase: str):
+    """dump an array we can't write as an image or table as a binary blob."""
+    warnings.warn(
+        f"Can't write an array of dtype {obj.dtype} and shape {obj.shape} as "
+        f"an image or table; pickling it."
+    )
+    with open(outbase + ".pkl", "wb") as stream:
+        pickle.dump(obj, stream)
+
+
 # TODO: this needs to be like 'browsify_structured_array' to handle some
 #  nested dtypes that aren't recarrays.
 def _browsify_recarray(obj: np.recarray, outbase: str, **_):
-- 
2.43.0


From 836293d682b0d969aa9018e5869df6227a578704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 63/86] fix: don't look for special constants in arrays that
 aren't numeric

---
 pdr/_scaling.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index 06c78c5..bb45301 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -24,6 +24,8 @@ def find_special_constants(
     # NOTE: doesn't do anything for PDS4 products at present, although this
     #  may not be important; usually pds4_tools handles it.
 
+    if obj.dtype.kind not in "biufc":
+        return {}  # not numbers (e.g. structured arrays)
     block = specialblock(data, name)
     # check for explicitly-defined special constants
     specials = {
-- 
2.43.0


From 33c9ef9a0d1963bbf0ddc22e7e7d1dd24cb08be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:47 +0000
Subject: [PATCH 64/86] fix: don't cast integers to floats when dumping
 single-row tables

---
 pdr/browsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/browsify.py b/pdr/browsify.py
index 25b6d84..38d3cf5 100644
--- a/pdr/browsify.py
+++ b/pdr/browsify.py
@@ -183,7 +183,7 @@ def browsify(obj: Any, outbase: Union[str, Path], **dump_kwargs) -> None:
     elif isinstance(obj, pd.DataFrame):
         if len(obj) == 1:
             # noinspection PyTypeChecker
-            obj.T.to_csv(outbase + ".csv"),
+            obj.astype(object).T.to_csv(outbase + ".csv")
         else:
             obj.to_csv(outbase + ".csv")
     elif obj is None:
-- 
2.43.0


From 0864b199f9ba0dbe339641e90be02dc4af87a246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:10 +0000
Subject: [PATCH 65/86] fix: keep imaginary parts when scaling complex PDS4
 data

---
 pdr/pds4_tools/reader/data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pds4_tools/reader/data_types.py b/pdr/pds4_tools/reader/data_types.py
index 91bf6cf..7bd6ca2 100644
--- a/pdr/pds4_tools/reader/data_types.py
+++ b/pdr/pds4_tools/reader/data_types.py
@@ -934,6 +934,9 @@ def get_scaled_numpy_type(data_type=None, data=None, scaling_factor=None, value_
         new_dtype = data_dtype
 
     # Data should be double precision
+    elif np.issubdtype(data_dtype, np.complexfloating):
+        new_dtype = 'complex128'
+
     elif data_is_float or scaling_is_float or offset_is_float:
         new_dtype = 'float64'
 
-- 
2.43.0


From 350da20ea9023c1fbf19ff301936a1c6355ff0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:49 +0000
Subject: [PATCH 66/86] fix: unify signatures of functions with defaults

---
 pdr/func.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/func.py b/pdr/func.py
index d205398..ae2fe7c 100644
--- a/pdr/func.py
+++ b/pdr/func.py
@@ -114,11 +114,12 @@ def paramsort(params: Collection[Parameter]) -> list[Parameter]:
     for p in params:
         bins[p.kind.name].append(p)
 
-    # then put Optional variables at the end of each bin
+    # then put variables with defaults (which must follow those without) and
+    # Optional variables at the end of each bin
     for kind, paramlist in bins.items():
         bins[kind] = sorted(
             paramlist,
-            key=lambda p: not_optional(p) is False
+            key=lambda p: (p.default is not _empty, not_optional(p) is False)
         )
 
     # noinspection PyTypeChecker
-- 
2.43.0


From 614e31812ef658d308043bd7ba4d4c196fbcada9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 67/86] fix: scale integer columns of tables without wrapping,
 and by factors with units

---
 pdr/loaders/table.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/pdr/loaders/table.py b/pdr/loaders/table.py
index 4417590..08b482b 100644
--- a/pdr/loaders/table.py
+++ b/pdr/loaders/table.py
@@ -109,16 +109,33 @@ def read_table(
     if fmtdef.get("OFFSET") is not None or fmtdef.get("SCALING_FACTOR") is not None:
         for col in table.columns:
             record = fmtdef.loc[fmtdef['NAME'] == col].to_dict("records")[0]
-            if record.get("SCALING_FACTOR") and not pd.isnull(record.get("SCALING_FACTOR")):
-                table[col] = table[col].mul(record["SCALING_FACTOR"])
-            else:
-                scaling_factor = 1  # TODO: appears superfluous
-            if record.get("OFFSET") and not pd.isnull(record.get("OFFSET")):
-                offset = record["OFFSET"]
+            scaling_factor = _column_constant(record, "SCALING_FACTOR")
+            offset = _column_constant(record, "OFFSET")
+            if scaling_factor is None and offset is None:
+                continue
+            if pd.api.types.is_integer_dtype(table[col].dtype):
+                # the results may not fit in the stored type
+                table[col] = table[col].astype("float64")
+            if scaling_factor is not None:
+                table[col] = table[col].mul(scaling_factor)
+            if offset is not None:
                 table[col] = table[col]+offset
     return table
 
 
+def _column_constant(record: dict, key: str) -> Optional[float]:
+    """
+    The SCALING_FACTOR or OFFSET of a column, without its unit if it has one;
+    None if the column has none (or something like "N/A").
+    """
+    value = record.get(key)
+    if isinstance(value, dict):
+        value = value.get("value")
+    if not isinstance(value, (int, float)) or pd.isnull(value) or value == 0:
+        return None
+    return value
+
+
 def _interpret_as_binary(fn, fmtdef, dt, block, start_byte):
     """"""
     # TODO: this works poorly (from a usability and performance
-- 
2.43.0


From 249e47c44536e6ee4c4ae780a16938887cd41265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:31 +0000
Subject: [PATCH 68/86] fix: count row suffixes when finding a table from the
 end of its file

---
 pdr/loaders/queries.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 3cdf507..5c73bf8 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -440,7 +440,7 @@ def data_start_byte(
             start_byte = record_bytes * max(target - 1, 0)
         elif "ROWS" in block.keys() and "ROW_BYTES" in block.keys():
             rows = block["ROWS"]
-            row_bytes = block["ROW_BYTES"]
+            row_bytes = block["ROW_BYTES"] + block.get("ROW_SUFFIX_BYTES", 0)
             start_byte = max(0, count_from_bottom_of_file(fn, rows, row_bytes))
         elif identifiers.get("RECORD_TYPE") == "STREAM":
             start_byte = _line_start_byte(fn, target)
-- 
2.43.0


From a440157cdee73eb4ffb4c063ea1a1abef8fd6b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:33 +0000
Subject: [PATCH 69/86] fix: make added keywords and changed identifiers take
 effect when metadata changes are loaded

---
 pdr/pdr.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index c3782c2..5f1a846 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -108,6 +108,10 @@ class Metadata(MultiDict):
         self._metaget_interior = _metaget_factory(self)
         self._metablock_interior = _metablock_factory(self)
 
+    def refresh_counts(self):
+        """Recount parameters. Needed when any have been added or removed."""
+        self.fieldcounts = countby(identity, _parameters(self))
+
     def metaget(
         self, text: str, default: Any = None, warn: bool = True
     ) -> Any:
@@ -335,6 +339,10 @@ class Data:
     def load_metadata_changes(self):
         if "_metaget_interior" in dir(self):
             self.metadata.refresh_cache()
+            self.metadata.refresh_counts()
+            if self.standard == "PDS3":
+                self.identifiers = self.metadata._init_identifiers()
+                self.metadata.identifiers = self.identifiers
         self._metaget_interior = self.metadata._metaget_interior
         self._metablock_interior = self.metadata._metablock_interior
 
@@ -1263,6 +1271,15 @@ class Data:
     _metablock_interior: Callable[[str], Mapping]
 
 
+def _parameters(mapping: Mapping) -> Iterator[str]:
+    """All parameter names in a (possibly nested) metadata mapping."""
+    for key, value in mapping.items():
+        yield key
+        # the members of a quantity are not parameters
+        if isinstance(value, Mapping) and set(value) != {"value", "units"}:
+            yield from _parameters(value)
+
+
 def _metaget_factory(metadata: Metadata) -> Callable[[str], Any]:
 
     def metaget_interior(text):
-- 
2.43.0


From 9d16c53f4a119c95ee7223904eb360c1c97082e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:43 +0000
Subject: [PATCH 70/86] fix: scale 32-bit reals beyond their range as 64-bit
 ones

---
 pdr/_scaling.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/pdr/_scaling.py b/pdr/_scaling.py
index bb45301..8508b0d 100644
--- a/pdr/_scaling.py
+++ b/pdr/_scaling.py
@@ -6,6 +6,7 @@ from itertools import product
 from numbers import Integral, Number, Real
 from typing import Optional, Sequence, Union
 
+from dustgoggles.structures import listify
 import numpy as np
 
 from pdr.formats.checkers import specialblock
@@ -93,6 +94,7 @@ def fit_to_scale(
     if arr.dtype.char not in 'bBhHiIlLqQnNpPf':
         raise TypeError(f"This function does not support {arr.dtype.name}")
     valid = np.ma.compressed(arr)
+    valid = valid[np.isfinite(valid)]
     if valid.size == 0:
         return arr
     if arr.dtype.char in 'fd' or int(scale + offset) != scale + offset:
@@ -107,7 +109,12 @@ def fit_to_scale(
         if candidate.kind not in bases:
             continue
         cinfo = infofunc(candidate)
-        if min(needed) >= cinfo.min and max(needed) <= cinfo.max:
+        # compare as Python numbers: numpy would cast `needed` to `candidate`
+        lower, upper = (
+            value if candidate.kind in 'iu' else float(value)
+            for value in (cinfo.min, cinfo.max)
+        )
+        if min(needed) >= lower and max(needed) <= upper:
             return arr.astype(candidate, copy=False)
     raise TypeError("Unable to find a suitable data type for scaling.")
 
@@ -136,6 +143,22 @@ def overflow_wrap(array_func):
     return with_upcasting
 
 
+def _overflows(obj, offset, scale):
+    """Would scaling the floats in `obj` exceed the range of their dtype?"""
+    if obj.dtype.kind != "f":
+        return False
+    planes = obj if isinstance(scale, (list, tuple)) else [obj]
+    for plane, o, s in zip(planes, listify(offset), listify(scale)):
+        valid = np.ma.compressed(plane)
+        valid = valid[np.isfinite(valid)]
+        if valid.size == 0:
+            continue
+        needed = [float(v) * s + o for v in (valid.min(), valid.max())]
+        if max(map(abs, needed)) > float(np.finfo(obj.dtype).max):
+            return True
+    return False
+
+
 def _copy_scale(obj, offset, scale):
     try:
         # TODO: we should also be doing this per-plane scaling in inplace case
@@ -204,7 +227,11 @@ def scale_array(
     # try to perform the operation in-place if requested, although if
     # we're casting to float, we can't
     # TODO: detect rollover cases, etc.
-    if inplace is True and not casting_to_float(obj, scale, offset):
+    if (
+        inplace is True
+        and not casting_to_float(obj, scale, offset)
+        and not _overflows(obj, offset, scale)
+    ):
         return overflow_wrap(_inplace_scale)(obj, offset, scale)
     # if we're casting to float, permit specification of dtype
     # prior to operation (float64 is numpy's default and often excessive)
-- 
2.43.0


From 95f579526d1fb7851f46303ad7db90ee50578ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 71/86] fix: row strides of line prefix tables of multiband
 images and line suffixes

---
 pdr/loaders/queries.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index 5c73bf8..ccbba17 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -319,10 +319,16 @@ def _fix_up_line_prefix_table_block(
     block = MultiDict(format_block)
     if "ROWS" not in block.keys():
         block["ROWS"] = block["LINES"]
+    if "ROW_BYTES" not in block.keys() and "LINE_PREFIX_BYTES" in block.keys():
+        block["ROW_BYTES"] = block["LINE_PREFIX_BYTES"]
     if "ROW_SUFFIX_BYTES" not in block.keys():
+        # the lines of multiband images hold all their bands
         block['ROW_SUFFIX_BYTES'] = (
-            block['SAMPLE_BITS'] // 8 * block['LINE_SAMPLES']
-        )
+            block['SAMPLE_BITS']
+            // 8
+            * block['LINE_SAMPLES']
+            * block.get('BANDS', 1)
+        ) + block.get("LINE_SUFFIX_BYTES", 0)
     return block
 
 
-- 
2.43.0


From f7905ce4458f8b5585604746d1ed1ac521c87706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 72/86] fix: associate line prefix tables with the image at
 their own place

---
 pdr/loaders/queries.py |  4 ++--
 pdr/pdr.py             | 10 ++++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pdr/loaders/queries.py b/pdr/loaders/queries.py
index ccbba17..1b0ee8a 100644
--- a/pdr/loaders/queries.py
+++ b/pdr/loaders/queries.py
@@ -999,10 +999,10 @@ def standalone_start_byte(
 ) -> tuple[Union[str, Path], int]:
     from pdr.func import softquery
 
-    data._target_path(object_name)
+    data._target_path(object_name, raise_missing=True)
     result = softquery(
         lambda fn, start_byte: None,
         START_BYTE_QUERIES,
-        kwargdict={"data": data, "name": "IMAGE"},
+        kwargdict={"data": data, "name": object_name},
     )
     return result['fn'], result['start_byte']
diff --git a/pdr/pdr.py b/pdr/pdr.py
index 5f1a846..0c489cd 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -399,10 +399,16 @@ class Data:
         if len(preobjs) > 0:
             from pdr.loaders.queries import standalone_start_byte
 
-            im_fn_byte = standalone_start_byte(self, imname)
+            def place(name):
+                try:
+                    return standalone_start_byte(self, name)
+                except Exception:
+                    return None  # loading this object will tell why
+
+            im_fn_byte = place(imname)
             found = False
             for pre in preobjs:
-                if standalone_start_byte(self, pre) == im_fn_byte:
+                if im_fn_byte is not None and place(pre) == im_fn_byte:
                     self._interleaved_objects[pre] = {
                         'parent': imname, 'type': 'line_prefix_table'
                     }
-- 
2.43.0


From 8c5def018fd08a7dbb94d36e7d0cb7056811bd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:09 +0000
Subject: [PATCH 73/86] fix: read line prefix tables of detached labels from
 the image's file

---
 pdr/pdr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pdr/pdr.py b/pdr/pdr.py
index 0c489cd..d854aba 100644
--- a/pdr/pdr.py
+++ b/pdr/pdr.py
@@ -483,6 +483,9 @@ class Data:
         is_comp, comp_paths = self._check_compressed_file_pointer(object_name)
         if is_comp is True:
             return comp_paths
+        if object_name in self._interleaved_objects:
+            # this object is within another one
+            object_name = self._interleaved_objects[object_name]['parent']
         target = self.metaget_(pointerize(object_name))
         if isinstance(target, Sequence) and not (isinstance(target, str)):
             if isinstance(target[0], str):
-- 
2.43.0


From 39431e60987c85e696be0d46ab403a653a737ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:44 +0000
Subject: [PATCH 74/86] fix: only Huygens files' names call for DISR table
 offsets

---
 pdr/formats/checkers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 184b914..4a217fc 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -79,7 +79,8 @@ def check_special_offset(
     if (
         identifiers["INSTRUMENT_NAME"] == "DESCENT IMAGER SPECTRAL RADIOMETER"
         and identifiers["PRODUCT_TYPE"] == "RDR"
-        or disrsubs.search(identifiers["FILE_NAME"])
+        or identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
+        and disrsubs.search(identifiers["FILE_NAME"])
     ):
         return formats.cassini.get_offset(fn, identifiers)
     if (
-- 
2.43.0


From d26ca82b85fb94eac7035678694ceb7bd3731671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 75/86] fix: don't require keywords just to rule out special
 cases

---
 pdr/formats/checkers.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index 4a217fc..d3dad23 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -213,7 +213,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ULY-J-GAS-5-SKY-MAPS-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "GASDATA.FMT"
+        and block.get("^STRUCTURE") == "GASDATA.FMT"
     ):
         return True, formats.ulysses.gas_table_loader(fn, fmtdef_dt)
     if (
@@ -263,7 +263,7 @@ def check_special_table_reader(
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
     if (
         identifiers["DATA_SET_ID"] == "VG2-U-LECP-4-RDR-STEP-12.8MIN-V1.0"
-        and block["INTERCHANGE_FORMAT"] == "ASCII"
+        and block.get("INTERCHANGE_FORMAT") == "ASCII"
         and name == "TABLE"
     ):
         return True, formats.voyager.lecp_table_loader(fn, fmtdef_dt)
@@ -473,7 +473,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "VG2-SS-PLS-4-SUMM-1HR-AVG-V1.0"
         and name == "TABLE"
-        and block["^STRUCTURE"] == "VGR_PLS_HR_2017.FMT"
+        and block.get("^STRUCTURE") == "VGR_PLS_HR_2017.FMT"
     ):
         return True, formats.voyager.get_structure(
             block, name, fn, data, identifiers
@@ -485,7 +485,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-MECA-2-NIEDR-V1.0"
         and name == "TBL_TABLE"
-        and block["CONTAINER"]["^STRUCTURE"] == "TBL_0_STATE_DATA.FMT"
+        and block.get("CONTAINER", {}).get("^STRUCTURE") == "TBL_0_STATE_DATA.FMT"
     ):
         return True, formats.phoenix.elec_em6_structure(
             block, name, fn, data, identifiers
@@ -501,7 +501,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-2-LEDEDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_LED.FMT"
+        and block.get("^STRUCTURE") == "TEGA_LED.FMT"
     ):
         return True, formats.phoenix.led_edr_structure(
             block, name, fn, data, identifiers
@@ -509,7 +509,7 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "PHX-M-TEGA-4-SCRDR-V1.0"
         and name == "TIME_SERIES"
-        and block["^STRUCTURE"] == "TEGA_SCRDR.FMT"
+        and block.get("^STRUCTURE") == "TEGA_SCRDR.FMT"
     ):
         return True, formats.phoenix.sc_rdr_structure(
             block, name, fn, data, identifiers
@@ -842,7 +842,7 @@ def check_special_block(
         return True, formats.lro.lamp_rdr_histogram_image_loader(data)
     if (
         identifiers["DATA_SET_ID"] == "LRO-L-MRFLRO-5-GLOBAL-MOSAIC-V1.0"
-        and "GLOBAL_S4_32PPD" in data.metaget_("PRODUCT_ID")
+        and "GLOBAL_S4_32PPD" in identifiers["PRODUCT_ID"]
         and name == "IMAGE"
     ):
         # typo in one of the labels
-- 
2.43.0


From a543b2134b5a67c3000344eb845ae267c756d7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:03 +0000
Subject: [PATCH 76/86] fix: correct copies of labels' blocks, not the labels
 themselves

---
 pdr/formats/cassini.py |  5 +++--
 pdr/formats/galileo.py |  5 +++--
 pdr/formats/ground.py  |  3 ++-
 pdr/formats/ihw.py     |  4 +++-
 pdr/formats/lro.py     |  4 +++-
 pdr/formats/mariner.py |  4 +++-
 pdr/formats/mex.py     |  4 +++-
 pdr/formats/mgs.py     |  4 +++-
 pdr/formats/phoenix.py |  4 +++-
 pdr/formats/pvo.py     |  6 ++++--
 pdr/formats/ulysses.py |  4 +++-
 pdr/formats/voyager.py | 12 +++++++-----
 12 files changed, 40 insertions(+), 19 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index d117389..9b6f779 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from copy import deepcopy
 import warnings
 from pathlib import Path
 
@@ -261,7 +262,7 @@ def iss_calib_da_special_block(data, name):
         * calib_da
         * calib (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if "LINE_PREFIX_BYTES" in block:
         del block["LINE_PREFIX_BYTES"]
         return True, block
@@ -279,7 +280,7 @@ def iss_edr_special_block(data, name):
         * edr_evj
         * calib (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if name == "LINE_PREFIX_TABLE" and "/" in block["^LINE_PREFIX_STRUCTURE"]:
         block["^LINE_PREFIX_STRUCTURE"] = block["^LINE_PREFIX_STRUCTURE"].split("/")[-1]
         return True, block
diff --git a/pdr/formats/galileo.py b/pdr/formats/galileo.py
index 366798f..ff55eb8 100644
--- a/pdr/formats/galileo.py
+++ b/pdr/formats/galileo.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from copy import deepcopy
 from typing import TYPE_CHECKING
 import warnings
 
@@ -103,7 +104,7 @@ def epd_special_block(data, name):
     * gal_particles
         * epd_summ (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROW_BYTES"] = data.metaget_("RECORD_BYTES")
     return block
 
@@ -144,7 +145,7 @@ def pws_special_block(data, name):
         * newp_summ_bin
         * nep_summ_asc
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     product_id = data.metaget_("PRODUCT_ID")
     if "B.TAB" in product_id:
         block["ROW_BYTES"] = 366
diff --git a/pdr/formats/ground.py b/pdr/formats/ground.py
index 3ca6b87..b34c30c 100644
--- a/pdr/formats/ground.py
+++ b/pdr/formats/ground.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from copy import deepcopy
 import warnings
 
 def mssso_cal_start_byte(name, hdulist):
@@ -24,7 +25,7 @@ def wff_atm_special_block(data, name):
     * wff_atm
         * dem_img
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
 
     if data.metaget_("PRODUCT_ID").startswith("S"):
         real_line_samples = block["LINES"]
diff --git a/pdr/formats/ihw.py b/pdr/formats/ihw.py
index 043fc84..c320145 100644
--- a/pdr/formats/ihw.py
+++ b/pdr/formats/ihw.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 def curve_table_loader(filename, fmtdef_dt):
     """
     The labels do not always count column bytes correctly.
@@ -64,7 +66,7 @@ def get_special_block(data, name):
     * ihw
         * ms_radar
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     for item in iter(block.items()):
         if "COLUMN" in item:
             if item[1]["START_BYTE"] == 17 and "NAME" not in item[1]:
diff --git a/pdr/formats/lro.py b/pdr/formats/lro.py
index dace3c3..405df60 100644
--- a/pdr/formats/lro.py
+++ b/pdr/formats/lro.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 from pdr.loaders.queries import table_position
 
 
@@ -82,7 +84,7 @@ def mini_rf_image_loader(data, name):
     * lro_mini_rf
         * mosaic
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["LINES"] = 5760
     block["LINE_SAMPLES"] = 11520
     return block
diff --git a/pdr/formats/mariner.py b/pdr/formats/mariner.py
index 785115d..910706c 100644
--- a/pdr/formats/mariner.py
+++ b/pdr/formats/mariner.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 def get_special_block(data, name):
     """
     Mariner 9 IRIS tables have 316 ROW_PREFIX_BYTES followed by 1 column
@@ -9,6 +11,6 @@ def get_special_block(data, name):
     * mariner
         * iris
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["COLUMN"]["START_BYTE"] = 1
     return block
diff --git a/pdr/formats/mex.py b/pdr/formats/mex.py
index 2356d25..74a0d25 100644
--- a/pdr/formats/mex.py
+++ b/pdr/formats/mex.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 from pdr.loaders.queries import table_position
 
 
@@ -75,7 +77,7 @@ def pfs_edr_special_block(data, name):
         * orb001_lwc
         * orb001_swc
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     orbit_number = data.metaget_("ORBIT_NUMBER")
     
     if orbit_number == "N/A" or int(orbit_number) < 8945:
diff --git a/pdr/formats/mgs.py b/pdr/formats/mgs.py
index 6ed70d1..e43debf 100644
--- a/pdr/formats/mgs.py
+++ b/pdr/formats/mgs.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 from pdr.loaders.queries import read_table_structure
 
 
@@ -50,7 +52,7 @@ def mola_pedr_special_block(data, name, identifiers):
     from pathlib import Path
     from pdr.loaders.queries import data_start_byte
 
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     target = data.metaget_("^"+name)
     start_byte = data_start_byte(identifiers, block, target, data.filename)
 
diff --git a/pdr/formats/phoenix.py b/pdr/formats/phoenix.py
index fb90c2a..6d39417 100644
--- a/pdr/formats/phoenix.py
+++ b/pdr/formats/phoenix.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 def elec_em6_structure(block, name, filename, data, identifiers):
     """
     ELEC EDR em6/TBL tables: All the START_BYTEs in TBL_0_STATE_DATA.FMT
@@ -130,7 +132,7 @@ def wcl_edr_special_block(data, name):
     * phoenix
         * wcl_edr (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     
     for item in iter(block.items()):
         if "COLUMN" in item:
diff --git a/pdr/formats/pvo.py b/pdr/formats/pvo.py
index 562de11..596581b 100644
--- a/pdr/formats/pvo.py
+++ b/pdr/formats/pvo.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 
 def orpa_low_res_loader(data, name):
     """
@@ -11,7 +13,7 @@ def orpa_low_res_loader(data, name):
     * pvo
         * orpa_lowres
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROW_BYTES"] = 243
     return block
 
@@ -25,6 +27,6 @@ def oims_12s_loader(data, name):
     * pvo
         * oims_12s
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROWS"] = data.metaget_("FILE_RECORDS")
     return block
diff --git a/pdr/formats/ulysses.py b/pdr/formats/ulysses.py
index be03bd8..6b707b0 100644
--- a/pdr/formats/ulysses.py
+++ b/pdr/formats/ulysses.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 
 def gas_table_loader(filename, fmtdef_dt):
     """
@@ -58,7 +60,7 @@ def get_special_block(data, name, identifiers):
         * epac_prtl
         * epac_pstl
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if "ULY-J-EPAC-4-SUMM-PSTL" in identifiers["DATA_SET_ID"]:
         block["CONTAINER"]["COLUMN"]["ITEM_BYTES"] = 13
         block["CONTAINER"]["COLUMN"]["START_BYTE"] = 1
diff --git a/pdr/formats/voyager.py b/pdr/formats/voyager.py
index a20e311..52fe050 100644
--- a/pdr/formats/voyager.py
+++ b/pdr/formats/voyager.py
@@ -1,5 +1,7 @@
 from __future__ import annotations
 
+from copy import deepcopy
+
 
 def mag_special_block(data, name):
     """
@@ -11,7 +13,7 @@ def mag_special_block(data, name):
     * vg_mag
         * rdr_nep
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["ROW_BYTES"] = 145 
     return block
 
@@ -42,7 +44,7 @@ def pls_avg_special_block(data, name):
     * vg_pls
         * sys_1hr_avg
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if block["^STRUCTURE"] == "VGR_PLS_HR_2017.FMT":
         block["ROW_BYTES"] = 57 
         return True, block
@@ -58,7 +60,7 @@ def pls_fine_special_block(data, name):
     * vg_pls
         * sys_fine_res
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if block["ROW_BYTES"] == 57:
         block["ROW_BYTES"] = 64 
         return True, block
@@ -73,7 +75,7 @@ def pls_ionbr_special_block(data, name):
     * vg_pls
         * ur_ionbr (partial)
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     block["^STRUCTURE"] = "SUMRY.FMT" 
     return True, block
 
@@ -89,7 +91,7 @@ def pra_special_block(data, name, identifiers):
         * lowband_jup
         * lowband_other
     """
-    block = data.metablock_(name)
+    block = deepcopy(data.metablock_(name))
     if identifiers["DATA_SET_ID"] in (
         "VG2-S-PRA-3-RDR-LOWBAND-6SEC-V1.0",
         "VG2-N-PRA-3-RDR-LOWBAND-6SEC-V1.0",
-- 
2.43.0


From 53fea59813e9b09e0ba535676fec8da1e4c35cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 77/86] fix: read Diviner level 4 tables of one row

---
 pdr/formats/diviner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/diviner.py b/pdr/formats/diviner.py
index ef0b803..9a46749 100644
--- a/pdr/formats/diviner.py
+++ b/pdr/formats/diviner.py
@@ -22,7 +22,7 @@ def diviner_l4_table_loader(fmtdef_dt, filename):
     import pandas as pd
 
     table = pd.DataFrame(
-        np.loadtxt(filename, delimiter=",", skiprows=1),
+        np.loadtxt(filename, delimiter=",", skiprows=1, ndmin=2),
         columns=[c for c in fmtdef_dt[0]["NAME"] if "PLACEHOLDER" not in c],
     )
     return table
-- 
2.43.0


From 16ed61dfde7bdee25586b9e7566982eca9df72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:47 +0000
Subject: [PATCH 78/86] fix: tell MIMI's full tables by their files' names, not
 folders'

---
 pdr/formats/cassini.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index 9b6f779..5201ee8 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -36,7 +36,7 @@ def spreadsheet_loader(filename, fmtdef_dt, data_set_id):
     fmtdef, dt = fmtdef_dt
     names = fmtdef.NAME
     header = None
-    if "FULL" in filename:
+    if "FULL" in Path(filename).name:
         skiprows = 4
         if data_set_id == "CO-S-MIMI-4-CHEMS-CALIB-V1.0":
             header = 0
-- 
2.43.0


From 71fffd5afe762f5075b6b0ba55b9d1b1b63d082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:13 +0000
Subject: [PATCH 79/86] fix: judge files by their own names, not their folders'

---
 pdr/formats/checkers.py | 63 +++++++++++++++++++++--------------------
 1 file changed, 33 insertions(+), 30 deletions(-)

diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index d3dad23..cb7e994 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -325,7 +325,7 @@ def check_special_table_reader(
         return True, formats.msl_rems.rdr_table_loader(fn, fmtdef_dt)
     if (
         all(x in identifiers["DATA_SET_ID"] for x in ["ICE-C-", "-3-RDR-"])
-        and "TRAJ_ICE" in fn
+        and "TRAJ_ICE" in Path(fn).name
         and name == "TABLE"
     ):
         return True, formats.ihw.add_newlines_table_loader(
@@ -346,7 +346,7 @@ def check_special_table_reader(
     if (
         identifiers["DATA_SET_ID"] == "ODY-M-GRS-2-EDR-V1.0"
         and identifiers["PRODUCT_TYPE"] == "E_KERNEL"
-        and ".txt" in fn.lower()
+        and ".txt" in Path(fn).name.lower()
     ):
         return formats.odyssey.grs_e_kernel_loader(name, fn)
     if (
@@ -421,7 +421,7 @@ def check_special_structure(
     ) or (
         identifiers["INSTRUMENT_HOST_NAME"] == "HUYGENS PROBE"
         and (
-            "HUY_DTWG_ENTRY_AERO" in fn
+            "HUY_DTWG_ENTRY_AERO" in Path(fn).name
             or (
                 "HASI" in data.metaget_("FILE_NAME", "")
                 and "PWA" not in identifiers["FILE_NAME"]
@@ -559,16 +559,16 @@ def check_special_structure(
     if (
         identifiers["DATA_SET_ID"] == "ODY-M-GRS-2-EDR-V1.0"
         and identifiers["PRODUCT_TYPE"] == "E_KERNEL"
-        and ".txt" in fn.lower()
+        and ".txt" in Path(fn).name.lower()
     ):
         return formats.odyssey.grs_e_kernel_structure()
     if (
             identifiers["INSTRUMENT_HOST_NAME"] == "VENUS EXPRESS"
             and identifiers["INSTRUMENT_ID"] in ["VRA"]
             and identifiers['PRODUCT_TYPE'] == "UDR"
-            and "ODF" not in fn
-            and "TNF" not in fn
-            and "RSR" not in fn
+            and "ODF" not in Path(fn).name
+            and "TNF" not in Path(fn).name
+            and "RSR" not in Path(fn).name
     ):
         return formats.vex_vera.udr_table_structure()
 
@@ -1133,8 +1133,8 @@ def check_trivial_case(pointer: str, identifiers: DataIdentifiers, fn: str) -> b
     ):
         return formats.kaguya.grs_eng_tables_trivial()
     if (
-        "CE3_BMYK_VNIS-CC_SCI_" in fn
-        and pointer == "CAL_TARGET_DATA"
+        pointer == "CAL_TARGET_DATA"
+        and "CE3_BMYK_VNIS-CC_SCI_" in Path(fn).name
     ):
         return formats.change.cal_target_data_trivial()
     if (
@@ -1344,64 +1344,65 @@ def check_special_pds4_cases(structure, filename, object_name):
     with pds4_tools. Mostly utilized by datasets not verified by the PDS but
     that have PDS4 labels (ISRO, ESA, CNSA etc).
     """
+    label_name = Path(filename).name
     if (
-            "CE6-L_GRAS_LMS-M" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-M" in label_name and "SCI" in label_name
+            and ".2B" in label_name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE6-L_GRAS_LMS-S" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-S" in label_name and "SCI" in label_name
+            and ".2B" in label_name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE6-L_GRAS_LMS-N" in filename and "SCI" in filename
-            and ".2B" in filename and object_name == "TABLE_0"
+            "CE6-L_GRAS_LMS-N" in label_name and "SCI" in label_name
+            and ".2B" in label_name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE5-L_GRAS_LMS-N" in filename and ".2B" in filename
-            and "SCI" in filename and object_name == "TABLE_0"
+            "CE5-L_GRAS_LMS-N" in label_name and ".2B" in label_name
+            and "SCI" in label_name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE5-L_GRAS_LMS-M" in filename and ".2B" in filename
-            and "SCI" in filename and object_name == "TABLE_0"
+            "CE5-L_GRAS_LMS-M" in label_name and ".2B" in label_name
+            and "SCI" in label_name and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "CE4_GRAS_ASAN-SCI_SCI" in filename and ".2B" in filename
+            "CE4_GRAS_ASAN-SCI_SCI" in label_name and ".2B" in label_name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-DPSL_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-DPSL_SCI" in label_name and ".2A" in label_name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-ThN_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-ThN_SCI" in label_name and ".2A" in label_name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_LND-TID_SCI" in filename and ".2A" in filename
+            "CE4_GRAS_LND-TID_SCI" in label_name and ".2A" in label_name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_table_using_spaces(structure, filename)
     # if (
-    #         "CE4_GRAS_VNIS-VD_SCI" in filename and ".2B" in filename
+    #         "CE4_GRAS_VNIS-VD_SCI" in label_name and ".2B" in label_name
     #         and object_name == "TABLE_0"
     # ):
     # this is a fixed width table, but it's not all UTF-8 so PD can't handle it
     #    return formats.change.read_table_using_spaces(structure, filename)
     if (
-            "CE4_GRAS_VNIS-SD_SCI" in filename and ".2B" in filename
+            "CE4_GRAS_VNIS-SD_SCI" in label_name and ".2B" in label_name
             and object_name == "TABLE_0"
     ):
         return formats.change.read_change_fw_table(structure, filename)
     if (
-            "ch2_cla_l1_" in filename
+            "ch2_cla_l1_" in label_name
             and (object_name == "header_Data" or object_name == "data")
     ):
         return formats.ch2_isro.read_class_fits_table(filename, object_name)
@@ -1415,17 +1416,19 @@ def check_special_label(fn: Union[str, Path]):
     loaders.datawrap.ReadLabel's dispatch to `read_label()`. Also used in
     `read_pvl()`.
     """
+    label_name = Path(fn).name
     if (
-            any(tag in fn for tag in ['CE1', 'CE2', 'CE3'])
-            and any(sfx in fn for sfx in ['.1A', '.1B', '.1C',
+            any(tag in label_name for tag in ['CE1', 'CE2', 'CE3'])
+            and any(sfx in label_name for sfx in ['.1A', '.1B', '.1C',
                                                 '.2A', '.2B', '.2C',
                                                 '.3A', '.3B', '.3C',
                                                 '.01', '.02', '.03'])
     ):
         return True, formats.change.special_label(fn)
     if (
-            ".TAB" in fn and "_DOY" in fn and
-            ("MAG_" in fn or "BIO_" in fn) and "_V1" in fn
+            ".TAB" in label_name and "_DOY" in label_name and
+            ("MAG_" in label_name or "BIO_" in label_name)
+            and "_V1" in label_name
     ):
         return True, formats.vex_mag.special_label(fn)
     return False, None
-- 
2.43.0


From 4a7a1a3ef62602e4a846568c0653d488b58f35b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:55 +0000
Subject: [PATCH 80/86] fix: judge Huygens products by their files' names, not
 their folders'

---
 pdr/formats/cassini.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index 5201ee8..6933411 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -71,8 +71,9 @@ def get_structure(block, name, filename, data, identifiers):
     fmtdef = pdr.loaders.queries.read_table_structure(
         block, name, filename, data, identifiers
     )
-    if ("HASI" in filename) or ("HUY_DTWG_ENTRY_AERO" in filename):
-        if "HUY_DTWG_ENTRY_AERO" in filename:
+    fn = Path(filename).name
+    if ("HASI" in fn) or ("HUY_DTWG_ENTRY_AERO" in fn):
+        if "HUY_DTWG_ENTRY_AERO" in fn:
             fmtdef.at[
                 5, "NAME"
             ] = "KNUDSEN FREESTR. HARD SPHERE NR. [=2.8351E-8/RHO]"
@@ -111,19 +112,20 @@ def get_position(identifiers, block, target, name, filename, start_byte):
         * vis_extra
         * vis
     """
-    if "IR_" in filename:
+    if isinstance(filename, list):
+        filename = filename[0]
+    fn = Path(filename).name
+    if "IR_" in fn:
         tbd(name, block)
     table_props = table_position(identifiers, block, target, name, start_byte)
     n_records = identifiers["ROWS"]
-    if any(sub in filename for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
+    if any(sub in fn for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
         record_bytes = identifiers["ROW_BYTES"]
     else:
         record_bytes = identifiers["ROW_BYTES"] + 1
     length = n_records * record_bytes
     if name == "HEADER":
         tab_size = length
-        if isinstance(filename, list):
-            filename = filename[0]
         file = Path(filename)
         file_size = os.path.getsize(file)
         length = file_size - tab_size
@@ -162,7 +164,8 @@ def get_offset(filename, identifiers):
         * time
         * vis
     """
-    if any(sub in filename for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
+    fn = Path(filename[0] if isinstance(filename, list) else filename).name
+    if any(sub in fn for sub in ["ULVS_DDP", "DLIS_AZ_DDP", "DLV_DDP"]):
         row_bytes = identifiers["ROW_BYTES"]
     else:
         row_bytes = identifiers["ROW_BYTES"] + 1
-- 
2.43.0


From 9e0d5a005f9de89aea7ecba3d37a120284ff4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:20 +0000
Subject: [PATCH 81/86] fix: read Cassini ISS products whose labels have no
 clock

---
 pdr/formats/cassini.py  | 9 +++++++++
 pdr/formats/checkers.py | 3 +--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdr/formats/cassini.py b/pdr/formats/cassini.py
index 6933411..3caf9d7 100644
--- a/pdr/formats/cassini.py
+++ b/pdr/formats/cassini.py
@@ -337,6 +337,15 @@ def line_prefix_sample_type(base_samp_info):
     return True, sample_types(sample_type, int(sample_bytes), for_numpy=True)
 
 
+def is_coiss_1006(data):
+    """Is this product from volume coiss_1006? (No, if it has no clock.)"""
+    try:
+        clock = float(data.metaget_("SPACECRAFT_CLOCK_STOP_COUNT"))
+    except (TypeError, ValueError):
+        return False
+    return 1359362956 <= clock <= 1363539029
+
+
 def coiss_1006_offset(data, name, identifiers):
     """
     Start bytes (given in RECORD_BYTEs) are off by 1 for products from volume 
diff --git a/pdr/formats/checkers.py b/pdr/formats/checkers.py
index cb7e994..347efbc 100644
--- a/pdr/formats/checkers.py
+++ b/pdr/formats/checkers.py
@@ -85,8 +85,7 @@ def check_special_offset(
         return formats.cassini.get_offset(fn, identifiers)
     if (
         identifiers["DATA_SET_ID"] == "CO-E/V/J-ISSNA/ISSWA-2-EDR-V1.0"
-        and 1359362956 <= float(data.metaget_("SPACECRAFT_CLOCK_STOP_COUNT"))
-        and float(data.metaget_("SPACECRAFT_CLOCK_STOP_COUNT")) <= 1363539029
+        and formats.cassini.is_coiss_1006(data)
     ):
         return formats.cassini.coiss_1006_offset(data, name, identifiers)
     if (
-- 
2.43.0


From 9c75021d2a2e1d728adfa2a8c1ea8b3eaf96ea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:30 +0000
Subject: [PATCH 82/86] fix: take no other HDU's header for the data of an
 empty one

---
 pdr/loaders/handlers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pdr/loaders/handlers.py b/pdr/loaders/handlers.py
index dd6575e..df183a7 100644
--- a/pdr/loaders/handlers.py
+++ b/pdr/loaders/handlers.py
@@ -65,6 +65,9 @@ def handle_fits_file(
     """
     from astropy.io import fits
 
+    # only objects of PDS3 labels come with an HDUList; headers among them are
+    # named so
+    labeled = hdulist is not None
     if hdulist is None:
         with warnings.catch_warnings():
             warnings.filterwarnings("ignore", module="astropy.io.fits.card")
@@ -72,6 +75,9 @@ def handle_fits_file(
     if hdu_id_is_index is False:
         objrec = hdu_byte_index(hdulist)[hdu_id]
         hdu_ix, is_header = objrec['ix'], objrec['part'] == 'header'
+        if is_header and labeled and "HEADER" not in name:
+            # the data of an HDU that has none "start" at the next one's header
+            raise ValueError(f"{name} belongs to an HDU without data.")
     else:
         # this is the case when dealing with a FITS file in 'primary' mode.
         hdu_ix, is_header = hdu_id, False
-- 
2.43.0


From a49b610d7b42f590f7b3e1786e59659e872c1220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 83/86] fix: find CLASS tables in folders with dots in their
 names

---
 pdr/formats/ch2_isro.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pdr/formats/ch2_isro.py b/pdr/formats/ch2_isro.py
index 1aa869b..8817316 100644
--- a/pdr/formats/ch2_isro.py
+++ b/pdr/formats/ch2_isro.py
@@ -12,7 +12,7 @@ def read_class_fits_table(filename, object):
     from astropy.io import fits
 
     if filename.endswith(".xml"):
-        filename = filename.split('.')[0]+".fits"
+        filename = filename[:-len(".xml")] + ".fits"
     hdu = fits.open(filename)
     if object == 'data':
         # returns a recarray
-- 
2.43.0


From b60ff752e31fbcef451aba5509bd3cbed9dc5949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 84/86] fix: read Chang'e tables with a single field

---
 pdr/formats/change.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pdr/formats/change.py b/pdr/formats/change.py
index bc0aa5a..5815812 100644
--- a/pdr/formats/change.py
+++ b/pdr/formats/change.py
@@ -40,8 +40,12 @@ def read_change_fw_table(structure, fn):
     """
     import pandas as pd
 
+    fields = structure.meta_data['Record_Character']['Field_Character']
+    # a single field isn't in a list
+    if not isinstance(fields, list):
+        fields = [fields]
     cols = []
-    for i in structure.meta_data['Record_Character']['Field_Character']:
+    for i in fields:
         cols.append(i['name'])
 
     # if filename is label
@@ -68,8 +72,12 @@ def read_table_using_spaces(structure, fn):
     import pandas as pd
 
     # gather column names from structure meta data
+    fields = structure.meta_data['Record_Character']['Field_Character']
+    # a single field isn't in a list
+    if not isinstance(fields, list):
+        fields = [fields]
     cols = []
-    for i in structure.meta_data['Record_Character']['Field_Character']:
+    for i in fields:
         cols.append(i['name'])
 
     # deal with groups where we use same col names several times
-- 
2.43.0


From a3e08ef04bd4f67083fa94ad6be7ca505e1d7585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 85/86] fix: don't cut the values of Chang'e tables by the
 widths of their first rows

---
 pdr/formats/change.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pdr/formats/change.py b/pdr/formats/change.py
index 5815812..c609887 100644
--- a/pdr/formats/change.py
+++ b/pdr/formats/change.py
@@ -51,7 +51,10 @@ def read_change_fw_table(structure, fn):
     # if filename is label
     if fn[-1] == "L":
         fn = fn[:-1]
-    df = pd.read_fwf(fn, names=cols)
+    # later rows may have wider values than the first ones
+    df = pd.read_fwf(
+        fn, names=cols, infer_nrows=structure.meta_data['records']
+    )
     return df
 
 
-- 
2.43.0


From 295ea771bae63d896860c3e8bb88b17eca92eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:11 +0000
Subject: [PATCH 86/86] fix: find MSL cameras' .DAT files in folders with
 label-like names

---
 pdr/formats/msl_edr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pdr/formats/msl_edr.py b/pdr/formats/msl_edr.py
index a2f94f7..ff95fdb 100644
--- a/pdr/formats/msl_edr.py
+++ b/pdr/formats/msl_edr.py
@@ -61,12 +61,13 @@ def msl_msss_edr_prefix_fn(data):
     * msl_mrd
         * all
     """
-    target = data.filename
+    path = Path(data.filename)
+    target = path.name
     target = target.replace(".img", ".dat")
     target = target.replace(".IMG", ".DAT")
     target = target.replace(".lbl", ".dat")
     target = target.replace(".LBL", ".DAT")
-    return True, target
+    return True, str(path.with_name(target))
 
 
 def get_special_block(data, name):
-- 
2.43.0

