From a2a9da04c8a6212534154bfd71f2ed4c7cba1647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:36 +0000
Subject: [PATCH 01/82] fix: accept MapOf with a builtin or undefined-in-schema
 key type when unfolding MapOfEnum

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 6ce682c..3b1ee1b 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -170,7 +170,7 @@ def unfold_map_of_enum(schema: dict) -> NoReturn:
     typex = {t[TypeName]: n for n, t in enumerate(schema['types'])}       # Build type index
     for n, tdef in enumerate(schema['types']):
         to = topts_s2d(tdef.TypeOptions)
-        if tdef.BaseType == 'MapOf' and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
+        if tdef.BaseType == 'MapOf' and to['ktype'] in typex and schema['types'][typex[to['ktype']]][BaseType] == 'Enumerated':
             newfields = [GenFieldDefinition(f[ItemID], f[ItemValue], to['vtype'], [], f[ItemDesc]) for f in schema['types'][typex[to['ktype']]][Fields]]
             schema['types'][n] = TypeDefinition(tdef.TypeName, 'Map', [], tdef.TypeDesc, newfields)
 
-- 
2.43.0


From d366be32a3cd1e9f51a216d8fffc312e7bca6230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:02 +0000
Subject: [PATCH 02/82] fix: enforce minf/maxf when decoding Number

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3ae3763..07951c8 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -213,7 +213,7 @@ def _encode_number(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_number(ts: SymbolTableField, sval, codec: 'Codec'):
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, numbers.Real, isinstance(aval, bool))
-    return _check_range(ts, aval)
+    return _check_frange(ts, aval)
 
 
 def _encode_string(ts: SymbolTableField, aval, codec: 'Codec'):
-- 
2.43.0


From da0ad0ccbbcb289d429e1bd110016ba520724543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:07 +0000
Subject: [PATCH 03/82] fix: reject a value that matches no alternative when
 decoding an anyOf Choice

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 07951c8..3e98a35 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -306,6 +306,8 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
             raise_error(f'{td.TypeName}(allOf): {cf}/{n} invalid')
         if combine == 'X' and ct != 1:
             raise_error(f'{td.TypeName}(oneOf): {ct}/{n} valid')
+        if combine == 'O' and cf >= n:
+            raise_error(f'{td.TypeName}(anyOf): {ct}/{n} none valid')
         return v
 
     _check_type(ts, val, dict)
-- 
2.43.0


From d7198ba30eefd9e436603b7186af3009d479b8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:10 +0000
Subject: [PATCH 04/82] fix: count any rejection of an untagged Choice
 alternative as a mismatch

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 3e98a35..b472d73 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -259,7 +259,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except ValueError as e:
+            except (AttributeError, KeyError, TypeError, ValueError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -297,7 +297,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except ValueError:
+            except (AttributeError, KeyError, TypeError, ValueError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From 46a6fcfd5bdf2071d310bb5d22626b9a109c44b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:33 +0000
Subject: [PATCH 05/82] fix: encode and decode Map with the id option in
 verbose_str mode

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index b472d73..8308350 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -327,7 +327,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_size(ts, aval)
     sval = ts.EncType()
     assert isinstance(sval, (list, dict))
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
     fnames = [f.Def.FieldName for f in ts.Fld.values()]
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
@@ -362,7 +362,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
     aval = dict()
-    fx = FieldName if codec.verbose_str else FieldID  # Verbose or minified identifier strings
+    fx = FieldName if codec.verbose_str and 'id' not in ts.TypeOpts else FieldID  # Verbose or minified identifier strings
     fnames = list(ts.Fld)
     for f in ts.TypeDef.Fields:
         fs = ts.Fld[f[fx]]  # Symtab entry for field
-- 
2.43.0


From e0d5377c4d5a9c0421ee9bf6e1a54e26cb5bf791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:37 +0000
Subject: [PATCH 06/82] fix: compare nested arrays as ordered values when
 checking unique ArrayOf elements

---
 distribution/src/jadn/codec/codec.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 8308350..b453d52 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -58,10 +58,7 @@ class CodecTableField(BasicDataclass):
 def fset(x):
     if isinstance(x, dict):
         return frozendict({k: fset(v) for k, v in x.items()})
-    try:
-        return frozenset(x) if isinstance(x, (tuple, list, set)) else x
-    except TypeError as e:
-        return frozenset((fset(v) for v in x))
+    return tuple(fset(v) for v in x) if isinstance(x, (tuple, list)) else x
 
 
 def _bad_index(ts: SymbolTableField, k: int, val: list) -> None:
@@ -453,7 +450,7 @@ def _encode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
     if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+        if len(val) != len(set(fset(val))):
             _bad_value(ts, val)
     return [codec.encode(ts.TypeOpts['vtype'], v) for v in val]
 
@@ -462,7 +459,7 @@ def _decode_array_of(ts: SymbolTableField, val, codec: 'Codec'):
     _check_type(ts, val, list)
     _check_size(ts, val)
     if 'set' in ts.TypeOpts or 'unique' in ts.TypeOpts:
-        if len(val) != len(fset(val)):
+        if len(val) != len(set(fset(val))):
             _bad_value(ts, val)
     return [codec.decode(ts.TypeOpts['vtype'], v) for v in val]
 
-- 
2.43.0


From 5fae37f6655b9f33afcdf06ec55265f1e6bfb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:40 +0000
Subject: [PATCH 07/82] fix: report extra array elements that are not hashable
 as unexpected fields

---
 distribution/src/jadn/codec/codec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index b453d52..2f86153 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -382,7 +382,7 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         else:
             if 'minc' not in fopts or fopts['minc'] > 0:
                 _bad_value(ts, val, fd)
-    extra = set(val) - set(fnames) if isinstance(val, dict) else set(val[len(ts.Fld):])
+    extra = set(val) - set(fnames) if isinstance(val, dict) else val[len(ts.Fld):]
     if extra:
         _extra_value(ts, val, extra)
     return aval
@@ -394,7 +394,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
     _check_count(ts, aval)
     sval = list()
     if len(aval) > len(ts.Fld):
-        _extra_value(ts, aval, set(aval[len(ts.Fld):]))
+        _extra_value(ts, aval, aval[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn.FieldID].Def  # Use symtab field definition
         fx = f.FieldID - 1
@@ -423,7 +423,7 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
     _check_count(ts, sval)
     aval = list()
     if len(val) > len(ts.Fld):
-        _extra_value(ts, val, set(aval[len(ts.Fld):]))
+        _extra_value(ts, val, val[len(ts.Fld):])
     for fn in ts.TypeDef.Fields:
         f = ts.Fld[fn[FieldID]].Def  # Use symtab field definition
         fx = f[FieldID] - 1
-- 
2.43.0


From 6ad14e6fea936f650ff76d9d69e13345a7a98809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:35:43 +0000
Subject: [PATCH 08/82] fix: count populated fields, not placeholders or
 characters, when decoding Record and Array

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 2f86153..95cf3ab 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -354,7 +354,7 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
 
 def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
     _check_type(ts, sval, ts.EncType)
-    _check_size(ts, sval)   # TODO: _check_count() for concise records
+    _check_count(ts, sval)
     val = sval
     if ts.EncType == dict:
         val = {_check_key(ts, k): v for k, v in sval.items()}
@@ -420,7 +420,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
     val = ts.FormatDecode(sval)
     _check_type(ts, val, list)
-    _check_count(ts, sval)
+    _check_count(ts, val)
     aval = list()
     if len(val) > len(ts.Fld):
         _extra_value(ts, val, val[len(ts.Fld):])
-- 
2.43.0


From 8e907505a62da3c3525a2c30f213e11b96801342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:33 +0000
Subject: [PATCH 09/82] fix: resolve the tagid field in every encoding mode and
 reject a missing tag

---
 distribution/src/jadn/codec/__init__.py |  2 +-
 distribution/src/jadn/codec/codec.py    | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 629db22..ca41f00 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -79,7 +79,7 @@ class Codec:
             assert fopts['minc'] in (0, 1) and fopts['maxc'] == 1     # Other cardinalities have been simplified
             ctag: Optional[int] = None
             if 'tagid' in fopts:
-                ctag = fopts['tagid'] if fa == FieldID else fnames[fopts['tagid']]
+                ctag = fnames[fopts['tagid']]
             return SymbolTableFieldDefinition(
                 fld,        # SF_DEF: JADN field definition
                 fopts,      # SF_OPT: Field options (dict)
diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 95cf3ab..d2590e6 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -332,8 +332,8 @@ def _encode_maprec(ts: SymbolTableField, aval, codec: 'Codec'):
         fname = fd[FieldName]  # Field name
         fopts = fs.Opt  # Field options dict
         ctag = fs.cTag
-        if ctag is not None:  # Type of this field is specified by contents of another field
-            e = codec.encode(fd.FieldType, {aval[ctag]: aval[fname]})
+        if ctag is not None and fname in aval:  # Type of this field is specified by contents of another field
+            e = codec.encode(fd.FieldType, {aval.get(ctag): aval[fname]})
             sv = next(iter(e.values()))
         else:
             sv = codec.encode(fd.FieldType, aval[fname]) if fname in aval else None
@@ -374,8 +374,12 @@ def _decode_maprec(ts: SymbolTableField, sval, codec: 'Codec'):
         if sv is not None:
             ctag = fs.cTag
             if ctag is not None:  # Type of this field is specified by contents of another field
-                ct = ctag if isinstance(val, dict) else ts.eMap[ctag] - 1
-                av = codec.decode(fd.FieldType, {sval[ct]: sv})
+                tagid = fopts['tagid']
+                if isinstance(val, dict):
+                    choice_type = val.get(ctag if fx == FieldName else tagid)
+                else:
+                    choice_type = val[tagid - 1] if len(val) >= tagid else None
+                av = codec.decode(fd.FieldType, {choice_type: sv})
                 aval[fd[FieldName]] = next(iter(av.values()))
             else:
                 aval[fd[FieldName]] = codec.decode(fd.FieldType, sv)
@@ -402,7 +406,7 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
         av = aval[fx] if len(aval) > fx else None
         if av is not None:
             if 'tagid' in fopts:
-                choice_type = aval[int(fopts['tagid']) - 1]
+                choice_type = aval[fopts['tagid'] - 1] if len(aval) >= fopts['tagid'] else None
                 e = codec.encode(f.FieldType, {choice_type: av})
                 sv = e[next(iter(e))]
             else:
@@ -431,7 +435,7 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
         sv = val[fx] if len(val) > fx else None
         if sv is not None:
             if 'tagid' in fopts:
-                choice_type = val[int(fopts['tagid']) - 1]
+                choice_type = val[fopts['tagid'] - 1] if len(val) >= fopts['tagid'] else None
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
             else:
-- 
2.43.0


From b782d14ad99717bdd717dc1b0bef29b3b0b35053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:36 +0000
Subject: [PATCH 10/82] fix: reject boolean values for Enumerated types
 identified by integer

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index d2590e6..6007514 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -229,7 +229,7 @@ def _decode_string(ts: SymbolTableField, sval, codec: 'Codec'):
 
 def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: disable=R1710
     # TODO: Serialization
-    _check_type(ts, aval, type(next(iter(ts.eMap))))
+    _check_type(ts, aval, type(next(iter(ts.eMap))), isinstance(aval, bool))
     if aval in ts.eMap:
         return ts.eMap[aval]
     td = ts.TypeDef
@@ -237,7 +237,7 @@ def _encode_enumerated(ts: SymbolTableField, aval, codec: 'Codec'):  # pylint: d
 
 
 def _decode_enumerated(ts: SymbolTableField, sval, codec: 'Codec'):  # pylint: disable=R1710
-    _check_type(ts, sval, type(next(iter(ts.dMap))))
+    _check_type(ts, sval, type(next(iter(ts.dMap))), isinstance(sval, bool))
     if sval in ts.dMap:
         return ts.dMap[sval]
     td = ts.TypeDef
-- 
2.43.0


From bf6c647680d0f4bf509de037bbf35767887064a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:04 +0000
Subject: [PATCH 11/82] fix: serialize bare Binary fields as base64url instead
 of leaving raw bytes

---
 distribution/src/jadn/codec/__init__.py              |  9 ++++-----
 distribution/src/jadn/codec/format_serialize_json.py | 10 +++++-----
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index ca41f00..a5483ee 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -17,7 +17,7 @@ from .format_validate import format_validators, get_format_validate_function
 from ..utils import ftopts_s2d, get_config, object_types, raise_error, topts_s2d
 from ..definitions import (
     # Field Indexes
-    BaseType, FieldID, FieldName,
+    FieldID, FieldName,
     # Const values
     PRIMITIVE_TYPES, CORE_TYPES,
     # Dataclass
@@ -149,10 +149,9 @@ class Codec:
                 Decode=enctab[t].Dec,
                 EncType=enctab[t].eType,
                 TypeOpts={},
-                # TODO: check if t[BaseType] should just be t
-                FormatValidate=get_format_validate_function(self.format_validate, t[BaseType], ''),
-                FormatEncode=get_format_encode_function(self.format_codec, t[BaseType], ''),
-                FormatDecode=get_format_decode_function(self.format_codec, t[BaseType], '')
+                FormatValidate=get_format_validate_function(self.format_validate, t, ''),
+                FormatEncode=get_format_encode_function(self.format_codec, t, ''),
+                FormatDecode=get_format_decode_function(self.format_codec, t, '')
             )
 
 
diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index f19a743..064b554 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -114,18 +114,18 @@ FORMAT_CONVERT_BINARY_FUNCTIONS = {
 }
 
 
-# IP Net (address, prefix length tuple) conversions
+# IP Net (address, prefix length tuple) conversions.  Address is a serialized (base64url) Binary value
 def a2s_ipv4_net(aval: [str, int]) -> str:
     if aval[1] < 0 or aval[1] > 32:  # Verify prefix length is valid
         raise ValueError
-    sa = b2s_ipv4_addr(aval[0])      # Convert Binary bytes to type-specific string
+    sa = b2s_ipv4_addr(s2b_base64url(aval[0]))      # Convert Binary bytes to type-specific string
     return f'{sa}/{aval[1]}' if aval[1] != 32 else sa
 
 
 def a2s_ipv6_net(aval: [str, int]) -> str:
     if aval[1] < 0 or aval[1] > 128:  # Verify prefix length is valid
         raise ValueError
-    sa = b2s_ipv6_addr(aval[0])       # Convert Binary bytes to type-specific string
+    sa = b2s_ipv6_addr(s2b_base64url(aval[0]))       # Convert Binary bytes to type-specific string
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
@@ -135,7 +135,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
     prefix_len = int(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
         raise ValueError
-    return [sa, prefix_len]
+    return [b2s_base64url(sa), prefix_len]
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
@@ -144,7 +144,7 @@ def s2a_ipv6_net(sval: str) -> [str, int]:
     prefix_len = int(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
         raise ValueError
-    return [sa, prefix_len]
+    return [b2s_base64url(sa), prefix_len]
 
 
 def a2s_tag_uuid(aval: [str, str]) -> str:
-- 
2.43.0


From d2863de68b0a505a70e96d359603a58d84d4846d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:08 +0000
Subject: [PATCH 12/82] fix: decode and validate the keys of MapOf

---
 distribution/src/jadn/codec/codec.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 6007514..b8c4be5 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -476,9 +476,16 @@ def _encode_map_of(ts: SymbolTableField, aval, codec: 'Codec'):
 
 
 def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
+    def decode_key(k):
+        try:
+            return codec.decode(to['ktype'], k)
+        except ValueError:
+            return codec.decode(to['ktype'], int(k))    # JSON converts integer keys to strings
+
     _check_type(ts, sval, dict)
     _check_size(ts, sval)
-    return {k: codec.decode(ts.TypeOpts['vtype'], v) for k, v in sval.items()}
+    to = ts.TypeOpts
+    return {decode_key(k): codec.decode(to['vtype'], v) for k, v in sval.items()}
 
 
 enctab: Dict[str, CodecTableField] = {  # decode, encode, min encoded type
-- 
2.43.0


From 00cbb5e473be1f740224d6d0e4d8e3d9079b91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:24 +0000
Subject: [PATCH 13/82] fix: convert datetime-ms exactly to and from
 milliseconds

---
 distribution/src/jadn/codec/format_serialize_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 064b554..b8ba4df 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -3,7 +3,7 @@ import binascii
 import re
 import string
 
-from datetime import datetime, timezone
+from datetime import datetime, timedelta, timezone
 from ipaddress import IPv4Address, IPv6Address
 from typing import Any, Callable, Dict, Tuple
 from ..definitions import FORMAT_SERIALIZE
@@ -164,7 +164,7 @@ FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
 
 
 def int2datems(dt: int) -> str:
-    y = datetime.isoformat(datetime.fromtimestamp(dt/1000., timezone.utc))
+    y = datetime.isoformat(datetime.fromtimestamp(0, timezone.utc) + timedelta(milliseconds=dt))
     if m := re.match(r'^(.+)(\.\d\d\d)(\d\d\d)(.+)$', y):   # strip microseconds to milliseconds
         y = m.group(1) + m.group(2) + m.group(4)
     return y
@@ -172,7 +172,7 @@ def int2datems(dt: int) -> str:
 
 def datems2int(dts: str) -> int:
     x = datetime.fromisoformat(dts.upper().replace('Z', '+00:00').replace(' ', 'T'))
-    return int(1000 * datetime.timestamp(x))
+    return round(1000 * datetime.timestamp(x))
 
 
 # No special sized integer serialization in JSON.  Define these for packed encoding.
-- 
2.43.0


From 788d896f63c36c9ef02f85465e08aa2a9b64f22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:20 +0000
Subject: [PATCH 14/82] fix: keep JIDL descriptions that contain quoted text

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 1c31e6c..06d54fe 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -92,7 +92,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
             return 'I', [m.group(1), m.group(2)]
 
         q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
-        s = q.end() if q else 0
+        s = q.end() if q and ' //' not in line[:q.start()] else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
             desc = line[s + d.end():].strip()
-- 
2.43.0


From d472e50ab34cae7b63aea8c20682a16043ab1dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:23 +0000
Subject: [PATCH 15/82] fix: do not take format or keyword options from inside
 a pattern

---
 distribution/src/jadn/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index dd9c801..273b940 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -293,6 +293,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
                     topts.update({} if b == '*' else {'maxv': int(b)})
             else:
                 raise_error(f'unrecognized arg "{opt}", expected pattern or range')
+        rest = re.sub(p_rangepat, '', rest)     # Pattern may contain text that looks like a format or keyword
         for opt in re.findall(p_format, rest):
             topts.update({'format': opt})
         for opt in re.findall(p_kw, rest):
-- 
2.43.0


From 923ad25ad7ce34e21e8778a0ebfcb05a02e41a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:26 +0000
Subject: [PATCH 16/82] fix: preserve the extend option in type strings (JIDL,
 HTML)

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 273b940..65a51ee 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -259,7 +259,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
     p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
     p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence)'    # 6 multiplicity
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity
     pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
@@ -367,6 +367,9 @@ def jadn2typestr(tname: str, topts: list[OPTION_TYPES]) -> str:
 
     if opts.pop('sequence', None):
         extra += ' sequence'
+
+    if opts.pop('extend', None):
+        extra += ' extend'
     return f"{tname}{extra}{f' ?{str(map(str, opts))}?' if opts else ''}"  # Flag unrecognized options
 
 
-- 
2.43.0


From 996c601cf2a861a9bbe4876fef144275e4508fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:29 +0000
Subject: [PATCH 17/82] fix: load HTML files, and files without a text buffer,
 with load_any

---
 distribution/src/jadn/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 55a20ab..382726a 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -172,13 +172,13 @@ def load(fp: TextIO) -> dict:
 
 
 def load_any(fp: TextIO) -> dict:
-    name = getattr(fp, 'name', getattr(getattr(fp, 'buffer'), 'url', ''))
+    name = getattr(fp, 'name', getattr(getattr(fp, 'buffer', None), 'url', ''))
     fn, ext = os.path.splitext(name)
     try:
         loader = {
             '.jadn': jadn.load,
             '.jidl': jadn.convert.jidl_load,
-            '.html': jadn.convert.html_load
+            '.html': lambda f: jadn.convert.html_loads(f.read())
         }[ext]
     except KeyError:
         raise KeyError(f'Unsupported schema format: {name}')
-- 
2.43.0


From 957effb34ddea2bdc19569c20422067cec4b7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:56 +0000
Subject: [PATCH 18/82] fix: ignore the source header comment when loading JIDL

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index 06d54fe..f342426 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -86,7 +86,7 @@ def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None
 
 # Convert JIDL to JADN
 def line2jadn(line: str, tdef: list) -> tuple[str, list]:
-    if line.split('//', maxsplit=1)[0].strip():
+    if line.split('//', maxsplit=1)[0].strip() and not line.startswith('/*'):
         p_info = r'^\s*([-\w]+):\s*(.+?)\s*$'
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
-- 
2.43.0


From 26f070d6cae13910879a581422d235b6340c40ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:52 +0000
Subject: [PATCH 19/82] fix: name derived enumerations with the id option in
 any position -Id

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 3b1ee1b..7e0b384 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -65,7 +65,7 @@ def epname(topts: List[OPTION_TYPES], sys: str) -> Union[str, None]:
     if x is None:
         return None
     oname = 'Enum' if topts[x][0] == OPTION_ID['enum'] else 'Pointer'
-    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') else ''}"
+    return f"{topts[x][1:]}{sys}{oname}{'-Id' if get_optx(topts, 'id') is not None else ''}"
 
 
 # Replace field multiplicity with explicit ArrayOf type definitions
-- 
2.43.0


From 632f95b04b161455bf1514075d92ba4ba62eb1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:54 +0000
Subject: [PATCH 20/82] fix: create a derived Enumerated type only once when
 several types refer to it

---
 distribution/src/jadn/transform/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 7e0b384..ebef32f 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -123,6 +123,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 else:                   # Make new Enumerated type
                     make_items = enum_items if opts[n][1:2] == OPTION_ID['enum'] else pointer_items
                     opts[n] = f'{opts[n][:1]}{name}'
+                    enums.update({name: name})
                     schema['types'].append(TypeDefinition(name, 'Enumerated', [], '', [EnumFieldDefinition(*f) for f in make_items(name.rsplit(sys, maxsplit=1)[0])]))
 
     def enum_items(rtype: str) -> list:
-- 
2.43.0


From cb61310e3f9c89cc071ee69b5adb32bd774d6bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:58 +0000
Subject: [PATCH 21/82] fix: keep the full path of nested directories in
 pointer enumerations

---
 distribution/src/jadn/transform/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index ebef32f..b5e8331 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -140,7 +140,7 @@ def unfold_derived_enum(schema: dict, sys: str) -> NoReturn:
                 for f in tdef.Fields:
                     if OPTION_ID['dir'] in f.FieldOptions:
                         if f.FieldType in typex:
-                            yield from pathnames(f.FieldType, f'{f.FieldName}/')
+                            yield from pathnames(f.FieldType, f'{base}{f.FieldName}/')
                     else:
                         yield [base + f.FieldName, f.FieldDesc]
         return [[n+1] + f for n, f in enumerate(pathnames(rtype))]
-- 
2.43.0


From 1ba9183e1c9134fa65589ec314ce9fea40cee3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:41:16 +0000
Subject: [PATCH 22/82] fix: keep element constraints when unfolding fields
 with multiplicity

---
 distribution/src/jadn/transform/transform.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index b5e8331..4c09bee 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -76,6 +76,11 @@ def unfold_multiplicity(schema: dict, sys: str) -> NoReturn:
                 fo, fto = ftopts_s2d(fdef.FieldOptions)
                 if 'maxc' in fo and fo['maxc'] != 1:
                     minc = fo.get('minc', 1)
+                    if topts := [o for o in fto if o != 'unique']:  # Elements have constraints: make explicit type
+                        eopts = [fdef.FieldOptions.pop(get_optx(fdef.FieldOptions, o)) for o in topts]
+                        ename = f'{tdef.TypeName}{sys}{fdef.FieldName}{sys}1'
+                        schema['types'].append(TypeDefinition(ename, fdef.FieldType, eopts, fdef.FieldDesc))
+                        fdef.FieldType = ename
                     newopts = {
                         'vtype': fdef.FieldType,
                         'minv': max(minc, 1),  # Don't allow empty ArrayOf
-- 
2.43.0


From 81d61c64ae300290cd5e195507b35aed4a37e355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:50 +0000
Subject: [PATCH 23/82] fix: list the enumerated type, not the option string,
 as a dependency of ktype and vtype

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 65a51ee..e30bd49 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -96,9 +96,9 @@ def build_deps(schema: dict[str, list]) -> dict[str, list[str]]:
     def get_refs(tdef: list) -> list[str]:  # Return all type references from a type definition
         # Options whose value is/has a type name: strip option id
         oids = [OPTION_ID['ktype'], OPTION_ID['vtype']]
-        # Options that enumerate fields: keep option id
+        # Options that enumerate fields (also within ktype, vtype): strip option id
         oids2 = [OPTION_ID['enum'], OPTION_ID['pointer']]
-        refs = [to[1:] for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
+        refs = [to[1:].lstrip(''.join(oids2)) for to in tdef[TypeOptions] if to[0] in oids and not is_builtin(to[1:])]
         refs += ([to[1:] for to in tdef[TypeOptions] if to[0] in oids2])
         if has_fields(tdef[BaseType]):  # Ignore Enumerated
             for f in tdef[Fields]:
-- 
2.43.0


From a5569d2d4f17d676c2555ca2a84357a6a8a57cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:54 +0000
Subject: [PATCH 24/82] fix: record references to other packages without
 raising AttributeError

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 064f68b..1b1e390 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -49,7 +49,7 @@ class SchemaPackage:
                     self.deps[tn].remove(dn)
                     nsid, typename = dn.split(':', maxsplit=1)
                     try:
-                        self.refs[self.namespaces[nsid]][tn].add(typename)
+                        self.refs[self.namespaces[nsid]][tn].append(typename)
                     except KeyError as e:
                         raise_error(f'Resolve: no namespace defined for {e}')
 
-- 
2.43.0


From 5ad4fa95af96734945324176a426b993327737b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:57 +0000
Subject: [PATCH 25/82] fix: do not use undefined option 'and' when merging
 types

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 1b1e390..97d09e6 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -78,7 +78,7 @@ def merge_tname(tref: str, package: str, namespaces: dict[str, str], nsids: dict
 
 def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: dict, sys: str = '$') -> list:
     # Options whose value is/has a type name
-    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer'], OPTION_ID['and']]
+    oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
         return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
-- 
2.43.0


From 39deb550438cd8898cdd81681165e7e9fc34607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:00 +0000
Subject: [PATCH 26/82] fix: resolve imports of packages with v1.1 namespaces
 array

---
 distribution/src/jadn/transform/resolve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 97d09e6..94c98e1 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -33,7 +33,7 @@ class SchemaPackage:
         except KeyError:
             raise_error(f'Schema package {self.source} must have a package ID')
 
-        self.namespaces = self.schema['info']['namespaces'] if 'namespaces' in self.schema['info'] else {}
+        self.namespaces = dict(self.schema['info'].get('namespaces', {}))      # Either v1.1 array or v1.0 object
         self.clear()
 
     def load(self) -> None:     # Validate schema, build type dependencies and external references
-- 
2.43.0


From 3329013d19740542ac98b16406ad2301b42f2f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:03 +0000
Subject: [PATCH 27/82] fix: resolve imports starting at the roots of a package

---
 distribution/src/jadn/transform/resolve.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 94c98e1..b176bbd 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -155,7 +155,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
             print(f'* Duplicate package {sm.package}, Using: {packages[sm.package].source}, Ignoring: {fn}')
         for i, m in sm.namespaces.items():
             nsids[m].append('' if i in no_nsid else i)
-    resolve(root, root.schema['info']['exports'] if 'exports' in root.schema['info'] else set(), packages)
+    info = root.schema['info']
+    resolve(root, set(info.get('roots', info.get('exports', []))), packages)    # Exports is deprecated
 
     for t in root.used.copy():
         if t[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From 481a447529cb153b268e9591e357012de99d24fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:06 +0000
Subject: [PATCH 28/82] fix: merge references to types enumerated in ktype and
 vtype options

---
 distribution/src/jadn/transform/resolve.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index b176bbd..40c17a6 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -81,7 +81,11 @@ def merge_typedef(tdef: list, package: str, namespaces: dict[str, str], nsids: d
     oids = [OPTION_ID['ktype'], OPTION_ID['vtype'], OPTION_ID['enum'], OPTION_ID['pointer']]
 
     def update_opts(opts: list[str]) -> list[str]:
-        return [f'{x[0]}{merge_tname(x[1:], package, namespaces, nsids, sys)}' if x[0] in oids else x for x in opts]
+        return [f'{x[0]}{merge_ref(x[1:])}' if x[0] in oids else x for x in opts]
+
+    def merge_ref(tref: str) -> str:    # Type name, or enum/pointer option within ktype or vtype
+        oid = tref[0] if tref[0] in (OPTION_ID['enum'], OPTION_ID['pointer']) else ''
+        return oid + merge_tname(tref[len(oid):], package, namespaces, nsids, sys)
 
     td = [
         merge_tname(tdef[TypeName], package, namespaces, nsids, sys),
-- 
2.43.0


From 1036b28a3d60429799482af3b127134d56c530d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:10 +0000
Subject: [PATCH 29/82] fix: use the namespace ids of a package that is not in
 the directory of imports

---
 distribution/src/jadn/transform/resolve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/transform/resolve.py b/distribution/src/jadn/transform/resolve.py
index 40c17a6..139459a 100644
--- a/distribution/src/jadn/transform/resolve.py
+++ b/distribution/src/jadn/transform/resolve.py
@@ -147,6 +147,8 @@ def resolve_imports(schema: dict, dirname: str, no_nsid: tuple[str, ...] = ()):
     root = SchemaPackage(schema)
     packages = {root.package: root}
     nsids = defaultdict(list)
+    for i, m in root.namespaces.items():
+        nsids[m].append('' if i in no_nsid else i)
 
     for fn in (os.path.join(dirname, f) for f in os.listdir(dirname) if os.path.splitext(f)[1] in ('.jadn', '.jidl')):
         with open(fn, 'r', encoding='utf-8') as fp:
-- 
2.43.0


From 76419437b102b84cb3e68b2c187c2177da9245a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:17 +0000
Subject: [PATCH 30/82] fix: canonicalize Number limits that have an exponent
 or trailing zeros

---
 distribution/src/jadn/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index e30bd49..d81d506 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -211,13 +211,13 @@ def canonicalize(schema: dict) -> dict:
             del_opt(olist, 'minc')
         if 'maxc' in fo and fo['maxc'] == 1:
             del_opt(olist, 'maxc')
-        if basetype == 'Number':           # TODO: fix corner case input = 2.000
+        if basetype == 'Number':
             minf = get_optx(olist, 'minf')
-            if minf is not None and '.' not in olist[minf]:
-                olist[minf] += '.0'
+            if minf is not None:
+                olist[minf] = olist[minf][0] + str(to['minf'])
             maxf = get_optx(olist, 'maxf')
-            if maxf is not None and '.' not in olist[maxf]:
-                olist[maxf] += '.0'
+            if maxf is not None:
+                olist[maxf] = olist[maxf][0] + str(to['maxf'])
 
     cschema = copy.deepcopy(schema)     # don't modify original
     for td in cschema['types']:
-- 
2.43.0


From 8f4714ce5f2c20875de98b9c04a6fa18c9c96069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:01 +0000
Subject: [PATCH 31/82] fix: translate the set option to uniqueItems in JSON
 Schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 959d799..b489226 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -274,7 +274,7 @@ def t_array(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_array_of(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('array', tdef[TypeDesc]),
-        {'uniqueItems': True} if 'unique' in topts else {},
+        {'uniqueItems': True} if 'unique' in topts or 'set' in topts else {},
         {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxItems': topts['maxv']} if 'maxv' in topts else {},
         {'items': w_kvtype(topts['vtype'], ctx)}
-- 
2.43.0


From 0d873bdca5b94b5b1e8e177863ff88336386f81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:05 +0000
Subject: [PATCH 32/82] fix: translate sized integer formats to limits in JSON
 Schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index b489226..554435d 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -205,6 +205,7 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
     return dmerge(
         w_td('integer', tdef[TypeDesc]),
+        JADN_FMT.get(topts.get('format'), {}),
         {'minimum': topts['minv']} if 'minv' in topts else {},
         {'maximum': topts['maxv']} if 'maxv' in topts else {}
     )
-- 
2.43.0


From f15a4c8c3a612b22c525b1899075865b5a200d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:08 +0000
Subject: [PATCH 33/82] fix: do not translate integer enumerations to a string
 pattern in JSON Schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 554435d..a192a18 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -122,7 +122,7 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     values = [f[vcol] for f in fields]
     es = ctx['enum_style']
     assert es in ['enum', 'const', 'regex']
-    if es == 'regex':
+    if es == 'regex' and not idopt:     # A pattern does not constrain integers
         return {'type': 'string', 'pattern': pattern(values)}
     if es == 'const':
         return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
-- 
2.43.0


From 32b5ac053e68420d1e36fb4b835afbe092cdd6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:32 +0000
Subject: [PATCH 34/82] fix: translate Binary key and value types without a
 dangling reference in JSON Schema

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index a192a18..cc6f839 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -100,7 +100,7 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
     """
     Make definition from ktype or vtype option
     """
-    stypes = {'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
+    stypes = {'Binary': 'string', 'Boolean': 'boolean', 'Integer': 'integer', 'Number': 'number', 'String': 'string'}
     if stype in stypes:
         return {'type': stypes[stype]}
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
-- 
2.43.0


From 89c37e3b7b08d768879e0058841656331e1a0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:46:48 +0000
Subject: [PATCH 35/82] fix: show the names of untagged Choice alternatives in
 Markdown tables

---
 distribution/src/jadn/convert/markdown.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 4958bd1..322c910 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -7,7 +7,7 @@ import re
 from datetime import datetime
 from typing import Tuple, Union
 from jadn.definitions import TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, FieldID, INFO_ORDER
-from jadn.utils import cleanup_tagid, get_optx, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
+from jadn.utils import cleanup_tagid, get_optx, id_type, fielddef2jadn, jadn2fielddef, jadn2typestr, raise_error, typestr2jadn
 
 # MARKDOWN -> JADN Type regexes
 p_tname = r'\s*([-$\w]+)'               # Type Name
@@ -54,7 +54,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
             tdef = f'{td[TypeName]} ({jadn2typestr(td[BaseType], td[TypeOptions])})'
             tdesc = f'\n{td[TypeDesc]}\n' if td[TypeDesc] else ''
             text += f'{tdesc}\n**Type: ' + tdef.replace("*", "\*") + '**\n'
-            idt = td[BaseType] == 'Array' or get_optx(td[TypeOptions], 'id') is not None
+            idt = id_type(td)
             table_type = (0 if td[BaseType] == 'Enumerated' else 2) + (0 if idt else 1)
             table = [
                 [['ID', 'Description']],
-- 
2.43.0


From 67bdd8a3e59953bff5879f8febba0f5a297c92b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:27 +0000
Subject: [PATCH 36/82] fix: convert formatted arrays whose components have
 formatted types

---
 distribution/src/jadn/codec/codec.py           |  6 +++++-
 .../src/jadn/codec/format_serialize_json.py    | 18 +++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index b8c4be5..da65486 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -418,7 +418,8 @@ def _encode_array(ts: SymbolTableField, aval, codec: 'Codec'):
                 _bad_value(ts, aval, f)
     while sval and sval[-1] is None:            # Strip non-populated trailing optional values
         sval.pop()
-    return ts.FormatEncode(sval)
+    # Multipart formats convert the API value, regardless of how its components are serialized
+    return ts.FormatEncode(aval) if 'format' in ts.TypeOpts else sval
 
 
 def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list of types, returned as a list
@@ -438,6 +439,9 @@ def _decode_array(ts: SymbolTableField, sval, codec: 'Codec'):  # Ordered list o
                 choice_type = val[fopts['tagid'] - 1] if len(val) >= fopts['tagid'] else None
                 d = codec.decode(f.FieldType, {choice_type: sv})  # TODO: fix str/int handling of choice
                 av = d[next(iter(d))]
+            elif 'format' in ts.TypeOpts:   # Component is already an API value, validate it
+                codec.encode(f.FieldType, sv)
+                av = sv
             else:
                 av = codec.decode(f.FieldType, sv)
             aval.append(av)
diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index b8ba4df..755238e 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -114,18 +114,18 @@ FORMAT_CONVERT_BINARY_FUNCTIONS = {
 }
 
 
-# IP Net (address, prefix length tuple) conversions.  Address is a serialized (base64url) Binary value
+# IP Net (address, prefix length tuple) conversions
 def a2s_ipv4_net(aval: [str, int]) -> str:
     if aval[1] < 0 or aval[1] > 32:  # Verify prefix length is valid
         raise ValueError
-    sa = b2s_ipv4_addr(s2b_base64url(aval[0]))      # Convert Binary bytes to type-specific string
+    sa = b2s_ipv4_addr(aval[0])      # Convert Binary bytes to type-specific string
     return f'{sa}/{aval[1]}' if aval[1] != 32 else sa
 
 
 def a2s_ipv6_net(aval: [str, int]) -> str:
     if aval[1] < 0 or aval[1] > 128:  # Verify prefix length is valid
         raise ValueError
-    sa = b2s_ipv6_addr(s2b_base64url(aval[0]))       # Convert Binary bytes to type-specific string
+    sa = b2s_ipv6_addr(aval[0])       # Convert Binary bytes to type-specific string
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
@@ -135,7 +135,7 @@ def s2a_ipv4_net(sval: str) -> [str, int]:
     prefix_len = int(sv[1]) if len(sv) > 1 else 32
     if prefix_len < 0 or prefix_len > 32:
         raise ValueError
-    return [b2s_base64url(sa), prefix_len]
+    return [sa, prefix_len]
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
@@ -144,16 +144,16 @@ def s2a_ipv6_net(sval: str) -> [str, int]:
     prefix_len = int(sv[1]) if len(sv) > 1 else 128
     if prefix_len < 0 or prefix_len > 128:
         raise ValueError
-    return [b2s_base64url(sa), prefix_len]
+    return [sa, prefix_len]
 
 
-def a2s_tag_uuid(aval: [str, str]) -> str:
-    return aval[0] + '-' + aval[1]
+def a2s_tag_uuid(aval: [str, bytes]) -> str:
+    return aval[0] + '-' + b2s_uuid(aval[1])
 
 
-def s2a_tag_uuid(sval: str) -> [str, str]:
+def s2a_tag_uuid(sval: str) -> [str, bytes]:
     t, u = sval.split('-', maxsplit=1)
-    return [t, u]
+    return [t, s2b_uuid(u)]
 
 
 FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
-- 
2.43.0


From dddaabbb7a8f38e397a6f4f0483b604275d8c057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:47 +0000
Subject: [PATCH 37/82] fix: reject Binary message values that are not strings

---
 distribution/src/jadn/codec/codec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index da65486..a14b212 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -174,6 +174,7 @@ def _encode_binary(ts: SymbolTableField, aval, codec: 'Codec'):    # Encode byte
 
 
 def _decode_binary(ts: SymbolTableField, sval, codec: 'Codec'):    # Decode ASCII string to bytes
+    _check_type(ts, sval, str)
     aval = _format_decode(ts, sval)
     _check_type(ts, aval, bytes)        # assert format decode returns correct type
     return _check_size(ts, aval)
-- 
2.43.0


From 40d6a13b0125bd31ba14f42e28d71cecb37abcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:51 +0000
Subject: [PATCH 38/82] fix: decode JSON text keys of MapOf types whose integer
 key type has a format

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index a14b212..006fd85 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -484,7 +484,7 @@ def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
     def decode_key(k):
         try:
             return codec.decode(to['ktype'], k)
-        except ValueError:
+        except (TypeError, ValueError):
             return codec.decode(to['ktype'], int(k))    # JSON converts integer keys to strings
 
     _check_type(ts, sval, dict)
-- 
2.43.0


From 8e0aa58beff2c2ff6da44dad0947f3c633664915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 39/82] fix: reject text following an email address

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 8bacf45..9cb1bbc 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.match(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval):
         return sval
     raise ValueError
 
-- 
2.43.0


From 1d169233d34d0120e5d7ddc3fa9739e6b507b1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:05 +0000
Subject: [PATCH 40/82] fix: reject hostnames that end in a newline or use
 non-ASCII digits

---
 distribution/src/jadn/codec/format_validate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 9cb1bbc..6ca19ec 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -50,8 +50,8 @@ def s_hostname(sval: str) -> str:
         hostname = hostname[:-1]  # strip exactly one dot from the right, if present
     if len(sval) > 253:
         raise ValueError
-    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)$", re.IGNORECASE)
-    if all(allowed.match(x) for x in hostname.split(".")):
+    allowed = re.compile(r"(?!-)[A-Z\d-]{1,63}(?<!-)", re.IGNORECASE | re.ASCII)
+    if all(allowed.fullmatch(x) for x in hostname.split(".")):
         return sval
     raise ValueError
 
-- 
2.43.0


From 23afeadb871a8dc7e5b73e62583669c2a3cf13fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:09 +0000
Subject: [PATCH 41/82] fix: count out of range dates as a mismatch of an
 untagged Choice alternative

---
 distribution/src/jadn/codec/codec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 006fd85..33a2d24 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -257,7 +257,7 @@ def _encode_choice(ts: SymbolTableField, val, codec: 'Codec'):
                 ct += 1
                 if combine == 'O':              # anyOf - done on success
                     break
-            except (AttributeError, KeyError, TypeError, ValueError) as e:
+            except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError) as e:
                 cf += 1
                 err.append(e)
                 continue
@@ -295,7 +295,7 @@ def _decode_choice(ts: SymbolTableField, val, codec: 'Codec'):  # Map Choice:  v
                 ct += 1
                 if combine == 'O':  # oneOf - done on success
                     break
-            except (AttributeError, KeyError, TypeError, ValueError):
+            except (ArithmeticError, AttributeError, LookupError, TypeError, ValueError):
                 cf += 1
                 continue
         td = ts.TypeDef
-- 
2.43.0


From 5d8f968ec01ae436df5e76a6c1e60cdea92b4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:01 +0000
Subject: [PATCH 42/82] fix: treat a tagid that refers to field 0 like any
 other tagid

---
 distribution/src/jadn/core.py  | 2 +-
 distribution/src/jadn/utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 382726a..20bd01c 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -133,7 +133,7 @@ def check(schema: dict) -> dict:
                 if minc < 0 or maxc < 0 or (0 < maxc < minc):
                     raise_error(f'{type_def.TypeName}/{field.FieldName} bad multiplicity {minc} {maxc}')
 
-                if tf := fo.get('tagid', None):
+                if (tf := fo.get('tagid', None)) is not None:
                     if tf not in {f[FieldID] for f in fields}:
                         raise_error(f'{type_def.TypeName}/{field.FieldName}({field.FieldType}) choice has bad external tag {tf}')
                 if is_builtin(field.FieldType):
diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index d81d506..08fe3bf 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -399,7 +399,7 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         fo, fto = ftopts_s2d(fdef[FieldOptions])
         fname += '/' if 'dir' in fo else ''
         tf = ''
-        if tagid := fo.get('tagid', None):
+        if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
         ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
-- 
2.43.0


From 5489f0bd4cbc1819fb003be5abafefed084bc92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:03 +0000
Subject: [PATCH 43/82] fix: accept Enumerated items whose description is the
 name of a structured type

---
 distribution/src/jadn/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/core.py b/distribution/src/jadn/core.py
index 20bd01c..7f71fd4 100644
--- a/distribution/src/jadn/core.py
+++ b/distribution/src/jadn/core.py
@@ -94,7 +94,7 @@ def check(schema: dict) -> dict:
             raise_error(f'{type_def.TypeName}({type_def.BaseType}) should not have defined fields with the option enum/pointer')
         # Invalid anonymous field types
         for fd in fields:
-            if has_fields(fd[FieldType]):
+            if len(fd) > FieldDesc and has_fields(fd[FieldType]):   # Not an Enumerated item
                 raise_error(f'{type_def[TypeName]}/{fd[FieldName]}({fd[FieldID]}): Invalid type "{fd[FieldType]}"')
 
 
-- 
2.43.0


From c478c5892415e8e7e260a910688bf0d90c48d797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:10 +0000
Subject: [PATCH 44/82] fix: resolve the tag field names of the last type, and
 of types with interspersed comments, when loading JIDL and HTML

---
 distribution/src/jadn/convert/html.py | 5 ++---
 distribution/src/jadn/convert/jidl.py | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/convert/html.py b/distribution/src/jadn/convert/html.py
index 6079f49..66aaa23 100644
--- a/distribution/src/jadn/convert/html.py
+++ b/distribution/src/jadn/convert/html.py
@@ -163,14 +163,13 @@ def html_loads(hdoc: str) -> dict:
             t, v = line2jadn(line, types[-1] if types else None)
             if t == 'F':
                 fields.append(v)
-            elif fields:
-                cleanup_tagid(fields)
-                fields = None
             if t == 'M':
                 meta.update({v[0]: json.loads(v[1])})
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    for tdef in types:
+        cleanup_tagid(tdef[Fields])
     return check({'info': meta, 'types': types} if meta else {'types': types})
 
 
diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index f342426..ba39f62 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -131,14 +131,13 @@ def jidl_loads(doc: str) -> dict:
             t, v = line2jadn(line, types[-1] if types else None)    # Parse a JIDL line
             if t == 'F':
                 fields.append(v)
-            elif fields:
-                cleanup_tagid(fields)
-                fields = None
             if t == 'I':
                 info.update({v[0]: json.loads(v[1])})
             elif t == 'T':
                 types.append(v)
                 fields = types[-1][Fields]
+    for tdef in types:
+        cleanup_tagid(tdef[Fields])
     return check({'info': info, 'types': types} if info else {'types': types})
 
 
-- 
2.43.0


From 57b9020b280755517bc112ef767020600a6d896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:28 +0000
Subject: [PATCH 45/82] fix: read directory fields of types with field ids in
 JIDL

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index ba39f62..d4c6163 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -106,7 +106,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
             return 'T', newtype
 
         if tdef:        # looking for fields
-            pn = '()' if id_type(tdef) else p_fname
+            pn = r'\s*(/?)' if id_type(tdef) else p_fname
             if tdef[BaseType] == 'Enumerated':      # Parse Enumerated Item
                 pattern = fr'^{p_id}{p_fstr}$'
                 if m := re.match(pattern, line):
-- 
2.43.0


From 8252d61ce58b074da92afe31c088af8c992e06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:31 +0000
Subject: [PATCH 46/82] fix: ignore trailing blanks on JIDL lines without a
 description

---
 distribution/src/jadn/convert/jidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index d4c6163..efbcdde 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -86,6 +86,7 @@ def jidl_dump(schema: dict, fname: Union[bytes, str, int], source='', style=None
 
 # Convert JIDL to JADN
 def line2jadn(line: str, tdef: list) -> tuple[str, list]:
+    line = line.rstrip()
     if line.split('//', maxsplit=1)[0].strip() and not line.startswith('/*'):
         p_info = r'^\s*([-\w]+):\s*(.+?)\s*$'
         if m := re.match(p_info, line):
-- 
2.43.0


From bcd7c3e1bf4ef12d6472bc62acbf1e7a341f6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:35 +0000
Subject: [PATCH 47/82] fix: take only a String pattern as a quoted string when
 looking for the description in JIDL

---
 distribution/src/jadn/convert/jidl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/jidl.py b/distribution/src/jadn/convert/jidl.py
index efbcdde..7e1c005 100644
--- a/distribution/src/jadn/convert/jidl.py
+++ b/distribution/src/jadn/convert/jidl.py
@@ -92,7 +92,7 @@ def line2jadn(line: str, tdef: list) -> tuple[str, list]:
         if m := re.match(p_info, line):
             return 'I', [m.group(1), m.group(2)]
 
-        q = re.search(r'"(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
+        q = re.search(r'\{pattern="(?:[^"\\]|\\.)+"', line)  # Find quoted string (String pattern option)
         s = q.end() if q and ' //' not in line[:q.start()] else 0
         desc = ''
         if d := re.search(r' //', line[s:]):
-- 
2.43.0


From 01340cf500a7e2c1963c30a3c3aec3e430c36eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:51 +0000
Subject: [PATCH 48/82] fix: JSON Schema pattern of ipv6-addr accepts addresses
 without a zone

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index cc6f839..0cd9212 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -20,7 +20,7 @@ JADN_FMT = {
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
     'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
-    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)$'},
+    'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
-- 
2.43.0


From b8815a1e70cd6647b79b69af309d1f0f842669e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:54 +0000
Subject: [PATCH 49/82] fix: JSON Schema alternatives of an untagged Choice use
 the options of the alternative

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 0cd9212..78de73e 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -246,7 +246,7 @@ def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
     if combine := topts.get('combine'):
         c = {'O': 'anyOf', 'A': 'allOf', 'X': 'oneOf'}[combine]
-        return {c: [TYPE_WRITERS[f[FieldType]](tdef, topts, ctx) if is_builtin(f[FieldType]) else w_ref(f[FieldType], ctx) for f in tdef[Fields]]}
+        return {c: [w_fdef(f, ctx) for f in tdef[Fields]]}
 
     return dmerge(
         w_td('object', tdef[TypeDesc]),
-- 
2.43.0


From 2a6cc96fe1c7144a26f8073a7cc847b889f4f2e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:58 +0000
Subject: [PATCH 50/82] fix: JSON Schema enumerations derived from an
 Enumerated type in the const style

---
 distribution/src/jadn/translate/jsonschema_w.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 78de73e..fbc2a34 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -7,7 +7,7 @@ import re
 from datetime import datetime
 from typing import Callable, Optional, Union
 from ..definitions import (
-    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldID, FieldName, FieldType,
+    TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, FieldID, FieldName, FieldType,
     FieldOptions, FieldDesc, OPTION_ID, is_builtin
 )
 from ..transform.transform import get_enum_items
@@ -108,11 +108,11 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
         topts = topts_s2d(tdef[TypeOptions])
         fields = get_enum_items(tdef, topts, ctx['type_defs'])
         idopt = 'id' in topts
-        return w_enum(fields, FieldID if idopt else FieldName, FieldDesc, idopt, ctx)
+        return w_enum(fields, FieldID if idopt else FieldName, idopt, ctx)
     return {'$ref': f'#/definitions/{stype}'}
 
 
-def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
+def w_enum(fields: list, vcol: int, idopt: bool, ctx: dict) -> dict:
     def fdesc(fld: list, desc: str, idopt: bool) -> str:
         """
         Make field description
@@ -125,7 +125,7 @@ def w_enum(fields: list, vcol: int, dcol: int, idopt: bool, ctx: dict) -> dict:
     if es == 'regex' and not idopt:     # A pattern does not constrain integers
         return {'type': 'string', 'pattern': pattern(values)}
     if es == 'const':
-        return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[dcol], idopt)} for f in fields]}
+        return {'oneOf': [{'const': f[vcol], 'description': fdesc(f, f[-1], idopt)} for f in fields]}
     return {'enum': values}
 
 
@@ -236,10 +236,9 @@ def t_string(tdef: list, topts: dict, ctx: dict) -> dict:
 def t_enumerated(tdef: list, topts: dict, ctx: dict) -> dict:
     item, tname = (ItemID, 'integer') if 'id' in topts else (ItemValue, 'string')
     fields = get_enum_items(tdef, topts, ctx['type_defs'])
-    dcol = FieldDesc if 'enum' in topts or 'pointer' in topts else ItemDesc
     return dmerge(
         w_td(tname, tdef[TypeDesc]),
-        w_enum(fields, item, dcol, 'id' in topts, ctx)
+        w_enum(fields, item, 'id' in topts, ctx)
     )
 
 
-- 
2.43.0


From d8181b9a3530abd7b087418589fc6edbfae8e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:25 +0000
Subject: [PATCH 51/82] fix: JSON Schema integers keep both the limits of their
 format and their own

---
 distribution/src/jadn/translate/jsonschema_w.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index fbc2a34..81786f7 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -25,7 +25,8 @@ JADN_FMT = {
     'ipv6-net': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?s*(\/([0-9]|[1-9][0-9]|1[0-1][0-9]|12[0-8]))?$'},
     'i8': {'minimum': -128, 'maximum': 127},
     'i16': {'minimum': -32768, 'maximum': 32767},
-    'i32': {'minimum': -2147483648, 'maximum': 2147483647}
+    'i32': {'minimum': -2147483648, 'maximum': 2147483647},
+    'i64': {'minimum': -9223372036854775808, 'maximum': 9223372036854775807}
 }
 
 CONFIG_MAX = {
@@ -203,11 +204,13 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    fmt = JADN_FMT.get(topts.get('format'), {})
+    minv = [v for v in (topts.get('minv'), fmt.get('minimum')) if v is not None]
+    maxv = [v for v in (topts.get('maxv'), fmt.get('maximum')) if v is not None]
     return dmerge(
         w_td('integer', tdef[TypeDesc]),
-        JADN_FMT.get(topts.get('format'), {}),
-        {'minimum': topts['minv']} if 'minv' in topts else {},
-        {'maximum': topts['maxv']} if 'maxv' in topts else {}
+        {'minimum': max(minv)} if minv else {},
+        {'maximum': min(maxv)} if maxv else {}
     )
 
 
-- 
2.43.0


From 178636acb37beae27fe721a82bd195cf347ebb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:29 +0000
Subject: [PATCH 52/82] fix: JSON Schema properties of types with the id option
 are field ids

---
 distribution/src/jadn/translate/jsonschema_w.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 81786f7..c9d4686 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -175,6 +175,13 @@ def w_fdef(f: list, ctx: dict) -> dict:
     )
 
 
+def w_fname(f: list, topts: dict) -> str:
+    """
+    Make property name: field id in types with the id option
+    """
+    return str(f[FieldID]) if 'id' in topts else f[FieldName]
+
+
 def w_format(fmt: str) -> dict:
     """
     Make semantic validation keywords
@@ -256,7 +263,7 @@ def t_choice(tdef: list, topts: dict, ctx: dict) -> dict:
             'additionalProperties': False,
             'minProperties': 1,
             'maxProperties': 1,
-            'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}
+            'properties': {w_fname(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}
         }
     )
 
@@ -289,14 +296,14 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
         fo = ftopts_s2d(f[FieldOptions])[0]
         return fo['minc'] >= 1 if 'minc' in fo else True
 
-    required = [f[FieldName] for f in tdef[Fields] if req(f)]
+    required = [w_fname(f, topts) for f in tdef[Fields] if req(f)]
     return dmerge(
         w_td('object', tdef[TypeDesc]),
         {'additionalProperties': False},
         {'required': required} if required else {},
         {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
         {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-        {'properties': {f[FieldName]: w_fdef(f, ctx) for f in tdef[Fields]}}
+        {'properties': {w_fname(f, topts): w_fdef(f, ctx) for f in tdef[Fields]}}
     )
 
 
-- 
2.43.0


From cbd53eade14d595743d1d1b9fa8b4641a0628533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:56 +0000
Subject: [PATCH 53/82] fix: JSON Schema enumerations of pointers list the
 paths of the collection, numbered from 1

---
 distribution/src/jadn/transform/transform.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/transform/transform.py b/distribution/src/jadn/transform/transform.py
index 4c09bee..e3b138a 100644
--- a/distribution/src/jadn/transform/transform.py
+++ b/distribution/src/jadn/transform/transform.py
@@ -2,7 +2,7 @@ import copy
 
 from typing import Generator, List, NoReturn, Set, Union
 from ..definitions import (
-    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldOptions, FieldDesc, OPTION_ID,
+    TypeName, BaseType, TypeDesc, Fields, ItemID, ItemValue, ItemDesc, FieldName, FieldType, FieldOptions, FieldDesc, OPTION_ID,
     EXTENSIONS, OPTION_TYPES, is_builtin, has_fields, TypeDefinition, EnumFieldDefinition, GenFieldDefinition)
 from ..utils import (
     del_opt, ftopts_s2d, get_optx, list_type_schema, opts_d2s, object_type_schema, topts_s2d, etrunc, raise_error)
@@ -211,15 +211,19 @@ def unfold_extensions(schema: dict, extensions: Set[str] = None) -> dict:  # Rem
 
 
 def get_enum_items(tdef: list, topts: dict, types: dict) -> list:
-    def ptr(fdef: list):
-        if OPTION_ID['dir'] in fdef[FieldOptions]:
-            return f'{fdef[FieldName]}^'
-        return fdef[FieldName]
+    def pointers(rtype: str, base: str = '') -> list:   # Walk subfields of referenced type
+        items = []
+        for f in types[rtype][Fields] if has_fields(types[rtype][BaseType]) else []:
+            if OPTION_ID['dir'] in f[FieldOptions]:
+                items += pointers(f[FieldType], f'{base}{f[FieldName]}/') if f[FieldType] in types else []
+            else:
+                items.append([base + f[FieldName], f[FieldDesc]])
+        return items
 
     if 'enum' in topts:
         return types[topts['enum']][Fields]
     if 'pointer' in topts:
-        return [(n, ptr(f), '') for n, f in enumerate(types[topts['pointer']][Fields])]
+        return [[n, *f] for n, f in enumerate(pointers(topts['pointer']), start=1)]
     return tdef[Fields]
 
 
-- 
2.43.0


From d83c215c59eb4c97f3fd4234b57b9ba214c79827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 54/82] fix: JSON Schema element types: derived enumerations
 hold names or pointers, imported types are imports

---
 distribution/src/jadn/translate/jsonschema_w.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index c9d4686..eaf0210 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -106,11 +106,9 @@ def w_kvtype(stype: str, ctx: dict) -> dict:
         return {'type': stypes[stype]}
     if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
         tdef = ctx['type_defs'][stype[1:]]
-        topts = topts_s2d(tdef[TypeOptions])
-        fields = get_enum_items(tdef, topts, ctx['type_defs'])
-        idopt = 'id' in topts
-        return w_enum(fields, FieldID if idopt else FieldName, idopt, ctx)
-    return {'$ref': f'#/definitions/{stype}'}
+        derived = 'enum' if stype[0] == OPTION_ID['enum'] else 'pointer'
+        return w_enum(get_enum_items(tdef, {derived: stype[1:]}, ctx['type_defs']), FieldName, False, ctx)
+    return w_ref(stype, ctx)
 
 
 def w_enum(fields: list, vcol: int, idopt: bool, ctx: dict) -> dict:
-- 
2.43.0


From 706e17c747cb2e860a358b6f6b18e647220a9508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:02 +0000
Subject: [PATCH 55/82] fix: JSON Schema regex of an enumeration matches its
 values literally

---
 distribution/src/jadn/translate/jsonschema_w.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index eaf0210..6822ba0 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -76,7 +76,8 @@ def pattern(vals: list) -> str:
     Return a regex string from a list of values
     """
 
-    return f"^({'|'.join(map(str, vals))})$"
+    literals = [re.sub(r'[\\^$.|?*+()\[\]{}]', r'\\\g<0>', str(v)) for v in vals]
+    return f"^({'|'.join(literals)})$"
 
 
 # === Return JSON Schema keywords
-- 
2.43.0


From 9d58c533c12debd992b4905a67053174299e6f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:05 +0000
Subject: [PATCH 56/82] fix: JSON Schema arrays of unlimited multiplicity have
 the default maximum

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 6822ba0..cfa0078 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -169,7 +169,7 @@ def w_fdef(f: list, ctx: dict) -> dict:
         {'description': f[FieldDesc]},
         {'uniqueItems': True} if 'unique' in topts else {},
         {'minItems': minv} if minv != 0 else {},
-        {'maxItems': maxv} if maxv != 0 else {},
+        {'maxItems': maxv if maxv != 0 else ctx['config']['$MaxElements']},
         {'items': t}
     )
 
-- 
2.43.0


From b13092bb866c4a283e96e5ca771d5a28b6f30038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 57/82] fix: JSON Schema of a link is that of the key it holds

---
 distribution/src/jadn/translate/jsonschema_w.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index cfa0078..aa06e77 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -8,7 +8,7 @@ from datetime import datetime
 from typing import Callable, Optional, Union
 from ..definitions import (
     TypeName, BaseType, TypeOptions, TypeDesc, Fields, ItemID, ItemValue, FieldID, FieldName, FieldType,
-    FieldOptions, FieldDesc, OPTION_ID, is_builtin
+    FieldOptions, FieldDesc, OPTION_ID, TYPE_OPTIONS, is_builtin
 )
 from ..transform.transform import get_enum_items
 from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
@@ -152,11 +152,26 @@ def w_ref(tname: str, ctx: dict) -> dict:
     return {'$ref': f'#/definitions/{tn}'}
 
 
+def w_link(f: list, ctx: dict) -> list:
+    """
+    Return link field with the type and type options of the key it holds
+    """
+    tdef = ctx['type_defs'][f[FieldType]]
+    ktype, kopts = topts_s2d(tdef[TypeOptions]).get('ktype'), []
+    for k in tdef[Fields] if tdef[BaseType] != 'MapOf' else []:
+        if 'key' in ftopts_s2d(k[FieldOptions])[0]:
+            ktype, kopts = k[FieldType], [o for o in k[FieldOptions] if ord(o[0]) in TYPE_OPTIONS]
+    return [f[FieldID], f[FieldName], ktype, kopts + f[FieldOptions], f[FieldDesc]]
+
+
 def w_fdef(f: list, ctx: dict) -> dict:
     """
     Make field definition
     """
     fopts, topts = ftopts_s2d(f[FieldOptions])
+    if 'link' in fopts and f[FieldType] in ctx['type_defs']:
+        f = w_link(f, ctx)
+        topts = ftopts_s2d(f[FieldOptions])[1]
     if is_builtin(f[FieldType]):
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
     else:
-- 
2.43.0


From 1c76e5a57a1a12cf56ea2869a99f10c55e064738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:18 +0000
Subject: [PATCH 58/82] fix: JSON Schema unique applies to a repeated field,
 not to its elements

---
 distribution/src/jadn/translate/jsonschema_w.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index aa06e77..391c0df 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -172,13 +172,14 @@ def w_fdef(f: list, ctx: dict) -> dict:
     if 'link' in fopts and f[FieldType] in ctx['type_defs']:
         f = w_link(f, ctx)
         topts = ftopts_s2d(f[FieldOptions])[1]
-    if is_builtin(f[FieldType]):
-        t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], topts, ctx)
+    minv = max(fopts.get('minc', 1), 1)
+    maxv = fopts.get('maxc', 1)
+    if is_builtin(f[FieldType]):    # Elements of a repeated field need not be unique themselves
+        etopts = {k: v for k, v in topts.items() if k != 'unique' or (minv <= 1 and maxv == 1)}
+        t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], etopts, ctx)
     else:
         t = dmerge(w_ref(f[FieldType], ctx), {'description': f[FieldDesc]})
 
-    minv = max(fopts.get('minc', 1), 1)
-    maxv = fopts.get('maxc', 1)
     return t if minv <= 1 and maxv == 1 else dmerge(
         {'type': 'array'},
         {'description': f[FieldDesc]},
-- 
2.43.0


From 9c82d8d4ecfb34cfa56da1e1160a110989a5aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:37 +0000
Subject: [PATCH 59/82] fix: JSON Schema pattern of eui accepts the serialized
 form, which has no separators

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 391c0df..584bd2f 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -18,7 +18,7 @@ from ..utils import dmerge, topts_s2d, ftopts_s2d, get_config
 JADN_FMT = {
     'x': {'contentEncoding': 'base16'},
     # 'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9a-fA-F]{2}$'},
-    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]){5}[0-9A-Fa-f]{2}(([:-][0-9A-Fa-f]{2}){2})?$'},
+    'eui': {'pattern': r'^([0-9a-fA-F]{2}[:-]?){5}[0-9A-Fa-f]{2}(([:-]?[0-9A-Fa-f]{2}){2})?$'},
     'ipv4-addr': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])$'},
     'ipv6-addr': {'pattern': r'^(([0-9a-fA-F]{1,4}:){7,7}[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,7}:|([0-9a-fA-F]{1,4}:){1,6}:[0-9a-fA-F]{1,4}|([0-9a-fA-F]{1,4}:){1,5}(:[0-9a-fA-F]{1,4}){1,2}|([0-9a-fA-F]{1,4}:){1,4}(:[0-9a-fA-F]{1,4}){1,3}|([0-9a-fA-F]{1,4}:){1,3}(:[0-9a-fA-F]{1,4}){1,4}|([0-9a-fA-F]{1,4}:){1,2}(:[0-9a-fA-F]{1,4}){1,5}|[0-9a-fA-F]{1,4}:((:[0-9a-fA-F]{1,4}){1,6})|:((:[0-9a-fA-F]{1,4}){1,7}|:)|fe80:(:[0-9a-fA-F]{0,4}){0,4}%[0-9a-zA-Z]{1,}|::(ffff(:0{1,4}){0,1}:){0,1}((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])|([0-9a-fA-F]{1,4}:){1,4}:((25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9])\.){3,3}(25[0-5]|(2[0-4]|1{0,1}[0-9]){0,1}[0-9]))(%.+)?$'},
     'ipv4-net': {'pattern': r'^((25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])\.){3}(25[0-5]|2[0-4][0-9]|[01]?[0-9]?[0-9])(\/(3[0-2]|[0-2]?[0-9]))?$'},
-- 
2.43.0


From f32b7b25442419c7234422fdccfd498b3ba8af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 60/82] fix: JSON Schema of datetime-ms is a date-time string

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 584bd2f..90989d3 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -226,6 +226,8 @@ def t_boolean(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_integer(tdef: list, topts: dict, ctx: dict) -> dict:
+    if topts.get('format') == 'datetime-ms':    # Serialized as text
+        return dmerge(w_td('string', tdef[TypeDesc]), w_format('date-time'))
     fmt = JADN_FMT.get(topts.get('format'), {})
     minv = [v for v in (topts.get('minv'), fmt.get('minimum')) if v is not None]
     maxv = [v for v in (topts.get('maxv'), fmt.get('maximum')) if v is not None]
-- 
2.43.0


From 0d6224f324b4317bae05c8b399bdcd8fe12df1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:43 +0000
Subject: [PATCH 61/82] fix: JSON Schema of a field with a tag is the value of
 an alternative, not a tagged value

---
 distribution/src/jadn/translate/jsonschema_w.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 90989d3..179c5c1 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -174,6 +174,8 @@ def w_fdef(f: list, ctx: dict) -> dict:
         topts = ftopts_s2d(f[FieldOptions])[1]
     minv = max(fopts.get('minc', 1), 1)
     maxv = fopts.get('maxc', 1)
+    if 'tagid' in fopts and f[FieldType] in ctx['type_defs']:   # Value of the alternative selected by the tag field
+        return dmerge({'anyOf': [w_fdef(a, ctx) for a in ctx['type_defs'][f[FieldType]][Fields]]}, {'description': f[FieldDesc]})
     if is_builtin(f[FieldType]):    # Elements of a repeated field need not be unique themselves
         etopts = {k: v for k, v in topts.items() if k != 'unique' or (minv <= 1 and maxv == 1)}
         t = w_type(['', f[FieldType], f[FieldOptions], f[FieldDesc]], etopts, ctx)
-- 
2.43.0


From 0335d81189fa1f335b66ceefb1c3d45f69215ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:46 +0000
Subject: [PATCH 62/82] fix: JSON Schema of MapOf describes its keys and values

---
 .../src/jadn/translate/jsonschema_w.py        | 74 +++++--------------
 1 file changed, 20 insertions(+), 54 deletions(-)

diff --git a/distribution/src/jadn/translate/jsonschema_w.py b/distribution/src/jadn/translate/jsonschema_w.py
index 179c5c1..138cba1 100644
--- a/distribution/src/jadn/translate/jsonschema_w.py
+++ b/distribution/src/jadn/translate/jsonschema_w.py
@@ -47,14 +47,11 @@ def get_items(stype: str, ctx: dict) -> Optional[list]:  # pylint: disable=R1710
     return enumerated items if stype is Enumerated
     """
     td = ctx['type_defs']
-    et = stype[1:] if stype[0] == OPTION_ID['enum'] else stype
-    if et in td and td[et][BaseType] == 'Enumerated':
-        to = topts_s2d(td[et][TypeOptions])
-        et = to['enum'] if 'enum' in to else et
-
-    to = topts_s2d(td[et][TypeOptions])
-    if et in td and td[et][BaseType] in ('Enumerated', 'Array', 'Choice', 'Map', 'Record') and 'id' not in to:
-        return [f[ItemValue] for f in td[et][Fields]]
+    if stype[0] in (OPTION_ID['enum'], OPTION_ID['pointer']):
+        derived = 'enum' if stype[0] == OPTION_ID['enum'] else 'pointer'
+        return [f[ItemValue] for f in get_enum_items([], {derived: stype[1:]}, td)]
+    if stype in td and td[stype][BaseType] == 'Enumerated':
+        return [f[ItemValue] for f in get_enum_items(td[stype], topts_s2d(td[stype][TypeOptions]), td)]
 
 
 def spaces(s: str) -> str:
@@ -327,56 +324,25 @@ def t_map(tdef: list, topts: dict, ctx: dict) -> dict:
 
 
 def t_map_of(tdef: list, topts: dict, ctx: dict) -> dict:
-    items = get_items(topts['ktype'], ctx)
     vtype = w_kvtype(topts['vtype'], ctx)
-    ktype = w_kvtype(topts['ktype'], ctx)
-    
-    opts = tdef[TypeOptions]
-    k_opt = opts[0]
-    k_name = k_opt[1:]
-    
-    v_opt = opts[1]
-    v_name = v_opt[1:]
-    
-    key_array = ctx.get('type_defs', {}).get(k_name)
-    key_type = key_array[1]
-    
-    merged = {}
-    if key_type == 'String':
-        merged = dmerge(
+    items = get_items(topts['ktype'], ctx)
+    if items is not None:       # Every enumerated key is present
+        return dmerge(
             w_td('object', tdef[TypeDesc]),
             {'additionalProperties': False},
-            {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxProperties': topts['maxv']} if 'maxv' in topts else {},
-            {'patternProperties': {pattern(items): vtype}} if items and ctx['enum_style'] == 'regex' else {}
-        )
-        
-        properties = {
-            k_name : ktype,
-            v_name : vtype
-        }        
-        
-        merged['properties'] = properties
-    else:
-        merged = dmerge(
-            w_td('array', tdef[TypeDesc]),
-            {'additionalItems': False},
-            {'uniqueItems': True},
-            {'minItems': topts['minv']} if topts.get('minv', 0) != 0 else {},
-            {'maxItems': topts['maxv']} if 'maxv' in topts else {},
+            {'required': items},
+            {'patternProperties': {pattern(items): vtype}} if ctx['enum_style'] == 'regex' else {'properties': {k: vtype for k in items}}
         )
-        
-        _items = {
-            "type" : "object",
-            "properties": {
-                k_name : ktype,
-                v_name : vtype
-            }
-        }
-        
-        merged['items'] = _items   
-    
-    return merged
+
+    kdef = ctx['type_defs'].get(topts['ktype'], ['', topts['ktype'], []])
+    integer = kdef[BaseType] == 'Integer' and topts_s2d(kdef[TypeOptions]).get('format') != 'datetime-ms'
+    return dmerge(
+        w_td('object', tdef[TypeDesc]),
+        {'propertyNames': {'pattern': '^-?[0-9]+$'} if integer else w_kvtype(topts['ktype'], ctx)},    # Keys are always text
+        {'additionalProperties': vtype},
+        {'minProperties': topts['minv']} if topts.get('minv', 0) != 0 else {},
+        {'maxProperties': topts['maxv']} if 'maxv' in topts else {}
+    )
 
 
 # Type Map Util
-- 
2.43.0


From fd833b29a13432433e56cb58dd0fd54d3657c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 63/82] fix: accept upper case letters in email addresses

---
 distribution/src/jadn/codec/format_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/format_validate.py b/distribution/src/jadn/codec/format_validate.py
index 6ca19ec..7d2a7e7 100644
--- a/distribution/src/jadn/codec/format_validate.py
+++ b/distribution/src/jadn/codec/format_validate.py
@@ -36,7 +36,7 @@ def s_email(sval: str) -> str:
         r"(?:(?:[a-z0-9](?:[a-z0-9-]*[a-z0-9])?\.)+[a-z0-9](?:[a-z0-9-]*[a-z0-9])?|\[(?:(?:(2(5[0-5]|[0-4][0-9])"
         r"|1[0-9][0-9]|[1-9]?[0-9]))\.){3}(?:(2(5[0-5]|[0-4][0-9])|1[0-9][0-9]|[1-9]?[0-9])|[a-z0-9-]*[a-z0-9]"
         r":(?:[\x01-\x08\x0b\x0c\x0e-\x1f\x21-\x5a\x53-\x7f]|\\[\x01-\x09\x0b\x0c\x0e-\x7f])+)\])")
-    if re.fullmatch(rfc5322_re, sval):
+    if re.fullmatch(rfc5322_re, sval, re.IGNORECASE | re.ASCII):
         return sval
     raise ValueError
 
-- 
2.43.0


From ca23e51d2be1d983c60d49a3fea3ae5df545b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 64/82] fix: read back tagged UUIDs whose tag contains a hyphen

---
 distribution/src/jadn/codec/format_serialize_json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 755238e..5ad54f4 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -152,8 +152,10 @@ def a2s_tag_uuid(aval: [str, bytes]) -> str:
 
 
 def s2a_tag_uuid(sval: str) -> [str, bytes]:
-    t, u = sval.split('-', maxsplit=1)
-    return [t, s2b_uuid(u)]
+    t, u = sval[:-37], sval[-37:]       # hyphen and 36 characters of UUID after the tag
+    if u[:1] != '-':
+        raise ValueError
+    return [t, s2b_uuid(u[1:])]
 
 
 FORMAT_CONVERT_MULTIPART_FUNCTIONS = {
-- 
2.43.0


From 0cf66e764991019000537005c66b6437878e746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 65/82] fix: reject base64url text with padding inside it

---
 distribution/src/jadn/codec/format_serialize_json.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 5ad54f4..9d73b5e 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -65,11 +65,10 @@ def b2s_base64url(bval: bytes) -> str:      # Convert from binary to base64url s
 
 
 def s2b_base64url(sval: str) -> bytes:      # Convert from base64url string to binary
-    v = sval
-    if mod := len(sval) % 4:  # Pad b64 string out to a multiple of 4 characters
-        v = f"{sval}{'=' * (4-mod)}"
-    if set(v) - set(string.ascii_letters + string.digits + '-_='):  # Python 2 doesn't support Validate
+    v = sval.rstrip('=')
+    if set(v) - set(string.ascii_letters + string.digits + '-_'):  # Python 2 doesn't support Validate
         raise TypeError('base64decode: bad character')
+    v += '=' * (-len(v) % 4)  # Pad b64 string out to a multiple of 4 characters
     return base64.b64decode(str(v), altchars=b'-_')
 
 
-- 
2.43.0


From 7054f8919256bc07d094610824b58e3daa35da9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:14 +0000
Subject: [PATCH 66/82] fix: reject network prefix lengths that are not decimal
 digits

---
 .../src/jadn/codec/format_serialize_json.py        | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/distribution/src/jadn/codec/format_serialize_json.py b/distribution/src/jadn/codec/format_serialize_json.py
index 9d73b5e..3a1dbc6 100644
--- a/distribution/src/jadn/codec/format_serialize_json.py
+++ b/distribution/src/jadn/codec/format_serialize_json.py
@@ -128,21 +128,23 @@ def a2s_ipv6_net(aval: [str, int]) -> str:
     return f'{sa}/{aval[1]}' if aval[1] != 128 else sa
 
 
+def s2i_prefix_len(sval: str, maximum: int) -> int:     # Convert prefix length from string
+    if not re.fullmatch(r'[0-9]{1,3}', sval) or int(sval) > maximum:
+        raise ValueError
+    return int(sval)
+
+
 def s2a_ipv4_net(sval: str) -> [str, int]:
     sv = sval.split('/', 1)
     sa = s2b_ipv4_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 32
-    if prefix_len < 0 or prefix_len > 32:
-        raise ValueError
+    prefix_len = s2i_prefix_len(sv[1], 32) if len(sv) > 1 else 32
     return [sa, prefix_len]
 
 
 def s2a_ipv6_net(sval: str) -> [str, int]:
     sv = sval.split('/', 1)
     sa = s2b_ipv6_addr(sv[0])                  # Convert type-specific string to Binary bytes
-    prefix_len = int(sv[1]) if len(sv) > 1 else 128
-    if prefix_len < 0 or prefix_len > 128:
-        raise ValueError
+    prefix_len = s2i_prefix_len(sv[1], 128) if len(sv) > 1 else 128
     return [sa, prefix_len]
 
 
-- 
2.43.0


From 55ca40b139f3e3e435b94ed437af5b7c876d2c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 67/82] fix: escape names and definitions in GraphViz labels of
 diagrams

---
 distribution/src/jadn/convert/diagram_w.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9ba2b80..9646d8f 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -7,6 +7,7 @@ style[format] =
 
 import re
 from datetime import datetime
+from html import escape
 from ..definitions import (TypeName, BaseType, TypeOptions, PRIMITIVE_TYPES,
                            Fields, FieldID, FieldName, FieldType, FieldOptions)
 from ..utils import topts_s2d, ftopts_s2d, multiplicity_str, jadn2typestr, jadn2fielddef
@@ -51,7 +52,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         # nodes and s are available in caller scope
         tn = td[TypeName]
         return {
-            'graphviz': f'n{nodes[tn]} [label=<<b>{tn}{bt}</b>>, '
+            'graphviz': f'n{nodes[tn]} [label=<<b>{escape(tn + bt, quote=False)}</b>>, '
                         f'shape=ellipse, style=filled, fillcolor={s["attr_color"]}]\n\n',
             'plantuml': f'class "{tn}{bt}" as n{nodes[tn]}\n'
         }[s['format']]
@@ -67,7 +68,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         return {
             'plantuml': f'class "{tn}{bt}" as n{nodes[tn]}\n',
             'graphviz': f'n{nodes[tn]} [{color}label=<<table cellborder="0" cellpadding="1" cellspacing="0">\n'
-                        f'<tr><td cellpadding="4"><b>  {tn}{bt}  </b></td></tr>{hr}\n'
+                        f'<tr><td cellpadding="4"><b>  {escape(tn + bt, quote=False)}  </b></td></tr>{hr}\n'
         }[s['format']]
 
     def node_field(td, fd) -> str:
@@ -86,7 +87,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             fval = f'{fd[FieldID]} {fname}' + ('' if td[BaseType] == 'Enumerated' else f' : {fl}{fdef}')
         return {
             'plantuml': f'  n{nodes[td[TypeName]]} : {fval}\n',
-            'graphviz': f'  <tr><td align="left">  {fval}  </td></tr>\n'
+            'graphviz': f'  <tr><td align="left">  {escape(fval, quote=False)}  </td></tr>\n'
         }[s['format']]
 
     def node_end() -> str:
-- 
2.43.0


From 1cb2baf48d59fcf0495c589bded8bc2c477756a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 68/82] fix: quote GraphViz edge labels, which may be keywords
 or contain spaces

---
 distribution/src/jadn/convert/diagram_w.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 9646d8f..de249de 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -116,7 +116,8 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         """
         # Normalize edge label for diagram format
         def ename(edge_label: str) -> str:
-            return edge_label.replace('-', '_')
+            elabel = edge_label.replace('-', '_').replace('\\', '\\\\').replace('"', '\\"')
+            return f'"{elabel}"'
 
         # nodes and s are available in caller scope
         if td[BaseType] == 'Enumerated':
-- 
2.43.0


From 7a3301496942ef114a7a8461f08fd78014e9e6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 69/82] fix: keep diagram comments with line breaks in the
 comment

---
 distribution/src/jadn/convert/diagram_w.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index de249de..39ee299 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -161,7 +161,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
     text = ''
     for k, v in schema.get('info', {}).items():
-        text += f"{fmt['comment']} {k}: {v}\n"
+        text += f"{fmt['comment']} {k}: {' '.join(str(v).splitlines())}\n"
     text += f"\n{fmt['start']}\n  " + '\n  '.join(fmt['header']) + '\n\n'
 
     hide_types = [] if s['attributes'] else (*PRIMITIVE_TYPES, 'Enumerated')
-- 
2.43.0


From af9d5c7c74bec5b8d37a683063087c3d33b79d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 70/82] fix: honour the links and link_horizontal styles of
 diagrams

---
 distribution/src/jadn/convert/diagram_w.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 39ee299..01224f1 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -124,11 +124,11 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
             return ''
         fopts, ftopts = ftopts_s2d(fd[FieldOptions])
         fieldtype = ftopts['vtype'] if fd[FieldType] in {'ArrayOf', 'MapOf'} else fd[FieldType]
-        if fieldtype in nodes:
+        if fieldtype in nodes and (s['links'] or 'link' not in fopts):
             mult_f = multiplicity_str(fopts)
             mult_r = '1'
             if s['format'] == 'plantuml':
-                rel = ('.' if 'link_horizontal' in s else '..') if 'link' in fopts else '--'
+                rel = ('.' if s['link_horizontal'] else '..') if 'link' in fopts else '--'
                 elabel = ' : ' + fd[FieldName] if s['edge_label'] else ''
                 mult = f'"{mult_r}" {rel}> "{mult_f}"' if s['edge_mult'] else f'{rel}>'
                 return f'  n{nodes[td[TypeName]]} {mult} n{nodes[fieldtype]}{elabel}\n'
-- 
2.43.0


From 0a9db1fac0084273bf00e03439d9656cd8b5e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 71/82] fix: start the source line of GraphViz diagram files
 with a GraphViz comment

---
 distribution/src/jadn/convert/diagram_w.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 01224f1..49fef6b 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -183,9 +183,10 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
 
 
 def diagram_dump(schema: dict, fname: str, source: str = '', style: dict = {}) -> None:
-    with open(fname, 'w') as f:
+    with open(fname, 'w', encoding='utf8') as f:
         if source:
-            f.write(f'\' Generated from {source}, {datetime.ctime(datetime.now())}"\n\n')
+            comment = '#' if style.get('format') == 'graphviz' else "'"
+            f.write(f'{comment} Generated from {source}, {datetime.ctime(datetime.now())}\n\n')
         f.write(diagram_dumps(schema, style) + '\n')
 
 
-- 
2.43.0


From 79231d1bf20bf261574c18b18f570936ffa20394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 72/82] fix: escape vertical bars in the cells of Markdown
 tables

---
 distribution/src/jadn/convert/markdown.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index 322c910..b2e9d5a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -84,6 +84,7 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
 
 
 def format_table(rows: list) -> str:
+    rows = [[data.replace('|', '\\|') for data in row] for row in rows]
     cwidth = [len(data.strip()) for data in rows[0]]
     for row in rows[1:]:
         for c in range(len(row)):
-- 
2.43.0


From a891eb0ff8417dc2c667c0da76c93f2704b20541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:40 +0000
Subject: [PATCH 73/82] fix: take only labels of fields without a name from
 Markdown descriptions

---
 distribution/src/jadn/convert/markdown.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/markdown.py b/distribution/src/jadn/convert/markdown.py
index b2e9d5a..ad7a76a 100644
--- a/distribution/src/jadn/convert/markdown.py
+++ b/distribution/src/jadn/convert/markdown.py
@@ -66,8 +66,9 @@ def markdown_dumps(schema: dict, style: dict = None) -> str:
                 fname, fdef, fmult, fdesc = jadn2fielddef(fd, td)
                 fdef = fdef.replace('*', '\*')
                 fmult = fmult.replace('*', '\*')
-                dsc = fdesc.split('::', maxsplit=2)
-                fdesc = f'**{dsc[0]}** - {dsc[1].strip()}' if len(dsc) == 2 else fdesc
+                if idt:
+                    dsc = fdesc.split('::', maxsplit=1)
+                    fdesc = f'**{dsc[0]}** - {dsc[1].strip()}'
                 if table_type == 0:
                     table.append([str(fd[ItemID]), fdesc])
                 elif table_type == 1:
-- 
2.43.0


From f600e1c1d419d7488d82615c1328372cb0a54df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:20 +0000
Subject: [PATCH 74/82] fix: encode quotation marks in PlantUML class names

---
 distribution/src/jadn/convert/diagram_w.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/convert/diagram_w.py b/distribution/src/jadn/convert/diagram_w.py
index 49fef6b..e82123b 100644
--- a/distribution/src/jadn/convert/diagram_w.py
+++ b/distribution/src/jadn/convert/diagram_w.py
@@ -45,6 +45,9 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
     """
     Convert JADN schema to Entity Relationship Diagram source file
     """
+    def plantuml_name(name: str) -> str:
+        return name.replace('"', '<U+0022>')
+
     def node_leaf(td, bt) -> str:
         """
         Return Leaf Type Definition in selected diagram format
@@ -54,7 +57,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         return {
             'graphviz': f'n{nodes[tn]} [label=<<b>{escape(tn + bt, quote=False)}</b>>, '
                         f'shape=ellipse, style=filled, fillcolor={s["attr_color"]}]\n\n',
-            'plantuml': f'class "{tn}{bt}" as n{nodes[tn]}\n'
+            'plantuml': f'class "{plantuml_name(tn + bt)}" as n{nodes[tn]}\n'
         }[s['format']]
 
     def node_start(td, bt) -> str:
@@ -66,7 +69,7 @@ def diagram_dumps(schema: dict, style: dict = {}) -> str:
         color = f'fillcolor={s["attr_color"]}, ' if td[BaseType] == 'Enumerated' else ''
         hr = '<hr/>' if s['detail'] in {'logical', 'information'} and td[Fields] else ''
         return {
-            'plantuml': f'class "{tn}{bt}" as n{nodes[tn]}\n',
+            'plantuml': f'class "{plantuml_name(tn + bt)}" as n{nodes[tn]}\n',
             'graphviz': f'n{nodes[tn]} [{color}label=<<table cellborder="0" cellpadding="1" cellspacing="0">\n'
                         f'<tr><td cellpadding="4"><b>  {escape(tn + bt, quote=False)}  </b></td></tr>{hr}\n'
         }[s['format']]
-- 
2.43.0


From c029a66400a274dc5f1e4cebd47b188f717ad37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 75/82] fix: merge nested dicts that share more than one level
 of a path

---
 distribution/src/jadn/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index 08fe3bf..a41fb13 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -48,7 +48,10 @@ def fluff(src: dict, sep: str = '.') -> dict:
     :param sep: separator character for keys
     :return: nested dict - e.g., {'a': {'b': {'c': 1, 'd': 2}}}
     """
-    return reduce(dmerge, [hdict(k, v, sep) for k, v in src.items()], {})
+    def merge(a: dict, b: dict) -> dict:
+        return dmerge(a, {k: merge(a[k], v) if isinstance(v, dict) and isinstance(a.get(k), dict) else v for k, v in b.items()})
+
+    return reduce(merge, [hdict(k, v, sep) for k, v in src.items()], {})
 
 
 def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
-- 
2.43.0


From 43f257e4080708425a5704b89b062375b5acd10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 76/82] fix: use the separator of flatten at every level, and
 no empty first key for lists

---
 distribution/src/jadn/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index a41fb13..b90f11f 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -64,10 +64,10 @@ def flatten(cmd: dict, path: str = '', fc: dict = None, sep: str = '.') -> dict:
     if isinstance(cmd, dict):
         for k, v in cmd.items():
             k = k.split(':')[1] if ':' in k else k
-            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd)
+            fcmd = flatten(v, sep.join((path, k)) if path else k, fcmd, sep)
     elif isinstance(cmd, list):
         for n, v in enumerate(cmd):
-            fcmd.update(flatten(v, sep.join([path, str(n)])))
+            fcmd.update(flatten(v, sep.join([path, str(n)]) if path else str(n), sep=sep))
     else:
         fcmd[path] = cmd
     return fcmd
-- 
2.43.0


From cbcf3ad679467c54608b3947610495b26cd9128f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:28 +0000
Subject: [PATCH 77/82] fix: reset the deleted column of a definition object to
 its default

---
 distribution/src/jadn/definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/definitions.py b/distribution/src/jadn/definitions.py
index b07ebd9..350a429 100644
--- a/distribution/src/jadn/definitions.py
+++ b/distribution/src/jadn/definitions.py
@@ -51,7 +51,7 @@ class BasicDataclass:
     def __delitem__(self, key: Union[int, str]):
         if isinstance(key, int):
             key = list(self.__keyindex__)[key]
-        object.__setattr__(self, self.__default__[key], self.__default__[key])
+        object.__setattr__(self, key, deepcopy(self.__default__[key]))
 
     def __len__(self):
         return len(self.__keyindex__)
-- 
2.43.0


From 70b6cdcb57547f19c6b03c0f60bb7780b23e5fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 78/82] fix: only a pattern option can refer to a configured
 value, so types named $X can be used in collections

---
 distribution/src/jadn/codec/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index a5483ee..0983617 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -19,7 +19,7 @@ from ..definitions import (
     # Field Indexes
     FieldID, FieldName,
     # Const values
-    PRIMITIVE_TYPES, CORE_TYPES,
+    PRIMITIVE_TYPES, CORE_TYPES, OPTION_ID,
     # Dataclass
     TypeDefinition, GenFieldDefinition
 )
@@ -94,7 +94,7 @@ class Codec:
 
         # Set configurable option values
         def config_opts(opts: List[str]) -> dict:
-            op = [(v[0] + self.config[v[1:]]) if len(v) > 1 and v[1] == '$' else v for v in opts]
+            op = [(v[0] + self.config[v[1:]]) if v[:2] == OPTION_ID['pattern'] + '$' and v[1:] in self.config else v for v in opts]
             return topts_s2d(op)
 
         def sym(t: TypeDefinition) -> SymbolTableField:  # Build symbol table based on encoding modes
-- 
2.43.0


From 0d58b44221bb84cf4709b961e6cc9fccc0872691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:17 +0000
Subject: [PATCH 79/82] fix: a user-defined type named TypeRef keeps its own
 options

---
 distribution/src/jadn/codec/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/__init__.py b/distribution/src/jadn/codec/__init__.py
index 0983617..32b9547 100644
--- a/distribution/src/jadn/codec/__init__.py
+++ b/distribution/src/jadn/codec/__init__.py
@@ -140,7 +140,8 @@ class Codec:
         self.verbose_rec = verbose_rec
         self.verbose_str = verbose_str
         self.symtab = {t.TypeName: sym(t) for t in object_types(self.schema['types'])}
-        if 'TypeRef' in self.types:
+        tr = self.types.get('TypeRef')
+        if tr and tr.BaseType == 'String' and not tr.TypeOptions:   # A type that happens to have this name keeps its options
             self.symtab['TypeRef'].TypeOpts = make_typeref_pattern(self.config['$NSID'], self.config['$TypeName'])
         for t in PRIMITIVE_TYPES:
             self.symtab[t] = SymbolTableField(
-- 
2.43.0


From cfbc922835ab99e59d2da58b1334c61d18c2d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:02 +0000
Subject: [PATCH 80/82] fix: read and write the tag of fields whose type has
 parameters or a range

---
 distribution/src/jadn/utils.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/distribution/src/jadn/utils.py b/distribution/src/jadn/utils.py
index b90f11f..94eddc2 100644
--- a/distribution/src/jadn/utils.py
+++ b/distribution/src/jadn/utils.py
@@ -258,19 +258,21 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
     topts = {}
     fo = []
     p_name = r'\s*=?\s*([-$:\w]+)'                  # 1 type name
-    p_id = r'(\.ID)?'                               # 2 'id'
-    p_func = r'(?:\(([^)]+)\))?'                    # 3 'ktype', 'vtype', 'enum', 'pointer', 'tagid'
-    p_rangepat = r'\{(.*)\}'                        # 4 'minv', 'maxv', 'pattern'
-    p_format = r'\s+\/(\w[-\w]*)'                   # 5 'format'
-    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 6 multiplicity
-    pattern = fr'^{p_name}{p_id}{p_func}(.*?)\s*$'
+    p_tag = r'(?:\((TagId\[[^]]+])\))?'             # 2 'tagid'
+    p_id = r'(\.ID)?'                               # 3 'id'
+    p_func = r'(?:\(([^)]+)\))?'                    # 4 'ktype', 'vtype', 'enum', 'pointer'
+    p_rangepat = r'\{(.*)\}'                        # 5 'minv', 'maxv', 'pattern'
+    p_format = r'\s+\/(\w[-\w]*)'                   # 6 'format'
+    p_kw = r'\s+(unique|set|unordered|sequence|extend)'    # 7 multiplicity
+    pattern = fr'^{p_name}{p_tag}{p_id}{p_func}(.*?)\s*$'
     m = re.match(pattern, typestring)
     if m is None:
         raise_error(f'TypeString2JADN: "{typestring}" does not match pattern {pattern}')
     tname = m.group(1)
-    topts.update({'id': True} if m.group(2) else {})
-    if m.group(3):                      # (ktype, vtype), Enum(), Pointer(), Choice() options
-        opts = [parseopt(x) for x in m.group(3).split(',', maxsplit=1)]
+    fo += [parseopt(m.group(2))] if m.group(2) else []          # TagId option
+    topts.update({'id': True} if m.group(3) else {})
+    if m.group(4):                      # (ktype, vtype), Enum(), Pointer(), Choice() options
+        opts = [parseopt(x) for x in m.group(4).split(',', maxsplit=1)]
         assert len(opts) == (2 if tname == 'MapOf' else 1)  # TODO: raise proper error message
         if tname == 'MapOf':
             topts.update({'ktype': opts[0], 'vtype': opts[1]})
@@ -280,8 +282,7 @@ def typestr2jadn(typestring: str) -> tuple[str, list[str], list]:
             topts.update({'combine': {'anyOf': 'O', 'allOf': 'A', 'oneOf': 'X'}[opts[0]]})
         else:
             topts.update(topts_s2d([opts[0]]) if ord(opts[0][0]) in TYPE_OPTIONS else {})
-            fo += [opts[0]] if ord(opts[0][0]) in FIELD_OPTIONS else []         # TagId option
-    if rest := m.group(4):
+    if rest := m.group(5):
         for opt in re.findall(p_rangepat, rest):
             if m := re.match('pattern=\"(.+)\"', opt):
                 topts.update({'pattern': m.group(1)})
@@ -405,7 +406,8 @@ def jadn2fielddef(fdef: list, tdef: list) -> tuple[str, str, str, str]:
         if (tagid := fo.get('tagid', None)) is not None:
             tf = [f[FieldName] for f in tdef[Fields] if f[FieldID] == tagid][0]
             tf = f'(TagId[{tf if tf else tagid}])'
-        ft = jadn2typestr(f'{fdef[FieldType]}{tf}', opts_d2s(fto))
+        tname = fdef[FieldType]
+        ft = f'{tname}{tf}{jadn2typestr(tname, opts_d2s(fto))[len(tname):]}'
         ftyperef = f'Key({ft})' if 'key' in fo else f'Link({ft})' if 'link' in fo else ft
         fmult = multiplicity_str(fo)
     return fname, ftyperef, fmult, fdesc
-- 
2.43.0


From 2dd9d02b39d1350755b62d76e743f997236cc45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:20 +0000
Subject: [PATCH 81/82] fix: read only text keys of MapOf types as integers

---
 distribution/src/jadn/codec/codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 33a2d24..77438cf 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -485,6 +485,8 @@ def _decode_map_of(ts: SymbolTableField, sval, codec: 'Codec'):
         try:
             return codec.decode(to['ktype'], k)
         except (TypeError, ValueError):
+            if not isinstance(k, str):
+                raise
             return codec.decode(to['ktype'], int(k))    # JSON converts integer keys to strings
 
     _check_type(ts, sval, dict)
-- 
2.43.0


From 76f47bec219d2c7abceedebb03e5406c0fe05d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 82/82] fix: read only text keys as field ids

---
 distribution/src/jadn/codec/codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/distribution/src/jadn/codec/codec.py b/distribution/src/jadn/codec/codec.py
index 77438cf..767076e 100644
--- a/distribution/src/jadn/codec/codec.py
+++ b/distribution/src/jadn/codec/codec.py
@@ -108,7 +108,7 @@ def _format_decode(ts: SymbolTableField, val: Any) -> Any:
 
 def _check_key(ts: SymbolTableField, val):
     try:
-        return int(val) if isinstance(next(iter(ts.dMap)), int) else val
+        return int(val) if isinstance(next(iter(ts.dMap)), int) and isinstance(val, str) else val
     except ValueError:
         raise_error(f'{ts.TypeDef.TypeName}: {val} is not a valid field ID')
 
-- 
2.43.0

