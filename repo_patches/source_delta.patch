From 265a1a3746721fcfe8da9849f75d4a4e5f16da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 001/126] fix: honour lineTerminators given as a single string

---
 src/csvw/dsv_dialects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index e35f391..3d98409 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -55,7 +55,8 @@ class Dialect(object):
         validator=attr.validators.instance_of(str))
 
     lineTerminators = attr.ib(
-        converter=functools.partial(utils.converter, list, ['\r\n', '\n']),
+        converter=functools.partial(
+            utils.converter, (list, str), ['\r\n', '\n'], allow_list=False),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
-- 
2.43.0


From aedb5c1c90ac05c5d3e97c18425d52380899af73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 002/126] fix: do not double escape characters which csv.writer
 escapes already

---
 src/csvw/dsv.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 0d050d2..c05ffad 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -35,6 +35,13 @@ __all__ = [
 LINES_OR_PATH = typing.Union[str, pathlib.Path, typing.IO, typing.Iterable[str]]
 
 
+def _writer_escapes_escapechar() -> bool:
+    # See https://bugs.python.org/issue12178, fixed in Python 3.10.
+    f = io.StringIO(newline='')
+    csv.writer(f, escapechar='\\', doublequote=False).writerow(['\\'])
+    return f.getvalue().strip('"\r\n') == 2 * '\\'
+
+
 def normalize_encoding(encoding: str) -> str:
     return codecs.lookup(encoding).name
 
@@ -75,7 +82,8 @@ class UnicodeWriter:
                 self.kw['dialect'] = dialect
         self.encoding = normalize_encoding(self.encoding)
         self.escapechar = self.kw.get('escapechar')
-        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE:
+        if self.escapechar and self.kw.get('quoting') != csv.QUOTE_NONE \
+                and not _writer_escapes_escapechar():
             # work around https://bugs.python.org/issue12178
             # (csv.writer doesn't escape escapechar while csv.reader expects it)
             def _escapedoubled(row,
-- 
2.43.0


From b3eb711ce1802c802c35aeca08f06fbbe99ef062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 003/126] fix: normalize_name yields keywords or fails for some
 strings

---
 src/csvw/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index affbfdf..65568be 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -77,9 +77,9 @@ def normalize_name(s):
     '_1'
     """
     s = s.replace('-', '_').replace('.', '_').replace(' ', '_')
+    s = '_'.join(slug(ss, lowercase=False) for ss in s.split('_'))
     if s in keyword.kwlist:
         return s + '_'
-    s = '_'.join(slug(ss, lowercase=False) for ss in s.split('_'))
     if not s:
         s = '_'
     if s[0] not in string.ascii_letters + '_':
@@ -101,6 +101,7 @@ def slug(s, remove_whitespace=True, lowercase=True):
         res = res.replace(c, '')
     res = re.sub(r'\s+', '' if remove_whitespace else ' ', res)
     res = res.encode('ascii', 'ignore').decode('ascii')
+    res = re.sub(r'[\x00-\x1f\x7f]', '', res)
     assert re.match('[ A-Za-z0-9]*$', res)
     return res
 
-- 
2.43.0


From ea5d0e1843e409dae2e106d322c8edef0cbbe512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 004/126] fix: replace files atomically in rewrite and
 add_rows, and clean up on failure

---
 src/csvw/dsv.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index c05ffad..6368a18 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -20,6 +20,7 @@ import pathlib
 import tempfile
 import warnings
 import functools
+import contextlib
 import collections
 
 from . import utils
@@ -392,6 +393,25 @@ def iterrows(lines_or_file: LINES_OR_PATH,
 reader = iterrows
 
 
+@contextlib.contextmanager
+def _replaced(fname: pathlib.Path) -> typing.Generator[pathlib.Path, None, None]:
+    """
+    Provides a temporary file, which replaces `fname` on success and is removed on failure.
+
+    The temporary file is created in the directory of `fname`, because only moving within a file
+    system is atomic.
+    """
+    fname = fname.resolve()
+    with tempfile.NamedTemporaryFile(delete=False, dir=str(fname.parent)) as fp:
+        tmp = pathlib.Path(fp.name)
+    try:
+        yield tmp
+        shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
+    except BaseException:
+        tmp.unlink()
+        raise
+
+
 def rewrite(fname: typing.Union[str, pathlib.Path],
             visitor: typing.Callable[[int, typing.List[str]], typing.Union[None, typing.List[str]]],
             **kw):
@@ -404,30 +424,22 @@ def rewrite(fname: typing.Union[str, pathlib.Path],
     """
     fname = utils.ensure_path(fname)
     assert fname.is_file()
-    with tempfile.NamedTemporaryFile(delete=False) as fp:
-        tmp = pathlib.Path(fp.name)
-
-    with UnicodeReader(fname, **kw) as reader_:
+    with _replaced(fname) as tmp, UnicodeReader(fname, **kw) as reader_:
         with UnicodeWriter(tmp, **kw) as writer:
             for i, row in enumerate(reader_):
                 row = visitor(i, row)
                 if row is not None:
                     writer.writerow(row)
-    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
 
 
 def add_rows(fname: typing.Union[str, pathlib.Path], *rows: typing.List[str]):
-    with tempfile.NamedTemporaryFile(delete=False) as fp:
-        tmp = pathlib.Path(fp.name)
-
     fname = utils.ensure_path(fname)
-    with UnicodeWriter(tmp) as writer:
+    with _replaced(fname) as tmp, UnicodeWriter(tmp) as writer:
         if fname.exists():
             with UnicodeReader(fname) as reader_:
                 for row in reader_:
                     writer.writerow(row)
         writer.writerows(rows)
-    shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
 
 
 def filter_rows_as_dict(fname: typing.Union[str, pathlib.Path],
-- 
2.43.0


From a26651d74f08b89727ba7bade903fded7f132a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 005/126] fix: keep the file mode in rewrite and add_rows

---
 src/csvw/dsv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 6368a18..df8fcbf 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -406,6 +406,8 @@ def _replaced(fname: pathlib.Path) -> typing.Generator[pathlib.Path, None, None]
         tmp = pathlib.Path(fp.name)
     try:
         yield tmp
+        if fname.exists():
+            shutil.copymode(str(fname), str(tmp))
         shutil.move(str(tmp), str(fname))  # Path.replace is Python 3.3+
     except BaseException:
         tmp.unlink()
-- 
2.43.0


From 74c5ba2859091a4fdf3dd1e9c65840534de35c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 006/126] fix: inherit the default property

---
 src/csvw/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4d485e2..e6d0a8a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -710,8 +710,8 @@ class Description(DescriptionBase):
         default=None,
         converter=lambda v: v if not v else Datatype.fromvalue(v))
     default = attr.ib(
-        default="",
-        converter=functools.partial(utils.converter, str, "", allow_list=False),
+        default=None,
+        converter=functools.partial(utils.converter, str, None, allow_none=True, allow_list=False),
     )
     lang = attr.ib(default="und", converter=converter_lang)
     null = attr.ib(default=attr.Factory(lambda: [""]), converter=converter_null)
@@ -800,7 +800,7 @@ class Column(Description):
     def read(self, v, strict=True):
         required = self.inherit('required')
         null = self.inherit_null()
-        default = self.inherit('default')
+        default = self.inherit('default') or ''
         separator = self.inherit('separator')
         datatype = self.inherit('datatype')
 
-- 
2.43.0


From 2d5456b308b0ceb8a73853b0851b6c422d0c47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:18 +0000
Subject: [PATCH 007/126] fix: report empty lists in required columns

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e6d0a8a..05c8c84 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -807,7 +807,7 @@ class Column(Description):
         if not v:
             v = default
 
-        if required and v in null:
+        if required and (v in null or (separator and not v)):
             if not strict:
                 warnings.warn('required column value is missing')
             raise ValueError('required column value is missing')
-- 
2.43.0


From bb731b8dc01e03ffe5683a212b314049fad31576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 008/126] fix: report missing cells of columns with inherited
 required property

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 05c8c84..88ba5ee 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1337,7 +1337,7 @@ class Table(TableLike):
                     virtualcols.append((col.header, col.valueUrl))
             else:
                 colnames.append(col.header)
-            if col.required:
+            if col.required if col.virtual else col.inherit('required'):
                 requiredcols.add(col.header)
 
         with contextlib.ExitStack() as stack:
@@ -1404,7 +1404,7 @@ class Table(TableLike):
                 raise ValueError('{0} is missing required columns {1}'.format(fname, missing))
 
             for lineno, row in reader:
-                required = {h: j for j, h, c in header_cols if c and c.required}
+                required = {h: j for j, h, c in header_cols if c and c.inherit('required')}
                 res = _Row()
                 error = False
                 if (not header_cols) and row:
-- 
2.43.0


From 09e710f6715f8d828f1681927036fd07ea1ef65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 009/126] fix: simplify JSON-LD literals with numeric values

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 92daa46..5f14bc0 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -118,7 +118,7 @@ def to_json(obj, flatten_list=False):
     if isinstance(obj, dict):
         if '@value' in obj:
             obj = obj['@value']
-        if len(obj) == 1 and '@id' in obj:
+        elif len(obj) == 1 and '@id' in obj:
             obj = obj['@id']
     if isinstance(obj, dict):
         return {
-- 
2.43.0


From 6206bbb64c5bc0a1347d0d0ac1f78ff39e533d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:00 +0000
Subject: [PATCH 010/126] fix: parse decimals exactly and only if lexically
 valid

---
 src/csvw/datatypes.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ad17973..a8eb5d7 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -544,7 +544,6 @@ class decimal(anyAtomicType):
             raise ValueError(
                 'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
-        factor = 1
         if isinstance(v, str):
             if v in decimal._special:
                 warnings.warn('Invalid special value for decimal')
@@ -553,14 +552,15 @@ class decimal(anyAtomicType):
                 v = v.replace(groupChar, '')
             if decimalChar and decimalChar != '.':
                 v = v.replace(decimalChar, '.')
-            for c, factor in [('%', _decimal.Decimal('0.01')), ('‰', _decimal.Decimal('0.001'))]:
-                if c in v:
-                    v = v.replace(c, '')
-                    break
-            else:
-                factor = 1
+            match = re.fullmatch(
+                r'([+-]?)([%‰]?)([0-9]+(?:\.[0-9]*)?|\.[0-9]+)([%‰]?)', v.strip())
+            if not match or (match.group(2) and match.group(4)):
+                decimal.value_error(v)
+            sign, prefix, digits, suffix = match.groups()
+            # Make sure no digits are lost to rounding, thus do not multiply.
+            v = sign + digits + {'%': 'E-2', '‰': 'E-3', '': ''}[prefix or suffix]
         try:
-            return _decimal.Decimal(v) * factor
+            return _decimal.Decimal(v)
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From 9d234f84adb8ceba46983e50f6826e7fe91dd308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:20 +0000
Subject: [PATCH 011/126] fix: reject integers with decimal point and INF

---
 src/csvw/datatypes.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index a8eb5d7..eb07fd5 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -613,7 +613,12 @@ class integer(decimal):
 
     @classmethod
     def to_python(cls, v, **kw):
+        decimal_char = kw.get('decimalChar') or ('.' if kw.get('groupChar') != '.' else None)
+        if isinstance(v, str) and decimal_char and decimal_char in v:
+            raise ValueError('Invalid value for integer')
         res = decimal.to_python(v, **kw)
+        if not res.is_finite():
+            raise ValueError('Invalid value for integer')
         numerator, denominator = res.as_integer_ratio()
         if denominator == 1:
             if cls.range and not (cls.range[0] <= numerator <= cls.range[1]):
-- 
2.43.0


From 896b89a82e3d3781f3cfebf8df43355cf262e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 012/126] fix: group and decimal characters of numbers which
 are swapped or given alone

---
 src/csvw/datatypes.py | 45 +++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index eb07fd5..b80fa70 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -280,6 +280,11 @@ class boolean(anyAtomicType):
         return (true if v else false)[0]
 
 
+def replace_chars(s, chars):
+    # Replace all characters at once, because they may be swapped.
+    return ''.join(chars.get(c, c) for c in s)
+
+
 def with_tz(v, func, args, kw):
     tz_pattern = re.compile('(Z|[+-][0-2][0-9]:[0-5][0-9])$')
     tz = tz_pattern.search(v)
@@ -539,19 +544,23 @@ class decimal(anyAtomicType):
             groupChar = ','
         if decimalChar is None and pattern and '.' in pattern:
             decimalChar = '.'
-        if pattern and not NumberPattern(pattern).is_valid(
-                v.replace(groupChar or ',', ',').replace(decimalChar or '.', '.')):
-            raise ValueError(
-                'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
+        if pattern and isinstance(v, str):
+            chars = {decimalChar: '.'} if decimalChar else {}
+            if groupChar:
+                chars[groupChar] = ','
+            if not NumberPattern(pattern).is_valid(replace_chars(v, chars)):
+                raise ValueError(
+                    'Invalid value "{}" for decimal with pattern "{}"'.format(v, pattern))
 
         if isinstance(v, str):
             if v in decimal._special:
                 warnings.warn('Invalid special value for decimal')
                 return _decimal.Decimal(decimal._special[v])
+            # Only decimalChar marks the decimal point:
+            chars = {'.': '?', decimalChar or '.': '.'}
             if groupChar:
-                v = v.replace(groupChar, '')
-            if decimalChar and decimalChar != '.':
-                v = v.replace(decimalChar, '.')
+                chars[groupChar] = ''
+            v = replace_chars(v, chars)
             match = re.fullmatch(
                 r'([+-]?)([%‰]?)([0-9]+(?:\.[0-9]*)?|\.[0-9]+)([%‰]?)', v.strip())
             if not match or (match.group(2) and match.group(4)):
@@ -571,18 +580,16 @@ class decimal(anyAtomicType):
 
         if pattern:
             v = babel.numbers.format_decimal(v, pattern, 'en')
-            if decimalChar:
-                v = v.replace('.', decimalChar)
-            if groupChar:
-                v = v.replace(',', groupChar)
-            return v
+            return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
-        fmt = '{}' if groupChar is None else '{:,}'
+        fmt = '' if groupChar is None else ','
+        if isinstance(v, _decimal.Decimal):
+            fmt += 'f'  # never use scientific notation
         try:
             neg = v < 0
         except TypeError:
             neg = None
-        v = fmt.format(v)
+        v = format(v, fmt)
         if 'e' in v.lower():  # detect scientific notation
             digits, exp = v.lower().split('e')
             digits = digits.replace('.', '').replace('-', '')
@@ -592,15 +599,7 @@ class decimal(anyAtomicType):
             return '{}{}{}.0'.format(sign, digits, zero_padding) if exp > 0 else (
                 '{}0.{}{}'.format(sign, zero_padding, digits))
 
-        if groupChar or decimalChar:
-            def repl(m):
-                if m.group('c') == ',':
-                    return groupChar
-                if m.group('c') == '.':
-                    return decimalChar
-            r = '(?P<c>[{}])'.format(re.escape((decimalChar or '') + (groupChar or '')))
-            v = re.sub(r, repl, v)
-        return v
+        return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
 
 @register
-- 
2.43.0


From 0b01a8d7a336170851c2f50817f9314308bd48b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 013/126] fix: lexical representations of special floats and
 rejection of underscores

---
 src/csvw/datatypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index b80fa70..ebb2b88 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -841,13 +841,16 @@ class _float(anyAtomicType):
                 'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
 
         try:
+            if isinstance(v, str) and ('_' in v or not v.isascii()):
+                raise ValueError(v)
             return float(v)
         except (TypeError, ValueError):
             _float.value_error(v)
 
     @staticmethod
     def to_string(v, **kw):
-        return '{}'.format(v)
+        v = '{}'.format(v)
+        return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(v, v)
 
 
 @register
-- 
2.43.0


From 6a5fd19a37853f8a46a70ca7e393b89eae15f113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 014/126] fix: match string and duration formats against the
 whole value

---
 src/csvw/datatypes.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ebb2b88..26bca6d 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -95,17 +95,16 @@ class string(anyAtomicType):
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
         if datatype.format:
-            # We wrap a regex specified as `format` property into a group and add `$` to
-            # make sure the whole string is matched when validating.
+            # Note: The whole string must be matched when validating.
             try:
-                return {'regex': re.compile(r'({})$'.format(datatype.format))}
+                return {'regex': re.compile(r'({})'.format(datatype.format))}
             except re.error:
                 warnings.warn('Invalid regex pattern as datatype format')
         return {}
 
     @staticmethod
     def to_python(v, regex=None):
-        if regex and not regex.match(v):
+        if regex and not regex.fullmatch(v):
             string.value_error(v)
         return v
 
@@ -456,7 +455,7 @@ class duration(anyAtomicType):
 
     @staticmethod
     def to_python(v, format=None, **kw):
-        if format and not re.match(format, v):
+        if format and not re.fullmatch(format, v):
             raise ValueError
         return isodate.parse_duration(v)
 
@@ -893,7 +892,7 @@ class normalizedString(string):
             for c in '\r\n\t':
                 v = v.replace(c, ' ')
             v = v.strip()
-        return string.to_python(v, '')
+        return string.to_python(v, regex=regex)
 
 
 @register
-- 
2.43.0


From 8bdd095cb7aa8b402d034f406b375a31407cb251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 015/126] fix: reject non-alphabet characters in base64Binary

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 26bca6d..a2f344a 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -185,7 +185,8 @@ class base64Binary(anyAtomicType):
         except UnicodeEncodeError:
             base64Binary.value_error(v[:10])
         try:
-            res = base64.decodebytes(res)
+            # Whitespace is insignificant, other non-alphabet characters are not allowed.
+            res = base64.b64decode(b''.join(res.split()), validate=True)
         except Exception:
             raise ValueError('invalid base64 encoding')
         return res
-- 
2.43.0


From a18d8ce4f28f21e68b7b532db49e9127d842178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 016/126] fix: format negative UTC offsets which are not whole
 hours

---
 src/csvw/datatypes.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index a2f344a..9f2240f 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -300,6 +300,23 @@ def with_tz(v, func, args, kw):
     return res
 
 
+def format_with_tz(v, func, pattern, tz_marker):
+    if not tz_marker:
+        return func(v, tzinfo=v.tzinfo, format=pattern)
+    # babel gets negative offsets which are not whole hours wrong, so we format the offset.
+    offset = v.utcoffset() or datetime.timedelta(0)
+    hours, minutes = divmod(abs(offset) // datetime.timedelta(minutes=1), 60)
+    marker = tz_marker.strip()
+    if not offset and marker[0] == 'X':
+        tz = 'Z'
+    else:
+        tz = '{}{:02}'.format('-' if offset < datetime.timedelta(0) else '+', hours)
+        if minutes or len(marker) > 1:
+            tz += '{}{:02}'.format(':' if len(marker) == 3 else '', minutes)
+    return func(v, tzinfo=v.tzinfo, format=pattern[:-len(tz_marker)]) \
+        + tz_marker.replace(marker, tz)
+
+
 @register
 class dateTime(anyAtomicType):
     """
@@ -352,7 +369,7 @@ class dateTime(anyAtomicType):
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern:
-            return babel.dates.format_datetime(v, tzinfo=v.tzinfo, format=pattern)
+            return format_with_tz(v, babel.dates.format_datetime, pattern, tz_marker)
         return v.isoformat()
 
 
@@ -430,7 +447,7 @@ class _time(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        return babel.dates.format_time(v, tzinfo=v.tzinfo, format=pattern)
+        return format_with_tz(v, babel.dates.format_time, pattern, tz_marker)
 
 
 @register
-- 
2.43.0


From 5a3ca6be3ac697d268de1d5e175429eadfd666ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 017/126] fix: reject base64Binary with excess padding

---
 src/csvw/datatypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 9f2240f..4c796b4 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -186,7 +186,10 @@ class base64Binary(anyAtomicType):
             base64Binary.value_error(v[:10])
         try:
             # Whitespace is insignificant, other non-alphabet characters are not allowed.
-            res = base64.b64decode(b''.join(res.split()), validate=True)
+            res = b''.join(res.split())
+            if len(res) % 4 or not re.fullmatch(rb'[A-Za-z0-9+/]*={0,2}', res):
+                raise ValueError(v)
+            res = base64.b64decode(res)
         except Exception:
             raise ValueError('invalid base64 encoding')
         return res
-- 
2.43.0


From be797c0651973e8db9c2e04385cd89bd2b3f07f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:49 +0000
Subject: [PATCH 018/126] fix: parse dates and times only if they match their
 format completely

---
 src/csvw/datatypes.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4c796b4..b8868a0 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -305,7 +305,7 @@ def with_tz(v, func, args, kw):
 
 def format_with_tz(v, func, pattern, tz_marker):
     if not tz_marker:
-        return func(v, tzinfo=v.tzinfo, format=pattern)
+        return func(v, tzinfo=getattr(v, 'tzinfo', None), format=pattern)
     # babel gets negative offsets which are not whole hours wrong, so we format the offset.
     offset = v.utcoffset() or datetime.timedelta(0)
     hours, minutes = divmod(abs(offset) // datetime.timedelta(minutes=1), 60)
@@ -337,9 +337,10 @@ class dateTime(anyAtomicType):
     def _parse(v, cls, regex, tz_marker=None):
         v = v.strip()
         try:
-            comps = regex.match(v).groupdict()
+            comps = regex.fullmatch(v).groupdict()
         except AttributeError:  # pragma: no cover
             dateTime.value_error(v)
+        tz = comps.pop('tz', None)
         if comps.get('extramicroseconds'):
             raise ValueError('Extra microseconds')
         if comps.get('microsecond'):
@@ -353,21 +354,16 @@ class dateTime(anyAtomicType):
             for a in ['year', 'month', 'day']:
                 comps[a] = getattr(d, a)
         res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
-        if tz_marker:
+        if tz:
             # Let dateutils take care of parsing the timezone info:
-            res = res.replace(tzinfo=dateutil.parser.parse(v).tzinfo)
+            res = res.replace(tzinfo=dateutil.parser.isoparse('2000-01-01T00:00' + tz).tzinfo)
         return res
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
         if pattern and regex:
-            match = regex.match(v)
-            if not match:
-                raise ValueError('{} -- {} -- {}'.format(pattern, v, regex))  # pragma:
-        try:
-            return dateutil.parser.isoparse(v)
-        except ValueError:
             return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
+        return dateutil.parser.isoparse(v)
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
@@ -402,14 +398,18 @@ class date(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
+        if tz_marker:
+            return dateTime.to_python(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
         return with_tz(
             v.strip(), dateTime.to_python, [], dict(regex=regex, fmt=fmt, pattern=pattern))
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        from babel.dates import format_date
+        def format_date(v, tzinfo=None, format=None):
+            return babel.dates.format_date(v, format=format, locale='en')
+
         if pattern:
-            return format_date(v, format=pattern, locale='en')
+            return format_with_tz(v, format_date, pattern, tz_marker)
         return dateTime.to_string(v, regex=regex, fmt=fmt, tz_marker=tz_marker, pattern=pattern)
 
 
@@ -443,9 +443,9 @@ class _time(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        if pattern and 'x' in pattern.lower():
-            return dateutil.parser.parse('{}T{}'.format(datetime.date.today().isoformat(), v))
         assert regex is not None
+        if tz_marker:
+            return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
         return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
 
     @staticmethod
@@ -1182,6 +1182,12 @@ def dt_format_and_regex(fmt, no_date=False):
         regex += r'(\.(?P<microsecond>[0-9]{1,%s})(?![0-9]))?' % msecs
         regex += r'(\.(?P<extramicroseconds>[0-9]{%s,})(?![0-9]))?' % (msecs + 1,)
 
+    if tz_marker:
+        marker = tz_marker.strip()
+        regex += ' ' * (len(tz_marker) - len(marker)) + '(?P<tz>{}[+-][0-9]{{2}}{})'.format(
+            'Z|' if marker[0] == 'X' else '',
+            ['([0-5][0-9])?', '[0-5][0-9]', ':[0-5][0-9]'][len(marker) - 1])
+
     return {'regex': re.compile(regex), 'fmt': format, 'tz_marker': tz_marker, 'pattern': pattern}
 
 
-- 
2.43.0


From d31122803d5e7d1e72fc876213af7364ca1ea443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 019/126] fix: reject date formats which end with a separator

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index b8868a0..ed18117 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1127,7 +1127,8 @@ def dt_format_and_regex(fmt, no_date=False):
         msecs = len(msecs)   # ... and store it's length.
 
     # Now we can check whether the bare date and time formats are valid:
-    if (dfmt and dfmt not in date_patterns) or (tfmt and tfmt not in time_patterns):
+    if (dfmt and dfmt not in date_patterns) or (tfmt and tfmt not in time_patterns) or \
+            (dt_sep and not (dfmt and tfmt)) or (pattern and not (dfmt or tfmt)):
         raise ValueError(fmt)
 
     regex, format = '', ''  # Initialize the output.
-- 
2.43.0


From ac5553a56e1017e931a54e942fad6eb5b1b7587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 020/126] fix: accept numbers padded with zeros as their
 pattern asks for

---
 src/csvw/datatypes.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ed18117..0d9a70b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1271,21 +1271,8 @@ class NumberPattern:
         integral_part, _, decimal_part = s.partition('.')
         decimal_part, _, exponent = decimal_part.lower().partition('e')
         groups = integral_part.split(',')
-        significant, leadingzero, skip = [], False, True
-        for c in ''.join(groups):
-            if c in ['+', '-', '%',  # fixme: permil
-                     ]:
-                continue
-            if c == '0' and skip:
-                leadingzero = True
-                continue
-            if c != '0':
-                skip = False
-            significant.append(c)
-        if not significant and leadingzero:
-            significant = ['0']
         if self.min_digits_before_decimal_point and \
-                len(significant) < self.min_digits_before_decimal_point:
+                len(digits(integral_part)) < self.min_digits_before_decimal_point:
             return False
         if self.primary_grouping_size and groups:
             if len(digits(groups[-1])) > self.primary_grouping_size:
-- 
2.43.0


From 68479c5e42713247f84edbf583f093987de4b07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:34 +0000
Subject: [PATCH 021/126] fix: parse negative numbers with the sign at the end,
 if their pattern says so

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 0d9a70b..0759917 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -581,6 +581,8 @@ class decimal(anyAtomicType):
             if groupChar:
                 chars[groupChar] = ''
             v = replace_chars(v, chars)
+            if pattern and ';' in pattern and pattern.endswith('-') and v.endswith('-'):
+                v = '-' + v[:-1]  # The sign of negative numbers comes last.
             match = re.fullmatch(
                 r'([+-]?)([%‰]?)([0-9]+(?:\.[0-9]*)?|\.[0-9]+)([%‰]?)', v.strip())
             if not match or (match.group(2) and match.group(4)):
-- 
2.43.0


From 857b4da6cb2bf75617c56027462c6552611e91e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 022/126] fix: count zeros of number patterns on both sides of
 group characters

---
 src/csvw/datatypes.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 0759917..7be7441 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1226,10 +1226,8 @@ class NumberPattern:
 
     @property
     def min_digits_before_decimal_point(self):
-        integral_part = self.positive.split('.')[0]
-        match = re.search('([0]+)$', integral_part)
-        if match:
-            return len(match.groups()[0])
+        # Note: Zeros may be separated by group characters.
+        return self.positive.split('.')[0].count('0')
 
     @property
     def exponent_digits(self):
-- 
2.43.0


From 77039efe999a88135e89e857ef870df1d6ee430e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:29 +0000
Subject: [PATCH 023/126] fix: format long decimals with a pattern

---
 src/csvw/datatypes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 7be7441..831a760 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -601,7 +601,9 @@ class decimal(anyAtomicType):
             return decimal._reverse_special['{}'.format(v)]
 
         if pattern:
-            v = babel.numbers.format_decimal(v, pattern, 'en')
+            with _decimal.localcontext() as ctx:
+                ctx.prec = 1000  # Only digits exceeding the pattern may be rounded.
+                v = babel.numbers.format_decimal(v, pattern, 'en')
             return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
         fmt = '' if groupChar is None else ','
-- 
2.43.0


From 62c38ab9a746ac62e05fd71cd7ccbce6c4e19379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:08 +0000
Subject: [PATCH 024/126] fix: reject group characters after the decimal point
 unless the pattern has some

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 831a760..3f8d856 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1290,6 +1290,8 @@ class NumberPattern:
                     if len(digits(group)) != self.secondary_grouping_size:
                         return False
         if decimal_part:
+            if ',' in decimal_part and ',' not in self.positive.partition('.')[2]:
+                return False
             if len(digits(decimal_part)) > self.decimal_digits:
                 return False
         if self.significant_decimal_digits:
-- 
2.43.0


From 0ce4244d87633a8522bdaba195ca8da02019f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:04 +0000
Subject: [PATCH 025/126] fix: reject numbers starting with a group character

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 3f8d856..de1a2d3 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1284,7 +1284,7 @@ class NumberPattern:
         if self.secondary_grouping_size and len(groups) > 1:
             for i, group in enumerate(groups[:-1]):
                 if i == 0:
-                    if len(digits(group)) > self.secondary_grouping_size:
+                    if not 0 < len(digits(group)) <= self.secondary_grouping_size:
                         return False
                 else:
                     if len(digits(group)) != self.secondary_grouping_size:
-- 
2.43.0


From ba17d111e5d30073e2fcb13897cc4462641c7591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 026/126] fix: check constraints of datatypes also if their
 value is 0

---
 src/csvw/metadata.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 88ba5ee..692b9fa 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -579,7 +579,7 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 tuple((DATATYPES[name] for name in ['decimal', 'float', 'datetime', 'duration']))):
-            if any([getattr(self, at) for at in
+            if any([getattr(self, at) is not None for at in
                     'minimum maximum minExclusive maxExclusive minInclusive maxInclusive'.split()]):
                 raise ValueError(
                     'Applications MUST raise an error if minimum, minInclusive, maximum, '
@@ -589,24 +589,27 @@ class Datatype(DescriptionBase):
         if not isinstance(
                 self.basetype(),
                 (DATATYPES['string'], DATATYPES['base64Binary'], DATATYPES['hexBinary'])):
-            if self.length or self.minLength or self.maxLength:
+            if any(v is not None for v in [self.length, self.minLength, self.maxLength]):
                 raise ValueError(
                     'Applications MUST raise an error if length, maxLength, or minLength are '
                     'specified and the base datatype is not string or one of its subtypes, or a '
                     'binary type.')
 
-        if (self.minInclusive and self.minExclusive) or (self.maxInclusive and self.maxExclusive):
+        # Note: minimum is equivalent to minInclusive, maximum to maxInclusive.
+        min_inc = [v for v in [self.minimum, self.minInclusive] if v is not None]
+        max_inc = [v for v in [self.maximum, self.maxInclusive] if v is not None]
+        min_exc = [self.minExclusive] if self.minExclusive is not None else []
+        max_exc = [self.maxExclusive] if self.maxExclusive is not None else []
+
+        if (min_inc and min_exc) or (max_inc and max_exc):
             raise ValueError(
                 'Applications MUST raise an error if both minInclusive and minExclusive are '
                 'specified, or if both maxInclusive and maxExclusive are specified.')
 
-        if (self.minInclusive and self.maxExclusive and self.maxExclusive <= self.minInclusive) or \
-                (self.minInclusive and self.maxInclusive and self.maxInclusive < self.minInclusive):
-            raise ValueError('')
-
-        if (self.minExclusive and self.maxExclusive and self.maxExclusive <= self.minExclusive) or (
-                self.minExclusive and self.maxInclusive and self.maxInclusive <= self.minExclusive):
-            raise ValueError('')
+        if any(hi < lo for lo in min_inc for hi in max_inc) or \
+                any(hi <= lo for lo in min_inc + min_exc for hi in max_exc) or \
+                any(hi <= lo for lo in min_exc for hi in max_inc):
+            raise ValueError('contradictory minimum and maximum')
 
         if 'id' in self.at_props and any(
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
-- 
2.43.0


From f1da4c3e445aa5935a7574d317930dc0e192da5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:10 +0000
Subject: [PATCH 027/126] fix: compute length of anyURI values from the
 characters

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 692b9fa..6cd95bf 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -652,7 +652,8 @@ class Datatype(DescriptionBase):
         if v is None:
             return v
         try:
-            l_ = len(v or '')
+            # Note: URIs are represented as (named) tuples.
+            l_ = len(v.unsplit() if hasattr(v, 'unsplit') else (v or ''))
             if self.length is not None and l_ != self.length:
                 raise ValueError('value must have length {}'.format(self.length))
             if self.minLength is not None and l_ < self.minLength:
-- 
2.43.0


From d37ca9898acab6e7e0dab3797d3df69e81eef184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 028/126] fix: read times such that they can be compared across
 midnight

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index de1a2d3..7866568 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -350,7 +350,8 @@ class dateTime(anyAtomicType):
             # 6-digit number.
             comps['microsecond'] = comps['microsecond'][:6].ljust(6, '0')
         if cls == datetime.datetime and 'year' not in comps:
-            d = datetime.date.today()
+            # Times must be comparable, no matter when they have been read.
+            d = datetime.date(1970, 1, 1)
             for a in ['year', 'month', 'day']:
                 comps[a] = getattr(d, a)
         res = cls(**{k: int(v) for k, v in comps.items() if v is not None})
-- 
2.43.0


From 1af4df34de729bed27f8ac2225083c889bf2a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 029/126] fix: convert minimum and maximum of decimals as
 written

---
 src/csvw/datatypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 7866568..d863a55 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -592,7 +592,8 @@ class decimal(anyAtomicType):
             # Make sure no digits are lost to rounding, thus do not multiply.
             v = sign + digits + {'%': 'E-2', '‰': 'E-3', '': ''}[prefix or suffix]
         try:
-            return _decimal.Decimal(v)
+            # Numbers from JSON must be converted as written.
+            return _decimal.Decimal(repr(v) if isinstance(v, float) else v)
         except (TypeError, _decimal.InvalidOperation):
             decimal.value_error(v)
 
-- 
2.43.0


From 08c3fd56a759d9d3ffece8f112a482ac63055031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:49 +0000
Subject: [PATCH 030/126] fix: reject NaN if there are bounds, rather than
 failing or accepting it

---
 src/csvw/metadata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6cd95bf..19b22f1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -663,6 +663,10 @@ class Datatype(DescriptionBase):
         except TypeError:
             pass
         if self.basetype.minmax:
+            if v != v and any(b is not None for b in [
+                    self.minimum, self.minInclusive, self.minExclusive,
+                    self.maximum, self.maxInclusive, self.maxExclusive]):
+                raise ValueError('NaN is not comparable')
             if self.minimum is not None and v < self.minimum:
                 raise ValueError('value must be >= {}'.format(self.minimum))
             if self.minInclusive is not None and v < self.minInclusive:
-- 
2.43.0


From 6c45a374ea6c7873523b8a414b88b08b55b924cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:09 +0000
Subject: [PATCH 031/126] fix: compare dates with and without timezone to
 bounds without failing

---
 src/csvw/metadata.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 19b22f1..014f39a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -15,6 +15,7 @@ import decimal
 import pathlib
 import typing
 import zipfile
+import datetime
 import operator
 import warnings
 import functools
@@ -506,6 +507,13 @@ def optional_int():
         converter=lambda v: v if v is None else int(v))
 
 
+def comparable(v):
+    """Datetimes without timezone can only be compared with ones with timezone if we assume one."""
+    if isinstance(v, datetime.datetime) and v.tzinfo is None:
+        return v.replace(tzinfo=datetime.timezone.utc)
+    return v
+
+
 @attr.s
 class Datatype(DescriptionBase):
     """
@@ -596,10 +604,10 @@ class Datatype(DescriptionBase):
                     'binary type.')
 
         # Note: minimum is equivalent to minInclusive, maximum to maxInclusive.
-        min_inc = [v for v in [self.minimum, self.minInclusive] if v is not None]
-        max_inc = [v for v in [self.maximum, self.maxInclusive] if v is not None]
-        min_exc = [self.minExclusive] if self.minExclusive is not None else []
-        max_exc = [self.maxExclusive] if self.maxExclusive is not None else []
+        min_inc = [comparable(v) for v in [self.minimum, self.minInclusive] if v is not None]
+        max_inc = [comparable(v) for v in [self.maximum, self.maxInclusive] if v is not None]
+        min_exc = [comparable(self.minExclusive)] if self.minExclusive is not None else []
+        max_exc = [comparable(self.maxExclusive)] if self.maxExclusive is not None else []
 
         if (min_inc and min_exc) or (max_inc and max_exc):
             raise ValueError(
@@ -667,17 +675,18 @@ class Datatype(DescriptionBase):
                     self.minimum, self.minInclusive, self.minExclusive,
                     self.maximum, self.maxInclusive, self.maxExclusive]):
                 raise ValueError('NaN is not comparable')
-            if self.minimum is not None and v < self.minimum:
+            c = comparable(v)
+            if self.minimum is not None and c < comparable(self.minimum):
                 raise ValueError('value must be >= {}'.format(self.minimum))
-            if self.minInclusive is not None and v < self.minInclusive:
+            if self.minInclusive is not None and c < comparable(self.minInclusive):
                 raise ValueError('value must be >= {}'.format(self.minInclusive))
-            if self.minExclusive is not None and v <= self.minExclusive:
+            if self.minExclusive is not None and c <= comparable(self.minExclusive):
                 raise ValueError('value must be > {}'.format(self.minExclusive))
-            if self.maximum is not None and v > self.maximum:
+            if self.maximum is not None and c > comparable(self.maximum):
                 raise ValueError('value must be <= {}'.format(self.maximum))
-            if self.maxInclusive is not None and v > self.maxInclusive:
+            if self.maxInclusive is not None and c > comparable(self.maxInclusive):
                 raise ValueError('value must be <= {}'.format(self.maxInclusive))
-            if self.maxExclusive is not None and v >= self.maxExclusive:
+            if self.maxExclusive is not None and c >= comparable(self.maxExclusive):
                 raise ValueError('value must be < {}'.format(self.maxExclusive))
         return v
 
-- 
2.43.0


From 4ee1ebe7adeb6647d26cffaa9a3f3a24cf906ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:22 +0000
Subject: [PATCH 032/126] fix: check minimum and maximum of durations

---
 src/csvw/datatypes.py | 1 +
 src/csvw/metadata.py  | 8 +++++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index d863a55..4fc8e9b 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -469,6 +469,7 @@ class duration(anyAtomicType):
 
     """
     name = 'duration'
+    minmax = True
     example = 'P3Y6M4DT12H30M5S'
 
     @staticmethod
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 014f39a..b09cf7f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -26,6 +26,7 @@ from urllib.parse import urljoin, urlparse, urlunparse
 
 from language_tags import tags
 import attr
+import isodate
 import requests
 import uritemplate
 
@@ -508,7 +509,12 @@ def optional_int():
 
 
 def comparable(v):
-    """Datetimes without timezone can only be compared with ones with timezone if we assume one."""
+    """
+    Datetimes without timezone can only be compared with ones with timezone if we assume one, and
+    durations of months can only be compared with durations of days if we assume a start.
+    """
+    if isinstance(v, isodate.Duration):
+        return v.totimedelta(start=datetime.datetime(1970, 1, 1))
     if isinstance(v, datetime.datetime) and v.tzinfo is None:
         return v.replace(tzinfo=datetime.timezone.utc)
     return v
-- 
2.43.0


From 6c74532385f7a435fd4e1bfc06a6ce008cf78dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:49 +0000
Subject: [PATCH 033/126] fix: report lists given as value of atomic properties
 as invalid

---
 src/csvw/metadata.py | 6 +++---
 src/csvw/utils.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index b09cf7f..8e96730 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -920,7 +920,7 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
-    for d in functools.partial(utils.converter, dict, None)(v):
+    for d in utils.converter(dict, None, v, allow_list=True):
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
@@ -942,8 +942,8 @@ class Schema(Description):
     columns = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [
-            Column.fromvalue(c) for c in functools.partial(utils.converter, dict, None)(
-                functools.partial(utils.converter, list, [])(v))])
+            Column.fromvalue(c) for c in utils.converter(
+                dict, None, utils.converter(list, [], v), allow_list=True)])
     foreignKeys = attr.ib(
         default=attr.Factory(list),
         converter=lambda v: [] if v is None else converter_foreignKeys(v))
diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index 65568be..f941bf5 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -16,7 +16,7 @@ def is_url(s):
     return re.match(r'https?://', str(s))
 
 
-def converter(type_, default, s, allow_none=False, cond=None, allow_list=True):
+def converter(type_, default, s, allow_none=False, cond=None, allow_list=False):
     if allow_list and type_ != list and isinstance(s, list):
         return [v for v in [converter(type_, None, ss, cond=cond) for ss in s] if v is not None]
 
-- 
2.43.0


From 06e7c7809d6db4629a08e411f1b9c4c63e916695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:23 +0000
Subject: [PATCH 034/126] fix: report invalid column references and ignore them

---
 src/csvw/metadata.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8e96730..595ef3b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -875,11 +875,21 @@ class Column(Description):
         return fmt(v)
 
 
+def converter_column_reference(v, default=None):
+    if v is None:
+        return default
+    v = list(v) if isinstance(v, (list, tuple)) else [v]
+    if not v or not all(isinstance(vv, str) for vv in v):
+        warnings.warn('Invalid column reference: {}'.format(v))
+        return default
+    return v
+
+
 def column_reference():
     return attr.ib(
         default=None,
         validator=attr.validators.optional(attr.validators.instance_of(list)),
-        converter=lambda v: v if isinstance(v, list) or v is None else [v])
+        converter=converter_column_reference)
 
 
 @attr.s
@@ -950,7 +960,7 @@ class Schema(Description):
     primaryKey = column_reference()
     rowTitles = attr.ib(
         default=attr.Factory(list),
-        converter=lambda v: v if isinstance(v, list) else [v],
+        converter=lambda v: [] if v == [] else converter_column_reference(v, default=[]),
     )
 
     def __attrs_post_init__(self):
@@ -977,6 +987,9 @@ class Schema(Description):
             if col and not col.name:
                 warnings.warn('A primaryKey referenced column MUST have a `name` property')
                 self.primaryKey = None
+            elif self.columns and not col:
+                warnings.warn('Unknown column referenced in primaryKey: {}'.format(colref))
+                self.primaryKey = None
 
     @classmethod
     def fromvalue(cls, v):
-- 
2.43.0


From 2511b6c9a356b2277455f4c24dad515e8b9548d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:26 +0000
Subject: [PATCH 035/126] fix: reject incomplete foreign keys

---
 src/csvw/metadata.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 595ef3b..5e59acd 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -902,6 +902,10 @@ class Reference:
     def __attrs_post_init__(self):
         if self.resource is not None and self.schemaReference is not None:
             raise ValueError(self)
+        if self.resource is None and self.schemaReference is None:
+            raise ValueError('reference without resource or schemaReference')
+        if self.columnReference is None:
+            raise ValueError('reference without columnReference')
 
 
 @attr.s
@@ -913,14 +917,17 @@ class ForeignKey:
     @classmethod
     def fromdict(cls, d):
         if isinstance(d, dict):
+            if set(d.keys()) != {'columnReference', 'reference'}:
+                raise ValueError('Invalid foreignKey spec')
             try:
                 _ = Reference(**d['reference'])
             except TypeError:
                 raise ValueError('Invalid reference property')
-            if not set(d.keys()).issubset({'columnReference', 'reference'}):
-                raise ValueError('Invalid foreignKey spec')
         kw = dict(d, reference=Reference(**d['reference']))
-        return cls(**kw)
+        res = cls(**kw)
+        if res.columnReference is None:
+            raise ValueError('Invalid foreignKey spec')
+        return res
 
     def asdict(self, **kw):
         res = utils.attr_asdict(self, **kw)
@@ -930,7 +937,7 @@ class ForeignKey:
 
 def converter_foreignKeys(v):
     res = []
-    for d in utils.converter(dict, None, v, allow_list=True):
+    for d in utils.converter(dict, None, utils.converter(list, [], v), allow_list=True):
         try:
             res.append(ForeignKey.fromdict(d))
         except TypeError:
-- 
2.43.0


From 801ef43a35fa8b9275ddeb77f1b2109f14d7a185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:59 +0000
Subject: [PATCH 036/126] fix: report values of datatype, required and
 suppressOutput of the wrong type

---
 src/csvw/metadata.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5e59acd..4501d2c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -179,7 +179,8 @@ is_url = utils.is_url
 
 
 class Invalid:
-    pass
+    def asdict(self, **kw):
+        return ''
 
 
 INVALID = Invalid()
@@ -715,6 +716,13 @@ def converter_lang(v):
     return v
 
 
+def converter_required(v):
+    if isinstance(v, str) and v.lower() in ['true', 'false']:
+        warnings.warn('Boolean property given as string')
+        return v.lower() == 'true'
+    return utils.converter(bool, None, v, allow_none=True)
+
+
 @attr.s
 class Description(DescriptionBase):
     """Adds support for inherited properties.
@@ -731,7 +739,7 @@ class Description(DescriptionBase):
     aboutUrl = uri_template_property()
     datatype = attr.ib(
         default=None,
-        converter=lambda v: v if not v else Datatype.fromvalue(v))
+        converter=lambda v: v if v is None else Datatype.fromvalue(v))
     default = attr.ib(
         default=None,
         converter=functools.partial(utils.converter, str, None, allow_none=True, allow_list=False),
@@ -743,7 +751,10 @@ class Description(DescriptionBase):
         converter=functools.partial(utils.converter, bool, False, allow_none=True),
     )
     propertyUrl = uri_template_property()
-    required = attr.ib(default=None)
+    required = attr.ib(
+        default=None,
+        converter=converter_required,
+    )
     separator = attr.ib(
         converter=functools.partial(utils.converter, str, None, allow_none=True),
         default=None,
@@ -1234,7 +1245,9 @@ class Table(TableLike):
 
     .. seealso:: `<https://www.w3.org/TR/tabular-metadata/#tables>`_
     """
-    suppressOutput = attr.ib(default=False)
+    suppressOutput = attr.ib(
+        default=False,
+        converter=functools.partial(utils.converter, bool, False))
     _comments = []
 
     def add_foreign_key(self, colref, ref_resource, ref_colref):
-- 
2.43.0


From 83e361f9dfeec22b9a82bcfbadb98a76b054f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:23 +0000
Subject: [PATCH 037/126] fix: report invalid notes and transformations and
 ignore them, let invalid URI templates behave as empty ones

---
 src/csvw/metadata.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4501d2c..1fb7718 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -179,6 +179,11 @@ is_url = utils.is_url
 
 
 class Invalid:
+    uri = None
+
+    def expand(self, *args, **kw):
+        return ''
+
     def asdict(self, **kw):
         return ''
 
@@ -1051,11 +1056,14 @@ def dialect_props(d):
     return partitioned
 
 
-def valid_transformations(instance, attribute, value):
-    if not isinstance(value, list):
-        warnings.warn('Invalid transformations property')
-    for tr in value:
+def converter_transformations(v):
+    if v is None:
+        return []
+    res = []
+    for tr in utils.converter(dict, [], utils.converter(list, [], v), allow_list=True):
         Description.partition_properties(tr, type_name='Template')
+        res.append(tr)
+    return res
 
 
 @attr.s
@@ -1089,7 +1097,9 @@ class TableLike(Description):
         default=None,
         converter=lambda v: v if (v is None or isinstance(v, str))
         else Dialect(**dialect_props(v)))
-    notes = attr.ib(default=attr.Factory(list))
+    notes = attr.ib(
+        default=attr.Factory(list),
+        converter=lambda v: [] if v is None else utils.converter(list, [], v))
     tableDirection = attr.ib(
         default='auto',
         converter=functools.partial(
@@ -1099,7 +1109,7 @@ class TableLike(Description):
         default=None,
         converter=lambda v: Schema.fromvalue(v))
     transformations = attr.ib(
-        validator=valid_transformations,
+        converter=converter_transformations,
         default=attr.Factory(list),
     )
     url = link_property()
-- 
2.43.0


From 41d4a40f76e63acb2afaabea49e81d51b4ee9156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:37 +0000
Subject: [PATCH 038/126] fix: do not warn about valid properties of
 transformations

---
 src/csvw/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1fb7718..27e0627 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1061,7 +1061,10 @@ def converter_transformations(v):
         return []
     res = []
     for tr in utils.converter(dict, [], utils.converter(list, [], v), allow_list=True):
-        Description.partition_properties(tr, type_name='Template')
+        props = Description.partition_properties(tr, type_name='Template', strict=False)
+        for k in set(props) - {'common_props', 'at_props',
+                               'url', 'scriptFormat', 'targetFormat', 'source', 'titles'}:
+            warnings.warn('Invalid property {} for Template'.format(k))
         res.append(tr)
     return res
 
-- 
2.43.0


From 187c40c1094a48f901b9c6019a533f4dc95fc580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:27 +0000
Subject: [PATCH 039/126] fix: report values of tables and tableSchema of the
 wrong type

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 27e0627..f1bedc3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1023,7 +1023,7 @@ class Schema(Description):
             except:  # pragma: no cover # noqa: E722
                 return v
         if not isinstance(v, dict):
-            if isinstance(v, int):
+            if v is not None:
                 warnings.warn('Invalid value for tableSchema property')
             v = {}
         return cls(**cls.partition_properties(v))
@@ -1531,7 +1531,7 @@ class Table(TableLike):
 
 def converter_tables(v):
     res = []
-    for vv in v:
+    for vv in utils.converter(list, [], list(v) if isinstance(v, tuple) else v):
         if not isinstance(vv, (dict, Table)):
             warnings.warn('Invalid value for Table spec')
         else:
-- 
2.43.0


From b1e07cf9ecae4823fda8cc155c891f89455b8d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 040/126] fix: ignore unknown properties of dialects and honour
 headerRowCount 0

---
 src/csvw/metadata.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f1bedc3..a4e82f1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1051,8 +1051,12 @@ def dialect_props(d):
     partitioned = Description.partition_properties(d, type_name='Dialect', strict=False)
     del partitioned['at_props']
     del partitioned['common_props']
-    if partitioned.get('headerRowCount'):
-        partitioned['header'] = True
+    for k in set(partitioned) - set(attr.fields_dict(Dialect)):
+        warnings.warn('Invalid property {} for Dialect'.format(k))
+        del partitioned[k]
+    count = partitioned.get('headerRowCount')
+    if isinstance(count, int) and not isinstance(count, bool) and count >= 0:
+        partitioned['header'] = bool(count)
     return partitioned
 
 
-- 
2.43.0


From 1034c55b0ba3d493a9cc4ecd773e0e0e8a68179a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 041/126] fix: report length constraints which are not
 non-negative integers

---
 src/csvw/metadata.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a4e82f1..d8e13da 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -507,11 +507,17 @@ class DescriptionBase:
             if (k == 'null' or (v not in ([], {}))))
 
 
+def converter_optional_int(v):
+    if isinstance(v, str):
+        v = int(v)
+    return utils.converter(int, None, v, allow_none=True, cond=lambda vv: vv >= 0)
+
+
 def optional_int():
     return attr.ib(
         default=None,
         validator=attr.validators.optional(attr.validators.instance_of(int)),
-        converter=lambda v: v if v is None else int(v))
+        converter=converter_optional_int)
 
 
 def comparable(v):
-- 
2.43.0


From dccc4edb783ae1ab53a1ee954134a28e0c9ca83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:49 +0000
Subject: [PATCH 042/126] fix: report invalid formats and bounds of datatypes

---
 src/csvw/datatypes.py |  6 ++++++
 src/csvw/metadata.py  | 23 ++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 4fc8e9b..87b723c 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -474,6 +474,12 @@ class duration(anyAtomicType):
 
     @staticmethod
     def derived_description(datatype: "csvw.Datatype") -> dict:
+        if datatype.format:
+            try:
+                re.compile(datatype.format)
+            except re.error:
+                warnings.warn('Invalid regex pattern as datatype format')
+                return {'format': None}
         return {'format': datatype.format}
 
     @staticmethod
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d8e13da..a55add2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -580,12 +580,33 @@ class Datatype(DescriptionBase):
 
         raise ValueError(v)
 
+    def _valid_format(self, v):
+        """
+        Only the format of numbers can be specified as object.
+        """
+        if isinstance(v, dict) and isinstance(
+                self.basetype(), tuple(DATATYPES[name] for name in ['decimal', 'float'])):
+            res = {
+                k: vv for k, vv in v.items()
+                if k in ['pattern', 'decimalChar', 'groupChar'] and isinstance(vv, str) and vv}
+            if len(res) < len(v):
+                warnings.warn('Invalid number format: {}'.format(v))
+            return res or None
+        return utils.converter(str, None, v, allow_none=True)
+
     def __attrs_post_init__(self):
+        self.format = self._valid_format(self.format)
         for attr_ in [
             'minimum', 'maximum', 'minInclusive', 'maxInclusive', 'minExclusive', 'maxExclusive'
         ]:
             if getattr(self, attr_) is not None:
-                setattr(self, attr_, self.parse(getattr(self, attr_)))
+                v = getattr(self, attr_)
+                if not isinstance(v, (str, int, float, decimal.Decimal)) or isinstance(v, bool):
+                    raise ValueError('Invalid value for {}: {}'.format(attr_, v))
+                try:
+                    setattr(self, attr_, self.parse(v))
+                except (TypeError, AttributeError):
+                    raise ValueError('Invalid value for {}: {}'.format(attr_, v))
 
         if self.length is not None:
             if self.minLength is not None and self.length < self.minLength:
-- 
2.43.0


From 68dd585412398d0013769ff9e2eff18cf1db4f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:09 +0000
Subject: [PATCH 043/126] fix: report invalid lineTerminators and @context

---
 src/csvw/dsv_dialects.py |  5 ++++-
 src/csvw/metadata.py     | 10 +++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index 3d98409..05fb3ca 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -56,7 +56,10 @@ class Dialect(object):
 
     lineTerminators = attr.ib(
         converter=functools.partial(
-            utils.converter, (list, str), ['\r\n', '\n'], allow_list=False),
+            utils.converter,
+            (list, str),
+            ['\r\n', '\n'],
+            cond=lambda s: s and all(isinstance(ss, str) and ss for ss in s)),
         default=attr.Factory(lambda: ['\r\n', '\n']))
 
     quoteChar = attr.ib(
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index a55add2..d07833f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1157,6 +1157,10 @@ class TableLike(Description):
         if 'id' in self.at_props and self.at_props['id'] is None:
             self.at_props['id'] = self.base
         ctx = self.at_props.get('context')
+        if ctx is not None and not isinstance(ctx, (str, list)):
+            raise ValueError('Invalid @context: {}'.format(ctx))
+        if isinstance(ctx, str) and ctx != 'http://www.w3.org/ns/csvw':
+            warnings.warn('Invalid @context: {}'.format(ctx))
         if isinstance(ctx, list):
             for obj in ctx:
                 if (isinstance(obj, dict) and not set(obj.keys()).issubset({'@base', '@language'}))\
@@ -1167,8 +1171,12 @@ class TableLike(Description):
                         'http://www.w3.org/ns/csvw and the object represents a local context '
                         'definition, which is restricted to contain either or both of'
                         '@base and @language.')
+                if not isinstance(obj, (str, dict)):
+                    raise ValueError('Invalid @context: {}'.format(ctx))
+                if isinstance(obj, dict) and not isinstance(obj.get('@base', ''), str):
+                    raise ValueError('Invalid @base: {}'.format(obj['@base']))
                 if isinstance(obj, dict) and '@language' in obj:
-                    if not tags.check(obj['@language']):
+                    if not isinstance(obj['@language'], str) or not tags.check(obj['@language']):
                         warnings.warn('Invalid value for @language property')
                         del obj['@language']
 
-- 
2.43.0


From 964e1487f7a9f5d5f766128d4522259a2d86e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 044/126] fix: validate values and types of common properties

---
 src/csvw/metadata.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index d07833f..7154564 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -397,19 +397,18 @@ def valid_common_property(v):
                 "Aside from @value, @type, @language, and @id, the properties used on an object "
                 "MUST NOT start with @.")
         if '@value' in v:
-            if len(v) > 1:
-                if len(v) > 2 \
-                        or set(v.keys()) not in [{'@value', '@language'}, {'@value', '@type'}] \
-                        or not isinstance(v['@value'], (str, bool, int, decimal.Decimal)):
-                    raise ValueError(
-                        "If a @value property is used on an object, that object MUST NOT have "
-                        "any other properties aside from either @type or @language, and MUST "
-                        "NOT have both @type and @language as properties. The value of the "
-                        "@value property MUST be a string, number, or boolean value.")
+            if set(v.keys()) not in [{'@value'}, {'@value', '@language'}, {'@value', '@type'}] \
+                    or not isinstance(v['@value'], (str, bool, int, float, decimal.Decimal)):
+                raise ValueError(
+                    "If a @value property is used on an object, that object MUST NOT have "
+                    "any other properties aside from either @type or @language, and MUST "
+                    "NOT have both @type and @language as properties. The value of the "
+                    "@value property MUST be a string, number, or boolean value.")
         if '@language' in v and '@value' not in v:
             raise ValueError(
                 "A @language property MUST NOT be used on an object unless it also has a "
                 "@value property.")
+        v = v.copy()
         if '@id' in v:
             v['@id'] = valid_id_property(v['@id'])
         if '@language' in v:
@@ -417,21 +416,22 @@ def valid_common_property(v):
                 warnings.warn('Invalid language tag')
                 del v['@language']
         if '@type' in v:
-            vv = v['@type']
-            if isinstance(vv, str):
+            if not isinstance(v['@type'], (str, list, dict)):
+                raise ValueError('Invalid datatype for @type')
+            for vv in v['@type'] if isinstance(v['@type'], list) else [v['@type']]:
+                if not isinstance(vv, str):
+                    continue
                 if vv.startswith('_:'):
                     raise ValueError(
                         'The value of any @id or @type contained within a metadata document '
                         'MUST NOT be a blank node.')
                 if not is_url(vv) and \
                         not any(vv == ns or vv.startswith(ns + ':') for ns in NAMESPACES) and \
-                        vv not in CSVW_TERMS:
+                        vv not in CSVW_TERMS and vv not in DATATYPES:
                     raise ValueError(
                         'The value of any member of @type MUST be either a term defined in '
                         '[csvw-context], a prefixed name where the prefix is a term defined in '
                         '[csvw-context], or an absolute URL.')
-            elif not isinstance(vv, (list, dict)):
-                raise ValueError('Invalid datatype for @type')
         return {k: valid_common_property(vv) for k, vv in v.items()}
     if isinstance(v, list):
         return [valid_common_property(vv) for vv in v]
-- 
2.43.0


From 729173e5ce7ae249b6b700a32d3f7d362e6bf8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:01 +0000
Subject: [PATCH 045/126] fix: do not change the object a datatype is created
 from

---
 src/csvw/metadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7154564..ad410c7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -572,8 +572,7 @@ class Datatype(DescriptionBase):
             return cls(base=v)
 
         if isinstance(v, dict):
-            v.setdefault('base', 'string')
-            return cls(**cls.partition_properties(v))
+            return cls(**cls.partition_properties({'base': 'string', **v}))
 
         if isinstance(v, cls):
             return v
-- 
2.43.0


From f058cb56281b587ab90536af1a809df1f86c0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 046/126] fix: ignore empty lists of titles

---
 src/csvw/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ad410c7..e850450 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -341,7 +341,7 @@ class NaturalLanguage(collections.OrderedDict):
         elif isinstance(self.value, (list, tuple)):
             if not all(isinstance(v, str) for v in self.value):
                 warnings.warn('titles with array values containing non-string values are ignored')
-            else:
+            elif self.value:
                 self[None] = list(self.value)
         elif isinstance(self.value, dict):
             for k, v in self.value.items():
@@ -355,7 +355,8 @@ class NaturalLanguage(collections.OrderedDict):
                         titles.append(vv)
                     else:
                         warnings.warn('Title with value which is not a string is ignored')
-                self[k] = titles
+                if titles:
+                    self[k] = titles
         else:
             raise ValueError('invalid value type for NaturalLanguage')
 
-- 
2.43.0


From cf8535e1d62a7625c3fced6d49fdb06e709e56df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:52 +0000
Subject: [PATCH 047/126] fix: report unknown @-properties of descriptions and
 ignore them

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e850450..05bc47c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -465,6 +465,9 @@ class DescriptionBase:
                     v = valid_id_property(v)
                 if k == '@type' and v != type_name:
                     raise ValueError('Invalid @type property {} for {}'.format(v, type_name))
+                if k not in ['@id', '@type', '@context', '@base']:
+                    warnings.warn('Invalid property {} for {}'.format(k, type_name))
+                    continue
                 a[k[1:]] = v
             elif ':' in k:
                 c[k] = valid_common_property(v)
-- 
2.43.0


From 001ecf8b573933926ed11086de4780079da64a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:25 +0000
Subject: [PATCH 048/126] fix: report invalid number patterns and JSON schemas

---
 src/csvw/datatypes.py | 2 +-
 src/csvw/metadata.py  | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 87b723c..186ecf3 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -1040,7 +1040,7 @@ class json(string):
                     return {'schema': schema}
                 except jsonschema.ValidationError:
                     return {'schema': schema}
-                except jsonschema.SchemaError:
+                except (jsonschema.SchemaError, TypeError):
                     warnings.warn('Invalid JSON schema as datatype format')
             except _json.JSONDecodeError:
                 pass
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 05bc47c..205e21a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -665,9 +665,11 @@ class Datatype(DescriptionBase):
                 self.at_props['id'] == NAMESPACES['xsd'] + dt for dt in DATATYPES):
             raise ValueError('datatype @id MUST NOT be the URL of a built-in datatype.')
 
-        if isinstance(self.basetype(), DATATYPES['decimal']) and \
+        if isinstance(
+                self.basetype(), tuple(DATATYPES[name] for name in ['decimal', 'float'])) and \
                 'pattern' in self.derived_description:
-            if not set(self.derived_description['pattern']).issubset(set('#0.,;%‰E-+')):
+            pattern = self.derived_description['pattern']
+            if not set(pattern).issubset(set('#0.,;%‰E-+')) or pattern.count(';') > 1:
                 self.format = None
                 warnings.warn('Invalid number pattern')
 
-- 
2.43.0


From 22ef13b8748e0250bf675caf16fe1335426fdaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:47 +0000
Subject: [PATCH 049/126] fix: read zipped and remote data like local files

---
 src/csvw/dsv.py      |  2 +-
 src/csvw/metadata.py | 14 +++++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index df8fcbf..00ace76 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -181,7 +181,7 @@ class UnicodeReader:
         self.newline = kw.pop('lineterminator', None)
         self.dialect = dialect if isinstance(dialect, Dialect) else None
         if self.dialect:
-            self.encoding = self.dialect.python_encoding
+            self.encoding = normalize_encoding(self.dialect.python_encoding)
             self.kw = dialect.as_python_formatting_parameters()
             self.kw.update(kw)
         else:
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 205e21a..f92749c 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -10,6 +10,7 @@ This module implements (partially) the W3C recommendation
 import io
 import re
 import json
+import codecs
 import shutil
 import decimal
 import pathlib
@@ -1453,10 +1454,15 @@ class Table(TableLike):
             if col.required if col.virtual else col.inherit('required'):
                 requiredcols.add(col.header)
 
+        # A byte order mark is no part of the data.
+        encoding = dialect.python_encoding
+        if codecs.lookup(encoding).name == 'utf-8':
+            encoding = 'utf-8-sig'
+
         with contextlib.ExitStack() as stack:
             if is_url(fname):
                 handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=dialect.encoding)
+                    io.BytesIO(requests.get(str(fname)).content), encoding=encoding, newline='')
             else:
                 handle = fname
                 fpath = pathlib.Path(fname)
@@ -1465,8 +1471,10 @@ class Table(TableLike):
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
                         handle = io.TextIOWrapper(
-                            zipf.open([n for n in zipf.namelist() if n.endswith(fpath.name)][0]),
-                            encoding=dialect.encoding)
+                            zipf.open([
+                                n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),
+                            encoding=encoding,
+                            newline='')
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From 4bc029e2e7a6b4c3c7c5a544552bbd78a50fcec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:32 +0000
Subject: [PATCH 050/126] fix: match the columns of data files by any of their
 titles

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index f92749c..2b0995f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1070,7 +1070,7 @@ class Schema(Description):
         assert (not strict) or (col and col.name)
         if not col:
             for c in self.columns:
-                if c.titles and c.titles.getfirst() == name:
+                if c.has_title(name):
                     return c
                 if c.propertyUrl and c.propertyUrl.uri == name:
                     return c
-- 
2.43.0


From 2d1e792219df98817f7648af17c89cfb7dc3864c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:24 +0000
Subject: [PATCH 051/126] fix: yield rows lacking a required cell in non-strict
 mode

---
 src/csvw/metadata.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 2b0995f..114f66b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1559,10 +1559,12 @@ class Table(TableLike):
 
                 for k, j in required.items():
                     if k not in res:
+                        msg = 'required column value is missing'
+                        if not strict:
+                            warnings.warn(msg)
+                            continue
                         log_or_raise(
-                            '{0}:{1}:{2} {3}: {4}'.format(
-                                fname, lineno, j + 1, k, 'required column value is missing'),
-                            log=log)
+                            '{0}:{1}:{2} {3}: {4}'.format(fname, lineno, j + 1, k, msg), log=log)
                         error = True
 
                 # Augment result with regular columns not provided in the data:
-- 
2.43.0


From 812abb8d27ffb8f3cd50acec63372fba7559720b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:39 +0000
Subject: [PATCH 052/126] fix: count all kinds of line ends within cells

---
 src/csvw/dsv.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/dsv.py b/src/csvw/dsv.py
index 00ace76..d7009b5 100644
--- a/src/csvw/dsv.py
+++ b/src/csvw/dsv.py
@@ -12,6 +12,7 @@ The original implementations were largely copied from
 .. seealso:: http://en.wikipedia.org/wiki/Delimiter-separated_values
 """
 import io
+import re
 import csv
 import codecs
 import shutil
@@ -150,6 +151,9 @@ class UnicodeWriter:
             self.writerow(row)
 
 
+LINE_END = re.compile(r'\r\n?|\n')
+
+
 class UnicodeReader:
     """
     Read Unicode data from a csv file.
@@ -224,7 +228,7 @@ class UnicodeReader:
         row = [
             s if isinstance(s, str) else s.decode(self._reader_encoding)
             for s in next(self.reader)]
-        self.lineno += sum([list(s).count('\n') for s in row])
+        self.lineno += sum(len(LINE_END.findall(s)) for s in row)
         return row
 
     def __next__(self):
-- 
2.43.0


From 776903bee4669412ca521417f36ae0f17b73c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 053/126] fix: read table data from file-like objects

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 114f66b..3a33b8b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1465,8 +1465,8 @@ class Table(TableLike):
                     io.BytesIO(requests.get(str(fname)).content), encoding=encoding, newline='')
             else:
                 handle = fname
-                fpath = pathlib.Path(fname)
-                if not fpath.exists():
+                fpath = pathlib.Path(fname) if isinstance(fname, (str, pathlib.Path)) else None
+                if fpath and not fpath.exists():
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-- 
2.43.0


From 6e8bd6631bfff37d373490cf7c9d4fc808563fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 054/126] fix: check keys with list-valued columns

---
 src/csvw/metadata.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3a33b8b..ca0274b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -239,6 +239,17 @@ def log_or_raise(msg, log=None, level='warning', exception_cls=ValueError):
         raise exception_cls(msg)
 
 
+def hashable(v):
+    """
+    Values of keys may be lists (or, for JSON data, dicts).
+    """
+    if isinstance(v, (list, tuple)):
+        return tuple(hashable(vv) for vv in v)
+    if isinstance(v, dict):
+        return frozenset((k, hashable(vv)) for k, vv in v.items())
+    return v
+
+
 def nolog(level='warning'):
     from types import MethodType
 
@@ -1402,13 +1413,13 @@ class Table(TableLike):
             # Read all rows in the table, ignoring errors:
             for fname, lineno, row in self.iterdicts(log=nolog(), with_metadata=True):
                 pk = get_pk(row)
-                if pk in seen:
+                if hashable(pk) in seen:
                     log_or_raise(
                         '{0}:{1} duplicate primary key: {2}'.format(fname, lineno, pk),
                         log=log)
                     success = False
                 else:
-                    seen.add(pk)
+                    seen.add(hashable(pk))
         return success
 
     def __iter__(self):
@@ -1724,11 +1735,11 @@ class TableGroup(TableLike):
             get_seen = [(operator.itemgetter(*key), set()) for key, _ in t_fkeys]
             for row in table.iterdicts(log=log):
                 for get, seen in get_seen:
-                    if get(row) in seen:
+                    if hashable(get(row)) in seen:
                         # column references for a foreign key are not unique!
                         if strict:
                             success = False
-                    seen.add(get(row))
+                    seen.add(hashable(get(row)))
             for (key, children), (_, seen) in zip(t_fkeys, get_seen):
                 single_column = (len(key) == 1)
                 for child, ref in children:
@@ -1748,7 +1759,7 @@ class TableGroup(TableLike):
                             if not single_column and None in colref:  # pragma: no cover
                                 # TODO: raise if any(c is not None for c in colref)?
                                 continue
-                            elif colref not in seen:
+                            elif hashable(colref) not in seen:
                                 log_or_raise(
                                     '{0}:{1} Key `{2}` not found in table {3}'.format(
                                         fname,
-- 
2.43.0


From 6dec907319487311b576f97988afa693c630f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:19 +0000
Subject: [PATCH 055/126] fix: do not check references which do not match the
 schemas

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ca0274b..aa7f518 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1719,8 +1719,8 @@ class TableGroup(TableLike):
             self.validate_schema()
             success = True
         except ValueError as e:
-            success = False
             log_or_raise(str(e), log=log, level='error')
+            return False
         fkeys = self.foreign_keys()
         # FIXME: We only support Foreign Key references between tables!
         fkeys = sorted(fkeys, key=lambda x: (x[0].local_name, x[1], x[2].local_name))
-- 
2.43.0


From 2e526f8aebf81f7f79266e4531286f7d16ab666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:36 +0000
Subject: [PATCH 056/126] fix: report null foreign keys to the log

---
 src/csvw/metadata.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index aa7f518..85ac8df 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1708,16 +1708,20 @@ class TableGroup(TableLike):
         if data is not None:
             warnings.warn('the data argument of check_referential_integrity '
                           'is deprecated (its content will be ignored)')  # pragma: no cover
+        success = True
         if strict:
             for t in self.tables:
                 for fk in t.tableSchema.foreignKeys:
-                    for row in t:
+                    for row in t.iterdicts(log=nolog() if log else None):
                         if any(row.get(col) is None for col in fk.columnReference):
-                            raise ValueError('Foreign key column is null: {} {}'.format(
-                                [row.get(col) for col in fk.columnReference], fk.columnReference))
+                            log_or_raise(
+                                'Foreign key column is null: {} {}'.format(
+                                    [row.get(col) for col in fk.columnReference],
+                                    fk.columnReference),
+                                log=log)
+                            success = False
         try:
             self.validate_schema()
-            success = True
         except ValueError as e:
             log_or_raise(str(e), log=log, level='error')
             return False
-- 
2.43.0


From 70442afd3f0c3224a726b5107c936d063e017092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 057/126] fix: only references to duplicate keys are invalid

---
 src/csvw/metadata.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 85ac8df..0e7e0df 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1736,14 +1736,11 @@ class TableGroup(TableLike):
             table = grp[0][0]
             t_fkeys = [(key, [(child, ref) for _, _, child, ref in kgrp])
                        for key, kgrp in itertools.groupby(grp, lambda x: x[1])]
-            get_seen = [(operator.itemgetter(*key), set()) for key, _ in t_fkeys]
+            get_seen = [
+                (operator.itemgetter(*key), collections.Counter()) for key, _ in t_fkeys]
             for row in table.iterdicts(log=log):
                 for get, seen in get_seen:
-                    if hashable(get(row)) in seen:
-                        # column references for a foreign key are not unique!
-                        if strict:
-                            success = False
-                    seen.add(hashable(get(row)))
+                    seen.update([hashable(get(row))])
             for (key, children), (_, seen) in zip(t_fkeys, get_seen):
                 single_column = (len(key) == 1)
                 for child, ref in children:
@@ -1772,6 +1769,9 @@ class TableGroup(TableLike):
                                         table.url.string),
                                     log=log)
                                 success = False
+                            elif strict and seen[hashable(colref)] > 1:
+                                # column references for a foreign key are not unique!
+                                success = False
         return success
 
 
-- 
2.43.0


From ab07850d23e70458ee1d0939c96e80077282b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:51 +0000
Subject: [PATCH 058/126] fix: decimals are read back from the database as they
 were written

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 8a03c62..15e27b6 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -61,7 +61,7 @@ TYPE_MAP = {
     'decimal': (
         'REAL',
         lambda s: s if s is None else float(s),
-        lambda s: s if s is None else decimal.Decimal(s)),
+        lambda s: s if s is None else decimal.Decimal(str(s))),
     'hexBinary': (
         'BLOB',
         identity,
-- 
2.43.0


From d22af99c3462f7312c24ce9172352f622afce65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:55 +0000
Subject: [PATCH 059/126] fix: lists of values not supported by JSON can be
 written to the database

---
 src/csvw/db.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 15e27b6..ee00562 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -147,6 +147,19 @@ class ColSpec:
         if self.separator and self.db_type != 'TEXT':
             self.db_type = 'TEXT'
 
+    def item_to_json(self, v):
+        """
+        Items of lists which are not supported by JSON are serialized as strings.
+        """
+        if v is None or self.csvw_type == 'json' or type(v) in (str, bool, int, float):
+            return v
+        return DATATYPES[self.csvw_type].to_string(v)
+
+    def item_from_json(self, v):
+        if isinstance(v, str) and self.csvw_type != 'json':
+            return DATATYPES[self.csvw_type].to_python(v)
+        return v
+
     def check(self, translate: ColumnTranslator) -> typing.Optional[str]:
         """
         We try to convert as many data constraints as possible into SQLite CHECK constraints.
@@ -446,7 +459,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 # FIXME: how much do we want to use DB types? Probably as much as possible!
                 # Thus we need to convert on write **and** read!
                 #
-                convert, seps, refs = {}, {}, collections.defaultdict(dict)
+                convert, seps, items, refs = {}, {}, {}, collections.defaultdict(dict)
                 table = self.tdict[tname]  # The TableSpec object.
 
                 # Assemble the conversion dictionary:
@@ -462,6 +475,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             seps[self.translate(tname, col.name)] = col.separator
                         else:
                             seps[self.translate(tname, col.name)] = 'json'
+                            items[self.translate(tname, col.name)] = col.item_from_json
 
                 # Retrieve the many-to-many relations:
                 for col, at in table.many_to_many.items():
@@ -478,7 +492,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif not v:
                                 d[k] = []
                             elif seps[k] == 'json':
-                                d[k] = json.loads(v)
+                                d[k] = [items[k](v_) for v_ in json.loads(v)]
                             else:
                                 d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
                         else:
@@ -566,7 +580,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                                     v = (col.separator or ';').join(
                                         col.convert(vv) or '' for vv in v)
                                 else:
-                                    v = json.dumps(v)
+                                    v = json.dumps([col.item_to_json(vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
                             if i == 0:
-- 
2.43.0


From eba99435f5d33fcb446abfb83fa3524d77aea966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 060/126] fix: null items of lists of strings survive the
 database

---
 src/csvw/db.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ee00562..77be79a 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -131,6 +131,7 @@ class ColSpec:
     name = attr.ib()
     csvw_type = attr.ib(default='string', converter=lambda s: s if s else 'string')
     separator = attr.ib(default=None)
+    null = attr.ib(default=None, converter=lambda s: s if s else [''])
     db_type = attr.ib(default=None)
     convert = attr.ib(default=None)
     read = attr.ib(default=None)
@@ -270,6 +271,7 @@ class TableSpec(object):
                     name=c.header,
                     csvw_type=datatype.base if datatype else datatype,
                     separator=c.inherit('separator'),
+                    null=c.inherit_null(),
                     required=c.inherit('required'),
                     csvw=c.inherit('datatype'),
                 ))
@@ -459,7 +461,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                 # FIXME: how much do we want to use DB types? Probably as much as possible!
                 # Thus we need to convert on write **and** read!
                 #
-                convert, seps, items, refs = {}, {}, {}, collections.defaultdict(dict)
+                convert, seps, nulls, items, refs = {}, {}, {}, {}, collections.defaultdict(dict)
                 table = self.tdict[tname]  # The TableSpec object.
 
                 # Assemble the conversion dictionary:
@@ -473,6 +475,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                     if col.separator:
                         if col.csvw_type == 'string':
                             seps[self.translate(tname, col.name)] = col.separator
+                            nulls[self.translate(tname, col.name)] = col.null
                         else:
                             seps[self.translate(tname, col.name)] = 'json'
                             items[self.translate(tname, col.name)] = col.item_from_json
@@ -494,7 +497,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                             elif seps[k] == 'json':
                                 d[k] = [items[k](v_) for v_ in json.loads(v)]
                             else:
-                                d[k] = [convert[k][1](v_) for v_ in (v or '').split(seps[k])]
+                                d[k] = [
+                                    None if v_ in nulls[k] else convert[k][1](v_)
+                                    for v_ in v.split(seps[k])]
                         else:
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
@@ -578,7 +583,7 @@ FROM {2} {3} GROUP BY {0}""".format(
                                 # Note: This assumes list-valued columns are of datatype string!
                                 if col.csvw_type == 'string':
                                     v = (col.separator or ';').join(
-                                        col.convert(vv) or '' for vv in v)
+                                        col.null[0] if vv is None else col.convert(vv) for vv in v)
                                 else:
                                     v = json.dumps([col.item_to_json(vv) for vv in v])
                             else:
-- 
2.43.0


From 16358f331befbec80ab6e576e74954f372f32a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:02 +0000
Subject: [PATCH 061/126] fix: list-valued foreign keys keep the order, types
 and texts of their items

---
 src/csvw/db.py | 52 ++++++++++++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 77be79a..ee7ae42 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -228,7 +228,9 @@ class TableSpec(object):
     @classmethod
     def from_table_metadata(cls,
                             table: csvw.Table,
-                            drop_self_referential_fks: typing.Optional[bool] = True) -> 'TableSpec':
+                            drop_self_referential_fks: typing.Optional[bool] = True,
+                            tables: typing.Optional[typing.Dict[str, csvw.Table]] = None,
+                            ) -> 'TableSpec':
         """
         Create a `TableSpec` from the schema description of a `csvw.metadata.Table`.
 
@@ -236,8 +238,14 @@ class TableSpec(object):
         :param drop_self_referential_fks: Flag signaling whether to drop self-referential foreign \
         keys. This may be necessary, if the order of rows in a CSVW table does not guarantee \
         referential integrity when inserted in order (e.g. an eralier row refering to a later one).
+        :param tables: `dict` of the tables which may be referenced.
         :return: `TableSpec` instance.
         """
+        def column_type(t, name):
+            col = t.tableSchema.columndict.get(name) if t else None
+            datatype = col.inherit('datatype') if col else None
+            return datatype.base if datatype else None
+
         spec = cls(name=table.local_name, primary_key=table.tableSchema.primaryKey)
         list_valued = {c.header for c in table.tableSchema.columns if c.separator}
         for fk in table.tableSchema.foreignKeys:
@@ -257,6 +265,10 @@ class TableSpec(object):
                         spec.primary_key[0],
                         fk.reference.resource.string,
                         fk.reference.columnReference[0],
+                        atype=column_type(table, spec.primary_key[0]),
+                        btype=column_type(
+                            (tables or {}).get(fk.reference.resource.string),
+                            fk.reference.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
                     spec.foreign_keys.append((
@@ -278,7 +290,7 @@ class TableSpec(object):
         return spec
 
     @classmethod
-    def association_table(cls, atable, apk, btable, bpk) -> 'TableSpec':
+    def association_table(cls, atable, apk, btable, bpk, atype=None, btype=None) -> 'TableSpec':
         """
         List-valued foreignKeys are supported as follows: For each pair of tables related through a
         list-valued foreign key, an association table is created. To make it possible to distinguish
@@ -286,8 +298,8 @@ class TableSpec(object):
         a column `context`, which stores the name of the foreign key column from which a row in the
         assocation table was created.
         """
-        afk = ColSpec('{0}_{1}'.format(atable, apk))
-        bfk = ColSpec('{0}_{1}'.format(btable, bpk))
+        afk = ColSpec('{0}_{1}'.format(atable, apk), csvw_type=atype)
+        bfk = ColSpec('{0}_{1}'.format(btable, bpk), csvw_type=btype)
         if afk.name == bfk.name:
             afk.name += '_1'
             bfk.name += '_2'
@@ -334,7 +346,7 @@ def schema(tg: csvw.TableGroup,
     tables = {}
     for tname, table in tg.tabledict.items():
         t = TableSpec.from_table_metadata(
-            table, drop_self_referential_fks=drop_self_referential_fks)
+            table, drop_self_referential_fks=drop_self_referential_fks, tables=tg.tabledict)
         tables[t.name] = t
         for at in t.many_to_many.values():
             tables[at.name] = at
@@ -419,21 +431,17 @@ class Database(object):
         return self._connection
 
     def select_many_to_many(self, db, table, context) -> dict:
-        if context is not None:
-            context_sql = "WHERE context = '{0}'".format(context)
-        else:
-            context_sql = ''
-        sql = """\
-SELECT {0}, group_concat({1}, ' '), group_concat(COALESCE(context, ''), '||')
-FROM {2} {3} GROUP BY {0}""".format(
-                quoted(self.translate(table.name, table.columns[0].name)),
-                quoted(self.translate(table.name, table.columns[1].name)),
-                quoted(self.translate(table.name)),
-                context_sql)
-        cu = db.execute(sql)
-        return {
-            r[0]: [(k, v) if context is None else k
-                   for k, v in zip(r[1].split(), r[2].split('||'))] for r in cu.fetchall()}
+        res = collections.defaultdict(list)
+        names = [quoted(self.translate(table.name, col.name)) for col in table.columns]
+        sql = "SELECT {0} FROM {1} {2} ORDER BY rowid".format(
+            ','.join(names),
+            quoted(self.translate(table.name)),
+            '' if context is None else 'WHERE {0} = ?'.format(names[2]))
+        for row in db.execute(sql, () if context is None else (context,)):
+            pk, fk = [
+                v if v is None else col.read(v) for v, col in zip(row[:2], table.columns[:2])]
+            res[pk].append((fk, row[2] or '') if context is None else fk)
+        return res
 
     def separator(self, tname: str, cname: str) -> typing.Optional[str]:
         """
@@ -570,7 +578,9 @@ FROM {2} {3} GROUP BY {0}""".format(
                             # values of list-valued columns.
                             for vv in (v or []):
                                 fkey, context = self.association_table_context(t, k, vv)
-                                refs[atkey].append((pk, fkey, context))
+                                refs[atkey].append(tuple(
+                                    None if val is None else c.convert(val)
+                                    for val, c in zip((pk, fkey, context), at.columns)))
                         else:
                             if k not in cols:
                                 if _skip_extra:
-- 
2.43.0


From b0b3bc675c44d3543773f815455b484537f27c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 062/126] fix: translated names of list-valued foreign keys are
 used consistently

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index ee7ae42..2dd54e1 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -512,7 +512,7 @@ class Database(object):
                             d[k] = convert[k][1](v) if v is not None else None
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
-                    d.update({k: [] for k in table.many_to_many})
+                    d.update({self.translate(tname, k): [] for k in table.many_to_many})
                     d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
-- 
2.43.0


From 0ad92cc1c4464c1a45d995c7b641a33843b3a2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:09 +0000
Subject: [PATCH 063/126] fix: falsy primary keys can have list-valued foreign
 keys

---
 src/csvw/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 2dd54e1..3e60a2f 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -571,7 +571,7 @@ class Database(object):
                     values = []
                     for k, v in row.items():
                         if k in t.many_to_many:
-                            assert pk
+                            assert pk is not None
                             at = t.many_to_many[k]
                             atkey = tuple([at.name] + [c.name for c in at.columns])
                             # We distinguish None - meaning NULL - and [] - meaning no items - as
-- 
2.43.0


From c9ba2181bfeb798d2e4dc18bb04a648e9db586db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 064/126] fix: composite foreign keys reference the columns
 they were paired with

---
 src/csvw/db.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 3e60a2f..1685a09 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -271,10 +271,12 @@ class TableSpec(object):
                             fk.reference.columnReference[0]),
                     )
                 elif not (drop_self_referential_fks and fk.reference.resource.string == spec.name):
+                    # The order of the columns doesn't matter, but who references whom does.
+                    pairs = sorted(zip(fk.columnReference, fk.reference.columnReference))
                     spec.foreign_keys.append((
-                        sorted(fk.columnReference),
+                        [col for col, _ in pairs],
                         fk.reference.resource.string,
-                        sorted(fk.reference.columnReference),
+                        [ref for _, ref in pairs],
                     ))
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
-- 
2.43.0


From 608d2705d3051e8c4a7686bcfce09a710e710d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:16 +0000
Subject: [PATCH 065/126] fix: rows written to the database may differ in their
 keys and their order

---
 src/csvw/db.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 1685a09..850f969 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -565,12 +565,12 @@ class Database(object):
             for t in self.tables:
                 if t.name not in items:
                     continue
-                rows, keys = [], []
+                rows, keys = [], collections.OrderedDict()
                 cols = {c.name: c for c in t.columns}
-                for i, row in enumerate(items[t.name]):
-                    pk = row[t.primary_key[0]] \
+                for row in items[t.name]:
+                    pk = row.get(t.primary_key[0]) \
                         if t.primary_key and len(t.primary_key) == 1 else None
-                    values = []
+                    values = {}
                     for k, v in row.items():
                         if k in t.many_to_many:
                             assert pk is not None
@@ -600,11 +600,13 @@ class Database(object):
                                     v = json.dumps([col.item_to_json(vv) for vv in v])
                             else:
                                 v = col.convert(v) if v is not None else None
-                            if i == 0:
-                                keys.append(col.name)
-                            values.append(v)
-                    rows.append(tuple(values))
-                insert(db, self.translate, t.name, keys, *rows)
+                            keys[col.name] = True
+                            values[col.name] = v
+                    rows.append(values)
+                # Rows may have different keys, or the same keys in different order.
+                insert(
+                    db, self.translate, t.name, list(keys),
+                    *[tuple(values.get(key) for key in keys) for values in rows])
 
             for atkey, rows in refs.items():
                 insert(db, self.translate, atkey[0], atkey[1:], *rows)
-- 
2.43.0


From 10e1562155cf4869468898878916179c5f52c09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:20 +0000
Subject: [PATCH 066/126] fix: CHECK constraints compare values of the datatype

---
 src/csvw/db.py | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 850f969..fafc1fc 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -168,31 +168,37 @@ class ColSpec:
         :param translate: Callable to translate column names between CSVW metadata and DB schema.
         :return: A string suitable as argument of an SQL CHECK constraint.
         """
-        if not self.csvw:
+        if not self.csvw or self.separator:
+            # Constraints apply to the items of lists.
             return
         c, cname = self.csvw, translate(self.name)
+        basetype = DATATYPES[self.csvw_type]
         constraints = []
         if (c.minimum is not None) or (c.maximum is not None):
-            func = {
-                'date': 'date',
-                'datetime': 'datetime',
-            }.get(self.csvw_type)
+            if issubclass(basetype, DATATYPES['datetime']):
+                col, value = ["strftime('%Y-%m-%d %H:%M:%f', {0})".format(s)
+                              for s in ("`{0}`", "'{0}'")]
+            elif issubclass(basetype, (DATATYPES['decimal'], DATATYPES['float'])):
+                # Make sure numbers stored as text are compared as numbers.
+                col = 'CAST(`{0}` AS NUMERIC)' if self.db_type == 'TEXT' else '`{0}`'
+                value = '{0}'
+            else:  # durations cannot be compared by the database
+                return
             if c.minimum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) >= {2}('{1}')".format(cname, c.minimum, func))
-                else:
-                    constraints.append('`{0}` >= {1}'.format(cname, c.minimum))
+                constraints.append(
+                    '{0} >= {1}'.format(col.format(cname), value.format(c.minimum)))
             if c.maximum is not None:
-                if func:
-                    constraints.append("{2}(`{0}`) <= {2}('{1}')".format(cname, c.maximum, func))
-                else:
-                    constraints.append('`{0}` <= {1}'.format(cname, c.maximum))
+                constraints.append(
+                    '{0} <= {1}'.format(col.format(cname), value.format(c.maximum)))
         elif any(cc is not None for cc in [c.length, c.minLength, c.maxLength]):
-            if c.length:
+            if issubclass(basetype, DATATYPES['base64Binary']):
+                # Lengths are numbers of bytes, but the encoded text is stored.
+                return
+            if c.length is not None:
                 constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
-            if c.minLength:
+            if c.minLength is not None:
                 constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
-            if c.maxLength:
+            if c.maxLength is not None:
                 constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
         return ' AND '.join(constraints)
 
-- 
2.43.0


From 5acc28a0f88fd1d929fe894b3486c231e701fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 067/126] fix: schemas of more than 100 tables are not taken to
 be cyclic

---
 src/csvw/db.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index fafc1fc..fb4083d 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -361,19 +361,17 @@ def schema(tg: csvw.TableGroup,
 
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
-    i = 0
 
     # We loop through the tables repeatedly, and whenever we find one, which has all
     # referenced tables already in ordered, we move it from tables to ordered.
-    while tables and i < 100:
-        i += 1
+    while tables:
         for table in list(tables.keys()):
             if all((ref[1] in ordered) or ref[1] == table for ref in tables[table].foreign_keys):
                 # All referenced tables are already created (or self-referential).
                 ordered[table] = tables.pop(table)
                 break
-    if tables:  # pragma: no cover
-        raise ValueError('there seem to be cyclic dependencies between the tables')
+        else:
+            raise ValueError('there seem to be cyclic dependencies between the tables')
 
     return list(ordered.values())
 
-- 
2.43.0


From 0cf569326315f174c2e3257936d49f9f942ae001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:27 +0000
Subject: [PATCH 068/126] fix: times can be written to and read from the
 database

---
 src/csvw/datatypes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 186ecf3..35a27db 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -444,13 +444,16 @@ class _time(dateTime):
 
     @staticmethod
     def to_python(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        assert regex is not None
+        if regex is None:
+            return dateTime.to_python(v)
         if tz_marker:
             return dateTime._parse(v, datetime.datetime, regex, tz_marker=tz_marker)
         return with_tz(v, dateTime._parse, [datetime.datetime, regex], dict(tz_marker=tz_marker))
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
+        if not pattern:
+            return dateTime.to_string(v)
         return format_with_tz(v, babel.dates.format_time, pattern, tz_marker)
 
 
-- 
2.43.0


From 36237c179f38943b8c6e2e38e2b74338f1af6ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:00 +0000
Subject: [PATCH 069/126] fix: foreign keys can reference columns other than
 the primary key

---
 src/csvw/db.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index fb4083d..59f1fb5 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -230,6 +230,7 @@ class TableSpec(object):
     foreign_keys = attr.ib(default=attr.Factory(list))
     many_to_many = attr.ib(default=attr.Factory(collections.OrderedDict))
     primary_key = attr.ib(default=None)
+    unique = attr.ib(default=attr.Factory(list))
 
     @classmethod
     def from_table_metadata(cls,
@@ -330,6 +331,8 @@ class TableSpec(object):
         if self.primary_key:
             clauses.append('PRIMARY KEY({0})'.format(quoted(
                 *[col_translate(c) for c in self.primary_key])))
+        for cols in self.unique:
+            clauses.append('UNIQUE({0})'.format(quoted(*[col_translate(c) for c in cols])))
         for fk, ref, refcols in self.foreign_keys:
             clauses.append('FOREIGN KEY({0}) REFERENCES {1}({2}) ON DELETE CASCADE'.format(
                 quoted(*[col_translate(c) for c in fk]),
@@ -359,6 +362,13 @@ def schema(tg: csvw.TableGroup,
         for at in t.many_to_many.values():
             tables[at.name] = at
 
+    # Columns referenced by foreign keys must be unique in SQLite.
+    for t in tables.values():
+        for _, ref, refcols in t.foreign_keys:
+            if ref in tables and set(refcols) != set(tables[ref].primary_key or []) \
+                    and refcols not in tables[ref].unique:
+                tables[ref].unique.append(refcols)
+
     # We must determine the order in which tables must be created!
     ordered = collections.OrderedDict()
 
-- 
2.43.0


From 32be45d91b15412e64b312a51a5558fec6241f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 070/126] fix: items of lists are formatted when converting to
 JSON

---
 src/csvw/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 5f14bc0..e807f95 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -21,6 +21,8 @@ def format_value(value, col):
     """
     Format values as JSON-LD literals.
     """
+    if isinstance(value, list):
+        return [format_value(v, col) for v in value]
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
         if col and col.datatype.base == 'time':
-- 
2.43.0


From 358ca62e91d84e16f0cdc5003080a4380c5c4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 071/126] fix: minimal JSON has all subjects of a row

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 0e7e0df..8e18bd3 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1931,7 +1931,7 @@ class CSVW:
             self._table_to_json(table) for table in self.tables if not table.suppressOutput]
         if minimal:
             return list(
-                itertools.chain(*[[r['describes'][0] for r in t['row']] for t in res['tables']]))
+                itertools.chain(*[r['describes'] for t in res['tables'] for r in t['row']]))
 
         return res
 
-- 
2.43.0


From 626466bc784d5f97f49e783c1af97a2b7830751b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:35 +0000
Subject: [PATCH 072/126] fix: properties of a row without subject are kept if
 there are several subjects

---
 src/csvw/jsonld.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index e807f95..9b542d8 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -187,5 +187,7 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     if grouped and ('@id' not in grouped) and len(res) == 1:
         grouped.update(res[0])
         return [grouped]
+    if grouped and ('@id' not in grouped):
+        return [grouped] + res
 
     return res
-- 
2.43.0


From 7419f9222daa3884b5cb9725003f9f483cc356bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:38 +0000
Subject: [PATCH 073/126] fix: subjects and properties resolved to local paths
 can be converted to JSON

---
 src/csvw/jsonld.py   | 4 ++--
 src/csvw/metadata.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 9b542d8..c52717b 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -76,7 +76,7 @@ class Triple:
 
         propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
         if propertyUrl:
-            prop = table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True)
+            prop = str(table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True))
 
         is_type = prop == 'rdf:type'
         valueUrl = col.valueUrl if col else table.inherit('valueUrl')
@@ -86,7 +86,7 @@ class Triple:
         s = None
         aboutUrl = col.aboutUrl if col else None
         if aboutUrl:
-            s = table.expand(aboutUrl, row, _row=rownum, _name=_name) or s
+            s = str(table.expand(aboutUrl, row, _row=rownum, _name=_name)) or s
         return cls(about=s, property=prop, value=val)
 
 
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 8e18bd3..89b7e31 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1983,7 +1983,7 @@ class CSVW:
         aboutUrl = table.tableSchema.inherit('aboutUrl')
         if aboutUrl:
             triples.append(jsonld.Triple(
-                about=None, property='@id', value=table.expand(aboutUrl, row, _row=rownum)))
+                about=None, property='@id', value=str(table.expand(aboutUrl, row, _row=rownum))))
 
         for i, (k, v) in enumerate(row.items(), start=1):
             col = cols.get(k)
-- 
2.43.0


From 109e0d04358f52be122cdc88b2504cac3405b67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 074/126] fix: subjects referencing each other or themselves
 are not dropped from JSON

---
 src/csvw/jsonld.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index c52717b..a4350b4 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -107,9 +107,17 @@ def frame(data: list) -> list:
                     refid = v.get('@id')
                     if refid:
                         refs.setdefault(refid, (v, []))[1].append(item)
-    for ref, subjects in refs.values():
-        if len(subjects) == 1 and ref['@id'] in items:
-            ref.update(items.pop(ref['@id']))
+    parents = {}
+    for refid, (ref, subjects) in refs.items():
+        if len(subjects) == 1 and refid in items:
+            # Objects must not be inlined into (descendants of) themselves.
+            root = subjects[0].get('@id')
+            while root in parents and root != refid:
+                root = parents[root]
+            if root == refid:
+                continue
+            parents[refid] = subjects[0].get('@id')
+            ref.update(items.pop(refid))
     return list(items.values())
 
 
-- 
2.43.0


From aecec7a5c97de71450520986b0aeb9a7ce225b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 075/126] fix: values of rows describing several subjects are
 kept as they are and in order

---
 src/csvw/jsonld.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index a4350b4..28b36b3 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -1,5 +1,4 @@
 import re
-import json
 import math
 import typing
 import decimal
@@ -8,7 +7,7 @@ import datetime
 import collections
 
 import attr
-from rdflib import Graph, URIRef, Literal
+from rdflib import URIRef, Literal
 from rfc3986 import URIReference
 from isodate.duration import Duration
 
@@ -177,16 +176,28 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     if not triples:
         return [grouped]
 
-    g = Graph()
+    # Second pass: create an object for each subject, with references to the other ones.
+    subjects = collections.OrderedDict()
+
+    def add(about, prop, value):
+        obj = subjects.setdefault(about, collections.OrderedDict([('@id', about)]))
+        for val in value if isinstance(value, list) else [value]:
+            val = {'@id': val} if is_url(val) else val
+            if prop not in obj:
+                obj[prop] = [val] if isinstance(value, list) else val
+            else:
+                if not isinstance(obj[prop], list):
+                    obj[prop] = [obj[prop]]
+                obj[prop].append(val)
+
     for triple in triples:
-        g.add(triple.as_rdflib_triple())
+        add(triple.about, triple.property, triple.value)
     if '@id' in grouped:
         for prop, val in grouped.items():
             if prop != '@id':
-                g.add(Triple(about=grouped['@id'], property=prop, value=val).as_rdflib_triple())
-    res = g.serialize(format='json-ld')
+                add(grouped['@id'], prop, val)
     # Frame and simplify the resulting objects, augment with list index:
-    res = [(i, to_json(v, flatten_list=True)) for i, v in enumerate(frame(json.loads(res)))]
+    res = [(i, to_json(v)) for i, v in enumerate(frame(list(subjects.values())))]
     # Sort the objects making sure the one with the row's aboutUrl as @id comes first:
     res = [k[1] for k in sorted(
         res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
-- 
2.43.0


From efab655e9fc5c817ae661f54eb338d2066882c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:50 +0000
Subject: [PATCH 076/126] fix: row titles are formatted and may be falsy

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 89b7e31..fd80e49 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1968,7 +1968,8 @@ class CSVW:
         res['rownum'] = rownum
         if table.tableSchema.rowTitles:
             res['titles'] = [
-                t for t in [row.get(name) for name in table.tableSchema.rowTitles] if t]
+                jsonld.format_value(row[name], cols.get(name))
+                for name in table.tableSchema.rowTitles if row.get(name) not in (None, '')]
             if len(res['titles']) == 1:
                 res['titles'] = res['titles'][0]
         # Insert any notes and non-core annotations specified for the group of tables into object
-- 
2.43.0


From e5b88555733393186773658198e686054d8d8e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:54 +0000
Subject: [PATCH 077/126] fix: virtual columns can be suppressed

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fd80e49..1fd9f7f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2007,6 +2007,6 @@ class CSVW:
                 rownum))
 
         for col in table.tableSchema.columns:
-            if col.virtual:
+            if col.virtual and not col.suppressOutput:
                 triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From 7bad9c4688e3d83446182bf9672f6d0664dc65a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:57 +0000
Subject: [PATCH 078/126] fix: virtual columns have their default value or none

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1fd9f7f..9f9fe66 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2008,5 +2008,9 @@ class CSVW:
 
         for col in table.tableSchema.columns:
             if col.virtual and not col.suppressOutput:
-                triples.append(jsonld.Triple.from_col(table, col, row, col.header, None, rownum))
+                # Cells of virtual columns have no content, thus the only value is the default.
+                val = None if col.valueUrl else col.read('', strict=False)
+                if col.valueUrl or val not in (None, []):
+                    triples.append(
+                        jsonld.Triple.from_col(table, col, row, col.header, val, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From 92bfd43ab6f41647cc57ce6484208717a6570499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:01 +0000
Subject: [PATCH 079/126] fix: inherited datatypes are used for formatting
 values as JSON

---
 src/csvw/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 28b36b3..b7e980e 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -22,11 +22,12 @@ def format_value(value, col):
     """
     if isinstance(value, list):
         return [format_value(v, col) for v in value]
+    datatype = col.inherit('datatype') if col else None
     if isinstance(value, (datetime.date, datetime.datetime, datetime.time)):
         res = value.isoformat()
-        if col and col.datatype.base == 'time':
+        if datatype and datatype.base == 'time':
             res = res.split('T')[-1]
-        if col and col.datatype.base == 'date':
+        if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
             stamp, _, milliseconds = res.partition('.')
@@ -34,15 +35,15 @@ def format_value(value, col):
                 else stamp.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, Duration):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, decimal.Decimal):
         value = float(value)
     if isinstance(value, URIReference):
         return value.unsplit()
     if isinstance(value, bytes):
-        return col.datatype.formatted(value)
+        return datatype.formatted(value)
     if isinstance(value, pathlib.Path):
         return str(value)
     if isinstance(value, float):
-- 
2.43.0


From 130d48b13235da232e531442f6594cf10b57bdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 080/126] fix: fractions of seconds do not truncate time zones
 in JSON

---
 src/csvw/jsonld.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index b7e980e..38a4f8f 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -30,9 +30,9 @@ def format_value(value, col):
         if datatype and datatype.base == 'date':
             res = re.sub('T[0-9.:]+', '', res)
         if isinstance(value, (datetime.datetime, datetime.time)):
-            stamp, _, milliseconds = res.partition('.')
-            return '{}.{}'.format(stamp, milliseconds.rstrip('0')) if milliseconds \
-                else stamp.replace('+00:00', 'Z')
+            # Strip trailing zeros of fractions of seconds.
+            res = re.sub(r'(\.[0-9]*?)0+(?=[^0-9]|$)', r'\1', res)
+            return res.replace('+00:00', 'Z')
         return res  # pragma: no cover
     if isinstance(value, datetime.timedelta):
         return datatype.formatted(value)
-- 
2.43.0


From ca1954945b4099786720c8789d644b64194e2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 081/126] fix: empty strings which are not null are part of the
 JSON

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9f9fe66..5fa35e7 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1993,7 +1993,7 @@ class CSVW:
 
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
-            if (null and v in null) or v == "" or (v is None) or \
+            if (null and v in null) or (v is None) or \
                     (col and col.separator and v == []):
                 continue
 
-- 
2.43.0


From 4b99ba421484c012cd229a0a13a497fe15e219fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 082/126] fix: converting to JSON does not change the
 descriptions of columns

---
 src/csvw/jsonld.py   | 4 ++--
 src/csvw/metadata.py | 8 +++-----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 38a4f8f..9767180 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -74,12 +74,12 @@ class Triple:
         """
         _name = col.header if col else None
 
-        propertyUrl = col.propertyUrl if col else table.inherit('propertyUrl')
+        propertyUrl = (col or table).inherit('propertyUrl')
         if propertyUrl:
             prop = str(table.expand(propertyUrl, row, _row=rownum, _name=_name, qname=True))
 
         is_type = prop == 'rdf:type'
-        valueUrl = col.valueUrl if col else table.inherit('valueUrl')
+        valueUrl = (col or table).inherit('valueUrl')
         if valueUrl:
             val = table.expand(valueUrl, row, _row=rownum, _name=_name, qname=is_type)
         val = format_value(val, col)
diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 5fa35e7..4ced49f 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1948,9 +1948,6 @@ class CSVW:
         res.update(jsonld.to_json(table.common_props))
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
-        for col in cols.values():
-            col.propertyUrl = col.inherit('propertyUrl')
-            col.valueUrl = col.inherit('valueUrl')
 
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
@@ -2009,8 +2006,9 @@ class CSVW:
         for col in table.tableSchema.columns:
             if col.virtual and not col.suppressOutput:
                 # Cells of virtual columns have no content, thus the only value is the default.
-                val = None if col.valueUrl else col.read('', strict=False)
-                if col.valueUrl or val not in (None, []):
+                valueUrl = col.inherit('valueUrl')
+                val = None if valueUrl else col.read('', strict=False)
+                if valueUrl or val not in (None, []):
                     triples.append(
                         jsonld.Triple.from_col(table, col, row, col.header, val, rownum))
         return jsonld.group_triples(triples)
-- 
2.43.0


From 79a4c64506e25912ed344b0828c141d43d5b4cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:03 +0000
Subject: [PATCH 083/126] fix: fragments are resolved relative to local files

---
 src/csvw/metadata.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4ced49f..81b49ce 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -328,6 +328,9 @@ class Link:
         if hasattr(base, 'joinpath'):
             if is_url(self.string):
                 return self.string
+            if str(self.string).startswith('#') and not base.is_dir():
+                # A fragment of the base.
+                return base.parent / (base.name + self.string)
             return (base if base.is_dir() else base.parent) / self.string
         return urljoin(base, self.string)
 
-- 
2.43.0


From 3b2f083d1751e3a92b7b29e64d1de29594307d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:07 +0000
Subject: [PATCH 084/126] fix: templates with a prefix are expanded completely

---
 src/csvw/metadata.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 81b49ce..33f9bd1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1280,24 +1280,23 @@ class TableLike(Description):
         if tmpl is INVALID:
             return self.url.resolve(self.base)
 
+        expanded = tmpl.expand(
+            _row=_row,
+            _name=_name,
+            **{_k: _v for _k, _v in row.items() if isinstance(_k, str)})
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
                 # from turning it into a local path.
-                res = '{}{}'.format(url, tmpl.uri.split(':')[1])
+                res = '{}{}'.format(url, expanded[len(prefix) + 1:])
                 break
         else:
-            res = Link(
-                tmpl.expand(
-                    _row=_row,
-                    _name=_name,
-                    **{_k: _v for _k, _v in row.items() if isinstance(_k, str)}
-                )).resolve(self.url.resolve(self.base) if self.url else self.base)
+            res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
         if not isinstance(res, pathlib.Path):
             if qname:
                 for prefix, url in NAMESPACES.items():
                     if res.startswith(url):
-                        res = res.replace(url, prefix + ':')
+                        res = res.replace(url, prefix + ':', 1)
                         break
         return res
 
-- 
2.43.0


From 4b2ff6779d7ab7f47a580821e553d62956dfa97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 085/126] fix: CSV files which look like JSON strings or are
 not UTF-8 encoded are no metadata

---
 src/csvw/metadata.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 33f9bd1..16d46bc 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1788,12 +1788,14 @@ class CSVW:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
 
-            no_header = False
+            no_header, md = False, None
             try:
                 md = get_json(md_url or url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
                 # metadata as per https://w3c.github.io/csvw/syntax/#overriding-metadata
-            except json.decoder.JSONDecodeError:
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError):
+                pass
+            if not isinstance(md, dict):  # The content of a CSV file may look like a JSON string.
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-- 
2.43.0


From 70609b5dccd79b3b25ebc27d090d01372c0baa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:50 +0000
Subject: [PATCH 086/126] fix: columns of local files without metadata are
 named by their header when converted to JSON

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 16d46bc..1dd011b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1799,7 +1799,8 @@ class CSVW:
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
 
-            self.no_metadata = set(md.keys()) == {'@context', 'url'}
+            # '@base' is added when locating the metadata of local files.
+            self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
-- 
2.43.0


From c33eea8a8dda1e4367af8a7c776584bed4196d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:28 +0000
Subject: [PATCH 087/126] fix: no values lost when merging cells without
 subject into the only object

---
 src/csvw/jsonld.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index 9767180..ec16527 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -204,7 +204,7 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
         res, key=lambda o: -1 if o[1].get('@id') == grouped.get('@id') else o[0])]
     # If there's no aboutUrl for the row and we have only one object from triples, we just merge
     # the properties into a single object.
-    if grouped and ('@id' not in grouped) and len(res) == 1:
+    if grouped and ('@id' not in grouped) and len(res) == 1 and not set(grouped) & set(res[0]):
         grouped.update(res[0])
         return [grouped]
     if grouped and ('@id' not in grouped):
-- 
2.43.0


From 00fddf716136e2658513e8c53d6bf107db506487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:32 +0000
Subject: [PATCH 088/126] fix: lists of different subjects are not merged

---
 src/csvw/jsonld.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/jsonld.py b/src/csvw/jsonld.py
index ec16527..0c593cf 100644
--- a/src/csvw/jsonld.py
+++ b/src/csvw/jsonld.py
@@ -149,7 +149,8 @@ def group_triples(triples: typing.Iterable[Triple]) -> typing.List[dict]:
     for triple in triples:
         if isinstance(triple.value, list):
             for t in merged:
-                if t.property == triple.property and isinstance(t.value, list):
+                if t.about == triple.about and t.property == triple.property \
+                        and isinstance(t.value, list):
                     t.value.extend(triple.value)
                     break
             else:
-- 
2.43.0


From 8a51d78f7631f029a7de713844fab2bac3e3b2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:45 +0000
Subject: [PATCH 089/126] fix: values of cells are represented by texts when
 expanding URI templates

---
 src/csvw/metadata.py | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1dd011b..95c5b32 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -274,6 +274,27 @@ class URITemplate(uritemplate.URITemplate):
         return '{}'.format(self)
 
 
+def template_variables(row: dict, cols: typing.Optional[dict] = None) -> dict:
+    """
+    The context for the expansion of a `URITemplate`: Values of cells are represented by (lists of)
+    texts.
+    """
+    def text(v, col):
+        if isinstance(v, list):
+            return [text(vv, col) for vv in v if vv is not None]
+        if v is None or isinstance(v, str):
+            return v
+        if isinstance(v, bool):
+            return 'true' if v else 'false'
+        if isinstance(v, (int, decimal.Decimal)):
+            return str(v)
+        if col and col.inherit('datatype'):
+            return str(jsonld.format_value(v, col))
+        return str(v)
+
+    return {k: text(v, (cols or {}).get(k)) for k, v in row.items() if isinstance(k, str)}
+
+
 def uri_template_property():
     """
 
@@ -1281,9 +1302,10 @@ class TableLike(Description):
             return self.url.resolve(self.base)
 
         expanded = tmpl.expand(
-            _row=_row,
-            _name=_name,
-            **{_k: _v for _k, _v in row.items() if isinstance(_k, str)})
+            template_variables(
+                row, self.tableSchema.columndict if hasattr(self, 'tableSchema') else None),
+            _row=None if _row is None else str(_row),
+            _name=_name)
         for prefix, url in NAMESPACES.items():
             if tmpl.uri.startswith(prefix + ':'):
                 # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
@@ -1458,6 +1480,7 @@ class Table(TableLike):
         dialect = self._get_dialect()
         fname = fname or self.url.resolve(self.base)
         colnames, virtualcols, requiredcols = [], [], set()
+        columndict = self.tableSchema.columndict
         for col in self.tableSchema.columns:
             if col.virtual:
                 if col.valueUrl:
@@ -1586,7 +1609,7 @@ class Table(TableLike):
 
                 # Augment result with virtual columns:
                 for key, valueUrl in virtualcols:
-                    res[key] = valueUrl.expand(**res)
+                    res[key] = valueUrl.expand(template_variables(res, columndict))
 
                 if not error:
                     if with_metadata:
-- 
2.43.0


From 1ba68df2bfeb57416f6e2acb0e22f5d42c929d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:56 +0000
Subject: [PATCH 090/126] fix: empty lists are omitted in JSON also if the
 separator is inherited

---
 src/csvw/metadata.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 95c5b32..c069821 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2018,8 +2018,7 @@ class CSVW:
 
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
-            if (null and v in null) or (v is None) or \
-                    (col and col.separator and v == []):
+            if (null and v in null) or (v is None) or v == []:
                 continue
 
             triples.append(jsonld.Triple.from_col(
-- 
2.43.0


From 90d311370794c8900030a37f04fa9af50e5dbe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:08 +0000
Subject: [PATCH 091/126] fix: validation of invalid data gives a verdict
 instead of raising an error

---
 src/csvw/metadata.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c069821..6b444d2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -257,7 +257,8 @@ def nolog(level='warning'):
         pass
 
     log = Log()
-    setattr(log, level, MethodType(lambda *args, **kw: None, log))
+    for lvl in {level, 'error'}:  # Problems with schemas are logged as errors.
+        setattr(log, lvl, MethodType(lambda *args, **kw: None, log))
     return log
 
 
@@ -1866,13 +1867,16 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
-            for table in self.tables:
-                for _ in table.iterdicts(strict=False):
-                    pass
-                if not table.check_primary_key():  # pragma: no cover
-                    warnings.warn('Duplicate primary key')
-            if not self.tablegroup.check_referential_integrity(strict=True):
-                warnings.warn('Referential integrity check failed')
+            try:
+                for table in self.tables:
+                    for _ in table.iterdicts(strict=False):
+                        pass
+                    if not table.check_primary_key(log=nolog()):
+                        warnings.warn('Duplicate primary key')
+                if not self.tablegroup.check_referential_integrity(log=nolog(), strict=True):
+                    warnings.warn('Referential integrity check failed')
+            except ValueError as e:  # e.g. required columns are missing in the data.
+                warnings.warn(str(e))
             if w:
                 self.warnings.extend(w)
         return not bool(self.warnings)
-- 
2.43.0


From 44f356e3a334097734487e1dc05e29eb9364a412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:12 +0000
Subject: [PATCH 092/126] fix: header is validated against the titles of
 columns with a name

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 6b444d2..9e703a1 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1526,7 +1526,7 @@ class Table(TableLike):
                             warnings.warn('Column number mismatch')
                         for name, col in zip(header, self.tableSchema.columns):
                             res = col.has_title(name)
-                            if (not col.name) and not res:
+                            if (col.titles or not col.name) and not res:
                                 warnings.warn('Incompatible table models')
                             if isinstance(res, str) and res.split('-')[0] not in [
                                     'und', (self.lang or 'und').split('-')[0]]:
-- 
2.43.0


From e9793f589ca074e6ef3023126e52391f2a6c9fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 093/126] fix: validation does not depend on the warning
 filters in effect

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 9e703a1..e952452 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1811,6 +1811,7 @@ class CSVW:
         with contextlib.ExitStack() as stack:
             if validate:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
+                warnings.simplefilter('always', UserWarning)  # Whatever filters are in effect.
 
             no_header, md = False, None
             try:
@@ -1867,6 +1868,7 @@ class CSVW:
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
+            warnings.simplefilter('always', UserWarning)  # Whatever filters are in effect.
             try:
                 for table in self.tables:
                     for _ in table.iterdicts(strict=False):
-- 
2.43.0


From 51d974c7d01884012d0b964f37318ca6350fd961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:21 +0000
Subject: [PATCH 094/126] fix: virtual columns do not count when validating the
 number of columns

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e952452..4ba467a 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1522,7 +1522,7 @@ class Table(TableLike):
                 try:
                     _, header = next(reader)
                     if not strict:
-                        if self.tableSchema.columns and len(self.tableSchema.columns) < len(header):
+                        if self.tableSchema.columns and len(colnames) < len(header):
                             warnings.warn('Column number mismatch')
                         for name, col in zip(header, self.tableSchema.columns):
                             res = col.has_title(name)
-- 
2.43.0


From 5403509df878f90b4db91d01caf1196cb960c14c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 095/126] fix: built-in datatypes token, language, Name and
 anyAtomicType are supported

---
 docs/datatypes.rst    |  9 +++++++++
 src/csvw/datatypes.py | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 43 insertions(+)

diff --git a/docs/datatypes.rst b/docs/datatypes.rst
index c2a2592..0fd9719 100644
--- a/docs/datatypes.rst
+++ b/docs/datatypes.rst
@@ -96,6 +96,15 @@
 .. autoclass:: csvw.datatypes.normalizedString
     :members:
 
+.. autoclass:: csvw.datatypes.token
+    :members:
+
+.. autoclass:: csvw.datatypes.language
+    :members:
+
+.. autoclass:: csvw.datatypes.Name
+    :members:
+
 .. autoclass:: csvw.datatypes.QName
     :members:
 
diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 35a27db..5242e1f 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -82,6 +82,9 @@ class anyAtomicType:
         return '{}'.format(v)
 
 
+DATATYPES['anyAtomicType'] = anyAtomicType
+
+
 @register
 class string(anyAtomicType):
     """
@@ -932,6 +935,37 @@ class normalizedString(string):
         return string.to_python(v, regex=regex)
 
 
+@register
+class token(normalizedString):
+    """
+    Maps to `str`.
+
+        The lexical and value spaces of xs:token are the sets of all strings after whitespace
+        replacement and collapsing.
+    """
+    name = 'token'
+
+    @staticmethod
+    def to_python(v, regex=None):
+        return string.to_python(' '.join(re.split(r'[ \r\n\t]+', v.strip(' \r\n\t'))), regex=regex)
+
+
+@register
+class language(token):
+    """
+    Maps to `str`.
+    """
+    name = 'language'
+
+
+@register
+class Name(token):
+    """
+    Maps to `str`.
+    """
+    name = 'Name'
+
+
 @register
 class QName(string):
     """
-- 
2.43.0


From 7c41f118d53eb1af8321b25b6953a90a3bd72bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 096/126] fix: empty lists are recognized by type when
 converting to JSON

---
 src/csvw/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 4ba467a..c62e8c2 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2024,7 +2024,7 @@ class CSVW:
 
             # Skip null values:
             null = col.inherit_null() if col else table.inherit_null()
-            if (null and v in null) or (v is None) or v == []:
+            if v is None or (not v if isinstance(v, list) else (null and v in null)):
                 continue
 
             triples.append(jsonld.Triple.from_col(
-- 
2.43.0


From a919d0b0a50c9719570626e9b43229ddd1ad4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:56 +0000
Subject: [PATCH 097/126] fix: unusable metadata documents are skipped when
 locating metadata

---
 src/csvw/metadata.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index c62e8c2..43df668 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -23,7 +23,7 @@ import functools
 import itertools
 import contextlib
 import collections
-from urllib.parse import urljoin, urlparse, urlunparse
+from urllib.parse import urldefrag, urljoin, urlparse, urlunparse
 
 from language_tags import tags
 import attr
@@ -1895,10 +1895,13 @@ class CSVW:
         `§5. Locating Metadata <https://w3c.github.io/csvw/syntax/#locating-metadata>`_
         """
         def describes(md, url):
-            for table in md.get('tables', [md]):
+            tables = md.get('tables', [md]) if isinstance(md, dict) else []
+            for table in tables if isinstance(tables, list) else []:
                 # FIXME: We check whether the metadata describes a CSV file just superficially,
                 # by comparing the last path components of the respective URLs.
-                if url.split('/')[-1] == table['url'].split('/')[-1]:
+                turl = table.get('url') if isinstance(table, dict) else None
+                if isinstance(turl, str) and \
+                        urldefrag(url).url.split('/')[-1] == turl.split('/')[-1]:
                     return True
             return False
 
@@ -1909,21 +1912,27 @@ class CSVW:
             res = requests.head(url)
             no_header = bool(re.search(r'header\s*=\s*absent', res.headers.get('content-type', '')))
             desc = res.links.get('describedby')
-            if desc and desc['type'] in [
+            if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
-                md = get_json(Link(desc['url']).resolve(url))
-                if describes(md, url):
-                    return md, no_header
-                else:
-                    warnings.warn('Ignoring linked metadata because it does not reference the data')
+                res = requests.get(Link(desc['url']).resolve(url))
+                if res.status_code == 200:
+                    try:
+                        md = res.json(object_pairs_hook=collections.OrderedDict)
+                        if describes(md, url):
+                            return md, no_header
+                        warnings.warn(
+                            'Ignoring linked metadata because it does not reference the data')
+                    except json.JSONDecodeError:
+                        pass
 
             # §5.3 Default Locations and Site-wide Location Configuration
             # https://w3c.github.io/csvw/syntax/
             # #default-locations-and-site-wide-location-configuration
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
-            for line in locs.split('\n'):
-                res = requests.get(Link(URITemplate(line).expand(url=url)).resolve(url))
+            for line in filter(None, map(str.strip, locs.split('\n'))):
+                res = requests.get(
+                    Link(URITemplate(line).expand(url=urldefrag(url).url)).resolve(url))
                 if res.status_code == 200:
                     try:
                         md = res.json()
-- 
2.43.0


From 26c4d0f1eb7b49cbda69fac43fb952b2a38b9d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:59 +0000
Subject: [PATCH 098/126] fix: header=absent is respected for table groups

---
 src/csvw/metadata.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 43df668..16481ef 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1834,6 +1834,11 @@ class CSVW:
                 if is_url(url):
                     self.t = TableGroup.from_url(url, data=md)
                     self.t.validate_schema(strict=True)
+                    if no_header:
+                        for table in self.t.tables:
+                            if str(table.url.resolve(table.base)) == urldefrag(url).url:
+                                table.dialect = attr.evolve(
+                                    table.inherit('dialect') or Dialect(), header=False)
                 else:
                     self.t = TableGroup.from_file(url, data=md)
             else:
-- 
2.43.0


From ef3672f190516ff282c17a763fcfbfc4ec698879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:15 +0000
Subject: [PATCH 099/126] fix: base of the @context is respected for tables in
 groups and local metadata

---
 src/csvw/metadata.py | 43 +++++++++++++++++++++++++++++--------------
 1 file changed, 29 insertions(+), 14 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 16481ef..ef05849 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -357,6 +357,28 @@ class Link:
         return urljoin(base, self.string)
 
 
+def resolved_base(base, context) -> typing.Union[str, pathlib.Path, None]:
+    """
+    The base to resolve links against, taking the local context definition of `context` into account.
+    """
+    ctxbase = None
+    for obj in context if isinstance(context, list) else []:
+        if isinstance(obj, dict) and '@base' in obj:
+            ctxbase = obj['@base']
+    if base is None or not ctxbase:
+        return base
+    # If present, its value MUST be a string that is interpreted as a URL which is
+    # resolved against the location of the metadata document to provide the
+    # **base URL** for other URLs in the metadata document.
+    if not hasattr(base, 'joinpath'):
+        return Link(ctxbase).resolve(base)
+    if is_url(ctxbase):  # Data described by local metadata is looked up locally.
+        return base
+    # As for URLs, the part after the last slash is not relevant.
+    return base / (
+        ctxbase if ctxbase.split('/')[-1] in ('.', '..') else re.sub('[^/]*$', '', ctxbase))
+
+
 def link_property(required=False):
     return attr.ib(
         default=None,
@@ -1269,20 +1291,13 @@ class TableLike(Description):
         """
         The "base" to resolve relative links against.
         """
-        at_props = self._parent.at_props if self._parent else self.at_props
-        ctxbase = None
-        for obj in self.at_props.get('context', []):
-            if isinstance(obj, dict) and '@base' in obj:
-                ctxbase = obj['@base']
-        if 'base' in at_props:
-            if ctxbase:
-                # If present, its value MUST be a string that is interpreted as a URL which is
-                # resolved against the location of the metadata document to provide the
-                # **base URL** for other URLs in the metadata document.
-                return Link(ctxbase).resolve(at_props['base'])
-            return at_props['base']
-        return self._parent._fname.parent if (self._parent and self._parent._fname) else \
-            (self._fname.parent if self._fname else None)
+        top = self._parent or self
+        if 'base' in top.at_props:
+            base = top.at_props['base']
+        else:
+            fname = top._fname or self._fname
+            base = fname.parent if fname else None
+        return resolved_base(base, top.at_props.get('context') or self.at_props.get('context'))
 
     def expand(self, tmpl: URITemplate, row: dict, _row, _name=None, qname=False) -> str:
         """
-- 
2.43.0


From 5601f1e20c38c3c6b6a52fd6d998454affe576a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:18 +0000
Subject: [PATCH 100/126] fix: linked schemas and dialects are resolved against
 the metadata

---
 src/csvw/metadata.py | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ef05849..7968651 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -379,6 +379,28 @@ def resolved_base(base, context) -> typing.Union[str, pathlib.Path, None]:
         ctxbase if ctxbase.split('/')[-1] in ('.', '..') else re.sub('[^/]*$', '', ctxbase))
 
 
+def resolved_references(data: dict, base) -> dict:
+    """
+    Resolve the links in `data` to documents containing schema or dialect descriptions.
+    """
+    def resolved(d):
+        if not isinstance(d, dict):
+            return d
+        d = collections.OrderedDict(d)
+        for k in ['tableSchema', 'dialect']:
+            if isinstance(d.get(k), str):
+                link = Link(d[k]).resolve(base)
+                if is_url(link) or pathlib.Path(link).exists():
+                    d[k] = str(link)
+        return d
+
+    base = resolved_base(base, data.get('@context'))
+    data = resolved(data)
+    if isinstance(data.get('tables'), list):
+        data['tables'] = [resolved(table) for table in data['tables']]
+    return data
+
+
 def link_property(required=False):
     return attr.ib(
         default=None,
@@ -1110,7 +1132,7 @@ class Schema(Description):
         if isinstance(v, str):
             try:
                 # The schema is referenced with a URL
-                v = requests.get(v).json()
+                v = get_json(v)
             except:  # pragma: no cover # noqa: E722
                 return v
         if not isinstance(v, dict):
@@ -1254,7 +1276,9 @@ class TableLike(Description):
         """
         if is_url(str(fname)):
             return cls.from_url(str(fname), data=data)
-        res = cls.fromvalue(data or get_json(fname))
+        data = data or get_json(fname)
+        res = cls.fromvalue(
+            resolved_references(data, data.get('@base') or pathlib.Path(fname).parent))
         res._fname = pathlib.Path(fname)
         return res
 
@@ -1266,11 +1290,7 @@ class TableLike(Description):
         data = data or get_json(url)
         url = urlparse(url)
         data.setdefault('@base', urlunparse((url.scheme, url.netloc, url.path, '', '', '')))
-        for table in data.get('tables', [data]):
-            if isinstance(table, dict) and isinstance(table.get('tableSchema'), str):
-                table['tableSchema'] = Link(table['tableSchema']).resolve(data['@base'])
-        res = cls.fromvalue(data)
-        return res
+        return cls.fromvalue(resolved_references(data, data['@base']))
 
     def to_file(self, fname: typing.Union[str, pathlib.Path], omit_defaults=True) -> pathlib.Path:
         """
-- 
2.43.0


From 8b819c21290c789bbf7cfb6665d9dcd7c4f14691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:21 +0000
Subject: [PATCH 101/126] fix: prefixed names, absolute URIs and references to
 the table itself in templates

---
 src/csvw/metadata.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 7968651..33c3e68 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -350,9 +350,9 @@ class Link:
         if hasattr(base, 'joinpath'):
             if is_url(self.string):
                 return self.string
-            if str(self.string).startswith('#') and not base.is_dir():
-                # A fragment of the base.
-                return base.parent / (base.name + self.string)
+            if str(self.string)[:1] in ('', '#', '?') and not base.is_dir():
+                # Just the base, or a fragment or query of it.
+                return base.parent / (base.name + str(self.string))
             return (base if base.is_dir() else base.parent) / self.string
         return urljoin(base, self.string)
 
@@ -1334,8 +1334,9 @@ class TableLike(Description):
             'https://raw.githubusercontent.com/path?1#2'
 
         """
+        base = self.url.resolve(self.base) if self.url else self.base
         if tmpl is INVALID:
-            return self.url.resolve(self.base)
+            return base
 
         expanded = tmpl.expand(
             template_variables(
@@ -1343,13 +1344,15 @@ class TableLike(Description):
             _row=None if _row is None else str(_row),
             _name=_name)
         for prefix, url in NAMESPACES.items():
-            if tmpl.uri.startswith(prefix + ':'):
-                # If the URI Template is a QName, we expand it to a URL to prevent `Link.resolve`
+            if expanded.startswith(prefix + ':'):
+                # If the result is a QName, we expand it to a URL to prevent `Link.resolve`
                 # from turning it into a local path.
                 res = '{}{}'.format(url, expanded[len(prefix) + 1:])
                 break
         else:
-            res = Link(expanded).resolve(self.url.resolve(self.base) if self.url else self.base)
+            # Just as QNames, absolute URIs, e.g. URNs, must not be turned into local paths.
+            res = expanded if re.match(r'[a-zA-Z][a-zA-Z0-9+.-]+:', expanded) \
+                else Link(expanded).resolve(base)
         if not isinstance(res, pathlib.Path):
             if qname:
                 for prefix, url in NAMESPACES.items():
-- 
2.43.0


From dd02563bf2ff44ded466b044dcf1373a9d0b1480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:24 +0000
Subject: [PATCH 102/126] fix: links in located metadata are resolved against
 its location

---
 src/csvw/metadata.py | 46 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 33c3e68..ddd1d69 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1839,6 +1839,23 @@ class TableGroup(TableLike):
         return success
 
 
+def leads_to(md: dict, loc: typing.Union[str, pathlib.Path], url) -> bool:
+    """
+    Whether the metadata `md`, located at `loc`, references the data at `url`, i.e. whether its links
+    can be resolved against its location.
+    """
+    def absolute(loc):
+        return urldefrag(str(loc)).url if is_url(loc) else pathlib.Path(loc).resolve()
+
+    base = resolved_base(
+        str(loc) if is_url(loc) else pathlib.Path(loc).parent, md.get('@context'))
+    tables = md.get('tables', [md])
+    return any(
+        absolute(Link(table['url']).resolve(base)) == absolute(url)
+        for table in (tables if isinstance(tables, list) else [])
+        if isinstance(table, dict) and isinstance(table.get('url'), str))
+
+
 class CSVW:
     """
     Python API to read CSVW described data and convert it to JSON.
@@ -1851,7 +1868,7 @@ class CSVW:
                 w = stack.enter_context(warnings.catch_warnings(record=True))
                 warnings.simplefilter('always', UserWarning)  # Whatever filters are in effect.
 
-            no_header, md = False, None
+            no_header, md, loc = False, None, url
             try:
                 md = get_json(md_url or url)
                 # The URL could be read as JSON document, thus, the user supplied us with overriding
@@ -1861,16 +1878,18 @@ class CSVW:
             if not isinstance(md, dict):  # The content of a CSV file may look like a JSON string.
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
+            elif md_url and leads_to(md, md_url, url):
+                loc = md_url
 
-            # '@base' is added when locating the metadata of local files.
+            # '@base' is added when locating metadata.
             self.no_metadata = set(md.keys()) - {'@base'} == {'@context', 'url'}
             if "http://www.w3.org/ns/csvw" not in md.get('@context', ''):
                 raise ValueError('Invalid or no @context')
             if 'tables' in md:
                 if not md['tables'] or not isinstance(md['tables'], list):
                     raise ValueError('Invalid TableGroup with empty tables property')
-                if is_url(url):
-                    self.t = TableGroup.from_url(url, data=md)
+                if is_url(loc):
+                    self.t = TableGroup.from_url(str(loc), data=md)
                     self.t.validate_schema(strict=True)
                     if no_header:
                         for table in self.t.tables:
@@ -1878,17 +1897,17 @@ class CSVW:
                                 table.dialect = attr.evolve(
                                     table.inherit('dialect') or Dialect(), header=False)
                 else:
-                    self.t = TableGroup.from_file(url, data=md)
+                    self.t = TableGroup.from_file(loc, data=md)
             else:
-                if is_url(url):
-                    self.t = Table.from_url(url, data=md)
+                if is_url(loc):
+                    self.t = Table.from_url(str(loc), data=md)
                     if no_header:
                         if self.t.dialect:
                             self.t.dialect.header = False  # pragma: no cover
                         else:
                             self.t.dialect = Dialect(header=False)
                 else:
-                    self.t = Table.from_file(url, data=md)
+                    self.t = Table.from_file(loc, data=md)
             self.tables = self.t.tables if isinstance(self.t, TableGroup) else [self.t]
             for table in self.tables:
                 for col in table.tableSchema.columns:
@@ -1957,11 +1976,14 @@ class CSVW:
             desc = res.links.get('describedby')
             if desc and desc.get('type') in [
                     "application/csvm+json", "application/ld+json", "application/json"]:
-                res = requests.get(Link(desc['url']).resolve(url))
+                loc = Link(desc['url']).resolve(url)
+                res = requests.get(loc)
                 if res.status_code == 200:
                     try:
                         md = res.json(object_pairs_hook=collections.OrderedDict)
                         if describes(md, url):
+                            if leads_to(md, loc, url):
+                                md.setdefault('@base', loc)
                             return md, no_header
                         warnings.warn(
                             'Ignoring linked metadata because it does not reference the data')
@@ -1974,12 +1996,14 @@ class CSVW:
             res = requests.get(Link('/.well-known/csvm').resolve(url))
             locs = res.text if res.status_code == 200 else '{+url}-metadata.json\ncsv-metadata.json'
             for line in filter(None, map(str.strip, locs.split('\n'))):
-                res = requests.get(
-                    Link(URITemplate(line).expand(url=urldefrag(url).url)).resolve(url))
+                loc = Link(URITemplate(line).expand(url=urldefrag(url).url)).resolve(url)
+                res = requests.get(loc)
                 if res.status_code == 200:
                     try:
                         md = res.json()
                         if describes(md, url):
+                            if leads_to(md, loc, url):
+                                md.setdefault('@base', loc)
                             return md, no_header
                         warnings.warn('Ignoring metadata because it does not reference the data')
                     except json.JSONDecodeError:
-- 
2.43.0


From 1538c024a3bac440b6b3dc3a7321976cd91ea72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:27 +0000
Subject: [PATCH 103/126] fix: empty lists are undefined in templates

---
 src/csvw/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index ddd1d69..fcfc513 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -282,7 +282,8 @@ def template_variables(row: dict, cols: typing.Optional[dict] = None) -> dict:
     """
     def text(v, col):
         if isinstance(v, list):
-            return [text(vv, col) for vv in v if vv is not None]
+            # Empty lists are considered undefined in templates.
+            return [text(vv, col) for vv in v if vv is not None] or None
         if v is None or isinstance(v, str):
             return v
         if isinstance(v, bool):
-- 
2.43.0


From e837eaeda210542b3442c2cf1c2a183101fd8f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:14 +0000
Subject: [PATCH 104/126] fix: number formats are respected for floating point
 datatypes

---
 src/csvw/datatypes.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 5242e1f..ed3ba9a 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -874,10 +874,21 @@ class _float(anyAtomicType):
         return {}
 
     @staticmethod
-    def to_python(v, pattern=None, **kw):
-        if pattern and not NumberPattern(pattern).is_valid(v):
-            raise ValueError(
-                'Invalid value "{}" for number with pattern "{}"'.format(v, pattern))
+    def to_python(v, pattern=None, decimalChar=None, groupChar=None):
+        if (pattern or decimalChar or groupChar) and isinstance(v, str) \
+                and v not in ('INF', '-INF', 'NaN'):
+            # Only the exponent makes a difference to decimals.
+            v, exp, exponent = re.fullmatch('([^eE]*)([eE]?)(.*)', v, re.DOTALL).groups()
+            if exp:
+                chars = {decimalChar or '.': '.', groupChar or ',': ','}
+                if pattern and not NumberPattern(pattern).is_valid(
+                        replace_chars(v, chars) + exp + exponent):
+                    raise ValueError(
+                        'Invalid value "{}" for number with pattern "{}"'.format(
+                            v + exp + exponent, pattern))
+                pattern = None
+            v = decimal.to_python(v, pattern, decimalChar, groupChar)
+            v = '{:f}{}{}'.format(v, exp, exponent)
 
         try:
             if isinstance(v, str) and ('_' in v or not v.isascii()):
@@ -887,9 +898,13 @@ class _float(anyAtomicType):
             _float.value_error(v)
 
     @staticmethod
-    def to_string(v, **kw):
-        v = '{}'.format(v)
-        return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}.get(v, v)
+    def to_string(v, pattern=None, decimalChar=None, groupChar=None):
+        s = '{}'.format(v)
+        if s in ('inf', '-inf', 'nan'):
+            return {'inf': 'INF', '-inf': '-INF', 'nan': 'NaN'}[s]
+        if pattern:
+            return decimal.to_string(_decimal.Decimal(s), pattern, decimalChar, groupChar)
+        return replace_chars(s, {'.': decimalChar or '.'})
 
 
 @register
-- 
2.43.0


From 7131dd8659b120ada5ababc03521e1855f57098f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:17 +0000
Subject: [PATCH 105/126] fix: required constraints of frictionless fields are
 enforced

---
 src/csvw/frictionless.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 3bd0200..b919bf5 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -70,7 +70,9 @@ def convert_column_spec(spec):
         res['propertyUrl'] = spec['rdfType']
 
     constraints = spec.get('constraints', {})
-    for prop in ['required', 'minLength', 'maxLength', 'minimum', 'maximum']:
+    if 'required' in constraints:  # Note: `required` is a property of the column, not the datatype.
+        res['required'] = constraints['required']
+    for prop in ['minLength', 'maxLength', 'minimum', 'maximum']:
         if prop in constraints:
             res['datatype'][prop] = constraints[prop]
         if ('pattern' in constraints) and ('format' not in res['datatype']):
-- 
2.43.0


From 7beb252b2b6f61c4132c9d72f5537ee20e0d0af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:19 +0000
Subject: [PATCH 106/126] fix: bareNumber is supported unless it is false

---
 src/csvw/frictionless.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index b919bf5..71d5b67 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -44,9 +44,9 @@ def convert_column_spec(spec):
                 res['datatype']['format'] = '{}|{}'.format(
                     spec['trueValues'][0], spec['falseValues'][0])
             if spec['type'] in ['number', 'integer']:
-                if spec.get('bareNumber') is True:  # pragma: no cover
+                if spec.get('bareNumber') is False:  # pragma: no cover
                     raise NotImplementedError(
-                        'bareNumber is not supported in CSVW. It may be possible to translate to '
+                        'bareNumber=false is not supported in CSVW. It may be possible to translate to '
                         'a number pattern, though. See '
                         'https://www.w3.org/TR/2015/REC-tabular-data-model-20151217/'
                         '#formats-for-numeric-types')
-- 
2.43.0


From 6a07b650146bfbf82581070e35aebbd36e92254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 107/126] fix: nested csv dialects of frictionless resources
 are complemented, not replaced

---
 src/csvw/frictionless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index 71d5b67..bb42567 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -134,7 +134,7 @@ def convert_dialect(rsc):
     d = rsc.get('dialect', {})
     # Work around https://github.com/frictionlessdata/frictionless-py/issues/1506
     if 'csv' in d:
-        d = d['csv']
+        d = dict(d, **d['csv'])
     res = {}
     if d.get('delimiter'):
         res['delimiter'] = d['delimiter']
-- 
2.43.0


From 7a8739653bd1f5af6e2e26134416a6df597ffe48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:25 +0000
Subject: [PATCH 108/126] fix: frictionless boolean values, references to the
 same resource and directory given as str

---
 src/csvw/frictionless.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index bb42567..a493b17 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -40,9 +40,10 @@ def convert_column_spec(spec):
             res['datatype']['base'] = spec['type']
             if spec['type'] == 'string' and spec.get('format'):
                 res['datatype']['dc:format'] = spec['format']
-            if spec['type'] == 'boolean' and spec.get('trueValues') and spec.get('falseValues'):
+            if spec['type'] == 'boolean' and (spec.get('trueValues') or spec.get('falseValues')):
                 res['datatype']['format'] = '{}|{}'.format(
-                    spec['trueValues'][0], spec['falseValues'][0])
+                    (spec.get('trueValues') or ['true'])[0],
+                    (spec.get('falseValues') or ['false'])[0])
             if spec['type'] in ['number', 'integer']:
                 if spec.get('bareNumber') is False:  # pragma: no cover
                     raise NotImplementedError(
@@ -92,7 +93,7 @@ def convert_foreignKey(rsc_name, fk, resource_map):
         columnReference=fk['fields'],
         reference=dict(
             columnReference=fk['reference']['fields'],
-            resource=resource_map[fk['reference']['resource'] or rsc_name],
+            resource=resource_map[fk['reference'].get('resource') or rsc_name],
         )
     )
 
@@ -164,7 +165,7 @@ class DataPackage:
             # already a parsed JSON object
             self.dir = pathlib.Path(directory or '.')
         elif isinstance(spec, pathlib.Path):
-            self.dir = directory or spec.parent
+            self.dir = pathlib.Path(directory or spec.parent)
             spec = json.loads(spec.read_text(encoding='utf8'))
         else:  # assume a JSON formatted string
             spec = json.loads(spec)
-- 
2.43.0


From f9916c907262e1940da67e8d635e100b9f7afeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 109/126] fix: changes of dialect properties take effect

---
 src/csvw/dsv_dialects.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/csvw/dsv_dialects.py b/src/csvw/dsv_dialects.py
index 05fb3ca..bc2a604 100644
--- a/src/csvw/dsv_dialects.py
+++ b/src/csvw/dsv_dialects.py
@@ -120,21 +120,18 @@ class Dialect(object):
             (str, bool), 'false')('{0}'.format(v).lower() if isinstance(v, bool) else v))
 
     def updated(self, **kw):
-        res = self.__class__(**attr.asdict(self))
-        for k, v in kw.items():
-            setattr(res, k, v)
-        return res
+        return attr.evolve(self, **kw)
 
-    @functools.cached_property
+    @property
     def escape_character(self):
         return None if self.quoteChar is None else ('"' if self.doubleQuote else '\\')
 
-    @functools.cached_property
+    @property
     def line_terminators(self):
         return [self.lineTerminators] \
             if isinstance(self.lineTerminators, str) else self.lineTerminators
 
-    @functools.cached_property
+    @property
     def trimmer(self):
         return {
             'true': lambda s: s.strip(),
-- 
2.43.0


From 9fe4360a664c215dd17c562364e8577bc6b9f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:59 +0000
Subject: [PATCH 110/126] fix: validation, access to the table group and
 comments do not depend on earlier operations

---
 src/csvw/metadata.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index fcfc513..1bc4c2b 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1571,6 +1571,7 @@ class Table(TableLike):
                                     'und', (self.lang or 'und').split('-')[0]]:
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
+                    self._comments = reader.comments
                     return
             else:
                 header = colnames
@@ -1917,6 +1918,7 @@ class CSVW:
             self.common_props = self.t.common_props
         if w:
             self.warnings.extend(w)
+        self._metadata_warnings = list(self.warnings)
 
     @property
     def is_valid(self) -> bool:
@@ -1928,6 +1930,7 @@ class CSVW:
             For this to also catch problems during metadata location, the
             `CSVW` instance must be initialized with `validate=True`.
         """
+        self.warnings = list(self._metadata_warnings)  # Forget what previous validations found.
         if self.warnings:
             return False
         with warnings.catch_warnings(record=True) as w:
@@ -1948,8 +1951,10 @@ class CSVW:
 
     @property
     def tablegroup(self):
-        return self.t if isinstance(self.t, TableGroup) else \
-            TableGroup(at_props={'base': self.t.base}, tables=self.tables)
+        # Note: Any local context definition is already taken into account in the base of the table.
+        return self.t if isinstance(self.t, TableGroup) else TableGroup(
+            at_props={'base': self.t.base, 'context': 'http://www.w3.org/ns/csvw'},
+            tables=self.tables)
 
     @staticmethod
     def locate_metadata(url=None) -> typing.Tuple[dict, bool]:
-- 
2.43.0


From 1d9193ad6f61cc3055e8b207a274619609462436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:07 +0000
Subject: [PATCH 111/126] fix: TableGroup.write and copy put the data, zipped
 or not, where the metadata refers to

---
 src/csvw/metadata.py | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 1bc4c2b..80ed989 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -9,6 +9,7 @@ This module implements (partially) the W3C recommendation
 """
 import io
 import re
+import copy
 import json
 import codecs
 import shutil
@@ -1715,9 +1716,23 @@ class TableGroup(TableLike):
         table URL is specified as keyword.
         """
         fname = pathlib.Path(fname)
+        base = self._local_base(fname.parent)
         for tname, rows in items.items():
-            self.tabledict[tname].write(rows, base=fname.parent, strict=strict, _zipped=_zipped)
-        self.to_file(fname)
+            table = self.tabledict[tname]
+            table.url.resolve(base).parent.mkdir(parents=True, exist_ok=True)
+            table.write(rows, base=base, strict=strict, _zipped=_zipped)
+        md = copy.copy(self)
+        # The base is determined by the location of the metadata.
+        md.at_props = {k: v for k, v in self.at_props.items() if k != 'base'}
+        md.to_file(fname)
+
+    def _local_base(self, dest: pathlib.Path) -> pathlib.Path:
+        """
+        The directory to resolve table URLs against for metadata in directory `dest`.
+        """
+        base = resolved_base(dest, self.at_props.get('context'))
+        base.mkdir(parents=True, exist_ok=True)
+        return base
 
     def copy(self, dest: typing.Union[pathlib.Path, str]):
         """
@@ -1728,9 +1743,20 @@ class TableGroup(TableLike):
         :return:
         """
         dest = pathlib.Path(dest)
+        base = self._local_base(dest)
         for table in self.tables:
-            shutil.copy(str(table.url.resolve(self.base)), str(table.url.resolve(dest)))
-        self._fname = dest / self._fname.name
+            src = pathlib.Path(table.url.resolve(self.base))
+            target = table.url.resolve(base)
+            zipped = src.parent / (src.name + '.zip')
+            if zipped.exists() and not src.exists():
+                if target.exists():  # It would take precedence over the zipped data when reading.
+                    target.unlink()
+                src, target = zipped, target.parent / (target.name + '.zip')
+            target.parent.mkdir(parents=True, exist_ok=True)
+            if not (target.exists() and target.samefile(src)):
+                shutil.copy(str(src), str(target))
+        self._fname = dest / (self._fname.name if self._fname else 'csv-metadata.json')
+        self.at_props.pop('base', None)
         self.to_file(self._fname)
 
     @property
-- 
2.43.0


From da50b2945805c6b0e4d175341efa490ce241e18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:10 +0000
Subject: [PATCH 112/126] fix: render all valid metadata as markdown, with
 inherited datatypes, all bounds and foreign keys

---
 src/csvw/utils.py | 113 +++++++++++++++++++++++++++++-----------------
 1 file changed, 72 insertions(+), 41 deletions(-)

diff --git a/src/csvw/utils.py b/src/csvw/utils.py
index f941bf5..8df1143 100644
--- a/src/csvw/utils.py
+++ b/src/csvw/utils.py
@@ -151,76 +151,107 @@ def metadata2markdown(tg, link_files=False) -> str:
             return '<dl>{}</dl>'.format(''.join(items))
         return str(obj)
 
+    def text(obj):
+        """
+        The values of common properties may be (lists of) objects with the text as `@value`.
+        """
+        if isinstance(obj, list):
+            return ' '.join(text(item) for item in obj)
+        if isinstance(obj, dict):
+            return str(obj.get('@value', obj.get('@id', '')))
+        return str(obj)
+
+    def row(*cells):
+        """
+        The content of cells must not be mistaken as markup of the table.
+        """
+        return ' | '.join(re.sub(r'\r\n|\r|\n', ' ', c).replace('|', '\\|') for c in cells)
+
     def properties(props):
         props = {k: v for k, v in copy.deepcopy(props).items() if v}
         res = []
         desc = props.pop('dc:description', None)
         if desc:
-            res.append(desc + '\n')
+            res.append(text(desc) + '\n')
         img = props.pop('https://schema.org/image', None)
-        if img:
-            if isinstance(img, str):  # pragma: no cover
-                img = {'contentUrl': img}
+        for img in (img if isinstance(img, list) else [img]) if img else []:
+            if not isinstance(img, dict):  # pragma: no cover
+                img = {'https://schema.org/contentUrl': img}
             res.append('![{}]({})\n'.format(
                 img.get('https://schema.org/caption') or '',
-                img.get('https://schema.org/contentUrl')))
+                img.get('https://schema.org/contentUrl') or img.get('@id')))
         if props:
             res.append('property | value\n --- | ---')
             for k, v in props.items():
-                res.append('{} | {}'.format(qname2link(k), htmlify(v, key=k)))
+                res.append(row(qname2link(k), htmlify(v, key=k)))
         return '\n'.join(res) + '\n'
 
     def colrow(col, fks, pk):
-        dt = '`{}`'.format(col.datatype.base if col.datatype else 'string')
-        if col.datatype:
-            if col.datatype.format:
-                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', col.datatype.format):
+        datatype = col.inherit('datatype')
+        dt = '`{}`'.format((datatype and datatype.base) or 'string')
+        if datatype:
+            # The format of numbers and dates is a pattern rather than a regular expression.
+            if isinstance(datatype.format, str) and not datatype.derived_description.get('pattern'):
+                if re.fullmatch(r'[\w\s]+(\|[\w\s]+)*', datatype.format):
                     dt += '<br>Valid choices:<br>'
-                    dt += ''.join(' `{}`'.format(w) for w in col.datatype.format.split('|'))
-                elif col.datatype.base == 'string':
-                    dt += '<br>Regex: `{}`'.format(col.datatype.format)
-            if col.datatype.minimum:
-                dt += '<br>&ge; {}'.format(col.datatype.minimum)
-            if col.datatype.maximum:
-                dt += '<br>&le; {}'.format(col.datatype.maximum)
-        if col.separator:
-            dt = 'list of {} (separated by `{}`)'.format(dt, col.separator)
-        desc = col.common_props.get('dc:description', '').replace('\n', ' ')
-
-        if pk and col.name in pk:
-            desc = (desc + '<br>') if desc else desc
-            desc += 'Primary key'
-
-        if col.name in fks:
-            desc = (desc + '<br>') if desc else desc
-            desc += 'References [{}::{}](#table-{})'.format(
-                fks[col.name][1], fks[col.name][0], slug(fks[col.name][1]))
-
-        return ' | '.join([
-            '[{}]({})'.format(col.name, col.propertyUrl)
-            if col.propertyUrl else '`{}`'.format(col.name),
+                    dt += ''.join(' `{}`'.format(w) for w in datatype.format.split('|'))
+                elif datatype.base == 'string':
+                    dt += '<br>Regex: `{}`'.format(datatype.format)
+            for sign, bounds in [
+                ('&ge;', (datatype.minimum, datatype.minInclusive)),
+                ('&gt;', (datatype.minExclusive,)),
+                ('&le;', (datatype.maximum, datatype.maxInclusive)),
+                ('&lt;', (datatype.maxExclusive,)),
+            ]:
+                for bound in bounds:
+                    if bound is not None:
+                        dt += '<br>{} {}'.format(sign, bound)
+        separator = col.inherit('separator')
+        if separator:
+            dt = 'list of {} (separated by `{}`)'.format(dt, separator)
+        desc = [text(col.common_props.get('dc:description', ''))]
+
+        if pk and col.header in pk:
+            desc.append('Primary key')
+
+        for ref, resource in fks.get(col.header, []):
+            desc.append('References [{}::{}](#{})'.format(
+                resource, ref, anchors.get(resource, 'table-' + slug(resource))))
+
+        return row(
+            '[{}]({})'.format(col.header, col.propertyUrl)
+            if col.propertyUrl else '`{}`'.format(col.header),
             dt,
-            desc,
-        ])
+            '<br>'.join(d for d in desc if d),
+        )
+
+    anchors = {}  # Names which differ only in punctuation have the same slug.
+    for table in tg.tables:
+        anchor = base = 'table-{}'.format(slug(table.url.string))
+        while anchor in anchors.values():
+            anchor = '{}-{}'.format(base, len(anchors) + 1)
+        anchors[table.url.string] = anchor
 
-    res = ['# {}\n'.format(tg.common_props.get('dc:title', 'Dataset'))]
+    res = ['# {}\n'.format(text(tg.common_props.get('dc:title', 'Dataset')))]
     if tg._fname and link_files:
         res.append('> [!NOTE]\n> Described by [{0}]({0}).\n'.format(tg._fname.name))
 
     res.append(properties({k: v for k, v in tg.common_props.items() if k != 'dc:title'}))
 
     for table in tg.tables:
-        fks = {
-            fk.columnReference[0]: (fk.reference.columnReference[0], fk.reference.resource.string)
-            for fk in table.tableSchema.foreignKeys if len(fk.columnReference) == 1}
-        header = '## <a name="table-{}"></a>Table '.format(slug(table.url.string))
+        fks = collections.defaultdict(list)
+        for fk in table.tableSchema.foreignKeys:
+            if fk.reference.resource is not None:
+                for colref, ref in zip(fk.columnReference, fk.reference.columnReference):
+                    fks[colref].append((ref, fk.reference.resource.string))
+        header = '## <a name="{}"></a>Table '.format(anchors[table.url.string])
         if link_files and tg._fname and tg._fname.parent.joinpath(table.url.string).exists():
             header += '[{0}]({0})\n'.format(table.url.string)
         else:  # pragma: no cover
             header += table.url.string
         res.append('\n' + header + '\n')
         res.append(properties(table.common_props))
-        dialect = table.inherit('dialect')
+        dialect = table._get_dialect()
         if dialect.asdict():
             res.append('\n**CSV dialect**: `{}`\n'.format(json.dumps(dialect.asdict())))
         res.append('\n### Columns\n')
-- 
2.43.0


From e9fe2573cc07ffaa6a60df9346d3e07dc5d2e9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:27 +0000
Subject: [PATCH 113/126] fix: pass any delimiter on to frictionless and report
 missing files when validating

---
 src/csvw/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/__main__.py b/src/csvw/__main__.py
index 3f599f8..39adbfe 100644
--- a/src/csvw/__main__.py
+++ b/src/csvw/__main__.py
@@ -41,7 +41,7 @@ def csvwdescribe(args=None, test=False):
     )
     fargs = ['describe', '--json']
     if args.delimiter:
-        fargs.extend(['--dialect', '{"delimiter": "%s"}' % args.delimiter])
+        fargs.extend(['--dialect', json.dumps(dict(delimiter=args.delimiter))])
     onefile = False
     if len(args.csv) == 1 and '*' not in args.csv[0]:
         onefile = True
@@ -78,7 +78,7 @@ def csvwvalidate(args=None, test=False):
             if args.verbose:
                 for w in csvw.warnings:
                     print(colored(str(w.message), 'blue'))
-    except ValueError as e:
+    except (ValueError, OSError) as e:  # Including files or URLs which cannot be read.
         ret = 2
         print(colored('FAIL', 'red', attrs=['bold']))
         if args.verbose:
-- 
2.43.0


From 79fe636f620cc58023f6aa43f10c7260d6f9bc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:31 +0000
Subject: [PATCH 114/126] fix: resolve paths of CSV files without metadata and
 report metadata which is no JSON object

---
 src/csvw/metadata.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 80ed989..e6f5ad5 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1904,8 +1904,12 @@ class CSVW:
             except (json.decoder.JSONDecodeError, UnicodeDecodeError):
                 pass
             if not isinstance(md, dict):  # The content of a CSV file may look like a JSON string.
+                if md_url or str(url).lower().endswith('.json'):
+                    warnings.warn('Metadata is not a JSON object: {}'.format(md_url or url))
                 # So we got a CSV file, no JSON. Let's locate metadata using the other methods.
                 md, no_header = self.locate_metadata(url)
+                if not isinstance(md, dict):
+                    raise ValueError('Metadata is not a JSON object')
             elif md_url and leads_to(md, md_url, url):
                 loc = md_url
 
@@ -2054,10 +2058,8 @@ class CSVW:
         }
         if not is_url(url or ''):
             # No metadata detected for a local CSV file. To make table reading work, we set the
-            # directory as @base and the filename as url property of the description.
-            p = pathlib.Path(url)
-            res['@base'] = str(p)
-            res['url'] = p.name
+            # filename as url property of the description, to be resolved against the directory.
+            res['url'] = pathlib.Path(url).name
         return res, no_header
 
     def to_json(self, minimal=False):
-- 
2.43.0


From b5d4cdfac8de98018bb8c1136b86d1f00dc09a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:34 +0000
Subject: [PATCH 115/126] fix: load tables without column descriptions into the
 database

---
 src/csvw/db.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 59f1fb5..02fc5c7 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -211,6 +211,17 @@ class ColSpec:
             ' CHECK ({0})'.format(_check) if _check else '')
 
 
+def undescribed_columns(table: csvw.Table) -> typing.List[str]:
+    """
+    The names of the columns of a table, the columns of which are not described in the metadata.
+    """
+    try:
+        return list(collections.OrderedDict.fromkeys(
+            name for row in table.iterdicts(strict=False) for name in row))
+    except OSError:  # There is no data (yet).
+        return []
+
+
 @attr.s
 class TableSpec(object):
     """
@@ -285,6 +296,8 @@ class TableSpec(object):
                         fk.reference.resource.string,
                         [ref for _, ref in pairs],
                     ))
+        if not table.tableSchema.columns:
+            spec.columns = [ColSpec(name=name) for name in undescribed_columns(table)]
         for c in table.tableSchema.columns:
             if c.header not in spec.many_to_many:
                 datatype = c.inherit('datatype')
@@ -487,6 +500,8 @@ class Database(object):
                 #
                 convert, seps, nulls, items, refs = {}, {}, {}, {}, collections.defaultdict(dict)
                 table = self.tdict[tname]  # The TableSpec object.
+                if not table.columns:
+                    continue
 
                 # Assemble the conversion dictionary:
                 for col in table.columns:
@@ -570,7 +585,8 @@ class Database(object):
 
         with self.connection() as db:
             for table in self.tables:
-                db.execute(table.sql(translate=self.translate))
+                if table.columns:  # There are no tables without columns in SQLite.
+                    db.execute(table.sql(translate=self.translate))
 
             db.execute('PRAGMA foreign_keys = ON;')
             db.commit()
-- 
2.43.0


From 8f681958ba46b1eb186ed6c4b346bcddf5ef74cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:38 +0000
Subject: [PATCH 116/126] fix: convert TSV resources of data packages

---
 src/csvw/frictionless.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/frictionless.py b/src/csvw/frictionless.py
index a493b17..45874a4 100644
--- a/src/csvw/frictionless.py
+++ b/src/csvw/frictionless.py
@@ -136,7 +136,7 @@ def convert_dialect(rsc):
     # Work around https://github.com/frictionlessdata/frictionless-py/issues/1506
     if 'csv' in d:
         d = dict(d, **d['csv'])
-    res = {}
+    res = {'delimiter': '\t'} if rsc.get('format') == 'tsv' else {}
     if d.get('delimiter'):
         res['delimiter'] = d['delimiter']
     if rsc.get('encoding'):
@@ -211,7 +211,7 @@ class DataPackage:
             schema = rsc.get('schema')
             if schema and \
                     rsc.get('scheme') == 'file' and \
-                    rsc.get('format') == 'csv':
+                    rsc.get('format') in ('csv', 'tsv'):
                 # Table Schema:
                 md.setdefault('tables', [])
                 table = dict(
-- 
2.43.0


From b95ccd73f28275c06f41b8a0a4a94afa0805c209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:19 +0000
Subject: [PATCH 117/126] fix: check exponential numbers with decimal comma
 against their pattern

---
 src/csvw/datatypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index ed3ba9a..7d8ca63 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -880,7 +880,7 @@ class _float(anyAtomicType):
             # Only the exponent makes a difference to decimals.
             v, exp, exponent = re.fullmatch('([^eE]*)([eE]?)(.*)', v, re.DOTALL).groups()
             if exp:
-                chars = {decimalChar or '.': '.', groupChar or ',': ','}
+                chars = {groupChar or ',': ',', decimalChar or '.': '.'}
                 if pattern and not NumberPattern(pattern).is_valid(
                         replace_chars(v, chars) + exp + exponent):
                     raise ValueError(
-- 
2.43.0


From 6c6fee3e20567504d3681c6044bf9ccbff3e7490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:22 +0000
Subject: [PATCH 118/126] fix: accept headers which are titles in a language
 matching the one of the table

---
 src/csvw/metadata.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index e6f5ad5..da142b9 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1188,6 +1188,14 @@ def converter_transformations(v):
     return res
 
 
+def languages_match(tag, lang):
+    """
+    Whether the language tag of a title matches the language of a table.
+    """
+    tag, lang = (tag or 'und').split('-'), (lang or 'und').split('-')
+    return tag == ['und'] or all(a == b for a, b in zip(tag, lang))
+
+
 @attr.s
 class TableLike(Description):
     """
@@ -1568,8 +1576,9 @@ class Table(TableLike):
                             res = col.has_title(name)
                             if (col.titles or not col.name) and not res:
                                 warnings.warn('Incompatible table models')
-                            if isinstance(res, str) and res.split('-')[0] not in [
-                                    'und', (self.lang or 'und').split('-')[0]]:
+                            if isinstance(res, str) and not any(
+                                    name in titles and languages_match(tag, self.lang)
+                                    for tag, titles in col.titles.items()):
                                 warnings.warn('Incompatible column titles')
                 except StopIteration:  # pragma: no cover
                     self._comments = reader.comments
-- 
2.43.0


From ca51e792a51bbf4db15bc48e922df31b1cd3a7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:09 +0000
Subject: [PATCH 119/126] fix: error pages of HTTP servers are neither data nor
 metadata

---
 src/csvw/metadata.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index da142b9..60bedce 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -225,10 +225,17 @@ def json_open(filename, mode='r', encoding='utf-8'):
     return io.open(filename, mode, encoding=encoding)
 
 
+def get_existing(url) -> requests.Response:
+    """The text of an error page is neither data nor metadata."""
+    res = requests.get(url)
+    res.raise_for_status()
+    return res
+
+
 def get_json(fname) -> typing.Union[list, dict]:
     fname = str(fname)
     if is_url(fname):
-        return requests.get(fname).json(object_pairs_hook=collections.OrderedDict)
+        return get_existing(fname).json(object_pairs_hook=collections.OrderedDict)
     with json_open(fname) as f:
         return json.load(f, object_pairs_hook=collections.OrderedDict)
 
@@ -1547,7 +1554,7 @@ class Table(TableLike):
         with contextlib.ExitStack() as stack:
             if is_url(fname):
                 handle = io.TextIOWrapper(
-                    io.BytesIO(requests.get(str(fname)).content), encoding=encoding, newline='')
+                    io.BytesIO(get_existing(str(fname)).content), encoding=encoding, newline='')
             else:
                 handle = fname
                 fpath = pathlib.Path(fname) if isinstance(fname, (str, pathlib.Path)) else None
-- 
2.43.0


From 62931541befa0b23c2c265b1cc77337fc20620e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:11 +0000
Subject: [PATCH 120/126] fix: list the comments read along with the rows
 converted to JSON

---
 src/csvw/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 60bedce..3b8bbdd 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -2109,6 +2109,8 @@ class CSVW:
 
         cols = collections.OrderedDict([(col.header, col) for col in table.tableSchema.columns])
 
+        # Reading a table stores the comments in it, and it may be read elsewhere meanwhile.
+        table = copy.copy(table)
         row = [
             self._row_to_json(table, cols, row, rownum, rowsourcenum)
             for rownum, (_, rowsourcenum, row) in enumerate(
-- 
2.43.0


From 87507e5ac4ba9dae1468561415e29041e998ad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:43 +0000
Subject: [PATCH 121/126] fix: quote names containing backticks in SQL

---
 src/csvw/db.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 02fc5c7..34386c5 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -80,7 +80,7 @@ class ColumnTranslator(typing.Protocol):
 
 
 def quoted(*names):
-    return ','.join('`{0}`'.format(name) for name in names)
+    return ','.join('`{0}`'.format(name.replace('`', '``')) for name in names)
 
 
 def insert(db: sqlite3.Connection,
@@ -171,16 +171,16 @@ class ColSpec:
         if not self.csvw or self.separator:
             # Constraints apply to the items of lists.
             return
-        c, cname = self.csvw, translate(self.name)
+        c, cname = self.csvw, quoted(translate(self.name))
         basetype = DATATYPES[self.csvw_type]
         constraints = []
         if (c.minimum is not None) or (c.maximum is not None):
             if issubclass(basetype, DATATYPES['datetime']):
                 col, value = ["strftime('%Y-%m-%d %H:%M:%f', {0})".format(s)
-                              for s in ("`{0}`", "'{0}'")]
+                              for s in ("{0}", "'{0}'")]
             elif issubclass(basetype, (DATATYPES['decimal'], DATATYPES['float'])):
                 # Make sure numbers stored as text are compared as numbers.
-                col = 'CAST(`{0}` AS NUMERIC)' if self.db_type == 'TEXT' else '`{0}`'
+                col = 'CAST({0} AS NUMERIC)' if self.db_type == 'TEXT' else '{0}'
                 value = '{0}'
             else:  # durations cannot be compared by the database
                 return
@@ -195,17 +195,17 @@ class ColSpec:
                 # Lengths are numbers of bytes, but the encoded text is stored.
                 return
             if c.length is not None:
-                constraints.append('length(`{0}`) = {1}'.format(cname, c.length))
+                constraints.append('length({0}) = {1}'.format(cname, c.length))
             if c.minLength is not None:
-                constraints.append('length(`{0}`) >= {1}'.format(cname, c.minLength))
+                constraints.append('length({0}) >= {1}'.format(cname, c.minLength))
             if c.maxLength is not None:
-                constraints.append('length(`{0}`) <= {1}'.format(cname, c.maxLength))
+                constraints.append('length({0}) <= {1}'.format(cname, c.maxLength))
         return ' AND '.join(constraints)
 
     def sql(self, translate: ColumnTranslator) -> str:
         _check = self.check(translate)
-        return '`{0}` {1}{2}{3}'.format(
-            translate(self.name),
+        return '{0} {1}{2}{3}'.format(
+            quoted(translate(self.name)),
             self.db_type,
             ' NOT NULL' if self.required else '',
             ' CHECK ({0})'.format(_check) if _check else '')
@@ -351,8 +351,8 @@ class TableSpec(object):
                 quoted(*[col_translate(c) for c in fk]),
                 quoted(translate(ref)),
                 quoted(*[translate(ref, c) for c in refcols])))
-        return "CREATE TABLE IF NOT EXISTS `{0}` (\n    {1}\n)".format(
-            translate(self.name), ',\n    '.join(clauses))
+        return "CREATE TABLE IF NOT EXISTS {0} (\n    {1}\n)".format(
+            quoted(translate(self.name)), ',\n    '.join(clauses))
 
 
 def schema(tg: csvw.TableGroup,
-- 
2.43.0


From d3ab784077db55396d48f0088ab012fa7bb9dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:45 +0000
Subject: [PATCH 122/126] fix: close the member of a zipped table also on
 errors

---
 src/csvw/metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 3b8bbdd..05be850 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -1562,11 +1562,11 @@ class Table(TableLike):
                     zipfname = fpath.parent.joinpath(fpath.name + '.zip')
                     if zipfname.exists():
                         zipf = stack.enter_context(zipfile.ZipFile(str(zipfname)))
-                        handle = io.TextIOWrapper(
+                        handle = stack.enter_context(io.TextIOWrapper(
                             zipf.open([
                                 n for n in zipf.namelist() if n.split('/')[-1] == fpath.name][0]),
                             encoding=encoding,
-                            newline='')
+                            newline=''))
 
             reader = stack.enter_context(UnicodeReaderWithLineNumber(handle, dialect=dialect))
             reader = iter(reader)
-- 
2.43.0


From 39435fede5b04d28988c819997b5d67eb5f2a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:47 +0000
Subject: [PATCH 123/126] fix: format dates and times independent of the locale
 of the environment

---
 src/csvw/datatypes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 7d8ca63..3179545 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -308,7 +308,7 @@ def with_tz(v, func, args, kw):
 
 def format_with_tz(v, func, pattern, tz_marker):
     if not tz_marker:
-        return func(v, tzinfo=getattr(v, 'tzinfo', None), format=pattern)
+        return func(v, tzinfo=getattr(v, 'tzinfo', None), format=pattern, locale='en')
     # babel gets negative offsets which are not whole hours wrong, so we format the offset.
     offset = v.utcoffset() or datetime.timedelta(0)
     hours, minutes = divmod(abs(offset) // datetime.timedelta(minutes=1), 60)
@@ -319,7 +319,7 @@ def format_with_tz(v, func, pattern, tz_marker):
         tz = '{}{:02}'.format('-' if offset < datetime.timedelta(0) else '+', hours)
         if minutes or len(marker) > 1:
             tz += '{}{:02}'.format(':' if len(marker) == 3 else '', minutes)
-    return func(v, tzinfo=v.tzinfo, format=pattern[:-len(tz_marker)]) \
+    return func(v, tzinfo=v.tzinfo, format=pattern[:-len(tz_marker)], locale='en') \
         + tz_marker.replace(marker, tz)
 
 
@@ -409,8 +409,8 @@ class date(dateTime):
 
     @staticmethod
     def to_string(v, regex=None, fmt=None, tz_marker=None, pattern=None):
-        def format_date(v, tzinfo=None, format=None):
-            return babel.dates.format_date(v, format=format, locale='en')
+        def format_date(v, tzinfo=None, format=None, locale=None):
+            return babel.dates.format_date(v, format=format, locale=locale)
 
         if pattern:
             return format_with_tz(v, format_date, pattern, tz_marker)
-- 
2.43.0


From 52386845fe6354aa348e8eb78cd935deaf1db8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:59 +0000
Subject: [PATCH 124/126] fix: titles survive copying, pickling and attr.evolve

---
 src/csvw/metadata.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/csvw/metadata.py b/src/csvw/metadata.py
index 05be850..cf2ea6e 100644
--- a/src/csvw/metadata.py
+++ b/src/csvw/metadata.py
@@ -435,7 +435,7 @@ class NaturalLanguage(collections.OrderedDict):
                 self[None] = list(self.value)
         elif isinstance(self.value, dict):
             for k, v in self.value.items():
-                if not tags.check(k):
+                if k is not None and not tags.check(k):
                     raise ValueError('Invalid language tag for NaturalLanguage')
                 if not isinstance(v, (list, tuple)):
                     v = [v]
@@ -450,6 +450,10 @@ class NaturalLanguage(collections.OrderedDict):
         else:
             raise ValueError('invalid value type for NaturalLanguage')
 
+    def __reduce__(self):
+        # Instances of a subclass of dict with a required argument can't be copied otherwise.
+        return self.__class__, (dict(self),)
+
     def asdict(self, omit_defaults=True):
         if list(self) == [None]:
             if len(self[None]) == 1:
-- 
2.43.0


From 52daaa80c029325e5d2bbfcea9462c2c78ab7f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:27:47 +0000
Subject: [PATCH 125/126] fix: tables with list-valued primary keys can be read
 from the database

---
 src/csvw/db.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/csvw/db.py b/src/csvw/db.py
index 34386c5..adb1ac8 100644
--- a/src/csvw/db.py
+++ b/src/csvw/db.py
@@ -544,7 +544,8 @@ class Database(object):
                     pk = d[self.translate(tname, table.primary_key[0])] \
                         if table.primary_key and len(table.primary_key) == 1 else None
                     d.update({self.translate(tname, k): [] for k in table.many_to_many})
-                    d.update(refs.get(pk, {}))
+                    if refs:  # Note: List-valued keys are not hashable.
+                        d.update(refs.get(pk, {}))
                     res[self.translate(tname)].append(d)
         return res
 
-- 
2.43.0


From 1eb3886c9b80dd8818440dc15264af472b291a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:29 +0000
Subject: [PATCH 126/126] fix: floats are formatted as the right decimals

---
 src/csvw/datatypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/csvw/datatypes.py b/src/csvw/datatypes.py
index 3179545..edef17a 100644
--- a/src/csvw/datatypes.py
+++ b/src/csvw/datatypes.py
@@ -622,6 +622,8 @@ class decimal(anyAtomicType):
             return replace_chars(v, {',': groupChar or ',', '.': decimalChar or '.'})
 
         fmt = '' if groupChar is None else ','
+        if isinstance(v, float):
+            v = _decimal.Decimal(float.__repr__(v))  # Exactly the shortest representation.
         if isinstance(v, _decimal.Decimal):
             fmt += 'f'  # never use scientific notation
         try:
-- 
2.43.0

