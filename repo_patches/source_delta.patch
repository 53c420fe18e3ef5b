From 118f0eb7f1c0727ca3b8a04f9c9887e00358754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:09 +0000
Subject: [PATCH 1/8] fix: convert queries without out-parameters to numeric
 styles

The row size was taken from the last parameter conversion, so a query without
any parameters (or with only empty tuples) raised IndexError when converting to
a numeric style.
---
 sqlparams/_converting.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1a79717..2d21890 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -478,8 +478,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -532,8 +531,7 @@ class NamedToNumericConverter(NamedConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_name, out_index in param_conversions:
@@ -1258,8 +1256,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -1317,8 +1314,7 @@ class NumericToNumericConverter(NumericConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2027,8 +2023,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the many out-style parameters (:class:`list` of :class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		many_out_params = []
 		for i, in_params in enumerate(many_in_params):
@@ -2086,8 +2081,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 		Returns the out-style parameters (:class:`list`).
 		"""
 		# Get row size.
-		last_conv = param_conversions[-1]
-		size = (last_conv[2][-1] if last_conv[0] else last_conv[2]) + 1
+		size = _get_row_size(param_conversions)
 
 		out_params: List[Any] = [None] * size
 		for expand_tuple, in_index, out_index in param_conversions:
@@ -2400,6 +2394,21 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 				return out_format
 
 
+def _get_row_size(
+	param_conversions: List[Tuple[bool, Union[int, str], Union[int, List[int]]]],
+) -> int:
+	"""
+	Get the number of numeric out-parameters. Every conversion introduces its own
+	out-indices.
+
+	*param_conversions* (:class:`list`) contains each parameter conversion to
+	perform (:class:`tuple`).
+
+	Returns the row size (:class:`int`).
+	"""
+	return sum(len(__conv[2]) if __conv[0] else 1 for __conv in param_conversions)
+
+
 def _quote_oracle_param(param: str) -> str:
 	"""
 	Quote the Oracle parameter.
-- 
2.43.0


From 07dce8049c32e1fb0325a5af5a94475e751ac2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:34 +0000
Subject: [PATCH 2/8] fix: check rows against an empty tuple in formatmany()

An empty tuple in the first row was expanded to (NULL) without recording a
conversion, so non-empty tuples in later rows were silently dropped instead of
being rejected like any other tuple of a different length.
---
 sqlparams/_converting.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 2d21890..1d91307 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -338,6 +338,7 @@ class NamedToNamedConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -599,6 +600,7 @@ class NamedToNumericConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, []))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -851,6 +853,7 @@ class NamedToOrdinalConverter(NamedConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_name_param, 0))
 					return "(NULL)"
 
 				# Convert named parameter by flattening tuple values.
@@ -1111,6 +1114,7 @@ class NumericToNamedConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1371,6 +1375,7 @@ class NumericToNumericConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1626,6 +1631,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert numeric parameter by flattening tuple values.
@@ -1877,6 +1883,7 @@ class OrdinalToNamedConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2139,6 +2146,7 @@ class OrdinalToNumericConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, []))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
@@ -2382,6 +2390,7 @@ class OrdinalToOrdinalConverter(OrdinalConverter):
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
+					param_conversions.append((True, in_index, 0))
 					return "(NULL)"
 
 				# Convert ordinal parameter by flattening tuple values.
-- 
2.43.0


From 7a738d276c64d1f5902771096e00c43801f509f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:00 +0000
Subject: [PATCH 3/8] fix: do not bind the numeric parameter 0 to the last
 element of a sequence

Numeric styles start at 1, but ":0" (and e.g. ":00" in '12:00:00') was
looked up at index -1 and silently bound the last element.
---
 sqlparams/_converting.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1d91307..a1dbd38 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -886,6 +886,27 @@ class NumericConverter(Converter):
 		the specified number.
 		"""
 
+	@staticmethod
+	def _get_value(
+		in_params: Union[Sequence[Any], Dict[int, Any]],
+		in_index: int,
+	) -> Any:
+		"""
+		Get the value of an in-parameter.
+
+		*in_params* (:class:`~collections.abc.Sequence` or :class:`~collections.abc.Mapping`)
+		contains the in-parameters.
+
+		*in_index* (:class:`int`) is the in-index.
+
+		Returns the in-parameter value.
+		"""
+		if in_index < 0 and is_sequence(in_params):
+			# Do not count from the end of the sequence (e.g., for ":0").
+			raise IndexError(f"in-parameter index {in_index!r} out of range.")
+
+		return in_params[in_index]
+
 	def _mapping_as_sequence(
 		self,
 		in_params: Dict[Union[int, str], Any],
@@ -1021,7 +1042,7 @@ class NumericToNamedConverter(NumericConverter):
 				if expand_tuple:
 					# Tuple conversion.
 					out_names = out_name
-					values = in_params[in_index]
+					values = self._get_value(in_params, in_index)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != len(out_names):
@@ -1032,7 +1053,7 @@ class NumericToNamedConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_name] = in_params[in_index]
+					out_params[out_name] = self._get_value(in_params, in_index)
 
 			many_out_params.append(out_params)
 
@@ -1110,7 +1131,7 @@ class NumericToNamedConverter(NumericConverter):
 			in_num_str = result['param']
 			in_index = int(in_num_str) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
@@ -1277,7 +1298,7 @@ class NumericToNumericConverter(NumericConverter):
 			for expand_tuple, in_index, out_index in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_index]
+					values = self._get_value(in_params, in_index)
 					out_indices = out_index
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
@@ -1289,7 +1310,7 @@ class NumericToNumericConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params[out_index] = in_params[in_index]
+					out_params[out_index] = self._get_value(in_params, in_index)
 
 			many_out_params.append(out_params)
 
@@ -1371,7 +1392,7 @@ class NumericToNumericConverter(NumericConverter):
 			# Numeric parameter matched, return numeric out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
@@ -1537,7 +1558,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			for expand_tuple, in_index, out_count in param_conversions:
 				if expand_tuple:
 					# Tuple conversion.
-					values = in_params[in_index]
+					values = self._get_value(in_params, in_index)
 					if not isinstance(values, tuple):
 						raise TypeError(f"many_params[{i}][{in_index!r}]={values!r} was expected to be a tuple.")
 					elif len(values) != out_count:
@@ -1548,7 +1569,7 @@ class NumericToOrdinalConverter(NumericConverter):
 
 				else:
 					# Simple conversion.
-					out_params.append(in_params[in_index])
+					out_params.append(self._get_value(in_params, in_index))
 
 			many_out_params.append(out_params)
 
@@ -1627,7 +1648,7 @@ class NumericToOrdinalConverter(NumericConverter):
 			# Numeric parameter matched, return ordinal out-style parameter.
 			in_index = int(result['param']) - self._in_start
 
-			value = in_params[in_index]
+			value = self._get_value(in_params, in_index)
 			if self._expand_tuples and isinstance(value, tuple):
 				if not value:
 					# Safely expand an empty tuple.
-- 
2.43.0


From 13219ccff2bce728189babfb27fe3dcbdbb56446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:02 +0000
Subject: [PATCH 4/8] fix: raise ValueError from formatmany() when there are no
 parameters

formatmany() leaked StopIteration from an internal next() when many_params was
empty, which silently ends a surrounding iteration (e.g., in map()).
---
 sqlparams/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 4281063..2149bd2 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -4,6 +4,7 @@ parameter styles.
 """
 from __future__ import annotations
 
+import itertools
 import re
 from typing import (
 	Any,
@@ -560,11 +561,18 @@ class SQLParams(object):
 		if not _util.is_iterable(many_params):
 			raise TypeError(f"{many_params=!r} is not iterable.")
 
+		# The first set of parameters is required to convert the query.
+		iter_params = iter(many_params)
+		try:
+			first_params = next(iter_params)
+		except StopIteration:
+			raise ValueError(f"{many_params=!r} is empty.") from None
+
 		# Strip comments.
 		use_sql = self.__strip_comments_from_sql(use_sql)
 
 		# Replace in-style with out-style parameters.
-		use_sql, many_out_params = self.__converter.convert_many(use_sql, many_params)
+		use_sql, many_out_params = self.__converter.convert_many(use_sql, itertools.chain((first_params,), iter_params))
 
 		# Make sure the query is returned as the proper string type.
 		if string_type is bytes:
-- 
2.43.0


From 8b16baf0b3f0141d171ffe42320e6b86c4185043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 5/8] fix: ignore mapping keys that are digits but not decimal
 numbers

A key such as "\u00b2" is str.isdigit() but not accepted by int(), so an
unrelated key made the conversion fail instead of being ignored.
---
 sqlparams/_converting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index a1dbd38..296da88 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -922,7 +922,7 @@ class NumericConverter(Converter):
 		return {
 			int(__key) - start: __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
@@ -1685,7 +1685,7 @@ class OrdinalConverter(Converter):
 		return {
 			int(__key): __value
 			for __key, __value in in_params.items()
-			if isinstance(__key, int) or (isinstance(__key, (str, bytes)) and __key.isdigit())
+			if isinstance(__key, int) or (isinstance(__key, str) and __key.isdecimal()) or (isinstance(__key, bytes) and __key.isdigit())
 		}
 
 
-- 
2.43.0


From 5edd332373d0efee86c7ceca752d1a21a6cef98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:04 +0000
Subject: [PATCH 6/8] fix: match escape sequences before escaping out percents

With an escape character beginning with "%" and a percent out-style, the
percent was doubled and the escaped parameter was converted.
---
 sqlparams/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sqlparams/__init__.py b/sqlparams/__init__.py
index 2149bd2..0fe5592 100644
--- a/sqlparams/__init__.py
+++ b/sqlparams/__init__.py
@@ -403,14 +403,14 @@ class SQLParams(object):
 		"""
 		regex_parts = []
 
-		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
-			regex_parts.append("(?P<out_percent>%)")
-
 		if escape_char:
 			# Escaping is enabled.
 			escape = in_obj.escape_regex.format(char=re.escape(escape_char))
 			regex_parts.append(escape)
 
+		if in_obj.escape_char != "%" and out_obj.escape_char == "%":
+			regex_parts.append("(?P<out_percent>%)")
+
 		regex_parts.append(in_obj.param_regex)
 
 		return re.compile("|".join(regex_parts))
-- 
2.43.0


From 5e3df0868dc59f9cfe1fa7a8fa5f526e99d98c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:06 +0000
Subject: [PATCH 7/8] fix: do not reuse an in-parameter name for an expanded
 tuple element

When a query used both a tuple parameter and a parameter already named like one
of the generated element names, one value silently replaced the other.
---
 sqlparams/_converting.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 296da88..1726768 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -346,6 +346,10 @@ class NamedToNamedConverter(NamedConverter):
 				out_replacements = []
 				for i, sub_value in enumerate(value):
 					out_name = f"{in_name}__{i}_sqlp"
+					while (_quote_oracle_param(out_name) if self._in_style.param_quotes else out_name) in in_params:
+						# Do not share the name of another in-parameter.
+						out_name += "_"
+
 					if self._out_quotes:
 						out_name = _quote_oracle_param(out_name)
 
-- 
2.43.0


From 4c6c08153eb874f93de2baacf3a4515d096e7433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 8/8] fix: ignore mapping keys that are not strings for
 named_oracle

With in-style named_oracle, a key that is not a string (such as an int)
which comes before the wanted key made the lookup fail with TypeError or
AttributeError. For every other named style such keys are ignored.
---
 sqlparams/_converting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sqlparams/_converting.py b/sqlparams/_converting.py
index 1726768..8781fd6 100644
--- a/sqlparams/_converting.py
+++ b/sqlparams/_converting.py
@@ -2455,14 +2455,18 @@ def _quote_oracle_param(param: str) -> str:
 	return f'"{out_name}"'
 
 
-def _unquote_oracle_param(param: str) -> str:
+def _unquote_oracle_param(param: Any) -> Optional[str]:
 	"""
 	Unquote the Oracle parameter.
 
 	*param* (:class:`str`) is the in-parameter.
 
-	Returns the unquoted parameter (:class:`str`).
+	Returns the unquoted parameter (:class:`str`) if it is a string; otherwise,
+	``None``.
 	"""
+	if not isinstance(param, str):
+		return None
+
 	if len(param) > 1 and param[0] == param[-1] == '"':
 		return param[1:-1]
 	elif len(param) > 0 and (param[0] == '"' or param[-1] == '"'):
-- 
2.43.0

