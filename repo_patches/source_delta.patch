From 8162eb177f5d91be5c316659ffc279bb54704953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:54 +0000
Subject: [PATCH 01/64] fix: keep document order when merging ordered queries

Merging moved links after fields, so mutations were executed in an order
other than requested.
---
 hiku/query.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 23fe845..f163ac8 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -173,25 +173,30 @@ class Node(Base):
         return visitor.visit_node(self)
 
 
-def _merge(nodes):
+def _merge(nodes, ordered):
     fields = set()
-    links = {}
-    to_merge = OrderedDict()
+    items = []
+    to_merge = {}
     for field in chain.from_iterable(e.fields for e in nodes):
         key = (field.name, field.options_hash, field.alias)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
-                links[key] = field
+                items.append((key, field))
             else:
                 to_merge[key].append(field.node)
         else:
             if key not in fields:
                 fields.add(key)
-                yield field
-    for key, values in to_merge.items():
-        link = links[key]
-        yield link.copy(node=merge(values))
+                items.append((None, field))
+    if not ordered:
+        # fields first, then links
+        items.sort(key=lambda item: item[0] is not None)
+    for key, field in items:
+        if key is None:
+            yield field
+        else:
+            yield field.copy(node=merge(to_merge[key]))
 
 
 def merge(nodes):
@@ -202,7 +207,7 @@ def merge(nodes):
     """
     assert isinstance(nodes, Sequence), type(nodes)
     ordered = any(n.ordered for n in nodes)
-    return Node(list(_merge(nodes)), ordered=ordered)
+    return Node(list(_merge(nodes, ordered)), ordered=ordered)
 
 
 class QueryVisitor:
-- 
2.43.0


From fb171c8a88ed4df19010e7430954f77e929dece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:55 +0000
Subject: [PATCH 02/64] fix: merge selections whose alias equals their name

`{ n { x } n: n { y } }` was left unmerged, and one of the two selections
was lost in the result.
---
 hiku/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/query.py b/hiku/query.py
index f163ac8..17fc8f2 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -178,7 +178,7 @@ def _merge(nodes, ordered):
     items = []
     to_merge = {}
     for field in chain.from_iterable(e.fields for e in nodes):
-        key = (field.name, field.options_hash, field.alias)
+        key = (field.name, field.options_hash, field.result_key)
         if field.__class__ is Link:
             if key not in to_merge:
                 to_merge[key] = [field.node]
-- 
2.43.0


From 0c251c9ed014ebce3547fa59d0640f37106bde28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:09 +0000
Subject: [PATCH 03/64] fix: do not mix up data of selections with similar
 options

Options were identified by their hash, which is the same for values such as
-1 and -2, 1 and true, an empty string, list and object; data loaded with one
options was returned for the other.
---
 hiku/query.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/hiku/query.py b/hiku/query.py
index 17fc8f2..ed52db9 100644
--- a/hiku/query.py
+++ b/hiku/query.py
@@ -52,13 +52,18 @@ from .utils import cached_property
 
 
 def _compute_hash(obj):
+    # the result is used to identify options, so it should be different for
+    # different values: `hash(obj)` collides (-1 and -2) and values of different
+    # types can be equal to each other (1, 1.0 and True)
     if isinstance(obj, dict):
-        return hash(tuple((_compute_hash(k), _compute_hash(v))
-                          for k, v in sorted(obj.items())))
-    elif isinstance(obj, list):
-        return hash(tuple(_compute_hash(i) for i in obj))
+        return obj.__class__, frozenset((_compute_hash(k), _compute_hash(v))
+                                        for k, v in obj.items())
+    elif isinstance(obj, (list, tuple)):
+        return obj.__class__, tuple(_compute_hash(i) for i in obj)
+    elif isinstance(obj, (set, frozenset)):
+        return obj.__class__, frozenset(_compute_hash(i) for i in obj)
     else:
-        return hash(obj)
+        return obj.__class__, obj
 
 
 class Base:
@@ -103,7 +108,7 @@ class FieldBase(Base):
     @cached_property
     def index_key(self):
         if self.options_hash is not None:
-            return '{}[{}]'.format(self.name, self.options_hash)
+            return self.name, self.options_hash
         else:
             return self.name
 
-- 
2.43.0


From 4cd93ac813a41cc5965bd48f17f25a48e148d824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 04/64] fix: report conflicting selections which differ only in
 type of option value

`{ a: x(o: 1) a: x(o: true) }` was accepted, because 1 == True.
---
 hiku/validate/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 94477fc..19095c2 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -248,7 +248,7 @@ class _RecordFieldsValidator(QueryVisitor):
 
 
 def _field_eq(a, b):
-    return a.name == b.name and a.options == b.options
+    return a.name == b.name and a.options_hash == b.options_hash
 
 
 class QueryValidator(QueryVisitor):
-- 
2.43.0


From 4c060016631206a7c096590fd891deed5f531ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:12 +0000
Subject: [PATCH 05/64] fix: support complex fields in ordered queries

Selecting fields of a record in a mutation failed with AttributeError.
---
 hiku/engine.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/engine.py b/hiku/engine.py
index 4389dd3..0455981 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -118,6 +118,10 @@ class GroupQuery(hiku_query.QueryVisitor):
 
     def visit_link(self, obj):
         graph_obj = self._node.fields_map[obj.name]
+        if isinstance(graph_obj, Field):
+            # `obj` here is a link, but this link is treated as a complex field
+            self.visit_field(obj)
+            return
         if graph_obj.requires:
             self.visit(hiku_query.Field(graph_obj.requires))
         self._groups.append((graph_obj, obj))
-- 
2.43.0


From 0f66ed80e672c4637813668315a28ba80a42c3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 06/64] fix: respect @include directive when it is used
 together with @skip

---
 hiku/readers/graphql.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index 99732f9..f008592 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -131,7 +131,8 @@ class SelectionSetVisitMixin:
                 raise TypeError('@skip directive does not accept "{}" '
                                 'argument'
                                 .format(skip_arg.name.value))
-            return self.visit(skip_arg.value)
+            if self.visit(skip_arg.value):
+                return True
 
         include = next((d for d in obj.directives if d.name.value == 'include'),
                        None)
-- 
2.43.0


From 6856e36e1a62da57f715db09cd8ec645c9fdda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:41 +0000
Subject: [PATCH 07/64] fix: report GraphQL documents which can't be read as
 errors

Endpoints were raising exceptions for documents with syntax errors, undefined
fragments, unknown operation names and type system definitions.
---
 hiku/endpoint/graphql.py | 4 +++-
 hiku/readers/graphql.py  | 7 ++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 336af7e..929d911 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -1,6 +1,8 @@
 from abc import ABC, abstractmethod
 from asyncio import gather
 
+from graphql.error import GraphQLSyntaxError
+
 from ..graph import apply
 from ..query import QueryTransformer
 from ..validate.query import validate
@@ -35,7 +37,7 @@ def _switch_graph(data, query_graph, mutation_graph=None):
         op = read_operation(data['query'],
                             variables=data.get('variables'),
                             operation_name=data.get('operationName'))
-    except TypeError as e:
+    except (TypeError, ValueError, GraphQLSyntaxError) as e:
         raise GraphQLError(errors=[
             'Failed to read query: {}'.format(e),
         ])
diff --git a/hiku/readers/graphql.py b/hiku/readers/graphql.py
index f008592..1838f5a 100644
--- a/hiku/readers/graphql.py
+++ b/hiku/readers/graphql.py
@@ -9,10 +9,9 @@ from ..query import Node, Field, Link, merge
 class NodeVisitor:
 
     def visit(self, obj):
-        visit_method = getattr(self, 'visit_{}'.format(obj.kind))
+        visit_method = getattr(self, 'visit_{}'.format(obj.kind), None)
         if visit_method is None:
-            raise NotImplementedError('Not implemented node type: {!r}'
-                                      .format(obj))
+            raise TypeError('Not supported node type: {!r}'.format(obj))
         return visit_method(obj)
 
     def visit_document(self, obj):
@@ -223,6 +222,8 @@ class FragmentsTransformer(SelectionSetVisitMixin, NodeVisitor):
         self.pending_fragments = set()
 
     def transform_fragment(self, name):
+        if name not in self.fragments_map:
+            raise TypeError('Undefined fragment: "{}"'.format(name))
         return self.visit(self.fragments_map[name])
 
     def visit_operation_definition(self, obj):
-- 
2.43.0


From 715660ec8ff903c66cf1bb8cc253b96f43976b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 08/64] fix: decode unicode escapes in EDN strings

`dumps` writes non-ASCII characters as \uXXXX escapes, which `loads` was
reading as "uXXXX" text.
---
 hiku/edn.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ef758b6..f5436e4 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -205,6 +205,12 @@ def symbol_handler(s):
             s += c
 
 
+def _join_surrogates(value):
+    # characters outside of the BMP are escaped as pairs of surrogates
+    return (value.encode('utf-16-le', 'surrogatepass')
+            .decode('utf-16-le', 'surrogatepass'))
+
+
 @coroutine
 def parser(target, tag_handlers, stop=None):
     handler = None
@@ -238,12 +244,17 @@ def parser(target, tag_handlers, stop=None):
                 if char == '\\':
                     char = (yield)
                     char2 = _CHAR_MAP.get(char)
-                    if char2 is not None:
+                    if char == 'u':
+                        code = ''
+                        while len(code) < 4:
+                            code += (yield)
+                        chars.append(chr(int(code, 16)))
+                    elif char2 is not None:
                         chars.append(char2)
                     else:
                         chars.append(char)
                 elif char == '"':
-                    target.send(''.join(chars))
+                    target.send(_join_surrogates(''.join(chars)))
                     break
                 else:
                     chars.append(char)
-- 
2.43.0


From dd6be0b911aca740b2e74c966a11a7670c1dabd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:39 +0000
Subject: [PATCH 09/64] fix: read tagged scalars followed by a closing
 delimiter in EDN

`[#foo 1]` was failing with ValueError.
---
 hiku/edn.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index f5436e4..f5c0859 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -145,15 +145,19 @@ def tag_handler(tag_name, tag_handlers):
             break
         tag_name += c
     elements = []
-    handler = parser(appender(elements), tag_handlers)
-    handler.send(c)
-    while not elements:
-        handler.send((yield))
+    handler = parser(appender(elements), tag_handlers, single=True)
+    consumed = True
+    try:
+        handler.send(c)
+        while not elements:
+            handler.send((yield))
+    except StopIteration:
+        # element is complete, but last character doesn't belong to it
+        consumed = False
     if tag_name in tag_handlers:
-        yield tag_handlers[tag_name](elements[0]), True
+        yield tag_handlers[tag_name](elements[0]), consumed
     else:
-        yield TaggedElement(tag_name, elements[0]), True
-        yield None, True
+        yield TaggedElement(tag_name, elements[0]), consumed
 
 
 @coroutine
@@ -212,7 +216,7 @@ def _join_surrogates(value):
 
 
 @coroutine
-def parser(target, tag_handlers, stop=None):
+def parser(target, tag_handlers, stop=None, single=False):
     handler = None
     while True:
         c = (yield)
@@ -230,6 +234,8 @@ def parser(target, tag_handlers, stop=None):
                         target.send(v)
                 if consumed:
                     continue
+                if single:
+                    return
         if c == stop:
             return
         if c in STOP_CHARS:
-- 
2.43.0


From 02093f15df1126a004c395a10db7ccdddb0fdf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:40 +0000
Subject: [PATCH 10/64] fix: end EDN keywords and symbols at delimiters and
 comments

`[:a[:b]]`, `{:a"b"}` and `[:a;comment` were read as one keyword.
---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index f5c0859..86f740f 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -194,7 +194,7 @@ def number_handler(s):
 def symbol_handler(s):
     while 1:
         c = (yield)
-        if c in '}])' + STOP_CHARS:
+        if c in '}])[({";' + STOP_CHARS:
             if s[0] == ':':
                 yield Keyword(s[1:]), False
             elif s == 'true':
-- 
2.43.0


From 0e71db2f16a446e7f780b15406fee476daadc63c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 11/64] fix: read EDN symbols which start with non-alphabetic
 characters

`-` and `.` were swallowing the following delimiter, other symbols which
`dumps` is able to write were rejected.
---
 hiku/edn.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 86f740f..ac86a57 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -137,6 +137,17 @@ _END_CHARS = {
 _NIL = object()
 
 
+@coroutine
+def sign_handler(s):
+    c = (yield)
+    if c.isdigit():  # .5 should be an error
+        handler = number_handler(s)
+    else:
+        handler = symbol_handler(s)
+    while 1:
+        c = (yield handler.send(c))
+
+
 @coroutine
 def tag_handler(tag_name, tag_handlers):
     while True:
@@ -268,13 +279,9 @@ def parser(target, tag_handlers, stop=None, single=False):
             handler = character_handler()
         elif c in '0123456789':
             handler = number_handler(c)
-        elif c in '-.':
-            c2 = (yield)
-            if c2.isdigit():  # .5 should be an error
-                handler = number_handler(c + c2)
-            else:
-                handler = symbol_handler(c + c2)
-        elif c.isalpha() or c == ':':
+        elif c in '+-.':
+            handler = sign_handler(c)
+        elif c.isalpha() or c in ':*!_?$%&=<>/':
             handler = symbol_handler(c)
         elif c in '[({#':
             if c == '#':
-- 
2.43.0


From c48f3bec3e152cb26e5ebf72430e2a97f1942df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:04 +0000
Subject: [PATCH 12/64] fix: keep decimals and reject non-finite numbers in EDN

Decimals were read back as floats or integers; infinity and NaN were written as symbols.
---
 hiku/edn.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index ac86a57..f9f6026 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -1,6 +1,7 @@
 """
 Based on the code from https://github.com/gns24/pydatomic project
 """
+from math import isfinite
 from uuid import UUID
 from decimal import Decimal
 from datetime import datetime
@@ -185,7 +186,9 @@ def character_handler():
 
 
 def parse_number(s):
-    s = s.rstrip('MN').upper()
+    if s.endswith('M'):
+        return Decimal(s[:-1])
+    s = s.rstrip('N').upper()
     if 'E' not in s and '.' not in s:
         return int(s)
     return float(s)
@@ -360,8 +363,12 @@ def _iterencode(obj, default, encoder):
         yield str(int(obj))
     elif isinstance(obj, float):
         # FIXME: proper float encoding
+        if not isfinite(obj):
+            raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield str(float(obj))
     elif isinstance(obj, Decimal):
+        if not obj.is_finite():
+            raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield '{}M'.format(obj)
     elif isinstance(obj, Keyword):
         yield ':{}'.format(obj)
-- 
2.43.0


From 8c36ebe34c75e16446b1a46b009ac41c425aa48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:48 +0000
Subject: [PATCH 13/64] fix: report unknown record fields queried as links

Validation was failing with KeyError.
---
 hiku/validate/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 19095c2..1f2f260 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -232,6 +232,9 @@ class _RecordFieldsValidator(QueryVisitor):
                                 .format(obj.name))
 
     def visit_link(self, obj):
+        if obj.name not in self._field_types:
+            self._errors.report('Unknown field name "{}"'.format(obj.name))
+            return
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From be373d211d2c9e59dcafce555606c878b8770609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 14/64] fix: report options given to structured fields of
 records

Options were reported only for simple fields of records.
---
 hiku/validate/query.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index 1f2f260..a729de7 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -235,6 +235,9 @@ class _RecordFieldsValidator(QueryVisitor):
         if obj.name not in self._field_types:
             self._errors.report('Unknown field name "{}"'.format(obj.name))
             return
+        if obj.options is not None:
+            self._errors.report('Options are not expected')
+            return
         field_types = _AssumeRecord(self._data_types) \
             .visit(self._field_types[obj.name])
         if field_types is not None:
-- 
2.43.0


From 8d6a546f30d86b25817b281566bde34eff05b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:51 +0000
Subject: [PATCH 15/64] fix: reject strings given as sequences and booleans
 given as integers

Options validation relied on str being a Sequence and bool being an int.
---
 hiku/validate/query.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index a729de7..cc62965 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -124,7 +124,7 @@ class _OptionTypeValidator:
             raise _OptionTypeError(self.value, type_)
 
     def visit_integer(self, type_):
-        if not isinstance(self.value, int):
+        if not isinstance(self.value, int) or isinstance(self.value, bool):
             raise _OptionTypeError(self.value, type_)
 
     def visit_float(self, type_):
@@ -136,7 +136,10 @@ class _OptionTypeValidator:
             self.visit(type_.__type__)
 
     def visit_sequence(self, type_):
-        if not isinstance(self.value, collections_abc.Sequence):
+        if (
+            not isinstance(self.value, collections_abc.Sequence)
+            or isinstance(self.value, (str, bytes))
+        ):
             raise _OptionTypeError(self.value, type_)
         for item in self.value:
             with self.push(item):
-- 
2.43.0


From 0ce50a01091aae57aae6b746bdab61293267231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 16/64] fix: report conflicting selections of record fields

Selections with the same resulting name were checked only in nodes.
---
 hiku/validate/query.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index cc62965..f4a9317 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -247,6 +247,7 @@ class _RecordFieldsValidator(QueryVisitor):
             fields_validator = _RecordFieldsValidator(self._data_types,
                                                       field_types,
                                                       self._errors)
+            _report_conflicts(obj.node.fields, obj.name, self._errors)
             for field in obj.node.fields:
                 fields_validator.visit(field)
         else:
@@ -260,6 +261,19 @@ def _field_eq(a, b):
     return a.name == b.name and a.options_hash == b.options_hash
 
 
+def _report_conflicts(query_fields, node_name, errors):
+    fields = {}
+    for field in query_fields:
+        seen = fields.get(field.result_key)
+        if seen is not None:
+            if not _field_eq(field, seen):
+                errors.report('Found distinct fields with the same '
+                              'resulting name "{}" for the node "{}"'
+                              .format(field.result_key, node_name))
+        else:
+            fields[field.result_key] = field
+
+
 class QueryValidator(QueryVisitor):
 
     def __init__(self, graph):
@@ -294,6 +308,7 @@ class QueryValidator(QueryVisitor):
                 fields_validator = _RecordFieldsValidator(self.graph.data_types,
                                                           field_types,
                                                           self.errors)
+                _report_conflicts(obj.node.fields, obj.name, self.errors)
                 for field in obj.node.fields:
                     fields_validator.visit(field)
             else:
@@ -320,17 +335,8 @@ class QueryValidator(QueryVisitor):
             raise TypeError(repr(graph_obj))
 
     def visit_node(self, obj):
-        fields = {}
+        _report_conflicts(obj.fields, self.path[-1].name or 'root', self.errors)
         for field in obj.fields:
-            seen = fields.get(field.result_key)
-            if seen is not None:
-                if not _field_eq(field, seen):
-                    node = self.path[-1].name or 'root'
-                    self.errors.report('Found distinct fields with the same '
-                                       'resulting name "{}" for the node "{}"'
-                                       .format(field.result_key, node))
-            else:
-                fields[field.result_key] = field
             self.visit(field)
 
 
-- 
2.43.0


From 2c07c0feb8d480eeb4c3ea2e19841833be195ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 17/64] fix: use default options of fields required by links

---
 hiku/engine.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index 0455981..bb46dfd 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -27,6 +27,14 @@ def _get_options(graph_obj, query_obj):
     return dict(_yield_options(graph_obj, query_obj))
 
 
+def _required_field(graph_node, graph_link):
+    graph_field = graph_node.fields_map[graph_link.requires]
+    field = hiku_query.Field(graph_link.requires)
+    if graph_field.options:
+        field = field.copy(options=_get_options(graph_field, field))
+    return field
+
+
 class InitOptions(hiku_query.QueryTransformer):
 
     def __init__(self, graph):
@@ -44,6 +52,8 @@ class InitOptions(hiku_query.QueryTransformer):
         graph_obj = self._path[-1].fields_map[obj.name]
 
         if isinstance(graph_obj, Link):
+            if graph_obj.requires:
+                _required_field(self._path[-1], graph_obj)
             self._path.append(self._graph.nodes_map[graph_obj.node])
             try:
                 node = self.visit(obj.node)
@@ -81,7 +91,7 @@ class SplitQuery(hiku_query.QueryVisitor):
         graph_obj = self._node.fields_map[obj.name]
         if isinstance(graph_obj, Link):
             if graph_obj.requires:
-                self.visit(hiku_query.Field(graph_obj.requires))
+                self.visit(_required_field(self._node, graph_obj))
             self._links.append((graph_obj, obj))
         else:
             assert isinstance(graph_obj, Field), type(graph_obj)
@@ -123,7 +133,7 @@ class GroupQuery(hiku_query.QueryVisitor):
             self.visit_field(obj)
             return
         if graph_obj.requires:
-            self.visit(hiku_query.Field(graph_obj.requires))
+            self.visit(_required_field(self._node, graph_obj))
         self._groups.append((graph_obj, obj))
         self._funcs.append(graph_obj.func)
         self._current_func = None
@@ -173,12 +183,13 @@ def store_fields(index, node, query_fields, ids, query_result):
 
 
 def link_reqs(index, node, link, ids):
+    key = _required_field(node, link).index_key
     if node.name is not None:
         assert ids is not None
         node_idx = index[node.name]
-        return [node_idx[i][link.requires] for i in ids]
+        return [node_idx[i][key] for i in ids]
     else:
-        return index.root[link.requires]
+        return index.root[key]
 
 
 def link_ref_maybe(graph_link, ident):
-- 
2.43.0


From ed5565e495faea24dfb2e2964035da348cf0e63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 18/64] fix: use default options of low-level fields in
 expressions

---
 hiku/engine.py        |  4 ++--
 hiku/sources/graph.py | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/hiku/engine.py b/hiku/engine.py
index bb46dfd..6a6adf7 100644
--- a/hiku/engine.py
+++ b/hiku/engine.py
@@ -37,9 +37,9 @@ def _required_field(graph_node, graph_link):
 
 class InitOptions(hiku_query.QueryTransformer):
 
-    def __init__(self, graph):
+    def __init__(self, graph, node=None):
         self._graph = graph
-        self._path = [graph.root]
+        self._path = [graph.root if node is None else node]
 
     def visit_field(self, obj):
         graph_obj = self._path[-1].fields_map[obj.name]
diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index c275674..35427ca 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -5,7 +5,7 @@ from ..graph import Link, Nothing
 from ..types import TypeRef, Sequence
 from ..query import merge
 from ..types import Any
-from ..engine import Query
+from ..engine import InitOptions, Query
 from ..expr.refs import RequirementsExtractor
 from ..expr.core import to_expr, S, THIS
 from ..expr.checker import check, fn_types
@@ -113,8 +113,14 @@ class SubGraph:
                          for gf, qf in fields]
 
         this_query_link = reqs.fields_map[THIS]
-        other_reqs = query.Node([r for r in reqs.fields
-                                 if r.name != THIS])
+        this_query_link = this_query_link.copy(
+            node=InitOptions(self.graph, self.graph.nodes_map[self.node])
+            .visit(this_query_link.node)
+        )
+        other_reqs = InitOptions(self.graph).visit(
+            query.Node([r for r in reqs.fields if r.name != THIS])
+        )
+        reqs = query.Node([this_query_link] + other_reqs.fields)
 
         q = Query(queue, task_set, self.graph, reqs, ctx)
         q.process_link(self.graph.root, this_graph_link, this_query_link,
-- 
2.43.0


From da5835daa0d2fb7b99a8804c35163a804316cefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 19/64] fix: support expressions which do not use this object

---
 hiku/sources/graph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index 35427ca..5893eec 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -112,7 +112,8 @@ class SubGraph:
         option_values = [[qf.options[opt.name] for opt in gf.options]
                          for gf, qf in fields]
 
-        this_query_link = reqs.fields_map[THIS]
+        this_query_link = (reqs.fields_map.get(THIS)
+                           or query.Link(THIS, query.Node([])))
         this_query_link = this_query_link.copy(
             node=InitOptions(self.graph, self.graph.nodes_map[self.node])
             .visit(this_query_link.node)
-- 
2.43.0


From ce7108d83c678d851efb3df6d77ba7aa8a096021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:43 +0000
Subject: [PATCH 20/64] fix: keep variable of if_some expression out of its
 other parts

---
 hiku/expr/compiler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 070ba1b..9e8f3b9 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -104,6 +104,9 @@ class ExpressionCompiler:
     def visit_if_some_expr(self, node):
         _, bind, then_, else_ = node.values
         bind_sym, bind_expr = bind.values
+        # bound variable is available only in the "then"-expression
+        bind_py_expr = self.visit(bind_expr)
+        else_py_expr = self.visit(else_)
         with self.env.push([bind_sym.name]):
             none = py.NameConstant(None)
             load_bind_sym = py.Name(self.env[bind_sym.name], py.Load())
@@ -111,11 +114,11 @@ class ExpressionCompiler:
             store_bind_sym = py.Name(self.env[bind_sym.name], py.Store())
             comp = py.comprehension(
                 store_bind_sym,
-                py.Tuple([self.visit(bind_expr)], py.Load()),
+                py.Tuple([bind_py_expr], py.Load()),
                 [],
                 False,
             )
-            expr = py.IfExp(test, self.visit(then_), self.visit(else_))
+            expr = py.IfExp(test, self.visit(then_), else_py_expr)
         gen = py.GeneratorExp(expr, [comp])
         return py.Call(py.Name('next', py.Load()), [gen], [])
 
-- 
2.43.0


From 166333c730f39b996e942fe518c3b81fb81c07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 21/64] fix: keep variables of expressions apart from each
 other and from internal names

---
 hiku/expr/compiler.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/hiku/expr/compiler.py b/hiku/expr/compiler.py
index 9e8f3b9..0044667 100644
--- a/hiku/expr/compiler.py
+++ b/hiku/expr/compiler.py
@@ -1,5 +1,4 @@
 from contextlib import contextmanager
-from collections import Counter
 
 from ..types import CallableMeta
 from ..compat import ast as py
@@ -10,25 +9,36 @@ from .nodes import Symbol, Keyword
 
 class Environ:
 
-    def __init__(self):
-        self.vars = Counter()
+    def __init__(self, reserved=()):
+        self.reserved = frozenset(reserved)
+        self.vars = []
 
     def __getitem__(self, key):
-        i = self.vars[key]
-        return '{}_{}'.format(key, i) if i > 1 else key
+        for name, py_name in reversed(self.vars):
+            if name == key:
+                return py_name
+        raise KeyError(key)
 
     def __contains__(self, key):
-        return key in self.vars
+        return any(name == key for name, _ in self.vars)
+
+    def _py_name(self, name):
+        used = self.reserved.union(py_name for _, py_name in self.vars)
+        py_name, i = name, 1
+        while py_name in used:
+            i += 1
+            py_name = '{}_{}'.format(name, i)
+        return py_name
 
     @contextmanager
     def push(self, names):
+        size = len(self.vars)
         for name in names:
-            self.vars[name] += 1
+            self.vars.append((name, self._py_name(name)))
         try:
             yield
         finally:
-            for name in names:
-                self.vars[name] -= 1
+            del self.vars[size:]
 
 
 class ExpressionCompiler:
@@ -36,7 +46,8 @@ class ExpressionCompiler:
     env_var = 'env'
 
     def __init__(self):
-        self.env = Environ()
+        self.env = Environ([self.ctx_var, self.env_var, 'next',
+                            'None', 'True', 'False'])
 
     @classmethod
     def compile_expr(cls, node):
@@ -48,12 +59,13 @@ class ExpressionCompiler:
         compiler = cls()
         with compiler.env.push([THIS] + args):
             body = compiler.visit(node)
+            py_names = [compiler.env[name] for name in args]
         py_args = [
             py.arg(cls.env_var, None),
             py.arg(THIS, None),
             py.arg(cls.ctx_var, None),
         ]
-        py_args.extend(py.arg(name, None) for name in args)
+        py_args.extend(py.arg(name, None) for name in py_names)
         expr = py.Lambda(py.arguments([], py_args, None, [], [], None, []),
                          body)
         py.fix_missing_locations(expr)
-- 
2.43.0


From 25714fb6c286060a02ee35e0a7f76120e517d752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 22/64] fix: support options without type in introspection

---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 30b6b41..b91d452 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -361,7 +361,7 @@ def input_value_type_link(schema, ids):
             node = nodes_map[ident.node]
             field = node.fields_map[ident.field]
             option = field.options_map[ident.name]
-            yield type_ident.visit(option.type)
+            yield type_ident.visit(option.type or Any)
         elif isinstance(ident, InputObjectFieldIdent):
             data_type = schema.data_types[ident.name]
             field_type = data_type.__field_types__[ident.key]
-- 
2.43.0


From f5fd7e4df73024574eaa9f616d38bf6f73718ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 23/64] fix: find all types by name in introspection

---
 hiku/introspection/graphql.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index b91d452..98a410c 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -144,11 +144,17 @@ def schema_link(schema):
 
 
 def type_link(schema, options):
-    name = options['name']
-    if name in _nodes_map(schema):
-        return OBJECT(name)
+    for ident in root_schema_types(schema):
+        if _type_name(ident) == options['name']:
+            return ident
+    return Nothing
+
+
+def _type_name(ident):
+    if isinstance(ident, INPUT_OBJECT):
+        return 'IO{}'.format(ident.name)
     else:
-        return Nothing
+        return ident.name
 
 
 @listify
@@ -197,7 +203,7 @@ def type_info(schema, fields, ids):
         elif isinstance(ident, INPUT_OBJECT):
             info = {'id': ident,
                     'kind': 'INPUT_OBJECT',
-                    'name': 'IO{}'.format(ident.name),
+                    'name': _type_name(ident),
                     'description': None}
         elif isinstance(ident, NON_NULL):
             info = {'id': ident,
-- 
2.43.0


From 395ea2cff1f5f1dc5594a5b88d3c85481e644217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 24/64] fix: show default values of options as GraphQL literals
 in introspection

---
 hiku/introspection/graphql.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 98a410c..2162158 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -325,6 +325,16 @@ _arg_descriptions = {
 }
 
 
+def _literal(value):
+    if isinstance(value, dict):
+        return '{{{}}}'.format(', '.join('{}: {}'.format(k, _literal(v))
+                                         for k, v in value.items()))
+    elif isinstance(value, (list, tuple)):
+        return '[{}]'.format(', '.join(map(_literal, value)))
+    else:
+        return json.dumps(value)
+
+
 @listify
 def input_value_info(schema, fields, ids):
     nodes_map = _nodes_map(schema)
@@ -336,7 +346,7 @@ def input_value_info(schema, fields, ids):
             if option.default is Nothing:
                 default = None
             else:
-                default = json.dumps(option.default)
+                default = _literal(option.default)
             info = {'id': ident,
                     'name': option.name,
                     'description': option.description,
-- 
2.43.0


From 671775b8f4fcfbe2b60ec2e344e9e245798b5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:14 +0000
Subject: [PATCH 25/64] fix: denormalize data types nested in sequences,
 optionals and records

---
 hiku/result.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/hiku/result.py b/hiku/result.py
index 318e1c4..f551c67 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -102,21 +102,24 @@ class Proxy:
             raise AttributeError(e)
 
 
-def _denormalize_type(type_, result, query_obj):
+def _denormalize_type(data_types, type_, result, query_obj):
     if isinstance(query_obj, Field):
         return result
     elif isinstance(query_obj, Link):
+        type_ = get_type(data_types, type_)
         if isinstance(type_, SequenceMeta):
-            return [_denormalize_type(type_.__item_type__, item, query_obj)
+            return [_denormalize_type(data_types, type_.__item_type__,
+                                      item, query_obj)
                     for item in result]
         elif isinstance(type_, OptionalMeta):
-            return (_denormalize_type(type_.__type__, result, query_obj)
+            return (_denormalize_type(data_types, type_.__type__,
+                                      result, query_obj)
                     if result is not None else None)
         else:
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(field_types[f.name],
+                f.name: _denormalize_type(data_types, field_types[f.name],
                                           result[f.name], f)
                 for f in query_obj.node.fields
             }
@@ -136,8 +139,8 @@ def _denormalize(graph, graph_obj, result, query_obj):
 
     elif isinstance(query_obj, Link):
         if isinstance(graph_obj, GraphField):
-            field_type = get_type(graph.data_types, graph_obj.type)
-            return _denormalize_type(field_type, result, query_obj)
+            return _denormalize_type(graph.data_types, graph_obj.type,
+                                     result, query_obj)
 
         elif isinstance(graph_obj, GraphLink):
             graph_node = graph.nodes_map[graph_obj.node]
-- 
2.43.0


From 4a84345bcb306591dc0fb68ec72cfd6c74ad7bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:15 +0000
Subject: [PATCH 26/64] fix: respect aliases in structured fields when
 denormalizing

---
 hiku/result.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hiku/result.py b/hiku/result.py
index f551c67..97581f5 100644
--- a/hiku/result.py
+++ b/hiku/result.py
@@ -119,8 +119,9 @@ def _denormalize_type(data_types, type_, result, query_obj):
             assert isinstance(type_, RecordMeta), type(type_)
             field_types = type_.__field_types__
             return {
-                f.name: _denormalize_type(data_types, field_types[f.name],
-                                          result[f.name], f)
+                f.result_key: _denormalize_type(data_types,
+                                                field_types[f.name],
+                                                result[f.name], f)
                 for f in query_obj.node.fields
             }
     assert False, (type_, query_obj)
-- 
2.43.0


From 9c0073e31be5a701925951e8cfa04fd271a8001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 27/64] fix: denormalize inline records and nested types of
 structured fields

---
 hiku/denormalize/base.py    | 43 ++++++++++++++-----------------------
 hiku/denormalize/graphql.py | 19 ++++++++--------
 2 files changed, 25 insertions(+), 37 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index 8178bca..deefee2 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -1,7 +1,7 @@
 from collections import deque
 
 from ..query import QueryVisitor, Link, Field
-from ..types import TypeRefMeta, OptionalMeta, SequenceMeta, get_type
+from ..types import RecordMeta, OptionalMeta, SequenceMeta, get_type
 
 
 class Denormalize(QueryVisitor):
@@ -24,35 +24,24 @@ class Denormalize(QueryVisitor):
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        if isinstance(type_, TypeRefMeta):
-            self._type.append(get_type(self._types, type_))
+        value = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._visit_value(type_, value, obj)
+
+    def _visit_value(self, type_, value, obj: Link):
+        type_ = get_type(self._types, type_)
+        if isinstance(type_, SequenceMeta):
+            return [self._visit_value(type_.__item_type__, item, obj)
+                    for item in value]
+        elif isinstance(type_, OptionalMeta):
+            return (self._visit_value(type_.__type__, value, obj)
+                    if value is not None else None)
+        elif isinstance(type_, RecordMeta):
+            self._type.append(type_)
             self._res.append({})
-            self._data.append(self._data[-1][obj.result_key])
+            self._data.append(value)
             super().visit_link(obj)
             self._data.pop()
-            self._res[-1][obj.result_key] = self._res.pop()
             self._type.pop()
-        elif isinstance(type_, SequenceMeta):
-            self._type.append(get_type(self._types, type_.__item_type__))
-            items = []
-            for item in self._data[-1][obj.result_key]:
-                self._res.append({})
-                self._data.append(item)
-                super().visit_link(obj)
-                self._data.pop()
-                items.append(self._res.pop())
-            self._res[-1][obj.result_key] = items
-            self._type.pop()
-        elif isinstance(type_, OptionalMeta):
-            if self._data[-1][obj.result_key] is None:
-                self._res[-1][obj.result_key] = None
-            else:
-                self._type.append(get_type(self._types, type_.__type__))
-                self._res.append({})
-                self._data.append(self._data[-1][obj.result_key])
-                super().visit_link(obj)
-                self._data.pop()
-                self._res[-1][obj.result_key] = self._res.pop()
-                self._type.pop()
+            return self._res.pop()
         else:
             raise AssertionError(repr(type_))
diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index f3aedb5..9969fa0 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -1,7 +1,7 @@
 from collections import deque
 
 from ..query import Field, Link
-from ..types import TypeRefMeta, SequenceMeta, OptionalMeta
+from ..types import TypeRefMeta, SequenceMeta, OptionalMeta, RecordMeta
 
 from .base import Denormalize
 
@@ -20,16 +20,15 @@ class DenormalizeGraphQL(Denormalize):
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
+        while isinstance(type_, (SequenceMeta, OptionalMeta)):
+            type_ = (type_.__item_type__ if isinstance(type_, SequenceMeta)
+                     else type_.__type__)
         if isinstance(type_, TypeRefMeta):
-            type_ref = type_
-        elif isinstance(type_, SequenceMeta):
-            type_ref = type_.__item_type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
-        elif isinstance(type_, OptionalMeta):
-            type_ref = type_.__type__
-            assert isinstance(type_ref, TypeRefMeta), type_ref
+            type_name = type_.__type_name__
         else:
-            raise AssertionError(repr(type_))
-        self._type_name.append(type_ref.__type_name__)
+            # inline Record type is exposed as Any in the GraphQL schema
+            assert isinstance(type_, RecordMeta), type_
+            type_name = 'Any'
+        self._type_name.append(type_name)
         super().visit_link(obj)
         self._type_name.pop()
-- 
2.43.0


From 4d391e3f9e2eddd2b9fcbe9a7d79d040a6efedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:17 +0000
Subject: [PATCH 28/64] fix: respect aliases in structured fields in GraphQL
 responses

---
 hiku/denormalize/base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hiku/denormalize/base.py b/hiku/denormalize/base.py
index deefee2..c3f5975 100644
--- a/hiku/denormalize/base.py
+++ b/hiku/denormalize/base.py
@@ -1,6 +1,7 @@
 from collections import deque
 
 from ..query import QueryVisitor, Link, Field
+from ..result import Proxy
 from ..types import RecordMeta, OptionalMeta, SequenceMeta, get_type
 
 
@@ -19,12 +20,17 @@ class Denormalize(QueryVisitor):
         self.visit(query)
         return self._res.pop()
 
+    def _get_value(self, obj):
+        data = self._data[-1]
+        # values of structured fields do not depend on aliases in the query
+        return data[obj.result_key if isinstance(data, Proxy) else obj.name]
+
     def visit_field(self, obj: Field):
-        self._res[-1][obj.result_key] = self._data[-1][obj.result_key]
+        self._res[-1][obj.result_key] = self._get_value(obj)
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        value = self._data[-1][obj.result_key]
+        value = self._get_value(obj)
         self._res[-1][obj.result_key] = self._visit_value(type_, value, obj)
 
     def _visit_value(self, type_, value, obj: Link):
-- 
2.43.0


From 87a343e9bc93e5bbcf2e75e01d455afb7ec4e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:39 +0000
Subject: [PATCH 29/64] fix: attribute metrics of shared loaders to the right
 nodes

---
 hiku/telemetry/prometheus.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index 3cc5535..e990512 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -114,14 +114,15 @@ class GraphMetricsBase(GraphTransformer):
         else:
             func = obj.func
 
-        wrapper = self._wrappers.get(func)
+        key = (node_name, func)
+        wrapper = self._wrappers.get(key)
         if wrapper is None:
             if isinstance(obj.func, CheckedExpr):
-                wrapper = self._wrappers[func] = self._wrap_subquery(
+                wrapper = self._wrappers[key] = self._wrap_subquery(
                     node_name, func,
                 )
             else:
-                wrapper = self._wrappers[func] = self._wrap_field(
+                wrapper = self._wrappers[key] = self._wrap_field(
                     node_name, func,
                 )
 
-- 
2.43.0


From 8789c67fdbb882c42bcc766fa119ceb69ed2ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:40 +0000
Subject: [PATCH 30/64] fix: wait for all loaders when execution is cancelled

---
 hiku/executors/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/executors/asyncio.py b/hiku/executors/asyncio.py
index 6f47295..b1302a5 100644
--- a/hiku/executors/asyncio.py
+++ b/hiku/executors/asyncio.py
@@ -26,5 +26,5 @@ class AsyncIOExecutor:
         except CancelledError:
             for task in queue.__futures__:
                 task.cancel()
-            await gather(*queue.__futures__)
+            await gather(*queue.__futures__, return_exceptions=True)
             raise
-- 
2.43.0


From 0685adaa663e2bd014cbe2925fb40fdda5998445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 31/64] fix: read nested option values as plain lists and
 mappings in simple queries

---
 hiku/readers/simple.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/hiku/readers/simple.py b/hiku/readers/simple.py
index 81282f5..1f89841 100644
--- a/hiku/readers/simple.py
+++ b/hiku/readers/simple.py
@@ -5,10 +5,22 @@
     Support for queries encoded using EDN format
 
 """
-from ..edn import loads, Dict, List, Keyword, Tuple
+from ..edn import loads, Dict, List, Keyword, Tuple, Set
 from ..query import Node, Link, Field, merge
 
 
+def _decode(value):
+    if isinstance(value, List):
+        return [_decode(val) for val in value]
+    elif isinstance(value, Dict):
+        return {str(key) if isinstance(key, Keyword) else key: _decode(val)
+                for key, val in value.items()}
+    elif isinstance(value, Set):
+        return set(value)
+    else:
+        return value
+
+
 def _get_options(value):
     if len(value) < 2:
         raise TypeError('Missing options argument')
@@ -32,7 +44,7 @@ def _get_options(value):
                         .format(keys_repr))
 
     name = str(keyword_value)
-    options = {str(k): v for k, v in options_value.items()}
+    options = {str(k): _decode(v) for k, v in options_value.items()}
     return name, options
 
 
-- 
2.43.0


From 1432bfa59e0894d650665bc806b162bd919b8f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 32/64] fix: report __typename used with selections or options
 as an error

---
 hiku/endpoint/graphql.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 929d911..a7e452e 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -4,7 +4,7 @@ from asyncio import gather
 from graphql.error import GraphQLSyntaxError
 
 from ..graph import apply
-from ..query import QueryTransformer
+from ..query import Field, QueryTransformer
 from ..validate.query import validate
 from ..readers.graphql import read_operation, OperationType
 from ..denormalize.graphql import DenormalizeGraphQL
@@ -25,11 +25,17 @@ class GraphQLError(Exception):
         self.errors = errors
 
 
+def _is_type_name(field):
+    # the rest should be reported by validation
+    return (isinstance(field, Field) and field.name == '__typename'
+            and not field.options)
+
+
 class _StripQuery(QueryTransformer):
 
     def visit_node(self, obj):
         return obj.copy(fields=[self.visit(f) for f in obj.fields
-                                if f.name != '__typename'])
+                                if not _is_type_name(f)])
 
 
 def _switch_graph(data, query_graph, mutation_graph=None):
-- 
2.43.0


From 51feb45879e9bce8c77d8627d31d035dccb5b585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:19 +0000
Subject: [PATCH 33/64] fix: report fields which conflict with __typename

---
 hiku/endpoint/graphql.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index a7e452e..7843095 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -33,7 +33,16 @@ def _is_type_name(field):
 
 class _StripQuery(QueryTransformer):
 
+    def __init__(self):
+        self.errors = []
+
     def visit_node(self, obj):
+        type_name_keys = set(f.result_key for f in obj.fields
+                             if _is_type_name(f))
+        for f in obj.fields:
+            if f.result_key in type_name_keys and not _is_type_name(f):
+                self.errors.append('Found distinct fields with the same '
+                                   'resulting name "{}"'.format(f.result_key))
         return obj.copy(fields=[self.visit(f) for f in obj.fields
                                 if not _is_type_name(f)])
 
@@ -59,8 +68,9 @@ def _switch_graph(data, query_graph, mutation_graph=None):
 
 
 def _process_query(graph, query):
-    stripped_query = _StripQuery().visit(query)
-    errors = validate(graph, stripped_query)
+    strip_query = _StripQuery()
+    stripped_query = strip_query.visit(query)
+    errors = strip_query.errors + validate(graph, stripped_query)
     if errors:
         raise GraphQLError(errors=errors)
     else:
-- 
2.43.0


From 106d60ebecf4a3769ade6e963e24fc3cb79c6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 34/64] fix: reject links which require other links

---
 hiku/validate/graph.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index 1ed5f2b..b58e102 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -103,11 +103,18 @@ class GraphValidator(GraphVisitor):
             )
 
         if obj.requires is not None:
-            if obj.requires not in self.ctx.fields_map:
+            required = self.ctx.fields_map.get(obj.requires)
+            if required is None:
                 self.errors.report(
                     'Link "{}" requires missing field "{}" in the "{}" node'
                     .format(obj.name, obj.requires, self._format_path())
                 )
+            elif not isinstance(required, AbstractField):
+                self.errors.report(
+                    'Link "{}" requires "{}" in the "{}" node, '
+                    'which is not a field'
+                    .format(obj.name, obj.requires, self._format_path())
+                )
 
     def visit_node(self, obj):
         node_name = obj.name or 'root'
-- 
2.43.0


From ddcf23bc5711f8e1e36a1e8da4a9dee291f33a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:21 +0000
Subject: [PATCH 35/64] fix: reject invalid types provided as field options

---
 hiku/validate/graph.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hiku/validate/graph.py b/hiku/validate/graph.py
index b58e102..7e2d4e4 100644
--- a/hiku/validate/graph.py
+++ b/hiku/validate/graph.py
@@ -82,6 +82,15 @@ class GraphValidator(GraphVisitor):
         # TODO: check option default value according to the option type
         pass
 
+    def visit_field(self, obj):
+        invalid = [f for f in obj.options
+                   if not isinstance(f, self._link_accept_types)]
+        if invalid:
+            self.errors.report(
+                'Invalid types provided as field "{}" options: {}'
+                .format(self._format_path(obj), self._format_types(invalid))
+            )
+
     def visit_link(self, obj):
         invalid = [f for f in obj.options
                    if not isinstance(f, self._link_accept_types)]
-- 
2.43.0


From de8f1197c2f8da52a188c1a678ad0bbf37c4bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:45 +0000
Subject: [PATCH 36/64] fix: accept queries to records inside of nested
 optional and sequence types

---
 hiku/validate/query.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/hiku/validate/query.py b/hiku/validate/query.py
index f4a9317..20df2e4 100644
--- a/hiku/validate/query.py
+++ b/hiku/validate/query.py
@@ -13,12 +13,8 @@ _undefined = object()
 
 class _AssumeRecord(AbstractTypeVisitor):
 
-    def __init__(self, data_types, _nested=False):
+    def __init__(self, data_types):
         self._data_types = data_types
-        self._nested = _nested
-
-    def _get_nested(self):
-        return _AssumeRecord(self._data_types, _nested=True)
 
     def visit(self, obj):
         if obj is not None:
@@ -36,12 +32,10 @@ class _AssumeRecord(AbstractTypeVisitor):
     visit_callable = _false
 
     def visit_optional(self, obj):
-        if not self._nested:
-            return self._get_nested().visit(obj.__type__)
+        return self.visit(obj.__type__)
 
     def visit_sequence(self, obj):
-        if not self._nested:
-            return self._get_nested().visit(obj.__item_type__)
+        return self.visit(obj.__item_type__)
 
     def visit_record(self, obj):
         # return fields alongside type definitions
-- 
2.43.0


From f1ec3213621b5a0352be7ba76ff3f72930006d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:52 +0000
Subject: [PATCH 37/64] fix: reject EDN keywords, symbols and tags which can't
 be read back

---
 hiku/edn.py | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index f9f6026..d141c2b 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -111,6 +111,8 @@ def inst_handler(time_string):
 TAG_HANDLERS = {'inst': inst_handler, 'uuid': UUID}
 
 STOP_CHARS = " ,\n\r\t"
+NAME_END_CHARS = '}])[({";' + STOP_CHARS
+TAG_END_CHARS = '{"[(\\#' + STOP_CHARS
 
 _CHAR_HANDLERS = {
     'newline': '\n',
@@ -153,7 +155,7 @@ def sign_handler(s):
 def tag_handler(tag_name, tag_handlers):
     while True:
         c = (yield)
-        if c in STOP_CHARS + '{"[(\\#':
+        if c in TAG_END_CHARS:
             break
         tag_name += c
     elements = []
@@ -208,7 +210,7 @@ def number_handler(s):
 def symbol_handler(s):
     while 1:
         c = (yield)
-        if c in '}])[({";' + STOP_CHARS:
+        if c in NAME_END_CHARS:
             if s[0] == ':':
                 yield Keyword(s[1:]), False
             elif s == 'true':
@@ -352,6 +354,27 @@ def _default(obj):
     raise ValueError('{!r} is not EDN serializable'.format(obj))
 
 
+def _is_name(name, end_chars):
+    return not any(c in end_chars for c in name)
+
+
+def _is_keyword(name):
+    return _is_name(name, NAME_END_CHARS)
+
+
+def _is_symbol(name):
+    return (
+        name not in ('', 'nil', 'true', 'false')
+        and (name[0].isalpha() or name[0] in '*!_?$%&=<>/+-.')
+        and not (name[0] in '+-.' and name[1:2].isdigit())
+        and _is_name(name, NAME_END_CHARS)
+    )
+
+
+def _is_tag(name):
+    return name != '' and _is_name(name, TAG_END_CHARS)
+
+
 def _iterencode(obj, default, encoder):
     if obj is None:
         yield 'nil'
@@ -371,8 +394,12 @@ def _iterencode(obj, default, encoder):
             raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield '{}M'.format(obj)
     elif isinstance(obj, Keyword):
+        if not _is_keyword(obj):
+            raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield ':{}'.format(obj)
     elif isinstance(obj, Symbol):
+        if not _is_symbol(obj):
+            raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield obj
     elif isinstance(obj, str):
         yield encoder(obj)
@@ -406,6 +433,8 @@ def _iterencode(obj, default, encoder):
     elif isinstance(obj, UUID):
         yield '#uuid "{}"'.format(obj)
     elif isinstance(obj, TaggedElement):
+        if not _is_tag(obj.name):
+            raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield '#{} '.format(obj.name)
         for chunk in _iterencode(obj.value, _default, encoder):
             yield chunk
-- 
2.43.0


From 24ad9989e33037a3419a0e03639e921813232c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:54 +0000
Subject: [PATCH 38/64] fix: keep types of mapping keys when exporting queries
 to EDN

---
 hiku/export/simple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/export/simple.py b/hiku/export/simple.py
index b877302..e20ee7a 100644
--- a/hiku/export/simple.py
+++ b/hiku/export/simple.py
@@ -10,7 +10,8 @@ def _encode(value):
     elif isinstance(value, list):
         return List(_encode(val) for val in value)
     elif isinstance(value, dict):
-        return Dict((Keyword(key), _encode(val)) for key, val in value.items())
+        return Dict((Keyword(key) if isinstance(key, str) else _encode(key),
+                     _encode(val)) for key, val in value.items())
     elif isinstance(value, (set, frozenset)):
         return Set(_encode(val) for val in value)
     else:
-- 
2.43.0


From 1a57e69ca7dca0ce911134b7a606a699912f9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 39/64] fix: reject names and numbers which GraphQL can't
 represent when exporting queries

---
 hiku/export/graphql.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/hiku/export/graphql.py b/hiku/export/graphql.py
index f91383c..fc79aec 100644
--- a/hiku/export/graphql.py
+++ b/hiku/export/graphql.py
@@ -1,10 +1,19 @@
+import re
+
+from math import isfinite
+
 from graphql.language import ast
 
 from ..query import QueryVisitor, Field
 
 
+_NAME_RE = re.compile(r'[_A-Za-z][_0-9A-Za-z]*')
+
+
 def _name(value):
-    return ast.NameNode(value=value) if value is not None else None
+    if not isinstance(value, str) or not _NAME_RE.fullmatch(value):
+        raise ValueError('Invalid GraphQL name: {!r}'.format(value))
+    return ast.NameNode(value=value)
 
 
 def _encode(value):
@@ -15,6 +24,8 @@ def _encode(value):
     elif isinstance(value, int):
         return ast.IntValueNode(value=str(value))
     elif isinstance(value, float):
+        if not isfinite(value):
+            raise ValueError('Unsupported value: {!r}'.format(value))
         return ast.FloatValueNode(value=str(value))
     elif isinstance(value, str):
         return ast.StringValueNode(value=value)
@@ -38,7 +49,7 @@ class Exporter(QueryVisitor):
                          for key, val in obj.options.items()]
         return ast.FieldNode(
             name=_name(obj.name),
-            alias=_name(obj.alias),
+            alias=_name(obj.alias) if obj.alias is not None else None,
             arguments=arguments,
         )
 
@@ -49,7 +60,7 @@ class Exporter(QueryVisitor):
                          for key, val in obj.options.items()]
         return ast.FieldNode(
             name=_name(obj.name),
-            alias=_name(obj.alias),
+            alias=_name(obj.alias) if obj.alias is not None else None,
             arguments=arguments,
             selection_set=self.visit(obj.node),
         )
-- 
2.43.0


From 60d54e1c9c1d454617c7fd6772530c0615b2c7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 40/64] fix: reject numbers which Protocol Buffers can't
 represent when exporting queries

---
 hiku/export/protobuf.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/hiku/export/protobuf.py b/hiku/export/protobuf.py
index a59ed79..c4fd8fc 100644
--- a/hiku/export/protobuf.py
+++ b/hiku/export/protobuf.py
@@ -1,9 +1,32 @@
+from math import isfinite
+
 from google.protobuf.json_format import ParseDict
 
 from ..query import QueryVisitor
 from ..protobuf import query_pb2
 
 
+def _check_numbers(value):
+    # all numbers are represented as doubles
+    if isinstance(value, dict):
+        for val in value.values():
+            _check_numbers(val)
+    elif isinstance(value, list):
+        for val in value:
+            _check_numbers(val)
+    elif isinstance(value, float):
+        if not isfinite(value):
+            raise ValueError('Unsupported value: {!r}'.format(value))
+    elif isinstance(value, int):
+        if int(float(value)) != value:
+            raise ValueError('Unsupported value: {!r}'.format(value))
+
+
+def _export_options(options, message):
+    _check_numbers(options)
+    ParseDict(options, message)
+
+
 class Exporter(QueryVisitor):
 
     def __init__(self, node):
@@ -13,13 +36,13 @@ class Exporter(QueryVisitor):
         field = self.stack[-1].items.add().field
         field.name = obj.name
         if obj.options is not None:
-            ParseDict(obj.options, field.options)
+            _export_options(obj.options, field.options)
 
     def visit_link(self, obj):
         link = self.stack[-1].items.add().link
         link.name = obj.name
         if obj.options is not None:
-            ParseDict(obj.options, link.options)
+            _export_options(obj.options, link.options)
         self.stack.append(link.node)
         try:
             self.visit(obj.node)
-- 
2.43.0


From ddbaba33d9eaffa6c61d05714d2b153839ab4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 41/64] fix: reject EDN text with incomplete elements

---
 hiku/edn.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index d141c2b..67b6f5c 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -112,7 +112,7 @@ TAG_HANDLERS = {'inst': inst_handler, 'uuid': UUID}
 
 STOP_CHARS = " ,\n\r\t"
 NAME_END_CHARS = '}])[({";' + STOP_CHARS
-TAG_END_CHARS = '{"[(\\#' + STOP_CHARS
+TAG_END_CHARS = '\\#' + NAME_END_CHARS
 
 _CHAR_HANDLERS = {
     'newline': '\n',
@@ -177,6 +177,8 @@ def tag_handler(tag_name, tag_handlers):
 @coroutine
 def character_handler():
     r = (yield)
+    if r.isspace():
+        raise ValueError("Unexpected character in edn", r)
     while 1:
         c = (yield)
         if not c.isalpha():
@@ -292,6 +294,8 @@ def parser(target, tag_handlers, stop=None, single=False):
             if c == '#':
                 c2 = (yield)
                 if c2 != '{':
+                    if c2 in TAG_END_CHARS:
+                        raise ValueError("Unexpected character in edn", c2)
                     handler = tag_handler(c2, tag_handlers)
                     continue
             end_char = _END_CHARS[c]
@@ -323,13 +327,15 @@ def loads(s, tag_handlers=None):
                         .format(type(s).__name__))
     lst = []
     target = parser(appender(lst), dict(tag_handlers or (), **TAG_HANDLERS))
-    for c in s:
+    # enclosing vector is closed only if all elements are complete
+    for c in chain('[', s, '\n'):
         target.send(c)
-    target.send(' ')
-    if len(lst) != 1:
+    closed = bool(lst)
+    target.send(']')
+    if closed or not lst or len(lst[0]) != 1:
         raise ValueError("Expected exactly one top-level element "
                          "in edn string", s)
-    return lst[0]
+    return lst[0][0]
 
 
 def _iterencode_items(items, default, encoder):
-- 
2.43.0


From 92a7e18bbf2ddcad0ec3424fc1b7f80b1bb1f4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 42/64] fix: add introspection to graphs with several root
 definitions

---
 hiku/introspection/graphql.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 2162158..4dee632 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -663,15 +663,11 @@ class GraphQLIntrospection(GraphTransformer):
         node.fields.append(self.__type_name__(obj.name))
         return node
 
-    def visit_root(self, obj):
-        root = super(GraphQLIntrospection, self).visit_root(obj)
-        root.fields.append(self.__type_name__(QUERY_ROOT_NAME))
-        return root
-
     def visit_graph(self, obj):
         ValidateGraph.validate(obj)
         introspection_graph = self.__introspection_graph__()
         items = [self.visit(node) for node in obj.items]
+        items.append(Root([self.__type_name__(QUERY_ROOT_NAME)]))
         items.extend(introspection_graph.items)
         return Graph(items, data_types=obj.data_types)
 
-- 
2.43.0


From 3ac2b9a2d1d4978e6b79e89111a2dd175f3bc174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:26 +0000
Subject: [PATCH 43/64] fix: support fields named "obj" in expressions

---
 hiku/expr/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hiku/expr/core.py b/hiku/expr/core.py
index 3093ce0..d25aab4 100644
--- a/hiku/expr/core.py
+++ b/hiku/expr/core.py
@@ -25,13 +25,13 @@ _Func = namedtuple('__func__', 'expr, args')
 class _DotHandler:
 
     def __init__(self, obj):
-        self.obj = obj
+        self.__obj__ = obj
 
     def __repr__(self):
-        return repr(self.obj)
+        return repr(self.__obj__)
 
     def __getattr__(self, name):
-        return _DotHandler(Tuple([Symbol('get'), self.obj, Symbol(name)]))
+        return _DotHandler(Tuple([Symbol('get'), self.__obj__, Symbol(name)]))
 
 
 class _S:
@@ -47,7 +47,7 @@ S = _S()
 
 def _to_expr(obj, fn_reg):
     if isinstance(obj, _DotHandler):
-        return obj.obj
+        return obj.__obj__
     elif isinstance(obj, _Func):
         fn_reg.add(obj.expr)
         return Tuple([Symbol(obj.expr.__def_name__)] +
-- 
2.43.0


From a6a66cf842dbc98fa7121e685471ad504e4d5ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 44/64] fix: support nested optional and sequence types in
 expressions

---
 hiku/expr/refs.py | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/hiku/expr/refs.py b/hiku/expr/refs.py
index 50fd0be..bf63415 100644
--- a/hiku/expr/refs.py
+++ b/hiku/expr/refs.py
@@ -47,8 +47,11 @@ def ref_to_req(types, ref, add_req=None):
         return add_req
 
     ref_type = get_type(types, ref.to)
-    if isinstance(ref_type, OptionalMeta):
-        ref_type = get_type(types, ref_type.__type__)
+    while isinstance(ref_type, (OptionalMeta, SequenceMeta)):
+        if isinstance(ref_type, OptionalMeta):
+            ref_type = get_type(types, ref_type.__type__)
+        else:
+            ref_type = get_type(types, ref_type.__item_type__)
 
     if isinstance(ref_type, RecordMeta):
         if isinstance(ref, NamedRef):
@@ -58,20 +61,6 @@ def ref_to_req(types, ref, add_req=None):
         else:
             return ref_to_req(types, ref.backref, add_req)
 
-    elif isinstance(ref_type, SequenceMeta):
-        item_type = get_type(types, ref_type.__item_type__)
-        if isinstance(item_type, RecordMeta):
-            assert isinstance(ref, NamedRef), type(ref)
-            node = Node([]) if add_req is None else add_req
-            return ref_to_req(types, ref.backref,
-                              Node([Link(ref.name, node)]))
-        else:
-            assert not isinstance(item_type, _CONTAINER_TYPES), ref_type
-            assert isinstance(ref, NamedRef), type(ref)
-            assert add_req is None, repr(add_req)
-            return ref_to_req(types, ref.backref,
-                              Node([Field(ref.name)]))
-
     elif isinstance(ref_type, GenericMeta):
         assert not isinstance(ref_type, _CONTAINER_TYPES), ref_type
         assert add_req is None, repr(add_req)
-- 
2.43.0


From 59b2790f691b3814d95e716df98afd90c9ad09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:23 +0000
Subject: [PATCH 45/64] fix: require links as links in expressions with untyped
 function arguments

---
 hiku/sources/graph.py | 40 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/hiku/sources/graph.py b/hiku/sources/graph.py
index 5893eec..1d175b3 100644
--- a/hiku/sources/graph.py
+++ b/hiku/sources/graph.py
@@ -32,6 +32,45 @@ def _yield_options(query_field, graph_field):
             yield value
 
 
+class _LinkFields(query.QueryTransformer):
+    """Requires links as links, even if type of their values is not specified
+    in the function's arguments
+    """
+    def __init__(self, sub_graph):
+        self._graph = sub_graph.graph
+        self._this = self._graph.nodes_map[sub_graph.node]
+        self._path = []
+
+    def extend(self, reqs):
+        fields = []
+        for obj in reqs.fields:
+            if obj.name == THIS:
+                self._path.append(self._this)
+                fields.append(obj.copy(node=self.visit(obj.node)))
+            else:
+                self._path.append(self._graph.root)
+                fields.append(self.visit(obj))
+            self._path.pop()
+        return merge([query.Node(fields)])
+
+    def visit_field(self, obj):
+        graph_obj = self._path[-1].fields_map[obj.name]
+        if isinstance(graph_obj, Link):
+            return query.Link(obj.name, query.Node([]))
+        else:
+            return obj
+
+    def visit_link(self, obj):
+        graph_obj = self._path[-1].fields_map[obj.name]
+        if not isinstance(graph_obj, Link):
+            return obj
+        self._path.append(self._graph.nodes_map[graph_obj.node])
+        try:
+            return super(_LinkFields, self).visit_link(obj)
+        finally:
+            self._path.pop()
+
+
 class BoundExpr:
 
     def __init__(self, sub_graph, expr):
@@ -57,6 +96,7 @@ class BoundExpr:
         reqs = RequirementsExtractor.extract(self.sub_graph.types, expr)
         reqs = query.Node([f for f in reqs.fields
                            if f.name not in option_names_set])
+        reqs = _LinkFields(self.sub_graph).extend(reqs)
 
         option_names = [opt.name for opt in field.options]
         code = ExpressionCompiler.compile_lambda_expr(expr, option_names)
-- 
2.43.0


From 8af9737c608b124ffc42dace31fcea710a98c42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 46/64] fix: do not link objects to nulls in SQLAlchemy sources

---
 hiku/sources/sqlalchemy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hiku/sources/sqlalchemy.py b/hiku/sources/sqlalchemy.py
index d3c53fa..d33343f 100644
--- a/hiku/sources/sqlalchemy.py
+++ b/hiku/sources/sqlalchemy.py
@@ -84,7 +84,8 @@ class FieldsQuery:
 
 
 def _to_maybe_mapper(pairs, values):
-    mapping = dict(pairs)
+    mapping = {from_value: to_value for from_value, to_value in pairs
+               if to_value is not None}
     return [mapping.get(value, Nothing) for value in values]
 
 
@@ -96,7 +97,8 @@ def _to_one_mapper(pairs, values):
 def _to_many_mapper(pairs, values):
     mapping = defaultdict(list)
     for from_value, to_value in pairs:
-        mapping[from_value].append(to_value)
+        if to_value is not None:
+            mapping[from_value].append(to_value)
     return [mapping[value] for value in values]
 
 
-- 
2.43.0


From f057c6ec84d8cee25e139e788728d60817302b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:46 +0000
Subject: [PATCH 47/64] fix: record one observation for a field requested
 several times in one call

---
 hiku/telemetry/prometheus.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/hiku/telemetry/prometheus.py b/hiku/telemetry/prometheus.py
index e990512..dca1c19 100644
--- a/hiku/telemetry/prometheus.py
+++ b/hiku/telemetry/prometheus.py
@@ -23,17 +23,23 @@ def _get_default_metric():
     return _METRIC
 
 
+def _unique(names):
+    # one field can be requested several times: with different options or when
+    # it is also required by a link
+    return list(dict.fromkeys(names))
+
+
 def _func_field_names(func):
     fields_pos = 1 if _do_pass_context(func) else 0
 
     def wrapper(*args):
-        return func([f.name for f in args[fields_pos]], *args)
+        return func(_unique(f.name for f in args[fields_pos]), *args)
     return wrapper
 
 
 def _subquery_field_names(func):
     def wrapper(fields, *args):
-        return func([f.name for _, f in fields], fields, *args)
+        return func(_unique(f.name for _, f in fields), fields, *args)
     return wrapper
 
 
-- 
2.43.0


From d4bdb5b1804b6d87b72b5924b4fcf8ca734e04e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:44 +0000
Subject: [PATCH 48/64] fix: report GraphQL syntax errors which graphql-core
 can't show

---
 hiku/endpoint/graphql.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/hiku/endpoint/graphql.py b/hiku/endpoint/graphql.py
index 7843095..97b567a 100644
--- a/hiku/endpoint/graphql.py
+++ b/hiku/endpoint/graphql.py
@@ -47,6 +47,15 @@ class _StripQuery(QueryTransformer):
                                 if not _is_type_name(f)])
 
 
+def _error_text(err):
+    try:
+        return str(err)
+    except IndexError:
+        # graphql-core fails to show location of the error in a text
+        # with unusual line separators
+        return err.message
+
+
 def _switch_graph(data, query_graph, mutation_graph=None):
     try:
         op = read_operation(data['query'],
@@ -54,7 +63,7 @@ def _switch_graph(data, query_graph, mutation_graph=None):
                             operation_name=data.get('operationName'))
     except (TypeError, ValueError, GraphQLSyntaxError) as e:
         raise GraphQLError(errors=[
-            'Failed to read query: {}'.format(e),
+            'Failed to read query: {}'.format(_error_text(e)),
         ])
     if op.type is OperationType.QUERY:
         graph = query_graph
-- 
2.43.0


From 202d8ce22d1e0fd3704c516a453bf7392473fbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:08 +0000
Subject: [PATCH 49/64] fix: answer console requests with PATH_INFO omitted

---
 hiku/console/ui.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 145405f..52b6169 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -54,7 +54,7 @@ class ConsoleApplication:
         self._docs_content = dumps_typedef(root)
 
     def __call__(self, environ, start_response):
-        path_info = environ['PATH_INFO'] or '/'
+        path_info = environ.get('PATH_INFO') or '/'
 
         if path_info == self._urls['index_url']:
             if environ['REQUEST_METHOD'] == 'GET':
-- 
2.43.0


From dfbfb986a380b41b6009975d2ae61bf50f8c6a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 50/64] fix: respond with an error to console requests with
 invalid content length

---
 hiku/console/ui.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 52b6169..11cec73 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -107,7 +107,10 @@ class ConsoleApplication:
         return [content]
 
     def _index_post(self, environ, start_response):
-        limit = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        try:
+            limit = max(0, int(environ.get('CONTENT_LENGTH') or 0))
+        except ValueError:
+            return self._error(400, start_response, 'Invalid content length')
         if limit > 2 ** 20:  # 1MB
             return self._error(400, start_response, 'Payload is too big')
 
-- 
2.43.0


From a14c7e26bf567fdec1660a4fc54630406748f3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 51/64] fix: report results which can't be encoded to JSON as
 errors in the console

---
 hiku/console/ui.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hiku/console/ui.py b/hiku/console/ui.py
index 11cec73..443b033 100644
--- a/hiku/console/ui.py
+++ b/hiku/console/ui.py
@@ -127,11 +127,11 @@ class ConsoleApplication:
                 result = self.engine.execute(self.root, query, ctx=self.ctx)
                 result = denormalize(self.root, result)
                 status = '200 OK'
+            result_data = _encode(json.dumps(result))
         except Exception:
             tb = traceback.format_exc() if self.debug else None
-            result = {'traceback': tb}
+            result_data = _encode(json.dumps({'traceback': tb}))
             status = '500 Internal Server Error'
-        result_data = _encode(json.dumps(result))
         start_response(status, [
             ('Content-Type', 'application/json'),
             ('Content-Length', str(len(result_data))),
-- 
2.43.0


From 96573dbbd1d0aebbce13b5aaf037e009e4336d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:33 +0000
Subject: [PATCH 52/64] fix: allow fields and options of Mapping type in
 expressions

---
 hiku/expr/refs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hiku/expr/refs.py b/hiku/expr/refs.py
index bf63415..5b81e87 100644
--- a/hiku/expr/refs.py
+++ b/hiku/expr/refs.py
@@ -1,5 +1,5 @@
 from ..query import Node, Link, Field, merge
-from ..types import GenericMeta, RecordMeta, SequenceMeta, MappingMeta
+from ..types import GenericMeta, RecordMeta, SequenceMeta
 from ..types import OptionalMeta, get_type
 
 from .nodes import NodeVisitor
@@ -9,7 +9,6 @@ from .nodes import NodeVisitor
 _CONTAINER_TYPES = (
     OptionalMeta,
     SequenceMeta,
-    MappingMeta,
     RecordMeta,
 )
 
-- 
2.43.0


From aafd23020dc94739c7f7976426af0231f0c6609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:42 +0000
Subject: [PATCH 53/64] fix: leave fields of unknown type out of kinko
 definitions regardless of their description

---
 hiku/typedef/kinko.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hiku/typedef/kinko.py b/hiku/typedef/kinko.py
index 02c3c6e..0fd2c99 100644
--- a/hiku/typedef/kinko.py
+++ b/hiku/typedef/kinko.py
@@ -30,7 +30,10 @@ class GraphTypesEx(GraphTypes):
 
     def visit(self, obj):
         t = super(GraphTypesEx, self).visit(obj)
-        if isinstance(t, GenericMeta) and obj.description is not None:
+        if (
+            isinstance(t, GenericMeta) and t is not Any
+            and obj.description is not None
+        ):
             t = TypeDoc(t, obj.description)
         return t
 
-- 
2.43.0


From f8cfe6c4c18e80b2f6769636130db07446e66d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:44 +0000
Subject: [PATCH 54/64] fix: keep a description of several lines within its
 comment in kinko definitions

---
 hiku/typedef/kinko.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/typedef/kinko.py b/hiku/typedef/kinko.py
index 0fd2c99..5aa9d09 100644
--- a/hiku/typedef/kinko.py
+++ b/hiku/typedef/kinko.py
@@ -115,7 +115,8 @@ class _IndentedPrinter:
     def _iter_lines(self):
         for i, line in enumerate(self._buffer):
             if i in self._descriptions:
-                yield line + '  ; {}'.format(self._descriptions[i])
+                description = ' '.join(self._descriptions[i].splitlines())
+                yield line + '  ; {}'.format(description)
             else:
                 yield line
 
-- 
2.43.0


From eab72bc853ff970f845425c1c6d0d946cd25c5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:46 +0000
Subject: [PATCH 55/64] fix: refuse to encode EDN symbols named nil, true,
 false or nothing

The check compared a Symbol with strings, and they are never equal, so
Symbol('nil') was written as nil and read back as None.
---
 hiku/edn.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index 67b6f5c..f09b991 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -369,6 +369,7 @@ def _is_keyword(name):
 
 
 def _is_symbol(name):
+    name = str(name)  # symbols are not equal to strings
     return (
         name not in ('', 'nil', 'true', 'false')
         and (name[0].isalpha() or name[0] in '*!_?$%&=<>/+-.')
-- 
2.43.0


From 1fa6ca900c20bac5e97bd7aec733db5124bec9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:48 +0000
Subject: [PATCH 56/64] fix: EDN symbols and keywords differ from strings of
 the same text

They inherited != from str, so Keyword('a') was neither equal to 'a' nor
different from it.
---
 hiku/edn.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index f09b991..c4c1ffd 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -34,6 +34,9 @@ class Symbol(str):
         return isinstance(other, type(self)) and \
             super(Symbol, self).__eq__(other)
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return super(Symbol, self).__hash__()
 
@@ -47,6 +50,9 @@ class Keyword(str):
         return isinstance(other, type(self)) and \
             super(Keyword, self).__eq__(other)
 
+    def __ne__(self, other):
+        return not self == other
+
     def __hash__(self):
         return super(Keyword, self).__hash__()
 
-- 
2.43.0


From e6976508370fac997836939b927a8ce0b62a70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:49 +0000
Subject: [PATCH 57/64] fix: EDN tagged elements can be elements of sets and
 keys of maps

They had no hash, so text such as #{#t 1} could not be decoded.
---
 hiku/edn.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hiku/edn.py b/hiku/edn.py
index c4c1ffd..07397ea 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -95,6 +95,9 @@ class TaggedElement:
         return isinstance(other, type(self)) and \
             self.name == other.name and self.value == other.value
 
+    def __hash__(self):
+        return hash((self.name, self.value))
+
 
 def coroutine(func):
     def start(*args, **kwargs):
-- 
2.43.0


From e1e832f036aec749a2033c16b866151d21316cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 58/64] fix: encode values inside of EDN tagged elements with
 the default function

Everywhere else the function given to dumps was used for values without a
notation, but inside of a tagged element they were refused.
---
 hiku/edn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/edn.py b/hiku/edn.py
index 07397ea..7a2a86c 100644
--- a/hiku/edn.py
+++ b/hiku/edn.py
@@ -452,7 +452,7 @@ def _iterencode(obj, default, encoder):
         if not _is_tag(obj.name):
             raise ValueError('{!r} is not EDN serializable'.format(obj))
         yield '#{} '.format(obj.name)
-        for chunk in _iterencode(obj.value, _default, encoder):
+        for chunk in _iterencode(obj.value, default, encoder):
             yield chunk
     else:
         obj = default(obj)
-- 
2.43.0


From 3673a6af8e69c885de5a11ba4b4d280b1cc3d3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:16 +0000
Subject: [PATCH 59/64] fix: data types which refer to other data types were
 not resolved completely

---
 hiku/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hiku/types.py b/hiku/types.py
index 47c63b0..955c90c 100644
--- a/hiku/types.py
+++ b/hiku/types.py
@@ -292,7 +292,7 @@ class TypeVisitor(AbstractTypeVisitor):
 
 
 def get_type(types, t):
-    if isinstance(t, TypeRefMeta):
-        return types[t.__type_name__]
-    else:
-        return t
+    # data type can be defined as a reference to the other data type
+    while isinstance(t, TypeRefMeta):
+        t = types[t.__type_name__]
+    return t
-- 
2.43.0


From 133c5899375e1c92dc801841893a40a91046d1e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:17 +0000
Subject: [PATCH 60/64] fix: introspection exposed unknown types in place of
 data types which are not records

---
 hiku/introspection/graphql.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 4dee632..4e73478 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -73,6 +73,10 @@ class TypeIdent(AbstractTypeVisitor):
         return ident.of_type if isinstance(ident, NON_NULL) else ident
 
     def visit_typeref(self, obj):
+        data_type = self._graph.data_types.get(obj.__type_name__)
+        if data_type is not None and not isinstance(data_type, RecordMeta):
+            # only records are exposed as named types
+            return self.visit(data_type)
         if self._input_mode:
             assert obj.__type_name__ in self._graph.data_types, \
                 obj.__type_name__
-- 
2.43.0


From 884d3d0b8aff86e2664683dad58c2cce6cf95832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:18 +0000
Subject: [PATCH 61/64] fix: __typename of data types which are not records

---
 hiku/denormalize/graphql.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/hiku/denormalize/graphql.py b/hiku/denormalize/graphql.py
index 9969fa0..8485e83 100644
--- a/hiku/denormalize/graphql.py
+++ b/hiku/denormalize/graphql.py
@@ -20,15 +20,17 @@ class DenormalizeGraphQL(Denormalize):
 
     def visit_link(self, obj: Link):
         type_ = self._type[-1].__field_types__[obj.name]
-        while isinstance(type_, (SequenceMeta, OptionalMeta)):
-            type_ = (type_.__item_type__ if isinstance(type_, SequenceMeta)
-                     else type_.__type__)
-        if isinstance(type_, TypeRefMeta):
-            type_name = type_.__type_name__
-        else:
-            # inline Record type is exposed as Any in the GraphQL schema
-            assert isinstance(type_, RecordMeta), type_
-            type_name = 'Any'
+        # inline Record type is exposed as Any in the GraphQL schema
+        type_name = 'Any'
+        while not isinstance(type_, RecordMeta):
+            if isinstance(type_, TypeRefMeta):
+                type_name = type_.__type_name__
+                type_ = self._types[type_name]
+            else:
+                assert isinstance(type_, (SequenceMeta, OptionalMeta)), type_
+                type_name = 'Any'
+                type_ = (type_.__item_type__ if isinstance(type_, SequenceMeta)
+                         else type_.__type__)
         self._type_name.append(type_name)
         super().visit_link(obj)
         self._type_name.pop()
-- 
2.43.0


From fa6e4e70c614e34aa8f3b4e619a757e2ecf9066a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:21 +0000
Subject: [PATCH 62/64] fix: names with a trailing new line were accepted in
 the introspected graphs

---
 hiku/introspection/graphql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 4e73478..4054ea2 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -502,7 +502,7 @@ GRAPH = Graph([
 
 
 class ValidateGraph(GraphVisitor):
-    _name_re = re.compile(r'^[_a-zA-Z]\w*$', re.ASCII)
+    _name_re = re.compile(r'^[_a-zA-Z]\w*\Z', re.ASCII)
 
     def __init__(self):
         self._path = []
-- 
2.43.0


From a3683c9b37e1c58a8b5a5cce26fd314f6ab4d832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:25 +0000
Subject: [PATCH 63/64] fix: introspection accepted data types which are
 invalid in GraphQL

---
 hiku/introspection/graphql.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/hiku/introspection/graphql.py b/hiku/introspection/graphql.py
index 4054ea2..9438caf 100644
--- a/hiku/introspection/graphql.py
+++ b/hiku/introspection/graphql.py
@@ -521,6 +521,24 @@ class ValidateGraph(GraphVisitor):
                              .format('\n'.join('- {}'.format(err)
                                                for err in self._errors)))
 
+    def visit_graph(self, obj):
+        for name, type_ in obj.data_types.items():
+            if isinstance(type_, RecordMeta):
+                self._validate_data_type(name, type_)
+        super(ValidateGraph, self).visit_graph(obj)
+
+    def _validate_data_type(self, name, type_):
+        if not self._name_re.match(name):
+            self._add_error(name, 'Invalid data type name: {}'.format(name))
+        if not type_.__field_types__:
+            self._add_error(name, 'No fields in the {} data type'.format(name))
+        self._path.append(name)
+        for field_name in type_.__field_types__:
+            if not self._name_re.match(field_name):
+                self._add_error(field_name, 'Invalid field name: {}'
+                                .format(field_name))
+        self._path.pop()
+
     def visit_node(self, obj):
         if not self._name_re.match(obj.name):
             self._add_error(obj.name,
-- 
2.43.0


From 38790c0698328f25a48a41bafc3fec451dafa39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:27 +0000
Subject: [PATCH 64/64] fix: query builder accepts an option named self

---
 hiku/builder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hiku/builder.py b/hiku/builder.py
index f9798ce..8b9b708 100644
--- a/hiku/builder.py
+++ b/hiku/builder.py
@@ -32,7 +32,8 @@ class Handle:
                               self.__field_name__,  # alias
                               other.__node_items__)
 
-    def __call__(self, **options):
+    def __call__(*args, **options):
+        self, = args  # option can have any name, "self" as well
         assert self.__field_options__ is None, self.__field_options__
         self.__field_options__ = options
         return self
-- 
2.43.0

