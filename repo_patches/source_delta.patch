From 2dc5ad2e3d9030f9962a61d9139243a911b34fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:14 +0000
Subject: [PATCH 01/49] fix: removeMatches changed the indexes while iterating
 over them

Graph.removeMatches and Dataset.removeMatches removed triples from the
indexes the lazy match() generator was iterating over, so they raised
RuntimeError after the first removal and left the rest in place.
---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 27ca35c..42eef8d 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -457,7 +457,7 @@ class Graph:
     def removeMatches(self, subject, predicate, object):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for triple in self.match(subject, predicate, object):
+        for triple in list(self.match(subject, predicate, object)):
             self.remove(triple)
         return self
 
@@ -543,7 +543,7 @@ class Dataset:
     def removeMatches(self, subject=None, predicate=None, object=None, graph=None):
         """This method removes those triples in the current graph which match
         the given arguments."""
-        for quad in self.match(subject, predicate, object, graph):
+        for quad in list(self.match(subject, predicate, object, graph)):
             self.remove(quad)
         return self
 
-- 
2.43.0


From d0be7ef6a7025ab18ec0e8db84ac6e6909b55390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:17 +0000
Subject: [PATCH 02/49] fix: removed triples left their terms behind in the
 graph's listings

Graph.remove emptied the index entries but never dropped them, so
subjects(), predicates() and objects() kept listing terms no triple uses,
and serialize_turtle wrote statements without predicates for them.
---
 src/pymantic/primitives.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 42eef8d..7302b6f 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -357,6 +357,15 @@ def Index():
     return defaultdict(Index)
 
 
+def _unindex(index, first, second, third):
+    """Remove an entry from an index, and the levels it leaves empty."""
+    del index[first][second][third]
+    if not index[first][second]:
+        del index[first][second]
+    if not index[first]:
+        del index[first]
+
+
 class Graph:
     """A `Graph` holds a set of one or more `Triple`. Implements the Python
     set/sequence API for `in`, `for`, and `len`"""
@@ -393,9 +402,9 @@ class Graph:
         """Removes the specified Triple from the graph. This method returns the
         graph instance it was called on."""
         self._triples.remove(triple)
-        del self._spo[triple.subject][triple.predicate][triple.object]
-        del self._pos[triple.predicate][triple.object][triple.subject]
-        del self._osp[triple.object][triple.subject][triple.predicate]
+        _unindex(self._spo, triple.subject, triple.predicate, triple.object)
+        _unindex(self._pos, triple.predicate, triple.object, triple.subject)
+        _unindex(self._osp, triple.object, triple.subject, triple.predicate)
         return self
 
     def match(self, subject=None, predicate=None, object=None):
-- 
2.43.0


From 790e87bf2a76bb64da9cff061d10f6bd2a425fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:20 +0000
Subject: [PATCH 03/49] fix: Graph.match treated the empty IRI as a wildcard

<> without a base parses to NamedNode(''), which is falsy: matching on it
(or erasing the resource it names) selected every triple in the graph.
Only None is documented to match anything.
---
 src/pymantic/primitives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 7302b6f..e828cd3 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -425,9 +425,9 @@ class Graph:
         This method implements AND functionality, so only triples matching all
         of the given non-null arguments will be included in the result.
         """
-        if subject:
-            if predicate:  # s, p, ???
-                if object:  # s, p, o
+        if subject is not None:
+            if predicate is not None:  # s, p, ???
+                if object is not None:  # s, p, o
                     if Triple(subject, predicate, object) in self:
                         yield Triple(subject, predicate, object)
                 else:  # s, p, ?var
@@ -435,7 +435,7 @@ class Graph:
                         for triple in self._spo[subject][predicate].values():
                             yield triple
             else:  # s, ?var, ???
-                if object:  # s, ?var, o
+                if object is not None:  # s, ?var, o
                     if object in self._osp and subject in self._osp[object]:
                         for triple in self._osp[object][subject].values():
                             yield triple
@@ -444,8 +444,8 @@ class Graph:
                         for predicate in self._spo[subject]:
                             for triple in self._spo[subject][predicate].values():
                                 yield triple
-        elif predicate:  # ?var, p, ???
-            if object:  # ?var, p, o
+        elif predicate is not None:  # ?var, p, ???
+            if object is not None:  # ?var, p, o
                 if predicate in self._pos and object in self._pos[predicate]:
                     for triple in self._pos[predicate][object].values():
                         yield triple
@@ -454,7 +454,7 @@ class Graph:
                     for object in self._pos[predicate]:
                         for triple in self._pos[predicate][object].values():
                             yield triple
-        elif object:  # ?var, ?var, o
+        elif object is not None:  # ?var, ?var, o
             if object in self._osp:
                 for subject in self._osp[object]:
                     for triple in self._osp[object][subject].values():
-- 
2.43.0


From 03fcfc7d4c057b57ff737472bbc19dc6dbd1dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:04 +0000
Subject: [PATCH 04/49] fix: asking a dataset about an unknown graph created
 that graph

Dataset.match(graph=...) and Dataset.remove subscripted the defaultdict of
graphs, so a lookup that found nothing left an empty named graph behind and
broke any iteration over the dataset that was in progress. match() also took
the empty graph name for 'any graph'.
---
 src/pymantic/primitives.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index e828cd3..bed703f 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -522,6 +522,8 @@ class Dataset:
         self._graphs[quad.graph].add(q_as_t(quad))
 
     def remove(self, quad):
+        if quad.graph not in self._graphs:
+            raise KeyError(quad)
         self._graphs[quad.graph].remove(q_as_t(quad))
 
     def add_graph(self, graph, named=None):
@@ -540,10 +542,11 @@ class Dataset:
         return self._graphs.values()
 
     def match(self, subject=None, predicate=None, object=None, graph=None):
-        if graph:
-            matches = self._graphs[graph].match(subject, predicate, object)
-            for match in matches:
-                yield t_as_q(graph, match)
+        if graph is not None:
+            if graph in self._graphs:
+                matches = self._graphs[graph].match(subject, predicate, object)
+                for match in matches:
+                    yield t_as_q(graph, match)
         else:
             for graph_uri, graph in self._graphs.items():
                 for match in graph.match(subject, predicate, object):
-- 
2.43.0


From ef8c99b4ad6465a65d439a99df87ce540a7253da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:07 +0000
Subject: [PATCH 05/49] fix: Dataset iteration reported quads under a name they
 are not stored under

Attaching a graph under a second name renames the Graph object; iterating
the dataset used that name instead of the one the graph is stored under,
so it yielded quads the dataset does not contain.
---
 src/pymantic/primitives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index bed703f..40b8c59 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -580,9 +580,9 @@ class Dataset:
                     return True
 
     def __iter__(self):
-        for graph in self._graphs.values():
+        for graph_uri, graph in self._graphs.items():
             for triple in graph:
-                yield t_as_q(graph.uri, triple)
+                yield t_as_q(graph_uri, triple)
 
     def toArray(self):
         return frozenset(self)
-- 
2.43.0


From 911f4d754b830b2d9a731032024c9ee855ab7f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:11 +0000
Subject: [PATCH 06/49] fix: Dataset.remove_graph did nothing

It now removes the named graph, and raises KeyError if there is none, as
Dataset.remove does for quads.
---
 src/pymantic/primitives.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 40b8c59..f57758f 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -535,7 +535,9 @@ class Dataset:
             raise ValueError("Graph must be named")
 
     def remove_graph(self, graph_or_uri):
-        pass
+        if isinstance(graph_or_uri, Graph):
+            graph_or_uri = graph_or_uri.uri
+        del self._graphs[graph_or_uri]
 
     @property
     def graphs(self):
-- 
2.43.0


From 35b3acf3be043a9eb67d5dd8b311c998a4789a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:15 +0000
Subject: [PATCH 07/49] fix: an unnamed Graph was named 'None'

Graph() wrapped the missing name into NamedNode('None'), so Dataset.add_graph
never rejected an unnamed graph but filed all of them under 'None', each
replacing the previous one.
---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index f57758f..d15dfd3 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -371,7 +371,7 @@ class Graph:
     set/sequence API for `in`, `for`, and `len`"""
 
     def __init__(self, graph_uri=None):
-        if not isinstance(graph_uri, NamedNode):
+        if graph_uri is not None and not isinstance(graph_uri, NamedNode):
             graph_uri = NamedNode(graph_uri)
         self._uri = graph_uri
         self._triples = set()
-- 
2.43.0


From dc8daafa7042b85a7cb59cbd21e799789c1f37c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:19 +0000
Subject: [PATCH 08/49] fix: Graph.add kept a half-added item when it rejected
 it

Something without subject, predicate and object was put into the triple set
before the AttributeError, so len(), iteration and membership showed it.
---
 src/pymantic/primitives.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index d15dfd3..676c5c5 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -392,10 +392,11 @@ class Graph:
     def add(self, triple):
         """Adds the specified Triple to the graph. This method returns the
         graph instance it was called on."""
+        subject, predicate, object = triple.subject, triple.predicate, triple.object
         self._triples.add(triple)
-        self._spo[triple.subject][triple.predicate][triple.object] = triple
-        self._pos[triple.predicate][triple.object][triple.subject] = triple
-        self._osp[triple.object][triple.subject][triple.predicate] = triple
+        self._spo[subject][predicate][object] = triple
+        self._pos[predicate][object][subject] = triple
+        self._osp[object][subject][predicate] = triple
         return self
 
     def remove(self, triple):
-- 
2.43.0


From 35a00d40956a7c91615e55889d669b68567e7ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:23 +0000
Subject: [PATCH 09/49] fix: Resource.copy always failed

It added plain tuples, which Graph.add rejects, and did so while iterating
over the graph it was changing.
---
 src/pymantic/rdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 5c0a48d..ebd3818 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -540,8 +540,8 @@ class Resource(metaclass=MetaResource):
             target_subject, BlankNode
         ):
             target_subject = NamedNode(target_subject)
-        for t in self.graph.match(self.subject, None, None):
-            self.graph.add((target_subject, t.predicate, t.object))
+        for t in list(self.graph.match(self.subject, None, None)):
+            self.graph.add(Triple(target_subject, t.predicate, t.object))
         return self.classify(self.graph, target_subject)
 
     def as_(self, target_class):
-- 
2.43.0


From addf7d0ece1dcb2a15ee901bade555ebdfa696bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:26 +0000
Subject: [PATCH 10/49] fix: Resource.new gave unrelated new resources the same
 subject

The blank node made for an unnamed resource was turned into an IRI holding
its address and discarded, so the next resource could reuse the address and
with it the subject: two resources silently became one.
---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index ebd3818..dc6d0f8 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -129,7 +129,7 @@ class Resource(metaclass=MetaResource):
         # graph.bind(prefix, Prefix)
         if subject is None:
             subject = BlankNode()
-        if not isinstance(subject, NamedNode):
+        if not isinstance(subject, NamedNode) and not isinstance(subject, BlankNode):
             subject = NamedNode(subject)
         for rdf_class in cls.rdf_classes:
             graph.add(Triple(subject, cls.resolve("rdf:type"), rdf_class))
-- 
2.43.0


From 49428e401d607dae49fca22d6dc4eb9cc4628074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:28 +0000
Subject: [PATCH 11/49] fix: Resource.in_graph returned resources lacking one
 of the class's types

Whenever the types looked at so far had no common instance, the instances of
the next type were taken as a fresh start. Which ones depended on the hash
order of the types.
---
 src/pymantic/rdf.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dc6d0f8..b2c83e3 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -362,23 +362,14 @@ class Resource(metaclass=MetaResource):
     @classmethod
     def in_graph(cls, graph):
         """Iterate through all instances of this Resource in the graph."""
-        subjects = set()
+        subjects = None
         for rdf_class in cls.rdf_classes:
-            if not subjects:
-                subjects.update(
-                    [
-                        t.subject
-                        for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
-                    ]
-                )
-            else:
-                subjects.intersection_update(
-                    [
-                        t.subject
-                        for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
-                    ]
-                )
-        return set(cls(graph, subject) for subject in subjects)
+            instances = set(
+                t.subject
+                for t in graph.match(None, cls.resolve("rdf:type"), rdf_class)
+            )
+            subjects = instances if subjects is None else subjects & instances
+        return set(cls(graph, subject) for subject in subjects or ())
 
     def __repr__(self):
         return "<%r: %s>" % (type(self), self.subject)
-- 
2.43.0


From f69bd077c05595d2e77dbdac35d96960cb40ddad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:58 +0000
Subject: [PATCH 12/49] fix: classifying a resource could fail depending on
 hash order

The bases of a combined class were taken in the iteration order of a set of
types: with one registered class inheriting from another, half of all hash
seeds raised TypeError (no consistent MRO), and otherwise which class's
attributes won was random. A class registered for two types always raised
TypeError (duplicate base class).
---
 src/pymantic/rdf.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index b2c83e3..1ad1f65 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -397,10 +397,14 @@ class Resource(metaclass=MetaResource):
         types = frozenset(
             [t.object for t in graph.match(obj, cls.resolve("rdf:type"), None)]
         )
+        # Subclasses go before the classes they inherit from, each class goes in
+        # once, and nothing depends on the hash order of the types.
+        registered = sorted(t for t in types if t in cls._meta_resource._classes)
         python_classes = tuple(
-            cls._meta_resource._classes[t]
-            for t in types
-            if t in cls._meta_resource._classes
+            sorted(
+                dict.fromkeys(cls._meta_resource._classes[t] for t in registered),
+                key=lambda python_class: -len(python_class.__mro__),
+            )
         )
         if len(python_classes) == 0:
             return Resource(graph, obj)
-- 
2.43.0


From a306ddca456e1c369e59d8fe92b5359e4fb3dacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:02 +0000
Subject: [PATCH 13/49] fix: combined classes were published unfinished and
 more than once

Two threads meeting a new combination of types could get two different
classes for it, and another thread could pick up the class before its
rdf_classes was set, so that is_a() and in_graph() on it were wrong.
---
 src/pymantic/rdf.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 1ad1f65..a005190 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -416,10 +416,9 @@ class Resource(metaclass=MetaResource):
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
                     python_classes,
-                    {"_autocreate": True},
+                    {"_autocreate": True, "rdf_classes": types},
                 )
-                cls._meta_resource._classes[types] = the_class
-                the_class.rdf_classes = frozenset(types)
+                cls._meta_resource._classes.setdefault(types, the_class)
             return cls._meta_resource._classes[types](graph, obj)
 
     def _interpret_key(self, key):
-- 
2.43.0


From 81d473d892ed5e8a816ffb3bacc8abd5ae6cc594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:06 +0000
Subject: [PATCH 14/49] fix: iterating an RDF list lost literals in other
 languages

rdf:first was looked up with the resource's default language, so an item with
any other language came out as None.
---
 src/pymantic/rdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index a005190..dd93b6d 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -554,7 +554,7 @@ class List(Resource):
         """Iterating over lists works differently from normal Resources."""
         current = self
         while current.subject != self.resolve("rdf:nil"):
-            yield current["rdf:first"]
+            yield current.get_scalar(("rdf:first", None))
             current = current["rdf:rest"]
             if current.subject != self.resolve("rdf:nil"):
                 current = current.as_(type(self))
-- 
2.43.0


From 279eb796158786611186c11ee96ed7603e1883d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:11 +0000
Subject: [PATCH 15/49] fix: parsing a stream broke on blank lines and lost
 statements

Each line of the stream was taken to hold exactly one statement: a blank line
raised RuntimeError, and of statements separated by carriage returns, which
the grammar accepts, all but the first were silently dropped.
---
 src/pymantic/parsers/lark/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index 06425cf..f5f262f 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -9,7 +9,7 @@ class LarkParser:
     def line_by_line_parser(self, stream):
         for line in stream:  # Equivalent to readline
             if line:
-                yield next(self.lark.parse(line))
+                yield from self.lark.parse(line)
 
     def parse(self, string_or_stream, graph=None):
         """Parse a string or file-like object into RDF primitives and add
-- 
2.43.0


From 40d61e0d7c95404785f777534c06b55382b179c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 16/49] fix: the Turtle parser could not parse streams

What was read from the stream was overwritten with the stream itself.
---
 src/pymantic/parsers/lark/turtle.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index cde16f6..3993717 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -289,10 +289,8 @@ def parse(string_or_stream, graph=None, base=""):
         # Presume string.
         string = string_or_stream
 
-    if isinstance(string_or_stream, bytes):
-        string = string_or_stream.decode("utf-8")
-    else:
-        string = string_or_stream
+    if isinstance(string, bytes):
+        string = string.decode("utf-8")
 
     tree = turtle_lark.parse(string)
     tr = TurtleTransformer(base_iri=base)
-- 
2.43.0


From 3f51eda194b76d0699933ad17d471071ddfbaf37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 17/49] fix: N-Triples and N-Quads rejected language tags with
 digits

es-419 or de-1996 failed to parse because of a typo in a character range.
---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 533cb4e..51aad40 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -33,7 +33,7 @@ quad: subject predicate object graph "."
 ?graph: iriref
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
-LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0_9]/+)*
+LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
 iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
-- 
2.43.0


From 984b47c35f67b79575ef741fa95bf6074ac2c05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:22 +0000
Subject: [PATCH 18/49] fix: N-Triples output silently dropped control
 characters

Characters below U+0020 other than tab, newline and carriage return matched
no branch of nt_escape and vanished; they are now written as \uXXXX.
---
 src/pymantic/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index dffe7fe..c104bc8 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -24,7 +24,7 @@ def nt_escape(node_string):
             and char <= "\u007E"
         ):
             output_string += char
-        elif char >= "\u007F" and char <= "\uFFFF":
+        elif char <= "\uFFFF":
             output_string += "\\u%04X" % ord(char)
         elif char >= "\U00010000" and char <= "\U0010FFFF":
             output_string += "\\U%08X" % ord(char)
-- 
2.43.0


From 53d3e9cf32ca022d61f69dd123d1a7b5170a419a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:05 +0000
Subject: [PATCH 19/49] fix: N-Quads output was not N-Quads

Quad.__str__ wrote IRIs without angle brackets and literals without quotes,
escapes, language or datatype, and 'None' for the default graph.
---
 src/pymantic/primitives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 676c5c5..af93631 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -211,7 +211,8 @@ class Quad(tuple):
     graph = property(itemgetter(3))
 
     def __str__(self):
-        return f"{str(self.subject)} {str(self.predicate)} {str(self.object)} {str(self.graph)} .\n"
+        graph = "" if self.graph is None else f" {self.graph.toNT()}"
+        return f"{self.subject.toNT()} {self.predicate.toNT()} {self.object.toNT()}{graph} .\n"
 
 
 def q_as_t(quad):
-- 
2.43.0


From 9f63c06f878f7cb6920c857a5386436147952070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:08 +0000
Subject: [PATCH 20/49] fix: the N-Quads parser rejected default-graph and
 blank-graph statements

N-Quads allows the graph to be left out or to be a blank node, and JSON-LD
documents produce both, so such datasets could not be exported and reloaded.
---
 src/pymantic/parsers/lark/nquads.py   | 3 ++-
 src/pymantic/parsers/lark/ntriples.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/nquads.py b/src/pymantic/parsers/lark/nquads.py
index 1041663..7bb7bb2 100644
--- a/src/pymantic/parsers/lark/nquads.py
+++ b/src/pymantic/parsers/lark/nquads.py
@@ -22,7 +22,8 @@ class NQuadsTransformer(NTriplesTransformer):
     """Transform the tokenized nquads into RDF primitives."""
 
     def quad(self, children):
-        subject, predicate, object_, graph = children
+        subject, predicate, object_ = children[:3]
+        graph = children[3] if len(children) > 3 else None  # the default graph
         return self.make_quad(subject, predicate, object_, graph)
 
     def quads_start(self, children):
diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 51aad40..87b80ef 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -22,7 +22,7 @@ grammar = r"""triples_start: triple? (EOL triple)* EOL?
 triple: subject predicate object "."
 
 quads_start: quad? (EOL quad)* EOL?
-quad: subject predicate object graph "."
+quad: subject predicate object graph? "."
 
 ?subject: iriref
         | BLANK_NODE_LABEL -> blank_node_label
@@ -31,6 +31,7 @@ quad: subject predicate object graph "."
        | BLANK_NODE_LABEL -> blank_node_label
        | literal
 ?graph: iriref
+      | BLANK_NODE_LABEL -> blank_node_label
 literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
-- 
2.43.0


From a453de266793263172e81e3fcc34db4341f1cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:11 +0000
Subject: [PATCH 21/49] fix: the JSON-LD parser turned blank graph names into
 IRIs

A graph labelled _:b0 became an IRI '_:b0': it no longer was the node the
document's statements call _:b0, and unrelated documents shared it.
---
 src/pymantic/parsers/jsonld.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 29541fa..7140b23 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -65,11 +65,12 @@ class PyLDLoader(BaseParser):
 
         dataset = to_rdf(jobj, options=options)
         for graph_name, triples in dataset.items():
-            graph_iri = (
-                self.env.createNamedNode(graph_name)
-                if graph_name != "@default"
-                else None
-            )
+            if graph_name == "@default":
+                graph_iri = None
+            elif graph_name.startswith("_:"):
+                graph_iri = self._call_state.bnodes[graph_name]
+            else:
+                graph_iri = self.env.createNamedNode(graph_name)
             for triple in triples:
                 self.make_quad(
                     (
-- 
2.43.0


From 070653389a1c9396cea2aafe16ebf9168dc8a7c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:14 +0000
Subject: [PATCH 22/49] fix: the JSON-LD parser made literals with both
 language and datatype

Literal is documented not to have both, the other parsers do not produce
them, and Resource assignments on them failed half-way with KeyError because
such a literal is selected once by its language and once by its datatype.
---
 src/pymantic/parsers/jsonld.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 7140b23..46d2e27 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -51,13 +51,13 @@ class PyLDLoader(BaseParser):
         elif triple_fragment["type"] == "blank node":
             return self._call_state.bnodes[triple_fragment["value"]]
         elif triple_fragment["type"] == "literal":
-            language = None
             if "language" in triple_fragment:
-                language = triple_fragment["language"]
-            return self.env.createLiteral(
-                value=triple_fragment["value"],
-                datatype=self.env.createNamedNode(triple_fragment["datatype"]),
-                language=language,
+                return self.make_language_literal(
+                    triple_fragment["value"], triple_fragment["language"]
+                )
+            return self.make_datatype_literal(
+                triple_fragment["value"],
+                self.env.createNamedNode(triple_fragment["datatype"]),
             )
 
     def process_jobj(self, jobj, options=None):
-- 
2.43.0


From 2dd54caf0bd10fb79e2225267f90905b3da7613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:17 +0000
Subject: [PATCH 23/49] fix: a parse nested in another destroyed the outer
 parse's state

A stream or JSON-LD document loader that itself parses with the same shared
parser deleted the blank node scope of the parse consuming it, which then
failed or gave one label two nodes. The JSON-LD parser also kept the scope
and target of a failed parse alive, and a parse failing before its scope
existed masked its error with an AttributeError.
---
 src/pymantic/parsers/base.py      | 8 ++++++--
 src/pymantic/parsers/jsonld.py    | 6 ++++--
 src/pymantic/parsers/lark/base.py | 8 ++++----
 3 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pymantic/parsers/base.py b/src/pymantic/parsers/base.py
index 6c130fe..1f84bc4 100644
--- a/src/pymantic/parsers/base.py
+++ b/src/pymantic/parsers/base.py
@@ -42,12 +42,16 @@ class BaseParser:
         return self.env.createQuad(subject, predicate, object, graph)
 
     def _prepare_parse(self, graph):
+        # A source may itself parse while it is being parsed: keep the state of
+        # the parse this one is nested in.
+        self._call_state.outer = dict(self._call_state.__dict__)
         self._call_state.bnodes = defaultdict(self.env.createBlankNode)
         self._call_state.graph = graph
 
     def _cleanup_parse(self):
-        del self._call_state.bnodes
-        del self._call_state.graph
+        outer = self._call_state.outer
+        self._call_state.__dict__.clear()
+        self._call_state.__dict__.update(outer)
 
     def _make_graph(self):
         return self.env.createGraph()
diff --git a/src/pymantic/parsers/jsonld.py b/src/pymantic/parsers/jsonld.py
index 46d2e27..d0a9968 100644
--- a/src/pymantic/parsers/jsonld.py
+++ b/src/pymantic/parsers/jsonld.py
@@ -28,8 +28,10 @@ class PyLDLoader(BaseParser):
         if sink is None:
             sink = self._make_graph()
         self._prepare_parse(sink)
-        self.process_jobj(jobj, options)
-        self._cleanup_parse()
+        try:
+            self.process_jobj(jobj, options)
+        finally:
+            self._cleanup_parse()
 
         return sink
 
diff --git a/src/pymantic/parsers/lark/base.py b/src/pymantic/parsers/lark/base.py
index f5f262f..afc8bd9 100644
--- a/src/pymantic/parsers/lark/base.py
+++ b/src/pymantic/parsers/lark/base.py
@@ -17,12 +17,12 @@ class LarkParser:
         """
         tf = self.lark.options.transformer
 
-        try:
-            if graph is None:
-                graph = tf._make_graph()
+        if graph is None:
+            graph = tf._make_graph()
 
-            tf._prepare_parse(graph)
+        tf._prepare_parse(graph)
 
+        try:
             if hasattr(string_or_stream, "readline"):
                 triples = self.line_by_line_parser(string_or_stream)
             else:
-- 
2.43.0


From cf4f681f5ab492d8714b586caf565c0429d59e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:54 +0000
Subject: [PATCH 24/49] fix: RDF and XML query results could not be read

The response bytes were wrapped in StringIO (TypeError), and the query URL
was looked for on the wrong object, so every CONSTRUCT/DESCRIBE answer and
every XML answer raised instead of being returned.
---
 src/pymantic/sparql.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 848625c..5339f58 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -1,7 +1,7 @@
 """Provide an interface to SPARQL query endpoints."""
 
 import datetime
-from io import StringIO
+from io import BytesIO
 import json
 import logging
 from lxml import objectify
@@ -145,7 +145,11 @@ class _Select(_SelectOrUpdate):
 
         if format:
             graph = rdflib.ConjunctiveGraph()
-            graph.parse(StringIO(response.content), self.query_url, format=format)
+            graph.parse(
+                BytesIO(response.content),
+                publicID=self.server.query_url,
+                format=format,
+            )
             return graph
         elif response.headers["content-type"].startswith(
             "application/sparql-results+json"
@@ -154,7 +158,7 @@ class _Select(_SelectOrUpdate):
         elif response.headers["content-type"].startswith(
             "application/sparql-results+xml"
         ):
-            return objectify.parse(StringIO(response.content))
+            return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
                 "Got content of type: %s" % response.headers["content-type"]
@@ -255,13 +259,13 @@ class UpdateableGraphStore(SPARQLServer):
             )
         graph = rdflib.ConjunctiveGraph()
         if response.headers["content-type"].startswith("text/plain"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="nt")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
         elif response.headers["content-type"].startswith("application/rdf+xml"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="xml")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
         elif response.headers["content-type"].startswith("text/turtle"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="turtle")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
         elif response.headers["content-type"].startswith("text/rdf+n3"):
-            graph.parse(StringIO(response.content), publicID=graph_uri, format="n3")
+            graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From c49c50c8334cf2e3036f40bf7ecc33ca48fd2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:58 +0000
Subject: [PATCH 25/49] fix: a query answered without content raised
 AttributeError or KeyError

A 204 answer to a query, or a 200 answer without a content type, failed on
internals instead of with the documented exceptions.
---
 src/pymantic/sparql.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 5339f58..30a103c 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -137,10 +137,13 @@ class _Select(_SelectOrUpdate):
 
     def execute(self):
         response = super(_Select, self).execute()
+        if response is True:
+            raise SPARQLQueryException("No content\nQuery: %s" % self.sparql)
+        content_type = response.headers.get("content-type", "")
         format = None
-        if response.headers["content-type"].startswith("application/rdf+xml"):
+        if content_type.startswith("application/rdf+xml"):
             format = "xml"
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type.startswith("text/turtle"):
             format = "turtle"
 
         if format:
@@ -151,17 +154,13 @@ class _Select(_SelectOrUpdate):
                 format=format,
             )
             return graph
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+json"
-        ):
+        elif content_type.startswith("application/sparql-results+json"):
             return json.loads(response.content.decode("utf-8"))
-        elif response.headers["content-type"].startswith(
-            "application/sparql-results+xml"
-        ):
+        elif content_type.startswith("application/sparql-results+xml"):
             return objectify.parse(BytesIO(response.content))
         else:
             raise UnknownSPARQLReturnTypeException(
-                "Got content of type: %s" % response.headers["content-type"]
+                "Got content of type: %s" % content_type
             )
 
 
-- 
2.43.0


From 32c30c716bb02fa0193c9c3396c0f9c207200817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 26/49] fix: no graph store operation worked

get, put, post, delete and patch used Python 2's urllib functions and looked
up their request options on an attribute graph stores do not have, so every
call raised AttributeError before sending anything.
---
 src/pymantic/sparql.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 30a103c..32cbe5d 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -8,8 +8,7 @@ from lxml import objectify
 import pytz
 import rdflib
 import requests
-import urllib
-from urllib.parse import urlparse
+from urllib.parse import quote_plus, urlencode, urljoin
 
 log = logging.getLogger(__name__)
 
@@ -241,15 +240,15 @@ class UpdateableGraphStore(SPARQLServer):
 
     def request_url(self, graph_uri):
         if self.param_style:
-            return self.dataset_url + "?" + urllib.urlencode({"graph": graph_uri})
+            return self.dataset_url + "?" + urlencode({"graph": graph_uri})
         else:
-            return urlparse.urljoin(self.dataset_url, urllib.quote_plus(graph_uri))
+            return urljoin(self.dataset_url, quote_plus(graph_uri))
 
     def get(self, graph_uri):
         response = self.s.get(
             self.request_url(graph_uri),
             headers={"Accept": ",".join(self.acceptable_graph_responses)},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code != 200:
             raise Exception(
@@ -269,7 +268,7 @@ class UpdateableGraphStore(SPARQLServer):
 
     def delete(self, graph_uri):
         response = self.s.delete(
-            self.request_url(graph_uri), **self.server.request_kwargs
+            self.request_url(graph_uri), **self.requests_kwargs
         )
         if response.status_code not in (200, 202):
             raise Exception(
@@ -283,7 +282,7 @@ class UpdateableGraphStore(SPARQLServer):
             self.request_url(graph_uri),
             data=graph_triples,
             headers={"content-type": "text/plain"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
@@ -298,7 +297,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.request_url(graph_uri),
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code not in (200, 201, 204):
                 raise Exception(
@@ -310,7 +309,7 @@ class UpdateableGraphStore(SPARQLServer):
                 self.dataset_url,
                 data=graph_triples,
                 headers={"content-type": "text/plain"},
-                **self.server.requests_kwargs
+                **self.requests_kwargs
             )
             if response.status_code != 201:
                 raise Exception(
@@ -329,7 +328,7 @@ class PatchableGraphStore(UpdateableGraphStore):
             self.request_url(graph_uri),
             data=graph_xml,
             headers={"content-type": "application/vnd.talis.changeset+xml"},
-            **self.server.requests_kwargs
+            **self.requests_kwargs
         )
         if response.status_code not in (200, 201, 204):
             raise Exception(
-- 
2.43.0


From 011d561d1f373808a28b3dbd4f6a9bec6042afe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:05 +0000
Subject: [PATCH 27/49] fix: a graph deleted with 204 No Content was reported
 as an error

204 is the status the Graph Store Protocol gives for a successful DELETE
without a response body; put and post already accept it.
---
 src/pymantic/sparql.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 32cbe5d..9447696 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -270,7 +270,7 @@ class UpdateableGraphStore(SPARQLServer):
         response = self.s.delete(
             self.request_url(graph_uri), **self.requests_kwargs
         )
-        if response.status_code not in (200, 202):
+        if response.status_code not in (200, 202, 204):
             raise Exception(
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
-- 
2.43.0


From 29e938efae196893600916e2797a4935ce518f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:09 +0000
Subject: [PATCH 28/49] fix: a graph in an unknown format was returned as an
 empty graph

UpdateableGraphStore.get ignored content types it does not know, so the
caller got an empty graph for a graph that is not empty; it now raises like
query() does.
---
 src/pymantic/sparql.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 9447696..5296a4b 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -255,15 +255,20 @@ class UpdateableGraphStore(SPARQLServer):
                 "Error from Graph Store (%s): %s"
                 % (response.status_code, response.content)
             )
+        content_type = response.headers.get("content-type", "")
         graph = rdflib.ConjunctiveGraph()
-        if response.headers["content-type"].startswith("text/plain"):
+        if content_type.startswith("text/plain"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="nt")
-        elif response.headers["content-type"].startswith("application/rdf+xml"):
+        elif content_type.startswith("application/rdf+xml"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="xml")
-        elif response.headers["content-type"].startswith("text/turtle"):
+        elif content_type.startswith("text/turtle"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="turtle")
-        elif response.headers["content-type"].startswith("text/rdf+n3"):
+        elif content_type.startswith("text/rdf+n3"):
             graph.parse(BytesIO(response.content), publicID=graph_uri, format="n3")
+        else:
+            raise UnknownSPARQLReturnTypeException(
+                "Got content of type: %s" % content_type
+            )
         return graph
 
     def delete(self, graph_uri):
-- 
2.43.0


From dc56c4d91497f8f1e67bb766787f395e880a7f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:09 +0000
Subject: [PATCH 29/49] fix: shrinking an IRI replaced every occurrence of the
 namespace

An IRI that repeats its namespace (http://e/?u=http://e/) lost the later
occurrences too, so the CURIE resolved to another IRI.
---
 src/pymantic/primitives.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index af93631..700d7eb 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -106,10 +106,8 @@ def to_curie(uri, namespaces, seperator=":", explicit=False):
             matches.append((prefix, namespace))
     if len(matches) > 0:
         prefix, namespace = sorted(matches, key=lambda pair: -len(pair[1]))[0]
-        if explicit:
-            return f"[{uri.replace(namespace, prefix + seperator)}]"
-        else:
-            return uri.replace(namespace, prefix + seperator)
+        curie = prefix + seperator + uri[len(namespace) :]
+        return f"[{curie}]" if explicit else curie
     return uri
 
 
-- 
2.43.0


From 18d86f7e06871abb40c0a5c4561f9205440f3ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:13 +0000
Subject: [PATCH 30/49] fix: graphs with blank nodes could not be written as
 Turtle

Naming a blank node used Python 2's generator.next(), and the names lacked
the _: that makes them blank node labels.
---
 src/pymantic/serializers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index c104bc8..eda3e6e 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -46,7 +46,7 @@ def serialize_nquads(dataset, f):
 def default_bnode_name_generator():
     i = 0
     while True:
-        yield "_b" + str(i)
+        yield "_:b" + str(i)
         i += 1
 
 
@@ -83,7 +83,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
         if node in name_map:
             name = name_map[node]
         else:
-            name = bnode_name_maker.next()
+            name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
         if node.datatype == profile.resolve("xsd:string"):
-- 
2.43.0


From f665d4439021e958a18a2dfab0cf8c7511786982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:17 +0000
Subject: [PATCH 31/49] fix: Turtle output did not escape strings

The escape map was applied backwards: quotes, newlines and backslashes were
written as they are, ending the string early, and a backslash followed by a
letter was turned into a control character.
---
 src/pymantic/serializers.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index eda3e6e..69ef192 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -61,9 +61,7 @@ def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
 
-    for escaped, value in ECHAR_MAP.items():
-        string = string.replace(value, "\\" + escaped)
-    return '"' + string + '"'
+    return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
-- 
2.43.0


From 022a1fb86545f39a287d2ff8edd69419ac6ec79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:21 +0000
Subject: [PATCH 32/49] fix: Turtle output changed the type of numbers without
 a shorthand

Values of xsd:integer, decimal, double and boolean were always written bare:
"5"^^xsd:decimal came back as an integer, and "INF"^^xsd:double or
"1"^^xsd:boolean as a syntax error or a number.
---
 src/pymantic/serializers.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 69ef192..3779916 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -1,4 +1,5 @@
 from collections import OrderedDict
+import re
 
 
 def nt_escape(node_string):
@@ -64,6 +65,23 @@ def turtle_string_escape(string):
     return '"' + "".join(ECHAR_MAP.get(char, char) for char in string) + '"'
 
 
+TURTLE_INTEGER = re.compile(r"[+-]?[0-9]+")
+TURTLE_DECIMAL = re.compile(r"[+-]?[0-9]*\.[0-9]+")
+TURTLE_DOUBLE = re.compile(
+    r"[+-]?([0-9]+\.[0-9]*|\.[0-9]+|[0-9]+)[eE][+-]?[0-9]+"
+)
+TURTLE_BOOLEAN = re.compile(r"true|false")
+
+
+def turtle_shorthand(literal, pattern, profile):
+    """The bare value of a literal if Turtle reads it back as its datatype, or
+    else the value with its datatype spelled out."""
+    if pattern.fullmatch(literal.value):
+        return literal.value
+    datatype = turtle_repr(literal.datatype, profile, None, None)
+    return turtle_string_escape(literal.value) + "^^" + datatype
+
+
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
@@ -93,13 +111,13 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             if node.language:
                 name += "@" + node.language
         elif node.datatype == profile.resolve("xsd:integer"):
-            name = node.value
+            name = turtle_shorthand(node, TURTLE_INTEGER, profile)
         elif node.datatype == profile.resolve("xsd:decimal"):
-            name = node.value
+            name = turtle_shorthand(node, TURTLE_DECIMAL, profile)
         elif node.datatype == profile.resolve("xsd:double"):
-            name = node.value
+            name = turtle_shorthand(node, TURTLE_DOUBLE, profile)
         elif node.datatype == profile.resolve("xsd:boolean"):
-            name = node.value
+            name = turtle_shorthand(node, TURTLE_BOOLEAN, profile)
         else:
             # Unrecognized data-type.
             name = turtle_string_escape(node.value)
-- 
2.43.0


From a5480f3f262657fa0c9644a3a3b21750af655d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:56 +0000
Subject: [PATCH 33/49] fix: Turtle output wrote IRIs as names that do not mean
 them

The escaped local name was computed and thrown away, so IRIs with reserved
characters became syntax errors or other terms; names that cannot be escaped
were abbreviated all the same; and IRIs were made relative to the base by
deleting it wherever it occurred, even where the rest resolves elsewhere
(<foobar> with base <foo>, <a:b>, <//x>).
---
 src/pymantic/serializers.py | 43 ++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 3779916..6277fc8 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -53,11 +53,39 @@ def default_bnode_name_generator():
 
 def escape_prefix_local(prefix):
     prefix, colon, local = prefix.partition(":")
-    for esc_char in "~.-!$&'()*+,;=:/?#@%_":
+    for esc_char in "~.-!$&'()*+,;=/?#@%_":
         local = local.replace(esc_char, "\\" + esc_char)
     return "".join((prefix, colon, local))
 
 
+_NAME_CHARS = (
+    "A-Za-z_0-9:\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF"
+    "\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF"
+    "\uFDF0-\uFFFD\U00010000-\U000EFFFF"
+)
+_NAME_ESCAPES = r"%[0-9A-Fa-f]{2}|\\[_~.\-!$&'()*+,;=/?#@%]"
+_NAME_INNER = _NAME_CHARS + "\u00B7\u0300-\u036F\u203F-\u2040\\-"
+
+# A prefix and a local name that Turtle reads back as they are.
+PREFIXED_NAME = re.compile(
+    f"[^:]*:((?:[{_NAME_CHARS}]|{_NAME_ESCAPES})"
+    f"(?:(?:[{_NAME_INNER}.]|{_NAME_ESCAPES})*(?:[{_NAME_INNER}]|{_NAME_ESCAPES}))?)?"
+)
+
+
+def relative_iri(iri, base):
+    """Shorten iri to a reference that resolves to it against base, if any."""
+    from pymantic.util import smart_urljoin
+
+    if base and iri.startswith(base):
+        reference = iri[len(base) :]
+        if base.endswith("#"):
+            reference = "#" + reference
+        if smart_urljoin(base, reference) == iri:
+            return reference
+    return iri
+
+
 def turtle_string_escape(string):
     """Escape a string appropriately for output in turtle form."""
     from pymantic.util import ECHAR_MAP
@@ -86,15 +114,10 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
     if node.interfaceName == "NamedNode":
         name = profile.prefixes.shrink(node)
-        if base and name.startswith(base):
-            if base.endswith("#"):
-                name = f"<{str(name.replace(base, '#'))}>"
-            else:
-                name = f"<{str(name.replace(base, ''))}>"
-        if name == node:
-            name = f"<{str(name)}>"
-        else:
-            escape_prefix_local(name)
+        if name != node and not PREFIXED_NAME.fullmatch(name):
+            name = escape_prefix_local(name)
+        if name == node or not PREFIXED_NAME.fullmatch(name):
+            name = f"<{relative_iri(str(node), base)}>"
     elif node.interfaceName == "BlankNode":
         if node in name_map:
             name = name_map[node]
-- 
2.43.0


From 5756449ba60e4c28585a7ef5598cae07644399bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:18 +0000
Subject: [PATCH 34/49] fix: Turtle output lost, changed or hung on lists

Cells of lists that nothing refers to, that are shared, that have other
properties, or that do not end were dropped, and lists of anything but
literals could not be written at all.
---
 src/pymantic/serializers.py | 68 +++++++++++++++++++++++++++++++------
 1 file changed, 57 insertions(+), 11 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 6277fc8..39a5a35 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -153,6 +153,48 @@ def turtle_sorted_names(nodes, name_maker):
     return sorted((name_maker(node), node) for node in nodes)
 
 
+def inline_lists(graph):
+    """Find the list cells that can be written inside the statement that refers
+    to them: blank nodes with one rdf:first, one rdf:rest and nothing else, that
+    are referred to once and lead to rdf:nil. Returns a map of cell to
+    (first, rest)."""
+    from pymantic.rdf import List
+
+    first, rest, nil = map(List.resolve, ("rdf:first", "rdf:rest", "rdf:nil"))
+
+    cells = {}
+    owners = {}
+    for cell in set(t.subject for t in graph.match(predicate=rest)):
+        properties = {t.predicate: t.object for t in graph.match(subject=cell)}
+        references = list(graph.match(object=cell))
+        if (
+            cell.interfaceName == "BlankNode"
+            and set(properties) == {first, rest}
+            and len(list(graph.match(subject=cell))) == 2
+            and len(references) == 1
+        ):
+            cells[cell] = (properties[first], properties[rest])
+            owners[cell] = references[0].subject
+
+    # Cells that only refer to each other have no statement to be written in.
+    owned = set()
+    pending = [cell for cell in cells if owners[cell] not in cells]
+    while pending:
+        cell = pending.pop()
+        owned.add(cell)
+        pending.extend(node for node in cells[cell] if node in cells)
+
+    lists = {}
+    pending = [cell for cell in owned if cells[cell][1] == nil]
+    while pending:
+        cell = pending.pop()
+        lists[cell] = cells[cell]
+        owner = owners[cell]
+        if owner in owned and cells[owner][1] == cell:
+            pending.append(owner)
+    return lists
+
+
 def serialize_turtle(
     graph, f, base=None, profile=None, bnode_name_generator=default_bnode_name_generator
 ):
@@ -176,9 +218,21 @@ def serialize_turtle(
     def name_maker(n):
         return turtle_repr(n, profile, name_map, bnode_name_maker, base)
 
-    from pymantic.rdf import List
+    lists = inline_lists(graph)
+
+    def write_object(node):
+        if node not in lists:
+            f.write(name_maker(node))
+            return
+        separator = "("
+        while node in lists:
+            f.write(separator)
+            item, node = lists[node]
+            write_object(item)
+            separator = " "
+        f.write(")")
 
-    subjects = [subj for subj in graph.subjects() if not List.is_list(subj, graph)]
+    subjects = [subj for subj in graph.subjects() if subj not in lists]
 
     for subject_name, subject in turtle_sorted_names(subjects, name_maker):
         subj_indent_size = len(subject_name) + 1
@@ -195,14 +249,6 @@ def serialize_turtle(
             ):
                 if j != 0:
                     f.write(",\n" + " " * pred_indent_size)
-                if List.is_list(triple.object, graph):
-                    f.write("(")
-                    for k, o in enumerate(List(graph, triple.object)):
-                        if k != 0:
-                            f.write(" ")
-                        f.write(name_maker(o))
-                    f.write(")")
-                else:
-                    f.write(name_maker(triple.object))
+                write_object(triple.object)
             f.write(" ;\n")
         f.write(" " * subj_indent_size + ".\n\n")
-- 
2.43.0


From 50ce8067a91c4851bbc63a42764dd084cd2c47e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 35/49] fix: Turtle output did not declare a redefined rdf
 prefix

---
 src/pymantic/serializers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 39a5a35..3f026db 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -209,7 +209,7 @@ def serialize_turtle(
 
         profile = Profile()
     for prefix, iri in profile.prefixes.items():
-        if prefix != "rdf":
+        if (prefix, iri) != ("rdf", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"):
             f.write("@prefix " + prefix + ": <" + iri + "> .\n")
 
     name_map = OrderedDict()
-- 
2.43.0


From 706320a6f64172c3bf13a6ac312724d1fc13d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:53 +0000
Subject: [PATCH 36/49] fix: Turtle output depended on what the xsd prefix is
 bound to

---
 src/pymantic/serializers.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pymantic/serializers.py b/src/pymantic/serializers.py
index 3f026db..a13981d 100644
--- a/src/pymantic/serializers.py
+++ b/src/pymantic/serializers.py
@@ -112,6 +112,8 @@ def turtle_shorthand(literal, pattern, profile):
 
 def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
     """Turn a node in an RDF graph into its turtle representation."""
+    from pymantic.primitives import XSD
+
     if node.interfaceName == "NamedNode":
         name = profile.prefixes.shrink(node)
         if name != node and not PREFIXED_NAME.fullmatch(name):
@@ -125,7 +127,7 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             name = next(bnode_name_maker)
             name_map[node] = name
     elif node.interfaceName == "Literal":
-        if node.datatype == profile.resolve("xsd:string"):
+        if node.datatype == XSD("string"):
             # Simple string.
             name = turtle_string_escape(node.value)
         elif node.datatype is None:
@@ -133,13 +135,13 @@ def turtle_repr(node, profile, name_map, bnode_name_maker, base=None):
             name = turtle_string_escape(node.value)
             if node.language:
                 name += "@" + node.language
-        elif node.datatype == profile.resolve("xsd:integer"):
+        elif node.datatype == XSD("integer"):
             name = turtle_shorthand(node, TURTLE_INTEGER, profile)
-        elif node.datatype == profile.resolve("xsd:decimal"):
+        elif node.datatype == XSD("decimal"):
             name = turtle_shorthand(node, TURTLE_DECIMAL, profile)
-        elif node.datatype == profile.resolve("xsd:double"):
+        elif node.datatype == XSD("double"):
             name = turtle_shorthand(node, TURTLE_DOUBLE, profile)
-        elif node.datatype == profile.resolve("xsd:boolean"):
+        elif node.datatype == XSD("boolean"):
             name = turtle_shorthand(node, TURTLE_BOOLEAN, profile)
         else:
             # Unrecognized data-type.
-- 
2.43.0


From a72014b5cd8f381b9e1621c819450b805323127f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:35 +0000
Subject: [PATCH 37/49] fix: Turtle parser mangled collections and property
 lists in object lists

---
 src/pymantic/parsers/lark/turtle.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index 3993717..e1c6fbb 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -122,17 +122,16 @@ def unpack_predicate_object_list(subject, pol):
                 raise ValueError(predicate)
             predicate = RDF_TYPE
 
-        if not isinstance(object_, (NamedNode, Literal, BlankNode)):
-            if isinstance(object_, Tree):
-                object_ = object_.children
-            for triple_or_node in object_:
-                if isinstance(triple_or_node, Triple):
-                    yield triple_or_node
-                else:
-                    object_ = triple_or_node
-                    yield Triple(subject, predicate, object_)
-        else:
-            yield Triple(subject, predicate, object_)
+        objects = object_.children if isinstance(object_, Tree) else [object_]
+        for object_ in objects:
+            if not isinstance(object_, (NamedNode, Literal, BlankNode)):
+                for triple_or_node in object_:
+                    if isinstance(triple_or_node, Triple):
+                        yield triple_or_node
+                    else:
+                        yield Triple(subject, predicate, triple_or_node)
+            else:
+                yield Triple(subject, predicate, object_)
 
 
 class TurtleTransformer(BaseParser, Transformer):
-- 
2.43.0


From 52486e27334cdadb693be7498d90083841f655ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:23 +0000
Subject: [PATCH 38/49] fix: Dataset.add created the graph of a rejected quad

---
 src/pymantic/primitives.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 700d7eb..5ab913e 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -518,8 +518,10 @@ class Dataset:
         self._graphs = defaultdict(Graph)
 
     def add(self, quad):
-        self._graphs[quad.graph]._uri = quad.graph
-        self._graphs[quad.graph].add(q_as_t(quad))
+        graph = self._graphs[quad.graph] if quad.graph in self._graphs else Graph()
+        graph.add(q_as_t(quad))
+        graph._uri = quad.graph
+        self._graphs[quad.graph] = graph
 
     def remove(self, quad):
         if quad.graph not in self._graphs:
-- 
2.43.0


From 95a29b4d33c406939a31fc62b9c265cdf3c06b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:27 +0000
Subject: [PATCH 39/49] fix: Turtle comments did not end at a carriage return

---
 src/pymantic/parsers/lark/turtle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/turtle.py b/src/pymantic/parsers/lark/turtle.py
index e1c6fbb..55d2a3b 100644
--- a/src/pymantic/parsers/lark/turtle.py
+++ b/src/pymantic/parsers/lark/turtle.py
@@ -91,7 +91,7 @@ HEX: /[0-9A-Fa-f]/
 PN_LOCAL_ESC: "\\" /[_~\.\-!$&'()*+,;=\/?#@%]/
 
 %ignore WS
-COMMENT: "#" /[^\n]/*
+COMMENT: "#" /[^\n\r]/*
 %ignore COMMENT
 """
 
-- 
2.43.0


From 2d3a8ee34e342fdc43fc754f519b6181643ec118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:12 +0000
Subject: [PATCH 40/49] fix: N-Triples IRIs silently lost the white space
 inside them

---
 src/pymantic/parsers/lark/ntriples.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 87b80ef..a562b8b 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -36,7 +36,8 @@ literal: STRING_LITERAL_QUOTE ("^^" iriref | LANGTAG)?
 
 LANGTAG: "@" /[a-zA-Z]/+ ("-" /[a-zA-Z0-9]/+)*
 EOL: /[\r\n]/+
-iriref: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
+iriref: IRIREF
+IRIREF: "<" (/[^\x00-\x20<>"{}|^`\\]/ | UCHAR)* ">"
 STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
@@ -58,8 +59,8 @@ class NTriplesTransformer(BaseParser, Transformer):
         return self.make_blank_node(bn_label.value)
 
     def iriref(self, children):
-        iri = "".join(children)
-        iri = decode_literal(iri)
+        (iri,) = children
+        iri = decode_literal(iri[1:-1])  # Remove <>
         return self.make_named_node(iri)
 
     def literal(self, children):
-- 
2.43.0


From aab322efc93f3c086d5de0a4e2ce814c1adea100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:15 +0000
Subject: [PATCH 41/49] fix: references were refused under a language or
 datatype filter

---
 src/pymantic/rdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index dd93b6d..2e8aff7 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -507,7 +507,7 @@ class Resource(metaclass=MetaResource):
         dictionary-style set with explicit type information."""
         if not check_objects(self.graph, value, lang, datatype, rdf_class):
             raise ValueError("Improper value provided.")
-        if lang and predicate in self.scalars:
+        if lang and predicate in self.scalars and not isinstance(value, Resource):
             return (
                 self.objects_by_lang(predicate, lang)
                 + self.objects_by_datatype(predicate)
@@ -598,6 +598,8 @@ def check_objects(graph, value, lang, datatype, rdf_class):
         isinstance(value, tuple) and not isinstance(value, Literal)
     ):
         for v in value:
+            if isinstance(v, Resource) and not rdf_class:
+                continue  # References go with any language or datatype.
             if (
                 (
                     lang
@@ -609,6 +611,8 @@ def check_objects(graph, value, lang, datatype, rdf_class):
                 return False
         return True
     else:
+        if isinstance(value, Resource) and (lang or datatype):
+            return True  # References go with any language or datatype.
         return (
             (lang and lang_match(value.language, lang))
             or (datatype and value.datatype == datatype)
-- 
2.43.0


From 3cc8b11cbef5309272b4637d216eb37ee040502a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 42/49] fix: classifying a resource failed when a class
 inherits from two others of its types

Combining X(A, B) with B and A, in an order that depends on the names of their
types, asked Python for an impossible method resolution order.
---
 src/pymantic/rdf.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 2e8aff7..15ee5d9 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -412,10 +412,21 @@ class Resource(metaclass=MetaResource):
             return python_classes[0](graph, obj)
         else:
             if types not in cls._meta_resource._classes:
+                # A class that another one inherits from comes in with it;
+                # naming it again could contradict the order of that one's bases.
+                bases = tuple(
+                    python_class
+                    for python_class in python_classes
+                    if not any(
+                        issubclass(other, python_class)
+                        for other in python_classes
+                        if other is not python_class
+                    )
+                )
                 the_class = cls._meta_resource.__new__(
                     cls._meta_resource,
                     "".join(python_class.__name__ for python_class in python_classes),
-                    python_classes,
+                    bases,
                     {"_autocreate": True, "rdf_classes": types},
                 )
                 cls._meta_resource._classes.setdefault(types, the_class)
-- 
2.43.0


From f8fc94d8a536ada085cf8f607e9bb7ace49f28fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:45 +0000
Subject: [PATCH 43/49] fix: classes registered after a combination of types
 was met were left out of it

The combined class was remembered by the types alone, so a class registered
later for one of them (by a module imported later) was never combined in.
---
 src/pymantic/rdf.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pymantic/rdf.py b/src/pymantic/rdf.py
index 15ee5d9..b4816f2 100644
--- a/src/pymantic/rdf.py
+++ b/src/pymantic/rdf.py
@@ -411,7 +411,8 @@ class Resource(metaclass=MetaResource):
         elif len(python_classes) == 1:
             return python_classes[0](graph, obj)
         else:
-            if types not in cls._meta_resource._classes:
+            combination = (types, python_classes)
+            if combination not in cls._meta_resource._classes:
                 # A class that another one inherits from comes in with it;
                 # naming it again could contradict the order of that one's bases.
                 bases = tuple(
@@ -429,8 +430,8 @@ class Resource(metaclass=MetaResource):
                     bases,
                     {"_autocreate": True, "rdf_classes": types},
                 )
-                cls._meta_resource._classes.setdefault(types, the_class)
-            return cls._meta_resource._classes[types](graph, obj)
+                cls._meta_resource._classes.setdefault(combination, the_class)
+            return cls._meta_resource._classes[combination](graph, obj)
 
     def _interpret_key(self, key):
         """Break up a key into a predicate name and optional language or
-- 
2.43.0


From 83ed1f2f94d5aaca54a7cc3d97bbf89793e978dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:40 +0000
Subject: [PATCH 44/49] fix: a redirected update or graph store operation was
 reported done, or emptied the graph

requests follows a 301, 302 or 303 without the body of the request and usually
as a GET: the update was reported as successful without having been sent, and a
graph put to an address answering 301 was replaced by an empty one.
---
 src/pymantic/sparql.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/pymantic/sparql.py b/src/pymantic/sparql.py
index 5296a4b..1f8f2a5 100644
--- a/src/pymantic/sparql.py
+++ b/src/pymantic/sparql.py
@@ -180,6 +180,19 @@ class _Update(_SelectOrUpdate):
         return True
 
 
+class _Session(requests.Session):
+
+    """A session that follows only redirects that leave the request as it is.
+
+    Redirected by anything but a 307 or 308, requests drops the body, and sends
+    most requests again as a GET."""
+
+    def get_redirect_target(self, resp):
+        if resp.request.method != "GET" and resp.status_code not in (307, 308):
+            return None
+        return super(_Session, self).get_redirect_target(resp)
+
+
 class SPARQLServer:
 
     """A server that can run SPARQL queries."""
@@ -192,7 +205,7 @@ class SPARQLServer:
         if verify is not None:
             self.requests_kwargs = {"verify": verify}
 
-        self.s = requests.Session()
+        self.s = _Session()
 
     acceptable_sparql_responses = [
         "application/sparql-results+json",
-- 
2.43.0


From 61db9b326194435718cf307604a587a97f8e7ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 45/49] fix: a CURIE with an empty reference was resolved
 against the default prefix

---
 src/pymantic/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 5ab913e..0bcaa17 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -72,7 +72,7 @@ def parse_curie(curie, prefixes):
     if not definitely_curie:
         if prefix in uri_schemes.schemes:
             return NamedNode(curie)
-    if not reference and "" in prefixes:
+    if not sep and "" in prefixes:
         reference = prefix
         return Prefix(prefixes[""])(reference)
     if prefix in prefixes:
-- 
2.43.0


From 0d0058d15fa413e1c4b3c1460ede6577978350d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:45 +0000
Subject: [PATCH 46/49] fix: profiles made from an environment shared its
 prefixes and lost its default vocabulary

---
 src/pymantic/primitives.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/pymantic/primitives.py b/src/pymantic/primitives.py
index 0bcaa17..a0751ff 100644
--- a/src/pymantic/primitives.py
+++ b/src/pymantic/primitives.py
@@ -737,8 +737,8 @@ class Profile:
     Terms and IRIs."""
 
     def __init__(self, prefixes=None, terms=None):
-        self.prefixes = prefixes or PrefixMap()
-        self.terms = terms or TermMap()
+        self.prefixes = PrefixMap() if prefixes is None else prefixes
+        self.terms = TermMap() if terms is None else terms
         if "rdf" not in self.prefixes:
             self.prefixes["rdf"] = "http://www.w3.org/1999/02/22-rdf-syntax-ns#"
         if "xsd" not in self.prefixes:
@@ -831,13 +831,16 @@ class RDFEnvironment(Profile):
         if empty:
             return Profile()
         else:
-            return Profile(self.prefixes, self.terms)
+            return Profile(self.createPrefixMap(), self.createTermMap())
 
     def createTermMap(self, empty=False):
         if empty:
             return TermMap()
         else:
-            return TermMap(self.terms)
+            terms = TermMap(self.terms)
+            if hasattr(self.terms, "default"):
+                terms.setDefault(self.terms.default)
+            return terms
 
     def createPrefixMap(self, empty=False):
         if empty:
-- 
2.43.0


From 367040d040c37deb1fe5830ff23dab468bf2a596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 47/49] fix: N-Triples blank node labels took in any character
 up to U+EFFF, so a label swallowed the < or . after it, malformed labels were
 accepted and astral ones refused

---
 src/pymantic/parsers/lark/ntriples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index a562b8b..20a082a 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -42,7 +42,7 @@ STRING_LITERAL_QUOTE: "\"" (/[^\x22\\\x0A\x0D]/ | ECHAR | UCHAR)* "\""
 BLANK_NODE_LABEL: "_:" (PN_CHARS_U | "0".."9") ((PN_CHARS | ".")* PN_CHARS)?
 UCHAR: "\\u" HEX~4 | "\\U" HEX~8
 ECHAR: "\\" /[tbnrf"'\\]/
-PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u10000-\uEFFFF]/
+PN_CHARS_BASE: /[A-Za-z\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]/
 PN_CHARS_U: PN_CHARS_BASE | "_" | ":"
 PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
-- 
2.43.0


From 26398c449be3c444c2fd8daef6eae4f2c92d3073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 48/49] fix: N-Triples and N-Quads documents with comments or
 lines of white space could not be read

---
 src/pymantic/parsers/lark/ntriples.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pymantic/parsers/lark/ntriples.py b/src/pymantic/parsers/lark/ntriples.py
index 20a082a..40287af 100644
--- a/src/pymantic/parsers/lark/ntriples.py
+++ b/src/pymantic/parsers/lark/ntriples.py
@@ -18,10 +18,10 @@ from pymantic.util import decode_literal
 
 from .base import LarkParser
 
-grammar = r"""triples_start: triple? (EOL triple)* EOL?
+grammar = r"""triples_start: triple? (EOL triple?)*
 triple: subject predicate object "."
 
-quads_start: quad? (EOL quad)* EOL?
+quads_start: quad? (EOL quad?)*
 quad: subject predicate object graph? "."
 
 ?subject: iriref
@@ -48,6 +48,8 @@ PN_CHARS: PN_CHARS_U | /[\-0-9\u00B7\u0300-\u036F\u203F-\u2040]/
 HEX: /[0-9A-Fa-f]/
 
 %ignore /[ \t]/+
+COMMENT: "#" /[^\n\r]/*
+%ignore COMMENT
 """
 
 
-- 
2.43.0


From 9adf2586d40b695d097bb4dda220e76407c71a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:55 +0000
Subject: [PATCH 49/49] fix: with a base set, Turtle changed absolute IRIs
 (scheme case, empty query) and did not resolve references against bases of
 other schemes

---
 src/pymantic/util.py | 65 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/src/pymantic/util.py b/src/pymantic/util.py
index 47cb589..b75966c 100644
--- a/src/pymantic/util.py
+++ b/src/pymantic/util.py
@@ -89,15 +89,66 @@ def quote_normalized_iri(normalized_iri):
     return quote(normalized_uri, safe="".join(reserved_in_iri))
 
 
+# The parts of an IRI reference: scheme, authority, path, query and fragment
+# (RFC 3986, appendix B).
+iri_parts_re = re.compile(
+    r"(?:([A-Za-z][A-Za-z0-9+.-]*):)?(?://([^/?#]*))?([^?#]*)(?:\?([^#]*))?(?:#(.*))?",
+    re.DOTALL,
+)
+
+
+def remove_dot_segments(path):
+    segments = path.split("/")
+    output = []
+    for segment in segments:
+        if segment == "..":
+            if output and output != [""]:
+                output.pop()
+        elif segment != ".":
+            output.append(segment)
+    if segments[-1] in (".", ".."):
+        output.append("")
+    return "/".join(output)
+
+
 def smart_urljoin(base, url):
-    """urljoin, only an empty fragment from the relative(?) URL will be
-    preserved.
+    """Resolve an IRI reference against a base IRI (RFC 3986, section 5.2), for
+    any scheme. Nothing is normalized: an IRI that is absolute already is
+    returned unchanged.
     """
-    from urllib.parse import urljoin
-
-    joined = urljoin(base, url)
-    if url.endswith("#") and not joined.endswith("#"):
-        joined += "#"
+    scheme, authority, path, query, fragment = iri_parts_re.fullmatch(url).groups()
+    if scheme is not None or not base:
+        return url
+
+    scheme, base_authority, base_path, base_query, _ = iri_parts_re.fullmatch(
+        base
+    ).groups()
+
+    if authority is not None:
+        path = remove_dot_segments(path)
+    elif path:
+        if not path.startswith("/"):
+            if base_authority is not None and not base_path:
+                base_path = "/"
+            path = base_path[: base_path.rfind("/") + 1] + path
+        path = remove_dot_segments(path)
+    else:
+        path = base_path
+        if query is None:
+            query = base_query
+
+    if authority is None:
+        authority = base_authority
+
+    joined = path
+    if authority is not None:
+        joined = "//" + authority + joined
+    if scheme is not None:
+        joined = scheme + ":" + joined
+    if query is not None:
+        joined += "?" + query
+    if fragment is not None:
+        joined += "#" + fragment
     return joined
 
 
-- 
2.43.0

