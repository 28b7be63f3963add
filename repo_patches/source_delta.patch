From 8146b723e0037ab4fbfa9f6019956a5c4fb941b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 01/86] fix: keep tabs, newlines and carriage returns in
 attribute values when writing

---
 lib/sldr/ldml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 86d12a7..b1c9fc8 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -56,6 +56,10 @@ _elementprotect = {
 _attribprotect = dict(_elementprotect)
 _attribprotect['"'] = '&quot;'
 _attribprotect["'"] = '&apos;'
+_attribprotect['\t'] = '&#9;'      # otherwise a parser turns them into spaces
+_attribprotect['\n'] = '&#10;'
+_attribprotect['\r'] = '&#13;'
+_elementprotect['\r'] = '&#13;'
 
 _basenamespaces = {
     'urn://www.sil.org/ldml/0.1':           'sil',
-- 
2.43.0


From 960ea513eb376342f89a445c133d77169f82d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 02/86] fix: a CDATA value containing ]]> was written as a
 malformed document

---
 lib/sldr/ldml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b1c9fc8..fbc7e90 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -180,7 +180,8 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = "<![CDATA[\n\t" + indent + base.text.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
+                t = base.text.replace(']]>', ']]]]><![CDATA[>')
+                t = "<![CDATA[\n\t" + indent + t.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
             write('/>\n')
-- 
2.43.0


From c58ecf9820463920b807ce64f34142806964d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 03/86] fix: normalising must not strip no-break spaces and
 other Unicode spaces from values

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index fbc7e90..deb564f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -779,7 +779,7 @@ class Ldml(ETWriter):
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-            t = base.text.strip()
+            t = base.text.strip(' \t\r\n')    # only XML whitespace, a no-break space is content
             base.text = re.sub(r'[ \t]*\n[ \t]*', '\n', t)       # content hash has text in lines
         base.tail = None
         if usedrafts or addguids:
-- 
2.43.0


From bd22c0fd68592a00f99204039aae82ec0b13b8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 04/86] fix: writing one document must not suppress namespace
 declarations in the next one

---
 lib/sldr/ldml.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index deb564f..19b2385 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -136,9 +136,10 @@ class ETWriter(object):
             return self.attributeOrder.get(n.tag, {}).get(x, self.maxAts)
         return sorted((attribs if attribs is not None else n.keys()), key=lambda x:(getorder(x), x))
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None):
         """ Output the object using write() in a normalised way:
             topns if set puts all namespaces in root element else put them as low as possible"""
+        namespaces = {} if namespaces is None else namespaces.copy()
         if base is None:
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
@@ -158,7 +159,7 @@ class ETWriter(object):
             for c in base:
                 (lt, lq, lns) = self._localisens(c.tag)
                 if lns and lns not in namespaces:
-                    namespaces[lns] = q # TODO: Confirm if this really should be q or is a typo for lq
+                    namespaces[lns] = lq
                     localattribs['xmlns:'+lq] = lns
         self._nsprotectattribs(getattr(base, 'attrib', None), localattribs, namespaces)
         for c in getattr(base, 'comments', []):
@@ -188,7 +189,7 @@ class ETWriter(object):
         for c in getattr(base, 'commentsafter', []):
             write('{}<!--{}-->\n'.format(indent, c))
 
-    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = {}):
+    def save_as(self, fname, base = None, indent = '', topns = True, namespaces = None):
         """ A more comfortable serialize_xml using a filename"""
         with codecs.open(fname, "w", encoding="utf-8") as outf:
             self.serialize_xml(outf.write, base=base, indent=indent, topns=topns, namespaces=namespaces)
@@ -869,7 +870,7 @@ class Ldml(ETWriter):
         res += n.tag + "".join('[@{}="{}"]'.format(*x) for x in tests)
         return res
 
-    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}, nouid=True):
+    def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = None, nouid=True):
         """ Output this LDML to the given io stream """
         if base is None and getattr(self, 'uid', None) is not None and not nouid:
             dstatus = self.use_draft
-- 
2.43.0


From accfd5a1e0d526ff07ffe39e2bac0feac178ff3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:02 +0000
Subject: [PATCH 05/86] fix: documents may bind their own prefixes, reuse one
 prefix or use a default namespace

---
 lib/sldr/ldml.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 19b2385..5341415 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -451,7 +451,13 @@ class Ldml(ETWriter):
         parser.parser.CommentHandler = doComment
         for event, elem in et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser):
             if event == 'start-ns':
-                self.namespaces[elem[1]] = elem[0]
+                (prefix, uri) = elem
+                if uri and uri not in self.namespaces:
+                    count = 0
+                    while not prefix or prefix in self.namespaces.values():
+                        prefix = 'ns' + str(count)
+                        count += 1
+                    self.namespaces[uri] = prefix
             elif event == 'start':
                 elem.document = self
                 if elem.tag == '!--':
-- 
2.43.0


From 0ca02da186e4c73cccfb85a85b63f6dcdea2887e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 06/86] fix: text after a comment inside an element was lost
 when reading

---
 lib/sldr/ldml.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5341415..92994b9 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -474,7 +474,11 @@ class Ldml(ETWriter):
             elif elem.tag == '!--':
                 if curr is not None:
                     curr.remove(elem)
+                    if not len(curr):       # text may follow, but isn't known yet
+                        curr.removed = getattr(curr, 'removed', []) + [elem]
             else:
+                for c in getattr(elem, 'removed', []) if not len(elem) else []:
+                    elem.text = (elem.text or '') + (c.tail or '')
                 if len(comments) and len(elem):
                     elem[-1].commentsafter = comments
                     comments = []
-- 
2.43.0


From 6020afcea7b1de67989012853aeda0b76d240493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:15 +0000
Subject: [PATCH 07/86] fix: reading a document that only inherits values
 crashed

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 92994b9..5360a1b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -483,12 +483,12 @@ class Ldml(ETWriter):
                     elem[-1].commentsafter = comments
                     comments = []
                 curr = getattr(elem, 'parent', None)
-                if not uparrows:
+                if not uparrows and curr is not None:
                     if elem.text == "↑↑↑" or \
                                 (getattr(elem, 'hasdeletedchild', False) and len(elem) == 0):
                         curr.remove(elem)
                         curr.hasdeletedchild = True
-                    elif curr is not None:
+                    else:
                         curr.hasdeletedchild = False
         fh.close()
         self._analyse()
-- 
2.43.0


From 9fddaf4ce062837f78b478c17281f36cbaa29614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:32 +0000
Subject: [PATCH 08/86] fix: comments after the last element of a document were
 lost

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5360a1b..9a46524 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -490,6 +490,8 @@ class Ldml(ETWriter):
                         curr.hasdeletedchild = True
                     else:
                         curr.hasdeletedchild = False
+        if len(comments):
+            self.root.commentsafter = comments
         fh.close()
         self._analyse()
         self.normalise(self.root, usedrafts=usedrafts)
-- 
2.43.0


From f0716f1aa99b3bf8b0f2ab6e6682af48bed2a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:53 +0000
Subject: [PATCH 09/86] fix: the order of siblings differing only in case
 depended on the input order

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 9a46524..3fe70c7 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -788,7 +788,7 @@ class Ldml(ETWriter):
                         res += (k, self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))
                     else:
                         res += (k, a.lower())
-                return res
+                return (res, [x.get(l) for l in xl])    # values may only differ in case
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-- 
2.43.0


From 6c0c6a8e5d0fbac769a8eaad1e9d690968f56794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:27 +0000
Subject: [PATCH 10/86] fix: asking for a value that is an alternate crashed
 instead of finding it

---
 lib/sldr/ldml.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 3fe70c7..4833dbb 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -718,11 +718,13 @@ class Ldml(ETWriter):
             curr = newcurr
             newcurr = []
             for job in curr:
-                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.keys()
-                for j in itertools.chain([job], extras):
+                extras = {} if draft is None or not hasattr(job, 'alternates') else dict(job.alternates)
+                for k, j in itertools.chain([(None, job)], extras.items()):
                     if j.text == text:
                         if draft is not None and self.get_draft(j) > draftratings.get(draft, len(draftratings)):
                             self.change_draft(j, draft, alt=alt)
+                            if j is not job and self.get_draft(j) < self.get_draft(job):
+                                self._promote(job, j, alt=k)
                         newcurr.append(j)
             if not len(newcurr):
                 tag = steps[-1]
-- 
2.43.0


From 5870822936bea8dd5e727d2011ca0fed104d1e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 11/86] fix: adding a worse draft overwrote the text of the
 better one in the same alternate

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 4833dbb..2d3ad6f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -627,7 +627,7 @@ class Ldml(ETWriter):
                     parent.remove(se)
                     parent.insert(j, se)
                     break
-        if text is not None:
+        if text is not None and not se.text:    # leave an existing better alternate as it is
             se.text = text
         return se
 
-- 
2.43.0


From 9f8e24ca06d47efa0527427971e41d81c68e7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:56 +0000
Subject: [PATCH 12/86] fix: an alternate promoted after writing disappeared on
 the next write

---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 2d3ad6f..bdd8fbc 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -911,6 +911,7 @@ class Ldml(ETWriter):
             for c in list(n):
                 if hasattr(c, 'tempnode') and c.tempnode:
                     n.remove(c)
+                    c.tempnode = False
 
     def get_draft(self, e, default=None):
         """ Return a draft numeric level for this node """
-- 
2.43.0


From 3aebdbbb24aaf824aecd73e6f03ecccd0438cdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 13/86] fix: a displaced primary value must not share the
 alternates of its successor

---
 lib/sldr/ldml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index bdd8fbc..1307d65 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -589,6 +589,8 @@ class Ldml(ETWriter):
         oalt = getattr(old, 'alternates', {})
         if nalt is not None:
             old.alternates = nalt
+        elif hasattr(old, 'alternates'):
+            del old.alternates
         if oalt is not None:
             new.alternates = oalt
         if alt is None:
-- 
2.43.0


From afaef97c48598bf38984d8eeca5b4afc455899bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:39 +0000
Subject: [PATCH 14/86] fix: lowering a draft without naming an alternate must
 not overwrite another alternate

---
 lib/sldr/ldml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 1307d65..bf1a1aa 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -610,7 +610,8 @@ class Ldml(ETWriter):
 
     def change_draft(self, node, draft, alt=None):
         ''' Change the draft on a node, moving it in the alts hierarchy if necessary. '''
-        alt = self.alt(alt)
+        if alt is not None:
+            alt = self.alt(alt)
         best = self._find_best(node, draftratings.get(draft, len(draftratings)), alt=alt)
         node.set('draft', draft)
         if best is None:
-- 
2.43.0


From efda72f4074e21013c0e00837562b02cbbcee098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 15/86] fix: paths may contain / in attribute values and
 namespaces

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index bf1a1aa..8a2ca6d 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -694,7 +694,7 @@ class Ldml(ETWriter):
         if path.startswith("/"):
             raise SyntaxError
         steps = []
-        for s in path.split("/"):
+        for s in re.split(r'/(?![^\[{]*[\]}])', path):     # not in attribute values or {ns}
             parts = re.split(r"\[(.*?)\]", s)
             tag = parts.pop(0)
             tag = self._reverselocalns(tag)
-- 
2.43.0


From d0ddecf228314b47fd2fdeb65a0cef0704492fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 16/86] fix: flattening a locale changed the parent locales
 everybody else sees

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 18b26a4..a0f22b7 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -421,7 +421,7 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
     if skipstubs and len(l.root) == 1 and l.root[0].tag == 'identity': return None
     ls = getscript(l)
     if rev != 'c':
-        fallbacks = l.get_parent_locales(lname)
+        fallbacks = list(l.get_parent_locales(lname))   # a copy, it is extended below
         if not len(fallbacks):
             fallbacks = [trimtag(lname)]
         if 'root' not in fallbacks and lname != 'root':
-- 
2.43.0


From 1700a0016212881ed9a645e44be241d537d162ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 17/86] fix: a document with a fallback element could not be
 flattened

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 8a2ca6d..bd63706 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -767,7 +767,7 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.split()
+            return (fall.text or '').split()
         elif thislangtag in self.parentLocales:
             return self.parentLocales[thislangtag]
         else:
-- 
2.43.0


From 624d1462fa90ca369d3a5f79bc1093005e2f68a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:27 +0000
Subject: [PATCH 18/86] fix: elements have no copy() method since Python 3.9,
 which broke merging and aliases

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index bd63706..c10cc3c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,7 +26,7 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs
+import copy, re, os, codecs
 import xml.parsers.expat
 import functools
 from math import log10
@@ -497,7 +497,7 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
-        res = n.copy()
+        res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
-- 
2.43.0


From 2c07d508f682a3e2732e99166669c82e76bc321b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:17 +0000
Subject: [PATCH 19/86] fix: flattening crashed without external resources and
 replaced a locale's own fonts

---
 lib/sldr/ldml_merge.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index a0f22b7..f0b825f 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -99,32 +99,27 @@ class LdmlMerge(Ldml):
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
-        fonts = []
-        this = [x for x in this if x.attrHash == other.attrHash][0]
-        for t in list(this):
+        matches = [x for x in this if x.attrHash == other.attrHash]
+        if not len(matches):
+            this.append(other)
+            return
+        this = matches[0]
+        taken = set()           # types for which this already has a font
+        for t in this:
             if t.tag == silfonttag:
-                fonts.append(t)
-                this.remove(t)
+                taken.update((t.get('types') or 'default').split())
         for o in other:
             if o.tag == silfonttag:
-                types = o.get('types', '').split(' ')
-                if not len(types):
-                    types = ['default']
-                for t in types:
-                    if t == 'default':
-                        fonts = []
-                        break
-                    else:
-                        for f in fonts:
-                            tt = f.get('types', 'default').split(' ')
-                            if t in tt:
-                                f.set('types', " ".join(x for x in tt if x != t))
-                        fonts = [x for x in fonts if x.get('types', '') != '']
+                types = (o.get('types') or 'default').split()
+                missing = [t for t in types if t not in taken]
+                if 'default' in taken or not len(missing):
+                    continue
+                if missing != types:
+                    o = self._copynode(o, this)
+                    o.set('types', " ".join(missing))
                 this.append(o)
             else:
                 self._overlay_child(o, this, usedrafts)
-        for f in fonts:
-            this.append(f)
 
     def flag_nonroots(self):
         """ Add @sil:modified="true" to collation elements"""
-- 
2.43.0


From 111da17f8d92f10d9bf9bc3d96c3e8edd78b4f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 20/86] fix: unflattening must keep fonts that flattening would
 not restore

---
 lib/sldr/ldml_merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index f0b825f..355fc15 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -57,7 +57,11 @@ class LdmlMerge(Ldml):
         # if empty elements, test .text and all the attributes
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
+        # fonts fall back together: they can only be inherited again if they are all the same
+        fonts = [[x.contentHash.hashed for x in e if x.tag == '{'+self.silns+'}font'] for e in (this, other)]
         for o in other:
+            if o.tag == '{'+self.silns+'}font' and fonts[0] != fonts[1]:
+                continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-- 
2.43.0


From aebb9a3f4677042074f063576df94238ffd7c531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 21/86] fix: unflattening lost an element's own attributes when
 its children were inherited

---
 lib/sldr/ldml_merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 355fc15..d546084 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -73,6 +73,8 @@ class LdmlMerge(Ldml):
                     else:
                         this.remove(t)
                 break
+        if any(this.get(k) != other.get(k) for k in set(this.keys()) | set(other.keys()) if k not in ('draft', 'alt')):
+            return False            # its own attributes are not inherited with the children
         return not len(this) and (not this.text or this.text == other.text)
 
     def overlay(self, other, usedrafts=False, this=None):
-- 
2.43.0


From 67d9f3b817db9e2f0feafaa54c60d6b327cdc196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 22/86] fix: merging without a default draft crashed

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index d546084..ca3a571 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -192,7 +192,7 @@ class LdmlMerge(Ldml):
            Returns True if the merge did the work."""
         res = False
         if default is None:
-            default = base.default_draft
+            default = self.default_draft
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-- 
2.43.0


From 85d4e53850f853c1fa643ceab82d6572b0a8b5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 23/86] fix: what both sides add below a new element was lost
 from one of them when merging

---
 lib/sldr/ldml_merge.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index ca3a571..94e20ed 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -288,7 +288,10 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
+                if t.mergeOther is not None and (len(t) or len(t.mergeOther)):      # added by both
+                    if t.mergeOther.contentHash != t.contentHash:
+                        res |= self.merge(t.mergeOther, None, t, default=default)
+                elif self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
                     self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
@@ -328,11 +331,11 @@ class LdmlMerge(Ldml):
         oattrs = set(other.keys() if other is not None else [])
         for k in list(this.keys()):                                  # go through our attributes
             if k in oattrs:
-                if k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
+                if base is not None and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
                 elif this.get(k) != other.get(k):
-                    self.clash_attrib(k, this.get(k), other.get(k), base.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
+                    self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
             elif base is not None and k in base.attrib:                        # o deleted it
-- 
2.43.0


From ded3f712f83225095c5ffcf89c5cd1517574e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:44 +0000
Subject: [PATCH 24/86] fix: merging must report that it took something over

---
 lib/sldr/ldml_merge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 94e20ed..c39c5ba 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -172,8 +172,10 @@ class LdmlMerge(Ldml):
                 if t.mergeBase is None:
                     t.mergeBase = bdict.pop(t.attrHash)
                     if t.mergeBase is not None: del blist[t.mergeBase.contentHash]
+        added = []
         for e in olist.values():       # pick up stuff in other but not in this
             newe = self._copynode(e, this)
+            added.append(newe)
             if base is not None and e.contentHash in blist:
                 newe.mergeBase = blist.pop(e.contentHash)
             elif base is not None:
@@ -186,6 +188,7 @@ class LdmlMerge(Ldml):
                 newe.mergeBase = None
             newe.mergeOther = None     # don't do anything with this in merge()
             this.append(newe)
+        return added
 
     def _merge_with_alts(self, base, other, target, default=None, copycomments=None):
         """3-way merge the alternates putting the results in target. Assumes target content is the required ending content.
@@ -284,7 +287,7 @@ class LdmlMerge(Ldml):
         if this == None: this = self.root
         if other is not None and hasattr(other, 'root'): other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
-        self._align(this, other, base)
+        added = self._align(this, other, base)
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
@@ -292,7 +295,7 @@ class LdmlMerge(Ldml):
                     if t.mergeOther.contentHash != t.contentHash:
                         res |= self.merge(t.mergeOther, None, t, default=default)
                 elif self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
-                    self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                    res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
@@ -310,6 +313,7 @@ class LdmlMerge(Ldml):
                 res = True
             elif self.useDrafts:
                 res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+        res |= any(t in added for t in this)
         if base is not None and this.text == base.text:
             if other is not None:
                 res = res or (this.text != other.text)
-- 
2.43.0


From 47a57292face383177c57fd8d17d007f9693af1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:02 +0000
Subject: [PATCH 25/86] fix: merging values with different drafts crashed since
 elements have no copy() method

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index c39c5ba..1ba839d 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -276,7 +276,7 @@ class LdmlMerge(Ldml):
 
     
     def _add_alt(self, target, origin, default='unconfirmed'):
-        self._add_alt_leaf(target, origin.copy(),
+        self._add_alt_leaf(target, self._copynode(origin, target.parent),
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
-- 
2.43.0


From 365405c91da1377932dfbed5883f27a71c92afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:32 +0000
Subject: [PATCH 26/86] fix: normalising a second time dropped all draft
 alternates

---
 lib/sldr/ldml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index c10cc3c..ed3c64a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -818,6 +818,9 @@ class Ldml(ETWriter):
                 for nk in list(v.keys()):
                     if nk is not resk:
                         del v[nk]
+                for nk, nv in getattr(v[resk], 'alternates', {}).items():   # packed up earlier
+                    if nk not in newalts or self.get_draft(nv, self.default_draft) < self.get_draft(newalts[nk], self.default_draft):
+                        newalts[nk] = nv
                 v[resk].alternates = newalts
             tbase = list(base)
             for c in tbase:
-- 
2.43.0


From 849a34baf1d301cbf553f347fa99348788255e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:21 +0000
Subject: [PATCH 27/86] fix: our change was lost in a merge when the other side
 removed a better value

---
 lib/sldr/ldml_merge.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 1ba839d..91f687e 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -199,7 +199,10 @@ class LdmlMerge(Ldml):
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-            self._add_alt(base, target, default=default)  # add target as alt of base
+            alts = dict(getattr(target, 'alternates', {}))  # target becomes an alternate of its new content
+            if self.alt() not in alts or self.get_draft(alts[self.alt()], default) >= self.get_draft(target, default):
+                alts[self.alt()] = self._copynode(target, target.parent)
+            target.alternates = alts
             target[:] = base                                # replace content of target
             for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                 if hasattr(base, a):
-- 
2.43.0


From f2a7b765e8ba412f80cdc997aa5fb522673c0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 28/86] fix: what one document takes over from another must not
 stay part of the other one

---
 lib/sldr/ldml.py       | 10 ++++++++--
 lib/sldr/ldml_merge.py | 28 ++++++++++++++--------------
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index ed3c64a..5c1b2c6 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -497,12 +497,18 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
+        """ Makes a copy of a node, with everything in it, for use in this document """
         res = copy.copy(n)
-        for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
+        for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent'):
             if hasattr(n, a):
-                setattr(res, a, getattr(n, a, None))
+                v = getattr(n, a, None)
+                setattr(res, a, list(v) if isinstance(v, list) else v)
+        res.document = self
         if parent is not None:
             res.parent = parent
+        res[:] = [self._copynode(c, res) for c in n]
+        if hasattr(n, 'alternates'):
+            res.alternates = {k: self._copynode(v, parent) for k, v in n.alternates.items()}
         return res
 
     def addnode(self, parent, tag, attrib=None, alt=None, returnnew=False, **attribs):
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 91f687e..f4afd37 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -100,14 +100,14 @@ class LdmlMerge(Ldml):
                     t.text = o.text
             break  # only do one alignment
         if addme and (o.tag != "alias" or not len(this)):  # alias in effect turns it into blocking
-            this.append(o)
+            this.append(self._copynode(o, this))
 
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
         matches = [x for x in this if x.attrHash == other.attrHash]
         if not len(matches):
-            this.append(other)
+            this.append(self._copynode(other, this))
             return
         this = matches[0]
         taken = set()           # types for which this already has a font
@@ -120,8 +120,8 @@ class LdmlMerge(Ldml):
                 missing = [t for t in types if t not in taken]
                 if 'default' in taken or not len(missing):
                     continue
+                o = self._copynode(o, this)
                 if missing != types:
-                    o = self._copynode(o, this)
                     o.set('types', " ".join(missing))
                 this.append(o)
             else:
@@ -203,7 +203,7 @@ class LdmlMerge(Ldml):
             if self.alt() not in alts or self.get_draft(alts[self.alt()], default) >= self.get_draft(target, default):
                 alts[self.alt()] = self._copynode(target, target.parent)
             target.alternates = alts
-            target[:] = base                                # replace content of target
+            target[:] = [self._copynode(x, target) for x in base]                                # replace content of target
             for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                 if hasattr(base, a):
                     setattr(target, a, getattr(base, a, None))
@@ -221,7 +221,7 @@ class LdmlMerge(Ldml):
             else:
                 if getattr(self, 'clashadd', False):
                     self._add_alt(other, target, default=default)
-                target[:] = other
+                target[:] = [self._copynode(x, target) for x in other]
                 for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                     if hasattr(other, a):
                         setattr(target, a, getattr(other, a, None))
@@ -246,7 +246,7 @@ class LdmlMerge(Ldml):
         if other is None or not hasattr(other, 'alternates'): return False
         res = False
         if not hasattr(target, 'alternates'):
-            target.alternates = dict(other.alternates)
+            target.alternates = {k: self._copynode(v, target.parent) for k, v in other.alternates.items()}
             return (len(target.alternates) != 0)
         balt = getattr(base, 'alternates', {}) if base is not None else {}
         allkeys = set(sum((list(getattr(x, 'alternates', {}).keys()) for x in (base, target, other)), []))
@@ -254,26 +254,26 @@ class LdmlMerge(Ldml):
             if k not in balt:
                 if k not in other.alternates: continue
                 if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
-                    target.alternates[k] = other.alternates[k]
+                    target.alternates[k] = self._copynode(other.alternates[k], target.parent)
                     res = True
             elif k not in other.alternates:
                 if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):
-                    target.alternates[k] = balt[k]
+                    target.alternates[k] = self._copynode(balt[k], target.parent)
                     res = True
             elif k not in target.alternates:
                 if k not in other.alternates or self.get_draft(other.alternates[k], default) > self.get_draft(balt[k]):
-                    target.alternates[k] = balt[k]
+                    target.alternates[k] = self._copynode(balt[k], target.parent)
                 else:
-                    target.alternates[k] = other.alternates[k]
+                    target.alternates[k] = self._copynode(other.alternates[k], target.parent)
                 res = True
             elif self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
-                target.alternates[k] = other.alternates[k]
+                target.alternates[k] = self._copynode(other.alternates[k], target.parent)
                 res = True
             elif self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):
-                target.alternates[k] = balt[k]
+                target.alternates[k] = self._copynode(balt[k], target.parent)
                 res = True
             elif other.alternates[k].contentHash != balt[k].contentHash:
-                target.alternates[k] = other.alternates[k]
+                target.alternates[k] = self._copynode(other.alternates[k], target.parent)
                 res = True
         return res
 
@@ -305,7 +305,7 @@ class LdmlMerge(Ldml):
                     if not self.useDrafts or \
                             not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
                         this.remove(t)                                  # swap us out
-                        this.append(t.mergeOther)
+                        this.append(self._copynode(t.mergeOther, this))
                         res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
-- 
2.43.0


From f3d0929e2fad5706cdefb07fbfe47f4fb062732e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:40 +0000
Subject: [PATCH 29/86] fix: merging compared an alternate with the draft of no
 alternate at all

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index f4afd37..a07af70 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -253,7 +253,7 @@ class LdmlMerge(Ldml):
         for k in allkeys:
             if k not in balt:
                 if k not in other.alternates: continue
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
+                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
                     target.alternates[k] = self._copynode(other.alternates[k], target.parent)
                     res = True
             elif k not in other.alternates:
-- 
2.43.0


From 6ad56357a4e5e6e5c5525df7a3e8a757101cf0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:17 +0000
Subject: [PATCH 30/86] fix: elements in a namespace without a prefix were
 written without namespace, differently each time

---
 lib/sldr/ldml.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5c1b2c6..eb96281 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -107,11 +107,11 @@ class ETWriter(object):
         if tag[0] == '{':
             ns, localname = tag[1:].split('}', 1)
             qname = self.namespaces.get(ns, '')
-            if qname:
-                return ('{}:{}'.format(qname, localname), qname, ns)
-            else:
+            while not qname:
                 self.nscount += 1
-                return (localname, 'ns' + str(self.nscount), ns)
+                if 'ns' + str(self.nscount) not in self.namespaces.values():
+                    qname = self.namespaces[ns] = 'ns' + str(self.nscount)
+            return ('{}:{}'.format(qname, localname), qname, ns)
         else:
             return (tag, '', None)
 
@@ -144,6 +144,9 @@ class ETWriter(object):
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
             namespaces['http://www.w3.org/XML/1998/namespace'] = 'xml'
+            for e in base.iter():       # give every namespace a prefix first
+                for n in [e.tag] + list(e.keys()):
+                    self._localisens(n)
         (tag, q, ns) = self._localisens(base.tag)
         localattribs = {}
         if ns and ns not in namespaces:
-- 
2.43.0


From 9b61e1667cd65b8e38a781034930f60d7e5d0198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:56 +0000
Subject: [PATCH 31/86] fix: adding a draft after normalising or flattening a
 document made a second element instead of an alternate

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index eb96281..6ce07a3 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -810,7 +810,7 @@ class Ldml(ETWriter):
             base.text = re.sub(r'[ \t]*\n[ \t]*', '\n', t)       # content hash has text in lines
         base.tail = None
         if usedrafts or addguids:
-            self._calc_hashes(base, usedrafts=usedrafts)
+            self._calc_hashes(base, usedrafts=usedrafts or self.useDrafts)
         if usedrafts:        # pack up all alternates
             temp = {}
             for c in base:
-- 
2.43.0


From f7c4c6467a7d9acb1137b02f3f59c7c74ed82695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:31 +0000
Subject: [PATCH 32/86] fix: resolving a loop of aliases crashed

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6ce07a3..47b6a13 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -952,7 +952,7 @@ class Ldml(ETWriter):
                 children = this.findall(v)
                 if children is None or not len(children): continue
                 if children[0] in _cache:
-                    print("Alias loop discovered {} in {}".format(children[0], self.name))
+                    print("Alias loop discovered {} in {}".format(children[0], getattr(self, "fname", None)))
                     return True
                 _cache.add(children[0])
                 self.resolve_aliases(children[0], _cache)
-- 
2.43.0


From 855e3d8d9695ce825df438761c742f68b36d82de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 33/86] fix: flattening tailorings crashed on empty and
 circular imports and lost text after [import hr]

---
 lib/sldr/ldml.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 47b6a13..fe334bc 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -987,11 +987,14 @@ class Ldml(ETWriter):
         for k, v in kws.items():
             s.set(k, v)
 
-    def flatten_collation(self, collstr, importfn):
+    def flatten_collation(self, collstr, importfn, _active=()):
         """ Flattens [import] statements in a collation tailoring"""
         def doimport(m):
-            return self.flatten_collation(importfn(m.group('lang'), m.group('coll')), importfn)
-        return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr)
+            key = m.group('lang', 'coll')
+            if key in _active:      # something that imports itself
+                return ''
+            return self.flatten_collation(importfn(*key), importfn, _active + (key,))
+        return re.sub(r'\[import\s*(?P<lang>[^][]*?)-u-co-(?P<coll>[^][]*?)\s*\]', doimport, collstr or '')
 
 
 def _prepare_parent(next, token):
-- 
2.43.0


From 2f19ade6535cee46db0a425cf0bfdf9bc7999f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:12 +0000
Subject: [PATCH 34/86] fix: an import from en was taken from the importing
 file if its name ended in en, de-AT was not found

---
 lib/sldr/ldml_merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index a07af70..b517cfb 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -468,10 +468,8 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         collmap = {'phonebk' : 'phonebook'}
         def getcollator(lang, coll):
             try:
-                if l.fname.endswith(lang+'.xml'):
-                    c = l
-                else:
-                    c = getldml(('root' if lang == 'und' else lang), dirs)
+                lang = 'root' if lang == 'und' else lang.replace('-', '_')
+                c = l if lang == lname else getldml(lang, dirs)
                 col = c.root.find('collations/collation[@type="{}"]/cr'.format(collmap.get(coll, coll)))
                 return col.text
             except:
-- 
2.43.0


From a4e2043227abe9ae61611ac481db63a177efe33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:13 +0000
Subject: [PATCH 35/86] fix: unicode sets lost spaces in strings, misread
 escapes and \\] and could not nest

---
 lib/sldr/UnicodeSets.py | 162 ++++++++++++++++++++++------------------
 1 file changed, 91 insertions(+), 71 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index a9957b3..1dca64d 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -25,8 +25,9 @@
 import unicodedata
 import re
 
-hexescre = re.compile(r"(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
-hexgre = re.compile(r"\\u\{([0-9a-fA-F]+)\}")
+hexescre = re.compile(r"(?:\\[ux]\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
+tokenre = re.compile(hexescre.pattern + r"|\\u\{([0-9a-fA-F]+(?:\s+[0-9a-fA-F]+)+)\}|\\.|.", re.S)
+patternspaces = set(" \t\n\v\f\r\u0085\u200E\u200F\u2028\u2029")
 simpleescs = {
     'a' : "\u0007",
     'b' : "\u0008",
@@ -83,7 +84,7 @@ def _hex_escape(text, ucd):
     modified_text = ''
     is_isolated = True
     for char in text:
-        if ucd.need_hex_escape(char, is_isolated):
+        if char in patternspaces or ucd.need_hex_escape(char, is_isolated):
             char = _escape_using_hex(char)
         if char == ' ':
             is_isolated = True
@@ -196,13 +197,27 @@ def struni(s, groups=None):
     return s
 
 
+def tokenize(s):
+    '''Splits a string into characters and escaped characters. Hex escapes are converted, unescaped spaces dropped.
+        Other \\ escapes are not flattened here since we need to differentiate with action chars {}[]'''
+    def literal(h):
+        c = chr(int(h, 16))
+        return "\\" + c if c in patternspaces else escapechar(c)
+    res = []
+    for m in tokenre.finditer(s):
+        if m.lastindex is None:
+            if m.group(0) not in patternspaces:
+                res.append(m.group(0))
+        elif m.lastindex == hexescre.groups + 1:
+            res += ["{"] + [literal(x) for x in m.group(m.lastindex).split()] + ["}"]
+        else:
+            res.append(literal(m.group(m.lastindex)))
+    return res
+
+
 def parse(s, normal=None):
     '''Returns a sequence of UnicodeSet'''
-    # convert escapes
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
-    # don't flatten \\ escapes here since we need to differentiate with action chars {}[]
-    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}", s)
-    s = s.replace(' ', '')
+    s = tokenize(s)
     res = UnicodeSetSequence()
     i = 0
     currgroup = -1
@@ -220,95 +235,100 @@ def parse(s, normal=None):
     return res
 
 
+def closing(s, ind):
+    '''Returns the index of the ] that closes the class whose content starts at ind'''
+    depth = 1
+    while ind < len(s):
+        if s[ind] == '[':
+            depth += 1
+        elif s[ind] == ']':
+            depth -= 1
+            if depth == 0:
+                return ind
+        elif s[ind] == '{':
+            ind = s.index('}', ind)
+        ind += 1
+    raise ValueError("Missing ] in unicode set")
+
+
+def combine(op, a, b):
+    '''Returns the union (|), intersection (&) or difference (-) of two UnicodeSets either of which may be negative'''
+    bneg = b.negative != (op == '-')    # a difference is the intersection with the complement
+    if op == '|':
+        if a.negative:
+            r = a.intersection(b) if bneg else a.difference(b)
+        else:
+            r = b.difference(a) if bneg else a.union(b)
+        neg = a.negative or bneg
+    else:
+        if a.negative:
+            r = a.union(b) if bneg else b.difference(a)
+        else:
+            r = a.difference(b) if bneg else a.intersection(b)
+        neg = a.negative and bneg
+    res = UnicodeSet(r)
+    res.negate(neg)
+    res.setclass(True)
+    return res
+
+
 def parseitem(s, ind, lastitem, end, usegroups=False):
-    '''Parses a single UnicodeSet or character. Doesn't handle property sets or variables, yet.'''
+    '''Parses a single UnicodeSet or character from a list of tokens. Doesn't handle property sets or variables, yet.'''
     if ind == end:
         return (end, lastitem, None)
     res = UnicodeSet()
     if s[ind] == '[':
         ind += 1
-        if s[ind] == '^':
-            res.negate(True)
+        negative = s[ind:ind+1] == ['^']
+        if negative:
             ind += 1
         item = None
         res.setclass(True)
-        e = s.index(']', ind)
-        while e > 0 and s[e-1] == '\\' and s[e-2] != '\\':
-            e = s.index(']', e+1)
+        e = closing(s, ind)
         while ind < e:
+            if s[ind] in '&-' and item is not None and item.isclass:    # operators work on all that is to their left
+                item = combine('|', res, item)
+                res = UnicodeSet()
+                res.setclass(True)
             (ind, item, nextitem) = parseitem(s, ind, item, e)
-            if item:
-                res.update(item)
+            if item is not None:
+                res = combine('|', res, item)
             item = nextitem
-        if item:
-            res.update(item)
-        ind += 1
+        if item is not None:
+            res = combine('|', res, item)
+        res.negate(res.negative != negative)
+        ind = e + 1
     elif s[ind] in '|&-':
         op = s[ind]
         ind += 1
         if lastitem is None:        # treat as char
             res.add(op)
         else:
+            start = ind
             (ind, _, item) = parseitem(s, ind, None, end)
-            if op == '|' and lastitem and item:
-                if lastitem.negative:
-                    if item.negative:
-                        res = lastitem & item
-                    else:
-                        res = lastitem - item
-                elif item.negative:
-                    res = item - lastitem
-                    res.negate(True)
-                else:
-                    res = item.union(lastitem)
+            if item is None:
+                res.add(op)
+            elif op == '|' or op == '&' or (lastitem.isclass and item.isclass):
+                res = combine(op, lastitem, item)
                 lastitem = None
-            elif op == '&' and lastitem and item:
-                if lastitem.negative:
-                    if item.negative:
-                        res = item.union(lastitem)
-                    else:
-                        res = item - lastitem
-                elif item.negative:
-                    res = lastitem - item
-                else:
-                    res = item & lastitem
+            elif len(lastitem) == 1 and len(item) == 1 and len(min(lastitem)) == 1 and len(min(item)) == 1:     # char range
+                for x in range(ord(lastitem.pop()), ord(item.pop())+1):
+                    res.add(chr(x))
                 lastitem = None
-            elif op == '-':
-                # set difference
-                if lastitem and item and lastitem.isclass and item.isclass:
-                    if lastitem.negative:
-                        if item.negative:
-                            res = item - lastitem
-                        else:
-                            res = lastitem | item
-                    elif item.negative:
-                        res = lastitem & item
-                    else:
-                        res = lastitem - item
-                    lastitem = None
-                # char range
-                elif lastitem and item and len(lastitem) == 1 and len(item) == 1:
-                    for x in range(ord(lastitem.pop()), ord(item.pop())+1):
-                        res.add(chr(x))
-                    lastitem = None
-                else:
-                    res.add("-")
             else:
-                res.add(op)
+                res.add("-")
+                ind = start
     elif s[ind] == '{':
         e = s.index('}', ind+1)
-        while e > 0 and s[e-1] == '\\':
-            e = s.index('}', e+1)
-        res.add(simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s[ind+1:e]))
+        res.add("".join(simpleescs.get(x[-1], x[-1]) if len(x) > 1 else x for x in s[ind+1:e]))
         ind = e + 1
-    elif s[ind] == '\\':
-        x = s[ind+1]
-        try:
-            y = int(x)
-            res.add("\\"+x)
-        except:
+    elif s[ind][0] == '\\':
+        x = s[ind][-1]
+        if '0' <= x <= '9':
+            res.add(s[ind])
+        else:
             res.add(simpleescs.get(x, x))
-        ind += 2
+        ind += 1
     elif usegroups and s[ind] == '(':
         res.startgroup = True
         ind += 1
-- 
2.43.0


From 9dd6db67e82643ac9d7cf85c42dbbc1b5b006825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:42 +0000
Subject: [PATCH 36/86] fix: flattening a unicode set sequence lost
 combinations, reversing one crashed

---
 lib/sldr/UnicodeSets.py | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 1dca64d..aba08be 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -22,6 +22,7 @@
 # OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF
 # SUCH DAMAGE.
 
+import itertools
 import unicodedata
 import re
 
@@ -124,13 +125,13 @@ def escapechar(s):
 class UnicodeSetSequence(list):
 
     def __init__(self, *p, **kw):
-        super(list, self).__init__(*p, **kw)
+        super(UnicodeSetSequence, self).__init__(*p, **kw)
         self.groups = []
 
     def reverse(self):
-        new = UnicodeSetSequence(self)
+        new = UnicodeSetSequence(self[::-1])
         l = len(self)
-        new.groups = [(l-x[0], l-x[1]) for x in self.groups]
+        new.groups = [(l-x[1], l-x[0]) for x in self.groups]
         return new
 
 
@@ -162,31 +163,20 @@ class UnicodeSet(set):
         self.isclass = state
 
 
-def _expand(p, vals, ind, indval):
-    if vals[ind][indval].startswith("\\"):
-        g = p.group(int(vals[ind][indval][1]))
-        return "".join(_expand(p, vals, i, indices[i]) for i in range(g[0], g[1]))
+def _expand(p, vals, ind):
+    val = vals[ind]
+    if val.startswith("\\") and len(val) > 1:
+        g = p.groups[int(val[1:]) - 1]
+        return "".join(_expand(p, vals, i) for i in range(g[0], g[1]))
     else:
-        return vals[ind][indval]
+        return val
 
 
 def flatten(s, normal=None):
+    """ Generates every string that a sequence of UnicodeSets stands for """
     p = parse(s, normal=normal)
-    vals = list(map(sorted, p))
-    lens = list(map(len, vals))
-    num = len(vals)
-    indices = [0] * num
-    while True:
-        for i in range(num):
-            if indices[i] == lens[i] - 1:
-                indices[i] = 0
-            else:
-                indices[i] += 1
-                break
-        else:
-            return
-        res = []
-        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
+    for vals in itertools.product(*map(sorted, p)):
+        yield "".join(_expand(p, vals, i) for i in range(len(vals)))
 
 
 def struni(s, groups=None):
@@ -231,7 +221,10 @@ def parse(s, normal=None):
         if len(nextitem):
             res.append(nextitem)
     if normal is not None:
-        res = [UnicodeSet(set(unicodedata.normalize(normal, str(c)) for c in x)) for x in res]
+        for x in res:
+            chars = [unicodedata.normalize(normal, str(c)) for c in x]
+            x.clear()
+            x.update(chars)
     return res
 
 
-- 
2.43.0


From 17c21146993f1f4ca3a28a2058864adedf05694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:38 +0000
Subject: [PATCH 37/86] fix: escaped & < = / and \u escapes in a collation
 tailoring were misread

---
 lib/sldr/collation.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7e64c67..adeee6f 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -35,10 +35,21 @@ def escape(s, allchars=False):
 
 def unescape(s):
     '''Parse tailoring escaped characters into normal Unicode'''
-    s = re.sub(r'(?:\\U([0-9A-F]{8})|\\u([0-9A-F]{4}))', lambda m: chr(int(m.group(m.lastindex), 16)), s, re.I)
-    s = re.sub(r'\\(.)', r'\1', s)
-    s = s.replace("''", "'")
-    return s
+    def char(m):
+        if m.lastindex is None:
+            return "'"
+        return m.group(3) or chr(int(m.group(m.lastindex), 16))
+    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", char, s, flags=re.S)
+
+def splitunescaped(chars, s):
+    '''Splits at runs of characters from chars that are not escaped, the runs are every second item of the result'''
+    res = [""]
+    for m in re.finditer(r'\\.|([' + chars + r']+)|.', s, flags=re.S):
+        if m.group(1):
+            res += [m.group(1), ""]
+        else:
+            res[-1] += m.group(0)
+    return res
 
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
@@ -207,11 +218,11 @@ class Collation(UserDict):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
         string = re.sub(r'^#.*$', '', string, flags=re.M)
-        for n, run in enumerate(string.split('&')):
-            bits = [x.strip() for x in re.split(r'([<=]+)', run)]
-            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", unescape(bits[0]))
+        for n, run in enumerate(splitunescaped('&', string)[::2]):
+            bits = [x.strip() for x in splitunescaped('<=', run)]
+            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0], flags=re.S)
             if m:
-                base = m.group(2)
+                base = unescape(m.group(2))
                 before = 0
                 if m.group(1):
                     before = int(m.group(1))
@@ -223,14 +234,12 @@ class Collation(UserDict):
                 else:
                     l = s.count('<')
                 k = re.sub(r'\s#.*$', '', bits[i+1], flags=re.M)
-                key = unescape(k)
-                exp = key.find("/")
+                expansion = splitunescaped('/', k)
                 expstr = ""
-                if exp > 0:
-                    expstr = key[exp+1:].strip()
-                    key = key[:exp].strip()
-                else:
-                    exp = None
+                if len(expansion) > 1 and expansion[0]:
+                    expstr = unescape("".join(expansion[2:]).strip())
+                    k = expansion[0].strip()
+                key = unescape(k)
                 while key in self:
                     key += " "
                 self[key] = CollElement(base, l, before)
-- 
2.43.0


From 595c7cc40d10dccac77930dd0a45e3af0e0c6c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:33 +0000
Subject: [PATCH 38/86] fix: writing a tailoring as rules moved characters when
 resets shared a base or used one tailored later

---
 lib/sldr/collation.py | 53 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 50 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index adeee6f..dcbc8d2 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -284,13 +284,14 @@ class Collation(UserDict):
         eqchain = None
         lastbefore = 0
         skip = []
-        for k, v in sorted(self.items(), key=ordering):
+        for k, v in self._inrulesorder(sorted(self.items(), key=ordering)):
+            fullk = k
             k = k.rstrip()
             if v.prefix:
                 res += v.prefix
             if k in skip:
                 continue
-            if not self.cmpKeys(v.base, lastk, v.level) and v.base != eqchain or v.before != lastbefore:
+            if not self._follows(lastk, v) and v.base != eqchain or v.before != lastbefore:
                 loc = len(res) + 1
                 res += "\n&" + (f"[before {v.before}]" if v.before else "") + escape(v.base)
                 eqchain = None
@@ -311,9 +312,55 @@ class Collation(UserDict):
                 res += "/" + escape(v.exp)
             if withkeys:
                 res += str(v.key) + "|" + str(v.shortkey) + "(" + str(v.order) + ")"
-            lastk = k
+            lastk = fullk
         return res[1:] if len(res) else ""
 
+    def _follows(self, k, v):
+        """Whether v may be written straight after key k, without a reset to its base"""
+        while k is not None and k != v.base:
+            b = self.get(k, None)
+            if b is None or b.level <= v.level or b.before:
+                return False
+            k = b.base
+        return k is not None
+
+    def _inrulesorder(self, items):
+        """Moves items that only mean the same if others are defined before them: what they are based on
+           and what was inserted at the same position before them"""
+        waits = {k: [] for k, v in items}
+        last = {}
+        for k, v in sorted(items, key=lambda x:x[1].order):
+            b = self.get(v.base, None)
+            if b is not None and b.order > v.order:
+                waits[v.base].append(k)
+                b = None
+            elif b is not None:
+                waits[k].append(v.base)
+            position = v.base
+            seen = set()
+            while b is not None and b.order <= v.order and b.level > v.level and not b.before and position not in seen:
+                seen.add(position)
+                position = b.base
+                b = self.get(position, None)
+            if b is None or b.order > v.order:   # a root position, which everything sharing the levels of its key is at
+                position = tuple(tuple(stripzero(x)) for x in ducetSortKey(self.ducet, position)[:v.level])
+            previous = last.get((position, v.level, v.before), None)
+            if previous is not None and self[previous].order < v.order:
+                waits[k].append(previous)
+            last[(position, v.level, v.before)] = k
+        done = set()
+        for k, v in items:
+            stack = [k]
+            while stack:
+                pending = [w for w in waits.pop(stack[-1], []) if w not in done]
+                if pending:
+                    stack.extend(pending)
+                    continue
+                curr = stack.pop()
+                if curr not in done:
+                    done.add(curr)
+                    yield (curr, self[curr])
+
     def asSimple(self, ordering=lambda x:x[1].shortkey):
         """ Creates simple collation specification """
         def getparents(v, level):
-- 
2.43.0


From 191502ebccdedb106b88ac2643db9802e9829b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:53 +0000
Subject: [PATCH 39/86] fix: equal sort keys did not compare equal, += on a
 sort key lost it

---
 lib/sldr/collation.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index dcbc8d2..7bac38b 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -156,8 +156,8 @@ class SortKey(list):
     """ List of subkeys for each level. Each subkey is a list of values """
     def add(self, other):
         if other is None:
-            return self[:]
-        return [a[0]+a[1] for a in zip_longest(self, other)]
+            return self.__class__(self[:])
+        return self.__class__([a[0]+a[1] for a in zip_longest(self, other, fillvalue=[])])
 
     def append(self, other):
         self[:] = self.add(other)
@@ -167,13 +167,8 @@ class SortKey(list):
 
     def cmp(self, other):
         ''' Returns the level of the difference and negative if self < other '''
-        return diffLevel(other, self)
-        for i, z in enumerate(zip_longest(self, other)):
-            if z[0] < z[1]:
-                return -(i+1)
-            elif z[0] > z[1]:
-                return i+1
-        return 0
+        res = diffLevel(other, self)
+        return res if res != 4 else 0
 
     def __lt__(self, other):
         return self.cmp(other) < 0
@@ -191,7 +186,8 @@ class SortKey(list):
         return self.cmp(other) <= 0
 
     def __iadd__(self, other):
-        return self.append(other)
+        self.append(other)
+        return self
 
     def __ne__(self, other):
         return self.cmp(other) != 0
@@ -200,7 +196,7 @@ class SortKey(list):
         return self.__class__([v.copy() for v in self])
 
     def __hash__(self):
-        return hash(tuple(tuple(x) for x in self))
+        return hash(tuple(tuple(stripzero(x)) for x in self))
 
 
 class Collation(UserDict):
-- 
2.43.0


From 1c73adb651d851d50baf27cdc66886f8c8e0d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:04 +0000
Subject: [PATCH 40/86] fix: adding to a collation whose sort keys had been
 used crashed or misordered

---
 lib/sldr/collation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7bac38b..a9b22d6 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -213,8 +213,9 @@ class Collation(UserDict):
     def parse(self, string):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
+        first = max((v.order[0] for v in self.values()), default=-1) + 1
         string = re.sub(r'^#.*$', '', string, flags=re.M)
-        for n, run in enumerate(splitunescaped('&', string)[::2]):
+        for n, run in enumerate(splitunescaped('&', string)[::2], first):
             bits = [x.strip() for x in splitunescaped('<=', run)]
             m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0], flags=re.S)
             if m:
@@ -252,12 +253,15 @@ class Collation(UserDict):
         if key in self:
             raise KeyError("key {} already exists in collation with value {}".format(key, self[key]))
         super().__setitem__(key, val)
+        self.issorted = False
 
     def _setSortKeys(self, force=False):
         '''Calculates tailored sort keys for everything in this collation'''
         if (not self.issorted or force) and len(self) > 0 :
             numbefores = sum((1 for c in self.values() if c.before > 0))
             inc = 1. / pow(10, int(log10((numbefores + 1) * len(self)))+1)
+            for v in self.values():
+                v.__dict__.pop('key', None)     # inc may not be what it was
             for v in sorted(self.values(), key=lambda x:x.order):
                 v.expand(self, self.ducet)
                 v.sortkey(self, self.ducet, inc, (1./(numbefores+1)), force=force)
@@ -430,6 +434,7 @@ class Collation(UserDict):
         return None
 
     def sortKey(self, k):
+        self._setSortKeys()
         return ducetSortKey(self.ducet, k, fn=lambda k:self[k].key if k in self else None)
 
     def minimise(self, alphabet=[]):
-- 
2.43.0


From f627311e097a97489275568193b5cb742b9e1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:12 +0000
Subject: [PATCH 41/86] fix: a character standing for several sorted among
 words that continue its first

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index a9b22d6..f5d9143 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -80,7 +80,7 @@ def ducetSortKey(d, k, extra=None, fn=None):
         k = k[i:]
         i = len(k)
     if singlechar:
-        return SortKey([[v for v in r] for r in res])  # don't strip 0s if the only item in the string features a zero
+        return SortKey([[v for v in r if v != 0] or [v for v in r] for r in res])  # don't strip 0s if the only item in the string features a zero
     return SortKey([[v for v in r if v != 0] for r in res])  # strip 0s
 
 def stripzero(l):
-- 
2.43.0


From 8a2234921c489669d0773bdcae274f7e07487ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:54 +0000
Subject: [PATCH 42/86] fix: comments in a tailoring may hold < and &, and
 nothing stronger may follow [before]

---
 lib/sldr/collation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index f5d9143..b2f501b 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -214,7 +214,7 @@ class Collation(UserDict):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
         first = max((v.order[0] for v in self.values()), default=-1) + 1
-        string = re.sub(r'^#.*$', '', string, flags=re.M)
+        string = re.sub(r'(\\.)|(?:^|(?<=\s))#.*$', r'\1', string, flags=re.M)
         for n, run in enumerate(splitunescaped('&', string)[::2], first):
             bits = [x.strip() for x in splitunescaped('<=', run)]
             m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0], flags=re.S)
@@ -226,11 +226,11 @@ class Collation(UserDict):
             else:
                 continue
             for i in range(1, len(bits), 2):
-                s = re.sub(r'\s#.*$', '', bits[i], flags=re.M)
+                s = bits[i]
                 if s == '=': l = 4
                 else:
                     l = s.count('<')
-                k = re.sub(r'\s#.*$', '', bits[i+1], flags=re.M)
+                k = bits[i+1]
                 expansion = splitunescaped('/', k)
                 expstr = ""
                 if len(expansion) > 1 and expansion[0]:
@@ -291,7 +291,8 @@ class Collation(UserDict):
                 res += v.prefix
             if k in skip:
                 continue
-            if not self._follows(lastk, v) and v.base != eqchain or v.before != lastbefore:
+            if not self._follows(lastk, v) and v.base != eqchain or v.before or v.level < lastbefore:
+                lastbefore = v.before
                 loc = len(res) + 1
                 res += "\n&" + (f"[before {v.before}]" if v.before else "") + escape(v.base)
                 eqchain = None
-- 
2.43.0


From edeb00bdafe132cc1a33a338db3eebe4368a7ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:00 +0000
Subject: [PATCH 43/86] fix: content hashes of elements do not depend on depth
 and position linearly, so that different changes are told apart

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index fe334bc..70d9b8b 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -260,11 +260,11 @@ class _minhash(object):
         h = [self.hasher(x) for x in vec]
         if self.minhash is not None:
             for x in h: self._minhashupdate(h)
-        self.hashed = functools.reduce(lambda x,y:x * 1000003 + y, h, self.hashed) & self._mask
+        self.hashed = functools.reduce(lambda x,y:hash((x, y)), h, self.hashed) & self._mask   # not linear, nor is merge
 
     def merge(self, aminh):
         if self.minhash is not None and aminh.minhash is not None: self._minhashupdate(aminh.minhash)
-        self.hashed = (self.hashed * 1000003 + aminh.hashed) & self._mask
+        self.hashed = hash((self.hashed, aminh.hashed)) & self._mask
 
     def _minhashupdate(self, ahash):
         x = (1 << self._bits) - 1
-- 
2.43.0


From 3bbc832bc547dac51c5ea2010dc53871b53b5173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:34 +0000
Subject: [PATCH 44/86] fix: draft alternates are merged whichever side changed
 the primary value, and do not keep a change of it from being taken over

---
 lib/sldr/ldml_merge.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index b517cfb..4c635f5 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -172,6 +172,9 @@ class LdmlMerge(Ldml):
                 if t.mergeBase is None:
                     t.mergeBase = bdict.pop(t.attrHash)
                     if t.mergeBase is not None: del blist[t.mergeBase.contentHash]
+        for t in filter(lambda x: base is not None and x.mergeBase is None, this):     # both changed to the same
+            t.mergeBase = bdict.pop(t.attrHash)
+            if t.mergeBase is not None: del blist[t.mergeBase.contentHash]
         added = []
         for e in olist.values():       # pick up stuff in other but not in this
             newe = self._copynode(e, this)
@@ -299,14 +302,22 @@ class LdmlMerge(Ldml):
                         res |= self.merge(t.mergeOther, None, t, default=default)
                 elif self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
                     res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                elif self.useDrafts:                                                # same added by both
+                    res |= self._merge_alts(None, t.mergeOther, t, default)
+                continue
+            if t.mergeOther is not None and t.mergeOther.contentHash == t.contentHash and t.mergeBase.contentHash != t.contentHash:
+                if self.useDrafts:                                                  # same change in both
+                    res |= self._merge_alts(t.mergeBase, t.mergeOther, t, default)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
-                    if not self.useDrafts or \
-                            not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
-                        this.remove(t)                                  # swap us out
-                        this.append(self._copynode(t.mergeOther, this))
-                        res = True
+                    if self.useDrafts:
+                        self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                    this.remove(t)                                  # swap us out
+                    this.append(self._copynode(t.mergeOther, this))
+                    if self.useDrafts and hasattr(t, 'alternates'):
+                        this[-1].alternates = t.alternates              # but for our alternates
+                    res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
-- 
2.43.0


From 0cc4db4bd66f58e25dde7db4927fee75f52c2c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:22 +0000
Subject: [PATCH 45/86] fix: comments taken from another document in a merge
 are not shared with it

---
 lib/sldr/ldml_merge.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 4c635f5..a26510f 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -209,7 +209,8 @@ class LdmlMerge(Ldml):
             target[:] = [self._copynode(x, target) for x in base]                                # replace content of target
             for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                 if hasattr(base, a):
-                    setattr(target, a, getattr(base, a, None))
+                    v = getattr(base, a, None)
+                    setattr(target, a, list(v) if isinstance(v, list) else v)
                 elif hasattr(target, a):
                     delattr(target, a)
             if 'alt' in target.attrib:
@@ -227,7 +228,8 @@ class LdmlMerge(Ldml):
                 target[:] = [self._copynode(x, target) for x in other]
                 for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                     if hasattr(other, a):
-                        setattr(target, a, getattr(other, a, None))
+                        v = getattr(other, a, None)
+                        setattr(target, a, list(v) if isinstance(v, list) else v)
                     elif hasattr(target, a):
                         delattr(target, a)
                 if 'alt' in target.attrib:
@@ -239,7 +241,7 @@ class LdmlMerge(Ldml):
             if commentsource is not None:
                 for a in ('comments', 'commentsafter'):
                     if hasattr(commentsource, a):
-                        setattr(target, a, getattr(commentsource, a))
+                        setattr(target, a, list(getattr(commentsource, a)))
                     elif hasattr(target, a):
                         delattr(target, a)
         res |= self._merge_alts(base, other, target, default)
-- 
2.43.0


From 3a1b829a2f12be65c550b3f2de1466df3f29dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:36 +0000
Subject: [PATCH 46/86] fix: a merge does not take the indentation of a
 document for a text that clashes

---
 lib/sldr/ldml_merge.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index a26510f..59a0054 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -330,9 +330,9 @@ class LdmlMerge(Ldml):
             elif self.useDrafts:
                 res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
         res |= any(t in added for t in this)
-        if base is not None and this.text == base.text:
+        if base is not None and (this.text or None) == (base.text or None):    # indentation is read as ""
             if other is not None:
-                res = res or (this.text != other.text)
+                res = res or ((this.text or None) != (other.text or None))
                 this.text = other.text
                 this.contentHash = other.contentHash
             elif this.text is not None:
@@ -340,7 +340,7 @@ class LdmlMerge(Ldml):
                 this.text = None
                 this.contentHash = None
             if self.useDrafts: res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-        elif base is not None and other is not None and other.text != base.text:
+        elif base is not None and other is not None and (other.text or None) != (base.text or None):
             self.clash_text(this.text, other.text, (base.text if base is not None else None),
                                         this, other, base, usedrafts=self.useDrafts)
             if self.useDrafts:
-- 
2.43.0


From b2dc12f596ce3b598bb69af01f0cb67f9247bad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:03 +0000
Subject: [PATCH 47/86] fix: an attribute only our side changed is not reported
 as a clash in a merge

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 59a0054..0d75476 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -354,7 +354,7 @@ class LdmlMerge(Ldml):
                 if base is not None and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
-                elif this.get(k) != other.get(k):
+                elif this.get(k) != other.get(k) and (base is None or base.get(k) != other.get(k)):
                     self.clash_attrib(k, this.get(k), other.get(k), (base.get(k) if base is not None else None), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
-- 
2.43.0


From 17cfba7e4c5095f6fc7dedc6116d203ffe36c849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 48/86] fix: a document whose aliases were resolved takes part
 in merges like the same document read from its text

---
 lib/sldr/ldml.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 70d9b8b..09c428f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -863,8 +863,11 @@ class Ldml(ETWriter):
     def _calc_hashes(self, base, usedrafts=False):
         ''' Calculate content and attribute hashes for this node and all children '''
         base.contentHash = _minhash(nominhash = True)
-        for b in base:
-            base.contentHash.merge(b.contentHash)
+        children = [(b.get('alt', ''), b.contentHash) for b in base]    # alternates may be packed already
+        children += [(k, v.contentHash) for b in base for k, v in getattr(b, 'alternates', {}).items()]
+        for k, h in sorted(children, key=lambda x: (x[0], x[1].hashed)):
+            base.contentHash.update(k)
+            base.contentHash.merge(h)
         if base.text: base.contentHash.update(*(base.text.split("\n")))
         distkeys = set(self.keys)
         if base.tag in self.nonkeyContexts:
@@ -955,7 +958,11 @@ class Ldml(ETWriter):
                     print("Alias loop discovered {} in {}".format(children[0], getattr(self, "fname", None)))
                     return True
                 _cache.add(children[0])
-                self.resolve_aliases(children[0], _cache)
+                if self.resolve_aliases(children[0], _cache):
+                    p = getattr(children[0], 'parent', None)
+                    while p is not None:        # they hold something else now
+                        self._calc_hashes(p, self.useDrafts)
+                        p = getattr(p, 'parent', None)
                 _cache.remove(children[0])
                 for res in children[0]:
                     res = self._copynode(res, parent=this)
@@ -965,7 +972,7 @@ class Ldml(ETWriter):
             else:
                 hasalias |= self.resolve_aliases(c)
         if hasalias and self.useDrafts:
-            self._calc_hashes(this)
+            self._calc_hashes(this, self.useDrafts)
             return True
         return False
 
-- 
2.43.0


From 87649f319806b7bd2282290765b87d3f22de004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:51 +0000
Subject: [PATCH 49/86] fix: five-digit code points of the DUCET were read as
 four digits by ducet.readDucet

---
 lib/sldr/ducet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ducet.py b/lib/sldr/ducet.py
index b12e885..54c13eb 100644
--- a/lib/sldr/ducet.py
+++ b/lib/sldr/ducet.py
@@ -13,11 +13,11 @@ def readDucet(path="") :
         return {}
 
     result = {}
-    keyre = re.compile(r'([0-9A-F]{4})', re.I)
+    keyre = re.compile(r'([0-9A-F]{4,6})', re.I)
     valre = re.compile(r'\[[.*]([0-9A-F]{4})\.([0-9A-F]{4})\.([0-9A-F]{4})\]', re.I)
 
     for lineno, contentLine in enumerate(content):
-        if contentLine[0] == '#':
+        if contentLine[0] in '#@':
             continue
         parts = contentLine.split(';')
         if len(parts) != 2:
-- 
2.43.0


From 417924244c4ff45372c569b5fa2129c39c65acab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 50/86] fix: the script of a text was Common or Inherited where
 spaces, digits or marks outnumber its letters, which were then left out

---
 lib/sldr/ldml_exemplars.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index db0cf76..96dd184 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -351,11 +351,17 @@ class Exemplars(object):
 
     def _get_script(self):
         """Return most frequently occurring script."""
-        script_code_and_count_list = self.scripts.most_common(1)
+        script_code_and_count_list = self.scripts.most_common()
         if len(script_code_and_count_list) == 0:
             return ''
         else:
             script_code_and_count = script_code_and_count_list[0]
+            # Spaces, digits, punctuation, and the like do not have a specific script,
+            # so they only decide if there is nothing else.
+            for code_and_count in script_code_and_count_list:
+                if code_and_count[0] not in (UScriptCode.COMMON, UScriptCode.INHERITED):
+                    script_code_and_count = code_and_count
+                    break
             script_code = script_code_and_count[0]
             script = self.codes_for_scripts[script_code]
             script_name = Script.getShortName(script)
-- 
2.43.0


From 4efc2cf18477a2500f128c84f1ae8f68b0788489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 51/86] fix: splitting an exemplar that was already split
 counted it twice and brought it back

---
 lib/sldr/ldml_exemplars.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 96dd184..a8d0f17 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -503,6 +503,11 @@ class Exemplars(object):
         if exemplar.base == '':
             return
 
+        # An exemplar that has already been split is no longer there,
+        # the exemplars it was split into are looked at in the next pass.
+        if exemplar not in self.clusters:
+            return
+
         mark = exemplar.trailers[index]
         before_current_mark = exemplar.trailers[:index]
         after_current_mark = exemplar.trailers[index+1:]
-- 
2.43.0


From c83e2404ef4ab1794c181b6f3d3652e8719cb61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 52/86] fix: default ignorable characters found after a
 separate mark, and ignorable marks, were not moved to the auxiliary exemplars

---
 lib/sldr/ldml_exemplars.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index a8d0f17..cb139da 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -608,12 +608,10 @@ class Exemplars(object):
     def parcel_ignorable(self):
         """Move Default_Ignorable_Code_Point characters to auxiliary."""
         for exemplar in list(self.clusters.keys()):
-            if exemplar.base == '':
-                return
-            if Char.hasBinaryProperty(exemplar.base, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
-                # The base is a Default_Ignorable_Code_Point
+            if Char.hasBinaryProperty(exemplar.text[0], UProperty.DEFAULT_IGNORABLE_CODE_POINT):
+                # The base (or separate mark) is a Default_Ignorable_Code_Point
                 # which needs to go in the auxiliary list.
-                self._auxiliary.add(exemplar.base)
+                self._auxiliary.add(exemplar.text)
                 del self.clusters[exemplar]
 
     def parcel_frequency(self):
-- 
2.43.0


From c2339067f832d04127a2ddb9c9a625647d24c069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 53/86] fix: a nukta made its base keep an upper case letter,
 or take other marks along

---
 lib/sldr/ldml_exemplars.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index cb139da..53a8faa 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -758,20 +758,23 @@ class Exemplars(object):
 
             # The current character is a base character.
             base = char
+            trailers = ''
 
             # Then find the end of the cluster
             # (which may consist of only base characters).
-            length = base_length = 1
+            length = 1
             while i + length < len(text):
                 trailer = text[i + length]
                 if self.ucd.is_zwj(trailer):
                     # ZWJ found, so the cluster continues.
                     length += 1
+                    trailers += trailer
                     continue
                 if self.ucd.is_zwnj(trailer):
                     # ZWNJ found, so the end of the cluster has been reached,
                     # but put include ZWNJ in the cluster
                     length += 1
+                    trailers += trailer
                     break
                 if self.ucd.ismark(trailer):
                     # A Mark was found, so the cluster continues.
@@ -781,8 +784,9 @@ class Exemplars(object):
                     if self.ucd.is_always_combine(trailer):
                         # A Mark such as a nukta was found, so the base continues,
                         # as well as the cluster.
-                        base_length += 1
-                        base = text[i:i + base_length]
+                        base += trailer
+                    else:
+                        trailers += trailer
                     continue
                 else:
                     # No more marks, so the end of the cluster has been reached.
@@ -794,7 +798,6 @@ class Exemplars(object):
             # then the base will be the single character already called base (or char).
             # If no non-nukta marks have been found,
             # then the trailers variable will be an empty string.
-            trailers = text[i + base_length:i + length]
             exemplar = Exemplar(base, trailers)
 
             self.clusters[exemplar] += 1
-- 
2.43.0


From 45341e9327e7395be61a5b16fe740b145b267612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 54/86] fix: the occurrences of an exemplar were counted apart
 when it was found in two ways, which put it in the main and the auxiliary set

---
 lib/sldr/ldml_exemplars.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 53a8faa..335519a 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -616,22 +616,27 @@ class Exemplars(object):
 
     def parcel_frequency(self):
         """Parcel exemplars between main and auxiliary based on frequency."""
-        total_count = sum(self.clusters.values())
-        item_count = len(self.clusters)
+        # A mark is an exemplar of its own both when it was split from a base
+        # and when it was found without a base.
+        occurrences = Counter()
+        for exemplar, count in self.clusters.items():
+            occurrences[exemplar.text] += count
+
+        total_count = sum(occurrences.values())
+        item_count = len(occurrences)
         if item_count != 0:
             average = total_count / float(item_count)
         else:
             average = 0
         frequent = average * (self.frequent / float(100))
 
-        for exemplar in self.clusters.keys():
-            occurs = self.clusters[exemplar]
-            if exemplar.text == "\u0640":
-                self._auxiliary.add(exemplar.text)
+        for text, occurs in occurrences.items():
+            if text == "\u0640":
+                self._auxiliary.add(text)
             elif occurs > frequent:
-                self._main.add(exemplar.text)
+                self._main.add(text)
             else:
-                self._auxiliary.add(exemplar.text)
+                self._auxiliary.add(text)
 
     def normalize(self, form):
         for a in ("main", "auxiliary", "index", "punctuation", "digits"):
-- 
2.43.0


From a9579cae4e767384bdb2001393fa2c889496466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 55/86] fix: an exemplar given before was missed after another
 one, in upper case, and swallowed the marks that follow it

---
 lib/sldr/ldml_exemplars.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 335519a..23bcf8f 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -718,15 +718,23 @@ class Exemplars(object):
             for multigraph_length in range(self.max_multigraph_length, 0, -1):
                 multigraph = text[i:i + multigraph_length]
 
-                if (multigraph in self._main or
-                   multigraph in self._auxiliary or
+                # Marks that follow would be part of the multigraph.
+                trailer = text[i + multigraph_length:i + multigraph_length + 1]
+                if trailer and self.ucd.ismark(trailer):
+                    continue
+
+                lowercase = multigraph.lower()
+                if (lowercase in self._main or
+                   lowercase in self._auxiliary or
                    multigraph in self._index or
-                   multigraph in self._punctuation):
-                    exemplar = Exemplar(multigraph)
+                   lowercase in self._punctuation):
+                    exemplar = Exemplar(lowercase)
                     self.clusters[exemplar] += 1
-                    i += multigraph_length
+                    found_length = len(multigraph)
                     break
-            
+            else:
+                found_length = 0
+
             if maxmultigraphs:
                 #swap max multigraph length to 4 to start
                 for multigraph_length in range(4, 0, -1):
@@ -734,12 +742,12 @@ class Exemplars(object):
                     exemplar = Exemplar(multigraph)
                     self.all_potential_multigraphs[exemplar] += 1
 
-            # No multigraphs were found at this position,
-            # so continue processing a single character
-            # if we have not gone beyond the end of the text.
-            if not i < len(text):
-                break
+            if found_length:
+                i += found_length
+                continue
 
+            # No multigraphs were found at this position,
+            # so continue processing a single character.
             char = text[i]
 
             # Test for punctuation.
-- 
2.43.0


From 2a82c2fb8a7803c0424a5852bfd4dd2378935637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 56/86] fix: ldmlnormalize stopped at a file that is not LDML,
 and where the output has no such directory yet

---
 scripts/ldmlnormalize | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/ldmlnormalize b/scripts/ldmlnormalize
index 6dbd0fb..520a3ff 100755
--- a/scripts/ldmlnormalize
+++ b/scripts/ldmlnormalize
@@ -21,7 +21,7 @@ else:
         if di.endswith(".xml") or di.endswith(".ldml"):
             allins.append(di)
             allouts.append(do)
-        else:
+        elif os.path.isdir(di):
             for f in os.listdir(di):
                 fi = os.path.join(di, f)
                 fo = os.path.join(do, f)
@@ -35,6 +35,7 @@ for fi, fo in zip(allins, allouts):
     except Exception as e:
         print(f"{e} in {fi}")
         continue
+    os.makedirs(os.path.dirname(fo) or ".", exist_ok=True)
     l.save_as(fo)
 
     if args.validate:
-- 
2.43.0


From 169ae31bdd49e830d75a05b606ea7a0f1f952c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 57/86] fix: ldmlmerge without -o wrote bytes to a text stream

---
 scripts/ldmlmerge | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 5bb397a..3709a4c 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -93,7 +93,7 @@ if this.merge(other, base, default=args.default, copycomments=args.copycomments)
     currdate = datetime.now()
     #currdate.microsecond = 0
     #idnode.set("date","$Date: " + currdate.isoformat() + " $")
-sys.stdout = codecs.getwriter("UTF-8")(sys.stdout)
+sys.stdout = codecs.getwriter("UTF-8")(sys.stdout.buffer)
 this.normalise()
 
 if args.git :
-- 
2.43.0


From c022b87079115153aafd21d66c75df722c1a4404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:51 +0000
Subject: [PATCH 58/86] fix: cldrimport removed the references attributes of
 the last part of a locale only

---
 scripts/cldrimport | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index f8a6eae..3018090 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -96,7 +96,7 @@ def doit(a) :
             curr.add_silidentity(draft = 'unconfirmed', source = 'cldrseed', **extras)
         else :
             curr.add_silidentity(source = 'cldr', **extras)
-        for b in list(l.root.iter()):
+        for b in list(curr.root.iter()):
             b.attrib.pop("references", None)        # remove all reference attributes
         if args.hg :
             dohg(curr, allfiles)
-- 
2.43.0


From 8595c9722105cbfee8659761250c2fb738dc7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:08 +0000
Subject: [PATCH 59/86] fix: a sheet row that ends before its value stopped the
 conversion

---
 lib/sldr/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 0a6c100..a9f9a14 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -277,6 +277,6 @@ class Sheet(object):
                 elname = result.group('elname')
                 atname = result.group('atname')
                 atvalue = result.group('atvalue')
-                self.action(typecheck, datarow[2], atname != None and atvalue == None, atname)
+                self.action(typecheck, datarow[2] if len(datarow) > 2 else "", atname != None and atvalue == None, atname)
                 datarow = self.nextrow(self.input)
 
-- 
2.43.0


From 7fd9d205cdf68bc51a982e63f4b7cef6ac997a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:08 +0000
Subject: [PATCH 60/86] fix: attribute rows stopped the filling of a
 spreadsheet from LDML

---
 lib/sldr/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index a9f9a14..6688a97 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -177,7 +177,8 @@ class Sheet(object):
             c.addElement(P(text=value))
 
     def _action_ods(self, path, value, attronly, atname):
-        e = self.ldml.find(path)
+        # a path that ends in [@name] stands for the value of that attribute
+        e = self.ldml.find(path[:path.rindex("[@")] if attronly else path)
         if e != None:
             if attronly:
                 v = e.attrib[atname] if atname in e.attrib else ""
-- 
2.43.0


From 1f1b2a93bad8459612b9c81032f651b3a9288f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:59 +0000
Subject: [PATCH 61/86] fix: cldrimport --hg took the output of hg for text and
 wrote nothing

---
 scripts/cldrimport | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index 3018090..24204bb 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -110,16 +110,16 @@ def doit(a) :
 def dohg(l, files) :
     cmd = ["hg", "log", "-R", os.path.join(args.indir, '..'), "-l", "1", "--template", "{svnrev}\n{isodate(date)}"]
     cmd.extend(files)
-    clog = subprocess.check_output(cmd)
+    clog = subprocess.check_output(cmd).decode("utf-8")
     (rev, date) = clog.split("\n")
     i = l.root.find("identity")
     r = i.find("version")
     if r is None :
-        r = et.SubElement(i, "version")
+        r = l.addnode(i, "version")
     r.set('number', "$Revision: {} $".format(rev))
     d = i.find("generation")
     if d is None :
-        d = et.SubElement(i, "generation")
+        d = l.addnode(i, "generation")
     d.set("date", "$Date: {} $".format(date))
 
 if not args.single :
-- 
2.43.0


From 1d7fbecfff58991a7f88af08c90d82418d95e6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 62/86] fix: the subtag registry's records without Subtag were
 added to the one before, continued fields were misread

---
 lib/sldr/iana.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/iana.py b/lib/sldr/iana.py
index bc9f9ed..61ecd8f 100644
--- a/lib/sldr/iana.py
+++ b/lib/sldr/iana.py
@@ -36,7 +36,11 @@ class Iana(object):
         with open(path, "r", encoding='utf-8') as fh:
             for l in fh.readlines():
                 if l.startswith(" "):
-                    currtag[currfield] += " " + l.strip()
+                    if isinstance(currtag.get(currfield), list):
+                        currtag[currfield][-1] += " " + l.strip()
+                    elif currfield in currtag:
+                        currtag[currfield] += " " + l.strip()
+                    continue
                 try:
                     f, v = l.strip().split(":", 1)
                 except ValueError:
@@ -45,7 +49,7 @@ class Iana(object):
                 f = f.lower()
                 if f == "type":
                     currtype = v
-                elif f == "subtag":
+                elif f in ("subtag", "tag"):
                     currtag = {}
                     if not hasattr(self, currtype):
                         setattr(self, currtype, {})
-- 
2.43.0


From 72bee721a175a715b4ccc0bc106d1b8bd4812e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 63/86] fix: language tags with extended languages, variants
 that begin with a digit or private use were misread or reordered

---
 lib/sldr/langtags_full.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 5d01620..e95c347 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -23,7 +23,6 @@
 # OUT OF THE USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF
 # SUCH DAMAGE.
 
-from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import os, re, csv
 from itertools import combinations
@@ -77,9 +76,9 @@ class LangTag(object) :
     def _extensions(self) :
         if self.extensions is None : return []
         res = []
-        for ns in sorted(self.extensions.keys()) :
+        for ns in sorted(self.extensions.keys(), key=lambda k: (k == 'x', k)) :    # private use comes last
             res.append(ns)
-            res.extend(sorted(self.extensions[ns]))
+            res.extend(self.extensions[ns])
         return res
 
     def __str__(self) :
@@ -124,6 +123,9 @@ class LangTag(object) :
             self.lang = bits[curr].lower()
             curr += 1
             self.hideboth = True
+            while curr < min(4, len(bits)) and len(bits[curr]) == 3 and bits[curr].isalpha():   # extlang
+                self.lang += "-" + bits[curr].lower()
+                curr += 1
         elif bits[curr] == "x" and curr < len(bits) - 1:
             # private use, try to parse as extlang
             self.lang = "x-"
@@ -133,34 +135,31 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
-        if len(bits[curr]) == 4 :
+        if len(bits[curr]) == 4 and bits[curr].isalpha():       # a variant may begin with a digit
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
-        elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
-            self.lang += "-" + bits[curr]
-            curr += 1
         if curr >= len(bits) : return
         if 1 < len(bits[curr]) < 4 :
             self.region = bits[curr].upper()
             curr += 1
             self.hideboth = False
         if curr >= len(bits): return
-        if len(bits[curr]) == 4 and self.script is None:
+        if len(bits[curr]) == 4 and bits[curr].isalpha() and self.script is None and self.region is not None:
             self.lang += "-"+self.region
-            self.script = bits[curr]
+            self.script = bits[curr].title()
             self.region = None
             curr += 1
             self.hideboth = False
             if curr >= len(bits): return
             if 1 < len(bits[curr]) < 4:
-                self.region = bits[curr]
+                self.region = bits[curr].upper()
                 curr += 1
         ns = ''
         extensions = {}
         variants = []
         while curr < len(bits) :
-            if len(bits[curr]) == 1 :
+            if len(bits[curr]) == 1 and ns != 'x' :     # nothing ends private use
                 ns = bits[curr].lower()
                 extensions[ns] = []
             elif ns == '' :
@@ -221,27 +220,24 @@ class LangTag(object) :
         #    srs = [x for x in srs if x[0] == None and x[1] == self.region]
         extravars = []
         if self.variants is not None :
-            varset = set(self.variants)
             if self.hidevariants is None:
                 removes = [set()]
             else:
                 removes = powerset(self.hidevariants)
             for r in removes:
-                extravars.append("-".join(sorted(varset - r)))
+                extravars.append("-".join(v for v in self.variants if v not in r))
         else:
             extravars = [None]
         extraexts = []
         if self.extensions is not None :
-            extset = set((k, x) for k, v in self.extensions.items() for x in v)
             if self.hideextensions is None:
                 removes = [set()]
             else:
                 removes = powerset([(k, x) for k, v in self.hideextensions.items() for x in v])
             for r in removes:
-                short = {}
-                for k, v in (extset - r):
-                    short.setdefault(k, []).append(v)
-                extraexts.append("-".join(["-".join([k] + sorted(v)) for k, v in sorted(short.items())]))
+                short = type(self)(extensions={k: [x for x in v if (k, x) not in r] for k, v in self.extensions.items()
+                                               if not all((k, x) in r for x in v)})
+                extraexts.append("-".join(short._extensions()))
         else:
             extraexts = [None]
         res = []
-- 
2.43.0


From 43943736cadd7b091db85f376a51d34aa59409ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:39 +0000
Subject: [PATCH 64/86] fix: building the table of language tags from its
 sources stopped for want of an import

---
 lib/sldr/langtags_full.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index e95c347..a6b66c0 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -25,6 +25,7 @@
 
 from xml.etree import ElementPath as ep
 import os, re, csv
+from xml.etree import ElementTree as et
 from itertools import combinations
 from six import with_metaclass
 
-- 
2.43.0


From 7edb8723b5ef8be8b5e391577840ee3a9898ec6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:18 +0000
Subject: [PATCH 65/86] fix: documents in other encodings than UTF-8 were not
 read

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 09c428f..bb5233d 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -446,7 +446,7 @@ class Ldml(ETWriter):
             tb = TreeBuilder(element_factory=et._Element_Py)
         else:
             tb = TreeBuilder()
-        parser = XMLParser(target=tb, encoding="UTF-8")
+        parser = XMLParser(target=tb)       # a document says itself how it is encoded
         def doComment(data):
             # resubmit as new start tag=!-- and sort out in main loop
             parser.parser.StartElementHandler("!--", ('text', data))
-- 
2.43.0


From 13724a9c27db1b855d047e91a5ea70f617b3c873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:26 +0000
Subject: [PATCH 66/86] fix: flattening only what changed overlooked the
 truncated ancestors

---
 lib/sldr/ldml_merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 0d75476..c33c191 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -453,7 +453,9 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         if len(changed):       # check against changed
             dome = False
             for f in fallbacks:
-                if f in changed:
+                while len(f) and f not in changed:
+                    f = trimtag(f)
+                if len(f):
                     dome = True
                     break
             if not dome: return None
-- 
2.43.0


From 4029a5aafe723b524efedcb7725008c1f0b687d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:04 +0000
Subject: [PATCH 67/86] fix: a value added by path was also given to the
 parents created for it

---
 lib/sldr/ldml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index bb5233d..d2a4619 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -692,7 +692,8 @@ class Ldml(ETWriter):
                             newcurr.append(r)
             if not len(newcurr):
                 if action == "add":
-                    newcurr.append(self._add_inserted_node(before, draft, text, parent, tag, attrib=attrs, alt=alt))
+                    last = i == len(path) - 1   # only that has the value
+                    newcurr.append(self._add_inserted_node(before, draft if last else None, text if last else None, parent, tag, attrib=attrs, alt=alt))
                 else:
                     return []
             parent = newcurr[0]
-- 
2.43.0


From a234844697f12f719ff9edfcc2b3f5fd1d4a3696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:38 +0000
Subject: [PATCH 68/86] fix: a worse draft displaced an unmarked value in the
 same alternate

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d2a4619..2e112e7 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -552,7 +552,7 @@ class Ldml(ETWriter):
                 target.alternates = {}
             elif alt in target.alternates:
                 v = target.alternates[alt]
-                if self.get_draft(v, default) < odraft:
+                if self.get_draft(v) < odraft:
                     return v
             target.alternates[alt] = origin
             if hasattr(origin, 'alternates'):
-- 
2.43.0


From e9580471fb7d84084320b5709f92594695a76898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:38 +0000
Subject: [PATCH 69/86] fix: removing a value by its draft or alternate failed
 or took the other values with it

---
 lib/sldr/ldml.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 2e112e7..dadd51e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -754,9 +754,17 @@ class Ldml(ETWriter):
         """ Finds the given nodes from the path and deletes them.
             Takes same parameters as ensure_path. Returns nodes deleted. """
         newcurr, steps = self._process_path(path, action="remove", **kw)
-        if len(newcurr):
-            for c in newcurr:
+        for c in newcurr:
+            head = next((x for x in c.parent if x is c or any(v is c for v in getattr(x, 'alternates', {}).values())), None)
+            if head is None:                    # gone with its primary value
+                continue
+            if head is c and kw.get('matchdraft', None) is not None and getattr(c, 'alternates', {}):
+                best = min(c.alternates, key=lambda k: (self.get_draft(c.alternates[k]), k))
+                head = self._promote(c, c.alternates[best], alt=best)   # the other values stay
+            if head is c:
                 c.parent.remove(c)
+            else:
+                head.alternates = {k: v for k, v in head.alternates.items() if v is not c}
         return newcurr
 
     def _invertns(self, ns):
-- 
2.43.0


From 2548c713660d0a1a411e86212a4caabc7d494ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:15 +0000
Subject: [PATCH 70/86] fix: long runs of equal cells in a spreadsheet were
 read as one cell

---
 lib/sldr/sheet.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 6688a97..9804ef8 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -71,14 +71,11 @@ class Sheet(object):
             for r in s.childNodes:
                 if r.tagName != 'table:table-row': continue
                 nodes = []
+                skipped = 0
                 for c in r.childNodes:
                     if c.tagName != 'table:table-cell': continue
-                    count = 1
                     repeatedcols = c.getAttribute('numbercolumnsrepeated')
-                    if repeatedcols:
-                        repcount = int(repeatedcols)
-                        if repcount < 10: # avoid 1000+ counts of empty cells at end of row
-                            count = repcount
+                    count = int(repeatedcols) if repeatedcols else 1
                     n = ""
                     if c.hasChildNodes():
                         for e in c.childNodes:
@@ -89,8 +86,13 @@ class Sheet(object):
                                     n = t.data
                                     break
                             break ### check position
-                    for repcount in range(count):
-                        nodes.append(n)
+                    if n == "" and count >= 10: # avoid 1000+ counts of empty cells at end of row
+                        skipped += count - 1
+                        count = 1
+                    elif n != "" and skipped: # they are not at the end of the row
+                        nodes.extend([""] * skipped)
+                        skipped = 0
+                    nodes.extend([n] * count)
                 self.currentrow = r
                 yield nodes[1:]
         self.currentrow = None
-- 
2.43.0


From 90ec116e6f8831ed9d13f68eaac818e4ed3ff002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:15 +0000
Subject: [PATCH 71/86] fix: the sort key of a string stopped at the first
 character that is not in the DUCET, and resets to one crashed

---
 lib/sldr/collation.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index b2f501b..13597e1 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -51,6 +51,26 @@ def splitunescaped(chars, s):
             res[-1] += m.group(0)
     return res
 
+# blocks whose characters UCA weighs by their place in the script: first, last, lead weight, start of the script
+siniform = ((0x17000, 0x18AFF, 0xFB00, 0x17000), (0x18D00, 0x18D7F, 0xFB00, 0x17000),
+            (0x1B170, 0x1B2FF, 0xFB01, 0x1B170), (0x18B00, 0x18CFF, 0xFB02, 0x18B00))
+
+def implicitKey(c):
+    '''The key that UCA gives to a character that is not in the DUCET'''
+    i = ord(c)
+    lead, trail = 0xFBC0 + (i >> 15), i & 0x7FFF
+    if ud.category(c) == "Cn":
+        pass
+    elif 0x4E00 <= i <= 0x9FFF or 0xFA0E <= i <= 0xFA29:
+        lead -= 0x80
+    elif ud.name(c, "").startswith("CJK UNIFIED"):
+        lead -= 0x40
+    else:
+        for first, last, weight, start in siniform:
+            if first <= i <= last:
+                lead, trail = weight, i - start
+    return [[lead, trail | 0x8000], [0x20], [2]]
+
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
         SortKey (array of 3 arrays)'''
@@ -72,7 +92,15 @@ def ducetSortKey(d, k, extra=None, fn=None):
                 key = dlambda(k[:i])
         if key is None or not len(key):
             i -= 1
-            continue
+            if i > 0:
+                continue
+            decomposed = ud.normalize("NFD", k[0])
+            if decomposed != k[0]:
+                k = decomposed + k[1:]
+                i = len(k)
+                continue
+            key = implicitKey(k[0])
+            i = 1
         try:
             res = [res[j]+list(key[j]) for j in range(3)]
         except IndexError:
-- 
2.43.0


From f79071a94339d9b4ba4a15823b5e88a4e8822f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:15 +0000
Subject: [PATCH 72/86] fix: white space that is part of a tailored string was
 trimmed from it or read as padding

---
 lib/sldr/collation.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 13597e1..45fd06f 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -7,6 +7,8 @@ from itertools import groupby, zip_longest
 from difflib import SequenceMatcher
 from collections import UserDict
 
+patternwhite = "\t\n\v\f\r \x85\u200e\u200f\u2028\u2029"     # what means nothing in a tailoring, unless escaped
+
 def escape(s, allchars=False):
     '''Turn normal Unicode into escaped tailoring syntax'''
     res = ""
@@ -20,7 +22,9 @@ def escape(s, allchars=False):
             res += k + k
             continue
         i = ord(k)
-        if 32 < i < 127:
+        if k in patternwhite:
+            res += "\\u{:04x}".format(i)
+        elif 32 < i < 127:
             res += k
         elif lastbase or not ud.category(k).startswith("M"):
             lastbase = True
@@ -41,6 +45,11 @@ def unescape(s):
         return m.group(3) or chr(int(m.group(m.lastindex), 16))
     return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", char, s, flags=re.S)
 
+def trim(s):
+    '''Removes the white space around a part of a tailoring, but not what is escaped'''
+    m = re.match(r'(?:\\.|.)*?(?=[{}]*\Z)'.format(patternwhite), s.lstrip(patternwhite), flags=re.S)
+    return m.group(0)
+
 def splitunescaped(chars, s):
     '''Splits at runs of characters from chars that are not escaped, the runs are every second item of the result'''
     res = [""]
@@ -244,10 +253,10 @@ class Collation(UserDict):
         first = max((v.order[0] for v in self.values()), default=-1) + 1
         string = re.sub(r'(\\.)|(?:^|(?<=\s))#.*$', r'\1', string, flags=re.M)
         for n, run in enumerate(splitunescaped('&', string)[::2], first):
-            bits = [x.strip() for x in splitunescaped('<=', run)]
-            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0], flags=re.S)
+            bits = [trim(x) for x in splitunescaped('<=', run)]
+            m = re.match(r"(?:\[before\s+(\d)\s*\])?(.*)\Z", bits[0], flags=re.S)
             if m:
-                base = unescape(m.group(2))
+                base = unescape(trim(m.group(2)))
                 before = 0
                 if m.group(1):
                     before = int(m.group(1))
@@ -262,12 +271,14 @@ class Collation(UserDict):
                 expansion = splitunescaped('/', k)
                 expstr = ""
                 if len(expansion) > 1 and expansion[0]:
-                    expstr = unescape("".join(expansion[2:]).strip())
-                    k = expansion[0].strip()
+                    expstr = unescape(trim("".join(expansion[2:])))
+                    k = trim(expansion[0])
                 key = unescape(k)
+                pad = len(key)
                 while key in self:
                     key += " "
                 self[key] = CollElement(base, l, before)
+                self[key].pad = len(key) - pad
                 self[key].order = (n,i)
                 if prefix:
                     self[key].prefix = prefix
@@ -314,7 +325,7 @@ class Collation(UserDict):
         skip = []
         for k, v in self._inrulesorder(sorted(self.items(), key=ordering)):
             fullk = k
-            k = k.rstrip()
+            k = k[:len(k) - v.pad]
             if v.prefix:
                 res += v.prefix
             if k in skip:
@@ -659,6 +670,7 @@ class CollElement(object):
         self.shortkey = ""          # The key before expansion added (used by children)
         # self.key = None           # calculated sort key to interact with ducet (not the ducet key)
         self.order = (0,)           # order in defn [reset index, element index within reset]
+        self.pad = 0                # number of spaces at the end of the key that only keep it apart from an earlier one
         self.inDucet = None         # cache of whether we correspond to our position in the ducet
         self._head = None           # the top of our chain, that itself is not in the collation
         self.children = [[], [], []]    # children at each level
-- 
2.43.0


From bc2d048211c6c9e46f70a994187711795af21994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:39 +0000
Subject: [PATCH 73/86] fix: keyboards with optional modifiers could not be
 read and lists of modifiers were taken as one

---
 lib/sldr/ldml_keyboard.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index a5ba4f9..b825260 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -97,18 +97,13 @@ class Keyboard(object):
 
     def parse_modifiers(self, modifiers):
         '''Flatten a modifier list into a list of possible modifiers'''
-        resn = []
-        reso = []
-        for m in modifiers.lower().split():
-            for mod in m.lower().split('+'):
-                if mod.endswith("?"):
-                    reso.append(mod)
-                else:
-                    resn.append(mod)
-        yield sorted(resn)
-        for i in range(len(reso)):
-            for c in itertools.combinations(reso, i):
-                yield sorted(resn + c)
+        for m in modifiers.lower().split() or [""]:
+            mods = m.split('+')
+            resn = [mod for mod in mods if not mod.endswith("?")]
+            reso = [mod[:-1] for mod in mods if mod.endswith("?")]
+            for i in range(len(reso) + 1):
+                for c in itertools.combinations(reso, i):
+                    yield sorted(resn + list(c))
 
     def initstring(self):
         '''Prepare to start processing a sequence of keystrokes'''
@@ -146,7 +141,7 @@ class Keyboard(object):
 
     def map_key(self, k, mods):
         '''Apply the appropriate keyMap to a keystroke to get some chars'''
-        modstr = " ".join(sorted(mods))
+        modstr = " ".join(sorted(m.lower() for m in mods))
         try:
             res = self.keyboards[self.modifiers[modstr]][k]
         except KeyError:
-- 
2.43.0


From bead797a703c0853939ed062e90843d0b175ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:39 +0000
Subject: [PATCH 74/86] fix: keyboards with transforms could not be read

---
 lib/sldr/ldml_keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index b825260..972cad3 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -326,7 +326,7 @@ class Rules(object):
                         j.default = Rule()
                     newjobs.add(j.default)
                 if isFinal:
-                    for j, string in newjobs:
+                    for j in newjobs:
                         j.merge(transform.attrib)
             jobs = newjobs
 
-- 
2.43.0


From b4cbeac2108ca867177dfda6948b99c8170b9a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:39 +0000
Subject: [PATCH 75/86] fix: the backspace key of a keyboard crashed, or what
 it removed came back

---
 lib/sldr/ldml_keyboard.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 972cad3..8879ecd 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -120,7 +120,7 @@ class Keyboard(object):
         if k == 'BKSP':
             # normally we would simply undo, but test the backspace transforms
             if not self._process_backspace(ctxt, 'backspace'):
-                return self.error(ctxt)
+                return self.error()
         else:
             if not self._process_simple(ctxt):
                 return self.error()
@@ -276,7 +276,8 @@ class Keyboard(object):
     def _process_backspace(self, context, ruleset='backspace'):
         '''Handle the backspace transforms in response to bksp key'''
         if ruleset not in self.transforms:
-            self.chomp(context)
+            context.settle(context.outputs[-1][:-1])
+            return True
         trans = self.transforms[ruleset]
         # reverse the string
         instr = context.outputs[-1][::-1]
@@ -284,11 +285,11 @@ class Keyboard(object):
         r = trans.match(instr)
         if r[0] is not None:
             if getattr(r[0], 'error', 0): return False
-            instr[:r[1]] = getattr(r[0], 'to', "")
+            instr = getattr(r[0], 'to', "")[::-1] + instr[r[1]:]
         else:       # no rule, so just remove a single character
             instr = instr[1:]
         # and reverse back again
-        context.outputs[-1] = instr[::-1]
+        context.settle(instr[::-1])
         return True
 
 
@@ -303,7 +304,7 @@ class Rules(object):
         '''Insert or merge a rule into this set of rules'''
         f = transform.get('from')
         if self.reverse:
-            chars = UnicodeSets.parse(f).reverse()
+            chars = UnicodeSets.parse(f)[::-1]
         else:
             chars = UnicodeSets.parse(f)
         jobs = set([self.rules])
@@ -464,6 +465,12 @@ class Context(object):
         ind = self.index(name)
         self.outputs[ind] = self.stables[ind]
 
+    def settle(self, text):
+        '''Make text the state of every layer'''
+        self.stables = [text] * len(self.slotnames)
+        self.outputs = [text] * len(self.slotnames)
+        self.offsets = [len(text)] * len(self.slotnames)
+
     def results(self, name, length, res):
         '''Remove from input, in effect, and put result into stables'''
         ind = self.index(name)
-- 
2.43.0


From db1a0ace5dc3024c96f896672f5cc6d9682a6735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:39 +0000
Subject: [PATCH 76/86] fix: keyboard transforms with before or after never
 applied

---
 lib/sldr/ldml_keyboard.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 8879ecd..810fa1d 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -173,7 +173,7 @@ class Keyboard(object):
         curr = context.offset(ruleset)
         instr = context.input(ruleset)
         while curr < len(instr):
-            r = trans.match(instr[curr:], partial=partial, fail=fail)
+            r = trans.match(instr, curr, partial=partial, fail=fail)
             if r[0] is not None:
                 if getattr(r[0], 'error', 0): return False
                 context.results(ruleset, r[1], getattr(r[0], 'to', ""))
@@ -350,7 +350,7 @@ class Rules(object):
                     return (last, lastind - start)
             curr = curr[s[ind]]
             ind += 1
-            if curr.rule:
+            if curr.rule or len(curr.contexts):
                 newlast = curr.context_match(s, start, ind)
                 if newlast is not None:
                     lastind = ind
@@ -375,10 +375,10 @@ class Rule(dict):
 
     def merge(self, e):
         if 'before' in e or 'after' in e:
-            before = UnicodeSets.flatten(e.get('before', ""))
-            after = UnicodeSets.flatten(e.get('after', ""))
-            for b in before or [""]:
-                for a in after or [""]:
+            before = list(UnicodeSets.flatten(e.get('before', "")))
+            after = list(UnicodeSets.flatten(e.get('after', "")))
+            for b in before:
+                for a in after:
                     k = (b, a)
                     if k == ("", ""):
                         self._coremerge(e)
@@ -408,7 +408,7 @@ class Rule(dict):
         for m, r in self.contexts.items():
             if self._matchcontext(m, s, beg, end):
                 return r
-        return None
+        return self if self.rule else None
 
 class Context(object):
     '''Holds the processed state of each layer after a keystroke'''
-- 
2.43.0


From f69e7b993cc22cca7fa32c89ae48660f6bba4463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:39 +0000
Subject: [PATCH 77/86] fix: keyboard transforms and contexts of three or more
 characters never applied

---
 lib/sldr/ldml_keyboard.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 810fa1d..8f9cccb 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -172,14 +172,17 @@ class Keyboard(object):
         context.reset_output(ruleset)
         curr = context.offset(ruleset)
         instr = context.input(ruleset)
+        pending = False
         while curr < len(instr):
             r = trans.match(instr, curr, partial=partial, fail=fail)
+            # more input may change the results from here on
+            pending = pending or trans.pending(instr, curr)
             if r[0] is not None:
                 if getattr(r[0], 'error', 0): return False
-                context.results(ruleset, r[1], getattr(r[0], 'to', ""))
+                context.results(ruleset, r[1], getattr(r[0], 'to', ""), stable=not pending)
                 curr += r[1]
             elif r[1] == 0 and not fallback:     # abject failure
-                context.results(ruleset, 1, instr[curr:curr+1])
+                context.results(ruleset, 1, instr[curr:curr+1], stable=not pending)
                 curr += 1
             else:               # partial match waiting for more input
                 break
@@ -359,7 +362,19 @@ class Rules(object):
             return (None, ind - start)
         else:
             return (last, lastind - start)
-        
+
+    def pending(self, s, ind=0):
+        '''Could a rule match here, that does not yet, when more is added to the given string?'''
+        curr = self.rules
+        while ind < len(s):
+            if s[ind] not in curr:
+                return False
+            curr = curr[s[ind]]
+            ind += 1
+            if curr.context_pending(s, ind):
+                return True
+        return len(curr) > 0
+
 
 class Rule(dict):
     '''A trie element that might do something. Corresponds to a
@@ -410,6 +425,10 @@ class Rule(dict):
                 return r
         return self if self.rule else None
 
+    def context_pending(self, s, end):
+        '''Is there a context that may match when more follows?'''
+        return any(len(s) - end < len(m[1]) and m[1].startswith(s[end:]) for m in self.contexts)
+
 class Context(object):
     '''Holds the processed state of each layer after a keystroke'''
 
@@ -471,7 +490,7 @@ class Context(object):
         self.outputs = [text] * len(self.slotnames)
         self.offsets = [len(text)] * len(self.slotnames)
 
-    def results(self, name, length, res):
+    def results(self, name, length, res, stable=True):
         '''Remove from input, in effect, and put result into stables'''
         ind = self.index(name)
         leftlen = len(self.outputs[ind-1]) - self.offsets[ind] - length
@@ -479,7 +498,7 @@ class Context(object):
         self.outputs[ind] += res
         # only add to stables if everything to be consumed is already in the stables
         # of the previous layer. Otherwise, our results can only be temporary.
-        if leftlen > prevleft:
+        if stable and leftlen > prevleft:
             self.stables[ind] += res
             self.offsets[ind] += length
 
-- 
2.43.0


From d6b478b117659dae5be97cea34d393033bb73cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:30 +0000
Subject: [PATCH 78/86] fix: a subtag registry that begins or ends with a
 variant could not be read

---
 lib/sldr/langtags_full.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index a6b66c0..b2ca2be 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -376,6 +376,7 @@ class LangTags(with_metaclass(Singleton, dict)):
             currlang = None
             mode = None
             deprecated = False
+            hasprefix = False
             for l in f.readlines() :
                 l = l.strip()
                 if l.startswith("Type: ") :
@@ -412,7 +413,10 @@ class LangTags(with_metaclass(Singleton, dict)):
                     tag.desc.append(l[13:].strip())
                 elif l.startswith("Prefix: ") and mode == "extlang" and tag is not None:
                     tag.lang = l[8:] + "-" + tag.lang
-            if currlang is not None:
+            if mode == "variant":
+                if not hasprefix:
+                    self.global_variants.append(currlang)
+            elif currlang is not None:
                 self.add(tag)
 
     def readSupplementalData(self, fname = None) :
-- 
2.43.0


From 1da3947528c25d3a55b4008a271d6c88c1343ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:49 +0000
Subject: [PATCH 79/86] fix: the description of a subtag that is folded over
 several lines was cut

---
 lib/sldr/langtags_full.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index b2ca2be..ecece21 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -32,6 +32,16 @@ from six import with_metaclass
 def powerset(x):
     return sum(([set(y) for y in combinations(x, i)] for i in range(len(x)+1)), [])
 
+def joinfolded(lines):
+    ''' Joins the lines of a registry that begin with a space to the line they continue '''
+    res = []
+    for l in lines:
+        if l[:1].isspace() and l.strip() and len(res):
+            res[-1] = res[-1].rstrip() + " " + l.strip()
+        else:
+            res.append(l)
+    return res
+
 class Singleton(type):
     _instances = {}
     def __call__(cls, *args, **kwargs):
@@ -377,7 +387,7 @@ class LangTags(with_metaclass(Singleton, dict)):
             mode = None
             deprecated = False
             hasprefix = False
-            for l in f.readlines() :
+            for l in joinfolded(f) :
                 l = l.strip()
                 if l.startswith("Type: ") :
                     if mode == "variant":
-- 
2.43.0


From b65cef17a18c1b7f59e3578a27e5cc5324ca1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:21 +0000
Subject: [PATCH 80/86] fix: keyboard reorders of a run without a base crashed

---
 lib/sldr/ldml_keyboard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 8f9cccb..8cfdfaa 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -194,7 +194,7 @@ class Keyboard(object):
         # if there is no base, insert one
         if (0, 0) not in [(x.primary, x.tertiary) for x in k]:
             s += u"\u25CC"
-            k += SortKey(0, 0, 0, 0)  # push this to the front
+            k.append(SortKey(0, 0, 0, 0))  # push this to the front
         # sort key is (primary, secondary, string index)
         return u"".join(s[y] for y in sorted(range(len(s)), key=lambda x:k[x]))
 
-- 
2.43.0


From 517d2057346e4e01fa8d5a5de00510af471175f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:09 +0000
Subject: [PATCH 81/86] fix: keyboard reorders of several bases, in context or
 of text that still changes were wrong

---
 lib/sldr/ldml_keyboard.py | 108 +++++++++++++++++++++++---------------
 1 file changed, 65 insertions(+), 43 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 8cfdfaa..96b144a 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -151,8 +151,10 @@ class Keyboard(object):
     def _process_empty(self, context, ruleset):
         '''Copy layer input to output'''
         context.reset_output(ruleset)
+        known = context.known(ruleset)[context.offset(ruleset):]
+        context.results(ruleset, len(known), known)
         output = context.input(ruleset)[context.offset(ruleset):]
-        context.results(ruleset, len(output), output)
+        context.results(ruleset, len(output), output, stable=False)
 
     def _process_simple(self, context, ruleset='simple', handleSettings=True):
         '''Handle a simple replacement transforms type'''
@@ -172,11 +174,12 @@ class Keyboard(object):
         context.reset_output(ruleset)
         curr = context.offset(ruleset)
         instr = context.input(ruleset)
+        known = context.known(ruleset)
         pending = False
         while curr < len(instr):
             r = trans.match(instr, curr, partial=partial, fail=fail)
             # more input may change the results from here on
-            pending = pending or trans.pending(instr, curr)
+            pending = pending or curr + max(r[1], 1) > len(known) or trans.pending(known, curr)
             if r[0] is not None:
                 if getattr(r[0], 'error', 0): return False
                 context.results(ruleset, r[1], getattr(r[0], 'to', ""), stable=not pending)
@@ -207,7 +210,7 @@ class Keyboard(object):
 
     def _get_charcodes(self, instr, curr, trans):
         '''Returns a list of some CharCodes, 1 per char, for the string at curr''' 
-        r = trans.match(instr[curr:])
+        r = trans.match(instr, curr)
         if r[0] is not None:
             orders = [int(x) for x in self._padlist(getattr(r[0], 'order', "0"), r[1])]
             bases = [bool(x) for x in self._padlist(getattr(r[0], 'tertiary_base', "false"), r[1])]
@@ -226,52 +229,69 @@ class Keyboard(object):
         instr = context.input(ruleset)
         context.reset_output(ruleset)
 
-        # scan for start of sortable run. Normally empty
         startrun = context.offset(ruleset)
-        curr = startrun
+        codes = []
+        matches = [startrun]    # where the matches begin
+        known = startrun        # more input doesn't change the codes up to here
+        pending = False
+        while matches[-1] < len(instr):
+            curr = matches[-1]
+            codes.extend(self._get_charcodes(instr, curr, trans))
+            matches.append(startrun + len(codes))
+            pending = pending or matches[-1] > len(context.known(ruleset)) or trans.pending(context.known(ruleset), curr)
+            if not pending:
+                known = matches[-1]
+
+        def output(end, res, last):
+            nonlocal known
+            if last > known or end not in matches:  # from within a match the rest of it wouldn't be found
+                known = startrun
+            context.results(ruleset, end - startrun, res, stable=known > startrun)
+
+        # scan for start of sortable run. Normally empty
+        first = curr = startrun
         while curr < len(instr):
-            codes = self._get_charcodes(instr, curr, trans)
-            for c in codes:
-                if c.prebase or c.primary == 0:
-                    break
-                curr += 1
-            else:
-                continue        # if didn't break inner loop, don't break outer loop
-            break               # if we broke in the inner loop, break the outer loop
+            c = codes[curr - first]
+            if c.prebase or c.primary == 0:
+                break
+            curr += 1
         if curr > startrun:     # just copy the odd characters across
-            context.results(ruleset, curr - startrun, instr[startrun:curr])
+            output(curr, instr[startrun:curr], curr)
 
         startrun = curr
         keys = [None] * (len(instr) - startrun)
         isinit = True           # inside the start of a run (.{prebase}* .{order==0 && tertiary==0})
+        hasbase = False
         currprimary = 0
         currbaseindex = curr
-        while curr < context.len(ruleset):
-            codes = self._get_charcodes(instr, curr, trans)
-            for i, c in enumerate(codes):               # calculate sort key for each character in turn
-                if c.tertiary and curr + i > startrun:      # can't start with tertiary, treat as primary 0
-                    key = SortKey(currprimary, currbaseindex, c.tertiary, curr + i)
-                else:
-                    key = SortKey(c.primary, curr + i, 0, curr + i)
-                    if c.primary == 0 or c.tertiary_base:   # primary 0 is always a tertiary base
-                        currprimary = c.primary
-                        currbaseindex = curr + i
-
-                if ((key.primary != 0 or key.tertiary != 0) and not c.prebase) \
-                        or (c.prebase and curr + i > startrun \
-                            and keys[curr+i-startrun-1].primary == 0):  # prebase can't have tertiary
-                    isinit = False      # After the prefix, so any following prefix char starts a new run
-
-                # identify a run boundary
-                if not isinit and ((key.primary == 0 and key.tertiary == 0) or c.prebase):
-                    # output sorted run and reset for new run
-                    context.results(ruleset, curr + i - startrun,
-                                    self._sort(startrun, curr + i, instr, keys))
-                    startrun = curr + i
-                    keys = [None] * (len(instr) - startrun)
-                    isinit = True
-                keys[curr+i-startrun] = key
-            curr += len(codes)
+        while curr < len(instr):                        # calculate sort key for each character in turn
+            c = codes[curr - first]
+            if c.tertiary and curr > startrun:          # can't start with tertiary, treat as primary 0
+                key = SortKey(currprimary, currbaseindex, c.tertiary, curr)
+            else:
+                key = SortKey(c.primary, curr, 0, curr)
+
+            isbase = not c.prebase and key.primary == 0 and key.tertiary == 0
+            if not isbase and (not c.prebase or hasbase):
+                isinit = False      # After the prefix, so any following prefix char starts a new run
+
+            # identify a run boundary
+            if (not isinit and c.prebase) or (isbase and (hasbase or not isinit)):
+                # output sorted run and reset for new run
+                output(curr, self._sort(startrun, curr, instr, keys), curr + 1)   # and what ends the run
+                startrun = curr
+                keys = [None] * (len(instr) - startrun)
+                isinit = True
+                hasbase = False
+                currprimary = 0
+                currbaseindex = curr
+                key = SortKey(c.primary, curr, 0, curr)
+            if key.tertiary == 0 and (key.primary == 0 or c.tertiary_base):   # primary 0 is always a tertiary base
+                currprimary = c.primary
+                currbaseindex = curr
+            hasbase = hasbase or isbase
+            keys[curr-startrun] = key
+            curr += 1
         if curr > startrun:
             # output but don't store any residue. Reprocess it next time.
             context.outputs[context.index(ruleset)] += self._sort(startrun, curr, instr, keys)
@@ -475,6 +495,10 @@ class Context(object):
         '''Return full input string to this layer'''
         return self.outputs[self.slotnames[name]-1]
 
+    def known(self, name='simple'):
+        '''Return the part of the input string to this layer that won't change'''
+        return self.stables[self.slotnames[name]-1]
+
     def offset(self, name='simple'):
         '''Returns the offset into input string that isn't in stables'''
         return self.offsets[self.slotnames[name]]
@@ -493,12 +517,10 @@ class Context(object):
     def results(self, name, length, res, stable=True):
         '''Remove from input, in effect, and put result into stables'''
         ind = self.index(name)
-        leftlen = len(self.outputs[ind-1]) - self.offsets[ind] - length
-        prevleft = len(self.outputs[ind-2]) - self.offsets[ind-1] if ind > 1 else 0
         self.outputs[ind] += res
         # only add to stables if everything to be consumed is already in the stables
         # of the previous layer. Otherwise, our results can only be temporary.
-        if stable and leftlen > prevleft:
+        if stable:
             self.stables[ind] += res
             self.offsets[ind] += length
 
-- 
2.43.0


From 196043a2abccb3d5a5275aabe1bf629485b54efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:57 +0000
Subject: [PATCH 82/86] fix: keyboard rules with negated sets crashed or missed
 characters that other rules name

---
 lib/sldr/ldml_keyboard.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 96b144a..8f81e23 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -24,7 +24,7 @@
 # SUCH DAMAGE.
 
 from xml.etree import ElementTree as et
-import itertools, re, os, sys
+import copy, itertools, re, os, sys
 from collections import namedtuple
 
 try:
@@ -339,7 +339,7 @@ class Rules(object):
                 j.fail = False
                 for l in k:
                     if l not in j:
-                        j[l] = Rule()
+                        j[l] = Rule() if j.default is None else copy.deepcopy(j.default)
                     if not k.negative:
                         newjobs.add(j[l])
                 if k.negative:
@@ -366,19 +366,16 @@ class Rules(object):
         if fail and s[ind] in curr:
             lastind = start + 1
         while ind < len(s):
-            if s[ind] not in curr:
-                if curr.default:
-                    curr = curr.default
-                else:
-                    return (last, lastind - start)
-            curr = curr[s[ind]]
+            curr = curr.next(s[ind])
+            if curr is None:
+                return (last, lastind - start)
             ind += 1
             if curr.rule or len(curr.contexts):
                 newlast = curr.context_match(s, start, ind)
                 if newlast is not None:
                     lastind = ind
                     last = newlast
-        if partial and len(curr):
+        if partial and curr.more():
             return (None, ind - start)
         else:
             return (last, lastind - start)
@@ -387,13 +384,13 @@ class Rules(object):
         '''Could a rule match here, that does not yet, when more is added to the given string?'''
         curr = self.rules
         while ind < len(s):
-            if s[ind] not in curr:
+            curr = curr.next(s[ind])
+            if curr is None:
                 return False
-            curr = curr[s[ind]]
             ind += 1
             if curr.context_pending(s, ind):
                 return True
-        return len(curr) > 0
+        return curr.more()
 
 
 class Rule(dict):
@@ -408,6 +405,14 @@ class Rule(dict):
     def __hash__(self):
         return hash(id(self))
 
+    def next(self, c):
+        '''The element that the given character leads to, or None'''
+        return self.get(c, self.default)
+
+    def more(self):
+        '''Does anything lead on from here?'''
+        return len(self) > 0 or self.default is not None
+
     def merge(self, e):
         if 'before' in e or 'after' in e:
             before = list(UnicodeSets.flatten(e.get('before', "")))
-- 
2.43.0


From 7c9e01bbfe14a90de71a029dc6f063f2944bd87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:57 +0000
Subject: [PATCH 83/86] fix: the keyboard test generator could not run

---
 lib/sldr/ldml_keyboard.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_keyboard.py b/lib/sldr/ldml_keyboard.py
index 8f81e23..76fbf09 100755
--- a/lib/sldr/ldml_keyboard.py
+++ b/lib/sldr/ldml_keyboard.py
@@ -546,12 +546,13 @@ def main():
     if args.outfile:
         outfile = codecs.open(args.outfile, "w", encoding="utf-8")
     else:
-        outfile = codecs.EncodedFile(sys.stdout, "utf-8")
-    with open(args.testfile) as inf:
+        outfile = codecs.getwriter("utf-8")(sys.stdout.buffer)
+    with open(args.testfile, encoding="utf-8") as inf:
         for l in inf.readlines():
             res = list(kbd.process_string(l))
-            outfile.write(u", ".join(map(unicode, res)) + u"\n")
-    outfile.close()
+            outfile.write(u", ".join(map(str, res)) + u"\n")
+    if args.outfile:
+        outfile.close()
 
 if __name__ == '__main__':
     main()
-- 
2.43.0


From ae19fd7988bf5c5e3e61ac1727208504f47d8afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:57 +0000
Subject: [PATCH 84/86] fix: kbdtest reported success for 256 failures and
 failed texts that are empty

---
 scripts/kbdtest | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/kbdtest b/scripts/kbdtest
index 527dd5c..74f5596 100755
--- a/scripts/kbdtest
+++ b/scripts/kbdtest
@@ -86,7 +86,7 @@ for i, e in enumerate(doc.findall('.//event')):
     key = keymap[v.text.strip()]
     t = e.find('./postcontext/text')
     if t is None: continue
-    test = t.text
+    test = t.text or ''
     res = kbd.process(key, modifiers)
     if str(res) != test:
         print("Failed test {}: {} should be {}".format(i+1, res, test))
@@ -94,4 +94,4 @@ for i, e in enumerate(doc.findall('.//event')):
             print(" ".join("U+{:04X}".format(ord(x)) for x in str(res)) + " should be " + \
                   " ".join("U+{:04X}".format(ord(x)) for x in test))
         errors += 1
-sys.exit(errors)
+sys.exit(min(errors, 255))
-- 
2.43.0


From 33f70d8c06ebe5d01e969d970e5bb3932fec28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:17 +0000
Subject: [PATCH 85/86] fix: changing a draft with a named alternate lost the
 value that has that name

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index dadd51e..5ffea5e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -625,7 +625,7 @@ class Ldml(ETWriter):
         node.set('draft', draft)
         if best is None:
             return node
-        elif alt is None:
+        elif alt is None or alt in node.alternates:     # do not replace another alternate
             alt = best
         return self._promote(node, node.alternates[best], alt=alt)
 
-- 
2.43.0


From 4935db5fab41bd2a4513fd02f67c8bdeff04d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:36 +0000
Subject: [PATCH 86/86] fix: unflattening removed alternates that flattening
 does not restore

---
 lib/sldr/ldml_merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index c33c191..fbb9300 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -65,10 +65,8 @@ class LdmlMerge(Ldml):
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-                        for (k, v) in o.alternates.items():
-                            if k in t.alternates and v.contentHash == t.alternates[k].contentHash:
-                                del t.alternates[k]
-                        if len(t.alternates) == 0:
+                        # alternates are only inherited again with the whole element
+                        if all(k in o.alternates and o.alternates[k].contentHash == v.contentHash for k, v in t.alternates.items()):
                             this.remove(t)
                     else:
                         this.remove(t)
-- 
2.43.0

