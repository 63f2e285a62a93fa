From 777ea65e96408eeef1686619b2f7aad6f277327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:34 +0000
Subject: [PATCH 01/84] fix: html5: keep html5lib's own name & namespace on
 every element

Elements in the SVG & MathML namespaces, clones made by the adoption agency
algorithm, and elements with a colon in their name presented html5lib with
another namespace or name than the one it created them under, so parses of
tag soup & foreign content came out with the wrong structure.
---
 pylib/uxml/html5.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 1b65eff..8f9479e 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -155,7 +155,10 @@ class element(tree.element, node):
         name and attributes but with no parent or child nodes
         """
         attrs = self.xml_attributes.copy()
-        return element(self.xml_name, attrs=attrs)
+        clone = element(self.xml_name, attrs=attrs)
+        # The clone must also look the same to html5lib, which tracks elements by namespace & name
+        clone.xml_html5lib_name, clone.xml_html5lib_namespace = self.name, self.namespace
+        return clone
 
 
 # class comment(tree.comment):
@@ -263,28 +266,24 @@ class treebuilder(TreeBuilder):
         #We'll take care of that ourselves with the if not use_xhtml_ns... below
         TreeBuilder.__init__(self, True)
         def eclass(name, namespace):
-            xml_html5lib_name, xml_html5lib_namespace = MARKER, MARKER
+            # Whatever becomes of them below, html5lib must see the name & namespace it gave us
+            xml_html5lib_name, xml_html5lib_namespace = name, namespace
             if not use_xhtml_ns and namespace == XHTML_NAMESPACE:
                 #html5lib feints support for HTML5 elements kept in the null namespace
                 #But in reality this support is broken.  We have to in effect keep
                 #Two namespaces for each element, the real one from an amara perspective
                 #And another that is always XHTML for HTML5 elements, so html5lib doesn't break
-                xml_html5lib_namespace = namespace
                 namespace = None
             #For some reason html5lib sometimes sends None as name
             if not name:
-                xml_html5lib_name = name
                 name = NAME_FOR_ELEMENTS_UNNAMED_BY_HTML5LIB
             #import sys; print >> sys.stderr, (namespace, name, use_xhtml_ns)
             #Deal with some broken HTML that uses bogus colons in tag names
             if (u":" in name and not namespace):
-                xml_html5lib_namespace = namespace
                 namespace = BOGUS_NAMESPACE
             elem = element(qname_to_local(name))
-            if xml_html5lib_namespace != MARKER:
-                elem.xml_html5lib_namespace = xml_html5lib_namespace
-            if xml_html5lib_name != MARKER:
-                elem.xml_html5lib_name = xml_html5lib_name
+            elem.xml_html5lib_namespace = xml_html5lib_namespace
+            elem.xml_html5lib_name = xml_html5lib_name
             return elem
         self.elementClass = eclass
         self.fragmentClass = eclass
-- 
2.43.0


From cc1b4b4f86a5ceb7b08dc373f1f4603b3e9b1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:53 +0000
Subject: [PATCH 02/84] fix: parser: no spurious None event at the head of
 parse() & parsefrags()

The parser primes its handler, so a handler which primes itself as well was
sent a None, which showed up as the first event, contrary to the README.
---
 pylib/uxml/parser.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index d9f38ba..031d90e 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -343,7 +343,6 @@ echo "for e in parsefrags(('<spa', 'm>eggs</spam>')): print(e)" >> /tmp/spam.py
 python -m pdb -c "b /Users/uche/.local/venv/py3/lib/python3.3/site-packages/amara3/uxml/parser.py:173" /tmp/spam.py
 '''
 
-@coroutine
 def handler(accumulator):
     while True:
         event = yield
-- 
2.43.0


From 4c38b804f2f59bc33390f5b54939d46698dfc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:53 +0000
Subject: [PATCH 03/84] fix: parser: allow a fragment to end within an
 attribute value

The backtrack stopped at the opening quote, though the attribute state starts
over from the attribute name, so the parse failed on the next fragment.
---
 pylib/uxml/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 031d90e..6bcd13a 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -287,7 +287,8 @@ def parser(handler, strict=True):
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
                                 if not done: need_input = True
-                                #Don't advance to newpos, so effectively backtrack
+                                #Don't advance to newpos, backtrack to the start of the attribute
+                                pos = backtrackpos
                                 continue
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
-- 
2.43.0


From 732fadb8d634b421b3addb3c5232a54bac3b83a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:53 +0000
Subject: [PATCH 04/84] fix: parser: report an illegal character in a character
 reference

The message was missing a format argument, and the resulting IndexError was
taken to mean more input was needed, so the rest of the document got lost.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 6bcd13a..f9a7cbc 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -124,7 +124,7 @@ def handle_cdata(pos, window, charpat, stopchars):
                                 raise RuntimeError('Unknown named character reference: {0}'.format(repr(window[start:cursor])))
                             break
                         else:
-                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor]), error_context(window, start, cursor))
+                            raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From f38ce43e504985ad4cbd0899b3c5017835af8507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:53 +0000
Subject: [PATCH 05/84] fix: parser: accept '.' & all of U+00C0-U+00D6 within
 names

A stray hyphen in the pattern turned it to the range U+00B7-U+00C0 and a
literal hyphen, and the full stop was missing altogether.
---
 pylib/uxml/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index f9a7cbc..703c1ab 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -46,7 +46,7 @@ NAMESTARTCHAR = re.compile('[A-Za-z_\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u02FF\u037
             '\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-NAMECHAR =  re.compile('[0-9A-Za-z_\u00B7-\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
+NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u037D' \
             '\u037F-\u1FFF\u200C-\u200D\u203F-\u2040\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF' \
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
-- 
2.43.0


From 74a07f214810ebf188b447dcb2bbe82843bc86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 06/84] fix: parser: whitespace between '=' and the attribute
 value

It was taken for the first character of a further attribute name, as was that
of an unquoted attribute value, which is now reported as such.
---
 pylib/uxml/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 703c1ab..ce4c02d 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -274,8 +274,13 @@ def parser(handler, strict=True):
                             pos += 1
                         else:
                             raise RuntimeError('Expected \'=\', found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
-                        if not done and pos == wlen:
-                            need_input = True
+
+                        #Eat up any whitespace
+                        try:
+                            while window[pos] in ' \r\n\t':
+                                pos += 1
+                        except IndexError:
+                            if not done: need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -295,6 +300,8 @@ def parser(handler, strict=True):
                             pos = newpos + 1 #Skip the closing quote
                             attribs[aname] = aval
                             curr_state = state.complete_tag
+                        else:
+                            raise RuntimeError('Expected a quoted attribute value, found {0} (around {1})'.format(window[pos], error_context(window, pos, pos)))
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-- 
2.43.0


From 2e3a1f38be3f08dd9752dbd6d3d922a75bac9688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 07/84] fix: parser: report a duplicate attribute rather than
 drop its first value

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index ce4c02d..1c89341 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -298,6 +298,8 @@ def parser(handler, strict=True):
                                 #if window[pos] != openattr:
                                 #    raise RuntimeError('Mismatch in attribute quotes')
                             pos = newpos + 1 #Skip the closing quote
+                            if aname in attribs:
+                                raise RuntimeError('Duplicate attribute {0}'.format(aname))
                             attribs[aname] = aval
                             curr_state = state.complete_tag
                         else:
-- 
2.43.0


From 5d1e337e7511f0f37511fb95b45f47a726851bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 08/84] fix: parser: report tags without an element name

---
 pylib/uxml/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index 1c89341..cd0c771 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -202,6 +202,8 @@ def parser(handler, strict=True):
                                 advpos += 1
                                 while NAMECHAR.match(window[advpos]):
                                     advpos += 1
+                            else:
+                                raise RuntimeError('Expected an element name, found {0}'.format(window[advpos]))
                         except IndexError:
                             if not done: need_input = True #Do not advance until we have enough input
                             continue
-- 
2.43.0


From ac03b3db4f07f8969c2d2fd57165dace4793d761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 09/84] fix: parser: do not loop forever on text ahead of the
 document element

It is an error, apart from the byte order mark MicroXML allows for.
---
 pylib/uxml/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index cd0c771..db82468 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -165,7 +165,7 @@ def parser(handler, strict=True):
                     if curr_state == state.pre_element:
                         #Eat up any whitespace
                         try:
-                            while window[pos] in ' \r\n\t':
+                            while window[pos] in ' \r\n\t' or (pos == 0 and window[pos] == BOM):
                                 pos += 1
                         except IndexError:
                             if not done: need_input = True #Do not advance until we have enough input
@@ -176,6 +176,8 @@ def parser(handler, strict=True):
                         if window[pos] == '<':
                             pos += 1
                             curr_state = state.pre_tag_gi
+                        else:
+                            raise RuntimeError('Expected \'<\', found {0}'.format(window[pos]))
                         #if not done and pos == wlen:
                         #    need_input = True
                         #    continue
-- 
2.43.0


From 83faf10cfec9a6f412bf30b383a966fd85531107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 10/84] fix: parser: report a document which ends prematurely

With the end of input flagged along with the last fragment, as parse() does,
the parser was in an infinite loop; otherwise there was no sign of the error.
---
 pylib/uxml/parser.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index db82468..bf902b7 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -168,7 +168,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t' or (pos == 0 and window[pos] == BOM):
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -188,7 +188,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         if curr_state == state.pre_tag_gi and window[pos] == '/':
                             pos += 1
@@ -207,7 +207,7 @@ def parser(handler, strict=True):
                             else:
                                 raise RuntimeError('Expected an element name, found {0}'.format(window[advpos]))
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         else:
                             gi = window[pos:advpos]
@@ -219,7 +219,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #Check for attributes
                         if pending_event == event.start_element and NAMESTARTCHAR.match(window[pos]):
@@ -258,7 +258,7 @@ def parser(handler, strict=True):
                             while NAMECHAR.match(window[advpos]):
                                 advpos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
                         else:
@@ -270,7 +270,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -284,7 +284,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             pos = backtrackpos
                             continue
 
@@ -295,7 +295,7 @@ def parser(handler, strict=True):
                             #pos + 1 to skip the opening quote
                             aval, newpos = handle_cdata(pos+1, window, attrpat, openattr)
                             if aval == None:
-                                if not done: need_input = True
+                                need_input = True
                                 #Don't advance to newpos, backtrack to the start of the attribute
                                 pos = backtrackpos
                                 continue
@@ -311,7 +311,7 @@ def parser(handler, strict=True):
                     if curr_state == state.in_element:
                         chars, newpos = handle_cdata(pos, window, DATACHAR, '<')
                         if chars == None:
-                            if not done: need_input = True
+                            need_input = True
                             #Don't advance to newpos, so effectively backtrack
                             continue
                         pos = newpos
@@ -331,7 +331,7 @@ def parser(handler, strict=True):
                             while window[pos] in ' \r\n\t':
                                 pos += 1
                         except IndexError:
-                            if not done: need_input = True #Do not advance until we have enough input
+                            need_input = True #Do not advance until we have enough input
                             continue
                         #if not done and pos == wlen:
                         #    need_input = True
@@ -342,6 +342,8 @@ def parser(handler, strict=True):
                             raise RuntimeError('Junk after document element')
                     #print('END1')
                 #print('END2')
+            if curr_state != state.complete_doc:
+                raise RuntimeError('Document ends before the end of the document element')
             sentinel = yield #Avoid StopIteration in parent from running off enf of coroutine?
         except GeneratorExit:
             #close() called
-- 
2.43.0


From f3925474a731ef8c096f544aa85244585e1a054a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:03:43 +0000
Subject: [PATCH 11/84] fix: parser: no silent loss of characters in content &
 attribute values

Characters outside the pattern were skipped without a word. Newlines and tabs
are allowed in attribute values, a lone carriage return is a line end as well,
and the rest, e.g. '>' and control characters, is not well-formed MicroXML.
---
 pylib/uxml/parser.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/parser.py b/pylib/uxml/parser.py
index bf902b7..8033229 100644
--- a/pylib/uxml/parser.py
+++ b/pylib/uxml/parser.py
@@ -51,13 +51,13 @@ NAMECHAR =  re.compile('[-.0-9A-Za-z_\u00B7\u00C0-\u00D6\u00D8-\u00F6\u00F8-\u03
             '\uF900-\uFDCF\uFDF0-\uFFFD\U00010000-\U000EFFFF]')
 
 #For single quoted attrs
-ATTRIBVALCHAR_SGL = re.compile('[\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_SGL = re.compile('[\u0009\u000a\u0020-\u0025\u0028-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]')
 
 #For double quoted attrs
-ATTRIBVALCHAR_DBL = re.compile('[\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
+ATTRIBVALCHAR_DBL = re.compile('[\u0009\u000a\u0020-\u0021\\\u0023-\u0025\u0027-\u003B\u003D\u003F-\u007e\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' \
             '\U00010000-\U0001fffd\U00020000-\U0002fffd\U00030000-\U0003fffd\U00040000-\U0004fffd\U00050000-\U0005fffd\U00060000-\U0006fffd' \
             '\U00070000-\U0007fffd\U00080000-\U0008fffd\U00090000-\U0009fffd\U000a0000-\U000afffd\U000b0000-\U000bfffd\U000c0000-\U000cfffd' \
             '\U000d0000-\U000dfffd\U000e0000-\U000efffd\U000f0000-\U000ffffd\U00100000-\U0010fffd]')
@@ -125,6 +125,12 @@ def handle_cdata(pos, window, charpat, stopchars):
                             break
                         else:
                             raise RuntimeError('Illegal in character reference: {0} (around {1})'.format(window[cursor], error_context(window, start, cursor)))
+            elif window[cursor] == '\r':
+                #Line ends are normalized to a single newline
+                if window[cursor + 1] != '\n':
+                    cdata += '\n'
+            else:
+                raise RuntimeError('Illegal character: {0} (around {1})'.format(repr(window[cursor]), error_context(window, start, cursor)))
             #print(start, cursor, cdata, window[cursor])
             cursor += 1
             start = cursor
-- 
2.43.0


From b74c2c15bd41d5e33187a077f424ec4f168eaf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 12/84] fix: xml: treebuilder returns the tree of the document
 just parsed

Without a reset the root of the first document ever parsed was returned from
all further parses, e.g. for the second & later files given to microx.
---
 pylib/uxml/xml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index afcbd2c..102dc80 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -117,6 +117,9 @@ class treebuilder(tree.treebuilder):
     root
     '''
     def parse(self, source):
+        #reset
+        self._root = None
+        self._parent = None
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
-- 
2.43.0


From ccb77868120f8b94acfa7baa755d0db55399bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 13/84] fix: xml: treebuilder reports a document which ends
 prematurely

expat was never told that it had been given the whole document.
---
 pylib/uxml/xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 102dc80..0c3192c 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -128,6 +128,6 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source)
+        self.expat_parser.Parse(source, True)
         return self._root
 
-- 
2.43.0


From 715ace78546d43c9e860bc4562ed62bd21f45ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 14/84] fix: xml: do not break text at line ends & references

Contrary to the README and the MicroXML data model the text between two tags
was turned to several text nodes, e.g. three of them for "a &amp; b".
---
 pylib/uxml/xml.py     | 2 ++
 pylib/uxml/xmliter.py | 1 +
 2 files changed, 3 insertions(+)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 0c3192c..d044e1b 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -97,6 +97,7 @@ def parse(source, handler):
     h = expat_callbacks(handler)
     p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
+    p.buffer_text = True  # One event, even across line ends & references
     p.StartElementHandler = h.start_element
     p.EndElementHandler = h.end_element
     p.CharacterDataHandler = h.char_data
@@ -123,6 +124,7 @@ class treebuilder(tree.treebuilder):
         self.handler = expat_callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
+        self.expat_parser.buffer_text = True  # One text node, even across line ends & references
         self.expat_parser.StartElementHandler = self.handler.start_element
         self.expat_parser.EndElementHandler = self.handler.end_element
         self.expat_parser.CharacterDataHandler = self.handler.char_data
diff --git a/pylib/uxml/xmliter.py b/pylib/uxml/xmliter.py
index afa434c..cd7c7df 100644
--- a/pylib/uxml/xmliter.py
+++ b/pylib/uxml/xmliter.py
@@ -37,6 +37,7 @@ class sender(treeiter.sender):
         self.handler = callbacks(self._handler())
         self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
 
+        self.expat_parser.buffer_text = True  # One text node, even across line ends & references
         self.expat_parser.StartElementHandler = self.handler.start_element
         self.expat_parser.EndElementHandler = self.handler.end_element
         self.expat_parser.CharacterDataHandler = self.handler.char_data
-- 
2.43.0


From 5282a6897450b6ab4e263261a2afb9c2291dc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 15/84] fix: treeiter: independent matching with more than one
 pattern

The patterns shared a single stack of events, and each was prefixed to the one
before it.
---
 pylib/uxml/treeiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 9a047fa..0c15e03 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -53,7 +53,7 @@ class sender:
         self._roots = [None] * self._pattern_count
         self._parents = [None] * self._pattern_count
         self._stateses = [None] * self._pattern_count
-        self._evstacks = [[]] * self._pattern_count
+        self._evstacks = [[] for _ in range(self._pattern_count)]
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
@@ -91,8 +91,8 @@ class sender:
         return _any_func
 
     def _prep_patterns(self):
-        next_state = MATCHED_STATE
         for ix, pattern in enumerate(self._patterns):
+            next_state = MATCHED_STATE
             for i in range(len(pattern)):
                 stage = pattern[-i-1]
                 if isinstance(stage, str):
-- 
2.43.0


From c09f9b6579f1ef4924c6f93b9a8e1940e4064692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 16/84] fix: treeiter: '**' is not bound to stop at the first
 match of the next step

Given ('**', 'x', 'y') there was no match for a y within x/x or x/z/x.
---
 pylib/uxml/treeiter.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 0c15e03..5f54f9f 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -82,6 +82,7 @@ class sender:
                 if next_next is not None:
                     return next_next
             return _any_until_func
+        _any_until_func.any_until = True
         return _any_until_func
 
     def _any(self, next, funcs):
@@ -111,13 +112,14 @@ class sender:
         return
 
     def _match_state(self, ix):
-        new_state = self._stateses[ix]
-        for depth, ev in enumerate(self._evstacks[ix]):
-            new_state = new_state(ev)
-            if new_state == MATCHED_STATE:
+        states = {self._stateses[ix]}
+        for ev in self._evstacks[ix]:
+            new_states = { state(ev) for state in states }
+            if MATCHED_STATE in new_states:
                 return True
-            elif new_state is None:
-                return False
+            # '**' can always go on to another element
+            new_states.update( state for state in states if hasattr(state, 'any_until') )
+            states = new_states - {None}
         return False
 
     def _handler(self):
-- 
2.43.0


From ee10f8f4cf6a45b81d1ef89b90534c9696a0aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 17/84] fix: treeutil: alternative names in a step of a
 select_pattern pattern

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index fe63f9d..06a9928 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -131,7 +131,7 @@ def _prep_pattern(pattern):
             else:
                 next_state = name_test(next_state, stage)
         elif isinstance(stage, tuple):
-            new_tuple = tuple(( name_test(substage) if isinstance(substage, str) else substage for substage in stage ))
+            new_tuple = tuple(( name_test(next_state, substage) if isinstance(substage, str) else substage for substage in stage ))
             next_state = any_(next_state, new_tuple)
         else:
             raise ValueError('Cannot interpret pattern component {0}'.format(repr(stage)))
-- 
2.43.0


From 82bcea87b214ac43bf71d978d826f36b1237116d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 18/84] fix: treeutil: following_siblings of a text node with a
 twin

Text nodes are strings, so an earlier one was mistaken for another equal to it.
---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 06a9928..52047ce 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -77,7 +77,7 @@ def following_siblings(elem):
     '''
     Yields elements and text which have the same parent as elem, but come afterward in document order
     '''
-    it = itertools.dropwhile(lambda x: x != elem, elem.xml_parent.xml_children)
+    it = itertools.dropwhile(lambda x: x is not elem, elem.xml_parent.xml_children)
     next(it, None) #Skip the element itself, if any
     return it
 
-- 
2.43.0


From 3c37ea43aa200ce4b1dc7ea07f787174a99a8065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 19/84] fix: treeutil: '**' in select_pattern reaches any
 descendant

It stopped at the first match of the next step, so elements within one which
matches went missing, contrary to "any a descendant", and so did a y within
x/x for ('**', 'x', 'y').
---
 pylib/uxml/treeutil.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 52047ce..1e20bbe 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -110,6 +110,7 @@ def any_until(next):
             if next_next is not None:
                 return next_next
         return _any_until #Return this same state until we can match the next
+    _any_until.any_until = True
     return _any_until
 
 def any_(next, funcs):
@@ -163,14 +164,17 @@ def select_pattern(node, pattern, state=None):
     ['1', '2', '3', '4']
     '''
     if state is None:
-        state = _prep_pattern(pattern)
+        state = {_prep_pattern(pattern)}
     #for child in select_elements(elem):
     if isinstance(node, element):
         for child in node.xml_children:
-            new_state = state(child)
-            if new_state == MATCHED_STATE:
+            new_state = { s(child) for s in state }
+            if MATCHED_STATE in new_state:
                 yield child
-            elif new_state is not None:
+            # '**' can always go on to another element
+            new_state.update( s for s in state if hasattr(s, 'any_until') )
+            new_state -= {MATCHED_STATE, None}
+            if new_state:
                 yield from select_pattern(child, None, state=new_state)
     return
 
-- 
2.43.0


From 81f06b57b80d0b5c58ce7a501d1324f134dc3085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:39 +0000
Subject: [PATCH 20/84] fix: tree: xml_remove of a text node with a twin

Text nodes are strings, so the first one of equal value was removed.
---
 pylib/uxml/tree.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 2f3a5d8..451e23b 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -146,11 +146,15 @@ class element(node):
 
         child - the child to remove
         '''
-        if child in self.xml_children:
-            child._xml_parent = None
-            self.xml_children.remove(child)
+        # Text nodes are strings, so prefer the very node given to another which is equal to it
+        for ix, candidate in enumerate(self.xml_children):
+            if candidate is child:
+                break
         else:
-            raise ValueError(f'Element {self} has no child {child}')
+            if child not in self.xml_children:
+                raise ValueError(f'Element {self} has no child {child}')
+            ix = self.xml_children.index(child)
+        self.xml_children.pop(ix)._xml_parent = None
         return
 
     def __repr__(self):
-- 
2.43.0


From a644d9e28f23b34c5240967265d6007671b75638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:40 +0000
Subject: [PATCH 21/84] fix: tree, writer: character references in attribute
 values which MicroXML has

Tabs & newlines came out as decimal character references, which the MicroXML
parser, rightly, rejects, so what xml_encode() & the writers gave could not be
read back.
---
 pylib/uxml/tree.py   | 11 ++++++++++-
 pylib/uxml/writer.py |  6 +++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/tree.py b/pylib/uxml/tree.py
index 451e23b..8de9672 100644
--- a/pylib/uxml/tree.py
+++ b/pylib/uxml/tree.py
@@ -16,6 +16,15 @@ from amara3.uxml.parser import parser, event  # parse, parsefrags
 # NO_PARENT = object()
 
 
+def encode_attribute(aval):
+    '''
+    Quoted & escaped form of an attribute value
+    '''
+    # MicroXML only has hexadecimal character references
+    return quoteattr(aval).replace('&#10;', '&#xA;').replace('&#9;', '&#x9;').replace('&#13;', '&#xD;')
+
+
+
 class node:
     def __init__(self, parent=None):
         self._xml_parent = weakref.ref(parent) if parent is not None else None
@@ -86,7 +95,7 @@ class element(node):
         '''
         strbits = ['<', self.xml_name]
         for aname, aval in self.xml_attributes.items():
-            strbits.extend([' ', aname, '=', quoteattr(aval)])
+            strbits.extend([' ', aname, '=', encode_attribute(aval)])
         strbits.append('>')
         if indent:
             strbits.append('\n')
diff --git a/pylib/uxml/writer.py b/pylib/uxml/writer.py
index f1ac03f..df76334 100644
--- a/pylib/uxml/writer.py
+++ b/pylib/uxml/writer.py
@@ -4,7 +4,7 @@ Raw XML writer
 '''
 
 from enum import Enum #https://docs.python.org/3.4/library/enum.html
-from xml.sax.saxutils import escape, quoteattr
+from xml.sax.saxutils import escape
 
 from amara3.uxml import tree, xml
 
@@ -94,7 +94,7 @@ class raw(object):
             self._whandler.write(context.attribute_name, k)
             self._whandler.write(context.start_element, token.attr_equals)
             # Check whether we need to extract quoteattr(v) at [0] and [-1] and write these in start_element context
-            self._whandler.write(context.attribute_text, quoteattr(v))
+            self._whandler.write(context.attribute_text, tree.encode_attribute(v))
         if empty:
             self._whandler.write(context.start_element, token.empty_close)
             if self._indent:
@@ -163,7 +163,7 @@ class namespacer(raw):
                     self._fp.write('xmlns:' + k if k else 'xmlns')
                     self._fp.write(TOKENS[token.attr_equals])
                     # Check whether we need to extract quoteattr(v) at [0] and [-1] and write these in start_element context
-                    self._fp.write(quoteattr(v))
+                    self._fp.write(tree.encode_attribute(v))
                 #self._fp.write(TOKENS[token.pre_attr])
                 self._ns_handled = True
         if ctx == context.element_name:
-- 
2.43.0


From cdee87d04919e3502e27e6ef03dbd0de321563c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:41 +0000
Subject: [PATCH 22/84] fix: html5iter: sender parses HTML

There is no html5.parser, so sender.parse always failed.
---
 pylib/uxml/html5iter.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/html5iter.py b/pylib/uxml/html5iter.py
index b1b9ea1..e731cbd 100644
--- a/pylib/uxml/html5iter.py
+++ b/pylib/uxml/html5iter.py
@@ -8,6 +8,7 @@ from . import tree
 from . import treeiter
 from .treeutil import *
 from . import html5
+from .parser import event
 
 
 class sender(treeiter.sender):
@@ -25,9 +26,20 @@ class sender(treeiter.sender):
     ['1', '2', '3']
     '''
     def parse(self, doc):
-        h = self._handler()
-        p = html5.parser(h)
-        p.send((doc, False))
-        p.send(('', True))  # Wrap it up
+        # html5lib can move elements around until the end of the document, so no events until then
+        top = html5.parse(doc)
+        if top is not None:
+            h = self._handler()
+            next(h)  # Prime the coroutine
+            self._send_events(h, top, [])
         return
 
+    def _send_events(self, handler, elem, ancestors):
+        handler.send((event.start_element, elem.xml_name, elem.xml_attributes, ancestors))
+        for child in elem.xml_children:
+            if isinstance(child, tree.element):
+                self._send_events(handler, child, ancestors + [elem.xml_name])
+            elif child:
+                handler.send((event.characters, child))
+        handler.send((event.end_element, elem.xml_name, ancestors))
+
-- 
2.43.0


From d03d36495a391f64d3543542db8a464c2efbb1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:42 +0000
Subject: [PATCH 23/84] fix: uxml.parse: separate threads do not share a
 builder

---
 pylib/uxml/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/__init__.py b/pylib/uxml/__init__.py
index 16b7db3..b8a7755 100644
--- a/pylib/uxml/__init__.py
+++ b/pylib/uxml/__init__.py
@@ -14,7 +14,7 @@ amara.lib.inputsource.text if it's not obviously XML
 from amara3.uxml import tree
 
 TB = tree.treebuilder()
-parse = TB.parse
+parse = tree.parse # Not TB.parse: separate threads must not build one another's tree
 
 
 try:
-- 
2.43.0


From c4eb8afa56f875951c134dab4038105af9e77115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:02 +0000
Subject: [PATCH 24/84] fix: cxmlstring: isxml works with current Python
 versions

The format & character accessor it used are gone, so it could not be called or
even imported. Also keeps the shift within an unsigned type, & the scan within
the string.
---
 clib/xmlstring.c | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/clib/xmlstring.c b/clib/xmlstring.c
index f1bb7aa..b0cdc10 100644
--- a/clib/xmlstring.c
+++ b/clib/xmlstring.c
@@ -8,9 +8,7 @@ Miscellaneous XML-specific string functions\n\
 Copyright 2016 Uche Ogbuji (USA).\n\
 ";
 
-/*
 #define PY_SSIZE_T_CLEAN
-*/
 #include <Python.h>
 
 #define XmlString_BUILDING_MODULE
@@ -47,17 +45,16 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     #See this article about XML detection heuristics
     #http://www.xml.com/pub/a/2007/02/28/what-does-xml-smell-like.html
   */
-  char *str, *encoding;
-  int len;
+  const char *str, *encoding;
+  Py_ssize_t len, i, nchars;
   PyObject *characters, *result;
-  Py_UNICODE *p;
 
   if (!PyArg_ParseTuple(args,"y#:isxml", &str, &len))
     return NULL;
 
   /* Determine the encoding of the XML bytes */
   if (len >= 4) {
-    Py_UCS4 ch = (((unsigned char)str[0] << 24)
+    Py_UCS4 ch = (((Py_UCS4)(unsigned char)str[0] << 24)
                   | ((unsigned char)str[1] << 16)
                   | ((unsigned char)str[2] << 8)
                   | (unsigned char)str[3]);
@@ -111,14 +108,14 @@ static PyObject *string_isxml(PyObject *self, PyObject *args)
     result = Py_False;
   } else {
     /* Find the first non-whitespace character */
-    p = PyUnicode_AS_UNICODE(characters);
-    /* while (*p && IS_XMLSPACE(*p)) {printf("ASCII value = %d, Character = [%c]\n", *p, *p); p++;} */
-    while (IS_XMLSPACE(*p)) p++;
+    nchars = PyUnicode_GET_LENGTH(characters);
+    i = 0;
+    while (i < nchars && IS_XMLSPACE(PyUnicode_READ_CHAR(characters, i))) i++;
 
     /* The first non-whitespace character in a well-formed XML document must
      * be '<'.
      */
-    result = *p == '<' ? Py_True : Py_False;
+    result = i < nchars && PyUnicode_READ_CHAR(characters, i) == '<' ? Py_True : Py_False;
     Py_DECREF(characters);
   }
 
-- 
2.43.0


From e4470371f9577f21f65da38f89cf8d590cb00626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:19 +0000
Subject: [PATCH 25/84] fix: microx: --find-text lists the path to the element
 with the text, not its parent's

---
 exec/microx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index 3f5f1df..b7b8dbe 100755
--- a/exec/microx
+++ b/exec/microx
@@ -186,7 +186,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
                 for node in elem.xml_children:
                     if isinstance(node, tree.text):
                         if search_for in node.xml_value:
-                            print(xpath_to(elem, show_attrs), file=out)
+                            print(xpath_to(node, show_attrs), file=out)
 
     def sink():
         while True:
-- 
2.43.0


From 51256d7de6cdacdcecb87bf22d76caf4d7fe00a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:20 +0000
Subject: [PATCH 26/84] fix: microx: honour the encoding declared by the source

---
 exec/microx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/exec/microx b/exec/microx
index b7b8dbe..9ce3f7b 100755
--- a/exec/microx
+++ b/exec/microx
@@ -247,7 +247,8 @@ if __name__ == '__main__':
     #
     args = parser.parse_args()
 
-    mode = 'rb' if args.partition else 'r'
+    # HTML & XML have their own means to tell the encoding
+    mode = 'rb'
     source_fps = []
     for source in args.sources:
         if matches_uri_syntax(source):
-- 
2.43.0


From 5c662243e8a5b4c4136c6174f45cad1b886864ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:50 +0000
Subject: [PATCH 27/84] fix: microx: heed --limit

---
 exec/microx | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/exec/microx b/exec/microx
index 9ce3f7b..92858e8 100755
--- a/exec/microx
+++ b/exec/microx
@@ -146,6 +146,14 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
     if foreach:
         parsed_foreach = uxpathparse(foreach)
 
+    # One budget for all the results, however many sources or partitions they come from
+    budget = iter(range(int(limit))) if limit else None
+
+    def limited(result):
+        if budget is None:
+            return result
+        return (item for (item, _) in zip(result, budget))
+
     def print_item(item):
         if isinstance(item, node):
             print(item.xml_encode(), file=out)
@@ -157,7 +165,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
             expr = command_detail
             ctx = context(root, variables=varmap)
             result = parsed_expr.compute(ctx)
-            for item in result:
+            for item in limited(result):
                 if foreach:
                     ctx = context(item, variables=varmap, force_root=False)
                     innerresult = parsed_foreach.compute(ctx)
@@ -171,7 +179,7 @@ def run(command_name, command_detail, sources=None, foreach=None, partition=None
             for elem in chain([root], descendants(root)):
                 ctx = context(elem, variables=varmap, force_root=False)
                 result = parsed_match.compute(ctx)
-                for item in result:
+                for item in limited(result):
                     if foreach:
                         ctx = context(item, variables=varmap, force_root=False)
                         innerresult = parsed_foreach.compute(ctx)
-- 
2.43.0


From 6d73596d3b6709487c5196a3fe5dce51851baaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:51 +0000
Subject: [PATCH 28/84] fix: uxpath: attribute nodes keep their name

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d76d65a..9b8b710 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -64,9 +64,9 @@ class root_node(node):
 
 class attribute_node(node):
     def __init__(self, name, value, parent):
+        node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
-        node.__init__(self, parent)
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
-- 
2.43.0


From 01d873d88f74b7c2ed01c15212e2e7ed87d8a4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:50 +0000
Subject: [PATCH 29/84] fix: uxpath: empty or zero items can be the context
 item

The context item stayed what it was for 0, '' & empty text nodes.
---
 pylib/uxml/uxpath/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 781dd43..a3be269 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -89,8 +89,8 @@ class context(object):
         self.lookuptables = lookuptables or {}
 
     def copy(self, item=None, pos=None, variables=None, functions=None, lookuptables=None, extras=None, parent=None):
-        item = item if item else self.item
-        pos = pos if pos else self.pos
+        item = item if item is not None else self.item
+        pos = pos if pos is not None else self.pos
         variables = variables if variables else self.variables
         functions = functions if functions else self.functions
         lookuptables = lookuptables if lookuptables else self.lookuptables
-- 
2.43.0


From 8170d51d832709a7b6d3e057c88970d541fab597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:52 +0000
Subject: [PATCH 30/84] fix: uxpath: qquery takes a parsed expression, as
 documented

---
 pylib/uxml/uxpath/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index a3be269..d2fc327 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -130,8 +130,7 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
     if not root: return
-    if isinstance(xpath_thing, str):
-        parsed_expr = parse(xpath_thing)
+    parsed_expr = parse(xpath_thing) if isinstance(xpath_thing, str) else xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
     yield from result
-- 
2.43.0


From a44423341ce761932bd6355b279f4e0870653ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:53 +0000
Subject: [PATCH 31/84] fix: uxpath: parse in separate threads without mixing
 up the expressions

---
 pylib/uxml/uxpath/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index d2fc327..126ff10 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -68,7 +68,8 @@ def parse(xpath):
     >>> xp = parse('a/text()')
     '''
     # Explicitly specify the lexer created above, otherwise parser.parse will use the most-recently created lexer. (Ewww! Wha?!)
-    return parser.parse(xpath, lexer=lexer)#, debug=True)
+    # A lexer has state, so each parse needs one of its own, lest threads or reentrant parses get mixed up
+    return parser.parse(xpath, lexer=lexer.clone())#, debug=True)
 
 
 class context(object):
-- 
2.43.0


From b00616512f26b5f1aa3b9dd7325d93d8502487c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:54 +0000
Subject: [PATCH 32/84] fix: uxpath: names can start with U+00C0 to U+00D6

---
 pylib/uxml/uxpath/lexrules.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 199a655..317f03c 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -65,7 +65,7 @@ t_STAR_OP = r'\*'
 
 t_ignore = ' \t\r\n'
 
-NameStartChar = r'(' + r'[A-Z]|_|[a-z]|\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
+NameStartChar = r'(' + r'[A-Z]|_|[a-z]|[\xc0-\xd6]|[\xd8-\xf6]|[\xf8-\u02ff]|' + \
     r'[\u0370-\u037d]|[\u037f-\u1fff]|[\u200c-\u200d]|[\u2070-\u218f]|' + \
     r'[\u2c00-\u2fef]|[\u3001-\uD7FF]|[\uF900-\uFDCF]|[\uFDF0-\uFFFD]' + \
     r'|[\U00010000-\U000EFFFF]' + r')'
-- 
2.43.0


From 5582c2d7a2dc3d0f35fcefbdc193c44864d74492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:55 +0000
Subject: [PATCH 33/84] fix: uxpath: 'and' binds tighter than 'or'

---
 pylib/uxml/uxpath/lexrules.py   |  4 ++--
 pylib/uxml/uxpath/parserules.py | 15 ++++++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 317f03c..8c23f20 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -10,8 +10,8 @@ from ply.lex import TOKEN
 
 # Note: element names can coincide with XPath operators (notably div)
 OPERATOR_NAMES = {
-    'or': 'LOGICAL_OP',
-    'and': 'LOGICAL_OP',
+    'or': 'OR_OP',
+    'and': 'AND_OP',
     'div': 'DIVMOD_OP',
     'mod': 'DIVMOD_OP',
 }
diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 0415d58..67bb751 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,7 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
-    ('left', 'LOGICAL_OP'),
+    ('left', 'OR_OP'),
+    ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
     ('left', 'REL_OP'),
     ('left', 'PLUS_OP', 'MINUS_OP'),
@@ -24,7 +25,8 @@ precedence = (
 
 def p_expr_boolean(p):
     """
-    Expr : Expr LOGICAL_OP Expr
+    Expr : Expr OR_OP Expr
+         | Expr AND_OP Expr
          | Expr EQUAL_OP Expr
          | Expr REL_OP Expr
          | Expr PLUS_OP Expr
@@ -217,7 +219,8 @@ def p_name_test_star(p):
 def p_name_test_name(p):
     """
     NameTest : NAME
-             | LOGICAL_OP
+             | OR_OP
+             | AND_OP
              | DIVMOD_OP
     """
     p[0] = xast.name_test(p[1])
@@ -262,7 +265,8 @@ def p_predicate(p):
 def p_variable_reference(p):
     """
     VariableReference : DOLLAR NAME
-                      | DOLLAR LOGICAL_OP
+                      | DOLLAR OR_OP
+                      | DOLLAR AND_OP
                       | DOLLAR DIVMOD_OP
     """
     p[0] = xast.variable_reference(p[2])
@@ -285,7 +289,8 @@ def p_number(p):
 def p_function_call(p):
     """
     FunctionCall : NAME FormalArguments
-                 | LOGICAL_OP FormalArguments
+                 | OR_OP FormalArguments
+                 | AND_OP FormalArguments
                  | DIVMOD_OP FormalArguments
     """
     # Hacking around the ambiguity between node type test & function call
-- 
2.43.0


From e5975f0ccb95299a964c90feebe218317ec8611d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:56 +0000
Subject: [PATCH 34/84] fix: uxpath: unary minus

---
 pylib/uxml/uxpath/xast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9b8b710..afd6c30 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -212,7 +212,7 @@ class unary_expression:
 
     def compute(self, ctx):
         # self.op is always '-'
-        yield -(to_number(next(self.right.compute(ctx), None)))
+        yield -next(to_number(next(self.right.compute(ctx), None)))
 
 
 BE_KEYWORDS = set(['or', 'and', 'div', 'mod'])
-- 
2.43.0


From 8cde9c16a3b0193b4122aa4209677896f547ee73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:25 +0000
Subject: [PATCH 35/84] fix: uxpath: whatever does not represent a number is
 NaN

As documented for number(). It was an error, or 0 if there was no item, & Python
number syntax beyond XPath's was accepted.
---
 pylib/uxml/uxpath/functions.py |  2 +-
 pylib/uxml/uxpath/xast.py      | 23 ++++++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 31f60e4..dd679e1 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -27,7 +27,7 @@ def number_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), None)
     return to_number(obj)
 
 
diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index afd6c30..c2b8f32 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -25,7 +25,9 @@ __all__ = [
 
 
 import operator
+import re
 # import functools
+from decimal import Decimal
 from collections.abc import Iterable
 from amara3.uxml.tree import node, element, strval
 from amara3.uxml.treeutil import descendants
@@ -90,6 +92,16 @@ def index_docorder(node):
 
 
 # Casts
+NUMBER_PAT = re.compile(r'[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*')
+
+def string_to_number(s):
+    '''
+    Number represented by the given string, or NaN if it isn't one
+    '''
+    m = NUMBER_PAT.fullmatch(s)
+    return float(m.group(1)) if m else float('nan')
+
+
 def to_string(obj):
     '''
     Cast an arbitrary object or sequence to a string type
@@ -125,12 +137,13 @@ def to_number(obj):
     else:
         val = obj
     if val is None:
-        # FIXME: Should be NaN, not 0
-        yield 0
-    elif isinstance(val, str):
-        yield float(val)
+        yield float('nan')
+    elif isinstance(val, bool):
+        yield 1.0 if val else 0.0
     elif isinstance(val, node):
-        yield float(strval(val))
+        yield string_to_number(strval(val))
+    elif isinstance(val, str):
+        yield string_to_number(val)
     elif isinstance(val, int) or isinstance(val, float):
         yield val
     else:
-- 
2.43.0


From 92fbff8b4136c7b6ff0c1d01181cf85607b18fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:26 +0000
Subject: [PATCH 36/84] fix: uxpath: strings of booleans & numbers, as
 documented for string()

---
 pylib/uxml/uxpath/xast.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index c2b8f32..9b8764c 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -102,6 +102,19 @@ def string_to_number(s):
     return float(m.group(1)) if m else float('nan')
 
 
+def number_to_string(num):
+    '''
+    XPath string form of a number: no exponent, and no decimal point for integers
+    '''
+    if num != num:
+        return 'NaN'
+    if num in (float('inf'), float('-inf')):
+        return 'Infinity' if num > 0 else '-Infinity'
+    if num == int(num):
+        return str(int(num))
+    return format(Decimal(repr(num)), 'f')
+
+
 def to_string(obj):
     '''
     Cast an arbitrary object or sequence to a string type
@@ -118,10 +131,11 @@ def to_string(obj):
         yield val
     elif isinstance(val, node):
         yield strval(val)
-    elif isinstance(val, int) or isinstance(val, float):
-        yield str(val)
     elif isinstance(val, bool):
+        # Ahead of numbers, because bools are ints in Python
         yield 'true' if val else 'false'
+    elif isinstance(val, int) or isinstance(val, float):
+        yield number_to_string(val)
     else:
         raise RuntimeError('Unknown type for string conversion: {}'.format(val))
 
-- 
2.43.0


From 5711b319f59e8587a3ad44b823a6c11ce24b5790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:28 +0000
Subject: [PATCH 37/84] fix: uxpath: NaN is false, & nodes are true, as
 documented for boolean()

---
 pylib/uxml/uxpath/xast.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 9b8764c..70f39db 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -179,12 +179,13 @@ def to_boolean(obj):
         yield False
     elif isinstance(val, bool):
         yield val
-    elif isinstance(val, str):
-        yield bool(val)
     elif isinstance(val, node):
+        # Even a text node, though it's also a string
         yield True
-    elif isinstance(val, float) or isinstance(val, int):
+    elif isinstance(val, str):
         yield bool(val)
+    elif isinstance(val, float) or isinstance(val, int):
+        yield bool(val) and val == val # NaN is false
     else:
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
-- 
2.43.0


From d2115c98403721f3767ffea98628bc4427a91820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:29 +0000
Subject: [PATCH 38/84] fix: uxpath: an empty sequence as string argument is
 the empty string, not 'False'

---
 pylib/uxml/uxpath/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index dd679e1..9f84ee1 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -36,7 +36,7 @@ def string_arg(ctx, obj):
     Handles LiteralObjects as well as computable arguments
     '''
     if hasattr(obj, 'compute'):
-        obj = next(obj.compute(ctx), False)
+        obj = next(obj.compute(ctx), '')
     return to_string(obj)
 
 
-- 
2.43.0


From 097b88bff95876231d704c9a6263e672d5a088d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:30 +0000
Subject: [PATCH 39/84] fix: uxpath: substring-before & substring-after with an
 absent or empty second argument

---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 9f84ee1..19b6bce 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -154,7 +154,7 @@ def substring_before(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[0]
+    yield full.partition(part)[0] if part and part in full else ''
 
 
 @microxpath_function('substring-after')
@@ -164,7 +164,7 @@ def substring_after(ctx, full, part):
     '''
     full = next(string_arg(ctx, full), '')
     part = next(string_arg(ctx, part), '')
-    yield full.partition(part)[-1]
+    yield full.partition(part)[-1] if part else full
 
 
 @microxpath_function('substring')
-- 
2.43.0


From 327a7b677b66ccee34052fc76634c2b0490622b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:31 +0000
Subject: [PATCH 40/84] fix: uxpath: substring() evaluates its arguments, &
 handles those out of range

---
 pylib/uxml/uxpath/functions.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 19b6bce..8ba3677 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -8,6 +8,7 @@ __all__ = [
     ]
 
 
+import math
 #import operator
 from functools import wraps
 from amara3.uxml.tree import node, element, strval
@@ -167,15 +168,23 @@ def substring_after(ctx, full, part):
     yield full.partition(part)[-1] if part else full
 
 
+def _nearest(num):
+    '''
+    Nearest integer to the given number, if there is one, else NaN or infinity
+    '''
+    return math.floor(num + 0.5) if math.isfinite(num) else num
+
+
 @microxpath_function('substring')
 def substring(ctx, full, start, length):
     '''
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
-    start = int(next(to_number(start)))
-    length = int(next(to_number(length)))
-    yield full[start-1:start-1+length]
+    start = _nearest(next(number_arg(ctx, start)))
+    end = start + _nearest(next(number_arg(ctx, length)))
+    # XPath is 1-indexed
+    yield ''.join( c for (pos, c) in enumerate(full, 1) if start <= pos < end )
 
 
 @microxpath_function('string-length')
-- 
2.43.0


From e0000c6bba78214fd656d93072361abbf97cb948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:32 +0000
Subject: [PATCH 41/84] fix: uxpath: string-length() of nodes, numbers & the
 context item

---
 pylib/uxml/uxpath/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 8ba3677..75cbf73 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -193,10 +193,8 @@ def string_length(ctx, s=None):
     Yields one number
     '''
     if s is None:
-        s = ctx.node
-    elif callable(s):
-        s = next(s.compute(ctx), '')
-    yield len(s)
+        s = ctx.item
+    yield len(next(string_arg(ctx, s), ''))
 
 
 @microxpath_function('normalize-space')
-- 
2.43.0


From a0aa0704376d231472fa4f0420b94a222d37d9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:22 +0000
Subject: [PATCH 42/84] fix: uxpath: comparisons

Nodes are compared by value, & with numbers & booleans following the XPath rules.
An empty sequence does not match. Only the first pair of items was considered
by all but =, which itself tried all the items on the right with only the first
item on the left, & crashed with nodes on the right.
---
 pylib/uxml/uxpath/xast.py | 63 +++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 33 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 70f39db..d698478 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -190,6 +190,32 @@ def to_boolean(obj):
         raise RuntimeError('Unknown type for boolean conversion: {}'.format(val))
 
 
+COMPARISONS = {
+    '=': operator.eq,
+    '!=': operator.ne,
+    '<': operator.lt,
+    '<=': operator.le,
+    '>': operator.gt,
+    '>=': operator.ge,
+}
+
+
+def compare(op, left, right):
+    '''
+    Compare two items, whether or not they are of the same type, following XPath 1.0
+    '''
+    def either(*types):
+        return isinstance(left, types) or isinstance(right, types)
+
+    if op in ('=', '!=') and either(bool):
+        cast = to_boolean
+    elif op not in ('=', '!=') or either(int, float):
+        cast = to_number
+    else:
+        cast = to_string
+    return COMPARISONS[op](next(cast(left)), next(cast(right)))
+
+
 class literal_wrapper:
     '''
     Literal string or number
@@ -307,40 +333,11 @@ class binary_expression:
             selected.sort(key=operator.attrgetter('_docorder'))
             yield from selected
 
-        # FIXME: A lot of work to do on comparisons
-        elif self.op == '=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # print(ctx.item, list(self.left.compute(ctx)), list(self.right.compute(ctx)))
-            # If LHS is a node sequence, check comparison on each item
-            for i in lhs:
-                for j in rhs:
-                    i = i.xml_value if isinstance(i, node) else i
-                    j = i.xml_value if isinstance(j, node) else j
-                    if i == j:
-                        yield True
-                        return
-            yield False
-        elif self.op == '!=':
+        elif self.op in COMPARISONS:
             lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) != next(rhs)
-        elif self.op == '>':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) > next(rhs)
-        elif self.op == '<':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) < next(rhs)
-        elif self.op == '>=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) >= next(rhs)
-        elif self.op == '<=':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) <= next(rhs)
+            # Needed for each item on the LHS
+            rhs = list(self.right.compute(ctx))
+            yield any( compare(self.op, i, j) for i in lhs for j in rhs )
         elif self.op == 'or':
             lhs = self.left.compute(ctx)
             rhs = self.right.compute(ctx)
-- 
2.43.0


From e08284243fbfbfa952be7c9617cf2d3a515924b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:23 +0000
Subject: [PATCH 43/84] fix: uxpath: 'and' & 'or' yield a boolean, even for
 empty sequences

---
 pylib/uxml/uxpath/xast.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index d698478..ef4c823 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -306,6 +306,10 @@ class binary_expression:
         '''
         yield from self.compute(ctx)
 
+    @staticmethod
+    def _boolean(expr, ctx):
+        return next(to_boolean(next(expr.compute(ctx), None)))
+
     def compute(self, ctx):
         # print('binary_expression', (self.left, self.op, self.right))
         if self.op == '/':
@@ -339,17 +343,9 @@ class binary_expression:
             rhs = list(self.right.compute(ctx))
             yield any( compare(self.op, i, j) for i in lhs for j in rhs )
         elif self.op == 'or':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            yield next(lhs) or next(rhs)
+            yield self._boolean(self.left, ctx) or self._boolean(self.right, ctx)
         elif self.op == 'and':
-            lhs = self.left.compute(ctx)
-            rhs = self.right.compute(ctx)
-            # lhs_val = next(lhs, None)
-            # rhs_val = next(rhs, None)
-            # print((self.left, lhs_val, self.right, rhs_val))
-            # yield lhs_val and rhs_val
-            yield next(lhs) and next(rhs)
+            yield self._boolean(self.left, ctx) and self._boolean(self.right, ctx)
         else:
             raise NotImplementedError('Oops! Operator "{}" not yet implemented'.format(self.op))
         return
-- 
2.43.0


From 610693b0b66fe4a36ea3cb851e6e01a4416d3730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:25 +0000
Subject: [PATCH 44/84] fix: uxpath: '*' matches elements alone, whatever the
 axis

---
 pylib/uxml/uxpath/xast.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index ef4c823..f60a8f1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -602,12 +602,9 @@ class name_test:
 
     def compute(self, ctx):
         # print('NAMETEST', (self.name, ctx.item))
-        if self.name == '*':
+        # yield from (n for n in nodeseq if n.xml_name == self.name)
+        if isinstance(ctx.item, element) and self.name in ('*', ctx.item.xml_name):
             yield ctx.item
-        else:
-            # yield from (n for n in nodeseq if n.xml_name == self.name)
-            if isinstance(ctx.item, element) and ctx.item.xml_name == self.name:
-                yield ctx.item
 
 
 class node_type_test:
-- 
2.43.0


From a07301f81f51282f97443a0c3dd7e540e23368bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:26 +0000
Subject: [PATCH 45/84] fix: uxpath: each predicate filters what the one before
 it selected

A position was that ahead of all the predicates, & fractions were ignored.
---
 pylib/uxml/uxpath/xast.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f60a8f1..c526c63 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -556,24 +556,26 @@ class predicated_expression:
 
     def compute(self, ctx):
         # print('predicated_expression', (self.lhs, self.predicates))
-        for pos, item in enumerate(self.lhs.compute(ctx)):
+        selected = self.lhs.compute(ctx)
+        for pred in self.predicates:
+            # Positions for each predicate are those among what the previous one selected
+            selected = self._filter(ctx, selected, pred)
+        yield from selected
+
+    @staticmethod
+    def _filter(ctx, selected, pred):
+        for pos, item in enumerate(selected):
             # XPath is 1-indexed
             new_ctx = ctx.copy(item=item, pos=pos+1)
-            for pred in self.predicates:
-                if hasattr(pred, 'compute'):
-                    predval = next(pred.compute(new_ctx), False)
-                else:
-                    predval = pred
-                # bools are ints in Python
-                if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
-                    if pos + 1 != int(predval):
-                        break
-                else:
-                    if not next(to_boolean(predval)):
-                    # if not next(to_boolean(predval, scalar=True)):
-                        break
+            if hasattr(pred, 'compute'):
+                predval = next(pred.compute(new_ctx), False)
             else:
-                # All predicates true
+                predval = pred
+            # bools are ints in Python
+            if (isinstance(predval, float) or isinstance(predval, int)) and not isinstance(predval, bool):
+                if pos + 1 == predval:
+                    yield item
+            elif next(to_boolean(predval)):
                 yield item
 
 
-- 
2.43.0


From ceebd02126050f446df58f42a0dfbdcc323ade84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:27 +0000
Subject: [PATCH 46/84] fix: uxpath: axes

* ancestor & parent only yielded the root node unconditionally, ahead of the node test
* ancestor-or-self never came to an end
* following was limited to siblings & what's in them
* preceding always failed
* sibling axes from a text node went by the first text with the same value
* attributes as context node of most axes were an error
* attribute::node() was treated as attribute::*[name(.)="node"]
* // in a relative path included its start, changed the expression for good, &
  lost the axis, or the rest of the path, on its right
---
 pylib/uxml/uxpath/xast.py | 170 +++++++++++++++++---------------------
 1 file changed, 78 insertions(+), 92 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index c526c63..8c734df 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -69,6 +69,7 @@ class attribute_node(node):
         node.__init__(self, parent)
         self.xml_name = name
         self.xml_value = value
+        self.xml_children = []
 
     def __repr__(self):
         return '{{uxpath.attribute {0}="{1}"}}'.format(self.xml_name, self.xml_value)
@@ -319,14 +320,15 @@ class binary_expression:
                 new_ctx = ctx.copy(item=item)
                 yield from self.right.compute(new_ctx)
         elif self.op == '//':
-            # left & right are steps
-            # Rewrite the axis to expand the abbreviation
-            # Really only needed the first time.
-            self.right.axis = 'descendant-or-self'
-            selected = self.left.compute(ctx)
-            for item in selected:
-                new_ctx = ctx.copy(item=item)
-                yield from self.right.compute(new_ctx)
+            # a//b means a/descendant-or-self::node()/b
+            right, axis = self.right, 'descendant-or-self'
+            if isinstance(right, step) and right.axis == 'child':
+                # Amounts to a/descendant::b. Stay in document order
+                right, axis = right.node_test, 'descendant'
+            for item in self.left.compute(ctx):
+                for desc in _axis(item, axis):
+                    new_ctx = ctx.copy(item=desc)
+                    yield from right.compute(new_ctx)
         elif self.op == '|':
             # Union expressions require an indexing by doc order
             if not hasattr(ctx.item, '_docorder'):
@@ -410,6 +412,64 @@ def _step_is_just_node(r):
         and r.node_test.name == 'node'
 
 
+def _parent(item):
+    '''
+    Parent of a node; for the document element that's the root node
+    '''
+    if isinstance(item, root_node):
+        return None
+    return item.xml_parent if item.xml_parent is not None else root_node.get(item)
+
+
+def _siblings(item):
+    '''
+    Tuple of lists of the siblings ahead of a node, and those after it
+    '''
+    if isinstance(item, (root_node, attribute_node)) or item.xml_parent is None:
+        return [], []
+    siblings = item.xml_parent.xml_children
+    # Text nodes are strings, so equality will not do
+    ix = next( ix for (ix, sib) in enumerate(siblings) if sib is item )
+    return siblings[:ix], siblings[ix+1:]
+
+
+def _axis(item, axis):
+    '''
+    Generate the nodes on any axis, except for attribute, in order of their proximity
+    '''
+    if axis in ('self', 'ancestor-or-self', 'descendant-or-self'):
+        yield item
+    if axis == 'child':
+        yield from item.xml_children
+    elif axis in ('descendant', 'descendant-or-self'):
+        to_process = list(reversed(item.xml_children))
+        while to_process:
+            desc = to_process.pop()
+            yield desc
+            to_process.extend(reversed(desc.xml_children))
+    elif axis == 'parent':
+        parent = _parent(item)
+        if parent is not None:
+            yield parent
+    elif axis in ('ancestor', 'ancestor-or-self'):
+        parent = _parent(item)
+        while parent is not None:
+            yield parent
+            parent = _parent(parent)
+    elif axis == 'following-sibling':
+        yield from _siblings(item)[1]
+    elif axis == 'preceding-sibling':
+        yield from reversed(_siblings(item)[0])
+    elif axis == 'following':
+        for anc in _axis(item, 'ancestor-or-self'):
+            for sib in _siblings(anc)[1]:
+                yield from _axis(sib, 'descendant-or-self')
+    elif axis == 'preceding':
+        for anc in _axis(item, 'ancestor-or-self'):
+            for sib in reversed(_siblings(anc)[0]):
+                yield from reversed(list(_axis(sib, 'descendant-or-self')))
+
+
 class step:
     '''
     Single step in a relative path. a; @b; text(); parent::foo:bar[5]
@@ -434,88 +494,18 @@ class step:
 
     def compute(self, ctx):
         # print('STEP', (self.axis, self.node_test, ctx.item))
-        if self.axis == 'self':
-            yield from self.node_test.compute(ctx)
-        elif self.axis == 'child':
-            for child in ctx.item.xml_children:
-                if isinstance(self.node_test, name_test) and not isinstance(child, element):
-                    # If it's a name test, only check elements
-                    continue
-                new_ctx = ctx.copy(item=child)
-                yield from self.node_test.compute(new_ctx)
-        elif self.axis == 'attribute':
+        if self.axis == 'attribute':
             if isinstance(ctx.item, element):
                 for k, v in ctx.item.xml_attributes.items():
-                    if self.node_test.name in ('*', k):
+                    if isinstance(self.node_test, name_test):
+                        matched = self.node_test.name in ('*', k)
+                    else:
+                        matched = self.node_test.name == 'node'
+                    if matched:
                         yield attribute_node(k, v, ctx.item)
-        elif self.axis == 'ancestor':
-            parent = ctx.item.xml_parent
-            while parent:
-                new_ctx = ctx.copy(item=parent)
-                yield from self.node_test.compute(new_ctx)
-                parent = parent.xml_parent
-            yield root_node.get(ctx.item)
-        elif self.axis == 'ancestor-or-self':
-            yield from self.node_test.compute(ctx)
-            parent = ctx.item.xml_parent
-            while parent:
-                new_ctx = ctx.copy(item=parent)
-                yield from self.node_test.compute(new_ctx)
-            yield root_node.get(parent)
-        elif self.axis == 'descendant':
-            to_process = list(ctx.item.xml_children)
-            while to_process:
-                child = to_process[0]
-                to_process = list(child.xml_children) + to_process[1:]
-                new_ctx = ctx.copy(item=child)
-                yield from self.node_test.compute(new_ctx)
-        elif self.axis == 'descendant-or-self':
-            yield from self.node_test.compute(ctx)
-            to_process = list(ctx.item.xml_children)
-            while to_process:
-                child = to_process[0]
-                to_process = list(child.xml_children) + to_process[1:]
-                new_ctx = ctx.copy(item=child)
-                yield from self.node_test.compute(new_ctx)
-        elif self.axis == 'following':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            to_process = list(ctx.item.xml_parent.xml_children)[start:]
-            while to_process:
-                ff = to_process[0]
-                to_process = list(ff.xml_children) + to_process[1:]
-                new_ctx = ctx.copy(item=ff)
-                yield from self.node_test.compute(new_ctx)
-        elif self.axis == 'following-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item) + 1
-            for ff in list(ctx.item.xml_parent.xml_children)[start:]:
-                new_ctx = ctx.copy(item=ff)
-                yield from self.node_test.compute(new_ctx)
-        elif self.axis == 'parent':
-            if ctx.item.xml_parent:
-                new_ctx = ctx.copy(item=ctx.item.xml_parent)
-                yield from self.node_test.compute(new_ctx)
-            else:
-                yield root_node.get(ctx.item)
-        elif self.axis == 'preceding':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[start:].reverse()
-            while to_process:
-                prev = to_process[0]
-                to_process = to_process[1:] + list(prev.xml_children).reverse()
-                new_ctx = ctx.copy(item=prev)
-                yield from self.node_test.compute(new_ctx)
-        elif self.axis == 'preceding-sibling':
-            if not ctx.item.xml_parent: return
-            start = ctx.item.xml_parent.xml_children.index(ctx.item)
-            if start == -1: return
-            to_process = list(ctx.item.xml_parent.xml_children)[:start]
-            to_process.reverse()
-            for prev in to_process:
-                new_ctx = ctx.copy(item=prev)
+        else:
+            for item in _axis(ctx.item, self.axis):
+                new_ctx = ctx.copy(item=item)
                 yield from self.node_test.compute(new_ctx)
         return
 
@@ -660,11 +650,7 @@ class abbreviated_step:
             yield ctx.item
         elif self.abbr == '..':
             # parent axis
-            # assert isinstance(ctx.item, node)
-            if ctx.item.xml_parent:
-                yield ctx.item.xml_parent
-            else:
-                yield root_node.get(ctx.item)
+            yield from _axis(ctx.item, 'parent')
 
     def __call__(self, ctx):
         '''
-- 
2.43.0


From ea090f0b13843b3d564ddae59d69d7fc8ea422c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:05 +0000
Subject: [PATCH 47/84] fix: uxpath: node() on axes other than child does not
 stand for the root as well

---
 pylib/uxml/uxpath/xast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 8c734df..5d7ff4b 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -409,7 +409,8 @@ class absolute_path:
 def _step_is_just_node(r):
     return isinstance(r, step) \
         and isinstance(r.node_test, node_type_test) \
-        and r.node_test.name == 'node'
+        and r.node_test.name == 'node' \
+        and r.axis == 'child'
 
 
 def _parent(item):
-- 
2.43.0


From d2d2119a4aa8af10ae4f8490b125d81311b78b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:06 +0000
Subject: [PATCH 48/84] fix: uxpath: root nodes for any node, which neither go
 stale nor keep trees alive

A root node was cached for good for each element used as context, and was not
updated as subtrees were attached or detached. Absolute paths from a text or
attribute node were an error.
---
 pylib/uxml/uxpath/xast.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 5d7ff4b..f5f2d06 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -26,6 +26,7 @@ __all__ = [
 
 import operator
 import re
+import weakref
 # import functools
 from decimal import Decimal
 from collections.abc import Iterable
@@ -38,7 +39,8 @@ class root_node(node):
     The core uxml object model does not have a root node, but
     we need something to conform as closely as we can to XPath
     '''
-    _cache = {}
+    # Top element to its root node. Weak so as not to keep trees from being freed
+    _cache = weakref.WeakValueDictionary()
 
     def __init__(self, docelem):
         self.xml_name = ''
@@ -52,16 +54,15 @@ class root_node(node):
     @staticmethod
     #@functools.lru_cache()
     def get(elem):
-        if elem in root_node._cache: return root_node._cache[elem]
         if isinstance(elem, root_node): return elem
-        assert isinstance(elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        # Climb every time, because the tree can change
         curr_elem = elem
         parent = curr_elem.xml_parent
-        while parent:
+        while parent is not None:
             curr_elem = parent
             parent = curr_elem.xml_parent
-            if parent in root_node._cache: return root_node._cache[parent]
-        return root_node._cache.setdefault(elem, root_node(curr_elem))
+        assert isinstance(curr_elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
+        return root_node._cache.setdefault(curr_elem, root_node(curr_elem))
 
 
 class attribute_node(node):
-- 
2.43.0


From b28871d488c1a99e01522d9667d336ace67bb1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:07 +0000
Subject: [PATCH 49/84] fix: uxpath: string value & serialization of the root
 node

microx crashed on a query which yields the root node.
---
 pylib/uxml/uxpath/xast.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f5f2d06..c6d10bf 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -43,11 +43,16 @@ class root_node(node):
     _cache = weakref.WeakValueDictionary()
 
     def __init__(self, docelem):
-        self.xml_name = ''
-        self.xml_value = ''
         self.xml_children = [docelem]
         node.__init__(self)
 
+    @property
+    def xml_value(self):
+        return ''.join( child.xml_value for child in self.xml_children )
+
+    def xml_encode(self, indent=None, depth=0):
+        return ''.join( child.xml_encode(indent=indent, depth=depth) for child in self.xml_children )
+
     def __repr__(self):
         return u'{uxpath.rootnode}'
 
-- 
2.43.0


From bf5889d0273d0a15092afa63be6a6310c9ed76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:08 +0000
Subject: [PATCH 50/84] fix: uxpath: union in document order, without
 duplicates

It failed for text, attribute & root nodes, for trees other than that of the
context item, & went by the order as of the first union, whatever became of the
tree since.
---
 pylib/uxml/uxpath/xast.py | 52 +++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 13 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index c6d10bf..f7c4f83 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -87,15 +87,45 @@ class attribute_node(node):
         raise NotImplementedError
 
 
+def _docorder_key(node):
+    # Attribute nodes are created anew each time they're selected
+    if isinstance(node, attribute_node):
+        return id(node.xml_parent), node.xml_name
+    return id(node)
+
+
 def index_docorder(node):
-    #Always start at the root
-    while node.xml_parent:
-        node = node.xml_parent
-    index = 0
-    node._docorder = index
-    for node in descendants(node):
-        index += 1
-        node._docorder = index
+    '''
+    Mapping from key to position in document order, for all nodes of the tree the given one is part of
+    '''
+    order = {}
+    for node in _axis(root_node.get(node), 'descendant-or-self'):
+        order[_docorder_key(node)] = len(order)
+        if isinstance(node, element):
+            for name in node.xml_attributes:
+                order[id(node), name] = len(order)
+    return order
+
+
+def docorder(nodes):
+    '''
+    List of the given nodes in document order, without duplicates. If there is more than one tree, they come in the order given
+    '''
+    distinct = {}
+    for node in nodes:
+        distinct.setdefault(_docorder_key(node), node)
+    trees = []
+    ordered = []
+    for key, node in distinct.items():
+        for ix, order in enumerate(trees):
+            if key in order:
+                break
+        else:
+            ix, order = len(trees), index_docorder(node)
+            trees.append(order)
+        ordered.append((ix, order[key], node))
+    ordered.sort(key=operator.itemgetter(0, 1))
+    return [ node for (ix, pos, node) in ordered ]
 
 
 # Casts
@@ -336,14 +366,10 @@ class binary_expression:
                     new_ctx = ctx.copy(item=desc)
                     yield from right.compute(new_ctx)
         elif self.op == '|':
-            # Union expressions require an indexing by doc order
-            if not hasattr(ctx.item, '_docorder'):
-                index_docorder(ctx.item)
             # XXX Might be more efficient to maintain a list in doc order as left & right are added
             selected = list(self.left.compute(ctx))
             selected.extend(list(self.right.compute(ctx)))
-            selected.sort(key=operator.attrgetter('_docorder'))
-            yield from selected
+            yield from docorder(selected)
 
         elif self.op in COMPARISONS:
             lhs = self.left.compute(ctx)
-- 
2.43.0


From 79b5afd63550836ac3fa2167c5b20e3a4e0858f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:09 +0000
Subject: [PATCH 51/84] fix: uxpath: serialize string literals & operators so
 they can be parsed again

---
 pylib/uxml/uxpath/xast.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index f7c4f83..48bb270 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -264,7 +264,12 @@ class literal_wrapper:
         return f'{self.__class__.__name__}: {self.obj}'
 
     def _serialize(self):
-        yield str(self.obj)
+        if isinstance(self.obj, str):
+            # Literals have no escapes, so could not have both kinds of quotes
+            quote = "'" if '"' in self.obj else '"'
+            yield quote + self.obj + quote
+        else:
+            yield number_to_string(self.obj)
 
     def __call__(self, ctx):
         '''
@@ -327,7 +332,8 @@ class binary_expression:
         for tok in _serialize(self.left):
             yield tok
 
-        if self.op in BE_KEYWORDS:
+        if self.op not in ('/', '//'):
+            # Keep operators apart from any names next to them
             yield ' '
             yield self.op
             yield ' '
-- 
2.43.0


From af168c03444a5446bad42536f3a2af2970c4be41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:10 +0000
Subject: [PATCH 52/84] fix: treeutil: make_pretty uses the given indent at all
 depths

---
 pylib/uxml/treeutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 1e20bbe..92828e3 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -221,7 +221,7 @@ def make_pretty(elem, depth=0, indent='  '):
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
                 updated_child_ix += 2
-            make_pretty(child, depth)
+            make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
-- 
2.43.0


From 051186f606c5322218cce61c3d83e4967c88ace2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:11 +0000
Subject: [PATCH 53/84] fix: treeutil: make_pretty aligns end tags even after
 whitespace, so it can be repeated

---
 pylib/uxml/treeutil.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 92828e3..49dd366 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -238,5 +238,8 @@ def make_pretty(elem, depth=0, indent='  '):
         new_text = text('\n' + indent*(depth-1), elem)
         updated_child_list.append(new_text)
         #updated_child_ix += 1 #About to be done, so not really needed
+    elif not isinstance(updated_child_list[-1], element) and not updated_child_list[-1].xml_value.strip():
+        #What is ahead of the end tag goes by the depth of the element itself
+        updated_child_list[-1] = text('\n' + indent*(depth-1), elem)
     elem.xml_children = updated_child_list
     return elem
-- 
2.43.0


From cb71cd4849f8ddc242a7ecad29b5a7452359fc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:13 +0000
Subject: [PATCH 54/84] fix: xml: ns_expat_callbacks can be instantiated, &
 accepts elements in no namespace

---
 pylib/uxml/xml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index d044e1b..92f85fc 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -49,8 +49,8 @@ class expat_callbacks(object):
 
 
 class ns_expat_callbacks(expat_callbacks):
-    def __init__(self, handler, asyncio_based_handler=True, stream=False):
-        expat_callbacks.__init__(self, handler, asyncio_based_handler=asyncio_based_handler)
+    def __init__(self, handler, prime_handler=True, stream=False):
+        expat_callbacks.__init__(self, handler, prime_handler=prime_handler)
         #Namespace mappings encountered through the document, updated dynamically as the document is traversed
         self.prefixes = {}
         self.prefixes_rev = {}
@@ -75,7 +75,7 @@ class ns_expat_callbacks(expat_callbacks):
         #print('Start element:', name, attrs)
         ns, local = name.split() if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev[ns])
+            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
         for aname, aval in attrs.items():
             ans, alocal = aname.split() if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
-- 
2.43.0


From 78860723234d6eba7972dec5137fc4045b2017c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:26 +0000
Subject: [PATCH 55/84] fix: treeutil: select_value yields elements alone, as
 documented

---
 pylib/uxml/treeutil.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 49dd366..86df0b3 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -54,9 +54,7 @@ def select_value(source, val):
     source - if an element, starts with all child elements in order; can also be any other iterator
     val - string value to match
     '''
-    if isinstance(source, element):
-        source = source.xml_children
-    return filter(lambda x: x.xml_value == val, source)
+    return filter(lambda x: x.xml_value == val, select_elements(source))
 
 
 def select_attribute(source, name, val=None):
-- 
2.43.0


From eaf3fea74e928aa0dede89ddf796d0e02fdc7f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:45 +0000
Subject: [PATCH 56/84] fix: treeiter: subtrees built for separate patterns do
 not share attributes

---
 pylib/uxml/treeiter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 5f54f9f..805cb68 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -137,7 +137,7 @@ class sender:
                     elif self._match_state(ix):
                         building_depth = self._building_depths[ix] = 1
                     if building_depth:
-                        new_element = element(ev[1], ev[2], parent)
+                        new_element = element(ev[1], ev[2].copy(), parent)
                         #if parent: parent().xml_children.append(weakref.ref(new_element))
                         #Note: not using weakrefs here because these refs are not circular
                         if parent: parent.xml_children.append(new_element)
-- 
2.43.0


From e84480fab7d2480c9fe38c8c70fc527268404ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:22 +0000
Subject: [PATCH 57/84] fix: uxpath: text() & node() on their own are steps
 along the child axis

---
 pylib/uxml/uxpath/parserules.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index 67bb751..cbaf2cd 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -98,6 +98,9 @@ def p_expr_paths_etc(p):
          | VariableReference
     """
     p[0] = p[1]
+    # A node type test on its own looks like a function call, but is a step along the child axis
+    if isinstance(p[1], xast.node_type_test):
+        p[0] = xast.step('child', p[1])
 
 def p_expr_literal(p):
     """
-- 
2.43.0


From 6e8c2aa458d5854fa57e6e76e39e35719b11803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:54 +0000
Subject: [PATCH 58/84] fix: uxpath: predicates & further steps bind tighter
 than any operator

---
 pylib/uxml/uxpath/parserules.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index cbaf2cd..ff30c25 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -9,6 +9,8 @@ from amara3.uxml.uxpath import xast
 from amara3.uxml.uxpath.lexrules import tokens
 
 precedence = (
+    # Below the operators, because an operator name after / is an element name
+    ('right', 'ROOT_ONLY'),
     ('left', 'OR_OP'),
     ('left', 'AND_OP'),
     ('left', 'EQUAL_OP'),
@@ -17,6 +19,8 @@ precedence = (
     ('left', 'MULT_OP', 'DIVMOD_OP'),
     ('right', 'UMINUS_OP'),
     ('left', 'UNION_OP'),
+    # Further steps & predicates belong to what's right ahead of them
+    ('right', 'PATH_SEP', 'ABBREV_PATH_SEP', 'OPEN_BRACKET'),
 )
 
 #
@@ -115,7 +119,7 @@ def p_expr_literal(p):
 
 def p_absolute_location_path_rootonly(p):
     """
-    AbsoluteLocationPath : PATH_SEP
+    AbsoluteLocationPath : PATH_SEP %prec ROOT_ONLY
     """
     p[0] = xast.absolute_path(p[1])
 
-- 
2.43.0


From 099047fc8f5a677b704ccf287a83858e5e572060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:26 +0000
Subject: [PATCH 59/84] fix: uxpath: steps after a parenthesis, predicate or
 call are left associative

---
 pylib/uxml/uxpath/parserules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/parserules.py b/pylib/uxml/uxpath/parserules.py
index ff30c25..ef31f3a 100644
--- a/pylib/uxml/uxpath/parserules.py
+++ b/pylib/uxml/uxpath/parserules.py
@@ -87,8 +87,8 @@ def p_path_union_expr(p):
 
 def p_path_expr_binary(p):
     """
-    Expr : Expr PATH_SEP RelativeLocationPath
-         | Expr ABBREV_PATH_SEP RelativeLocationPath
+    Expr : Expr PATH_SEP Step
+         | Expr ABBREV_PATH_SEP Step
     """
     p[0] = xast.binary_expression(p[1], p[2], p[3])
 
-- 
2.43.0


From cba4d202dbc43407b543d7e2c891f02387297ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:20 +0000
Subject: [PATCH 60/84] fix: uxpath: qquery from an empty text node

---
 pylib/uxml/uxpath/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 126ff10..49e800f 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -130,7 +130,7 @@ def qquery(xml_thing, xpath_thing, vars=None, funcs=None, force_root=None):
         # Force UTF-8
         root = tb.parse(xml_thing.decode('utf-8'))
         force_root = True
-    if not root: return
+    if root is None: return
     parsed_expr = parse(xpath_thing) if isinstance(xpath_thing, str) else xpath_thing
     ctx = context(root, variables=vars, functions=funcs, force_root=force_root)
     result = parsed_expr.compute(ctx)
-- 
2.43.0


From 7024c528dcdd88354a83e99f0fdebccd65ec73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:27 +0000
Subject: [PATCH 61/84] fix: uxpath: number() without argument is that of the
 context item

---
 pylib/uxml/uxpath/functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 75cbf73..84bbd6b 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -278,7 +278,9 @@ def number(ctx, seq=None):
     * If boolean true yield 1; if boolean false yield 0
     * If a node convert to string as if by a call to string(); yield the same value as if passed that string argument to number()
     '''
-    if hasattr(seq, 'compute'):
+    if seq is None:
+        obj = ctx.item
+    elif hasattr(seq, 'compute'):
         obj = next(seq.compute(ctx), '')
     else:
         obj = seq
-- 
2.43.0


From 6fa7d4699e782cd9255b606855d984d68e2d7770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:29 +0000
Subject: [PATCH 62/84] fix: uxpath: string() of a text node is a string, no
 longer a node

---
 pylib/uxml/uxpath/xast.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 48bb270..0e0e0af 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -164,10 +164,11 @@ def to_string(obj):
         val = obj
     if val is None:
         yield ''
-    elif isinstance(val, str):
-        yield val
     elif isinstance(val, node):
+        # Ahead of strings, because text nodes are also strings
         yield strval(val)
+    elif isinstance(val, str):
+        yield val
     elif isinstance(val, bool):
         # Ahead of numbers, because bools are ints in Python
         yield 'true' if val else 'false'
-- 
2.43.0


From eb0701d4cd1fda8741088488f950dc29e9778e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:10 +0000
Subject: [PATCH 63/84] fix: Free XML trees once dropped, not at the next
 cyclic garbage collection

---
 pylib/uxml/xml.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 92f85fc..a3be06b 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -130,6 +130,10 @@ class treebuilder(tree.treebuilder):
         self.expat_parser.CharacterDataHandler = self.handler.char_data
         self.expat_parser.StartNamespaceDeclHandler = self.handler.start_namespace
         self.expat_parser.EndNamespaceDeclHandler = self.handler.end_namespace
-        self.expat_parser.Parse(source, True)
+        try:
+            self.expat_parser.Parse(source, True)
+        finally:
+            #Parser -> handler -> self._handler() -> self would keep the tree alive until cyclic garbage collection
+            self.handler = self.expat_parser = None
         return self._root
 
-- 
2.43.0


From e8bca03eabcabcc00b0f15a1d1072f72c9ecb19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:43 +0000
Subject: [PATCH 64/84] fix: Free HTML trees once dropped, not at the next
 cyclic garbage collection

---
 pylib/uxml/html5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 8f9479e..be6d116 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -319,6 +319,8 @@ def parse(source, prefixes=None, model=None, encoding=None, use_xhtml_ns=False):
     # doc = parser.parse(source, encoding=encoding)
     doc = parser.parse(source)
     first_element = next((e for e in doc.root_nodes if isinstance(e, element)), None)
+    # html5lib's parser is in reference cycles. It must not keep the tree alive until cyclic garbage collection
+    parser.tree.reset()
     return first_element
 
 
-- 
2.43.0


From 001b4d8c7e6698da47f604d7565e7a7658736e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:49 +0000
Subject: [PATCH 65/84] fix: uxpath: Threads could get two root nodes for one
 tree

---
 pylib/uxml/uxpath/xast.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 0e0e0af..a83e9f1 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -26,6 +26,7 @@ __all__ = [
 
 import operator
 import re
+import threading
 import weakref
 # import functools
 from decimal import Decimal
@@ -41,6 +42,8 @@ class root_node(node):
     '''
     # Top element to its root node. Weak so as not to keep trees from being freed
     _cache = weakref.WeakValueDictionary()
+    # Its setdefault() is not atomic, and there must be just the one root node per tree
+    _cache_lock = threading.RLock()
 
     def __init__(self, docelem):
         self.xml_children = [docelem]
@@ -67,7 +70,8 @@ class root_node(node):
             curr_elem = parent
             parent = curr_elem.xml_parent
         assert isinstance(curr_elem, element), 'Cannot get root node from object {} of type {}'.format(elem, type(elem))
-        return root_node._cache.setdefault(curr_elem, root_node(curr_elem))
+        with root_node._cache_lock:
+            return root_node._cache.setdefault(curr_elem, root_node(curr_elem))
 
 
 class attribute_node(node):
-- 
2.43.0


From c8ac7acd0b0cb4c2d9123cee666d81ebc8a1af31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:29 +0000
Subject: [PATCH 66/84] fix: Subtrees streamed after a sink attaches one to
 another tree ended up in that tree

---
 pylib/uxml/treeiter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 805cb68..bc604dd 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -157,8 +157,10 @@ class sender:
                         #Done with this subtree
                         if not building_depth:
                             self._sinks[ix].send(parent)
+                            #Nothing left to build on, even if the sink has attached the subtree to another tree
+                            parent = self._parents[ix] = None
                         #Pop back up in element ancestry
-                        if parent:
+                        elif parent:
                             parent = self._parents[ix] = parent.xml_parent
 
                 #print(ev, building_depth, evstack)
-- 
2.43.0


From a1db37b6838cebf93a9e692c6455a8ddfc72a755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:40 +0000
Subject: [PATCH 67/84] fix: make_pretty added whitespace next to text in
 elements with text nodes in succession

---
 pylib/uxml/treeutil.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 86df0b3..6090a02 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -207,36 +207,34 @@ def make_pretty(elem, depth=0, indent='  '):
     '''
     depth += 1
     updated_child_list = []
-    updated_child_ix = 0
+    # Whether there is text ahead. There can be text nodes in succession
+    after_text = False
     for child in elem.xml_children:
         if isinstance(child, element):
-            if updated_child_ix % 2:
+            if after_text:
                 updated_child_list.append(child)
-                updated_child_ix += 1
             else:
                 #It's the turn for text, but we have an element
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
                 updated_child_list.append(child)
-                updated_child_ix += 2
+            after_text = False
             make_pretty(child, depth, indent)
         else:
             if child.xml_value.strip():
                 #More to it than whitespace, so leave alone
                 #Note: if only whitespace entities are used, will still be left alone
                 updated_child_list.append(child)
-                updated_child_ix += 1
             else:
                 #Only whitespace, so replace with proper indentation
                 new_text = text('\n' + indent*depth, elem)
                 updated_child_list.append(new_text)
-                updated_child_ix += 1
+            after_text = True
     #Trailing indentation might be needed
-    if not(updated_child_ix % 2):
+    if not after_text:
         new_text = text('\n' + indent*(depth-1), elem)
         updated_child_list.append(new_text)
-        #updated_child_ix += 1 #About to be done, so not really needed
-    elif not isinstance(updated_child_list[-1], element) and not updated_child_list[-1].xml_value.strip():
+    elif not updated_child_list[-1].xml_value.strip():
         #What is ahead of the end tag goes by the depth of the element itself
         updated_child_list[-1] = text('\n' + indent*(depth-1), elem)
     elem.xml_children = updated_child_list
-- 
2.43.0


From 37f8797553207f62069f6603894560defb7ab014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:56 +0000
Subject: [PATCH 68/84] fix: lookup() failed rather than looking up in the
 tables of the context

---
 pylib/uxml/uxpath/functions.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index 84bbd6b..ad38007 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -314,14 +314,13 @@ def lookup_(ctx, tableid, key):
     Yields a sequence of a single value, the result of looking up a value from the tables provided in the context, or an empty sequence if lookup is unsuccessful
 
     * tableid: id of the lookup table to use
-    * expr: expression to be converted to string, then dynamically evaluated for each item on the sequence to produce the result
+    * key: expression to be converted to string, the key to look up in the table
     '''
     tableid = next(string_arg(ctx, tableid), '')
     key = next(string_arg(ctx, key), '')
-    #value = ctx.
-    for item in seq:
-        innerctx = ctx.copy(item=item)
-        yield from pexpr.compute(innerctx)
+    table = ctx.lookuptables.get(tableid, {})
+    if key in table:
+        yield table[key]
 
 
 @microxpath_function('sum')
-- 
2.43.0


From dd6cc070b5317749de6050c10c1998adc6001e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:29 +0000
Subject: [PATCH 69/84] fix: MicroXPath took digits of any script for part of a
 number
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

1٣ was read as 13, and .٣ as 0.3. XPath numbers only have the digits 0-9; others are characters of names.
---
 pylib/uxml/uxpath/lexrules.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/lexrules.py b/pylib/uxml/uxpath/lexrules.py
index 8c23f20..21b1da7 100644
--- a/pylib/uxml/uxpath/lexrules.py
+++ b/pylib/uxml/uxpath/lexrules.py
@@ -90,12 +90,12 @@ def t_LITERAL(t):
     return t
 
 def t_FLOAT(t):
-    r'\d+\.\d*|\.\d+'
+    r'[0-9]+\.[0-9]*|\.[0-9]+'
     t.value = float(t.value)
     return t
 
 def t_INTEGER(t):
-    r'\d+'
+    r'[0-9]+'
     t.value = int(t.value)
     return t
 
-- 
2.43.0


From f038bfec54a267718b18fe6cff6d92934318a669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:41 +0000
Subject: [PATCH 70/84] fix: substring() did not take two arguments

The length is optional in XPath, the rest of the string if left out
---
 pylib/uxml/uxpath/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/uxpath/functions.py b/pylib/uxml/uxpath/functions.py
index ad38007..154fa66 100644
--- a/pylib/uxml/uxpath/functions.py
+++ b/pylib/uxml/uxpath/functions.py
@@ -176,13 +176,13 @@ def _nearest(num):
 
 
 @microxpath_function('substring')
-def substring(ctx, full, start, length):
+def substring(ctx, full, start, length=None):
     '''
     Yields one string
     '''
     full = next(string_arg(ctx, full), '')
     start = _nearest(next(number_arg(ctx, start)))
-    end = start + _nearest(next(number_arg(ctx, length)))
+    end = math.inf if length is None else start + _nearest(next(number_arg(ctx, length)))
     # XPath is 1-indexed
     yield ''.join( c for (pos, c) in enumerate(full, 1) if start <= pos < end )
 
-- 
2.43.0


From 8d6421339b1f8c44ec45a2a4af592e389028aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:42 +0000
Subject: [PATCH 71/84] fix: parse_lax_xml() of input without content raised
 IndexError rather than the ValueError meant for it

---
 pylib/uxml/html5.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index be6d116..fba046f 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -341,14 +341,14 @@ def parse_lax_xml(source, prefixes=None, model=None, encoding=None):
     '''
     false_top = parse(source, prefixes=prefixes, model=model, encoding=encoding,
                         use_xhtml_ns=False)
-    top = false_top.xml_children[1].xml_children[0]
-    # Detach the bit we want from the wrapper
-    false_top.xml_children[1].xml_remove(top)
-    del false_top  # Ensure cleanup
     try:
-        return top
+        top = false_top.xml_children[1].xml_children[0]
     except IndexError:
         raise ValueError('Unable to process input even as tag soup XML')
+    # Detach the bit we want from the wrapper
+    false_top.xml_children[1].xml_remove(top)
+    del false_top  # Ensure cleanup
+    return top
 
 
 def markup_fragment(source, encoding=None):
-- 
2.43.0


From 020ed89c88d32ad7b9421ec1b0a0746e7f1d66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:17 +0000
Subject: [PATCH 72/84] fix: ns_expat_callbacks in streaming mode goes back to
 outer mappings of a redeclared prefix

---
 pylib/uxml/xml.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index a3be06b..733f9e7 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -59,17 +59,25 @@ class ns_expat_callbacks(expat_callbacks):
         #For best results always use namespace normal form:
         # http://www.ibm.com/developerworks/library/x-namcar/
         self._stream = stream
+        self._outer = []
         #Heuristic structure suggesting output namespaces to generate
         #element: (prefix, namespace)
         self.ns_portfolio = {}
         return
 
     def start_namespace(self, prefix, ns):
+        if self._stream:
+            #The mappings to go back to, once this one goes out of scope
+            self._outer.append((self.prefixes.copy(), self.prefixes_rev.copy()))
         self.prefixes[prefix] = ns
         self.prefixes_rev[ns] = prefix
 
     def end_namespace(self, prefix):
-        if self._stream: del self.prefixes[prefix]
+        if self._stream:
+            #In place, as others can refer to these
+            for current, outer in zip((self.prefixes, self.prefixes_rev), self._outer.pop()):
+                current.clear()
+                current.update(outer)
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-- 
2.43.0


From e559ffcb9f2158b6d076d989e6bae600ea0cfad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:18 +0000
Subject: [PATCH 73/84] fix: a sender starts afresh with a document after one
 which was broken off

---
 pylib/uxml/treeiter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index bc604dd..2d275da 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -123,6 +123,11 @@ class sender:
         return False
 
     def _handler(self):
+        #Whatever is left of a document which was broken off
+        self._roots = [None] * self._pattern_count
+        self._parents = [None] * self._pattern_count
+        self._evstacks = [[] for _ in range(self._pattern_count)]
+        self._building_depths = [0] * self._pattern_count
         while True:
             ev = yield
             for ix, evstack in enumerate(self._evstacks):
-- 
2.43.0


From 453432b9607159dd155795f23356a232d7b25c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:46 +0000
Subject: [PATCH 74/84] fix: xml: ns_expat_callbacks knows the prefix xml,
 which is bound without declaration (xml:lang lost its namespace)

---
 pylib/uxml/xml.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 733f9e7..b97b8ca 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -11,6 +11,8 @@ import xml.parsers.expat
 from . import tree
 from .parser import event  # parser, parsefrags
 
+XML_NAMESPACE = 'http://www.w3.org/XML/1998/namespace'
+
 
 class expat_callbacks(object):
     def __init__(self, handler, prime_handler=True):
@@ -83,12 +85,16 @@ class ns_expat_callbacks(expat_callbacks):
         #print('Start element:', name, attrs)
         ns, local = name.split() if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
-            self.ns_portfolio[local] = (ns, self.prefixes_rev.get(ns, ''))
+            self.ns_portfolio[local] = (ns, self._prefix(ns))
         for aname, aval in attrs.items():
             ans, alocal = aname.split() if ' ' in aname else (None, aname)
-            self.ns_portfolio['@' + alocal] = (ans, self.prefixes_rev.get(ans, ''))
+            self.ns_portfolio['@' + alocal] = (ans, self._prefix(ans))
         expat_callbacks.start_element(self, name, attrs)
 
+    def _prefix(self, ns):
+        #The prefix xml is bound without being declared
+        return self.prefixes_rev.get(ns, 'xml' if ns == XML_NAMESPACE else '')
+
 
 def parse(source, handler):
     '''
-- 
2.43.0


From 8690d46abb90f6ba051a432a2525924fc228a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:28 +0000
Subject: [PATCH 75/84] fix: uxpath: import despite a parsetab.py left
 incomplete by an interrupted process, or being written by another

---
 pylib/uxml/uxpath/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/uxpath/__init__.py b/pylib/uxml/uxpath/__init__.py
index 49e800f..39f8767 100644
--- a/pylib/uxml/uxpath/__init__.py
+++ b/pylib/uxml/uxpath/__init__.py
@@ -57,7 +57,15 @@ parsedir = os.path.dirname(parserules.__file__)
 if (not os.access(parsedir, os.W_OK)):
     parsedir = tempfile.gettempdir()
 
-parser = yacc.yacc(module=parserules, outputdir=parsedir)#, debug=True)
+try:
+    parser = yacc.yacc(module=parserules, outputdir=parsedir)#, debug=True)
+except Exception:
+    # An incomplete parsetab.py: another process did not get to finish writing it, or has not yet. Do without
+    try:
+        os.remove(os.path.join(os.path.dirname(parserules.__file__), 'parsetab.py'))
+    except OSError:
+        pass
+    parser = yacc.yacc(module=parserules, tabmodule='noparsetab', write_tables=False, debug=False)
 
 
 def parse(xpath):
-- 
2.43.0


From 5a2ea7a997c9180db9537f874f7be8c81d96455f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:02 +0000
Subject: [PATCH 76/84] fix: uxpath: following axis of an attribute includes
 the children of its element

---
 pylib/uxml/uxpath/xast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index a83e9f1..5f2c197 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -505,6 +505,9 @@ def _axis(item, axis):
     elif axis == 'preceding-sibling':
         yield from reversed(_siblings(item)[0])
     elif axis == 'following':
+        if isinstance(item, attribute_node):
+            # An attribute comes ahead of the children of its element
+            yield from _axis(item.xml_parent, 'descendant')
         for anc in _axis(item, 'ancestor-or-self'):
             for sib in _siblings(anc)[1]:
                 yield from _axis(sib, 'descendant-or-self')
-- 
2.43.0


From 661946a51f13ec82926e6bdab01775391e0cf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:04 +0000
Subject: [PATCH 77/84] fix: uxpath: <, <=, > & >= between a boolean and a node
 go by the boolean value of the node

---
 pylib/uxml/uxpath/xast.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pylib/uxml/uxpath/xast.py b/pylib/uxml/uxpath/xast.py
index 5f2c197..3dfa02d 100644
--- a/pylib/uxml/uxpath/xast.py
+++ b/pylib/uxml/uxpath/xast.py
@@ -249,6 +249,10 @@ def compare(op, left, right):
     def either(*types):
         return isinstance(left, types) or isinstance(right, types)
 
+    if either(bool):
+        # Even where order is concerned, a node goes by whether it is there
+        left, right = ( next(to_boolean(item)) if isinstance(item, node) else item for item in (left, right) )
+
     if op in ('=', '!=') and either(bool):
         cast = to_boolean
     elif op not in ('=', '!=') or either(int, float):
-- 
2.43.0


From 790d78cb79d28f17e506de20b2bd37387853eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:00 +0000
Subject: [PATCH 78/84] fix: end events had wrong names, & ns_expat_callbacks
 failed, with white space other than a space in a namespace name

---
 pylib/uxml/xml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index b97b8ca..989a29f 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -35,7 +35,7 @@ class expat_callbacks(object):
 
     def end_element(self, name):
         #print('End element:', name)
-        local = name.split()[1] if ' ' in name else name
+        local = name.split()[-1]
         self._elem_stack.pop()
         self._handler.send((event.end_element, local, self._elem_stack.copy()))
 
@@ -83,11 +83,11 @@ class ns_expat_callbacks(expat_callbacks):
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-        ns, local = name.split() if ' ' in name else (None, name)
+        ns, local = name.split(' ') if ' ' in name else (None, name)
         if local not in self.ns_portfolio:
             self.ns_portfolio[local] = (ns, self._prefix(ns))
         for aname, aval in attrs.items():
-            ans, alocal = aname.split() if ' ' in aname else (None, aname)
+            ans, alocal = aname.split(' ') if ' ' in aname else (None, aname)
             self.ns_portfolio['@' + alocal] = (ans, self._prefix(ans))
         expat_callbacks.start_element(self, name, attrs)
 
-- 
2.43.0


From e8717571c472716e2a446b6d32069a3f665ac359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:10 +0000
Subject: [PATCH 79/84] fix: make_pretty replaced no-break & other Unicode
 spaces, which are not whitespace in MicroXML

---
 pylib/uxml/treeutil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeutil.py b/pylib/uxml/treeutil.py
index 6090a02..7220814 100644
--- a/pylib/uxml/treeutil.py
+++ b/pylib/uxml/treeutil.py
@@ -221,7 +221,7 @@ def make_pretty(elem, depth=0, indent='  '):
             after_text = False
             make_pretty(child, depth, indent)
         else:
-            if child.xml_value.strip():
+            if child.xml_value.strip(' \t\r\n'):
                 #More to it than whitespace, so leave alone
                 #Note: if only whitespace entities are used, will still be left alone
                 updated_child_list.append(child)
@@ -234,7 +234,7 @@ def make_pretty(elem, depth=0, indent='  '):
     if not after_text:
         new_text = text('\n' + indent*(depth-1), elem)
         updated_child_list.append(new_text)
-    elif not updated_child_list[-1].xml_value.strip():
+    elif not updated_child_list[-1].xml_value.strip(' \t\r\n'):
         #What is ahead of the end tag goes by the depth of the element itself
         updated_child_list[-1] = text('\n' + indent*(depth-1), elem)
     elem.xml_children = updated_child_list
-- 
2.43.0


From 4fb65ec48928f296b588019c5b6b9256048cb806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:25 +0000
Subject: [PATCH 80/84] fix: elements whose HTML name ends with a colon, as in
 <http://example.com>, had the empty name

---
 pylib/uxml/html5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index fba046f..09ca520 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -91,7 +91,8 @@ class node(Node):
 
 
 def qname_to_local(qname):
-    return qname.split(':')[-1]
+    # A colon can be the last character too, as in <http://example.com>
+    return qname.rstrip(':').split(':')[-1]
 
 
 class element(tree.element, node):
-- 
2.43.0


From 9b69546a67095d64e7cf84b56668555f790be711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 81/84] fix: XML with a space in a namespace name is no longer
 refused

---
 pylib/uxml/xml.py     | 16 ++++++++++++----
 pylib/uxml/xmliter.py |  4 ++--
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/pylib/uxml/xml.py b/pylib/uxml/xml.py
index 989a29f..b47e56a 100644
--- a/pylib/uxml/xml.py
+++ b/pylib/uxml/xml.py
@@ -13,6 +13,9 @@ from .parser import event  # parser, parsefrags
 
 XML_NAMESPACE = 'http://www.w3.org/XML/1998/namespace'
 
+#Between namespace & local name in what expat reports. No namespace can contain it, unlike a space, and it's white space to split()
+NAMESPACE_SEPARATOR = '\x0c'
+
 
 class expat_callbacks(object):
     def __init__(self, handler, prime_handler=True):
@@ -83,14 +86,19 @@ class ns_expat_callbacks(expat_callbacks):
 
     def start_element(self, name, attrs):
         #print('Start element:', name, attrs)
-        ns, local = name.split(' ') if ' ' in name else (None, name)
+        ns, local = self._split(name)
         if local not in self.ns_portfolio:
             self.ns_portfolio[local] = (ns, self._prefix(ns))
         for aname, aval in attrs.items():
-            ans, alocal = aname.split(' ') if ' ' in aname else (None, aname)
+            ans, alocal = self._split(aname)
             self.ns_portfolio['@' + alocal] = (ans, self._prefix(ans))
         expat_callbacks.start_element(self, name, attrs)
 
+    def _split(self, name):
+        #The separator is one character of white space. There might be more of it in the namespace
+        local = name.split()[-1]
+        return name[:-len(local) - 1] or None, local
+
     def _prefix(self, ns):
         #The prefix xml is bound without being declared
         return self.prefixes_rev.get(ns, 'xml' if ns == XML_NAMESPACE else '')
@@ -109,7 +117,7 @@ def parse(source, handler):
     extras - information to be preserved but not part of MicroXML, e.g. namespaces
     '''
     h = expat_callbacks(handler)
-    p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
+    p = xml.parsers.expat.ParserCreate(namespace_separator=NAMESPACE_SEPARATOR)
 
     p.buffer_text = True  # One event, even across line ends & references
     p.StartElementHandler = h.start_element
@@ -136,7 +144,7 @@ class treebuilder(tree.treebuilder):
         self._root = None
         self._parent = None
         self.handler = expat_callbacks(self._handler())
-        self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
+        self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=NAMESPACE_SEPARATOR)
 
         self.expat_parser.buffer_text = True  # One text node, even across line ends & references
         self.expat_parser.StartElementHandler = self.handler.start_element
diff --git a/pylib/uxml/xmliter.py b/pylib/uxml/xmliter.py
index cd7c7df..d9520eb 100644
--- a/pylib/uxml/xmliter.py
+++ b/pylib/uxml/xmliter.py
@@ -8,7 +8,7 @@
 import xml.parsers.expat
 
 from . import treeiter
-from .xml import expat_callbacks  # ns_expat_callbacks
+from .xml import expat_callbacks, NAMESPACE_SEPARATOR  # ns_expat_callbacks
 
 
 def buffer_handler(accumulator):
@@ -35,7 +35,7 @@ class sender(treeiter.sender):
     def __init__(self, pattern, sink, prime_sinks=True, callbacks=expat_callbacks):
         super(sender, self).__init__(pattern, sink, prime_sinks=prime_sinks)
         self.handler = callbacks(self._handler())
-        self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=' ')
+        self.expat_parser = xml.parsers.expat.ParserCreate(namespace_separator=NAMESPACE_SEPARATOR)
 
         self.expat_parser.buffer_text = True  # One text node, even across line ends & references
         self.expat_parser.StartElementHandler = self.handler.start_element
-- 
2.43.0


From b004eea45d61034c94870f932c0f0a0416939ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 82/84] fix: a sink given for several patterns is primed just
 once

---
 pylib/uxml/treeiter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pylib/uxml/treeiter.py b/pylib/uxml/treeiter.py
index 2d275da..be15649 100644
--- a/pylib/uxml/treeiter.py
+++ b/pylib/uxml/treeiter.py
@@ -57,8 +57,9 @@ class sender:
         self._building_depths = [0] * self._pattern_count
         # if asyncio.iscoroutine(sink):
         if prime_sinks:
-            for sink in self._sinks:
-                if isinstance(sink, Iterable):
+            for ix, sink in enumerate(self._sinks):
+                # Just once, even if it's the sink of several patterns
+                if isinstance(sink, Iterable) and not any( sink is other for other in self._sinks[:ix] ):
                     next(sink)  # Prime coroutine
         self._currents = [None] * self._pattern_count
         self._prep_patterns()
-- 
2.43.0


From f4087919c61a3948a7f3f26a4073bec3914ae2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 83/84] fix: html5.parse heeds the encoding it is given

---
 pylib/uxml/html5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 09ca520..533269e 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -318,7 +318,9 @@ def parse(source, prefixes=None, model=None, encoding=None, use_xhtml_ns=False):
     parser = html5lib.HTMLParser(tree=get_tree_instance)
     # doc = parser.parse(inputsource(source, None).stream, encoding=encoding)
     # doc = parser.parse(source, encoding=encoding)
-    doc = parser.parse(source)
+    # A string is not in any encoding
+    options = {'override_encoding': encoding} if encoding and not isinstance(source, str) else {}
+    doc = parser.parse(source, **options)
     first_element = next((e for e in doc.root_nodes if isinstance(e, element)), None)
     # html5lib's parser is in reference cycles. It must not keep the tree alive until cyclic garbage collection
     parser.tree.reset()
-- 
2.43.0


From da9b8ba4b884cdb4f26ce4277198632e34641498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:31 +0000
Subject: [PATCH 84/84] fix: html5.markup_fragment returns the body rather than
 fail

---
 pylib/uxml/html5.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pylib/uxml/html5.py b/pylib/uxml/html5.py
index 533269e..b947f55 100644
--- a/pylib/uxml/html5.py
+++ b/pylib/uxml/html5.py
@@ -360,13 +360,14 @@ def markup_fragment(source, encoding=None):
 
     Warning: if you pass a string, you must make sure it's a byte string, not a Unicode object.  You might also want to wrap it with amara.lib.inputsource.text if it's not obviously XML or HTML (for example it could be confused with a file name)
 
-    from amara.lib import inputsource
-    from amara.bindery import html
-    doc = html.markup_fragment(inputsource.text('XXX<html><body onload="" color="white"><p>Spam!<p>Eggs!</body></html>YYY'))
+    >>> from amara3.uxml import html5
+    >>> body = html5.markup_fragment('XXX<html><body onload="" color="white"><p>Spam!<p>Eggs!</body></html>YYY')
+    >>> body.xml_encode()
+    '<body onload="" color="white">XXX<p>Spam!</p><p>Eggs!YYY</p></body>'
 
     See also: http://wiki.xml3k.org/Amara2/Tagsoup [TODO: Page defunct - restore it]
     '''
     doc = parse(source, encoding=encoding)
-    frag = doc.html.body
-    return frag
+    # HTML5 has either of them, and it's not always the second child
+    return next(e for e in select_elements(doc) if e.xml_name in ('body', 'frameset'))
 
-- 
2.43.0

