#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code because it is easier to edit than JSON lines)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
U = 'pylib/uxml/'
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=hook)))

prop('P01', 'MicroXML parse reports exactly what the document says',
 'For every well-formed MicroXML document, however its author chose to write it (whitespace in tags, either quote, any character as itself, as a hexadecimal reference or as one of the five named references, LF, CR or CRLF line ends), parser.parse() and the parser() coroutine report exactly its sequence of start-element, characters and end-element events in document order. Each event carries the exact name, the exact attributes in order with their decoded values, the list of open ancestor names, and each maximal run of character data is one event with its exact decoded text (line ends as a single newline). Nothing is lost, added, merged, reordered or altered, and what one event carries is not affected by later events or by what the consumer does to earlier ones.',
 ['inputs'], 'Every MicroXML document made of elements, attributes & text (comments and empty-element tags, which this parser does not support, excluded), of any size, nesting, and any characters MicroXML allows in names, text & values, and every spelling of it.',
 'The tests parse about 30 small documents, mostly ASCII with plain tags; the guarantee ranges over every document, code point and spelling.',
 [U+'parser.py'], [('state machine over the accumulated window', U+'parser.py: parser()'), ('character data, references & line ends', U+'parser.py: handle_cdata()'), ('character classes', U+'parser.py: CHARACTER, DATACHAR, NAMESTARTCHAR, NAMECHAR, ATTRIBVALCHAR_*')],
 ['events sent to the handler coroutine', 'events yielded by parse()'],
 [('element_stack', 'open elements', U+'parser.py: parser()'), ('window/pos', 'input so far & how much is consumed', U+'parser.py: parser()')])

prop('P02', 'Incremental parsing: fragment boundaries do not matter, events are prompt',
 'However a document is cut into fragments (anywhere: inside names, references, values, between CR & LF, with empty fragments, one character at a time), feeding them through parsefrags() or the parser() coroutine gives exactly the events of parsing it whole. Each event is delivered by the time the fragment with the character which completes it (the > of a tag, the < after a text) has been sent, and never earlier. Any number of parsers fed alternately do not affect one another.',
 ['inputs', 'histories', 'schedules'], 'Every MicroXML document, every way to split it in fragments, every interleaving of the feeding of several parsers; the final fragment may or may not be flagged as last, or be followed by an empty last one.',
 'Tests use a handful of hand-picked splits of a few documents; there are 2^(n-1) splits of each, and interleavings of parsers are not tried at all.',
 [U+'parser.py'], [('backtracking to the start of an incomplete construct', U+'parser.py: parser()'), ('None for incomplete character data', U+'parser.py: handle_cdata()'), ('wrap-up', U+'parser.py: parse(), parsefrags()')],
 ['events sent to the handler coroutine, by fragment'],
 [('need_input', 'more input wanted', U+'parser.py: parser()'), ('backtrackpos', 'where to resume an attribute', U+'parser.py: parser()')])

prop('P03', 'MicroXML parse rejects what is not well formed, and always terminates',
 'For any string at all, whole or in fragments, MicroXML parsing ends in a number of steps bounded by the length of the input, either having reported a document or with an exception to the caller, never silently giving up or hanging. A mismatched, missing or surplus end tag, a second document element or text outside of it, a duplicate attribute, a value without quotes or with a <, an unknown or unterminated reference, a reference to or occurrence of a character MicroXML forbids, a bad name, a comment, processing instruction, doctype, CDATA section or empty-element tag it does not support, or a premature end are all reported with an exception. Events delivered ahead of the exception are a prefix of what a correct reading gives, with nothing from the offending construct or beyond.',
 ['inputs', 'fault_sequences'], 'Every string: mutations & truncations at every position of well-formed documents, every code point in every syntactic position, random markup soup; whole or fragmented.',
 'Tests check a few malformed documents; they cannot reach each truncation point and each illegal code point in each position, nor exclude hanging.',
 [U+'parser.py'], [('RuntimeError on unexpected input in each state', U+'parser.py: parser(), handle_cdata()'), ('check at the end of the document', U+'parser.py: parser()')],
 ['exceptions out of parse(), parsefrags() & send()', 'events delivered beforehand', 'steps taken'])

prop('P04', 'The tree mirrors the document; a builder can be reused after anything',
 'For every well-formed document, tree.parse(), uxml.parse() and treebuilder.parse() return a tree with exactly the elements, attributes, text and order of the document, where each child has its element as xml_parent and the top has none. A builder (MicroXML or XML) returns the right tree for each document regardless of its history, including documents on which it failed, and trees from the same or other builders share no state: changing one does not alter any other. xml_value of any node is the concatenation of the text within it, in document order.',
 ['inputs', 'histories'], 'Every document in every sequence of parses (valid and invalid) by one or several builders, with mutations of the resulting trees in between.',
 'Tests build each tree once from a few documents; reuse after failure and independence of trees quantify over histories.',
 [U+'tree.py', U+'__init__.py', U+'xml.py'], [('event handler', U+'tree.py: treebuilder._handler()'), ('reset', U+'tree.py & xml.py: treebuilder.parse()')],
 ['trees returned'], [('_root/_parent', 'tree under construction', U+'tree.py: treebuilder')])

prop('P05', 'Tree mutations keep children, order and parent links consistent',
 'After any history of xml_append, xml_insert and xml_remove on elements, the children of each element are exactly the ones put there, in the order requested (strings becoming text nodes), and those not involved are untouched. A child has the element it was put in as its xml_parent; a removed child is the top of a tree of its own, intact, with no parent, and can be put elsewhere. Removing an existing child node removes that very node even when others look the same, and removing what is not a child raises ValueError and changes nothing; xml_value & xml_encode reflect the current state.',
 ['histories'], 'Every sequence of append/insert/remove/re-insert operations over a forest of elements & text nodes, including look-alike text nodes.',
 'Tests perform two or three mutations on one small tree; consistency quantifies over every history.',
 [U+'tree.py'], [('list of children with weak back reference', U+'tree.py: element.xml_append/xml_insert/xml_remove')],
 ['xml_children, xml_parent, xml_value, xml_encode() after each operation'], [('xml_children', 'children', U+'tree.py: element'), ('_xml_parent', 'weak reference to the parent', U+'tree.py: node')])

prop('P06', 'Serialization round trip',
 'For every tree of MicroXML names & characters, xml_encode() (and xml_write()) gives text which both the MicroXML and the XML parser read back to a tree with the same elements, attributes, order and text. With an indent it only adds whitespace: no name, attribute, value or non-whitespace text is altered, lost or moved.',
 ['inputs', 'configurations'], 'Every tree with valid names and text & attribute values of any characters MicroXML allows (markup characters, quotes, tabs, newlines, supplementary planes), whether parsed or built & changed through the API; adjacent or empty text nodes compare by their concatenation.',
 'Tests check a few fixed outputs; escaping must be right for each character in each position and combination.',
 [U+'tree.py'], [('escaping of text & attributes', U+'tree.py: element.xml_encode(), encode_attribute()')], ['xml_encode(), xml_write(), parsed again'])

prop('P07', 'Writers emit equivalent well-formed markup, namespaces included',
 'For every tree and every sequence of balanced calls, writer.raw emits markup which reads back to just those elements, attributes and text; with an indent only whitespace is added. writer.namespacer in addition declares each given prefix exactly once, on the first element and nowhere else, and gives each element and attribute the prefix its mapping says, so that a namespace-aware parser sees those namespaces and local names and otherwise the same document. A writer fed by a streaming sender or by writer.write() gives the same result. xml.ns_expat_callbacks in streaming mode has, at each start & end of an element, just the prefixes in scope there.',
 ['inputs', 'configurations', 'histories'], 'Every tree / call sequence, attributes & text of any legal characters, any prefixes & mapping (declared prefixes), any indent; write() of many subtrees through one writer.',
 'Tests compare half a dozen fixed strings.',
 [U+'writer.py', U+'xml.py'], [('token & context based writing', U+'writer.py: raw.write(), namespacer.write()'), ('recursion', U+'writer.py: write()'), ('namespaces gathered', U+'xml.py: ns_expat_callbacks')], ['text written to fp, parsed again by a namespace-aware parser'],
 [('_first_element/_ns_handled', 'whether declarations are due', U+'writer.py: namespacer')])

prop('P08', 'XML 1.0 is reduced to MicroXML without losing content',
 'For every well-formed XML 1.0 document, xml.treebuilder and xml.parse give exactly its elements, attributes and text by local name: namespace declarations (of whatever names) and prefixes stripped, comments, processing instructions & the doctype left out, entities, character references, CDATA and attribute defaults resolved, in whatever encoding the bytes declare. A run of text of up to 8,000 bytes (as UTF-8) between tags is a single text node whatever references, line ends or CDATA it was written with. Documents which are not well formed, or end prematurely, are reported with an exception by xml.treebuilder, not returned in part.',
 ['inputs', 'configurations'], 'Every namespace-well-formed XML 1.0 document, as str or bytes in UTF-8/16, Latin-1 or ASCII, with internal subset; all truncations & many corruptions of them.',
 'Tests parse three small namespaced documents.',
 [U+'xml.py', U+'tree.py'], [('expat callbacks', U+'xml.py: expat_callbacks'), ('local name by splitting', U+'xml.py: start_element(), end_element()')], ['tree returned; events sent by xml.parse()'])

prop('P09', 'Streaming senders deliver each matching subtree exactly once, complete, in order',
 'For every document and pattern list, each sink of a treeiter, xmliter or html5iter sender gets exactly the outermost elements whose path from the document element matches its pattern (names, alternative names, * for any one element, ** for any number of them), each once, in document order, as a complete subtree of its own equal to that in the full tree. Several patterns with their sinks are independent: each gets just what it would get alone, even where they share a sink; so are documents a sender is given in succession, even after one which was broken off. A subtree is complete when it is sent, and sent before any part of the document after its end tag is reported.',
 ['inputs', 'configurations', 'histories'], 'Every document, every list of patterns not ending in **, in the three senders; XML from strings or files.',
 'Tests run a dozen pattern/document pairs, mostly single patterns over flat documents.',
 [U+'treeiter.py', U+'xmliter.py', U+'html5iter.py'], [('pattern automaton', U+'treeiter.py: _prep_patterns(), _match_state()'), ('building of subtrees', U+'treeiter.py: _handler()')], ['elements received by sinks'],
 [('_evstacks, _building_depths, _parents', 'per pattern path & subtree state', U+'treeiter.py: sender')])

prop('P10', 'Trees are freed when dropped and streaming stays within bounded memory',
 'A tree, or any part of it detached by xml_remove, is freed as soon as the last reference to it is dropped, without help of the cyclic garbage collector, whether it came from the MicroXML, XML or HTML parser, was modified, serialized, or queried (with MicroXPath or the tree utilities). A child does not keep its parent alive, and a held top keeps its whole tree alive. While a treeiter or xmliter sender processes a document with any number of matching or other elements, the live elements are at most those of the subtree in progress and the one last delivered, plus whatever the sink retains. What was built of a document on which a builder failed goes with the builder.',
 ['histories', 'inputs'], 'Every history of parse, mutation, serialization, query & drop; documents with thousands of matching and non-matching elements.',
 'The GC tests check two documents once with one query each; nothing measures memory while streaming or after queries, removal and reuse.',
 [U+'tree.py', U+'treeiter.py', U+'uxpath/xast.py'], [('weak parent references', U+'tree.py: node._xml_parent'), ('weak cache of root nodes', U+'uxpath/xast.py: root_node'), ('reset of builder', U+'tree.py: treebuilder.parse()')], ['weak references to nodes; live element instances with the cyclic collector off'])

prop('P11', 'MicroXPath paths select exactly the right nodes in the right order',
 'For every tree, context node and path expression over the axes self, child, descendant, descendant-or-self, parent, ancestor, ancestor-or-self, following-sibling, preceding-sibling, following, preceding & attribute (or ., .., @, // and a leading / or //), with name, *, text() or node() tests, evaluation yields exactly the nodes XPath 1.0 defines for each step, for each context item in turn, in axis order (reverse axes nearest first), the very nodes of the tree. The root node stands above the document element for every node as context, a relative // descends in document order, a leading // goes through the root and then each node in document order evaluating the rest relative to it. A union | yields nodes in document order without duplicates.',
 ['inputs', 'programs'], 'Every tree, including ones with look-alike or empty text nodes, every path built from these constructs, every node (root, element, text or attribute) as context. Attribute nodes are not used as the start of the following & preceding axes.',
 'Tests run about 45 fixed expressions over five tiny trees; 5 of 12 axes are not covered, and text or attribute context nodes are not.',
 [U+'uxpath/xast.py', U+'uxpath/__init__.py'], [('axes', U+'uxpath/xast.py: _axis(), step.compute()'), ('node tests', U+'uxpath/xast.py: name_test, node_type_test'), ('/ and //', U+'uxpath/xast.py: absolute_path, binary_expression'), ('root node', U+'uxpath/xast.py: root_node.get()'), ('union', U+'uxpath/xast.py: docorder()')], ['items yielded by compute(), qquery() & xml_xpath()'])

prop('P12', 'MicroXPath predicates, comparisons, logic and functions compute XPath values',
 'Predicates keep the items at the given 1-based position among what precedes them, or those for which their value is true, each predicate filtering the result of the previous one; a predicate applies to the whole path or sequence ahead of it. Comparisons hold when some pair of items compares by string, number or boolean under the XPath 1.0 rules, and and, or & not() give booleans from effective boolean values, unary minus & number() IEEE numbers or NaN, and string() the XPath form of numbers, booleans & nodes. name, count, string, concat, starts-with, contains, substring-before, substring-after, substring, string-length, boolean, not, true, false, number, for-each and lookup yield what their documentation and XPath 1.0 say for any argument (literals, numbers, booleans, nodes, empty sequences), with variables and user-supplied functions usable likewise.',
 ['inputs', 'programs'], 'Every expression over these constructs on every tree; strings in any script, numbers including NaN, infinities & fractions. Out of scope: arithmetic operators, last(), sequences of several items as string arguments, comparing an empty sequence to a boolean, and functions marked as not implemented.',
 'Tests have some 20 fixed expressions with predicates, functions or casts, none for comparisons between types, NaN, empty sequences or nested predicates.',
 [U+'uxpath/xast.py', U+'uxpath/functions.py'], [('casts', U+'uxpath/xast.py: to_string(), to_number(), to_boolean()'), ('comparison', U+'uxpath/xast.py: compare()'), ('predicates', U+'uxpath/xast.py: predicated_expression'), ('functions', U+'uxpath/functions.py')], ['values yielded by compute()'])

prop('P13', 'MicroXPath parses by the grammar, serializes back, and reports errors',
 'Every expression is read with the XPath precedence (or, and, equality, relational, unary minus, union, path & predicates, left associative) regardless of whitespace and of names which coincide with operators, axes, functions or node types where the grammar allows them. serialize() of a parsed expression is text which parses to an expression with the same results on any tree. Expressions with unbalanced brackets or quotes, missing operands, unknown axes or characters, or trailing tokens are rejected with an exception, as are unknown functions and variables when evaluated, and a failed parse does not affect later ones.',
 ['programs', 'histories'], 'Every expression derivable from the grammar (arithmetic excepted), in any spelling, and corruptions of them, in any order of parsing.',
 'No test serializes, mixes operators, or checks a syntax error.',
 [U+'uxpath/lexrules.py', U+'uxpath/parserules.py', U+'uxpath/xast.py'], [('tokens', U+'uxpath/lexrules.py'), ('grammar & precedence', U+'uxpath/parserules.py'), ('serialization', U+'uxpath/xast.py: serialize()')], ['results of parse(text) vs. an independent reading', 'exceptions'])

prop('P14', 'Queries are pure and always reflect the current tree',
 'Evaluating an expression changes nothing observable: not the tree, the expression, the variables, or the results of any other query, whether its results are consumed wholly, partly or interleaved with those of others. The same parsed expression evaluated again, on the same or another tree, gives what a freshly parsed one gives. After any mutation of the tree (including moving, attaching and detaching subtrees) queries, absolute paths and unions included, see exactly the current tree, with string or parsed expressions, via qquery(), node.xml_xpath() or context() alike.',
 ['histories', 'programs'], 'Every history interleaving queries (complete, abandoned, concurrent generators), mutations & re-evaluation.',
 'Every test evaluates a fresh expression once on an unchanging tree.',
 [U+'uxpath/xast.py', U+'uxpath/__init__.py', U+'tree.py'], [('stateless AST', U+'uxpath/xast.py'), ('root node cache', U+'uxpath/xast.py: root_node'), ('context copies', U+'uxpath/__init__.py: context')], ['results, tree snapshots before & after'],
 [('root_node._cache', 'root nodes by top element', U+'uxpath/xast.py')])

prop('P15', 'Independent use from several threads does not interfere',
 'Threads which concurrently parse MicroXML or XML, build, change, stream, serialize, or write their own documents, use the tree utilities, or parse MicroXPath expressions and evaluate them (even a shared parsed expression over a shared tree nobody changes), each get exactly what they would get alone, under every schedule.',
 ['schedules'], 'Every interleaving of threads using the module-level functions (uxml.parse, tree.parse, parser.parse, uxpath.parse, qquery, xml_xpath ...) or objects of their own, with no builder, sender or writer shared.',
 'No test uses threads.',
 [U+'__init__.py', U+'uxpath/__init__.py', U+'tree.py', U+'parser.py', U+'uxpath/xast.py'], [('no shared builder behind uxml.parse', U+'__init__.py'), ('a lexer per parse', U+'uxpath/__init__.py: parse()')], ['result of each call in each thread'],
 [('lexer', 'shared token rules', U+'uxpath/__init__.py'), ('root_node._cache', 'shared cache', U+'uxpath/xast.py')])

prop('P16', 'Tree utilities select exactly the specified nodes',
 'For every tree, descendants yields every element below the given one once, in document order, and select_elements, select_name, select_name_pattern, select_value and select_attribute yield exactly the child elements (or elements of the given iterator) which meet the condition, in order. following_siblings yields exactly the siblings after the given node, even among look-alike text nodes. select_pattern yields exactly once, in document order, each descendant whose path below the given node matches the pattern of names, alternative names, * and **; none of these changes the tree.',
 ['inputs'], 'Every tree, start node, name, regex, value, attribute & pattern not ending in **.',
 'Tests use one or two fixed documents per function.',
 [U+'treeutil.py'], [('pattern automaton', U+'treeutil.py: _prep_pattern(), select_pattern()'), ('filters', U+'treeutil.py: select_*')], ['nodes yielded'])

prop('P17', 'make_pretty only rearranges whitespace',
 'For every tree, make_pretty returns the same element with all descendant elements, attributes, and text nodes which are not entirely whitespace kept: same objects, values and order, and correct parent links. Only whitespace text nodes are added or replaced, such that every element not preceded by other text starts a line of its own, indented by its depth times the given indent, and end tags not preceded by other text align with their start. Applying it again changes nothing.',
 ['inputs', 'configurations'], 'Every tree, parsed (MicroXML, XML, HTML5) or built & changed through the API, including text nodes in succession; any depth, any whitespace indent.',
 'One test checks one document with the default indent.',
 [U+'treeutil.py'], [('alternation of text & element', U+'treeutil.py: make_pretty()')], ['tree and xml_encode() before & after'])

prop('P18', 'HTML5 parsing gives the tree html5lib specifies',
 'For any HTML text or bytes, however broken, html5.parse returns a tree whose elements, order, nesting, attributes (elements & attributes by local name, namespace declarations apart) and text are those of the HTML5 algorithm, as html5lib gives with its own tree builder, with consistent parent links and comments contributing no text. Bytes are read in the encoding given, unless a byte order mark has it otherwise, or else the one HTML5 determines. Parsing never fails or depends on earlier parses. html5.markup_fragment returns the body element, as the top of a tree. html5.parse_lax_xml of markup with lower case, non-HTML element names returns its top element as a detached tree, tolerating missing end tags; without any content in the input it raises ValueError.',
 ['inputs', 'histories'], 'Every string or byte string as HTML source (tag soup, misnesting, tables, foreign content, entities, encodings).',
 'Tests parse three snippets.',
 [U+'html5.py'], [('html5lib tree builder adapter', U+'html5.py: treebuilder, element, node, document')], ['tree returned, compared with that by html5lib\'s etree builder'])

prop('P19', 'microx prints what the corresponding queries give',
 'For any source files & options, the microx command prints, for each source in order, one line-terminated serialization per result item of --expr on the document, or of --match on each element in document order, mapped through --foreach when given, up to --limit items in total (before --foreach), to standard output or the --out file. --partition gives the results of the command on each outermost element of that name as a document; --find-text prints the path from the document element to the element of each text node which contains the text, with --show-attrs values where present; --html and --lax select the parser. Sources are read in the encoding they declare, and missing, conflicting or unparsable input ends with an error rather than partial silence.',
 ['inputs', 'configurations'], 'Every document (files), expression and combination of options; attribute results only through expressions which turn them into strings.',
 'There are no tests of the command.',
 ['exec/microx', U+'xml.py', U+'xmliter.py', U+'uxpath/__init__.py'], [('command dispatch', 'exec/microx: run()'), ('paths', 'exec/microx: xpath_to()')], ['standard output, --out file & exit status'])

prop('P20', 'isxml is memory safe and right on any bytes',
 'For any bytes, of any length including none, isxml returns without reading outside of the buffer or other undefined behavior, leaking, or corrupting the interpreter. It returns True just if they start like XML: an XML declaration or < in one of the encodings recognizable from the first four bytes, or, once decoded as UTF-8, or as UTF-8/16/32 per its byte order mark, in full and without error, < as first character other than whitespace.',
 ['inputs'], 'Every byte string: all short ones over a hostile alphabet, all byte order marks, truncated & invalid encodings, long whitespace.',
 'No test calls it.',
 ['clib/xmlstring.c'], [('encoding detection & scan', 'clib/xmlstring.c: string_isxml()')], ['return value', 'AddressSanitizer & UndefinedBehaviorSanitizer reports', 'allocated memory'])

prop('P21', 'Same results in every process; unfinished parser tables do no harm',
 'Parsing, building, streaming, selecting, querying, serializing, writing and converting the same inputs gives the same results in every process: whatever the hash seed, optimization flag -O, locale & UTF-8 mode, working directory & the files in it, order of importing the modules, settings of the garbage collector, and whether the package is in a directory one may write to. The tables of the MicroXPath parser, written at first use, are not used when of another grammar, and importing the package works, with the same results, when they are absent, older, incomplete or garbled since a process was killed, was interrupted or ran out of disk at any point of writing them, or while other processes write them. Nothing is printed on standard output & no file left in the working directory.',
 ['configurations', 'crash_points', 'schedules'], 'Every environment, crash point & interleaving of processes using the same installation. Out of scope: -OO, warnings turned to errors, what is printed on standard error, and absolute paths from a text node without a parent (an assert).',
 'Tests run in one process, with one hash seed each time, and tables complete or absent.',
 [U+'uxpath/__init__.py', U+'uxpath/parserules.py', U+'treeutil.py', U+'treeiter.py', U+'html5.py', U+'writer.py'], [('tables written & read', U+'uxpath/__init__.py: yacc.yacc()'), ('order of attributes & nodes', U+'html5.py, writer.py, uxpath/xast.py')], ['exit status, standard output & working directory of processes', 'results they print'])

with open(OUT, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
