L, M = "lib/sldr/ldml.py", "lib/sldr/ldml_merge.py"
EX = "bounded-exhaustive exploration of the real code (stateless, all decision sequences), compared with an independent reference model"

P("C01", "Reading and writing an LDML document loses nothing and is a fixed point",
  "Whatever well-formed LDML document is read, the normalised document written back is well formed and carries the same elements, attributes, values, comments and namespaces. "
  "Only sibling order, indentation, blanks at the edges of values and prefixes may differ, and reading and writing the result again changes nothing.",
  ["inputs"], "all well-formed documents: every combination of namespaces, attribute values, texts, CDATA sections, comments, special elements and alternates",
  "The tests read a few real locale files and compare some values; losses appear only for particular combinations (a tab in an attribute, ]]> in CDATA, a comment after a value, a second prefix for a namespace) that no shipped file contains.",
  [L, "lib/sldr/py3xmlparser.py"], [("XML reader and tree builder", L + ":Ldml.__init__"), ("serialiser with LDML ordering and escaping", L + ":ETWriter.serialize_xml"), ("normalisation", L + ":Ldml.normalise")],
  EX, "Every document with at most 3 (thorough: 4) departures from a skeleton, and all namespace assignments of a small tree; the oracle compares input and output through expat, not through the code under test.")

P("C02", "The written form depends only on the content of the document",
  "Two inputs that carry the same LDML content yield the same bytes when written, whatever the order of siblings and attributes, the indentation, the encoding, the quoting, the entity spelling, the line ends, or the sizes of the reads that deliver them. "
  "The order written is the one the LDML DTD and the CLDR attribute order demand.",
  ["inputs", "schedules"], "all permutations of the siblings of an element, all spellings of a document, and all ways a stream may deliver its bytes",
  "The tests write documents whose order is nearly canonical and read them from complete files; a comparison key that ties, or a reader that cares where a buffer ends, shows only for particular orders and splits.",
  [L, "lib/sldr/py3xmlparser.py"], [("DTD and attribute ordering tables", L + ":Ldml.ReadDTD"), ("sibling ordering", L + ":Ldml.normalise"), ("incremental parsing", L + ":Ldml.__init__")],
  EX, "All sibling permutations of 12 groups, all one and two point splits of 5 documents' bytes, and all spellings of 9 values; expected orders are written down independently from the DTD.")

P("C03", "The best draft is the primary value and no draft alternate is lost",
  "After any sequence of additions, draft changes, lookups and writes, the primary value of a group of draft alternates is the value with the best draft rating, ties keep the value already there, and every other value remains as an alternate with its own draft mark. "
  "A document written and read again presents the same values.",
  ["histories", "inputs"], "all histories of additions and draft changes on one group of alternates, with writes and re-reads at any point",
  "The tests perform single additions; displaced values are lost or duplicated only after several promotions, or a write between two of them.",
  [L], [("choice and promotion of the best draft", L + ":Ldml._find_best, _promote, change_draft"), ("alternates kept beside the primary", L + ":Ldml._add_alt_leaf"), ("alternates written out", L + ":Ldml.serialize_xml")],
  EX, "All histories up to depth 3 (narrow alphabet: 4; thorough 4 and 6) from 6 initial groups, checked after every step against a reference model of rated slots.")

P("C04", "Lookup, creation and removal by path agree with the tree",
  "Ensuring a path returns the element at that path, creates exactly the missing elements with the attributes the path names, changes nothing else and is idempotent. "
  "Finding returns exactly the elements the path describes, and removing deletes exactly those.",
  ["histories", "inputs"], "all histories of path operations over all supported path forms on any document",
  "The tests use each path once on a fresh document; a wrong match shows when similar siblings exist, after removals, or when an attribute value contains path syntax.",
  [L], [("path interpretation", L + ":Ldml._process_path, _unify_path"), ("public path operations", L + ":Ldml.ensure_path, remove_path, find, findall")],
  EX, "All histories of at most 2 (thorough 3) of the wide operation alphabet and 3 (4) of a narrow one, on 3 documents, the whole tree compared after each step with a reference tree.")

P("C05", "Flattening takes each value from the nearest locale in the fallback chain",
  "The flattened form of a locale has every value of the locale itself, and each other inheritable value exactly as in the nearest ancestor of its fallback chain that has one, skipping ancestors in another script. "
  "It depends only on the source files of that chain, and no source file changes. Asked to flatten only what depends on a set of changed locales, it flattens exactly the locales whose ancestors include one of the set.",
  ["inputs", "configurations"], "all contents of a locale and its ancestors, all explicit or implied parents, all directory layouts and search orders",
  "The tests flatten a handful of fixtures with one or two ancestors; which ancestor wins matters only when several define overlapping values.",
  [M, L], [("flattening along the chain", M + ":flattenlocale"), ("filling in inherited values", M + ":LdmlMerge.overlay"), ("fallback data", L + ":Ldml.get_parent_locales")],
  EX, "All combinations of content profiles over chains of up to 3 ancestors, all script marks on 4 locales, all placements of files over two directories and layouts, against a reference inheritance model on plain trees.")

P("C06", "Unflattening removes exactly what inheritance restores",
  "Unflattening a locale against its parent removes every value that flattening would restore from the parent and nothing else, so flattening the unflattened form gives back the values of the flat form. "
  "Copying and the three conversions leave unrelated content as it was.",
  ["inputs", "configurations"], "all pairs of a child's and a parent's content, and all distributions of values over a chain of files",
  "The tests unflatten one fixture and compare a few values; a value lost or kept in vain depends on what both documents hold at each level (equal text with other attributes, equal fonts, drafts, special elements).",
  [M, "scripts/ldmlflatten"], [("removal of inherited values", M + ":LdmlMerge.difference, _difference"), ("filling in inherited values", M + ":LdmlMerge.overlay"), ("the three modes", M + ":flattenlocale")],
  EX, "All child/parent states of 2 (3) of the parts of a document out of every kind of content, all states of the external resources, and all distributions of 2 (4) parts over a chain of three files taken through flatten, unflatten, flatten, copy.")

P("C07", "A three way merge keeps both sides' changes and reports what it did",
  "Merging takes over each change only the other side made, keeps each change only our side made, and leaves alone what neither changed; when both sides change one value differently the result is one of the two values. "
  "With drafts a value of ours that a better rated value of the base displaces stays as an alternate, and the returned flag says whether the document changed.",
  ["inputs"], "all triples of base, our and other document over every kind of content, draft mark and position",
  "The tests merge a few hand written triples; a lost change needs a particular combination of which sides changed, added or removed a value, and its draft.",
  [M, "scripts/ldmlmerge"], [("three way merge", M + ":LdmlMerge.merge"), ("matching of the elements of three documents", M + ":LdmlMerge._align"), ("alternates", M + ":LdmlMerge._merge_with_alts")],
  EX, "All triples in which at most 2 (3) of 9 parts are in one of the 14 non-trivial states of three documents; all values and 5 draft marks of one value in three documents; all two way pairs; against a reference merge on maps.")

P("C08", "Documents do not influence each other and writing does not change them",
  "An operation on one document changes no other document, including those it takes content from, then or later; writing a document does not change it. "
  "An operation has the same result on a document whatever was read, merged or written before in the same process.",
  ["histories"], "all histories of reading, writing, editing, merging and flattening operations on several documents in one process",
  "Each test works on fresh documents and looks only at the result; shared nodes, shared tables and leftovers of a write appear only when another document, or a later operation, is looked at.",
  [L, M], [("serialiser state and namespaces", L + ":ETWriter.serialize_xml, _localisens"), ("copies of adopted elements", M + ":LdmlMerge._copynode"), ("class wide metadata", L + ":Ldml.ReadMetadata")],
  EX, "All histories of at most 3 of 30 operations and 3 (4) of 13 operations on three documents; after each step the other documents are compared with what they were, and the target with the same step on freshly read documents.")

P("C09", "Resolving aliases puts the named content in place of each alias",
  "After aliases are resolved every alias has been replaced by the resolved content of the element its path names, with the draft alternates and attributes that content has, and nothing else has changed. "
  "Resolution ends for every graph of aliases, including loops and paths that lead nowhere, and resolving again changes nothing.",
  ["inputs"], "all graphs of aliases over the elements of a document, at every level and of any length, before or after edits",
  "The tests resolve one alias; the result depends on the order of resolution only for chains, shared targets, aliases inside a target and loops.",
  [L, M], [("resolution of aliases", L + ":Ldml.resolve_aliases"), ("lookup of the target", L + ":Ldml.find"), ("aliases while flattening", M + ":flattenlocale")],
  EX, "All graphs of aliases at three levels of three calendars, all chains, and all edits before and after resolution, against a reference resolver on plain trees.")

P("C10", "Collation imports are replaced by the rules they name, wherever those are",
  "Flattening a tailoring replaces each [import] by the flattened rules of the collation it names, found in the named locale or, failing that, along its fallback chain, and leaves all other text of the tailoring as it is. "
  "Circular imports and imports of missing locales end and lose no other rules.",
  ["inputs", "configurations"], "all graphs of imports between the collations of several locale files, all positions of an import in a tailoring, all language tags with -u-co- types",
  "The tests flatten one tailoring with one import; circular imports, repeated imports, text around an import and fallbacks for the named locale are not covered.",
  [L, M], [("flattening of tailorings", L + ":Ldml.flatten_collation"), ("locating an imported collation", M + ":flattenlocale")],
  EX, "All import graphs over 3 tailorings with text around them, and all distributions of imports over the collations of several files on disk, against a reference expansion.")

P("C11", "A list of exemplars survives being written as a Unicode set and read again",
  "Writing any list of characters and strings as a Unicode set and reading that gives the same members. "
  "ICU reads the same members from it.",
  ["inputs"], "all lists of characters and strings, including syntax characters, spaces, marks, characters beyond the BMP and strings of them",
  "The tests write a few sets of letters; members are lost for particular characters (backslash, brackets, spaces inside strings, marks at the ends of ranges) and their neighbours.",
  ["lib/sldr/UnicodeSets.py", "lib/sldr/ldml_exemplars.py"], [("writing of sets", "lib/sldr/UnicodeSets.py:list2us, _escape_us_syntax"), ("reading of sets", "lib/sldr/UnicodeSets.py:us2list, parse")],
  EX, "All lists of 1 to 3 (4) members of an alphabet of syntax characters, marks and strings, read back by the code and by ICU.")

P("C12", "A Unicode set pattern denotes the set Unicode defines for it",
  "Reading a pattern gives exactly the members that the Unicode definition of the syntax gives it: escapes, ranges, strings, complement, union, intersection, difference and nesting. "
  "A sequence of sets stands for exactly the concatenations of their members, in the order given and, reversed, backwards.",
  ["inputs"], "all patterns of characters, escapes, ranges, strings, operators and nested sets, and all sequences of them",
  "The tests read about a dozen patterns; precedence, nesting, escapes at range ends and operators next to nested sets interact.",
  ["lib/sldr/UnicodeSets.py"], [("parsing and set operations", "lib/sldr/UnicodeSets.py:parse, UnicodeSet"), ("sequences", "lib/sldr/UnicodeSets.py:flatten, UnicodeSetSequence")],
  EX, "All patterns up to a size, three levels of nesting and four operators deep, against an evaluator over the syntax tree, itself confirmed by ICU on every pattern ICU accepts; all sequences of 3 (4) items.")

K = "lib/sldr/collation.py"
P("C13", "Sort keys order words as the Unicode collation algorithm does",
  "Comparing the sort keys of two words gives at the primary, secondary and tertiary level the order that the Unicode collation algorithm gives them. "
  "Sort keys are totally ordered; equality, hashes, copies and concatenation agree with that order.",
  ["inputs"], "all pairs of words in canonical order over the characters of the DUCET whose weights CLDR leaves alone",
  "The tests compare three pairs of single characters; contractions, expansions and ignorable marks show only in combination.",
  [K], [("sort keys of words", K + ":ducetSortKey"), ("comparison", K + ":SortKey, diffLevel")],
  EX, "All pairs of the words of at most 2 of 19 and at most 3 of 5 (9) characters, against ICU at three strengths; all pairs of small keys, against comparison of stripped lists.")

P("C14", "A tailoring read and written again sorts all words as before",
  "The rules written for a tailoring sort every pair of words exactly as the tailoring itself does, at all three strengths, and so do they when read and written again, wrapped, or read in several parts. "
  "The tailored sort keys give the same order when no two resets insert at one position.",
  ["inputs", "histories"], "all tailorings of resets, resets before, relations, expansions, escapes and comments, read at once or in parts",
  "The tests compare rules with pinned text for a few whole alphabets; order is lost when resets share a base, use elements tailored earlier or later, or need escapes.",
  [K], [("reading rules", K + ":Collation.parse, unescape"), ("sort keys of tailored elements", K + ":CollElement.sortkey"), ("writing rules", K + ":Collation.asICU, escape")],
  EX, "All tailorings of up to 2 (3) resets of up to 2 elements, all spellings of 12 elements, expansions and partial reads; the original and the written rules are compiled by ICU and compared on all pairs of about 50 words.")

P("C15", "A sort order given as a list sorts in that order",
  "The tailoring made of a list of sort elements puts the elements of different lines in that order at the primary level, those within a line at the secondary, and those joined by / at the tertiary level. "
  "A digraph or letter listed in one case brings its other cases with it.",
  ["inputs"], "all lists of distinct elements, in any order relative to the root collation",
  "The tests pin the output for a dozen alphabets, after a lossy minimisation; the order in between, and lists that run against the root order, are not checked.",
  [K], [("conversion of lists", K + ":Collation.convertSimple, _insertBefore"), ("writing rules", K + ":Collation.asICU")],
  EX, "All ordered lists of at most 3 (4) of 13 items whose first is a single character, the rules compiled by ICU and each pair of elements compared at the level the list demands.")

X = "lib/sldr/ldml_exemplars.py"
P("C16", "The exemplars found in a text account for the text",
  "Every letter, digit, mark and punctuation character of the analysed text appears in exactly the exemplar set that its class, its frequency and the marks it is found with decide, ignorable characters and those of other scripts aside. "
  "The result does not depend on normalisation, case, the order of words, how the text is divided or how often it is read; exemplars given before are found as units.",
  ["inputs", "histories"], "all texts, divided into any parts, in any normalisation form and case, with any exemplars given before",
  "The tests analyse about forty short texts; clusters of several marks, nuktas, joiners, ignorable characters, digits and other scripts interact with each other and with the frequencies.",
  [X], [("segmentation into clusters", X + ":Exemplars.process"), ("separating marks from bases", X + ":Exemplars.analyze"), ("writing and sorting of sets", "lib/sldr/UnicodeSets.py:list2us")],
  EX, "All texts of at most 4 (5) of three alphabets of 12 or 13 characters, all sequences of 3 (4) clusters of letters and marks, all texts of 5 (6) characters with 6 sets of exemplars given before; the reference segments and classifies by ICU's properties.")

P("C17", "The command line tools give for every file what the library gives for it alone",
  "ldmlflatten, ldmlnormalize, ldmlmerge and cldrimport write for each file of a directory what the library operation gives for that file, whatever the other files are, including stubs, malformed files and files that are not LDML, and whatever the number of processes. "
  "They leave every other file as it was.",
  ["configurations", "inputs"], "all states of the files of a directory, all sets of options, one or several processes, output in place, elsewhere or to standard output",
  "No test runs a tool; errors concern combinations of options with a bad or missing neighbour, or output going elsewhere.",
  ["scripts/ldmlflatten", "scripts/ldmlnormalize", "scripts/ldmlmerge", "scripts/cldrimport"],
  [("flattening of a tree", "scripts/ldmlflatten"), ("normalisation of a tree", "scripts/ldmlnormalize"), ("merging of files", "scripts/ldmlmerge"), ("importing of CLDR", "scripts/cldrimport")],
  EX, "Every state of 3 or 4 files times all listed sets of options, the tool run in a scratch directory in a process of its own, and all files and its output compared with what the library, or a plain model of the import, gives.")

H = "lib/sldr/sheet.py"
P("C18", "A locale data sheet and the LDML made of it hold the same values",
  "Every filled cell of a sheet, in a simple row or in one of the four kinds of tables, becomes exactly the value at the path that its row and column name, and nothing else is written. "
  "A spreadsheet filled from LDML holds that LDML's values and converts back to them.",
  ["inputs"], "all sheets of simple rows and tables in any order, each cell filled or not, rows cut short, runs of cells stored once",
  "No test reads a sheet; rows that end early, cells stored as a run, tables that follow each other and values with quotes matter only in combination.",
  [H], [("reading of rows and tables", H + ":Sheet.process"), ("values to LDML", H + ":Sheet._action_ldml, _action2d_ldml"), ("values to the spreadsheet", H + ":Sheet._writeodsitem")],
  EX, "Every sequence of 3 (4) of 9 kinds of rows with every filling of the first cells as a table, and of 2 kinds as a spreadsheet, with and without runs; and LDML to spreadsheet and back; the reference builds the tree itself.")
LT, IA = "lib/sldr/langtags_full.py", "lib/sldr/iana.py"
P("C19", "Language tags mean what BCP 47 says, and tag tables lead each tag to its entry",
  "Every well-formed BCP 47 tag is read into its language, script, region, variants, extensions and private use, and written in canonical form; its forms are exactly those its hidden parts allow, and it matches them. "
  "Each tag of a table leads to the entry of its line or of the tag added, analysing a tag changes neither what it says nor the table, and registry records are read as written.",
  ["inputs", "histories"], "all well-formed tags in any spelling, all choices of hidden parts, all tables and orders of additions, all registry records",
  "There are no tests of language tags; misreadings show only for particular sequences of subtags (a script after an extended language, a variant that begins with a digit, single letters in private use).",
  [LT, IA], [("reading and writing tags", LT + ":LangTag.parse, __str__, _extensions"), ("forms and matching", LT + ":LangTag.allforms, matches"), ("tables", LT + ":LangTags.add, readAlltags, readIana"), ("registry", IA + ":Iana.parse")],
  EX, "Every tag with at most 5 (6) departures from a plain language in six spellings, all hidden parts, all tables of 2 (3) lines, all histories of 3 (4) additions, every line of the shipped table and every record of the registry; the reference is written from RFC 5646.")

KB = "lib/sldr/ldml_keyboard.py"
P("C20", "A keyboard layout gives after each key the text its file describes",
  "The text after each key is what the key maps, the transforms, the reorders and the backspaces of the file and of those it imports give for all that was typed: the key map is that of the modifiers held, in any order and case, with those marked optional held or not; "
  "simple and then final transforms replace the longest match whose context is there, rules that give an error leave the text as it was, and partial matches are held back where the file says so; between the two the reorders sort each run of a base and its marks; a backspace applies its longest rule or removes one character. "
  "Later keys change neither what earlier ones gave nor other layouts. The keyboard tester reports exactly the keys that give something else than expected.",
  ["inputs", "histories"], "all layouts of key maps, simple and final transforms, reorders and backspaces, with sets, complements, escapes and contexts, and all sequences of keys",
  "There are no tests of keyboards; the state kept between keys goes wrong only for rules that overlap, look ahead or follow one another, and for certain sequences of keys.",
  [KB, "lib/sldr/UnicodeSets.py", "scripts/kbdtest"], [("key maps and modifiers", KB + ":Keyboard.parse_modifiers, map_key"), ("transforms", KB + ":Keyboard._process_simple, Rules.match"), ("reorders", KB + ":Keyboard._process_reorder"), ("backspaces", KB + ":Keyboard._process_backspace"), ("what is kept between keys", KB + ":Context.results, clone")],
  EX, "All sets of at most 2 (3) rules of 8 with 5 results, with 8 contexts, with final rules and backspaces, partial matches shown or hidden, on all sequences of 5 (6) keys; all sets of 2 (3) reorders, alone, in context and with other rules, on 5 (6) keys; all sets of key maps with all sets of modifiers; the reference works everything out again from all that was typed.")
