L, M = "lib/sldr/ldml.py", "lib/sldr/ldml_merge.py"
HEAD = '''
import io, os, shutil, sys, tempfile
from sldr.ldml import Ldml
from sldr.ldml_merge import LdmlMerge, flattenlocale
def read(s, cls=Ldml, **kw):
    return cls(io.BytesIO(s.encode("utf-8")), **kw)
def write(d, **kw):
    out = []
    d.serialize_xml(out.append, **kw)
    return "".join(out)
'''

BUG("c01-trailing-comments", "C01", L,
    [("elem[-1].commentsafter = comments\n                    comments = []", "elem[-1].commentsafter = comments[-1:]\n                    comments = []")],
    "an element whose last child is followed by two or more comments",
    "all but the last of the comments that close an element are lost when the document is written",
    HEAD + '''
t = write(read("<ldml><layout><orientation/><!-- one --><!-- two --></layout></ldml>"))
sys.exit(0 if " one " in t and " two " in t else 1)
''')
BUG("c01-blank-values", "C01", L,
    [("        elif base.text:\n            if tag not in", "        elif base.text and not base.text.isspace():\n            if tag not in")],
    "a value that consists of nothing but a no-break space, as number separators do",
    "a value that is only a no-break space is written as an empty element",
    HEAD + '''
t = write(read('<ldml><numbers><symbols><group>\u00a0</group></symbols></numbers></ldml>'))
sys.exit(0 if "\u00a0" in t else 1)
''')
BUG("c02-unknown-values-tie", "C02", L,
    [('self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))', 'self.attribvals[x.tag][k].get(a, "{}".format(len(self.attribvals[x.tag][k]))))')],
    "siblings whose enumerated attribute has values the DTD does not list",
    "siblings with values outside the enumeration compare equal at first, and the order follows letter case instead of the value order",
    HEAD + '''
def doc(*n):
    return '<ldml><localeDisplayNames><languages/></localeDisplayNames><dates><calendars><calendar type="gregorian"><days><dayContext type="format"><dayWidth type="wide">' + "".join('<day type="%s" z="%s">x</day>' % x for x in n) + '</dayWidth></dayContext></days></calendar></calendars></dates></ldml>'
t = write(read(doc(("aa", "2"), ("bb", "1"))))
sys.exit(0 if t.find('"aa"') < t.find('"bb"') else 1)
''')
BUG("c03-stale-alternates", "C03", L,
    [("for c in list(n):\n                if hasattr(c, 'tempnode')", "for c in n:\n                if hasattr(c, 'tempnode')")],
    "a value with two or more draft alternates, and a second write or a lookup after the first write",
    "writing leaves every other alternate in the tree as an ordinary element, so values are found twice and later writes differ",
    HEAD + '''
d = read('<ldml><characters><exemplarCharacters draft="provisional">[a]</exemplarCharacters><exemplarCharacters alt="x" draft="tentative">[b]</exemplarCharacters><exemplarCharacters alt="y" draft="suspect">[c]</exemplarCharacters></characters></ldml>')
a = write(d)
sys.exit(0 if len(d.findall("characters/exemplarCharacters")) == 1 and write(d) == a else 1)
''')
BUG("c03-default-displaces", "C03", L,
    [("            if d < threshold:\n                res = k", "            if d <= threshold:\n                res = k")],
    "an alternate whose draft equals the draft the primary value is changed to",
    "changing the draft of a value makes an alternate with an equal draft the primary value",
    HEAD + '''
d = read('<ldml><characters><exemplarCharacters draft="contributed">[a]</exemplarCharacters><exemplarCharacters alt="x" draft="tentative">[b]</exemplarCharacters></characters></ldml>')
d.change_draft(d.find("characters/exemplarCharacters"), "tentative")
sys.exit(0 if d.find("characters/exemplarCharacters").text == "[a]" else 1)
''')
BUG("c04-last-match-parent", "C04", L,
    [("            parent = newcurr[0]\n", "            parent = newcurr[-1]\n")],
    "a path whose intermediate step matches several siblings while its last element is missing everywhere",
    "the missing element is created under the last match instead of the first",
    HEAD + '''
d = read('<ldml><dates><calendars><calendar type="a"/><calendar type="b"/></calendars></dates></ldml>')
e = d.ensure_path("dates/calendars/calendar/months")[0]
sys.exit(0 if e.parent.get("type") == "a" else 1)
''')
BUG("c04-quote-strip", "C04", L,
    [("attrs[self._reverselocalns(k[1:])] = v[1:-1]", "attrs[self._reverselocalns(k[1:])] = v.strip('\"\\'')")],
    "an attribute value that begins or ends with a quotation mark",
    "quotation marks at the edges of an attribute value in a path are dropped, so another element is found or created",
    HEAD + '''
d = read('<ldml/>')
e = d.ensure_path("""localeDisplayNames/types/type[@key="'x'"]""")[0]
sys.exit(0 if e.get("key") == "'x'" else 1)
''')
BUG("c05-flat-first", "C05", M,
    [("            return LdmlMerge(f, **kw)\n        f = os.path.join(d, lname[0].lower(), lname + '.xml')", "            return LdmlMerge(f, **kw)\n    for d in dirs:\n        f = os.path.join(d, lname[0].lower(), lname + '.xml')")],
    "two directories where the first keeps its files in alphabetic subdirectories and the second does not",
    "a file in a later directory wins over one in an earlier directory",
    HEAD + '''
w = tempfile.mkdtemp()
try:
    a, b = w + "/a", w + "/b"
    os.makedirs(a + "/e"); os.makedirs(b)
    open(a + "/e/en.xml", "w").write("<ldml><layout><orientation>first</orientation></layout></ldml>")
    open(b + "/en.xml", "w").write("<ldml><layout><orientation>second</orientation></layout></ldml>")
    open(b + "/en_GB.xml", "w").write("<ldml/>")
    l = flattenlocale("en_GB", [a, b])
    sys.exit(0 if l.find("layout/orientation").text == "first" else 1)
finally:
    shutil.rmtree(w)
''')
BUG("c05-scriptless-child", "C05", M,
    [("if os is None or os == ls:", "if os is None or ls is None or os == ls:")],
    "a locale that states no script whose ancestor states one",
    "values are inherited from an ancestor in another script",
    HEAD + '''
w = tempfile.mkdtemp()
try:
    open(w + "/az.xml", "w").write('<ldml><identity><language type="az"/><script type="Cyrl"/></identity><layout><orientation>x</orientation></layout></ldml>')
    open(w + "/az_IR.xml", "w").write('<ldml><identity><language type="az"/></identity></ldml>')
    l = flattenlocale("az_IR", [w])
    sys.exit(0 if l.find("layout/orientation") is None else 1)
finally:
    shutil.rmtree(w)
''')
