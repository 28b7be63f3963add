L, M, U, K = "lib/sldr/ldml.py", "lib/sldr/ldml_merge.py", "lib/sldr/UnicodeSets.py", "lib/sldr/collation.py"
HEAD = '''
import io, os, shutil, sys, tempfile
from sldr.ldml import Ldml
from sldr.ldml_merge import LdmlMerge, flattenlocale
def read(s, cls=LdmlMerge, **kw):
    return cls(io.BytesIO(s.encode("utf-8")), **kw)
def write(d, **kw):
    out = []
    d.serialize_xml(out.append, **kw)
    return "".join(out)
'''
BUG("c09-insert-position", "C09", L,
    [("                    this.insert(i+count, res)\n                    count += 1", "                    this.insert(i+count, res)")],
    "an alias whose target has several children",
    "the children an alias is replaced with arrive in reverse order, among the siblings",
    HEAD + '''
d = read('<ldml><dates><calendars><calendar type="a"><alias source="locale" path="../calendar[@type=\\'b\\']"/></calendar><calendar type="b"><months><monthContext type="format"/></months><days><dayContext type="format"/></days><eras><eraNames/></eras></calendar></calendars></dates></ldml>')
d.resolve_aliases()
a, b = d.root[0][0]
sys.exit(0 if [x.tag for x in a] == [x.tag for x in b] else 1)
''')
BUG("c10-import-fallback-collation", "C10", M,
    [("        collmap = {'phonebk' : 'phonebook'}", "        collmap = {'phonebk' : 'phonebook', 'trad' : 'traditional', 'std' : 'standard', 'search' : 'standard'}")],
    "an import of a search collation",
    "importing the search collation brings in the standard one",
    HEAD + '''
t = tempfile.mkdtemp()
try:
    open(t + "/de.xml", "w").write('<ldml><collations><collation type="standard"><cr>&amp;a &lt; s</cr></collation><collation type="search"><cr>&amp;a &lt; q</cr></collation></collations></ldml>')
    open(t + "/fr.xml", "w").write('<ldml><collations><collation type="standard"><cr>[import de-u-co-search]</cr></collation></collations></ldml>')
    r = write(flattenlocale("fr", [t], flattencollation=True))
finally:
    shutil.rmtree(t)
sys.exit(0 if "q" in r.split("<cr>")[1] else 1)
''')
BUG("c12-negative-members", "C12", U,
    [("        if self.negative:\n            return set()\n        res = set()", "        res = set()")],
    "the flattened form of a complement",
    "a complement is flattened to the characters it excludes",
    '''
import sys
from sldr.UnicodeSets import parse
sys.exit(0 if parse("[^ab]")[0].asSet() == set() else 1)
''')
BUG("c12-simple-escapes", "C12", U,
    [("    'v' : \"\\u000B\",\n", "    'v' : \"\\u000B\",\n    'e' : \"\\u001B\",\n    's' : \" \",\n")],
    "an escaped letter s in a set",
    "\\s is read as a space",
    '''
import sys
from sldr.UnicodeSets import us2list
sys.exit(0 if set(us2list("[\\\\s]")) == {"s"} else 1)
''')
BUG("c14-secondary-before", "C14", K,
    [("+= inc if not self.before or self.before != self.level else -beforeshift ", "+= inc if not self.before or self.before > 1 else -beforeshift ")],
    "a reset before a character at the secondary or tertiary level",
    "the sort key of an element placed before another at the second or third level puts it after",
    '''
import sys
from sldr.collation import Collation
c = Collation()
c.parse("&[before 2]b << x")
c._setSortKeys()
sys.exit(0 if c.sortKey("x") < c.sortKey("b") else 1)
''')
BUG("c14-expansion-escape", "C14", K,
    [('                res += "/" + escape(v.exp)', '                res += "/" + v.exp')],
    "an expansion that holds a character of the rule syntax",
    "a syntax character in an expansion is written without its escape",
    '''
import sys
from sldr.collation import Collation
c = Collation()
c.parse("&a < x / \\\\&")
d = Collation()
d.parse(c.asICU())
sys.exit(0 if set(d) == {"x"} and d["x"].exp == "&" else 1)
''')

BUG("c07-alternate-clash", "C07", M,
    [("            elif other.alternates[k].contentHash != balt[k].contentHash:\n", "            elif other.alternates[k].contentHash != balt[k].contentHash and other.alternates[k].contentHash == target.alternates[k].contentHash:\n")],
    "the other side changes the text of a draft alternate and we change the value it is an alternate of",
    "a change the other side made to an alternate is not taken over",
    HEAD + '''
X = '<ldml><characters><exemplarCharacters draft="contributed">[%s]</exemplarCharacters><exemplarCharacters alt="proposed" draft="tentative">[%s]</exemplarCharacters></characters></ldml>'
t, o, b = read(X % ("x", "b")), read(X % ("a", "c")), read(X % ("a", "b"))
t.merge(o, b)
sys.exit(0 if "[c]" in write(t) else 1)
''')
BUG("c07-attribute-added", "C07", M,
    [("            elif base is not None and k in base.attrib:                        # o deleted it", "            elif base is None or k not in base.attrib or base.get(k) == this.get(k):                        # o deleted it")],
    "we add an attribute that does not tell elements apart to a container that both sides change below",
    "an attribute only our side added is removed in a merge",
    HEAD + '''
X = '<ldml><dates><calendars><calendar type="gregorian"><eras%s><eraNames><era type="0">%s</era><era type="1">%s</era></eraNames></eras></calendar></calendars></dates></ldml>'
t, o, b = read(X % (' zz="R1"', "x", "b")), read(X % ("", "a", "y")), read(X % ("", "a", "b"))
t.merge(o, b)
sys.exit(0 if 'zz="R1"' in write(t) else 1)
''')
BUG("c07-new-attribute", "C07", M,
    [("            if base is None or k not in base.attrib or base.get(k) != other.get(k):\n", "            if base is None or (k in base.attrib and base.get(k) != other.get(k)):\n")],
    "the other side adds an attribute to a container that both sides change below",
    "an attribute only the other side added is lost in a merge",
    HEAD + '''
X = '<ldml><dates><calendars><calendar type="gregorian"><eras%s><eraNames><era type="0">%s</era><era type="1">%s</era></eraNames></eras></calendar></calendars></dates></ldml>'
t, o, b = read(X % ("", "x", "b")), read(X % (' zz="R1"', "a", "y")), read(X % ("", "a", "b"))
t.merge(o, b)
sys.exit(0 if 'zz="R1"' in write(t) else 1)
''')
BUG("c08-keys-remembered", "C08", L,
    [("        base.contentHash.merge(base.attrHash)               #   and keying hash", "        base.contentHash.merge(base.attrHash)               #   and keying hash\n        self.keys.update(k for k in base.keys() if k in self.keyContexts.get(base.tag, ()) and k in ('level', 'open'))"), ],
    "a document with an attribute that tells one kind of element apart is read before a merge of documents where it is a plain attribute of another",
    "what tells elements apart depends on which documents the process has read before",
    HEAD + '''
Q = '<ldml xmlns:sil="urn://www.sil.org/ldml/0.1"><delimiters><special><sil:quotation-marks><sil:quotation level="1" open="a"/></sil:quotation-marks></special></delimiters></ldml>'
X = '<ldml><localeDisplayNames><languages><language type="aa" level="%s">A</language></languages></localeDisplayNames></ldml>'
def m():
    a = read(X % "1")
    a.overlay(read(X % "2"))
    return write(a)
one = m()
read(Q)
sys.exit(0 if m() == one else 1)
''')
BUG("c13-long-contractions", "C13", K,
    [("    i = len(k)\n    singlechar = False", "    i = min(len(k), 2)\n    singlechar = False")],
    "a word that begins with a contraction of three characters",
    "contractions of three characters at the start of a word get the keys of their parts",
    '''
import sys
from sldr.collation import Collation
c = Collation()
k = max(c.ducet, key=len)
k = next(x for x in sorted(c.ducet) if len(x) == 3)
sys.exit(0 if c.getSortKey(k)[0] == [x[0] for x in c.ducet[k] if x[0]] else 1)
''')
BUG("c14-at-sign", "C14", K,
    [("""    escs = '!"#$%&()*+,-./:;<=>?@[\\\\]^_`{|}~'""", """    escs = '!"#$%&()*+,-./:;<=>?[\\\\]^_`{|}~'""")],
    "a tailored @",
    "an @ is written unescaped, which makes accents sort backwards instead",
    '''
import sys, icu
from sldr.collation import Collation
c = Collation()
c.parse("&a < \\\\@")
try:
    r = icu.RuleBasedCollator(c.asICU())
    ok = r.compare("a", "@") < 0 and r.compare("@", "b") < 0
except icu.ICUError:
    ok = False
sys.exit(0 if ok else 1)
''')
BUG("c14-long-elements", "C14", K,
    [("        k = k[i:]\n        i = len(k)", "        k = k[i:]\n        i = min(len(k), 3)")],
    "a tailored element of four characters that does not begin a word",
    "a tailored element of four or more characters is only found at the start of a word",
    '''
import sys
from sldr.collation import Collation
c = Collation()
c.parse("&a < ngby")
sys.exit(0 if c.sortKey("xngby") < c.sortKey("xb") else 1)
''')
BUG("c15-upper-alone", "C15", K,
    [("                        slashItems.append(s.upper() if s == s.lower() else s.lower())", "                        slashItems.append(s.upper())")],
    "a letter listed in upper case only",
    "the lower case of a letter listed in upper case only is not tailored with it",
    '''
import sys
from sldr.collation import Collation
c = Collation()
c.convertSimple(["a", "x", "D"])
sys.exit(0 if "d" in c else 1)
''')
