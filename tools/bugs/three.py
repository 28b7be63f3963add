L, M, U, K, D = "lib/sldr/ldml.py", "lib/sldr/ldml_merge.py", "lib/sldr/UnicodeSets.py", "lib/sldr/collation.py", "lib/sldr/ducet.py"
HEAD = '''
import io, os, shutil, sys, tempfile
from sldr.ldml import Ldml
from sldr.ldml_merge import LdmlMerge, flattenlocale
def read(s, cls=LdmlMerge, **kw):
    return cls(io.BytesIO(s.encode("utf-8")), **kw)
def write(d, **kw):
    out = []
    d.serialize_xml(out.append, **kw)
    return "".join(out)
'''
BUG("c08-shared-keys", "C08", L,
    [("        distkeys = set(self.keys)\n        if tag in self.nonkeyContexts:", "        distkeys = self.keys\n        if tag in self.nonkeyContexts:")],
    "the path of an element whose keys differ from the general ones, then that of another element",
    "asking for the path of one element changes the keys of all the others, in every document",
    HEAD + '''
X = '<ldml><dates><calendars><calendar type="gregorian"><months><monthContext type="format"><monthWidth type="wide"><month type="1" draft="draft">x</month></monthWidth></monthContext></months></calendar></calendars></dates><characters><exemplarCharacters type="index" id="q">[a]</exemplarCharacters></characters></ldml>'
def paths(d):
    return [d.as_xpath(e) for e in d.root.iter()]
d = read(X, Ldml)
a = [dict(x) and sorted(Ldml.keys) for x in [{1: 2}]][0]
p = paths(d)
sys.exit(0 if paths(d) == p and sorted(Ldml.keys) == a else 1)
''')
BUG("c08-two-alternates", "C08", L,
    [("            for c in list(n):\n                if hasattr(c, 'tempnode')", "            for c in n:\n                if hasattr(c, 'tempnode')")],
    "an element with two alternates, written twice",
    "writing a document leaves one of the alternates among the children, it is there twice when written again",
    HEAD + '''
X = '<ldml><characters><exemplarCharacters>[a]</exemplarCharacters><exemplarCharacters alt="proposed-a" draft="tentative">[b]</exemplarCharacters><exemplarCharacters alt="proposed-b" draft="tentative">[c]</exemplarCharacters></characters></ldml>'
d = read(X)
a = write(d)
sys.exit(0 if write(d) == a else 1)
''')
BUG("c09-same-target", "C09", L,
    [("                _cache.remove(children[0])\n", "")],
    "an element with two aliases, the second one to what the first one led to by another alias",
    "the second alias is taken for a loop and what it stands for is missing",
    HEAD + '''
X = """<ldml><dates><calendars><calendar type="a"><months><alias source="locale" path="../../calendar[@type='b']/months"/></months><days><alias source="locale" path="../../calendar[@type='b']/months"/></days></calendar><calendar type="b"><months><monthContext type="format"/></months></calendar></calendars></dates></ldml>"""
Y = """<ldml><dates><calendars><calendar type="a"><alias source="locale" path="../calendar[@type='b']"/><alias source="locale" path="../calendar[@type='c']"/></calendar><calendar type="b"><alias source="locale" path="../calendar[@type='c']"/></calendar><calendar type="c"><days><dayContext type="format"/></days></calendar></calendars></dates></ldml>"""
d = read(Y, usedrafts=False)
d.resolve_aliases()
sys.exit(0 if len(d.root[0][0][0]) == 2 and "alias" not in write(d) else 1)
''')
BUG("c09-moved-nodes", "C09", L,
    [("                    res = self._copynode(res, parent=this)\n", "                    res.parent = this\n")],
    "an alias, and a change of one of the two places that then hold the same",
    "what an alias is replaced with is the target itself: its path is another one and changes of one are changes of both",
    HEAD + '''
X = """<ldml><dates><calendars><calendar type="a"><alias source="locale" path="../calendar[@type='b']"/></calendar><calendar type="b"><months><monthContext type="format"/></months></calendar></calendars></dates></ldml>"""
d = read(X)
d.resolve_aliases()
a, b = d.root[0][0]
b[0].set("numbers", "x")
sys.exit(0 if a[0].get("numbers") is None and "'b'" in d.as_xpath(b[0]).replace('"', "'") else 1)
''')
C11 = """
import sys
from sldr.UnicodeSets import list2us, us2list
class Ucd:
    def need_hex_escape(self, c, i): return i and ord(c) in (0x301, 0x1d165, 0x10a01, 0x1e8d0)
for l in (["a ", "b"], [" ", "a"], ["\\u3000x"], [" x "], ["\\u0301", "a\\u0301"], ["\\U0001d165"], ["\\U00010a01", "1"], ["\\U0001e8d0", "a"], ["a\\U00010a01"], ["\\U00010a01\\u0301"]):
    if set(us2list(list2us(l, Ucd()))) != set(l): sys.exit(1)
"""
BUG("c11-blank-string", "C11", U,
    [("    if len(text) > 1:\n", "    if len(text.strip()) > 1:\n")],
    "a string of one character and blanks",
    "a string of a character and a space is written as two members",
    C11)
