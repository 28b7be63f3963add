KB = "lib/sldr/ldml_keyboard.py"
KH = '''
import sys, os, tempfile
from sldr.ldml_keyboard import Keyboard
from xml.sax.saxutils import quoteattr
def T(kind, *rules):
    return '<transforms type="%s">%s</transforms>' % (kind, "".join("<transform %s/>" % " ".join("%s=%s" % (k, quoteattr(v)) for k, v in r.items()) for r in rules))
def typed(keys, *parts):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "k.xml")
        with open(p, "w", encoding="utf-8") as f:
            f.write("<keyboard><keyMap><map iso='a' to='a'/><map iso='b' to='b'/><map iso='c' to='c'/></keyMap>" + "".join(parts) + "</keyboard>")
        k = Keyboard(p)
    res = []
    for x in keys:
        res.append(str(k.process(x, [])))
    return res
'''
BUG("c20-shared-stables", "C20", KB,
    [("        res.stables = self.stables[:]\n", "        res.stables = self.stables\n")],
    "a key that a rule refuses, after part of the text has settled within the same layer",
    "the state kept after the last accepted key is changed by the refused key",
    KH + '''
r = T("simple", {"from": "ab", "to": "X"}, {"from": "c", "error": "fail"})
sys.exit(0 if typed("acb", r) == ["a", "*a*", "X"] else 1)
''')
BUG("c20-before-anywhere", "C20", KB,
    [("s[beg-len(m[0]):beg] == m[0]))", "m[0] in s[:beg]))")],
    "a rule with a before context that stands earlier in the text but not straight before",
    "the rule applies",
    KH + '''
r = T("simple", {"from": "b", "before": "a", "to": "X"})
sys.exit(0 if typed("acb", r)[-1] == "acb" else 1)
''')
BUG("c20-second-transforms", "C20", KB,
    [("        if transform not in self.transforms:\n            self.transforms[transform] = Rules(transform)", "        if transform not in self.transforms or element.tag == 'transforms':\n            self.transforms[transform] = Rules(transform)")],
    "two transforms elements of one type, or one imported",
    "only the rules of the last are kept",
    KH + '''
sys.exit(0 if typed("ab", T("simple", {"from": "a", "to": "X"}), T("simple", {"from": "b", "to": "Y"}))[-1] == "XY" else 1)
''')
BUG("c20-hidden-final", "C20", KB,
    [("            if not self._process_simple(ctxt, 'final', handleSettings=False):", "            if not self._process_simple(ctxt, 'final'):")],
    "partial matches hidden, and a final rule of several characters",
    "the first characters of a final rule are held back too",
    KH + '''
sys.exit(0 if typed("a", '<settings transformPartial="hide"/>', T("final", {"from": "ab", "to": "X"}))[-1] == "a" else 1)
''')
LT = "lib/sldr/langtags_full.py"
BUG("c20-after-partial", "C20", KB,
    [("s[end:end+len(m[1])] == m[1]))", "s[end:end+len(m[1])] == m[1]) \\\n            or m[1].startswith(s[end:]) and end < len(s) and m[1] + m[0] == m[1])")],
    "a rule with a context after it of two or more characters, of which only the first have been typed",
    "the rule applies before its context is complete",
    KH + '''
r = T("simple", {"from": "a", "after": "bc", "to": "X"})
sys.exit(0 if typed("abb", r) == ["a", "ab", "abb"] and typed("abc", r) == ["a", "ab", "Xbc"] else 1)
''')
BUG("c20-shortest", "C20", KB,
    [("                if newlast is not None:\n                    lastind = ind", "                if newlast is not None and (last is None or newlast is curr):\n                    lastind = ind")],
    "a rule and a longer rule with a context that begin alike",
    "the shorter rule applies although the longer one's context is there",
    KH + '''
r = T("simple", {"from": "a", "to": "X"}, {"from": "ab", "before": "c", "to": "Y"})
sys.exit(0 if typed("cab", r)[-1] == "cY" and typed("ab", r)[-1] == "Xb" else 1)
''')
BUG("c20-tertiary-order", "C20", KB,
    [("SortKey(currprimary, currbaseindex, c.tertiary, curr", "SortKey(c.primary or currprimary, currbaseindex, c.tertiary, curr")],
    "a reorder that gives a character a tertiary weight and an order",
    "the character is sorted by its own order and not with its base",
    KH + '''
r = '<reorders><reorder from="b" order="10" tertiary_base="true"/><reorder from="c" order="20" tertiary="1"/></reorders>'
sys.exit(0 if typed("abbc", r)[-1] == "abbc" and typed("acb", r)[-1] == "acb" else 1)
''')
C = "lib/sldr/collation.py"
BUG("c14-increment", "C14", C,
    [("inc = 1. / pow(10, int(log10((numbefores + 1) * len(self)))+1)", "inc = 1. / pow(10, int(log10(numbefores + len(self)))+1)")],
    "a long run of elements after a letter and an element before the letter that is next in the root order",
    "the sort key of the last elements of the run comes after that of the one before the next letter",
    '''
import sys
from sldr.collation import Collation
c = Collation()
c.parse("&\\u05d0 < \\u03b1 < \\u03b2 < \\u03b3 < \\u03b4 < \\u03b5 < \\u03b6 < \\u03b7\\n&[before 1]\\u05d1 < \\u03c9")
sys.exit(0 if c.sortKey("\\u03b7") < c.sortKey("\\u03c9") < c.sortKey("\\u05d1") else 1)
''')
BUG("c19-script-kept", "C19", LT,
    [("            self.script = oldscript\n            return False", "            return False")],
    "a tag without a script compared with one that has a script and another region",
    "the tag takes the script of a tag it is not merged with",
    '''
import sys
from sldr.langtags_full import LangTag
a = LangTag(lang="sr", region="RS")
a.merge_equivalent(LangTag(lang="sr", script="Latn", region="ME"))
sys.exit(0 if a.script is None else 1)
''')
BUG("c19-one-subtag", "C19", LT,
    [("                    self.extensions[k] = v[:]", "                    self.extensions[k] = v[:1]")],
    "a tag merged with one that has an extension of several subtags",
    "all but the first subtag of the extension are lost",
    '''
import sys
from sldr.langtags_full import LangTag
a = LangTag(lang="de")
a.merge_equivalent(LangTag(lang="de", extensions={"u": ["co", "phonebk"]}))
sys.exit(0 if a.extensions["u"] == ["co", "phonebk"] else 1)
''')
