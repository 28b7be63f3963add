LT, IA = "lib/sldr/langtags_full.py", "lib/sldr/iana.py"
BUG("c19-no-variants", "C19", LT,
    [("        if self.variants != other.variants : return False", "        if other.variants and self.variants != other.variants : return False")],
    "a tag with variants compared with a tag that has none",
    "de-1996 matches de",
    '''
import sys
from sldr.langtags_full import LangTag
sys.exit(1 if LangTag(lang="sl", variants=["rozaj"]).matches(LangTag(lang="sl")) else 0)
''')
BUG("c19-hidden-extension", "C19", LT,
    [("                removes = powerset([(k, x) for k, v in self.hideextensions.items() for x in v])", "                removes = [set([(k, x)]) for k, v in self.hideextensions.items() for x in v] + [set()]")],
    "a tag with two or more hidden extension subtags",
    "the forms that leave out several hidden extension subtags at once are missing",
    '''
import sys
from sldr.langtags_full import LangTag
t = LangTag(lang="de", extensions={"u": ["co", "phonebk"]})
t.hideextensions = {"u": ["co", "phonebk"]}
sys.exit(0 if "de" in t.allforms() else 1)
''')
BUG("c19-lost-third", "C19", IA,
    [("                elif f in currtag:\n                    if not isinstance(currtag[f], list):\n                        currtag[f] = [currtag[f]]\n                    currtag[f].append(v)", "                elif f in currtag:\n                    if not isinstance(currtag[f], list):\n                        currtag[f] = [currtag[f]]\n                    currtag[f][1:] = [v]")],
    "a record with three fields of one name",
    "the second of three descriptions or prefixes is lost",
    '''
import sys, tempfile, os
from sldr.iana import Iana
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "r")
    open(p, "w").write("%%\\nType: variant\\nSubtag: rozaj\\nPrefix: a\\nPrefix: b\\nPrefix: c\\n")
    sys.exit(0 if Iana(p).variant["rozaj"]["prefix"] == ["a", "b", "c"] else 1)
''')
BUG("c19-add-shared", "C19", LT,
    [("                if k not in self.extensions:\n                    self.extensions[k] = v[:]", "                self.extensions[k] = v[:]"), ("            if v.merge_equivalent(tag):\n                tag = v", "            if v.merge_equivalent(tag) or v.script == tag.script:\n                tag = v")],
    "a tag added whose forms include one of an entry in the same script and another region",
    "the added tag's own forms lead to an entry for another region",
    '''
import sys, tempfile, os
from sldr.langtags_full import LangTag, LangTags
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "t")
    open(p, "w").close()
    T = LangTags(alltags=p)
    for r in ("DE", "FR"):
        t = LangTag(lang="aa", script="Latn", region=r)
        t.hideregion = True
        T.add(t)
    sys.exit(0 if T["aa-Latn-FR"].region == "FR" else 1)
''')
