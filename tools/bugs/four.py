X, H = "lib/sldr/ldml_exemplars.py", "lib/sldr/sheet.py"
T16 = '''
import sys
from sldr.ldml_exemplars import Exemplars
def found(*texts, **kw):
    x = Exemplars()
    for k, v in kw.items():
        setattr(x, k, v)
    for t in texts:
        x.process(t)
    x.analyze()
    return x
'''
BUG("c16-joiner", "C16", X,
    [("                    length += 1\n                    trailers += trailer\n                    break\n", "                    length += 1\n                    trailers += trailer\n                    continue\n")],
    "a zero width non-joiner followed by a mark that is no matra",
    "marks after a zero width non-joiner become part of the letter before it",
    T16 + '''
sys.exit(0 if found("\\u0915\\u200c\\u0301").main == found("\\u0915\\u200c").main else 1)
''')
BUG("c16-one-case", "C16", X,
    [("            if Char.isUUppercase(pre_casing) and base+trailers not in self.uppercase_chars:", "            if Char.isUUppercase(pre_casing) and base not in self.uppercase_chars:")],
    "a letter with a mark in upper case after the same letter in upper case without it",
    "a letter found in both cases is reported as found in lower case only",
    T16 + '''
sys.exit(0 if found("A a \\u00c1 \\u00e1").non_casing_chars == {} else 1)
''')
T17 = '''
import os, shutil, subprocess, sys, tempfile
D = tempfile.mkdtemp()
STUB = {"langtag.py": """
class T:
    script, region = "Latn", "US"
def lookup(tag, *a, **k):
    if tag == "en":
        return T()
    raise KeyError(tag)
"""}
def put(p, s):
    p = os.path.join(D, p)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w", encoding="utf-8") as f:
        f.write(s)
    return p
def get(p):
    p = os.path.join(D, p)
    return open(p, encoding="utf-8").read() if os.path.exists(p) else None
def run(tool, *args):
    put("stub/langtag.py", STUB["langtag.py"])
    return subprocess.run([sys.executable, os.path.join("scripts", tool)] + list(args), env=dict(os.environ, PYTHONPATH=os.environ["PYTHONPATH"] + ":" + os.path.join(D, "stub")), capture_output=True, text=True)
def done(ok):
    shutil.rmtree(D)
    sys.exit(0 if ok else 1)
def doc(l, rest=""):
    return "<ldml><identity><version number='1'/><language type='%s'/></identity>%s</ldml>" % (l, rest)
'''
BUG("c17-single-stubs", "C17", "scripts/ldmlflatten",
    [("                                 skipstubs=args.skipstubs, flattencollation=True,\n", "                                 flattencollation=True,\n")],
    "--single together with --skipstubs and a file with nothing but an identity",
    "stubs are written by ldmlflatten although they are to be left out",
    T17 + '''
put("in/en.xml", doc("en"))
put("in/fr.xml", doc("fr", "<characters><exemplarCharacters>[a]</exemplarCharacters></characters>"))
r = run("ldmlflatten", "-i", D + "/in", "-o", D + "/out", "-s", "--skipstubs")
done(get("out/en.xml") is None and get("out/fr.xml"))
''')
BUG("c17-nested-ldml", "C17", "scripts/ldmlnormalize",
    [('                if fi.endswith(".xml") or fi.endswith(".ldml"):', '                if fi.endswith(".xml"):')],
    "a file called .ldml in a directory of the tree",
    "ldmlnormalize leaves out .ldml files in directories",
    T17 + '''
put("in/e/en.ldml", doc("en"))
run("ldmlnormalize", D + "/in", D + "/out")
done(get("out/e/en.ldml"))
''')
BUG("c17-cldr-extras", "C17", "scripts/cldrimport",
    [("lagen = lookup('en')        # load the langtags module to share with subprocesses\n", "lagen = lookup('en')        # load the langtags module to share with subprocesses\nextras = {}\n"), ("        extras = {}\n", "")],
    "one process, and a locale without a language tag after one with",
    "cldrimport gives a locale unknown to the language tags the script and region of another",
    T17 + '''
for l in ("en", "xa", "xb", "xc", "xd", "xe", "xf", "xg", "xh"):
    put("in/main/%s.xml" % l, doc(l))
r = run("cldrimport", D + "/in", D + "/out", "-s")
done(all("Latn" not in get("out/x/x%s.xml" % c) for c in "abcdefgh"))
''')
BUG("c17-merge-comments", "C17", "scripts/ldmlmerge",
    [("default=args.default, copycomments=args.copycomments)", "default=args.default)")],
    "--copycomments, and a comment only the other file has",
    "ldmlmerge does not copy the comments it is asked to copy",
    T17 + '''
E = "%s<characters><exemplarCharacters>[a]</exemplarCharacters></characters>"
a, b, c = put("a.xml", doc("en", E % "")), put("b.xml", doc("en", E % "<!-- said -->")), put("c.xml", doc("en", E % "<!-- said -->"))
r = run("ldmlmerge", "-C", "other", "-o", D + "/o.xml", a, b, c)
done("said" in (get("o.xml") or ""))
''')
T18 = '''
import os, shutil, sys, tempfile
from sldr.sheet import Sheet
from odf.opendocument import OpenDocumentSpreadsheet
from odf.table import Table, TableColumn, TableRow, TableCell
from odf.text import P
D = tempfile.mkdtemp()
def ods(name, rows):
    doc = OpenDocumentSpreadsheet()
    t = Table(name="Core")
    t.addElement(TableColumn(numbercolumnsrepeated="5"))
    for r in rows:
        tr = TableRow()
        i = 0
        while i < len(r):
            n = 1
            while i + n < len(r) and r[i + n] == r[i]:
                n += 1
            c = TableCell(**({"numbercolumnsrepeated": str(n)} if n > 1 else {}))
            if r[i]:
                c.addElement(P(text=r[i]))
            tr.addElement(c)
            i += n
        tr.addElement(TableCell(numbercolumnsrepeated="1000"))
        t.addElement(tr)
    doc.spreadsheet.addElement(t)
    doc.save(os.path.join(D, name))
    return os.path.join(D, name)
def ldml(**kw):
    s = Sheet(**kw)
    s.process()
    s.writeldml(D + "/o.xml")
    return s.ldml
def texts(l):
    return sorted(e.text for e in l.root.iter() if e.text and e.text.strip())
def done(ok):
    shutil.rmtree(D)
    sys.exit(0 if ok else 1)
MONTH = 'table2d(dates/calendars/calendar[@type="gregorian"]/months/monthContext[@type="format"]/monthWidth[@type="$col"]/month[@type="$row"])'
ZONE = 'table2dx(dates/timeZoneNames/zone[@type="$row"]/exemplarCity,dates/timeZoneNames/metazone[@type="$row"]/long/standard,dates/timeZoneNames/metazone[@type="$row"]/long/generic)'
'''
BUG("c18-runs", "C18", H,
    [("                        if repcount < 10: # avoid", "                        if repcount < 3: # avoid")],
    "a run of three or more equal cells, followed by another",
    "values after a run of empty cells are taken for those of other columns",
    T18 + '''
r = [["Core data"], ["", MONTH, "Months", "wide", "abbreviated", "narrow", "x"], ["", "1", "J", "same", "same", "same", "end"], [""] * 7]
l = ldml(odsfile=ods("a.ods", r))
done(texts(l) == ["end", "same", "same", "same"])
''')
BUG("c18-gaps", "C18", H,
    [("            dataitem = datarow[colnum + 2]\n            if dataitem != \"\":\n                self._writeldmlitem(p1[colnum] + rowitem + p2[colnum], datarow[colnum + 2])", "            dataitem = datarow[colnum + 2]\n            if dataitem == \"\": return\n            self._writeldmlitem(p1[colnum] + rowitem + p2[colnum], dataitem)")],
    "a time zone with an empty cell before a filled one",
    "the values after an empty cell of a zone are lost",
    T18 + '''
r = [["Core data"], ["", ZONE, "Zone", "City", "Standard", "Generic"], ["", "", "Asia/Tokyo", "T", "", "G"], [""] * 7]
l = ldml(odsfile=ods("a.ods", r))
done(texts(l) == ["G", "T"])
''')
BUG("c18-run-split", "C18", H,
    [("            c.setAttribute('numbercolumnsrepeated', '1')\n", "")],
    "a spreadsheet with a run of empty cells, the first of which is filled from LDML",
    "the value is there once for every cell of the run, and becomes that of other columns",
    T18 + '''
f = ods("a.ods", [["Core data"], ["", MONTH, "Months", "wide", "abbreviated", "narrow"], ["", "1", "J", "", "", ""], [""] * 6])
with open(D + "/i.xml", "w") as o:
    o.write("<ldml><dates><calendars><calendar type='gregorian'><months><monthContext type='format'><monthWidth type='wide'><month type='1'>a</month></monthWidth></monthContext></months></calendar></calendars></dates></ldml>")
s = Sheet(odsfile=f, ldmlfile=D + "/i.xml")
s.process()
s.writeods(D + "/o.ods")
done(texts(ldml(odsfile=D + "/o.ods")) == ["a"])
''')
