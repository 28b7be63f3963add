"""C18: every filled cell of a locale data sheet becomes the value its row and column name, and back."""
import os, shutil
from mc import core, subj
from mc.xmlmodel import N, SIL, read, write, canon, diff

ASSUMPTIONS = ["a blank row ends a table; cells hold plain text in one paragraph without double quotes in names; no path is given twice with different values",
               "sheets are named Core, Posix, Minimal or Basic; the first column is not read"]
LANG = 'localeDisplayNames/languages/language[@type="%s"]'
MONTH = 'dates/calendars/calendar[@type="gregorian"]/months/monthContext[@type="format"]/monthWidth[@type="%s"]/month[@type="%s"]'
CUR = 'numbers/currencies/currency[@type="%s"]/%s'
ZONE = 'dates/timeZoneNames/zone[@type="%s"]/exemplarCity'
META = 'dates/timeZoneNames/metazone[@type="%s"]/long/%s'


def fill(t, row, col=None):
    t = t.replace("$row", row)
    return t.replace("$col", col) if col else t


# a block: rows of cells; a cell is text or V (to be filled), and what V stands for: (path, attribute or None)
class V:
    def __init__(self, path, attr=None):
        self.path, self.attr = path, attr


def table2(kind, tmpl, rows, cols):
    return [[kind + "(" + tmpl + ")", "label"] + cols] + [[r, "label"] + [V(fill(tmpl, r, c)) for c in cols] for r in rows]


BLOCKS = {
    "plain": [[LANG % "aa", "Afar", V(LANG % "aa")]],
    "plain2": [["numbers/defaultNumberingSystem", "", V("numbers/defaultNumberingSystem")]],
    "attr": [["identity/version[@number]", "Version", V("identity/version", "number")]],
    "slash": [[ZONE % "America/New_York", "NY", V(ZONE % "America/New_York")]],
    "1d": [['table1d(localeDisplayNames/territories/territory[@type="$row"])', "Territories", ""]] + [[r, "", V('localeDisplayNames/territories/territory[@type="%s"]' % r)] for r in ("US", "GB")],
    "2d": table2("table2d", MONTH % ("$col", "$row"), ["1", "2"], ["wide", "abbreviated"]),
    "2dr": table2("table2dr", CUR % ("$row", "$col"), ["USD", "EUR"], ["displayName", "symbol"]),
    "2dx": [["table2dx(" + ZONE % "$row" + "," + META % ("$row", "standard") + "," + META % ("$row", "generic") + ")", "Zone", "City", "Standard", "Generic"]] +
           [["", r, V(ZONE % r), V(META % (r, "standard")), V(META % (r, "generic"))] for r in ("Africa/Lagos", "Asia/Tokyo")],
    "note": [["", "some heading"]],
}


def cells(block):
    return [c for row in block for c in row if isinstance(c, V)]


def put(root, path, attr, value):
    """own reading of the paths above"""
    cur = root
    p, steps = "", []
    depth = 0
    for c in path:
        if c == "/" and not depth:
            steps.append(p)
            p = ""
            continue
        depth += (c == "[") - (c == "]")
        p += c
    steps.append(p)
    for i, s in enumerate(steps):
        attrs = {}
        if "[" in s:
            s, a = s[:-1].split("[@")
            k, v = a.split("=", 1)
            attrs[k] = v[1:-1]
        if attr and i == len(steps) - 1:
            attrs[attr] = value
        nxt = [k for k in cur.kids if k.tag == s and k.attrs == attrs]
        if not nxt:
            nxt = [N(s, attrs)]
            cur.kids += nxt
        cur = nxt[0]
    if not attr:
        cur.text = value


def rows_of(picked, values):
    return fill_rows([BLOCKS[b] for b in picked], values)


def fill_rows(blocks, values):
    rows, root, i = [["Locale data"]], N("ldml"), 0
    for b in blocks:
        for row in b:
            out = [""]
            for c in row:
                if isinstance(c, V):
                    v = values[i]
                    i += 1
                    if v:
                        put(root, c.path, c.attr, v)
                    c = v
                out.append(c)
            rows.append(out)
        rows.append([""] * 6)
    return rows, root


def short(rows):
    """as a spreadsheet leaves out the empty cells at the end of a row"""
    out = []
    for r in rows:
        r = list(r)
        while r and not r[-1]:
            r.pop()
        out.append(r)
    return out


def ods(path, rows, runs):
    from odf.opendocument import OpenDocumentSpreadsheet
    from odf.table import Table, TableColumn, TableRow, TableCell
    from odf.text import P
    doc = OpenDocumentSpreadsheet()
    for name, rs in (("Core", rows), ("Other", [["", LANG % "zz", "", "not read"]])):
        t = Table(name=name)
        t.addElement(TableColumn(numbercolumnsrepeated="5"))
        for r in rs:
            tr = TableRow()
            i = 0
            while i < len(r):
                n = 1
                while runs and i + n < len(r) and r[i + n] == r[i]:
                    n += 1
                c = TableCell(**({"numbercolumnsrepeated": str(n)} if n > 1 else {}))
                if r[i]:
                    c.addElement(P(text=r[i]))
                tr.addElement(c)
                i += n
            tr.addElement(TableCell(numbercolumnsrepeated=str(1024 - len(r))))
            t.addElement(tr)
        doc.spreadsheet.addElement(t)
    doc.save(path)


def tsv(path, rows):
    with open(path, "w", encoding="utf-8", newline="") as f:
        for r in rows:
            f.write("\t".join('"%s"' % c.replace('"', '""') if '"' in c or "\n" in c else c for c in r) + "\r\n")


def ldml_of(d, **kw):
    s = subj.mod("sheet").Sheet(**kw)
    s.process()
    out = os.path.join(d, "out.xml")
    s.writeldml(out)
    with open(out, "rb") as f:
        return f.read()


def check(ch, what, root, data):
    df = diff(canon(root, comments=False), canon(read(data), comments=False))
    if df:
        raise core.Violation("the LDML made of the %s: %s" % (what, df), got=data.decode("utf-8"))
    ch.seen(data)


def sheets(n, few, values, kinds, only=None):
    """every sequence of blocks, each cell filled or not; all cells beyond the first ones filled alike"""
    def case(ch):
        names = sorted(only or BLOCKS)
        picked = []
        for i in range(n):
            k = ch.index(len(names) + (1 if i else 0))
            if k == len(names):
                break
            picked.append(names.pop(k))
        total = sum(len(cells(BLOCKS[b])) for b in picked)
        vals = [ch.pick(values) for _ in range(min(few, total))]
        if total > few:
            rest = ch.pick(values)
            vals += [rest + str(i) if rest else "" for i in range(total - few)]
        kind = ch.pick(kinds)
        ch.note("%s %s %s" % (picked, vals, kind))
        rows, root = rows_of(picked, vals)
        run(ch, kind, rows, root, vals, lambda x: rows_of(picked, [x] * total)[0])
    return case


def run(ch, kind, rows, root, vals, blank):
        d = core.scratch()
        try:
            if kind == "tsv":
                p = os.path.join(d, "in.tsv")
                tsv(p, rows)
                check(ch, "table", root, ldml_of(d, tsvfile=p))
            elif kind == "short tsv":
                p = os.path.join(d, "in.tsv")
                tsv(p, short(rows))
                check(ch, "table", root, ldml_of(d, tsvfile=p))
            elif kind in ("ods", "ods runs"):
                p = os.path.join(d, "in.ods")
                ods(p, short(rows), kind == "ods runs")
                check(ch, "spreadsheet", root, ldml_of(d, odsfile=p))
            else:
                # an empty (or, "over", a filled) spreadsheet is filled from LDML and read again
                p, x, q = (os.path.join(d, f) for f in ("in.ods", "in.xml", "out.ods"))
                if kind == "over":
                    if "" in vals:
                        raise core.Skip()
                ods(p, short(blank("old" if kind == "over" else "")), kind == "back runs")
                with open(x, "wb") as f:
                    f.write(write(root, {SIL: "sil"}).encode("utf-8"))
                m = subj.mod("sheet")
                s = m.Sheet(odsfile=p, ldmlfile=x)
                s.process()
                s.writeods(q)
                check(ch, "spreadsheet filled from LDML", root, ldml_of(d, odsfile=q))
        finally:
            shutil.rmtree(d)


def wide(cols):
    """tables of many columns, whose rows are long runs of equal cells"""
    heads = ["c%d" % i for i in range(cols)]
    tmpl = {"table2d": MONTH % ("$col", "$row"), "table2dr": CUR % ("$row", "$col")}

    def case(ch):
        kind = ch.pick(sorted(tmpl))
        gap = ch.pick([None, 1, cols - 1])      # the headings end at the first empty one
        e = ch.index(cols)
        n = 1 + ch.index(cols - e)
        tail = ch.pick(["", "y"]) if e + n < cols else ""
        v = [""] * e + ["x"] * n + [""] * (cols - e - n)
        if tail:
            v[-1] = tail
        how = ch.pick(["tsv", "ods", "ods runs", "back", "back runs"])
        ch.note(kind, "columns", v, "heading", gap, "is empty", how)
        r1, r2 = table2(kind, tmpl[kind], ["1"], heads), table2(kind, tmpl[kind], ["2"], heads)
        block = r1 + r2[1:]
        if gap is not None:
            if "back" in how:
                raise core.Skip()
            block[0][2 + gap] = ""
            for row in block[1:]:
                row[2 + gap:] = ["z" if c == gap else v[c] for c in range(gap, cols)]
            vals = v[:gap] * 2
        else:
            vals = v * 2
        rows, root = fill_rows([block, BLOCKS["plain"]], vals + ["p"])
        run(ch, how, rows, root, vals, lambda x: fill_rows([block, BLOCKS["plain"]], [x] * (len(vals) + 1))[0])
    return case


def setup():
    subj.warm()
    subj.mod("sheet")


def harnesses(tier):
    q = tier == "quick"
    vs = ["", "x", "\u00e9<&", "a 'b'"]
    return [dict(name="tables", case=sheets(3 if q else 4, 2 if q else 3, vs, ["tsv", "short tsv"]), setup=setup, bounds="every sequence of at most %d of %d kinds of rows, every filling of the first cells" % (3 if q else 4, len(BLOCKS))),
            dict(name="ods", case=sheets(2, 3 if q else 4, ["", "x", "\u00e9<&"], ["ods", "ods runs"]), setup=setup, bounds="every sequence of at most 2 of %d kinds of rows in a spreadsheet, with and without repeated cells" % len(BLOCKS)),
            dict(name="wide", case=wide(13 if q else 24), setup=setup, bounds="two kinds of tables of %d columns, every position and length of a run of filled cells, 3 headings, 5 forms" % (13 if q else 24)),
            dict(name="back", case=sheets(2, 3 if q else 4, ["", "x", "\u00e9<&"], ["back", "back runs", "over"]), setup=setup, bounds="every sequence of at most 2 of %d kinds of rows in a spreadsheet, filled from LDML and read again" % len(BLOCKS))]
