"""C02: one normal form - incidental layout of the input and its delivery do not influence the output."""
import io, itertools
from mc import core, subj
from mc.xmlmodel import N, SIL, XMLNS, read, write, esc

ASSUMPTIONS = ["siblings of one group differ in element name or in a distinguishing attribute (LDML's uniqueness rule)",
               "expected orders are written down here from the LDML DTD, not read through the code under test"]

SN = "{%s}" % SIL
# each group: parent path, children already in the order the DTD demands, as (tag, attrs in DTD order, text)
GROUPS = [
    ("top", [], [("identity", [], ""), ("localeDisplayNames", [], ""), ("characters", [], ""), ("delimiters", [], ""), ("dates", [], ""),
                 ("numbers", [], ""), ("collations", [], ""), ("special", [], "")]),
    ("identity", ["identity"], [("version", [("number", "1")], ""), ("language", [("type", "en")], ""), ("script", [("type", "Latn")], ""),
                                ("territory", [("type", "US")], ""), ("variant", [("type", "POSIX")], "")]),
    ("languages", ["localeDisplayNames", "languages"], [("language", [("type", "aa")], "1"), ("language", [("type", "ab")], "2"),
                                                         ("language", [("type", "b")], "3"), ("language", [("type", "en_GB")], "4"),
                                                         ("language", [("type", "zza")], "5")]),
    ("case", ["localeDisplayNames", "types"], [("type", [("key", "co"), ("type", "x")], "1"), ("type", [("key", "co"), ("type", "Y")], "2"),
                                               ("type", [("key", "nu"), ("type", "a")], "3"), ("type", [("key", "nu"), ("type", "z")], "4")]),
    ("exemplars", ["characters"], [("exemplarCharacters", [], "[a]"), ("exemplarCharacters", [("type", "auxiliary")], "[b]"),
                                   ("exemplarCharacters", [("type", "index")], "[A]"), ("exemplarCharacters", [("type", "punctuation")], "[.]"),
                                   ("ellipsis", [("type", "final")], "x")]),
    ("months", ["dates", "calendars", "calendar", "months", "monthContext", "monthWidth"],
     [("month", [("type", "1")], "a"), ("month", [("type", "2")], "b"), ("month", [("type", "9")], "i"), ("month", [("type", "10")], "j"), ("month", [("type", "12")], "l")]),
    ("days", ["dates", "calendars", "calendar", "days", "dayContext", "dayWidth"],
     [("day", [("type", "sun")], "a"), ("day", [("type", "mon")], "b"), ("day", [("type", "wed")], "c"), ("day", [("type", "fri")], "d"), ("day", [("type", "sat")], "e")]),
    ("daysx", ["dates", "calendars", "calendar", "days", "dayContext", "dayWidth"],
     [("day", [("type", "sun")], "a"), ("day", [("type", "aa"), ("z", "3")], "b"), ("day", [("type", "bb"), ("z", "2")], "c"), ("day", [("type", "cc"), ("z", "1")], "d")]),
    ("widths", ["dates", "calendars", "calendar", "days", "dayContext"],
     [("dayWidth", [("type", "abbreviated")], ""), ("dayWidth", [("type", "narrow")], ""), ("dayWidth", [("type", "short")], ""), ("dayWidth", [("type", "wide")], "")]),
    ("resources", ["special", SN + "external-resources"],
     [(SN + "font", [("name", "A"), ("types", "default"), ("features", "f=1")], ""), (SN + "font", [("name", "B"), ("types", "ui")], ""),
      (SN + "kbd", [("id", "k1"), ("type", "kmp")], ""), (SN + "kbd", [("id", "k2"), ("type", "kmp")], ""), (SN + "spell-checking", [("type", "hunspell")], "")]),
    ("case-twins", ["localeDisplayNames", "scripts"], [("script", [("type", "LATN")], "1"), ("script", [("type", "Latn")], "2"), ("script", [("type", "latn")], "3")]),
    ("alternates", ["localeDisplayNames", "territories"],
     [("territory", [("type", "US")], "a"), ("territory", [("type", "US"), ("alt", "short")], "b"), ("territory", [("type", "US"), ("alt", "variant")], "c"),
      ("territory", [("type", "US"), ("alt", "proposed-1"), ("draft", "tentative")], "d"), ("territory", [("type", "XX"), ("draft", "contributed")], "e")]),
    ("drafts", ["localeDisplayNames", "territories"],
     [("territory", [("type", "US"), ("alt", "p1"), ("draft", "tentative")], "a"), ("territory", [("type", "US"), ("alt", "p2"), ("draft", "contributed")], "b"),
      ("territory", [("type", "US"), ("alt", "p3"), ("draft", "contributed")], "c"), ("territory", [("type", "US"), ("alt", "p4"), ("draft", "suspect")], "d")]),
]
UNORDERED = ("case-twins", "alternates", "drafts", "case")


def doc(path, kids, ctxattrs=None):
    node = None
    for tag in reversed(path):
        node = N(tag, {"type": {"calendar": "gregorian", "monthContext": "format", "monthWidth": "wide", "dayContext": "format", "dayWidth": "wide"}[tag]}
                 if tag in ("calendar", "monthContext", "monthWidth", "dayContext", "dayWidth") else {}, "", kids if node is None else [node])
    return N("ldml", {}, "", kids if node is None else [node])


def nodes(kids):
    return [N(t, dict(a), x) for t, a, x in kids]


def find(n, path):
    for p in path:
        n = next(k for k in n.kids if k.tag == p)
    return n


def orders(group):
    def case(ch):
        name, path, kids = group
        idx = list(range(len(kids)))
        perm = []
        for _ in range(len(kids)):
            perm.append(idx.pop(ch.index(len(idx))))
        small = len(kids) < 7
        rev = small and ch.flag()
        pretty = small and ch.flag()
        usedrafts = small and ch.flag()
        ch.note("order", perm, "attributes reversed" if rev else "", "pretty" if pretty else "", "drafts" if usedrafts else "")
        # the same order of the children and of their attributes gives the reference output
        ref = subj.text_of(subj.ldml(write(doc(path, nodes(kids)), {SIL: "sil"}), usedrafts=usedrafts))
        ks = [kids[i] for i in perm]
        if rev:
            ks = [(t, list(reversed(a)), x) for t, a, x in ks]
        src = write(doc(path, nodes(ks)), {SIL: "sil"}, pretty=pretty)
        ch.note("input:", src)
        out = subj.text_of(subj.ldml(src, usedrafts=usedrafts))
        ch.seen(out)
        if out != ref:
            raise core.Violation("the order of siblings or attributes in the input changes the output", got=out, reference=ref)
        if name not in UNORDERED:
            got = find(read(out), path)
            want = [(t, tuple(a)) for t, a, x in kids]
            have = [(k.tag, tuple(k.attrs.items())) for k in got.kids]
            if have != want:
                raise core.Violation("children are not in the order of the DTD: %r" % (have,), want=want)
    return case


BODY = N("ldml", {}, "", [
    N("identity", {}, "", [N("version", {"number": "1"}), N("language", {"type": "en"})], before=["first"]),
    N("localeDisplayNames", {}, "", [N("languages", {}, "", [N("language", {"type": "aa"}, "a\u00e9\U0001F600b"), N("language", {"type": "ab"}, "x\n  y", end=["in"])], end=["tail"])]),
    N("characters", {}, "", [N("exemplarCharacters", {}, "[a-z {ch}]")]),
    N("collations", {}, "", [N("collation", {"type": "standard"}, "", [N("cr", {}, "&a<b<<c")])]),
    N("special", {}, "", [N(SN + "external-resources", {}, "", [N(SN + "note", {}, "n<o>t&e")])]),
], before=["zero"])


class Pieces(io.RawIOBase):
    """a stream whose reads return exactly the given pieces"""
    def __init__(self, pieces):
        self.pieces = list(pieces)

    def read(self, n=-1):
        return self.pieces.pop(0) if self.pieces else b""

    def close(self):
        pass


def delivery(ch):
    variant = ch.pick(["plain", "pretty", "bom", "empties", "inherit", "doctype"])
    root = BODY
    if variant == "inherit":
        root = BODY.copy()
        root.kids[1].kids[0].kids.append(N("language", {"type": "zz"}, "\u2191\u2191\u2191"))
        root.kids.append(N("layout", {}, "", [N("orientation", {}, "", [N("characterOrder", {}, "\u2191\u2191\u2191")])]))
    data = write(root, {SIL: "sil"}, pretty=variant == "pretty", after=["last"]).encode("utf-8")
    if variant == "doctype":
        data = data.replace(b"<!--zero-->", b'<!DOCTYPE ldml SYSTEM "ldml.dtd" [<!ENTITY val "n&#38;amp;">]>\n<!--zero-->', 1).replace(b"[a-z {ch}]", b"[a-z &val;]")
        if data.count(b"DOCTYPE") != 1:
            raise core.Violation("the harness has no document type")
    if variant == "bom":
        data = b"\xef\xbb\xbf" + data
    if variant == "empties":
        data = data.replace(b"></version>", b"/>")
    mode = ch.pick(["split", "split2", "fixed"])
    if mode == "split":
        i = 1 + ch.index(len(data) - 1)
        pieces = [data[:i], data[i:]]
    elif mode == "split2":
        # two cuts close together: a token delivered in three reads
        i = 1 + ch.index(len(data) - 3)
        g = 1 + ch.index(2)
        pieces = [data[:i], data[i:i + g], data[i + g:]]
    else:
        k = 1 + ch.index(40)
        pieces = [data[i:i + k] for i in range(0, len(data), k)]
    ch.note(variant, mode, "pieces of", [len(p) for p in pieces][:4])
    ref = subj.text_of(subj.ldml(data))
    out = subj.text_of(subj.mod("ldml").Ldml(Pieces(pieces)))
    ch.seen(out)
    if out != ref:
        raise core.Violation("the way the bytes were delivered changes the document", got=out, reference=ref)


def spelling(ch):
    """equivalent spellings of the same document"""
    t = ch.pick(["a<b", "it's", 'q"q', "x & y", "\u00e9", "a\nb", "]]>", "\u00a0", "\U0001F600"])
    where = ch.pick(["text", "attr", "cdata"])
    tsp = ch.pick(["plain", "charref", "hexref", "cdata", "mixed", "entity", "indented", "trailing"])
    enc = ch.pick(["utf-8", "utf-8-sig", "utf-16", "iso-8859-1"])
    decl = ch.index(2 if tsp == "entity" else 5)
    quote = ch.pick(['"', "'"])
    selfclose = ch.flag()
    ws = ch.pick(["", " ", "\n\t"])
    crlf = ch.flag()
    if where == "attr" and (tsp in ("cdata", "mixed") or tsp == "entity" and "\n" in t):
        raise core.Skip()
    if tsp in ("indented", "trailing") and (where == "attr" or "\n" not in t):
        raise core.Skip()
    if enc == "iso-8859-1" and tsp in ("plain", "cdata", "mixed", "entity") and max(t) > "\u00ff":
        raise core.Skip()

    def sp(s, attr):
        if tsp == "entity":
            return "&val;"
        if tsp == "indented":
            return s.replace("\n", "\n \t  ")
        if tsp == "trailing":
            return s.replace("\n", "\t \n\t")
        if tsp == "charref":
            return "".join("&#%d;" % ord(c) for c in s)
        if tsp == "hexref":
            return "".join("&#x%X;" % ord(c) for c in s)
        if tsp == "cdata":
            return "<![CDATA[" + s.replace("]]>", "]]]]><![CDATA[>") + "]]>"
        if tsp == "mixed":
            return "<![CDATA[" + s[:1] + "]]>" + esc(s[1:])
        r = esc(s, attr)
        return r.replace("'", "&apos;") if attr else r
    vals = {"text": ("T", "n"), "attr": ("n", "n"), "cdata": ("n", "n")}
    entity = "<!ENTITY val %s%s%s>" % (quote, esc(t).replace("&", "&#38;").replace("\"", "&#34;").replace("%", "&#37;").replace("'", "&#39;"), quote)
    doctype = ["", "<!DOCTYPE ldml SYSTEM 'ldml.dtd'>", '<!DOCTYPE  ldml PUBLIC "-//x" "ldml.dtd" >', "<!DOCTYPE ldml\n>", "<!DOCTYPE ldml [<!ELEMENT ldml ANY>\n <!ATTLIST version draft CDATA #IMPLIED>]>\n"][decl]
    if tsp == "entity":
        doctype = ["<!DOCTYPE ldml [" + entity + "]>", "<!DOCTYPE ldml SYSTEM 'ldml.dtd' [\n" + entity + " ]>"][decl]
    text = sp(t, False) if where == "text" else "name"
    attr = sp(t, True) if where == "attr" else "xx"
    note = sp(t, False) if where == "cdata" else "note"
    e = "/>" if selfclose else "></version>"

    def build(text, attr, note, q, ws, e, enc, doctype=""):
        nl = ws
        return ("<?xml version=%s1.0%s encoding=%s%s%s?>" % (q, q, q, enc, q) + doctype +
                "<ldml%s xmlns:sil=%s%s%s>%s<identity>%s<version number=%s1%s%s%s</identity>%s<localeDisplayNames>%s<languages><language%s type=%s%s%s%s>%s</language>%s</languages></localeDisplayNames>"
                "<special><sil:external-resources><sil:note>%s</sil:note></sil:external-resources></special></ldml>" %
                (" " if not ws else ws, q, SIL, q, nl, nl, q, q, e, nl, nl, nl, " " if not ws else ws, q, attr, q, ws, text, nl, note))
    src = build(text, attr, note, quote, ws, e, {"utf-16": "UTF-16", "iso-8859-1": "ISO-8859-1"}.get(enc, "UTF-8"), doctype)
    if crlf:
        src = src.replace("\n", "\r\n")
    data = src.encode(enc)
    ch.note("input:", src)
    ref = subj.text_of(subj.ldml(build(esc(t) if where == "text" else "name", esc(t, True) if where == "attr" else "xx",
                                       esc(t) if where == "cdata" else "note", '"', "", "/>", "utf-8")))
    out = subj.text_of(subj.ldml(data))
    ch.seen(out)
    if out != ref:
        raise core.Violation("an equivalent spelling of the same document is written differently", got=out, reference=ref)


def harnesses(tier):
    hs = []
    for g in GROUPS:
        hs.append(dict(name="order-" + g[0], case=orders(g), setup=subj.warm,
                       bounds="all %d! orders of %d siblings x attribute order x indentation x draft handling" % (len(g[2]), len(g[2]))))
    hs.append(dict(name="delivery", case=delivery, setup=subj.warm,
                   bounds="6 documents x every split into two reads, every token split into three reads, every fixed read size up to 40 bytes"))
    hs.append(dict(name="spelling", case=spelling, setup=subj.warm,
                   bounds="9 values x place x 6 spellings x document types x 4 encodings x quotes x empty-element form x white space x line ends"))
    return hs
