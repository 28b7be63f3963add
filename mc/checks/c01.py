"""C01: reading a document and writing it out loses nothing and is a fixed point."""
from mc import core, subj
from mc.xmlmodel import N, SIL, XMLNS, read, write, same_information
import xml.parsers.expat

ASSUMPTIONS = ["documents are bounded variations of one LDML skeleton; sibling order, indentation and blanks at the edges of a value are not information",
               "the oracle reads input and output with expat, independently of the code under test"]

XN = "urn:x-other"
TEXTS = ["name", "", "a<b&c>d", "it's \"q\"", "a\nb", "a\n   b\n\tc", "  padded\t", "\u00a0", "\u202f", "x\u3000", "]]>", "a]]>b]]", "a\tb",
         "\u00e9\u1e9b\u0323", "\U0001F600\U0010FFFD", "\\u0041", "[a-z]", "&amp;lt;", "-->", "\u2028z", "a\rb", "\x85", "{0}", "\ufffd", "%s"]
ATTRS = ["xx", "", "a<b&c>d", "it's \"q\"", "a\nb", "a\tb", " pad ", "\u00a0", "\U0001F600", "]]>", "a:b", "{c}d", "a/b", "&#10;", "x" * 40, "a\rb", "A"]
COMMENTS = [None, " c ", "<&>", " two\nlines ", "\u00e9", "]]>", ""]
CDT = ["&a<b", "", "a\nb\n  c", "]]>", "a]]>b]]>", "]]", "<b>", "&amp;", "\u00a0", "&a < b\n\n< c", "]]]>", "]]>>", "\\u0041", "a\tb"]


def skeleton(ch):
    """one document; every departure from the plain skeleton is a deviation"""
    silp = ch.dev(["sil", "s", "ns0"])
    uses_x = ch.dev([None, "element", "attribute", "both", "deep"])
    xp = ch.dev(["x", "sil2"]) if uses_x else "x"
    prefixes = {SIL: silp}
    if uses_x:
        prefixes[XN] = xp
    lang = N("language", {"type": ch.dev(ATTRS)}, ch.dev(TEXTS))
    lang2 = N("language", {"type": "zz"}, "other")
    c = ch.dev(COMMENTS)
    if c is not None:
        lang.before.append(c)
    languages = N("languages", {}, "", [lang, lang2])
    c = ch.dev(COMMENTS)
    if c is not None:
        languages.end.append(c)
    names = N("localeDisplayNames", {}, "", [languages])
    ident = N("identity", {}, "", [N("version", {"number": "0.0.1"}), N("language", {"type": "en"})])
    c = ch.dev([None, " before identity ", "x"])
    if c is not None:
        ident.before.append(c)
    shape = ch.dev(["plain", "nested-empty", "empty-special", "many", "lang-attr", "xml:space"])
    note = N("{%s}note" % SIL, {}, ch.dev(CDT))
    cr = N("cr", {}, ch.dev(CDT))
    ex = N("exemplarCharacters", {}, ch.dev(["[a b]", "[\\u0301 {ch}]", "\u00a0", "a\nb", "[\\-]"]))
    special = N("special", {}, "", [N("{%s}external-resources" % SIL, {}, "", [note] if shape != "empty-special" else [])])
    chars = N("characters", {}, "", [ex])
    coll = N("collations", {}, "", [N("defaultCollation", {}, "standard"), N("collation", {"type": "standard"}, "", [cr])])
    root = N("ldml", {}, "", [ident, names, chars, coll, special])
    if shape == "nested-empty":
        names.kids.append(N("scripts"))
    elif shape == "many":
        languages.kids += [N("language", {"type": "a%d" % i}, "n%d" % i) for i in range(3)]
        chars.kids.append(N("exemplarCharacters", {"type": "auxiliary"}, "[x]"))
    elif shape == "lang-attr":
        lang.attrs["{%s}lang" % XMLNS] = "en"
    elif shape == "xml:space":
        ex.attrs["{%s}modified" % SIL] = "true"
    if uses_x in ("element", "both"):
        root.kids.append(N("{%s}thing" % XN, {"k": "v"}, "t"))
    if uses_x in ("attribute", "both"):
        lang2.attrs["{%s}flag" % XN] = ch.dev(["1", "a<b"])
    if uses_x == "deep":
        special.kids.append(N("{%s}a" % XN, {}, "", [N("{%s}b" % XN, {"{%s}c" % XN: "d"})]))
    where = ch.dev([None, "end of a group", "end of the root", "after the root", "after a value", "before a value", "in an empty element"])
    if where == "end of a group":
        special.end.append("here")
    elif where == "end of the root":
        root.end.append("here")
    elif where == "after a value":
        lang.end.append("here")
    elif where == "in an empty element":
        ident.kids[0].end.append("here")
    c = ch.dev([None, " before root "])
    if c is not None:
        root.before.append(c)
    return root, prefixes, where


def roundtrip(ch):
    root, prefixes, where = skeleton(ch)
    usedrafts = ch.dev([True, False])
    topns = ch.dev([True, False])
    pretty = ch.dev([False, True])
    src = write(root, prefixes, pretty=pretty, after=["here"] if where == "after the root" else [])
    if where == "before a value":
        src = src.replace(">other<", "><!--here-->other<")
    ch.note("input:", src)
    doc = subj.ldml(src, usedrafts=usedrafts)
    out = subj.text_of(doc, topns=topns)
    ch.note("output:", out)
    ch.seen(out)
    try:
        got = read(out)
    except (xml.parsers.expat.ExpatError, KeyError) as e:
        raise core.Violation("output is not a well formed document: %s" % e, output=out)
    d = same_information(read(src), got)
    if d:
        raise core.Violation("information changed: " + d, output=out)
    out2 = subj.text_of(subj.ldml(out, usedrafts=usedrafts), topns=topns)
    if out2 != out:
        raise core.Violation("writing the output again changes it", first=out, second=out2)


def namespaces(ch):
    """every placement of namespaces and prefixes on a tree of four elements"""
    uris = [None, SIL, "urn:a", "urn:b"]

    def elem(name, scope, inner, depth):
        # scope: prefix -> uri bindings in force
        u = ch.pick(uris)
        decl = []
        scope = dict(scope)

        def prefix_for(u, attr=False):
            have = [p for p, v in scope.items() if v == u and not (attr and p == "")]
            style = ch.pick(["p", "q", "default"] if not attr else ["p", "q"]) if not have else None
            if style is None:
                return have[0]
            pf = {"p": "p", "q": "sil", "default": ""}[style]
            if pf in [d[0] for d in decl]:
                raise core.Skip()
            scope[pf] = u
            decl.append((pf, u))
            return pf
        if u is None:
            if scope.get(""):
                scope[""] = None
                decl.append(("", ""))
            tag = name
        else:
            pf = prefix_for(u)
            tag = (pf + ":" if pf else "") + name
        attr = ""
        au = ch.pick([None, "urn:a"]) if depth > 0 else None
        if au:
            pf = prefix_for(au, True)
            if scope[pf] != au:
                raise core.Skip()
            attr = ' %s:k="v"' % pf
        if u is not None and scope[tag.split(":")[0] if ":" in tag else ""] != u:
            raise core.Skip()
        d = "".join(' xmlns%s="%s"' % (":" + p if p else "", v or "") for p, v in decl)
        return "<%s%s%s>%s</%s>" % (tag, d, attr, inner(scope), tag)

    def kids(scope):
        return elem("a", scope, lambda s: elem("b", s, lambda s2: "t", 2), 1) + elem("c", scope, lambda s: "u", 1)
    rooturi = ch.pick([None, "urn:a"])
    rootstyle = ch.pick(["none", "sil", "other"])
    sc = {}
    d = ""
    rtag = "ldml"
    if rooturi:
        sc["r"] = rooturi
        d += ' xmlns:r="%s"' % rooturi
        rtag = "r:ldml"
    if rootstyle == "sil":
        sc["sil"] = SIL
        d += ' xmlns:sil="%s"' % SIL
    elif rootstyle == "other":
        sc["sil"] = "urn:b"
        d += ' xmlns:sil="urn:b"'
    src = "<%s%s>%s</%s>" % (rtag, d, kids(sc), rtag)
    topns = ch.flag()
    ch.note("input:", src, "topns" if topns else "")
    try:
        want = read(src)
    except xml.parsers.expat.ExpatError:
        raise core.Skip()
    out = subj.text_of(subj.ldml(src), topns=topns)
    ch.seen(out)
    try:
        got = read(out)
    except xml.parsers.expat.ExpatError as e:
        raise core.Violation("output is not a well formed document: %s" % e, output=out)
    d = same_information(want, got)
    if d:
        raise core.Violation("information changed: " + d, output=out)
    if subj.text_of(subj.ldml(out), topns=topns) != out:
        raise core.Violation("writing the output again changes it", first=out)


XMLCHARS = [c for c in [9, 10] + list(range(0x20, 0xd800)) + list(range(0xe000, 0xfffe)) + list(range(0x10000, 0x110000))]
FEW = [c for c in XMLCHARS if c < 0x3400 or 0xd700 <= c < 0xe080 or 0xf880 <= c < 0x10100 or (c & 0xffff) < 0x40 or (c & 0xffff) >= 0xffc0 or 0xe0000 <= c < 0xe0200 or 0x1f300 <= c < 0x1f700]
BLOCK = 128
SPOTS = ["text", "edges", "attribute", "comment", "cr", "note"]


def characters(chars):
    return lambda ch: one_block(ch, chars)


def one_block(ch, chars):
    """every character of XML, a block of them in one document, each in an element of its own"""
    spot = ch.pick(SPOTS)
    n = ch.pick(list(range((len(chars) + BLOCK - 1) // BLOCK)))
    cs = [chr(c) for c in chars[n * BLOCK:(n + 1) * BLOCK]]
    kids, top = [], []
    for i, c in enumerate(cs):
        if spot == "text":
            kids.append(N("language", {"type": "l%d" % i}, "a" + c + "b" + c + c))
        elif spot == "edges":
            kids.append(N("language", {"type": "l%d" % i}, c))
            kids.append(N("language", {"type": "m%d" % i}, c + "z" + c))
        elif spot == "attribute":
            kids.append(N("language", {"type": "l%d" % i + c, "alt": c}, "t"))
        elif spot == "comment" and c != "-":
            kids.append(N("language", {"type": "l%d" % i}, "t"))
            kids[-1].before.append("a" + c + "b")
        elif spot == "cr":
            top.append(N("collation", {"type": "l%d" % i}, "", [N("cr", {}, "&a<" + c + "b")]))
        elif spot == "note":
            top.append(N("collation", {"type": "l%d" % i}, "", [N("cr", {}, "]]" + c + ">")]))
    root = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "en"})])])
    if kids:
        root.kids.append(N("localeDisplayNames", {}, "", [N("languages", {}, "", kids)]))
    if top:
        root.kids.append(N("collations", {}, "", top))
    src = write(root, {})
    ch.note(spot, "U+%04X to U+%04X" % (ord(cs[0]), ord(cs[-1])))
    out = subj.text_of(subj.ldml(src))
    ch.seen(out)
    try:
        got = read(out)
    except xml.parsers.expat.ExpatError as e:
        raise core.Violation("output is not a well formed document: %s" % e, output=out)
    d = same_information(read(src), got)
    if d:
        raise core.Violation("information changed: " + d)
    if subj.text_of(subj.ldml(out)) != out:
        raise core.Violation("writing the output again changes it")


def files(ch):
    """the same through files on disk, and the empty document"""
    import os, shutil
    d = core.scratch()
    try:
        root, prefixes, where = skeleton(ch)
        src = write(root, prefixes)
        p, q = os.path.join(d, "in.xml"), os.path.join(d, "out.xml")
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(src)
        Ldml = subj.mod("ldml").Ldml
        ch.note("input:", src)
        Ldml(p).save_as(q)
        with open(p, encoding="utf-8", newline="") as f:
            if f.read() != src:
                raise core.Violation("reading a file and saving another changed the first")
        with open(q, encoding="utf-8", newline="") as f:
            out = f.read()
        want = subj.text_of(subj.ldml(src))
        ch.seen(out)
        if out != want:
            raise core.Violation("a document saved to a file differs from the document written to a stream", got=out, want=want)
        Ldml(q).save_as(q)
        with open(q, encoding="utf-8", newline="") as f:
            if f.read() != out:
                raise core.Violation("loading a saved file and saving it in place changes it")
    finally:
        shutil.rmtree(d)


def harnesses(tier):
    k = 3 if tier == "quick" else 4
    return [dict(name="roundtrip", case=roundtrip, bound=k, setup=subj.warm,
                 bounds="all documents with at most %d departures from the skeleton" % k),
            dict(name="namespaces", case=namespaces, setup=subj.warm,
                 bounds="all assignments of 4 namespaces, 3 binding styles and a qualified attribute to a tree of 4 elements"),
            dict(name="characters", case=characters(FEW if tier == "quick" else XMLCHARS), setup=subj.warm,
                 bounds="each of %d of the %d characters of XML but CR, in 6 places of a document (%d of them to a document)" % (len(FEW if tier == "quick" else XMLCHARS), len(XMLCHARS), BLOCK)),
            dict(name="files", case=files, bound=1 if tier == "quick" else 2, setup=subj.warm,
                 bounds="documents with at most %d departures, through files" % (1 if tier == "quick" else 2))]
