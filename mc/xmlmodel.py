"""Independent reading and writing of small XML documents (expat only, no code under test)."""
import xml.parsers.expat

XMLNS = "http://www.w3.org/XML/1998/namespace"
SIL = "urn://www.sil.org/ldml/0.1"


class N:
    """element: tag is '{ns}local' or 'local'; attrs dict with the same naming; text of a leaf; kids;
    before: comments before the start tag; tail comments: comments after the last child; inner: comments in a leaf"""
    __slots__ = ("tag", "attrs", "text", "kids", "before", "end")

    def __init__(self, tag, attrs=None, text="", kids=None, before=None, end=None):
        self.tag = tag
        self.attrs = dict(attrs or {})
        self.text = text
        self.kids = list(kids or [])
        self.before = list(before or [])
        self.end = list(end or [])

    def copy(self):
        return N(self.tag, self.attrs, self.text, [k.copy() for k in self.kids], self.before, self.end)

    def __repr__(self):
        return show(self)


def _clark(name):
    return "{%s" % name if "}" in name else name


def read(data):
    """parse bytes with namespace processing; raises xml.parsers.expat.ExpatError when not well formed"""
    p = xml.parsers.expat.ParserCreate(namespace_separator="}")
    p.buffer_text = True
    root = []
    stack = []
    pending = []

    def start(name, attrs):
        n = N(_clark(name), {_clark(k): v for k, v in attrs.items()})
        n.before = list(pending)
        del pending[:]
        if stack:
            stack[-1].kids.append(n)
        else:
            root.append(n)
        stack.append(n)

    def end(name):
        n = stack.pop()
        n.end += pending
        del pending[:]

    def chars(s):
        if stack:
            stack[-1].text += s

    def comment(s):
        pending.append(s)
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.CommentHandler = comment
    if isinstance(data, str):
        data = data.encode("utf-8")
    p.Parse(data, True)
    r = root[0]
    r.end += pending
    return r


def esc(s, attr=False):
    s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace("\r", "&#13;")
    if attr:
        s = s.replace('"', "&quot;").replace("\n", "&#10;").replace("\t", "&#9;")
    return s


def write(n, prefixes, root=True, pretty=False, depth=0, decl=True, after=()):
    """serialise N to text; prefixes maps ns uri -> prefix"""
    def q(name):
        if name[0] == "{":
            u, l = name[1:].split("}", 1)
            if u == XMLNS:
                return "xml:" + l
            return (prefixes[u] + ":" + l) if prefixes[u] else l
        return name
    out = []
    if root and decl:
        out.append('<?xml version="1.0" encoding="utf-8"?>\n')
    nl = ("\n" + "\t" * depth) if pretty else ""
    for c in n.before:
        out.append("<!--%s-->%s" % (c, nl))
    out.append("<" + q(n.tag))
    if root:
        for u, p in prefixes.items():
            out.append(' xmlns%s="%s"' % (":" + p if p else "", esc(u, True)))
    for k, v in n.attrs.items():
        out.append(' %s="%s"' % (q(k), esc(v, True)))
    out.append(">")
    for k in n.kids:
        if pretty:
            out.append("\n" + "\t" * (depth + 1))
        out.append(write(k, prefixes, False, pretty, depth + 1))
    if not n.kids:
        out.append(esc(n.text))
    for c in n.end:
        out.append("<!--%s-->" % c)
    if n.kids and pretty:
        out.append("\n" + "\t" * depth)
    out.append("</" + q(n.tag) + ">")
    if root:
        for c in after:
            out.append("<!--%s-->" % c)
        out.append("\n")
    return "".join(out)


def normtext(s):
    """the significant text of a leaf: lines without indentation, without white space at either end"""
    lines = [l.strip(" \t") for l in s.replace("\r\n", "\n").split("\n")]
    while lines and not lines[0]:
        lines.pop(0)
    while lines and not lines[-1]:
        lines.pop()
    return "\n".join(lines)


def canon(n, comments=True, order=False):
    """canonical, hashable form: siblings as a multiset (order=False) or in document order"""
    kids = [canon(k, comments, order) for k in n.kids]
    if not order:
        kids = sorted(kids, key=repr)
    c = (tuple(x.strip() for x in n.before), tuple(x.strip() for x in n.end)) if comments else ()
    return (n.tag, tuple(sorted(n.attrs.items())), normtext(n.text) if not n.kids else "", tuple(kids), c)


def show(n):
    pf = {}

    def coll(x):
        for name in [x.tag] + list(x.attrs):
            if name[0] == "{":
                u = name[1:].split("}")[0]
                if u != XMLNS:
                    pf.setdefault(u, "sil" if u == SIL else "p%d" % len(pf))
        for k in x.kids:
            coll(k)
    coll(n)
    return write(n, pf, decl=False).strip()


def diff(a, b, path=""):
    """first difference between two canonical forms"""
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s: element %r became %r" % (path, a[0], b[0])
    path = path + "/" + a[0]
    if a[1] != b[1]:
        return "%s: attributes %r became %r" % (path, a[1], b[1])
    if a[2] != b[2]:
        return "%s: text %r became %r" % (path, a[2], b[2])
    if a[4] != b[4]:
        return "%s: comments %r became %r" % (path, a[4], b[4])
    if len(a[3]) != len(b[3]):
        ra = list(a[3])
        rb = list(b[3])
        for x in list(ra):
            if x in rb:
                ra.remove(x)
                rb.remove(x)
        return "%s: children lost %r, gained %r" % (path, [x for x in ra], [x for x in rb])
    for x, y in zip(a[3], b[3]):
        d = diff(x, y, path)
        if d:
            return d
    return "%s: differs" % path


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def all_comments(n):
    return sorted(c.strip() for x in walk(n) for c in x.before + x.end)


def leading_comments(n):
    """(element without comments, comments immediately before it) for every commented element"""
    return [(canon(x, comments=False), tuple(c.strip() for c in x.before)) for x in walk(n) if x.before]


def same_information(a, b):
    """None, or a description of what document b lost, gained or moved relative to a"""
    d = diff(canon(a, comments=False), canon(b, comments=False))
    if d:
        return d
    if all_comments(a) != all_comments(b):
        return "comments %r became %r" % (all_comments(a), all_comments(b))
    lb = leading_comments(b)
    for e, cs in leading_comments(a):
        if not any(e == e2 and cs == cs2[-len(cs):] for e2, cs2 in lb):
            return "comments %r no longer stand before their element <%s>" % (cs, e[0])
    return None
