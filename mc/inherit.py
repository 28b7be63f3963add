"""Reference model of inheritance between LDML documents on plain trees (no code under test)."""
from mc.xmlmodel import N, SIL, normtext

S = "{%s}" % SIL
BLOCKS = ("identity", "collation")
NONKEY = {S + "quotation": {"open", "close", "continue", "type"}, S + "matched-pair": set(), S + "punctuation-pattern": set()}


def key(n):
    nk = NONKEY.get(n.tag, set())
    return (n.tag, tuple(sorted((k, v) for k, v in n.attrs.items() if k not in ("alt", "draft") and k not in nk)))


def inherit_marks(n, root=True):
    """drop values that only say 'inherit' and elements that consist of nothing else"""
    had = False
    for k in list(n.kids):
        inherit_marks(k, False)
        if k.text == "\u2191\u2191\u2191" and not k.kids or k.text == "!drop":
            n.kids.remove(k)
            had = True
    if had and not n.kids and not root:
        n.text = "!drop"


def load(n):
    n = n.copy()
    inherit_marks(n)
    return n


def overlay(this, other):
    """fill what is missing in this from other"""
    for o in other.kids:
        if o.tag in BLOCKS:
            continue
        match = [t for t in this.kids if key(t) == key(o)]
        if o.tag == S + "external-resources" and match:
            fonts(match[0], o)
        elif match:
            if not leaf(o) or not leaf(match[0]):
                overlay(match[0], o)
        elif o.tag != "alias" or not this.kids:
            this.kids.append(o.copy())
            # the alternates of a value travel with it: they share its key, so take them all
            seen = [x for x in other.kids if x is not o and key(x) == key(o) and x.attrs.get("alt")]
            this.kids += [x.copy() for x in seen]


def leaf(n):
    return not n.kids


def fonts(this, other):
    taken = set()
    for t in this.kids:
        if t.tag == S + "font":
            taken |= set((t.attrs.get("types") or "default").split())
    for o in other.kids:
        if o.tag == S + "font":
            types = (o.attrs.get("types") or "default").split()
            missing = [t for t in types if t not in taken]
            if "default" in taken or not missing:
                continue
            o = o.copy()
            if missing != types:
                o.attrs["types"] = " ".join(missing)
            this.kids.append(o)
        else:
            match = [t for t in this.kids if key(t) == key(o)]
            if match:
                overlay(match[0], o)
            else:
                this.kids.append(o.copy())


def script_of(n):
    s = None
    for k in n.kids:
        if k.tag == "identity":
            for x in k.kids:
                if x.tag == "special":
                    for y in x.kids:
                        if y.tag == S + "identity" and "script" in y.attrs:
                            return y.attrs["script"]
            for x in k.kids:
                if x.tag == "script" and "type" in x.attrs:
                    s = x.attrs["type"]
    return s


def trim(l):
    return l[:l.rfind("_")] if "_" in l else ""


def chain(lname, explicit):
    """the locales to consult, in order"""
    first = list(explicit) or [trim(lname)]
    if "root" not in first and lname != "root":
        first.append("root")
    res = []
    for f in first:
        while f:
            res.append(f)
            f = trim(f)
    return res
