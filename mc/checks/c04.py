"""C04: looking up, creating and deleting by path agrees with a reference tree over every history of edits."""
from mc import core, subj
from mc.xmlmodel import N, SIL, read, write, canon, diff

ASSUMPTIONS = ["paths use the supported subset: element names, sil: prefixed names, attribute tests with values, '.', relative to the root or to an element",
               "the reference is a plain tree edited by the written rules; siblings are compared as a multiset"]
S = "{%s}" % SIL

# a path is a list of (prefixed tag, {attr: value})
PATHS = {
    "lang": [("localeDisplayNames", {}), ("languages", {}), ("language", {"type": "aa"})],
    "lang2": [("localeDisplayNames", {}), ("languages", {}), ("language", {"type": "bb"})],
    "anylang": [("localeDisplayNames", {}), ("languages", {}), ("language", {})],
    "langs": [("localeDisplayNames", {}), ("languages", {})],
    "ex": [("characters", {}), ("exemplarCharacters", {"type": ""})],
    "exaux": [("characters", {}), ("exemplarCharacters", {"type": "auxiliary"})],
    "anyex": [("characters", {}), ("exemplarCharacters", {})],
    "font": [("special", {}), ("sil:external-resources", {}), ("sil:font", {"name": "A B"})],
    "url": [("special", {}), ("sil:external-resources", {}), ("sil:font", {"name": "A B"}), ("sil:url", {})],
    "twoattr": [("localeDisplayNames", {}), ("types", {}), ("type", {"key": "co", "type": "x"})],
    "oneattr": [("localeDisplayNames", {}), ("types", {}), ("type", {"key": "co"})],
    "zone": [("dates", {}), ("timeZoneNames", {}), ("zone", {"type": "Etc/UTC"})],
    "zone2": [("dates", {}), ("timeZoneNames", {}), ("zone", {"type": "Etc/GMT"})],
    "nsattr": [("collations", {}), ("collation", {"sil:modified": "true"})],
    "deep": [("dates", {}), ("calendars", {}), ("calendar", {"type": "gregorian"}), ("months", {})],
    "anycal": [("dates", {}), ("calendars", {}), ("calendar", {})],
    "anymonths": [("dates", {}), ("calendars", {}), ("calendar", {}), ("months", {})],
    "quoted": [("localeDisplayNames", {}), ("keys", {}), ("key", {"type": "'x'"})],
    "equals": [("localeDisplayNames", {}), ("keys", {}), ("key", {"type": "a = b"})],
    "spaced": [("localeDisplayNames", {}), ("keys", {}), ("key", {"type": " x"})],
    "top": [("characters", {})],
}


def clark(t):
    return S + t[4:] if t.startswith("sil:") else t


def text(path):
    return "/".join(t + "".join('[@%s="%s"]' % kv for kv in a.items()) for t, a in path)


INITS = [
    N("ldml"),
    N("ldml", {}, "", [
        N("localeDisplayNames", {}, "", [N("languages", {}, "", [N("language", {"type": "aa"}, "Aa"), N("language", {"type": "cc"}, "Cc")]),
                                         N("types", {}, "", [N("type", {"key": "co", "type": "y"}, "Y")])]),
        N("characters", {}, "", [N("exemplarCharacters", {}, "[a]"), N("exemplarCharacters", {"type": "index"}, "[A]")]),
        N("special", {}, "", [N(S + "external-resources", {}, "", [N(S + "font", {"name": "A B", "types": "default"}, "", [N(S + "url", {}, "u")]),
                                                                   N(S + "font", {"name": "C"})])]),
    ]),
    N("ldml", {}, "", [
        N("dates", {}, "", [N("timeZoneNames", {}, "", [N("zone", {"type": "Etc/UTC"}, "", [N("exemplarCity", {}, "x")])]),
                         N("calendars", {}, "", [N("calendar", {"type": "generic"}), N("calendar", {"type": "gregorian"}), N("calendar", {"type": "hebrew"}, "", [N("months")])])]),
        N("collations", {}, "", [N("collation", {"type": "standard"}), N("collation", {"type": "search", S + "modified": "true"})]),
        N("characters", {}, "", [N("exemplarCharacters", {"type": "auxiliary"}, "[z]")]),
    ]),
]


def ref_find(cur, path):
    for tag, attrs in path:
        cur = [k for c in cur for k in c.kids if k.tag == clark(tag) and all(k.attrs.get(clark(a), "") == v for a, v in attrs.items())]
        if not cur:
            return []
    return cur


def ref_ensure(root, path):
    cur = [root]
    for tag, attrs in path:
        nxt = [k for c in cur for k in c.kids if k.tag == clark(tag) and all(k.attrs.get(clark(a), "") == v for a, v in attrs.items())]
        if not nxt:
            n = N(clark(tag), {clark(a): v for a, v in attrs.items() if v})
            cur[0].kids.append(n)
            nxt = [n]
        cur = nxt
    return cur


def describe_ref(n):
    return (n.tag, tuple(sorted(n.attrs.items())), n.text, len(n.kids))


def describe(e):
    return (e.tag, tuple(sorted(e.attrib.items())), e.text or "", len(list(e)))


def ops(depthops):
    res = []
    for p in depthops:
        res += [("ensure", p), ("remove", p)]
    res += [("ensuretext", p) for p in ("lang", "lang2", "ex", "url") if p in depthops]
    res += [("settext", p) for p in ("lang", "ex", "url") if p in depthops]
    res += [("base", "font", "url"), ("base", "langs", "lang2"), ("write",)]
    return res


def history(names, depth):
    table = ops(names)

    def case(ch):
        init = ch.pick(INITS)
        ref = init.copy()
        src = write(ref, {SIL: "sil"})
        drafts = ch.flag()
        doc = subj.ldml(src, usedrafts=drafts)
        # elements with several matches: the reading order is the normal form, so order the reference alike
        ref = read(subj.text_of(subj.ldml(src)))
        strip(ref)
        ch.note("document:", src)
        for step in range(depth):
            op = ch.pick([None] + table)
            if op is None:
                break
            ch.note(op)
            if op[0] == "ensure":
                got = doc.ensure_path(text(PATHS[op[1]]))
                want = ref_ensure(ref, PATHS[op[1]])
                compare(got, want, op)
                again = doc.ensure_path(text(PATHS[op[1]]))
                if [id(x) for x in again] != [id(x) for x in got]:
                    raise core.Violation("ensuring the same path again returned other elements")
            elif op[0] == "ensuretext":
                path, t = PATHS[op[1]], "v%d" % (step % 2)
                have = ref_find([ref], path)
                if have and (drafts or have[0].kids):
                    raise core.Skip()       # becomes a draft alternate, see C03
                if not have:
                    ref_ensure(ref, path)[0].text = t
                elif not [x for x in have if x.text == t]:
                    up = [x for x in walk(ref) if any(k is have[0] for k in x.kids)][0]
                    up.kids.append(N(have[0].tag, {clark(k): v for k, v in path[-1][1].items() if v}, t))
                compare(doc.ensure_path(text(path), text=t), [x for x in ref_find([ref], path) if x.text == t], op)
            elif op[0] == "remove":
                got = doc.remove_path(text(PATHS[op[1]]))
                want = ref_find([ref], PATHS[op[1]])
                compare(got, want, op)
                for w in want:
                    for par in walk(ref):
                        par.kids = [k for k in par.kids if k is not w]
                if doc.find(text(PATHS[op[1]])) is not None:
                    raise core.Violation("a removed path is still found")
            elif op[0] == "settext":
                e = doc.find(text(PATHS[op[1]]))
                w = ref_find([ref], PATHS[op[1]])
                if (e is None) != (not w):
                    raise core.Violation("lookup of %s: found %r, expected %r" % (op[1], e, w))
                if e is not None and not w[0].kids:
                    e.text = w[0].text = "t%d" % step
            elif op[0] == "base":
                b = doc.find(text(PATHS[op[1]]))
                w = ref_find([ref], PATHS[op[1]])
                if w:
                    rel = PATHS[op[2]][len(PATHS[op[1]]):]
                    got = doc.ensure_path("./" + text(rel) if step % 2 else text(rel), base=b)
                    compare(got, ref_ensure(w[0], rel), op)
            elif op[0] == "write":
                subj.text_of(doc)
            # lookups never change anything and agree with the reference
            for p in names:
                got = doc.findall(text(PATHS[p]))
                compare(got, ref_find([ref], PATHS[p]), ("findall", p))
                f = doc.find(text(PATHS[p]))
                if (f is not None) != bool(got) or (got and f is not got[0]):
                    raise core.Violation("find and findall disagree for %s" % p)
        out = subj.text_of(doc)
        ch.seen(out)
        d = diff(canon(ref, comments=False), canon(read(out), comments=False))
        if d:
            raise core.Violation("document differs from the reference: " + d, output=out)
        # every element can be found again by its own path
        for e in doc.root.iter():
            p = doc.as_xpath(e)
            if e is doc.root:
                continue
            if not any(x is e for x in doc.findall(p)):
                raise core.Violation("the path %r given for an element does not find it" % p)
    return case


def walk(n):
    yield n
    for k in n.kids:
        yield from walk(k)


def strip(n):
    for x in walk(n):
        if x.kids:
            x.text = ""


def compare(got, want, op):
    g = [describe(e) for e in got]
    w = [describe_ref(n) for n in want]
    if g != w:
        raise core.Violation("%r returned %r, expected %r" % (op, g, w))


def harnesses(tier):
    d = 2 if tier == "quick" else 3
    a = ["lang", "lang2", "anylang", "ex", "exaux", "anyex", "font", "url", "twoattr", "oneattr", "zone", "zone2", "nsattr", "deep", "anymonths", "quoted", "equals", "spaced", "top"]
    b = ["lang", "langs", "font", "url", "top", "anymonths", "anycal"]
    return [dict(name="wide", case=history(a, d), setup=subj.warm, bounds="3 documents x every history of at most %d of %d operations" % (d, len(ops(a)))),
            dict(name="deep", case=history(b, d + 1), setup=subj.warm, bounds="3 documents x every history of at most %d of %d operations" % (d + 1, len(ops(b))))]
