"""C09: resolving aliases puts the resolved content of the named element in place of each alias, and always comes back."""
import os, re, shutil
from mc import core, subj, inherit
from mc.xmlmodel import N, SIL, read, write, canon, diff, normtext, walk

ASSUMPTIONS = ["the path of an alias is relative to the element that holds the alias, and leads through elements the document has",
               "the content of an element on an alias loop, or below an alias without target, is not part of the property; that resolution ends is"]
CALS = ("chinese", "generic", "gregorian")
LEVELS = ("calendar", "months", "monthContext")
ATTRS = {"calendar": None, "months": {}, "monthContext": {"type": "format"}}


class Any:
    """content the property says nothing about"""


def where(cal, level):
    """path steps from calendars to an element"""
    s = [("calendar", {"type": cal})]
    if level > 0:
        s.append(("months", {}))
    if level > 1:
        s.append(("monthContext", {"type": "format"}))
    return s


def relative(frm, to):
    k = 0
    while k < len(frm) and k < len(to) and frm[k] == to[k]:
        k += 1
    k = min(k, len(to) - 1)         # name at least the element itself
    return "/".join([".."] * (len(frm) - k) + [t + "".join("[@%s='%s']" % x for x in a.items()) for t, a in to[k:]])


def value(cal):
    """the full content of a calendar"""
    w = cal[:3]
    return [N("months", {}, "", [N("monthContext", {"type": "format"}, "", [N("monthWidth", {"type": "wide"}, "", [
                N("month", {"type": "1"}, "J" + w), N("month", {"type": "2", "draft": "contributed"}, "F" + w), N("month", {"type": "2", "draft": "tentative", "alt": "x"}, "f" + w)])])]),
            N("quarters", {}, "Q" + w), N("eras", {}, "E" + w)]


def calendar(cal, state):
    c = N("calendar", {"type": cal}, "", value(cal))
    if state is not None:
        level, path = state
        at = c
        for i in range(level):
            at = at.kids[0]
        at.kids = [N("alias", {"source": "locale", "path": path})]
    return c


STEP = re.compile(r"([A-Za-z]+)((?:\[@[a-z]+='[^']*'\])*)$")


def lookup(parents, n, path):
    for s in path.split("/"):
        if s == "..":
            n = parents.get(id(n))
            if n is None:
                return None
            continue
        m = STEP.match(s)
        a = dict(re.findall(r"\[@([a-z]+)='([^']*)'\]", m.group(2)))
        n = next((k for k in n.kids if k.tag == m.group(1) and all(k.attrs.get(x) == y for x, y in a.items())), None)
        if n is None:
            return None
    return n


def reference(root):
    """the document with aliases resolved; N with text Any where nothing is demanded"""
    parents = {}

    def link(n):
        for k in n.kids:
            parents[id(k)] = n
            link(k)
    link(root)

    def content(n, stack):
        """(kids, loop?)"""
        if n in stack:
            return [], True
        stack = stack + [n]
        al = [k for k in n.kids if k.tag == "alias" and "path" in k.attrs]
        if al:
            res = []
            for a in al:
                t = lookup(parents, n, a.attrs["path"])
                if t is None:
                    return [N("any", {}, Any)], False
                kids, loop = content(t, stack)
                if loop:
                    return [N("any", {}, Any)], True
                res += [k.copy() for k in kids]
            return res, False
        res, loop = [], False
        for k in n.kids:
            kk, l = content(k, stack)
            loop |= l
            res.append(N(k.tag, k.attrs, k.text, kk))
        return res, loop
    return N(root.tag, root.attrs, root.text, content(root, [])[0])


def compare(want, got, at="", ordered=True):
    at += "/" + want.tag + ("[%s]" % want.attrs["type"] if "type" in want.attrs else "")
    if any(k.text is Any for k in want.kids):
        return None
    if want.attrs != got.attrs or not want.kids and normtext(want.text) != normtext(got.text):
        return "%s: %r became %r" % (at, want, got)
    key = lambda k: (k.tag, sorted(k.attrs.items()))
    a, b = sorted(want.kids, key=key), sorted(got.kids, key=key)
    if [key(k) for k in a] != [key(k) for k in b]:
        return "%s: holds %r instead of %r" % (at, [key(k) for k in b], [key(k) for k in a])
    if ordered and [key(k) for k in want.kids] != [key(k) for k in got.kids]:
        return "%s: holds %r instead of %r" % (at, [key(k) for k in got.kids], [key(k) for k in want.kids])
    for x, y in zip(a, b):
        d = compare(x, y, at, ordered)
        if d:
            return d
    return None


def doc(cals, ident="aa"):
    return N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": ident})]), N("dates", {}, "", [N("calendars", {}, "", cals)])])


def targets(levels):
    return [(c, l) for c in CALS for l in levels] + [None]


def states(cal, levels, tlevels):
    r = [None]
    for l in levels:
        for t in targets(tlevels):
            r.append((l, relative(where(cal, l), where(*t)) if t else "../missing"))
    return r


def judge(ch, root, out):
    got = read(out)
    ch.seen(out)
    d = compare(reference(root), got)
    if d:
        raise core.Violation("wrong content in place of an alias: " + d, output=out)


def graphs(levels, tlevels):
    def case(ch):
        cals = [calendar(c, ch.pick(states(c, levels, tlevels))) for c in CALS]
        root = doc(cals)
        text = write(root, {SIL: "sil"})
        ch.note(text)
        d = subj.merge_doc(text)
        d.resolve_aliases()
        out = subj.text_of(d)
        judge(ch, root, out)
        d.resolve_aliases()
        if subj.text_of(d) != out:
            raise core.Violation("resolving a second time changes the document", first=out, second=subj.text_of(d))
    return case


def double(ch):
    """elements with up to two aliases; every calendar has content of its own kind"""
    cals = []
    kinds = ("months", "days", "quarters", "eras")
    names = CALS + ("islamic",)
    for c, kind in zip(names, kinds):
        first, second = ch.pick([None] + [n for n in names if n != c]), None
        if first is not None:
            second = ch.pick([None] + [n for n in names if n not in (c, first)])
        k = N("calendar", {"type": c}, "", [N("alias", {"source": "locale", "path": "../calendar[@type='%s']" % n}) for n in (first, second) if n])
        if first is None:
            k.kids = [N(kind, {}, "v" + kind)]
        cals.append(k)
    root = doc(cals)
    text = write(root, {SIL: "sil"})
    want = reference(root)
    for x in walk(want):
        if x.text is Any:
            raise core.Skip()       # several aliases in one element and a loop: beyond what the DTD and the specification allow
    ch.note(text)
    d = subj.merge_doc(text)
    d.resolve_aliases()
    out = subj.text_of(d)
    ch.seen(out)
    dd = compare(want, read(out), ordered=False)      # the order of several aliases in one element is not specified
    if dd:
        raise core.Violation("wrong content in place of an alias: " + dd, output=out)


def continued(ch):
    """a document whose aliases were resolved behaves in further operations like the same document read from its text"""
    cals = [calendar(c, ch.pick(states(c, (0, 1), (0, 1)))) for c in CALS]
    hollow = ch.pick([None] + list(CALS))
    for c in cals:
        if c.attrs["type"] == hollow:       # an element without content, for aliases to lead to
            if c.kids[0].tag == "alias" or c.kids[0].kids[0].tag == "alias":
                raise core.Skip()
            c.kids[0].kids = []
    text = write(doc(cals), {SIL: "sil"})
    ch.note(text)

    def resolved():
        d = subj.merge_doc(text)
        d.resolve_aliases()
        return d
    plain = subj.text_of(resolved())
    if "<alias" in plain or any(x.text is Any for x in walk(reference(doc(cals)))):
        raise core.Skip()
    op = ch.pick(["difference", "from", "merge", "taken"])
    var = ch.pick([None] + list(CALS) + ["unresolved"])
    o = read(text if var == "unresolved" else plain)
    for c in o.kids[-1].kids[0].kids:
        if c.attrs["type"] == var:
            for x in walk(c):
                if x.tag == "month" and x.attrs.get("type") == "1":
                    x.text = "X"
    other = write(o, {SIL: "sil"})
    ch.note(op, "with", var, "changed")

    def act(d):
        x = subj.merge_doc(other)
        if op == "difference":
            d.difference(x)
        elif op == "from":
            x.difference(d)
            d = x
        elif op == "merge":
            d.merge(x, subj.merge_doc(plain), default="proposed")
        else:
            x.merge(d, subj.merge_doc(other), default="proposed")
            d = x
        d.normalise()
        return subj.text_of(d)
    got, want = act(resolved()), act(subj.merge_doc(plain))
    ch.seen(got)
    dd = diff(canon(read(want)), canon(read(got)))
    if dd:
        raise core.Violation("%s behaves differently after resolving than after reading the resolved document: %s" % (op, dd), got=got, want=want)


def chain(ch):
    """aliases that inheritance brings in: values of the locale itself are used, at whatever level the alias stands"""
    files = {}
    for loc in ("aa", "root"):
        cals = []
        for c in CALS:
            opts = ["absent", None] + ([s for s in states(c, (0, 1), (0, 1)) if s] if loc == "root" else [])
            s = ch.pick(opts)
            if s != "absent":
                cals.append(calendar(c, s))
        files[loc] = doc(cals, loc)
        if not cals:
            files[loc].kids.pop()
    ch.note({k: write(v, {}, decl=False) for k, v in files.items()})
    full = inherit.load(files["aa"])
    inherit.overlay(full, inherit.load(files["root"]))
    d = core.scratch()
    try:
        for k, v in files.items():
            with open(os.path.join(d, k + ".xml"), "w", encoding="utf-8") as f:
                f.write(write(v, {SIL: "sil"}))
        r = subj.mod("ldml_merge").flattenlocale("aa", dirs=[d], resolveAlias=True)
        judge(ch, full, subj.text_of(r))
    finally:
        shutil.rmtree(d)


def edited(ch):
    """what an alias brought in belongs to the place it was put: editing it changes nothing else, and drafts work"""
    d = subj.merge_doc(write(doc([calendar("chinese", None), calendar("generic", ch.pick([(0, "../calendar[@type='gregorian']"), (1, "../../calendar[@type='gregorian']/months")])),
                                  calendar("gregorian", None)]), {SIL: "sil"}))
    d.resolve_aliases()
    p = "dates/calendars/calendar[@type=\"%s\"]/months/monthContext[@type=\"format\"]/monthWidth[@type=\"wide\"]/month[@type=\"%s\"]"
    before = read(subj.text_of(d))
    target = ch.pick(["generic", "gregorian"])
    m = ch.pick(["1", "2"])
    how = ch.pick(["text", "draft", "worse", "remove"])
    ch.note(target, m, how)
    found = d.findall(p % (target, m))
    if len(found) != 1:
        raise core.Violation("%d elements in place of one" % len(found))
    if how == "text":
        found[0].text = "new"
    elif how in ("draft", "worse"):
        d.ensure_path(p % (target, m), text="new", draft={"draft": "approved", "worse": "generated"}[how])
    else:
        d.remove_path(p % (target, m))
    after = read(subj.text_of(d))

    def cals(n):
        return {c.attrs["type"]: c for c in n.kids[-1].kids[0].kids}
    a, b = cals(before), cals(after)
    for k in a:
        if k != target and canon(a[k]) != canon(b[k]):
            raise core.Violation("editing %s changed %s: %s" % (target, k, diff(canon(a[k]), canon(b[k]))))
    ms = [x for x in b[target].kids[0].kids[0].kids[0].kids if x.attrs["type"] == m] if b[target].kids[0].kids and b[target].kids[0].kids[0].kids else []
    main = [x.text for x in ms if "alt" not in x.attrs]
    want = {"text": "new", "draft": "new", "remove": None, "worse": {"1": "J", "2": "F"}[m] + "gre"}[how]
    if how == "draft" and m == "1":     # it has the best draft already
        want = "Jgre"
    if main != ([want] if want else []):
        raise core.Violation("the month is %r after %s" % ([(x.attrs, x.text) for x in ms], how))


def harnesses(tier):
    t = tier != "quick"
    return [dict(name="graphs", case=graphs((0, 1, 2), (0, 1, 2)), setup=subj.warm,
                 bounds="3 calendars, each with values or with an alias at one of 3 levels to any of 9 elements or to nothing: every alias graph") if t else
            dict(name="graphs", case=graphs((0, 1), (0, 1)), setup=subj.warm,
                 bounds="3 calendars, each with values or with an alias at one of 2 levels to any of 6 elements or to nothing: every alias graph"),
            dict(name="double", case=double, setup=subj.warm, bounds="4 calendars, each with content of its own or with one or two aliases to others"),
            dict(name="continued", case=continued, setup=subj.warm, bounds="every alias graph of 2 levels without aliases left over, then each of 4 operations with each of 5 variants of the result"),
            dict(name="chain", case=chain, setup=subj.warm, bounds="locale and root, 3 calendars each absent or with values, in root also with an alias at 2 levels to any of 6 elements or nothing"),
            dict(name="edited", case=edited, setup=subj.warm, bounds="2 aliases x 2 targets x 2 values x 4 edits")]
