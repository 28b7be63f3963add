"""C06: unflattening removes only what inheritance restores, and everything that it restores."""
import os, shutil
from mc import core, subj, inherit
from mc.inherit import S, key
from mc.xmlmodel import N, SIL, read, write, canon, diff, walk

ASSUMPTIONS = ["identity and collations are not inherited, so a child whose identity or collation equals its parent's is outside the domain",
               "a parent holds an alias only as the single child of an element"]


def path(tags, *kids):
    n = None
    for t in reversed(tags):
        n = N(t[0], t[1], "", list(kids) if n is None else [n])
    return n


def merge_in(root, n):
    """add path n to root, sharing containers"""
    for k in root.kids:
        if key(k) == key(n) and n.kids and k.attrs == n.attrs:
            for x in n.kids:
                merge_in(k, x)
            return
    root.kids.append(n)


def leaf(tags, tag, attrs=None):
    return lambda v: [path(tags, N(tag, dict(attrs or {}), v))]


LANGS = [("localeDisplayNames", {}), ("languages", {})]
MON = [("dates", {}), ("calendars", {}), ("calendar", {"type": "gregorian"}), ("months", {}), ("monthContext", {"type": "format"}), ("monthWidth", {"type": "wide"})]
RES = [("special", {}), (S + "external-resources", {})]
DEL = [("delimiters", {}), ("special", {}), (S + "matched-pairs", {})]


def quotation(v):
    return [path([("delimiters", {}), ("special", {}), (S + "quotation-marks", {})], N(S + "quotation", {"level": "1", "open": v, "close": "x"}))]


def alts(v):
    """a primary value with two alternates, told apart by v"""
    return [path(LANGS, N("language", {"type": "dd", "draft": "contributed"}, "D" + ("2" if v == "2" else ""))),
            path(LANGS, N("language", {"type": "dd", "alt": "proposed", "draft": "tentative"}, "P" + ("" if v == "3" else "1"))),
            path(LANGS, N("language", {"type": "dd", "alt": "variant", "draft": "suspect"}, "Q" + ("" if v == "2" else "1")))]


def notes(v):
    return [path([("localeDisplayNames", {}), ("codePatterns", {})], N("codePattern", {"type": "language", "zz": v}, "same"))]


def container(v):
    """a container with an attribute of its own that does not tell it apart from others"""
    return [path([("numbers", {}), ("currencies", {}), ("currency", {"type": "XXX"} | ({"zz": v} if v != "3" else {}))], N("symbol", {}, "X"))]


SLOTS = {
    "aa": leaf(LANGS, "language", {"type": "aa"}),
    "bb": leaf(LANGS, "language", {"type": "bb"}),
    "alts": alts,
    "m1": leaf(MON, "month", {"type": "1"}),
    "m2": leaf(MON, "month", {"type": "2"}),
    "ex": leaf([("characters", {})], "exemplarCharacters"),
    "quot": quotation,
    "nonkey": notes,
    "cont": container,
    "kbd": lambda v: [path(RES, N(S + "kbd", {"id": "k", "type": "kmp"}, "", [N(S + "url", {}, "u" + v)]))],
    "fontA": lambda v: [path(RES, N(S + "font", {"name": "A", "types": "default" if v == "1" else "ui"}))],
    "fontB": lambda v: [path(RES, N(S + "font", {"name": "B", "types": "ui heading"}, "", [N(S + "url", {}, "b" + v)]))],
    "fontC": lambda v: [path(RES, N(S + "font", {"name": "C" + v}))],
    "reord": leaf([("special", {})], S + "reordered"),
    "alias": lambda v: [path([("dates", {}), ("calendars", {}), ("calendar", {"type": "generic"})], N("alias", {"source": "locale", "path": "../calendar[@type='%s']" % v}))],
    "generic": lambda v: [path([("dates", {}), ("calendars", {}), ("calendar", {"type": "generic"}), ("months", {})], N("default", {"type": "x" + v}))],
    "empty": lambda v: [path([("layout", {}), ("orientation", {})], *([] if v == "1" else [N("characterOrder", {}, v)]))],
}
STATES = [("1", "1"), ("1", "2"), ("2", "1"), (None, "1"), ("1", None), (None, None), ("1", "3"), ("3", "1")]


def build(lang, slots):
    r = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": lang})])])
    for s, v in slots.items():
        if v is not None:
            for n in SLOTS[s](v):
                merge_in(r, n)
    return r


def text(n):
    return write(n, {SIL: "sil"})


def primaries(n):
    n = n.copy()

    def f(x):
        x.kids = [k for k in x.kids if "alt" not in k.attrs]
        for k in x.kids:
            f(k)
    f(n)
    return n


def prune(n):
    """without empty containers"""
    n = n.copy()

    def f(x):
        for k in x.kids:
            f(k)
        x.kids = [k for k in x.kids if k.kids or k.text or k.tag in ("alias", S + "font", S + "quotation", "default", "language", "codePattern")]
    f(n)
    return n


def judge(c, p, ch):
    M = subj.merge_doc
    ct, pt = text(c), text(p)
    ch.note("child:", ct)
    ch.note("parent:", pt)
    if any(k.tag == "alias" for x in walk(p) if len(x.kids) > 1 for k in x.kids) or any(k.tag == "alias" for x in walk(c) if len(x.kids) > 1 for k in x.kids):
        raise core.Skip()
    P0 = subj.text_of(M(pt))
    C0 = read(subj.text_of(M(ct)))
    P = M(pt)
    u = M(ct)
    u.difference(P)
    ut = subj.text_of(u)
    ch.note("difference:", ut)
    ch.seen(ut)
    if subj.text_of(P) != P0:
        raise core.Violation("unflattening changed the parent document")
    full = M(ct)
    full.overlay(M(pt))
    want = read(subj.text_of(full))
    back = M(ut)
    back.overlay(M(pt))
    have = read(subj.text_of(back))
    d = diff(canon(prune(primaries(want)), comments=False), canon(prune(primaries(have)), comments=False))
    if d:
        raise core.Violation("flattening the unflattened document differs from flattening the original: " + d, difference=ut)
    # alternates of the child survive
    alt = lambda n: {(key(x), x.attrs.get("alt"), x.attrs.get("draft"), x.text) for x in walk(n) if "alt" in x.attrs}
    if not alt(C0) <= alt(have):
        raise core.Violation("an alternate of the child was lost: %r" % sorted(alt(C0) - alt(have)), difference=ut)
    # nothing invented, nothing left that the parent has
    U = read(ut)

    def minimal(un, cn, pn, where):
        for k in un.kids:
            cm = [x for x in cn.kids if key(x) == key(k) and x.attrs.get("alt") == k.attrs.get("alt")]
            if not cm:
                raise core.Violation("%s/%s was not in the document before" % (where, k.tag), difference=ut)
            if "alt" in k.attrs or k.tag == S + "font":
                continue
            if not k.kids and not cm[0].kids and canon(k) != canon(cm[0]):
                raise core.Violation("%s/%s: value changed by unflattening" % (where, k.tag), difference=ut)
            pm = [x for x in pn.kids if key(x) == key(k) and "alt" not in x.attrs] if pn is not None else []
            if pm and not k.kids and not pm[0].kids and k.text == pm[0].text and strip(k) == strip(pm[0]) and not any(key(x) == key(k) and "alt" in x.attrs for x in un.kids):
                raise core.Violation("%s/%s is the same as in the parent but was kept" % (where, k.tag), difference=ut)
            if pm and not k.kids and cm[0].kids and strip(k) == strip(pm[0]):
                raise core.Violation("%s/%s: an empty element was left behind" % (where, k.tag), difference=ut)
            minimal(k, cm[0], pm[0] if pm else None, where + "/" + k.tag)
    minimal(U, C0, read(P0), "")
    again = M(ut)
    again.difference(M(pt))
    if subj.text_of(again) != ut:
        raise core.Violation("unflattening twice removes more", difference=ut)


def strip(n):
    return {k: v for k, v in n.attrs.items() if k not in ("draft", "alt")}


def memory(ch):
    base = ch.pick([("1", "1"), (None, None)])
    cs, ps = {}, {}
    states = [base] + [s for s in STATES if s != base]
    for s in SLOTS:
        cs[s], ps[s] = ch.dev(states)
    judge(build("bb", cs), build("aa", ps), ch)


GROUP = ["fontA", "fontB", "fontC", "kbd", "reord"]


def fonts(ch):
    """every combination of the external resources"""
    cs, ps = {}, {}
    for s in GROUP:
        cs[s], ps[s] = ch.pick(STATES[:6])
    judge(build("bb", cs), build("aa", ps), ch)


def workflow(ch):
    """flatten a set of source files, unflatten the result, flatten again: the flat files are the same"""
    m = subj.mod("ldml_merge")
    d = core.scratch()
    try:
        # each slot is present with some value at each level, or not
        names = ["aa", "m1", "alts", "fontA", "quot"]
        locs = ["root", "aa", "aa_ZZ"]
        files = {}
        for l in locs:
            files[l] = build(l.split("_")[0], {})
        for s in names:
            row = ch.dev([(1, 0, 0), (0, 0, 0), (0, 1, 0), (1, 1, 0), (1, 2, 0), (0, 1, 1), (0, 1, 2), (1, 0, 1), (1, 0, 2), (1, 2, 1), (1, 2, 2), (1, 1, 2), (1, 2, 3)])
            for l, v in zip(locs, row):
                if v:
                    for n in SLOTS[s](str(v)):
                        merge_in(files[l], n)
        ids = iter("123")
        for l in locs:
            files[l].kids[0].kids.insert(0, N("version", {"number": next(ids)}))
        ch.note("files:", {l: write(n, {SIL: "sil"}, decl=False) for l, n in files.items()})

        def run(src, dst, rev):
            os.makedirs(os.path.join(d, dst))
            for l in locs:
                doc = m.flattenlocale(l, dirs=[os.path.join(d, src)], rev=rev)
                doc.normalise()
                doc.save_as(os.path.join(d, dst, l + ".xml"))
        os.makedirs(os.path.join(d, "src"))
        for l, n in files.items():
            with open(os.path.join(d, "src", l + ".xml"), "w", encoding="utf-8") as f:
                f.write(write(n, {SIL: "sil"}))
        run("src", "flat", "f")
        run("flat", "unflat", "r")
        run("unflat", "flat2", "f")
        run("src", "copy", "c")
        for l in locs:
            a, b = (open(os.path.join(d, x, l + ".xml"), encoding="utf-8").read() for x in ("flat", "flat2"))
            df = diff(canon(primaries(read(a)), comments=False), canon(primaries(read(b)), comments=False))
            if df:
                raise core.Violation("%s: flattening the unflattened files gives another result: %s" % (l, df), flat=a, again=b,
                                     unflat=open(os.path.join(d, "unflat", l + ".xml"), encoding="utf-8").read())
            c = read(open(os.path.join(d, "copy", l + ".xml"), encoding="utf-8").read())
            df = diff(canon(files[l], comments=False), canon(c, comments=False))
            if df:
                raise core.Violation("%s: copying changed the document: %s" % (l, df))
            ch.seen(a)
    finally:
        shutil.rmtree(d)


def harnesses(tier):
    q = tier == "quick"
    k = 2 if q else 3
    return [dict(name="memory", case=memory, bound=k, setup=subj.warm,
                 bounds="2 baselines, at most %d of %d parts in one of 7 other child/parent states" % (k, len(SLOTS))),
            dict(name="fonts", case=fonts, setup=subj.warm, bounds="all 6 states of %d kinds of external resource" % len(GROUP)),
            dict(name="workflow", case=workflow, bound=2 if q else 4, setup=subj.warm,
                 bounds="three files, at most %d of 5 parts in one of 12 other distributions over the chain" % (2 if q else 4))]
