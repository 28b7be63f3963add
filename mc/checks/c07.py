"""C07: merging takes over the changes of the other side, keeps ours, and treats equal documents as equal."""
from mc import core, subj
from mc.inherit import S
from mc.xmlmodel import N, SIL, read, write, canon, diff, walk
from mc.checks.c06 import path, merge_in, leaf, LANGS, MON, RES

ASSUMPTIONS = ["when both sides change one value differently either side's value may win; which one is not part of the property",
               "a value is told apart from its siblings by its name and distinguishing attributes"]

SLOTS = {
    "aa": leaf(LANGS, "language", {"type": "aa"}),
    "bb": leaf(LANGS, "language", {"type": "bb"}),
    "m1": leaf(MON, "month", {"type": "1"}),
    "ex": leaf([("characters", {})], "exemplarCharacters"),
    "exaux": leaf([("characters", {})], "exemplarCharacters", {"type": "auxiliary"}),
    "attr": lambda v: [path([("localeDisplayNames", {}), ("codePatterns", {})], N("codePattern", {"type": "language", "zz": v}, "same"))],
    "latt": lambda v: [],       # an attribute of the element that holds aa and bb, see build
    "url": lambda v: [path(RES, N(S + "kbd", {"id": "k", "type": "kmp"}, "", [N(S + "url", {}, "u" + v)]))],
    "reord": leaf([("special", {})], S + "reordered"),
    "cr": lambda v: [path([("collations", {}), ("collation", {"type": "standard"})], N("cr", {}, "&a<" + v))],
}


def build(slots):
    r = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "en"})])])
    for s, v in slots.items():
        if v is not None:
            for n in SLOTS[s](v):
                merge_in(r, n)
    if slots.get("latt"):
        d = [k for k in r.kids if k.tag == "localeDisplayNames"] or [N("localeDisplayNames")]
        l = [k for k in d[0].kids if k.tag == "languages"] or [N("languages")]
        l[0].attrs["zz"] = slots["latt"]
        d[0].kids += [x for x in l if x not in d[0].kids]
        r.kids += [x for x in d if x not in r.kids]
    return r


def text(n):
    return write(n, {SIL: "sil"})


def contents(root):
    """slot -> value found in a document (None when absent); raises when a slot occurs twice"""
    res = {}

    def find(tags):
        cur = [root]
        for t, a in tags:
            cur = [k for c in cur for k in c.kids if k.tag == t and all(k.attrs.get(x, "") == v for x, v in a.items())]
        return cur
    look = {
        "aa": (LANGS + [("language", {"type": "aa"})], None), "bb": (LANGS + [("language", {"type": "bb"})], None),
        "m1": (MON + [("month", {"type": "1"})], None), "ex": ([("characters", {}), ("exemplarCharacters", {"type": ""})], None),
        "exaux": ([("characters", {}), ("exemplarCharacters", {"type": "auxiliary"})], None),
        "attr": ([("localeDisplayNames", {}), ("codePatterns", {}), ("codePattern", {"type": "language"})], "zz"),
        "url": (RES + [(S + "kbd", {"id": "k"}), (S + "url", {})], None), "latt": (LANGS, "zz"), "reord": ([("special", {}), (S + "reordered", {})], None),
        "cr": ([("collations", {}), ("collation", {"type": "standard"}), ("cr", {})], None)}
    for s, (p, attr) in look.items():
        f = [x for x in find(p) if "alt" not in x.attrs]
        if len(f) > 1:
            raise core.Violation("%s occurs %d times in the merged document" % (s, len(f)), output=repr(root))
        v = None
        if f:
            v = f[0].attrs.get(attr) if attr else f[0].text
            v = v and v.lstrip("u").replace("&a<", "").strip() or None
        res[s] = v
    return res


def norm(n):
    """without containers that hold nothing"""
    n = n.copy()

    def f(x):
        for k in x.kids:
            f(k)
        x.kids = [k for k in x.kids if k.kids or k.text.strip() or k.attrs and k.tag in ("language", "version", "codePattern", "languages")]
    f(n)
    return n


SHARED = [("aa", "bb", "attr", "latt"), ("ex", "exaux"), ("url", "reord"), ("aa", "bb", "latt")]


def removed(s, doc, rival, base):
    """the element that holds s and other values is gone from doc, and the other side changed it"""
    return any(s in g and all(doc[x] is None for x in g) and any(rival[x] != base[x] for x in g) for g in SHARED)


def check(ch, t, o, b, default):
    M = subj.merge_doc
    lay = ch.dev([""] + ["t", "o", "b", "to", "tb", "ob", "tob"] if b is not None else ["", "t", "o", "to"])     # indented ones
    T, O = write(build(t), {SIL: "sil"}, pretty="t" in lay), write(build(o), {SIL: "sil"}, pretty="o" in lay)
    B = write(build(b), {SIL: "sil"}, pretty="b" in lay) if b is not None else None
    ch.note("indented:", lay)
    ch.note("ours:", t)
    ch.note("theirs:", o)
    ch.note("base:", b)
    l = M(T)
    other = M(O)
    base = M(B) if b is not None else None
    changed = l.merge(other, base, default=default)
    l.normalise()
    l.normalise(usedrafts=True)
    out = subj.text_of(l)
    ch.seen(out)
    root = read(out)
    got = contents(root)
    if any(c for x in walk(root) for c in x.before + x.end) and not any(t[s] != o[s] and (b is None or b[s] not in (t[s], o[s])) for s in SLOTS):
        raise core.Violation("merging documents without conflicts added comments", output=out)
    if any("alt" in x.attrs for x in walk(root)):
        raise core.Violation("merging documents without alternates created some", output=out)
    for s in SLOTS:
        tv, ov, bv = t[s], o[s], (b[s] if b is not None else None)
        if b is not None and bv is not None and (removed(s, t, o, b) or removed(s, o, t, b)):
            want = {tv, ov}     # a whole element went on one side and was changed on the other
        elif tv == ov:
            want = {tv}
        elif b is not None and tv == bv:
            want = {ov}
        elif b is not None and ov == bv:
            want = {tv}
        elif tv is None or ov is None:
            want = {tv, ov} if b is not None else {tv or ov}
        else:
            want = {tv, ov}
        if got[s] not in want:
            raise core.Violation("%s: ours %r, theirs %r, base %r merged to %r" % (s, tv, ov, bv, got[s]), output=out)
    # the merged document is made of nothing else
    d = diff(canon(norm(build(got)), comments=False), canon(norm(root), comments=False))
    if d:
        raise core.Violation("the merged document has other content: " + d, output=out)
    if b is not None and not changed and canon(norm(root), False) != canon(norm(read(T)), False):
        raise core.Violation("the merge changed the document but reported no change", output=out)
    # reading it back gives the same
    again = subj.text_of(M(out))
    if again != out:
        raise core.Violation("the merged document is not in normal form", output=out, again=again)


V3 = [("1", "1", "1"), ("2", "1", "1"), ("1", "2", "1"), ("2", "2", "1"), ("2", "3", "1"), (None, "1", "1"), ("1", None, "1"), (None, None, "1"), (None, "2", "1"), ("2", None, "1"),
      (None, None, None), ("1", None, None), (None, "1", None), ("1", "1", None), ("1", "2", None)]


def three(ch):
    default = ch.pick(["proposed", None])
    baseline = ch.pick([V3[0], V3[10]])
    opts = [baseline] + [v for v in V3 if v != baseline]
    t, o, b = {}, {}, {}
    for s in SLOTS:
        t[s], o[s], b[s] = ch.dev(opts)
    check(ch, t, o, b, default)


def two(ch):
    default = ch.pick(["proposed", None])
    opts = [("1", "1"), (None, None), ("1", None), (None, "1"), ("1", "2")]
    t, o = {}, {}
    for s in SLOTS:
        t[s], o[s] = ch.dev(opts)
    check(ch, t, o, None, default)


DR = [None, "contributed", "provisional", "tentative", "suspect"]


def drafts(ch):
    """one value with drafts in three documents"""
    def one(who):
        v = ch.pick(["1", "2", "3", None]) if who != "base" else ch.pick(["1", None])
        return (v, ch.pick(DR) if v else None)
    b, t, o = one("base"), one("ours"), one("theirs")
    default = ch.pick(["proposed", "provisional", "suspect", "approved"])
    ch.note("base", b, "ours", t, "theirs", o, "default", default)

    def doc(x):
        k = [N("language", {"type": "aa"} | ({"draft": x[1]} if x[1] else {}), x[0])] if x[0] else []
        return text(N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "en"})]), N("localeDisplayNames", {}, "", [N("languages", {}, "", k + [N("language", {"type": "zz"}, "z")])])]))
    M = subj.merge_doc
    l = M(doc(t))
    l.merge(M(doc(o)), M(doc(b)), default=default)
    l.normalise(usedrafts=True)
    out = subj.text_of(l)
    ch.seen(out)
    root = read(out)
    vals = [(k.attrs.get("alt"), k.attrs.get("draft"), k.text) for k in root.kids[1].kids[0].kids if k.attrs["type"] == "aa"]
    ch.note("result:", vals)
    prim = [v for v in vals if v[0] is None]
    if len(prim) > 1 or (vals and not prim) or len({v[0] for v in vals}) != len(vals):
        raise core.Violation("the merged values are %r" % (vals,))
    if any(v[2] not in (b[0], t[0], o[0]) for v in vals):
        raise core.Violation("a value from nowhere: %r" % (vals,))
    p = prim[0][2] if prim else None
    texts = [v[2] for v in vals]
    if t[0] == o[0] == b[0] and texts != ([t[0]] if t[0] else []):
        raise core.Violation("all agree on %r but the merge gives %r" % (t[0], vals))
    rate = lambda d: RATE[d or "unconfirmed"]
    if b[0] is not None and t[0] is not None and t[0] != b[0] and t[0] not in texts:
        raise core.Violation("our own change was lost: %r" % (vals,))
    for mine, his in ((t, o), (o, t)):
        if his == b and mine[0] != b[0]:
            if mine[0] is None:
                if p is not None and rate(b[1]) >= 0 and b[0] is not None and p != b[0]:
                    raise core.Violation("a removed value became %r" % (vals,))
            elif mine[0] not in texts:
                raise core.Violation("the only change (%r) was lost: %r" % (mine, vals))
            elif b[0] is not None and rate(mine[1]) <= rate(b[1]) and p != mine[0]:
                raise core.Violation("the only change (%r) is no worse than the base but not the primary value: %r" % (mine, vals))


def alternates(ch):
    """a value and one alternate of it, in three documents: a change only one side made to the alternate is taken over"""
    def one(who):
        p = ch.pick(["1"] if who == "base" else ["1", "2"])
        a = ch.pick([None, ("a", None), ("a", "tentative")] + ([("b", None), ("b", "tentative"), ("b", "provisional")] if who != "base" else []))
        return (p, a)
    where = ch.pick(["leaf", "exemplars", "attribute"])
    pd = ch.pick([None, "contributed"])
    b, t, o = one("base"), one("ours"), one("theirs")
    default = ch.pick(["proposed", "unconfirmed"])
    ch.note(where, pd, "base", b, "ours", t, "theirs", o, "default", default)

    def doc(x):
        d = {"draft": pd} if pd else {}
        tag, at, up = {"leaf": ("language", {"type": "aa"}, LANGS), "exemplars": ("exemplarCharacters", {}, [("characters", {})]), "attribute": ("codePattern", {"type": "aa"}, [("localeDisplayNames", {}), ("codePatterns", {})])}[where]
        one = lambda a, v: N(tag, at | a, v) if where != "attribute" else N(tag, at | a | {"zz": v}, "same")
        k = [one(d, x[0])]
        if x[1]:
            k.append(one({"alt": "proposed"} | ({"draft": x[1][1]} if x[1][1] else {}), x[1][0]))
        return text(N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "en"})]), path(up, *k)]))
    M = subj.merge_doc
    l = M(doc(t))
    l.merge(M(doc(o)), M(doc(b)), default=default)
    l.normalise(usedrafts=True)
    out = subj.text_of(l)
    ch.seen(out)
    root = read(out)
    vals = [(x.attrs.get("alt"), x.attrs.get("draft"), x.attrs.get("zz", x.text)) for x in walk(root) if x.tag in ("language", "exemplarCharacters", "codePattern") and x.attrs.get("type") != "en"]
    prim = [v[2] for v in vals if v[0] is None]
    alts = [v for v in vals if v[0] is not None]
    if len(prim) != 1 or len({v[0] for v in vals}) != len(vals):
        raise core.Violation("the merged values are %r" % (vals,))
    texts = [v[2] for v in vals]
    rank = lambda x: RATE[x[1] or default] if (x[1] or default) in RATE else RATE["unconfirmed"]
    if t == o or o == b:
        want = t
    elif t == b:
        want = o
    else:
        want = None
    if want is not None and prim[0] != want[0]:
        raise core.Violation("the primary value should be %r: %r" % (want[0], vals))
    if o[0] == b[0] and prim[0] != t[0] or t[0] in (b[0], o[0]) and prim[0] != o[0]:
        raise core.Violation("the primary value became %r" % (vals,))
    # the alternate: only one side changed it
    if t[1] == b[1] and o[1] is not None and o[1] != b[1] and (b[1] is None or rank(o[1]) <= rank(b[1])) and o[1][0] not in texts:
        raise core.Violation("their alternate %r is not taken over: %r" % (o[1], vals))
    if o[1] == b[1] and t[1] is not None and t[1] != b[1] and (b[1] is None or rank(t[1]) <= rank(b[1])) and t[1][0] not in texts:
        raise core.Violation("our alternate %r is lost: %r" % (t[1], vals))
    if t[1] == o[1] and t[1] is not None and (b[1] is None or rank(t[1]) <= rank(b[1])) and t[1][0] not in texts:
        raise core.Violation("the alternate %r both have is lost: %r" % (t[1], vals))
    if any(v[2] not in [x for d in (b, t, o) for x in (d[0], d[1] and d[1][0])] for v in vals):
        raise core.Violation("a value from nowhere: %r" % (vals,))


def taken(ch):
    """our document is the base: the result is the other document"""
    def tree(part):
        r = N("localeDisplayNames")
        lat, aa, bb, pat, ptext = part
        if lat or aa or bb:
            r.kids.append(N("languages", {"zz": lat} if lat else {}, "", [N("language", {"type": k}, v) for k, v in (("aa", aa), ("bb", bb)) if v]))
        if pat or ptext:
            r.kids.append(N("codePatterns", {}, "", [N("codePattern", {"type": "language"} | ({"zz": pat} if pat else {}), ptext or "")]))
        return N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "en"})])] + ([r] if r.kids else []))
    v = [None, "1", "2"]
    t = tuple(ch.pick(v[:2] if i == 4 else v) for i in range(5))
    o = tuple(ch.pick(v) for i in range(5))
    T, O = text(tree(t)), text(tree(o))
    ch.note("base and ours:", t, "theirs:", o)
    l = subj.merge_doc(T)
    changed = l.merge(subj.merge_doc(O), subj.merge_doc(T), default="proposed")
    l.normalise(usedrafts=True)
    out = subj.text_of(l)
    d = diff(canon(norm(read(O)), comments=False), canon(norm(read(out)), comments=False))
    ch.seen((out, changed))
    if d:
        raise core.Violation("the result is not the other document: " + d, output=out, theirs=O)
    if not changed and canon(norm(read(O)), False) != canon(norm(read(T)), False):
        raise core.Violation("no change reported", ours=T, theirs=O)


RATE = {d: i for i, d in enumerate(["approved", "contributed", "provisional", "unconfirmed", "tentative", "generated", "suspect"])}


def harnesses(tier):
    k = 2 if tier == "quick" else 3
    return [dict(name="three-way", case=three, bound=k, setup=subj.warm,
                 bounds="2 baselines, at most %d of %d parts in one of 14 other states of the three documents" % (k, len(SLOTS))),
            dict(name="drafts", case=drafts, setup=subj.warm, bounds="all values and 5 draft marks of one value in three documents"),
            dict(name="alternates", case=alternates, setup=subj.warm, bounds="all texts and drafts of a value and its alternate in three documents"),
            dict(name="taken-over", case=taken, setup=subj.warm, bounds="all pairs of the documents of 5 parts at different depths, 2 values each"),
            dict(name="two-way", case=two, bound=k + 1, setup=subj.warm, bounds="at most %d of %d parts in one of 4 other states" % (k + 1, len(SLOTS)))]
