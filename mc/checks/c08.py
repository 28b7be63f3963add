"""C08: documents do not influence each other, and writing a document does not change it."""
from mc import core, subj
from mc.inherit import S
from mc.xmlmodel import N, SIL, read, write, canon, diff

ASSUMPTIONS = ["a document taking part in an operation as a source is only read",
               "the reference result of a document's operations is computed with a source that nothing else touches"]
X = "urn:x-other"


def docs():
    a = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "aa"})]),
                           N("localeDisplayNames", {}, "", [N("languages", {}, "", [N("language", {"type": "aa", "level": "1", "open": "x", "id": "1"}, "A"), N("language", {"type": "bb", "draft": "tentative"}, "AB"),
                                                                                   N("language", {"type": "bb", "draft": "suspect", "alt": "proposed"}, "AB2")])]),
                           N("special", {}, "", [N(S + "external-resources", {}, "", [N(S + "font", {"name": "F", "types": "ui"})])])])
    b = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "bb"})]),
                           N("localeDisplayNames", {}, "", [N("languages", {}, "", [N("language", {"type": "bb", "draft": "unconfirmed"}, "BB"), N("language", {"type": "cc", "draft": "provisional"}, "C"),
                                                                                   N("language", {"type": "cc", "draft": "tentative", "alt": "q"}, "C2")]),
                                                            N("scripts", {}, "", [N("script", {"type": "Latn"}, "L")])]),
                           N("dates", {}, "", [N("calendars", {}, "", [N("calendar", {"type": "generic"}, "", [N("alias", {"source": "locale", "path": "../calendar[@type='gregorian']"})]),
                                                                       N("calendar", {"type": "gregorian"}, "", [N("months", {}, "", [N("{%s}note" % X, {"{%s}k" % X: "1"}, "n")])])])]),
                           N("special", {}, "", [N(S + "external-resources", {}, "", [N(S + "font", {"name": "G", "types": "ui heading"}), N(S + "note", {}, "<n>")])])])
    b.kids.append(N("delimiters", {}, "", [N("special", {}, "", [
        N(S + "matched-pairs", {}, "", [N(S + "matched-pair", {"open": "(", "close": ")"}), N(S + "matched-pair", {"open": "[", "close": "]"})]),
        N(S + "quotation-marks", {}, "", [N(S + "quotation", {"level": "1", "open": "a", "close": "b"}), N(S + "quotation", {"level": "2", "open": "c"})])])]))
    p = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "root"})]), N("layout", {}, "", [N("orientation", {}, "", [N("characterOrder", {}, "ltr")])]),
                           N("localeDisplayNames", {}, "", [N("languages", {}, "", [N("language", {"type": "aa", "level": "2", "open": "y", "id": "2"}, "Aroot"), N("language", {"type": "cc"}, "Croot"), N("language", {"type": "dd"}, "Droot")])]),
                           N("special", {}, "", [N("{urn:y}thing", {}, "y")])])
    return {"A": write(a, {SIL: "sil"}), "B": write(b, {SIL: "s", X: "x"}), "P": write(p, {SIL: "q", "urn:y": "sil"})}


TEXTS = docs()
LPATH = "localeDisplayNames/languages/language[@type=\"%s\"]"


def load(name):
    return subj.merge_doc(TEXTS[name])


def apply(ds, op):
    """one operation on documents ds; returns what the operation itself reports (plain data)"""
    k, d = op[0], ds[op[1]]
    if k == "write":
        return subj.text_of(d, topns=op[2])
    if k == "overlay":
        d.overlay(ds[op[2]])
    elif k == "difference":
        d.difference(ds[op[2]])
    elif k == "merge":
        d.merge(ds[op[2]], ds[op[3]], default="proposed")
    elif k == "ensure":
        d.ensure_path(LPATH % op[2], text=op[3], draft=op[4])
    elif k == "settext":
        e = d.find(LPATH % op[2])
        if e is not None:
            e.text = op[3]
    elif k == "add":
        e = d.ensure_path("layout/orientation/characterOrder")[0]
        e.text = "rtl"
    elif k == "drop":
        for e in d.findall("localeDisplayNames/languages"):
            for c in list(e):
                if c.get("type") == "cc":
                    e.remove(c)
    elif k == "ns":
        q = d.add_namespace("zz", "urn:zz")
        d.ensure_path("special/%s:extra" % q)[0].text = "e"
    elif k == "ident":
        d.add_silidentity(script="Latn")
    elif k == "alias":
        d.resolve_aliases()
    elif k == "comment":
        for e in d.findall("localeDisplayNames/languages/language"):
            e.comments = getattr(e, "comments", [])
            e.comments.append(" c ")
    elif k == "normalise":
        d.normalise()
    elif k == "paths":
        return repr(sorted(d.as_xpath(e, usedrafts=True) for e in d.root.iter()))
    elif k == "parents":
        return repr(d.get_parent_locales("en_GB"))
    elif k == "flatten":        # nothing to inherit from
        subj.mod("ldml_merge").flattenlocale(d, dirs=[], fname="en_GB")
    return None


def ops():
    res = []
    for d in "AB":
        res += [("write", d, True), ("write", d, False), ("ensure", d, "cc", "new", "approved"), ("settext", d, "cc", "edit"), ("add", d), ("drop", d), ("ns", d), ("ident", d)]
    res += [("overlay", "A", "B"), ("overlay", "B", "A"), ("overlay", "A", "P"), ("overlay", "B", "P"), ("difference", "A", "B"), ("difference", "B", "P"),
            ("merge", "A", "B", "P"), ("merge", "B", "A", "P"), ("alias", "B"), ("comment", "B"), ("normalise", "A"), ("parents", "A"), ("paths", "B"), ("flatten", "A")]
    return res


OPS = ops()
WRITES = ("write", "parents", "paths", "flatten")
MERGING = ("overlay", "difference", "merge")


def state(ds):
    import copy
    return {n: subj.text_of(copy.deepcopy(d)) for n, d in ds.items()}


def interference(depth, OPS=OPS):
    def case(ch):
        ds = {n: load(n) for n in TEXTS}
        view = state(ds)
        merged = False
        for step in range(depth):
            op = ch.pick([None] + OPS)
            if op is None:
                break
            ch.note(op)
            # the same step where no other document shares anything: the target keeps its history, sources are reread from their text
            alone = {n: subj.merge_doc(view[n]) for n in TEXTS}
            report = apply(ds, op)
            new = state(ds)
            for n in TEXTS:
                if n != op[1] and new[n] != view[n]:
                    raise core.Violation("%r changed document %s" % (op, n), before=view[n], after=new[n])
                if n == op[1] and op[0] in WRITES and new[n] != view[n]:
                    raise core.Violation("%r changed the document itself" % (op,), before=view[n], after=new[n])
            # merging operations compare fingerprints taken when a document is read, so a second one on documents already merged
            # into is not required to equal one on freshly read documents (see DESIGN.md); everything else is
            if merged and op[0] in MERGING:
                view = new
                continue
            merged = merged or op[0] in MERGING
            wanted = apply(alone, op)
            if op[0] in ("paths", "parents") and wanted != report:
                raise core.Violation("%r reports something else than for a freshly read document" % (op,), got=report, fresh=wanted)
            want = subj.text_of(alone[op[1]])
            d = diff(canon(read(want), comments=False), canon(read(new[op[1]]), comments=False))
            if d:
                raise core.Violation("%r gives another result than on freshly read documents: %s" % (op, d), got=new[op[1]], fresh=want)
            view = new
        ch.seen(repr(sorted(view.items())))
        # a document read now is not affected by anything done before
        for n in TEXTS:
            if subj.text_of(load(n)) != CLEAN[n]:
                raise core.Violation("a document read afterwards comes out differently", got=subj.text_of(load(n)), want=CLEAN[n])
    return case


CLEAN = {}
ALONE = {}


def needed(op):
    return [x for x in op[1:] if isinstance(x, str) and x in TEXTS]


def outcome(history):
    """the texts of the documents of the last operation; each operation works on documents of its own"""
    for op in history:
        ds = {n: load(n) for n in needed(op)}
        r = apply(ds, op)
    return r, {n: subj.text_of(d) for n, d in ds.items()}


def leftovers(depth, ops):
    """what was done to other documents in the process makes no difference: each history in a process of its own"""
    def case(ch):
        last = ch.pick(ops)
        hist = []
        for i in range(depth):
            o = ch.pick([None] + ops)
            if o is None:
                break
            hist.append(o)
        hist.append(last)
        ch.note(hist)
        k = ops.index(last)
        for h in ([last], hist):
            r = ALONE.get(k) if h == [last] else core.in_child(lambda: outcome(h))
            if r is None:
                r = ALONE[k] = core.in_child(lambda: outcome([last]))
            if isinstance(r, core.ChildFailure):
                raise core.Violation("%r fails: %s" % (h, r.why))
        ch.seen(repr(r))
        if r != ALONE[k]:
            raise core.Violation("the last operation has another result than in a process of its own", got=repr(r), alone=repr(ALONE[k]))
    return case


def setup():
    subj.warm()
    for n in TEXTS:
        CLEAN[n] = subj.text_of(load(n))


NARROW = [("write", "A", True), ("write", "B", False), ("ensure", "A", "cc", "new", "approved"), ("settext", "B", "cc", "edit"), ("drop", "A"), ("ns", "A"), ("ident", "B"),
          ("overlay", "A", "B"), ("overlay", "B", "P"), ("merge", "A", "B", "P"), ("merge", "B", "A", "P"), ("difference", "B", "P"), ("normalise", "A")]


def harnesses(tier):
    t = tier != "quick"
    res = []
    for name, d, ops in (("wide", 3, OPS), ("narrow", 4 if t else 3, NARROW)):
        res.append(dict(name="interference-" + name, case=interference(d, ops), setup=setup,
                        bounds="every history of at most %d of %d operations on three documents" % (d, len(ops))))
    n = 2 if t else 1
    res.append(dict(name="leftovers", case=leftovers(n, OPS), setup=subj.warm,
                    bounds="each of %d operations after every history of at most %d operations on other documents in the process" % (len(OPS), n)))
    return res
