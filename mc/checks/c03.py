"""C03: draft alternates - the best draft is the primary value and no value is lost, over every history of edits."""
from mc import core, subj
from mc.xmlmodel import N, SIL, read, write

ASSUMPTIONS = ["draft ratings are the documented order approved, contributed, provisional, unconfirmed, tentative, generated, suspect",
               "one group of alternates (one element name and one set of distinguishing attributes) plus an unrelated neighbour"]
RATE = {d: i for i, d in enumerate(["approved", "contributed", "provisional", "unconfirmed", "tentative", "generated", "suspect"])}
PATH = "characters/exemplarCharacters"


def rate(d):
    """a primary value without a draft mark is unrated: nothing displaces it"""
    return RATE[d] if d else -1


def srate(d):
    """in an alternate, no mark means unconfirmed"""
    return RATE[d or "unconfirmed"]


INITS = [
    [],
    [(None, None, "A")],
    [(None, "provisional", "A")],
    [(None, "provisional", "A"), ("x", "tentative", "B")],
    [(None, "provisional", "A"), ("x", "tentative", "B"), ("proposed", "generated", "C")],
    [(None, "tentative", "A"), ("x", "tentative", "B"), ("y", "tentative", "C")],
]
UID = ("uid", [(None, "provisional", "A"), ("x-u1", "tentative", "B")])     # alternates are named for the document
DRAFTS = ["approved", "provisional", "tentative", "suspect"]


def source(init):
    kids, special = [], []
    if init and init[0] == "uid":
        init, special = init[1], [N("special", {}, "", [N("{%s}identity" % SIL, {"uid": "u1"})])]
    for alt, draft, text in init:
        a = {}
        if alt:
            a["alt"] = alt
        if draft:
            a["draft"] = draft
        kids.append(N("exemplarCharacters", a, text))
    kids.append(N("exemplarCharacters", {"type": "auxiliary"}, "neighbour"))
    return write(N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": "en"})] + special), N("characters", {}, "", kids)]), {SIL: "sil"})


def group(out):
    """[(alt, draft, text)] of the group in an output text; the first is the primary"""
    root = read(out)
    ch = [k for k in root.kids if k.tag == "characters"]
    if len(ch) != 1:
        raise core.Violation("the parent of the group is gone or doubled", output=out)
    nb = [(dict(k.attrs), k.text) for k in ch[0].kids if k.attrs.get("type")]
    if nb != [({"type": "auxiliary"}, "neighbour")]:
        raise core.Violation("an unrelated element was changed: %r" % (nb,), output=out)
    other = [k.tag for k in root.kids if k.tag != "characters"]
    if other != ["identity"]:
        raise core.Violation("unrelated parts of the document changed: %r" % (other,), output=out)
    return [(k.attrs.get("alt"), k.attrs.get("draft"), k.text) for k in ch[0].kids if not k.attrs.get("type")]


def check_group(g, where, out):
    alts = [a for a, d, t in g]
    if len(set(alts)) != len(alts):
        raise core.Violation("%s: two values carry the same alternate name: %r" % (where, g), output=out)
    if g and all(d for a, d, t in g) and rate(g[0][1]) > min(rate(d) for a, d, t in g):
        raise core.Violation("%s: the primary value does not have the best draft: %r" % (where, g), output=out)
    if g and g[0][0] is not None:
        raise core.Violation("%s: the primary value is marked as an alternate: %r" % (where, g), output=out)


OPS = [("ensure", t, d, a) for t in "AD" for d in ("approved", "tentative") for a in (None, "x")] + \
      [("ensure", "E", "provisional", "y"), ("add", "F", "suspect", "y"), ("add", "G", "approved", "x"), ("add", "H", "provisional", None)] + \
      [("draft", d) for d in ("approved", "tentative", "suspect")] + [("draft", "suspect", "y")] + [("write",), ("reload",), ("normalise",)]


REMOVE = [("slot", "S", "contributed", None), ("slot", "S", "tentative", "x"), ("remove", "tentative", None), ("remove", None, "x"), ("remove", "provisional", None),
          ("remove", "approved", "y"), ("ensure", "A", "tentative", "x"), ("ensure", "D", "approved", None), ("add", "H", "provisional", "y"), ("draft", "suspect"), ("reload",)]


def run_history(ch, depth, ops):
    init = ch.pick(INITS + [UID])
    ch.note("initial:", init)
    doc = subj.ldml(source(init))
    name = lambda a: a or "proposed"
    state = None
    first = subj.text_of(subj.ldml(source(init)))
    state = group(first)
    check_group(state, "after loading", first)
    if init is UID:
        init = UID[1]
        name = lambda a: (a or "proposed") + "-u1"
    if sorted(t for a, d, t in state) != sorted(t for a, d, t in init):
        raise core.Violation("loading lost a value: %r became %r" % (init, state))
    for step in range(depth):
        op = ch.pick([None] + ops)
        if op is None:
            break
        if op[0] in ("add", "slot"):
            op = (op[0], op[1] + str(step)) + op[2:]
        ch.note(op)
        if op[0] == "ensure":
            res = doc.ensure_path(PATH + '[@type=""]', text=op[1], draft=op[2], alt=op[3])
            better = [t for a, d, t in state[1:] if a == name(op[3]) and srate(d) < srate(op[2])]
            if not res or any(r.text != op[1] and r.text not in better for r in res):
                raise core.Violation("asking for a value returned %r" % [getattr(r, "text", r) for r in res])
        elif op[0] == "add":
            parent = doc.find("characters")
            e = doc.addnode(parent, "exemplarCharacters", draft=op[2], alt=op[3], returnnew=True)
            e.text = op[1]
        elif op[0] == "draft":
            n = doc.find(PATH + '[@type=""]')
            if n is None:
                raise core.Skip()
            r = doc.change_draft(n, op[1], **({"alt": op[2]} if len(op) > 2 else {}))
            p = doc.find(PATH + '[@type=""]')
            if p is not r:
                raise core.Violation("changing a draft returned a node that is not the primary value")
        elif op[0] == "slot":
            res = doc.ensure_path(PATH + '[@type=""]', draft=op[2], alt=op[3], matchdraft="draft")
            have = sorted(t for a, d, t in state if d == op[2])
            better = [t for a, d, t in state[1:] if a == name(op[3]) and srate(d) < srate(op[2])]
            got = sorted(str(e.text or "") for e in res)
            if have:
                op = ("ensured",)
                if got != have:
                    raise core.Violation("asking for the draft %s returned %r" % (op, got))
            elif got == [""] and res[0].get("draft") == op[2]:
                res[0].text = op[1]
                op = ("add",) + op[1:]
            elif len(better) == 1 and got == better:
                op = ("ensured",)
            else:
                raise core.Violation("asking for a draft that is not there returned %r" % (got,))
        elif op[0] == "remove":
            kw = {k: v for k, v in (("draft", op[1]), ("alt", op[2])) if v}
            m = "both" if len(kw) == 2 else "draft" if op[1] else "alt"
            gone = [(a, d, t) for i, (a, d, t) in enumerate(state) if (not op[1] or d == op[1]) and (m == "draft" or i and a == name(op[2]))]
            res = doc.remove_path(PATH + '[@type=""]', matchdraft=m, **kw)
            if sorted(e.text for e in res) != sorted(t for a, d, t in gone):
                raise core.Violation("removing %r returned %r" % (op[1:], [e.text for e in res]))
            op = ("removed", gone)
        elif op[0] == "write":
            subj.text_of(doc)
        elif op[0] == "normalise":
            doc.normalise()
            doc.normalise(usedrafts=True)
        elif op[0] == "reload":
            doc = subj.ldml(subj.text_of(doc))
        # observe through writing twice (writing must be repeatable), on the document itself
        out = subj.text_of(replica(doc))
        new = group(out)
        check_group(new, "after %r" % (op,), out)
        judge(op, state, new, out, name)
        state = new
    queries(replica(doc), state, name)
    # observing writes the real document only at the end
    out = subj.text_of(doc)
    out2 = subj.text_of(doc)
    ch.seen(out)
    if out != out2:
        raise core.Violation("writing the same document twice gives different text", first=out, second=out2)
    g = group(out)
    if g != state:
        raise core.Violation("the final document differs from the last observation: %r / %r" % (state, g))
    rel = group(subj.text_of(subj.ldml(out)))
    if rel != g:
        raise core.Violation("reloading the written document changes the alternates: %r became %r" % (g, rel), output=out)


def queries(doc, g, name):
    """looking for values by draft, by alternate and by both"""
    path = PATH + '[@type=""]'
    for d in DRAFTS + ["generated", "contributed"]:
        got = sorted(str(e.text) for e in doc.ensure_path(path, draft=d, matchdraft="draft", dontadd=True))
        want = sorted(t for a, dd, t in g if dd == d)
        if got != want:
            raise core.Violation("looking for draft %s in %r finds %r" % (d, g, got))
        for a in ("x", "y", None):
            got = sorted(str(e.text) for e in doc.ensure_path(path, draft=d, alt=a, matchdraft="both", dontadd=True))
            want = sorted(t for aa, dd, t in g[1:] if dd == d and aa == name(a))
            if got != want:
                raise core.Violation("looking for alternate %s with draft %s in %r finds %r" % (a, d, g, got))
    for a in ("x", "y", "z", None):
        got = sorted(str(e.text) for e in doc.ensure_path(path, alt=a, matchdraft="alt", dontadd=True))
        want = sorted(t for aa, dd, t in g[1:] if aa == name(a))
        if got != want:
            raise core.Violation("looking for alternate %s in %r finds %r" % (a, g, got))


def standing(depth):
    """a draft set for all additions is the same as naming it each time"""
    def case(ch):
        init = ch.pick(INITS)
        a, b = subj.ldml(source(init)), subj.ldml(source(init))
        ch.note("initial:", init)
        d = None
        for step in range(depth):
            op = ch.pick([None, "use"] + [("add", alt) for alt in (None, "x")] + [("ensure", alt) for alt in (None, "y")] + ["explicit", "write"])
            if op is None:
                break
            if op == "use":
                d = a.use_draft = ch.pick(["approved", "provisional", "suspect"])
            elif op == "write":
                if subj.text_of(a) != subj.text_of(b):
                    raise core.Violation("writing differs")
            elif d is None:
                raise core.Skip()
            elif op == "explicit":
                for x in (a, b):
                    x.ensure_path(PATH + '[@type=""]', text="E%d" % step, draft="tentative")
            elif op[0] == "add":
                for x, kw in ((a, {}), (b, {"draft": d})):
                    x.addnode(x.find("characters"), "exemplarCharacters", alt=op[1], returnnew=True, **kw).text = "F%d" % step
            else:
                got = a.ensure_path(PATH + '[@type=""]', text="G%d" % step, alt=op[1])
                want = b.ensure_path(PATH + '[@type=""]', text="G%d" % step, draft=d, alt=op[1])
                if [e.text for e in got] != [e.text for e in want]:
                    raise core.Violation("asking for a value gives %r instead of %r" % ([e.text for e in got], [e.text for e in want]))
            ch.note(op, d)
            x, y = subj.text_of(replica(a)), subj.text_of(replica(b))
            if x != y:
                raise core.Violation("with the draft %s set for all additions the group is %r, naming it gives %r" % (d, group(x), group(y)), output=x)
        ch.seen(subj.text_of(a))
    return case


def replica(doc):
    import copy
    return copy.deepcopy(doc)


def judge(op, old, new, out, name):
    """what may have changed in one step"""
    oldt = {t: (a, d) for a, d, t in old}
    newt = {t: (a, d) for a, d, t in new}
    if len(newt) != len(new):
        raise core.Violation("after %r: a value appears twice: %r" % (op, new), output=out)
    if op[0] == "removed":
        if not op[1]:
            op = ("ensured",)
    if op[0] == "removed":
        want = [x for x in old if x not in op[1]]
        if sorted((t, str(d)) for a, d, t in new) != sorted((t, str(d)) for a, d, t in want):
            raise core.Violation("removing %r from %r leaves %r" % (op[1], old, new), output=out)
        if old[0] not in op[1] and new[0][2] != old[0][2] or any(x not in old for x in new[1:]) or new and srate(new[0][1]) > min(srate(d) for a, d, t in new) and old[0] in op[1]:
            raise core.Violation("removing %r from %r leaves %r" % (op[1], old, new), output=out)
        return
    if op[0] in ("write", "reload", "normalise", "ensured"):
        if old != new:
            raise core.Violation("%s changed the alternates: %r became %r" % (op[0], old, new), output=out)
        return
    if op[0] == "draft":
        if set(oldt) != set(newt):
            raise core.Violation("changing a draft lost or gained a value: %r became %r" % (old, new), output=out)
        p = old[0][2]
        if len(op) > 2 and new[0][2] != p and newt[p][0] != name(op[2]) and not any(a == name(op[2]) for a, d, t in old):
            raise core.Violation("after %r: the value displaced is %r" % (op, newt[p]), output=out)
        for t in newt:
            want = op[1] if t == p else oldt[t][1]
            if t == new[0][2] and t != p and rate(newt[t][1]) >= rate(op[1]) + (len(op) > 2 and oldt[t][0] == name(op[2])):     # the one named may be as good
                raise core.Violation("after %r: an alternate that is no better displaced the primary value: %r became %r" % (op, old, new), output=out)
            if (newt[t][1] or "unconfirmed") != (want or "unconfirmed"):
                raise core.Violation("after %r: the draft of %r is %r, expected %r" % (op, t, newt[t][1], want), output=out)
        return
    text, draft, alt = op[1], op[2], name(op[3])
    lost = set(oldt) - set(newt)
    if op[0] == "ensure" and text in oldt:
        if lost:
            raise core.Violation("after %r: values lost %r: %r became %r" % (op, lost, old, new), output=out)
        if oldt[text][1] is not None and rate(newt[text][1]) > min(rate(draft), rate(oldt[text][1])):
            raise core.Violation("after %r: the draft of the value was not improved: %r became %r" % (op, old, new), output=out)
    else:
        if text not in newt:
            # only a strictly better value already in that slot may win
            keep = [d for a, d, t in old[1:] if a == alt and srate(d) < srate(draft)]
            if not keep:
                raise core.Violation("after %r: the new value is missing: %r became %r" % (op, old, new), output=out)
        else:
            if (newt[text][1] or "unconfirmed") != draft:
                raise core.Violation("after %r: the new value has draft %r" % (op, newt[text][1]), output=out)
            if old and rate(draft) < rate(old[0][1]) and old[0][1] is not None and new[0][2] != text:
                raise core.Violation("after %r: a better draft did not become the primary value: %r became %r" % (op, old, new), output=out)
        for t in lost:
            a, d = oldt[t]
            inslot = [dd for aa, dd, tt in new if aa == alt]
            if a != alt or not inslot or srate(inslot[0]) > srate(d):
                raise core.Violation("after %r: value %r (%r, %r) was lost: %r became %r" % (op, t, a, d, old, new), output=out)
    if old and new[0][2] != old[0][2] and srate(new[0][1]) >= srate(old[0][1]):
        raise core.Violation("after %r: a value that is no better displaced the primary value: %r became %r" % (op, old, new), output=out)
    for t in oldt:
        if t in newt and t != text and (newt[t][1] or "unconfirmed") != (oldt[t][1] or "unconfirmed"):
            raise core.Violation("after %r: the draft of another value changed: %r became %r" % (op, old, new), output=out)


def histories(depth, ops):
    return lambda ch: run_history(ch, depth, ops)


DEEP = [("ensure", "A", "tentative", None), ("ensure", "D", "approved", "x"), ("ensure", "E", "provisional", "y"), ("add", "G", "approved", "x"),
        ("draft", "suspect"), ("draft", "approved"), ("write",), ("normalise",)]


def loading(ch):
    """documents with any collection of rivals: one value per alternate name survives, the best"""
    n = 1 + ch.index(3)
    entries = []
    for i in range(n):
        entries.append((ch.pick([None, "x", "y"]), ch.pick([None, "approved", "tentative", "unconfirmed", "suspect"]), "ABC"[i]))
    ch.note("document:", entries)
    out = subj.text_of(subj.ldml(source(entries)))
    g = group(out)
    ch.seen(out)
    names = {a for a, d, t in entries}
    if sorted(map(str, names)) != sorted(str(a) for a, d, t in g):
        raise core.Violation("the alternates after loading are %r" % (g,), output=out)
    for a, d, t in g:
        rivals = [e for e in entries if e[0] == a]
        mine = next((e for e in rivals if e[2] == t), None)
        if mine is None:
            raise core.Violation("value %r moved to alternate %r" % (t, a), output=out)
        if (mine[1] or "unconfirmed") != (d or "unconfirmed"):
            raise core.Violation("the draft of %r became %r" % (t, d), output=out)
        if srate(mine[1]) > min(srate(e[1]) for e in rivals):
            raise core.Violation("of several values for one alternate a worse draft was kept: %r" % (g,), output=out)
    if None in names:
        if g[0][0] is not None:
            raise core.Violation("the unmarked value is not the primary one: %r" % (g,), output=out)
    elif srate(g[0][1]) > min(srate(d) for a, d, t in g):
        raise core.Violation("without an unmarked value, the best draft must lead: %r" % (g,), output=out)
    again = group(subj.text_of(subj.ldml(out)))
    if sorted(map(repr, again)) != sorted(map(repr, g)):
        raise core.Violation("reloading changes the alternates: %r became %r" % (g, again), output=out)
    # without draft handling everything is kept
    raw = read(subj.text_of(subj.ldml(source(entries), usedrafts=False)))
    kept = sorted((str(k.attrs.get("alt")), str(k.attrs.get("draft")), k.text) for k in raw.kids[1].kids if not k.attrs.get("type"))
    if kept != sorted((str(a), str(d), t) for a, d, t in entries):
        raise core.Violation("with draft handling off the alternates became %r" % (kept,))


def harnesses(tier):
    q = tier == "quick"
    return [dict(name="loading", case=loading, setup=subj.warm,
                 bounds="all groups of at most 3 values over 3 alternate names and 5 draft marks"),
            dict(name="standing", case=standing(4 if q else 5), setup=subj.warm, bounds="%d initial groups x every history of at most %d of 8 operations with a draft set for the document" % (len(INITS), 4 if q else 5)),
            dict(name="removal", case=histories(3 if q else 5, REMOVE), setup=subj.warm,
                 bounds="%d initial groups x every history of at most %d of %d operations that remove values or ask for a draft" % (len(INITS) + 1, 3 if q else 5, len(REMOVE))),
            dict(name="histories", case=histories(3 if q else 4, OPS), setup=subj.warm,
                 bounds="%d initial groups x every history of at most %d of %d operations" % (len(INITS), 3 if q else 4, len(OPS))),
            dict(name="deep", case=histories(4 if q else 6, DEEP), setup=subj.warm,
                 bounds="%d initial groups x every history of at most %d of %d operations" % (len(INITS), 4 if q else 6, len(DEEP)))]
