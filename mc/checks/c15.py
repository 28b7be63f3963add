"""C15: a sort order given as a simple list sorts its elements in the order and at the levels of the list."""
import itertools, unicodedata
from mc import core, subj
from mc.checks.c14 import order, WORDS, rel
import icu

ASSUMPTIONS = ["no element is listed twice, and the first element of the list is a single character that does not decompose (it keeps its place in the root collation); a letter listed in upper case only is in a list of letters that follows the root order",
               "a composed character is not listed before its base letter; lists are used as converted; minimising a collation is not part of the property"]
# item text -> groups (secondary) of elements (tertiary)
LISTS = [("a", [["a", "A"]]), ("b/B", [["b", "B"]]), ("z/Z", [["z", "Z"]]), ("c C", [["c", "C"]]), ("e/E \u00e9/\u00c9", [["e", "E"], ["\u00e9", "\u00c9"]]),
         ("\u00e4/\u00c4", [["\u00e4", "\u00c4"]]), ("ng", [["ng", "Ng", "NG"]]), ("ch/Ch", [["ch", "Ch", "CH"]]), ("x y/Y", [["x", "X"], ["y", "Y"]]), ("\u0254/\u0186", [["\u0254", "\u0186"]]),
         ("1", [["1"]]), ("\u0915", [["\u0915"]]), ("ts/TS", [["ts", "Ts", "TS"]]), ("D", [["D", "d"]]), ("ngbr", [["ngbr", "Ngbr", "NGbr", "NGBr", "NGBR"]]), ("k kp", [["k", "K"], ["kp", "Kp", "KP"]])]
STRICT = [("a", [["a", "A"]]), ("b/B", [["b", "B"]]), ("ch/Ch", [["ch", "Ch"]]), ("x y/Y z", [["x", "X"], ["y", "Y"], ["z", "Z"]]), ("n/N/\u014b", [["n", "N", "\u014b"]])]
FIRST = [0, 1, 2, 3, 4, 8, 9, 10, 11]


def lists(items, first, n, strict):
    def case(ch):
        picked = []
        for i in range(n):
            ok = [j for j in (first if not i else range(len(items))) if j not in picked]
            if i and ch.flag():
                break
            picked.append(ch.pick(ok))
        texts = [items[j][0] for j in picked]
        flat = [w for j in picked for g in items[j][1] for w in g]
        if any(unicodedata.decomposition(w) and unicodedata.normalize("NFD", w)[0] in flat[i:] for i, w in enumerate(flat) if len(w) == 1):
            raise core.Skip()       # its root position moves with the base letter
        if "D" in texts and ("1" in texts or [t[0].lower() for t in texts] != sorted(t[0].lower() for t in texts)):
            raise core.Skip()       # upper case first against the root order
        ch.note(repr(texts))
        m = subj.mod("collation")
        c = m.Collation()
        given = list(texts)
        c.convertSimple(given, strict=strict)
        if given != texts:
            raise core.Violation("converting %r changes the list" % texts)
        out = c.asICU()
        ch.seen(out)
        seq = [((i, g, k), w) for i, j in enumerate(picked) for g, grp in enumerate(items[j][1]) for k, w in enumerate(grp)]
        words = [w for _, w in seq]
        try:
            o = order(out, words)
        except icu.ICUError:
            raise core.Violation("%r becomes %r, which is no tailoring" % (texts, out))
        keys = {w: c.sortKey(w) for w in words}
        for (x, a), (y, b) in itertools.combinations(seq, 2):
            l = 0 if x[0] != y[0] else 1 if x[1] != y[1] else 2
            want = [0] * l + [-1] * (3 - l)
            got = [rel(o[i][a], o[i][b]) for i in range(3)]
            if got[:l + 1] != want[:l + 1]:
                raise core.Violation("%r becomes %r, which sorts %r and %r as %r at the three levels, not %r" % (texts, out, a, b, got, want))
            k = keys[a].cmp(keys[b])
            if k != -(l + 1):
                raise core.Violation("%r: the sort keys of %r and %r differ at level %d" % (texts, a, b, k))
        # the rules may be read back
        c2 = m.Collation()
        c2.parse(out)
        o2 = order(c2.asICU(), words)
        for l in range(3):
            for a, b in itertools.combinations(words, 2):
                if rel(o2[l][a], o2[l][b]) != rel(o[l][a], o[l][b]):
                    raise core.Violation("%r becomes %r, read again %r, which sorts %r and %r otherwise" % (texts, out, c2.asICU(), a, b))
    return case


def setup():
    subj.mod("collation").Collation()


def harnesses(tier):
    q = tier == "quick"
    return [dict(name="lists", case=lists(LISTS, FIRST, 3 if q else 4, False), setup=setup, bounds="every list of at most %d of %d items, in every order" % (3 if q else 4, len(LISTS))),
            dict(name="strict", case=lists(STRICT, [0, 1, 3, 4], 4 if q else 5, True), setup=setup, bounds="every list of at most %d of %d items, in every order, taken literally" % (4 if q else 5, len(STRICT)))]
