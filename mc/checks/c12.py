"""C12: a Unicode set pattern denotes the set that Unicode's definition of the syntax gives it."""
from mc import core, subj
import icu

ASSUMPTIONS = ["patterns consist of characters, escapes, ranges, strings and nested sets with union, intersection, difference and complement",
               "a complement holds no strings; the members of a complement are compared within the characters that occur in a pattern and their neighbours",
               "ICU's UnicodeSet confirms the meaning of every pattern that it accepts"]
UNI = [chr(c) for c in range(0x20, 0x7f)]
# (text, members) of single items
CH = [("a", "a"), ("b", "b"), ("\\-", "-"), ("\\]", "]"), ("\\[", "["), ("\\\\", "\\"), ("\\u0062", "b"), ("\\x63", "c"), ("\\U00000064", "d"), ("\\u{62}", "b"), ("\\u005d", "]"), ("\\u005C", "\\"),
      ("\\u0020", " "), ("\\ ", " "), ("\\n", "\n"), ("\\^", "^"), ("\\{", "{"), ("\\}", "}"), ("\\u002d", "-"), ("\\&", "&"), ("0", "0"), ("\\u0031", "1"), ("\\x{7b}", "{"), ("e", "e")]
STR = [("{ab}", "ab"), ("{a}", "a"), ("{a\\}b}", "a}b"), ("{\\u0061\\u005d}", "a]"), ("{\\\\}", "\\"), ("{a b}", "ab"), ("{a\\ b}", "a b"), ("{x\\\\}", "x\\"), ("{[}", "["), ("\\u{61 62}", "ab")]
RNG = [("a-c", "abc"), ("a - c", "abc"), ("\\[-\\]", "[\\]"), ("\\u0061-\\u0063", "abc"), ("b-b", "b"), ("\\x61-c", "abc"), ("+-\\-", "+,-")]


SMALL = [CH[0], CH[3], CH[23], CH[4]]


class S:
    """members (strings) or the complement of them"""
    def __init__(self, m, neg=False):
        self.m, self.neg = frozenset(m), neg

    def union(self, o):
        if self.neg and o.neg:
            return S(self.m & o.m, True)
        if self.neg:
            return S(self.m - o.m, True)
        if o.neg:
            return S(o.m - self.m, True)
        return S(self.m | o.m)

    def inv(self):
        return S(self.m, not self.neg)

    def inter(self, o):
        return self.inv().union(o.inv()).inv()

    def minus(self, o):
        return self.inter(o.inv())


def leaf(ch, small):
    if small:
        t, m = ch.pick(SMALL[:small] + RNG[:1])
        return t, S(m)
    k = ch.pick(["ch", "rng", "str"])
    if k == "ch":
        t, m = ch.pick(CH)
        return t, S([m])
    if k == "str":
        t, m = ch.pick(STR)
        return t, S([m])
    t, m = ch.pick(RNG)
    return t, S(m)


def uset(ch, widths, small):
    """(text, S) of one bracketed set"""
    neg = ch.flag()
    depth = len(widths) - 1
    text, cur = "", S([])
    prev_set = False
    for i in range(widths[0]):
        kinds = ["end", "leaf"]
        if depth:
            kinds.append("set")
            if prev_set:
                kinds += ["and", "minus"]
        k = ch.pick(kinds)
        if k == "end":
            break
        if k == "leaf":
            t, m = leaf(ch, small)
            cur = cur.union(m)
            prev_set = False
        else:
            t, m = uset(ch, widths[1:], small)
            if k == "set":
                cur = cur.union(m)
            elif k == "and":
                t, cur = "&" + t, cur.inter(m)
            else:
                t, cur = ch.pick(["-", " - "]) + t if depth > 1 else "-" + t, cur.minus(m)
            prev_set = True
        text += t
    if neg:
        cur = cur.inv()
    return "[" + ("^" if neg else "") + text + "]", cur


def strings_in_complement(s):
    return any(len(x) > 1 for x in s.m)


def judge(ch, text, want, confirm=True):
    ch.note(repr(text))
    m = subj.mod("UnicodeSets")
    if confirm:
        try:
            u = icu.UnicodeSet(text)
        except icu.ICUError:
            u = None
        if u is not None and not strings_in_complement(want):
            ref = {c for c in UNI + ["\n"] if u.contains(c)} | {x for x in (u if not want.neg else ()) if len(x) > 1}
            mine = {c for c in UNI + ["\n"] if (c in want.m) != want.neg} | {x for x in want.m if len(x) > 1}
            if ref != mine:
                raise RuntimeError("the reference disagrees with ICU on %r: %r, %r" % (text, sorted(ref), sorted(mine)))
    seq = m.parse(text)
    got = m.us2list(text)
    ch.seen("%r %r" % (sorted(got), getattr(got, "negative", None)))
    if not want.m and not want.neg:
        if set(got):
            raise core.Violation("%r is empty but read as %r" % (text, sorted(got)))
        return
    if not want.m and want.neg and not len(seq):
        return          # a set that excludes nothing is dropped from the sequence
    if len(seq) != 1:
        raise core.Violation("%r is read as %d sets" % (text, len(seq)))
    if set(got) != want.m or bool(got.negative) != want.neg:
        raise core.Violation("%r is read as %s%r, not %s%r" % (text, "not " * got.negative, sorted(got), "not " * want.neg, sorted(want.m)))
    if seq[0].asSet() != (set() if want.neg else want.m):
        raise core.Violation("%r: flattened to %r" % (text, seq[0].asSet()))


def flat(width):
    def case(ch):
        text, want = "", S([])
        neg = ch.flag()
        for i in range(width):
            if i and ch.flag():
                break
            t, m = leaf(ch, False)
            text += t
            cur = want
            want = cur.union(m)
        if neg:
            want = want.inv()
        judge(ch, "[" + ("^" if neg else "") + text + "]", want, not strings_in_complement(want))
    return case


def nested(widths, small):
    def case(ch):
        text, want = uset(ch, widths, small)
        judge(ch, text, want)
    return case


def edges(ch):
    """operators and hyphens where they stand for themselves, white space, and sequences of sets"""
    t, m = ch.pick([("[-a]", "-a"), ("[a-]", "a-"), ("[-]", "-"), ("[ a b ]", "ab"), ("[\na\tb\r\n]", "ab"), ("[]", ""), ("[a\\u0020b]", "a b"), ("[a\\\\-\\]]", "a\\]"), ("[\\\\]", "\\"), ("[\\]\\\\]", "]\\"), ("[\\\\\\]]", "\\]"), ("[\\[\\]]", "[]"), ("[a\\\\u0041]", "a\\u0041")])
    sep = ch.pick(["", " ", "\n"])
    t2, m2 = ch.pick([("", None), ("[xy]", "xy"), ("z", "z"), ("{zz}", ["zz"]), ("\\]", "]"), ("\\u007a", "z")])
    if t == "[a\\\\-\\]]":
        m = "a\\]"
    mod = subj.mod("UnicodeSets")
    text = t + sep + t2
    ch.note(repr(text))
    got = [set(x) for x in mod.parse(text)]
    want = [x for x in [set(m), set(m2) if m2 else None] if x]
    ch.seen(repr(sorted(map(sorted, got))))
    if got != want:
        raise core.Violation("%r is read as %r, not %r" % (text, got, want))
    for form in ("NFC", "NFD"):
        if [set(x) for x in mod.parse(text, normal=form)] != want:
            raise core.Violation("normalising %r changes it to %r" % (text, [set(x) for x in mod.parse(text, normal=form)]))


SPECIAL = {"a": "\a", "b": "\b", "t": "\t", "n": "\n", "v": "\v", "f": "\f", "r": "\r"}


def escapes(ch):
    """a backslash before any character but those that begin hex escapes, groups, properties and controls"""
    c = ch.pick([c for c in UNI + ["\u00e9", "\u0915", "\U00010400"] if c not in "uUxpPNec0123456789"])
    want = SPECIAL.get(c, c)
    before, after, where = ch.pick([("", "", "set"), ("q", "q", "set"), ("q", "q", "string"), ("\\\\", "", "set"), ("", "\\\\", "string"), ("", "", "range"), ("q", "", "plain")])
    if where == "plain":
        text, sets = before + "\\" + c + after, [{"q"}, {want}]
    elif where == "range":
        text, sets = "[" + "\\" + c + "-\\" + c + "]", [{want}]
    elif where == "string":
        text, sets = "[{" + before + "\\" + c + after + "}]", [{before + want + after.replace("\\\\", "\\")}]
    else:
        text, sets = "[" + before + "\\" + c + after + "]", [{want} | {x for x in (before + after).replace("\\\\", "\\")}]
    ch.note(repr(text))
    got = [set(x) for x in subj.mod("UnicodeSets").parse(text)]
    ch.seen(repr(list(map(sorted, got))))
    if got != sets:
        raise core.Violation("%r is read as %r, not %r" % (text, got, sets))


SEQ = [("a", ["a"]), ("\\]", ["]"]), ("[ab]", ["a", "b"]), ("[a-c]", ["a", "b", "c"]), ("[a{xy}]", ["a", "xy"]), ("{kl}", ["kl"]), ("[[a-c]-[b]]", ["a", "c"]), ("\\u0020", [" "]), (" ", None), ("[\\[\\]]", ["[", "]"]), ("\u00e9", ["\u00e9"])]


def sequences(width):
    def case(ch):
        """a sequence of sets stands for all concatenations of their members"""
        parts = []
        for i in range(width):
            p = ch.pick([None] + SEQ)
            if p is None:
                break
            parts.append(p)
        m = subj.mod("UnicodeSets")
        text = "".join(p[0] for p in parts)
        ch.note(repr(text))
        vals = [p[1] for p in parts if p[1]]
        want = [""]
        for v in vals:
            want = [w + x for w in want for x in v]
        got = list(m.flatten(text))
        ch.seen(repr(sorted(got)))
        if sorted(got) != sorted(want):
            raise core.Violation("%r stands for %r, not %r" % (text, sorted(got), sorted(want)))
        p = m.parse(text)
        r = p.reverse()
        if [set(x) for x in r] != [set(v) for v in reversed(vals)] or [set(x) for x in p] != [set(v) for v in vals]:
            raise core.Violation("%r read backwards is %r" % (text, r))
        if sorted(m.flatten(text, normal="NFD")) != sorted(w.replace("\u00e9", "e\u0301") for w in want):
            raise core.Violation("%r normalised stands for %r" % (text, sorted(m.flatten(text, normal="NFD"))))
    return case


WS = set("\t\n\x0b\x0c\r \x85\u200e\u200f\u2028\u2029")
SYNTAX = set("[]{}\\-&^$:|()") | WS
FORMS = [("plain", lambda c: c), ("backslash", lambda c: "\\" + c), ("u", lambda c: "\\u%04x" % ord(c) if ord(c) < 0x10000 else "\\U%08X" % ord(c)),
         ("braces", lambda c: "\\u{%x}" % ord(c)), ("x", lambda c: "\\x{%X}" % ord(c)), ("xx", lambda c: "\\x%02x" % ord(c))]
USES = ["alone", "among", "string", "range", "complement", "ends"]
TAKEN = set("uUxpPNec0123456789") | set(SPECIAL)


FEW = [range(0, 0x3400), range(0xd700, 0xd800), range(0xe000, 0xe100), range(0xf800, 0x10400), range(0x1f300, 0x1f400)] + [r for p in range(1, 17) for r in (range(p << 16, (p << 16) + 0x40), range((p << 16) + 0xffc0, (p << 16) + 0x10000))]


def characters(ranges):
    cps = [c for r in ranges for c in r]
    rows = [cps[i:i + 256] for i in range(0, len(cps), 256)]

    def case(ch):
        """every character, as itself and in each form of escape, as a member, in a string and at the ends of a range"""
        c = chr(ch.pick(ch.pick(rows)))
        name, form = ch.pick(FORMS)
        use = ch.pick(USES)
        if name == "plain" and c in SYNTAX or name == "backslash" and c in TAKEN or name == "xx" and ord(c) > 0xff:
            raise core.Skip()
        t = form(c)
        p, n = chr(ord(c) - 1) if c > "\0" else None, chr(ord(c) + 1) if ord(c) < 0x10ffff else None
        if use == "range":
            if not n or "\ud800" <= n <= "\udfff":
                raise core.Skip()
            text, m, neg = "[" + t + "-" + FORMS[2][1](n) + "]", [c, n], False
        elif use == "ends":
            if not p or "\ud800" <= p <= "\udfff":
                raise core.Skip()
            text, m, neg = "[" + FORMS[2][1](p) + "-" + t + "z]", [p, c, "z"], False
        elif use == "complement":
            text, m, neg = "[^" + t + "]", [c], True
        elif use == "string":
            text, m, neg = "[{q" + t + "g}]", ["q" + c + "g"], False
        elif use == "among":
            text, m, neg = "[q" + t + "g-h]", ["q", c, "g", "h"], False
        else:
            text, m, neg = "[" + t + "]", [c], False
        ch.note(repr(text))
        mod = subj.mod("UnicodeSets")
        got = mod.parse(text)
        ch.seen(text)
        if len(got) != 1 or set(got[0]) != set(m) or bool(got[0].negative) != neg:
            raise core.Violation("%r is read as %r, not %s%r" % (text, [(sorted(g), g.negative) for g in got], "not " * neg, sorted(m)))
    return case


def setup():
    subj.mod("UnicodeSets")


def harnesses(tier):
    q = tier == "quick"
    return [dict(name="flat", case=flat(2 if q else 3), setup=setup, bounds="every set and complement of at most %d of %d items (characters, escapes, ranges, strings)" % (2 if q else 3, len(CH + STR + RNG))),
            dict(name="nested", case=nested((3, 2), 2 if q else 4), setup=setup, bounds="every set of at most 3 items or nested sets of at most 2 of %d items, with union, intersection, difference, complement" % (3 if q else 5)),
            dict(name="deep", case=nested((2, 2, 1) if q else (2, 2, 2), 1), setup=setup, bounds="every set of at most 2 items or sets of at most 2 items or sets, three levels deep (the innermost of at most %d), 2 kinds of items" % (1 if q else 2)),
            dict(name="sequences", case=sequences(3 if q else 4), setup=setup, bounds="every sequence of at most %d of %d items" % (3 if q else 4, len(SEQ))),
            dict(name="escapes", case=escapes, setup=setup, bounds="a backslash before any of 81 characters, in 7 places"),
            dict(name="characters", case=characters(FEW if q else [range(0, 0xd800), range(0xe000, 0x110000)]), setup=setup,
                 bounds="every character of %s, as itself and in 5 forms of escape, in 6 places" % ("much of planes 0 and 1 and of the ends of the others" if q else "Unicode")),
            dict(name="edges", case=edges, setup=setup, bounds="13 sets with characters at the edges of the syntax, alone and followed by 5 other items")]
