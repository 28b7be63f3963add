"""C11: a list of strings written as a Unicode set is read back as the same strings."""
import unicodedata
from mc import core, subj
import icu

ASSUMPTIONS = ["the strings are in NFC and not empty, as list2us demands",
               "ICU's UnicodeSet is the second, independent reader of the text"]
CHARS = ["a", "\u00e9", "e", "\u0301", "\u0323", " ", "\\", "[", "]", "{", "}", "&", "-", "^", "$", ":", "|", "(", "u", "x", "0", "4", "1", "n", "t", "\t", "\n", "\u00a0", "\u200d", "\u2028",
         "\u3164", "\ue000", "\U00011315", "\U000fff80", "\u0915", "\u093c", "'", '"', "<", ",", "\u4e00", "\r", "\u0085", "\u06dd"]
MANY = ["a", "\u0301", " ", "\\", "[", "]", "{", "}", "^", "-", "u", "x", "0", "4", "1", "\n", "\U000fff80", "&", "\u200d"]


def ucd():
    return subj.mod("ldml_exemplars").UCD()


U = []


def setup():
    subj.warm()
    subj.mod("UnicodeSets")
    U[:] = [ucd()]


def judge(ch, strings):
    m = subj.mod("UnicodeSets")
    before = list(strings)
    t = m.list2us(strings, U[0])
    ch.note(repr(before), "->", repr(t))
    if strings != before:
        raise core.Violation("writing changed the list")
    got = m.us2list(t)
    ch.seen(t)
    if set(got) != set(before) or getattr(got, "negative", False):
        raise core.Violation("%r is written as %s and read as %r" % (before, t, sorted(got)))
    icuset = set(icu.UnicodeSet(t))
    if icuset != set(before):
        raise core.Violation("%r is written as %s, which is %r for ICU" % (before, t, sorted(icuset)))
    if len(m.parse(t)) != 1:
        raise core.Violation("%s is not one set" % t)
    # the white space between members has no meaning
    for c in ("\n", "\t"):
        if set(m.us2list(t.replace(" ", c))) != set(before):
            raise core.Violation("with other white space %r is read as %r" % (t.replace(" ", c), sorted(m.us2list(t.replace(" ", c)))))
    return t


def nfc(s):
    if not s or unicodedata.normalize("NFC", s) != s:
        raise core.Skip()
    return s


def one(length):
    def case(ch):
        s = ""
        for i in range(length):
            c = ch.pick([""] + CHARS) if i else ch.pick(CHARS)
            if not c:
                break
            s += c
        judge(ch, [nfc(s)])
    return case


def long(length):
    def case(ch):
        judge(ch, [nfc("".join(ch.pick(MANY) for _ in range(length)))])
    return case


def several(n):
    def case(ch):
        l = []
        for i in range(n):
            c = ch.pick([None] + CHARS + ["ab", "a\u0301\u0323", "\\]", "}{", "a b", "[a-c]", "\\u0041"])
            if c is None:
                break
            l.append(c)
        l = [nfc(x) for x in l]
        judge(ch, l) if l else judge_empty(ch)
    return case


PLANES = [range(0, 0xd800), range(0xe000, 0x20000)]
ENDS = [range(p << 16, (p << 16) + 0x200) for p in range(2, 17)] + [range((p << 16) + 0xff00, (p << 16) + 0x10000) for p in range(2, 17)]
CONTEXT = [lambda c: [c], lambda c: ["a" + c], lambda c: [c + "a"], lambda c: ["x", c, c + c], lambda c: ["\\" + c + "0"]]


def characters(ranges):
    cps = [c for r in ranges for c in r]
    rows = [cps[i:i + 256] for i in range(0, len(cps), 256)]

    def case(ch):
        """every character: alone, after and before a letter, among others, before what could lengthen an escape"""
        row = ch.pick(rows)
        c = chr(ch.pick(row))
        l = [unicodedata.normalize("NFC", x) for x in ch.pick(CONTEXT)(c)]
        if any(c not in x and x not in ("x",) for x in l):
            raise core.Skip()
        judge(ch, l)
    return case


def judge_empty(ch):
    m = subj.mod("UnicodeSets")
    t = m.list2us([], U[0])
    if set(m.us2list(t)):
        raise core.Violation("the empty list is written as %s" % t)


def harnesses(tier):
    q = tier == "quick"
    return [dict(name="one", case=one(2 if q else 3), setup=setup, bounds="every string of at most %d of %d characters" % (2 if q else 3, len(CHARS))),
            dict(name="long", case=long(4 if q else 5), setup=setup, bounds="every string of %d of %d characters" % (4 if q else 5, len(MANY))),
            dict(name="characters", case=characters(PLANES + ENDS if q else [range(0, 0xd800), range(0xe000, 0x110000)]), setup=setup,
                 bounds="every character of %s that is stable in NFC, in 5 lists" % ("planes 0 and 1 and of the ends of the others" if q else "Unicode")),
            dict(name="several", case=several(2 if q else 3), setup=setup, bounds="every list of at most %d of %d strings" % (2 if q else 3, len(CHARS) + 7))]
