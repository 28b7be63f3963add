"""C14: a tailoring means the same to sldrtools as to ICU: read, keyed, and written out as rules again."""
import re, unicodedata
from mc import core, subj
import icu

ASSUMPTIONS = ["tailorings within the syntax sldrtools reads: resets (with or without [before n]) to a character or an earlier element, the relations < << <<< =, "
               "expansions on the last element of a run, escapes, comments; each element is tailored once",
               "the order of all words of a word list at three strengths under ICU's rule based collator is the meaning of a tailoring",
               "sort keys are compared where no two resets insert at one position (the keys of what both insert there are not distinct)"]
LEVELS = [icu.Collator.PRIMARY, icu.Collator.SECONDARY, icu.Collator.TERTIARY]
KEYS = ["x", "ch", "m", "\u00e4", "&", "Q"]
BASES = ["a", "b", "B", "z", "\u00e1"]
WORDS = sorted(set("a b B z A Z c x X ch cx ac m q Q \u00e4 \u00e1 \u00c1 cg ci ca xb y l n ng ngy ngz abc abcd abce a-b a-b.c @ ! | [ ab az ba & &a <a < = / ' aa b' k ka xz zz \u00e6 ae".split()) | {"\u00e4b", "\u00e1b", "-"})
REL = ["<", "<<", "<<<", "="]
WHITE = set("\t\n\x0b\x0c\r \x85\u200e\u200f\u2028\u2029")
SYNTAX = set("!\"#$%&()*+,-./:;<=>?@[\\]^_`{|}~'")


def spelled(k, how):
    if how == "hex":
        return "".join("\\u%04X" % ord(c) for c in k)
    if how == "lower":
        return "".join("\\u%04x" % ord(c) for c in k)
    if how == "long":
        return "".join("\\U%08X" % ord(c) for c in k)
    return "".join("''" if c == "'" else "\\" + c if c in SYNTAX else c for c in k)


HEX = re.compile(r"\\\\|\\u([0-9A-Fa-f]{4})|\\U([0-9A-Fa-f]{8})")


def forICU(rules):
    """\\u escapes belong to the syntax of LDML, where they stand for a quoted character; ICU's own rules have none"""
    return HEX.sub(lambda m: m.group(0) if not m.lastindex else "\\" + chr(int(m.group(m.lastindex), 16)) if chr(int(m.group(m.lastindex), 16)) in SYNTAX | WHITE
                   else chr(int(m.group(m.lastindex), 16)), rules)


def order(rules, words):
    rules = forICU(rules)
    r = icu.RuleBasedCollator(rules)
    res = []
    for l in LEVELS:
        r.setStrength(l)
        res.append({w: bytes(r.getSortKey(w)) for w in words})
    return res


def rel(a, b):
    return (a > b) - (a < b)


def same(x, y, words):
    """first pair ordered differently"""
    for l in range(3):
        if [x[l][w] for w in words] == [y[l][w] for w in words]:
            continue
        for a in words:
            for b in words:
                if rel(x[l][a], x[l][b]) != rel(y[l][a], y[l][b]):
                    return l, a, b, rel(x[l][a], x[l][b]), rel(y[l][a], y[l][b])
    return None


def judge(ch, text, keyed=True, words=WORDS):
    ch.note(repr(text))
    m = subj.mod("collation")
    c = m.Collation()
    c.parse(text)
    words = list(words)
    for k in sorted(c):
        if len(k) > 1:          # where a long element starts and ends
            words += [w for w in ("b" + k, "x" + k, k + "b", k + k, k[:-1], "b" + k[:-1], k[1:]) if w not in words]
    try:
        want = order(text, words)
    except icu.ICUError:
        raise core.Skip()
    out = c.asICU()
    ch.seen(out)
    try:
        got = order(out, words)
    except icu.ICUError as e:
        raise core.Violation("%r is written as %r, which is no tailoring" % (text, out))
    d = same(want, got, words)
    if d:
        raise core.Violation("%r is written as %r, which sorts %r and %r otherwise at level %d (%d, was %d)" % (text, out, d[1], d[2], d[0] + 1, d[4], d[3]))
    if c.asICU() != out:
        raise core.Violation("%r is written as %r and then as %r" % (text, out, c.asICU()))
    c2 = m.Collation()
    c2.parse(out)
    if c2.asICU() != out:
        # the same relations may come in another arrangement once the definition order has changed
        d = same(want, order(c2.asICU(), words), words)
        if d:
            raise core.Violation("%r is written as %r and, read again, as %r, which sorts %r and %r otherwise" % (text, out, c2.asICU(), d[1], d[2]))
    w3 = order(c.asICU(wrap=8), words)
    d = same(want, w3, words)
    if d:
        raise core.Violation("%r wrapped is %r, which sorts %r and %r otherwise" % (text, c.asICU(wrap=8), d[1], d[2]))
    if keyed:
        agree(text, c, want, words)


def agree(text, c, want, words):
    keys = {w: c.sortKey(w) for w in words}
    for a in words:
        for b in words:
            k = keys[a].cmp(keys[b])
            g = [0 if k == 0 or abs(k) > i + 1 else (k > 0) - (k < 0) for i in range(3)]
            w = [rel(want[i][a], want[i][b]) for i in range(3)]
            if g != w:
                raise core.Violation("%r: sort keys order %r and %r as %r, ICU as %r" % (text, a, b, g, w))


def run(ch, n, keys, bases, rels, before=True, expansion=False):
    b = ch.pick(bases)
    bf = ch.pick(["", "[before 1]", "[before 2]", "[before 3]"]) if before else ""
    text = "&" + bf + spelled(b, "")
    used = []
    for i in range(n):
        if i and ch.flag():
            break
        r = "<<<"[:int(bf[-2])] if bf and not i else ch.pick(rels)
        left = [k for k in keys if k not in used and k != b]
        if not left:
            if i:
                break
            raise core.Skip()
        k = ch.pick(left)
        used.append(k)
        text += " " + r + " " + spelled(k, "")
    if expansion and ch.flag():
        text += " / " + ch.pick(["e", "ab"])
    return text, b, used


def single(n, keys, bases):
    def case(ch):
        text, b, used = run(ch, n, keys, bases, REL)
        judge(ch, text)
    return case


def resets(rounds, n, keys, bases, before):
    def case(ch):
        text, used, pos = [], [], []
        clash = False
        for i in range(rounds):
            ks = [k for k in keys if k not in used]
            if not ks or i and ch.flag():
                break
            t, b, u = run(ch, n, ks, bases + used, REL[:3] if rounds > 2 else REL, before=before)
            text.append(t)
            used += u
        judge(ch, "\n".join(text), keyed=len(text) < 2)
    return case


def spelling(ch):
    """one tailoring in every spelling of its elements"""
    k = ch.pick(["&", "<", "=", "/", "'", "x", "\u00e4", "&x", "b'", "<a", "aa", "ngy", "abcd", "a-b.c"] + (list("!@-[]{}|^#") if ch.flag() else []))
    how = ch.pick(["", "hex", "lower", "long"])
    k2 = ch.dev([None, "m", "k"])
    how2 = ch.dev(["", "lower"]) if k2 else ""
    ws = ch.dev([" ", "", "\n", "  \n "])
    com = ch.dev(["", "\n# a comment < & y\n", " # note < = y\n", "\t#\n"])
    r = ch.pick(REL)
    text = "&" + ws + spelled(ch.dev(["a", "z"]), ch.dev(["", "hex"])) + ws + r + ws + spelled(k, how) + com + ws + ("<" + ws + spelled(k2, how2) + ws if k2 else "")
    judge(ch, text)
    c = subj.mod("collation").Collation()
    c.parse(text)
    if set(c) != {k, k2} - {None}:
        raise core.Violation("%r tailors %r, not %r" % (text, sorted(c), [k, k2]))


def expansions(ch):
    t, b, u = run(ch, 2, ["x", "ch", "&"], ["a", "B"], REL[:3], before=False)
    t += " / " + ch.pick(["e", "ab", "\\&", "\\u0065"])
    t2 = ch.pick(["", "\n&z < m", "\n& m << Q / b"])
    judge(ch, t + t2, keyed=False)


def incremental(ch):
    """tailorings read one after the other are one tailoring"""
    parts = []
    used = []
    for i in range(3):
        if i == 2 and ch.flag():
            break
        ks = [k for k in ["x", "ch", "m", "Q"] if k not in used]
        t, b, u = run(ch, 1, ks, ["a", "b"] + used[-1:], REL[:2], before=False)
        parts.append(t)
        used += u
    text = "\n".join(parts)
    ch.note(repr(parts))
    want = order(text, WORDS)
    c = subj.mod("collation").Collation()
    for p in parts:
        c.parse(p)
        if ch.flag():
            ch.note("used in between")
            c.asICU()
            c.sortKey("x")
    got = c.asICU()
    ch.seen(got)
    d = same(want, order(got, WORDS), WORDS)
    if d:
        raise core.Violation("%r read one after the other are %r, which sorts %r and %r otherwise" % (parts, got, d[1], d[2]))


LONG = "\u03b1\u03b2\u03b3\u03b4\u03b5\u03b6\u03b7\u03b8\u03b9\u03ba\u03bb\u03bc\u03bd\u03be\u03bf\u03c0\u03c1\u03c3\u03c4\u03c5\u03c6\u03c7\u03c8\u03c9\u0430\u0431\u0432\u0433\u0434\u0435\u0436\u0437\u0438\u043a\u043b\u043c\u043d\u043e\u043f\u0440\u0441\u0442\u0444\u0445\u0446\u0447\u0448\u0449\u044a\u044b\u044c\u044d\u044e\u044f"


def long(runs, befores):
    """many elements after one character and before others"""
    def case(ch):
        n = ch.pick(runs)
        m = ch.pick(befores)
        rel = ch.pick(["<", "<<", "<<<", "< <<"])
        each = ch.pick([1, 2, 12])
        first, bases = ch.pick([("a", "bdfhj"), ("a", "z\u00e9kQc"), ("\u05d0", "\u05d1\u05d3\u05d5\u05d7\u05d9")])     # the last are next to each other
        late = ch.pick(["once", "in two", "used in between"])
        names = list(LONG)
        parts = ["&" + first + "".join(" %s %s" % (rel.split()[i % len(rel.split())], names.pop()) for i in range(n))] if n else []
        words = ["a", first + first, first + "b", first, "c", "g", "z", "ea", "qa", "z0"] + [w for w in bases if w not in "zc"]
        for b in bases[:m]:
            if len(names) < each:
                raise core.Skip()
            l = ch.pick([1, 2]) if m == 1 else 1
            parts.append("&[before %d]%s" % (l, b) + "".join(" %s %s" % ("<<<"[:l], names.pop()) for i in range(each)))
        if not parts or late != "once" and len(parts) < 2:
            raise core.Skip()
        done = [c for c in LONG if c not in names]
        words = sorted(set(words)) + done + [done[0] + "a", "b" + done[-1]]
        text = "\n".join(parts)
        if late == "once":
            return judge(ch, text, words=words)
        c = subj.mod("collation").Collation()
        c.parse("\n".join(parts[:1]))
        if late == "used in between":
            c.asICU()
            [c.sortKey(w) for w in words]
        c.parse("\n".join(parts[1:]))
        ch.note(repr(text), late)
        want = order(text, words)
        got = c.asICU()
        d = same(want, order(got, words), words)
        if d:
            raise core.Violation("%r read in two parts is %r, which sorts %r and %r otherwise" % (text, got, d[1], d[2]))
        agree(text, c, want, words)
        ch.seen(got)
    return case


def forward(bases, keys, more, before):
    def case(ch):
        """resets to what a later rule moves"""
        b = ch.pick(bases)
        t, _, used = run(ch, 2, [k for k in keys if k != b], [b], REL[:3], before=before)
        t2, _, u2 = run(ch, 2, [k for k in [b] + more if k not in used], ["a", "z"] + used[:1], REL[:3], before=before)
        judge(ch, t + "\n" + t2, keyed=False)
    return case


RULES = [("tailored", lambda k: "&a < " + k), ("escaped", lambda k: "&a << \\" + k), ("hex", lambda k: "&a < " + spelled(k, "lower" if k < "\U00010000" else "long")),
         ("reset", lambda k: "&" + k + " < x <<< ch"), ("contraction", lambda k: "&b < x" + k + " << " + k + "x")]


FEW = [range(0, 0x3100), range(0xa640, 0xab70), range(0xe000, 0xe010), range(0xf8f0, 0x10050), range(0x10400, 0x10420), range(0x1f300, 0x1f310), range(0xe0000, 0xe0080), range(0xfff00, 0xfff10)]


def characters(ranges):
    cps = [c for r in ranges for c in r if unicodedata.category(chr(c)) not in ("Cn", "Cs")]
    rows = [cps[i:i + 256] for i in range(0, len(cps), 256)]

    def case(ch):
        """every character: tailored as it is, escaped and in hex, as a reset and in contractions"""
        c = chr(ch.pick(ch.pick(rows)))
        name, rule = ch.pick(RULES)
        if c in SYNTAX and name != "escaped":
            k = "''" if c == "'" else "\\" + c
        elif c in WHITE and name != "escaped":
            k = spelled(c, "hex")
        else:
            k = c
        if (name, c) in (("tailored", "a"), ("hex", "a"), ("reset", "x"), ("escaped", "a")):
            raise core.Skip()
        if name == "escaped" and c not in SYNTAX | WHITE:
            raise core.Skip()
        if name == "hex":
            k = c
        judge(ch, rule(k), keyed=False, words=["a", "b", "x", c, "x" + c, c + "x", "a" + c, c + "a", "b" + c, "ab", "ba", "B", "\u00e1", "ch"])
    return case


def setup():
    subj.mod("collation").Collation()


def harnesses(tier):
    q = tier == "quick"
    return [dict(name="single", case=single(2 if q else 3, KEYS, BASES), setup=setup, bounds="every reset to one of %d characters, before it or not, with at most %d of %d elements and 4 relations" % (len(BASES), 2 if q else 3, len(KEYS))),
            dict(name="spelling", case=spelling, bound=1 if q else 2, setup=setup, bounds="24 elements in 4 spellings and 4 relations, with %s of: a second element in 2 spellings, 3 kinds of white space, 3 comments, another base, the base spelled otherwise" % ("at most 1" if q else "at most 2")),
            dict(name="expansions", case=expansions, setup=setup, bounds="runs of at most 2 of 3 elements on 2 characters, 4 expansions of the last, a further reset or none"),
            dict(name="incremental", case=incremental, setup=setup, bounds="at most 3 tailorings of one element on 2 characters or the element before, used in between or not"),
            dict(name="characters", case=characters(FEW if q else [range(0, 0xd800), range(0xe000, 0x30000)]), setup=setup,
                 bounds="every assigned character of %s: tailored as it is, escaped, in hex, as a reset, in contractions" % ("U+0000 to U+30FF and the ends of other blocks" if q else "planes 0 to 2")),
            dict(name="long", case=long([0, 1, 4, 7, 9, 10, 11, 30] if q else list(range(31)), [0, 1, 3] if q else [0, 1, 2, 3, 4, 5]), setup=setup, bounds="runs of up to 30 elements after one character, and of 1, 2 or 12 before up to %d others; read at once or in two parts" % (3 if q else 5)),
            dict(name="forward", case=forward(["x", "\u00e9"], ["m", "ch"], ["\u00e4"], False) if q else forward(["x", "Q", "\u00e9"], ["m", "x", "ch"], ["x", "\u00e4"], True), setup=setup, bounds="at most 2 elements on a character that a second reset, with at most 2 elements, moves"),
            dict(name="resets", case=resets(2, 2, KEYS[:3], BASES[:3] if q else BASES[:4], True), setup=setup, bounds="at most 2 resets to %d characters or earlier elements, of at most 2 of 3 elements" % (3 if q else 4))] + (
            [] if q else [dict(name="three", case=resets(3, 2, KEYS[:4], BASES[:3], False), setup=setup, bounds="at most 3 resets to 3 characters or earlier elements, of at most 2 of 4 elements")])
