"""C13: sort keys order words as the Unicode collation algorithm does, and compare as a total order."""
import itertools, os, re, unicodedata
from mc import core, subj
import icu

ASSUMPTIONS = ["words are in canonical order, of characters whose weights in the CLDR root collation (ICU) are those of the DUCET",
               "ICU's root collator (non-ignorable) is the reference at primary, secondary and tertiary strength"]
ALPHA = ["a", "b", "B", "z", "Z", "\u00e1", "\u00c1", "\u00df", "s", "\u0323", "\u0301", "\u0915", "\u093e", "\u094d", "\u0430", "\u0439", "\u03b1", "\u0144", "\u01c6"]
SMALL = ["a", "B", "b", "\u00e1", "\u0301", "\u0915", "\u00df", "s", "\u094d"]
LEVELS = [icu.Collator.PRIMARY, icu.Collator.SECONDARY, icu.Collator.TERTIARY]


def sgn(n):
    return (n > 0) - (n < 0)


def rootkeys(words):
    r = icu.Collator.createInstance(icu.Locale(""))
    r.setAttribute(icu.UCollAttribute.NORMALIZATION_MODE, icu.UCollAttributeValue.ON)
    res = {}
    for l in LEVELS:
        r.setStrength(l)
        for w in words:
            res.setdefault(w, []).append(bytes(r.getSortKey(w)))
    return res


def canonical(w):
    """the marks of each character are in canonical order without any reordering"""
    import unicodedata as ud
    raw = "".join(ud.normalize("NFD", c) for c in w)
    return raw == ud.normalize("NFD", w)


def wordlist(alpha, n):
    return [w for k in range(1, n + 1) for w in ("".join(x) for x in itertools.product(alpha, repeat=k)) if canonical(w)]


DATA = {}


def agree(a, b, ka, kb, ra, rb):
    k = ka.cmp(kb)
    got = [0 if k == 0 or abs(k) > i + 1 else sgn(k) for i in range(3)]
    want = [(x > y) - (x < y) for x, y in zip(ra, rb)]
    if got != want:
        raise core.Violation("%r against %r: the sort keys say %r at the three levels, Unicode %r" % (a, b, got, want), key_a=repr(ka), key_b=repr(kb))


def setup(alpha, n):
    def s():
        m = subj.mod("collation")
        c = m.Collation()
        ws = wordlist(alpha, n)
        DATA["words"], DATA["keys"], DATA["root"] = ws, {w: c.getSortKey(w) for w in ws}, rootkeys(ws)
    return s


def words(alpha, n):
    ws = wordlist(alpha, n)

    def case(ch):
        a = ch.pick(ws)
        ka, ra = DATA["keys"][a], DATA["root"][a]
        ch.note(repr(a))
        for b in DATA["words"]:
            agree(a, b, ka, DATA["keys"][b], ra, DATA["root"][b])
        ch.seen(repr(ka))
    return case


LONG = {"TAI", "THAI", "NEW", "LAO"}


def entries():
    """the lines of the DUCET, read here: [(key, weights)], and the code points that come before another on five digits"""
    res, path = [], os.path.join(os.path.dirname(subj.mod("collation").__file__), "allkeys.txt")
    with open(path, encoding="utf-8") as f:
        for line in f:
            head, semi, tail = line.partition(";")
            if not semi or head.startswith(("@", "#")):
                continue
            ws = re.findall(r"\[[.*]([0-9A-F]+)\.([0-9A-F]+)\.([0-9A-F]+)\]", tail.split("#")[0])
            res.append((head.split(), tuple(tuple(int(x, 16) for x in w) for w in ws)))
    return res


def text(codes):
    return "".join(chr(int(c, 16)) for c in codes)


def script(c):
    return unicodedata.name(c, "?").split()[0]


def contractions(most):
    res = {}
    for codes, _ in entries():
        k = text(codes)
        if len(k) > 1 and max(k) < "\U00010000" and script(k[0]) != "HANGUL":
            res.setdefault(script(k[0]), []).append(k)
    return {s: (sorted(ks)[::max(1, len(ks) // most)] if s in LONG else sorted(ks)) for s, ks in res.items()}


def contr_setup(most):
    def s():
        c = subj.mod("collation").Collation()
        DATA["groups"] = {}
        for scr, ks in contractions(most).items():
            ws = set()
            for k in ks:
                parts = {k[:i] for i in range(1, len(k) + 1)} | {k[i:] for i in range(len(k))}
                ws |= {p + x + t for x in parts for p in ("", "a") for t in ("", "b", "\u0301")} | {k + x for x in parts}
            ws = sorted(w for w in ws if canonical(w))
            DATA["groups"][scr] = ws, {w: c.getSortKey(w) for w in ws}, rootkeys(ws)
    return s


def contracted(most):
    scripts = sorted(contractions(most))

    def case(ch):
        scr = ch.pick(scripts)
        ws, keys, root = DATA["groups"][scr]
        part = ch.index(8)
        for a in ws[part::8]:
            for b in ws:
                agree(a, b, keys[a], keys[b], root[a], root[b])
        ch.seen(scr + str(part))
    return case


# ---- every entry of the DUCET is read, and every letter, digit and mark sorts where it should

FOUR = "five and six digit code points are read as four digits"


def table_setup():
    c = subj.mod("collation")
    es = entries()
    four = {}
    for codes, ws in es:
        four[text(re.findall("[0-9A-F]{4}", " ".join(codes)))] = ws
    DATA["table"] = dict(entries=es, right={text(codes): ws for codes, ws in es}, four=four,
                         got={"collation": c.readDucet(), "ducet": subj.mod("ducet").readDucet()})


def table(nblocks):
    def case(ch):
        t = DATA["table"]
        who = ch.pick(["ducet", "collation"])
        part = ch.index(nblocks)
        got, right = t["got"][who], t["right"]
        known = None
        for k in sorted(set(got) | set(right))[part::nblocks]:
            if got.get(k) == right.get(k):
                continue
            if who == "collation" and got.get(k) == t["four"].get(k):
                known = k
                continue
            raise core.Violation("%s.readDucet has %r for %r (%s), the file says %r" % (who, got.get(k), k, ascii(k), right.get(k)))
        ch.seen((who, part))
        if known is not None:
            raise core.Violation("collation.readDucet has %r for %s, the file says %r: %s" % (got.get(known), ascii(known), right.get(known), FOUR), key=FOUR)
    return case


# characters whose weights in the CLDR root collation (or in later versions of Unicode) are not those of this DUCET
ODD = set("\u02d0\u02d1\u0675\u0676\u0677\u0678\u0971\u0e46\u0ec6\u0f82\u0f83\u17d7\u1aa7\u1d89\u1d98\u1de3\u1e9b\u3005\u3031\u3032\u3033"
          "\u3034\u3035\u3039\u303b\u309d\u309e\u30fc\u30fd\u30fe\u31ac\ua75a\ua75b\ua785\ua9b5\ua9cf\ua9e6\uaa70\uaadd\uaaf3\uaaf4\ufbdd\uff70\u1de5\ua784")


def letters():
    t = DATA["table"]
    single = [k for k in t["right"] if len(k) == 1 and unicodedata.category(k)[0] in "LNM" and k not in ODD and script(k) != "CJK"]
    return [k for k in single if t["four"].get(k) == t["right"][k]]


def letter_setup():
    table_setup()
    ws = letters()
    c = subj.mod("collation").Collation()
    root = rootkeys(ws)
    ws.sort(key=lambda w: root[w][2])
    DATA["letters"] = ws, {w: c.getSortKey(w) for w in ws}, root


def every_letter(nblocks):
    def case(ch):
        ws, keys, root = DATA["letters"]
        part = ch.index(nblocks)
        n = len(ws) // nblocks + 1
        block = ws[part * n:(part + 1) * n + 1]
        for a, b in zip(block, block[1:]):
            agree(a, b, keys[a], keys[b], root[a], root[b])
            agree(b, a, keys[b], keys[a], root[b], root[a])
        ch.seen(part)
    return case


# what is not in the DUCET: Hangul syllables, Han (and a compatibility character), private use, not assigned
OUTSIDE = ["\uac00", "\uac01", "\ud7a3", "\u4e00", "\u4e01", "\uf900", "\ue400", "\uf8ff", "\U000f0000", "\u0378", "\U0010fffd"]
# in the order of UCA, where ICU has that of radicals and strokes
HAN = ["\u3042", "\u4e00", "\u4e01", "\u7fff", "\u8000", "\u9fa5", "\ufa0e", "\ufa29", "\u3400", "\u3401", "\u4db5", "\U00020000", "\U00020001", "\U0002b734", "\u0378", "\ue400", "\U0002fa1e"]


def han_setup():
    subj.warm()
    DATA["coll"] = subj.mod("collation").Collation()


def han(ch):
    """Han characters in the order of UCA: the unified block, the extensions, what is not assigned; also after and before a letter"""
    c = DATA["coll"]
    i, j = ch.index(len(HAN)), ch.index(len(HAN))
    pre, post = ch.pick(["", "a", "\u4e00", "\ue400"]), ch.pick(["", "b", "\u4e00", "\u0301"])
    a, b = pre + HAN[i] + post, pre + HAN[j] + post
    ch.note(repr(a), repr(b))
    k = c.getSortKey(a).cmp(c.getSortKey(b))
    ch.seen(sgn(k))
    if k != (i > j) - (i < j):
        raise core.Violation("%r against %r: the sort keys say %r, UCA %r at the first level" % (a, b, k, (i > j) - (i < j)))

VALS = [[], [0], [1], [2], [1, 0], [1, 1], [0, 1], [1, 2], [2, 0, 0]]


def strip(v):
    v = list(v)
    while v and v[-1] == 0:
        v.pop()
    return v


def operators(vals):
    def case(ch):
        SK = subj.mod("collation").SortKey
        a = [ch.pick(vals) for _ in range(3)]
        ra = [strip(v) for v in a]
        x = SK([list(v) for v in a])
        for b in itertools.product(vals, repeat=3):
            rb = [strip(v) for v in b]
            y = SK([list(v) for v in b])
            ops = dict(lt=x < y, gt=x > y, le=x <= y, ge=x >= y, eq=x == y, ne=x != y)
            want = dict(lt=ra < rb, gt=ra > rb, le=ra <= rb, ge=ra >= rb, eq=ra == rb, ne=ra != rb)
            if ops != want:
                raise core.Violation("%r and %r: %r" % (a, b, {k: v for k, v in ops.items() if v != want[k]}))
            level = next((i + 1 for i in range(3) if ra[i] != rb[i]), 0)
            if abs(x.cmp(y)) != level:
                raise core.Violation("%r and %r first differ at level %d, not %d" % (a, b, level, x.cmp(y)))
            if ra == rb and hash(x) != hash(y):
                raise core.Violation("%r and %r are equal with different hashes" % (a, b))
            s = x + y
            if [list(v) for v in s] != [p + list(q) for p, q in zip(a, b)]:
                raise core.Violation("%r + %r is %r" % (a, b, s))
            t = x.copy()
            t += y
            if t is None or t != s or [list(v) for v in x] != a:
                raise core.Violation("%r += %r is %r and leaves %r" % (a, b, t, x))
        c = x.copy()
        for v in c:
            v.append(9)
        if [list(v) for v in x] != a:
            raise core.Violation("changing a copy of %r changes it" % (a,))
        ch.seen(repr(ra))
    return case


def harnesses(tier):
    q = tier == "quick"
    v = VALS[:6] if q else VALS
    return [dict(name="operators", case=operators(v), setup=lambda: subj.mod("collation"), bounds="all pairs of keys of three levels with %d values each" % len(v)),
            dict(name="words", case=words(ALPHA, 2), setup=setup(ALPHA, 2), bounds="all pairs of the words of at most 2 of %d characters" % len(ALPHA)),
            dict(name="longer", case=words(SMALL[:5] if q else SMALL, 3), setup=setup(SMALL[:5] if q else SMALL, 3), bounds="all pairs of the words of at most 3 of %d characters" % (5 if q else 8)),
            dict(name="outside", case=words(OUTSIDE + ["a", "\u0301", "\u3042"], 2), setup=setup(OUTSIDE + ["a", "\u0301", "\u3042"], 2),
                 bounds="all pairs of the words of at most 2 of %d characters, %d of them not in the DUCET" % (len(OUTSIDE) + 3, len(OUTSIDE))),
            dict(name="han", case=han, setup=han_setup, bounds="all pairs of %d characters, most of them Han, in 16 contexts" % len(HAN)),
            dict(name="contractions", case=contracted(40 if q else 300), setup=contr_setup(40 if q else 300),
                 bounds="all pairs, script by script, of the words made of the parts of the contractions of the DUCET with something before and after"),
            dict(name="table", case=table(40), setup=table_setup, known=True, bounds="every entry of allkeys.txt, for both readers"),
            dict(name="letters", case=every_letter(40), setup=letter_setup,
                 bounds="each letter, number and mark of the DUCET against the next one in the order of Unicode")]
