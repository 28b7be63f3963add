"""C16: the exemplars found in a text account for the text."""
import collections, unicodedata
from mc import core, subj
import icu

ASSUMPTIONS = ["no two scripts are equally frequent in the text; the text is cased letter by letter (no titlecase digraphs); no digit carries a nukta",
               "where a mark counts as a second diacritic only because of another mark that is itself separate, the outcome is not compared"]
DI = icu.UProperty.DEFAULT_IGNORABLE_CODE_POINT


def script_of(c):
    return icu.Script.getShortName(icu.Script.getScript(c))


def specific(c):
    return script_of(c) not in ("Zyyy", "Zinh")


def aletter(c):
    return icu.Char.getIntPropertyValue(c, icu.UProperty.WORD_BREAK) in (1, 3)


def punct(c):
    return unicodedata.category(c)[0] == "P" and not aletter(c)


def mark(c):
    return unicodedata.category(c)[0] == "M"


def number(c):
    return unicodedata.category(c) in ("Nd", "No")


def ignorable(c):
    return icu.Char.hasBinaryProperty(c, DI)


def base_ok(c):
    if len(c) == 1 and icu.Char.isUUppercase(c):
        return False        # exemplars are lower case, this has none
    return number(c) or specific(c) or aletter(c) or icu.Char.isUAlphabetic(c)


class Found:
    """what a text holds, worked out from its definition"""
    def __init__(self, texts, presets=()):
        self.scripts = collections.Counter()
        self.punct = set()
        self.clusters = collections.Counter()
        self.upper, self.lower = set(), set()
        for t in texts:
            self.scan(unicodedata.normalize("NFD", t), presets)

    def scan(self, t, presets):
        for c in t:
            self.scripts[script_of(c)] += 1
        i = 0
        while i < len(t):
            best = ""
            for p in presets:
                p = unicodedata.normalize("NFD", p).lower()
                after = t[i + len(p):i + len(p) + 1]
                if len(p) > len(best) and t[i:i + len(p)].lower() == p and not (after and mark(after)):
                    best = p
            if best:
                self.clusters[(best, "")] += 1
                i += len(best)
                continue
            c = t[i]
            i += 1
            if punct(c):
                self.punct.add(c)
                continue
            if not base_ok(c.lower()):
                continue
            base, trail = c.lower(), ""
            while i < len(t) and (mark(t[i]) or t[i] in "\u200c\u200d"):
                if unicodedata.combining(t[i]) == 7:
                    if number(base[0]):
                        raise core.Skip()
                    base += t[i]
                else:
                    trail += t[i]
                i += 1
                if t[i - 1] == "\u200c":
                    break
            self.clusters[(base, trail)] += 1
            if icu.Char.isUUppercase(c):
                self.upper.add(base + trail)
            elif icu.Char.isULowercase(c):
                self.lower.add(base + trail)

    def script(self):
        n = collections.Counter({s: k for s, k in self.scripts.items() if s not in ("Zyyy", "Zinh")})
        if not n:
            return None
        top = n.most_common()
        if len(top) > 1 and top[0][1] == top[1][1]:
            raise core.Skip()
        return top[0][0]

    def sets(self, many, frequent):
        """digits, main, auxiliary"""
        digits = {b for (b, t) in self.clusters if len(b) == 1 and number(b) and not t}
        cl = {k: n for k, n in self.clusters.items() if not (k[0] in digits and not k[1])}
        bases = collections.defaultdict(set)
        for b, t in cl:
            for m in t:
                if mark(m):
                    bases[m].add(b)
        marks = {m for b, t in cl for m in t}
        sep = {m for m in marks if not ("\u0300" <= m <= "\u036f" or unicodedata.combining(m) == 7) or ignorable(m) or len(bases.get(m, ())) > many or
               any(o != m and bases[o] == bases[m] for o in bases if m in bases)}
        def second(cls):
            return {t[i] for b, t in cls for i in range(1, len(t)) if unicodedata.combining(t[i]) == unicodedata.combining(t[i - 1])}
        a = sep | second(cl)
        c = sep | second([(b, [m for m in t if m not in sep]) for b, t in cl])
        if a != c:
            raise core.Skip()
        sep = a
        occurs, aux = collections.Counter(), set()
        for (b, t), n in cl.items():
            occurs[b + "".join(m for m in t if m not in sep)] += n
            for m in t:
                if m in sep:
                    occurs[m] += n
        for e in list(occurs):
            if ignorable(e[0]):
                aux.add(e)
                del occurs[e]
        average = sum(occurs.values()) / len(occurs) if occurs else 0
        main = {e for e, n in occurs.items() if n * 100 > average * frequent and e != "\u0640"}
        return digits, main, aux | (set(occurs) - main)


def kept(entries, script):
    out = {unicodedata.normalize("NFC", e) for e in entries}
    return {e for e in out if not specific(e[0]) or script_of(e[0]) == script}


COLL = None
NAMES = {}        # member as written -> member


def found(texts, many, frequent, presets=None):
    m = subj.mod("ldml_exemplars")
    x = m.Exemplars()
    x.collator = COLL
    x.many_bases, x.frequent = many, frequent
    if presets:
        for k, v in presets.items():
            setattr(x, k, v)
    for t in texts:
        x.process(t)
    x.analyze()
    return x


def names(us):
    l = []
    for w in us[1:-1].split():
        if w not in NAMES:
            NAMES[w], = subj.mod("UnicodeSets").us2list("[" + w + "]")
        l.append(NAMES[w])
    if len(set(l)) != len(l):
        raise core.Violation("%s lists something twice" % us)
    return l


def show(x):
    return {k: names(getattr(x, k)) for k in ("main", "auxiliary", "index", "punctuation", "digits")}


def compare(x, ref, many, frequent, what, casing=True):
    script = ref.script()
    digits, main, aux = ref.sets(many, frequent)
    got = show(x)
    want = dict(main=kept(main, script), auxiliary=kept(aux, script), digits=kept(digits, script), punctuation=kept(ref.punct, script),
                index=kept({str(icu.UnicodeString(e).toUpper(icu.Locale("en"))) for e in main if not mark(e[0])}, script))
    if script is not None and x.script != script:
        raise core.Violation("%s: the script is %s, not %s" % (what, x.script, script))
    for k in ("digits", "punctuation", "main", "auxiliary", "index"):
        if set(got[k]) != want[k]:
            raise core.Violation("%s: the %s exemplars are %s, not %s" % (what, k, ascii(sorted(got[k])), ascii(sorted(want[k]))))
    for k, l in got.items():
        n = [COLL.getSortKey(unicodedata.normalize("NFD", e)) for e in l]
        if n != sorted(n):
            raise core.Violation("%s: the %s exemplars %s are not sorted" % (what, k, ascii(l)))
    clusters = collections.Counter({b + t: n for (b, t), n in ref.clusters.items()})
    raw = collections.Counter()
    for e, n in getattr(x, "raw_clusters", {}).items():
        raw[e.text] += n
    if raw != clusters and hasattr(x, "raw_clusters"):
        raise core.Violation("%s: the clusters are %s, not %s" % (what, ascii(dict(raw)), ascii(dict(clusters))))
    if casing:
        n = collections.Counter()
        for e, k in clusters.items():
            n[unicodedata.normalize("NFC", e)] += k
        # a mark alone is written as one even where its cluster was
        gr = names(x.graphemes)
        if set(gr) != kept(n, script) or [n[e] for e in gr] != sorted([n[e] for e in gr], reverse=True):
            raise core.Violation("%s: the graphemes %s are not the clusters by frequency %s" % (what, ascii(gr), ascii(dict(n))))
        if names(x.frequency) != ["%s:%d" % (e, n[e]) for e in gr]:
            raise core.Violation("%s: the frequencies are %s, not %s" % (what, ascii(x.frequency), ascii(dict(n))))
        nc = {e: "only_upper" for e in ref.upper - ref.lower}
        nc.update({e: "only_lower" for e in ref.lower - ref.upper})
        if dict(x.non_casing_chars) != nc:
            raise core.Violation("%s: the letters in one case are %s, not %s" % (what, ascii(dict(x.non_casing_chars)), ascii(nc)))
    return got


ALPHA = {"latin": ["a", "b", "A", "\u00e9", "E\u0301", "\u0301", "\u0300", "\u0323", "1", ".", " ", "\u02bc", "\u0101"],
         "indic": ["\u0915", "\u0958", "\u093f", "\u094d", "\u093c", "\u200d", "\u200c", "\u0967", "\u0964", " ", "\u0301", "a"],
         "mixed": ["a", "\u3164", "\u034f", "\ufe00", "\u06dd", "\u00ad", "\U0001e900", "\U0001e922", "\U0001e94a", "\u0640", "\u0628", "\u05f3", "("]}


def texts(alpha, n, extra):
    def case(ch):
        toks = []
        for _ in range(n):
            i = ch.index(len(alpha) + 1) if toks else ch.index(len(alpha))
            if i == len(alpha):
                break
            toks.append(alpha[i])
        many, frequent = ch.pick(extra)
        text = "".join(toks)
        ch.note(ascii(text))
        ref = Found([text])
        ref.script()
        x = found([text], many, frequent)
        got = compare(x, ref, many, frequent, ascii(text))
        ch.seen(repr(got))
        # the spelling does not matter
        for f in ("NFC", "NFD"):
            t = unicodedata.normalize(f, text)
            if t != text and show(found([t], many, frequent)) != got:
                raise core.Violation("%s has other exemplars than %s" % (ascii(t), ascii(text)))
        up = "".join(c.upper() if len(c.upper()) == 1 and c.upper().lower() == c and unicodedata.category(c) == "Ll" else c for c in text)
        if up != text and show(found([up], many, frequent)) != got:
            raise core.Violation("%s has other exemplars than %s" % (ascii(up), ascii(text)))
        # nor do the order of words and how often the text is read
        words = text.split(" ")
        if len(words) > 1:
            if show(found(words[::-1], many, frequent)) != got and not any(s in words for s in ("",)):
                raise core.Violation("the words of %s in reverse order have other exemplars" % ascii(text))
        if show(found([text, text], many, frequent)) != got:
            raise core.Violation("%s twice has other exemplars than once" % ascii(text))
    return case


MARKS = ["", "\u0301", "\u0300", "\u0301\u0300", "\u0323\u0301", "\u0323", "\u0300\u0301", "\u093f\u0301", "\u0302\u0300"]


def clusters(n, bases, extra):
    toks = [b + m for b in bases for m in MARKS]

    def case(ch):
        picked = []
        for i in range(n):
            k = ch.index(len(toks) + (1 if i else 0))
            if k == len(toks):
                break
            picked.append(toks[k])
        many, frequent = ch.pick(extra)
        text = "".join(picked)
        ch.note(ascii(text))
        ref = Found([text])
        got = compare(found([text], many, frequent), ref, many, frequent, ascii(text))
        ch.seen(repr(got))
        if show(found(picked, many, frequent)) != got:
            raise core.Violation("the clusters of %s one by one have other exemplars" % ascii(text))
        if show(found(picked[::-1], many, frequent)) != got:
            raise core.Violation("the clusters of %s in reverse order have other exemplars" % ascii(text))
    return case


PRESETS = [dict(main="[n {ng}]"), dict(main="[a b {ng} {ngg}]"), dict(auxiliary="[\u00e9 {ng}]"), dict(index="[N {NG} A]", main="[a n {ng}]"), dict(main="[a {a\\u0301} {aa}]"), dict(main="[z]", digits="[0]", punctuation="[,]")]
PTOK = ["n", "g", "a", "\u0301", "N", "G", "\u00e9", ".", "1", "A"]


def presets(n):
    def case(ch):
        p = ch.pick(PRESETS)
        text = ""
        for i in range(n):
            k = ch.index(len(PTOK) + (1 if i else 0))
            if k == len(PTOK):
                break
            text += PTOK[k]
        ch.note("%s %s" % (p, ascii(text)))
        listed = [e for v in p.values() for e in names(v)]
        listed = [e for e in listed if not punct(e[0]) and not number(e[0])]
        ref = Found([text], listed)
        what = "%s with %s given before" % (ascii(text), p)
        got = compare(found([text], 5, 1, p), ref, 5, 1, what, False)
        ch.seen(repr(got))
    return case


def characters(ch):
    """every character: alone, on and before a letter, and with a mark"""
    c = chr(ch.index(0x300) * 0x100)
    n = ch.index(0x100)
    c = chr(ord(c) + n)
    cat = unicodedata.category(c)
    if cat in ("Cn", "Cs", "Co", "Lt") or script_of(c) == "Zzzz" or unicodedata.normalize("NFD", c) != c:
        raise core.Skip()
    forms = [c, "a" + c, c + "a"] if not mark(c) else [c, "a" + c, "a\u0301" + c, "a" + c + "\u0301b\u0323", "aaa" + c]
    for t in forms + ([c + "\u0301"] if cat[0] == "L" else []):
        ch.note(ascii(t))
        ref = Found([t])
        try:
            ref.script()
            ref.sets(5, 1)
        except core.Skip:
            continue
        ch.seen(repr(compare(found([t], 5, 1), ref, 5, 1, ascii(t), unicodedata.category(c) not in ("Lu", "Ll") or len(c.lower()) == len(c.upper()) == 1)))


def setup():
    global COLL
    COLL = icu.Collator.createInstance(icu.Locale.getRoot())
    subj.mod("ldml_exemplars")
    subj.mod("UnicodeSets")


def harnesses(tier):
    q = tier == "quick"
    n = 4 if q else 5
    ex = [(5, 1), (1, 80)] if q else [(5, 1), (1, 80), (0, 130)]
    hs = [dict(name="texts " + k, case=texts(a, n, ex), setup=setup, bounds="every text of at most %d of %d characters, %d settings" % (n, len(a), len(ex))) for k, a in ALPHA.items()]
    hs.append(dict(name="clusters", case=clusters(3, "ab", ex) if q else clusters(4, "ab", ex[:2]), setup=setup, bounds="every sequence of at most %d of %d clusters of a letter and marks" % (3 if q else 4, 2 * len(MARKS))))
    hs.append(dict(name="characters", case=characters, setup=setup, bounds="every character of the planes 0 to 2 but private use and composed ones, in at most 5 texts"))
    hs.append(dict(name="presets", case=presets(5 if q else 6), setup=setup, bounds="%d sets of exemplars given before and every text of at most %d of %d characters" % (len(PRESETS), 5 if q else 6, len(PTOK))))
    return hs
