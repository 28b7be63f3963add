"""C19: language tags are understood as BCP 47 says; tables of tags and the subtag registry are read as written."""
import os, re, tempfile
from xml.etree import ElementTree as et
from itertools import combinations
from mc import core, subj

ASSUMPTIONS = ["BCP 47 (RFC 5646) gives the subtags of a well-formed tag; grandfathered tags, language subtags of four or more letters, repeated singletons and tags of private use only are outside",
               "the short form of an entry that equivalent tags were merged into is left open (which of script and region it hides is a matter of history)"]
REPO = os.environ.get("MC_REPO", "/repo")
S = {}


def setup():
    m = subj.mod("langtags_full")
    subj.mod("iana")
    with open(os.path.join(REPO, "lib/sldr/langtags.txt"), encoding="utf-8") as f:
        S["lines"] = f.read().splitlines()
    S["all"] = m.LangTags()
    S["reg"] = records(open(os.path.join(REPO, "lib/sldr/language-subtag-registry.txt"), encoding="utf-8").read())


# -- tags

STYLES = [lambda s: s, str.lower, str.upper, lambda s: s.replace("-", "_"), lambda s: s.swapcase(), lambda s: s.replace("-", "_", 1).title()]


def tags(ch):
    LT = subj.mod("langtags_full").LangTag
    lang = ch.dev(["de", "sgn", "zh"])
    ext = ch.dev([[], ["yue"], ["aaa", "bbb"], ["aaa", "bbb", "ccc"]])
    script = ch.dev([None, "Latn", "Hant"])
    region = ch.dev([None, "DE", "419", "ZZ"])
    variants = ch.dev([[], ["1996"], ["rozaj"], ["a1b2c"], ["1a2b", "rozaj"], ["rozaj", "1996"], ["valencia", "biske"]])
    exts = {}
    order = []
    for names in (["u", "t", "0"], ["a", "y", "u"]):
        n = ch.dev([None] + names)
        if n is None:
            continue
        if n in exts:
            raise core.Skip()
        exts[n] = ch.dev([["co"], ["nu", "latn", "co", "phonebk"], ["latn"], ["1996", "de"], ["zz", "aa"], ["x9", "abc"], ["419"]])
        order.append(n)
    private = ch.dev([[], ["a"], ["u", "co"], ["latn", "us"], ["x"], ["zz", "a", "1996"], ["de", "x", "u"], ["b", "a"]])
    if private:
        exts["x"] = private
        order.append("x")
    style = ch.dev(list(range(len(STYLES))))
    base = "-".join([lang] + ext)
    written = "-".join([base] + [x for x in (script, region) if x] + variants + [y for n in order for y in [n] + exts[n]])
    canon = "-".join([base] + [x for x in (script, region) if x] + variants + [y for n in sorted(o for o in order if o != "x") for y in [n] + exts[n]] + (["x"] + private if private else []))
    text = STYLES[style](written)
    ch.note(text)
    t = LT(text)
    want = (base, script, region, variants or None, exts or None)
    ch.seen(canon)
    same(LT, t, want, canon, text)
    same(LT, LT(str(t)), want, canon, "what is written for " + text)
    same(LT, LT(tag=text), want, canon, text)
    same(LT, LT(lang=base, script=script, region=region, variants=variants or None, extensions=exts or None), want, canon, "the parts of " + text)
    same(LT, t.copy(), want, canon, "a copy of " + text)
    if not t.matches(LT(canon)) or not LT(canon).matches(t):
        raise core.Violation("%s does not match itself" % text)
    f = t.allforms()
    if canon not in f or [x for x in f if x != canon]:
        raise core.Violation("the forms of %s are %r" % (text, f))
    for k in range(5):
        # another tag is not the same tag
        o = [LT("fr" + canon[len(base):]), LT(script=script if region else "Qaaa", lang=base, region="XY" if region else None, variants=variants or None, extensions=exts or None),
             LT(lang=base, script=script, region=region, variants=(variants or []) + ["boont"], extensions=exts or None),
             LT(lang=base, script=script, region=region, variants=variants or None, extensions=dict(exts, q=["zz"])),
             LT(lang=base, script=script, region=region, variants=variants or None, extensions={k: v + ["yy"] for k, v in exts.items()} or {"q": ["zz"]})][k]
        if t.matches(o) or o.matches(t):
            raise core.Violation("%s matches %r" % (text, o))


def same(LT, t, want, canon, text):
    got = (t.lang, t.script, t.region, list(t.variants) if t.variants else None, {k: list(v) for k, v in t.extensions.items()} if t.extensions else None)
    if got != want:
        raise core.Violation("%s is read as %r, not as %r" % (text, got, want))
    if str(t) != canon or repr(t) != canon:
        raise core.Violation("%s is written %s / %r, not %s" % (text, t, t, canon))
    if len(t) != len(canon.split("-")) - want[0].count("-"):
        raise core.Violation("%s has a length of %d" % (text, len(t)))


# -- the forms of a tag with hidden parts

def powerset(l):
    return [set(c) for i in range(len(l) + 1) for c in combinations(l, i)]


def forms(ch):
    LT = subj.mod("langtags_full").LangTag
    script, region = ch.pick([None, "Latn"]), ch.pick([None, "DE"])
    variants = ch.pick([None, ["1996"], ["rozaj", "biske"]])
    exts = ch.pick([None, {"u": ["co", "phonebk"]}, {"x": ["b", "a"], "u": ["nu"]}])
    t = LT(lang="de", script=script, region=region, variants=variants and list(variants), extensions=exts and {k: list(v) for k, v in exts.items()})
    t.hidescript, t.hideregion, t.hideboth = ch.flag(), ch.flag(), ch.flag()
    hv = ch.pick([None] + ([p for p in powerset(variants) if p] if variants else []))
    he = ch.pick([None] + ([{"u": exts["u"][:1]}, exts] if exts else []))
    t.hidevariants = hv and set(hv)
    t.hideextensions = he and {k: list(v) for k, v in he.items()}
    want = set()
    for s in {script, None} if t.hidescript else {script}:
        for r in {region, None} if t.hideregion else {region}:
            if s is None and r is None and not t.hideboth:
                continue
            for v in powerset(sorted(hv)) if hv else [set()]:
                for e in powerset(sorted((k, x) for k, l in he.items() for x in l)) if he else [set()]:
                    vs = [x for x in variants or [] if x not in v]
                    es = {k: [x for x in l if (k, x) not in e] for k, l in (exts or {}).items()}
                    want.add("-".join(["de"] + [x for x in (s, r) if x] + vs + [y for k in sorted(es) if es[k] for y in [k] + es[k]]))
    got = t.allforms()
    ch.note(repr(t), sorted(got))
    ch.seen(tuple(sorted(got)))
    if set(got) != want or len(set(got)) != len(got):
        raise core.Violation("the forms of %r (hidden: script %s, region %s, both %s, %r, %r) are %r, not %r" % (t, t.hidescript, t.hideregion, t.hideboth, hv, he, sorted(got), sorted(want)))
    if (script or region or t.hideboth) and repr(t) not in got:
        raise core.Violation("the full form %r is not among the forms" % t)
    for f in got:
        o = LT(f)
        if (o.variants, o.extensions) == (t.variants, t.extensions) and not t.matches(o):
            raise core.Violation("%r (hidden: %s, %s, %s) does not match its form %s" % (t, t.hidescript, t.hideregion, t.hideboth, f))
    for s in (None, "Latn", "Cyrl"):
        for r in (None, "DE", "AT"):
            o = LT(lang="de", script=s, region=r, variants=variants, extensions=exts)
            ok = (s == script or s is None and t.hidescript) and (r == region or r is None and t.hideregion)
            if bool(t.matches(o)) != ok:
                raise core.Violation("%r (hidden: %s, %s) %s %r" % (t, t.hidescript, t.hideregion, "matches" if not ok else "does not match", o))


def merging(ch):
    """two tags that agree are put together, and nothing happens to two that do not"""
    LT = subj.mod("langtags_full").LangTag
    ts = []
    for i in range(2):
        script, region = ch.pick([None, "Latn", "Cyrl"]), ch.pick([None, "DE", "AT"])
        variants = ch.pick([None, ["1996"], ["rozaj", "biske"]])
        exts = ch.pick([None, {"u": ["co", "phonebk"]}, {"x": ["b", "a"]}, {"u": ["nu"], "x": ["b", "c"]}])
        t = LT(lang="de", script=script, region=region, variants=variants and list(variants), extensions=exts and {k: list(v) for k, v in exts.items()})
        t.hidescript, t.hideregion, t.hideboth = ch.flag(), ch.flag(), not script and not region
        ts.append((t, script, region, variants, exts))
    (a, s, r, v, e), (b, s2, r2, v2, e2) = ts
    was, other = (repr(a), str(a)), (repr(b), str(b), b.allforms())
    ch.note(was, other)
    ok = (s is None or s2 is None or s == s2) and (r is None or r2 is None or r == r2)
    done = a.merge_equivalent(b)
    ch.seen((bool(done), repr(a)))
    if bool(done) != ok:
        raise core.Violation("%s and %s are %smerged" % (was, other[:2], "" if done else "not "))
    if (repr(b), str(b), b.allforms()) != other:
        raise core.Violation("merging %s with %s changed it to %r" % (other[:2], was, b))
    if not done:
        if repr(a) != was[0] or a.script != s or a.region != r:
            raise core.Violation("%s became %r though it is not merged with %s" % (was, a, other[:2]))
        return
    ext = dict(e2 or {}, **(e or {}))
    want = LT(lang="de", script=s or s2, region=r or r2, variants=v or v2, extensions=ext or None)
    if repr(a) != repr(want):
        raise core.Violation("%s merged with %s gives %r" % (was, other[:2], a))
    if not a.matches(want):
        raise core.Violation("%s merged with %s does not match %r" % (was, other[:2], want))
    for k in a.extensions or {}:
        a.extensions[k].append("zz")
    if (repr(b), str(b)) != other[:2]:
        raise core.Violation("%s merged with %s shares its extensions" % (was, other[:2]))


# -- tables

LANGS = ["aa", "bb"]


def table(lines):
    """a table read from a file with these lines"""
    m = subj.mod("langtags_full")
    T = type("T", (m.LangTags,), {})
    with tempfile.TemporaryDirectory(prefix="mcchk.") as d:
        p = os.path.join(d, "tags.txt")
        with open(p, "w", encoding="utf-8") as f:
            f.write("".join(l + "\n" for l in lines))
        return T(alltags=p)


POOL = ["aa", "aa-DE", "aa-Latn", "aa-FR", "aa-Latn-FR", "bb", "bb-Latn-DE"]


def state(t):
    return {k: repr(v) for k, v in t.items()}, {k: str(v) for k, v in t.items()}


def tables(nlines):
    def case(ch):
        LT = subj.mod("langtags_full").LangTag
        lines = []
        where = {}
        for n in range(nlines):
            last = ch.pick((["aa-Latn-DE", "aa-Cyrl-DE", "aa-Arab-YE"] if n == 0 else [None, "bb-Latn-DE", "aa-Cyrl-FR", "aa-Latn-DE-1996", "cc-Latn-XX"]))
            if last is None:
                break
            rest = ch.subset(["aa", "aa-DE", "aa-Latn", "aa-FR", "bb"] if n == 0 else ["bb", "aa-Cyrl", "cc-Latn"])
            tags = [x for x in rest + [last] if x not in where]
            if last in where:
                raise core.Skip()
            tags = [x for i, x in enumerate(tags) if x not in tags[:i]]
            for x in tags:
                where[x] = n
            lines.append(tags)
        star = ch.flag()
        T = table([" = ".join(("*" if star and i % 2 == 0 else "") + x for i, x in enumerate(l)) for l in lines])
        ch.note(lines)
        if set(T) != set(where):
            raise core.Violation("the tags of %r are read as %r" % (lines, sorted(T)))
        for x, n in where.items():
            if T[x] is not T[lines[n][-1]]:
                raise core.Violation("%s of the table %r leads to %r" % (x, lines, T[x]))
            if repr(T[x]) != lines[n][-1]:
                raise core.Violation("%s of the table %r leads to %r, not to %s" % (x, lines, T[x], lines[n][-1]))
        before = state(T)
        for text in ["aa", "aa-DE", "aa-FR", "aa-XX", "aa-Latn", "aa-Latn-XX", "aa-Thai", "aa-Thai-DE", "aa-XX-1996", "aa-x-foo", "aa-1996", "bb", "bb-DE", "bb-Latn", "cc-XX", "dd", "dd-Latn", "aa-ZZ"]:
            given = LT(text)
            a = LT(text).analyse(T)
            if text in where:
                if a is not T[text]:
                    raise core.Violation("analysing %s with the table %r gives %r" % (text, lines, a))
                continue
            ch.note(text, repr(a))
            if a in list(T.values()):
                raise core.Violation("analysing %s with the table %r gives the entry %r" % (text, lines, a))
            if a.lang != given.lang or given.script not in (None, a.script) or given.region not in (None, "ZZ", a.region) or given.variants not in (None, a.variants) \
                    or given.extensions not in (None, a.extensions):
                raise core.Violation("analysing %s with the table %r gives %r" % (text, lines, a))
            if given.script is None and a.script is not None and a.script not in {e.script for e in T.values()}:
                raise core.Violation("analysing %s with the table %r gives the script %s" % (text, lines, a.script))
            if given.region in (None, "ZZ") and a.region is not None and a.region not in {e.region for e in T.values()}:
                raise core.Violation("analysing %s with the table %r gives the region %s" % (text, lines, a.region))
        if state(T) != before:
            raise core.Violation("analysing changed the table %r" % (lines,))
        ch.seen(str(lines))
    return case


def adds(n):
    """tags put into a table one after another"""
    def case(ch):
        LT = subj.mod("langtags_full").LangTag
        T = table([])
        hist = []
        for i in range(n):
            s = ch.pick([None, ("Latn", False), ("Latn", True), ("Cyrl", True)])
            r = ch.pick([None, ("DE", False), ("DE", True), ("FR", True)])
            v = ch.pick([None, ["rozaj", "biske"]]) if i == 0 else None
            t = LT(lang="aa", script=s and s[0], region=r and r[0], variants=v)
            if s:
                t.hidescript = s[1]
            if r:
                t.hideregion = r[1]
            t.hideboth = (s is None or s[1]) and (r is None or r[1])
            hist.append("%r%s%s" % (t, "s" * bool(t.hidescript), "r" * bool(t.hideregion)))
            own = t.allforms()
            before = set(T)
            e = T.add(t)
            ch.note(hist[-1], {k: repr(x) for k, x in T.items()})
            if not set(own) <= set(T):
                raise core.Violation("after adding %s, %r cannot be found" % (", ".join(hist), sorted(set(own) - set(T))))
            if set(T) - before - set(own):
                raise core.Violation("after adding %s, %r can be found" % (", ".join(hist), sorted(set(T) - before - set(own))))
            if not before <= set(T):
                raise core.Violation("adding %s lost %r" % (", ".join(hist), sorted(before - set(T))))
            if T.get(own[-1]) is not e and own[-1] not in before:
                raise core.Violation("%s leads to %r after adding %s" % (own[-1], T.get(own[-1]), ", ".join(hist)))
            for k, x in T.items():
                o = LT(k)
                if o.script not in (None, x.script) or o.region not in (None, x.region) or (o.variants or None) not in (None, x.variants and list(x.variants)):
                    raise core.Violation("after adding %s, %s leads to %r" % (", ".join(hist), k, x))
        one = list(T.values())[0]
        one.skip = ch.flag()
        got = sorted(map(tuple, T.generate_alltags()))
        want = sorted(tuple(e.allforms()) for e in {id(e): e for e in T.values() if not (one.skip and e is one)}.values())
        if got != want:
            raise core.Violation("after adding %s, the tags written are %r, not %r" % (", ".join(hist), got, want))
        ch.seen(str(sorted((k, repr(x)) for k, x in T.items())))
    return case


def shipped(n):
    def case(ch):
        """every line of the table that is shipped"""
        LT = subj.mod("langtags_full").LangTag
        i = ch.index((len(S["lines"]) + n - 1) // n)
        T = S["all"]
        for l in S["lines"][i * n:i * n + n]:
            tags = [x.lstrip("*") for x in l.split() if x != "="]
            if not tags:
                continue
            e = T.get(tags[-1])
            if e is None or repr(e) != tags[-1]:
                raise core.Violation("%s leads to %r" % (tags[-1], e))
            for x in tags:
                if T.get(x) is not e:
                    raise core.Violation("%s leads to %r and not to %r" % (x, T.get(x), e))
                if x in ("sgn-MY-MM", "sgn-MY-Zxxx-MM"):
                    continue
                if str(LT(x)) != x or LT(x).analyse(T) is not e:
                    raise core.Violation("%s is read as %s and leads to %r" % (x, LT(x), LT(x).analyse(T)))
        ch.seen(i)
    return case


# -- the registry

def records(text):
    """the records of a registry: {type: {subtag: {field: [values]}}} (RFC 5646, 3.1)"""
    res = {}
    for rec in re.split(r"(?m)^%%\n", text):
        fields = []
        for l in rec.split("\n"):
            if l.startswith(" "):
                fields[-1][1] += " " + l.strip()
            elif ":" in l:
                k, v = l.split(":", 1)
                fields.append([k.lower(), v.strip()])
        d = {}
        for k, v in fields:
            d.setdefault(k, []).append(v)
        key = d.pop("subtag", None) or d.pop("tag", None)
        typ = d.pop("type", None)
        if key:
            res.setdefault(typ[0], {})[key[0]] = d
    return res


def compare(iana, want, what):
    for typ, subtags in want.items():
        got = getattr(iana, typ, {})
        if set(got) != set(subtags):
            raise core.Violation("%s: the subtags of type %s are read as %r" % (what, typ, sorted(set(got) ^ set(subtags))[:9]))
        for k, d in subtags.items():
            g = {f: v if isinstance(v, list) else [v] for f, v in got[k].items()}
            if g != d:
                raise core.Violation("%s: %s %s is read as %r, not as %r" % (what, typ, k, g, d))


FIELDS = ["Description: A name", "Description: Another\n  of two lines", "Comments: one,\n  two: three\n  and four", "Suppress-Script: Latn", "Prefix: de", "Prefix: sl-rozaj\n", "Added: 2005-10-16", "Deprecated: 2009-01-01"]


def registry(nrec, nfield):
    def case(ch):
        m = subj.mod("iana")
        LTs = subj.mod("langtags_full").LangTags
        text = "File-Date: 2019-09-16\n"
        for i in range(nrec):
            typ = ch.dev(["language", "variant", "redundant"] if i == 0 else [None, "language", "extlang", "variant", "grandfathered"])
            if typ is None:
                break
            key = {"language": "aa" if i == 0 else "ab", "variant": "rozaj" if i == 0 else "biske", "redundant": "zh-Hans", "extlang": "yue", "grandfathered": "i-lux"}[typ] + ("" if i < 2 else "c")
            text += "%%%%\nType: %s\n%s: %s\n" % (typ, "Tag" if typ in ("redundant", "grandfathered") else "Subtag", key)
            for j in range(nfield):
                f = ch.dev([None] + [f for f in FIELDS if typ in ("language", "extlang") or not f.startswith("Suppress")])
                if f is None:
                    break
                text += f.rstrip("\n") + "\n"
        want = records(text)
        with tempfile.TemporaryDirectory(prefix="mcchk.") as d:
            p = os.path.join(d, "reg.txt")
            with open(p, "w", encoding="utf-8") as f:
                f.write(text)
            compare(m.Iana(p), want, repr(text))
            T = table([])
            T.readIana(p)
        if any(len(d.get("prefix", [])) > 1 for d in want.get("extlang", {}).values()):
            return          # an extended language has one prefix
        found = set()
        for typ, subtags in want.items():
            for k, d in subtags.items():
                if typ not in ("language", "extlang"):
                    continue
                if typ == "extlang" and "prefix" in d:
                    k = d["prefix"][0] + "-" + k
                e = T.get(k)
                script = d.get("suppress-script", [None])[0]
                if e is None or e.script != script or bool(e.hidescript) != (script is not None) or str(e) != k or script and T.get(k + "-" + script) is not e:
                    raise core.Violation("%r: %s leads to %r" % (text, k, e))
                if getattr(e, "desc", []) != d.get("description", []):
                    raise core.Violation("%r: %s is described as %r" % (text, k, getattr(e, "desc", None)))
                found |= {k} | {k + "-" + x for x in d.get("suppress-script", [])}
        extra = set(T) - found - {x for typ in ("redundant", "grandfathered") for k in want.get(typ, {}) for x in (k, k + "-Latn")}
        if extra:
            raise core.Violation("%r: %r can be found" % (text, sorted(extra)))
        pre = {}
        for k, d in want.get("variant", {}).items():
            for x in d.get("prefix", []):
                pre.setdefault(x, []).append(k)
        free = [k for k, d in want.get("variant", {}).items() if not d.get("prefix")]
        if {k: sorted(v) for k, v in T.variants.items()} != {k: sorted(v) for k, v in pre.items()} or sorted(T.global_variants) != sorted(free):
            raise core.Violation("%r: the variants are read as %r and %r" % (text, T.variants, T.global_variants))
        ch.seen(text)
    return case


def real_registry(ch):
    compare(subj.mod("iana").Iana(), S["reg"], "the registry")


def sources(ch):
    """the table built from the registry, the likely subtags and the supplemental data"""
    m = subj.mod("langtags_full")
    T = type("T", (m.LangTags,), {})(noalltags=True)
    for k, e in T.items():
        if k not in e.allforms():
            raise core.Violation("%s leads to %r, whose forms are %r" % (k, e, e.allforms()))
    for typ in ("language", "extlang"):
        for k, d in S["reg"][typ].items():
            k = d["prefix"][0] + "-" + k if typ == "extlang" else k
            e = T.get(k)
            if e is None or e.lang != k:
                raise core.Violation("%s leads to %r" % (k, e))
            s = d.get("suppress-script", [None])[0]
            if s and T.get(k + "-" + s) is not e:
                raise core.Violation("%s leads to %r, and %s-%s to %r" % (k, e, k, s, T.get(k + "-" + s)))
    root = et.parse(os.path.join(REPO, "lib/sldr/likelySubtags.xml")).getroot()
    n = 0
    for p in root.iter("likelySubtag"):
        f, t = p.get("from").replace("_", "-"), p.get("to").replace("_", "-")
        if f.startswith("und") or t not in T:
            continue
        n += 1
        if f in T and T[f].lang == m.LangTag(t).lang and not T[f].matches(m.LangTag(f)):
            raise core.Violation("%s leads to %r, which does not stand for it" % (f, T[f]))
        if T[t].lang != m.LangTag(t).lang or T[t].script != m.LangTag(t).script:
            raise core.Violation("%s leads to %r" % (t, T[t]))
    ch.seen(n)


def harnesses(tier):
    q = tier == "quick"
    return [dict(name="tags", case=tags, bound=5 if q else 6, setup=setup, bounds="all tags with at most %d departures from a plain language" % (5 if q else 6)),
            dict(name="forms", case=forms, setup=setup, bounds="all tags of up to five kinds of parts with every choice of what is hidden"),
            dict(name="merging", case=merging, setup=setup, bounds="all pairs of tags with 3 scripts, 3 regions, 3 lists of variants, 4 of extensions and every choice of what is hidden"),
            dict(name="tables", case=tables(2 if q else 3), setup=setup, bounds="all tables of at most %d lines of up to six tags, 18 tags analysed with each" % (2 if q else 3)),
            dict(name="adds", case=adds(3 if q else 4), setup=setup, bounds="all histories of %d additions of 16 tags" % (3 if q else 4)),
            dict(name="shipped", case=shipped(50), setup=setup, bounds="every line of langtags.txt"),
            dict(name="registry", case=registry(3, 4), bound=4 if q else 5, setup=setup, bounds="all registries of at most 3 records of 4 of %d fields with at most %d departures from one bare record" % (len(FIELDS), 4 if q else 5)),
            dict(name="real", case=real_registry, setup=setup, bounds="the registry shipped"),
            dict(name="sources", case=sources, setup=setup, bounds="the table built from all the sources shipped")]
