"""C05: flattening a locale takes every value from the nearest locale of its fallback chain that has it."""
import os, shutil
from mc import core, subj, inherit
from mc.inherit import S
from mc.xmlmodel import N, SIL, read, write, canon, diff, walk

ASSUMPTIONS = ["the fallback chain is: the explicit parents of the locale (or its truncation), each truncated in turn, then root",
               "identity and collations are not inherited; parents of another script are skipped"]


def L(t, text, **a):
    return N("language", dict(type=t, **a), text)


def names(*langs):
    return N("localeDisplayNames", {}, "", [N("languages", {}, "", list(langs))])


def months(**m):
    return N("dates", {}, "", [N("calendars", {}, "", [N("calendar", {"type": "gregorian"}, "", [N("months", {}, "", [
        N("monthContext", {"type": "format"}, "", [N("monthWidth", {"type": "wide"}, "", [N("month", {"type": k[1:]}, v) for k, v in m.items()])])])])])])


def res(*kids):
    return N("special", {}, "", [N(S + "external-resources", {}, "", list(kids))])


def font(name, types=None):
    return N(S + "font", dict(name=name, **({"types": types} if types else {})))


PROFILES = {
    "stub": lambda w: [],
    "aa": lambda w: [names(L("aa", "A" + w))],
    "empty": lambda w: [names(L("aa", "")), N("characters", {}, "", [N("exemplarCharacters", {}, "")])],
    "bb+ex": lambda w: [names(L("bb", "B" + w)), N("characters", {}, "", [N("exemplarCharacters", {}, "[%s]" % w)])],
    "aa+m1": lambda w: [names(L("aa", "A" + w)), months(_1="Jan" + w)],
    "m1m2": lambda w: [months(_1="J" + w, _2="F" + w)],
    "inherit": lambda w: [names(L("aa", "\u2191\u2191\u2191"), L("bb", "B" + w))],
    "inherit-all": lambda w: [names(L("aa", "\u2191\u2191\u2191")), months(_2="F" + w)],
    "alts": lambda w: [names(L("aa", "A" + w, draft="contributed"), L("aa", "P" + w, alt="proposed", draft="tentative"))],
    "aux": lambda w: [N("characters", {}, "", [N("exemplarCharacters", {"type": "auxiliary"}, "[x%s]" % w)])],
    "alias": lambda w: [names(L("cc", "C" + w)), N("dates", {}, "", [N("calendars", {}, "", [N("calendar", {"type": "generic"}, "", [N("alias", {"source": "locale", "path": "../calendar[@type='gregorian']"})])])])],
    "generic": lambda w: [N("dates", {}, "", [N("calendars", {}, "", [N("calendar", {"type": "generic"}, "", [N("months", {}, "", [N("monthContext", {"type": "format"})])])])])],
    "hollow": lambda w: [N("dates", {}, "", [N("calendars", {}, "", [N("calendar", {"type": "generic"})])])],
    "special": lambda w: [N("special", {}, "", [N(S + "reordered", {}, "r" + w)])],
    "quot": lambda w: [N("delimiters", {}, "", [N("quotationStart", {}, "<" + w), N("special", {}, "", [N(S + "quotation-marks", {}, "", [N(S + "quotation", {"level": "1", "open": w})])])])],
    "font-default": lambda w: [res(font("F" + w, "default"))],
    "font-ui": lambda w: [res(font("F" + w, "ui heading"))],
    "font-ui2": lambda w: [res(font("F" + w, "ui emphasis"), N(S + "note", {}, "n" + w))],
    "font-none": lambda w: [res(font("F" + w))],
    "collation": lambda w: [N("collations", {}, "", [N("defaultCollation", {}, "c" + w), N("collation", {"type": "standard"}, "", [N("cr", {}, "&a<" + w)])])],
}


def document(loc, profile, script=None, special=None, fallback=None):
    ident = N("identity", {}, "", [N("version", {"number": "1"}), N("language", {"type": loc.split("_")[0]})])
    if script:
        ident.kids.append(N("script", {"type": script}))
    if special is not None:
        ident.kids.append(N("special", {}, "", [N(S + "identity", {"script": special} if special else {"source": "cldr"})]))
    kids = [ident]
    if fallback:
        kids.append(N("fallback", {}, fallback))
    return N("ldml", {}, "", kids + PROFILES[profile](loc[-2:]))


def expected(files, lname, explicit):
    """files: name -> N in lookup order already resolved"""
    d = inherit.load(files[lname])
    ls = inherit.script_of(d)
    for f in inherit.chain(lname, explicit):
        if f in files:
            o = inherit.load(files[f])
            s = inherit.script_of(o)
            if s is None or s == ls:
                if f == "root":
                    for c in d.kids:
                        if c.tag == "collations":
                            for x in c.kids:
                                if x.tag == "collation":
                                    x.attrs[S + "modified"] = "true"
                inherit.overlay(d, o)
    return d


def check(ch, files, lname, explicit, dirs=1, sub=False, via="name"):
    d = core.scratch()
    try:
        roots = [os.path.join(d, "d%d" % i) for i in range(dirs)]
        for i, r in enumerate(roots):
            os.makedirs(r)
        for n, (doc, where) in files.items():
            p = roots[where]
            if sub:
                p = os.path.join(p, n[0].lower())
                os.makedirs(p, exist_ok=True)
            with open(os.path.join(p, n + ".xml"), "w", encoding="utf-8") as f:
                f.write(write(doc, {SIL: "sil"}))
        before = snapshot(d)
        fl = subj.mod("ldml_merge").flattenlocale
        if via == "name":
            got = fl(lname, dirs=roots)
        elif via == "file":
            w = files[lname][1]
            p = os.path.join(roots[w], lname[0].lower() if sub else "", lname + ".xml")
            got = fl(open(p, "rb"), dirs=roots, fname=lname)
        if got is None:
            raise core.Violation("flattening %s found no document" % lname)
        out = subj.text_of(got)
        ch.seen(out)
        want = expected({n: x[0] for n, x in files.items()}, lname, explicit)
        df = diff(canon(want, comments=False), canon(read(out), comments=False))
        if df:
            raise core.Violation("flattened document differs from the reference: " + df, output=out)
        if snapshot(d) != before:
            raise core.Violation("flattening changed files on disk")
    finally:
        shutil.rmtree(d)


def snapshot(d):
    r = {}
    for a, b, c in os.walk(d):
        for f in c:
            with open(os.path.join(a, f), "rb") as h:
                r[os.path.join(a, f)] = h.read()
    return r


def chains(profiles):
    def case(ch):
        files = {"aa_Latn_ZZ": (document("aa_Latn_ZZ", ch.pick(profiles)), 0)}
        for loc in ("aa_Latn", "aa", "root"):
            p = ch.pick(["absent"] + profiles)
            if p != "absent":
                files[loc] = (document(loc, p), 0)
        ch.note("files:", {k: write(v[0], {SIL: "sil"}, decl=False) for k, v in files.items()})
        check(ch, files, "aa_Latn_ZZ", [])
    return case


def pairs(ch):
    """every profile against every profile, two levels"""
    a = ch.pick(list(PROFILES))
    b = ch.pick(list(PROFILES))
    c = ch.pick(list(PROFILES))
    where = ch.pick(["aa", "root"])
    files = {"aa_ZZ": (document("aa_ZZ", a), 0), where: (document(where, b), 0)}
    if where == "aa":
        files["root"] = (document("root", c), 0)
    ch.note("files:", {k: write(v[0], {SIL: "sil"}, decl=False) for k, v in files.items()})
    check(ch, files, "aa_ZZ", [])


def scripts(ch):
    """parents of another script do not contribute"""
    def doc(loc, p):
        return document(loc, p, ch.pick([None, "Latn", "Cyrl"]), ch.pick([None, "Latn", "Cyrl", ""]) if loc != "root" else None)
    files = {"aa_Latn_ZZ": (doc("aa_Latn_ZZ", "stub"), 0), "aa_Latn": (doc("aa_Latn", "aa"), 0), "aa": (doc("aa", "aa+m1"), 0), "root": (doc("root", "m1m2"), 0)}
    ch.note("files:", {k: write(v[0], {SIL: "sil"}, decl=False) for k, v in files.items()})
    check(ch, files, "aa_Latn_ZZ", [])


def places(ch):
    """where the files are: several directories in order of preference, alphabetic subdirectories, explicit parents"""
    case = ch.pick([("en_GB", ["en_001"]), ("zh_Hant_MO", ["zh_Hant_HK"]), ("pt_AO", ["pt_PT"]), ("en_Shaw", ["root"]), ("en_US", []), ("aa", []), ("root", [])])
    lname, explicit = case
    fb = ch.pick([None, "bb", "bb_XX aa", "aa root", "cc", "cc bb dd"]) if lname == "aa" else None
    if fb:
        explicit = fb.split()
    locs = [lname] + [x for x in inherit.chain(lname, explicit) if x != lname]
    locs = list(dict.fromkeys(locs))
    sub = ch.flag()
    via = ch.pick(["name", "file"])
    files = {}
    for l in locs:
        many = len(explicit) > 2
        prof = ch.pick(["aa", "bb+ex"]) if not many or l == "dd" else "aa+m1" if l == "bb" else "aa"
        w = 0 if l == lname else ch.pick([0, None] if many else [0, 1, None])
        if w is None:
            continue
        files[l] = (document(l, prof, fallback=fb if l == lname else None), w)
    ch.note(lname, "subdirectories" if sub else "", via, "files:", {k: (write(v[0], {SIL: "sil"}, decl=False), "dir %d" % v[1]) for k, v in files.items()})
    check(ch, files, lname, explicit, 2, sub, via)


def shadow(ch):
    """the same locale in two directories: the first directory wins, at every level of the chain"""
    d = core.scratch()
    try:
        roots = [os.path.join(d, "d0"), os.path.join(d, "d1")]
        model = {}
        for i, r in enumerate(roots):
            os.makedirs(r)
        for l in ("aa_ZZ", "aa", "root"):
            for i in (0, 1):
                layout = ch.pick(["absent", "flat", "sub"])
                if layout == "absent":
                    continue
                doc = document(l, "aa+m1" if i == 0 else "bb+ex")
                p = roots[i] if layout == "flat" else os.path.join(roots[i], l[0])
                os.makedirs(p, exist_ok=True)
                with open(os.path.join(p, l + ".xml"), "w", encoding="utf-8") as f:
                    f.write(write(doc, {SIL: "sil"}))
                model.setdefault(l, doc)
        ch.note(sorted(os.path.relpath(p, d) for p in snapshot(d)))
        got = subj.mod("ldml_merge").flattenlocale("aa_ZZ", dirs=roots)
        if "aa_ZZ" not in model:
            if got is not None:
                raise core.Violation("a locale without a file was flattened to something")
            return
        out = subj.text_of(got)
        ch.seen(out)
        df = diff(canon(expected(model, "aa_ZZ", []), comments=False), canon(read(out), comments=False))
        if df:
            raise core.Violation("flattened document differs from the reference: " + df, output=out)
    finally:
        shutil.rmtree(d)


def changed(ch):
    """with a set of changed locales, a locale is flattened exactly when one of those it takes values from is in the set"""
    lname, explicit = ch.pick([("aa_Latn_ZZ", []), ("zh_Hant_MO", ["zh_Hant_HK"]), ("en_GB", ["en_001"]), ("aa_ZZ", [])])
    fb = ch.pick([None, "bb_XX cc"]) if lname == "aa_ZZ" else None
    if fb:
        explicit = fb.split()
    chain = list(dict.fromkeys(x for x in inherit.chain(lname, explicit) if x != lname))
    some = {x for x in chain + ["ff_XX"] if ch.flag()}
    have = ch.pick(["all", "own"])
    via = ch.pick(["name", "file", "object"])
    files = {l: (document(l, "aa" if l == lname else "bb+ex", fallback=fb if l == lname else None), 0) for l in [lname] + (chain if have == "all" else [])}
    ch.note(lname, "changed:", sorted(some), via, "present:", sorted(files))
    d = core.scratch()
    try:
        for n, (doc, _) in files.items():
            with open(os.path.join(d, n + ".xml"), "w", encoding="utf-8") as f:
                f.write(write(doc, {SIL: "sil"}))
        got = flat(via, os.path.join(d, lname + ".xml"), lname, dirs=[d], changed=set(some))
        ch.seen(got is None)
        if some and not some & set(chain):
            if got is not None:
                raise core.Violation("%s was flattened though nothing it takes values from is among the changed %s" % (lname, sorted(some)))
            return
        if got is None:
            raise core.Violation("%s was not flattened though it takes values from %s" % (lname, sorted(some & set(chain))))
        df = diff(canon(expected({n: x[0] for n, x in files.items()}, lname, explicit), comments=False), canon(read(subj.text_of(got)), comments=False))
        if df:
            raise core.Violation("flattened document differs from the reference: " + df)
    finally:
        shutil.rmtree(d)


def flat(via, path, lname, **kw):
    m = subj.mod("ldml_merge")
    if via == "name":
        return m.flattenlocale(lname, **kw)
    if via == "object":
        return m.flattenlocale(m.LdmlMerge(path), fname=lname, **kw)
    with open(path, "rb") as f:
        return m.flattenlocale(f, fname=lname, **kw)


def harnesses(tier):
    q = ["stub", "aa", "bb+ex", "aa+m1", "inherit", "alts"]
    t = q + ["m1m2", "inherit-all", "aux", "special"]
    p = q if tier == "quick" else t
    return [dict(name="chains", case=chains(p), setup=subj.warm, bounds="%d contents for the locale x %d contents or absence for each of three ancestors" % (len(p), len(p))),
            dict(name="pairs", case=pairs, setup=subj.warm, bounds="all triples of %d contents on a two step chain" % len(PROFILES)),
            dict(name="scripts", case=scripts, setup=subj.warm, bounds="all script marks (none, Latn, Cyrl; two places, with other marks) on four locales"),
            dict(name="places", case=places, setup=subj.warm, bounds="7 locales with explicit or implied parents x 2 directories or absence per ancestor x layout x 2 ways of naming"),
            dict(name="shadow", case=shadow, setup=subj.warm, bounds="3 locales x 2 directories x absent, flat or alphabetic layout"),
            dict(name="changed", case=changed, setup=subj.warm, bounds="4 locales x every set of changed locales of the chain and one other x 3 ways of naming x ancestors present or not")]
