"""C17: the command-line tools give for every file what the library gives for it alone."""
import io, os, runpy, shutil, sys, types
from mc import core, subj
from mc.checks.c05 import document, snapshot, L, names
from mc.xmlmodel import N, SIL, read, write, canon, diff

REPO = os.environ.get("MC_REPO", "/repo")
S = "{%s}" % SIL
ASSUMPTIONS = ["files are well formed LDML with an identity, or not XML at all; the tools run alone on their directories",
               "the langtag database, git and the number of processors are stand-ins; --single stops at the first malformed file and is not run on one"]


def run(script, argv, cpus=1, git=None, langtags=None):
    """the exit status and the output of a tool, run in a process of its own"""
    d = core.scratch()
    out = os.path.join(d, "out")

    def go():
        os.cpu_count = lambda: cpus
        if git:
            import subprocess
            subprocess.check_output = git
        if langtags is not None:
            m = types.ModuleType("langtag")
            m.lookup = langtags
            sys.modules["langtag"] = m
        sys.argv = [script] + argv
        raw = open(out, "wb")
        kept = sys.stdout = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)      # tools may wrap it
        try:
            runpy.run_path(os.path.join(REPO, "scripts", script), run_name="__main__")
            r = 0
        except SystemExit as e:
            r = e.code or 0
        except Exception as e:
            r = "%s: %s" % (type(e).__name__, e)
        for f in (sys.stdout, kept, raw):
            try:
                f.flush()
            except ValueError:
                pass
        return r
    try:
        r = core.in_child(go)
        if isinstance(r, core.ChildFailure):
            raise core.Violation("%s %s: %s" % (script, " ".join(argv), r.why))
        with open(out, "rb") as f:
            return r, f.read().decode("utf-8")
    finally:
        shutil.rmtree(d)


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def text(n):
    return write(n, {SIL: "sil"}).encode("utf-8")


def collation(w, imp=""):
    return N("collations", {}, "", [N("collation", {"type": "standard"}, "", [N("cr", {}, "&a<" + w + imp)])])


BAD = b"<ldml><identity>\n"


def contents(loc, state):
    n = document(loc, "stub")
    if state == "bad":
        return BAD
    if state == "a":
        n.kids.append(names(L("aa", "A" + loc), L("bb", "B")))
    elif state == "b":
        n.kids += [names(L("aa", "A" + loc[:2], draft="provisional"), L("bb", "\u2191\u2191\u2191"), L("cc", "C\u00e9" + loc)), N("dates", {}, "", [N("calendars", {}, "", [N("calendar", {"type": "generic"}, "", [N("alias", {"source": "locale", "path": "../calendar[@type='gregorian']"})])])]),
                   collation("b" if loc == "root" else "c", "" if loc == "root" else "[import und-u-co-standard]")]
    return text(n)


def alone(files_at, loc, dirs, o):
    """what the library gives for one locale: bytes, None or the text of an error"""
    def go():
        try:
            l = subj.mod("ldml_merge").flattenlocale(loc, dirs=dirs, rev=o["rev"], skipstubs="--skipstubs" in o["flags"], flattencollation="-s" in o["flags"], resolveAlias="-A" in o["flags"])
            if l is None:
                return None
            if "--revid" in o["flags"]:
                l.add_silidentity(revid="r17")
            elif "-g" in o["flags"]:
                l.add_silidentity(revid="rev of " + os.path.basename(l.fname))
            l.normalise()
            return subj.text_of(l, topns="-t" in o["flags"]).encode("utf-8")
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    r = core.in_child(go)
    if isinstance(r, core.ChildFailure):
        raise core.Skip()
    return r


def said_by(s, k):
    return s if k.get("text") or k.get("universal_newlines") or k.get("encoding") else s.encode("utf-8")


def fakegit(cmd, *a, **k):
    return said_by("rev of %s\n2020-01-01" % os.path.basename(cmd[-1]), k)


def fakehg(cmd, *a, **k):
    """the revision is the parts the locale has"""
    return said_by("%s\n2020-01-01 12:00 +0000" % " ".join(os.path.basename(os.path.dirname(f)) for f in cmd if f.endswith(".xml")), k)


OPTIONS = [dict(rev="f", flags=[]), dict(rev="f", flags=["-a", "-A", "-t"]), dict(rev="f", flags=["-s", "--revid", "r17"]), dict(rev="c", flags=["-a", "-A", "-g"]), dict(rev="r", flags=["--skipstubs"]),
           dict(rev="f", flags=["--skipstubs", "-g"]), dict(rev="r", flags=["-s", "-a"]), dict(rev="f", flags=["-l", "en", "-l", "en_US", "-l", "zz"]),
           dict(rev="f", flags=["-s", "-A", "--skipstubs"]), dict(rev="c", flags=["-s", "-t", "-g", "--debug", "7"])]
LOCALES = ["en", "en_US", "en_GB", "root"]


def flatten(locales, states, options, cpus):
    def case(ch):
        o = ch.pick(options)
        st = {l: ch.pick(states) for l in locales}
        n = ch.pick(cpus)
        ch.note("%s %s, %d processes" % (st, o, n))
        if "-s" in o["flags"] and "bad" in st.values():
            raise core.Skip()
        d = core.scratch()
        try:
            dirs = [os.path.join(d, "in0"), os.path.join(d, "in1")]
            for p in dirs:
                os.makedirs(p)
            where = {"en": "in0/e/en.xml", "en_US": "in0/e/en_US.xml", "en_GB": "in1/en_GB.xml", "root": "in1/root.xml"}
            for l, s in st.items():
                if s:
                    put(os.path.join(d, where[l]), contents(l, s))
            put(os.path.join(d, "in0", "README"), b"not a locale\n")
            outdir = os.path.join(d, "out")
            for l in locales:
                for p in (l, l[0] + "/" + l):
                    put(os.path.join(outdir, p + ".xml"), b"old")
            before = snapshot(d)
            want, bad, none = dict(before), [], []
            todo = ["en", "en_US", "zz"] if "-l" in o["flags"] else [l for l in locales if st[l]]
            for l in todo:
                r = alone(d, l, dirs, o)
                if isinstance(r, str):
                    bad.append(l)
                elif r is None:
                    none.append(l)
                else:
                    want[os.path.join(outdir, (l[0] + "/" if "-a" in o["flags"] else "") + l + ".xml")] = r
            argv = ["-o", outdir] + sum((["-i", p] for p in dirs), []) + o["flags"] + {"f": [], "r": ["-r"], "c": ["-c"]}[o["rev"]]
            r, said = run("ldmlflatten", argv, n, fakegit)
            if r != 0:
                raise core.Violation("ldmlflatten ends with %s" % r)
            compare("ldmlflatten", d, snapshot(d), want, before)
            for l in bad:
                if "Error in %s problem" % l not in said:
                    raise core.Violation("ldmlflatten says nothing about %s, which cannot be read" % l)
            for l in todo:
                if l not in bad + none and "Error in %s problem" % l in said:
                    raise core.Violation("ldmlflatten reports %s, which has nothing wrong" % l)
            ch.seen(repr(sorted((k[len(d):], v) for k, v in want.items() if before.get(k) != v)))
        finally:
            shutil.rmtree(d)
    return case


def compare(tool, d, got, want, before):
    for p in sorted(set(got) | set(want)):
        g, w, rel = got.get(p), want.get(p), p[len(d) + 1:]
        if g == w:
            continue
        if g is None:
            raise core.Violation("%s does not write %s" % (tool, rel))
        if w is None or w == before.get(p):
            raise core.Violation("%s writes %s, which it should leave alone: %r" % (tool, rel, g[:200]))
        if g == before.get(p):
            raise core.Violation("%s does not write %s" % (tool, rel))
        raise core.Violation("%s writes %s otherwise than the library does" % (tool, rel), expected=w.decode("utf-8"), got=g.decode("utf-8", "replace"))


def modes(states):
    def case(ch):
        st = {l: ch.pick(states) for l in ("en", "en_US", "root")}
        rev = ch.pick([[], ["-r"], ["-c"]])
        ch.note("%s %s" % (st, rev))
        d = core.scratch()
        try:
            os.makedirs(os.path.join(d, "in"))
            for l, s in st.items():
                if s:
                    put(os.path.join(d, "in", l + ".xml"), contents(l, s))
            for o in ("single", "several"):
                r, said = run("ldmlflatten", ["-i", os.path.join(d, "in"), "-o", os.path.join(d, o)] + rev + (["-s"] if o == "single" else []))
                if r != 0:
                    raise core.Violation("ldmlflatten ends with %s" % r)
            a, b = snapshot(os.path.join(d, "single")), snapshot(os.path.join(d, "several"))
            a, b = {k.replace("/single/", "/"): v for k, v in a.items()}, {k.replace("/several/", "/"): v for k, v in b.items()}
            ch.seen(repr(sorted(a.values())))
            if a.keys() != b.keys():
                raise core.Violation("ldmlflatten writes other files with --single")
            for k in a:
                if a[k] != b[k]:
                    imports = a[k] in [b[k].replace(b"[import und-u-co-standard]", w) for w in ((b"&a<b", b"&amp;a&lt;b") if st["root"] == "b" else (b"",))]
                    raise core.Violation("ldmlflatten writes %s otherwise with --single" % os.path.basename(k), key="imports are expanded only with --single" if imports else None)
        finally:
            shutil.rmtree(d)
    return case


PLACES = ["en.xml", "fr.ldml", "e/en_US.xml", "f/de.ldml", "e/notes.txt", "README"]


def normal(data):
    def go():
        try:
            l = subj.ldml(data)
            return subj.text_of(l).encode("utf-8")
        except Exception as e:
            return "%s: %s" % (type(e).__name__, e)
    return core.in_child(go)


def normalize(states):
    def case(ch):
        st = [ch.pick(states) if i < 3 else ch.pick([None, "a"]) if i == 3 else ch.pick([None, "text"]) for i in range(len(PLACES))]
        how = ch.pick(["in place", "to existing", "to new", "file", "file in place"])
        ch.note("%s %s" % (dict(zip(PLACES, st)), how))
        d = core.scratch()
        try:
            ind = os.path.join(d, "in")
            os.makedirs(ind)
            for p, s in zip(PLACES, st):
                if s:
                    put(os.path.join(ind, p), b"hello <world\n" if s == "text" else contents(os.path.basename(p).split(".")[0], s))
            outd = ind if "place" in how else os.path.join(d, "new" if how == "to new" else "out")
            os.makedirs(os.path.join(d, "out"))
            before = snapshot(d)
            want, bad = dict(before), []
            if "file" in how:
                if not st[0]:
                    raise core.Skip()
                todo, argv = PLACES[:1], [os.path.join(ind, "en.xml")] + ([os.path.join(outd, "en.xml")] if how == "file" else [])
            else:
                todo, argv = PLACES[:4], [ind] + ([outd] if how != "in place" else [])
            for p in todo:
                f = os.path.join(ind, p)
                if f in before:
                    r = normal(before[f])
                    if isinstance(r, str):
                        bad.append(f)
                    else:
                        want[os.path.join(outd, p)] = r
            r, said = run("ldmlnormalize", argv)
            if r != 0:
                raise core.Violation("ldmlnormalize ends with %s" % r)
            compare("ldmlnormalize", d, snapshot(d), want, before)
            for f in bad:
                if f not in said:
                    raise core.Violation("ldmlnormalize says nothing about %s, which cannot be read" % f[len(d) + 1:])
            ch.seen(repr(sorted((k[len(d):], v) for k, v in want.items())))
            if not bad:
                again = snapshot(d)
                run("ldmlnormalize", argv)
                if snapshot(d) != again:
                    raise core.Violation("ldmlnormalize run again writes something else")
        finally:
            shutil.rmtree(d)
    return case


MERGE = {"none": [], "a1": [L("aa", "A1")], "a2": [L("aa", "A2\u00e9")], "a1b1": [L("aa", "A1"), L("bb", "B1")], "a2b1": [L("aa", "A2\u00e9", draft="provisional"), L("bb", "B1")], "b2c": [L("bb", "B2"), L("cc", "C")]}


def merge(profiles, options):
    def case(ch):
        this, base, other = ch.pick(profiles), ch.pick(profiles), ch.pick(profiles)
        o = ch.pick(options)
        ch.note("%s %s %s %s" % (this, base, other, o))
        d = core.scratch()
        try:
            paths = []
            for n, p in (("this", this), ("base", base), ("other", other)):
                doc = document("en", "stub")
                doc.kids += [names(*MERGE[p])] if MERGE[p] else []
                if n != "this" and "-C" in o:
                    doc.kids[-1].before = [" said in %s " % n]
                paths.append(os.path.join(d, n + ".xml"))
                put(paths[-1], text(doc))
            before = snapshot(d)

            def go():
                m = subj.mod("ldml_merge").LdmlMerge
                kw = dict(winner=o["-w"]) if "-w" in o else {}
                t, b = m(paths[0], **kw), m(paths[1])
                t.merge(m(paths[2]), b, default=o.get("-c", "proposed"), copycomments=o.get("-C"))
                t.normalise()
                t.normalise(usedrafts=True)
                return subj.text_of(t).encode("utf-8")
            w = core.in_child(go)
            if isinstance(w, core.ChildFailure):
                raise core.Skip()
            argv = list(paths) + [x for k in o if o[k] is not None and k != "out" for x in ((k, o[k]) if o[k] else (k,))]
            want = dict(before)
            if o["out"] == "file":
                argv += ["-o", os.path.join(d, "out.xml")]
                want[os.path.join(d, "out.xml")] = w
            elif o["out"] == "this":
                argv += ["-o", paths[0]]
                want[paths[0]] = w
            r, said = run("ldmlmerge", argv)
            if r != 0:
                raise core.Violation("ldmlmerge ends with %s" % r)
            compare("ldmlmerge", d, snapshot(d), want, before)
            if o["out"] == "stdout" and said.encode("utf-8") != w:
                raise core.Violation("ldmlmerge writes something else than the library merges", expected=w.decode("utf-8"), got=said)
            ch.seen(w)
        finally:
            shutil.rmtree(d)
    return case


MOPT = [dict(out="file"), dict(out="stdout"), {"out": "this", "-w": "other"}, {"out": "file", "-w": "this", "-c": "approved"}, {"out": "file", "-v": "", "-G": ""}, {"out": "stdout", "-C": "base"}, {"out": "file", "-C": "other"}]

PARTS = {"main": lambda l: [names(L("aa", "A" + l, references="R1")), N("numbers", {"references": "R2"}, "", [N("defaultNumberingSystem", {}, "latn")])],
         "collation": lambda l: [collation("b" + l)],
         "casing": lambda l: [N("metadata", {}, "", [N("casingData", {}, "", [N("casingItem", {"type": "currencyName", "references": "R3"}, "lowercase")])])],
         "segments": lambda l: [N("segmentations", {}, "", [N("segmentation", {"type": "SentenceBreak"}, "", [N("suppressions", {"type": "standard"}, "", [N("suppression", {}, l + ".")])])])]}


class Tag:
    def __init__(self, script, region):
        self.script, self.region = script, region


def lookup(tag, *a, **k):
    if tag == "en":
        return Tag("Latn", "US")
    if tag == "en-GB":
        return Tag("Latn", "GB")
    raise KeyError(tag)


def cldr(locales):
    def case(ch):
        have = {l: [s for s in sorted(PARTS) if ch.flag()] for l in locales}
        flags = ch.pick([[], ["-s"], ["-s", "--seed", "-t"], ["-r"], ["-s", "-r"], ["--hg", "-t"]])
        ch.note("%s %s" % (have, flags))
        d = core.scratch()
        try:
            ind, outd = os.path.join(d, "common"), os.path.join(d, "out")
            os.makedirs(os.path.join(ind, "main"))
            os.makedirs(outd)
            for p in ("e/en.xml", "o/old.xml", "e/en_old.xml", "e/notes.txt"):
                put(os.path.join(outd, p), b"old")
            put(os.path.join(outd, "README"), b"old")
            for l, ps in have.items():
                for p in ps:
                    n = document(l, "stub")
                    n.kids += PARTS[p](l)
                    put(os.path.join(ind, p, l + ".xml"), text(n))
            before = snapshot(d)
            r, said = run("cldrimport", [ind, outd] + flags, 1, fakehg, lookup)
            if r != 0:
                raise core.Violation("cldrimport ends with %s" % r)
            got = snapshot(d)
            for l, ps in have.items():
                f = os.path.join(outd, l[0], l + ".xml")
                if not ps:
                    continue
                if got.get(f, b"old") == b"old":
                    raise core.Violation("cldrimport writes no %s" % l)
                w = document(l, "stub")
                ident = {"source": "cldrseed", "draft": "unconfirmed"} if "--seed" in flags else {"source": "cldr"}
                if l in ("en", "en_GB"):
                    ident.update(script="Latn", defaultRegion="US" if l == "en" else "GB")
                w.kids[0].kids.append(N("special", {}, "", [N(S + "identity", ident)]))
                if "--hg" in flags:
                    w.kids[0].kids[0].attrs["number"] = "$Revision: %s $" % " ".join(p for p in ("main", "collation", "casing", "segments") if p in ps)
                    w.kids[0].kids.append(N("generation", {"date": "$Date: 2020-01-01 12:00 +0000 $"}))
                for p in ps:
                    for k in PARTS[p](l):
                        w.kids.append(k)
                strip(w)
                df = diff(canon(w, comments=False), canon(read(got[f]), comments=False))
                if df:
                    raise core.Violation("cldrimport of %s from %s: %s" % (l, ps, df), got=got[f].decode("utf-8"))
                ch.seen(got[f])
            live = {os.path.join(outd, l[0], l + ".xml") for l, ps in have.items() if ps}
            for f, c in before.items():
                if f in live:
                    continue
                gone = "-r" in flags and f.endswith(".xml") and f.startswith(outd)
                if got.get(f) != (None if gone else c):
                    raise core.Violation("cldrimport %s %s" % ("keeps" if gone else "changes", f[len(d) + 1:]))
            extra = set(got) - set(before) - live
            if extra:
                raise core.Violation("cldrimport writes %s" % sorted(x[len(d) + 1:] for x in extra))
        finally:
            shutil.rmtree(d)
    return case


def strip(n):
    n.attrs.pop("references", None)
    for k in n.kids:
        strip(k)


def harnesses(tier):
    q = tier == "quick"
    ls = ["en", "en_US", "root"] if q else LOCALES
    st = [None, "a", "b", "stub", "bad"]
    return [dict(name="flatten", case=flatten(ls, st, OPTIONS, [1] if q else [1, 2]), setup=subj.warm, bounds="%d locales, each absent, a stub, malformed or one of two documents, %d sets of options" % (len(ls), len(OPTIONS))),
            dict(name="modes", known=True, case=modes([None, "a", "b", "stub"]), setup=subj.warm, bounds="3 locales, each absent, a stub or one of two documents, flattened, unflattened and copied in one process and in several"),
            dict(name="normalize", case=normalize([None, "a", "bad"] if q else st), setup=subj.warm, bounds="every state of 3 LDML files and 2 others in a directory, in place or elsewhere, or a single file"),
            dict(name="merge", case=merge(sorted(MERGE), MOPT), setup=subj.warm, bounds="%d documents on each side and in the base and %d sets of options" % (len(MERGE), len(MOPT))),
            dict(name="cldr", case=cldr(["en", "fr"] if q else ["en", "fr", "en_GB"]), setup=subj.warm, bounds="every subset of 4 parts of %d locales, 5 sets of options" % (2 if q else 3))]
