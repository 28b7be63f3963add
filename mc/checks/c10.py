"""C10: flattening a tailoring replaces every [import] by the tailoring it names, and nothing else."""
import os, shutil
from mc import core, subj
from mc.xmlmodel import N, SIL, read, write, walk, canon, diff

ASSUMPTIONS = ["an import without -u-co- stays as it is, as the code has always done",
               "what a tailoring that imports itself expands to is not part of the property; that the operation ends is",
               "an import of a tailoring that does not exist gives nothing"]
LOOP = object()


def expand(tokens, table, stack=()):
    """reference: tokens are strings or ('import', lang, coll, spelling)"""
    res = ""
    for t in tokens:
        if isinstance(t, str):
            res += t
        else:
            k = t[1:3]
            if k in stack:
                return LOOP
            r = expand(table.get(k, ()), table, stack + (k,))
            if r is LOOP:
                return LOOP
            res += r
    return res


def text(tokens):
    return "".join(t if isinstance(t, str) else t[3] % t[1:3] for t in tokens)


PLAIN = "[import %s-u-co-%s]"
SPELL = [PLAIN, "[import  %s-u-co-%s ]"]
WORDS = ["&a<b", "[import hr]", "[reorder Grek]", "&c<d\n&e<f"]


def strings(ch):
    """every tailoring of at most three parts; the tailorings it imports are themselves lists of parts"""
    imports = [("import", l, c, PLAIN) for l, c in (("aa", "x"), ("bb-ZZ", "private-y"), ("cc", "none"))]
    spelled = imports + [("import", "aa", "x", SPELL[1])]

    def part(n, alphabet):
        res = []
        for i in range(n):
            t = ch.pick([None] + alphabet)
            if t is None:
                break
            res.append(t)
        return res
    main = part(3, WORDS + spelled)
    used = [t[1:3] for t in main if not isinstance(t, str)]
    table = {}
    if ("aa", "x") in used:
        table["aa", "x"] = part(2, WORDS[:2] + imports)
    if any(("bb-ZZ", "private-y") == t[1:3] for v in list(table.values()) + [main] for t in v if not isinstance(t, str)):
        table["bb-ZZ", "private-y"] = part(2, WORDS[1:2] + imports[:2])
    ch.note(repr(text(main)), {k: text(v) for k, v in table.items()})
    d = subj.ldml("<ldml/>")
    asked = []

    def importfn(lang, coll):
        asked.append((lang, coll))
        if len(asked) > 500:
            raise core.Violation("the import goes on for ever")
        return text(table.get((lang, coll), ()))
    got = d.flatten_collation(text(main), importfn)
    want = expand(main, table)
    ch.seen(got)
    if want is not LOOP and got != want:
        raise core.Violation("%r became %r instead of %r" % (text(main), got, want), table={repr(k): text(v) for k, v in table.items()})


LOCS = ["aa", "caa", "aa_ZZ", "root", "aa_Latn_ZZ"]
KINDS = {"std": ("standard", "standard"), "phone": ("phonebook", "phonebk"), "find": ("search", "search")}


def files(ch):
    """imports between the files of a directory: from oneself, from a locale with a similar name, from und and with a region"""
    opts = [("import", "aa", "standard", PLAIN), ("import", "caa", "standard", PLAIN), ("import", "und", "standard", PLAIN), ("import", "aa-ZZ", "phonebk", PLAIN), ("import", "aa", "phonebk", PLAIN), ("import", "xx", "standard", PLAIN),
            ("import", "aa", "search", PLAIN), ("import", "aa-Latn-ZZ", "search", PLAIN)]
    table, content = {}, {}
    who = ch.pick(LOCS[:3])
    for l in LOCS:
        tag = "und" if l == "root" else l.replace("_", "-")
        for k, (name, short) in KINDS.items():
            own = "&%s<%s" % (l[-2:] if l != "aa_Latn_ZZ" else "ln", k)
            if l == who and k == "std":
                toks = [own, ch.pick(opts)] + ch.pick([[], ["&z<y"], [("import", "caa", "phonebk", PLAIN)]])
            elif k != "std" or l == "aa_Latn_ZZ":
                toks = [own]
            else:
                toks = ch.pick([None, [], [own], [own, ("import", "aa", "phonebk", PLAIN)], [("import", tag, "phonebk", PLAIN), own]])
            content[l, name] = toks
            if toks is not None:
                table[tag, short] = toks
    ch.note(who, {k: None if v is None else text(v) for k, v in content.items()})
    d = core.scratch()
    try:
        for l in LOCS:
            cs = [N("collation", {"type": name}, "", [N("cr", {}, text(content[l, name]))]) for _, (name, short) in KINDS.items() if content[l, name] is not None]
            root = N("ldml", {}, "", [N("identity", {}, "", [N("language", {"type": l.split("_")[0]})]), N("collations", {}, "", cs)])
            with open(os.path.join(d, l + ".xml"), "w", encoding="utf-8") as f:
                f.write(write(root, {SIL: "sil"}))
        m = subj.mod("ldml_merge")
        sub = ch.flag()
        if sub:
            for l in LOCS:
                os.makedirs(os.path.join(d, l[0]), exist_ok=True)
                os.rename(os.path.join(d, l + ".xml"), os.path.join(d, l[0], l + ".xml"))
        plain = m.flattenlocale(who, dirs=[d])
        r = m.flattenlocale(who, dirs=[d], flattencollation=True)
        plain, got = read(subj.text_of(plain)), read(subj.text_of(r))
        have = {c.attrs["type"]: x for c in walk(got) if c.tag == "collation" for x in c.kids if x.tag == "cr"}
        for k, (name, short) in KINDS.items():
            toks = content[who, name]
            if toks is None:
                continue
            want = expand(toks, table, ())
            if want is LOOP:
                continue
            g = have[name].text.strip() if name in have else None
            if g != want:
                raise core.Violation("the %s tailoring of %s is %r instead of %r" % (name, who, g, want))
        ch.seen(subj.text_of(r))
        for n in (plain, got):
            for c in walk(n):
                if c.tag == "cr":
                    c.text = ""
        df = diff(canon(plain), canon(got))
        if df:
            raise core.Violation("flattening the tailorings changed something else: " + df)
    finally:
        shutil.rmtree(d)


def harnesses(tier):
    return [dict(name="strings", case=strings, setup=subj.warm, bounds="tailorings of at most 3 of 8 parts that import two tailorings of at most 2 parts, loops included"),
            dict(name="files", case=files, setup=subj.warm, bounds="3 importing locales, 7 imports x 3 continuations x 5 states of the tailorings of three other files x 2 layouts")]
