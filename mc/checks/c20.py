"""C20: a keyboard layout gives, key by key, the text that its key maps, transforms and backspaces describe."""
import io, itertools, os, shutil, sys
from xml.sax.saxutils import quoteattr
from mc import core, subj
from mc.checks import c17

ASSUMPTIONS = ["key maps of one layout have no modifiers in common and no two transforms have the same from, before and after",
               "sets of strings, negated sets in a context, transformFailure and fallback are outside, as are sets in a reorder; with transformPartial=\"hide\" there are no contexts and no backspaces"]

KEYS = {"C01": "a", "B05": "b", "B03": "c"}


# -- documents

def attrs(d):
    return "".join(" %s=%s" % (k, quoteattr(v)) for k, v in d.items() if v is not None)


def keymap(mods, keys):
    return "<keyMap%s>%s</keyMap>" % (attrs({"modifiers": mods}), "".join("<map%s/>" % attrs({"iso": k, "to": v}) for k, v in keys.items()))


def load(*parts, files=None):
    d = core.scratch()
    try:
        for n, t in dict(files or {}, **{"k.xml": "".join(parts)}).items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w", encoding="utf-8") as f:
                f.write("<?xml version='1.0' encoding='utf-8'?>\n<keyboard locale='en'>%s</keyboard>" % t)
        return subj.mod("ldml_keyboard").Keyboard(os.path.join(d, "k.xml"))
    finally:
        shutil.rmtree(d)


# -- the reference

class Reference:
    """everything is worked out again from what was typed since the text was last settled (by a backspace)"""

    def __init__(self, maps, layers, backspaces=(), hide=False, reorders=()):
        self.maps, self.layers, self.backspaces, self.hide, self.reorders = maps, layers, backspaces, hide, reorders
        self.settled = self.typed = ""

    def key(self, k, mods):
        """(text, error) after a key"""
        if k == "BKSP":
            text = self.text(self.typed)[0]
            for n in range(len(text), 0, -1):
                r = [r for r in self.backspaces if text.endswith(r["from"]) and len(r["from"]) == n]
                if r:
                    if r[0].get("error"):
                        return text, 1
                    text = text[:-n] + r[0].get("to", "")
                    break
            else:
                text = text[:-1]
            self.settled, self.typed = text, ""
            return text, 0
        typed = self.typed + self.maps.get(frozenset(m.lower() for m in mods), {}).get(k, "")
        text, error = self.text(typed)
        if error:
            return self.text(self.typed)[0], 1
        self.typed = typed
        return text, 0

    def text(self, typed):
        text = self.settled + typed
        for i, rules in enumerate(self.layers):
            text, error = rewrite(text, len(self.settled), rules, self.hide and i == 0)
            if error:
                return text, 1
            if i == 0 and self.reorders:
                text = reorder(text, len(self.settled), self.reorders)
        return text, 0


def longest(text, pos, rules):
    """the rules that match longest, one with a context before one without, then as written"""
    best = [r for r in rules if text.startswith(r["from"], pos) and text[:pos].endswith(r.get("before", "")) and text.startswith(r.get("after", ""), pos + len(r["from"]))]
    n = max([len(r["from"]) for r in best], default=0)
    return sorted([r for r in best if len(r["from"]) == n], key=lambda r: not (r.get("before") or r.get("after")))


def reorder(text, pos, rules):
    """sorts each run of prebase characters, a base and marks"""
    codes = []      # order, tertiary, tertiary_base, prebase
    i = pos
    while i < len(text):
        best = longest(text, i, rules)
        n = len(best[0]["from"]) if best else 1
        for j in range(n):
            v = [(best[0].get(a, "0").split()[j:] or best[0].get(a, "0").split()[-1:])[0] if best else "0" for a in ("order", "tertiary", "tertiary_base", "prebase")]
            codes.append((int(v[0]), int(v[1]), v[2] == "true", v[3] == "true"))
        i += n
    i = 0
    while i < len(codes) and codes[i][0] != 0 and not codes[i][3]:
        i += 1
    out = text[:pos + i]
    while i < len(codes):
        start = i
        keys, chars = [], []
        primary, place = 0, -1
        state = "prebase"
        while i < len(codes):
            order, tertiary, tbase, prebase = codes[i]
            kind = "prebase" if prebase else "base" if order == 0 and (tertiary == 0 or i == start) else "mark"
            if state == "marks" and kind != "mark" or kind == "base" and state == "base":
                break
            if kind != "prebase":
                state = "base" if kind == "base" else "marks"
            elif state == "base":
                break
            if tertiary and i > start:
                key = (primary, place, tertiary, i)
            else:
                key = (order, i, 0, i)
                if kind == "base" or tbase:
                    primary, place = order, i
            keys.append(key)
            chars.append(text[pos + i])
            i += 1
        if not any(k[0] == 0 and k[2] == 0 for k in keys):
            keys.append((0, -1, 0, -1))
            chars.append("\u25cc")
        out += "".join(c for _, c in sorted(zip(keys, chars)))
    return out


def rewrite(text, pos, rules, hide):
    out = text[:pos]
    while pos < len(text):
        if hide and any(len(r["from"]) > len(text) - pos and r["from"].startswith(text[pos:]) for r in rules):
            break
        best = longest(text, pos, rules)
        if not best:
            out += text[pos]
            pos += 1
            continue
        if best[0].get("error"):
            return out, 1
        out += best[0].get("to", "")
        pos += len(best[0]["from"])
    return out, 0


def play(ch, k, ref, keys, length):
    """types every sequence of keys"""
    typed = []
    k.initstring()
    shown = []
    for i in range(length):
        key = ch.pick(keys)
        typed.append(key)
        shown.append(ref.key(key[1], key[0]))
    ch.note("keys:", " ".join("[%s]" % " ".join(list(m) + [x]) for m, x in typed))
    want = ["*%s*" % t if e else t for t, e in shown]
    got = [k.process(x, list(m)) for m, x in typed]
    text = [str(x) for x in got]
    ch.seen(tuple(text))
    if text != want:
        raise core.Violation("the texts after each key are %r instead of %r" % (text, want))


# -- harnesses

def modifiers(ch):
    """which key map a key is looked up in"""
    combos = ch.pick([["shift"], ["shift+caps?"], ["caps?+shift"], ["shift?+ctrl?+alt?"], ["shift", "altR"], ["shift+altR", "ctrlL+altL?"], ["altR+Shift?", "caps"], ["opt", "cmd+opt?"], [""]])
    other = ch.pick([None, ["ctrl+caps"], ["altR+caps?+shift", "ctrl"]])
    plain = ch.flag()
    named = ch.flag()
    maps = {}
    parts = []
    for n, cs in enumerate([None if plain else ["zz"], combos, other]):
        if n and cs is None:
            continue
        sets = [frozenset()] if cs is None else [s for c in cs for s in expand(c)]
        if any(s in maps for s in sets):
            raise core.Skip()
        keys = {k: v * 1 + "%d" % n for k, v in KEYS.items() if n != 2 or k != "B05"}
        for s in sets:
            maps[s] = keys
        parts.append(keymap(None if cs is None else " ".join(cs), keys))
    if ch.flag():
        parts.reverse()
    ch.note("".join(parts))
    k = load(*parts)
    for held in HELD:
        for style in (lambda s: s, str.upper, str.title):
            if named:
                mine = [(held, "C01"), (tuple(reversed(held)), "B05"), (held, "B03")]
                got = k.process_string("".join("[%s]" % " ".join([style(y) for y in m] + [x]) for m, x in mine))
            else:
                mine = [(tuple(style(h) for h in held), "C01"), ((), "B05"), (tuple(reversed(held)), "B03")]
                k.initstring()
                got = [k.process(x, list(m)) for m, x in mine]
            ref = Reference(maps, [])
            want = [ref.key(x, m)[0] for m, x in mine]
            text = [str(x) for x in got]
            if text != want:
                raise core.Violation("after the keys %s the texts are %r instead of %r" % (mine, text, want))
    ch.seen(str(parts))


def expand(combo):
    need = {x.lower() for x in combo.split("+") if x and not x.endswith("?")}
    may = [x.lower()[:-1] for x in combo.split("+") if x.endswith("?")]
    return [frozenset(need | set(c)) for n in range(len(may) + 1) for c in itertools.combinations(may, n)]


NAMES = ["shift", "caps", "ctrl", "altR", "alt"]
HELD = [c for n in range(4) for c in itertools.combinations(NAMES, n)] + [("ctrlL", "altL"), ("altL", "ctrlL"), ("opt", "cmd"), ("cmd",), ("opt",), ("altR", "shift"), ("zz",)]


OUT = ["a", "\u00e9", "\\u0061", "\\u{1F600}", "\\u{62}c", "b c", "&<\"", "\\\\", "", " ", "\\x{10FFFF}", "e\u0301", "\\U0001F600"]
MEANT = {"\\u0061": "a", "\\u{1F600}": "\U0001F600", "\\u{62}c": "bc", "\\\\": "\\", "\\x{10FFFF}": "\U0010FFFF", "\\U0001F600": "\U0001F600"}


def outputs(ch):
    """what a key and a transform give, however it is spelled"""
    one, two = ch.pick(OUT), ch.pick(OUT)
    kind = ch.pick(["map", "transform"])
    m = {"C01": one, "B05": two, "B03": "c"}
    real = {k: MEANT.get(v, v) for k, v in m.items()}
    if kind == "map":
        k = load(keymap(None, m))
        ch.note(m)
        return play(ch, k, Reference({frozenset(): real}, [[], []]), [((), "C01"), ((), "B05"), ((), "B03"), ((), "E00")], 3)
    rules = [{"from": "a", "to": one}, {"from": "bc", "to": two}]
    ch.note(rules)
    k = load(keymap(None, KEYS), transforms("simple", rules))
    play(ch, k, Reference({frozenset(): KEYS}, [[{"from": r["from"], "to": MEANT.get(r["to"], r["to"])} for r in rules], []]), [((), x) for x in KEYS], 3)


def transforms(kind, rules):
    if kind == "reorder":
        return "<reorders>%s</reorders>" % "".join("<reorder%s/>" % attrs(r) for r in rules)
    if kind == "backspace":
        return "<backspaces>%s</backspaces>" % "".join("<backspace%s/>" % attrs(r) for r in rules)
    return "<transforms type=\"%s\">%s</transforms>" % (kind, "".join("<transform%s/>" % attrs(r) for r in rules))


FROM = ["a", "b", "ab", "ba", "abc", "aab", "bc", "aabb"]


def some(ch, most, froms, contexts=(), to=("X", "b", "", "ba"), errors=True):
    rules = []
    for i in range(ch.pick(range(most + 1))):
        f = ch.pick(froms)
        r = {"from": f}
        for n, v in (ch.pick(contexts) if contexts else {}).items():
            r[n] = v
        if any(all(x.get(n) == r.get(n) for n in ("from", "before", "after")) for x in rules):
            raise core.Skip()
        t = ch.pick(list(to) + (["error"] if errors else []))
        if t == "error":
            r["error"] = "fail"
        else:
            r["to"] = t
        rules.append(r)
    return rules


def typing(kinds, froms, most, length, contexts=(), hide=False, to=("X", "b", "", "ba")):
    """transforms of some kinds, every sequence of keys"""
    def case(ch):
        got = {k: some(ch, most if k != "backspace" else min(most, 2), froms, contexts if k != "backspace" else (), to, k != "final") for k in kinds}
        if not any(got.values()):
            raise core.Skip()
        ch.note(got, "hide" if hide else "")
        parts = [keymap(None, KEYS)] + [transforms(k, r) for k, r in got.items() if r] + (['<settings transformPartial="hide"/>'] if hide else [])
        k = load(*parts)
        keys = [((), "C01"), ((), "B05")] + ([((), "B03")] if any("c" in r["from"] + r.get("after", "") for v in got.values() for r in v) else [])
        if "backspace" in kinds:
            keys.append(((), "BKSP"))
        for seq in itertools.product(range(len(keys)), repeat=length):
            ref = Reference({frozenset(): KEYS}, [got.get("simple", []), got.get("final", [])], got.get("backspace", []), hide)
            want = ["*%s*" % t if e else t for t, e in (ref.key(keys[i][1], ()) for i in seq)]
            k.initstring()
            text = [str(k.process(keys[i][1], [])) for i in seq]
            if text != want:
                raise core.Violation("after the keys %s the texts are %r instead of %r" % (" ".join(keys[i][1] for i in seq), text, want))
        ch.seen(str(got))
    return case


ORDERS = [{"order": "10"}, {"order": "20"}, {"order": "-5"}, {"order": "10", "prebase": "true"}, {"tertiary": "3"}, {"tertiary": "2", "order": "15"}, {"order": "10", "tertiary_base": "true"}, {}]
LISTS = [{"order": "10 20"}, {"order": "20 0"}, {"order": "0 10"}, {"order": "10", "prebase": "true false"}, {"tertiary": "0 2", "order": "10"}, {"order": "20 10", "tertiary_base": "true false"}, {"order": "30 20 10"}]


EXTRA = [{}, {"simple": [{"from": "ab", "to": "cba"}]}, {"simple": [{"from": "a", "to": "bca"}, {"from": "aab", "to": "b"}]}, {"final": [{"from": "ba", "to": "X"}, {"from": "b", "before": "X", "to": "Y"}]},
         {"backspace": [{"from": "b", "to": ""}, {"from": "ab", "to": "c"}]}, {"simple": [{"from": "cc", "error": "fail"}, {"from": "bc", "to": "ab"}], "final": [{"from": "abc", "to": "Z"}], "backspace": [{"from": "Z", "to": "ba"}]},
         {"simple": [{"from": "b", "after": "c", "to": "ac"}], "final": [{"from": "c", "to": "cc"}]}, {"simple": [{"from": "a", "to": ""}]}, {"final": [{"from": "\u25ccb", "to": "b"}, {"from": "aa", "to": "a"}]}]


def reorders(most, froms, length, extra=()):
    """every sequence of keys, sorted"""
    def case(ch):
        rules = []
        for i in range(1 + ch.pick(range(most))):
            f, ctx = ch.pick(froms)
            if any(r["from"] == f and r.get("before", "") == ctx.get("before", "") and r.get("after", "") == ctx.get("after", "") for r in rules):
                raise core.Skip()
            rules.append(dict({"from": f}, **ctx, **ch.pick(ORDERS if len(f) == 1 else LISTS)))
        other = {k: r for k, r in ch.pick(extra).items()} if extra else {}
        ch.note(rules, other)
        k = load(*([keymap(None, KEYS), transforms("reorder", rules)] + [transforms(n, r) for n, r in other.items()]))
        keys = list(KEYS) + (["BKSP"] if "backspace" in other else [])
        for seq in itertools.product(keys, repeat=length):
            ref = Reference({frozenset(): KEYS}, [other.get("simple", []), other.get("final", [])], other.get("backspace", []), reorders=rules)
            want = ["*%s*" % t if e else t for t, e in (ref.key(x, ()) for x in seq)]
            k.initstring()
            text = [str(k.process(x, [])) for x in seq]
            if text != want:
                raise core.Violation("after the keys %s the texts are %r instead of %r" % (" ".join(seq), text, want))
        ch.seen(str(rules))
    return case


SETS = [("[ab]", "ab"), ("[a-c]", "abc"), ("\\u0061", "a"), ("[\\u0061\\u{62}]", "ab"), ("[[abc]-[b]]", "ac"), ("[[ab]&[bc]]", "b"), ("c", "c"), ("b", "b")]


def sets(ch):
    """what a rule stands for when it has sets"""
    parts = [ch.pick(SETS), ch.pick(SETS)]
    ctx = ch.pick(["", "before", "after", "both"])
    c = ch.pick(SETS) if ctx else ("", "")
    d = ch.pick(SETS[:4]) if ctx == "both" else ("", "")
    raw = {"from": parts[0][0] + (parts[1][0] if ch.flag() else ""), "to": "X"}
    n = 2 if raw["from"] != parts[0][0] else 1
    if n == 1 and parts[1] is not SETS[0]:
        raise core.Skip()
    rule = {"to": "X"}
    flat = ["".join(x) for x in itertools.product(*[p[1] for p in parts[:n]])]
    if ctx in ("before", "both"):
        raw["before"] = c[0]
    if ctx == "after":
        raw["after"] = c[0]
    if ctx == "both":
        raw["after"] = d[0]
    kind = ch.pick(["simple", "final"])
    ch.note(raw, kind)
    rules = [dict(rule, **{"from": f, "before": b, "after": a}) for f in flat
             for b in (c[1] if ctx in ("before", "both") else [""]) for a in (c[1] if ctx == "after" else d[1] if ctx == "both" else [""])]
    k = load(keymap(None, KEYS), transforms(kind, [raw]))
    for seq in itertools.product(KEYS, repeat=4):
        ref = Reference({frozenset(): KEYS}, [rules, []] if kind == "simple" else [[], rules])
        want = [ref.key(x, ())[0] for x in seq]
        k.initstring()
        text = [str(k.process(x, [])) for x in seq]
        if text != want:
            raise core.Violation("after the keys %s the texts are %r instead of %r" % (" ".join(seq), text, want))
    ch.seen(str(raw))


ITEMS = [("a", "a"), ("b", "b"), ("[^a]", "bc"), ("[^bc]", "a"), ("[^\\u0062]", "ac"), ("[bc]", "bc")]


def negated(most, length):
    """rules with sets and the complements of sets, a later one before an earlier one for what both match"""
    def case(ch):
        kind = ch.pick(["simple", "final", "backspace"])
        raw, flat = [], {}
        for n in range(2):
            items = [ch.pick(ITEMS) for i in range(1 + ch.pick(range(most)))]
            raw.append({"from": "".join(i[0] for i in items), "to": "XY"[n]})
            for f in itertools.product(*[i[1] for i in items]):
                flat["".join(f)] = "XY"[n]
        if not any("^" in r["from"] for r in raw):
            raise core.Skip()
        hide = kind == "simple" and ch.flag()
        ch.note(kind, raw, "hide" if hide else "")
        rules = [{"from": f, "to": t} for f, t in flat.items()]
        k = load(*([keymap(None, KEYS), transforms(kind, raw)] + (['<settings transformPartial="hide"/>'] if hide else [])))
        keys = list(KEYS)
        for seq in itertools.product(keys, repeat=length):
            if kind == "backspace":
                seq = seq + ("BKSP",)
            ref = Reference({frozenset(): KEYS}, [rules if kind == "simple" else [], rules if kind == "final" else []], rules if kind == "backspace" else [], hide)
            want = [ref.key(x, ())[0] for x in seq]
            k.initstring()
            text = [str(k.process(x, [])) for x in seq]
            if text != want:
                raise core.Violation("after the keys %s the texts are %r instead of %r" % (" ".join(seq), text, want))
        ch.seen(str(raw))
    return case


def imports(ch):
    """parts kept in other files, and several elements of a kind"""
    maps = [("", KEYS), ("shift", {"C01": "A", "B05": "B"})]
    rules = [{"from": "ab", "to": "X"}, {"from": "A", "to": "Y"}, {"from": "abc", "to": "Z"}]
    back = [{"from": "X", "to": "ab"}]
    pieces = [keymap(m or None, k) for m, k in maps] + [transforms("simple", [r]) for r in rules] + [transforms("final", [{"from": "Xb", "to": "W"}]), transforms("backspace", back)]
    files = {}
    own = []
    for i, p in enumerate(pieces):
        where = ch.pick(["own", "other", "deep"])
        if where == "own":
            own.append(p)
        else:
            n = "o.xml" if where == "other" else "sub/p.xml"
            if n not in files:
                files[n] = ""
                own.append('<import path="%s"/>' % ("o.xml" if where == "other" else "sub/p.xml"))
            files[n] += p
    nested = ch.flag()
    if nested:
        if len(files) < 2:
            raise core.Skip()
        own.remove('<import path="sub/p.xml"/>')
        files["o.xml"] += '<import path="sub/p.xml"/>'
    ch.note(own, files)
    k = load(*own, files=files)
    ref = Reference({frozenset(): KEYS, frozenset(["shift"]): maps[1][1]}, [rules, [{"from": "Xb", "to": "W"}]], back)
    for keys in (["C01", "B05", "B05", "B03", "BKSP"], ["+C01", "C01", "B05", "B03", "BKSP", "BKSP"], ["C01", "B05", "BKSP", "C01", "B05", "+B05", "BKSP", "B05"]):
        ref.settled = ref.typed = ""
        want = [ref.key(x.lstrip("+"), ("shift",) if x[0] == "+" else ())[0] for x in keys]
        k.initstring()
        text = [str(k.process(x.lstrip("+"), ["shift"] if x[0] == "+" else [])) for x in keys]
        if text != want:
            raise core.Violation("after the keys %s the texts are %r instead of %r" % (" ".join(keys), text, want))
    ch.seen(str(own))


def tools(ch):
    """kbdtest reports the keys that do not give what is expected, the generator writes what they give"""
    lay = ch.pick([[], [transforms("simple", [{"from": "ab", "to": "X"}])], [transforms("simple", [{"from": "a", "to": ""}, {"from": "b", "to": "\u00e9"}])]])
    ref = Reference({frozenset(): KEYS, frozenset(["shift"]): {"C01": "A", "B05": "B"}}, [[], []] if not lay else [[{"from": "ab", "to": "X"}], []] if "X" in lay[0] else [[{"from": "a", "to": ""}, {"from": "b", "to": "\u00e9"}], []])
    which = ch.pick(["kbdtest", "usvs", "file", "output"])
    keys = [ch.pick([("C01", "K_A", ""), ("B05", "K_B", ""), ("C01", "K_A", "shift")]) for i in range(3)]
    want = [ref.key(k, (m,) if m else ())[0] for k, _, m in keys]
    ch.note(lay, which, keys)
    d = core.scratch()
    try:
        def put(n, t):
            with open(os.path.join(d, n), "w", encoding="utf-8") as f:
                f.write(t)
            return os.path.join(d, n)
        k = put("k.xml", "<keyboard>%s%s%s</keyboard>" % (keymap(None, KEYS), keymap("shift", {"C01": "A", "B05": "B"}), "".join(lay)))
        if which in ("kbdtest", "usvs"):
            wrong = [ch.flag() for _ in want]
            many = ch.pick([0, 253, 256]) if any(wrong) and which == "kbdtest" and not lay else 0
            events = "".join("<event><key>%s<vkey>%s</vkey></key><postcontext><text>%s</text></postcontext></event>" % ("<shiftstate><%s/></shiftstate>" % m if m else "", v, w + ("q" if b else "")) for (_, v, m), w, b in zip(keys, want, wrong))
            events += "<event><key><vkey>K_0</vkey></key><postcontext><text>zz</text></postcontext></event>" * many
            status, out = c17.run("kbdtest", [k, put("t.xml", "<test><events>%s</events></test>" % events)] + (["--usvs"] if which == "usvs" else []))
            u = lambda t: " ".join("U+%04X" % ord(c) for c in t)
            lines = []
            for i, (w, b) in enumerate(list(zip(want, wrong)) + [(want[-1], True)] * many, 1):
                t = "zz" if i > len(want) else w + "q"
                if b:
                    lines += ["Failed test %d: %s should be %s" % (i, w, t)] + (["%s should be %s" % (u(w), u(t))] if which == "usvs" else [])
            if out.splitlines() != lines:
                raise core.Violation("kbdtest says %r instead of %r" % (out, lines))
            if not isinstance(status, int) or (status % 256 != 0) != (len(lines) > 0):
                raise core.Violation("kbdtest ends with %r after %d failures" % (status, len(lines)))
        else:
            typed = put("t.txt", ("".join("[%s %s]" % (m, k) for k, _, m in keys) + "\n") * 2)
            o = os.path.join(d, "o.txt")

            def go():
                sys.argv = ["x", k, "-t", typed] + (["-o", o] if which == "file" else [])
                with open(os.path.join(d, "std"), "wb") as raw:
                    sys.stdout = io.TextIOWrapper(raw, encoding="utf-8", write_through=True)
                    subj.mod("ldml_keyboard").main()
                    sys.stdout.flush()
            r = core.in_child(go)
            if isinstance(r, core.ChildFailure):
                raise core.Violation("the generator fails: " + r.why)
            with open(o if which == "file" else os.path.join(d, "std"), encoding="utf-8") as f:
                out = f.read()
            if out != (", ".join(want) + "\n") * 2:
                raise core.Violation("the generator writes %r instead of %r twice" % (out, ", ".join(want)))
        ch.seen(out)
    finally:
        shutil.rmtree(d)


def kept(ch):
    """what earlier keys gave, and other layouts, are not changed by later keys"""
    rules = [{"from": "ab", "to": "X"}, {"from": "bb", "error": "fail"}]
    parts = [keymap(None, KEYS), transforms("simple", rules), transforms("backspace", [{"from": "X", "to": "a"}])]
    one, two = load(*parts), load(keymap(None, {k: v.upper() for k, v in KEYS.items()}))
    refs = [Reference({frozenset(): KEYS}, [rules, []], [{"from": "X", "to": "a"}]), Reference({frozenset(): {k: v.upper() for k, v in KEYS.items()}}, [[], []])]
    got, want = [], []
    for i in range(5):
        w = ch.index(2)
        key = ch.pick(["C01", "B05", "BKSP"])
        ch.note("first" if w == 0 else "second", key)
        got.append([one, two][w].process(key, []))
        t, e = refs[w].key(key, ())
        want.append("*%s*" % t if e else t)
        if [str(x) for x in got] != want:
            raise core.Violation("the texts are %r instead of %r" % ([str(x) for x in got], want))
    ch.seen(tuple(want))


def setup():
    subj.mod("ldml_keyboard")


CTX = [{}, {"before": "a"}, {"after": "a"}, {"before": "X"}, {"after": "ab"}, {"before": "b", "after": "b"}, {"after": "bc"}, {"before": "ab"}]


def harnesses(tier):
    q = tier == "quick"
    n = 5 if q else 6
    return [dict(name="modifiers", case=modifiers, setup=setup, bounds="9 x 3 sets of key maps in two orders, %d sets of held modifiers x 3 spellings x 2 ways of typing" % len(HELD)),
            dict(name="outputs", case=outputs, setup=setup, bounds="%d spellings of two outputs of keys or transforms, all sequences of 3 keys" % len(OUT)),
            dict(name="simple", case=typing(["simple"], FROM, 2 if q else 3, n), setup=setup, bounds="all sets of at most %d of %d rules with 5 results, all sequences of %d keys" % (2 if q else 3, len(FROM), n)),
            dict(name="partial", case=typing(["simple"], FROM, 2 if q else 3, n, hide=True), setup=setup, bounds="the same with partial matches hidden"),
            dict(name="contexts", case=typing(["simple"], FROM[:4], 2, n - 1, CTX, to=("X", "b")), setup=setup, bounds="all sets of at most 2 of 4 rules with %d contexts, all sequences of %d keys" % (len(CTX), n - 1)),
            dict(name="layers", case=typing(["simple", "final", "backspace"], FROM[:3] + ["Xb"], 1 if q else 2, n - 1, to=("X", "b", "ba")), setup=setup, bounds="at most %d rules of each kind, all sequences of %d keys" % (1 if q else 2, n - 1)),
            dict(name="hidden", case=typing(["simple", "final"], FROM[:3] + ["Xb"], 1 if q else 2, n - 1, hide=True, to=("X", "b", "ba")), setup=setup, bounds="at most %d simple and final rules, partial matches hidden, all sequences of %d keys" % (1 if q else 2, n - 1)),
            dict(name="final", case=typing(["final", "backspace"], FROM[:5], 1, n - 1, CTX, to=("X", "b")), setup=setup, bounds="a final rule with contexts and a backspace, all sequences of %d keys" % (n - 1)),
            dict(name="reorders", case=reorders(2 if q else 3, [(f, {}) for f in ["a", "b", "c", "ab"]][q:], n), setup=setup, bounds="at most %d reorders of %d strings with 7 or 8 sort orders, all sequences of %d keys" % (2 if q else 3, 4 - q, n)),
            dict(name="reordered", case=reorders(2, [("a", {}), ("b", {"before": "a"}), ("b", {"after": "c"}), ("ab", {"before": "c"}), ("abc", {})][q:5 - q], n - 1, EXTRA[:4] if q else EXTRA), setup=setup,
                 bounds="at most 2 reorders in context with %d sets of other rules, all sequences of %d keys" % (4 if q else len(EXTRA), n - 1)),
            dict(name="sets", case=sets, setup=setup, bounds="%d sets and escapes for two characters and the contexts of a rule, all sequences of 4 keys" % len(SETS)),
            dict(name="negated", case=negated(2 if q else 3, 4), setup=setup, bounds="2 rules of at most %d of %d sets or complements, all sequences of 4 keys" % (2 if q else 3, len(ITEMS))),
            dict(name="imports", case=imports, setup=setup, bounds="7 parts in the file itself or one of two others"),
            dict(name="tools", case=tools, setup=setup, bounds="3 layouts, all sequences of 3 of 3 keys, each given as expected or not, in a test file or as text, written to a file or not, and runs of 253 and 256 more failures"),
            dict(name="kept", case=kept, setup=setup, bounds="all sequences of 5 keys on two layouts")]
