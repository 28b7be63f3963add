"""python mc/run.py <PROPERTY> [--tier quick|thorough] [--only HARNESS] | --replay FILE

Runs every harness of one property, writes evidence/<PROPERTY>.json, prints one VIOLATION line per
violated harness (exit 1) or a summary (exit 0).
"""
import argparse, importlib, json, os, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("MC_REPO", "/repo")
sys.dont_write_bytecode = True

# own the environment: hash order, encodings and locale are fixed before any import of the code
_WANT = {"PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "en_US.UTF-8",
         "PYTHONWARNINGS": "ignore", "TZ": "UTC"}
if any(os.environ.get(k) != v for k, v in _WANT.items()):
    os.environ.update(_WANT)
    os.execv(sys.executable, [sys.executable] + sys.argv)

sys.path.insert(0, os.path.join(REPO, "lib"))
sys.path.insert(0, VERIF)
from mc import core            # noqa: E402

KNOWN = os.path.join(VERIF, "known_findings.json")


def known_findings(prop):
    try:
        with open(KNOWN, encoding="utf-8") as f:
            return [e for e in json.load(f)["findings"] if e["property"] == prop]
    except FileNotFoundError:
        return []


def match_known(known, harness, v):
    for e in known:
        if e["harness"] == harness and v.get("key") is not None and v["key"] == e["key"]:
            return e
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    mod = importlib.import_module("mc.checks." + a.prop.lower())
    if a.replay:
        return replay(mod, a)
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    budget = float(os.environ.get("MC_BUDGET", "600" if a.tier == "quick" else "7200"))
    deadline = t0 + budget
    known = known_findings(a.prop)
    rows, samples, hit_known, bad = [], [], {}, []
    hs = [h for h in mod.harnesses(a.tier) if not a.only or h["name"] == a.only]
    for h in hs:
        try:
            if h.get("kind", "tree") == "tree":
                r = core.explore_tree(h["name"], h["case"], bound=h.get("bound"), bound_text=h["bounds"], deadline=deadline,
                                      seconds=h.get("seconds", core.CASE_SECONDS), setup=h.get("setup"), workers=h.get("workers"),
                                      shards=h.get("shards"), stop_on_violation=not h.get("known"))
            else:
                r = core.explore_graph(h["name"], h["system"], depth=h["depth"], bound_text=h["bounds"], deadline=deadline,
                                       seconds=h.get("seconds", core.CASE_SECONDS), setup=h.get("setup"), max_states=h.get("max_states"))
        except Exception:
            # an engine failure is reported, never swallowed; it is not an answer about the property
            traceback.print_exc()
            return 2
        row = r.row()
        rows.append(row)
        fresh = []
        for v in r.violations:
            e = match_known(known, h["name"], v)
            if e:
                hit_known[e["id"]] = e
            else:
                fresh.append(v)
        row["violations"] = len(fresh)
        print("%s %-28s states=%d executions=%d outcomes=%d %.1fs%s" % (a.prop, h["name"], r.states, r.traces, r.outcomes, r.wall,
              " CAPPED: " + r.capped if r.capped else ""), flush=True)
        if r.traces == 0 and not r.violations:
            print("%s %s explored nothing" % (a.prop, h["name"]))
            return 2
        if fresh:
            fresh.sort(key=lambda v: (len(v["choices"]), v["choices"]) if h.get("kind", "tree") == "tree" else (len(v["choices"]),))
            bad.append((h, fresh))
            break
        samples.append(sample(h))
    violations = 0
    for h, fresh in bad:
        v = fresh[0]
        violations += len(fresh)
        path = write_replay(a, h, v)
        print("  " + v["message"].replace("\n", "\n  ")[:2000])
        for n in v["notes"][:40]:
            print("    - " + n[:400])
        print("VIOLATION property=%s replay=%s" % (a.prop, path), flush=True)
    for e in hit_known.values():
        print("KNOWN-FINDING: property=%s %s" % (a.prop, e["what"]))
    tot = lambda k: sum(r[k] for r in rows)
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level="model_checking",
              coverage=dict(states=tot("states"), transitions=tot("transitions"), traces_validated_against_impl=tot("executions"),
                            outside_domain=tot("outside_domain"), distinct_outcomes=tot("distinct_outcomes"),
                            exhaustive=not any(r["capped"] for r in rows) and not bad,
                            harnesses=rows, samples=samples or ["stopped at the first violation"],
                            explanation="every execution counted ran the real code imported from %s; states are the distinct decision "
                                        "prefixes (tree) or the distinct canonical states (graph) visited, transitions the edges between them" % REPO),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(time.time() - t0, 2), violations=violations)
    if not a.no_evidence and not a.only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", a.prop + ".json.tmp")
        with open(tmp, "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
            f.write("\n")
        os.replace(tmp, os.path.join(VERIF, "evidence", a.prop + ".json"))
    return 1 if bad else 0


def sample(h):
    """the last execution of the depth first order is the richest: replay it to write it out"""
    if h.get("kind", "tree") != "tree":
        s = h["system"]
        return dict(harness=h["name"], initial=repr(s.inits()[0]), operations=[repr(o) for o in getattr(s, "sample_ops", lambda: [])()])

    def one():
        if h.get("setup"):
            h["setup"]()
        best = None
        ch, err, sk = core.run_case(h["case"], [], h.get("bound"))
        # walk to the lexicographically last branch a few levels deep for a non trivial example
        p = []
        for _ in range(40):
            ch, err, sk = core.run_case(h["case"], p, h.get("bound"))
            if not sk:
                best = (list(ch.trail), list(ch.notes))
            if len(ch.trail) <= len(p):
                break
            p = ch.trail[:len(p)] + [ch.arity[len(p)] - 1]
        return best
    r = core.in_child(one, timeout=60)
    if isinstance(r, core.ChildFailure) or r is None:
        return dict(harness=h["name"])
    return dict(harness=h["name"], choices=r[0], steps=[n[:500] for n in r[1]][:30])


def write_replay(a, h, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s.json" % (a.prop, h["name"]))
    with open(p, "w", encoding="utf-8") as f:
        json.dump(dict(property=a.prop, harness=h["name"], tier=a.tier, kind=h.get("kind", "tree"), **v,
                       how="cd /verif && /opt/venv/bin/python mc/run.py %s --replay %s" % (a.prop, p)), f, indent=1, default=repr)
        f.write("\n")
    return p


def replay(mod, a):
    with open(a.replay, encoding="utf-8") as f:
        rec = json.load(f)
    h = next(h for h in mod.harnesses(rec["tier"]) if h["name"] == rec["harness"])
    if h.get("setup"):
        h["setup"]()
    if rec["kind"] == "tree":
        case, prefix = h["case"], rec["choices"]
    else:
        s = h["system"]

        def case(ch):
            i = rec["choices"][0]
            init = s.inits()[i]
            hist = ()
            want = [json.dumps(core._plain(o)) for o in rec["choices"][1:]]
            for w in want:
                canon, view = s.run(init, hist)
                o = next(o for o in s.ops(init, hist, view) if json.dumps(core._plain(o)) == w)
                ch.note(repr(o))
                hist += (o,)
            s.run(init, hist)
        prefix = []
    ch, err, sk = core.run_case(case, prefix, h.get("bound"))
    if err is None and rec.get("shard") is not None and rec["kind"] == "tree":
        # not reproducible alone: replay the subtree that led to it (the failure depends on earlier executions)
        print("not reproduced in isolation; replaying the executions before it in the same process")
        p = list(rec["shard"])
        n = 0
        while p is not None and n < rec["index"] + 1:
            ch, err, sk = core.run_case(case, p, h.get("bound"))
            if not sk:
                n += 1
            if err is not None or len(ch.trail) < len(rec["shard"]):
                break
            p = core._next(ch.trail, ch.arity, len(rec["shard"]))
    for n in ch.notes:
        print("  - " + n)
    if err:
        print(err["message"])
        for k, v in err["detail"].items():
            print("  %s: %s" % (k, v))
        print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
        return 1
    print("held on this execution")
    return 0


if __name__ == "__main__":
    sys.exit(main())
