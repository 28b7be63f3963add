"""development aid: python mc/explore.py PROP HARNESS [bound]: list the distinct violation messages of a harness"""
import os, sys, importlib, collections
os.environ.setdefault("MC_MAX_VIOL", "5" if "MC_SECONDS" in os.environ else "100000")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
W = {"PYTHONHASHSEED": "0", "PYTHONUTF8": "1", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "en_US.UTF-8", "PYTHONWARNINGS": "ignore"}
if any(os.environ.get(k) != v for k, v in W.items()):
    os.environ.update(W)
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.join(os.environ.get("MC_REPO", "/repo"), "lib"))
sys.path.insert(0, os.path.dirname(HERE))
if os.environ.get("MC_COV"):        # the lines of the code under test that are executed, one per line, appended to a file
    _m = sys.monitoring
    _f = os.open(os.environ["MC_COV"], os.O_WRONLY | os.O_APPEND | os.O_CREAT)

    def _line(code, n):
        if "/lib/sldr/" in code.co_filename or "/scripts/" in code.co_filename:
            os.write(_f, ("%s:%d\n" % (code.co_filename, n)).encode())
        return _m.DISABLE
    _m.use_tool_id(3, "mc")
    _m.register_callback(3, _m.events.LINE, _line)
    _m.set_events(3, _m.events.LINE)
from mc import core
mod = importlib.import_module("mc.checks." + sys.argv[1].lower())
import time
S = float(os.environ.get("MC_SECONDS", "0"))        # a short look, up to the first violation
for h in mod.harnesses(os.environ.get("VERIF_TIER", "quick")):
    if len(sys.argv) > 2 and h["name"] != sys.argv[2]:
        continue
    if h.get("kind", "tree") != "tree":
        r = core.explore_graph(h["name"], h["system"], depth=int(sys.argv[3]) if len(sys.argv) > 3 else h["depth"], setup=h.get("setup"))
    else:
        X = dict(stop_on_violation=not h.get("known"), deadline=time.time() + S) if S else dict(stop_on_violation=False)
        r = core.explore_tree(h["name"], h["case"], bound=int(sys.argv[3]) if len(sys.argv) > 3 else h.get("bound"), setup=h.get("setup"), **X)
    print(h["name"], "states", r.states, "traces", r.traces, "outcomes", r.outcomes, "%.1fs" % r.wall, "violations", len(r.violations))
    if S and r.violations and not h.get("known"):
        break
    c = collections.OrderedDict()
    for v in r.violations:
        c.setdefault(v["message"][:int(os.environ.get("MC_W", "160"))], []).append(v)
    for m, vs in list(c.items())[:int(os.environ.get("MC_N", "40"))]:
        print("%5d  %s" % (len(vs), m))
        if os.environ.get("MC_V"):
            for n in vs[0]["notes"]:
                print("          ", n[:1500])
            if "traceback" in vs[0]["detail"]:
                print(vs[0]["detail"]["traceback"][-700:])
