#!/usr/bin/env python3
"""check.py <property> [quick|thorough]      decide one property against /repo's working tree
   check.py replay <file>                    re-run the counterexample of an earlier violation"""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *

MODULES = ["props_env", "props_tools", "props_core", "props_maps"]


class Violation(Exception):
    def __init__(self, text, data):
        self.text, self.data = text, data


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scr = Scratch()
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": 0}
        self.notes = []
        self.details = {}
        self.quick = tier == "quick"
        self.known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "known"]

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def violate(self, text, data):
        raise Violation(text, data)

    def mc(self, module, cfg, body=None, what="", expect_ok=True, **kw):
        """model-check the specification itself"""
        kw.setdefault("workers", JOBS)
        if body:
            from envsuite import tlc_mod
            rc, out = tlc_mod(self.scr, module, body, cfg, **kw)
        else:
            rc, out = tlc(self.scr, module, cfg, **kw)
        gen, dist = tlc_stats(out)
        if rc == 124:
            self.notes.append("%s: model checking stopped at its time limit" % (what or module))
        elif rc != 0:
            raise Broken("the specification %s violates its own properties (rc %d):\n%s" % (module, rc, out[-3500:]))
        self.add("states", dist)
        self.add("transitions", gen)
        self.details.setdefault("model_runs", []).append(dict(model=what or module, states=dist, transitions=gen))
        return out


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def registry():
    reg, rep = {}, {}
    for m in MODULES:
        mod = importlib.import_module(m)
        reg.update(mod.CHECKS)
        rep.update(getattr(mod, "REPLAY", {}))
    return reg, rep


def write_evidence(c, level, status, extra=None):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    ev = dict(property=c.prop, tier=c.tier, seed=c.seed, level=level, coverage=c.cov, wall_s=round(time.time() - c.t0, 2),
              status=status, details=c.details, notes=c.notes)
    ev.update(extra or {})
    p = os.path.join(VERIF, "evidence", c.prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(p + ".tmp", p)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    reg, rep = registry()
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        c = Ctx(d["property"], "quick", d.get("seed", 1))
        try:
            txt = rep[d["kind"]](c, d["data"])
        finally:
            c.scr.close()
        if txt:
            print(txt)
            print("VIOLATION property=%s replay=%s" % (d["property"], sys.argv[2]))
            return 1
        print("not reproduced")
        return 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    fn, level = reg[prop]
    c = Ctx(prop, tier, seed)
    try:
        fn(c)
        for k in c.known:
            if k.get("witness"):
                w = k["witness"]
                if rep[w["kind"]](c, w["data"]):
                    print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                    c.details.setdefault("known_findings", []).append(k["what"])
                else:
                    c.notes.append("listed finding no longer fails: " + k["what"])
        write_evidence(c, level, "held")
        print("OK property=%s tier=%s seed=%d %s wall=%.1fs" % (prop, tier, seed, json.dumps(c.cov), time.time() - c.t0))
        return 0
    except Violation as v:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, "%s-%s-%d.json" % (prop, tier, seed))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, text=v.text, kind=v.data[0], data=v.data[1]), f, indent=1)
        print(v.text[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        write_evidence(c, level, "violated", {"violation": v.text[:3000], "replay": path})
        return 1
    except Broken as b:
        print("CHECK-ERROR property=%s %s" % (prop, b))
        write_evidence(c, level, "error", {"error": str(b)[:3000]})
        return 2
    except Exception:
        traceback.print_exc()
        write_evidence(c, level, "error", {"error": traceback.format_exc()[-3000:]})
        return 2
    finally:
        c.scr.close()


if __name__ == "__main__":
    sys.exit(main())
