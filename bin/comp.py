"""Component properties: a component specification explored by TLC, its behaviours replayed into the
real class, and the recorded traces validated by TLC (modules CompMC, CompGen, CompTrace)."""
import random
from vlib import *
from envsuite import tlc_mod, split, summarize


def setof(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


class Comp:
    """module: the component specification; consts: definitions of its constants (TLA text)"""

    def __init__(self, c, module, exe, consts=None, facets=("all",), batch=6):
        self.c, self.scr, self.module, self.exe = c, c.scr, module, exe
        self.consts = dict(consts or {})
        self.facets = list(facets)
        self.validated = self.steps = self.illegal = 0
        self.timeout = 120

    # ---- the three instantiations
    def run(self, kind, decl, defs, cfg, **kw):
        d = dict(self.consts)
        d.update(kw.pop("consts", {}))
        names = sorted(d)
        body = "---- MODULE Run ----\nEXTENDS %s, Json, IOUtils\nVARIABLES %s\n" % (self.module, decl)
        for k in names:
            body += "v_%s == %s\n" % (k, d[k])
        body += "v_Facets == %s\n%s\nINSTANCE %s\n====\n" % (setof(self.facets), defs, kind)
        full = "CONSTANTS\n" + "".join(" %s <- v_%s\n" % (k, k) for k in names + ["Facets"]) + "SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" + cfg
        return tlc_mod(self.scr, "Run", body, full, **kw)

    def mc(self, depth, emit=False, what="", consts=None, **kw):
        kw.setdefault("timeout", 1500)
        kw.setdefault("heap", "8g")
        rc, out = self.run("CompMC", "s, hist", "Depth == %d\nEmit == %s" % (depth, str(emit).upper()), "VIEW View\n", consts=consts or {},
                           workers=1 if emit else JOBS, **kw)
        gen, dist = tlc_stats(out)
        c = self.c
        if rc == 124:
            c.notes.append("%s: model checking stopped at its time limit" % self.module)
        elif rc != 0:
            raise Broken("the specification %s violates its own properties (rc %d):\n%s" % (self.module, rc, (out[out.find("Semantic errors"):] if "Semantic errors" in out else out)[-3500:]))
        c.add("states", dist)
        c.add("transitions", gen)
        c.details.setdefault("model_runs", []).append(dict(model=self.module + (" " + what if what else ""), depth=depth, states=dist, transitions=gen))
        return out

    def transitions(self, depth, limit, consts=None):
        out = self.mc(depth, emit=True, what="transitions", consts=consts)
        seqs = [x.rstrip(";") for x in re.findall(r'^"SEQ (.*)"$', out, re.M)]
        if not seqs:
            raise Broken("no transitions enumerated")
        keys = sorted(seqs)
        keep = [keys[i] for i in range(len(keys)) if i + 1 == len(keys) or not keys[i + 1].startswith(keys[i] + ";")]
        n = len(keep)
        if n > limit:
            random.Random(self.c.seed).shuffle(keep)
            keep = keep[:limit]
        self.c.details.setdefault("transition_replay", []).append(dict(model=self.module, depth=depth, transitions=len(seqs), maximal_sequences=n, replayed=len(keep)))
        return [k.split(";") for k in keep]

    def generate(self, seed, steps, seqlen, consts=None):
        rc, out = self.run("CompGen", "s, n", "SeqLen == %d" % seqlen, "", consts=consts or {},
                           args=["-simulate", "num=1", "-depth", str(steps + 1), "-seed", str(seed)])
        ops = re.findall(r'^"OP (.*)"$', out, re.M)
        if rc != 0 or not ops:
            raise Broken("sequence generation failed (rc %d):\n%s" % (rc, out[-3000:]))
        return split(ops)

    def validate(self, tr, consts=None):
        rc, out = self.run("CompTrace", "s, l, skip", "Trace == ndJsonDeserialize(IOEnv.TRACE)", "", consts=consts or {}, env={"TRACE": tr}, heap="3g")
        if '"MISMATCH"' in out:
            why = re.findall(r'<<\s*"WHY".*?>>\n(?=\S)', out, re.S)
            txt = " ".join(why[-1:]) + " " + out[out.index('"MISMATCH"'):][:1500]
            txt = txt.split("Model checking completed")[0].split("\nError:")[0]
            ln = re.search(r'"MISMATCH", "line", (\d+)', re.sub(r"\s+", " ", out))
            return "mismatch", re.sub(r"\s+", " ", txt)[:1800], int(ln.group(1))
        self.illegal += out.count('"ILLEGAL"')
        if '"ACCEPTED"' in out and rc == 0:
            return "ok", "", 0
        m = re.search(r"(\d+) states generated", out)
        if rc != 124 and m and "The behavior up to this point is" in out and not re.search("OutOfMemory|StackOverflow|Invariant Inv is violated", out):
            # a recorded value that the specification cannot even evaluate (wrong shape or size)
            err = re.sub(r"\s+", " ", out[out.index("Error:"):])[:400]
            return "mismatch", "recorded step outside the domain of the specification: " + err, int(m.group(1))
        raise Broken("trace validation failed (rc %d):\n%s" % (rc, out[-3000:]))

    # ---- replay
    def drive(self, ops):
        f, tr, sd = self.scr.path("ops"), self.scr.path("trace"), self.scr.dir("fs")
        with open(f, "w") as fh:
            fh.write("\n".join(ops) + "\n")
        rc, err = run_driver(self.exe, [f, tr, sd], leaks=False, timeout=self.timeout)
        shutil.rmtree(sd, ignore_errors=True)
        os.unlink(f)
        return rc, err, tr

    def try_seqs(self, seqs, consts=None):
        done = 0
        while done < len(seqs):
            ops = []
            for q in seqs[done:]:
                ops.append("reset")
                ops += q
            rc, err, tr = self.drive(ops)
            self.steps += len(ops)
            fail = ""
            lines = open(tr, errors="replace").read().split("\n")
            if rc != 0:
                fail = "the code failed (exit %d): %s " % (rc, summarize(err))
                if lines[-1]:
                    lines.pop()
                while lines and not lines[-1]:
                    lines.pop()
                o = ops[len(lines)].split() if len(lines) < len(ops) else ["reset"]
                if o[0] == "reset" and len(lines) >= 1 and len(lines) < len(ops):
                    pass
                # failing while an object is taken down is charged to the last call made
                if o[0] == "reset" and lines:
                    last = json.loads(lines[-1])
                    if last["n"] != "reset":
                        last["x"] = "crash"
                        lines[-1] = json.dumps(last)
                else:
                    lines.append(json.dumps(dict(n=o[0], a=[int(x) for x in o[1:]], x="crash", r=[], o=[])))
                lines.append(json.dumps(dict(n="end", a=[], x="ok", r=[], o=[])))
                with open(tr, "w") as f:
                    f.write("\n".join(lines) + "\n")
            st, txt, ln = self.validate(tr, consts)
            os.unlink(tr)
            if st != "ok":
                return (fail + txt, done + sum(1 for o in ops[:ln] if o == "reset") - 1)
            n = sum(1 for o in ops[: len(lines) - 1] if o == "reset") if rc != 0 else len(seqs) - done
            self.validated += n
            done += max(n, 1)
        return None

    def campaign(self, batches, consts=None, kind="comp", key=None):
        batches = [b for b in batches if b]
        res = pmap(lambda b: self.try_seqs(b, consts), batches, 7)
        self.c.cov["traces_validated_against_impl"] = self.c.cov.get("traces_validated_against_impl", 0)
        for b, r in zip(batches, res):
            if r:
                txt, seq = self.confirm(b, r[1], r[0], consts)
                self.c.violate(txt, (kind, dict(key=key, seqs=seq, facets=self.facets)))

    def confirm(self, batch, k, txt, consts):
        limit, self.timeout = self.timeout, min(self.timeout, 30)
        r = self.try_seqs([batch[k]], consts)
        if r:
            self.timeout = 5
            q = self.shrink(batch[k], consts)
            self.timeout = limit
            return r[0], [q]
        self.timeout = limit
        r = self.try_seqs(batch[: k + 1], consts)
        if r:
            return r[0], batch[: k + 1]
        # not deterministic: e.g. an uninitialised read; show what was seen
        return "(seen once, not on repetition) " + txt, batch[: k + 1]

    def shrink(self, seq, consts, budget=30):
        cur = list(seq)
        t0 = time.time()
        step = max(1, len(cur) // 2)
        while step >= 1 and budget > 0 and time.time() - t0 < 60:
            changed, j = False, 0
            while j < len(cur) and budget > 0 and time.time() - t0 < 60:
                cand = cur[:j] + cur[j + step:]
                budget -= 1
                try:
                    bad = bool(cand) and self.try_seqs([cand], consts)
                except Broken:
                    bad = None
                if bad:
                    cur, changed = cand, True
                else:
                    j += step
            if not changed:
                step //= 2
        return cur

    def close(self):
        self.c.add("traces_validated_against_impl", self.validated)
        self.c.cov["trace_steps"] = self.c.cov.get("trace_steps", 0) + self.steps
        if self.illegal * 5 > max(self.validated, 1):
            raise Broken("%d of %d sequences were not legal in the real library" % (self.illegal, self.validated))


def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def random_batches(cp, nb, steps, lens=(12, 30, 60), consts=None):
    js = [(cp.c.seed * 1000 + i, lens[i % len(lens)]) for i in range(nb)]
    bs = pmap(lambda j: cp.generate(j[0], steps, j[1], consts), js, 7)
    cp.c.add("samples", sum(len(b) for b in bs))
    return bs


def timed(c, what, t0):
    c.details.setdefault("phases", []).append([what, round(time.time() - t0, 1)])


def standard(c, spec):
    """spec: dict(module, build=(name, sources, libs), consts, facets, mc=[(depth, consts)], emit=[(depth, consts)],
    quick=(nb, steps), thorough=(nb, steps), lens)"""
    exe = build(*spec["build"])
    cp = Comp(c, spec["module"], exe, spec.get("consts"), spec["facets"])
    cp.timeout = spec.get("timeout", 100 if c.quick else 400)
    key = spec["key"]
    for depth, consts in spec.get("mc", []) + ([] if c.quick else spec.get("mct", [])):
        t0 = time.time()
        cp.mc(depth, consts=consts)
        timed(c, "mc", t0)
    nb, steps = spec["quick"] if c.quick else spec["thorough"]
    t0 = time.time()
    rb = random_batches(cp, nb, steps, spec.get("lens", (12, 30, 60)))
    timed(c, "generate", t0)
    t0 = time.time()
    cp.campaign(rb, key=key)
    timed(c, "replay", t0)
    for depth, consts in spec.get("emit", []) + ([] if c.quick else spec.get("emitt", [])):
        t0 = time.time()
        seqs = cp.transitions(depth, spec.get("limit", 4000) if c.quick else 60000, consts)
        timed(c, "enumerate", t0)
        t0 = time.time()
        cp.campaign(chunks(seqs, 7 if c.quick else 28), consts, key=key)
        timed(c, "replay", t0)
    cp.close()


def replay(c, d, specs):
    spec = specs[d["key"]]
    cp = Comp(c, spec["module"], build(*spec["build"]), spec.get("consts"), d["facets"])
    r = cp.try_seqs(d["seqs"])
    return r and r[0]


ALL = {}


def register(specs):
    """makes the specifications known to the replay of recorded violations"""
    ALL.update(specs)
    return {"comp": lambda c, d: replay(c, d, ALL)}
