"""Environment properties: EnvCore behaviours generated by TLC, replayed into the real library,
and the recorded traces validated by TLC against EnvCore (module TraceEnv)."""
from vlib import *

CORE = ["src/core/*.cpp", "driver/envdrv.cpp", "driver/envitems.cpp"]
LIBS = ["-lyaml", "-lboost_filesystem", "-lboost_thread", "-lboost_system", "-lpthread"]

STRUCT = dict(new=8, attach=7, attachm=3, detach=3, deep=2, drop=2, hold=1, addf=8, remf=2, addl=5, reml=2,
              setf=5, detf=2, addin=3, addout=3, touch=1, kill=1, setid=2, prefix=1, remin=1, remout=1)
PROFILES = {
    "ids": dict(new=10, setid=6, prefix=3, attach=14, attachm=2, detach=6, deep=1, drop=2, hold=1, addf=3, addl=2, setf=2, addin=1, addout=1, kill=1),
    "frames": dict(new=8, attach=5, attachm=1, detach=2, deep=2, drop=1, addf=16, remf=5, setf=4, detf=1, touch=1, kill=1),
    "layers": dict(new=8, attach=5, attachm=4, detach=3, deep=1, drop=1, addf=3, addl=14, reml=6, setf=10, detf=5, kill=1),
    "life": dict(STRUCT, deep=5, detach=6, drop=5, hold=3, attach=9),
    "ops": dict(new=8, attach=5, detach=2, drop=1, addin=10, addout=10, setin=4, setout=4, remin=4, remout=4, remins=2, remouts=2,
                detop=4, dirty=4, clean=1, upd=6, updops=2, kill=1, addl=1),
    "events": dict(STRUCT, reg=5, unreg=3, touch=4, updops=1, immut=1),
    "replica": dict(STRUCT, mkrep=4, sync=9, all=2, unsync=1, touch=5, immut=1, kill=0, updops=1),
    "queue": dict(STRUCT, mkrep=5, sync=5, touch=8, immut=1, kill=0, updops=1, addf=10, setf=7, detf=4, remf=4, addl=7, reml=4, detach=5),
    "reload": dict(STRUCT, reload=4, touch=3, immut=2, addin=6, addout=6, addl=6, kill=0, setin=1, setout=1),
}
IDS = ["", "a", "/a", "b", "x/", "/x/1", "/x/", "/1", "/2", "/x/2", "/a/b"]
SMALLIDS = ["", "a", "b", "x/", "/x/3", "a:b", "/#c", "~"]


def tlaset(xs):
    return "{" + ", ".join('"%s"' % x for x in xs) + "}"


def gen_cfg(ids, big):
    fr = 5 if big else 3
    return """CONSTANTS
 FrameHandles = %s
 MapHandles = %s
 LayerHandles = %s
 OpHandles = %s
 IdPool = %s
 PrefixPool = {"p","/q/","r/s","/"}
 Profile <- P
 SeqLen <- SL
 UseEnv2 <- U2
 AllowKill = TRUE
 ClassPerId <- CPI
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
""" % (tlaset("f%d" % i for i in range(1, fr + 1)), tlaset(["m1", "m2", "m3"][: 3 if big else 2]),
       tlaset(["l1", "l2", "l3"][: 3 if big else 2]), tlaset(["o1", "o2", "o3"][: 3 if big else 2]), tlaset(ids))


def generate(scr, profile, seed, steps, seqlen, big=True, env2=True, classperid=False, ids=IDS):
    prof = PROFILES[profile]
    mod = "GenRun"
    d = scr.dir("gen")
    body = "---- MODULE GenRun ----\nEXTENDS GenEnv\nP == <<%s>>\nSL == %d\nU2 == %s\nCPI == %s\n====\n" % (
        ", ".join('<<"%s", %d>>' % kv for kv in sorted(prof.items()) if kv[1]), seqlen, str(env2).upper(), str(classperid).upper())
    rc, out = tlc_mod(scr, mod, body, gen_cfg(ids, big), args=["-simulate", "num=1", "-depth", str(steps + 1), "-seed", str(seed)])
    ops = re.findall(r'^"OP (.*)"$', out, re.M)
    if rc != 0 or not ops:
        raise Broken("sequence generation failed (rc %d):\n%s" % (rc, out[-3000:]))
    return ops


def tlc_mod(scr, module, body, cfg, **kw):
    """TLC on a module whose text is generated"""
    d = scr.dir("mod")
    with open(os.path.join(d, module + ".tla"), "w") as f:
        f.write(body)
    return tlc(scr, module, cfg, extra_dir=d, **kw)


def split(ops):
    seqs, cur = [], []
    for o in ops:
        if o.startswith("reset"):
            if cur:
                seqs.append(cur)
            cur = []
        else:
            cur.append(o)
    if cur:
        seqs.append(cur)
    return seqs


def join(seqs):
    r = []
    for s in seqs:
        r.append("reset 0 - - - 0")
        r += s
    return r


TRACE_CFG = """CONSTANT Facets <- F
SPECIFICATION Spec
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


class Env:
    def __init__(self, scr):
        self.scr = scr
        self.exe = build("envdrv", CORE, LIBS)
        self.validated = 0
        self.steps = 0
        self.illegal = 0
        self.timeout = 200

    def drive(self, ops, mode="all"):
        f = self.scr.path("ops")
        tr = self.scr.path("trace")
        sd = self.scr.dir("fs")
        with open(f, "w") as fh:
            fh.write("\n".join(ops) + "\n")
        rc, err = run_driver(self.exe, [f, tr, sd, mode], leaks=False, timeout=self.timeout)
        shutil.rmtree(sd, ignore_errors=True)
        return rc, err, tr

    def validate(self, tr, facets):
        body = "---- MODULE TraceRun ----\nEXTENDS TraceEnv\nF == %s\n====\n" % tlaset(facets)
        rc, out = tlc_mod(self.scr, "TraceRun", body, TRACE_CFG, env={"TRACE": tr}, heap="3g")
        if '"MISMATCH"' in out:
            m = re.search(r'<<\s*"MISMATCH".*?(?=\n\S*(?:Model|Progress|Error|The |Finished|\d+ states))', out, re.S)
            txt = re.sub(r"\s+", " ", m.group(0) if m else out[out.index('"MISMATCH"'):][:1500])
            ln = re.search(r'"line", (\d+)', txt)
            return "mismatch", txt[:1500], int(ln.group(1)) if ln else 0
        self.illegal += out.count('"ILLEGAL"')
        if '"ACCEPTED"' in out:
            return "ok", "", 0
        raise Broken("trace validation failed (rc %d):\n%s" % (rc, out[-3000:]))

    def try_seqs(self, seqs, facets, mode="all"):
        """None if accepted, else (text, index of the offending sequence)"""
        done = 0
        while done < len(seqs):
            ops = join(seqs[done:])
            rc, err, tr = self.drive(ops, mode)
            self.steps += len(ops)
            lines = open(tr, errors="replace").read().split("\n")
            fail = ""
            if rc != 0:
                # the call that was running is recorded as failed; whether it was a call the interface
                # allows is decided by the specification
                fail = "the library failed (exit %d): %s " % (rc, summarize(err))
                last = lines.pop() if lines[-1] else ""
                while lines and not lines[-1]:
                    lines.pop()
                if len(lines) < len(ops):
                    o = ops[len(lines)].split()
                    o = [o[0], int(o[1])] + [x if x != "-" else "" for x in o[2:5]] + [int(o[5])]
                else:
                    o = ["reset", 0, "", "", "", 0]
                lines.append(json.dumps(dict(n=o[0], e=o[1], h=o[2], g=o[3], s=o[4], i=o[5], res="crash", idh="", idg="")))
                lines.append(json.dumps(dict(n="end", e=0, h="", g="", s="", i=0, res="ok", idh="", idg="")))
                with open(tr, "w") as f:
                    f.write("\n".join(lines) + "\n")
            st, txt, ln = self.validate(tr, facets)
            os.unlink(tr)
            if st != "ok":
                return (fail + txt, done + sum(1 for o in ops[:ln] if o.startswith("reset")) - 1)
            n = sum(1 for o in ops[: len(lines) - 1] if o.startswith("reset")) if rc != 0 else len(seqs) - done
            self.validated += n
            done += max(n, 1)
        return None

    def campaign(self, batches, facets, mode="all"):
        """batches: list of lists of sequences.  Returns None or (text, sequence)"""
        def one(b):
            return self.try_seqs(b, facets, mode)
        res = pmap(one, batches, 6)
        for b, r in zip(batches, res):
            if r:
                txt, k = r
                return self.confirm(b, k, facets, txt, mode)
        return None

    def confirm(self, batch, k, facets, txt, mode):
        # alone?
        alone = [batch[k]]
        limit, self.timeout = self.timeout, 40
        r = self.try_seqs(alone, facets, "all")
        if r:
            self.timeout = 10
            q = self.shrink(batch[k], facets)
            self.timeout = limit
            return (r[0], q)
        self.timeout = limit
        r = self.try_seqs(batch[: k + 1], facets, mode)   # needs what came before it
        if r:
            return (r[0], sum(([["reset 0 - - - 0"]] and s + ["reset 0 - - - 0"] for s in batch[: k + 1]), []))
        raise Broken("a rejected trace could not be reproduced: " + txt)

    def shrink(self, seq, facets, budget=40):
        cur = list(seq)
        r = self.try_seqs([cur], facets)
        if not r:
            return cur
        t0 = time.time()
        step = max(1, len(cur) // 4)
        while step >= 1 and budget > 0 and time.time() - t0 < 90:
            changed = False
            j = 0
            while j < len(cur) and budget > 0 and time.time() - t0 < 90:
                cand = cur[:j] + cur[j + step:]
                budget -= 1
                try:
                    bad = bool(cand) and self.try_seqs([cand], facets)
                except Broken:
                    bad = None
                if bad:
                    cur = cand
                    changed = True
                else:
                    j += step
            if not changed:
                step //= 2
        return cur


def summarize(err):
    lines = [x for x in err.splitlines() if re.search(r"ERROR|Assertion|assert|terminate|what\(\)|runtime error|SUMMARY|did not finish", x)]
    return " | ".join(lines[:4])[:600] or err[-300:]
