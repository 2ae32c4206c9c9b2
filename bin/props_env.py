"""C01..C08, C12, C13: the environment (spec/EnvCore.tla)."""
from vlib import *
from envsuite import *
import random

MCCFG = """CONSTANTS
 Handles = %(handles)s
 IdPool = %(ids)s
 PrefixPool = %(pre)s
 OpNames = %(ops)s
 OpArities = %(ar)s
 Depth = %(depth)d
 Emit = %(emit)s
 MCEnvs = %(envs)s
SPECIFICATION Spec
VIEW View
INVARIANT Inv
CHECK_DEADLOCK FALSE
"""


def mccfg(handles, ops, depth, ids=("a", ""), pre=("p",), ar=(0,), emit=False, envs="{1,2}"):
    return MCCFG % dict(handles=tlaset(handles), ids=tlaset(ids), pre=tlaset(pre), ops=tlaset(ops),
                        ar="{" + ",".join(map(str, ar)) + "}", depth=depth, emit=str(emit).upper(), envs=envs)


EVMC = [(["f1", "f2", "m1"], ["new", "attach", "detach", "deep", "addf", "remf", "setf", "detf", "touch"], 6, dict(ids=("",))),
        (["l1", "m1", "o1"], ["new", "attach", "detach", "addl", "reml", "setf", "addin", "addout", "touch"], 7, dict(ids=("",)))]
EVMCT = [(["f1", "f2", "m1", "l1"], ["new", "attach", "detach", "deep", "addf", "remf", "setf", "detf", "addl", "reml", "touch"], 8, dict(ids=("",)))]
# property -> generation profile, compared facets, model-checking universes (handles, calls, depth, options)
SUITE = {
    "C01": dict(profile="ids", facets=["ids", "life"], mc=[
        (["f1", "l1", "m1"], ["new", "attach", "detach", "prefix"], 6, dict(ids=("", "a", "/1", "x/"))),
        (["f1", "l1", "m1"], ["new", "attach", "detach"], 7, dict(ids=("", "/2"), envs="{1}"))],
        mct=[(["f1", "l1", "m1", "o1"], ["new", "attach", "detach", "prefix", "drop"], 9, dict(ids=("", "a", "/1", "x/", "/x/2"), ar=(0,)))]),
    "C02": dict(profile="frames", facets=["frames", "layers"], mc=[
        (["f1", "f2", "f3"], ["new", "attach", "detach", "addf", "remf"], 7, dict(ids=("",)))],
        mct=[(["f1", "f2", "f3", "f4"], ["new", "attach", "detach", "deep", "addf", "remf"], 10, dict(ids=("",)))]),
    "C03": dict(profile="layers", facets=["layers", "frames"], mc=[
        (["f1", "m1", "l1"], ["new", "attach", "detach", "addl", "reml", "setf", "detf"], 8, dict(ids=("",)))],
        mct=[(["f1", "m1", "m2", "l1"], ["new", "attach", "detach", "addl", "reml", "setf", "detf"], 10, dict(ids=("",)))]),
    "C04": dict(profile="life", facets=["life", "frames", "layers", "ops"], mc=[
        (["f1", "f2", "m1"], ["new", "attach", "detach", "deep", "drop", "addf", "setf", "kill"], 7, dict(ids=("a", "")))],
        mct=[(["f1", "f2", "m1", "o1"], ["new", "attach", "detach", "deep", "drop", "addf", "setf", "addin", "kill"], 10, dict(ids=("a", "")))]),
    "C12": dict(profile="ops", facets=["ops"], mc=[
        (["o1", "l1", "l2"], ["new", "attach", "detach", "addin", "addout", "setin", "setout", "remin", "remout", "remins", "remouts", "detop"], 6,
         dict(ids=("",), ar=(0, 11)))],
        mct=[(["o1", "o2", "l1", "m1"], ["new", "attach", "detach", "addin", "addout", "setin", "setout", "remin", "remout", "remins", "remouts", "detop"], 9,
              dict(ids=("",), ar=(0, 11, 12)))]),
    "C05": dict(profile="events", facets=["mirror"], mc=EVMC, mct=EVMCT, deco="reg"),
    "C13": dict(profile="events", facets=["deliver", "mirror"], mc=EVMC, mct=EVMCT, deco="reg"),
    "C06": dict(profile="queue", facets=["replica"], mc=EVMC, mct=EVMCT, opts=dict(env2=False, classperid=True), deco="queue", queue=True, qmodel=True),
    "C07": dict(profile="replica", facets=["replica"], mc=EVMC, mct=EVMCT, opts=dict(env2=False, classperid=True), deco="binary", queue=True),
    "C08": dict(profile="reload", facets=["ids", "content", "frames", "layers", "ops", "life"], mc=EVMC, mct=EVMCT, deco="reload"),
}
# universes of the queue model: frames, maps, layers, content versions, queue bound
QMC = [('{"f","g"}', '{"m"}', '{}', 1, 4), ('{"f"}', '{"m"}', '{"l"}', 2, 4), ('{"f","g","h"}', '{}', '{}', 1, 5)]
QMCT = [('{"f","g"}', '{"m"}', '{}', 2, 6), ('{"f"}', '{"m"}', '{"l"}', 2, 6), ('{"f","g","h"}', '{"m"}', '{}', 1, 6)]


def decorate(kind, seqs, seed):
    """the enumerated histories, observed by handlers / followed by replicas / stored and read back"""
    rnd = random.Random(seed)
    out = []
    for q in seqs:
        q = list(q)
        if kind == "reg":
            k = rnd.randrange(len(q) + 1)
            q.insert(k, "reg 1 - - k1 0")
            q.insert(rnd.randrange(k + 1, len(q) + 1), "reg 1 - - %s %d" % (rnd.choice(["k2", "k3"]), rnd.choice([0, 1, 2, 3])))
            if rnd.random() < 0.5:
                q.append("unreg 1 - - k1 0")
        elif kind in ("queue", "binary"):
            for r in (["proc", "synq"] if kind == "queue" else ["pull", "syni", "ctx"]):
                k = rnd.randrange(len(q) + 1)
                q.insert(k, "mkrep 1 - - %s 0" % r)
                if rnd.random() < 0.5:
                    q.insert(rnd.randrange(k + 1, len(q) + 1), "sync 1 - - %s 0" % r)
                q.append("sync 1 - - %s 0" % r)
            if kind == "binary":
                q.append("all 1 - - - 0")
        elif kind == "reload":
            q.append("reload 1 - - - 0")
            if rnd.random() < 0.3:
                q.append("reload 1 - - - 0")
        out.append(q)
    return out


def transitions(c, spec, limit):
    """every transition of a small universe as a call sequence (shortest history + the call)"""
    handles, ops, depth, kw = spec
    if SUITE[c.prop].get("queue"):
        kw = dict(kw, envs="{1}")
    out = c.mc("MCEnv", mccfg(handles, ops, depth, emit=True, **kw), workers=1, what="MCEnv transitions %s depth %d" % (",".join(handles), depth))
    seqs = [x.rstrip(";").split(";") for x in re.findall(r'^"SEQ (.*)"$', out, re.M)]
    if not seqs:
        raise Broken("no transitions enumerated")
    total = len(seqs)
    # prefixes are replayed on the way: keep only sequences that are not a prefix of another one
    keys = sorted(";".join(x) for x in seqs)
    keep = [keys[i] for i in range(len(keys)) if i + 1 == len(keys) or not keys[i + 1].startswith(keys[i] + ";")]
    if len(keep) > limit:
        random.Random(c.seed).shuffle(keep)
        keep = keep[:limit]
    c.details.setdefault("transition_replay", []).append(dict(universe=handles, depth=depth, transitions=total, sequences=len(keep)))
    return [k.split(";") for k in keep]


def chunks(xs, n):
    k = max(1, (len(xs) + n - 1) // n)
    return [xs[i:i + k] for i in range(0, len(xs), k)]


def report(c, E, r, facets):
    c.violate(r[0], ("env", dict(facets=facets, ops=r[1])))


def env_check(c):
    su = SUITE[c.prop]
    facets = su["facets"]
    E = Env(c.scr)
    opts = su.get("opts", {})
    for m in su["mc"] + ([] if c.quick else su["mct"]):
        h, ops, depth, kw = m
        c.mc("MCEnv", mccfg(h, ops, depth, **kw), what="MCEnv %s depth %d" % (",".join(h), depth), heap="8g", timeout=1200)
    if su.get("qmodel"):
        for fr, mp, la, mv, mq in QMC + ([] if c.quick else QMCT):
            c.mc("EventQueue", "CONSTANTS\n Frames=%s\n Maps=%s\n Layers=%s\n MaxVal=%d\n MaxQueue=%d\n"
                 "SPECIFICATION Spec\nINVARIANTS Faithful NoDup\nCHECK_DEADLOCK FALSE\n" % (fr, mp, la, mv, mq),
                 what="EventQueue %s %s %s" % (fr, mp, la), heap="8g", timeout=1500)
    # random behaviours
    nb, steps = (6, 2600) if c.quick else (48, 6000)
    jobs = []
    for i in range(nb):
        jobs.append((c.seed * 1000 + i, [24, 40, 70][i % 3], i % 4 != 3))

    def one(j):
        seed, ln, big = j
        return split(generate(c.scr, su["profile"], seed, steps, ln, big=big, ids=IDS if seed % 2 == 0 else SMALLIDS, **opts))
    batches = pmap(one, jobs, 6)
    c.add("samples", sum(len(b) for b in batches))
    r = E.campaign(batches, facets)
    if r:
        report(c, E, r, facets)
    # exhaustive transitions of a small universe
    for m in su["mc"]:
        seqs = decorate(su.get("deco"), transitions(c, m, (6000 if not su.get("deco") else 3000) if c.quick else 60000), c.seed)
        r = E.campaign(chunks(seqs, 6 if c.quick else 24), facets, mode="all")
        if r:
            report(c, E, r, facets)
    c.add("traces_validated_against_impl", E.validated)
    c.cov["trace_steps"] = E.steps
    c.cov["illegal_in_reality"] = E.illegal
    if E.illegal * 5 > max(E.validated, 1):
        raise Broken("%d of %d sequences were not legal in the real library" % (E.illegal, E.validated))


def env_replay(c, d):
    E = Env(c.scr)
    r = E.try_seqs(split(d["ops"]), d["facets"])
    return r and r[0]


CHECKS = {p: (env_check, "model_checking") for p in SUITE}
REPLAY = {"env": env_replay}
