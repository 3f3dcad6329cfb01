"""Checks A01..A08: the keyper chain application (ShutterApp.tla, Replicas.tla)."""
import json, os
from vlib import *

ALL = "bc=10,bcs=6,ci=5,esv=8,ds=8,pe=6,pc=5,ac=5,ap=5,sh=3,none=1"
# models: (cfg, emit); weights: message mix of the random driver
CONF = {
    "A01": dict(models=["config"], big=[], weights="bc=30,bcs=2,ci=1,esv=2,ds=1", wild=4, checks=2, crash=2,
                witness=[("config", ["NeverThreeConfigs"])]),
    "A02": dict(models=["config"], big=[], weights="bc=10,bcs=12,ci=7,esv=1", wild=4, checks=2, crash=2,
                witness=[("config", ["NeverStarted", "NeverVals"])]),
    "A03": dict(models=["nonce"], big=[], weights="sh=8,bc=2,ds=3,ci=2,esv=2,pe=1,pc=1,ac=1,ap=1,none=1", wild=70, checks=6, crash=2,
                witness=[]),
    "A04": dict(models=["nonce"], big=[], weights="sh=5,bc=6,ds=3,none=1", wild=25, checks=55, crash=2, witness=[], twin=True),
    "A06": dict(models=["relay"], big=["relaybig"], weights="bc=2,esv=5,pe=12,pc=7,ac=8,ap=8,sh=1", wild=4, checks=2, crash=2,
                witness=[]),
    "A07": dict(models=["eon"], big=["eonbig"], weights="bc=9,esv=24,pe=1", wild=4, checks=2, crash=2,
                witness=[("eon", ["NeverTwoEons"])]),
    "A08": dict(models=["sigs"], big=[], weights="bc=5,ds=16,sh=10,esv=1", wild=4, checks=2, crash=2, witness=[]),
}


def cfg_text(name, emit):
    t = open(os.path.join(SPEC, f"MCShutterApp_{name}.cfg")).read()
    return t.replace("EMIT = TRUE", "EMIT = FALSE").replace("EMIT = FALSE", "EMIT = " + ("TRUE" if emit else "FALSE"))


def concerns(pid, d):
    """Is this divergence one about property pid?"""
    why, got, exp = d["why"], d["got"], d["expected"]
    if pid == "A04":
        return why == "check" or (isinstance(got, dict) and got.get("twin") not in (None, False))
    if pid == "A03":
        return why in ("auth", "sh", "none") or got.get("code") == 9
    if why == "bc":
        part = lambda o: [e for e in o.get("ev", []) if e.get("t") == "bc"]
        config_ok = got.get("code") == exp.get("code") and part(got) == part(exp)
        return pid == ("A07" if config_ok else "A01") or (pid == "A07" and not config_ok and "eon" in json.dumps(exp))
    return pid in {"bcs": ["A02"], "ci": ["A02"], "end": ["A02"], "esv": ["A07"], "pe": ["A06"], "pc": ["A06"],
                   "ac": ["A06"], "ap": ["A06"], "ds": ["A08"], "sh": ["A08"]}.get(why, [])


def describe(d):
    e = d["entry"]
    return f"{d['why']}: {json.dumps(e.get('tx') or {k: e[k] for k in e if k != 'out'})[:300]} allowed {json.dumps(d['expected'])[:200]} got {json.dumps(d['got'])[:200]}"


def run_app(c):
    conf = CONF[c.pid]
    drv = build("shut", "appdrv")
    traces, scripts_n = [], 0
    for name in conf["models"] + ([] if c.quick else conf["big"]):
        big = name in ("relay", "relaybig", "eonbig")
        r = c.model("MCShutterApp.tla", None, cfgtext=cfg_text(name, not big), label="MCShutterApp_" + name)
        if big:
            # too many transitions to replay: sample behaviours instead
            num, depth = c.pick((400, 14), (6000, 18))
            r = tlc("MCShutterApp.tla", None, cfgtext=cfg_text(name, True), args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(c.seed)], timeout=400)
            if r["rc"] not in (0,):
                raise Broken("simulation failed\n" + r["tail"])
        ops, gen, scripts, total = transition_scripts(r, c.rng, c.pick(1600, 40000))
        scripts_n += len(scripts)
        c.notes.append(f"{name}: {len(scripts)} of {total} behaviours of the specification replayed (transition cover of the state graph)")
        n = NPROC
        for i in range(n):
            part = scripts[i::n]
            if not part:
                continue
            f = os.path.join(SCRATCH, f"{name}-{i}.scripts")
            with open(f, "w") as fh:
                for s in part:
                    fh.write(json.dumps([{"op": "reset", "g": gen}] + [ops[j - 1] for j in s]) + "\n")
            traces.append((f"{name}-{i}", ["-scripts", f]))
        if scripts:
            c.sample(dict(model=name, behaviour=[ops[j - 1] for j in max(scripts, key=len)][:12]))
    for i in range(NPROC):
        args = ["-seed", str(c.seed * 1000 + i), "-segments", str(c.pick(45, 900)), "-ops", "90", "-weights", conf["weights"],
                "-wild", str(conf["wild"]), "-checks", str(conf["checks"]), "-crash", str(conf["crash"])]
        if conf.get("twin"):
            args.append("-twin")
        traces.append((f"random-{i}", args))

    def record(t):
        name, args = t
        out = os.path.join(SCRATCH, name + ".ndjson")
        run([drv, "-out", out, "-scratch", os.path.join(SCRATCH, "d-" + name)] + args, timeout=800)
        return out
    files = pmap(record, traces)
    log(f"recorded {len(files)} traces ({scripts_n} generated behaviours)")
    divs = c.validate("TraceShutterApp.tla", "TraceShutterApp.cfg", files)
    other = 0
    for d in divs:
        if concerns(c.pid, d):
            c.violation(describe(d), dict(property=c.pid, how="replay `segment` through the application (harness/shut/cmd/appdrv -seed ... regenerates it)", **d))
        else:
            other += 1
    if other:
        c.notes.append(f"{other} divergences concern other properties")
        log(f"{other} divergences concern other properties")
    kinds = {}
    for f in files[-NPROC:]:
        for line in open(f):
            e = json.loads(line)
            if e["op"] == "tx":
                k = (e["tx"]["msg"]["t"] if e["tx"]["ok"] else "undecodable") + ("/accepted" if e["out"]["code"] == 0 else "/rejected")
                kinds[k] = kinds.get(k, 0) + 1
            else:
                kinds[e["op"]] = kinds.get(e["op"], 0) + 1
    c.cov["operation_mix"] = kinds
    for name, preds in conf["witness"]:
        c.witness("MCShutterApp.tla", f"MCShutterApp_{name}.cfg", preds)
    c.assume += ["uint64 values are abstracted order-preservingly (harness/shut/appx: Num/Conc), curve points and keys by name",
                 "TLC model constants: 3 keypers, up to 2 new configs, 2 eons; the trace runs use up to 6 keypers and unbounded histories"]


def run_replicas(c):
    drv = build("shut", "repdrv")
    t = open(os.path.join(SPEC, "MCReplicas.cfg")).read()
    c.model("MCReplicas.tla", None, cfgtext=t.replace("MAXH = 2", f"MAXH = {c.pick(2, 3)}"), label="MCReplicas")
    r = tlc("MCReplicas.tla", None, cfgtext=t.replace("BUG = FALSE", "BUG = TRUE"))
    if not r["violated"]:
        raise Broken("MCReplicas does not notice lost state")
    c.witness("MCReplicas.tla", "MCReplicas.cfg", ["Caught"])
    n = c.pick(8, 8)

    def record(i):
        out = os.path.join(SCRATCH, f"rep-{i}.ndjson")
        w = ["bc=8,bcs=8,ci=6,esv=4,ds=3,pe=3,pc=2,ac=2,ap=2,sh=1", "bc=6,bcs=14,ci=14,esv=2,ds=1", "bc=3,esv=8,ds=8,pe=8,pc=6,ac=6,ap=6,sh=2"][i % 3]
        run([drv, "-out", out, "-scratch", os.path.join(SCRATCH, f"rep-{i}"), "-seed", str(c.seed * 1000 + i),
             "-segments", str(c.pick(16, 300)), "-blocks", "24", "-replicas", "5", "-weights", w], timeout=800)
        return out
    files = pmap(record, range(n))
    divs = c.validate("TraceReplicas.tla", "TraceReplicas.cfg", files)
    for d in divs:
        e = {k: v for k, v in d["entry"].items() if k != "out"}
        c.violation(f"{e['op']}: replica {e.get('r')} {json.dumps(e)} must answer {json.dumps(d['expected'])}, answered {json.dumps(d['got'])}",
                    dict(property=c.pid, how="harness/shut/cmd/repdrv", **d))
    kinds = {}
    for f in files:
        for line in open(f):
            e = json.loads(line)
            k = e["op"] + ("/" + e["save"] if "save" in e else "")
            kinds[k] = kinds.get(k, 0) + 1
    c.cov["operation_mix"] = kinds
    c.sample(dict(trace=[json.loads(x) for x in open(files[0])][:12]))
    c.assume += ["a stop is modelled as loss of memory at any point between ABCI calls, or in the middle of writing the state file (file size limit); loss of data already handed to the operating system is not modelled",
                 "the free-text Log/Info fields of responses are excluded, as in ABCI"]


CHECKS = {p: run_app for p in CONF}
CHECKS["A05"] = run_replicas
