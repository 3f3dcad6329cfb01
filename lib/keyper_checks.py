"""Checks K01.. : what a keyper sees, decides and does."""
import json, os
from vlib import *


def emit_cfg(cfg, emit, **subst):
    t = open(os.path.join(SPEC, cfg)).read()
    for k, v in subst.items():
        t = re.sub(rf"\b{k} = \S+", f"{k} = {v}", t)
    return re.sub(r"EMIT = \S+", "EMIT = " + ("TRUE" if emit else "FALSE"), t)


def scripted(c, name, module, cfg, limit, wrap=None, sim=None, parts=NPROC, **subst):
    """Model-checks module/cfg and writes its behaviours (a transition cover, or simulated ones) into
    NPROC script files; returns driver jobs (name, args)."""
    if sim:
        r = tlc(module, None, cfgtext=emit_cfg(cfg, True, **subst), timeout=600,
                args=["-simulate", f"num={sim[0]}", "-depth", str(sim[1]), "-seed", str(c.seed)])
        if r["rc"] != 0:
            raise Broken("simulation failed\n" + r["tail"])
    else:
        r = c.model(module, None, cfgtext=emit_cfg(cfg, True, **subst), label=name)
    ops, gen, scripts, total = transition_scripts(r, c.rng, limit)
    c.notes.append(f"{name}: {len(scripts)} of {total} behaviours of the specification replayed (transition cover of the state graph)")
    if scripts:
        c.sample(dict(model=name, behaviour=[ops[j - 1] for j in max(scripts, key=len)][:12]))
    jobs = []
    for i in range(parts):
        part = scripts[i::parts]
        if not part:
            continue
        f = os.path.join(SCRATCH, f"{name}-{i}.scripts")
        with open(f, "w") as fh:
            for s in part:
                l = [ops[j - 1] for j in s]
                fh.write(json.dumps(wrap(gen, l) if wrap else l) + "\n")
        jobs.append((f"{name}-{i}", ["-scripts", f, "-seed", str(c.seed * 100 + i)]))
    return jobs


def record(c, drv, jobs, timeout=800):
    def one(t):
        out = os.path.join(SCRATCH, t[0] + ".ndjson")
        run([drv, "-out", out] + t[1], timeout=timeout)
        return out
    files = pmap(one, jobs)
    log(f"recorded {len(files)} traces")
    mix = {}
    for f in files:
        for line in open(f):
            op = json.loads(line).get("op")
            mix[op] = mix.get(op, 0) + 1
    c.cov.setdefault("operation_mix", {})
    for k, v in mix.items():
        c.cov["operation_mix"][k] = c.cov["operation_mix"].get(k, 0) + v
    return files


def merged(files, n=NPROC):
    """The same segments in fewer files, which saves starting TLC."""
    out = []
    for i in range(n):
        part = files[i::n]
        if not part:
            continue
        f = os.path.join(SCRATCH, f"merged-{i}.ndjson")
        with open(f, "wb") as fh:
            for p in part:
                b = open(p, "rb").read()
                fh.write(b if not b or b.endswith(b"\n") else b + b"\n")
                os.remove(p)
        out.append(f)
    return out


def random_jobs(c, n, **args):
    return [(f"random-{i}", ["-seed", str(c.seed * 1000 + i)] + [x for k, v in args.items() for x in ("-" + k, str(v))]) for i in range(n)]


def brief(x, n=260):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def run_view(c):
    drv = build("shut", "viewdrv")
    jobs = scripted(c, "MCKeyperView", "MCKeyperView.tla", "MCKeyperView.cfg", c.pick(2500, 0))
    c.witness("MCKeyperView.tla", "MCKeyperView.cfg", ["NeverForgets"])
    if not c.quick:
        c.model("MCKeyperView.tla", None, cfgtext=emit_cfg("MCKeyperView.cfg", False, MAXH=4), label="MCKeyperView-4")
    jobs += random_jobs(c, NPROC, segments=c.pick(60, 1200), ops=45)
    divs = c.validate("TraceKeyperView.tla", "TraceKeyperView.cfg", record(c, drv, jobs))
    for d in divs:
        e = {k: v for k, v in d["entry"].items() if k != "out"}
        c.violation(f"after {brief(e)}: view differs in {d['why']}", dict(property=c.pid, how="harness/shut/cmd/viewdrv", **d))
    c.assume += ["the node is a stand-in for tendermint's rpc (TxSearch with its paging rules, Block, Status, Subscribe) serving a chain given by the specification",
                 "a restart is a gob round trip of the view, as done by the keyper's state file"]


def run_dkg(c):
    drv = build("shl", "dkgdrv")
    jobs = scripted(c, "MCPureDKG", "MCPureDKG.tla", "MCPureDKG.cfg", c.pick(300, 6000), wrap=lambda gen, l: [gen] + l)
    c.witness("MCPureDKG.tla", "MCPureDKG.cfg", ["NeverIn", "NeverJustified", "NeverOut"])
    if not c.quick:
        c.model("MCPureDKG.tla", None, cfgtext=emit_cfg("MCPureDKG.cfg", False, T=1), label="MCPureDKG-3-1")
        jobs += scripted(c, "MCPureDKG-4", "MCPureDKG.tla", "MCPureDKG.cfg", 2000, wrap=lambda gen, l: [gen] + l, sim=(4000, 16), N=4, T=3)
    jobs += random_jobs(c, NPROC, segments=c.pick(60, 1500))
    divs = c.validate("TracePureDKG.tla", "TracePureDKG.cfg", record(c, drv, jobs))
    for d in divs:
        e = {k: v for k, v in d["entry"].items() if k != "out"}
        c.violation(f"after {brief(e)}: {d['why']} not as specified", dict(property=c.pid, how="harness/shl/cmd/dkgdrv", **d))
    c.assume += ["which commitments an evaluation fits is computed by the driver with its own field arithmetic (honest dealings: by shcrypto.VerifyPolyEval)",
                 "every subset of the accepted commitments is summed by the driver to find the contributors to a public key"]


def ticks(rng, restarts=True):
    """MCKeyperDKG's ticks as the driver's steps, with restarts thrown in."""
    def wrap(gen, l):
        out = [gen, dict(op="decide", k="k1"), dict(op="decide", k="k2")]
        for t in l:
            out.append(dict(op="block", **{"from": t["from"]}, byz=[] if t["byz"]["t"] == "none" else [t["byz"]]))
            for k in t["dec"]:
                if restarts and rng.random() < 0.15:
                    out.append(dict(op="restart", k=k))
                out.append(dict(op="decide", k=k))
        return out
    return wrap


K08_WHYS = {"check-in", "config vote", "restart vote", "eon key"}


def chain_violations(c, divs, mine):
    for d in divs:
        why = set(d["why"])
        if why & mine:
            e = {k: v for k, v in d["entry"].items() if k != "out"}
            c.violation(f"after {brief(e)}: {sorted(why)} not as specified", dict(property=c.pid, how="harness/shut/cmd/chaindrv", **d))
    c.assume += ["the keyper chain is the real application, driven block by block; keypers read it through a stand-in for tendermint's rpc",
                 "main chain configs are given to the keypers directly",
                 "a restart reloads the keyper's state file with the real LoadState"]


def run_chain(c):
    drv = build("shut", "chaindrv")
    jobs = scripted(c, "MCKeyperDKG", "MCKeyperDKG.tla", "MCKeyperDKG.cfg", c.pick(240, 5000), wrap=ticks(c.rng))
    c.witness("MCKeyperDKG.tla", "MCKeyperDKG.cfg", ["NeverFail", "NeverWithByz", "NeverJustified"])
    if not c.quick:
        c.model("MCKeyperDKG.tla", None, cfgtext=emit_cfg("MCKeyperDKG.cfg", False, LATE=2, BYZ=2), label="MCKeyperDKG-late2")
        c.model("MCKeyperDKG.tla", None, cfgtext=emit_cfg("MCKeyperDKG.cfg", False, L=3), label="MCKeyperDKG-L3")
    jobs += random_jobs(c, NPROC, segments=c.pick(12, 200), ops=60)
    divs = c.validate("TraceKeyperDKG.tla", "TraceKeyperDKG.cfg", record(c, drv, jobs))
    chain_violations(c, divs, {"key generation message", "restart vote", "eon key", "outcome", "contributors", "key share", "agreement", "crash", "restart", "unknown action"})


def run_announce(c):
    drv = build("shut", "chaindrv")
    jobs = scripted(c, "MCAnnounce", "MCAnnounce.tla", "MCAnnounce.cfg", c.pick(3000, 0), wrap=lambda gen, l: [gen] + l)
    c.witness("MCAnnounce.tla", "MCAnnounce.cfg", ["NeverKey", "NeverRestartVote", "NeverThird"])
    if not c.quick:
        c.model("MCAnnounce.tla", None, cfgtext=emit_cfg("MCAnnounce.cfg", False, BLOCKS=8), label="MCAnnounce-8")
    jobs += random_jobs(c, NPROC, segments=c.pick(10, 120), ops=60)
    divs = c.validate("TraceKeyperDKG.tla", "TraceKeyperDKG.cfg", record(c, drv, jobs))
    chain_violations(c, divs, K08_WHYS | {"crash", "restart", "unknown action"})


def exec_script(gen, l):
    """MCExec's operations as the driver's steps."""
    head, m, h = 1, 1, 1
    c1 = gen["cfg"]
    bc = dict(t="bc", idx=1, sbat=0, kp=gen["kp"])
    eon = dict(t="eon", eon=1, start=0, kp=gen["kp"], thr=gen["thr"])
    out = [dict(kps={"k1": gen["stag"]}, eons=[dict(eon=1, start=0, thr=gen["thr"], kp=gen["kp"])]),
           dict(op="main", blk=1, evs=[dict(t="cfg", c=c1)] + gen["first"]), dict(op="side", evs=[bc, eon])]
    if gen["menu"] != "share":
        out.append(dict(op="gain", k="k1", eon=1))
    for o in l:
        if o["op"] == "block":
            head += 1
        elif o["op"] == "main":
            out.append(dict(op="main", blk=head, evs=[o["ev"]]))
        elif o["op"] == "side":
            m += 1
            out.append(dict(op="side", evs=o["evs"]))
        elif o["op"] == "gain":
            out.append(dict(op="gain", k="k1", eon=1))
        elif o["op"] == "restart":
            out.append(dict(op="restart", k="k1"))
        else:
            out.append(dict(op="decide", k="k1", h=head - o["lag"], m=m))
    return out


def exec_subst(menu, **kw):
    d = dict(MENU=f'"{menu}"')
    d.update(kw)
    return d


# menu, constants and witnesses of the models behind K03-K07
EXEC = {
    "K03": ("share", dict(HEAD=5, MEV=1, SEV=2, DECS=3), dict(HEAD=6, MEV=1, SEV=3, DECS=3), ["NeverKeyEarly"]),
    "K04": ("share", dict(HEAD=5, MEV=1, SEV=2, DECS=3), dict(HEAD=6, MEV=2, SEV=2, DECS=3), ["NeverShares", "NeverKeyEarly"]),
    "K05": ("sign", dict(HEAD=5, MEV=1, SEV=3, DECS=3), dict(HEAD=5, MEV=2, SEV=3, DECS=4), ["NeverSigns"]),
    "K06": ("execute", dict(HEAD=5, MEV=1, SEV=3, DECS=3), dict(HEAD=7, MEV=2, SEV=3, DECS=3), ["NeverExecutes", "NeverTwo"]),
    "K07": ("judge", dict(HEAD=5, MEV=2, SEV=3, DECS=3, RESTARTS=0), dict(HEAD=6, MEV=3, SEV=3, DECS=3), ["NeverAccuses", "NeverAppeals", "NeverLateJudge"]),
}
EXEC_WHYS = {"K03": {"epoch key"}, "K04": {"key share"}, "K05": {"signature"}, "K06": {"execution"}, "K07": {"appeal", "accusation"}}


def exec_jobs(c):
    menu, small, big, witnesses = EXEC[c.pid]
    k = exec_subst(menu, **small)
    jobs = scripted(c, f"MCExec-{menu}", "MCExec.tla", "MCExec.cfg", c.pick(320, 2000), wrap=exec_script, **k)
    if c.pid == "K06":
        jobs += scripted(c, f"MCExec-{menu}-staggered", "MCExec.tla", "MCExec.cfg", c.pick(200, 2000), wrap=exec_script, **dict(k, STAG=1))
    cfg = emit_cfg("MCExec.cfg", False, **k)
    c.witness("MCExec.tla", None, witnesses, text=cfg)
    if not c.quick:
        c.model("MCExec.tla", None, cfgtext=emit_cfg("MCExec.cfg", False, **exec_subst(menu, **big)), label=f"MCExec-{menu}-big", timeout=3000)
        c.model("MCExec.tla", None, cfgtext=emit_cfg("MCExec.cfg", False, **exec_subst(menu, STAG=1, **small)), label=f"MCExec-{menu}-staggered", timeout=3000)
    return jobs


def exec_validate(c, drv, jobs):
    divs = c.validate("TraceKeyperExec.tla", "TraceKeyperExec.cfg", record(c, drv, jobs))
    mine = EXEC_WHYS[c.pid] | {"crash", "restart"}
    for d in divs:
        why = set(d["why"])
        if why & mine:
            e = {k: v for k, v in d["entry"].items() if k != "out"}
            c.violation(f"after {brief(e)}: {sorted(why)} not as specified", dict(property=c.pid, how="harness/shut/cmd/execdrv", **d))
    c.assume += ["both chains are made up by the driver within the contracts' rules; the keyper's view of the main chain is built from them directly (M01 covers how it is read)",
                 "eon keys come from real key generations run by the driver (K02 covers how keypers get them)",
                 "a restart reloads the keyper's state file with the real LoadState",
                 "at most threshold-1 keypers release shares of batches that are not closed"]


def run_exec(c):
    drv = build("shut", "execdrv")
    jobs = exec_jobs(c)
    jobs += random_jobs(c, NPROC, segments=c.pick(40, 600), ops=40)
    exec_validate(c, drv, jobs)


def run_epoch(c):
    jobs = scripted(c, "MCEpochKey", "MCEpochKey.tla", "MCEpochKey.cfg", c.pick(500, 0), wrap=lambda gen, l: [gen] + l)
    jobs += scripted(c, "MCEpochKey-4-3", "MCEpochKey.tla", "MCEpochKey.cfg", c.pick(300, 6000), wrap=lambda gen, l: [gen] + l, N=4, T=3, BAD=c.pick(1, 2), DUP=1)
    c.witness("MCEpochKey.tla", "MCEpochKey.cfg", ["NeverBoth", "NeverAfterBad"])
    jobs += random_jobs(c, NPROC, segments=c.pick(40, 800))
    for module, what in (("shut", "shlib release used by shuttermint"), ("shl", "shlib of the tree")):
        drv = build(module, "ekgdrv")
        for d in c.validate("TraceEpochKey.tla", "TraceEpochKey.cfg", record(c, drv, jobs)):
            e = {k: v for k, v in d["entry"].items() if k != "out"}
            c.violation(f"{what}: after {brief(e)}: epoch keys not as specified", dict(property=c.pid, how=f"harness/{module}/cmd/ekgdrv", **d))
    drv = build("shut", "execdrv")
    exec_validate(c, drv, exec_jobs(c) + random_jobs(c, NPROC, segments=c.pick(15, 400), ops=40))


def act_script(gen, l):
    return l


ACT_QUEUE = {"actions left undone", "message not due", "message not sent", "transaction not due", "transaction not submitted",
             "message: sent before it is queued on disk", "transaction: sent before it is queued on disk"}


def act_concerns(pid, d):
    """K09: whatever shows on disk, and what is sent or not after the keyper went down; K10: all."""
    if pid == "K10":
        return True
    down = any(x["op"] == "down" for x in d["segment"])
    return any(w.startswith(("queue: ", "panic")) or w in ("main loop does not go on", "asks for an unknown transaction") or (w in ACT_QUEUE and down) for w in d["why"])


def record_guarded(c, drv, jobs, how, frames, timeout=800, par=NPROC):
    """Like record, but the end of the driver's process because of a panic of the code under test is a violation."""
    def one(t):
        out = os.path.join(SCRATCH, t[0] + ".ndjson")
        p = run([drv, "-out", out] + t[1], timeout=timeout, check=False)
        if p.returncode != 0:
            err = p.stderr
            i = max(err.find("panic:"), err.find("fatal error:"), err.find("internal error"))
            if i >= 0 and any(f in err[i:] for f in frames):
                what = err[i:].splitlines()[0]
                c.violation(f"the keyper's process ends: {what[:200]}", dict(property=c.pid, how=how, args=t[1], stderr=err[i:i + 6000]))
                return None
            raise Broken(f"{drv} failed rc={p.returncode}\n{err[-4000:]}")
        return out
    files = [f for f in pmap(one, jobs, par) if f]
    log(f"recorded {len(files)} traces")
    mix = c.cov.setdefault("operation_mix", {})
    for f in files:
        for line in open(f):
            op = json.loads(line).get("op")
            mix[op] = mix.get(op, 0) + 1
    return files


def run_actions(c):
    drv = build("shut", "actdrv")
    k = dict(K09=dict(ACTS=3, FAULTS=0, DOWNS=2, WORLDS=0), K10=dict(ACTS=3, FAULTS=2, DOWNS=0, WORLDS=1))[c.pid]
    jobs = scripted(c, "MCActions", "MCActions.tla", "MCActions.cfg", c.pick(500, 6000), **k)
    cfg = emit_cfg("MCActions.cfg", False)
    c.witness("MCActions.tla", None, ["NeverTwice", "NeverExpires", "NeverTrackedAfterRestart", "NeverResent"], text=cfg)
    if not c.quick:
        c.model("MCActions.tla", None, cfgtext=emit_cfg("MCActions.cfg", False, ACTS=4, FAULTS=1, DOWNS=2, WORLDS=2), label="MCActions-4", timeout=3000)
    jobs += random_jobs(c, NPROC, segments=c.pick(40, 400), ops=c.pick(20, 40))
    jobs = [(n, a + ["-dir", SCRATCH]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/actdrv", ["shuttermint/keyper", "internal error"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceActions.tla", "TraceActions.cfg", files):
        if act_concerns(c.pid, d):
            e = d["entry"]
            c.violation(f"{brief(e)}: {d['why']}", dict(property=c.pid, how="harness/shut/cmd/actdrv", **d))
    run_life(c)
    c.assume += ["in the action runs the keyper's main loop is stood in for by the driver: decide, save, hand over; on start load, then hand over what the state file holds; its own code runs in the whole-keyper runs",
                 "a crash leaves the files as they were at a moment when the keyper had nothing to do but wait for the nodes or for its retry pause",
                 "requests are given 15 s to appear; a node never answers on its own"]


LIFE_WHYS = dict(K09=("decision:", "files:", "stuck", "stop:", "trouble:"), K10=("send:", "files: actions lost", "files: submitted", "stuck", "stop:", "trouble:"))


def run_life(c):
    """Whole keypers, started and stopped."""
    drv = build("shut", "rundrv")
    jobs = scripted(c, "MCKeyperLife", "MCKeyperLife.tla", "MCKeyperLife.cfg", c.pick(48, 600))
    cfg = emit_cfg("MCKeyperLife.cfg", False)
    c.witness("MCKeyperLife.tla", None, ["W1", "W2", "W3"], text=cfg)
    c.witness("MCKeyperLife.tla", None, ["OnDisk"], text=emit_cfg("MCKeyperLife.cfg", False, VARIANT='"queue_first"'))
    c.witness("MCKeyperLife.tla", None, ["NoLoss"], text=emit_cfg("MCKeyperLife.cfg", False, VARIANT='"forgets"'))
    if not c.quick:
        c.model("MCKeyperLife.tla", None, cfgtext=emit_cfg("MCKeyperLife.cfg", False, N=6, LIVES=3), label="MCKeyperLife-6", timeout=3000)
    jobs += random_jobs(c, NPROC, segments=c.pick(4, 40), ops=c.pick(16, 30))
    jobs = [("life-" + n, a + ["-dir", SCRATCH, "-par", "8"]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/rundrv", ["shuttermint/keyper", "internal error"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceKeyperLife.tla", "TraceKeyperLife.cfg", files):
        mine = [w for w in d["why"] if w.startswith(LIFE_WHYS[c.pid])]
        if mine:
            e = {k: v for k, v in d["entry"].items() if k in ("op", "h", "mc", "ctr", "cur", "fl", "a", "what")}
            c.violation(f"whole keyper, at {brief(e)}: {sorted(mine)}", dict(property=c.pid, how="harness/shut/cmd/rundrv", **d))
    c.assume += ["whole keypers run against a stand-in for a tendermint node (real JSON-RPC over websocket, the app is the real one) and go-ethereum's EVM; a crash replaces the process by a fresh one on a copy of the files as they were at one moment"]


MAIN_WORLDS = dict(M01=["cfg", "exec", "slash"], M02=["cfg", "exec"], M03=["exec", "slash"], M04=["cfg"])
MAIN_WITNESS = dict(cfg=["NeverTwoConfigs", "@NeverShrinks"], exec=["NeverReceipt", "NeverSkipped"], slash=["NeverSlashed", "NeverAppealed"])
MAIN_WHYS = dict(M01="view: ", M02="calendar: ", M03="contract: ", M04="config: ")


def run_main(c):
    drv = build("shut", "maindrv")
    jobs = []
    for w in MAIN_WORLDS[c.pid]:
        small = dict(WORLD=f'"{w}"', BLOCKS=5, CALLS=3, SYNCS=2)
        jobs += scripted(c, f"MCMainChain-{w}", "MCMainChain.tla", "MCMainChain.cfg", c.pick(600 // len(MAIN_WORLDS[c.pid]), 4000),
                         wrap=lambda gen, l: dict(gen, ops=l), **small)
        c.witness(f"MCMainChain.tla", None, MAIN_WITNESS[w], text=emit_cfg("MCMainChain.cfg", False, WORLD=f'"{w}"'))
        if not c.quick:
            c.model("MCMainChain.tla", None, cfgtext=emit_cfg("MCMainChain.cfg", False, WORLD=f'"{w}"'), label=f"MCMainChain-{w}-6")
            c.model("MCMainChain.tla", None, cfgtext=emit_cfg("MCMainChain.cfg", False, WORLD=f'"{w}"', BLOCKS=7, CALLS=5), label=f"MCMainChain-{w}-7", timeout=3000)
    jobs += random_jobs(c, NPROC, segments=c.pick(40, 800), ops=c.pick(60, 90))
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/maindrv", ["shuttermint/keyper", "shuttermint/contract"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceMainChain.tla", "TraceMainChain.cfg", files):
        mine = [w for w in d["why"] if w.startswith(MAIN_WHYS[c.pid]) or not w.startswith(tuple(MAIN_WHYS.values()))]
        if mine:
            e = {k: v for k, v in d["entry"].items() if k not in ("view", "views", "list")}
            c.violation(f"after {brief(e)}: {sorted(mine)}", dict(property=c.pid, how="harness/shut/cmd/maindrv", **d))
    c.assume += ["the main chain is go-ethereum's EVM running the contracts' bytecode as bound in contract/binding.go, mined block by block; nodes serve it over an in-process JSON-RPC API",
                 "blocks already synchronised are not reorganised (reorganisations go at most as deep as the follow distance)",
                 "the view lists a config's keypers without repetitions, as the keyper's decisions use them"]


def run_config(c):
    """The operator's commands, as they are, on a real contract."""
    drv = build("shut", "cfgdrv")
    tool = build_tool()
    jobs = scripted(c, "MCConfigTool", "MCConfigTool.tla", "MCConfigTool.cfg", c.pick(144, 2400), parts=3 * NPROC, CMDS=c.pick(4, 5))
    cfg = emit_cfg("MCConfigTool.cfg", False)
    c.witness("MCConfigTool.tla", None, ["NeverThree", "NeverFuture", "NeverLong"], text=cfg)
    c.witness("MCConfigTool.tla", None, ["PickOK"], text=emit_cfg("MCConfigTool.cfg", False, BUG='"notice"'))
    c.witness("MCConfigTool.tla", None, ["PickOK"], text=emit_cfg("MCConfigTool.cfg", False, BUG='"future"'))
    if not c.quick:
        c.model("MCConfigTool.tla", None, cfgtext=emit_cfg("MCConfigTool.cfg", False, HEADSUP=2, BLOCKS=18, CMDS=6), label="MCConfigTool-6", timeout=3000)
    jobs += random_jobs(c, 3 * NPROC, segments=c.pick(4, 60), ops=c.pick(12, 20))
    jobs = [(n, a + ["-bin", tool, "-dir", SCRATCH]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/cfgdrv", ["shuttermint/cmd", "shuttermint/contract"], timeout=c.pick(800, 6000), par=3 * NPROC)
    for d in c.validate("TraceConfigTool.tla", "TraceConfigTool.cfg", merged(files)):
        e = d["entry"]
        c.violation(f"{brief({k: v for k, v in e.items() if k in ('op', 'ok', 'from', 'bad', 'fault', 'file', 'i', 'x', 'n')})}: {sorted(d['why'])}", dict(property=c.pid, how="harness/shut/cmd/cfgdrv", **d))
    c.assume += ["the commands run as processes against go-ethereum's EVM with the config contract's bytecode as bound in contract/binding.go, which mines each transaction at once and charges no fees",
                 "a node fault is a request answered with an error"]


def run_setup(c):
    """Setting keypers up with the command."""
    drv = build("shut", "setupdrv")
    tool = build_tool()
    jobs = scripted(c, "MCSetup", "MCSetup.tla", "MCSetup.cfg", c.pick(400, 5000), parts=3 * NPROC, CMDS=c.pick(5, 6))
    cfg = emit_cfg("MCSetup.cfg", False, CMDS=5)
    c.witness("MCSetup.tla", None, ["NeverHalf", "NeverMixed", "NeverTwo"], text=cfg)
    for b in ("renew", "overwrite"):
        c.witness("MCSetup.tla", None, ["@AsAsked"], text=emit_cfg("MCSetup.cfg", False, CMDS=4, BUG=f'"{b}"'))
    jobs += random_jobs(c, 3 * NPROC, segments=c.pick(5, 80), ops=c.pick(24, 30))
    jobs = [(n, a + ["-bin", tool, "-dir", SCRATCH]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/setupdrv", ["shuttermint/cmd", "shuttermint/medley", "shuttermint/keyper"], timeout=c.pick(800, 6000), par=3 * NPROC)
    for d in c.validate("TraceSetup.tla", "TraceSetup.cfg", merged(files)):
        e = d["entry"]
        c.violation(f"{brief({k: v for k, v in e.items() if k not in ('node', 'after', 'bal', 'ids')})}: {sorted(d['why'])}", dict(property=c.pid, how="harness/shut/cmd/setupdrv", **d))
    c.assume += ["the commands run as processes in directories of their own; what they left is read from the files, with keyper.Config.Unmarshal (and beside it the raw values) for the keypers' configs",
                 "money moves on go-ethereum's EVM behind a JSON-RPC server that makes senders pay for gas and refuses what cannot be paid; blocks come at once or every 150 ms"]


def run_launch(c):
    """Deploying the contracts and bootstrapping the chain with the command."""
    drv = build("shut", "launchdrv")
    tool = build_tool()
    jobs = scripted(c, "MCLaunch", "MCLaunch.tla", "MCLaunch.cfg", c.pick(300, 4000), parts=3 * NPROC, CMDS=c.pick(4, 5))
    cfg = emit_cfg("MCLaunch.cfg", False)
    c.witness("MCLaunch.tla", None, ["NeverTwo", "NeverHalf", "NeverStarted"], text=cfg)
    c.witness("MCLaunch.tla", None, ["Named"], text=emit_cfg("MCLaunch.cfg", False, BUG='"early"'))
    c.witness("MCLaunch.tla", None, ["InOrder"], text=emit_cfg("MCLaunch.cfg", False, BUG='"both"'))
    if not c.quick:
        c.model("MCLaunch.tla", None, cfgtext=emit_cfg("MCLaunch.cfg", False, CMDS=6), label="MCLaunch-6", timeout=3000)
    jobs += random_jobs(c, 3 * NPROC, segments=c.pick(5, 80), ops=c.pick(20, 30))
    jobs = [(n, a + ["-bin", tool, "-dir", SCRATCH]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/launchdrv", ["shuttermint/cmd", "shuttermint/medley", "shuttermint/contract", "shuttermint/keyper"], timeout=c.pick(800, 6000), par=3 * NPROC)
    for d in c.validate("TraceLaunch.tla", "TraceLaunch.cfg", merged(files)):
        e = d["entry"]
        c.violation(f"{brief({k: v for k, v in e.items() if k not in ('wiring', 'files')})}: {sorted(d['why'])}", dict(property=c.pid, how="harness/shut/cmd/launchdrv", **d))
    c.assume += ["the commands run as processes against go-ethereum's EVM behind a JSON-RPC server and a stand-in for a tendermint node that takes or refuses what it is sent; deployed contracts are told apart by what they answer",
                 "a node fault is a request answered with an error; transactions sent are mined at once or within 150 ms"]


def run_system(c):
    """Whole instances: keyper processes, both chains, users."""
    drv = build("shut", "sysdrv")
    tool = build_tool()
    cfg = emit_cfg("MCSystem.cfg", False)
    c.model("MCSystem.tla", None, cfgtext=cfg, label="MCSystem")
    down = dict(SYNC="FALSE", CORE="{}", LIARS="{}", TXS=1, MAXN=2, DOWNS=1)
    c.model("MCSystem.tla", None, cfgtext=emit_cfg("MCSystem.cfg", False, **down), label="MCSystem-restarts")
    live = emit_cfg("MCSystem.cfg", False, SYNC="FALSE", CORE='{"a"}', LIARS="{}", TIMEOUT=1, TXS=0, DOWNS=1)
    live = live.replace("SPECIFICATION MCSpec", "SPECIFICATION Fair").replace("VIEW View\n", "").replace("PROPERTY AsAsked", "PROPERTY AllDone").replace("ACTION_CONSTRAINT Emit\n", "")
    c.model("MCSystem.tla", None, cfgtext=live, label="MCSystem-progress")
    c.witness("MCSystem.tla", None, ["NeverRead", "NeverBoth", "NeverSkipped"], text=emit_cfg("MCSystem.cfg", False, MAXN=4))
    c.witness("MCSystem.tla", None, ["NeverLost"], text=emit_cfg("MCSystem.cfg", False, EONS=2))
    c.witness("MCSystem.tla", None, ["Hidden"], text=emit_cfg("MCSystem.cfg", False, BUG='"early"'))
    for b in ("order", "skip"):
        c.witness("MCSystem.tla", None, ["@AsAsked"], text=emit_cfg("MCSystem.cfg", False, SYNC="FALSE", BUG=f'"{b}"'))
    if not c.quick:
        c.model("MCSystem.tla", None, cfgtext=emit_cfg("MCSystem.cfg", False, MAXN=5, EONS=2), label="MCSystem-5", timeout=3000)
    jobs = scripted(c, "MCSystem-scripts", "MCSystem.tla", "MCSystem.cfg", c.pick(16, 400), sim=(c.pick(30, 600), 45), parts=NPROC,
                    MAXN=5, TXS=6, EONS=2, DOWNS=2, CORE='{"a"}')
    jobs += random_jobs(c, NPROC, segments=c.pick(3, 60), ops=40)
    jobs = [(n, a + ["-bin", tool, "-dir", SCRATCH]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/sysdrv", ["shuttermint/cmd", "shuttermint/medley", "shuttermint/contract", "shuttermint/keyper", "shuttermint/app"], timeout=c.pick(800, 6000), par=c.pick(2 * NPROC, NPROC))
    for d in c.validate("TraceSystem.tla", "TraceSystem.cfg", merged(files)):
        e = d["entry"]
        c.violation(f"{brief(e)}: {sorted(d['why'])}", dict(property=c.pid, how="harness/shut/cmd/sysdrv", **d))
    c.assume += ["keypers run as processes of the real command, each with its own server for either chain; the keyper chain's blocks are made by the driver with the real application, the main chain is go-ethereum's EVM with the deployed contracts",
                 "blocks are made when the keypers have done what they can, or after 8 blocks of the main chain that they filled themselves; no transaction of the main chain is undone; a keyper that makes no progress for 60 s is stuck",
                 "one participant may lie on the keyper chain with messages under its own key; it sends nothing to the main chain"]


def run_start(c):
    """Starting the keyper command."""
    drv = build("shut", "sysdrv")
    tool = build_tool()
    jobs = scripted(c, "MCKeyperStart", "MCKeyperStart.tla", "MCKeyperStart.cfg", c.pick(300, 6000), STARTS=c.pick(2, 3))
    cfg = emit_cfg("MCKeyperStart.cfg", False)
    c.witness("MCKeyperStart.tla", None, ["NeverStranger", "NeverSecond", "NeverEnv", "NeverSpoilt"], text=cfg)
    for b in ("again", "anew"):
        c.witness("MCKeyperStart.tla", None, ["@AsAsked"], text=emit_cfg("MCKeyperStart.cfg", False, BUG=f'"{b}"'))
    c.witness("MCKeyperStart.tla", None, ["Whole"], text=emit_cfg("MCKeyperStart.cfg", False, BUG='"nokeys"'))
    c.model("MCKeyperStart.tla", None, cfgtext=emit_cfg("MCKeyperStart.cfg", False, STARTS=c.pick(3, 5)), label="MCKeyperStart-deep", timeout=3000)
    jobs += random_jobs(c, NPROC, segments=c.pick(6, 200), ops=40)
    jobs = [(n, a + ["-starts", "-bin", tool, "-dir", SCRATCH]) for n, a in jobs]
    files = record_guarded(c, drv, jobs, "harness/shut/cmd/sysdrv", ["shuttermint/cmd", "shuttermint/medley", "shuttermint/contract", "shuttermint/keyper", "shuttermint/app"], timeout=c.pick(800, 6000), par=2 * NPROC)
    for d in c.validate("TraceKeyperStart.tla", "TraceKeyperStart.cfg", merged(files)):
        e = d["entry"]
        brf = {k: v for k, v in e.items() if k not in ("f", "e")}
        if "f" in e:
            brf["odd"] = {f: v for f, v in e["f"].items() if v != "good"}
            brf["env"] = {f: v for f, v in e["e"].items() if v != "none"}
        c.violation(f"{brief(brf, 500)}: {sorted(d['why'])}", dict(property=c.pid, how="harness/shut/cmd/sysdrv -starts", **d))
    c.assume += ["the command runs as a process in a directory of its own, with a home of its own; nodes are servers for either chain, two of each, which count what they are asked",
                 "a keyper that runs has done what it starts with once its stored state has reached both chains and nothing is queued"]


def run_crypt(c):
    drv = build("shl", "cryptdrv")
    c.model("MCThreshold.tla", "MCThreshold.cfg", label="MCThreshold")
    c.witness("MCThreshold.tla", "MCThreshold.cfg", ["NeverRule", "NeverImproper"])
    jobs = scripted(c, "MCCrypto", "MCCrypto.tla", "MCCrypto.cfg", c.pick(500, 8000))
    c.witness("MCCrypto.tla", "MCCrypto.cfg", ["NeverOpened", "NeverJunkTried"])
    if not c.quick:
        c.model("MCThreshold.tla", None, cfgtext=emit_cfg("MCThreshold.cfg", False, P=7, N=4, T=2), label="MCThreshold-4", timeout=3000)
        c.model("MCCrypto.tla", None, cfgtext=emit_cfg("MCCrypto.cfg", False, SHARES=4, COMBS=2, DECS=2), label="MCCrypto-4", timeout=3000)
    jobs += random_jobs(c, NPROC, segments=c.pick(100, 2000), ops=60)
    files = record_guarded(c, drv, jobs, "harness/shl/cmd/cryptdrv", ["shlib/shcrypto"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceCrypto.tla", "TraceCrypto.cfg", files):
        c.violation(f"after {brief(d['entry'])}: {d['why']}", dict(property=c.pid, how="harness/shl/cmd/cryptdrv", **d))
    c.assume += ["the groups are ideal in the specification: equality of what is computed is equality of discrete logarithms, known to the driver and compared by exact arithmetic modulo two primes",
                 "messages, keys and modifications are drawn at random from a seeded generator, sizes around the block boundaries preferred"]


def run_order(c):
    drv = build("shl", "cryptdrv")
    c.model("MCShuffle.tla", "MCShuffle.cfg", label="MCShuffle")
    c.witness("MCShuffle.tla", "MCShuffle.cfg", ["NeverReversed", "NeverSame"])
    if not c.quick:
        c.model("MCShuffle.tla", None, cfgtext=emit_cfg("MCShuffle.cfg", False, N=7), label="MCShuffle-7", timeout=3000)
    jobs = [(n, a + ["-orders"]) for n, a in random_jobs(c, NPROC, segments=c.pick(6, 120), ops=80)]
    jobs[0][1].extend(["-many", "300000"])
    files = record_guarded(c, drv, jobs, "harness/shl/cmd/cryptdrv", ["shlib/shcrypto"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceShuffle.tla", "TraceShuffle.cfg", files):
        c.violation(f"after {brief(d['entry'])}: {d['why']}", dict(property=c.pid, how="harness/shl/cmd/cryptdrv -orders", **d))
    c.assume += ["that orders cannot be foreseen is judged by how 600 (for lists of 12: 3000) keys, random or consecutive multiples of the generator, spread over orders and positions; "
                 "the bounds are more than five standard deviations away from what chance gives"]


def wire(c, only, limit, segments):
    drv = build("shl", "wiredrv")
    jobs = scripted(c, "MCWire", "MCWire.tla", "MCWire.cfg", limit, PIECES=c.pick(2, 3))
    if only:  # scripts name their decoder first
        for _, a in jobs:
            l = [x for x in open(a[1]) if json.loads(x)[0]["d"].startswith(only)]
            open(a[1], "w").writelines(l or ['[{"k": "decoder", "d": "bls public key", "form": "bin"}]\n'])
    jobs = [(n, a + ["-only", only]) for n, a in jobs + [("wire-" + n, a) for n, a in random_jobs(c, NPROC, segments=segments)]]
    c.witness("MCWire.tla", None, ["NeverMessage", "NeverGammas"], text=emit_cfg("MCWire.cfg", False, PIECES=3))
    if not c.quick:
        c.model("MCWire.tla", None, cfgtext=emit_cfg("MCWire.cfg", False, PIECES=4), label="MCWire-4", timeout=3000)
    files = record_guarded(c, drv, jobs, "harness/shl/cmd/wiredrv", ["shlib/shcrypto"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceWire.tla", "TraceWire.cfg", files):
        e = d["entry"]
        if e["d"].startswith(only) and (only or not e["d"].startswith("bls")):
            c.violation(f"{e['d']} ({e['form']}) from {len(e['b'])} bytes {bytes(e['b']).hex()[:80]}...: {sorted(d['why'])}", dict(property=c.pid, how="harness/shl/cmd/wiredrv", **d))
    c.assume += ["which pieces of an input encode points of the right group is computed by the driver's own curve arithmetic on big integers"]


def run_wire(c):
    wire(c, "", c.pick(1200, 12000), c.pick(4, 60))


def run_agg(c):
    wire(c, "bls", c.pick(600, 4000), c.pick(1, 10))
    drv = build("shl", "aggdrv")
    jobs = scripted(c, "MCAggregate", "MCAggregate.tla", "MCAggregate.cfg", c.pick(250, 5000), SIGNS=2)
    c.witness("MCAggregate.tla", None, ["NeverAggregate"], text=emit_cfg("MCAggregate.cfg", False, SIGNS=2))
    if not c.quick:
        c.model("MCAggregate.tla", "MCAggregate.cfg", label="MCAggregate-3", timeout=3000)
    jobs += random_jobs(c, NPROC, segments=c.pick(20, 400), ops=30)
    files = record_guarded(c, drv, jobs, "harness/shl/cmd/aggdrv", ["shlib/shcrypto"], timeout=c.pick(800, 6000))
    for d in c.validate("TraceAggregate.tla", "TraceAggregate.cfg", files):
        c.violation(f"after {brief(d['entry'])}: {d['why']}", dict(property=c.pid, how="harness/shl/cmd/aggdrv", **d))
    c.assume += ["the groups are ideal in the specification: forging a signature without the secret key is not attempted"]


CHECKS = {"K09": run_actions, "K10": run_actions, "K03": run_epoch, "K01": run_view, "S01": run_dkg, "K02": run_chain, "K08": run_announce}
CHECKS.update({i: run_exec for i in EXEC if i not in CHECKS})
CHECKS.update({i: run_main for i in MAIN_WORLDS})
CHECKS.update(E01=run_system, O01=run_config, O02=run_setup, O03=run_launch, O04=run_start)
CHECKS.update(S05=run_order, S02=run_crypt, S03=run_wire, S04=run_agg)
