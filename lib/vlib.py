"""Shared machinery of the checks: build the harness against /repo, run TLC, generate behaviours
from the specification, validate recorded behaviours against it, write the evidence file."""
import atexit, concurrent.futures as cf, glob, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = max(2, min(8, os.cpu_count() or 2))
SCRATCH = tempfile.mkdtemp(prefix="verif-")
atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))


class Broken(Exception):
    """The machinery could not give an answer (exit 2)."""


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOFLAGS="-mod=mod -buildvcs=false",
             PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin")
    e.pop("GOROOT", None)
    return e


def build(module, cmd, race=False):
    """go build of harness/<module>/cmd/<cmd>, linked with /repo's current working tree."""
    out = os.path.join(SCRATCH, module + "-" + cmd)
    if os.path.exists(out):
        return out
    # work on a copy: go may want to touch go.sum
    src = os.path.join(SCRATCH, "src-" + module)
    if not os.path.exists(src):
        shutil.copytree(os.path.join(VERIF, "harness", module), src)
        if module == "shl":
            with_tree_shlib(src)
    t = time.time()
    p = subprocess.run(["go", "build", "-o", out] + (["-race"] if race else []) + ["./cmd/" + cmd],
                       cwd=src, env=goenv(), capture_output=True, text=True)
    if p.returncode != 0:
        raise Broken("harness does not build:\n" + p.stdout + p.stderr)
    log(f"built {cmd} in {time.time()-t:.1f}s")
    return out


def build_tool():
    """The repository's shuttermint command."""
    build("shut", "cfgdrv")
    out = os.path.join(SCRATCH, "shuttermint")
    if not os.path.exists(out):
        p = subprocess.run(["go", "build", "-o", out, "github.com/shutter-network/shutter/shuttermint"], cwd=os.path.join(SCRATCH, "src-shut"), env=goenv(), capture_output=True, text=True)
        if p.returncode != 0:
            raise Broken("the command does not build:\n" + p.stdout + p.stderr)
    return out


def with_tree_shlib(src):
    """The tree's epochkg package and its driver, to be built with the tree's shlib."""
    os.makedirs(os.path.join(src, "epochkg"), exist_ok=True)
    for f in glob.glob("/repo/shuttermint/keyper/epochkg/*.go"):
        if not f.endswith("_test.go"):
            shutil.copy(f, os.path.join(src, "epochkg"))
    t = open(os.path.join(VERIF, "harness/shut/cmd/ekgdrv/main.go")).read()
    t = t.replace('"github.com/shutter-network/shutter/shuttermint/keyper/epochkg"', '"verif/shl/epochkg"')
    open(os.path.join(src, "cmd/ekgdrv/main.go"), "w").write(t)


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


T0 = time.time()


def tlc(module, cfg, workers=NPROC, env=None, timeout=600, args=(), heap="6g", cfgtext=None, want=None):
    """Runs TLC; returns dict(out=lines printed by the spec, gen, distinct, depth, violated, ok)."""
    md = tempfile.mkdtemp(prefix="tlc-", dir=SCRATCH)
    if cfgtext is not None:
        cfgpath = os.path.join(md, "M.cfg")
        open(cfgpath, "w").write(cfgtext)
    else:
        cfgpath = os.path.join(SPEC, cfg)
    e = dict(os.environ)
    e.update(env or {})
    outf = os.path.join(md, "out.txt")
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + md, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", os.path.join(md, "states"), "-config", cfgpath] + list(args) + [os.path.join(SPEC, module)]
    t = time.time()
    with open(outf, "w") as f:
        try:
            rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            rc = -99
    r = dict(rc=rc, out=[], gen=0, distinct=0, depth=0, violated=None, wall=time.time() - t, err="")
    tail = []
    with open(outf, errors="replace") as f:
        for line in f:
            if line.startswith('"'):
                try:
                    r["out"].append(json.loads(line.strip()))
                except ValueError:
                    r["out"].append(line.strip().strip('"'))
                continue
            tail.append(line)
            if len(tail) > 400:
                tail = tail[-300:]
            m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
            if m:
                r["gen"], r["distinct"] = int(m[1]), int(m[2])
            m = re.match(r"The depth of the complete state graph search is (\d+)", line)
            if m:
                r["depth"] = int(m[1])
            m = re.match(r"The number of states generated: (\d+)", line)
            if m:
                r["gen"] = int(m[1])
            m = re.match(r"Error: Invariant (\w+) is violated", line) or re.match(r"Error: Action property (\w+) is violated", line)
            if m:
                r["violated"] = m[1]
    r["ok"] = rc == 0
    r["tail"] = "".join(tail[-60:])
    shutil.rmtree(md, ignore_errors=True)
    return r


def pmap(fn, items, n=NPROC):
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def cover_scripts(r):
    """Scripts (lists of operations) covering every printed transition of the state graph:
    self-loops of a state are tried one after the other at the end of the path to that state."""
    ops = genesis = None
    loops, moves = {}, []
    for s in r["out"]:
        if s.startswith("OPS "):
            ops = json.loads(s[4:])
        elif s.startswith("GENESIS "):
            genesis = json.loads(s[8:])
        elif s.startswith("T "):
            p, c = s[2:].rsplit(" ", 1)
            p = tuple(int(x) for x in p[2:-2].split(",")) if len(p) > 4 else ()
            if c == "0":
                loops.setdefault(p[:-1], []).append(p[-1])
            else:
                moves.append(p)
    return ops, genesis, loops, moves


def transition_scripts(r, rng, limit):
    ops, genesis, loops, moves = cover_scripts(r)
    inner = {m[:-1] for m in moves}
    paths = []
    seen = set()
    for m in moves:
        if m not in inner or m in loops:
            pass
        if m in inner:       # a longer script passes through here
            continue
        paths.append(m)
    for p in loops:
        if len(loops[p]):
            paths.append(p)
    total = len(paths)
    if limit and len(paths) > limit:
        # bias towards deep behaviours, but keep all depths represented
        paths.sort()
        rng.shuffle(paths)
        paths = paths[:limit]
    return ops, genesis, [list(p) + sorted(loops.get(p, [])) for p in paths], total


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(f"{pid}-{self.seed}")
        self.states = self.transitions = self.traces = self.steps = 0
        self.models, self.samples, self.violations, self.notes, self.assume = [], [], [], [], []
        self.known = []
        self.cov = {}
        self.quick = self.tier == "quick"

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- specification --------------------------------------------------------------------
    def model(self, module, cfg, workers=NPROC, timeout=800, heap="6g", cfgtext=None, label=None):
        """Exhaustive check of the specification itself; a violation here is a broken spec."""
        r = tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, cfgtext=cfgtext)
        if not r["ok"]:
            raise Broken(f"model {module}/{cfg or label}: rc={r['rc']} {r['violated']}\n{r['tail']}")
        self.states += r["distinct"]
        self.transitions += r["gen"]
        self.models.append(dict(spec=module, cfg=cfg or label, distinct_states=r["distinct"], transitions=r["gen"],
                                depth=r["depth"], wall_s=round(r["wall"], 1)))
        log(f"model {cfg or label}: {r['distinct']} states, {r['gen']} transitions, depth {r['depth']}, {r['wall']:.1f}s")
        return r

    def witness(self, module, cfg, names, text=None):
        """Each named predicate must be violated: the interesting situations are reachable."""
        text = text or open(os.path.join(SPEC, cfg)).read()
        text = "\n".join(l for l in text.splitlines() if not l.startswith(("INVARIANT", "PROPERTY", "ACTION_CONSTRAINT")))
        def one(n):
            r = tlc(module, None, workers=2, cfgtext=text + f"\n{'PROPERTY' if n[0] == '@' else 'INVARIANT'} {n.lstrip('@')}\n", timeout=300)
            if r["violated"] != n.lstrip("@"):
                raise Broken(f"vacuous model {cfg}: {n} is never violated\n{r['tail']}")
        pmap(one, names, 4)
        self.notes.append(f"reachability witnesses in {cfg or module}: " + ", ".join(names))

    # -- conformance ----------------------------------------------------------------------
    def validate(self, module, cfg, traces, timeout=800, heap="3g", workers=1, label="recorded", count_resets=True):
        """Validates recorded traces against the specification; returns the divergences, each with
        the segment of the trace it occurred in."""
        def one(path):
            return tlc(module, cfg, workers=workers, env={"TRACE": path}, timeout=timeout, heap=heap)
        res = pmap(one, traces, 4)
        divs = []
        for path, r in zip(traces, res):
            lines = [json.loads(x) for x in open(path)]
            if not r["ok"]:
                raise Broken(f"trace validation of {path} failed: rc={r['rc']} {r['violated']}\n{r['tail']}")
            self.traces += sum(1 for x in lines if x.get("op") == "reset") if count_resets else 1
            self.steps += len(lines)
            for o in r["out"]:
                if o.startswith("DIVERGENCE "):
                    d = json.loads(o[len("DIVERGENCE "):])
                    n = d["line"]
                    start = max(i for i in range(n) if lines[i].get("op") == "reset")
                    divs.append(dict(kind=label, entry=lines[n - 1], expected=d["expected"], got=d["got"],
                                     why=d.get("why"), segment=lines[start:n], line=n, trace=os.path.basename(path)))
        log(f"validated {len(traces)} {label} trace files, {sum(1 for _ in divs)} divergences")
        return divs

    def violation(self, what, replay):
        """Records a violation (de-duplicated by its description)."""
        for v in self.violations:
            if v["what"] == what:
                v["count"] += 1
                return
        os.makedirs(os.path.join(EVID, "replays"), exist_ok=True)
        path = os.path.join(EVID, "replays", f"{self.pid}-{len(self.violations)+1}.json")
        if len(self.violations) < 20:
            json.dump(replay, open(path, "w"), indent=1)
        self.violations.append(dict(what=what, replay=path, count=1))

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    # -- verdict --------------------------------------------------------------------------
    def finish(self):
        known = load_known(self.pid)
        new, old = [], []
        for v in self.violations:
            k = next((k for k in known if k["match"] in v["what"]), None)
            (old if k else new).append((v, k))
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or [{"note": "none recorded"}], models=self.models,
                   impl_steps_validated=self.steps, notes=self.notes)
        cov.update(self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking", coverage=cov,
                  wall_s=round(time.time() - T0, 1), violations=len(new), assumptions=self.assume)
        os.makedirs(EVID, exist_ok=True)
        json.dump(ev, open(os.path.join(EVID, self.pid + ".json"), "w"), indent=1)
        seen = set()
        for v, k in old:
            if k["match"] not in seen:
                seen.add(k["match"])
                print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
        for v, _ in new[:10]:
            log("violation:", v["what"], f"({v['count']}x)")
            print(f"VIOLATION property={self.pid} replay={v['replay']}", flush=True)
        log(f"{self.pid} {self.tier}: {'VIOLATED' if new else 'held'}; {self.states} model states, {self.traces} traces, {self.steps} steps")
        return 1 if new else 0


def load_known(pid):
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            # finding: property=<id> match=<json string> <what>
            m = re.match(r'finding: property=(\S+) match=("(?:[^"\\]|\\.)*") (.*)', line)
            if m and m[1] == pid:
                res.append(dict(match=json.loads(m[2]), what=m[3].strip()))
    return res


def run(cmd, timeout=600, env=None, check=True, cwd=None):
    p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, env=env or goenv(), cwd=cwd or SCRATCH)
    if check and p.returncode != 0:
        raise Broken(f"{' '.join(cmd)[:300]} failed rc={p.returncode}\n{p.stdout[-3000:]}{p.stderr[-6000:]}")
    return p
