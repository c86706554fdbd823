"""
Shared machinery of the model checks.

A check module (mc/checks/<ID>.py) defines
    LEVEL       (optional, default "model_checking")
    BOUNDS      text: alphabet and bounds, recorded in the evidence
    ASSUMPTIONS list of texts
    shards(tier)           -> list of picklable shard descriptors; their union is the whole bounded space
    run(ctx, shard)        -> explores the shard exhaustively, comparing the real code with the reference model
    replay(ctx, data)      -> (optional) re-runs one recorded violation

The runner explores all the shards (forked workers, dynamic assignment), merges the counts, filters the
violations by known_findings.txt, writes the evidence and prints VIOLATION / KNOWN-FINDING lines.
Nothing here samples and nothing depends on VERIF_SEED: every run explores the same complete bounded space.
"""
import atexit, collections, fnmatch, hashlib, importlib, json, logging, multiprocessing, os, pickle, shutil
import signal, sys, tempfile, time, traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("BOS_REPO", "/repo")).resolve()
DATA = REPO / "BibleOrgSys" / "DataFiles"
MAX_VIOLATIONS_PER_SHARD = 12
CASE_SECONDS = 60
FAST = os.environ.get("MC_FAST")      # development (mutate.py): stop at the first violation, write no evidence

_real_stat = os.stat
SCRATCH = None
OUT = None


class CaseTimeout(BaseException):
    """The code under test gave no answer on one case (BaseException: 'except Exception' must not eat it)."""


def _alarm(signum, frame):
    raise CaseTimeout()


class _NewestStat:
    """An os.stat result which looks newer than anything else (see bootstrap)."""
    def __init__(self, st): self._st = st
    def __getattr__(self, name):
        if name in ("st_mtime", "st_ctime"): return 4.0e9
        return getattr(self._st, name)
    def __getitem__(self, ix): return self._st[ix]


def _stat_shim(path, *args, **kwargs):
    st = _real_stat(path, *args, **kwargs)
    try:
        p = os.fspath(path)
        if isinstance(p, str) and p.endswith(".xml") and "DataFiles" in p and os.path.abspath(p).startswith(str(DATA)):
            return _NewestStat(st)
    except TypeError:
        pass
    return st


def bootstrap():
    """Scratch HOME and cwd, silenced code under test, /repo first on the path, XML tables loaded rather than pickles."""
    global SCRATCH, OUT
    shm = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) and "TMPDIR" not in os.environ else None     # many small files: in memory when possible
    SCRATCH = Path(tempfile.mkdtemp(prefix="bosmc-", dir=shm))
    owner = os.getpid()
    def clean():
        if os.getpid() == owner:
            os.chdir("/")
            shutil.rmtree(SCRATCH, ignore_errors=True)
    atexit.register(clean)
    (SCRATCH / "home").mkdir()
    (SCRATCH / "work").mkdir()
    os.environ["HOME"] = str(SCRATCH / "home")
    os.environ["TMPDIR"] = str(SCRATCH / "work")
    tempfile.tempdir = str(SCRATCH / "work")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    os.chdir(SCRATCH / "work")
    sys.path.insert(0, str(REPO))
    OUT = os.fdopen(os.dup(1), "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(devnull, 1)
    if not os.environ.get("MC_STDERR"):
        err = os.dup(2)
        os.dup2(devnull, 2)
        sys.stderr = os.fdopen(err, "w", buffering=1)
    os.getlogin = lambda: "root"      # SwordModules asks for it at import; there is no login terminal here
    os.stat = _stat_shim
    logging.disable(logging.CRITICAL)
    signal.signal(signal.SIGALRM, _alarm)


def bos():
    """Import and preload BibleOrgSys (once)."""
    from BibleOrgSys import BibleOrgSysGlobals as G
    G.setVerbosity("Silent") if hasattr(G, "setVerbosity") else None
    G.maxProcesses = 1
    G.preloadCommonData()
    return G


def h64(obj):
    return hashlib.blake2b(repr(obj).encode("utf-8", "surrogatepass"), digest_size=8).digest()


class Ctx:
    """What one shard covered."""
    def __init__(self, tier, pid):
        self.tier, self.pid = tier, pid
        self.quick = tier == "quick"
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.nontrivial = set()
        self.violations = []
        self.known_hits = {}
        self.samples = []
        self.counters = collections.Counter()
        self.known = load_known().get(pid, [])
        self._dir = None
        self.crash = None

    # ---- coverage
    def state(self, *key): self.states.add(h64(key))
    def step(self, n=1): self.transitions += n
    def trace(self, n=1): self.traces += n
    def count(self, name, n=1): self.counters[name] += n
    def sample(self, obj):
        if len(self.samples) < 3: self.samples.append(obj)

    # ---- scratch
    def scratch(self, name="d"):
        if self._dir is None:
            self._dir = Path(tempfile.mkdtemp(prefix="w-", dir=SCRATCH / "work"))
        d = self._dir / name
        if d.exists(): shutil.rmtree(d)
        d.mkdir(parents=True)
        return d
    def cleanup(self):
        if self._dir is not None:
            os.chdir(SCRATCH / "work")
            shutil.rmtree(self._dir, ignore_errors=True)

    # ---- verdicts
    def violation(self, key, what, data=None):
        key = str(key)
        for pattern, text in self.known:
            if key == pattern:
                self.known_hits[pattern] = text
                return
        self.count("violations_seen")
        if len(self.violations) < MAX_VIOLATIONS_PER_SHARD:
            self.violations.append(dict(key=key, what=str(what)[:4000], data=data))

    def expect(self, cond, key, what, data=None):
        if not cond: self.violation(key, what() if callable(what) else what, data)
        return bool(cond)

    def equal(self, got, want, key, what, data=None):
        if got != want:
            self.violation(key, f"{what}: got {short(got)} but the model says {short(want)}", data)
            return False
        return True

    def case(self, key, data=None, seconds=None):
        return _Case(self, key, data, seconds or CASE_SECONDS)

    @property
    def full(self):
        return len(self.violations) >= MAX_VIOLATIONS_PER_SHARD


# errors of a check which tries to read an answer that has another form or other parts than it should have
UNREADABLE = (AttributeError, LookupError, TypeError, ValueError, StopIteration, AssertionError, ArithmeticError)

class _Case:
    """One execution: a crash or hang of the code under test inside it is a violation of the property."""
    def __init__(self, ctx, key, data, seconds):
        self.ctx, self.key, self.data, self.seconds = ctx, key, data, seconds
    def __enter__(self):
        signal.setitimer(signal.ITIMER_REAL, self.seconds)
        self.ctx.trace()
        return self
    def __exit__(self, et, ev, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        if et is None: return False
        if et is CaseTimeout:
            self.ctx.violation(self.key, f"no answer within {self.seconds} s", self.data)
            return True
        if issubclass(et, (KeyboardInterrupt, MemoryError)): return False
        frames = traceback.extract_tb(tb)
        if any(f.filename.startswith(str(REPO)) for f in frames):
            last = [f for f in frames if f.filename.startswith(str(REPO))][-1]
            self.ctx.violation(self.key, f"raised {et.__name__}: {ev} at {os.path.basename(last.filename)}:{last.name}", self.data)
            return True
        if issubclass(et, UNREADABLE):
            self.ctx.violation(self.key, f"what the code gave could not be read: {et.__name__}: {ev} at {os.path.basename(frames[-1].filename)}:{frames[-1].name}", self.data)
            return True
        return False


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + f"…({len(s)} chars)"


def load_known():
    """known_findings.txt: 'known: property=<id> key=<exact key> :: <what fails>' and 'fixed: property=<id> <commit> <what>'"""
    result = collections.defaultdict(list)
    f = VERIF / "known_findings.txt"
    if f.exists():
        for line in f.read_text(encoding="utf-8").splitlines():
            if line.startswith("known: property="):
                head, _, what = line[len("known: "):].partition(" :: ")
                pid, _, key = head[len("property="):].partition(" key=")
                result[pid.strip()].append((key.strip(), what.strip()))
    return result


def _worker(mod, pid, tier, shards, counter, outdir, wid):
    n = 0
    while True:
        with counter.get_lock():
            ix = counter.value
            counter.value += 1
        if ix >= len(shards) or FAST and os.path.exists(os.path.join(outdir, "stop")): break
        ctx = Ctx(tier, pid)
        t0 = time.time()
        try:
            mod.run(ctx, shards[ix])
        except CaseTimeout:
            ctx.crash = f"shard {shards[ix]!r}: timeout outside a case"
        except BaseException as e:
            frames = traceback.extract_tb(e.__traceback__)
            inrepo = [f for f in frames if f.filename.startswith(str(REPO))]
            if isinstance(e, (Exception, SystemExit)) and inrepo and not isinstance(e, MemoryError):
                ctx.violation(f"crash:{shards[ix]!r}", f"raised {type(e).__name__}: {e} at {os.path.basename(inrepo[-1].filename)}:{inrepo[-1].name}\n" + traceback.format_exc()[-1500:])
            elif isinstance(e, UNREADABLE):
                ctx.violation(f"crash:{shards[ix]!r}", f"what the code gave could not be read: {type(e).__name__}: {e}\n" + traceback.format_exc()[-1500:])
            else:
                ctx.crash = f"shard {shards[ix]!r}: " + traceback.format_exc()
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.cleanup()
        ctx.count("shards")
        ctx.wall = time.time() - t0
        ctx.known = None
        if FAST and (ctx.violations or ctx.crash): open(os.path.join(outdir, "stop"), "w").close()
        with open(os.path.join(outdir, f"{ix}.pkl"), "wb") as f: pickle.dump(ctx, f)
        n += 1


def main(argv):
    pid = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bootstrap()
    sys.path.insert(0, str(VERIF / "mc"))
    mod = importlib.import_module("checks." + pid)
    try:
        if hasattr(mod, "setup"): mod.setup(tier)
        shards = mod.shards(tier)
    except Exception as e:
        if not any(f.filename.startswith(str(REPO)) for f in traceback.extract_tb(e.__traceback__)): raise
        rp = VERIF / "evidence" / "replay" / f"{pid}-0.json"
        rp.parent.mkdir(parents=True, exist_ok=True)
        rp.write_text(json.dumps(dict(key="preparation", what=traceback.format_exc(), data=None, shard=None)), encoding="utf-8")
        print(f"  preparation: raised {type(e).__name__}: {e}", f"VIOLATION property={pid} replay=evidence/replay/{pid}-0.json", sep="\n", file=OUT)
        return 1
    if len(argv) > 3 and argv[3] == "--replay":
        ctx = Ctx(tier, pid)
        data = json.loads(Path(argv[4]).read_text(encoding="utf-8"))
        ctx.known = []
        mod.replay(ctx, data["data"]) if hasattr(mod, "replay") else mod.run(ctx, tuplify(data["shard"]))
        for v in ctx.violations: print(v["key"], v["what"], file=OUT)
        return 1 if ctx.violations else 0
    if len(argv) > 4 and argv[3] == "--only":
        shards = [s for s in shards if fnmatch.fnmatch(repr(s), argv[4])]
    outdir = tempfile.mkdtemp(dir=SCRATCH, prefix="out-")
    nproc = min(int(os.environ.get("MC_PROCS", os.cpu_count() or 4)), max(1, len(shards)))
    counter = multiprocessing.Value("i", 0)
    mp = multiprocessing.get_context("fork")
    procs = [mp.Process(target=_worker, args=(mod, pid, tier, shards, counter, outdir, w)) for w in range(nproc)]
    for p in procs: p.start()
    for p in procs: p.join()
    total = Ctx(tier, pid)
    crash, walls = None, []
    for ix, shard in enumerate(shards):
        path = os.path.join(outdir, f"{ix}.pkl")
        if not os.path.exists(path):
            crash = crash or f"shard {shard!r}: worker died"
            continue
        with open(path, "rb") as f: ctx = pickle.load(f)
        total.states |= ctx.states
        total.nontrivial |= ctx.nontrivial
        total.transitions += ctx.transitions
        total.traces += ctx.traces
        total.counters += ctx.counters
        if len(total.samples) < 6: total.samples += ctx.samples[:2]
        for v in ctx.violations: v["shard"] = shard
        total.violations += ctx.violations
        total.known_hits.update(ctx.known_hits)
        crash = crash or ctx.crash
        walls.append((round(ctx.wall, 2), repr(shard)[:60]))
    if FAST:
        print(*(v["key"][:100] + " " + v["what"][:200] for v in total.violations[:2]), crash and crash[-300:] if not total.violations else "", file=OUT)
        return 1 if total.violations or os.path.exists(os.path.join(outdir, "stop")) else 0
    if hasattr(mod, "finish"): mod.finish(total)
    if crash:
        print("HARNESS ERROR", crash, file=sys.stderr)
        if not total.violations: return 2
    level = getattr(mod, "LEVEL", "model_checking")
    coverage = dict(
        states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.traces,
        evaluations=total.traces, distinct_nontrivial=len(total.nontrivial) or len(total.states),
        rule=getattr(mod, "RULE", "a case is one complete execution of the real code compared with the model; distinct non-trivial = distinct model states reached"),
        bounds=mod.BOUNDS, exhaustive=True, samples=total.samples or ["(none)"], counters=dict(total.counters),
    )
    if level == "model_checking":
        coverage.pop("evaluations"); coverage.pop("distinct_nontrivial"); coverage.pop("rule")
    elif level == "fault_enumeration":
        coverage.pop("traces_validated_against_impl")
    evidence = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
                    assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2),
                    violations=len(total.violations))
    (VERIF / "evidence").mkdir(exist_ok=True)
    (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(evidence, ensure_ascii=False, indent=1, default=str), encoding="utf-8")
    if os.environ.get("MC_TIMES"):
        for w in sorted(walls, reverse=True)[:15]: print(w, file=OUT)
    print(f"{pid} {tier}: states={len(total.states)} transitions={total.transitions} traces={total.traces} "
          f"violations={len(total.violations)} wall={time.time()-t0:.1f}s {dict(total.counters)}", file=OUT)
    for key, text in sorted(total.known_hits.items()):
        print(f"KNOWN-FINDING: property={pid} {text}", file=OUT)
    if total.violations:
        rdir = VERIF / "evidence" / "replay"
        rdir.mkdir(exist_ok=True)
        for n, v in enumerate(total.violations[:20]):
            rp = rdir / f"{pid}-{n}.json"
            rp.write_text(json.dumps(v, ensure_ascii=False, indent=1, default=str), encoding="utf-8")
            if n < int(os.environ.get("MC_SHOW", "5")): print(f"  {v['key']}: {v['what']}", file=OUT)
        print(f"VIOLATION property={pid} replay=evidence/replay/{pid}-0.json", file=OUT)
        return 1
    return 0


def tuplify(x):
    return tuple(tuplify(y) for y in x) if isinstance(x, list) else x


if __name__ == "__main__":
    rc = main(sys.argv)
    if OUT: OUT.flush()
    sys.exit(rc)
