"""Shared plumbing of the checks: seeds, scratch space, running the code under
test, evidence, known findings, violations and replays."""
import resource
import hashlib, json, os, random, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
SCRIPTS = os.path.join(REPO, "scripts")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
QUICK = TIER != "thorough"
NPROC = int(os.environ.get("VF_NPROC", str(min(8, os.cpu_count() or 4))))


def scratch_root():
    """A private scratch directory outside /repo and /verif."""
    base = os.environ.get("VF_SCRATCH") or "/dev/shm"
    try:
        st = os.statvfs(base)
        if not os.access(base, os.W_OK) or st.f_bavail * st.f_frsize < 2 << 30:
            base = "/tmp"
    except OSError:
        base = "/tmp"
    return tempfile.mkdtemp(prefix="vf_", dir=base)


def rmtree(path):
    path = os.path.realpath(path)
    assert os.path.basename(path).startswith("vf_"), path
    shutil.rmtree(path, ignore_errors=True)


def tool_env(hashseed="0", extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "VF_"))}
    env["PYTHONPATH"] = SCRIPTS + ":" + os.path.join(SCRIPTS, "parse_tools")
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["PYTHONHASHSEED"] = hashseed
    env["PYTHONWARNINGS"] = "ignore"
    if extra:
        env.update(extra)
    return env


class Proc:
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

    def text(self):
        return self.out + self.err


# a runaway tool or program must not fill the disk or the memory
FSIZE = 256 << 20
if resource.getrlimit(resource.RLIMIT_FSIZE)[0] in (-1, resource.RLIM_INFINITY) or resource.getrlimit(resource.RLIMIT_FSIZE)[0] > FSIZE:
    resource.setrlimit(resource.RLIMIT_FSIZE, (FSIZE, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))
TOOL_AS = 4 << 20       # kB of address space of a python tool


def _read(fd):
    """the text written to the file <fd> (the first and last part if there is much)"""
    n = os.lseek(fd, 0, os.SEEK_END)
    if n > 40 << 20:
        b = os.pread(fd, 20 << 20, 0) + b"\n...\n" + os.pread(fd, 20 << 20, n - (20 << 20))
    else:
        b, k = b"", 0
        while k < n:
            x = os.pread(fd, n - k, k)
            if not x:
                break
            b += x
            k += len(x)
    return b.decode(errors="replace").replace("\r\n", "\n").replace("\r", "\n")


def run(cmd, cwd, timeout=120, env=None, stdin=None):
    fo, fe = os.memfd_create("out"), os.memfd_create("err")
    try:
        p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                             stdout=fo, stderr=fe, start_new_session=True, text=True, errors="replace")
        late = False
        try:
            p.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            late = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.communicate()
        return Proc(-9 if late else p.returncode, _read(fo), _read(fe), late)
    finally:
        os.close(fo)
        os.close(fe)


def run_py(script_args, cwd, timeout=120, hashseed="0", extra_env=None):
    """Run one of the repository's python tools"""
    return run(["/bin/bash", "-c", 'ulimit -v %d; exec "$@"' % TOOL_AS, "sh", PYTHON] + script_args, cwd, timeout,
               tool_env(hashseed, extra_env))


def sub_seed(*parts):
    h = hashlib.sha256(("|".join(str(p) for p in parts)).encode()).digest()
    return int.from_bytes(h[:7], "big")


def rng(*parts):
    return random.Random(sub_seed(*parts))


class Violation(Exception):
    """An observed property violation. <key> identifies the mechanism."""
    def __init__(self, key, msg, data=None):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data


class Inconclusive(Exception):
    pass


# --------------------------------------------------------------------------
def load_findings():
    """known_findings.txt lines:
       KNOWN-FINDING: property=<id> key=<mechanism key> <description>
       fixed: property=<id> <commit> <what failed>"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                toks = line.split()
                prop = toks[1].split("=", 1)[1]
                key = toks[2].split("=", 1)[1]
                res.setdefault(prop, {})[key] = " ".join(toks[3:])
    return res


class Check:
    """One run of one property's check."""

    def __init__(self, prop, rule, level="exploration", assumptions=()):
        self.prop, self.rule, self.level = prop, rule, level
        self.assumptions = list(assumptions)
        self.t0 = time.time()
        self.evaluations = 0
        self.sigs = set()
        self.samples = []
        self.counts = {}
        self.violations = []          # (key, msg, replay)
        self.inconclusive = []
        self.known = load_findings().get(prop, {})
        self.known_seen = {}

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def case(self, sig=None, n=1):
        """One evaluated case; <sig> is its non-trivial signature or None"""
        self.evaluations += n
        if sig is not None:
            self.sigs.add(sig if isinstance(sig, str) else json.dumps(sig, sort_keys=True, default=str))

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, msg, replay_data=None):
        if key in self.known:
            self.known_seen.setdefault(key, msg)
            return
        if any(k == key for k, _, _ in self.violations) and len(self.violations) > 20:
            return
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        name = "%s-%s-%d.json" % (self.prop, hashlib.sha256((key + msg).encode()).hexdigest()[:10], SEED)
        path = os.path.join(rdir, name)
        with open(path, "w") as f:
            json.dump({"property": self.prop, "key": key, "message": msg, "seed": SEED, "tier": TIER,
                       "data": replay_data}, f, indent=1, default=str)
        self.violations.append((key, msg, path))

    def finish(self, min_evals=1, require=()):
        """Write the evidence and exit. <require>: counters that must be > 0
        for the run to be conclusive."""
        wall = time.time() - self.t0
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.sigs), rule=self.rule,
                   samples=self.samples or ["(none)"], observed=self.counts)
        if self.known_seen:
            cov["known_findings_seen"] = sorted(self.known_seen)
        if self.inconclusive:
            cov["inconclusive_cases"] = len(self.inconclusive)
        ev = dict(property=self.prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED,
                  level=self.level, coverage=cov, wall_s=round(wall, 2), violations=len(self.violations),
                  assumptions=self.assumptions)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for key, desc in sorted(self.known.items()):
            print("KNOWN-FINDING: property=%s key=%s %s" % (self.prop, key, desc))
        seen = set()
        for key, msg, path in self.violations:
            if key in seen:
                continue
            seen.add(key)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("   key=%s: %s" % (key, msg[:2000]))
        print("%s: %d cases, %d distinct, %d violations, %.1fs %s" % (
            self.prop, self.evaluations, len(self.sigs), len(self.violations), wall, self.counts))
        sys.stdout.flush()
        if self.violations:
            sys.exit(1)
        missing = [c for c in require if not self.counts.get(c)]
        if self.evaluations < min_evals or missing:
            print("INCONCLUSIVE: %d evaluations (need %d); monitors never reached: %s" % (
                self.evaluations, min_evals, missing))
            for m in self.inconclusive[:5]:
                print("   ", m[:1500])
            sys.exit(3)
        sys.exit(0)


def _call(args):
    fn, item = args
    try:
        return ("ok", item, fn(item))
    except Violation as v:
        return ("violation", item, (v.key, v.msg, v.data))
    except Exception:                                   # harness problem
        return ("error", item, traceback.format_exc())


def pmap(fn, items, budget_s=None, nproc=None):
    """Parallel map over processes; yields (status, item, result). Stops handing
    out items after <budget_s> seconds."""
    t0 = time.time()
    items = iter(items)
    n = nproc or NPROC
    with ProcessPoolExecutor(max_workers=n) as ex:
        pend = set()
        done = False
        while True:
            while not done and len(pend) < 2 * n:
                if budget_s and time.time() - t0 > budget_s:
                    done = True
                    break
                try:
                    it = next(items)
                except StopIteration:
                    done = True
                    break
                pend.add(ex.submit(_call, (fn, it)))
            if not pend:
                break
            for f in as_completed(list(pend)):
                pend.discard(f)
                yield f.result()
                break
