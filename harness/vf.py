"""Framework of the checks: runs TLC, records events of the real code, validates them, writes evidence.

A check is checks/<id>.py with `main(c)`; `c` is a Check.  What a driver does:
  c.mc(...)        model-check a specification (its own invariants) with TLC
  c.gen(...)       let TLC enumerate inputs / histories of the specification (replayed into the code)
  c.ev(...)        record an event of the real code
  c.validate(...)  let TLC decide every recorded event against the trace specification
Exit codes: 0 held, 1 violated (VIOLATION line), 2 machinery failure.
"""
import json, os, random, re, shutil, signal, subprocess, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
OUT = os.path.join(ROOT, "out")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)


class Machinery(Exception):
    pass


class Hang(BaseException):
    """raised inside a call of the code under test that does not end in time"""


def _alarm(*_):
    raise Hang()


def run_tlc(module, cfg=None, env=None, workers=1, timeout=600, extra=(), heap="2g"):
    meta = tempfile.mkdtemp(prefix="tlc", dir=OUT)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ["java", "-Djava.io.tmpdir=" + meta, "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-Xmx" + heap, "-Xss16m",
           "-XX:TieredStopAtLevel=4", "-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE",
           "-workers", str(workers), "-deadlock", "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True, errors="replace")
        out, rc = r.stdout, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b"").decode("utf8", "replace") if isinstance(x.stdout, bytes) else (x.stdout or ""), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return rc, out, (int(m.group(1)), int(m.group(2))) if m else (0, 0)


_hung = [0.]  # seconds spent on calls that did not end


def call(fn, *a, secs=10, **k):
    """Run code under test: ("ok", value) | ("err", exception) | ("hang", None)."""
    if _hung[0] > 60:  # the verdict is settled; what remains is not worth the full patience
        secs = min(secs, .2)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, secs)
    try:
        return "ok", fn(*a, **k)
    except Hang:
        _hung[0] += secs
        return "hang", None
    except Machinery:
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as x:  # whatever the code under test raises is an observation
        return "err", x
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


_kept = {}


def kept(rng, key, make):
    """an object made for this key before, or a new one: objects of the code under test are used again and again"""
    if rng.random() < .4:
        return make()
    key = repr(key)
    if key not in _kept:
        _kept[key] = make()
    return _kept[key]


def outcome(st, val):
    """string form of an outcome for the trace"""
    return st if st != "err" else "err:" + type(val).__name__


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.samples, self.bad, self.notes, self.models = [], [], [], []
        self.validated = self.histories = self.generated = 0
        self.clauses = {}
        os.makedirs(OUT, exist_ok=True)
        self.scratch = tempfile.mkdtemp(prefix=pid + "-", dir=OUT)
        self.events = []
        self.known = [k for k in json.load(open(os.path.join(ROOT, "known_findings.json")))["findings"]
                      if k["property"] == pid and k.get("status") == "open"]
        self.known_hit = set()

    def n(self, quick, thorough=None):
        return (thorough if thorough is not None else quick * 10) if self.thorough else quick

    # -- specification side -------------------------------------------------
    def mc(self, module, cfg=None, workers=NCPU, timeout=800, env=None, cover=()):
        rc, out, (gen, dist) = run_tlc(module, cfg, env=env, workers=workers, timeout=timeout, heap="6g")
        if rc != 0:
            raise Machinery("model checking %s (%s) failed, rc=%s\n%s" % (module, cfg, rc, out[-4000:]))
        if dist == 0:
            raise Machinery("%s explored no state\n%s" % (module, out[-2000:]))
        self.states += dist
        self.transitions += gen
        self.models.append("%s/%s: %d distinct states, %d transitions" % (module, cfg or "", dist, gen))
        return out

    def gen(self, module, cfg=None, workers=1, timeout=800, env=None, limit=None):
        """model-check and collect everything the spec emits with PrintT("@@" \\o ToJson(x))"""
        out = self.mc(module, cfg, workers=workers, timeout=timeout, env=env)
        res = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                res.append(json.loads(json.loads(line)[2:]))
            elif line.startswith("@@"):
                res.append(json.loads(line[2:]))
        if not res:
            raise Machinery("%s/%s generated nothing\n%s" % (module, cfg, out[-1500:]))
        self.generated += len(res)
        if limit and len(res) > limit:
            res = self.rng.sample(res, limit)
        return res

    # -- implementation side ------------------------------------------------
    def ev(self, **k):
        self.events.append(k)

    def validate(self, module, cfg=None, events=None, reset_field="new", shards=None, timeout=800, repro=None):
        """Decide recorded events with TLC.  Events with a true `reset_field` start a new history, and
        only there may the trace be cut into shards."""
        evs = self.events if events is None else events
        if events is None:
            self.events = []
        if not evs:
            raise Machinery("no events recorded for " + module)
        starts = [i for i, e in enumerate(evs) if e.get(reset_field, True)]
        if starts[0] != 0:
            raise Machinery("trace does not start with a new history")
        ns = shards or max(1, min(NCPU, len(evs) // 150))
        cuts = [0]
        for k in range(1, ns):
            tgt = k * len(evs) // ns
            j = next((s for s in starts if s >= tgt), len(evs))
            if j > cuts[-1] and j < len(evs):
                cuts.append(j)
        cuts.append(len(evs))
        jobs = []
        for a, b in zip(cuts, cuts[1:]):
            fd, path = tempfile.mkstemp(suffix=".ndjson", dir=self.scratch)
            with os.fdopen(fd, "w") as f:
                for e in evs[a:b]:
                    f.write(json.dumps(e, allow_nan=False) + "\n")
            jobs.append((a, b, path))

        def one(job):
            a, b, path = job
            rc, out, (gen, dist) = run_tlc(module, cfg, env={"VF_TRACE": path, "VF_LEN": b - a}, timeout=timeout)
            bad = []
            for m in re.finditer(r'^<<"BAD", (\d+), (.*?)>>$', out, re.M | re.S):
                bad.append((a + int(m.group(1)) - 1, sorted(re.findall(r'"([^"]*)"', m.group(2)))))
            for m in re.finditer(r'^<<"COVER", (.*)>>$', out, re.M):
                for c in re.findall(r'"([^"]*)"', m.group(1)):
                    self.clauses[c] = self.clauses.get(c, 0) + 1
            if rc != 0 and re.search(r"Attempted to|evaluating|Overflow", out) and 0 < dist <= b - a:
                # the event lies outside the domain of the specification (e.g. a value of another type)
                bad.append((a + dist - 1, ["outside-the-domain-of-the-specification"]))
                self.notes.append(out[-1500:])
            elif rc != 0 or dist != b - a + 1:
                raise Machinery("trace validation %s failed rc=%s (%d states for %d events)\n%s"
                                % (module, rc, dist, b - a, out[-3500:]))
            return bad, gen, dist

        with ThreadPoolExecutor(NCPU) as ex:
            for (bad, gen, dist) in ex.map(one, jobs):
                self.transitions += gen
                self.states += dist
                for i, clauses in bad:
                    st = max(s for s in starts if s <= i)
                    self.bad.append((module, clauses, evs[st:i + 1][-60:]))
        self.validated += len(evs)
        self.histories += len(starts)
        rs = random.Random(self.seed)
        for _ in range(min(3, len(evs))):
            self.samples.append({"spec": module, "event": evs[rs.randrange(len(evs))]})

    # -- verdict ------------------------------------------------------------
    def match_known(self, clauses, hist):
        tag = hist[-1].get("kf")
        for k in self.known:
            if tag == k["id"] and set(clauses) <= set(k["clauses"]):
                return k
        return None

    def finish(self):
        new = []
        for module, clauses, hist in self.bad:
            k = self.match_known(clauses, hist)
            if k:
                self.known_hit.add(k["id"])
            else:
                new.append((module, clauses, hist))
        for k in self.known:
            if k["id"] in self.known_hit:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if self.validated == 0:
            raise Machinery("nothing validated")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.histories, "events_validated": self.validated,
               "inputs_generated_by_spec": self.generated, "models": self.models,
               "clauses": self.clauses, "violating_events": len(self.bad), "known_findings_hit": sorted(self.known_hit),
               "notes": self.notes, "samples": self.samples[:8]}
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            path = os.path.join(OUT, "%s-%d.replay.json" % (self.pid, os.getpid()))
            with open(path, "w") as f:
                json.dump([{"spec": m, "failing_clauses": c, "history": h} for m, c, h in new[:20]], f, indent=1)
            seen = set()
            for m, c, h in new:
                if tuple(c) not in seen:
                    seen.add(tuple(c))
                    print("# %s: clauses %s at %s" % (m, c, json.dumps(h[-1])[:700]))
            print("# %d violating events" % len(new))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            return 1
        print("OK property=%s states=%d transitions=%d events=%d histories=%d wall=%.1fs"
              % (self.pid, self.states, self.transitions, self.validated, self.histories, time.time() - self.t0))
        return 0
