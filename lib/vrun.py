"""Machinery shared by all checks: build drivers from /repo's working tree, let TLC check models and
generate plans, run the drivers, and let TLC decide whether the recorded sessions are behaviours of
the trace specifications."""
import concurrent.futures as cf
import glob, hashlib, json, os, random, re, resource, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
INCS = ["-I" + REPO + "/include", "-I" + REPO, "-I" + REPO + "/include/array",
        "-I" + REPO + "/examples/resample", "-I" + HARN]


BUILDS = threading.Semaphore(8)


class CheckError(Exception):
    """The machinery itself failed: no verdict (exit 2)."""


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.replay = replay


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = 0
        self.transitions = 0
        self.sessions = 0
        self.events = 0
        self.models = []
        self.traces = []
        self.samples = []
        self.selftests = 0
        self.known = []
        self.assumptions = []
        self.lock = threading.Lock()
        self.nfile = 0
        self.unlimited = set()

    # ------------------------------------------------------------------ small things
    def log(self, msg):
        print("[%s %6.1fs] %s" % (self.pid, time.time() - self.t0, msg), flush=True)

    def path(self, name):
        with self.lock:
            self.nfile += 1
            return os.path.join(self.scratch, "%03d-%s" % (self.nfile, name))

    def par(self, *thunks, workers=8):
        """Run the thunks in parallel, return their results in order."""
        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            fs = [ex.submit(t) for t in thunks]
            return [f.result() for f in fs]

    # ------------------------------------------------------------------ building
    def build(self, src, defs=(), cxx="clang++", flags=("-O0",), std="c++14", name=None):
        out = self.path((name or os.path.splitext(src)[0]) + ".bin")
        cmd = [cxx, "-std=" + std, "-w", *flags, *["-D" + d for d in defs], *INCS,
               os.path.join(HARN, src), "-o", out, "-lpthread"]
        with BUILDS:
            t = time.time()
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1 and re.search(r"/include/array/\w+\.h:\d+:\d+: (fatal )?error:|: error: (?!unable|cannot|linker)", p.stdout) \
                and not re.search("No space left|out of memory|Killed|internal compiler error|PLEASE submit", p.stdout):
            # The drivers use the documented interface only, and compile on the tree they were written for.
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            name = os.path.join(d, "%s-build-%s.json" % (self.pid, hashlib.sha1(" ".join(cmd[:-3]).encode()).hexdigest()[:10]))
            with open(name, "w") as f:
                json.dump({"property": self.pid, "what": "a program that uses the documented interface does not compile",
                           "command": cmd, "compiler": p.stdout[:20000]}, f, indent=1)
            self.log("\n".join([x for x in p.stdout.splitlines() if "error:" in x][:5]))
            raise Violation("%s (%s) does not compile" % (src, " ".join(defs)), name)
        if p.returncode != 0:
            raise CheckError("build of %s failed:\n%s" % (src, p.stdout[-3000:]))
        if any("sanitize" in f for f in flags) or src == "wide.cpp":
            self.unlimited.add(out)
        self.log("built %s %s (%.1fs)" % (src, " ".join(defs), time.time() - t))
        return out

    # ------------------------------------------------------------------ running a driver
    def drive(self, binary, timeout=None, **args):
        """Run a driver; returns a Trace (file and how to make it again)."""
        timeout = timeout or (120 if self.quick else 400)
        out = self.path(os.path.basename(binary).split("-", 1)[1].replace(".bin", "") + ".ndjson")
        self._drive(binary, out, timeout, args)
        return Trace(self, out, binary, timeout, args)

    def _drive(self, binary, out, timeout, args):
        cmd = [binary, "out=" + out, "timeout=%d" % timeout] + ["%s=%s" % kv for kv in sorted(args.items())]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:handle_segv=0",
                   UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
        # A run-away driver (the code under test may loop) must not eat the machine's memory. Sanitizers and the
        # drivers of huge sparse blocks need address space, not memory.
        pre = None if binary in self.unlimited else \
            (lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30)))
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           timeout=timeout + 60, env=env, preexec_fn=pre)
        if p.returncode not in (0, 98):
            if p.returncode == 3:
                raise CheckError("driver refused its input: %s\n%s" % (" ".join(cmd), p.stdout[-2000:]))
            # Died without being able to say so: say it for the driver.
            text = open(out).read() if os.path.exists(out) else ""
            if text and not text.endswith("\n"):
                text = text[:text.rfind("\n") + 1]
            with open(out, "w") as f:
                f.write(text)
                f.write(json.dumps({"s": 0, "k": "x", "ev": [
                    {"op": "died", "why": "exit %d" % p.returncode, "sig": 0, "in": p.stdout[-300:]}]}) + "\n")
        self._mend(out, p)
        return p

    def _mend(self, out, p):
        """A driver whose memory was overwritten may write lines that are no sessions: such a line is a death."""
        if not os.path.exists(out):
            return
        bad, lines = False, []
        with open(out, errors="replace") as f:
            for ln in f:
                try:
                    if not isinstance(json.loads(ln)["ev"], list):
                        raise ValueError
                except (ValueError, KeyError, TypeError):
                    bad = True
                    ln = json.dumps({"s": 0, "k": "x", "ev": [
                        {"op": "died", "why": "wrote no session, exit %d" % p.returncode, "sig": 0,
                         "in": p.stdout[-300:]}]}) + "\n"
                lines.append(ln)
        if bad:
            with open(out, "w") as f:
                f.writelines(lines)

    # ------------------------------------------------------------------ TLC
    def tlc(self, module, cfg_text, env=None, workers=8, timeout=800, extra=(), javaopts="", again=True):
        cfg = self.path(module + ".cfg")
        with open(cfg, "w") as f:
            f.write(cfg_text)
        meta = self.path("meta")
        cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg,
               *extra, module + ".tla"]
        e = dict(os.environ)
        jo = "-Xss200m -Djava.io.tmpdir=" + self.scratch + " " + javaopts   # deep recursion in the operators
        e["JAVA_TOOL_OPTIONS"] = (e.get("JAVA_TOOL_OPTIONS", "") + " " + jo).strip()
        if env:
            e.update(env)
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               errors="replace", timeout=timeout, env=e)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s" % module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        r = TlcResult(p.returncode, p.stdout)
        if not r.ok and again and re.search("StackOverflowError|OutOfMemoryError", r.out):
            return self.tlc(module, cfg_text, env, 2, timeout, extra, javaopts, again=False)   # not an answer
        return r

    def model(self, module, cfg_file=None, cfg_text=None, expect_states=1, timeout=800, extra=(), workers=8, env=None):
        """Exhaustive model checking of a specification: it must hold."""
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, cfg_file or module + ".cfg")).read()
        t = time.time()
        r = self.tlc(module, cfg_text, timeout=timeout, extra=extra, workers=workers, env=env)
        if not r.ok:
            raise CheckError("model %s does not hold (a mistake in the specification):\n%s" % (module, r.tail()))
        if r.distinct < expect_states:
            raise CheckError("model %s: only %d states" % (module, r.distinct))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"module": module, "config": cfg_file or "", "distinct_states": r.distinct,
                                "states_generated": r.generated, "depth": r.depth, "wall_s": round(time.time() - t, 1)})
        self.log("model %s: %d distinct states, depth %d (%.1fs)" % (cfg_file or module, r.distinct, r.depth, time.time() - t))
        return r

    def refutes(self, module, cfg_file, timeout=300, workers=2):
        """A deliberately wrong variant of a specification: TLC must find it wrong."""
        r = self.tlc(module, open(os.path.join(SPEC, cfg_file)).read(), timeout=timeout, workers=workers)
        if r.ok or "is violated" not in r.out:
            raise CheckError("the wrong variant %s was not refuted:\n%s" % (cfg_file, r.tail()))
        with self.lock:
            self.models.append({"module": module, "config": cfg_file, "refuted": True})
        self.log("model %s: refuted, as it must be" % cfg_file)

    def gen(self, module, cfg_file=None, cfg_text=None, timeout=600, extra=(), limit=None, prefix="PLAN ", workers=8,
            check=True, env=None):
        """TLC enumerates behaviours or cases of a specification; the specification prints each as a
        line `PLAN <json>`. Returns the path of a plan file, one case per line."""
        if cfg_text is None:
            cfg_text = open(os.path.join(SPEC, cfg_file or module + ".cfg")).read()
        t = time.time()
        r = self.tlc(module, cfg_text, timeout=timeout, extra=extra, workers=workers, env=env)
        lines = []
        for ln in r.out.splitlines():
            ln = ln.strip()
            if ln.startswith('"' + prefix) and ln.endswith('"'):
                try:
                    lines.append(json.loads(ln)[len(prefix):])
                except ValueError:
                    lines.append(ln[1 + len(prefix):-1].replace('\\"', '"'))
        if check and not r.ok:
            raise CheckError("generation with %s failed:\n%s" % (module, r.tail()))
        if not lines:
            raise CheckError("generation with %s produced nothing:\n%s" % (module, r.tail()))
        lines = sorted(set(lines))
        total = len(lines)
        if limit is not None and total > limit:
            lines = random.Random(self.seed).sample(lines, limit)
            lines.sort()
        out = self.path(module + ".plan")
        with open(out, "w") as f:
            f.write("\n".join(lines) + "\n")
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.models.append({"module": module, "config": cfg_file or "", "distinct_states": r.distinct,
                                "states_generated": r.generated, "plans": total, "plans_used": len(lines),
                                "wall_s": round(time.time() - t, 1)})
        self.log("generated %d plans (%d used) with %s (%.1fs)" % (total, len(lines), cfg_file or module, time.time() - t))
        return out

    TRACE_CFG = "INIT Init\nNEXT Next\nCHECK_DEADLOCK TRUE\n"
    SELF_CFG = "INIT Init\nNEXT Consume\nINVARIANT NeverDone\nCHECK_DEADLOCK FALSE\n"

    def _validate(self, spec, path, cfg_extra="", timeout=800):
        return self.tlc(spec, self.TRACE_CFG + cfg_extra, env={"TRACE": path}, timeout=timeout)

    def trace(self, spec, traces, cfg_extra="", mutate=None, timeout=800):
        """Validate recorded sessions against a trace specification. `traces` is a list of Trace.
        `mutate` maps an operation to the observed fields a self test may corrupt."""
        t = time.time()
        merged = self.path(spec + ".all.ndjson")
        origin = []
        with open(merged, "w") as f:
            for tr in traces:
                with open(tr.path) as g:
                    for k, line in enumerate(g):
                        f.write(line)
                        origin.append((tr, k))
        if not origin:
            raise CheckError("no sessions for %s" % spec)
        nev = 0
        with open(merged) as f:
            lines = f.readlines()
        lens = []
        for ln in lines:
            n = len(json.loads(ln)["ev"])
            lens.append(n)
            nev += n
        r = self._validate(spec, merged, cfg_extra, timeout)
        if not r.ok:
            self._rejected(spec, r, merged, lines, origin, cfg_extra, timeout)
        want = sum(n + 1 for n in lens)
        if r.distinct != want:
            raise CheckError("trace validation of %s visited %d states, expected %d" % (spec, r.distinct, want))
        with self.lock:
            self.states += r.distinct
            self.transitions += r.generated
            self.sessions += len(lens)
            self.events += nev
            self.traces.append({"spec": spec, "sessions": len(lens), "events": nev, "wall_s": round(time.time() - t, 1)})
            if len(self.samples) < 4:
                rnd = random.Random(self.seed * 31 + len(self.samples))
                self.samples.append({"spec": spec, "session": json.loads(_short(rnd.choice(lines)))})
        self.log("%s accepts %d sessions, %d events (%.1fs)" % (spec, len(lens), nev, time.time() - t))
        if mutate:
            self.selftest(spec, lines, mutate, cfg_extra)

    def selftest(self, spec, lines, mutate, cfg_extra="", want=48):
        """Corrupt one observation in each of some accepted sessions: all must be rejected."""
        rnd = random.Random(self.seed * 977 + 5)
        cand = {}
        for i, ln in enumerate(lines):
            s = json.loads(ln)
            for j, e in enumerate(s["ev"]):
                if e.get("size") == 0 or e.get("nocorrupt"):
                    continue   # nothing is claimed about some fields of empty arrays
                for f in mutate.get(e["op"], ()):   # "f+": what follows shows it, keep the whole session
                    if f.rstrip("+").split(".")[0] in e:
                        cand.setdefault((e["op"], f), []).append((i, j))
        muts = []
        for (op, f), places in sorted(cand.items()):
            for (i, j) in rnd.sample(places, min(len(places), max(1, want // max(1, len(cand))))):
                s = json.loads(lines[i])
                m = _corrupt_field(s["ev"][j], f.rstrip("+"), rnd)
                if m is None:
                    continue
                s["ev"][j] = m
                if not f.endswith("+"):
                    s["ev"] = s["ev"][: j + 1]
                muts.append((json.dumps(s), "%s.%s" % (op, f)))
        if not muts:
            return
        p = self.path(spec + ".mut.ndjson")
        with open(p, "w") as fo:
            fo.write("\n".join(m for m, _ in muts) + "\n")
        r = self.tlc(spec, self.SELF_CFG + cfg_extra, env={"TRACE": p})
        if not r.ok:
            m = re.findall(r"/\\ sid = (\d+)", r.out)
            which = muts[int(m[-1]) - 1] if m else ("?", "?")
            raise CheckError("self test: %s accepted a corrupted observation (%s)\n%s\n%s" %
                             (spec, which[1], which[0][:1500], r.tail(12)))
        with self.lock:
            self.selftests += len(muts)
        self.log("%s rejects all %d corrupted sessions" % (spec, len(muts)))

    def _rejected(self, spec, r, merged, lines, origin, cfg_extra, timeout):
        if not r.deadlock:
            raise CheckError("trace validation with %s failed:\n%s" % (spec, r.tail(60)))
        sid, l = r.last_position()
        tr, k = origin[sid - 1]
        sess = json.loads(lines[sid - 1])
        # Repeat the whole thing once: only a rejection that repeats is reported.
        again = tr.again()
        with open(again) as f:
            again_lines = f.readlines()
        one = self.path("one.ndjson")
        with open(one, "w") as f:
            f.write(again_lines[k] if k < len(again_lines) else again_lines[-1])
        r2 = self._validate(spec, one, cfg_extra, timeout)
        if r2.ok:
            r2 = self._validate(spec, again, cfg_extra, timeout)
        if not r2.deadlock:
            raise CheckError("a rejection by %s did not repeat:\n%s\n%s" % (spec, _short(json.dumps(sess)), r2.tail()))
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        name = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(lines[sid - 1].encode()).hexdigest()[:10]))
        ev = sess["ev"][l - 1] if l - 1 < len(sess["ev"]) else None
        with open(name, "w") as f:
            json.dump({"property": self.pid, "specification": spec,
                       "what": "no action of the specification explains event %d of this session" % l,
                       "rejected_event": ev, "position": l, "session": sess,
                       "driver": {"args": tr.args, "binary": os.path.basename(tr.binary)},
                       "seed": self.seed, "tlc": r.tail(60)}, f, indent=1)
        self.log("rejected event: " + _short(json.dumps(ev)))
        raise Violation("%s rejects event %d (%s)" % (spec, l, ev.get("op") if ev else "?"), name)

    def trace_known(self, spec, trace, op, entry, what, cfg_extra=""):
        """Validate sessions of a driver that reproduces a recorded finding: each either conforms, or is
        rejected exactly at the event `op` that shows the finding. Anything else is a violation."""
        listed = [ln for ln in open(os.path.join(VERIF, "known_findings.txt"))
                  if ln.startswith("known: property=%s %s " % (self.pid, entry))]
        with open(trace.path) as f:
            lines = f.readlines()
        for k, ln in enumerate(lines):
            one = self.path("probe.ndjson")
            with open(one, "w") as f:
                f.write(ln)
            r = self._validate(spec, one, cfg_extra)
            if r.ok:
                continue
            sess = json.loads(ln)
            if r.deadlock and listed:
                _, l = r.last_position()
                if sess["ev"][l - 1]["op"] == op:
                    if what not in self.known:
                        self.known.append(what)
                    continue
            self._rejected(spec, r, one, [ln], [(trace, k)], cfg_extra, 300)
        self.log("%d probes of the known finding %s" % (len(lines), entry))

    # ------------------------------------------------------------------ evidence
    def evidence(self, violations=0):
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.sessions,
                           "events_validated": self.events,
                           "corrupted_sessions_rejected": self.selftests,
                           "models": self.models, "trace_validations": self.traces,
                           "samples": self.samples,
                           "explanation": "states/transitions: TLC totals over the models, generators and trace "
                                          "validations of this run; sessions were recorded from the real code "
                                          "built from " + REPO},
              "assumptions": self.assumptions + KNOWN_ASSUMPTIONS,
              "wall_s": round(time.time() - self.t0, 1), "violations": violations}
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)


KNOWN_ASSUMPTIONS = [
    "TLC, the JSON reader and the C++ compilers are trusted",
    "conformance is decided for the recorded executions; the models are exhaustive only within their constants",
]


class Trace:
    def __init__(self, chk, path, binary, timeout, args):
        self.chk, self.path, self.binary, self.timeout, self.args = chk, path, binary, timeout, args

    def again(self):
        out = self.chk.path("again.ndjson")
        self.chk._drive(self.binary, out, self.timeout, self.args)
        return out


class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        # A trace specification which cannot be evaluated for an event does not explain it either.
        self.deadlock = "Error: Deadlock reached." in out or (
            "Error: TLC threw an unexpected exception" in out and "The behavior up to this point is" in out
            and not re.search("StackOverflowError|OutOfMemoryError", out))
        self.ok = "Model checking completed. No error has been found." in out and rc == 0
        if not self.ok and rc == 0 and "Finished in" in out and "Error" not in out:
            self.ok = True   # simulation mode
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        self.generated, self.distinct = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        if not m:
            m = re.findall(r"The number of states generated: ([\d,]+)", out)
            if m:
                self.generated = self.distinct = int(m[-1].replace(",", ""))
        m = re.findall(r"depth of the complete state graph search is (\d+)", out)
        self.depth = int(m[-1]) if m else 0

    def last_position(self):
        s = re.findall(r"/\\ sid = (\d+)", self.out)
        l = re.findall(r"/\\ l = (\d+)", self.out)
        return int(s[-1]), int(l[-1])

    def tail(self, n=40):
        ls = [x for x in self.out.splitlines() if not re.match(r"(Parsing|Semantic|Linting|Computed)", x)]
        return "\n".join(ls[-n:])[-6000:]


def _short(line, n=4000):
    if len(line) <= n:
        return line
    try:
        s = json.loads(line)
        while len(json.dumps(s)) > n and len(s.get("ev", [])) > 1:
            s["ev"] = s["ev"][: max(1, len(s["ev"]) // 2)]
        t = json.dumps(s)
        if len(t) <= 4 * n:
            return t
        return json.dumps({"k": s.get("k"), "ev": "(%d characters)" % len(t)})
    except ValueError:
        return line[:n]


def _corrupt_field(e, f, rnd):
    """The event with one part of field f changed; "list.field" means that field of some record of a list."""
    if "." not in f:
        m = _corrupt(e[f], rnd)
        return None if m is None else dict(e, **{f: m})
    lst, sub = f.split(".")
    idx = [i for i, x in enumerate(e[lst]) if sub in x]
    rnd.shuffle(idx)
    for i in idx:
        m = _corrupt(e[lst][i][sub], rnd)
        if m is not None:
            w = list(e[lst])
            w[i] = dict(w[i], **{sub: m})
            return dict(e, **{lst: w})
    return None


def _corrupt(v, rnd):
    if isinstance(v, bool):
        return not v
    if isinstance(v, int):
        return v + rnd.choice([1, -1, 7])
    if isinstance(v, dict):
        keys = [k for k in sorted(v) if k != "data" and not (k == "b" and v.get("null"))]
        rnd.shuffle(keys)
        for k in keys:
            m = _corrupt(v[k], rnd)
            if m is not None:
                return dict(v, **{k: m})
        return None
    if isinstance(v, list):
        if not v:
            return None
        idx = list(range(len(v)))
        rnd.shuffle(idx)
        for i in idx:
            m = _corrupt(v[i], rnd)
            if m is not None:
                w = list(v)
                w[i] = m
                return w
        return None
    return None


def main(table):
    if len(sys.argv) < 2 or sys.argv[1] not in table:
        print("usage: check <property> [quick|thorough]")
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier)
    try:
        table[pid](c)
        c.evidence(0)
        for k in c.known:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        c.log("held on everything explored: %d states, %d sessions, %d events" % (c.states, c.sessions, c.events))
        return 0
    except Violation as v:
        c.evidence(1)
        print("VIOLATION property=%s replay=%s" % (pid, v.replay))
        print("  " + str(v))
        return 1
    except CheckError as e:
        print("ERROR in the check of %s: %s" % (pid, e))
        return 2
    except Exception:   # not an answer
        traceback.print_exc()
        print("ERROR in the check of %s" % pid)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            c.cleanup()
