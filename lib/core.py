"""Plumbing shared by all checks: scratch space, builds of /repo, TLC, verdicts, evidence."""
import atexit, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLAJAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
VPPY = "/opt/vp/pyvenv/bin/python"
NCPU = os.cpu_count() or 4

SIZES = (640, 976, 1344)
LEN = {640: 16, 976: 24, 1344: 32}
# the configurations the repository's CI matrix builds: (generation of A, OpenSSL, optimisation level)
CONFIGS = [("AES128", "TRUE", o) for o in ("FAST", "FAST_GENERIC", "REFERENCE")] + \
          [("AES128", "FALSE", o) for o in ("FAST", "FAST_GENERIC", "REFERENCE")] + \
          [("SHAKE128", "TRUE", o) for o in ("FAST", "FAST_GENERIC", "REFERENCE")]
GEN = {"AES128": "AES", "SHAKE128": "SHAKE"}


class CheckError(Exception):
    """The check itself could not run; never a verdict about the code."""


def cname(cfg):
    return "_".join(cfg)


def slow(cfg):
    return cfg[0] == "AES128" and cfg[1] == "FALSE" and cfg[2] != "FAST"


class Check:
    def __init__(self, prop, level, tier=None):
        self.prop, self.level = prop, level
        self.tier = tier or os.environ.get("VERIF_TIER", "quick")
        self.quick = self.tier != "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
        self.cov = {"samples": []}
        self.assumptions = []
        self.violations = []
        self.lock = threading.Lock()
        self.classes = None
        self.side = None
        self.sides = []
        self.varied = None
        self.states = self.transitions = self.traces = 0
        atexit.register(self.cleanup)
        signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def path(self, *p):
        f = os.path.join(self.scratch, *p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        return f

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # -------------------------------------------------------------- verdicts
    def violation(self, what, files=()):
        """Record a violation with the files that replay it."""
        with self.lock:
            n = len(self.violations)
            d = os.path.join(VERIF, "replay", self.prop, "%d_%d" % (os.getpid(), n))
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, "what.txt"), "w") as f:
                f.write(what + "\n")
            for src in files:
                try:
                    shutil.copy(src, d)
                except OSError:
                    pass
            self.violations.append((what, d))
            self.log("violation:", what)
            return d

    def finish(self):
        for s in self.sides:
            s.result()
        cov = dict(self.cov)
        if self.level == "model_checking":
            cov.setdefault("states", self.states)
            cov.setdefault("transitions", self.transitions)
            cov.setdefault("traces_validated_against_impl", self.traces)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": "quick" if self.quick else "thorough", "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for what, d in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, d), flush=True)
        self.log("done: %d violation(s), %d states, %d traces" % (len(self.violations), self.states, self.traces))
        return 1 if self.violations else 0

    # -------------------------------------------------------------- processes
    def run(self, cmd, stdin=None, timeout=600, env=None, cwd=None, check=False):
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, input=stdin, capture_output=True, timeout=timeout, env=e, cwd=cwd or self.scratch)
        except subprocess.TimeoutExpired as x:
            class R: pass
            r = R(); r.returncode, r.stdout, r.stderr = "timeout", x.stdout or b"", x.stderr or b""
            p = r
        if check and p.returncode != 0:
            raise CheckError("%s failed (%s): %s" % (" ".join(map(str, cmd))[:200], p.returncode,
                             (p.stderr or p.stdout or b"")[-2000:].decode(errors="replace")))
        return p

    def pmap(self, fn, items, workers=NCPU):
        items = list(items)
        with cf.ThreadPoolExecutor(max_workers=max(1, min(workers, len(items) or 1))) as ex:
            return [f.result() for f in [ex.submit(fn, x) for x in items]]

    # -------------------------------------------------------------- builds of /repo
    def build(self, cfg, sizes=SIZES, cc="gcc", cflags=None, tag="", extra=()):
        """The repository's own Makefile, in a scratch directory. Returns the directory with frodoN/."""
        gen, ssl, opt = cfg
        d = os.path.join(self.scratch, "b_" + cname(cfg) + tag)
        os.makedirs(d)
        for x in ("src", "tests", "Makefile"):   # the Makefile builds in its current directory
            os.symlink(os.path.join(REPO, x), os.path.join(d, x))
        base = ["make", "-s", "CC=" + cc, "GENERATION_A=" + gen, "OPT_LEVEL=" + opt, "USE_OPENSSL=" + ssl] + list(extra)
        if cflags:
            base.append("EXTRA_CFLAGS=" + cflags)
        self.run(base + ["lib%d" % s for s in sizes], cwd=d, timeout=300, check=True)
        self.run(base + ["lib%d_for_KATs" % s for s in sizes], cwd=d, timeout=300, check=True)
        return d

    def link(self, bdir, size, src, out, cc="gcc", cflags="-O1 -w", lib="frodo_for_testing", libs="-lcrypto -lpthread"):
        f = os.path.join(bdir, out)
        self.run([cc] + cflags.split() + ["-DSIZE=%d" % size, '-DHDR="api_frodo%d.h"' % size, "-I" + os.path.join(REPO, "src"),
                  os.path.join(HARNESS, src), os.path.join(bdir, "frodo%d" % size, "lib%s.a" % lib)] + libs.split() + ["-o", f],
                 cwd=bdir, check=True)
        return f

    def drivers(self, configs=CONFIGS, sizes=SIZES, src="kemdrv.c", **kw):
        """{(cfg, size): driver binary}, built in parallel"""
        ds = dict(zip(configs, self.pmap(lambda c: self.build(c, sizes, **kw), configs)))
        keys = [(c, s) for c in configs for s in sizes]
        bins = self.pmap(lambda k: self.link(ds[k[0]], k[1], src, "drv%d" % k[1]), keys)
        self.log("built %d drivers" % len(bins))
        return dict(zip(keys, bins))

    def drive(self, binary, script, timeout=600, env=None):
        """Run a driver on a script; returns the trace text. A crash or a hang becomes an event of its own."""
        if isinstance(script, str):
            script = script.encode()
        cmd = [binary] if isinstance(binary, str) else list(binary)
        for k in range(6):
            p = self.run(cmd, stdin=script, timeout=timeout, env=env)
            out = p.stdout
            # a driver records its start before it calls the library; without that the environment is at fault
            if out.strip() or p.returncode in (0, "timeout") or "drv" not in os.path.basename(cmd[0]):
                break
        else:
            raise CheckError("driver does not start: %s: %s" % (cmd, p.stderr[-500:]))
        if p.returncode == 3:
            raise CheckError("driver rejected its script: " + str(binary))
        if p.returncode != 0:
            cut = out.rfind(b"\n") + 1
            out = out[:cut] + json.dumps({"e": "crash", "how": str(p.returncode), "err": p.stderr[-400:].decode(errors="replace")}).encode() + b"\n"
        return out

    # -------------------------------------------------------------- TLC
    def overrides(self):
        with self.lock:
            if self.classes is None:
                d = os.path.join(self.scratch, "classes")
                os.makedirs(d)
                self.run(["javac", "-nowarn", "-cp", TLAJAR, "-d", d, os.path.join(SPEC, "java", "FrodoOverrides.java")], check=True)
                self.classes = d
        return self.classes

    def tlc(self, module, cfg=None, consts=None, args=(), env=None, timeout=800, heap="3g", workers=1, simulate=None):
        """Run TLC; returns a dict with the output and the counts. Errors of TLC raise CheckError."""
        cls = self.overrides()
        name = "m%d_%d" % (threading.get_ident(), time.time_ns())
        w = os.path.join(self.scratch, "tlc", name)
        os.makedirs(w)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(w, f))
        text = open(os.path.join(SPEC, (cfg or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, text)
            if n != 1:
                raise CheckError("no constant %s in %s" % (k, cfg or module))
        open(os.path.join(w, "Run.cfg"), "w").write(text)
        cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=2",
               "-Djava.io.tmpdir=" + w, "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:FrodoOverrides",
               "-cp", cls + ":" + TLAJAR, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", os.path.join(w, "md"),
               "-workers", str(workers), "-config", "Run.cfg"] + list(args) + [module + ".tla"]
        p = self.run(cmd, cwd=w, env=env, timeout=timeout)
        out = p.stdout.decode(errors="replace")
        r = {"rc": p.returncode, "out": out, "cfg": text}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            r["generated"], r["distinct"] = int(m[-1][0]), int(m[-1][1])
            with self.lock:
                self.states += r["distinct"]
                self.transitions += max(0, r["generated"] - 1)
        shutil.rmtree(w, ignore_errors=True)
        if p.returncode == "timeout":
            raise CheckError("TLC timed out on " + module)
        return r

    def model(self, module, cfg=None, expect_actions=(), **kw):
        """Model-check a specification that has to hold by itself; a failure is an error of the check."""
        kw.setdefault("workers", 2)
        r = self.tlc(module, cfg, **kw)
        if r["rc"] != 0 or "No error has been found" not in r["out"]:
            raise CheckError("specification %s fails: %s" % (cfg or module, r["out"][-1500:]))
        return r

    def selfcheck(self):
        """accelerated operators against their definitions; runs beside the rest, joined by finish()"""
        if self.side is None:
            self.side = cf.ThreadPoolExecutor(max_workers=4)
            self.sides.append(self.side.submit(self.model, "SelfCheck", workers=1))

    def numbers(self, sizes=SIZES):
        """the scalar functions of the specification over their whole domains"""
        self.selfcheck()
        for n in sizes:
            self.sides.append(self.side.submit(self.model, "Numbers", consts={"SizesUsed": "{%d}" % n}, workers=1))
        self.cov["scalar_functions_exhausted_for"] = list(sizes)

    def toy(self):
        """the whole KEM with toy dimensions, explored; the border of the decoding interval has to be met on both sides"""
        self.selfcheck()
        def go(gen, consts):
            r = self.model("FrodoToy", consts=dict(consts, ToyGen='"%s"' % gen), workers=1, timeout=3000)
            m = re.search(r'<<"MET", <<(\d+), (\d+), (\d+), (\d+)>>>>', r["out"])
            if not m or min(map(int, m.groups())) == 0:
                raise CheckError("FrodoToy is vacuous: " + r["out"][-300:])
            with self.lock:
                self.cov.setdefault("toy_kem", {})[gen + str(len(consts))] = dict(zip(("accepted", "rejected", "honest_outside_radius", "at_an_end"), map(int, m.groups())))
        if self.quick:
            self.sides.append(self.side.submit(go, "SHAKE", {}))
        else:
            for c in ({"Keys": "256", "Messages": "0..255", "Bits": "0"}, {"Keys": "40", "Messages": "{0, 1, 27, 114, 141, 228, 255}", "Bits": "2"}):
                self.sides.append(self.side.submit(go, "SHAKE", c))

    def validate(self, tracefile, module="FrodoTrace", consts=None, **kw):
        """(accepted, events matched, events) for a recorded trace"""
        env = {"TRACE": tracefile}
        env.update(kw.pop("env", {}))
        r = self.tlc(module, consts=consts, env=env, **kw)
        m = re.search(r'<<"TRACE", "(ACCEPTED|REJECTED)", (\d+), (\d+)>>', r["out"])
        if not m or "TLC encountered" in r["out"] or r["rc"] not in (0,):
            raise CheckError("trace validation broke down: " + r["out"][-2500:])
        d = re.search(r'<<"REPEATS", <<(\d+), (\d+)>>>>', r["out"])
        if d:
            with self.lock:
                self.cov["calls_repeated_across_executions"] = self.cov.get("calls_repeated_across_executions", 0) + int(d.group(1))
        d = re.search(r'<<"VARIED", <<(\d+), (\d+), (\d+), (\d+)>>>>', r["out"])
        if d and m.group(1) == "ACCEPTED":
            x = [int(i) for i in d.groups()]
            with self.lock:
                self.varied = x if self.varied is None else [min(a, b) for a, b in zip(x, self.varied)]
        d = re.search(r'<<"FAULTS", <<(\d+), (\d+), (\d+)>>>>', r["out"])
        if d:
            with self.lock:
                x = self.cov.setdefault("faults_met", {"calls_without": 0, "calls_returning_despite": 0, "calls_stopping": 0})
                for k, y in zip(x, d.groups()): x[k] += int(y)
        d = re.search(r'<<"DECAPS", <<(\d+), (\d+)>>>>', r["out"])
        with self.lock:
            self.traces += 1
            if d:
                for k, x in zip(("decapsulations_accepting", "decapsulations_rejecting"), d.groups()):
                    self.cov[k] = self.cov.get(k, 0) + int(x)
        return m.group(1) == "ACCEPTED", int(m.group(2)), int(m.group(3))


def short(line, n=160):
    line = line.decode(errors="replace") if isinstance(line, bytes) else line
    line = re.sub(r'("[0-9a-f]{16}",){3,}', '.., ', line)
    return re.sub(r'"([0-9a-f]{40})[0-9a-f]+"', r'"\1.."', line)[:n * 4]


def main(fn, prop, level):
    chk = Check(prop, level, "thorough" if "--thorough" in sys.argv else None)
    try:
        fn(chk)
        rc = chk.finish()
    except CheckError as e:
        # what has been established stands; without a violation the run is an error
        print("ERROR:", e, file=sys.stderr, flush=True)
        if chk.violations:
            rc = chk.finish()
        else:
            rc = 2
    except Exception:
        import traceback
        traceback.print_exc()
        rc = chk.finish() if chk.violations else 2
    sys.stdout.flush()
    chk.cleanup()
    sys.exit(rc)
