"""Runs harness cases in parallel, classifies what the monitors saw, matches known
findings, writes evidence and replay files.  Exit status: 0 held, 1 violation, 2 error."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor
from . import build as B

VERIF = B.VERIF
NPROC = int(os.environ.get("VP_JOBS", "8"))
LEAN = os.environ.get("VP_SCALE")            # development aid: scale the case counts

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=99:"
                       "detect_stack_use_after_return=0:strict_string_checks=0:max_allocation_size_mb=4096:"
                       "handle_abort=0:print_legend=0:malloc_context_size=12")
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=98"
ENV["LC_ALL"] = "C"
ENV["MALLOC_ARENA_MAX"] = "2"


def norm(s):
    return re.sub(r"\s+", " ", re.sub(r"0x[0-9a-f]+|\d+(\.\d+)?(e[-+]?\d+)?", "N", s)).strip()[:160]


def _frames(err):
    """function names of the first stack, innermost first, sanitizer runtime frames dropped"""
    fr = []
    for m in re.finditer(r"^\s*#(\d+) 0x[0-9a-f]+ in (\S+)(.*)$", err, re.M):
        if m.group(1) == "0" and fr:
            break
        f = m.group(2)
        if f.startswith("__interceptor") or f.startswith("__asan") or f.startswith("__ubsan") or "sanitizer" in m.group(3):
            continue
        if f in ("memcpy", "strlen", "free", "malloc", "calloc", "realloc", "memset", "strcpy", "printf_common"):
            continue
        fr.append(f)
    return fr


def classify(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        fr = _frames(err)
        return "asan:%s:%s" % (m.group(1), fr[0] if fr else "?")
    m = re.search(r"^(\S+?):\d+:\d+: runtime error: (.*)$", err, re.M)
    if m:
        fr = _frames(err[m.start():])
        return "ubsan:%s:%s" % (fr[0] if fr else os.path.basename(m.group(1)), norm(m.group(2)))
    m = re.search(r"^\S+: \S+?:\d+: (.*?): Assertion `(.*?)' failed", err, re.M)
    if m:
        fn = re.sub(r"\(.*", "", m.group(1)).split()[-1]
        return "assert:%s:%s" % (fn, norm(m.group(2)))
    if rc < 0:
        return "signal:%d" % (-rc)
    line = next((l for l in err.splitlines() if l.strip()), "")
    return "exit:%d:%s" % (rc, norm(line))


def leaks(err):
    """[(key, stack)] of the direct leaks LeakSanitizer reported"""
    out = {}
    for m in re.finditer(r"^(?:Direct|Indirect) leak of .*?allocated from:\n((?:\s+#\d+.*\n)+)", err, re.M):
        if m.group(0).startswith("Indirect"):
            continue
        lib = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S+)", m.group(1)) if f[1].startswith(B.REPO)]
        fr = _frames(m.group(1))
        key = "leak:" + (lib[0][0] if lib else (fr[0] if fr else "?"))
        out.setdefault(key, m.group(0)[:2500])
    return sorted(out.items()) or [("leak:?", err[:2500])]


class Known:
    """known_findings.jsonl: {"property","kind":"finding"|"fixed","match":regex over '<mode>/<key>|<detail>',"what":...}"""
    def __init__(self, prop):
        self.items = []
        p = os.path.join(VERIF, "known_findings.jsonl")
        if os.path.exists(p):
            for l in open(p):
                l = l.strip()
                if not l:
                    continue
                o = json.loads(l)
                if o["property"] == prop and o.get("kind") == "finding":
                    self.items.append((re.compile(o["match"]), o["what"]))

    def match(self, s):
        for r, w in self.items:
            if r.search(s):
                return w
        return None


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.known = Known(prop)
        self.toolenv = {}
        self.only = None        # regex: the kinds of violation that concern this property
        self.lock = threading.Lock()
        self.viol = []          # dicts
        self.knownhits = {}
        self.stats = {}
        self.fps = set()
        self.samples = []
        self.modes = {}
        self.inconcl = []
        self.errors = []
        self.t0 = time.time()
        base = os.path.join(B.BUILD, "run")
        os.makedirs(base, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=prop + "-", dir=base)

    # ---- one process -----------------------------------------------------------------
    def _proc(self, exe, mode, a, b, cpu, wall, tag, env=None, wrap=()):
        out = os.path.join(self.tmp, tag + ".out"); st = os.path.join(self.tmp, tag + ".st")
        scratch = os.path.join(self.tmp, tag + ".d"); os.makedirs(scratch, exist_ok=True)
        e = dict(ENV); e.update(self.toolenv); e.update(env or {}); e["VP_SCRATCH"] = scratch
        if "VP_LEAK" in e:
            e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1").replace("malloc_context_size=12", "malloc_context_size=20")
        errf = os.path.join(self.tmp, tag + ".err")
        to = False
        with open(errf, "wb") as ef:
            p = subprocess.Popen(list(wrap) + [exe, mode, "--seed", str(self.seed), "--start", str(a), "--end", str(b),
                                  "--out", out, "--status", st, "--cpu", str(cpu)],
                                 cwd=scratch, stdout=subprocess.DEVNULL, stderr=ef, env=e, stdin=subprocess.DEVNULL,
                                 start_new_session=True)
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                to = True
                os.killpg(p.pid, signal.SIGKILL); rc = p.wait()
        try:
            with open(errf, "rb") as f:
                err = f.read(200000).decode(errors="replace")
                sz = os.path.getsize(errf)
                if sz > 200000:
                    f.seek(max(200000, sz - 60000)); err += f.read().decode(errors="replace")
        except OSError:
            err = ""
        lines = []
        if os.path.exists(out):
            lines = open(out, errors="replace").read().splitlines()
        cur = None
        try:
            cur = int.from_bytes(open(st, "rb").read(8), "little", signed=True)
        except OSError:
            pass
        for f in (out, st, errf):
            try: os.remove(f)
            except OSError: pass
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, to, lines, cur, err

    def _absorb(self, mode, lines, ctx):
        done = False
        with self.lock:
            for l in lines:
                if l == "DONE":
                    done = True
                elif l.startswith("V "):
                    key, case, detail = (l[2:].split("|", 2) + ["", ""])[:3]
                    self._violation(mode, key, int(case), detail, ctx)
                elif l.startswith("S "):
                    k, v = l[2:].rsplit("|", 1)
                    if k.startswith("max:"):
                        self.stats[k] = max(self.stats.get(k, 0), int(v))
                    else:
                        self.stats[k] = self.stats.get(k, 0) + int(v)
                        if k == "cases":
                            self.modes[mode] = self.modes.get(mode, 0) + int(v)
                elif l.startswith("X "):
                    if len(self.samples) < 12 and sum(1 for s in self.samples if s.startswith(mode + ":")) < 2:
                        self.samples.append(mode + ": " + l[2:][:1200])
                elif l.startswith("D "):
                    self.fps.add(mode + l[2:])
        return done

    def _violation(self, mode, key, case, detail, ctx):
        if self.only and not self.only.match(key):
            self.stats["outside_this_property"] = self.stats.get("outside_this_property", 0) + 1
            return
        full = "%s/%s|%s" % (mode, key, detail)
        w = self.known.match(full)
        if w:
            self.knownhits[w] = self.knownhits.get(w, 0) + 1
            return
        self.viol.append(dict(mode=mode, key=key, case=case, detail=detail[:4000], **ctx))

    def run_range(self, harness, exe, mode, a, b, cpu, flav, env=None, wrap=()):
        ctx = dict(harness=harness, flavour=flav, seed=self.seed)
        crashes = 0
        start = a
        while a < b:
            if self.tier != "thorough":
                el = time.time() - self.t0
                if el > 600 or (self.viol and el > 200) or any(v["key"] == "hang" for v in self.viol):
                    with self.lock:
                        if not self.viol:
                            self.inconcl.append("%s: out of time, cases [%d,%d) were not run" % (mode, a, b))
                    return
            tag = "%s-%d-%d" % (mode, start, a)
            rc, to, lines, cur, err = self._proc(exe, mode, a, b, cpu, max(120, 40 * cpu), tag, env, wrap)
            c2 = dict(ctx, start=a)
            lk = [l for l in lines if l.startswith("L ")]
            if lk:      # the memory-balance monitor stopped the batch
                self._absorb(mode, lines, c2)
                la, lb = map(int, lk[0][2:].split())
                with self.lock:
                    for k, d in leaks(err):
                        self._violation(mode, k, lb - 1, d, dict(ctx, start=la, env=env))
                crashes += 1
                if crashes > 20:
                    return
                a = lb
                continue
            rs = [l for l in lines if l.startswith("R ")]
            if rs:
                self._absorb(mode, lines, c2)
                crashes += 1
                if crashes > 20:
                    return
                a = int(rs[0][2:])
                continue
            if self._absorb(mode, lines, c2):
                return
            if cur is None or cur < a or cur >= b:
                with self.lock:
                    self.errors.append("harness %s %s [%d,%d) ended rc=%s without a case: %s" % (harness, mode, a, b, rc, err[-800:]))
                return
            crashes += 1
            timed = to or rc == 97 or any(l.startswith("T ") for l in lines)
            if timed or rc == -9:
                # run the case alone, with much more time, before believing it
                big = cpu * 8
                rc2, to2, l2, cur2, err2 = self._proc(exe, mode, cur, cur + 1, big, big * 6 + 60, tag + "x", env, wrap)
                if self._absorb(mode, l2, dict(ctx, start=cur)):
                    with self.lock:
                        self.stats["slow_cases"] = self.stats.get("slow_cases", 0) + 1
                elif to2 or rc2 == 97:
                    with self.lock:
                        self._violation(mode, "hang", cur, "no result after %d s of CPU time" % big, dict(ctx, start=cur))
                elif rc2 == -9:
                    with self.lock:
                        self.inconcl.append("%s case %d was killed (memory)" % (mode, cur))
                else:
                    with self.lock:
                        self._violation(mode, classify(rc2, err2), cur, (err2[:1500]+" ... "+err2[-800:]), dict(ctx, start=cur))
            else:
                with self.lock:
                    self._violation(mode, classify(rc, err), cur, (err[:1500]+" ... "+err[-800:]), c2)
            with self.lock:
                self.stats["crashed_cases"] = self.stats.get("crashed_cases", 0) + 1
                if len({(v["mode"], v["key"]) for v in self.viol}) > 30 or len(self.viol) > 200:
                    return
            if crashes > 400:
                with self.lock:
                    self.inconcl.append("%s [%d,%d): too many crashes, stopped at %d" % (mode, start, b, cur))
                return
            a = cur + 1

    def run_all(self, specs):
        """specs: list of dicts harness, mode, n, cpu, flav, defs, env, wrap"""
        jobs = []
        exes = {}
        keys = sorted({(s["harness"], s.get("flav", "asan")) for s in specs})
        flavs = sorted({k[1] for k in keys})
        with ThreadPoolExecutor(8) as ex:
            hs = [ex.submit(B.compile_harness, *k) for k in keys]
            for fl in flavs:
                B.build_lib(fl)
            for h in hs:
                h.result()
        for k in keys:
            exes[k] = B.build_harness(*k)
            self.toolenv.update(B.tool_env(*k))
        for s in specs:
            n = s["n"]
            if LEAN:
                n = max(1, int(n * float(LEAN)))
            per = max(1, min(s.get("chunk", 10**9), -(-n // (NPROC * 3))))
            for a in range(0, n, per):
                jobs.append((s, a, min(n, a + per)))
        # interleave so that long modes do not all run last
        def go(j):
            s, a, b = j
            fl = s.get("flav", "asan")
            self.run_range(s["harness"], exes[(s["harness"], fl)], s["mode"], a, b, s.get("cpu", 20), fl, s.get("env"), s.get("wrap", ()))
        with ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(go, jobs))

    def finish(self, meta):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=meta["level"],
                  coverage=dict(evaluations=self.stats.get("cases", 0), distinct_nontrivial=len(self.fps),
                                rule=meta["rule"], samples=self.samples[:12] or ["(none)"],
                                oracle_checks=self.stats.get("checks", 0), cases_per_workload=self.modes,
                                observed={k: v for k, v in sorted(self.stats.items()) if k not in ("cases", "checks")},
                                inconclusive=self.inconcl[:20]),
                  assumptions=meta.get("assumptions", []), wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
        shutil.rmtree(self.tmp, ignore_errors=True)
        for w, n in sorted(self.knownhits.items()):
            print("KNOWN-FINDING: property=%s %s (seen %d times)" % (self.prop, w, n))
        print("%s tier=%s seed=%d evaluations=%d distinct=%d checks=%d wall=%.1fs" % (self.prop, self.tier, self.seed,
              ev["coverage"]["evaluations"], len(self.fps), ev["coverage"]["oracle_checks"], ev["wall_s"]))
        for e in self.inconcl[:10]:
            print("inconclusive: " + e)
        if self.viol:
            rd = os.path.join(VERIF, "evidence", "replay"); os.makedirs(rd, exist_ok=True)
            seen = set()
            for v in self.viol:
                k = (v["mode"], v["key"])
                if k in seen or len(seen) >= 12:
                    continue
                seen.add(k)
                rp = os.path.join(rd, "%s-%d.json" % (self.prop, len(seen)))
                with open(rp, "w") as f:
                    json.dump(dict(v, property=self.prop, how="python3 run.py --replay " + rp), f, indent=1)
                print("  %s/%s case %d: %s" % (v["mode"], v["key"], v["case"], v["detail"][:400].replace("\n", " ")))
                print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        if self.errors:
            for e in self.errors[:5]:
                print("ERROR: " + e)
            return 2
        if self.stats.get("cases", 0) == 0:
            print("ERROR: nothing was observed")
            return 2
        return 0


def replay(path):
    v = json.load(open(path))
    exe = B.build_harness(v["harness"], v["flavour"])
    r = Run(v["property"], "quick", v["seed"])
    r.toolenv.update(B.tool_env(v["harness"], v["flavour"]))
    r.known.items = []
    for a in (v["case"], v["start"]):
        r.viol = []
        r.run_range(v["harness"], exe, v["mode"], a, v["case"] + 1, 60, v["flavour"], v.get("env"))
        if r.viol:
            break
    shutil.rmtree(r.tmp, ignore_errors=True)
    for w in r.viol:
        print(w["mode"], w["key"], w["case"]); print(w["detail"][:3000])
    if r.viol:
        print("VIOLATION property=%s replay=%s" % (v["property"], path)); return 1
    print("not reproduced"); return 0
