"""Shared machinery of the checks: build a driver from /repo's working tree, run it, and have
TLC decide whether what it recorded is a behaviour of the specification."""
import json, os, re, shutil, signal, subprocess, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/tools")
import vbuild  # noqa: E402

SPEC = VERIF + "/spec"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 8


class Violation(Exception):
    pass


def known_findings():
    """known_findings.txt: 'known: property=<id> key=<key> <what fails>' | 'fixed: property=...'"""
    r = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m:
                r.append(m.groups())
    except OSError:
        pass
    return r


class Ctx:
    def __init__(self, pid, tier, seed, only=None):
        self.pid, self.tier, self.seed, self.only = pid, tier, seed, only
        self.t0 = time.time()
        self.dir = "%s/run/%s" % (vbuild.OUT, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.replays = "%s/replay/%s" % (vbuild.OUT, pid)
        shutil.rmtree(self.replays, ignore_errors=True)
        self.bad, self.known = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events_validated=0,
                        design_models=[], trace_specs=[], samples=[])
        self.level = "model_checking"
        self.n = 0
        self.cmd = {}

    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough() else quick

    def log(self, *a):
        print("[%6.1fs]" % (time.time() - self.t0), *a, flush=True)

    # ---- building -------------------------------------------------------------------------
    def build(self, name, group="all", srcs=None, flags=(), libs=()):
        with vbuild.Lock():
            e = vbuild.build_exe(name, srcs or ["%s/drivers/%s.cc" % (VERIF, name)], flags, libs, group)
        self.log("built", name)
        return e

    # ---- running the real code --------------------------------------------------------------
    def drive(self, exe, *args, timeout=170, tag=None, env=None):
        """Run a driver, which writes one JSON event per line to the file named by its first
        argument and the number of its last case on a last line {"end": n}.  A crash or a hang
        is a violation, if it happens again."""
        self.n += 1
        out = "%s/%s.ndjson" % (self.dir, tag or "t%d" % self.n)
        cmd = [exe, out, str(self.seed)] + [str(a) for a in args]
        for attempt in (0, 1):
            t = time.time()
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(out + ".err", "w"),
                                 start_new_session=True, env={**os.environ, **(env or {})})
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
            if rc == 0 and self._ended(out):
                self.log("ran", os.path.basename(exe), *args, "%.1fs" % (time.time() - t))
                self.cmd[out] = cmd
                return out
            self.log("driver", os.path.basename(exe), "ended with", rc)
        lines = open(out).read().split("\n") if os.path.exists(out) else []
        last = lines[-2:] if lines and not lines[-1] else lines[-1:]
        err = open(out + ".err", errors="replace").read()[-1500:]
        self.reject("driver-died", {"rc": str(rc), "last_events": [l[:2000] for l in last], "stderr": err}, cmd)
        self.cmd[out] = cmd
        self._drop_partial(out)
        return out

    def drives(self, exe, argss, **k):
        """Several runs at the same time."""
        with ThreadPoolExecutor(CORES) as ex:
            return list(ex.map(lambda ia: self.drive(exe, *ia[1], tag="%s-%d" % (os.path.basename(exe), ia[0]), **k), enumerate(argss)))

    def _ended(self, out):
        try:
            with open(out, "rb") as f:
                f.seek(max(0, os.path.getsize(out) - 200))
                return b'{"end"' in f.read()
        except OSError:
            return False

    def _drop_partial(self, out):
        ls = []
        if os.path.exists(out):
            for l in open(out, errors="replace"):
                try:
                    json.loads(l)
                    ls.append(l)
                except ValueError:
                    break
        open(out, "w").writelines(ls)

    # ---- reporting ---------------------------------------------------------------------------
    def reject(self, what, info, cmd=None):
        key = info.get("key") if isinstance(info, dict) else None
        for pid, k, text in known_findings():
            if pid == self.pid and k == key:
                if (k, text) not in self.known:
                    self.known.append((k, text))
                return
        os.makedirs(self.replays, exist_ok=True)
        p = "%s/%s-%d.json" % (self.replays, re.sub(r"\W+", "-", what)[:40], len(self.bad))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "cmd": cmd, "tier": self.tier, "seed": self.seed, "info": info}, f, indent=1)
        self.bad.append((what, p))
        if len(self.bad) <= 6:
            self.log("REJECTED", what, json.dumps(info)[:700])

    # ---- TLC ---------------------------------------------------------------------------------
    def _tlc(self, module, cfg, env, workers, timeout, tag, mem="3g", extra=()):
        md = "%s/meta-%s" % (self.dir, tag)
        cmd = ["java", "-Xmx" + mem, "-Xss64m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-cp", JAR, "tlc2.TLC", "-config", cfg, "-metadir", md, "-workers", str(workers), "-deadlock", "-nowarning"] + list(extra) + [module]
        r = subprocess.run(["timeout", "-s", "KILL", str(timeout)] + cmd, capture_output=True, text=True, cwd=SPEC, env={**os.environ, **env})
        shutil.rmtree(md, ignore_errors=True)
        o = r.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o)
        gen, dis = map(int, m[-1]) if m else (0, 0)
        return r.returncode, o + r.stderr, gen, dis

    def model(self, module, cfg=None, timeout=600, workers=CORES, mem="8g", expect_error=None):
        """Exhaustive model checking of a specification by itself (independent of /repo)."""
        cfg = cfg or module + ".cfg"
        rc, o, gen, dis = self._tlc(module + ".tla", cfg, {}, workers, timeout, "model-" + cfg, mem)
        good = rc == 0 and "No error has been found" in o
        if expect_error:
            good = rc != 0 and expect_error in o
        if not good:
            raise RuntimeError("specification %s/%s does not check:\n%s" % (module, cfg, o[-3000:]))
        self.cov["states"] += dis
        self.cov["transitions"] += gen
        self.cov["design_models"].append({"spec": module, "cfg": cfg, "states": dis, "generated": gen,
                                          **({"refuted_as_expected": expect_error} if expect_error else {})})
        self.log("model", module, cfg, dis, "states")

    def models(self, items):
        for it in items:
            self.model(*it) if isinstance(it, tuple) else self.model(it)

    def validate(self, module, traces, consts=None, shards=CORES, timeout=700, by="c", mem="3g", name=None):
        """Every line of the traces must be accepted by the trace specification; lines with the same
        case number (field c) are one behaviour and stay together."""
        traces = [traces] if isinstance(traces, str) else traces
        groups, src = [], []
        for t in traces:
            cur = None
            for l in open(t):
                if l.startswith('{"end"'):
                    continue
                m = re.match(r'\{"c":(\d+)', l)
                k = m.group(1) if m else None
                if k is None or k != cur:
                    groups.append([])
                    src.append(t)
                    cur = k
                groups[-1].append(l)
        if not groups:
            if not self.bad:
                raise RuntimeError("no events from " + str(traces))
            return
        order = sorted(range(len(groups)), key=lambda g: -sum(map(len, groups[g])))
        shards = max(1, min(shards, len(groups)))
        load, parts = [0] * shards, [[] for _ in range(shards)]
        for g in order:
            i = load.index(min(load))
            load[i] += sum(map(len, groups[g])) + 200
            parts[i].append(g)
        nm = name or module
        cfg = "%s/%s.cfg" % (self.dir, nm)
        with open(cfg, "w") as f:
            f.write("SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" + "".join("CONSTANT %s = %s\n" % kv for kv in (consts or {}).items()))
        jobs = []
        for i, p in enumerate(parts):
            fn = "%s/%s-%d.ndjson" % (self.dir, nm, i)
            idx = []
            with open(fn, "w") as f:
                for g in sorted(p):
                    for j, l in enumerate(groups[g]):
                        f.write(l)
                        idx.append((g, j))
            jobs.append((i, fn, idx))

        def one(job):
            i, fn, idx = job
            return job, self._tlc(module + ".tla", cfg, {"TRACE": fn}, 1, timeout, "%s-%d" % (nm, i), mem)

        def run_shard(job):
            """All events of a shard; an event the evaluator cannot digest (outside the vocabulary of the
            specification, e.g. a result of the wrong length) is rejected, and TLC goes on after its behaviour."""
            i, fn, idx = job
            found, st, tr, start = [], 0, 0, 0
            for attempt in range(8):
                job_, (rc, o, gen, dis) = one((i, fn, idx))
                st, tr = st + dis, tr + gen
                for ln, why in re.findall(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)>>\s*(?=\n|$)', o, re.S):
                    found.append((idx[int(ln) - 1], why.strip(), None))
                if rc == 0 and "Model checking completed. No error" in o:
                    if dis != len(idx) + 1:
                        raise RuntimeError("TLC read %d of %d events of %s\n%s" % (dis - 1, len(idx), fn, o[-2000:]))
                    break
                ls = re.findall(r"^(?:/\\ )?l = (\d+)", o, re.M)
                if not ls or rc in (137, -9) or "OutOfMemory" in o or "StackOverflow" in o:
                    raise RuntimeError("TLC on %s ended with %s\n%s" % (fn, rc, o[-3000:]))
                n = min(int(ls[-1]), len(idx))
                found.append((idx[n - 1], "event outside the specification", o[-1500:]))
                g = idx[n - 1][0]
                idx = [x for x in idx[n:] if x[0] != g]
                if not idx:
                    break
                fn = fn + "+"
                with open(fn, "w") as f:
                    f.writelines(groups[g_][j_] for g_, j_ in idx)
            return found, st, tr

        ev = sum(len(j[2]) for j in jobs)
        with ThreadPoolExecutor(CORES) as ex:
            for found, st, tr in ex.map(run_shard, jobs):
                for (g, j), why, o in found:
                    first = json.loads(groups[g][0])
                    e = json.loads(groups[g][j])
                    mk = re.search(r'key=([\w-]+)', why)
                    self.reject("%s: %s" % (nm, why.split(",")[0].strip('"<> ')),
                                {"key": mk.group(1) if mk else e.get("key") or first.get("key"), "why": why[:3000], "event": e, **({"tlc": o} if o else {}),
                                 "before": [json.loads(x) for x in groups[g][:j]][-60:], "trace_spec": module}, self.cmd.get(src[g]))
                self.cov["states"] += st
                self.cov["transitions"] += tr
        self.cov["events_validated"] += ev
        self.cov["traces_validated_against_impl"] += len(groups)
        self.cov["trace_specs"].append({"spec": module, "behaviours": len(groups), "events": ev})
        for g in (0, len(groups) // 2, len(groups) - 1)[: max(0, 6 - len(self.cov["samples"]))]:
            self.cov["samples"].append({"spec": module, "events": [json.loads(x[:1500]) if len(x) < 1500 else x[:1500] for x in groups[g][:3]]})
        self.log("validated", nm, len(groups), "behaviours", ev, "events,", len(self.bad), "rejected so far")

    def finish(self):
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        self.cov["rejected"] = len(self.bad)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump({"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
                       "wall_s": round(time.time() - self.t0, 1)}, f, indent=1)
        for k, text in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, text))
        for what, p in self.bad[:20]:
            print("VIOLATION property=%s replay=%s" % (self.pid, p))
        if not self.bad:
            shutil.rmtree(self.dir, ignore_errors=True)
        return 1 if self.bad else 0
