#!/usr/bin/env python3
"""check.py <property> : decides one property of properties.jsonl on the working tree of /repo.

exit 0: held on everything explored; exit 1 and a line VIOLATION property=<id> replay=<path>: broken;
exit 2: the check itself failed.
check.py <property> --replay <path>: validates again the recorded trace of a replay file against the specification.
"""
import concurrent.futures as cf
import json, os, random, re, shutil, signal, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "bin"))
HARNESS = os.path.join(ROOT, "harness")
SPEC = os.path.join(ROOT, "spec")
VH = os.path.join(HARNESS, "target", "debug", "vh")
T0 = time.time()


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.work = os.path.join(ROOT, "out", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replaydir = os.path.join(ROOT, "out", "replay")
        os.makedirs(self.replaydir, exist_ok=True)
        for f in os.listdir(self.replaydir):
            if f.startswith(prop + "-"):
                os.remove(os.path.join(self.replaydir, f))
        self.lock = threading.Lock()
        self.procs = threading.Semaphore(8)
        self.tlcs = threading.Semaphore(3)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = []
        self.errors = []
        self.thorough = self.tier == "thorough"

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def count(self, key, n):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def violation(self, what, replay):
        """replay: dict written to the replay file"""
        with self.lock:
            n = len(self.violations)
            path = os.path.join(self.replaydir, "%s-%d.json" % (self.prop, n))
            replay = dict(replay)
            replay["property"] = self.prop
            replay["what"] = what
            replay["seed"] = self.seed
            replay["tier"] = self.tier
            with open(path, "w") as f:
                json.dump(replay, f)
            self.violations.append((what, path))

    # ------------------------------------------------------------------ harness
    def env(self):
        e = dict(os.environ)
        e.update({"HOME": e.get("HOME", "/root"), "RUST_BACKTRACE": "0",
                  "VH_SCRATCH": os.path.join(self.work, "scratch")})
        e.pop("RUST_LOG", None)
        return e

    def build(self):
        p = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cargo build --offline"], cwd=HARNESS,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=850)
        if p.returncode != 0:
            raise ToolError("the harness does not build:\n" + p.stdout[-4000:])
        os.makedirs(os.path.join(self.work, "scratch"), exist_ok=True)

    def vh(self, tag, args, shards=8, timeout=500, out=True, seeds=True):
        """runs `vh args` in parallel with different seeds; returns (stdout lines, trace file)"""
        files, outs, lines = [], [], []

        def one(i):
            f = os.path.join(self.work, "%s.%d.ndjson" % (tag, i))
            cmd = [VH] + [str(a) for a in args]
            if seeds:
                cmd += ["--seed", str(self.seed * 1009 + i * 31 + 7)]
            if out:
                cmd += ["--out", f]
            with self.procs:
                with open(os.path.join(self.work, "%s.%d.log" % (tag, i)), "w+") as log:
                    p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT, env=self.env(),
                                         cwd=self.work, start_new_session=True)
                    try:
                        rc = p.wait(timeout=timeout)
                    except subprocess.TimeoutExpired:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        rc = "timeout"
                    log.seek(0)
                    text = log.read()
            return f, cmd, rc, text

        with cf.ThreadPoolExecutor(shards) as ex:
            res = list(ex.map(one, range(shards)))
        merged = os.path.join(self.work, tag + ".ndjson")
        n = 0
        with open(merged, "wb") as m:
            for f, cmd, rc, text in res:
                lines += text.splitlines()
                if rc == 2:
                    raise ToolError("harness: %s\n%s" % (" ".join(cmd), text[-2000:]))
                if rc != 0:
                    self.violation("the code under test ended the process or did not terminate (%s)" % rc,
                                   {"command": " ".join(cmd), "output": text[-3000:]})
                if out and os.path.exists(f):
                    data = open(f, "rb").read()
                    os.remove(f)
                    # an aborted process may leave an incomplete last line
                    cut = data.rfind(b"\n") + 1
                    m.write(data[:cut])
                    n += data[:cut].count(b"\n")
        for l in lines:
            w = l.split()
            for a, b in zip(w[0::2], w[1::2]):
                if re.fullmatch(r"\d+", b) and re.fullmatch(r"[a-z_]+", a):
                    self.count(a, int(b))
        return lines, (merged if n > 0 else None)

    # ------------------------------------------------------------------ TLC
    def tlc(self, tag, module, cfg, env=None, timeout=700, workers="4", heap="3g"):
        d = os.path.join(self.work, "tlc-" + tag)
        os.makedirs(d)
        c = os.path.join(d, module + ".cfg")
        with open(c, "w") as f:
            f.write(cfg)
        e = self.env()
        e["JAVA_TOOL_OPTIONS"] = "-Xmx%s -Xss64m" % heap
        e.update(env or {})
        out = os.path.join(d, "out.txt")
        cmd = ["tlc", "-noGenerateSpecTE", "-workers", workers, "-metadir", os.path.join(d, "md"), "-config", c,
               os.path.join(SPEC, module + ".tla")]
        with self.tlcs:
            with open(out, "w") as f:
                p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=d, start_new_session=True)
                try:
                    rc = p.wait(timeout=timeout if self.thorough else max(20, min(timeout, 820 - (time.time() - T0))))
                except subprocess.TimeoutExpired:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    raise ToolError("TLC did not end in %d s: %s" % (timeout, tag))
        shutil.rmtree(os.path.join(d, "md"), ignore_errors=True)
        text = open(out, errors="replace").read()
        m = re.findall(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct", text)
        gen = dist = 0
        if m:
            gen, dist = (int(x.replace(",", "")) for x in m[-1])
        with self.lock:
            self.states += dist
            self.transitions += max(0, gen)
        return {"rc": rc, "text": text, "gen": gen, "distinct": dist, "out": out}

    def model(self, tag, module, cfg, expect=None, **kw):
        """a design model; expect: text that must appear (a defect restored on purpose), else no error"""
        r = self.tlc("m-" + tag, module, cfg, **kw)
        with self.lock:
            self.extra.setdefault("models", {})[tag] = {"distinct_states": r["distinct"], "states_generated": r["gen"],
                                                        "expected": expect or "no error"}
        if expect:
            if expect not in r["text"]:
                raise ToolError("the model %s does not show the defect it should (%s): %s" % (tag, expect, r["out"]))
        elif "No error has been found" not in r["text"]:
            raise ToolError("the model %s has an error: %s\n%s" % (tag, r["out"], r["text"][-1500:]))
        return r

    def traces_ok(self, tag, module, tracefile, prop=True, consts="", sample=True, timeout=700, workers="6"):
        """validates recorded traces against the specification"""
        if tracefile is None:
            return
        lines = [l for l in open(tracefile, "rb").read().split(b"\n") if l]
        with self.lock:
            self.traces += len(lines)
        if sample and lines:
            t = json.loads(min(lines[:40], key=len) if len(lines) > 1 else lines[0])
            with self.lock:
                if len(self.samples) < 6:
                    self.samples.append({"stage": tag, "trace": shorten(t)})
        cfg = ('CONSTANT PROP = "%s"\n' % self.prop if prop else "") + consts + \
            "\nSPECIFICATION Spec\nINVARIANT Conforms\nALIAS Shown\nPOSTCONDITION AllRead\nCHECK_DEADLOCK FALSE\n"
        # TLC holds the traces in memory: files of a bounded size
        parts, size = [[]], 0
        for l in lines:
            if parts[-1] and size + len(l) > 12_000_000:
                parts.append([])
                size = 0
            parts[-1].append(l)
            size += len(l)
        with cf.ThreadPoolExecutor(3) as ex:
            list(ex.map(lambda x: self.part_ok("%s%s" % (tag, "-%d" % x[0] if len(parts) > 1 else ""), module, cfg, x[1],
                                               prop, consts, timeout, workers), enumerate(parts)))

    def part_ok(self, tag, module, cfg, lines, prop, consts, timeout, workers):
        bad = set()
        for rounds in range(3):
            cur = [l for j, l in enumerate(lines) if j not in bad]
            idx = [j for j in range(len(lines)) if j not in bad]
            if not cur or (rounds > 0 and time.time() - T0 > 300 and not self.thorough):
                break
            f = os.path.join(self.work, "%s.%d.in.ndjson" % (tag, rounds))
            with open(f, "wb") as h:
                h.write(b"\n".join(cur) + b"\n")
            r = self.tlc("%s.%d" % (tag, rounds), module, cfg, env={"TRACE": f}, timeout=timeout, workers=workers)
            text = r["text"]
            if "No error has been found" in text:
                os.remove(f)
                break
            if re.search("StackOverflow|OutOfMemory|Parsing or semantic|Json.ndDeserialize|GC overhead|heap space", text):
                raise ToolError("TLC: %s\n%s" % (r["out"], text[-2000:]))
            tr = re.findall(r"/\\ tr = (\d+)", text)
            if not tr:
                raise ToolError("TLC: %s\n%s" % (r["out"], text[-2000:]))
            err = re.findall(r'/\\ err = "(.*)"', text)
            step = re.findall(r"/\\ i = (\d+)", text)
            k = int(tr[-1]) - 1
            # (an error stops the exploration, so that the postcondition is false as well: it is not another error)
            if "Invariant Conforms is violated" in text:
                what = err[-1] if err else "?"
            else:
                m = re.search(r"Error: (.*?)(?:\n\n|The behavior|Error: The)", text, re.S)
                what = "the observation is outside of the specification: " + (m.group(1)[:300] if m else "evaluation error")
            t = json.loads(cur[k])
            self.violation(what, {"module": module, "consts": consts, "prop": prop, "step": int(step[-1]) if step else None,
                                  "id": t.get("id"), "cfg": t.get("cfg"), "trace": t, "tlc": r["out"]})
            bad.add(idx[k])

    # ------------------------------------------------------------------ end
    def finish(self, level="model_checking", assumptions=()):
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(os.path.join(self.work, "scratch"), ignore_errors=True)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for what, path in self.violations[:5]:
            print("  " + what)
        for what, path in self.violations[:5]:
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if self.violations:
            return 1
        if self.errors:
            for e in self.errors:
                print("ERROR", e, file=sys.stderr)
            return 2
        print("OK property=%s tier=%s states=%d traces=%d %.1fs" % (self.prop, self.tier, self.states, self.traces, time.time() - T0))
        return 0


def shorten(t, depth=0):
    if isinstance(t, dict):
        return {k: shorten(v, depth + 1) for k, v in list(t.items())[:14]}
    if isinstance(t, list):
        v = [shorten(x, depth + 1) for x in t[:6]]
        return v + ["... %d in all" % len(t)] if len(t) > 6 else v
    if isinstance(t, str) and len(t) > 160:
        return t[:160] + "..."
    return t


def run_stages(ctx, stages):
    """stages: callables run concurrently; the first ToolError is kept"""
    def go(f):
        try:
            f()
        except ToolError as e:
            with ctx.lock:
                ctx.errors.append(str(e))
        except Exception as e:  # noqa
            import traceback
            with ctx.lock:
                ctx.errors.append("%r\n%s" % (e, traceback.format_exc()))
    with cf.ThreadPoolExecutor(max(1, len(stages))) as ex:
        list(ex.map(go, stages))


def replay_file(prop, path):
    r = json.load(open(path))
    ctx = Ctx(prop)
    print("recorded:", r["what"])
    if "trace" not in r:
        print("command:", r.get("command"))
        return 0
    f = os.path.join(ctx.work, "replay.ndjson")
    with open(f, "w") as h:
        h.write(json.dumps(r["trace"]) + "\n")
    ctx.traces_ok("replay", r["module"], f, prop=r.get("prop", True), consts=r.get("consts", ""))
    for what, p in ctx.violations:
        print("again:", what)
    return 1 if ctx.violations else 0


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    prop = sys.argv[1]
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay_file(prop, sys.argv[3])
    import plans
    if prop not in plans.PLANS:
        print("unknown property", prop)
        return 2
    ctx = Ctx(prop)
    try:
        ctx.build()
        stages, kw = plans.PLANS[prop](ctx)
        run_stages(ctx, stages)
    except ToolError as e:
        ctx.errors.append(str(e))
        kw = {}
    except subprocess.TimeoutExpired as e:
        ctx.errors.append("timeout " + str(e))
        kw = {}
    return ctx.finish(**kw)


if __name__ == "__main__":
    # a module of the same name for plans.py
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
