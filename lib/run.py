"""Runs one check: model checks the specification, generates scripts (behaviours of the model, and seeded ones),
executes them on the library, validates the recorded traces against the specification, and reports."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import time

from build import BUILD, TLA, TLADEPS, VERIF, ToolError, build, build_java, python_driver

SPEC = os.path.join(VERIF, "spec")
JOBS = 8
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0",
           LC_ALL="C.UTF-8")


def java(module, cfg, env, workdir, workers=1, extra=(), timeout=800, xmx="3g"):
    """TLC on a module; returns its output."""
    meta = os.path.join(workdir, "meta")
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    cmd = ["java", "-Xss64m", "-Xmx" + xmx, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Dtlc2.tool.queue.IStateQueue=MemStateQueue",       # the reals cannot be written to disk
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:kdlspec.Overrides",
           "-cp", ":".join([os.path.join(BUILD, "classes"), TLA, TLADEPS]), "tlc2.TLC",
           "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", os.path.join(SPEC, cfg)] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(ENV, **env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


def brief(text):
    """What TLC complains about, without the states."""
    out = [x for x in text.splitlines() if x.strip() and not re.match(r'Semantic|Linting|Parsing|State \d|/\\ |<<"REJECT|Starting|Computing|Finished|\d+ states', x)]
    k = next((i for i, x in enumerate(out) if "Error" in x or "error" in x), 0)
    return "\n".join(x[:400] for x in out[k:k + 45])[:4000] + "\n"


def stats(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
    return (int(m.group(2)), int(m.group(1))) if m else (0, 0)


def model_check(module, cfg, workdir, emit=None, workers=JOBS, extra=(), timeout=800, prop="", tier=""):
    """Model checks; returns (distinct states, transitions, output).  A failure is an error of the specification."""
    os.makedirs(workdir, exist_ok=True)
    env = {"KDL_PROP": prop, "KDL_TIER": tier}
    if emit:
        if os.path.exists(emit):
            os.remove(emit)
        open(emit, "w").close()
        env["KDL_EMIT"] = emit
    code, text = java(module, cfg, env, workdir, workers, extra, timeout, xmx="8g")
    if code != 0:
        sys.stderr.write(brief(text))
        raise ToolError("TLC does not accept the specification %s/%s" % (module, cfg))
    s, t = stats(text)
    return s, t, text


def run_driver(driver, script, trace, timeout=600):
    """driver: its command, and what it needs of the environment"""
    try:
        r = subprocess.run(driver[0] + [script, trace], env=dict(ENV, **driver[1]), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           cwd=os.path.dirname(trace))
        return r.returncode, r.stderr.decode("latin-1")
    except subprocess.TimeoutExpired:
        return 97, "the driver ran out of time"


def dump(op):
    return json.dumps(op, separators=(",", ":"))


def write_units(path, units):
    with open(path, "w") as f:
        for u in units:
            f.write('{"op":"reset","a":[]}\n')
            for op in u:
                f.write(op if isinstance(op, str) else dump(op))
                f.write("\n")


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*\{([^}]*)\}')     # TLC breaks long tuples over several lines


def validate(lines, trace, workdir, timeout=800):
    """The rejected events of a trace, given by its lines: [(line, labels)].  An event which has not even the form the
    specification expects is rejected, and the rest of its unit, whose state is then unknown, is left out."""
    os.makedirs(workdir, exist_ok=True)
    out, base = [], 0
    while base < len(lines):
        with open(trace, "w") as f:
            f.write("\n".join(lines[base:]) + "\n")
        code, text = java("Trace", "Trace.cfg", {"KDL_TRACE": trace}, workdir, 1, timeout=timeout)
        main = text.split("Error: The behavior up to this point is:")[0]
        flat = re.sub(r"\s*\n\s*", " ", main)
        rej = [(base + int(m.group(1)), re.findall(r'"([^"]+)"', m.group(2))) for m in REJ.finditer(flat)]
        if flat.count('"REJECT"') != len(rej):
            raise ToolError("cannot read TLC's output on %s" % trace)
        out += rej
        if code == 0:
            return out
        at = re.findall(r"^/\\ i = (\d+)$", text, re.M)
        if "Error: The error occurred when TLC was evaluating the nested" not in text and "Error: TLC threw an unexpected exception" not in text or not at:
            sys.stderr.write(brief(text))
            raise ToolError("TLC failed on the trace %s" % trace)
        bad = base + int(at[-1])
        sys.stderr.write("line %d: %s\n%s" % (bad, lines[bad - 1][:300], brief(text)))
        out.append((bad, ["*.malformed"]))
        base = next((k for k in range(bad, len(lines)) if lines[k].startswith('{"op":"reset"')), len(lines))
    return out


class Batch:
    """A list of units (scripts) executed by one process of the driver, or several when it crashes."""
    def __init__(self, driver, work, name, units):
        self.driver, self.work, self.name, self.units = driver, work, name, units
        self.crashes = []       # (unit, exit code, report)
        self.rejects = []       # (unit, index of the operation in the unit, labels, event)
        self.events = 0
        self.ops = {}

    def run(self):
        d = os.path.join(self.work, self.name)
        os.makedirs(d, exist_ok=True)
        left, part = list(range(len(self.units))), 0
        while left:
            script, trace = os.path.join(d, "s%d" % part), os.path.join(d, "t%d" % part)
            write_units(script, [self.units[k] for k in left])
            code, err = run_driver(self.driver, script, trace)
            lines = open(trace, errors="replace").read().split("\n") if os.path.exists(trace) else []
            if lines and lines[-1] != "" or not lines:
                lines = lines[:-1] + [""]     # a partial last line
            lines = lines[:-1]
            if code == 96:
                raise ToolError("the driver does not accept its script: " + err[-600:])
            done = sum(1 for x in lines if x.startswith('{"op":"reset"'))
            if code != 0:
                at = max(done - 1, 0)
                if done and lines[-1].startswith('{"op":"end"'):
                    at = len(left) - 1
                self.crashes.append((self.units[left[at]], code, err[-3000:]))
                # keep complete units only
                cut = max((k for k, x in enumerate(lines) if x.startswith('{"op":"reset"')), default=0)
                good, rest = left[:at], left[at + 1:]
                lines = lines[:cut]
                if len(self.crashes) >= 5:
                    rest = []
            else:
                good, rest = left, []
            if lines:
                rej = validate(lines, trace, os.path.join(d, "tlc%d" % part))
                self.events += len(lines)
                unit_of, unit, k = [], -1, 0
                for x in lines:
                    if x.startswith('{"op":"reset"'):
                        unit, k = unit + 1, 0
                    else:
                        k += 1
                    unit_of.append((unit, k - 1))
                    m = re.match(r'\{"op":"([^"]+)"', x)
                    if m:
                        self.ops[m.group(1)] = self.ops.get(m.group(1), 0) + 1
                for line, labels in rej:
                    u, k = unit_of[line - 1]
                    self.rejects.append((self.units[good[u]], k, labels, lines[line - 1]))
            left, part = rest, part + 1
        shutil.rmtree(d, ignore_errors=True)
        return self


def execute(driver, work, units, size, jobs=JOBS):
    """Runs the units in batches, in parallel."""
    batches = [Batch(driver, work, "b%d" % k, units[p:p + size]) for k, p in enumerate(range(0, len(units), size))]
    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda b: b.run(), batches))


def build_driver(language):
    """The driver: a program with the library, or one in Python with the bindings."""
    if language == "python":
        build("module")
        return python_driver()
    return [build()], {}


def mine(mark, labels):
    return [x for x in labels if x.startswith(mark) or x.startswith("*.")]


def confirm(driver, work, mark, unit, labels):
    """Does the unit, alone, fail again?"""
    b = Batch(driver, work, "confirm", [unit]).run()
    if b.crashes:
        return ["crash"], b
    got = sorted({x for r in b.rejects for x in mine(mark, r[2])})
    return (got if labels is None or set(got) & set(labels) else []), b


def check(prop, spec, tier, seed):
    """spec: dict(models=[(module, cfg, emits)], gen=function(tier, seed, emitted) -> units, size=units per batch,
    known=[dict(unit, labels, what)])."""
    t0 = time.time()
    work = os.path.join(VERIF, "out", "%s-%s-%d" % (prop, tier, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    status = 1
    try:
        build_java()
        ex = cf.ThreadPoolExecutor(1)
        fut = ex.submit(build_driver, spec.get("driver"))
        mark = (prop + ".",) + tuple(spec.get("labels", ()))    # of the violations which count
        states = trans = 0
        emitted = []
        models = []
        for n, (module, cfg) in enumerate(spec.get("models", {}).get(tier) or spec.get("models", {}).get("quick", [])):
            emit = os.path.join(work, "emit%d" % n)
            s, t, _ = model_check(module, cfg, os.path.join(work, "mc%d" % n), emit, prop=prop, tier=tier)
            states, trans = states + s, trans + t
            models.append({"module": module, "config": cfg, "distinct_states": s, "transitions": t})
            emitted += [json.loads(x)["unit"] for x in sorted(open(emit)) if x.strip()]     # in any order, with several workers
        driver = fut.result()
        t1 = time.time()
        units = emitted + spec["gen"](tier, seed)
        if not units:
            raise ToolError("no scripts")
        size = max(1, min(spec.get("size", 400), -(-len(units) // JOBS)))
        batches = execute(driver, work, units, size)
        events = sum(b.events for b in batches)
        ops = {}
        for b in batches:
            for k, v in b.ops.items():
                ops[k] = ops.get(k, 0) + v
        viol, tries = [], 0
        seen = set()
        for b in batches:
            for unit, code, err in b.crashes:
                if tries < 8:
                    tries += 1
                    got, c = confirm(driver, work, mark, unit, None)
                    if "crash" in got:
                        viol.append((unit, ["crash"], "exit %d\n%s" % (code, err)))
            for unit, k, labels, event in b.rejects:
                lab = mine(mark, labels)
                key = tuple(sorted(lab))
                if lab and key not in seen and tries < 12:
                    tries += 1
                    got, c = confirm(driver, work, mark, unit, lab)
                    if got:
                        seen.add(key)
                        viol.append((unit, sorted(lab), "operation %d: %s" % (k, event)))
                        if "no-such-operation" in labels:
                            raise ToolError("the specification does not know an operation: " + event[:200])
            if any("no-such-operation" in r[2] for r in b.rejects):
                raise ToolError("the specification does not know an operation: " + next(r[3] for r in b.rejects if "no-such-operation" in r[2])[:200])
        # the recorded findings: each is probed on its own
        for kf in spec.get("known", []):
            got, c = confirm(driver, work, mark, kf["unit"], None)
            want = set(kf["labels"])
            if got and set(got) <= want:
                print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
            elif got:
                viol.append((kf["unit"], sorted(set(got) - want), "beyond the recorded finding: %s" % kf["what"]))
        sample = []
        for u in units[:1] + units[len(units) // 2:len(units) // 2 + 1]:
            sample.append([json.loads(x) if isinstance(x, str) else x for x in u][:6])
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": states + events, "transitions": trans + events,
                           "model_states": states, "model_transitions": trans, "models": models,
                           "traces_validated_against_impl": len(units), "events_validated": events,
                           "scripts_from_the_model": len(emitted), "operations": ops,
                           "samples": sample},
              "assumptions": ["the reals of the specification are computed as IEEE doubles and compared with tolerances"],
              "wall_s": round(time.time() - t0, 1), "violations": len(viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if viol:
            rd = os.path.join(VERIF, "out", "replay", prop)
            os.makedirs(rd, exist_ok=True)
            for n, (unit, labels, what) in enumerate(viol):
                p = os.path.join(rd, "%s-%d.jsonl" % (tier, n))
                write_units(p, [unit])
                with open(p + ".txt", "w") as f:
                    f.write("labels: %s\n%s\n" % (" ".join(labels), what))
                print("  " + " ".join(labels) + ": " + what[:1500])
                print("VIOLATION property=%s replay=%s" % (prop, p))
            status = 1
        else:
            print("%s held: %d model states, %d scripts, %d events (%.0f s build and model, %.0f s in all)"
                  % (prop, states, len(units), events, t1 - t0, time.time() - t0))
            status = 0
    except ToolError as e:
        sys.stderr.write("check %s: %s\n" % (prop, e))
        status = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return status
