"""Builds, runs and judges; see check.py."""
import concurrent.futures
import fcntl
import json
import os
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, "target")
EVIDENCE = os.path.join(VERIF, "evidence")
FINDINGS = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
REPO = "/repo"
CPUS = min(8, os.cpu_count() or 8)


class NoAnswer(Exception):
    pass


class Violation(Exception):
    def __init__(self, text, replay):
        super().__init__(text)
        self.text = text
        self.replay = replay


def note(*a):
    print(*a, flush=True)


# ---- building --------------------------------------------------------------------------------

def cargo_env(rocks=False):
    env = dict(os.environ)
    for k in ("RUSTFLAGS", "CXXFLAGS", "CFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_RUSTFLAGS", "RUSTC_WRAPPER"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TERM_COLOR"] = "never"
    if rocks:
        env["CXXFLAGS"] = "-include cstdint"
        env["RUSTFLAGS"] = "-Clink-arg=-Wl,--allow-multiple-definition"
    return env


def rocks_cache():
    """A built RocksDB that this sandbox may have."""
    d = os.path.join(REPO, "target", "rocksdb")
    return d if os.path.isdir(os.path.join(d, "debug", "build")) else None


def build(crate, binary, features, target, scratch, rocks=False, toolchain=None, flags=None, extra=()):
    """Builds a program and returns a private copy of it."""
    tdir = os.path.join(TARGET, target)
    os.makedirs(TARGET, exist_ok=True)
    out = os.path.join(scratch, f"{target}.{binary}.{features.replace(',', '+').replace('/', '_')}")
    with open(os.path.join(TARGET, f".{target}.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if rocks and not os.path.isdir(tdir) and rocks_cache():
            subprocess.run(["cp", "-a", rocks_cache(), tdir + ".new"], check=False)
            if os.path.isdir(tdir + ".new"):
                os.rename(tdir + ".new", tdir)
        env = cargo_env(rocks)
        if flags:
            env["RUSTFLAGS"] = flags
        cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + ["build", "--offline", "--bin", binary, "--target-dir", tdir]
        cmd += list(extra)
        if features:
            cmd += ["--features", features]
        p = subprocess.run(cmd, cwd=os.path.join(VERIF, crate), env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            raise NoAnswer(f"building {crate} [{features}] failed:\n{p.stdout[-6000:]}")
        sub = "debug"
        if "--target" in extra:
            sub = os.path.join(extra[list(extra).index("--target") + 1], "debug")
        shutil.copy2(os.path.join(tdir, sub, binary), out)
    return out


# ---- running ---------------------------------------------------------------------------------

FATAL = {signal.SIGABRT, signal.SIGSEGV, signal.SIGBUS, signal.SIGILL, signal.SIGFPE}


def limits(gb):
    def f():
        if gb:
            n = gb << 30
            resource.setrlimit(resource.RLIMIT_AS, (n, n))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
    return f


class Job:
    """One monitor process."""

    def __init__(self, ctx, what, path, args, build_of, env=None, gb=8, tag=""):
        self.ctx, self.what, self.path, self.args, self.build_of = ctx, what, path, list(args), build_of
        self.tag = tag
        n = len(ctx.jobs)
        self.out = os.path.join(ctx.scratch, f"out.{n}")
        self.state = os.path.join(ctx.scratch, f"state.{n}")
        self.log = os.path.join(ctx.scratch, f"log.{n}")
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        e["TMPDIR"] = ctx.scratch
        e["RK_DIR"] = ctx.fast
        e.update(env or {})
        self.proc = subprocess.Popen([path] + self.args + ["--out", self.out, "--state", self.state],
                                     stdout=open(self.log, "wb"), stderr=subprocess.STDOUT, env=e,
                                     preexec_fn=limits(gb))
        ctx.jobs.append(self)

    def finish(self, deadline):
        try:
            self.proc.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            self.kill()
            raise NoAnswer(f"{self.what} did not end in time")
        rc = self.proc.returncode
        tail = open(self.log, errors="replace").read()[-3000:]
        state = ""
        if os.path.exists(self.state):
            state = open(self.state, errors="replace").read()
        where = " ".join(state[2:].split())
        if rc in (0, 1):
            try:
                r = json.load(open(self.out))
            except (OSError, ValueError):
                raise NoAnswer(f"{self.what} left no report (status {rc})\n{tail}")
            if (rc == 1) != ("violation" in r):
                raise NoAnswer(f"{self.what}: status {rc} does not fit its report\n{tail}")
            if "violation" in r:
                v = r["violation"]
                raise Violation(f"[{self.what}] {v['text']}", self.replay(v["case"]))
            return r
        if rc < 0 and signal.Signals(-rc) in FATAL and state[:1] == "1":
            raise Violation(f"[{self.what}] the process died of {signal.Signals(-rc).name} inside a call into the library, in {where}\n{tail}",
                            self.replay(where))
        if rc == 66 and state[:1] == "1":
            raise Violation(f"[{self.what}] a sanitizer ended the process inside a call into the library, in {where}\n{tail}", self.replay(where))
        raise NoAnswer(f"{self.what} ended with status {rc} in {where or '?'}\n{tail}")

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            self.proc.kill()
        except OSError:
            pass
        self.proc.wait()

    def replay(self, case):
        c = case.split()
        num = c[c.index("--case") + 1] if "--case" in c else None
        return {"build": self.build_of, "case": num, "args": [a for a in self.args]}


# ---- one check -------------------------------------------------------------------------------

class Context:
    def __init__(self, prop, tier, seed, seconds):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.seconds = seconds
        self.start = time.time()
        self.jobs = []
        self.reports = []
        self.scratch = tempfile.mkdtemp(prefix=f"check-{prop}-")
        self.fast = self.scratch
        self.own_fast = None
        try:
            s = os.statvfs("/dev/shm")
            if s.f_bavail * s.f_frsize > 2 << 30:
                self.own_fast = self.fast = tempfile.mkdtemp(prefix=f"check-{prop}-", dir="/dev/shm")
        except OSError:
            pass
        self.extra_counts = {}
        self.extra_samples = []
        self.extra_evaluations = 0
        self.extra_calls = 0
        self.extra_distinct = set()
        self.notes = []

    def close(self):
        for j in self.jobs:
            if j.proc.poll() is None:
                j.kill()
        shutil.rmtree(self.scratch, ignore_errors=True)
        if self.own_fast:
            shutil.rmtree(self.own_fast, ignore_errors=True)

    def count(self, what, n):
        self.extra_counts[what] = self.extra_counts.get(what, 0) + n

    def collect(self, deadline):
        """Waits for all processes; the first violation ends everything."""
        todo = [j for j in self.jobs if not getattr(j, "done", False)]
        no_answer = None
        while todo:
            for j in todo[:]:
                if j.proc.poll() is None and time.time() < deadline:
                    continue
                todo.remove(j)
                j.done = True
                try:
                    r = j.finish(deadline)
                    r["_what"], r["_tag"] = j.what, j.tag
                    self.reports.append(r)
                except NoAnswer as e:
                    no_answer = no_answer or e
            time.sleep(0.1)
        if no_answer:
            raise no_answer

    def builds(self, specs):
        """Builds programs at the same time; specs are argument tuples with names."""
        with concurrent.futures.ThreadPoolExecutor(len(specs)) as ex:
            futs = {name: ex.submit(build, **kw, scratch=self.scratch) for name, kw in specs.items()}
            return {name: f.result() for name, f in futs.items()}


MEASURES_MAX = ("largest_", "longest_", "deepest_", "widest_", "most_", "kinds_", "slowest_", "writes_per_", "reads_per_")


def merge(ctx):
    cases, shapes, counts, samples = set(), set(), {}, []
    evaluations = calls = 0
    by_part = {}
    for i, r in enumerate(ctx.reports):
        # The same case on another build or backend is another execution
        cases.update((r["_tag"], c) for c in r["cases"])
        shapes.update(r["shapes"])
        evaluations += r["evaluations"]
        calls += r["lib_calls"]
        by_part[r["_tag"]] = by_part.get(r["_tag"], 0) + r["evaluations"]
        for k, v in r["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith(MEASURES_MAX) else counts.get(k, 0) + v
        if len(samples) < 6:
            samples += [f"[{r['_what']}] {s}" for s in r["samples"][:1]]
    counts.update(ctx.extra_counts)
    return {
        "evaluations": evaluations + ctx.extra_evaluations,
        "distinct_nontrivial": len(cases) + len(ctx.extra_distinct),
        "library_calls": calls + ctx.extra_calls,
        "distinct_tree_shapes": len(shapes),
        "evaluations_by_part": by_part,
        "observed": counts,
        "samples": (samples + ctx.extra_samples)[:10],
    }


def findings(prop):
    """The known findings of the property: those of lines `finding: property=<id> match=<text> ...`."""
    out = []
    try:
        for line in open(FINDINGS):
            if line.startswith("finding:") and f"property={prop} " in line:
                m = line.split("match=", 1)[1].split(" :: ", 1)
                out.append((m[0].strip(), line.strip()))
    except OSError:
        pass
    return out


def main(argv):
    import props
    if not argv or argv[0] not in props.PROPS:
        note(f"usage: check.py {'|'.join(sorted(props.PROPS))} quick|thorough [--replay FILE] [--seconds S]")
        return 64
    prop = argv[0]
    tier = "thorough" if "thorough" in argv[1:] else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(EVIDENCE, exist_ok=True)
    if "--replay" in argv:
        return replay(prop, argv[argv.index("--replay") + 1])
    p = props.PROPS[prop]
    seconds = p.get("seconds", (16, 240))[tier == "thorough"]
    if "--seconds" in argv:
        seconds = float(argv[argv.index("--seconds") + 1])
    ctx = Context(prop, tier, seed, seconds)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(70))
    violation, status = None, 0
    try:
        p["run"](ctx)
    except Violation as v:
        violation, status = v, 1
    except NoAnswer as e:
        note(f"NO ANSWER for {prop}: {e}")
        return 2
    except Exception:
        traceback.print_exc()
        note(f"NO ANSWER for {prop}: the check itself failed")
        return 2
    finally:
        ctx.close()
    if violation:
        for match, line in findings(prop):
            if match in violation.text:
                note(f"KNOWN-FINDING: property={prop} {line}")
                violation, status = None, 0
                break
    path = os.path.join(EVIDENCE, f"{prop}.json")
    cov = merge(ctx)
    cov["rule"] = p["rule"]
    if not cov["samples"]:
        cov["samples"] = ["(none recorded)"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": p.get("level", "exploration"), "coverage": cov,
          "assumptions": p.get("assumptions", []) + ctx.notes,
          "wall_s": round(time.time() - ctx.start, 1), "violations": 1 if violation else 0}
    json.dump(ev, open(path, "w"), indent=1)
    if violation:
        rp = os.path.join(EVIDENCE, f"replay-{prop}.json")
        json.dump({"property": prop, "text": violation.text, **(violation.replay or {})}, open(rp, "w"), indent=1)
        note(violation.text[:6000])
        note(f"VIOLATION property={prop} replay={rp}")
        return 1
    if cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        note(f"NO ANSWER for {prop}: nothing was evaluated")
        return 2
    note(f"{prop} held: {cov['evaluations']} evaluations, {cov['distinct_nontrivial']} distinct non-trivial, "
         f"{cov['library_calls']} library calls, {ev['wall_s']} s")
    return status


def replay(prop, path):
    """Builds the program that saw the violation and runs the one case again."""
    r = json.load(open(path))
    note(r["text"][:3000])
    if "build" not in r or r.get("case") is None:
        note("(this violation is not tied to one case of one program; run the check again)")
        return 2
    scratch = tempfile.mkdtemp(prefix="replay-")
    try:
        kw = r["build"]
        exe = build(**kw, scratch=scratch)
        args = r["args"]
        tier = args[args.index("--tier") + 1] if "--tier" in args else "quick"
        p = subprocess.run([exe, args[0], "--case", r["case"], "--tier", tier], env={**os.environ, "RK_DIR": scratch, "TMPDIR": scratch})
        note(f"status {p.returncode}")
        return 0 if p.returncode == 0 else 1
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
