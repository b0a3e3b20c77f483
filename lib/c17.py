"""C17: records what each hash option computes and judges it with implementations of our own."""
import concurrent.futures
import hashlib
import multiprocessing
import os
import signal
import subprocess
import time

import oracles
from driver import CPUS, NoAnswer, Violation, build


def judge_tree(alg, n, recs, memo):
    """Everything that one tree recorded.  Returns (problem, nodes, proofs)."""
    nodes, roots, proofs = {}, [], []

    def h(*chunks):
        r = memo.get(chunks)
        if r is None:
            r = memo[chunks] = [d.hex() for d in oracles.allowed(alg, n, list(chunks))]
        return r

    for f in recs:
        if f[0] == "R":
            kv = [x.split("=") for x in (f[2].split(",") if len(f) > 2 and f[2] else [])]
            roots.append((f[1], {k: v for k, v in kv}))
        elif f[0] == "P":
            proofs.append(f)
        elif f[0] == "N":
            nodes[f[1]] = f[3:]
    x = bytes.fromhex
    for loc, body in nodes.items():
        if body[0] == "B":
            want = h(b"b", x(body[2]), x(body[3]))
        elif body[0] == "L":
            want = h(b"l", x(body[1]), x(body[2]))
        else:
            # The value is stored under the hash of its key and itself, so one of the leaves gives it
            want = None
        if want is not None and loc not in want:
            return f"node {loc} = {' '.join(body)} is not stored under its digest {' or '.join(want)}", 0, 0
    # The root from the contents alone
    for root, m in roots:
        keys = sorted(m)
        loc_of = {}

        def find(kind, *parts):
            for d in h(kind, *parts):
                if d in nodes:
                    return d
            return None

        def place(ks):
            if len(ks) == 1:
                k = ks[0]
                d = find(b"d", x(k), x(m[k]))
                if d is None:
                    return None, f"the value of {k} is not stored under its digest {h(b'd', x(k), x(m[k]))[0]}"
                v = nodes[d][1] if len(nodes[d]) > 1 else ""
                if nodes[d][0] != "V" or v != m[k]:
                    return None, f"at the digest of the value of {k} there is {nodes[d]}"
                l = find(b"l", x(k), x(d))
                if l is None:
                    return None, f"the leaf of {k} is not stored under its digest"
                return l, None
            a, b = int(ks[0], 16), int(ks[-1], 16)
            top = (a ^ b).bit_length() - 1
            i = next(i for i, k in enumerate(ks) if int(k, 16) >> top & 1)
            z, e = place(ks[:i])
            if e:
                return None, e
            o, e = place(ks[i:])
            if e:
                return None, e
            r = find(b"b", x(z), x(o))
            if r is None:
                return None, f"the branch over {ks[0]}..{ks[-1]} is not stored under its digest"
            return r, None

        r, e = place(keys)
        if e:
            return f"root {root}: {e}", 0, 0
        if r != root:
            return f"the contents of root {root} have the root {r}", 0, 0
    return None, len(nodes), len(proofs)


def judge(args):
    """Judges the record of one program.  Returns a dictionary of counts, or a violation."""
    option, variant, path = args
    counts = {"digests": 0, "trees": 0, "nodes": 0, "proofs": 0, "roots": 0, "calls": 0}
    distinct = set()
    sample = ""
    tree, n, memo = None, 0, {}
    ended = False
    for line in open(path):
        f = line.rstrip("\n").split(" ")
        t = f[0]
        if t == "D":
            alg = option if f[1] == "own" else f[1]
            w = int(f[2])
            chunks = [] if f[3] == "-" else [bytes.fromhex(c) for c in f[3].split(",")]
            want = [d.hex() for d in oracles.allowed(alg, w, chunks, alternatives=False)]
            if f[4] not in want:
                return {"violation": f"option {option} [{variant}], type {f[1]}, width {w}: the chunks {f[3]} are hashed to {f[4]}, "
                                     f"{alg} gives {' or '.join(want)}"}
            counts["digests"] += 1
            distinct.add(hashlib.sha256(f"{option} {variant} {line}".encode()).hexdigest()[:16])
            if not sample and w == 32 and len(f[3]) > 20:
                sample = f"{option} [{variant}]: {f[3][:120]} -> {f[4]}"
        elif t == "T":
            tree, n, memo = [], int(f[1]), {}
        elif t in "RPN" and tree is not None:
            tree.append(f)
        elif t == "E":
            bad, nodes, proofs = judge_tree(option, n, tree, memo)
            if bad:
                return {"violation": f"option {option} [{variant}], a tree of key width {n}: {bad}"}
            counts["trees"] += 1
            counts["nodes"] += nodes
            counts["proofs"] += proofs
            counts["roots"] += sum(1 for r in tree if r[0] == "R")
            distinct.add(hashlib.sha256(repr((option, variant, n, tree[0])).encode()).hexdigest()[:16])
            tree = None
        elif t == "X":
            return {"violation": f"option {option} [{variant}]: {line[2:].strip()}"}
        elif t == "S":
            counts["calls"] = int(f[1])
            ended = True
    if not ended:
        return {"no_answer": f"{option} [{variant}]: the record ends early"}
    return {"counts": counts, "distinct": distinct, "sample": sample}


def judged(pool, records):
    for f in [pool.submit(judge, r) for r in records]:
        try:
            yield f.result(timeout=400)
        except (concurrent.futures.BrokenExecutor, TimeoutError) as e:
            raise NoAnswer(f"a judge did not answer: {e!r}")


def run(ctx):
    oracles.selftest()
    # The implementations behind `digest` are one and the same
    own = ["default", "blake2-rfc", "sha2", "sha3", "keccak", "seahash", "fxhash"]
    serde = oracles.OPTIONS if ctx.thorough else own + ["md5", "blake2b"]
    plain_slots = CPUS - CPUS * 3 // 8
    jobs = [[] for _ in range(CPUS)]
    for i, o in enumerate(oracles.OPTIONS):
        jobs[i % plain_slots].append((o, ""))
    for i, o in enumerate(serde):
        jobs[plain_slots + i % (CPUS - plain_slots)].append((o, "bincode"))
    digests, trees, size = (60, 12, 20) if ctx.thorough else (12, 3, 12)

    def one(slot):
        out = []
        for o, v in jobs[slot]:
            f = ",".join(x for x in ("" if o == "default" else o, v) if x)
            exe = build("hx", "hx", f, f"hx-{slot}", ctx.scratch)
            path = os.path.join(ctx.scratch, f"hx.{o}.{v or 'plain'}")
            with open(path, "w") as g:
                p = subprocess.run([exe, str(ctx.seed), str(digests), str(trees), str(size)], stdout=g, stderr=subprocess.PIPE, text=True,
                                   timeout=300)
            os.remove(exe)
            if p.returncode != 0:
                if p.returncode in (-6, -11, -7, -4):
                    raise Violation(f"option {o} [{v or 'plain'}]: the program died ({p.returncode}): {p.stderr[-500:]}", {})
                raise NoAnswer(f"hx for {o} [{v}] ended with {p.returncode}: {p.stderr[-2000:]}")
            out.append((o, v or "plain", path))
        return out

    slots = CPUS
    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(slots) as ex:
        records = [r for rs in ex.map(one, range(slots)) for r in rs]
    ctx.count("build_and_run_seconds", round(time.time() - t))
    # A worker that dies is an error here, not an endless wait
    with concurrent.futures.ProcessPoolExecutor(slots, mp_context=multiprocessing.get_context("fork"),
                                                initializer=signal.signal, initargs=(signal.SIGTERM, signal.SIG_DFL)) as pool:
        for (o, v, _), r in zip(records, judged(pool, records)):
            if "violation" in r:
                raise Violation(r["violation"], {"option": o, "configuration": v, "seed": ctx.seed})
            if "no_answer" in r:
                raise NoAnswer(r["no_answer"])
            c = r["counts"]
            ctx.extra_evaluations += c["digests"] + c["trees"]
            ctx.extra_distinct |= r["distinct"]
            ctx.count("options_and_configurations", 1)
            for k in ("digests", "trees", "nodes", "roots"):
                ctx.count(k + "_recomputed", c[k])
            ctx.extra_calls += c["calls"]
            if r["sample"] and len(ctx.extra_samples) < 8:
                ctx.extra_samples.append(r["sample"])
