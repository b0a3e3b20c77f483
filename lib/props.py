"""What is built and run for each property, and how its cases are made."""
import time

import driver
from driver import NoAnswer, Violation, rocks_cache

NUM = ("01", "02", "03", "04", "05", "06", "07", "08", "09", "10", "11", "12", "13", "14", "15", "18", "19", "20", "22", "23")


def turn(ctx):
    """Which set of key widths goes with which variant of the library; it changes with the seed."""
    return (int(ctx.prop[1:]) + ctx.seed) % 2


def mon_builds(ctx, variants=("", "hashbrown,bincode"), every=False):
    """Each set of key widths with each variant; in the quick tier, each set with one of them."""
    p = ctx.prop
    out = {}
    for i, v in enumerate(variants):
        if every or ctx.thorough:
            sets = ("narrow", "wide")
        else:
            sets = (("seta", "setb")[(i + turn(ctx)) % 2],)
        for w in sets:
            t = f"mon-{w}" + ("-hb" if v else "")
            f = ",".join(x for x in (f"p{p[1:]}", w, v) if x)
            out[f"{v or 'default'} {w}"] = dict(crate="mon", binary="mon", features=f, target=t)
    return out


def rk_build(prop, fmt="bincode", more=False):
    return dict(crate="rk", binary="rk", features=f"p{prop[1:]},{fmt}" + (",w33" if more else ""), target="rk", rocks=True)


def args_of(ctx, prop, shard, shards, seconds):
    return [prop, "--seed", str(ctx.seed), "--shard", f"{shard}/{shards}", "--tier", ctx.tier, "--seconds", str(seconds)]


def standard(rk="if cached", variants=("", "hashbrown,bincode"), rk_procs=2, after=None, every=False):
    """The in-memory monitors in both configurations, and those on RocksDB."""

    def run(ctx):
        specs = mon_builds(ctx, variants, every)
        use_rk = rk == "always" or (rk == "if cached" and (rocks_cache() or ctx.thorough))
        if use_rk:
            specs["rocksdb"] = rk_build(ctx.prop, more=ctx.thorough)
        elif rk == "if cached":
            ctx.notes.append("no built RocksDB at hand: the RocksDB part ran only in the checks of C12-C15")
        t = time.time()
        built = ctx.builds(specs)
        ctx.count("build_seconds", round(time.time() - t))
        per = 4 if len(specs) <= 3 else 2
        for name, path in built.items():
            n = (rk_procs if name == "rocksdb" else per) * (2 if ctx.thorough and name == "rocksdb" else 1)
            for i in range(n):
                # RocksDB maps much more than it uses
                driver.Job(ctx, f"{name} {i}/{n}", path, args_of(ctx, ctx.prop, i, n, ctx.seconds), specs[name],
                           gb=None if name == "rocksdb" else 8, tag=name.split()[0])
        ctx.collect(time.time() + ctx.seconds + 400)
        if after:
            after(ctx, built, specs)

    return run


def c15_after(ctx, built, specs):
    """The same cases in both configurations of the library have the same results."""
    import subprocess
    by = {}
    for r in ctx.reports:
        for case, digest in r["transcripts"]:
            by.setdefault((r["_what"].split()[1], case), {})[r["_tag"]] = digest
    compared = 0
    for (width, case), d in by.items():
        if len(d) < 2 or "rocksdb" in d:
            continue
        compared += 1
        if len(set(d.values())) > 1:
            text = []
            for tag in d:
                name = f"{tag} {width}"
                if name not in built:
                    continue
                p = subprocess.run([built[name], "C15", "--case", str(case), "--tier", ctx.tier, "dump"], capture_output=True, text=True, errors="replace")
                text.append(p.stdout.splitlines())
            diff = [f"{a}\n  other: {b}" for a, b in zip(*text) if a != b][:8] if len(text) == 2 else []
            raise Violation(f"case {case} ({width} keys) gives different results with the features {' and '.join(d)}:\n" + "\n".join(diff),
                            {"build": specs[f"{list(d)[0]} {width}"], "case": str(case), "args": ["C15", "--tier", ctx.tier]})
    ctx.count("histories_compared_between_configurations", compared)
    if compared == 0:
        raise NoAnswer("no history ran in both configurations")


def widths(ctx):
    variants = ("", "hashbrown,bincode")
    specs = {}
    for i, v in enumerate(variants):
        part = "wa,wb" if ctx.thorough else ("wa", "wb")[(i + turn(ctx)) % 2]
        specs[v or "default"] = dict(crate="mon", binary="widths", features=",".join(x for x in (part, v) if x), target="widths" + ("-hb" if v else ""))
    built = ctx.builds(specs)
    n = 8 // len(specs)
    for name, path in built.items():
        for i in range(n):
            driver.Job(ctx, f"{name} {i}/{n}", path, args_of(ctx, "C21", i, n, ctx.seconds), specs[name], tag=name)
    ctx.collect(time.time() + ctx.seconds + 400)


def storage(ctx):
    """The RocksDB storage by itself."""
    fs = ("bincode", "json", "cbor", "yaml", "pickle", "ron") if ctx.thorough else ("bincode",)
    specs = {f: rk_build(ctx.prop, f, ctx.thorough) for f in fs}
    built = {}
    for f in fs:
        built.update(ctx.builds({f: specs[f]}))
    per = 1 if ctx.thorough else 6
    for name, path in built.items():
        for i in range(per):
            driver.Job(ctx, f"rocksdb {name} {i}/{per}", path, args_of(ctx, ctx.prop, i, per, ctx.seconds), specs[name], gb=None, tag=name)
    ctx.collect(time.time() + ctx.seconds + 400)


def small(ctx):
    """The parts that need no tree."""
    variants = ("", "hashbrown,bincode")
    specs = {v or "default": dict(crate="ut", binary="ut", features=v, target="ut" + ("-hb" if v else "")) for v in variants}
    built = ctx.builds(specs)
    for name, path in built.items():
        n = 2 if name == "default" and ctx.prop == "C24" else 4
        for i in range(n):
            driver.Job(ctx, f"{name} {i}/{n}", path, args_of(ctx, ctx.prop, i, n, ctx.seconds), specs[name], tag=name)
    ctx.collect(time.time() + ctx.seconds + 400)


def threads(ctx):
    """Concurrent readers; in the thorough tier also under ThreadSanitizer."""
    if ctx.thorough:
        spec = dict(crate="mon", binary="mon", features="p20,narrow", target="mon-tsan", toolchain="nightly",
                    flags="-Zsanitizer=thread", extra=("-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"))
        try:
            built = ctx.builds({"tsan": spec})
        except NoAnswer as e:
            ctx.notes.append("no build with ThreadSanitizer here: " + str(e)[:200])
            built = {}
        for path in built.values():
            for i in range(4):
                driver.Job(ctx, f"tsan {i}/4", path, args_of(ctx, "C20", i, 4, ctx.seconds), spec, gb=None, tag="tsan",
                           env={"TSAN_OPTIONS": "exitcode=66 halt_on_error=1"})
        ctx.collect(time.time() + ctx.seconds + 400)
    standard()(ctx)


def formats(ctx):
    fs = ("bincode", "json", "cbor", "yaml", "pickle", "ron")
    specs = {f: dict(crate="sx", binary="sx", features=f, target=f"sx-{f}") for f in fs}
    use_rk = bool(rocks_cache()) and ctx.thorough
    if use_rk:
        for f in fs:
            specs[f"rocksdb {f}"] = rk_build("C01", f)
    built = ctx.builds(specs)
    for name, path in built.items():
        if name.startswith("rocksdb"):
            driver.Job(ctx, name, path, args_of(ctx, "C01", 0, 1, ctx.seconds), specs[name], gb=None, tag=name)
            continue
        # The slow formats get more processes
        n = 2 if name in ("yaml", "ron", "json") and not ctx.thorough else 1
        for i in range(n):
            driver.Job(ctx, f"{name} {i}/{n}", path, args_of(ctx, "C16", i, n, ctx.seconds), specs[name], tag=name)
    ctx.collect(time.time() + ctx.seconds + 400)


def hashes(ctx):
    import c17
    c17.run(ctx)


HIST = ("A case is a random history (seeded) of inserts, single inserts, re-inserts, updates back to earlier values, "
        "forks from any live version, removals and rebuilds, on the generic tree (library nodes, and nodes of our own) over a "
        "model storage in one of four write disciplines, on the in-memory tree, or on RocksDB; key widths 2, 3, 4, 8, 32, 33, 64; "
        "key sets from ten families (subcubes, combs, staircases, clusters, last-byte and adjacent-byte neighbours, grown paths, "
        "recorded hashes, ...). ")

PROPS = {
    "C01": dict(run=standard(), rule=HIST + "After every operation versions are read in batches and singly and compared with the reference map. "
                "Non-trivial: at least one version of more than one key was read back; distinct by the fingerprint of the history."),
    "C02": dict(run=standard(), rule=HIST + "Every version's reads and proofs are recorded when it is new and compared after each later write. "
                "Non-trivial: at least one older version was compared after a write; distinct by the fingerprint of the history."),
    "C03": dict(run=standard(), rule=HIST + "After every removal all other versions are compared with what they read when they were new. "
                "Non-trivial: something was removed while other versions lived; distinct by the fingerprint of the history."),
    "C04": dict(run=standard(), rule=HIST + "After every operation the stored nodes are compared with the closure of the live roots and with the "
                "reference's count of distinct nodes. Non-trivial: more than four operations; distinct by the fingerprint of the history."),
    "C05": dict(run=standard(), rule=HIST + "A target map is built along several random routes in the same and in other trees and the roots are compared. "
                "Non-trivial: at least two routes gave a root; distinct by the fingerprint."),
    "C06": dict(run=standard(rk="no"), rule=HIST + "The hash function is injective and records its inputs: any two contents under one root, and any "
                "two different nodes with one hash input, are a confusion. Values and keys imitate recorded hash inputs. "
                "Non-trivial: more than one version; distinct by the fingerprint."),
    "C07": dict(run=standard(), rule=HIST + "Proofs are made and verified for present keys and refused for absent ones. Non-trivial: more than ten proofs "
                "verified; distinct by the fingerprint."),
    "C08": dict(run=standard(), rule=HIST + "Then proofs are forged: honest ones altered, cut, extended, spliced, and ones assembled from recorded hash inputs "
                "and stored nodes; an accepted proof must be for a pair that the version contains. Non-trivial: forgeries were tried on at least "
                "one version; distinct by the fingerprint."),
    "C09": dict(run=standard(), rule=HIST + "The same insert is done as a batch, permuted, split and one at a time in twin trees; reads are permuted, repeated "
                "and split. Non-trivial: batches of at least two keys; distinct by the fingerprint."),
    "C10": dict(run=standard(), rule=HIST + "In between, operations that must be refused or that only read are tried, and the storage is compared byte by byte "
                "before and after. Non-trivial: something was refused on a non-empty storage; distinct by the fingerprint."),
    "C11": dict(run=standard(), rule=HIST + "Versions are built and read under depth limits around the depths of their keys; the reference knows the path of "
                "every key. Non-trivial: limits on both sides of some path; distinct by the fingerprint."),
    "C12": dict(run=standard(rk="always"), level="fault_enumeration",
                rule=HIST + "Operations are run with a failure injected at each of their storage calls in turn (and, on RocksDB, at each write to its files; "
                "and at each encoding and decoding of a value), in copies of the storage. A case is one operation with one failing call; "
                "non-trivial: the failing call was reached; distinct by history, operation and call."),
    "C13": dict(run=standard(rk="always"), level="fault_enumeration",
                rule=HIST + "The process dies (model storage: before, after and within each storage call; RocksDB: real child processes killed at writes "
                "to the store's files, torn writes included), the storage is reopened and examined. Non-trivial: the death interrupted an "
                "operation; distinct by history, operation and place."),
    "C14": dict(run=standard(rk="always"), rule=HIST + "After every operation nothing may be waiting, and the tree is taken apart and rebuilt, or closed and reopened, "
                "with various depths and read again; on RocksDB the files of the open store are copied and the copy examined. Non-trivial: reopened at least three times; distinct by the fingerprint."),
    "C15": dict(run=standard(rk="always", after=c15_after, every=True), rule="A case is a scripted history with errors, limits and removals, played on the in-memory tree, on the generic tree "
                "over four kinds of storage, with other hash functions, and on RocksDB, and with the library built with and without hashbrown and "
                "serde; every answer is compared. Non-trivial: more than ten answers; distinct by the digest of the answers."),
    "C16": dict(run=formats, rule="For each of the six formats: random nodes and components (edge values in every field) are encoded, decoded and compared; "
                "cut, foreign and random bytes are decoded; random histories are run on a storage that holds encoded bytes and judged as in C01, "
                "C03, C04, C07, C15. Non-trivial: a round trip or a history; distinct by encoded bytes and width, or by the fingerprint."),
    "C17": dict(run=hashes, rule="For each of the 19 hash options, without serde and (those with code of their own for it, or in the thorough tier all) with serde: random messages in random chunkings are hashed to many widths, and random "
                "trees are built; digests, the place of every stored node and every root are recomputed by independent Python implementations (proofs were verified against those roots). "
                "A case is one digest or one tree; non-trivial: all; distinct by option, configuration, width and input."),
    "C18": dict(run=standard(rk="no"), rule=HIST + "After operations every node beneath the live roots is compared with the canonical shape of the tree over the "
                "version's keys. Non-trivial: versions of more than one key; distinct by the fingerprint."),
    "C19": dict(run=standard(), rule=HIST + "On its trees, calls are made with roots, keys, limits, proofs and orders that make no sense, on damaged storage too. "
                "A panic, an abort or a call that does not end is a violation. Non-trivial: all; distinct by the fingerprint."),
    "C20": dict(run=threads, rule="A case is one tree with a random history, read and proved by several threads at once (and written under a lock), or used by several threads in turn, with "
                "every answer compared with the reference map. Non-trivial: at least two threads; distinct by the fingerprint. "
                "Send and Sync are probed at compile time."),
    "C21": dict(run=widths, seconds=(20, 300), rule="For 24 key widths from 1 to 8,200 bytes: every bit of the key (or for wide keys both ends, byte boundaries and a sample) "
                "is flipped and told apart by inserts, reads, proofs and roots; and for odd widths histories under the monitors of C01, C03, C04, "
                "C05, C07, C11, C18. Non-trivial: all; distinct by seed and width, or by the fingerprint."),
    "C22": dict(run=standard(rk="no"), rule="Random sequences of sets, gets, clones and decompositions on branches, leaves, values, nodes and the hash-map storage, compared "
                "with a plain record of what was set. Non-trivial: all; distinct by the fingerprint."),
    "C23": dict(run=standard(rk="no"), rule=HIST + "The storage counts accesses; every operation's accesses are compared with the bound that the paths it touches set. "
                "Non-trivial: versions of more than eight keys; distinct by the fingerprint."),
    "C24": dict(run=small, seconds=(8, 120), rule="For 19 widths from 1 to 300 bytes: pairs of arrays (equal, near, unrelated) compared in all ways, viewed, sliced, indexed and "
                "iterated; random sequences of changes on arrays and their copies; sorting, maps and sets of arrays; serialized forms, sequences of other lengths "
                "and elements that are no bytes; all against the byte arrays themselves. Non-trivial: all; distinct by the arrays."),
    "C25": dict(run=small, seconds=(8, 120), rule="For 17 widths from 1 to 257 bytes: sets of keys from ten families, many with a common prefix; each public helper called on them, "
                "within what it requires, and compared with a bit-by-bit definition. Non-trivial: all; distinct by the keys."),
    "C26": dict(run=storage, seconds=(12, 240), rule="Random sequences of storing, removing, committing, reading, closing, reopening, taking apart and opening twice on one or two RocksDB "
                "stores (key widths 3, 8, 32, 33, 64; nodes of all kinds with edge values; now and then thousands in one commit), compared with a plain map. "
                "Non-trivial: something was committed; distinct by the sequence."),
}
