"""What each check runs.  One function per property."""
import os
import re
import subprocess

from vlib import SPEC, V, build


def store(ctx, mixes, n, scenarios=5, ops=120, kinds=None):
    """n recorded runs of each mix, with seeds derived from the check's seed."""
    jobs = []
    for m in mixes:
        for i in range(n):
            s = ctx.seed * 1000 + i
            a = ["store", "--seed", s, "--scenarios", scenarios, "--ops", ops, "--mix", m]
            if kinds:
                a += ["--kinds", kinds]
            jobs.append(("store %s seed %d" % (m, s), a))
    return jobs


def generated(ctx, num, parts=2, spec="StoreGen", depth=40, cmd="replay", kinds=None):
    """Programs generated from the specification by TLC's simulator."""
    jobs = []
    for p in range(parts):
        rc, out = ctx._tlc(spec, spec + ".cfg", {}, 1,
                           ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(ctx.seed * 100 + p)], 300)
        progs = [re.sub(r'\\(.)', r'\1', m) for m in re.findall(r'^"GEN (.*)"$', out, re.M)]
        if rc != 0 or not progs:
            print(out[-3000:])
            raise SystemExit(2)
        f = os.path.join(ctx.dir, "gen%d.ndjson" % p)
        with open(f, "w") as h:
            h.write("\n".join(progs) + "\n")
        m = re.search(r"The number of states generated: (\d+)", out)
        ctx.states += int(m.group(1)) if m else 0
        ctx.extra["behaviours_replayed_from_spec"] = ctx.extra.get("behaviours_replayed_from_spec", 0) + len(progs)
        a = [cmd, "--in", f] + (["--kinds", kinds] if kinds else [])
        jobs.append(("%s behaviours %d" % (spec, p), a))
    return jobs


def q(ctx, quick, thorough):
    return thorough if ctx.thorough else quick


SEQ = ["programs are sequential; concurrency is C03 and C09", "ids and keys are drawn from a vocabulary with boundary values"]


def storecheck(ctx, mixes, n=(2, 12), scenarios=5, ops=120, gen=(40, 300), kinds=None, extra=()):
    build("local")
    ctx.assumptions += SEQ
    ctx.model("StoreMC", "StoreMC.cfg")
    if ctx.thorough:
        ctx.model("StoreMC", "StoreMCtx.cfg", workers=8)
    jobs = store(ctx, mixes, q(ctx, *n), scenarios, ops, kinds) + list(extra)
    if gen:
        jobs = generated(ctx, q(ctx, *gen)) + jobs
    ctx.record("StoreTrace", jobs)


def conc(ctx, mix, n, scenarios=10, kinds=None, rounds=4, ops=5):
    jobs = []
    for i in range(n):
        s = ctx.seed * 1000 + i
        a = ["conc", "--seed", s, "--scenarios", scenarios, "--mix", mix, "--rounds", rounds, "--ops", ops]
        if kinds:
            a += ["--kinds", kinds]
        jobs.append(("%s histories seed %d" % (mix, s), a))
    return jobs


def bulk(ctx, n=(5, 60)):
    """Collections of thousands of documents"""
    ctx.record("BulkTrace", jobs(ctx, "bulk", q(ctx, *n), "--scenarios", 1, "--ops", 60, "--size", 5000))


CONC = ["schedules are sampled: seeded delays at named points of the storage and after every blocking wait",
        "a history reads one collection, because the trees of one transaction are published one by one"]


def c01(ctx):
    storecheck(ctx, ["tx", "uniq", "all"], (3, 25))
    ctx.record("LinTrace", conc(ctx, "conc", q(ctx, 8, 80), q(ctx, 6, 20)))
    bulk(ctx)


def mapper(ctx, configs, variants):
    for c in configs + q(ctx, [], ["Big"]):
        ctx.model("MapperImpl", "MapperImpl%s.cfg" % c, workers=8 if ctx.thorough else 4, timeout=1800)
    for v, inv in variants:
        ctx.model("MapperImpl", "MapperImpl_%s.cfg" % v, expect=inv)


def c03(ctx):
    build("local")
    ctx.assumptions += CONC
    ctx.model("StoreMC", "StoreMC.cfg")
    jobs = conc(ctx, "conc", q(ctx, 16, 250), q(ctx, 12, 20))
    jobs += conc(ctx, "conc", q(ctx, 4, 60), q(ctx, 4, 10), rounds=2, ops=12)
    ctx.record("LinTrace", jobs)


def c09(ctx):
    build("local")
    ctx.assumptions += CONC
    ctx.model("StoreMC", "StoreMC.cfg")
    mapper(ctx, [""], [("nopublishwait", "Fresh"), ("marknow", "Fresh"), ("anyjob", "Fresh")])
    ctx.record("LinTrace", conc(ctx, "concq", q(ctx, 24, 300), q(ctx, 12, 20)))
    ctx.record("StoreTrace", store(ctx, ["views", "all"], q(ctx, 2, 20), 5, 120))
    bulk(ctx)


def c02(ctx):
    storecheck(ctx, ["tx", "docs", "all"], (3, 25))
    bulk(ctx)


def c05(ctx):
    storecheck(ctx, ["docs", "all", "push"], (3, 25))
    bulk(ctx)


def c06(ctx):
    storecheck(ctx, ["push", "docs"], (4, 30))
    ctx.record("LinTrace", conc(ctx, "conc", q(ctx, 8, 80), q(ctx, 6, 20)))


def c07(ctx):
    storecheck(ctx, ["log", "tx", "all"], (3, 25))
    bulk(ctx)
    # the key-value store's executed transactions
    ctx.record("KVTrace", kv(ctx, "seq", q(ctx, 6, 50), q(ctx, 6, 12), 5, 40, ["--snaps", 0]))


def c08(ctx):
    mapper(ctx, ["Eager", "Turned"], [("readfirst", "Settled"), ("nowait", "Settled"), ("nopending", "Fresh")])
    storecheck(ctx, ["views", "ver", "all"], (3, 25))
    bulk(ctx)


def c10(ctx):
    storecheck(ctx, ["query", "views"], (4, 30))
    bulk(ctx)


def c11(ctx):
    storecheck(ctx, ["reduce", "views"], (4, 30))
    bulk(ctx)


def c12(ctx):
    storecheck(ctx, ["uniq", "all"], (4, 30))
    ctx.record("LinTrace", conc(ctx, "conc", q(ctx, 8, 80), q(ctx, 6, 20)))
    bulk(ctx, (3, 40))


def c13(ctx):
    mapper(ctx, q(ctx, ["Eager"], ["Eager", "Bump"]), [("markfirst", "Fresh"), ("nolist", "Settled")])
    storecheck(ctx, ["ver", "views"], (4, 30))
    ctx.record("LinTrace", conc(ctx, "concq", q(ctx, 8, 80), q(ctx, 10, 20), kinds="0,1,3"))
    bulk(ctx)


def c19(ctx):
    build("local")
    ctx.assumptions += SEQ + ["names longer than a file's name can be are left out when backing up to a folder",
                              "the times of expirations are compared with 300 ms of tolerance"]
    ctx.model("BackupName", "BackupName.cfg", workers=6)
    if ctx.thorough:
        ctx.model("BackupName", "BackupNameBig.cfg", workers=8, timeout=1200)
    for v, inv in [("plain", "KeysBack"), ("sep", "KeysBack"), ("order", "KeysBack"), ("dollar", "IdsBack"), ("asis", "FilesBack"), ("dots", "FilesBack"), ("percent", "FilesBack")]:
        ctx.model("BackupName", "BackupName_%s.cfg" % v, expect=inv)
    ctx.record("BackupTrace", jobs(ctx, "backup", q(ctx, 16, 300), "--scenarios", 6))


def c20(ctx):
    storecheck(ctx, ["compact"], (8, 60), gen=None)
    ctx.assumptions += CONC
    ctx.record("LinTrace", conc(ctx, "concc", q(ctx, 12, 120), q(ctx, 8, 20), kinds="0,1,2,3,4"))
    bulk(ctx)


KVA = ["what is on disk is judged by opening a copy of the directory while nothing is being persisted",
       "a machine may be 5 seconds late with what the persistence rules ask for"]


def kv(ctx, mode, n, scenarios, rounds=6, ops=25, extra=()):
    jobs = []
    for i in range(n):
        s = ctx.seed * 1000 + i
        jobs.append(("kv %s seed %d" % (mode, s), ["kv", "--seed", s, "--scenarios", scenarios, "--mode", mode,
                                                   "--rounds", rounds, "--ops", ops] + list(extra)))
    return jobs


def kvmodel(ctx, variants):
    ctx.model("KVImpl", "KVImpl.cfg")
    if ctx.thorough:
        ctx.model("KVImpl", "KVImplBig.cfg", workers=8, timeout=1200)
    for v, inv in variants:
        ctx.model("KVImpl", "KVImpl_%s.cfg" % v, expect=inv)


def c14(ctx):
    build("local")
    kvmodel(ctx, [("persisting", "ReadsAgree")])
    ctx.record("KVTrace", kv(ctx, "conc", q(ctx, 8, 80), q(ctx, 30, 60)) + kv(ctx, "seq", q(ctx, 8, 60), q(ctx, 6, 12), 5, 40, ["--snaps", 0]))


def c15(ctx):
    build("local")
    kvmodel(ctx, [("visible", "ReadsAgree"), ("track", "ReadsAgree"), ("loader", "ReadsAgree")])
    ctx.assumptions += ["an operation whose interval contains an expiration may see the key or not"]
    e = ["--expiry", 60]
    ctx.record("KVTrace", kv(ctx, "conc", q(ctx, 8, 80), q(ctx, 30, 60), extra=e) + kv(ctx, "seq", q(ctx, 8, 60), q(ctx, 8, 12), 6, 30, e + ["--snaps", 0]))


def c16(ctx):
    build("local")
    ctx.assumptions += KVA
    kvmodel(ctx, [("shutdown", "ClosedIsPresent"), ("persisting", "ReadsAgree")])
    ctx.record("KVTrace", kv(ctx, "seq", q(ctx, 12, 90), q(ctx, 4, 10), 5, 20, ["--snaps", 1]) + kv(ctx, "conc", q(ctx, 4, 40), 20, 6, 25))


def crash(ctx, n, scenarios, ops, points, kinds="0,1,2,3,5", mix="crash"):
    jobs = []
    for i in range(n):
        s = ctx.seed * 1000 + i
        jobs.append(("crash %s %d seed %d" % (mix, ops, s), ["crash", "--seed", s, "--scenarios", scenarios, "--ops", ops,
                                                             "--points", points, "--mix", mix, "--kinds", kinds]))
    return jobs


def c04(ctx):
    build("local")
    ctx.assumptions += ["a stop is a stop of the process: file system calls completed before it are visible after it, writes may be cut at page boundaries; power loss is not covered",
                        "stops are sampled among all the file system calls of each program"]
    ctx.model("CommitImpl", "CommitImplBig.cfg" if ctx.thorough else "CommitImpl.cfg", workers=8)
    for v, inv in [("reuse", "Gone"), ("logfirst", "Atomic"), ("earlyack", "Durable")]:
        ctx.model("CommitImpl", "CommitImpl_%s.cfg" % v, expect=inv)
    ctx.record("CrashTrace", crash(ctx, q(ctx, 10, 100), 1, 12, q(ctx, 50, 100)) + crash(ctx, q(ctx, 6, 60), 1, 60, q(ctx, 40, 100)))


def jobs(ctx, name, n, *args):
    """n runs of a driver, each with a seed of its own"""
    return [("%s seed %d" % (name, ctx.seed * 1000 + i), [name.split()[0], "--seed", ctx.seed * 1000 + i, *args]) for i in range(n)]


def c18(ctx):
    build("local")
    ctx.assumptions += CONC[:1] + ["one process uses a storage", "names starting with an underscore (reserved for the storage's own databases) are left out"]
    ctx.model("CatalogImpl", "CatalogImplBig.cfg" if ctx.thorough else "CatalogImpl.cfg", workers=8)
    for v, inv in [("leftover", "Contents"), ("folderfirst", "Contents"), ("unguarded", "NothingLeft"), ("openrace", "Ended")]:
        ctx.model("CatalogImpl", "CatalogImpl_%s.cfg" % v, expect=inv)
    ctx.record("CatTrace", jobs(ctx, "cat", q(ctx, 12, 120), "--scenarios", 3) + jobs(ctx, "cat stopped", q(ctx, 6, 60), "--scenarios", 2, "--ops", 25, "--points", q(ctx, 15, 40)))
    ctx.record("CatLin", jobs(ctx, "catconc", q(ctx, 12, 150), "--scenarios", 8))


NET = ["client and server run in one process, connected through the loopback network", CONC[0]]


def c17(ctx):
    build("net")
    ctx.assumptions += NET + ["a subscriber whose connection was dropped may miss the last messages of a publisher"]
    ctx.model("PubSubImplMC", "PubSubImplMC.cfg")
    if ctx.thorough:
        ctx.model("PubSubImplMC", "PubSubImplMCBig.cfg", workers=8, timeout=1200)
    for v, inv in [("noprefix", "Own"), ("sessionids", "Own"), ("latemap", "All"), ("anyorder", "Fifo"), ("droptopic", "All")]:
        ctx.model("PubSubImplMC", "PubSubImplMC_%s.cfg" % v, expect=inv)
    ctx.record("PubSubTrace", jobs(ctx, "pubsub", q(ctx, 24, 250), "--scenarios", q(ctx, 8, 16)), bin="bvn")


def c25(ctx):
    build("net")
    ctx.assumptions += NET + ["password hashing parameters are lowered so that many programs can be run"]
    ctx.model("ConnImpl", "ConnImpl.cfg", workers=4)
    if ctx.thorough:
        ctx.model("ConnImpl", "ConnImplBig.cfg", workers=8, timeout=1200)
    for v, inv in [("stale", "Rights"), ("global", "Rights"), ("stalelogout", "Kept"), ("globallogout", "Kept"), ("staleunsub", "Kept"), ("globalunsub", "Kept"),
                   ("keep", "Gone"), ("keepsubs", "Gone")]:
        ctx.model("ConnImpl", "ConnImpl_%s.cfg" % v, expect=inv)
    ctx.record("ConnTrace", jobs(ctx, "conn", q(ctx, 24, 200), "--scenarios", 3), bin="bvn")


def c26(ctx):
    build("local")
    ctx.assumptions += SEQ + ["paths have no empty components and no NUL characters", "what a reader finds after its file was truncated or deleted may be an error"]
    ctx.model("FilesReader", "FilesReader.cfg", workers=6)
    if ctx.thorough:
        ctx.model("FilesReader", "FilesReaderBig.cfg", workers=8, timeout=1200)
    for v, inv in [("stamp", "Right"), ("keep", "Position"), ("missing", "Right"), ("bounds", "Right")]:
        ctx.model("FilesReader", "FilesReader_%s.cfg" % v, expect=inv)
    ctx.record("FilesTrace", jobs(ctx, "files", q(ctx, 40, 400), "--scenarios", 5, "--ops", 110))


def c27(ctx):
    build("local")
    ctx.assumptions += SEQ + ["keys of composite types with NUL characters within strings are checked for being found, not for their order",
                              "ranges are given with their bounds in the natural order"]
    ctx.model("KeysCodec", "KeysCodec.cfg", workers=4)
    ctx.model("KeysCodec", "KeysCodecLong.cfg", workers=4)
    if ctx.thorough:
        ctx.model("KeysCodec", "KeysCodecBig.cfg", workers=8, timeout=1500)
    for v, inv in [("noterm", "Order"), ("nopad", "RoundTrip"), ("front", "Order"), ("marks", "RoundTrip"), ("zeros", "OrderWithZeros")]:
        ctx.model("KeysCodec", "KeysCodec_%s.cfg" % v, expect=inv)
    ctx.record("KeysTrace", jobs(ctx, "keys", q(ctx, 48, 400), "--types", 10, "--ops", 60))


def c23(ctx):
    build("local")
    ctx.assumptions += SEQ + ["the ids of documents and the names of databases are not among what is kept secret", "a storage that was opened with a key or compression is not opened without both later"]
    ctx.model("VaultImpl", "VaultImplBig.cfg" if ctx.thorough else "VaultImpl.cfg", workers=4)
    for v, inv in [("save", "Hidden"), ("map", "Hidden"), ("compact", "Hidden"), ("override", "Hidden"), ("kv", "Hidden"), ("novault", "CanRead")]:
        ctx.model("VaultImpl", "VaultImpl_%s.cfg" % v, expect=inv)
    ctx.record("VaultTrace", jobs(ctx, "vault", q(ctx, 32, 400), "--scenarios", 6))


def c24(ctx):
    build("net")
    ctx.assumptions += NET + ["each operation goes through a connection of its own kind: in process, through the server's handle, QUIC and WebSocket, blocking and async"]
    ctx.model("StoreMC", "StoreMC.cfg")
    def same(mix, n):
        return [(l + " " + mix, a) for l, a in jobs(ctx, "same", n, "--scenarios", 4, "--ops", 100, "--mix", mix)]
    js = [j for m in ["all", "query", "log", "views", "tx", "push"] for j in same(m, q(ctx, 2, 20))]
    ctx.record("StoreTrace", js, bin="bvn")
    ctx.record("LinTrace", jobs(ctx, "sameconc", q(ctx, 8, 80), "--scenarios", q(ctx, 6, 12)), bin="bvn")
    ctx.record("KVTrace", jobs(ctx, "samekv", q(ctx, 8, 60), "--scenarios", q(ctx, 10, 20)), bin="bvn")


def c21(ctx):
    build("net")
    ctx.assumptions += NET + ["within a group, no two statements about one resource are such that an action of one is a prefix of an action of the other"]
    ctx.model("AccessImpl", "AccessImpl.cfg", workers=4)
    for v in ["firstchild", "lastgroup", "leafonly"]:
        ctx.model("AccessImpl", "AccessImpl_%s.cfg" % v, expect="Same")
    ctx.record("AccessTrace", jobs(ctx, "access", q(ctx, 20, 200), "--scenarios", 3), bin="bvn")


def c22(ctx):
    build("net")
    ctx.assumptions += NET + ["password hashing and token signatures are trusted; the hashing parameters are lowered so that many programs can be run"]
    ctx.model("AuthImpl", "AuthImpl.cfg", workers=4)
    if ctx.thorough:
        ctx.model("AuthImpl", "AuthImplBig.cfg", workers=8, timeout=1200)
    for v, inv in [("peek", "Once"), ("unchecked", "Right"), ("groupids", "Right"), ("cached", "Right"), ("early", "Right")]:
        ctx.model("AuthImpl", "AuthImpl_%s.cfg" % v, expect=inv)
    ctx.record("AuthTrace", jobs(ctx, "auth", q(ctx, 16, 150), "--scenarios", 3, "--ops", 250), bin="bvn")
