"""Size limits and preallocation: long runs on containers of every interesting size against TraceSizes.tla."""
import json, os, random, subprocess
import vlib, seqcheck

LIMIT = 65534
CAPS = {"stack": [1, 2, 255, 256, 257, 4096, 32767, 32768, 65533, 65534, 65535], "queue": [1, 2, 255, 256, 257, 4096, 32767, 32768, 65532, 65533, 65534],
        "spsc": [1, 2, 255, 256, 65534, 65535, 65536, 70000]}


def programs(kind, rng, deep):
    P = []
    big = 70000

    def walk(cap, room):
        """random long walk; room: how many more elements make sense"""
        ops = []
        for _ in range(rng.randint(3, 9)):
            n = rng.choice([1, 2, cap // 3 + 1, cap // 2 + 1, cap, cap + 2, rng.randint(1, cap + 2)])
            ops.append("%s:%d" % (rng.choice(["push", "bpush", "pop", "bpush", "pop"]), n))
        return " ".join(ops)
    if kind == "spsc":
        runtime = [1, 2, 3, 7, 255, 256, 32768, 65534, 65535, 65536, 65537, 100000, 131072]
        for cap in runtime:
            P.append("R %d bpush:%d pop:%d" % (cap, cap + 3, cap + 3))
            for _ in range(6 if deep else 2):
                P.append("R %d %s pop:%d" % (cap, walk(cap, cap), big * 2))
    else:
        top = 65535 if kind == "stack" else 65534
        runtime = [1, 2, 3, 255, 256, 257, 511, 512, 32767, 32768, 65533, 65534, top]
        if deep:
            runtime += [rng.randint(4, 65534) for _ in range(60)]
        for cap in runtime:
            P.append("F %d bpush:%d pop:%d push:%d pop:%d" % (cap, big, big, big, big))
            for _ in range(6 if deep else 2):
                P.append("F %d %s pop:%d" % (cap, walk(cap, cap), big))
        for cap in (65536, 65537, 65538, 70000, 131071, 131072, 131073, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 5, (1 << 48) + 7, (1 << 63) - 1, -1, -2, -65536):
            P.append("F %d bpush:1" % cap)
        for cap in (0, 1, 2, 3, 100, 65535, 65536, 70000):
            P.append("N %d bpush:%d pop:%d push:%d bpush:3 pop:%d bpush:%d" % (cap, cap + 3, cap, cap + 5, 2 * cap + 9, cap + 9))
            for r in ("res", "resu"):
                for n in (0, 1, 2, 3, 50, 66000):
                    k = rng.randint(0, cap)
                    P.append("N %d bpush:%d %s:%d bpush:%d pop:%d" % (cap, k, r, n, cap - k + n + 2, big * 3))
            P.append("N %d %s pop:%d" % (cap, walk(cap, 200000), big * 4))
            ops = []
            for _ in range(6):
                ops.append("%s:%d" % (rng.choice(["res", "resu", "push", "bpush", "pop"]), rng.randint(0, 300)))
            P.append("N %d %s pop:%d" % (cap, " ".join(o for o in ops if not o.endswith(":0")), big * 3))
    for cap in CAPS[kind]:
        P.append("C %d bpush:%d pop:%d push:%d pop:%d" % (cap, cap + 9, cap + 9, cap + 9, cap + 9))
        for _ in range(6 if deep else 2):
            P.append("C %d %s pop:%d" % (cap, walk(cap, cap), big * 2))
    return P


def bulk_programs(kind, rng, deep):
    """bulk operations and observers with many elements: counts and indices around 2^8, 2^15, 2^16, 2^17"""
    P = []
    take = ["call", "callc"] + (["cata", "catac", "catr", "catrc"] if kind == "stack" else []) + (["ipop"] if kind == "spsc" else [])
    push = {"stack": ["rpush", "rbpush", "urpush", "bpush", "push"], "queue": ["push", "bpush"], "spsc": ["rpush", "npush", "push"]}[kind]
    obs = ["ra:0", "wa:0"] if kind == "spsc" else []

    def cnt(cap):
        return rng.choice([cap, cap, cap - 1, cap + 1, cap // 2, cap // 2 + 1, rng.randint(0, cap + 2), 255, 256, 32768, 65535, 65536])

    def add(cfg, cap):
        for a in push:
            for b in take:
                P.append("%s %d %s:%d %s %s:0 %s %s:1" % (cfg, cap, a, max(1, cap if cfg != "N" else cnt(cap)), " ".join(obs), b, " ".join(obs), push[-1]))
        if kind == "spsc":          # content that wraps around, both sections long or short
            for i, b in enumerate(take + ["npop", "npop"]):
                for j, r in enumerate((2, cap // 4 + 1, cap // 2 + 1, cap - 1)):
                    a = push[(i + j) % 3]
                    P.append("%s %d %s:%d npop:%d %s:%d %s %s:%d %s %s:%d %s %s:%d" % (cfg, cap, a, r, r, a, cap, " ".join(obs), b, cap - (j + i) % 3, " ".join(obs), a, cap // 2, " ".join(obs), b, cap))
        for _ in range(30 if deep else 5):
            o = []
            for _ in range(rng.randint(4, 12)):
                x = rng.choice(push + take + ["pop"] + obs + (["npop", "npop"] if kind == "spsc" else []))
                o.append(x if ":" in x else "%s:%d" % (x, max(1, cnt(cap))))
            P.append("%s %d %s %s:0" % (cfg, cap, " ".join(o), rng.choice(take)))
    caps = CAPS[kind] if deep else [c for c in CAPS[kind] if c > 250]
    for c in caps:
        add("C", c)
    if kind == "spsc":
        for c in [256, 32767, 32768, 65535, 65536, 65537, 131073] + ([1 << 20, (1 << 20) + 1] if deep else []):
            add("R", c)
    else:
        for c in (256, 32768, 65533, 65534):
            add("F", c)
        for c in (0, 256, 65536, 70000):
            add("N", c)
    return P


def run(rep, kind, bulk=False):
    deep = vlib.TIER == "thorough"
    rng = random.Random(vlib.SEED + 18)
    caps = "".join("CASE(%d) " % c for c in CAPS[kind])
    jobs = {"sizes" + kind: (["sizes.cpp"], ["KIND_" + kind.upper(), "VERIF_CAPS=" + caps], False)}
    bins = seqcheck.build_or_report(rep, jobs, kind)
    if bins is None:
        return False
    b = bins["sizes" + kind]
    P = bulk_programs(kind, rng, deep) if bulk else programs(kind, rng, deep)
    n = vlib.NPROC
    lines = [None] * len(P)

    def one(k):
        idx = list(range(k, len(P), n))
        f = os.path.join(vlib.tmp(), "sz-%s-%d" % (kind, k))
        res = []
        pos = 0
        while pos < len(idx):       # a program that kills the process is reported and skipped
            open(f, "w").write("\n".join(P[i] for i in idx[pos:]) + "\n")
            try:
                p = subprocess.run([b, f, f + ".o"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=60 if not deep else 300, preexec_fn=vlib.limits())
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -14
            if rc == 3:
                raise vlib.CheckError("sizes harness: " + p.stderr[-500:])
            got = [x for x in open(f + ".o").read().split("\n") if x.endswith("]}")]
            for x in got:
                res.append((idx[pos], x))
                pos += 1
            if pos < len(idx) and rc != 0:
                res.append((idx[pos], rc))
                pos += 1
            elif not got and rc == 0:
                raise vlib.CheckError("sizes harness wrote nothing")
        return res
    dead = []
    with vlib.ThreadPoolExecutor(n) as ex:
        for res in ex.map(one, range(n)):
            for i, x in res:
                if isinstance(x, str):
                    lines[i] = x + "\n"
                else:
                    dead.append((i, x))
    for i, rc in dead[:3]:
        rep.violation("%s %s: the process is destroyed or hangs (%d)" % (kind, P[i], rc), {"property": rep.pid, "kind": kind, "program": P[i], "exit": rc})
    cfg = vlib.make_cfg("sizes%s.cfg" % kind, """SPECIFICATION TSpec
CONSTANTS Kind = "%s"
 Limit = %d
INVARIANT Conserved
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""" % (kind, LIMIT))
    keep = [i for i in range(len(P)) if lines[i]]
    rej, g, d = vlib.tlc_traces("TraceSizes.tla", cfg, [lines[i] for i in keep], min_shard=60)
    for j, far in rej[:5]:
        i = keep[j]
        e = json.loads(lines[i])["ev"]
        rep.violation("%s %s: not allowed by TraceSizes.tla from event %d %s" % (kind, P[i], far, json.dumps(e[far - 1]) if far <= len(e) else ""),
                      {"property": rep.pid, "kind": kind, "program": P[i], "events": e, "furthest_event": far})
    rep.add("programs", len(P))
    rep.add("traces_validated_against_impl", len(keep))
    rep.add("operations", sum(abs(e["n"]) for i in keep for e in json.loads(lines[i])["ev"]))
    rep.add("states", d)
    rep.add("transitions", g)
    rep.sample({"kind": kind, "program": P[0], "trace": json.loads(lines[keep[0]])["ev"] if keep else None})


def lock_free(rep):
    """is_lock_free() against TraceLockFree.tla on 32 platforms"""
    src = ["lockfree.cpp"]
    b = vlib.build_many({"lockfree": (src, [], True), "lockfreed": (src, ["VERIF_DCAS"], True)})
    for name, exe in b.items():
        out = exe + ".json"
        p = subprocess.run([exe, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60, preexec_fn=vlib.limits())
        if p.returncode:
            rep.violation("is_lock_free driver dies (%d)" % p.returncode, {"property": rep.pid, "program": name, "exit": p.returncode, "log": p.stderr[-2000:]})
            continue
        lines = open(out).readlines()
        cfg = vlib.make_cfg("lockfree.cfg", "SPECIFICATION TSpec\nCONSTRAINT Track\nPOSTCONDITION Post\nCHECK_DEADLOCK FALSE\n")
        rej, g, d = vlib.tlc_traces("TraceLockFree.tla", cfg, lines, min_shard=1000)
        for j, far in rej[:3]:
            e = json.loads(lines[j])
            rep.violation("%s%s: is_lock_free() answers %s, but the container uses atomic objects of %s bytes and %s bytes are lock-free" %
                          (e["cfg"], " (dcas)" if name.endswith("d") else "", e["ev"][far - 1], e["used"], e["free"]), {"property": rep.pid, "trace": e, "furthest_event": far})
        rep.add("traces_validated_against_impl", len(lines))
        rep.add("states", d)
        rep.add("transitions", g)
