"""Generators of concurrent client programs (one text line per program, see harness/conc.cpp)."""
import itertools, random


def fmt(cfg, cap, init, threads, **kw):
    """threads: list of lists of op templates; push values are numbered per thread"""
    th = []
    for t, ops in enumerate(threads, 1):
        nxt = 10 * t
        out = []
        for o in ops:
            m = o.split(":")
            base = m[0].split("@")[0].split(".")[-1]
            if base in ("push", "bpush", "upush"):
                nxt += 1
                out.append("%s:%d" % (m[0], nxt))
            elif base in ("rpush", "rbpush", "urpush", "pushr", "pushp", "pusha"):
                n = int(m[1])
                out.append("%s:%s" % (m[0], ",".join(str(nxt + 1 + i) for i in range(n))))
                nxt += n
            else:
                out.append(o)
        th.append(";".join(out))
    s = "cfg=%s cap=%d" % (cfg, cap)
    if init:
        s += " init=" + ",".join(str(i) for i in range(1, init + 1))
    for k, v in kw.items():
        s += " %s=%s" % (k, v)
    return s + " | " + " | ".join(th)


def seqs(ops, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(ops, repeat=n)


def rnd_programs(rng, n, cfgs, ops, nthreads=(2, 3), oplen=(1, 4), init=(0, 3), **kw):
    out = []
    for _ in range(n):
        cfg, cap = rng.choice(cfgs)
        k = rng.choice(range(nthreads[0], nthreads[1] + 1))
        th = [[rng.choice(ops) for _ in range(rng.randint(*oplen))] for _ in range(k)]
        i = rng.randint(init[0], min(init[1], cap if cfg != "N" else init[1]))
        out.append(fmt(cfg, cap, i, th, **kw))
    return out


def stack_c01(tier, seed):
    P = []
    deep = tier == "thorough"
    # two threads: every operation against every short sequence, every interleaving with up to 3 preemptions
    first = ["pop", "push", "c1", "call", "bpush"]
    second = list(seqs(["pop", "push"], 1, 3)) + [("c1c",), ("callc",), ("call", "push"), ("popu", "push"), ("bpush", "popu")]
    for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
        for a in first:
            for b in second:
                for i in ((0, 1, 2, 3) if deep else (0, 2)):
                    P.append(fmt(cfg, cap, i, [[a], list(b)], pb=4 if deep else 3))
    # three threads; includes the ABA constellations (a node removed, reused and put back by two others)
    three = [[["pop"], ["pop", "push"], ["pop"]], [["pop"], ["pop", "push"], ["push"]], [["push"], ["push", "pop"], ["push", "pop"]],
             [["push", "push"], ["push", "pop"], ["push"]], [["call"], ["push", "pop"], ["push"]], [["c1"], ["pop", "push"], ["popu"]],
             [["pop", "pop"], ["pop", "push"], ["pop", "push"]], [["pop"], ["call", "push", "push"], ["push"]]]
    for th in three:
        for cfg, cap in [("N", 3), ("C", 3), ("F", 4), ("N", 0)]:
            for i in ((0, 1, 2, 3) if deep else (2, 3)):
                P.append(fmt(cfg, cap, i, th, pb=4 if deep else 3, max=3000000 if deep else 60000))
    # the stack becomes empty and is filled again: a null top recurs, too
    for th in [[["pop", "push"], ["pop"], ["pop", "push"]], [["c1", "push"], ["pop"], ["push", "pop"]], [["push"], ["push", "pop", "push"], ["pop"]]]:
        for cfg, cap in [("N", 2), ("C", 2), ("F", 3)]:
            for i in (0, 1):
                P.append(fmt(cfg, cap, i, th, pb=4 if deep else 3, max=1000000 if deep else 20000))
    for th in three[:4]:
        P.append(fmt("F", 4, 2, th, pb=2, sp=1, max=60000))
    # every kind of removal, suspended in front of its compare-exchange, while two others recycle the nodes it looks at
    rem = ["pop", "popu", "c1", "c1c", "call", "callc"]
    for r in rem:
        for r2, r3 in ([(r, r), ("pop", "pop")] if not deep else list(itertools.product(rem, rem))):
            for cfg, cap in [("N", 3), ("C", 4), ("F", 4)]:
                P.append(fmt(cfg, cap, 3, [[r], [r2, "push"], [r3]], pb=3, max=1000000 if deep else 12000))
    rng = random.Random(seed)
    P += [p + "" for p in rnd_programs(rng, 400 if deep else 60, [("N", 2), ("N", 0), ("C", 2), ("C", 4), ("F", 3)],
          ["push", "push", "pop", "pop", "popu", "c1", "call", "bpush"], (2, 4 if deep else 3), (1, 4), (0, 3), rand=40000 if deep else 4000, sp=1, seed=seed)]
    P += reserve_conc("stack", tier, "H")
    return P


def queue_c02(tier, seed):
    P = []
    deep = tier == "thorough"
    first = ["pop", "push", "c1", "call", "bpush"]
    second = list(seqs(["pop", "push"], 1, 3)) + [("c1c",), ("callc",), ("popu", "push", "popu"), ("call", "push"), ("push", "call"),
                                                  ("pop", "push", "pop", "push"), ("push", "pop", "push", "pop"), ("push", "push", "pop", "pop")]
    for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
        for a in first:
            for b in second:
                for i in ((0, 1, 2, 3) if deep else (0, 1)):
                    P.append(fmt(cfg, cap, i, [[a], list(b)], pb=4 if deep else 3))
    three = [[["push", "pop"], ["push", "pop"], ["push"]], [["push"], ["push", "pop"], ["push", "pop"]], [["pop"], ["pop", "push"], ["push", "pop"]],
             [["pop", "pop"], ["push"], ["push", "pop"]], [["pop"], ["push"], ["push"]], [["pop"], ["pop"], ["push"]],
             [["call"], ["push", "pop"], ["push"]], [["c1"], ["pop", "push"], ["popu"]], [["push"], ["push"], ["popu", "popu"]]]
    for th in three:
        for cfg, cap in [("N", 2), ("C", 3), ("F", 4), ("N", 0)]:
            for i in ((0, 1, 2, 3) if deep else (0, 1)):
                P.append(fmt(cfg, cap, i, th, pb=4 if deep else 3, max=3000000 if deep else 40000))
        P.append(fmt("F", 4, 1, th, pb=2, sp=1, max=40000))
    rng = random.Random(seed)
    P += rnd_programs(rng, 400 if deep else 60, [("N", 2), ("N", 0), ("C", 2), ("C", 4), ("F", 3)],
          ["push", "push", "pop", "pop", "popu", "c1", "call", "bpush"], (2, 4 if deep else 3), (1, 4), (0, 3), rand=40000 if deep else 4000, sp=1, seed=seed)
    P += reserve_conc("queue", tier, "H")
    return P


def spsc_c03(tier, seed, obs=False):
    """producer = thread 1, consumer = thread 2"""
    P = []
    deep = tier == "thorough"
    pb = 6 if deep else 4
    mx = 400000 if deep else 6000
    prods = [["push"], ["push", "push"], ["pushr:2"], ["pushr:3"], ["pushp:2", "push"], ["pusha:2"], ["push", "pusha:3"], ["pushr:4", "push"], ["pushr:0", "push"]]
    conss = [["pop"], ["popu", "pop"], ["popv", "pop"], ["popp:2"], ["popp:3", "pop"], ["popa:2"], ["popi"], ["popi", "popi"], ["c1", "c1c"], ["call"], ["callc", "pop"], ["popp:2", "call"]]
    if obs:
        prods = [["wa", "push", "wa"], ["wa", "pushr:2"], ["push", "empty", "push"], ["pushr:3", "wa"], ["push", "ra", "push"], ["wa", "wa", "push"]]
        conss = [["ra", "pop", "ra"], ["front", "popu"], ["front", "c1", "front"], ["ra", "popi"], ["empty", "pop", "wa"], ["ra", "call", "ra"], ["popp:2", "ra"], ["front", "popp:2", "front"], ["ra", "ra"]]
    for a in prods:
        for b in conss:
            for cap in (1, 2, 3) if not deep else (1, 2, 3, 4):
                for rot in range(cap + 1):
                    for init in range(cap + 1) if deep else sorted({0, 1, cap}):
                        cfg = "C" if (cap + rot + init) % 2 else "R"
                        for c in (("C", "R") if deep else (cfg,)):
                            P.append(fmt(c, cap, init, [a, b], rot=rot, pb=pb, max=mx))
    rng = random.Random(seed)
    for _ in range(1200 if deep else 150):
        cap = rng.randint(1, 4)
        po = ["push", "pushr:%d" % rng.randint(0, 5), "pushp:%d" % rng.randint(1, 4), "pusha:%d" % rng.randint(1, 3)] + (["wa", "empty"] if obs else [])
        co = ["pop", "popu", "popv", "popi", "c1", "call", "popp:%d" % rng.randint(1, 5), "popa:%d" % rng.randint(1, 3)] + (["ra", "front", "ra"] if obs else [])
        P.append(fmt(rng.choice("CR"), cap, rng.randint(0, cap), [[rng.choice(po) for _ in range(rng.randint(1, 5))], [rng.choice(co) for _ in range(rng.randint(1, 5))]],
                     rot=rng.randint(0, cap + 1), rand=20000 if deep else 1500, seed=seed))
    return P


def stack_c04(tier, seed):
    P = []
    deep = tier == "thorough"
    bulk = [["rpush:2"], ["rbpush:2"], ["rpush:3"], ["rbpush:3"], ["cata"], ["catr"], ["catac"], ["catrc"], ["rpush:0", "catr"], ["rpush:2", "catr"], ["rpush:2", "cata"]]
    other = list(seqs(["pop", "push"], 1, 2)) + [("rpush:2",), ("rbpush:2", "pop"), ("cata",), ("catr",), ("pop", "pop", "push"), ("pop", "push", "push"), ("call",),
                                                 ("catr", "push"), ("cata", "rpush:2"), ("popu", "rpush:2"), ("push", "cata"), ("push", "catr")]
    for cfg, cap in [("N", 2), ("C", 4), ("F", 4)]:
        for a in bulk:
            for b in other:
                for i in ((0, 1, 2, 3) if deep else (0, 2) if len(a) == 1 else (1,)):
                    P.append(fmt(cfg, cap, i, [a, list(b)], pb=4 if deep else 3, max=400000 if deep else 5000))
    three = [[["cata"], ["pop", "push"], ["rpush:2"]], [["catr"], ["pop", "push"], ["rpush:2"]], [["catr"], ["catr", "push"], ["push"]], [["cata"], ["cata", "rpush:2"], ["pop"]],
             [["rbpush:2"], ["rbpush:2"], ["pop", "pop"]], [["pop"], ["catr", "rpush:2"], ["push"]], [["pop"], ["cata", "rpush:2"], ["cata"]]]
    for th in three:
        for cfg, cap in [("N", 3), ("C", 4), ("F", 4)]:
            for i in ((0, 1, 2, 3) if deep else (2, 3)):
                P.append(fmt(cfg, cap, i, th, pb=4 if deep else 3, max=2000000 if deep else 15000))
    # every bulk removal, suspended or recycling, in every overload
    allrem = ["cata", "catac", "catr", "catrc"]
    for r in allrem:
        for cfg, cap in [("N", 3), ("C", 4), ("F", 4)]:
            P.append(fmt(cfg, cap, 3, [[r], ["pop", "push"], ["pop"]], pb=3, max=1000000 if deep else 6000))
            P.append(fmt(cfg, cap, 2, [["pop"], [r, "push", "push"]], pb=4, max=1000000 if deep else 6000))
            P.append(fmt(cfg, cap, 3, [["pop"], [r, "push", "push"], ["push"]], pb=3, max=1000000 if deep else 6000))
    P.append(fmt("F", 4, 2, three[0], pb=2, sp=1, max=40000))
    P.append(fmt("F", 4, 2, three[1], pb=2, sp=1, max=40000))
    P.append(fmt("F", 4, 1, [["rpush:2"], ["push", "pop"]], pb=2, sp=2, max=40000))
    rng = random.Random(seed)
    P += rnd_programs(rng, 400 if deep else 80, [("N", 2), ("N", 0), ("C", 2), ("C", 4), ("F", 3), ("F", 6)],
          ["rpush:2", "rbpush:2", "rbpush:3", "rpush:1", "rpush:0", "cata", "catr", "catac", "catrc", "push", "pop", "popu", "call"], (2, 4 if deep else 3), (1, 3), (0, 3),
          rand=40000 if deep else 3000, sp=1, seed=seed)
    return P


def mpmc_c06(kind, tier, seed, mode="HM", light=False):
    """pool nearly exhausted: every node is accounted for"""
    P = []
    deep = tier == "thorough"
    pb = 4 if deep else 3
    mx = 300000 if deep else 3000 if light else 4000
    full = [["bpush"], ["push"], ["bpush", "bpush"], ["bpush", "pop"]] + ([["rbpush:2"], ["rpush:2"], ["rbpush:3"]] if kind == "stack" else [])
    other = [["bpush"], ["pop", "bpush"], ["bpush", "pop"], ["pop", "pop"], ["call"], ["c1", "bpush"], ["push", "pop", "push"], ["push", "bpush"]]
    if kind == "stack":
        other += [["rbpush:2"], ["cata", "bpush"], ["catr"], ["catr", "rbpush:2"], ["cata"]]
    for cfg, caps in [("C", (1, 2)), ("F", (1, 2)), ("N", (0, 1, 2))]:
        for cap in caps:
            for a in full:
                for b in other:
                    for i in (range(cap + 1) if deep else sorted({max(0, cap - 1), cap})):
                        P.append(fmt(cfg, cap, i, [a, b], pb=pb, max=mx, mode=mode))
    three = [[["bpush"], ["pop", "bpush"], ["pop"]], [["bpush"], ["bpush"], ["pop"]], [["bpush", "pop"], ["pop"], ["bpush", "pop"]]]
    for th in three:
        for cfg, cap in [("C", 1), ("F", 2), ("C", 3), ("N", 1)]:
            for i in (range(cap + 1) if deep else (cap,)):
                P.append(fmt(cfg, cap, i, th, pb=pb, max=1000000 if deep else 6000, mode=mode))
    P += reserve_conc(kind, tier, mode)
    # sequential: every kind of operation, incl. the unsynchronized ones and reserve
    rng = random.Random(seed + 5)
    seqops = ["push", "bpush", "upush", "pop", "upop", "upopu", "c1", "call"] + (["rpush:2", "rbpush:2", "urpush:2", "urpush:3", "rpush:0", "cata", "catr"] if kind == "stack" else [])
    for n in range(2000 if deep else 200):
        cfg, cap = rng.choice([("C", 1), ("C", 2), ("C", 4), ("F", 1), ("F", 3), ("N", 0), ("N", 1), ("N", 2)])
        ops = [rng.choice(seqops + (["res:1", "resu:2", "res:2"] if cfg == "N" else [])) for _ in range(rng.randint(3, 9))]
        P.append(fmt(cfg, cap, rng.randint(0, cap), [ops], max=1, mode=mode))
    for n in range(300 if deep else 50):
        cfg, cap = rng.choice([("C", 2), ("C", 3), ("F", 2), ("F", 3), ("N", 0), ("N", 2)])
        ops = ["bpush", "push", "pop", "c1", "call"] + (["rbpush:2", "rpush:2", "cata", "catr"] if kind == "stack" else []) + (["res:1"] if cfg == "N" else [])
        P.append(fmt(cfg, cap, rng.randint(0, cap), [[rng.choice(ops) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))],
                     rand=20000 if deep else 800, sp=1, seed=seed, mode=mode))
    return P


def reserve_conc(kind, tier, mode="HM"):
    """reserve() next to operations that take nodes from the free list and give them back"""
    P = []
    deep = tier == "thorough"
    other = [["pop"], ["push"], ["bpush"], ["pop", "push"], ["push", "push"], ["pop", "pop"], ["res:1"], ["call", "bpush"], ["bpush", "pop", "push"]]
    for r in ("res:1", "res:2"):
        for o in other + ([["rpush:2"], ["catr", "push"], ["cata"]] if kind == "stack" else []):
            for cap in (1, 2):
                for i in range(cap + 1):
                    P.append(fmt("N", cap, i, [[r], o], pb=4 if deep else 3, max=100000 if deep else 1500, mode=mode))
    for th in [[["res:1"], ["pop", "push"], ["pop"]], [["res:1"], ["push", "pop"], ["push"]], [["res:1", "push"], ["pop", "push"], ["pop", "push"]]]:
        P.append(fmt("N", 2, 2, th, pb=3 if deep else 2, max=200000 if deep else 8000, mode=mode))
    return P


def obs_c16(kind, tier, seed):
    P = []
    deep = tier == "thorough"
    a = [["empty"], ["empty", "empty"], ["pop", "empty"], ["push", "empty"]]
    b = list(seqs(["pop", "push"], 1, 3)) + [("call",), ("c1", "push")] + ([("cata", "push"), ("catr",), ("rpush:2", "pop")] if kind == "stack" else [])
    for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
        for x in a:
            for y in b:
                for i in (0, 1, 2) if deep else (0, 1):
                    P.append(fmt(cfg, cap, i, [x, list(y)], pb=5 if deep else 3, max=100000 if deep else 4000))
    rng = random.Random(seed)
    ops = ["push", "pop", "empty", "empty", "c1", "bpush", "call"] + (["cata", "rpush:2"] if kind == "stack" else [])
    P += rnd_programs(rng, 300 if deep else 60, [("N", 2), ("C", 3), ("F", 3)], ops, (2, 3), (1, 4), (0, 2), rand=20000 if deep else 2000, seed=seed)
    # sequential: exact
    seqo = ops + ["upush", "upop"]
    for _ in range(1000 if deep else 150):
        cfg, cap = rng.choice([("N", 2), ("C", 3), ("F", 3)])
        P.append(fmt(cfg, cap, rng.randint(0, 2), [[rng.choice(seqo) for _ in range(rng.randint(3, 8))]], max=1))
    return P


def spsc_seq(tier, seed, mode="HM"):
    """alternating single-threaded use, in the form of two threads that never overlap is covered by spsc_c03; here capacity and memory"""
    P = []
    deep = tier == "thorough"
    prods = [["push", "push"], ["pushr:3"], ["push", "pushr:2"], ["pushp:4"], ["pusha:2", "push"]]
    conss = [["pop"], ["popp:2"], ["call"], ["popi", "pop"], ["c1"], ["popv", "popa:2"]]
    for a in prods:
        for b in conss:
            for cap in (1, 2, 3, 4):
                for rot in range(cap + 1):
                    for i in (range(cap + 1) if deep else sorted({cap - 1, cap})):
                        P.append(fmt("CR"[(cap + rot + i) % 2], cap, i, [a, b], rot=rot, pb=5 if deep else 3, max=50000 if deep else 600, mode=mode))
    return P


def flist_c05(tier, seed):
    P = []
    deep = tier == "thorough"
    seqs2 = [["al"], ["al", "fr:0"], ["al", "al", "fr:0"], ["al", "al", "fr:1"], ["al", "fr:0", "al", "fr:0"], ["al", "al", "fr:0", "fr:0"], ["al", "fr:0", "al"], ["al", "al", "fr:0", "al"],
             ["al", "al", "al", "fr:1", "fr:0"], ["al", "al", "fr:0", "al", "fr:0", "fr:0"]]
    for cfg in "NFC":
        for cap in (1, 2, 3):
            for a in seqs2[:6]:
                for b in seqs2:
                    P.append(fmt(cfg, cap, 0, [a, b], pb=5 if deep else 4, max=300000 if deep else 8000))
    three = [[["al"], ["al", "al", "fr:0"], ["al", "fr:0"]], [["al", "fr:0"], ["al", "fr:0"], ["al", "fr:0"]], [["al"], ["al", "fr:0", "al"], ["al", "al", "fr:0"]],
             [["al"], ["al", "al", "fr:0"], ["al", "al", "fr:0"]], [["al", "fr:0"], ["al", "al", "fr:1", "fr:0"], ["al"]]]
    for cfg in "NFC":
        for cap in (2, 3, 4):
            for th in three:
                P.append(fmt(cfg, cap, 0, th, pb=4 if deep else 3, max=2000000 if deep else 15000))
                P.append(fmt(cfg, cap, 0, th, pb=2, sp=1, max=8000))
    for cap in (0, 1, 2):
        for a in (["alu"], ["alu", "fr:0"], ["al", "alu", "fr:0"]):
            for b in (["alu", "alu"], ["alu", "fr:0", "alu"], ["al", "fr:0"], ["alu", "alu", "fr:0", "fr:0"]):
                P.append(fmt("N", cap, 0, [a, b], pb=4, max=8000))
    # a suspended thread against up to 2^16 - 1 recycles of the same node (T2 runs without interruption once it has begun)
    for cfg in "NFC":
        for w in range(1, 17):
            for d in (0, 1, 2, 3, 4):
                k = 2 ** w - d
                if k <= 0 or (w == 16 and d <= 2):     # 2^16 tag changes are excluded by the property
                    continue
                if w > 12 and d not in (1, 2, 3) and not deep:
                    continue
                P.append(fmt(cfg, 3, 0, [["al"], ["al", "al", "fr:0", "cyc:%d" % k]], pb=1, np=4, solo=10000000, max=40))
                if w <= 8:
                    P.append(fmt(cfg, 4, 0, [["al", "al"], ["al", "al", "al", "fr:0", "cyc:%d" % k, "fr:0"]], pb=1, np=4, solo=10000000, max=40))
    rng = random.Random(seed)
    for _ in range(300 if deep else 60):
        cfg, cap = rng.choice("NFC"), rng.randint(1, 4)
        P.append(fmt(cfg, cap, 0, [[rng.choice(["al", "al", "fr:0", "fr:1"] + (["alu"] if cfg == "N" else [])) for _ in range(rng.randint(2, 6))] for _ in range(rng.randint(2, 4))],
                     rand=20000 if deep else 1500, sp=1, seed=seed))
    return P


def life_c08(kind, tier, seed):
    """element events; stack or spsc"""
    P = []
    deep = tier == "thorough"
    rng = random.Random(seed + 8)
    kw = dict(mode="HP")
    if kind == "stack":
        one = [["pop"], ["popu"], ["c1"], ["call"], ["cata"], ["catr"], ["push"], ["rpush:2"], ["rbpush:3"], ["catac"], ["callc"], ["catrc"], ["c1c"]]
        two = [["pop", "push"], ["push", "pop"], ["cata", "push"], ["catr", "rpush:2"], ["rbpush:2", "popu"], ["c1", "c1"], ["call"], ["cata"], ["pop", "pop"]]
        for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
            for a in one:
                for b in two:
                    for i in (0, 1, 2, 3) if deep else (1, 2):
                        P.append(fmt(cfg, cap, i, [a, b], pb=3 if deep else 2, max=100000 if deep else 700, drain=rng.randint(0, 1), fill=rng.randint(0, 1), **kw))
        ops = ["push", "bpush", "pop", "popu", "c1", "call", "cata", "catr", "rpush:2", "rbpush:2", "rpush:0", "catac", "rbpush:3"]
        seqo = ops + ["upush", "upop", "upopu", "urpush:2", "urpush:3"]
        cfgs = [("N", 0), ("N", 2), ("C", 1), ("C", 3), ("C", 4), ("F", 1), ("F", 3), ("F", 5)]
        for _ in range(3000 if deep else 400):
            cfg, cap = rng.choice(cfgs)
            P.append(fmt(cfg, cap, rng.randint(0, cap), [[rng.choice(seqo + (["res:1", "resu:2"] if cfg == "N" else [])) for _ in range(rng.randint(2, 12))]], max=1,
                         drain=rng.randint(0, 1), fill=rng.randint(0, 1), **kw))
        for _ in range(400 if deep else 60):
            cfg, cap = rng.choice(cfgs)
            P.append(fmt(cfg, cap, rng.randint(0, cap), [[rng.choice(ops) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(2, 3))],
                         rand=5000 if deep else 150, sp=1, seed=seed, drain=rng.randint(0, 1), fill=rng.randint(0, 1), **kw))
    else:
        prods = [["push", "push"], ["pushr:2"], ["pushr:4"], ["pushp:3"], ["pusha:2", "push"], ["push", "pushr:3"]]
        conss = [["pop", "popu"], ["popv"], ["popp:2"], ["popp:4"], ["popa:2", "pop"], ["popi"], ["c1", "c1c"], ["call"], ["callc"], ["popv", "popi"], ["front", "call"], ["front", "popv"]]
        for a in prods:
            for b in conss:
                for cap in (1, 2, 3, 4):
                    for rot in range(cap + 1):
                        for i in range(cap + 1) if deep else sorted({rng.randint(0, cap), cap}):
                            P.append(fmt("CR"[(cap + rot + i) % 2], cap, i, [a, b], rot=rot, pb=4 if deep else 2, max=50000 if deep else 60, drain=rng.randint(0, 1), fill=rng.randint(0, 1), **kw))
        seqo = ["push", "pushr:2", "pushr:5", "pushp:2", "pusha:3", "pop", "popu", "popv", "popp:2", "popa:2", "popi", "c1", "call", "reset", "front", "ra", "wa", "empty"]
        for _ in range(4000 if deep else 700):
            cap = rng.randint(1, 4)
            P.append(fmt(rng.choice("CR"), cap, rng.randint(0, cap), [[rng.choice(seqo) for _ in range(rng.randint(2, 14))]], rot=rng.randint(0, cap + 1), max=1,
                         drain=rng.randint(0, 1), fill=rng.randint(0, 1), **kw))
    return P


def hb_c09(kind, tier, seed):
    """memory model: atomic operations with their orders, loads that see older values (sr)"""
    P = []
    deep = tier == "thorough"
    rng = random.Random(seed + 9)
    kw = dict(mode="HAPL", fill=0)
    m = 200000 if deep else 500
    bounds = [dict(pb=2, sr=0, max=m), dict(pb=1, sr=1, max=m), dict(pb=2, sr=1, max=m)] + ([dict(pb=2, sr=2, max=m), dict(pb=3, sr=1, max=m)] if deep else [])
    if kind == "spsc":
        prods = [["push"], ["push", "push"], ["pushr:2"], ["push", "pushp:3"], ["pusha:2", "push"], ["push", "wa", "push"]]
        conss = [["pop"], ["popu", "pop"], ["popp:2", "pop"], ["popa:2"], ["popi", "popi"], ["c1", "c1"], ["call", "call"], ["c1c", "c1c"], ["callc", "callc"], ["front", "popv"], ["popv", "pop"]]
        for a in prods:
            for b in conss:
                for cap in (1, 2):
                    for i in (0, 1, cap):
                        for bd in bounds:
                            P.append(fmt("CR"[(cap + i) % 2], cap, i, [a, b], rot=rng.randint(0, cap), **bd, **kw))
    else:
        if kind == "stack":
            one = [["pop"], ["popu"], ["c1"], ["push"], ["cata"], ["catr"], ["rpush:2"], ["call"], ["c1c"], ["catac"], ["catrc"]]
            two = [["push", "pop"], ["pop", "push"], ["popu", "push", "pop"], ["catr", "push"], ["cata", "rpush:2"], ["rpush:2", "pop"]]
            three = [[["push"], ["popu"], ["pop", "push"]], [["pop"], ["pop", "push"], ["push", "pop"]], [["catr"], ["push"], ["pop", "push"]]]
            ops = ["push", "pop", "popu", "c1", "cata", "catr", "rpush:2", "bpush"]
        else:
            one = [["popu"], ["push"], ["popu", "popu"], ["push", "popu"]]
            two = [["push", "popu"], ["popu", "push"], ["push", "push"], ["popu", "push", "popu"], ["push", "popu", "push", "popu"]]
            three = [[["push"], ["popu"], ["popu", "push"]], [["popu"], ["popu", "push"], ["push", "popu"]], [["push"], ["push"], ["popu", "popu"]], [["popu"], ["push", "popu"], ["push", "popu"]]]
            ops = ["push", "popu", "bpush", "pop", "c1"]
        for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
            for a in one:
                for b in two:
                    for i in (0, 1, 2):
                        for bd in bounds:
                            P.append(fmt(cfg, cap, i, [a, b], **bd, **kw))
            for th in three:
                for i in (0, 1, 2):
                    for bd in bounds:
                        P.append(fmt(cfg, cap, i, th, **dict(bd, max=3 * m), **kw))
        for _ in range(300 if deep else 40):
            cfg, cap = rng.choice([("N", 2), ("C", 3), ("F", 3)])
            P.append(fmt(cfg, cap, rng.randint(0, 2), [[rng.choice(ops) for _ in range(rng.randint(1, 3))] for _ in range(rng.randint(2, 3))], rand=5000 if deep else 300, sp=1, sr=2, seed=seed, **kw))
    return P


def prog_c10(kind, tier, seed):
    """T(n) runs alone while the others stand still at arbitrary points inside their operations"""
    P = []
    deep = tier == "thorough"
    rng = random.Random(seed + 10)
    kw = dict(mode="HS", fill=0)
    m = 100000 if deep else 1500
    if kind == "spsc":
        prods = ["push", "pushr:3", "pushp:2", "pusha:2", "wa", "empty", "pushr:0"]
        conss = ["pop", "popu", "popv", "popp:3", "popa:2", "popi", "c1", "call", "front", "ra", "c1c", "callc"]
        for a in prods:
            for b in conss:
                for cap in (1, 2, 3):
                    for i in sorted({0, 1, cap}):
                        P.append(fmt("CR"[(cap + i) % 2], cap, i, [[a, "push"], [b, "pop"]], rot=rng.randint(0, cap), pb=4 if deep else 3, max=m, **kw))
    else:
        if kind == "stack":
            ops = ["push", "pop", "popu", "c1", "call", "cata", "catr", "rpush:2", "bpush", "rbpush:2", "empty", "callc", "catac", "catrc", "c1c"]
        else:
            ops = ["push", "pop", "popu", "c1", "call", "bpush", "empty", "c1c", "callc"]
        cfgs = [("N", 2), ("C", 3), ("F", 3), ("N", 0), ("C", 1)]
        for cfg, cap in cfgs:
            for a in ops:
                for b in ops:
                    for i in sorted({0, 1, min(2, cap)}) if deep else {rng.randint(0, min(2, cap))}:
                        P.append(fmt(cfg, cap, i, [[a], [b, rng.choice(ops)]], pb=2, max=m, **kw))
        trip = [(a, b, c) for a in ops for b in ops for c in ops]
        for a, b, c in (trip if deep else rng.sample(trip, min(len(trip), 150))):
            cfg, cap = rng.choice(cfgs)
            P.append(fmt(cfg, cap, rng.randint(0, min(2, cap)), [[a], [b], [c, rng.choice(ops), rng.choice(ops)]], pb=2, max=m, **kw))
        for a, b, c in rng.sample(trip, min(len(trip), 400 if deep else 60)):   # four threads, three of them stopped
            cfg, cap = rng.choice(cfgs)
            P.append(fmt(cfg, cap, rng.randint(0, min(2, cap)), [[a], [b], [rng.choice(ops)], [c, rng.choice(ops)]], pb=3, max=2 * m, **kw))
    # spsc: the other side completes many operations during one call
    if kind == "spsc":
        for qs in ("91", "81", "71", "61", "51", "41", "92", "83", "73"):
            for b in conss:
                P.append(fmt("R", 500, 2, [["push"] * 450, [b]], rr=qs, pb=0, max=1, **kw))
            for a in prods:
                P.append(fmt("R", 300, 120, [[a], ["pop"] * 90], rr=qs[::-1], pb=0, max=1, **kw))
                P.append(fmt("R", 90, 90, [[a], ["pop"] * 90], rr=qs[::-1], pb=0, max=1, **kw))
        # a small ring and a faster partner: nothing may chase what arrives or leaves during the call
        for qs in ("11", "12", "21", "22", "32", "33", "31", "41", "51", "62", "71", "83"):
            for b in conss:
                P.append(fmt("C", 2, 1, [["push"] * 400, [b]], rr=qs, pb=0, max=1, **kw))
            for a in prods:
                P.append(fmt("C", 2, 1, [[a], ["pop"] * 400], rr=qs[::-1], pb=0, max=1, **kw))
    # lock-step schedules: nobody may keep everybody from finishing
    pairs = [("push", "pop"), ("push", "push"), ("pop", "pop")] if kind != "spsc" else [("push", "pop"), ("pushr:3", "popi"), ("push", "call")]
    if kind == "stack":
        pairs += [("rpush:2", "cata"), ("push", "catr"), ("bpush", "c1")]
    for qs in ["1", "2", "3", "12", "13", "23", "112", "35", "47", "5", "7", "9", "122", "31", "4", "6", "8"]:
        for a, b in pairs:
            for nt in ((2, 3, 4) if kind != "spsc" else (2,)):
                for cfg, cap in ([("N", 3), ("C", 4), ("F", 4)] if kind != "spsc" else [("C", 2), ("R", 3)]):
                    P.append(fmt(cfg, cap, rng.randint(0, 2), [[a, b, a, a, b, b] if t % 2 == 0 and kind != "spsc" else [a] * 6 if t == 0 else [b] * 6 for t in range(nt)], rr=qs, step=20000, pb=0, max=1, **kw))
    return P


def aba_c05(kind, tier, seed):
    """whole containers: a thread suspended in an operation while others recycle the nodes it looks at"""
    P = []
    deep = tier == "thorough"
    ws = range(1, 17)
    for cfg, cap in [("N", 3), ("C", 3), ("F", 3)]:
        for w in ws:
            for d in (-1, 0, 1, 2, 3):
                k = 2 ** w - d
                if k <= 0 or k >= 2 ** 16 - 4:
                    continue
                if w > 11 and d not in (0, 1, 2) and not deep:
                    continue
                kw = dict(pb=1, np=4, solo=10000000, max=60)
                if kind == "stack":
                    P.append(fmt(cfg, cap, 2, [["pop"], ["catr", "push", "cyc:%d" % k]], **kw))
                    P.append(fmt(cfg, cap, 2, [["cata"], ["catr", "push", "cyc:%d" % k]], **kw))
                else:
                    if k > 4:
                        P.append(fmt(cfg, cap, 2, [["pop"], ["cyc:%d" % (k - 2), "pop", "push", "pop", "push"]], **kw))
                        P.append(fmt(cfg, cap, 0, [["push"], ["push", "cyc:%d" % (k - 2), "pop", "push", "pop"]], **kw))
                        P.append(fmt(cfg, cap, 2, [["popu"], ["cyc:%d" % (3 * k if 3 * k < 65000 else k), "push", "pop", "pop", "push"]], **kw))
    # small recycles in full interleaving: every node is reused while a third thread is inside its operation
    if kind == "stack":
        three = [[["pop"], ["pop", "push"], ["pop", "push"]], [["pop"], ["catr", "push"], ["push"]], [["c1"], ["pop", "pop", "push"], ["push", "pop"]], [["cata"], ["pop", "push"], ["catr", "push"]]]
        two = [[["pop"], ["catr", "push", "push"]], [["pop"], ["pop", "pop", "push", "push"]], [["c1"], ["catr", "push", "pop", "push"]], [["cata"], ["catr", "rpush:2"]]]
    else:
        three = [[["pop"], ["pop", "push"], ["pop", "push"]], [["push"], ["pop", "push"], ["push", "pop"]], [["popu"], ["push", "pop"], ["push", "pop"]]]
        two = [[["pop"], ["pop", "push", "pop", "push"]], [["push"], ["push", "pop", "push", "pop"]], [["popu"], ["push", "pop", "push", "pop", "push", "pop"]]]
    for th in three:
        for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
            P.append(fmt(cfg, cap, 2, th, pb=4 if deep else 3, max=1000000 if deep else 12000))
            P.append(fmt(cfg, cap, 2, th, pb=2, sp=1, max=6000))
    for th in two:
        for cfg, cap in [("N", 2), ("C", 3), ("F", 3)]:
            for i in (1, 2):
                P.append(fmt(cfg, cap, i, th, pb=5 if deep else 4, max=1000000 if deep else 12000))
    # the same around a container that becomes empty and is filled again: the null top (the lone dummy) recurs as well
    if kind == "stack":
        edge = [[["c1", "push"], ["pop"], ["push", "pop"]], [["pop"], ["pop", "push"], ["push", "pop"]], [["pop", "push"], ["pop"], ["pop", "push"]], [["push"], ["push", "pop", "push"], ["pop"]],
                [["push"], ["cata", "push"], ["pop", "push"]]]
    else:
        edge = [[["c1", "push"], ["pop"], ["push", "pop"]], [["pop"], ["pop", "push"], ["push", "pop"]], [["push"], ["push", "pop", "push"], ["pop"]], [["popu"], ["call", "push"], ["push", "pop"]]]
    for th in edge:
        for cfg, cap in [("N", 2), ("C", 2), ("F", 3)]:
            for i in (0, 1):
                P.append(fmt(cfg, cap, i, th, pb=4 if deep else 3, max=1000000 if deep else 8000))
                P.append(fmt(cfg, cap, i, th, rand=40000 if deep else 3000, sp=1, seed=seed))
    return P


def several(kind, tier, seed):
    """two containers of one type: calls on the second one are named 2.x"""
    P = []
    deep = tier == "thorough"
    if kind == "spsc":      # thread 1: producer of the first, consumer of the second ring; thread 2 the other way round
        a = [["push", "2.pop"], ["2.pop", "push"], ["pushr:2", "2.popi"], ["2.c1", "push", "2.pop"], ["push", "2.call", "push"]]
        b = [["2.push", "pop"], ["pop", "2.push"], ["2.pushr:2", "popi"], ["c1", "2.push", "pop"], ["2.pushp:2", "call"]]
        for x in a:
            for y in b:
                for cfg in "CR":
                    for cap in (1, 2):
                        for init in (0, 1):
                            P.append(fmt(cfg, cap, init, [x, y], rot=cap, pb=4 if deep else 2, max=100000 if deep else 3000, two=1))
        return P
    one = ["pop", "push", "bpush", "c1"] + (["cata"] if kind == "stack" else [])
    progs = [[[x], ["2." + y, "2." + z]] for x in one for y in one for z in ("push", "pop")]
    progs += [[["pop", "2.push", "pop"], ["2.pop", "push", "2.pop"]], [["push", "2.push"], ["pop", "2.pop"]], [["2.pop", "push"], ["2.push", "pop"]],
              [["pop"], ["2.pop", "2.push", "2.pop", "2.push"]], [["push"], ["2.push", "2.pop", "2.push", "2.pop"]], [["call", "2.push"], ["2.call", "push"]],
              [["pop", "push"], ["push", "pop"], ["2.pop", "2.push"]], [["pop"], ["2.pop", "2.push"], ["push", "2.pop"]], [["c1", "2.push"], ["2.c1", "push"], ["pop"]]]
    for th in progs:
        for cfg, cap in [("N", 2), ("C", 2), ("F", 3)]:
            for init in (0, 2):
                P.append(fmt(cfg, cap, init, th, pb=3 if deep else 2, max=200000 if deep else 4000, two=1))
    rng = random.Random(seed + 20)
    P += rnd_programs(rng, 300 if deep else 40, [("N", 2), ("N", 0), ("C", 2), ("C", 4), ("F", 3)], ["push", "pop", "2.push", "2.pop", "c1", "2.c1", "bpush", "2.bpush", "call", "2.call"],
                      (2, 3), (1, 4), (0, 2), rand=10000 if deep else 800, sp=1, seed=seed, two=1)
    return P


def faulty(op, fault):
    n, _, a = op.partition(":")
    return n + "@" + fault + (":" + a if a else "")


def fault_c14(kind, tier, seed):
    """every allocation and every element copy of every push, of reserve and of construction fails once"""
    P = []
    deep = tier == "thorough"
    rng = random.Random(seed + 14)
    kw = dict(mode="HM")
    if kind == "spsc":
        for cfg in "CR":
            for cap in (1, 2, 3, 4):
                for rot in range(cap + 1):
                    for init in range(cap + 1):
                        for op, n in [("push", 1), ("pushr:1", 1), ("pushr:2", 2), ("pushr:3", 3), ("pushr:5", 5), ("pushp:2", 2), ("pushp:4", 4), ("pusha:1", 1), ("pusha:2", 2), ("pusha:3", 3)]:
                            for k in range(1, n + 1):
                                P.append(fmt(cfg, cap, init, [[faulty(op, "c%d" % k)]], rot=rot, max=1, drain=rng.randint(0, 1), **kw))
        seqo = ["push", "pushr:2", "pushr:3", "pushp:3", "pusha:2"]
        seqp = ["pop", "popu", "popp:2", "popi", "c1", "call"]
        for _ in range(6000 if deep else 600):
            cap = rng.randint(1, 4)
            th = [faulty(o, "c%d" % rng.randint(1, 3)) if rng.random() < .5 else o for o in (rng.choice(seqo) for _ in range(rng.randint(2, 8)))]
            P.append(fmt(rng.choice("CR"), cap, rng.randint(0, cap), [th, [rng.choice(seqp) for _ in range(rng.randint(0, 4))]], rot=rng.randint(0, cap + 1),
                         rand=300 if deep else 20, seed=seed, **kw))
        for cap in range(1, 5):
            for k in (1, 2):
                P.append(fmt("R", cap, 0, [["push"], ["pop"]], cfault=k, max=1, **kw))
        return P
    stack = kind == "stack"
    ops = [("push", 1), ("bpush", 1), ("upush", 1)]
    if stack:
        ops += [(o + ":%d" % n, n) for o in ("rpush", "rbpush", "urpush") for n in (1, 2, 3, 4)]
    cfgs = [("N", 0), ("N", 1), ("N", 2), ("N", 3), ("C", 1), ("C", 2), ("C", 3), ("C", 4), ("F", 1), ("F", 2), ("F", 3)]
    after = [[], ["push"], ["bpush", "pop"], ["pop", "push", "push"], ["upush", "upop"]] + ([["rpush:3", "catr"], ["cata"], ["urpush:2", "call"]] if stack else [["call", "push"]])
    for cfg, cap in cfgs:
        for init in range(cap + 1):
            for op, n in ops:
                fs = ["c%d" % k for k in range(1, n + 1)] + (["a%d" % k for k in range(1, n + 1)] if cfg == "N" else [])
                for f in fs:
                    for aft in (after if deep else rng.sample(after, 2)):
                        P.append(fmt(cfg, cap, init, [[faulty(op, f)] + aft], max=1, **kw))
                    P.append(fmt(cfg, cap, init, [[faulty(op, f)] * (cap + 2)], max=1, **kw))
            if cfg == "N":
                for op in ("res", "resu"):
                    for n in (1, 2, 3):
                        for k in range(1, n + 1):
                            P.append(fmt(cfg, cap, init, [["%s@a%d:%d" % (op, k, n), "bpush", "push"]], max=1, **kw))
        for k in range(1, cap + 3):
            P.append(fmt(cfg, cap, 0, [["push"]], cfault=k, max=1, **kw))
    # the failing call overlaps with others
    other = [["pop"], ["push"], ["pop", "push"], ["bpush", "pop"]] + ([["cata"], ["rpush:2"]] if stack else [])
    for cfg, cap in [("N", 2), ("N", 0), ("C", 2), ("F", 3)]:
        for op, n in ops:
            if op.startswith("u"):
                continue
            for f in ["c%d" % k for k in range(1, n + 1)] + (["a1"] if cfg == "N" else []):
                for b in (other if deep else rng.sample(other, 3)):
                    P.append(fmt(cfg, cap, rng.randint(0, min(2, cap)), [[faulty(op, f)], b], pb=3 if deep else 2, max=100000 if deep else 400, **kw))
    for _ in range(400 if deep else 60):
        cfg, cap = rng.choice(cfgs)
        th = []
        for t in range(rng.randint(2, 3)):
            o = []
            for _ in range(rng.randint(1, 3)):
                op, n = rng.choice([x for x in ops if x[0][0] != "u"])
                o.append(rng.choice([faulty(op, "c%d" % rng.randint(1, n)), op, "pop", "c1"] + (["a1"] and [faulty(op, "a%d" % rng.randint(1, n))] if cfg == "N" else [])))
            th.append(o)
        P.append(fmt(cfg, cap, rng.randint(0, min(2, cap)), th, rand=3000 if deep else 150, sp=1, seed=seed, **kw))
    return P


def mem_c19(kind, tier, seed):
    """which memory is touched; mostly sequential, every bulk operation at every ring offset; buffers of the caller have exact bounds"""
    P = []
    deep = tier == "thorough"
    rng = random.Random(seed + 19)
    kw = dict(mode="X", fill=0)
    if kind == "spsc":
        prods = [["push", "push"], ["pushr:0"], ["pushr:2"], ["pushr:5"], ["pushp:1", "pushp:3"], ["pusha:2", "pusha:3"]]
        conss = [["pop", "popu"], ["popv"], ["popp:2"], ["popp:5"], ["popa:1", "popa:3"], ["popi"], ["c1", "c1c"], ["call"], ["callc"], ["front", "popi"], ["popp:0", "ra"]]
        for a in prods:
            for b in conss:
                for cap in (1, 2, 3, 4):
                    for rot in range(cap + 1):
                        for i in range(cap + 1) if deep else sorted({rng.randint(0, cap), cap}):
                            P.append(fmt("CR"[(cap + rot + i) % 2], cap, i, [a, b], rot=rot, pb=2 if deep else 1, max=2000 if deep else 8, drain=rng.randint(0, 1), **kw))
        seqo = ["push", "pushr:2", "pushr:5", "pushp:2", "pusha:3", "pushr:0", "pop", "popu", "popv", "popp:2", "popp:5", "popa:3", "popi", "c1", "call", "callc", "reset", "front", "ra", "wa", "empty"]
        cfgs = [(c, k) for c in "CR" for k in (1, 2, 3, 4)] + [("R", 7), ("R", 0)]
    else:
        bulk = ["rpush:0", "rpush:2", "rbpush:4", "urpush:3", "cata", "catr", "catac", "catrc"] if kind == "stack" else []
        seqo = ["push", "bpush", "upush", "pop", "popu", "upop", "upopu", "c1", "c1c", "call", "callc", "empty"] + bulk
        cfgs = [("N", 0), ("N", 2), ("C", 1), ("C", 2), ("C", 3), ("C", 4), ("F", 1), ("F", 2), ("F", 5), ("F", 8)]
        conc = ["push", "bpush", "pop", "popu", "c1", "call"] + (["rpush:2", "rbpush:3", "cata", "catr"] if kind == "stack" else [])
        for cfg, cap in [("N", 2), ("N", 0), ("C", 3), ("F", 3)]:
            for a in conc:
                for b in conc:
                    P.append(fmt(cfg, cap, rng.randint(0, min(2, cap)), [[a, "push"], [b, "pop"]], pb=2, max=2000 if deep else 40, drain=rng.randint(0, 1), **kw))
    for _ in range(3000 if deep else 500):
        cfg, cap = rng.choice(cfgs)
        ops = [rng.choice(seqo + (["res:1", "resu:2"] if cfg == "N" else [])) for _ in range(rng.randint(2, 14))]
        P.append(fmt(cfg, cap, rng.randint(0, cap), [ops], rot=rng.randint(0, cap + 1) if cap else 0, max=1, drain=rng.randint(0, 1), **kw))
    return P


def fault_c07(kind, tier, seed):
    """allocations that fail: nothing that was allocated before is lost"""
    rng = random.Random(seed + 77)
    deep = tier == "thorough"
    kw = dict(mode="HM")
    P = []
    ops = [("push", 1), ("upush", 1), ("res:1", 1), ("res:2", 2), ("res:3", 3), ("resu:2", 2), ("resu:3", 3)]
    if kind == "stack":
        ops += [("rpush:3", 3), ("urpush:3", 3)]
    for cap in (0, 1, 2):
        for op, n in ops:
            for k in range(1, n + 1):
                P.append(fmt("N", cap, min(1, cap), [[faulty(op, "a%d" % k), "push", "pop"]], max=1, **kw))
                P.append(fmt("N", cap, 0, [[op, faulty(op, "a%d" % k)] * 2], max=1, **kw))
        for op, n in ops:
            if op[0] == "u" or op.startswith("resu"):
                continue
            for other in [["push"], ["pop", "push"], ["res:2"]]:
                P.append(fmt("N", cap, min(1, cap), [[faulty(op, "a%d" % rng.randint(1, n))], other], pb=3 if deep else 2, max=100000 if deep else 400, **kw))
    for cfg in ("N", "F"):
        for cap in (1, 2, 3):
            for k in range(1, cap + 3):
                P.append(fmt(cfg, cap, 0, [["push"]], cfault=k, max=1, **kw))
    return P
