"""Algorithm-level specifications (TreiberStack, MSQueue, SpscRing): model checked by TLC on bounded instances, mutated
(every fault of the model must be refuted), and compared with the code by replaying recorded atomic operations."""
import json, os, re, subprocess, tempfile, threading
import vlib, progs
from vlib import CheckError, TIER, SEED

DEEP = TIER == "thorough"

NODES = """SPECIFICATION %(spec)s
CONSTANTS Thread = {%(threads)s}
 Progs <- AllProgs
 Ops = {%(ops)s}
 MaxLen = %(maxlen)d
 MaxTotal = %(total)d
 Init0 <- Content%(init)d
 Nodes = %(nodes)d
 MaxNodes = %(maxnodes)d
 TagMod = %(tagmod)d
 Spurious = %(spurious)s
 Faults = {%(faults)s}
INVARIANTS %(inv)s
%(prop)s
CHECK_DEADLOCK FALSE
"""
RING = """SPECIFICATION Spec
CONSTANTS Thread = {0, 1, 2}
 Progs <- AllProgs
 Init0 <- Content%(init)d
 Choice <- AnyMessage
 Size = %(size)d
 SC = %(sc)s
 Rotated = %(rot)d
 Ord <- %(ord)s
 Faults = {%(faults)s}
 MaxP = %(maxp)d
 MaxC = %(maxc)d
 Batch = %(batch)d
INVARIANTS NoRace Fifo InRange Count Answers
CHECK_DEADLOCK FALSE
"""
q = lambda s: ", ".join('"%s"' % x for x in s.split())


def nodes_cfg(kind, ops, maxlen=2, total=3, init=1, nodes=3, maxnodes=4, threads=2, faults="", solo=False, spurious=False, tagmod=8):
    inv = {"stack": "Lists Stable Conserved", "queue": "Answers Owners TailOK"}[kind]
    return NODES % dict(spec="SpecSolo" if solo else "Spec", threads=", ".join(str(i + 1) for i in range(threads)), ops=q(ops), maxlen=maxlen, total=total,
                        init=init, nodes=nodes, maxnodes=maxnodes, tagmod=tagmod, spurious=str(spurious).upper(), faults=q(faults),
                        inv="SoloBound" if solo else inv, prop="" if solo else "PROPERTY Refines")


def ring_cfg(size=3, rot=1, init=0, sc=False, ord="Real", faults="", maxp=3, maxc=3, batch=2):
    return RING % dict(size=size, rot=rot, init=init, sc=str(sc).upper(), ord=ord, faults=q(faults), maxp=maxp, maxc=maxc, batch=batch)


def apalache(module, cinit, init, inv, length):
    """True: no counterexample; False: counterexample; None: no answer"""
    d = tempfile.mkdtemp(dir=vlib.tmp())
    cmd = ["apalache-mc", "check", "--cinit=" + cinit, "--init=" + init, "--inv=" + inv, "--length=%d" % length, "--out-dir=" + d, "--run-dir=" + d + "/run", vlib.VERIF + "/spec/" + module]
    e = dict(os.environ, JVM_ARGS="-Xmx2g -Djava.io.tmpdir=" + d)
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=400)
    except (subprocess.TimeoutExpired, OSError):
        return None
    if "The outcome is: NoError" in p.stdout:
        return True
    return False if "The outcome is: Error" in p.stdout else None


# the ring buffer for every size: base case, inductive step, what follows from the invariant
RINGPROOF = [("ring of any size: the invariant holds initially", "RingProof.tla", ("CInit", "Init", "Inductive", 0), False),
             ("ring of any size: every step keeps the invariant", "RingProof.tla", ("CInit", "IndInit", "Inductive", 1), False),
             ("ring of any size: elements intact and in order, observers exact", "RingProof.tla", ("CInit", "IndInit", "Goal", 0), False)]
RINGWRONG = [("ring of any size: " + c, "RingProof.tla", (c, "IndInit", inv, n), True)
             for c, inv, n in (("CAllSlots", "Inductive", 1), ("CWaStrict", "Goal", 0), ("CNoReset", "Inductive", 1), ("CPublish", "Inductive", 1), ("CPeek", "Inductive", 1))]


class Models:
    """TLC runs on algorithm models next to the exploration of the code"""
    def __init__(self, rep, runs, workers=2):
        self.rep, self.runs, self.res, self.proved, self.err = rep, runs, [], [], None
        self.workers = workers
        self.t = threading.Thread(target=self.go, daemon=True)
        self.t.start()

    def go(self):
        try:
            for i, (name, module, cfg, refuted) in enumerate(self.runs):
                if isinstance(cfg, tuple):
                    ok = apalache(module, *cfg)
                    if ok is None:
                        self.rep.notes.append("Apalache gave no answer on %s (%s)" % (module, name))
                    elif ok == refuted:
                        raise CheckError("%s: %s" % (module, ("the mistake %s of the model is not refuted" if refuted else "%s is not proved") % name))
                    else:
                        self.proved.append((name, refuted))
                    continue
                c = vlib.make_cfg("design-%s-%d.cfg" % (self.rep.pid, i), cfg)
                r = vlib.tlc(module, c, workers=self.workers, heap="4g", timeout=3000 if DEEP else 500, serial=False)
                bad = "is violated" in r.out or "violated by" in r.out or "Assert" in r.out or "exception" in r.out
                if refuted:
                    if r.rc == 0 or not bad:
                        raise CheckError("the mistake %s of the model is not refuted: rc %s\n%s" % (name, r.rc, r.out[-1500:]))
                elif r.rc != 0:
                    raise CheckError("the model %s fails: rc %s\n%s" % (name, r.rc, r.out[-3000:]))
                self.res.append((name, refuted, r.distinct))
        except BaseException as e:
            self.err = e

    def finish(self):
        self.t.join()
        if self.err:
            if self.rep.violations:
                return
            raise self.err
        held = [(n, d) for n, ref, d in self.res if not ref]
        if self.proved:
            self.rep.cov["proved_for_all_sizes"] = [n for n, ref in self.proved if not ref]
            if any(ref for _, ref in self.proved):
                self.rep.cov["mistakes_refuted_by_the_prover"] = [n for n, ref in self.proved if ref]
        self.rep.cov["algorithm_models"] = {n: "holds in all of %d states" % d for n, d in held}
        if any(ref for _, ref, _ in self.res):
            self.rep.cov["algorithm_mistakes_refuted"] = [n for n, ref, _ in self.res if ref]
        self.rep.add("algorithm_model_states", sum(d for _, d in held))


TRACE = """SPECIFICATION TSpec
CONSTANTS Thread = {1, 2, 3, 4}
 Progs = {}
 Init0 = 0
 Nodes = 0
 MaxNodes = 24
 TagMod = 65536
 Spurious = TRUE
 Faults = {}
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
"""
RTRACE = """SPECIFICATION TSpec
CONSTANTS Thread = {0, 1, 2}
 Progs = {0}
 Init0 <- Content%d
 Choice <- ThisMessage
 Size = %d
 SC = FALSE
 Rotated = %d
 Ord <- RealOrders
 Faults = {}
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
"""


def conform(rep, binary, programs, module, cfg, cap):
    """Do recorded executions follow the algorithm model step by step?  Only reported: a tree that behaves as the properties
    say may well use another algorithm, but then the results about the model say nothing about it."""
    try:
        ex = vlib.explore(binary, programs, cap=cap)
        lines, n = vlib.dedupe(ex.lines, cap)
        rej, g, d = vlib.tlc_traces(module, cfg, lines)
    except CheckError as e:
        rep.notes.append("conformance to the algorithm model was not determined: " + str(e)[:300].replace("\n", " "))
        return
    rep.add("algorithm_traces_replayed", len(lines))
    rep.add("algorithm_traces_conforming", len(lines) - len(rej))
    if rej:
        i, f = min(rej, key=lambda r: len(lines[r[0]]))
        h = json.loads(lines[i])
        rep.notes.append("the code does not follow the algorithm model %s (%d of %d executions differ, e.g. %s schedule %s at event %d): "
                         "results about the model do not carry over to this tree" % (module, len(rej), len(lines), programs[h["p"]], h["s"], f))


def pick(P, n, without=()):
    """n programs of the list, spread evenly, with atomic operations recorded"""
    P = [p for p in P if not any(w in p for w in without)]
    n = min(n, len(P))
    out = []
    for p in [P[(i * len(P) + SEED) // n % len(P)] for i in range(n)]:
        p = re.sub(r" (max|rand)=\d+", "", p)
        out.append(p.replace(" | ", " max=%d mode=HA | " % (20000 if DEEP else 400), 1))
    return out


def conform_nodes(rep, kind, binary, P):
    conform(rep, binary, pick(P, 2000 if DEEP else 150), {"stack": "TraceTreiber.tla", "queue": "TraceMSQueue.tla"}[kind],
            vlib.make_cfg("conf-%s.cfg" % rep.pid, TRACE), 40000 if DEEP else 1200)


def conform_ring(rep, binary):
    prods = [["push"], ["push", "push"], ["pushr:2"], ["pushp:2", "push"], ["pusha:3"], ["pushr:0", "push"]]
    conss = [["pop", "pop"], ["popp:2"], ["popa:2", "popu"], ["popi"], ["popi", "popi"], ["c1", "c1c"], ["call"], ["callc", "pop"], ["popp:2", "call"]]
    for cap, rot, init in [(1, 0, 0), (2, 1, 1), (3, 3, 2)] if DEEP else [(2, 1, 1)]:
        P = [progs.fmt("CR"[(i + j) % 2], cap, init, [a, c], rot=rot, pb=3, sr=1, max=3000 if DEEP else 600, mode="HA") for i, a in enumerate(prods) for j, c in enumerate(conss)]
        conform(rep, binary, P, "TraceRing.tla", vlib.make_cfg("conf-%s-%d.cfg" % (rep.pid, cap), RTRACE % (init, cap + 1, rot % (cap + 1))), 8000 if DEEP else 1200)


# ---------------------------------------------------------------- which models belong to which property
INF = """SPECIFICATION ISpec
CONSTANTS Thread = {%(threads)s}
 Progs <- Nothing
 Ops = {%(ops)s}
 Values = {1, 2}
 Init0 <- Content0
 Nodes = %(nodes)d
 MaxNodes = %(maxnodes)d
 TagMod = 1000000000
 Spurious = FALSE
 Faults = {%(faults)s}
VIEW InfView
INVARIANTS %(inv)s
PROPERTY Refines
CHECK_DEADLOCK FALSE
"""


def inf_cfg(kind, ops, nodes, maxnodes=None, threads=2, faults=""):
    return INF % dict(threads=", ".join(str(i + 1) for i in range(threads)), ops=q(ops), nodes=nodes, maxnodes=maxnodes or nodes, faults=q(faults),
                      inv={"stack": "Lists Stable Conserved", "queue": "Answers Owners TailOK"}[kind])


def c01_runs():
    R = [("TreiberStack refines the stack (2 threads, push/bounded_push/pop/reserve)", "MCTreiber.tla", nodes_cfg("stack", "push bpush pop res"), False)]
    if DEEP:
        R += [("TreiberStack, 4 calls, consume_all_atomic", "MCTreiber.tla", nodes_cfg("stack", "push bpush pop cata", total=4), False),
              ("TreiberStack, 3 threads", "MCTreiber.tla", nodes_cfg("stack", "push pop", maxlen=2, total=4, threads=3), False),
              ("TreiberStack, spurious failures", "MCTreiber.tla", nodes_cfg("stack", "push pop", spurious=True), False),
              ("TreiberStack, consume_all", "MCTreiber.tla", nodes_cfg("stack", "push pop call", total=4), False),
              ("TreiberStack, histories of any length, 2 nodes", "MCTreiberInf.tla", inf_cfg("stack", "push bpush pop", 2), False),
              ("TreiberStack, histories of any length, 3 nodes", "MCTreiberInf.tla", inf_cfg("stack", "bpush pop", 3), False),
              ("TreiberStack, histories of any length, 2 nodes, bulk", "MCTreiberInf.tla", inf_cfg("stack", "bpush pop cata", 2), False)]
        R += [("stack, any length: " + f, "MCTreiberInf.tla", inf_cfg("stack", "bpush pop", 3, faults=f), True) for f in ("notag", "popnotag")]
        R += [("stack: " + f, "MCTreiber.tla", nodes_cfg("stack", "push pop" + (" cata" if f == "alltag" else ""), maxlen=3, total=4, faults=f), True)
              for f in ("notag", "pushstale", "popnotag", "freetag", "alltag")]
    return R


def c04_runs():
    R = [("TreiberStack refines the stack (2 threads, ranges and bulk removals)", "MCTreiber.tla",
          nodes_cfg("stack", "rpush rbpush cata catr pop", maxlen=1 if not DEEP else 2, total=2 if not DEEP else 4, init=2 if not DEEP else 1, nodes=4, maxnodes=5), False)]
    if DEEP:
        R += [("TreiberStack, 3 threads, bulk", "MCTreiber.tla", nodes_cfg("stack", "rpush cata pop", maxlen=1, total=3, threads=3), False)]
    return R


def c02_runs():
    R = [("MSQueue refines the queue (2 threads, push/bounded_push/pop/reserve)", "MCQueue.tla", nodes_cfg("queue", "push bpush pop res"), False)]
    if DEEP:
        R += [("MSQueue, 4 calls", "MCQueue.tla", nodes_cfg("queue", "push bpush pop", total=4), False),
              ("MSQueue, 5 calls, 3 per thread", "MCQueue.tla", nodes_cfg("queue", "push pop", maxlen=3, total=5), False),
              ("MSQueue, 3 threads", "MCQueue.tla", nodes_cfg("queue", "push pop", maxlen=2, total=4, threads=3), False),
              ("MSQueue, spurious failures", "MCQueue.tla", nodes_cfg("queue", "push pop", spurious=True), False),
              ("MSQueue, histories of any length, 3 nodes", "MCQueueInf.tla", inf_cfg("queue", "bpush pop", 3), False)]
        R += [("queue, any length: " + f, "MCQueueInf.tla", inf_cfg("queue", "bpush pop", 3, faults=f), True) for f in ("headtag", "tailtag")]
        R += [("queue: " + f, "MCQueue.tla", nodes_cfg("queue", "push pop", maxlen=4, total=5, faults=f), True)
              for f in ("headtag", "nexttag", "tailtag", "ctortag", "nohead2", "notail2", "nohelp", "copyafter")]
    return R


def c05_runs():
    R = [("TreiberStack: nodes of a list that reserve() extends (3 threads)", "MCTreiber.tla", nodes_cfg("stack", "push pop res", maxlen=1, total=3, threads=3, maxnodes=5), False),
         ("MSQueue: nodes of a list that reserve() extends", "MCQueue.tla", nodes_cfg("queue", "push pop res", total=4, maxnodes=5), False)]
    if DEEP:
        R += [("TreiberStack, reserve next to bulk removals", "MCTreiber.tla", nodes_cfg("stack", "bpush pop cata res", total=4, maxnodes=5), False),
              ("MSQueue, 3 threads, reserve", "MCQueue.tla", nodes_cfg("queue", "push pop res", maxlen=1, total=3, threads=3, maxnodes=5), False),
              ("free list overwritten by reserve", "MCTreiber.tla", nodes_cfg("stack", "push pop res", faults="resnosync"), True)]
    return R


def c03_runs():
    R = [("SpscRing on the release/acquire memory model, 3 cells", "MCRing.tla", ring_cfg(), False),
         ("SpscRing, 2 cells", "MCRing.tla", ring_cfg(size=2, rot=0), False),
         ("SpscRing, sequentially consistent, 3 cells", "MCRing.tla", ring_cfg(sc=True), False)] + RINGPROOF
    if DEEP:
        R += [("SpscRing, 4 cells, batches of 3", "MCRing.tla", ring_cfg(size=4, maxp=3, maxc=3, batch=3, init=1), False)]
        R += [("ring: " + f, "MCRing.tla", ring_cfg(faults=f), True) for f in ("publishfirst", "releasefirst")] + RINGWRONG
    return R


def c09_runs():
    R = [("SpscRing: no data race with the orders of the implementation", "MCRing.tla", ring_cfg(maxp=2, maxc=3), False)]
    R += [("ring order weakened: " + o, "MCRing.tla", ring_cfg(ord=o, maxp=2 if not DEEP else 3), True) for o in ("RPushSees", "RPublish", "RPopSees", "RRelease")]
    return R


def c10_runs():
    R = [("TreiberStack: a call that runs alone ends within a bound", "MCTreiber.tla", nodes_cfg("stack", "push pop cata", total=3 if DEEP else 2, solo=True), False),
         ("MSQueue: a call that runs alone ends within a bound", "MCQueue.tla", nodes_cfg("queue", "push pop", total=4 if DEEP else 3, solo=True), False)]
    if DEEP:
        R += [("TreiberStack, 3 threads: running alone", "MCTreiber.tla", nodes_cfg("stack", "push pop", maxlen=1, total=3, threads=3, solo=True), False),
              ("MSQueue, 3 threads: running alone", "MCQueue.tla", nodes_cfg("queue", "push pop", maxlen=1, total=3, threads=3, solo=True), False)]
    return R
