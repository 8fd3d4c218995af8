"""Sequential properties: TLC enumerates the transitions of SeqContainer.tla, the walks below cover them all, seq.cpp replays them."""
import collections, json, os, random, re, subprocess
import vlib

VARIANTS = {
    "stack": {"push": 3, "bpush": 2, "pop": 4, "c1": 6, "call": 6, "empty": 1, "res": 2, "rpush": 12, "rbpush": 5, "cata": 6, "catr": 6},
    "queue": {"push": 3, "bpush": 2, "pop": 4, "c1": 6, "call": 6, "empty": 1, "res": 2},
    "spsc": {"push": 2, "pop": 2, "popv": 1, "pushn": 5, "popn": 2, "popi": 3, "c1": 6, "call": 6, "empty": 1, "ra": 1, "wa": 1, "front": 2, "reset": 1},
}


for k, v in VARIANTS.items():
    v.update({"use": 1, "new": 1, "mv": 1 if k == "queue" else 2, "nst": 4 if k == "stack" else 2})      # SeveralContainers.tla


def usable(kind, op, var, args, maxn):
    if kind == "spsc" and op in ("pushn", "popn") and var == 1:      # arrays have between one and six elements
        return 1 <= (len(args) if op == "pushn" else args[0]) <= 6
    return True


def base(o):
    return o.split("@")[0]


def graph(rep, kind, cls, cap, maxlen, maxfree, maxn, mapped=0, several=False):
    """mapped: number of addresses at which the container's memory is visible (MappedContainer.tla)"""
    letter = "M" if mapped else "S" if several else ""
    module = {"M": "MappedContainer.tla", "S": "SeveralContainers.tla", "": "SeqContainer.tla"}[letter]
    cfg = vlib.make_cfg("seq-%s-%s-%d.cfg" % (kind, cls, cap), """SPECIFICATION %sSpec
CONSTANTS%s
  Kind = "%s"
  Class = "%s"
  Cap = %d
  MaxLen = %d
  MaxFree = %d
  MaxN = %d
VIEW %sView
CONSTRAINT Bounds
ACTION_CONSTRAINT %sEdge
INVARIANT TypeOK
PROPERTY %s
CHECK_DEADLOCK FALSE
""" % (letter, "\n  Mappings = {%s}" % ", ".join(str(i + 1) for i in range(mapped)) if mapped else "", kind, cls, cap, maxlen, maxfree, maxn, letter, letter, {"M": "Conserved Refinement", "S": "Independent", "": "Conserved"}[letter]))
    r = vlib.tlc(module, cfg, workers=1, heap="2g")
    if r.rc != 0:
        raise vlib.CheckError("TLC on " + module + ": " + r.out[-3000:])
    edges = []
    for m in re.finditer(r'^"EDGE (.*)"$', r.out, re.M):
        e = json.loads(m.group(1).replace('\\"', '"'))
        edges.append((json.dumps(e["s"]), e["o"], e["a"], e["n"], e["d"], json.dumps(e["t"])))
    rep.add("states", r.distinct)
    rep.add("transitions", r.generated)
    if not edges:
        raise vlib.CheckError("no transitions enumerated")
    return edges


class Walks:
    def __init__(self, kind, cap, edges, maxn, rng):
        self.kind, self.cap, self.rng = kind, cap, rng
        self.out = collections.defaultdict(list)
        states = set(e[0] for e in edges)
        for e in edges:
            if e[5] in states:                       # stays within the bounds
                for v in range(VARIANTS[kind][base(e[1])]):
                    if usable(kind, base(e[1]), v, e[2], maxn):
                        self.out[e[0]].append((e, v))
        self.init = edges[0][0]
        self.lines = []
        self.covered = 0

    def route(self, frm, todo):
        """shortest path to a state with something left to do"""
        prev, dq = {frm: None}, collections.deque([frm])
        while dq:
            s = dq.popleft()
            if todo.get(s):
                path = []
                while prev[s]:
                    path.append(prev[s])
                    s = prev[s][0][0]
                return path[::-1]
            for ev in self.out[s]:
                if ev[0][5] not in prev:
                    prev[ev[0][5]] = ev
                    dq.append(ev[0][5])
        return None

    def emit(self, path):
        nxt = [0]
        conc, steps = {}, []

        def fresh():
            for _ in range(200):
                nxt[0] = nxt[0] % 120 + 1
                if nxt[0] not in conc.values():
                    return nxt[0]

        for (s, o, a, n, d, t), v in path:
            args = list(a)
            st = json.loads(s)
            who = st[4] if len(st) == 5 else 0
            if base(o) in ("push", "bpush", "rpush", "rbpush", "pushn"):
                args = []
                for x in list(conc):
                    if x[0] == who and x[1] not in st[0]:
                        del conc[x]
                for x in a:
                    conc[who, x] = fresh()
                    args.append(conc[who, x])
            dl = [conc[who, x] for x in d]
            if o == "nst":
                dl[1:1] = [conc[3 - who, x] for x in st[3][0]]
            if o == "mv":      # the accepted ones are in the other container now
                args = dl[:len(a)]
                there = [x for x in st[3][0]]
                for x in list(conc):
                    if x[0] == 3 - who and x[1] not in there:
                        del conc[x]
                for x, c in zip(a, args):
                    conc[3 - who, x] = c
                for x in d:
                    del conc[who, x]
            steps.append("%s %d %d %s %d %d %s" % (o, v, len(args), " ".join(map(str, args)), n, len(dl), " ".join(map(str, dl))))
        rest = []
        if path:
            st = json.loads(path[-1][0][5])
            rest = [conc[st[4] if len(st) == 5 else 0, x] for x in st[0]]
            if len(st) == 5:      # then that of the other container
                rest += [conc[3 - st[4], x] for x in st[3][0]]
        self.lines.append("%d 1 %d %s %d %s" % (self.cap, len(steps), " ".join(steps), len(rest), " ".join(map(str, rest))))

    def cover(self, maxlen=70):
        todo = {s: list(v) for s, v in self.out.items()}
        for v in todo.values():
            self.rng.shuffle(v)
        self.covered = sum(map(len, todo.values()))
        while True:
            at, path = self.init, []
            while len(path) < maxlen:
                if todo.get(at):
                    ev = todo[at].pop()
                    path.append(ev)
                    at = ev[0][5]
                    continue
                r = self.route(at, todo)
                if r is None or len(path) + len(r) > maxlen + 20:
                    break
                path += r
                at = path[-1][0][5] if path else at
            if not path or not any(todo.values()) and not path:
                break
            self.emit(path)
            if not any(todo.values()):
                break

    def random(self, n, length):
        for _ in range(n):
            at, path = self.init, []
            for _ in range(length):
                ops = self.out[at]
                if not ops:
                    break
                byop = collections.defaultdict(list)
                for ev in ops:
                    byop[ev[0][1]].append(ev)
                ev = self.rng.choice(byop[self.rng.choice(sorted(byop))])
                path.append(ev)
                at = ev[0][5]
            self.emit(path)


def run(rep, kind, classes, mapped=0, several=False):
    """classes: list of (class, caps, maxlen, maxfree, maxn)"""
    deep = vlib.TIER == "thorough"
    rng = random.Random(vlib.SEED)
    types = ["INT", "BIG", "CHAR"] + (["OBJ"] if kind != "queue" and not mapped else [])
    if several:
        types = ["INT", "BIG" if kind == "queue" else "OBJ"]
    jobs = {}
    for cls in classes:
        for t in types:
            jobs["seq%s%s%s" % (kind, cls[0], t)] = (["seq.cpp"], ["KIND_" + kind.upper(), "CLASS_" + cls[0], "TYPE_" + t] + (["VERIF_MAPPED=%d" % mapped] if mapped else []) + (["VERIF_SEVERAL"] if several else []), False)
    bins = build_or_report(rep, jobs, kind)
    if bins is None:
        return
    rep.cov["configurations"] = 0
    for cls, caps, ml, mf, mn in classes:
        lines = []
        for cap in caps:
            e = graph(rep, kind, cls, cap, ml(cap), mf(cap), mn(cap), mapped, several)
            w = Walks(kind, cap, e, mn(cap), rng)
            w.cover()
            w.random(400 if deep else 60, 60)
            if deep:
                w.random(40, 2000)
            rep.add("transitions_times_overloads_covered", w.covered)
            lines += w.lines
        wf = os.path.join(vlib.tmp(), "walks-%s-%s" % (kind, cls))
        open(wf, "w").write("\n".join(lines) + "\n")
        rep.add("walks", len(lines))

        def one(t):
            of = wf + "." + t
            b = bins["seq%s%s%s" % (kind, cls, t)]
            p = subprocess.run([b, wf, of], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800, preexec_fn=vlib.limits())
            if p.returncode == 3:
                raise vlib.CheckError("seq harness: " + p.stderr[-1000:])
            text = open(of).read()
            res = [json.loads(x) for x in text.split("\n") if x.startswith("{")]
            if p.returncode != 0 and not [r for r in res if "bad" in r]:
                res.append({"bad": "the process was destroyed (%d)" % p.returncode, "config": kind + " " + t, "walk": 0, "step": 0, "op": "?", "variant": 0})
            return res
        with vlib.ThreadPoolExecutor(vlib.NPROC) as ex:
            for t, res in zip(types, ex.map(one, types)):
                for r in res:
                    if "bad" in r:
                        if len(rep.violations) < 10:
                            w = lines[r["walk"]] if r["walk"] < len(lines) else ""
                            rep.violation("%s<%s>: step %d, %s variant %d: expected %s %s, got %s %s (%s)" % (
                                kind, r["config"], r["step"], r["op"], r["variant"], r.get("expected"), r.get("expected_delivered"), r.get("got"),
                                r.get("got_delivered"), r["bad"]), dict(r, kind=kind, walk_text=w))
                    else:
                        rep.add("steps_replayed", r["steps"])
                        rep.add("configurations", r["configs"])
        if lines:
            rep.sample({"kind": kind, "class": cls, "walk": lines[0][:600]})


def build_or_report(rep, jobs, kind):
    """a documented call that does not compile, while the header itself does, is a violation"""
    try:
        return vlib.build_many(jobs)
    except vlib.CompileError as e:
        src = os.path.join(vlib.tmp(), "plain.cpp")
        cont = {"stack": "stack", "queue": "queue", "spsc": "spsc_queue"}[kind]
        open(src, "w").write("#include <boost/lockfree/%s.hpp>\nint main() { boost::lockfree::%s<int, boost::lockfree::capacity<3>> c; int i; c.push(1); return !c.pop(i); }\n" % (cont, cont))
        p = subprocess.run(vlib.compile_cmd([src], src + ".out", [], False, ["-latomic"]), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise
        rep.violation("a documented call does not compile although the header does: " + e.log[-600:].replace("\n", " "), {"property": rep.pid, "log": e.log[-6000:]})
        return None
