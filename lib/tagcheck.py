"""Tagged handles: every transition of TaggedHandle.tla on every handle class."""
import json, os, re, subprocess
import vlib

# (addresses, tags): all three variables over few tags; and one handle over all 2^16 tags (sampled by stride in the quick tier)
MODELS = [("{0, 1, 2}", "{0, 1, 65535}"), ("{0, 1}", "{0, 255, 256, 65535}"), ("{0, 1}", "{32767, 32768, 0, 65534}"), ("{0, 2}", "{0, 1, 4095, 4096}"), ("{0, 1}", "{65280, 65279, 0}")]


def edges(rep, addrs, tags, extra=""):
    cfg = vlib.make_cfg("tagged%d.cfg" % abs(hash((addrs, tags, extra))), """SPECIFICATION Spec
CONSTANTS Addrs = %s
 Tags = %s
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT TypeOK
PROPERTY Independent
CHECK_DEADLOCK FALSE
%s
""" % (addrs, tags, extra))
    r = vlib.tlc("TaggedHandle.tla", cfg, workers=1, heap="3g")
    if r.rc != 0:
        raise vlib.CheckError("TLC on TaggedHandle: " + r.out[-2000:])
    rep.add("states", r.distinct)
    rep.add("transitions", r.generated)
    out = []
    for m in re.finditer(r'^"EDGE (.*)"$', r.out, re.M):
        e = json.loads(m.group(1).replace('\\"', '"'))
        flat = []
        for x in e:
            flat += x if isinstance(x, list) else [x]
        out.append(" ".join(map(str, flat)))
    if not out:
        raise vlib.CheckError("no transitions enumerated")
    return out


def alltags(rep, name):
    """the life of one handle through the whole circle of tags"""
    cfg = vlib.make_cfg("tagcircle.cfg", """SPECIFICATION Spec1
CONSTANTS Addrs = {0, 1}
 Tags <- AllTags
VIEW View
ACTION_CONSTRAINT Edge
INVARIANT TypeOK1
CHECK_DEADLOCK FALSE
""")
    r = vlib.tlc("TagCircle.tla", cfg, workers=1, heap="3g")
    if r.rc != 0:
        raise vlib.CheckError("TLC on TagCircle: " + r.out[-2000:])
    rep.add("states", r.distinct)
    rep.add("transitions", r.generated)
    out = []
    for m in re.finditer(r'^"EDGE (.*)"$', r.out, re.M):
        e = json.loads(m.group(1).replace('\\"', '"'))
        flat = []
        for x in e:
            flat += x if isinstance(x, list) else [x]
        out.append(" ".join(map(str, flat)))
    return out


def run(rep):
    src = ["tagged.cpp"]
    jobs = {"tagptr": (src, [], False), "tagptrd": (src, ["VERIF_DCAS"], False), "tagidx": (src, ["HANDLE_INDEX"], False)}
    bins = {}
    for k, j in jobs.items():
        try:
            bins.update(vlib.build_many({k: j}))
        except vlib.CompileError as e:      # internal classes: a tree that renamed them is not wrong
            rep.notes.append("%s cannot be used directly: %s" % (k, e.log[-300:].replace("\n", " ")))
    if not bins:
        return
    with vlib.ThreadPoolExecutor(vlib.NPROC) as ex:
        parts = list(ex.map(lambda m: edges(rep, *m), MODELS)) + [alltags(rep, "circle")]
    f1, f2 = os.path.join(vlib.tmp(), "edges"), os.path.join(vlib.tmp(), "circle")
    open(f1, "w").write("\n".join(sorted(set(sum(parts[:-1], [])))) + "\n")
    open(f2, "w").write("\n".join(parts[-1]) + "\n")
    n = 10 if vlib.TIER == "quick" else 400
    todo = [(k, b, f) for k, b in bins.items() for f in (f1, f2)]

    def go(job):
        k, b, f = job
        of = f + "." + k
        p = subprocess.run([b, f, of, str(vlib.SEED), str(n if f == f1 else n // 5)] + ([] if f == f1 else ["few"]), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=800, preexec_fn=vlib.limits())
        if p.returncode == 3:
            raise vlib.CheckError("tagged harness: " + p.stderr[-500:])
        return p.returncode, [json.loads(x) for x in open(of) if x.endswith("}\n")]
    with vlib.ThreadPoolExecutor(vlib.NPROC) as ex:
        results = list(ex.map(go, todo))
    for (k, b, f), (rc, rows) in zip(todo, results):
        for r in rows:
            if "bad" in r:
                if len(rep.violations) < 6:
                    rep.violation("%s: %s wrong after %s%s from %s, addresses %s" % (k, r["bad"], r["op"], r["arg"], r["from"], r["addresses"]), dict(r, property=rep.pid, handle=k))
            else:
                rep.add("transitions_replayed", r["done"])
        if rc != 0 and not rep.violations:
            rep.violation("%s: the process is destroyed (%d)" % (k, rc), {"property": rep.pid, "handle": k, "exit": rc})
    rep.sample({"edge": parts[0][0]})
