"""Infrastructure shared by all checks: build the harness from /repo, explore, run TLC, report."""
import atexit, hashlib, json, os, random, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
NPROC = min(8, os.cpu_count() or 8)
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

_tmp = None


def tmp():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="lfv-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


class CheckError(Exception):
    pass


class CompileError(Exception):
    pass


def elapsed():
    return time.time() - T0


# ---------------------------------------------------------------- building
CXX = ["g++", "-std=c++17", "-O1", "-fno-lifetime-dse", "-w", "-DBOOST_LOCKFREE_VERIF_HOOKS",
       "-I" + VERIF + "/harness/include", "-I" + VERIF + "/harness", "-I" + REPO + "/include"]
OFF_OPT = "-O0"
HOOK_OFF = ["g++", "-std=c++17", OFF_OPT, "-w", "-I" + VERIF + "/harness", "-I" + REPO + "/include"]


def compile_cmd(src, out, defs=(), hooks=True, extra=()):
    return (CXX if hooks else HOOK_OFF) + ["-D" + d for d in defs] + list(src) + ["-o", out] + list(extra)


def build_many(jobs):
    """jobs: {name: (sources, defs, hooks[, plain])} -> {name: path}; raises CompileError
    plain: the first source reports its plain memory accesses too (compiled with -fsanitize=thread, rt.cpp has the functions)"""
    def one(item):
        name, (src, defs, hooks) = item[0], item[1][:3]
        out = os.path.join(tmp(), name)
        files = [s if s.startswith("/") else VERIF + "/harness/" + s for s in src]
        if len(item[1]) > 3 and item[1][3]:
            cmd = compile_cmd(files[:1], out + ".o", defs, hooks, ["-c", "-fsanitize=thread"])
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                return name, out, p.returncode, p.stdout, cmd
            subprocess.run(["objcopy"] + ["--redefine-sym=%s=verif_%s" % (f, f) for f in ("memcpy", "memmove", "memset")] + [out + ".o"], check=True)
            files[0] = out + ".o"
        cmd = compile_cmd(files, out, defs, hooks, ["-latomic"])
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return name, out, p.returncode, p.stdout, cmd
    res = {}
    with ThreadPoolExecutor(NPROC) as ex:
        for name, out, rc, txt, cmd in ex.map(one, jobs.items()):
            if rc:
                e = CompileError("build of %s failed: %s\n%s" % (name, " ".join(cmd), txt[-4000:]))
                e.log = txt
                raise e
            res[name] = out
    return res


def limits(mem_gb=6):
    def f():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


# ---------------------------------------------------------------- exploration
class Exploration:
    def __init__(self):
        self.lines = []          # raw JSON lines of histories
        self.executions = 0
        self.points = 0
        self.programs = 0
        self.exhausted = 0
        self.distinct = 0
        self.crashes = []


def dies(binary, program):
    """does this program destroy the process (memory corruption beyond what the harness can report)?"""
    d = tempfile.mkdtemp(dir=tmp())
    open(d + "/p", "w").write(program + "\n")
    p = subprocess.run([binary, d + "/p", d + "/o"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, preexec_fn=limits(), timeout=300)
    return p.returncode < 0 and p.returncode != -9


def explore(binary, programs, timeout=600, shards=NPROC, cap=None, weight=None):
    """programs: list of program lines (without id); returns Exploration. Program id = index in list.
    cap: no more than about 4 * cap histories are kept, by program (those of largest weight first, then by hash)"""
    share = max(200, 4 * cap // max(1, len(programs))) if cap else None

    def keep(group):
        ex.distinct += len(group)
        lines = list(group.values())
        if share and len(lines) > share:
            bad = [x for x in lines if '"e":"X"' in x]
            rest = sorted((x for x in lines if '"e":"X"' not in x), key=lambda x: (-weight(x) if weight else 0, hashlib.md5((str(SEED) + strip(x)).encode()).digest()))
            lines = bad + rest[:share]
        ex.lines.extend(lines)
        group.clear()
    progs = ["id=%d %s" % (i, p) for i, p in enumerate(programs)]
    d = tempfile.mkdtemp(dir=tmp())
    procs = []
    order = list(range(len(progs)))
    random.Random(12345).shuffle(order)      # balance the shards
    for k in range(shards):
        mine = [progs[i] for i in order[k::shards]]
        if not mine:
            continue
        pf, of = "%s/p%d" % (d, k), "%s/o%d" % (d, k)
        open(pf, "w").write("\n".join(mine) + "\n")
        procs.append((subprocess.Popen([binary, pf, of], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits()), of, mine))
    ex = Exploration()
    deadline = time.time() + timeout
    for p, of, mine in procs:
        nprog = len(mine)
        try:
            err = p.communicate(timeout=max(1, deadline - time.time()))[1]
        except subprocess.TimeoutExpired:
            for q, _, _ in procs:
                q.kill()
            raise CheckError("exploration ran out of time")
        died = p.returncode < 0 and p.returncode != -9
        if p.returncode != 0 and not died:
            raise CheckError("harness exit %s: %s" % (p.returncode, err.decode(errors="replace")[-2000:]))
        seen = 0
        if died:        # the process itself was destroyed: by which program?
            text = open(of, errors="replace").read()
            text = text[:text.rfind("\n") + 1]
            n = text.count('{"stat"')
            last = text.rfind('{"stat"')
            text = text[:text.index("\n", last) + 1] if last >= 0 else ""
            if n < nprog and dies(binary, mine[n]):
                ex.crashes.append({"crash": "signal %d" % -p.returncode, "p": int(mine[n].split()[0][3:]), "dead": True})
            else:
                raise CheckError("harness died with signal %d and not again" % -p.returncode)
        group = {}
        for line in (text.splitlines(True) if died else open(of, errors="replace")):
            if line.startswith('{"stat"'):
                keep(group)
                s = json.loads(line)
                seen += 1
                ex.executions += s["ex"]
                ex.points += s["pts"]
                ex.exhausted += s["done"]
            elif line.startswith('{"crash"'):
                ex.crashes.append(json.loads(line))
                seen = nprog
            else:
                group.setdefault(hashlib.md5(strip(line).encode()).digest(), line)
        keep(group)
        os.unlink(of)
        if died:
            seen = nprog
        ex.programs += seen
        if seen != nprog:
            raise CheckError("harness ended early (%d of %d programs)" % (seen, nprog))
    shutil.rmtree(d, True)
    ex.lines.sort(key=lambda s: hashlib.md5(s.encode()).digest())
    return ex


def strip(line):
    """history without program id and schedule: what the specification sees"""
    i = line.index('"cfg"')
    return "{" + line[i:]


def dedupe(lines, cap=None, seed=SEED, weight=None):
    """distinct histories (up to program id / schedule); at most cap of them, chosen by hash, every program in turn (those
    of largest weight first).  Histories with an abnormal event are always kept."""
    seen, out = set(), []
    for x in lines:
        k = strip(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    n = len(out)
    if cap and n > cap:
        bad, groups = [], {}
        for x in out:
            if '"e":"X"' in x:
                bad.append(x)
            else:
                groups.setdefault(x[:x.index(",")], []).append(x)
        rest = []
        for g in groups.values():
            h = {x: hashlib.md5((str(seed) + strip(x)).encode()).digest() for x in g}
            g.sort(key=lambda x: (-weight(x) if weight else 0, h[x]))
            rest += [(i, h[x], x) for i, x in enumerate(g)]
        rest.sort()
        out = bad + [x for _, _, x in rest[:max(0, cap - len(bad))]]
    return out, n


# ---------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self):
        self.generated = self.distinct = 0
        self.out = ""
        self.rc = None


def tlc(spec, cfg, env=None, workers=1, heap="2g", timeout=600, dfs=False, extra=(), serial=True, coverage=False):
    meta = tempfile.mkdtemp(dir=tmp())
    cmd = ["java", "-Xmx" + heap, "-XX:+UseSerialGC" if serial else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           "-Djava.io.tmpdir=" + meta]
    if dfs:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg]
    cmd += list(extra) + [spec]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=VERIF + "/spec", env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on %s" % spec)
    r = TlcResult()
    r.out, r.rc = p.stdout, p.returncode
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", p.stdout)
    if m:
        r.generated, r.distinct = int(m.group(1)), int(m.group(2))
    shutil.rmtree(meta, True)
    return r


def make_cfg(name, text):
    path = os.path.join(tmp(), name)
    open(path, "w").write(text)
    return path


def tlc_traces(spec, cfg, lines, timeout=600, shards=NPROC, heap="2g", env=None, min_shard=200):
    per = 2 if env and "TWO" in env else 1      # behaviours per line
    """Run the trace specification on all histories. Returns (rejected [(index, furthest)], generated, distinct)."""
    if not lines:
        return [], 0, 0
    n = max(1, min(shards, (len(lines) + min_shard - 1) // min_shard))
    parts = [list(range(k, len(lines), n)) for k in range(n)]

    def one(k):
        f = os.path.join(tmp(), "tr-%s-%d.json" % (os.path.basename(spec), k))
        with open(f, "w") as h:
            for i in parts[k]:
                h.write(strip(lines[i]))
        e = {"TRACE_FILE": f}
        e.update(env or {})
        r = tlc(spec, cfg, e, dfs=True, timeout=timeout, heap=heap)
        os.unlink(f)
        m = re.search(r'"REJECTED",\s*(\{.*?\})\s*>>\s', r.out, re.S)
        at = re.findall(r"^/\\ tid = (\d+)$", r.out, re.M), re.findall(r"^/\\ l = (\d+)$", r.out, re.M)
        if r.rc == 75 and at[0] and at[1]:
            # an event that the specification has no meaning for (a result that is not of the right shape): not a behaviour
            return [(parts[k][(int(at[0][-1]) - 1) // per], int(at[1][-1]))], r.generated, r.distinct
        if r.rc != 0 or not m:
            raise CheckError("TLC failed on %s (rc %s):\n%s" % (spec, r.rc, "\n".join(x for x in r.out.split("\n") if not re.match(r"\s*<<", x))[-5000:]))
        rej = sorted({parts[k][(int(a) - 1) // per]: int(b) for a, b in re.findall(r"<<(\d+),\s*(\d+)>>", m.group(1))}.items())
        return rej, r.generated, r.distinct
    rej, g, d = [], 0, 0
    with ThreadPoolExecutor(n) as ex:
        for a, b, c in ex.map(one, range(n)):
            rej += a
            g += b
            d += c
    return rej, g, d


# ---------------------------------------------------------------- reporting
class Report:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.cov = {}
        self.assumptions = []
        self.violations = []
        self.notes = []
        self.known = []
        for line in open(VERIF + "/KNOWN_FINDINGS.txt"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                self.known.append((m.group(2), m.group(3).strip()))
        os.makedirs(VERIF + "/evidence", exist_ok=True)

    def add(self, key, n):
        self.cov[key] = self.cov.get(key, 0) + n

    def sample(self, x):
        self.cov.setdefault("samples", [])
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def violation(self, what, replay):
        n = len(self.violations)
        path = "%s/evidence/replay-%s-%d.json" % (VERIF, self.pid, n)
        json.dump(replay, open(path, "w"), indent=1)
        self.violations.append((what, path))

    def finish(self):
        ev = {"property": self.pid, "tier": "thorough" if TIER == "thorough" else "quick", "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions, "wall_s": round(elapsed(), 2), "violations": len(self.violations)}
        json.dump(ev, open("%s/evidence/%s.json" % (VERIF, self.pid), "w"), indent=1)
        for n in self.notes:
            print("NOTE: " + n)
        for what, path in self.violations[:10]:
            print("violated: " + what)
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not self.violations:
            print("OK property=%s %s" % (self.pid, json.dumps({k: v for k, v in self.cov.items() if isinstance(v, (int, float))})))
        sys.stdout.flush()
        return 1 if self.violations else 0


def replay_history(binary, program, schedule):
    d = tempfile.mkdtemp(dir=tmp())
    open(d + "/p", "w").write("id=0 " + program + "\n")
    subprocess.run([binary, d + "/p", d + "/o", "--replay", schedule or "-"], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, preexec_fn=limits(), timeout=120)
    for line in open(d + "/o"):
        if '"ev"' in line:
            return line
    return None


def conc_check(rep, binary, programs, spec, cfg, cap=None, timeout=700, env=None, label="", max_report=3, abnormal=True, weight=None):
    """explore + validate + confirm; the work horse of the concurrent properties"""
    if cap is None and TIER == "thorough":
        cap = 400000
    ex = explore(binary, programs, timeout=timeout, cap=cap, weight=weight)
    lines, distinct = dedupe(ex.lines, cap, weight=weight)
    distinct = max(distinct, ex.distinct)
    t1 = time.time()
    rej, g, d = tlc_traces(spec, cfg, lines, timeout=timeout, env=env)
    rep.add("programs", len(programs))
    rep.add("programs_exhausted_within_bound", ex.exhausted)
    rep.add("executions", ex.executions)
    rep.add("scheduling_points", ex.points)
    rep.add("histories_distinct", distinct)
    rep.add("traces_validated_against_impl", len(lines))
    rep.add("states", d)
    rep.add("transitions", g)
    for x in lines[:1]:
        rep.sample({"program": programs[json.loads(x)["p"]], "schedule": json.loads(x)["s"], "history": json.loads(x)["ev"]})
    for c in [c for c in ex.crashes if c.get("dead")][:max_report]:
        rep.violation("%s%s: the program destroys its process (%s, twice)" % (label, programs[c["p"]], c["crash"]),
                      {"property": rep.pid, "binary": os.path.basename(binary), "program": programs[c["p"]], "crash": c["crash"]})
    rej.sort(key=lambda r: len(lines[r[0]]))
    shown = 0
    unconfirmed = []
    for idx, far in rej:
        if shown >= max_report:
            break
        h = json.loads(lines[idx])
        prog = programs[h["p"]]
        # confirm: same schedule again on the real code, and that history alone through TLC
        again = replay_history(binary, prog, h["s"])
        if again is None or strip(again) != strip(lines[idx]):
            if '"e":"X"' not in lines[idx]:
                unconfirmed.append((prog, h["s"]))
                if len(unconfirmed) > 20:
                    break
                continue
        else:
            r2 = tlc_traces(spec, cfg, [again], env=env)[0]
            if not r2:
                raise CheckError("a rejected history was accepted when checked alone: %s %s" % (prog, h["s"]))
        shown += 1
        ev = h["ev"]
        at = ev[far - 1] if 0 < far <= len(ev) else None
        rep.violation("%s%s: history not allowed by %s, stops at event %d %s" % (label, prog, spec, far, json.dumps(at)),
                      {"property": rep.pid, "binary": os.path.basename(binary), "program": prog, "schedule": h["s"], "spec": spec,
                       "furthest_event": far, "event": at, "history": ev, "cfg": h["cfg"], "cap": h["cap"], "init": h["init"]})
    if unconfirmed and not rep.violations:
        raise CheckError("a rejected history was not reproduced by its schedule: %s" % (unconfirmed[0],))
    return ex, lines
