"""The checks, one function per property."""
import json, os, random, re, sys, time
import vlib, progs, seqcheck, sizecheck, tagcheck, design
from vlib import Report, SEED, TIER, VERIF


def trace_cfg(name, kind, strict=False, check_empty=True, threads=4, mem=False):
    return vlib.make_cfg(name, """SPECIFICATION TSpec
CONSTANTS
  Kind = "%s"
  Strict = %s
  CheckEmpty = %s
  CheckMem = %s
  Owner = 7
  Thread = {%s}
INVARIANT TypeOK
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""" % (kind, str(strict).upper(), str(check_empty).upper(), str(mem).upper(), ", ".join(str(i) for i in range(1, threads + 1))))


RULE = ("distinct canonical histories of real executions, each produced by enumerating the schedules of a client program on the real "
        "container; non-trivial: every one contains overlapping calls or a schedule different from all others")


def c01():
    rep = Report("C01", "model_checking")
    b = vlib.build_many({"stackh": (["conc.cpp", "rt.cpp"], ["KIND_STACK"], True)})
    M = design.Models(rep, design.c01_runs())
    P = progs.stack_c01(TIER, SEED)
    vlib.conc_check(rep, b["stackh"], P, "TraceContainer.tla", trace_cfg("c01.cfg", "stack"))
    design.conform_nodes(rep, "stack", b["stackh"], P)
    M.finish()
    return rep.finish()


def c02():
    rep = Report("C02", "model_checking")
    b = vlib.build_many({"queueh": (["conc.cpp", "rt.cpp"], ["KIND_QUEUE"], True)})
    M = design.Models(rep, design.c02_runs())
    P = progs.queue_c02(TIER, SEED)
    vlib.conc_check(rep, b["queueh"], P, "TraceContainer.tla", trace_cfg("c02.cfg", "queue"))
    design.conform_nodes(rep, "queue", b["queueh"], P)
    M.finish()
    return rep.finish()


def spsc_cfg(name, fill=False, mem=False):
    return vlib.make_cfg(name, """SPECIFICATION TSpec
CONSTANTS
  CheckMem = %s
  CheckFill = %s
  Owner = 7
INVARIANT TypeOK
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""" % (str(mem).upper(), str(fill).upper()))


def c03():
    rep = Report("C03", "model_checking")
    b = vlib.build_many({"spsch": (["conc.cpp", "rt.cpp"], ["KIND_SPSC"], True)})
    M = design.Models(rep, design.c03_runs())
    P = progs.spsc_c03(TIER, SEED)
    vlib.conc_check(rep, b["spsch"], P, "TraceSpsc.tla", spsc_cfg("c03.cfg"))
    design.conform_ring(rep, b["spsch"])
    M.finish()
    return rep.finish()


def kinds(*names):
    src = ["conc.cpp", "rt.cpp"]
    return vlib.build_many({n: (src, ["KIND_" + n.upper()], True) for n in names})


def c04():
    rep = Report("C04", "model_checking")
    b = kinds("stack")
    M = design.Models(rep, design.c04_runs())
    P = progs.stack_c04(TIER, SEED)
    vlib.conc_check(rep, b["stack"], P, "TraceContainer.tla", trace_cfg("c04.cfg", "stack"))
    design.conform_nodes(rep, "stack", b["stack"], P)
    M.finish()
    sizecheck.run(rep, "stack", bulk=True)
    return rep.finish()


CAP = None if TIER == "thorough" else 25000


def c06():
    rep = Report("C06", "model_checking")
    b = kinds("stack", "queue", "spsc")
    for k in ("stack", "queue"):
        vlib.conc_check(rep, b[k], progs.mpmc_c06(k, TIER, SEED), "TraceContainer.tla", trace_cfg("c06%s.cfg" % k, k, strict=True), label=k + " ", cap=CAP)
    vlib.conc_check(rep, b["spsc"], progs.spsc_seq(TIER, SEED), "TraceSpsc.tla", spsc_cfg("c06s.cfg", fill=True), label="spsc_queue ", cap=CAP)
    for k in ("stack", "queue", "spsc"):
        sizecheck.run(rep, k, bulk=True)
    return rep.finish()


def c07():
    rep = Report("C07", "model_checking")
    b = kinds("stack", "queue", "spsc")
    for k in ("stack", "queue"):
        vlib.conc_check(rep, b[k], progs.mpmc_c06(k, TIER, SEED + 1, light=True), "TraceContainer.tla", trace_cfg("c07%s.cfg" % k, k, strict=True, mem=True), label=k + " ", cap=CAP)
        vlib.conc_check(rep, b[k], progs.fault_c07(k, TIER, SEED), "TraceContainer.tla", trace_cfg("c07f%s.cfg" % k, k, strict=True, mem=True), label=k + " faults ", cap=CAP)
    vlib.conc_check(rep, b["spsc"], progs.spsc_seq(TIER, SEED), "TraceSpsc.tla", spsc_cfg("c07s.cfg", mem=True), label="spsc_queue ", cap=CAP)
    return rep.finish()


def c16():
    rep = Report("C16", "model_checking")
    b = kinds("stack", "queue", "spsc")
    M = design.Models(rep, design.RINGPROOF)
    vlib.conc_check(rep, b["stack"], progs.obs_c16("stack", TIER, SEED), "TraceContainer.tla", trace_cfg("c16a.cfg", "stack"), label="stack ", cap=CAP)
    vlib.conc_check(rep, b["queue"], progs.obs_c16("queue", TIER, SEED), "TraceContainer.tla", trace_cfg("c16b.cfg", "queue", check_empty=False), label="queue ", cap=CAP)
    vlib.conc_check(rep, b["spsc"], progs.spsc_c03(TIER, SEED, obs=True), "TraceSpsc.tla", spsc_cfg("c16s.cfg"), label="spsc_queue ", cap=CAP)
    sizecheck.run(rep, "spsc", bulk=True)
    M.finish()
    return rep.finish()


def c11():
    rep = Report("C11", "model_checking")
    deep = 1 if TIER == "thorough" else 0
    seqcheck.run(rep, "stack", [("N", [0, 1, 2], lambda c: 4 + deep, lambda c: 4 + deep, lambda c: 3), ("B", [1, 2, 3, 4], lambda c: c, lambda c: c, lambda c: c + 1)])
    sizecheck.run(rep, "stack", bulk=True)
    return rep.finish()


def c12():
    rep = Report("C12", "model_checking")
    deep = 1 if TIER == "thorough" else 0
    seqcheck.run(rep, "queue", [("N", [0, 1, 2], lambda c: 4 + 2 * deep, lambda c: 4 + 2 * deep, lambda c: 1), ("B", [1, 2, 3, 4], lambda c: c, lambda c: c, lambda c: 1)])
    sizecheck.run(rep, "queue", bulk=True)
    return rep.finish()


def c13():
    rep = Report("C13", "model_checking")
    seqcheck.run(rep, "spsc", [("B", [1, 2, 3, 4], lambda c: c, lambda c: c, lambda c: c + 2)])
    sizecheck.run(rep, "spsc", bulk=True)
    return rep.finish()


def c05():
    rep = Report("C05", "model_checking")
    M = design.Models(rep, design.c05_runs())
    src = ["conc.cpp", "rt.cpp"]
    b = vlib.build_many({k + v: (src, ["KIND_" + k.upper()] + (["VERIF_DCAS"] if v else []), True) for k in ("stack", "queue") for v in ("", "d")})
    try:        # the free lists themselves are internal classes: a tree that renamed them is still checked through the containers
        b.update(vlib.build_many({"flist" + v: (src, ["KIND_FLIST"] + (["VERIF_DCAS"] if v else []), True) for v in ("", "d")}))
    except vlib.CompileError as e:
        rep.notes.append("the free list classes cannot be used directly: " + e.log[-300:].replace("\n", " "))
    cfg = vlib.make_cfg("c05f.cfg", """SPECIFICATION TSpec
CONSTANTS Thread = {1, 2, 3, 4}
INVARIANT Exclusive
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""")
    for v in ("", "d"):
        if "flist" + v in b:
            P = progs.flist_c05(TIER, SEED)
            vlib.conc_check(rep, b["flist" + v], [p for p in P if not v or p.startswith("cfg=N")], "TraceFreeList.tla", cfg, label="freelist%s " % (" (dcas)" if v else ""), cap=CAP)
    for k in ("stack", "queue"):
        for v in ("", "d"):
            P = progs.aba_c05(k, TIER, SEED)
            vlib.conc_check(rep, b[k + v], [p for p in P if not v or p.startswith("cfg=N")], "TraceContainer.tla", trace_cfg("c05%s%s.cfg" % (k, v), k),
                            label="%s%s " % (k, " (dcas)" if v else ""), cap=CAP)
    for k in ("stack", "queue"):
        vlib.conc_check(rep, b[k], progs.reserve_conc(k, TIER), "TraceContainer.tla", trace_cfg("c05r%s.cfg" % k, k, strict=True, mem=True), label=k + " (reserve) ", cap=CAP)
    M.finish()
    return rep.finish()


def c20():
    rep = Report("C20", "model_checking")
    b = kinds("stack", "queue", "spsc")
    deep = 1 if TIER == "thorough" else 0
    for k in ("stack", "queue"):
        P = progs.several(k, TIER, SEED)
        for n, sel in (("n", lambda p: p.startswith("cfg=N")), ("b", lambda p: not p.startswith("cfg=N"))):
            vlib.conc_check(rep, b[k], [p for p in P if sel(p)], "TraceContainer.tla", trace_cfg("c20%s%s.cfg" % (k, n), k, strict=n == "b"), env={"TWO": "containers"}, label=k + " ", cap=CAP and 5000)
        seqcheck.run(rep, k, [("N", [0, 1, 2], lambda c: 2 + deep, lambda c: 2 + deep, lambda c: 1), ("B", [1, 2, 3], lambda c: c, lambda c: c, lambda c: 1)], several=True)
    vlib.conc_check(rep, b["spsc"], progs.several("spsc", TIER, SEED), "TraceSpsc.tla", spsc_cfg("c20s.cfg", fill=True), env={"TWO": "rings"}, label="spsc_queue ", cap=CAP and 5000)
    seqcheck.run(rep, "spsc", [("B", [1, 2], lambda c: c, lambda c: c, lambda c: 2)], several=True)
    return rep.finish()


def c08():
    rep = Report("C08", "model_checking")
    b = kinds("stack", "queue", "spsc")
    cfg = vlib.make_cfg("c08.cfg", """SPECIFICATION TSpec
CONSTANTS Thread = {0, 1, 2, 3, 4}
INVARIANT OneCellOneElement
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""")
    for k in ("stack", "spsc"):
        vlib.conc_check(rep, b[k], progs.life_c08(k, TIER, SEED), "TraceLife.tla", cfg, label=k + " ", cap=CAP)
    # a queue delivers what was pushed, byte for byte: torn or foreign elements never match the specification's content
    P = [p for i, p in enumerate(progs.queue_c02(TIER, SEED + 1)) if i % 4 == 0]
    vlib.conc_check(rep, b["queue"], P, "TraceContainer.tla", trace_cfg("c08q.cfg", "queue"), label="queue ", cap=CAP)
    return rep.finish()


def c09():
    rep = Report("C09", "model_checking")
    src = ["conc.cpp", "rt.cpp"]
    try:        # plain memory accesses and fences reported, too
        b = vlib.build_many({k: (src, ["KIND_" + k.upper()], True, True) for k in ("stack", "queue", "spsc")})
    except vlib.CompileError as e:
        rep.notes.append("plain accesses not observed: " + e.log[-300:].replace("\n", " "))
        b = kinds("stack", "queue", "spsc")
    M = design.Models(rep, design.c09_runs())
    for k in ("stack", "queue", "spsc"):
        cfg = vlib.make_cfg("c09%s.cfg" % k, """SPECIFICATION TSpec
CONSTANTS Thread = {0, 1, 2, 3, 4}
 Kind = "%s"
INVARIANT MMOK
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""" % k)
        vlib.conc_check(rep, b[k], progs.hb_c09(k, TIER, SEED), "TraceHB.tla", cfg, label=k + " ", cap=CAP and CAP // 3)
    M.finish()
    return rep.finish()


def c10():
    rep = Report("C10", "model_checking")
    b = kinds("stack", "queue", "spsc")
    M = design.Models(rep, design.c10_runs())
    sizecheck.lock_free(rep)
    for k in ("stack", "queue", "spsc"):
        cfg = vlib.make_cfg("c10%s.cfg" % k, """SPECIFICATION TSpec
CONSTANTS Thread = {1, 2, 3, 4}
 WaitFree = %s
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""" % ("TRUE" if k == "spsc" else "FALSE"))
        vlib.conc_check(rep, b[k], progs.prog_c10(k, TIER, SEED), "TraceProgress.tla", cfg, label=k + " ", cap=CAP,
                        weight=lambda x: max(int(v) for v in re.findall(r'"s[ot]":(\d+)', x)))
    M.finish()
    return rep.finish()


def c14():
    rep = Report("C14", "fault_enumeration")
    b = kinds("stack", "queue", "spsc")
    for k in ("stack", "queue"):
        vlib.conc_check(rep, b[k], progs.fault_c14(k, TIER, SEED), "TraceContainer.tla", trace_cfg("c14%s.cfg" % k, k, strict=True, mem=True), label=k + " ", cap=CAP)
    vlib.conc_check(rep, b["spsc"], progs.fault_c14("spsc", TIER, SEED), "TraceSpsc.tla", spsc_cfg("c14s.cfg", mem=True, fill=True), label="spsc_queue ", cap=CAP)
    return rep.finish()


def c18():
    rep = Report("C18", "model_checking")
    for k in ("stack", "queue", "spsc"):
        sizecheck.run(rep, k) is False or sizecheck.run(rep, k, bulk=True)
    return rep.finish()


def c17():
    rep = Report("C17", "model_checking")
    tagcheck.run(rep)
    return rep.finish()


def c15():
    rep = Report("C15", "model_checking")
    for k, ms in (("stack", lambda c: c + 1), ("queue", lambda c: 1), ("spsc", lambda c: c + 1)):
        seqcheck.run(rep, k, [("B", [1, 2, 3], lambda c: c, lambda c: c, ms)], mapped=3 if TIER == "thorough" else 2)
    return rep.finish()


def c19():
    rep = Report("C19", "model_checking")
    src = ["conc.cpp", "rt.cpp"]
    layouts = {"a": [], "b": ["VERIF_EINT=signed char"], "c": ["VERIF_EALIGN=128"]}      # size/alignment 8/4, 2/1, 128/128
    b = vlib.build_many({k + v: (src, ["KIND_" + k.upper()] + d, True, True) for k in ("stack", "queue", "spsc") for v, d in layouts.items()})
    for k in ("stack", "queue", "spsc"):
        P = progs.mem_c19(k, TIER, SEED)
        for j, v in enumerate(layouts):
            cfg = vlib.make_cfg("c19%s%s.cfg" % (k, v), """SPECIFICATION TSpec
CONSTANTS Apart = %s
CONSTRAINT Track
POSTCONDITION Post
CHECK_DEADLOCK FALSE
""" % str(k != "queue").upper())
            vlib.conc_check(rep, b[k + v], P if v == "a" else [p for i, p in enumerate(P) if i % 3 == j], "TraceStorage.tla", cfg, label="%s (layout %s) " % (k, v), cap=CAP)
    return rep.finish()


CHECKS = {"C20": c20, "C19": c19, "C15": c15, "C17": c17, "C18": c18, "C14": c14, "C10": c10, "C09": c09, "C08": c08, "C05": c05, "C11": c11, "C12": c12, "C13": c13, "C04": c04, "C06": c06, "C07": c07, "C16": c16, "C03": c03, "C01": c01, "C02": c02}
