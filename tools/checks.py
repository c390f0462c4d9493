"""One function per property."""
import json
from vlib import *

CORE = ["src/common/" + x for x in ("GLogger.cpp", "GExceptions.cpp", "GCommonEnums.cpp", "GCommonHelperFunctions.cpp", "GThreadGroup.cpp", "GThreadPool.cpp", "GExpectationChecksT.cpp")]

def end_event(r):
    """Ends other than a normal one become the last event of the trace; specifications accept only the ones they name."""
    ev = list(r["ev"])
    if r["end"] not in ("ok", "deadlock"):
        ev.append({"e": r["end"], "d": r.get("detail", "")})
    return ev

def c01(c):
    c.model("MCBoundedBuffer", "MCBoundedBuffer.cfg")
    exe = build_driver("d_buffer", ["d_buffer.cpp"], CORE[:4])
    seed = c.seed
    n = c.n(8000, 80000)
    recs = run_driver(exe, n, seed, c.dir("d_buffer"))
    tr = lambda r: {"cfg": r["cfg"] or {"cap": 1}, "ev": end_event(r)}
    c.validate_runs("d_buffer", exe, [], recs, tr, "BoundedBufferTrace", "Trace.cfg", seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def c02(c):
    c.model("MCThreadPool", "MCThreadPool.cfg")
    exe = build_driver("d_pool", ["d_pool.cpp"], CORE[:6])
    recs = run_driver(exe, c.n(6000, 60000), c.seed, c.dir("d_pool"))
    tr = lambda r: {"cfg": r["cfg"] or {"n": 1, "dflt": 2}, "ev": end_event(r)}
    c.validate_runs("d_pool", exe, [], recs, tr, "ThreadPoolTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def c03(c):
    c.model("MCBarrier", "MCBarrier.cfg")
    exe = build_driver("d_barrier", ["d_barrier.cpp"], CORE[:4])
    recs = run_driver(exe, c.n(4000, 40000), c.seed, c.dir("d_barrier"))
    tr = lambda r: {"cfg": r["cfg"] or {"n": 1, "rounds": 1}, "ev": end_event(r)}
    c.validate_runs("d_barrier", exe, [], recs, tr, "BarrierTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def c04(c):
    c.model("MCPrioQueue", "MCPrioQueue.cfg")
    exe = build_driver("d_pq", ["d_pq.cpp"], CORE[:4] + CORE[6:7], vsched=False)
    recs = run_driver(exe, c.n(8000, 100000), c.seed, c.dir("d_pq"))
    tr = lambda r: {"cfg": r["cfg"] or {"max": 1, "high": False}, "ev": end_event(r)}
    c.validate_runs("d_pq", exe, [], recs, tr, "PrioQueueTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def h01(c):
    c.model("MCRandomFactory", "MCRandomFactory.cfg")
    small = ["-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_ARRAY_SIZE=4", "-DGENEVA_HAP_RANDOM_FACTORY_DEFAULT_BUFFER_SIZE=3", "-DGENEVA_HAP_RANDOM_FACTORY_SEED_VECTOR_SIZE=8"]
    exe = build_driver("d_random", ["d_random.cpp"], CORE[:6] + ["src/hap/" + x for x in ("GRandomFactory.cpp", "GRandomBase.cpp", "GRandomT.cpp", "GHapEnums.cpp")], extra=small)
    recs = run_driver(exe, c.n(5000, 50000), c.seed, c.dir("d_random"))
    tr = lambda r: {"cfg": r["cfg"] or {"dflt": 2, "size": 4}, "ev": end_event(r)}
    c.validate_runs("d_random", exe, [], recs, tr, "RandomFactoryTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

PARSER = ["src/common/GParserBuilder.cpp"]
COURTIER = ["src/courtier/GCourtierEnums.cpp", "src/courtier/GCourtierHelperFunctions.cpp"]

def w01(c):
    c.model("MCWorkItem", "MCWorkItem.cfg")
    exe = build_driver("d_witem", ["d_witem.cpp"], CORE[:4] + CORE[6:] + COURTIER, vsched=False)
    recs = run_driver(exe, c.n(8000, 80000), c.seed, c.dir("d_witem"))
    tr = lambda r: {"cfg": r["cfg"] or {"n": 3}, "ev": end_event(r)}
    c.validate_runs("d_witem", exe, [], recs, tr, "WorkItemTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def broker_runs(c, base, quick, thorough):
    exe = build_driver("d_broker", ["d_broker.cpp"], CORE[:4] + CORE[6:] + COURTIER + PARSER, extra=["-DGENEVA_COMMON_DEFAULT_BUFFER_SIZE=3"])
    recs = run_driver(exe, c.n(quick, thorough), c.seed, c.dir("d_broker"), [base])
    tr = lambda r: {"cfg": r["cfg"] or {"exact": False, "limit": 1000, "cap": 3}, "ev": end_event(r)}
    return exe, recs, tr

def b01(c):
    c.model("MCBroker", "MCBroker.cfg")
    exe, recs, tr = broker_runs(c, 0, 2500, 25000)
    c.validate_runs("d_broker", exe, [0], recs, tr, "BrokerTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def b02(c):
    c.model("MCBroker", "MCBrokerFair.cfg")
    exe, recs, tr = broker_runs(c, 4, 4000, 40000)
    c.validate_runs("d_broker", exe, [4], recs, tr, "BrokerTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def s01(c):
    c.model("MCService", "MCService.cfg")
    exe = build_driver("d_service", ["d_service.cpp"], CORE[:4] + CORE[6:] + CORE[4:5] + COURTIER + PARSER)
    recs = run_driver(exe, c.n(4000, 40000), c.seed, c.dir("d_service"))
    tr = lambda r: {"cfg": r["cfg"] or {"nw": 1, "full": True}, "ev": end_event(r)}
    c.validate_runs("d_service", exe, [], recs, tr, "ServiceTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

EXEC = ["src/common/GPlotDesigner.cpp", "src/common/GCommonMathHelperFunctions.cpp"]

def x01(c):
    c.model("MCExecutor", "MCExecutor.cfg")
    tr = lambda r: {"cfg": r["cfg"] or {"kind": 0, "nthr": 1}, "ev": end_event(r)}
    for name, extra in (("d_exec", []), ("d_exec_r", ["-UDEBUG"])):   # the library's assertions differ between its debug and release builds
        exe = build_driver(name, ["d_exec.cpp"], CORE + COURTIER + PARSER + EXEC, extra=extra)
        recs = run_driver(exe, c.n(1500, 15000), c.seed, c.dir(name), ["rel"])
        c.validate_runs(name, exe, ["rel"], recs, tr, "ExecutorTrace", "Trace.cfg", c.seed)
        c.notes["ends " + name] = count(r["end"] for r in recs)

def x02(c):
    c.model("MCNetExecutor", "MCNetExecutor.cfg")
    c.model("MCNetExecutor", "MCNetExecutorResub.cfg")
    c.model("MCNetExecutor", "MCNetExecutorLive.cfg")
    exe = build_driver("d_exec", ["d_exec.cpp"], CORE + COURTIER + PARSER + EXEC)
    recs = run_driver(exe, c.n(900, 12000), c.seed, c.dir("d_exec"), ["net"])
    tr = lambda r: {"cfg": r["cfg"] or {"notimeout": True, "wf": 0, "part": 0, "maxr": 0}, "ev": end_event(r)}
    c.validate_runs("d_exec", exe, ["net"], recs, tr, "NetExecutorTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

GENEVA = ["common", "hap", "courtier", "geneva", "geneva-individuals"]

def geneva_runs(c, name, quick, thorough, args=(), opt="-O0"):
    """a driver on top of the whole library, built by the repository's own build files"""
    build_libs(GENEVA)
    exe = build_driver(name, [name + ".cpp"], vsched=False, libs=geneva_link(), opt=opt)
    return exe, run_driver(exe, c.n(quick, thorough), c.seed, c.dir(name + "".join(args)), list(args))

def o01(c):
    c.model("MCLoop", "MCLoop.cfg")
    if c.thorough(): c.model("MCLoop", "MCLoopDeep.cfg")
    exe, recs = geneva_runs(c, "d_loop", 2000, 30000)
    tr = lambda r: {"cfg": r["cfg"] or {"max": False}, "ev": end_event(r)}
    c.validate_runs("d_loop", exe, [], recs, tr, "LoopTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

ALG = {"alg": "ea", "ds": 1, "np": 1, "lt0": 0}
def alg_runs(c, arg, quick, thorough):
    exe, recs = geneva_runs(c, "d_alg", quick, thorough, [arg])
    tr = lambda r: {"cfg": r["cfg"] or ALG, "ev": end_event(r)}
    c.validate_runs("d_alg", exe, [arg], recs, tr, "AlgTrace", "Trace.cfg", c.seed)
    c.notes["ends " + arg] = count(r["end"] for r in recs)

def e01(c):
    c.model("MCEvoAlg", "MCEvoAlg.cfg")
    if c.thorough(): c.model("MCEvoAlg", "MCEvoAlgDeep.cfg")
    alg_runs(c, "ea", 1500, 20000)

def e02(c):
    c.model("MCEvoAlg", "MCPareto.cfg")
    if c.thorough(): c.model("MCEvoAlg", "MCParetoDeep.cfg")
    alg_runs(c, "par", 1500, 20000)

def a01(c):
    c.model("MCEvoAlg", "MCAnneal.cfg")
    alg_runs(c, "sa", 1500, 20000)

def swarm_runs(c, quick, thorough):
    exe, recs = geneva_runs(c, "d_swarm", quick, thorough)
    tr = lambda r: {"cfg": r["cfg"] or {"nn": 1, "mem": 2}, "ev": end_event(r)}
    c.validate_runs("d_swarm", exe, [], recs, tr, "SwarmTrace", "Trace.cfg", c.seed)
    c.notes["ends swarm"] = count(r["end"] for r in recs)

def q01(c):
    c.model("MCSwarm", "MCSwarm.cfg")
    if c.thorough(): c.model("MCSwarm", "MCSwarmDeep.cfg")
    swarm_runs(c, 1200, 20000)

def d01(c):
    c.model("MCGradient", "MCGradient.cfg")
    c.model("MCGradient", "MCGradient1.cfg")
    exe, recs = geneva_runs(c, "d_grad", 400, 12000)
    tr = lambda r: {"cfg": r["cfg"] or {"ns": 1}, "ev": end_event(r)}
    c.validate_runs("d_grad", exe, [], recs, tr, "GradientTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def simple(c, name, quick, thorough, dflt, module, args=()):
    exe, recs = geneva_runs(c, name, quick, thorough, list(args))
    tr = lambda r: {"cfg": r["cfg"] or dflt, "ev": end_event(r)}
    c.validate_runs(name, exe, list(args), recs, tr, module, "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def p01(c):
    c.model("MCScan", "MCScan.cfg")
    simple(c, "d_scan", 1500, 20000, {"kind": 0, "scan": [], "start": []}, "ScanTrace")

def k01(c):
    c.model("MCCheckpoint", "MCCheckpoint.cfg")
    simple(c, "d_cp", 1000, 12000, {"alg": "ea", "rnd": False, "iv": 0, "rem": False, "steps": 0, "nrec": 1, "lal": 0}, "CheckpointTrace")

def g01(c):
    c.model("MCChain", "MCChain.cfg")
    simple(c, "d_chain", 2000, 30000, {"algs": [{"keep": 1, "steps": 0, "max": 1, "stall": 0, "nrec": 1, "size": 1}], "order": [1], "best": True, "max": False, "dflt": False}, "ChainTrace")

def v01(c):
    c.model("MCParam", "MCParam.cfg")
    if c.thorough(): c.model("MCParam", "MCParamFp.cfg")
    simple(c, "d_param", 3000, 40000, {"kind": 0}, "ParamTrace")

def v02(c):
    c.model("MCAdaptor", "MCAdaptor2.cfg")
    if c.thorough(): c.model("MCAdaptor", "MCAdaptor.cfg")
    simple(c, "d_adapt", 3000, 40000, {"kind": 0}, "AdaptorTrace")

def v03(c):
    c.model("MCParSet", "MCParSet.cfg")
    if c.thorough(): c.model("MCParSet", "MCParSetFree.cfg")
    simple(c, "d_pset", 2500, 30000, {"nc": 1}, "ParSetTrace")

def n01(c):
    c.model("MCNet", "MCNet.cfg")
    if c.thorough():
        c.model("MCNet", "MCNetDeep.cfg"); c.model("MCNet", "MCNetLive.cfg")
    build_libs(GENEVA)
    exe = build_driver("d_net", ["d_net.cpp"], vsched=False, libs=geneva_link(), opt="-O0")
    recs = run_driver(exe, c.n(480, 6000), c.seed, c.dir("d_net"), [], procs=16)
    tr = lambda r: {"cfg": r["cfg"] or {"nc": 1, "exact": False, "kind": 0}, "ev": end_event(r)}
    c.validate_runs("d_net", exe, [], recs, tr, "NetTrace", "Trace.cfg", c.seed)
    c.notes["kinds"] = count("%s %s" % ("websocket" if r["cfg"].get("ws") else "asio", ("scripted", "own clients")[r["cfg"].get("kind", 0)]) for r in recs)

def o02(c):
    c.model("MCEvoAlg", "MCEvoAlg.cfg")
    for a in ("ea", "par", "sa"): alg_runs(c, a, 500, 8000)
    swarm_runs(c, 300, 5000)

def count(it):
    d = {}
    for x in it: d[x] = d.get(x, 0) + 1
    return d

def f01(c):
    c.model("MCConfigFile", "MCConfigFileDeep.cfg" if c.thorough() else "MCConfigFile.cfg")
    exe = build_driver("d_conf", ["d_conf.cpp"], CORE[:4] + CORE[6:] + PARSER)
    recs = run_driver(exe, c.n(4000, 40000), c.seed, c.dir("d_conf"))
    tr = lambda r: {"cfg": r["cfg"] or {"opts": [], "files": [], "nb": 1}, "ev": end_event(r)}
    c.validate_runs("d_conf", exe, [], recs, tr, "ConfigFileTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def l01(c):
    c.model("MCLogger", "MCLoggerDeep.cfg" if c.thorough() else "MCLogger.cfg")
    exe = build_driver("d_log", ["d_log.cpp"], CORE[:4])
    recs = run_driver(exe, c.n(4000, 40000), c.seed, c.dir("d_log"))
    tr = lambda r: {"cfg": r["cfg"] or {"final": {"con": []}}, "ev": end_event(r)}
    c.validate_runs("d_log", exe, [], recs, tr, "LoggerTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def t01(c):
    c.model("MCFormula", "MCFormulaDeep.cfg" if c.thorough() else "MCFormula.cfg")
    exe = build_driver("d_form", ["d_form.cpp"], CORE[:4] + ["src/common/GFormulaParserT.cpp", "src/common/GCommonMathHelperFunctions.cpp"], vsched=False)
    recs = run_driver(exe, c.n(6000, 60000), c.seed, c.dir("d_form"))
    tr = lambda r: {"cfg": r["cfg"] or {"none": 0}, "ev": end_event(r)}
    c.validate_runs("d_form", exe, [], recs, tr, "FormulaTrace", "Trace.cfg", c.seed)
    c.notes["ends"] = count(r["end"] for r in recs)

def m01(c):
    c.model("MCMonitors", "MCMonitors.cfg")
    c.model("MCMonitors", "MCMonitorsDeep.cfg" if c.thorough() else "MCMonitors2.cfg")
    simple(c, "d_mon", 1500, 20000, {"pars": [], "logs": [], "ncrit": 1, "max": False}, "MonitorsTrace")

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "H01": h01, "W01": w01, "B01": b01, "B02": b02, "S01": s01, "X01": x01, "X02": x02,
          "V01": v01, "V02": v02, "V03": v03, "N01": n01, "O01": o01,
          "O02": o02, "E01": e01, "E02": e02, "A01": a01,
          "Q01": q01, "D01": d01, "P01": p01, "K01": k01, "G01": g01, "F01": f01, "L01": l01, "M01": m01, "T01": t01}
