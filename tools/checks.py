"""Which models, harness modes and trace specifications decide which property."""
from vlib import Check, TraceJob as T

def M(module, cfg=None, **k):
    return dict(module=module, cfg=cfg or module + ".cfg", **k)

CHECKS = {}
def add(pid, models, jobs, assumptions=()):
    CHECKS[pid] = Check(pid, models, jobs, assumptions)

SCHED = ["interleavings of sequentially consistent steps; weak-memory reorderings are not explored",
         "implementation histories come from seeded programs and schedules (sampled); the specification is explored exhaustively within its constants"]
KINDS = ["inline", "manual", "thread", "worker", "pool"]
EXMC = [M("ExecutorMC", f"ExecutorMC_{k}.cfg", workers=1) for k in KINDS]

def X(mode, aspect, q, t, **k):
    return T("h_exec", mode, "ExecutorTrace", q, t, env={"ASPECTS": aspect}, **k)

IDLE = [M("PoolIdle")]
add("C01", EXMC + IDLE + [M("PoolIdle", f"PoolIdle_{b}.cfg", expect="NothingLeft") for b in ("late", "noflag", "norelease")],
    [X("pool", "once", (300, 12), (3000, 40)), X("any", "once", (240, 8), (3000, 30)),
     X("worker", "once", (120, 10), (1500, 30)), X("pools", "once", (160, 8), (2000, 30)),
     X("manual", "once", (120, 8), (1500, 20)), X("sdany", "once", (240, 8), (3000, 30)),
     X("sdpool", "once", (240, 10), (3000, 40)), X("sdworker", "once", (160, 8), (2000, 30)), X("sdthread", "once", (100, 8), (1500, 20)),
     X("big", "once", (120, 6), (1500, 20)), X("sdbig", "once", (80, 6), (1000, 20))], SCHED)
add("C02", EXMC,
    [X("any", "order+place", (300, 8), (4000, 30)), X("pools", "order+place", (240, 12), (3000, 40)),
     X("worker", "order+place", (240, 10), (2000, 30)), X("manual", "order+place", (200, 10), (2000, 30)),
     X("pool", "order+place", (160, 10), (2000, 30)), X("sdany", "order+place", (120, 8), (1500, 20)),
     X("big", "order+place", (120, 6), (1500, 20))], SCHED)
add("C03", EXMC + IDLE + [M("PoolIdle", "PoolIdle_apart.cfg", expect="Account")],
    [X("sdpool", "shutdown", (320, 12), (4000, 40)), X("sdworker", "shutdown", (200, 10), (2500, 40)),
     X("sdmanual", "shutdown", (160, 10), (2000, 30)), X("sdthread", "shutdown", (200, 10), (2500, 30)),
     X("sdany", "shutdown", (300, 8), (4000, 30)), X("any", "shutdown", (80, 8), (1000, 20)),
     X("sdbig", "shutdown", (120, 6), (1500, 20))], SCHED)
add("C04", [M("ManualMC", workers=2)], [T("h_manual", "manual", "ManualTrace", (500, 20), (5000, 60))], SCHED)
add("C05", [M("Result"), M("ResultCas")]
    + [M("ResultCas", f"ResultCas_{b}.cfg", expect=e) for b, e in (("noback", "SawOutcome"), ("lateset", "Left"), ("notaken", "NotUsedAfterFree"), ("dropdone", "NotUsedAfterFree"))], [T("h_result", "result", "ResultTrace", (2000, 20), (12000, 80), neg="ResultTrace.ndjson")], SCHED)
add("C06", [M("CombineMC", "CombineMC_shared.cfg"), M("SharedList"), M("SharedList", "SharedList_stale.cfg", expect="emporal property AllGoOn was violated"),
            M("SharedList", "SharedList_nextlate.cfg", expect="NotUsedAfterFree"), M("SharedList", "SharedList_statuslate.cfg", expect="SameForAll")], [T("h_combine", "shared", "SharedTrace", (900, 20), (8000, 60))], SCHED)
add("C07", [M("CombineMC", "CombineMC_when.cfg"), M("AnyCas")]
    + [M("AnyCas", f"AnyCas_{b}.cfg", expect=e) for b, e in (("early", "AtMostOnce"), ("sleep", "Told"), ("norewind", "Usable"), ("blind", "AtMostOnce"))],
    [T("h_combine", "all", "WhenTrace", (700, 16), (6000, 50)), T("h_combine", "any", "WhenTrace", (1000, 20), (8000, 60))], SCHED)
add("C08", [M("ResumeMC"), M("LazyMC"), M("GeneratorMC")],
    [T("h_coro", "resume", "ResumeTrace", (600, 12), (6000, 40)), T("h_coro", "lazy", "LazyTrace", (700, 6), (8000, 20)),
     T("h_coro", "gen", "GeneratorTrace", (800, 1), (2000, 1))], SCHED)
add("C09", [M("TimerMC", "TimerMC_q.cfg", workers=3), M("TimerMC", workers=4, tier="thorough")],
    [T("h_timer", "timer", "TimerTrace", (400, 8), (4000, 30)), T("h_timer", "idle", "TimerTrace", (200, 20), (2500, 60)), T("h_timer", "timersd", "TimerTrace", (600, 10), (6000, 40)),
     T("h_timer", "many", "TimerTrace", (150, 6), (2000, 20))], SCHED)

SEQ = ["operation scripts are seeded samples; the specification is explored exhaustively within its constants"]
def A(h, mode, spec, q, t, **k):
    return T(h, mode, spec, (q, 1), (t, 1), variant="asan", **k)
add("C10", [M("TaskObjMC", workers=2)], [A("h_task", "task", "TaskObjTrace", 5000, 60000)], SEQ)
add("F01", [M("IniMC", workers=4), M("IniMC", "IniMC_deep.cfg", workers=6, tier="thorough")], [A("h_file", "ini", "IniTrace", 4000, 50000)], SEQ)
add("F02", [M("TabMC", workers=2), M("TabMC", "TabMC_float.cfg", workers=2)], [A("h_file", "tab", "TabTrace", 4000, 50000)], SEQ)
add("N08", [M("AddrMC", workers=2)], [A("h_text", "addrs", "AddrTrace", 4000, 50000)], SEQ)
add("N01", [M("RingMC"), M("RingMC", "RingMC_fixed.cfg"), M("RingMC", "RingMC_nomove.cfg", expect="Refines"), M("SpscMC"), M("SpscMC", "SpscMC_reset.cfg", expect="Kept"), M("StreamMC", workers=2)],
    [A("h_stream", "ring", "RingTrace", 2500, 30000), A("h_stream", "stream", "StreamTrace", 4000, 40000),
     T("h_stream", "spsc", "SpscTrace", (120, 20), (1200, 80))], SCHED)
add("N02", [M("PacketMC", workers=2)], [A("h_packet", "packet", "PacketTrace", 5000, 60000)], SEQ)
add("N03", [M("CodecMC"), M("LineMC")], [A("h_packet", "codec", "CodecTrace", 4000, 50000), A("h_packet", "line", "LineTrace", 4000, 50000)], SEQ)
def N(mode, asp, q, t):
    return T("h_net", mode, "ConnTrace", q, t, env={"ASPECTS": asp})
CONNMC = [M("ConnMC", workers=2), M("ConnMC", "ConnMC_two.cfg", workers=4, tier="thorough"), M("ConnMC", "ConnMC_pk.cfg", workers=4, tier="thorough")]
NETENV = ["the loopback TCP of the sandbox without delaying small segments (TCP_NODELAY), partial transfers and interruptions injected"]
add("N04", CONNMC + [M("ConnWork", workers=4)] + [M("ConnWork", f"ConnWork_{b}.cfg", expect="NothingLeft") for b in ("late", "noagain", "out", "recheck")],
    [N("data", "data", (400, 5), (4000, 20)), N("raw", "data", (300, 5), (3000, 15)), N("churn", "data", (200, 4), (2000, 15))], SCHED + NETENV)
add("N05", CONNMC + [M("ConnWork", "ConnWork_nomark.cfg", expect="OneAtATime"), M("ConnWait"), M("ConnWait", "ConnWait_nolock.cfg", expect="NotMissed"), M("ConnWait", "ConnWait_held.cfg", expect="NotMissed")],
    [N("churn", "life", (400, 5), (4000, 20)), N("stop", "life", (400, 6), (4000, 30)), N("raw", "life", (250, 4), (2500, 15)), N("data", "life", (150, 4), (1500, 10))], SCHED + NETENV)
add("N06", [M("RpcMC", workers=2), M("RpcMC", "RpcMC_three.cfg", workers=6, tier="thorough"), M("RpcCalls"), M("RpcCalls", "RpcCalls_late.cfg", expect="Found")]
    + [M("RpcCalls", f"RpcCalls_{b}.cfg", expect="NoneWaits") for b in ("noclear", "nocheck", "apart")],
    [T("h_rpc", "calls", "RpcTrace", (500, 6), (5000, 30)), T("h_rpc", "end", "RpcTrace", (500, 6), (5000, 30))], SCHED + NETENV)
add("N07", [M("PackMC", workers=2), M("PackMC", "PackMC_noesc.cfg", expect="Exact")],
    [A("h_rpcpack", "pack", "PackTrace", 4000, 60000), A("h_rpcpack", "obj", "PackTrace", 1500, 20000), A("h_rpcpack", "hostile", "PackTrace", 3000, 40000)], SEQ)

add("E01", [M("KernelMC", workers=2), M("KernelMC", "KernelMC_forget.cfg", expect="AllClosed"), M("KernelMC", "KernelMC_nowait.cfg", expect="GoneIsGone")],
    [T("h_kernel", "engine", "KernelTrace", (700, 12), (8000, 40))], SCHED)
add("E02", [M("ConsoleMC", workers=6), M("ConsoleMC", "ConsoleMC_deep.cfg", workers=6, tier="thorough"), M("ConsoleMC", "ConsoleMC_unlist.cfg", expect="ListedAreUp"),
            M("ConsoleMC", "ConsoleMC_all.cfg", expect="ConsoleLives"), M("ConsoleMC", "ConsoleMC_keep.cfg", expect="Replaced")],
    [T("h_kernel", "console", "ConsoleTrace", (350, 5), (5000, 15))], SCHED + NETENV)
add("B01", [M("LogMC", workers=2), M("AsyncLog", workers=2), M("AsyncLog", "AsyncLog_nodrain.cfg", expect="Kept"), M("AsyncLog", "AsyncLog_fullonly.cfg", expect="Kept"),
            M("AsyncLog", "AsyncLog_swapfirst.cfg", expect="Ordered")],
    [T("h_log", "log", "LogTrace", (260, 8), (3000, 30)), T("h_log", "biglog", "LogTrace", (56, 4), (700, 12))], SCHED)
add("B02", [M("MemMC", workers=4), M("MemLeaf", workers=2)] + [M("MemLeaf", f"MemLeaf_{b}.cfg", expect=e) for b, e in (("two", "Mine"), ("late", "Mine"), ("under", "Anew"))],
    [T("h_mem", "mem", "MemTrace", (300, 9), (8000, 50)), T("h_mem", "mem1", "MemTrace", (800, 1), (20000, 1))], SCHED)
add("B03", [M("TaskQMC", workers=2)], [T("h_taskq", "taskq", "TaskQTrace", (600, 15), (6000, 60))], SCHED)
add("B04", [M("VarsMC", workers=2)], [A("h_text", "vars", "VarsTrace", 4000, 50000)], SEQ)
add("B05", [M("WordsMC", workers=2), M("WordsMC", "WordsMC_deep.cfg", workers=6, tier="thorough"), M("DirsMC", workers=2)],
    [A("h_text", "helpers", "WordsTrace", 5000, 60000), A("h_text", "dirs", "DirsTrace", 1500, 20000)], SEQ)
add("B06", [M("CodesMC")], [A("h_text", "codes", "CodesTrace", 3000, 40000)], SEQ)
