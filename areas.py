"""What each property's check runs.  Every entry: model checking of the specification,
generation of cases by TLC, execution by the harness, judgement of the log by TLC."""

COMMON = ["TLC and the JVM are correct", "the harness logs what the public API returned (it contains no expected values)",
          "bounds: constants of the MC configurations, generated cases and seeded random inputs listed in coverage.detail"]


NOTES = {
 "C01": "Grammar model-checked exhaustively on small types; every API type x variant x boundary size x single fault, all truncations, plus seeded mutations, judged by TLC.",
 "C02": "Same cases as C01; every leaf value and every encoded byte compared with the grammar; all 2^16 selector values per union.",
 "C03": "Same cases; every output length from 0 to beyond the wire length, values built through public fields with counts beyond the array.",
 "C04": "Same cases; exact error kind by first-fault semantics at every truncation and single fault; all selector values.",
 "C05": "Sized-buffer state machine model-checked; every sized type at every boundary length; all wrapped-structure cases including the largest structure.",
 "C06": "Bounded-sequence machine model-checked; all add/round-trip words to depth 4 (6 thorough) from starts at both ends of each capacity.",
 "C07": "Frame construction model-checked; every command type x handle/session/parameter combination up to and beyond a full command buffer; bytes handed to the connection compared with the specified frame.",
 "C08": "Response acceptance model-checked over all small responses; every field of every response mutated, truncated and extended, plus seeded mutations; result compared with the specified decoding.",
 "C09": "Session order and validation model-checked; scripted sessions that record order and content and fail at each position; password responses with every attribute byte.",
 "C10": "Dispatch model-checked; every request length, declared size, command code class and response-buffer size, under histories with generator failures; response bytes compared with the specification.",
 "C11": "Aliasing of request and response model-checked for every order of reads and writes; every generated history executed on twin TPMs through both entry points and compared.",
 "C12": "Generator life cycle model-checked with failures at every call; recorded entropy and generator calls of every history checked against it, with marked stale buffer contents.",
 "C13": "Call-by-call machine model-checked; all lengths x failure points x additional inputs for all helper functions.",
 "C14": "Memory machine model-checked; all windows of small buffers, windows at every integer boundary, and read/write histories.",
 "C15": "Two-stream machine model-checked with segmentation and oversize responses; generated multi-command histories on loopback sockets with scripted segmentation.",
 "C16": "Same machine; every operation with every acknowledgement class, close at every byte position, malformed lengths and terminators.",
 "C17": "Process life cycle model-checked; scripted child programs covering each start-up behaviour and each way of ending, judged from the process table.",
 "C18": "Bit layout model-checked; all 2^12 format codes and layers, all positions and kinds, all named codes, all 2^32 raw values through the checked conversion.",
 "C19": "Every exported constant, attribute bit and command type (609 names) compared with the table in the specification.",
 "C20": "Range and field algebra model-checked; all 2^32 handle values swept for both handle types, all index types on attribute patterns, update histories.",
 "C21": "All supported-hash sets and all 2^16 identifiers, every input and output length.",
 "C22": "Composition of client and server model-checked; client connected to the real server over command histories with generator failures; two known findings are identified by their exact behaviour.",
}


def deep(run, q, t):
    return t if run.tier == "thorough" else q


def wire(prop):
    def go(run):
        caps, trace = run.path("caps.json"), run.path("wire.trace")
        th = run.tier == "thorough"
        parts = 8

        def build():
            run.build()
            run.harness(["caps", caps])

        run.parallel(build, lambda: run.tlc("MC_Wire", deep(run, "MC_Wire.cfg", "MC_Wire_deep.cfg"), "mc"))
        outs = [run.path(f"cases{i}.json") for i in range(parts)]
        run.parallel(*[(lambda i=i: run.tlc("GenWire", deep(run, "GenWire.cfg", "GenWire_deep.cfg"), "gen",
                                            {"VERIF_CAPS": caps, "VERIF_PART": str(i), "VERIF_PARTS": str(parts), "VERIF_OUT": outs[i]},
                                            workers=1)) for i in range(parts)])
        cases = run.path("cases.json")
        with open(cases, "w") as f:
            for o in outs:
                f.write(open(o).read())
        run.harness(["wire", cases, trace, run.seed, 40000 if th else 4000, 400000 if th else 20000], timeout=1800)
        run.trace("WireTrace", f"WireTrace_{prop}.cfg", trace, {"VERIF_CAPS": caps}, timeout=3000)
    return {"run": go, "assumptions": COMMON}


def simple(mc, gen, sub, trace, caps=False, gen_deep=True, trace_deep=False, more=()):
    """Model check, generate, execute, judge - the common shape."""
    def go(run):
        c, cases, log = run.path("caps.json"), run.path("cases.json"), run.path(sub + ".trace")
        env = {}

        def build():
            run.build()
            if caps:
                run.harness(["caps", c])
                env["VERIF_CAPS"] = c
            if gen:
                run.tlc(gen, deep(run, gen + ".cfg", gen + ("_deep.cfg" if gen_deep else ".cfg")), "gen", dict(env, VERIF_OUT=cases), workers=1)
            run.harness([sub] + ([cases] if gen else []) + [log] + [m(run) if callable(m) else m for m in more], timeout=1200)
            run.trace(trace, deep(run, trace + ".cfg", trace + ("_deep.cfg" if trace_deep else ".cfg")), log, env, timeout=1800)

        run.parallel(build, lambda: run.tlc(mc, deep(run, mc + ".cfg", mc + "_deep.cfg"), "mc", workers=4))
    return {"run": go, "assumptions": COMMON}


def tcp(prop):
    def go(run):
        cases, log = run.path("cases.json"), run.path("tcp.trace")

        def conform():
            run.build()
            run.tlc("GenTcp", deep(run, "GenTcp.cfg", "GenTcp_deep.cfg"), "gen", {"VERIF_PROP": prop, "VERIF_OUT": cases}, workers=1)
            run.harness(["tcp", cases, log], timeout=600)
            run.trace("TcpTrace", "TcpTrace.cfg", log, timeout=1800)

        run.parallel(conform, lambda: run.tlc("MC_Tcp", deep(run, "MC_Tcp.cfg", "MC_Tcp_deep.cfg"), "mc", workers=4))
    return {"run": go, "assumptions": COMMON + ["loopback TCP delivers bytes in order"]}


def parts(mc, gen, sub, trace, n, caps=True, more=()):
    """Like simple, with generation split in n parts run in parallel; the trace config belongs to the property."""
    def make(prop):
        def go(run):
            c, cases, log = run.path("caps.json"), run.path("cases.json"), run.path(sub + ".trace")
            outs = [run.path(f"cases{i}.json") for i in range(n)]
            env = {"VERIF_CAPS": c} if caps else {}

            def build():
                run.build()
                if caps:
                    run.harness(["caps", c])
                run.parallel(*[(lambda i=i: run.tlc(gen, deep(run, gen + ".cfg", gen + "_deep.cfg"), "gen",
                                                    dict(env, VERIF_PART=str(i), VERIF_PARTS=str(n), VERIF_OUT=outs[i]), workers=1)) for i in range(n)])
                with open(cases, "w") as f:
                    for o in outs:
                        f.write(open(o).read())
                run.harness([sub, cases, log] + [m(run) if callable(m) else m for m in more], timeout=1200)
                run.trace(trace, f"{trace}_{prop}.cfg", log, env, timeout=1800)

            run.parallel(build, *[(lambda x=x: run.tlc(x, deep(run, x + ".cfg", x + "_deep.cfg"), "mc", workers=4)) for x in mc.split()])
        return {"run": go, "assumptions": COMMON}
    return make


PROPS = {p: wire(p) for p in ("C01", "C02", "C03", "C04")}
PROPS["C05"] = simple("MC_Sized", "GenSized", "sized", "SizedTrace", caps=True)
PROPS["C06"] = simple("MC_List", "GenList", "lists", "ListTrace", caps=True, trace_deep=True)
_client = parts("MC_Client", "GenClient", "client", "ClientTrace", 4, more=(lambda r: r.seed, lambda r: deep(r, 3000, 60000)))
for _p in ("C07", "C08", "C09"):
    PROPS[_p] = _client(_p)
_server = parts("MC_Server MC_InPlace", "GenServer", "server", "ServerTrace", 3, caps=False, more=(lambda r: r.seed, lambda r: deep(r, 1500, 30000)))
for _p in ("C10", "C11", "C12"):
    PROPS[_p] = _server(_p)
PROPS["C13"] = simple("MC_Adapter", "GenAdapter", "adapters", "AdapterTrace")
PROPS["C14"] = simple("MC_Buffer", "GenBuffer", "buffers", "BufferTrace")
for _p in ("C15", "C16"):
    PROPS[_p] = tcp(_p)
PROPS["C17"] = simple("MC_Sim", "GenSim", "sim", "SimTrace")
PROPS["C18"] = simple("MC_Codes", "GenCodes", "codes", "CodesTrace")
PROPS["C19"] = simple("MC_Const", None, "consts", "ConstTrace")
PROPS["C20"] = simple("MC_Handle", "GenHandle", "handles", "HandleTrace")
PROPS["C21"] = simple("MC_Marsh", "GenMarsh", "marsh", "MarshTrace")
PROPS["C22"] = simple("MC_Loop", "GenLoop", "loop", "LoopTrace", more=(lambda r: r.seed, lambda r: deep(r, 1000, 30000)))
