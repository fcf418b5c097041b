"""What is run for each property: design models (TLC), traces recorded from the code validated against the specification
(TLC), and behaviours of the specification (TLC) replayed on the code."""
import json, os, re

SEQ_INV = "TypeOK P02_WellFormed P09_EntryAtTop P09_Linked P04_Sound P05_Complete P05_Closed P06_Filter"


def mcseq_cfg(N=4, MaxL=1, Ms="{1, 2}", Efcs="{1, 3}", flags="FlagsSome", nperm=40, seed=1, emit=0, inv=SEQ_INV,
              props="P08_Displaced P09_Monotone"):
    return ("SPECIFICATION Spec\nCONSTANTS N = %d MaxL = %d Ms = %s Efcs = %s Flags <- %s NPerm = %d Seed = %d Emit = %d\n"
            "INVARIANTS %s\n%sCHECK_DEADLOCK FALSE\n" % (N, MaxL, Ms, Efcs, flags, nperm, seed, emit,
                                                        inv + (" PrintBehaviour" if emit else ""),
                                                        "PROPERTIES %s\n" % props if props else ""))


def conc_cfg(npre, pre, ins, kinds, ms="{1}", efcs="{2}", nperm=4, seed=1, hold="FALSE", norecheck="FALSE", rec="FALSE",
             count="FALSE", live=False):
    return ("CONSTANTS NPre = %d PreLevels <- %s InsLevels <- %s Kinds <- %s Ms = %s Efcs = %s NPerm = %d Seed = %d "
            "HoldOwn = %s NoRecheck = %s RecRead = %s CountFirst = %s EmitOne = 0\nSPECIFICATION Spec\n"
            "INVARIANTS WellFormedAlways NothingLost EntryTop Linked SearchSound IterSound DumpCoherent\n"
            "PROPERTIES LinksOnlyDisplaced EntryMonotone Stored%s\n"
            % (npre, pre, ins, kinds, ms, efcs, nperm, seed, hold, norecheck, rec, count, " Terminates" if live else ""))


def replay(ctx, kinds, cfg, tag="beh"):
    """behaviours printed by TLC, stepped through the code; mismatches of the given kinds are violations"""
    r = ctx.model(tag, "MCSeq", cfg, workers="6", timeout=800)
    f = os.path.join(ctx.work, tag + ".beh.ndjson")
    n = 0
    with open(f, "w") as h:
        for l in open(r["out"]):
            m = re.match(r'<<"BEHAVIOUR", (".*")>>$', l.strip())
            if m:
                h.write(json.loads(m.group(1)) + "\n")
                n += 1
    _, mm = ctx.vh(tag + "-mm", ["replay", "--in", f], shards=1)
    with ctx.lock:
        ctx.traces += n
        ctx.extra["behaviours_of_the_specification_replayed"] = ctx.extra.get("replayed", 0)
        if n and len(ctx.samples) < 6:
            b = json.loads(open(f).readline())
            ctx.samples.append({"stage": tag, "behaviour": {k: b[k] for k in ("par", "lev", "nb", "ep", "ans")}})
    if mm:
        for l in open(mm):
            v = json.loads(l)
            if v["kind"] in kinds or v["kind"] == "panic":
                ctx.violation("replay of a behaviour of the specification: %s: %s" % (v["kind"], v["msg"]),
                              {"behaviour": v["behaviour"]})
                break


def seq(ctx, full=0, filter=None, ties=1, srch=None, n=(190, 900), maxn=(14, 22), tag="seq", reload=0):
    def go():
        a = (["--reload", reload] if reload else [])
        a = ["seq"] + a + ["--n", ctx.q(*n), "--maxn", ctx.q(*maxn), "--full", full, "--ties", ties]
        if filter is not None:
            a += ["--filter", filter]
        if srch is not None:
            a += ["--srch", srch]
        _, t = ctx.vh(tag, a)
        ctx.traces_ok(tag, "TraceSeq", t)
    return go


def seq_long(ctx, full=0, filter=None, srch=None, n=(2, 8), maxn=(60, 120)):
    """fewer sessions on larger indexes"""
    def go():
        a = ["seq", "--n", ctx.q(*n), "--maxn", ctx.q(*maxn), "--full", full, "--ties", 1, "--big", 1]
        if filter is not None:
            a += ["--filter", filter]
        a += ["--srch", srch if srch is not None else 0.3]
        _, t = ctx.vh("big", a)
        ctx.traces_ok("big", "TraceSeq", t)
    return go


def large(ctx, n=(2, 8), pts=(1500, 6000), srch=4, wide=0.2, tag="large", cdumps=0, creads=0):
    """hundreds to thousands of points with integer coordinates"""
    def go():
        _, t = ctx.vh(tag, ["large", "--n", ctx.q(*n), "--pts", ctx.q(*pts), "--srch", srch, "--wide", wide, "--cdumps", cdumps, "--creads", creads])
        ctx.traces_ok(tag, "TraceLarge", t, timeout=ctx.q(700, 3000))
    return go


def dense(ctx, n=(1, 6), srch=0):
    """lists with more neighbours than 8 bits count"""
    def go():
        _, t = ctx.vh("dense", ["large", "--n", ctx.q(*n), "--pts", 600, "--srch", srch, "--wide", 0, "--dense", 1], shards=ctx.q(4, 8))
        ctx.traces_ok("dense", "TraceLarge", t, timeout=ctx.q(700, 3000))
    return go


def huge(ctx, n=68500, k=1):
    """more points than 16 bits count"""
    def go():
        _, t = ctx.vh("huge", ["large", "--n", k, "--huge", n], shards=1)
        ctx.traces_ok("huge", "TraceLarge", t, sample=False, timeout=ctx.q(700, 3000))
    return go


def mcseq(ctx, **kw):
    def go():
        ctx.model("seq", "MCSeq", mcseq_cfg(seed=ctx.seed % 1000 + 1, **kw))
        if ctx.thorough:
            ctx.model("seq5", "MCSeq", mcseq_cfg(N=5, MaxL=1, nperm=12, seed=ctx.seed % 1000 + 2, Ms="{1, 2}", Efcs="{2}"), timeout=1500)
            ctx.model("seq3all", "MCSeq", mcseq_cfg(N=3, MaxL=2, nperm=0, Ms="{1}", Efcs="{1, 2}"), timeout=1500)
    return go


def behaviours(ctx, kinds):
    def go():
        s = ctx.seed % 1000 + 11
        replay(ctx, kinds, mcseq_cfg(seed=s, nperm=ctx.q(24, 60), emit=ctx.q(2, 1), Efcs="{1, 2, 3}"))
        if ctx.thorough:
            replay(ctx, kinds, mcseq_cfg(N=5, seed=s + 1, nperm=10, emit=2, Efcs="{2, 4}", Ms="{1, 2}"), tag="beh5")
    return go


def P01(ctx):
    return [mcseq(ctx, nperm=10), behaviours(ctx, {"store"}), seq(ctx, full=1, n=(75, 400)), seq_long(ctx, full=1, srch=0.1), large(ctx), huge(ctx)], {}


def P02(ctx):
    return [mcseq(ctx), behaviours(ctx, {"graph"}), seq(ctx, srch=0.1), seq_long(ctx, srch=0.0), large(ctx, srch=0), dense(ctx)], {}


def P03(ctx):
    return [mcseq(ctx, nperm=10), behaviours(ctx, {"graph"}), seq(ctx, srch=0), seq_long(ctx, srch=0.0, maxn=(40, 80)), large(ctx, srch=0), dense(ctx)], {}


def P04(ctx):
    return [mcseq(ctx, nperm=20), behaviours(ctx, {"answer"}), seq(ctx, srch=1.5), seq_long(ctx, srch=0.5), large(ctx, srch=12)], {}


def P05(ctx):
    return [mcseq(ctx, nperm=20), behaviours(ctx, {"answer"}), seq(ctx, filter=0, ties=0, srch=2), seq_long(ctx, filter=0, srch=0.5), large(ctx, srch=8)], {}


def P06(ctx):
    return [mcseq(ctx, nperm=20), behaviours(ctx, {"filter"}), seq(ctx, filter=1, srch=2), seq_long(ctx, filter=1, srch=0.5), large(ctx, srch=12)], {}


def P07(ctx):
    def model():
        c = "SPECIFICATION Spec\nCONSTANTS NReq = %d NWorkers = 3 NQueries = %d ByRank = %s\n" \
            "INVARIANTS Correct OncePerRequest\n%sCHECK_DEADLOCK FALSE\n"
        ctx.model("par", "HnswPar", c % (4, 3, "TRUE", "PROPERTY Ends\n"))
        ctx.model("par-by-arrival", "HnswPar", c % (3, 2, "FALSE", ""), expect="Invariant Correct is violated")
        if ctx.thorough:
            ctx.model("par5", "HnswPar", c % (5, 3, "TRUE", "PROPERTY Ends\n"))

    def run():
        _, t = ctx.vh("psearch", ["psearch", "--n", ctx.q(16, 150)], timeout=800)
        ctx.traces_ok("psearch", "TracePar", t, prop=False)
    return [model, run, large(ctx, n=(3, 12), srch=0)], {}


def conc_models(ctx, which):
    s = ctx.seed % 1000 + 1

    def go():
        for w in which:
            if w == "ins":
                ctx.model("ins", "HnswConc", conc_cfg(1, "LowLevels", "AllLevels", "KInsIns", seed=s))
                ctx.model("ins0", "HnswConc", conc_cfg(0, "LowLevels", "AllLevels", "KInsIns", seed=s))
                if ctx.thorough:
                    ctx.model("ins3", "HnswConc", conc_cfg(1, "LowLevels", "LowLevels", "KIns3", nperm=4, seed=s), timeout=3000)
                    ctx.model("ins2", "HnswConc", conc_cfg(2, "HighLevels", "AllLevels", "KInsIns", ms="{1, 2}", efcs="{2, 3}",
                                                           nperm=5, seed=s), timeout=3000)
            if w == "srch":
                ctx.model("srch", "HnswConc", conc_cfg(1, "LowLevels", "LowLevels", "KInsSrch", nperm=2, seed=s), timeout=1500)
            if w == "mixed":
                ctx.model("mixed", "HnswConc", conc_cfg(1, "LowLevels", "LowLevels", "KMixed", nperm=2, seed=s), timeout=1500)
            if w == "live":
                ctx.model("live", "HnswConc", conc_cfg(2, "LowLevels", "LowLevels", "KInsIns", nperm=2, seed=s, live=True), timeout=1500)
            if w == "norecheck":
                ctx.model("norecheck", "HnswConc", conc_cfg(0, "LowLevels", "AllLevels", "KInsIns", norecheck="TRUE"),
                          expect="Invariant Linked is violated")
            if w == "dump":
                ctx.model("dump", "HnswConc", conc_cfg(1, "LowLevels", "LowLevels", "KDump", nperm=2, seed=s), timeout=1500)
                ctx.model("dump0", "HnswConc", conc_cfg(0, "LowLevels", "AllLevels", "KDump", nperm=2, seed=s), timeout=1500)
                if ctx.thorough:
                    ctx.model("dump2", "HnswConc", conc_cfg(2, "LowLevels", "AllLevels", "KDump", nperm=3, seed=s), timeout=3000)
            if w == "count":
                ctx.model("count", "HnswConc", conc_cfg(1, "LowLevels", "LowLevels", "KDump", nperm=2, count="TRUE"),
                          expect="Invariant DumpCoherent is violated")
            if w == "rec":
                ctx.model("rec", "HnswConc", conc_cfg(1, "LowLevels", "LowLevels", "KMixed", rec="TRUE"), expect="Deadlock reached")
            if w == "hold" and ctx.thorough:
                ctx.model("hold", "HnswConc", conc_cfg(2, "HighLevels", "AllLevels", "KInsIns", ms="{1,2}", efcs="{2,3}", nperm=5,
                                                       hold="TRUE"), expect="Deadlock reached", timeout=1500)
    return go


def conc(ctx, mode, n, per, dry, ctxn=0, fin=0, stops=0, tag=None):
    tag = tag or "conc-" + mode

    def go():
        a = ["conc", "--mode", mode, "--n", ctx.q(*n), "--per", ctx.q(*per), "--dry", ctx.q(*dry), "--fin", fin]
        if ctxn:
            a += ["--ctx", ctx.q(*ctxn)]
        if stops:
            a += ["--stops", ctx.q(*stops)]
        _, t = ctx.vh(tag, a, timeout=ctx.q(500, 3000))
        ctx.traces_ok(tag, "TraceConc", t, timeout=ctx.q(700, 3000))
    return go


def pinsert(ctx, n):
    def go():
        _, t = ctx.vh("pinsert", ["pinsert", "--n", ctx.q(*n)], timeout=ctx.q(600, 2000))
        ctx.traces_ok("pinsert", "TraceConc", t)
    return go


def P08(ctx):
    return [conc_models(ctx, ["ins"]), conc(ctx, "ins", (12, 100), (3, 6), (40, 200)),
            conc(ctx, "ins", (10, 60), (0, 0), (10, 40), ctxn=(60, 400), fin=1, tag="conc-fin"), pinsert(ctx, (12, 80)), large(ctx, n=(3, 12), srch=0), huge(ctx, ctx.q(6000, 30000) + ctx.seed * 37 % 1000, 2)], {}


def P09(ctx):
    return [conc_models(ctx, ["ins", "norecheck"]), conc(ctx, "ins", (12, 100), (3, 6), (40, 200)),
            conc(ctx, "ins", (12, 60), (0, 0), (10, 40), ctxn=(80, 500), fin=1, tag="conc-fin"), pinsert(ctx, (12, 80)),
            seq(ctx, srch=0, n=(60, 300)), behaviours(ctx, {"entry"}), large(ctx, n=(2, 12), srch=0)], {}


def P10(ctx):
    return [conc_models(ctx, ["mixed", "live", "rec", "hold"]),
            conc(ctx, "cross", (4, 40), (1, 1), (5, 100), ctxn=(3000, 20000)),
            conc(ctx, "mix", (8, 60), (2, 2), (100, 600), ctxn=(300, 3000)),
            conc(ctx, "ins", (5, 40), (1, 1), (100, 600), ctxn=(300, 3000)),
            conc(ctx, "search", (4, 40), (1, 1), (100, 400)), pinsert(ctx, (8, 60))], {}


def P11(ctx):
    return [conc_models(ctx, ["srch"]), conc(ctx, "search", (25, 200), (4, 8), (10, 60)),
            conc(ctx, "search", (20, 100), (0, 0), (10, 30), ctxn=(60, 300), fin=1, tag="conc-fin"),
            conc(ctx, "mix", (8, 60), (3, 6), (5, 30)), large(ctx, n=(2, 10), pts=(1000, 5000), srch=0, wide=0.1, creads=60)], {}


def files(ctx, n=(250, 1500), maxn=(9, 16), steps=(26, 60)):
    def go():
        _, t = ctx.vh("files", ["files", "--n", ctx.q(*n), "--maxn", ctx.q(*maxn), "--steps", ctx.q(*steps)])
        ctx.traces_ok("files", "TraceFiles", t)
    return go


def files_model(ctx):
    c = ('SPECIFICATION Spec\nCONSTANTS Bases = {"a", "b", "c"} Contents = {1, 2} MaxIdx = %d Careless = %s ByName = %s\n'
         "PROPERTIES MappedKept NothingOverwritten ReturnedName MemoryName\nINVARIANT DumpsTaken\nCHECK_DEADLOCK FALSE\n")

    def go():
        ctx.model("files", "MCFiles", c % (ctx.q(2, 3), "FALSE", "FALSE"))
        ctx.model("files-careless", "MCFiles", c % (2, "TRUE", "FALSE"), expect="is violated")
        ctx.model("files-byname", "MCFiles", c % (2, "FALSE", "TRUE"), expect="is violated")
    return go


def P12(ctx):
    return [seq(ctx, reload=0.35, n=(130, 700)), files(ctx), large(ctx, srch=0), huge(ctx)], {}


def P14(ctx):
    return [files(ctx), large(ctx, n=(4, 16), srch=0, wide=0.5)], {}


def P15(ctx):
    return [files(ctx), files_model(ctx)], {}


def P16(ctx):
    return [files(ctx), large(ctx, n=(3, 12), srch=0)], {}


def P17(ctx):
    return [files(ctx)], {}


def P13(ctx):
    c = ("SPECIFICATION Spec\nCONSTANTS GLen = %d DLen = %d LoseFlush = %s TrustGraph = %s\n"
         "INVARIANTS OnlyComplete OkIsComplete\nCHECK_DEADLOCK FALSE\n")

    def model():
        ctx.model("dump", "HnswDump", c % (ctx.q(6, 12), ctx.q(5, 9), "FALSE", "FALSE"))
        ctx.model("dump-lose", "HnswDump", c % (3, 2, "TRUE", "FALSE"), expect="Invariant OkIsComplete is violated")
        ctx.model("dump-trust", "HnswDump", c % (3, 2, "FALSE", "TRUE"), expect="Invariant OnlyComplete is violated")
        ctx.model("format", "MCFormat", MCFORMAT % (2, ctx.q(23, 1)), workers="2", timeout=1500)

    def crash():
        _, t = ctx.vh("crash", ["crash", "--n", ctx.q(6, 40), "--maxn", ctx.q(5, 9)], timeout=ctx.q(400, 2500))
        ctx.traces_ok("crash", "TraceCrash", t, prop=False)

    def big():
        _, t = ctx.vh("crash-big", ["crash", "--n", ctx.q(2, 12), "--big", ctx.q(90, 200)], timeout=ctx.q(400, 2500))
        ctx.traces_ok("crash-big", "TraceCrash", t, prop=False)
    return [crash, big, model], {}


MCFORMAT = ("SPECIFICATION Spec\nCONSTANTS NL = %d MaxPts = 2 Every = %d\n"
            "INVARIANTS ReadsBack LengthsOK MarksOK NoPrefixReads BadMarkRefused\nCHECK_DEADLOCK FALSE\n")


def P20(ctx):
    def model():
        ctx.model("format", "MCFormat", MCFORMAT % (2, ctx.q(23, 3)), workers="2", timeout=1500)

    def fmt():
        _, t = ctx.vh("fmt", ["fmt", "--n", ctx.q(60, 600), "--maxn", ctx.q(6, 9)])
        ctx.traces_ok("fmt", "TraceFormat", t, prop=False, consts="CONSTANT NL = 16")
    return [model, fmt, files(ctx, n=(40, 300))], {}


def P18(ctx):
    def capi():
        _, t = ctx.vh("capi", ["capi", "--n", ctx.q(124, 1240), "--maxn", ctx.q(14, 22)])
        ctx.traces_ok("capi", "TraceCapi", t, prop=False)
    def big():
        _, t = ctx.vh("capi-big", ["capi", "--n", ctx.q(3, 18), "--big", 1])
        ctx.traces_ok("capi-big", "TraceCapi", t, prop=False)
    return [capi, big], {}


def P19(ctx):
    c = ("SPECIFICATION Spec\nCONSTANTS Ms = %s Ds = {1, 2} Ls = {1, 2, 3} Clamp = %s\nINVARIANTS InRange Law BoundsOK\nCHECK_DEADLOCK FALSE\n")

    def model():
        ctx.model("levels", "MCLevels", c % (ctx.q("{1, 2, 3}", "{1, 2, 3, 4, 5}"), "FALSE"))
        ctx.model("levels-clamp", "MCLevels", c % ("{2}", "TRUE"), expect="Invariant Law is violated")

    def run():
        _, t = ctx.vh("levels", ["levels", "--n", ctx.q(12, 60), "--pts", ctx.q(12000, 40000)], timeout=ctx.q(500, 2500))
        ctx.traces_ok("levels", "TraceLevels", t, prop=False)
    return [model, run], {}


def P21(ctx):
    c = ("SPECIFICATION Spec\nCONSTANTS N = %d MaxL = %d SkipTop = %s NoClear = %s\nINVARIANTS NothingKept NotTooEarly\n%sCHECK_DEADLOCK FALSE\n")

    def model():
        ctx.model("drop", "HnswDrop", c % (3, ctx.q(1, 2), "FALSE", "FALSE", "PROPERTY Ends\n"))
        ctx.model("drop-skiptop", "HnswDrop", c % (3, 1, "TRUE", "FALSE", ""), expect="Invariant NothingKept is violated")
        ctx.model("drop-noclear", "HnswDrop", c % (3, 1, "FALSE", "TRUE", ""), expect="Invariant NothingKept is violated")

    def run():
        _, t = ctx.vh("drop", ["drop", "--n", ctx.q(120, 1200), "--maxn", ctx.q(14, 24)], timeout=ctx.q(500, 2500))
        ctx.traces_ok("drop", "TraceDrop", t, prop=False)

    def bulk():
        # large indexes: only the numbers of points and elements
        _, t = ctx.vh("bulk", ["drop", "--n", ctx.q(12, 60), "--bulk", ctx.q(12000, 60000)], timeout=ctx.q(500, 2500))
        ctx.traces_ok("bulk", "TraceDrop", t, prop=False)

    def failing():
        # loads of cut files leave nothing allocated
        _, t = ctx.vh("failing", ["drop", "--n", ctx.q(10, 120), "--failing", 1], timeout=ctx.q(500, 2500))
        ctx.traces_ok("failing", "TraceDrop", t, prop=False)
    return [model, run, bulk, failing], {}


def P22(ctx):
    return [conc_models(ctx, ["dump", "count"]), conc(ctx, "dump", (60, 400), (12, 24), (0, 0)),
            conc(ctx, "dump", (30, 200), (20, 60), (0, 0), ctxn=(20, 60), tag="conc-ctx"),
            conc(ctx, "mix", (20, 100), (4, 8), (5, 30)), large(ctx, n=(3, 12), pts=(900, 4000), srch=0, wide=0.1, cdumps=4)], {}


def P23(ctx):
    def model():
        s = ctx.seed % 1000 + 1

        def cfg(npre, kinds, nperm=2, split="FALSE", early="FALSE", live=False):
            return ("CONSTANTS NPre = %d PreLevels <- LowLevels InsLevels <- LowLevels Kinds <- %s Ms = {1} Efcs = {2} NPerm = %d Seed = %d "
                    "HoldOwn = FALSE NoRecheck = FALSE RecRead = FALSE CountFirst = FALSE EmitOne = 0 Split = %s Early = %s\nSPECIFICATION RSpec\n"
                    "INVARIANTS CountSound CountKept MloSound InRange LookSound IterAll FlatSound\n%s"
                    % (npre, kinds, nperm, s, split, early, "PROPERTY RTerminates\n" if live else ""))
        ctx.model("reads", "HnswReads", cfg(1, "KReads"), timeout=800)
        ctx.model("reads0", "HnswReads", cfg(0, "KReads", live=True), timeout=800)
        ctx.model("reads-split", "HnswReads", cfg(1, "KFlat", split="TRUE"), expect="Invariant FlatSound is violated")
        ctx.model("reads-early", "HnswReads", cfg(1, "KLook", early="TRUE"), expect="Invariant InRange is violated")
        if ctx.thorough:
            ctx.model("reads2", "HnswReads", cfg(2, "KReads", nperm=3), timeout=3000)
            ctx.model("reads-live", "HnswReads", cfg(1, "KReads", live=True), timeout=3000)
    return [model, conc(ctx, "read", (40, 300), (6, 16), (0, 0)), conc(ctx, "read", (12, 120), (20, 60), (0, 0), ctxn=(20, 60), tag="conc-ctx"),
            conc(ctx, "read", (20, 150), (0, 0), (0, 0), stops=(60, 200), tag="conc-stops"),
            conc(ctx, "mix", (15, 100), (4, 8), (5, 30)), large(ctx, n=(2, 10), pts=(1000, 5000), srch=0, wide=0.1, creads=60)], {}


PLANS = {k: v for k, v in list(globals().items()) if re.fullmatch(r"P\d\d", k)}
