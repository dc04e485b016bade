"""One function per property."""
import random
import browser
import cli
import dwarf
import graphs as G
import history
import modes
import names
import opts
import replay
import run as runs
import wasm
from common import run_harness
from engine import Run

TRUST = ["the Python projection of text, JSON and CSV output onto rows (lib/project.py)",
         "TLC and its JSON module", "the harness reports what the crates return (harness/src/main.rs)"]


def rounds(run, quick_rounds, per_round, budget):
    """Yield (round, size): a fixed number when quick, until the time is used
    when thorough."""
    i = 0
    while True:
        if run.quick and i >= quick_rounds:
            return
        if not run.quick and i >= quick_rounds and run.elapsed() > budget:
            return
        yield i, per_round
        i += 1


def analysis_check(op, queries=(), reqs=6, hi=13):
    def check(run):
        for i, n in rounds(run, 1, 1600, 900):
            rng = run.rng("ir", i)
            hs = []
            for k in range(n):
                big = k % 40 == 39 and op in ("top", "garbage", "monos", "diff", "dominators")
                hs.append(replay.ir_history(rng, [op], 20 if big else 1, 60 if big else hi, reqs,
                                            queries=queries))
            run.histories(hs, "graphs")
            # Sizes up to the largest that are possible.
            run.histories([replay.ir_history(rng, [op], 1, 10, reqs, queries=queries, huge=True)
                           for _ in range(n // 10)], "huge")
            # Long chains and wide fans: what only shows beyond some depth or count.
            hs = []
            for k in range(20):
                style = ("deep", "wide", "deep")[k % 3]
                if op == "paths":
                    hs.append(replay.ir_history(rng, [op], 20, 45, 3, style, queries, cap=2500))
                    if k < 6:
                        hs.append(replay.far_history(rng))
                elif k < 5:
                    hs.append(replay.ir_history(rng, [op], 260, 290, 3, style, queries))
                else:
                    hs.append(replay.ir_history(rng, [op], 130, 230, 3, style, queries))
            run.histories(hs, "large")
            parsed(run, rng, op, queries, n // 4)
            if i == 0:
                enumerated(run, rng, op, queries)
        return "model_checking", TRUST
    return check


def parsed(run, rng, op, queries, n):
    """Graphs that come from the parser."""
    datas = [wasm.Module(rng, small=j % 2).encode() for j in range(n)]
    datas += [b for _, b in wasm.fixtures(2500)]
    rep = run_harness(run.harness(), [replay.wasm_cmds(d) for d in datas])
    gs = [G.Parsed(b, r[1]) for b, r in zip(datas, rep) if "items" in r[1]]
    cap = 500
    if op == "paths":
        gs = [g for g in gs if G.simple_paths(g.succ, cap) < cap
              and G.simple_paths(G.reversed_graph(g.succ), cap) < cap]
    run.histories([replay.parsed_history(rng, g, rng.choice(gs), op, 4, queries) for g in gs], "parsed")


def enumerated(run, rng, op, queries):
    """Every small graph, or every pair of small inventories."""
    if op in ("monos", "diff"):
        quick = {"MaxOld": 0, "MaxNew": 4} if op == "monos" else {"MaxOld": 2, "MaxNew": 2}
        deep = {"MaxOld": 0, "MaxNew": 6} if op == "monos" else {"MaxOld": 3, "MaxNew": 3}
        em = run.check_model("MCInventory.tla", constants=quick if run.quick else deep)
        if op == "monos":
            em = [dict(e, old=e["new"]) for e in em]
        hs = [replay.inventory_history(rng, e, op, 6 if op == "monos" else 2) for e in em]
    else:
        em = run.check_model("MCGraph.tla", constants={"N": 3, "Loops": "TRUE"})
        if not run.quick:
            em += run.check_model("MCGraph.tla", "MCGraph4", constants={"N": 4, "Loops": "FALSE"}, timeout=3600)
        hs = [replay.model_history(rng, e, op, 2, queries) for e in em]
    for j in range(0, len(hs), 8000):
        run.histories(hs[j:j + 8000], "enumerated")


def grown(run, focus):
    """Modules the specification grows and encodes piece by piece."""
    todo = [("MCWasm", {"Depth": 2, "Many": "FALSE"}, 0)]
    if not run.quick:
        todo += [("MCWasmMany", {"Depth": 2, "Many": "TRUE"}, 3600),
                 ("MCWasmDeep", {"Depth": 3, "Many": "FALSE"}, 3600)]
    for name, constants, limit in todo:
        em = run.check_model("MCWasm.tla", name, constants=constants, **({"timeout": limit} if limit else {}))
        for j in range(0, len(em), 8000):
            run.modules([bytes(x) for x in em[j:j + 8000]], focus, "grown")


WASM_TRUST = ["the harness reports the parsed items and edges (harness/src/main.rs)",
              "TLC and its JSON module"]


def wasm_check(focus, n):
    def check(run):
        for i, k in rounds(run, 1, n, 900):
            rng = run.rng("wasm", i)
            ds = [wasm.Module(rng, odd=(j % 6 == 5), small=(j % 5 == 4)).encode() for j in range(k)]
            ds += [wasm.break_bytes(rng, wasm.Module(rng, small=True).encode()) for _ in range(k // 10)]
            run.modules(ds, focus, "modules")
            big = [wasm.Module(rng, big=True).encode() for _ in range(20)]
            run.modules([b for b in big if len(b) < 9000], focus, "many")
            far = [wasm.Module(rng, small=True, long=True).encode() for _ in range(24)]
            run.modules([b for b in far if len(b) < 14000], focus, "long names")
            if i == 0:
                grown(run, focus)
                run.modules([b for _, b in wasm.fixtures(4000 if run.quick else 10 ** 5)],
                            focus, "fixtures")
        return "model_checking", WASM_TRUST
    return check


def c18(run):
    for i, k in rounds(run, 1, 1000, 900):
        rng = run.rng("broken", i)
        ds = []
        for _ in range(8):                          # every truncation
            b = wasm.Module(rng, small=True, odd=rng.random() < 0.2).encode()
            if len(b) < 400:
                ds += [b[:j] for j in range(len(b))]
        run.modules(ds, ["broken"], "truncated")
        run.modules([wasm.break_bytes(rng, wasm.Module(rng, small=True, odd=rng.random() < 0.2).encode())
                     for _ in range(2 * k)], ["broken"], "corrupted")
        run.modules([wasm.broken_ref(rng) for _ in range(k)], ["broken"], "references")
        if i == 0:
            grown(run, ["broken"])
        run.objects([dwarf.case(rng, dwarf.SPOILS[j % len(dwarf.SPOILS)]) for j in range(k // 2)], "object entries")
        run.objects([c for _ in range(10) for c in dwarf.truncations(rng, 3 if run.quick else 1)],
                    "object truncated")
        run.objects([dwarf.outside(rng) for j in range(k // 10)], "object sections")
        run.objects([dwarf.corrupted(rng) for j in range(k)], "object corrupted")
        run.objects([dwarf.claims_too_much(rng) for j in range(5)], "object headers")
        # Files that are hardly there, by their contents or by their names.
        names_ = [b"a", b"a.wasm", b"a.o", b".wasm", b"wasm", b"a.WASM"] * 10
        ss, origin = modes.sessions(run, rng, [list(x) for x in names_], 2, modes.short(rng))
        run.sessions(ss, "beginnings", "TwFormatTrace.tla", origin)
        # Whatever a module that is taken contains, requests are answered.
        some = [(wasm.break_bytes(rng, wasm.Module(rng, small=True, odd=True).encode()), None, 0)
                for _ in range(k // 5)]
        some += [(wasm.Module(rng, odd=j % 2 == 0).encode(), None, 0) for j in range(k // 10)]
        some += [(runs.named_module([s.encode() for s in names.random_symbols(rng, 12)]), None, 0)
                 for _ in range(k // 20)]
        for n in (20, 45, 200):
            some += [(runs.named_module([names.exponential(n).encode(), b"f"]), None, 0) for _ in range(2)]
        # Long chains of references; the deepest are finding F2.
        for w in runs.ANY_REQUEST[:9]:
            some += [(runs.chain(rng.randint(1000, 1500)), w + ["-f", f], 1500)
                     for f in ("text", "json", "csv")]
        some += [(runs.chain(20000), ["dominators", "-f", "json"], 20000)]
        runs.survive(run, rng, some, "requests")
    return "model_checking", WASM_TRUST


def c14(run):
    for i, k in rounds(run, 1, 1200, 900):
        rng = run.rng("options", i)
        hs = []
        for _ in range(k):
            cap = 300
            while True:
                g = G.random_graph(rng, 1, 8)
                if any(len(x) > 150 for x in g.name):
                    continue
                if G.simple_paths(g.succ, cap) < cap and G.simple_paths(G.reversed_graph(g.succ), cap) < cap:
                    break
            g2 = G.derived_graph(rng, g)
            while any(len(x) > 150 for x in g2.name):
                g2 = G.derived_graph(rng, g)
            hs.append(opts.history(rng, g, g2, 12))
        run.histories(hs, "options", "TwOptTrace.tla")
        if i == 0:
            lines = run.check_model("MCOpts.tla", constants={"MaxFlags": 2 if run.quick else 3})
            run.histories([opts.lines(lines[j:j + 60]) for j in range(0, len(lines), 60)],
                          "enumerated", "TwOptTrace.tla")
    return "model_checking", TRUST


SELECTING = ["dominators", "paths", "monos", "diff"]


def c15(run):
    for i, k in rounds(run, 1, 1300, 900):
        rng = run.rng("select", i)
        hs = [replay.ir_history(rng, SELECTING, 1, 9, 8, cap=300,
                                pool=G.near_names if j % 3 else None, select=True)
              for j in range(k)]
        run.histories(hs, "selections")
        if i == 0:
            em = run.check_model("MCSelect.tla")
            if not run.quick:
                em += run.check_model("MCSelect.tla", "MCSelect3", constants={"MaxAtoms": 3}, timeout=3600)
            rng.shuffle(em)
            for j in range(0, len(em), 40000):
                run.histories([replay.select_history(rng, em[k:k + 5], SELECTING)
                               for k in range(j, min(j + 40000, len(em)), 5)], "patterns")
    return "model_checking", TRUST


ALL = ["top", "garbage", "dominators", "paths", "monos", "diff"]


def c11(run):
    for i, k in rounds(run, 1, 1300, 900):
        rng = run.rng("formats", i)
        hs = [replay.ir_history(rng, ALL, 1, 7, 5, cap=60,
                                pool=G.hostile_names if j % 4 else None, formats=True)
              for j in range(k)]
        run.histories(hs, "formats")
        if i == 0:
            run.check_model("MCJson.tla", constants={"MaxTokens": 7 if run.quick else 9})
            em = ["".join(map(chr, w)) for w in
                  run.check_model("MCFormats.tla", constants={"MaxLen": 3 if run.quick else 4})]
            rng.shuffle(em)
            for j in range(0, len(em), 14000):
                run.histories([replay.names_history(rng, em[k:k + 7], ALL, 3)
                               for k in range(j, min(j + 14000, len(em)), 7)], "enumerated")
    return "model_checking", TRUST


def c12(run):
    for i, k in rounds(run, 1, 260, 900):
        rng = run.rng("history", i)
        # Every schedule of a few requests, on fresh copies of some graphs.
        if i == 0:
            run._scheds = run.check_model("MCHistory.tla", constants={"Depth": 2 if run.quick else 3})
        hs = [history.schedules(rng, run._scheds) for _ in range(30 if run.quick else 12)]
        run.histories(hs, "schedules")
        # Random histories, each spread over two processes.
        pairs = [history.random_asks(rng, 14) for _ in range(k)]
        r1 = run_harness(run.harness(), [a.cmds for a, _ in pairs])
        r2 = run_harness(run.harness(), [b.cmds for _, b in pairs])
        ss = []
        for (a, b), x, y in zip(pairs, r1, r2):
            s, t = a.session(x), b.session(y)
            s["ev"] += t["ev"]
            ss.append(s)
        run.sessions(ss, "repeated", origin=[{"commands": a.cmds, "other process": b.cmds} for a, b in pairs])
        # The command itself, several times and in all surroundings, and the library on the same bytes.
        if i == 0:
            around = run.check_model("MCSurround.tla", constants={"Changes": 2 if run.quick else 5})
        some = rng.sample(around, min(len(around), 1200))
        run.sessions(cli.repeated(run, rng, 24 if run.quick else 120, some), "processes")
    return "model_checking", TRUST


def small_units(run, rng):
    """Units the specification grows attribute by attribute."""
    todo = [("MCDwarf", {"Depth": 3, "Many": "FALSE"}, 0)]
    if not run.quick:
        todo += [("MCDwarfMany", {"Depth": 3, "Many": "TRUE"}, 3600),
                 ("MCDwarfDeep", {"Depth": 4, "Many": "FALSE"}, 3600)]
    for name, constants, limit in todo:
        em = run.check_model("MCDwarf.tla", name, constants=constants, **({"timeout": limit} if limit else {}))
        for j in range(0, len(em), 8000):
            run.objects([dwarf.model_case(rng, e) for e in em[j:j + 8000]], "enumerated")


def c17(run):
    for i, k in rounds(run, 1, 1500, 900):
        rng = run.rng("object", i)
        run.objects([dwarf.case(rng) for _ in range(k)], "objects")
        run.objects([dwarf.case(rng, big_sizes=True) for _ in range(k // 10)], "large sizes")
        run.objects([dwarf.many(rng) for _ in range(12)], "many")
        if i == 0:
            small_units(run, rng)
    return "model_checking", ["the encoder of object files (lib/dwarf.py)"] + WASM_TRUST


RUN_TRUST = ["what lib/run.py observes of a run (status, outputs, changed files)",
             "RLIMIT_FSIZE and /dev/full stand for a destination that is full"] + WASM_TRUST


def c13(run):
    cfgs = run.check_model("MCRun.tla", workers=1)
    for i, _ in rounds(run, 3, 1, 600):
        rng = run.rng("runs", i)
        runs.realise(run, rng, cfgs, "faults")
    return "model_checking", RUN_TRUST


def c16(run):
    names = [n for n in run.check_model("MCFormat.tla", constants={"MaxPieces": 4 if run.quick else 5})
             if n and n not in ([46], [46, 46])]
    cfgs = [c for c in run.check_model("MCRun.tla", workers=1)
            if c["opts"] == "good" and c["ana"] == "good" and c["cap"] == -1 and all(i["there"] for i in c["ins"])]
    for i, _ in rounds(run, 1, 1, 600):
        rng = run.rng("modes", i)
        ss, origin = modes.sessions(run, rng, names, 2)
        run.sessions(ss, "names and modes", "TwFormatTrace.tla", origin)
        # The same through the command, for one and for two inputs.
        some = []
        for c in rng.sample(cfgs, min(150, len(cfgs))) * 2:
            c = dict(c)
            c["mode"] = rng.choice(["auto", "wasm", "dwarf", "WASM", "auto"])
            some.append(c)
        runs.realise(run, rng, some, "command")
    return "model_checking", RUN_TRUST


def c20(run):
    ask = names.direct(run.harness())
    for a, q, t in (("generic", 4, 5), ("legacy", 3, 4), ("v0", 3, 4), ("cpp", 3, 4)):
        em = run.check_model("MCName.tla", "MCName." + a,
                             constants={"MaxPieces": q if run.quick else t, "Alphabet": '"%s"' % a})
        em = [bytes(x) for x in em]
        if a != "generic":          # pieces behind the prefix
            em = sorted(set(em) | {{"legacy": b"_ZN", "v0": b"_R", "cpp": b"_Z"}[a] + x for x in em})
        run.named(*names.sessions(em, ask), "model " + a)
    for i, k in rounds(run, 1, 6000, 600):
        rng = run.rng("symbols", i)
        syms = [s.encode() for s in names.PLAIN + names.random_symbols(rng, k)]
        for part, how in ((syms, ask), (syms[:k // 3], names.in_modules(run.harness(), rng)),
                          ([s for s in syms[:k // 4] if b"\0" not in s], names.in_objects(run.harness(), rng))):
            run.named(*names.sessions(part, how), how.__qualname__.split(".")[0])
    return "model_checking", WASM_TRUST


def c19(run):
    em = run.check_model("MCApi.tla", constants={"Depth": 3 if run.quick else 4})
    for i, k in rounds(run, 1, 400, 600):
        rng = run.rng("browser", i)
        for label, ss, origin in browser.check(run, rng, k, em if i == 0 else None):
            label = label.replace(" ", "-")
            r = run.sessions(ss, label, "TwApiTrace.tla", origin, judged=True)
            run.extra.pop("classes." + label)
            n = "reports compared." + label
            run.extra[n] = run.extra.get(n, 0) + sum(r.classes.values())
    return "model_checking", ["lib/browser.js stands for the glue that wasm-bindgen generates"] + WASM_TRUST


CHECKS = {
    "C19": c19,
    "C20": c20,
    "C16": c16,
    "C13": c13,
    "C17": c17,
    "C12": c12,
    "C11": c11,
    "C15": c15,
    "C14": c14,
    "C01": wasm_check(["size"], 1000),
    "C02": wasm_check(["items"], 1000),
    "C03": wasm_check(["edges"], 1000),
    "C18": c18,
    "C04": analysis_check("garbage"),
    "C05": analysis_check("dominators", ("idoms", "domtree")),
    "C06": analysis_check("top", ("retained",)),
    "C07": analysis_check("top"),
    "C08": analysis_check("paths", ("preds",)),
    "C09": analysis_check("monos"),
    "C10": analysis_check("diff"),
}
