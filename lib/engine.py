"""Runs one property's check: record histories of the real code, validate them
against the specification, report, and write the evidence file."""
import json, os, random, shutil, sys, time
import cli, dwarf, replay
from common import *

KNOWN = os.path.join(ROOT, "known_findings.txt")


def known_findings(prop):
    """KNOWN entries `known: property=<id> key=<clause> <what>` for a property."""
    res = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


EMIT = re.compile(r'<<\s*"EMIT",\s*"(.*)"\s*>>')   # TLC folds wide values


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.states = self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.violations = []          # (clause, replay object)
        self.known = {}
        self.extra = {}
        self.model = {}
        self.label = "%s-%s" % (prop, tier)
        shutil.rmtree(os.path.join(BUILD, "replay", prop), ignore_errors=True)

    @property
    def quick(self):
        return self.tier == "quick"

    def rng(self, *what):
        return random.Random("%s/%s/%s" % (self.seed, self.prop, "/".join(map(str, what))))

    def elapsed(self):
        return time.time() - self.t0

    # ---------------------------------------------------------------- sources

    def harness(self):
        if not hasattr(self, "_exe"):
            self._exe = build_harness()
        return self._exe

    def cli(self):
        if not hasattr(self, "_cli"):
            self._cli = build_cli()
        return self._cli

    def api(self):
        if not hasattr(self, "_api"):
            import browser
            self._api = browser.build_api()
        return self._api

    def histories(self, hs, label, module="TwTrace.tla"):
        """Run harness histories and validate what was observed."""
        rep = run_harness(self.harness(), [h.cmds for h in hs])
        ss = [h.session(r) for h, r in zip(hs, rep)]
        self.sessions(ss, label, module, [{"commands": h.cmds} for h in hs])

    def sessions(self, ss, label, module="TwTrace.tla", origin=None, shards=1, judged=False):
        r = validate(ss, "%s-%s" % (self.label, label), module, shards=shards, judged=judged)
        self.states += r.states
        self.transitions += r.transitions
        self.traces += len(ss)
        self.events += sum(len(s.get("ev", (0,))) for s in ss)
        if judged:
            cl = self.extra.setdefault("classes." + label, {})
            for c in r.classes.values():
                cl[str(c)] = cl.get(str(c), 0) + 1
        self.extra["traces." + label] = self.extra.get("traces." + label, 0) + len(ss)
        if len(self.samples) < 4 and ss:
            s = ss[len(ss) // 2]
            self.samples.append({"label": label, "session": cut(s)})
        for si, ei, clause in r.mismatches:
            s = ss[si]
            self.report(clause, {
                "property": self.prop, "clause": clause, "label": label,
                "event_index": ei, "event": s["ev"][ei] if "ev" in s else None, "session": s,
                "origin": (origin[si] if origin else None)})
        return r

    def report(self, clause, replay):
        if clause.startswith("KF:"):
            key = clause[3:]
            kf = known_findings(self.prop)
            if key in kf:
                self.known[key] = self.known.get(key, 0) + 1
                return
        self.violations.append((clause, replay))

    def modules(self, datas, focus, label):
        """Parse byte sequences with the real parser and judge the result."""
        cmds = [replay.wasm_cmds(d) for d in datas]
        rep = run_harness(self.harness(), cmds)
        ss = [replay.wasm_session(d, r, focus) for d, r in zip(datas, rep)]
        return self.sessions(ss, label, "TwWasmTrace.tla", [{"commands": c} for c in cmds],
                             judged=True)

    def named(self, ss, origin, label):
        """Sessions of symbols and what they are shown as."""
        r = self.sessions(ss, label.replace(" ", "-"), "TwNameTrace.tla", origin, judged=True)
        cl = self.extra.pop("classes." + label.replace(" ", "-"), None)
        self.extra["determined." + label] = sum(r.classes.values())
        self.extra["symbols." + label] = sum(len(s["ev"]) for s in ss)
        return r

    def objects(self, cases, label):
        """cases: (bytes, units, how the file as a whole is broken or "")."""
        d = cli.scratch()
        try:
            cmds = []
            for k, (b, _, _) in enumerate(cases):
                p = os.path.join(d, "%d.o" % k)
                with open(p, "wb") as f:
                    f.write(b)
                cmds.append(["parsefile A %s %s" % (hx("dwarf"), hx(p)), "dump A"])
            rep = run_harness(self.harness(), cmds)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        ss = [dwarf.session(u, len(b), r, x) for (b, u, x), r in zip(cases, rep)]
        return self.sessions(ss, label, "TwDwarfTrace.tla",
                             [{"file": b.hex()} for b, _, _ in cases], judged=True)

    # ------------------------------------------------------------------ model

    def check_model(self, module, label=None, constants=(), **kw):
        """An exhaustive (or simulated) TLC run of a model, with its own .cfg
        file and some of the constants in it replaced. A violated invariant
        here is an error of the specification, not of the code. Returns what
        the model printed for replay."""
        label = label or module[:-4]
        cfg = open(os.path.join(SPEC, module[:-4] + ".cfg")).read()
        for k, v in dict(constants).items():
            cfg, n = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), cfg)
            if n != 1:
                raise ToolError("no constant %s in %s.cfg" % (k, module))
        path = os.path.join(BUILD, "traces", "%s-%s.cfg" % (self.label, label))
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(cfg)
        r = tlc(module, cfg=path, **kw)
        if not r.ok:
            raise ToolError("model %s: %s" % (module, r.out[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.model[label] = {"states": r.distinct, "transitions": r.generated,
                             "constants": dict(constants)}
        seen = {}
        for m in EMIT.findall(r.out):
            seen[m] = None
        return [json.loads(json.loads('"%s"' % m)) for m in sorted(seen)]

    # ----------------------------------------------------------------- ending

    def finish(self, level, assumptions):
        seen = set()
        n = 0
        d = os.path.join(BUILD, "replay", self.prop)
        for clause, rep in self.violations:
            if clause in seen:
                continue
            seen.add(clause)
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%d.json" % n)
            with open(path, "w", encoding="utf-8") as f:
                json.dump(rep, f, ensure_ascii=False, indent=1)
            n += 1
            if n <= 10:
                note = rep.get("event", {}).get("note") if isinstance(rep.get("event"), dict) else ""
                print("clause %s%s" % (clause, (": " + note) if note else ""))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        kf = known_findings(self.prop)
        for key, what in kf.items():
            print("KNOWN-FINDING: property=%s %s (met %d times in this run)"
                  % (self.prop, what, self.known.get(key, 0)))
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "events_validated": self.events, "models": self.model,
               "samples": self.samples or ["none"]}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": cov, "assumptions": assumptions, "wall_s": round(self.elapsed(), 1),
              "violations": len(self.violations)}
        text = json.dumps(ev, ensure_ascii=False, indent=1)
        while len(text.encode()) > 60000 and len(cov["samples"]) > 1:
            cov["samples"].pop()
            text = json.dumps(ev, ensure_ascii=False, indent=1)
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w", encoding="utf-8") as f:
            f.write(text + "\n")
        print("%s %s: %d states, %d traces, %d events, %d violations, %.1f s" % (
            self.prop, self.tier, self.states, self.traces, self.events,
            len(self.violations), self.elapsed()))
        return 1 if self.violations else 0


def cut(x, depth=0):
    """A sample that is small enough for the evidence file."""
    if isinstance(x, str):
        return x if len(x) <= 160 else x[:150] + "…"
    if isinstance(x, list):
        k = 12 if depth < 3 else 8
        return [cut(v, depth + 1) for v in x[:k]] + (["…"] if len(x) > k else [])
    if isinstance(x, dict):
        return {k: cut(v, depth + 1) for k, v in x.items()}
    return x
