#!/usr/bin/env python3
"""check.py PROPERTY: decide one property for /repo's current working tree.

Every program (generated here, or enumerated by TLC) is assembled with the real assembler and the run is checked by TLC
against the specification.  Exit 0: all agree.  Exit 1: a VIOLATION line for the property.  Other: the check itself failed."""
import json, os, random, sys, time, zlib

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import spasm
from spasm import VERIF, TlcError

SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = os.environ.get("VERIF_TIER") or "quick"
THOROUGH = TIER == "thorough"


class Run:
    """One run of a check: what it covered and what it found."""
    def __init__(self, prop):
        self.prop = prop
        self.exe = spasm.build()
        self.t0 = time.time()
        self.states = self.trans = self.traces = 0
        self.samples, self.parts, self.fails = [], {}, []
        self.notes = []
        self.long = 0
        self.odd = 0                        # runs that could not be compared

    def rng(self, name):
        return random.Random(zlib.crc32(("%d %s" % (SEED, name)).encode()))

    def left(self): return (2400 if THOROUGH else 420) - (time.time() - self.t0)

    # -- checking runs against the specification ------------------------------
    def verdicts(self, traces, module):
        """check_traces, but a trace that TLC cannot even compare is a mismatch."""
        try:
            v, g, d = spasm.check_traces(traces, module)
            self.states += d
            self.trans += g - len(traces)
            return v
        except TlcError as e:
            if "timed out" in str(e): raise
            if self.odd >= 3:                                  # enough: a violation is reported anyway
                return [{"i": 0, "ok": True, "bad": [], "e": {}, "rc": -1, "steps": 0}] * len(traces)
            if len(traces) == 1:
                # is it what was observed that cannot be compared?
                blank = dict(traces[0], cmp=[])
                spasm.check_traces([blank], module)            # raises if the specification itself fails
                self.odd += 1
                return [{"i": 0, "ok": False, "bad": ["?"], "e": {"?": "not comparable"}, "rc": -1, "steps": 0}]
            h = len(traces) // 2
            return self.verdicts(traces[:h], module) + self.verdicts(traces[h:], module)

    def observe(self, p, want, runner): return (runner or spasm.run_program)(self.exe, p, want)

    def check(self, name, progs, want, cmp, module="AsmTrace", runner=None, show=None, batch=4000):
        """Run progs; compare what is seen with the specification."""
        n = 0
        for b in range(0, len(progs), batch):
            part = progs[b:b + batch]
            obs = spasm.pmap(lambda p: self.observe(p, want, runner), part)
            # beyond the documented limit on the length of an expression nothing is specified
            long = [i for i, o in enumerate(obs) if "Expression is too long" in (o.get("raw") or "")]
            if long and len(long) <= 1 + len(part) // 100:
                part = [p for i, p in enumerate(part) if i not in long]
                obs = [o for i, o in enumerate(obs) if i not in long]
                self.long += len(long)
            tr = [{"p": p, "o": o, "cmp": list(p.get("cmp", cmp))} for p, o in zip(part, obs)]
            v = self.verdicts(tr, module)
            self.traces += len(part)
            n += len(part)
            bad = [i for i in range(len(part)) if not v[i]["ok"]]
            if bad:
                # only what repeats counts
                redo = bad[:40]
                obs2 = spasm.pmap(lambda i: self.observe(part[i], want, runner), redo)
                self.odd = 0
                v2 = self.verdicts([dict(tr[i], o=o) for i, o in zip(redo, obs2)], module)
                for i, o, w in zip(redo, obs2, v2):
                    if not w["ok"]: self.fails.append((name, part[i], o, w))
            if len(self.samples) < 6 and part:
                q = part[0]
                self.samples.append({"part": name, "program": show(q) if show else text_of(q), "command": obs[0].get("cmdline", ""),
                                     "exit": obs[0].get("rc"), "agrees": v[0]["ok"], "compared": tr[0]["cmp"]})
            if self.fails: break
        self.parts[name] = self.parts.get(name, 0) + n
        return self.fails == []

    # -- the end ----------------------------------------------------------------
    def finish(self):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces, "samples": self.samples,
               "parts": self.parts}
        if self.long: self.notes.append("%d programs with an expression over 255 characters were left out" % self.long)
        if self.notes: cov["notes"] = self.notes
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking", "coverage": cov,
              "assumptions": ["TLC and the CommunityModules evaluate the specification correctly",
                              "the harness renders programs and parses outputs as lang.py/spasm.py say"],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.fails)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        if not self.fails:
            print("%s: held on %d runs, %d states (%.1f s) %s" % (self.prop, self.traces, self.states, time.time() - self.t0, self.parts))
            return 0
        name, p, o, w = self.fails[0]
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        fn = os.path.join("replay", self.prop + ".json")
        rec = {"property": self.prop, "part": name, "text": text_of(p), "command": o.get("cmdline"), "fields": w["bad"], "expected": w["e"],
               "observed": {k: o.get(k) for k in w["bad"] if k in o}, "raw": o.get("raw"), "program": p, "failing": len(self.fails)}
        with open(os.path.join(VERIF, fn), "w") as f: json.dump(rec, f, indent=1, default=str)
        print("--- %s, part %s: fields %s differ (%d failing programs found)" % (self.prop, name, w["bad"], len(self.fails)))
        for n, t in rec["text"].items(): print("-- %s\n%s" % (n, t[:1500]))
        for k in w["bad"]: print("%s\n  specification: %s\n  observed:      %s" % (k, str(w["e"].get(k) if isinstance(w["e"], dict) else w["e"])[:600], str(o.get(k))[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, fn))
        return 1


def text_of(p):
    if "files" not in p: return {"case": json.dumps(p, default=str)[:1500]}
    return {f.get("n", f.get("p")): "\n".join("%3d %s" % (i, l["x"]) for i, l in enumerate(f["l"], 1)) for f in p["files"]}


def main():
    prop = sys.argv[1]
    import parts
    r = Run(prop)
    try:
        for f in parts.PARTS[prop]:
            f(r)
            if r.fails: break
        import findings
        findings.report(r)
    except TlcError as e:
        print(e)
        print("the specification could not be checked")
        return 2
    return r.finish()


if __name__ == "__main__":
    sys.exit(main())
