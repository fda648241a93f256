"""Command lines (C24): cases and how they are run."""
import os, random, re, shutil, subprocess, tempfile
import gen, spasm
from lang import *

W = dict(ins=4, data=5, label=3, equ=1, define=1, echo=1.5, show=0.4, include=0.7, error=0.05)
W["import"] = 0.3
W["if"] = 1
NAMES = ["FOO", "bar", "Debug", "N1", "x"]
VALUES = [("5", num(5)), ("$1F", None), ("1+2", None), ("-1", None), ("%101", None), (" 7", None)]
ESC = re.compile(rb"\x1b\[[0-9;]*m")


def values():
    def e(t): return {"1+2": ch(num(1), ("+", num(2))), "-1": ch(num(0), ("-", num(1))) if False else un("-", num(1))}.get(t)
    out = []
    for t, x in VALUES:
        v = x or e(t) or num({"$1F": 31, "%101": 5, " 7": 7}[t])
        out.append({"t": t, "b": {"t": "e", "e": v, "x": t}})
    return out


def uses(r):
    """Lines that show what -D defined."""
    n = r.choice(NAMES)
    m = r.choice([n, n, n.lower(), n.upper()])
    x = r.random()
    if x < 0.4: return [{"s": [ifdef(m)], "x": "#ifdef " + m}, {"s": [data(1, num(77))], "x": " .db 77"}, {"s": [dict(ENDIF)], "x": "#endif"}]
    if x < 0.6: return [{"s": [ifndef(m)], "x": "#ifndef " + m}, {"s": [data(1, num(78))], "x": " .db 78"}, {"s": [dict(ENDIF)], "x": "#endif"}]
    return [{"s": [data(2, sym(m))], "x": " .dw " + m}]


def vtext(r):
    """Text for -V, as one line."""
    q = random.Random(r.getrandbits(64))
    p = gen.make(q, q.randrange(1, 5), w=dict(ins=5, data=4, label=1, define=0.3, echo=0.5), noise=0, joinp=0)
    ls = [l for f in p["files"][:1] for l in f["l"]]
    if any("\n" in l["x"] for l in ls): return vtext(r)
    return "\n".join(l["x"] for l in ls), [{"s": l["s"], "x": l["x"]} for l in ls]


def cases(r, n):
    out = []
    for _ in range(n):
        q = random.Random(r.getrandbits(64))
        p = gen.make(q, q.randrange(1, 14), w=W, ez=q.random() < 0.15, cs=q.random() < 0.2, noise=q.choice([0, 0.4]), fwd=0.3, nlab=5, reus=0, err=q.choice([0, 0, 0.03]))
        p["lex"] = {}
        # what .show prints of a redefinition of something -D defined is not specified
        for f in p["files"]: f["l"] = [l for l in f["l"] if not any(s["k"] == "show" and s["n"][1] in [x.upper() for x in NAMES] for s in l["s"])]
        p = gen.spread(q, p, relative=True)
        for f in p["files"]: f["path"] = f["p"]
        for _ in range(q.randrange(0, 3)):
            k = q.choice([0, len(p["files"][0]["l"])])
            p["files"][0]["l"][k:k] = uses(q)
        c = {"files": [{"p": f["p"], "l": f["l"]} for f in p["files"]], "bins": p["bins"], "texts": [], "vals": values()}
        groups = []
        flags = []
        if p["ez"]: flags.append("-E")
        if p["cs"]: flags.append("-A")
        for fl, pr in (("-T", 0.35), ("-L", 0.35), ("-S", 0.25), ("-C", 0.2), ("-O", 0.2), ("-E", 0.05), ("-A", 0.1)):
            if q.random() < pr: flags.append(fl)
        flags.append("-N") if q.random() < 0.8 else None
        for fl in flags:
            if q.random() < 0.1: fl += q.choice(["x", "foo", "1", "T"])
            groups.append([fl])
        for _ in range(q.choice([0, 0, 1, 1, 2, 3])):
            nm = q.choice(NAMES)
            t = nm + q.choice(["", "=", "=" + q.choice(VALUES)[0], "=" + q.choice(VALUES)[0]])
            groups.append(["-D" + t] if q.random() < 0.6 else ["-D", t])
        main = q.choice(["", "", "", "./"]) + p["main"]
        names = [main]
        if q.random() < 0.06: names = []
        elif q.random() < 0.05: names = ["missing.asm"]
        elif q.random() < 0.7:
            names.append(q.choice(["o.bin", "out.8xp", "prog.hex", "o", "o.out", "d1/r.bin", "./o.BIN", "src/a.b.8xp", "d1/x", "verylongname.8xp", "w.82p"]))
            if q.random() < 0.1: names.append("extra")
        if q.random() < 0.15:
            t, l = vtext(q)
            c["texts"].append({"t": t, "l": l})
            groups.append(["-V" + t] if q.random() < 0.5 and t else ["-V", t])
        r0 = q.random()
        if r0 < 0.02: groups.append([q.choice(["-h", "-H", "-Help"])])
        elif r0 < 0.05: groups.append([q.choice(["-Z", "-", "--", "-n", "-t", "-o", "-i", "-d", "-1"])])
        q.shuffle(groups)
        # directories and file names keep their order; everything else may stand anywhere
        seqs = [groups, [[x] for x in names], opts(p["opts"])]
        argv = []
        while any(seqs):
            s = q.choice([s for s in seqs for _ in s])
            argv += s.pop(0)
        if q.random() < 0.01: argv.append(q.choice(["-I", "-V"]))
        c["argv"] = argv
        out.append(c)
    return out


def opts(o):
    out = []
    for x in o:
        if out and out[-1] == ["-I"]: out[-1].append(x)
        else: out.append([x])
    return out


def run_cli(exe, c, want=(), timeout=30):
    d = os.path.realpath(tempfile.mkdtemp(dir=spasm.tmproot()))
    try:
        given = set()
        for f in c["files"]:
            spasm.put(d, f["p"], "".join(l["x"] + "\n" for l in f["l"]).encode("latin-1"))
            given.add(f["p"])
        for b in c["bins"]:
            spasm.put(d, b["p"], bytes(b["b"]))
            given.add(b["p"])
        for x in ("d1", "src"): os.makedirs(os.path.join(d, x), exist_ok=True)
        try:
            r = subprocess.run([os.fsencode(exe)] + [a.encode("latin-1") for a in c["argv"]], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = 124, e.stdout or b"", b""
        strip = d + "/"
        o = {"rc": rc, "cnt": [], "sta": [], "col": b"\x1b[" in so}
        if so.endswith(b"\x1b[0m"): so = so[:-4]
        so = ESC.sub(b"", so)
        o["ds"], o["im"], txt = spasm.parse_stdout(so, strip)
        txt = spasm.take_counts(txt, o)
        o["txt"] = list(txt)
        o["err"] = se.decode("latin-1")
        o["files"], body = [], {}
        for w, _, fs in os.walk(d):
            for f in fs:
                n = os.path.relpath(os.path.join(w, f), d)
                if n in given: continue
                o["files"].append(n)
                body[os.path.splitext(n)[1]] = os.path.join(d, n)
        o["lab"], o["labk"], o["lst"], o["out"] = [], [], [], []
        if ".lab" in body: o["lab"], o["labk"] = spasm.parse_lab(open(body[".lab"], "rb").read())
        if ".lst" in body: o["lst"] = spasm.parse_lst(open(body[".lst"], "rb").read(), strip)
        rest = [x for e, x in body.items() if e not in (".lab", ".lst")]
        if len(rest) == 1: o["out"] = list(open(rest[0], "rb").read())
        o["cmdline"] = " ".join(repr(a) if " " in a or not a else a for a in c["argv"])
        o["raw"] = so.decode("latin-1")
        return o
    finally:
        shutil.rmtree(d, True)


def show(c):
    return {"argv": c["argv"], **{f["p"]: "\n".join(l["x"] for l in f["l"]) for f in c["files"]}}
