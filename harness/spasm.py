"""Building the assembler from /repo's working tree, running it, observing it, and driving TLC."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
TMP = None

def tmproot():
    global TMP
    if TMP is None:
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        TMP = tempfile.mkdtemp(prefix="spv", dir=base)
        import atexit
        atexit.register(shutil.rmtree, TMP, True)
    return TMP

def build():
    """Compile /repo's current sources with its own Makefile, outside /repo.  Returns the executable."""
    h = hashlib.sha256()
    names = sorted(n for n in os.listdir(REPO) if n.endswith((".cpp", ".h", ".c", ".hpp")) or n in ("Makefile", "version.sh"))
    for n in names:
        with open(os.path.join(REPO, n), "rb") as f: h.update(n.encode() + b"\0" + f.read() + b"\0")
    d = os.path.join(BUILD, h.hexdigest()[:20])
    exe = os.path.join(d, "spasm")
    if os.access(exe, os.X_OK): return exe
    os.makedirs(BUILD, exist_ok=True)
    t = tempfile.mkdtemp(prefix="tmp", dir=BUILD)
    for n in names: shutil.copy(os.path.join(REPO, n), t)
    env = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "LDFLAGS", "CROSS_COMPILE", "NO_APPSIGN", "OS", "MAKEFLAGS", "CPATH")}
    env.update(FORCE_NO_GIT="1", LC_ALL="C.UTF-8")
    r = subprocess.run(["make", "-j8", "spasm"], cwd=t, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode or not os.path.exists(os.path.join(t, "spasm")):
        sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
        shutil.rmtree(t, True)
        raise SystemExit("cannot build /repo")
    for n in os.listdir(t):
        if n != "spasm": os.unlink(os.path.join(t, n))
    try: os.rename(t, d)
    except OSError: shutil.rmtree(t, True)
    return exe

DIAG = re.compile(rb"^(?:(.*):(-?\d+)|(exporter)): (error|warning|fatal error)(?: (S[EW])([0-9A-F]{3}))?: (.*)$", re.S)
ANNOT = re.compile(rb"^(.*:-?\d+: )?Error during (evaluation|invocation) of ")
NUMBER = {"SE120": re.compile(rb"\(distance (-?\d+)\)"), "SE121": re.compile(rb"\(offset (-?\d+)\)")}
ROW = re.compile(rb"^( *-?\d+) ([0-9A-F]+):([0-9A-F]{4}) ((?:[0-9A-F]{2} |-  |   ){4})(.*)$", re.S)
CONT = re.compile(rb"^ {14}((?:[0-9A-F]{2} |-  ){4})(.*)$", re.S)

def s32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v

def parse_stdout(out, strip):
    ds, im, txt = [], [], []
    lines = out.split(b"\n")
    for j, ln in enumerate(lines):
        m = DIAG.match(ln)
        if m:
            f = (m.group(1) or m.group(3)).decode("latin-1")
            if strip and f.startswith(strip): f = f[len(strip):]
            l = int(m.group(2) or -1)
            if m.group(5):
                c = (m.group(5) + m.group(6)).decode()
                n = 0
                if c in NUMBER:
                    q = NUMBER[c].search(ln)
                    n = int(q.group(1)) if q else -99999
                ds.append({"c": c, "f": f, "l": l, "n": n})
            else:
                im.append({"c": "W" if m.group(4) == b"warning" else "E", "f": f, "l": l})
            continue
        if ANNOT.match(ln) or ln in (b"Pass one... ", b"Pass two... ") or ln.startswith(b"Assembly time: "):
            continue
        txt.append(ln)
    return ds, im, b"\n".join(txt)

def take_counts(txt, o):
    """Remove the figures of -C and -S from the text and keep them."""
    t = txt.decode("latin-1")
    m = re.search(r"Size: (\d+)\nMin\. execution time: (\d+)\nMax\. execution time: (\d+)\n", t)
    if m:
        o["cnt"] = [int(x) for x in m.groups()]
        t = t[:m.start()] + t[m.end():]
    m = re.search(r"Number of labels: (\d+)\nNumber of defines: (\d+)\nCode size: (\d+)\nData size: (\d+)\nTotal size: (\d+)\n", t)
    if m:
        o["sta"] = [int(m.group(i)) for i in (1, 3, 4, 5)]
        t = t[:m.start()] + t[m.end():]
    return t.encode("latin-1")

def parse_lst(b, strip, eol=b"\n"):
    rows = []
    for ln in b.split(b"\n"):
        ln = ln.rstrip(b"\r")
        m = ROW.match(ln)
        if m:
            rows.append({"k": "r", "l": int(m.group(1)), "pc": int(m.group(2), 16) * 65536 + int(m.group(3), 16),
                         "b": [int(x, 16) for x in m.group(4).split() if x != b"-"], "x": m.group(5).decode("latin-1")})
            continue
        # a row with more than four bytes has its text after the last of them
        m = re.match(rb"^( *-?\d+) ([0-9A-F]+):([0-9A-F]{4}) ((?:[0-9A-F]{2} ){4})$", ln)
        if m:
            rows.append({"k": "r", "l": int(m.group(1)), "pc": int(m.group(2), 16) * 65536 + int(m.group(3), 16),
                         "b": [int(x, 16) for x in m.group(4).split()], "x": ""})
            continue
        m = CONT.match(ln)
        if m and rows and rows[-1]["k"] == "r":
            rows[-1]["b"] += [int(x, 16) for x in m.group(1).split() if x != b"-"]
            rows[-1]["x"] += m.group(2).decode("latin-1")
            continue
        m = re.match(rb"^Listing for (built-in|file) ?(.*)$", ln)
        if m:
            f = ("Built-in fcreate" if m.group(1) == b"built-in" else m.group(2).decode("latin-1"))
            f = f.strip('"')
            if strip and f.startswith(strip): f = f[len(strip):]
            rows.append({"k": "b", "f": f})
            continue
        if ln.strip():
            rows.append({"k": "?", "x": ln.decode("latin-1")})
    return rows

def parse_lab(b):
    t = b.decode("latin-1").splitlines()
    lab, keys, lines = [], [], 0
    for ln in t:
        m = re.match(r"^(\S+) = \$([0-9A-F]{4,8})$", ln)
        if not m:
            lab.append([ln, 0]); keys.append([]); continue
        if m.group(1) == "__LINE":
            lines += 1
            if lines == 1: continue
        lab.append([m.group(1), s32(int(m.group(2), 16))])
        keys.append([ord(c) for c in m.group(1).lower()])
    return lab, keys

def put(d, n, b):
    fn = os.path.join(d, n)
    os.makedirs(os.path.dirname(fn), exist_ok=True)
    with open(fn, "wb") as h: h.write(b)

def write_program(p, d):
    lex = p.get("lex", {})
    eol = lex.get("eol", "\n")
    for i, f in enumerate(p["files"]):
        t = eol.join(x["x"] for x in f["l"])
        if f["l"] and not (lex.get("nofinal") and f["l"][-1]["x"]): t += eol
        b = t.encode("latin-1")
        if i == 0 and lex.get("bom"): b = b"\xef\xbb\xbf" + b
        put(d, f.get("path", f["n"]), b)
        for ln in f["l"]:
            for s in ln["s"]:
                if s["k"] == "import" and s["i"] and "bins" not in p: put(d, s["name"], bytes(s["b"]))
    for x in p.get("bins", []) + p.get("got", []): put(d, x["p"], bytes(x["b"]))

def run_program(exe, p, want=("out",), outname="out.bin", timeout=30):
    """Assemble p; returns the observation record."""
    d = tempfile.mkdtemp(dir=tmproot())
    try:
        write_program(p, d)
        args = [exe, "-N"]
        if p["cs"]: args.append("-A")
        if p["ez"]: args.append("-E")
        for x in p["dd"]: args += ["-D", x["n"][0] + (x["x"] if "x" in x else "")]
        args += [x.replace("{D}", d) for x in p.get("opts", [])]
        if p["cc"]: args.append("-C")
        if "sta" in want: args.append("-S")
        if p["tl"]: args.append("-T")
        if "lab" in want: args.append("-L")
        args += [p["main"].replace("{D}", d) if "main" in p else p["files"][0]["n"], outname]
        try:
            r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout)
            rc, so, se = r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            rc, so, se = 124, e.stdout or b"", b""
        d = os.path.realpath(d)
        strip = d + "/"
        o = {"rc": rc}
        o["ds"], o["im"], txt = parse_stdout(so, strip)
        txt = take_counts(txt, o)
        o["txt"] = list(txt)
        if se: o["txt"] += list(b"<stderr>" + se[:300])
        fn = os.path.join(d, outname)
        o["has"] = os.path.exists(fn)
        o["out"] = list(open(fn, "rb").read()) if o["has"] else []
        base = os.path.join(d, os.path.splitext(outname)[0])
        if "lab" in want:
            o["lab"], o["labk"] = parse_lab(open(base + ".lab", "rb").read()) if os.path.exists(base + ".lab") else ([["?", 0]], [[]])
        if "lst" in want:
            o["lst"] = parse_lst(open(base + ".lst", "rb").read(), strip) if os.path.exists(base + ".lst") else [{"k": "?", "x": "no listing"}]
        if "cnt" in want: o.setdefault("cnt", [])
        if "sta" in want: o.setdefault("sta", [])
        if "fl" in want:
            o["fl"] = {}
            known = {f.get("path", f["n"]) for f in p["files"]} | {os.path.basename(base) + x for x in (".lab", ".lst")} | {outname}
            for ln in (l for f in p["files"] for l in f["l"]):
                for s in ln["s"]:
                    if s["k"] == "import": known.add(s["name"])
            for n in os.listdir(d):
                if n not in known: o["fl"][n] = list(open(os.path.join(d, n), "rb").read())
        o["cmdline"] = " ".join(args[1:])
        o["raw"] = so.decode("latin-1")
        return o
    finally:
        shutil.rmtree(d, True)

def pmap(f, xs, n=8):
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        return list(ex.map(f, xs))

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
class TlcError(Exception): pass

def tlc(module, cfg=None, env=None, workers=8, timeout=800, heap="6g", extra=()):
    """Run TLC on a module of /verif/spec; returns (stdout lines, states, distinct)."""
    meta = tempfile.mkdtemp(dir=tmproot())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-XX:+UseParallelGC", "-Xss64m", "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE", "-workers", str(workers),
           "-metadir", meta, "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise TlcError("TLC timed out\n" + (x.stdout or b"").decode("utf-8", "replace")[-int(os.environ.get("TLCTAIL", 6000)):])
    finally:
        shutil.rmtree(meta, True)
    out = r.stdout.decode("utf-8", "replace").splitlines()
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", "\n".join(out[-12:]))
    if r.returncode != 0 or not m:
        raise TlcError("\n".join(l for l in out if not l.startswith(('"VERDICT', '"CASE', 'Parsing file', 'Semantic proc')))[-6000:])
    return out, int(m.group(1)), int(m.group(2))

def printed(lines, tag):
    """The JSON values printed by PrintT(tag \\o ToJson(v))."""
    pre = '"' + tag + " "
    return [json.loads(json.loads(l)[len(tag) + 1:]) for l in lines if l.startswith(pre)]

def check_traces(traces, module="AsmTrace", **kw):
    """traces: list of {p, o, cmp}.  Returns verdicts in order, number of states."""
    for i, t in enumerate(traces): t["i"] = i
    fn = os.path.join(tmproot(), "traces-%s.ndjson" % os.urandom(4).hex())
    with open(fn, "w") as f:
        for t in traces:
            o = {k: v for k, v in t["o"].items() if k not in ("cmdline", "raw")}
            f.write(json.dumps({"i": t["i"], "p": t["p"], "o": o, "cmp": t["cmp"]}, ensure_ascii=True) + "\n")
    try:
        lines, gen, dist = tlc(module, env={"TRACES": fn}, **kw)
    finally:
        os.unlink(fn)
    v = printed(lines, "VERDICT")
    by = {x["i"]: x for x in v}
    if len(v) != len(traces) or len(by) != len(traces):
        raise TlcError("%d verdicts for %d traces" % (len(v), len(traces)))
    return [by[i] for i in range(len(traces))], gen, dist
