"""Bitmaps: programs that include them, and what the assembler makes of them."""
import os, shutil, struct, subprocess, tempfile
import spasm
from spasm import tmproot, parse_stdout, parse_lab

def bmp_file(im, q=None, broken=""):
    """The bytes of an image as an uncompressed BMP."""
    bpp, w, h = im["bpp"], im["w"], im["h"]
    pal = im["pal"]
    used = im["used"]
    pb = b"".join(bytes([c[2], c[1], c[0], 0]) for c in pal)
    if not used: pb += b"\0\0\0\0" * ((1 << bpp) - len(pal)) if bpp < 16 else b""
    rows = b""
    for y in range(h - 1, -1, -1):
        r = im["px"][y]
        if bpp == 24: b = b"".join(bytes([c[2], c[1], c[0]]) for c in r)
        else:
            bits = "".join(format(v, "0%db" % bpp) for v in r)
            bits += "0" * (-len(bits) % 8)
            b = bytes(int(bits[i:i + 8], 2) for i in range(0, len(bits), 8))
        rows += b + bytes(im.get("junk", 0) for _ in range(-len(b) % 4))
    off = 14 + 40 + len(pb)
    hdr = struct.pack("<IiiHHIIiiII", 40, w, h, 1, bpp, 0, im.get("szim", len(rows)), 2835, 2835, len(pal) if used else 0, 0)
    if broken == "rle": hdr = hdr[:16] + struct.pack("<I", 1) + hdr[20:]
    if broken == "v5": hdr = struct.pack("<I", 124) + hdr[4:] + bytes(84); off += 84
    if broken == "gap": off += 4; pb += b"\0\0\0\0"
    return b"BM" + struct.pack("<IHHI", off + len(rows), 0, 0, off) + hdr + pb + rows

def tie(c):
    """Whether the luminance is exactly on the border of two shades, where rounding decides."""
    return any(((2524500 - (2126 * c[0] + 7152 * c[1] + 722 * c[2])) * s) % 2550000 == 0 for s in (2, 3, 4, 8, 16))

def colour(q):
    m = q.randrange(6)
    while True:
        if m == 0: c = q.choice([[0, 0, 0], [255, 255, 255]])
        elif m == 1: g = q.randrange(256); c = [g, g, g]
        elif m == 2: c = q.choice([[0, 255, 0], [255, 0, 255], [255, 0, 0], [0, 0, 255], [0, 254, 0], [1, 255, 0]])
        else: c = [q.randrange(256) for _ in range(3)]
        if not tie(c): return c
        m = 5

def image(q, w, h, bpp=None, want=()):
    bpp = bpp or q.choice([1, 1, 4, 8, 24, 24])
    cols = [colour(q) for _ in range(q.choice([2, 3, 4, 8, 16]))] + list(want)
    pal = []
    if bpp < 16:
        n = min(1 << bpp, q.choice([2, 3, 16, 200]))
        if bpp == 1: n = 2
        pal = [q.choice(cols) if q.random() < 0.8 else colour(q) for _ in range(n)]
        if bpp == 1 and q.random() < 0.7: pal = q.choice([[[0, 0, 0], [255, 255, 255]], [[255, 255, 255], [0, 0, 0]]])
        pick = lambda: q.randrange(n)
    else: pick = lambda: q.choice(cols)
    px = [[pick() for _ in range(w)] for _ in range(h)]
    return {"w": w, "h": h, "bpp": bpp, "pal": pal, "px": px, "used": bpp < 16 and (len(pal) < (1 << bpp) and q.random() < 0.5), "junk": q.choice([0, 255, 0x5A]),
            "szim": q.choice([0, 1, 77]) if q.random() < 0.3 else 0}

OPTION = {"shd": "SHD", "hdr": "HDR", "fmt": "HDR_FMT", "inv": "INV_RGB", "minw": "MIN_W", "msk": "MSK", "msk1st": "MSK_1ST", "mskinv": "MSK_INV", "mskrgb": "MSK_RGB",
          "map": "MAP", "pad": "PAD"}

def num(q, v): return q.choice(["%d" % v, "$%X" % v, "%d+%d" % (v, 0), "(%d)" % v] if v >= 0 else ["%d" % v])

def case(q, rich):
    acts, src, files = [], [], {}
    opts = {"map": None, "minw": -1, "shd": 2, "inv": None}
    cs = q.random() < 0.2
    def line(s):
        src.append(s)
        return len(src)
    def mix(s): return s if cs else "".join(q.choice([x.lower(), x.upper()]) for x in s)
    def opt(n, v):
        nm = OPTION[n]
        if n in ("inv", "mskrgb"):
            t = q.choice(["RGB(%d, %d, %d)" % tuple(v), "$%02X%02X%02X" % tuple(v), "%d" % (v[0] << 16 | v[1] << 8 | v[2])])
            if cs and t[0] == "R": t = "$%02X%02X%02X" % tuple(v)
        elif n == "fmt": t = "".join(x + q.choice([" ", ",", ", "]) for x in v).rstrip(" ,")
        elif n == "map": t = q.choice([",", "x", " , ", " x "]).join(str(x) for x in v)
        else: t = num(q, v)
        if q.random() < 0.5 and not (n in ("fmt", "map") and "," in t): s = " .option " + mix("BM_" + nm) + q.choice([" = ", "=", "= "]) + t
        elif q.random() < 0.3 and n in ("hdr", "msk", "msk1st", "mskinv") and v == 1: s = " .option " + mix("BM_" + nm)
        else: s = q.choice(["#define ", " #define "]) + mix("__BM_" + nm) + " " + t
        line(s)
        acts.append({"a": "opt", "n": n, "v": [x.lower() for x in v] if n == "fmt" else v})
        opts[n] = v
    used = 0
    inv = mrgb = None
    heads = rich == "headers"
    SZ = ["w", "h", "ww", "hh", "b", "s", "s", "ss", "ss", "W", "S", "HH", "q"]
    if heads:
        opt("hdr", 1)
        opt("shd", q.choice([2, 4, 8, 16]))
        if q.random() < 0.5: opt("msk", 1)
        opt("fmt", [q.choice(SZ) for _ in range(q.randrange(1, 6))])
    for k in range(q.randrange(2, 14 if rich is True else 6)):
        m = q.random()
        if heads and m < 0.45: m = q.random()
        if m < 0.45:
            n = q.choice(["shd", "hdr", "hdr", "fmt", "fmt", "inv", "minw", "msk", "msk", "msk1st", "mskinv", "mskrgb", "map", "pad"] if rich is True else ["shd", "msk", "fmt"] if heads else ["shd", "msk", "minw", "hdr", "fmt"])
            if heads and n == "fmt": opt(n, [q.choice(SZ) for _ in range(q.randrange(1, 6))])
            elif heads and n == "shd": opt(n, q.choice([2, 4, 8, 16]))
            elif n == "shd": opt(n, q.choice([2, 2, 4, 4, 8, 16, 3]))
            elif n == "fmt": opt(n, [q.choice(["w", "h", "ww", "hh", "b", "s", "ss", "W", "HH", "q"] if q.random() < 0.3 else ["w", "h", "ww", "hh", "b"]) for _ in range(q.randrange(1, 5))])
            elif n in ("inv", "mskrgb"):
                c = colour(q); opt(n, c)
                if n == "inv": inv = c
                else: mrgb = c
            elif n == "minw": opt(n, q.choice([0, 1, 7, 8, 9, 16, 24, 33]))
            elif n == "map": opt(n, [q.randrange(1, 4), q.randrange(1, 4)] + ([q.randrange(1, 6)] if q.random() < 0.4 else []))
            elif n == "pad": opt(n, q.choice([0, 1, 2]))
            else: opt(n, q.choice([1, 1, 1, 0]))
            if n == "fmt" and q.random() < 0.7: opt("hdr", 1)
            if n in ("msk1st", "mskinv", "inv", "mskrgb") and q.random() < 0.6: opt("msk", 1)
        elif m < 0.56:
            b = [q.randrange(256) for _ in range(q.randrange(1, 4))]
            line(" .db " + ", ".join(str(x) for x in b)); acts.append({"a": "db", "b": b})
        elif m < 0.6 and not any(a["a"] == "org" for a in acts):
            v = q.choice([0x4000, 0x9D95]); line(" .org $%X" % v); acts.append({"a": "org", "v": v})
        else:
            if q.random() < 0.6:
                used += 1
                n = "IMG%c" % (64 + used) + q.choice(["", "Z", "_X"])
                line(mix(n) + q.choice([":", "", ": ;x"])); acts.append({"a": "lab", "n": n})
                if q.random() < 0.2: line(q.choice(["", " ; note"]))
            s = opts.get("fmt")
            if opts["map"]:
                c, r = opts["map"][:2]
                p = max(0, opts.get("pad") if opts.get("pad") is not None else 0)
                w, h = (q.randrange(1, 12) + 2 * p) * c, (q.randrange(1, 9) + 2 * p) * r
            else: w, h = q.choice([1, 3, 7, 8, 9, 15, 16, 17, 24, 31, 33, q.randrange(1, 40)]), q.choice([1, 2, 3, 8, q.randrange(1, 12)])
            if s and q.random() < 0.15 and not opts["map"]: w, h = q.choice([(255, 2), (256, 1), (300, 2), (3, 256), (9, 260), (8, 255)])
            if heads:
                w = q.choice([1, 3, 7, 8, 9, 15, 16, 17, 33, 64, 120, 127, 128, 129, 254, 255, 256, 257])
                per = (w + 7) // 8
                h = max(1, min(2000 // w, q.choice([1, 2, 127, 128, 254, 255, 256, 257, 255 // per, 256 // per, 128 // per, 85 // per, 86 // per, 64 // per, 63 // per, 51 // per, 52 // per])))
                if q.random() < 0.15: w, h = q.choice([(1, 255), (1, 256), (2, 257), (3, 256), (5, 254), (8, 300)])
            f = "i%d.bmp" % len(files)
            bad = q.choice(["rle", "v5", "gap"]) if q.random() < 0.03 else ""
            # the size token of images in strips or padded to a minimum width is not specified
            if s and opts["minw"] > 0 and any(x.lower() in ("s", "ss") for x in s): opt("minw", 0)
            # nor the planes that the size token counts for other numbers of shades
            if s and opts["shd"] == 3 and any(x.lower() in ("s", "ss") for x in s): opt("shd", 2)
            im = image(q, w, h, want=[c for c in (inv, mrgb) if c])
            files[f] = bmp_file(im, broken=bad)
            n = line(q.choice([' #include "%s"', '#include "%s"', '  #INCLUDE   "%s" ; image', '#include %s']) % f)
            if bad: acts.append({"a": "bad", "l": n})
            else:
                acts.append({"a": "bmp", "im": {k: im[k] for k in ("w", "h", "pal", "px")}, "l": n})
                opts["map"] = None
                if q.random() < 0.7:
                    line(" .db 90"); acts.append({"a": "db", "b": [90]})
    return {"acts": acts, "file": "main.asm", "cs": cs, "h": {"src": "\n".join(src) + "\n", "files": {k: v.hex() for k, v in files.items()}}}

def cases(q, n, rich=True): return [case(q, rich) for _ in range(n)]

def run_bitmap(exe, c, want=None):
    d = tempfile.mkdtemp(dir=tmproot())
    try:
        with open(os.path.join(d, "main.asm"), "w") as f: f.write(c["h"]["src"])
        for n, x in c["h"]["files"].items():
            with open(os.path.join(d, n), "wb") as f: f.write(bytes.fromhex(x))
        args = [exe, "-N", "-L"] + (["-A"] if c["cs"] else []) + ["main.asm", "out.bin"]
        r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=30)
        o = {"rc": r.returncode}
        o["ds"], o["im"], txt = parse_stdout(r.stdout, os.path.realpath(d) + "/")
        if txt.strip() or r.stderr: o["ds"] = o["ds"] + [{"c": "text " + (txt + r.stderr).decode("latin-1")[:200]}]
        fn = os.path.join(d, "out.bin")
        o["has"] = os.path.exists(fn)
        o["out"] = list(open(fn, "rb").read()) if o["has"] else []
        ln = os.path.join(d, "out.lab")
        lab = parse_lab(open(ln, "rb").read())[0] if os.path.exists(ln) else []
        # numeric options are listed with the labels
        o["lab"] = [x for x in lab if not x[0].startswith("__") and x[0] not in ("SPASM", "SPASMVER", "TRUE", "FALSE")]
        o["cmdline"] = " ".join(args[1:])
        o["raw"] = r.stdout.decode("latin-1")
        return o
    finally:
        shutil.rmtree(d, True)

def show(c): return {"main.asm": c["h"]["src"], **{n: x[:400] for n, x in c["h"]["files"].items()}}
