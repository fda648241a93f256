"""Output files: cases, and what the assembler writes for them."""
import os, re, shutil, subprocess, tempfile
import spasm
from spasm import tmproot, parse_stdout, take_counts

N = int.from_bytes(bytes([
    0xAD,0x24,0x31,0xDA,0x22,0x97,0xE4,0x17,0x5E,0xAC,0x61,0xA3,0x15,0x4F,0xA3,0xD8,0x47,0x11,0x57,0x94,0xDD,0x33,0x0A,0xB7,0xFF,0x36,0xBA,0x59,0xFE,0xDA,0x19,0x5F,
    0xEA,0x7C,0x16,0x74,0x3B,0xD7,0xBC,0xED,0x8A,0x0D,0xA8,0x85,0xE5,0xE5,0xC3,0x4D,0x5B,0xF2,0x0D,0x0A,0xB3,0xEF,0x91,0x81,0xED,0x39,0xBA,0x2C,0x4D,0x89,0x8E,0x87]), "little")

def hex_at(o): return 78 + 17 * (o // 16384 + 1) + 77 * (o // 32) + 9 + 2 * (o % 32)

def witness(out, n):
    """A quotient for the specification to check the signature with (it decides; this only helps it)."""
    try:
        at = lambda o: int(out[hex_at(o):hex_at(o) + 2], 16)
        l = at(n + 2)
        s = int.from_bytes(bytes(at(n + 3 + i) for i in range(l)), "little")
        f = 0 if at(n + 3 + l) == 0 else at(n + 4 + l)
        # s*s is k*N plus something below 2^140 in size, on either side
        k = s * s // N
        if f in (0, 1): k += 1
        return list(k.to_bytes(max(1, (k.bit_length() + 7) // 8), "little"))
    except (ValueError, IndexError):
        return [0]

def run_export(exe, c, want=None):
    d = tempfile.mkdtemp(dir=tmproot())
    try:
        h = c["h"]
        with open(os.path.join(d, "pay.dat"), "wb") as f: f.write(bytes(c["pay"]) if not c["huge"] else b"\x5a" * c["len"])
        with open(os.path.join(d, "main.asm"), "w") as f: f.write(h["src"])
        if h["dir"]: os.makedirs(os.path.join(d, h["dir"]))
        name = os.path.join(h["dir"], h["file"]) if h["dir"] else h["file"]
        args = [exe, "-N"] + (["-E"] if c["ez"] else []) + h["opts"] + ["main.asm", name]
        r = subprocess.run(args, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=60)
        o = {"rc": r.returncode}
        ds, im, txt = parse_stdout(r.stdout, "")
        o["ds"], o["im"] = ds, im
        txt = take_counts(txt, {})
        if txt.strip() or r.stderr: o["im"] = im + [{"c": "text " + (txt + r.stderr).decode("latin-1")[:200]}]
        fn = os.path.join(d, name)
        o["has"] = os.path.exists(fn)
        out = open(fn, "rb").read() if o["has"] else b""
        o["ff"], o["k"], o["pages"] = 0, [0], []
        if c["fmt"] == "ROM":
            keep = max(len(c["pay"]), len(out.rstrip(b"\xff")))
            o["ff"] = max(0, len(out) - keep)
            out = out[:keep]
        if c["fmt"] == "8XK": o["k"] = witness(out, len(c["pay"]))
        if c["huge"]:
            o["pages"] = [list(x) for x in re.findall(rb"^:02000002[0-9A-F]*", out, re.M)]
            out = b""
        o["out"] = list(out)
        o["cmdline"] = " ".join(args[1:])
        o["raw"] = r.stdout.decode("latin-1")
        return o
    finally:
        shutil.rmtree(d, True)

EXTS = ["73P", "82P", "83P", "8XP", "8XV", "85P", "86P", "85S", "86S"]

def case(q, fmt, pay, name=None, ez=False, ext=None, huge=0):
    if name is None: name = "".join(q.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(q.randrange(1, 9)))
    if ext is None: ext = "." + "".join(x.lower() if q.random() < 0.5 else x for x in fmt) if fmt else ""
    src = '#import "pay.dat"\n'
    return {"fmt": fmt, "name": [ord(x) for x in name], "ez": ez, "pay": list(pay), "huge": bool(huge), "len": huge or len(pay),
            "h": {"file": name + ext, "dir": q.choice(["", "", "", "sub", "a/b"]) if name + ext else "", "src": src,
                  "opts": q.choice([[], [], [], ["-T"], ["-L"]])}}

def rbytes(q, n):
    m = q.randrange(4)
    if m == 0: return bytes(q.getrandbits(8) for _ in range(n))
    if m == 1: return bytes([q.choice([0, 255, 0x80, 1])]) * n
    if m == 2: return bytes((i * 7) & 255 for i in range(n))
    return bytes(q.choice([0xFF, 0xFF, 0, q.getrandbits(8)]) for i in range(n))

def rname(q):
    m = q.randrange(6)
    if m == 0: return "".join(q.choice("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789") for _ in range(q.randrange(1, 14)))
    if m == 1: return q.choice("Aaz09_") + "".join(q.choice("aZ0_-+ ~!@[`{^/"[:-1]) for _ in range(q.randrange(0, 9)))
    if m == 2: return "".join(q.choice("azAZ@[`{/:09"[:8] + "09") for _ in range(q.randrange(1, 9)))
    if m == 3: return q.choice(["A", "z", "ABCDEFGH", "abcdefgh", "ABCDEFGHI", "lowercas", "Mixed", "X1", "1X", "AbcdefghiJKL", "a.b", "My.Prog"])
    return "".join(q.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ") for _ in range(q.randrange(1, 10)))

def small(q): return q.choice([2, 3, 4, 5, 16, 31, 32, 33, 63, 100, 200, 255, 256, 257, 300, 511, 512, 513, q.randrange(2, 900)])

def program_cases(q, n):
    out = []
    for i in range(n):
        fmt = EXTS[i % 9]
        pay = rbytes(q, small(q))
        if fmt == "8XP" and q.random() < 0.6: pay = q.choice([b"\xbb\x6d", b"\xef\x69", b"\xef\x7b", b"\xbb\x69", b"\x6d\xbb"]) + pay[2:]
        out.append(case(q, fmt, pay, rname(q), ez=q.random() < 0.3))
    return out

def big_program_cases(q):
    out = []
    for fmt in EXTS:
        over = {"86P": 4}.get(fmt, 2)
        mul = 2 if fmt == "83P" else 1
        add = 11 if fmt == "83P" else over
        for lim in (24575, 65535):
            for dlt in (0, 1) if lim == 24575 else (0, 1, 300):
                n = (lim - add) // mul + dlt
                if fmt == "83P" and dlt == 300: continue
                out.append(case(q, fmt, rbytes(q, n), ez=q.random() < 0.4))
    return out

def raw_cases(q, n):
    out = []
    for i in range(n):
        fmt = ["BIN", "HEX", "HEX", "", "TXT", "HEX"][i % 6]
        ln = q.choice([0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, q.randrange(0, 400), q.randrange(0, 2000)])
        name = rname(q)
        if fmt == "": out.append(case(q, "", rbytes(q, ln), name.replace(".", ""), ext=""))
        elif fmt == "TXT":
            e = q.choice(["TXT", "8X", "HEXX", "BI", "8XPP", "H", "8XQ", "O", "BINN", "86"])
            out.append(case(q, e, rbytes(q, ln), name))
        else: out.append(case(q, fmt, rbytes(q, ln), name))
    return out

def big_raw_cases(q):
    out = []
    for n in (16383, 16384, 16385, 16384 + 32, 32767, 32768, 32769, 49152 + 17, 81920, 65536 + 1):
        out.append(case(q, "HEX", rbytes(q, n)))
    for n in (0, 1, 600, 16384, 70000, 524287, 524288, 524289, 530000): out.append(case(q, "ROM", bytes(q.choice([0xff, 0, 1, 0x80]) for _ in range(n))))
    for n in (16384, 65535, 65536, 200000): out.append(case(q, "BIN", rbytes(q, n)))
    return out

def huge_case(q): return [case(q, "HEX", b"", huge=q.choice([16384 * 257 + 5, 16384 * 300, 16384 * 259 + 1]))]

def field(t, data): return bytes([0x80, t | len(data) if t & 15 == 0 else t]) + bytes(data)

def app_header(q, good=True):
    """Header fields of an application, in one order or another, perhaps with something wrong."""
    nm = "".join(q.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ ab0") for _ in range(q.choice([1, 3, 7, 8, 8, 8, 8])))
    fs = [bytes([0x80, 0x12, 1, 4]), bytes([0x80, 0x21, 1]), bytes([0x80, 0x31, 1]), bytes([0x80, 0x40 | len(nm)]) + nm.encode(), bytes([0x80, 0x81, q.choice([1, 9, 0, 255])])]
    w = "" if good else q.choice(["type", "type2", "type3", "pages", "name", "length", "length2", "two", "short", "order"])
    if w == "type": fs[0] = b""
    if w == "type2": fs[0] = bytes([0x80, 0x12, 1, 5])
    if w == "type3": fs[0] = bytes([0x80, 0x12, 2, 4])
    if w == "pages": fs[4] = b""
    if w == "name": fs[3] = b""
    if q.random() < 0.5: q.shuffle(fs)
    if w == "two": fs = [f for f in fs if q.random() < 0.6]
    if q.random() < 0.6: fs.append(bytes([0x80, 0x90]))
    if q.random() < 0.7: fs.append(bytes([0x03, 0x26, 9, 4, 0, 0, 0, 0, 2, 0x0D, 0x40]) + bytes(q.getrandbits(8) for _ in range(64)) + bytes([0x80, 0x70]))
    if w == "order": fs.insert(q.randrange(len(fs)), bytes([q.choice([0x81, 0, 0x7F]), 0x12]))
    if w == "short": fs = fs[:q.randrange(0, 4)]
    ln = bytes([0x80, 0x0F] + [q.getrandbits(8) for _ in range(4)])
    if w == "length": ln = bytes([q.choice([0, 0x81, 0x7f]), 0x0F, 0, 0, 0, 0])
    if w == "length2": ln = bytes([0x80, q.choice([0x0E, 0, 0xF0]), 0, 0, 0, 0])
    return ln + b"".join(fs)

def app_cases(q, n, good):
    out = []
    for _ in range(n):
        h = app_header(q, good)
        k = q.choice([0, 1, q.randrange(2, 700), q.randrange(2, 300)])
        out.append(case(q, "8XK", h + rbytes(q, k), rname(q) or "A", ez=q.random() < 0.1))
    return out

def big_app_cases(q, sizes):
    out = []
    for n in sizes:
        h = app_header(q)
        out.append(case(q, "8XK", h + rbytes(q, n - len(h))))
    return out

def small_page_cases(q):
    """Sizes around those at which the signature or the rest of a page does not fit."""
    out = []
    for n in (16384 - 97, 16384 - 96, 16384 - 95, 16383, 16384, 16385, 16384 + 927, 16384 + 928, 16384 + 500, 32768 - 96, 32768 - 95, 32768, 32769):
        h = app_header(q, good=q.random() < 0.8)
        out.append(case(q, "8XK", h + rbytes(q, n - len(h))))
    return out

def show(c): return {"case": "%s, name %r, ez80 %s, %d bytes: %s" % (c["h"]["file"], bytes(c["name"]).decode("latin-1"), c["ez"], c["len"], bytes(c["pay"][:24]).hex())}
