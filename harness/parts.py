"""What is run for each property."""
import random
import spasm, gen
import export as X
import bitmap as B
import cli as L
import small as S
from lang import *
from check import THOROUGH

ALL = ["rc", "has", "out", "lab", "lst", "ds", "im", "txt"]
OUT = ["rc", "has", "out", "ds", "im"]
WANT = ("out", "lab", "lst")
K = 6 if THOROUGH else 1


def theme(name, n, size, want=WANT, cmp=ALL, post=None, **kw):
    def f(r):
        g = r.rng(name)
        ps = []
        for _ in range(n * K):
            q = random.Random(g.getrandbits(64))
            k = {a: (b(q) if callable(b) else b) for a, b in kw.items()}
            p = gen.make(q, size(q) if callable(size) else size, **k)
            ps.append(post(q, p) if post else p)
        r.check(name, ps, want, cmp)
    f.part = name
    return f


def W(**k): return k


def pick(*xs): return lambda q: q.choice(xs)


# -- instruction forms ------------------------------------------------------------
_forms = {}
def forms(r, ez):
    """The forms the specification has encodings for, as TLC enumerates them."""
    if not _forms:
        lines, g, d = spasm.tlc("Forms")
        r.states += d; r.trans += g
        for f in spasm.printed(lines, "FORM"): _forms.setdefault(f["ez"], []).append(f)
    return _forms[ez]

N8 = [0, 1, 127, 128, 255, -1, -128, 0x5A]
N16 = [0, 1, 255, 256, 0x1234, 0x8000, 0xFFFF, -1]
N24 = [0, 0x10000, 0x123456, 0xFFFFFF, 0xABCDEF, 5]
DISP = [0, 1, 5, 127, -1, -128, -7]


def neg(v): return num(v) if v >= 0 else ch(num(0), ("-", num(-v))) if v > -2 ** 31 else num(v)


def operand(q, f, i, t, adl, fwd):
    """A value for operand i of form f."""
    els = [e for e in f["e"] if e[0] != "b" and e[1] == i]
    kd = els[0][0] if els else ""
    if t in ("*", "(*)"):
        v = {"n8": N8, "d": DISP, "rst": [0, 8, 16, 24, 32, 40, 48, 56], "bit": list(range(8))}.get(kd)
        if kd == "rel": e = ch(dict(PC), (q.choice("+-"), num(q.choice([0, 1, 2, 100, 126]))))
        elif v is None: e = neg(q.choice(N24 if adl else N16)) if q.random() < 0.8 or not fwd else sym(fwd)
        else: e = neg(q.choice(v))
        if t == "(*)": return (t, par(e))
        return (t, e)
    if t[-1] in "+@" and t[:2] in ("IX", "IY"):
        v = q.choice(DISP)
        return (t, ch(num(0), ("-" if v < 0 else "+", num(abs(v)))))
    return t


def form_programs(r, ez, reps, cc=False):
    fs = forms(r, ez)
    g = r.rng("forms%d" % ez)
    ps = []
    for rep in range(reps * K):
        order = fs[:]
        g.shuffle(order)
        for b in range(0, len(order), 7):
            q = random.Random(g.getrandbits(64))
            adl = ez and q.random() < 0.7
            ls = [[assume(num(0))]] if ez and not adl else []
            ls.append([org(num(q.choice([0, 0x4000, 0x9D95])))])
            for f in order[b:b + 7]:
                sfx = ""
                a = adl
                if ez and q.random() < 0.4:
                    sfx = q.choice(["S", "L", "IS", "IL", "SIS", "LIS", "SIL", "LIL"])
                    a = {"S": adl, "L": adl, "IS": False, "IL": True, "SIS": False, "LIS": False, "SIL": True, "LIL": True}[sfx]
                ls.append([ins(f["m"], *[operand(q, f, i, t, a, "later" if f["m"] not in ("JR", "DJNZ") else "") for i, t in enumerate(f["k"], 1)], sfx=sfx)])
            ls.append([lab("later")])
            p = program(ls, ez=bool(ez), cc=cc, tl=True)
            Style(q, q.choice([0, 0.5, 0.9])).program(p)
            p["lex"] = {}
            ps.append(p)
    return ps


def forms_part(ez, reps, want=WANT, cmp=ALL, cc=False):
    def f(r): r.check("forms of " + ("eZ80" if ez else "Z80") + (" counted" if cc else ""), form_programs(r, ez, reps, cc), want, cmp)
    return f


INS = W(ins=10, label=2, data=1)
MIX = W(ins=6, data=5, label=4, equ=2, fill=1, blank=1, org=0.5, reus=1, define=2, undef=0.5, func=1, comment=0.5, echo=0.5, macro=1, call=2,
        include=0.4, **{"import": 0.3})
MIX["if"] = 1.5
CC = ["rc", "im", "out", "cnt"]

def files(name, make, **kw):
    """Output files of the given cases against Export."""
    def f(r):
        q = r.rng(name)
        cs = []
        for _ in range(K): cs += make(q)
        r.check(name, cs, (), [], module="ExportTrace", runner=X.run_export, show=X.show, batch=600)
    f.part = name
    return f

def assembled(name, n, fmts, size=lambda q: q.randrange(3, 30), **kw):
    """Generated programs written in one of the formats: assembly and file together."""
    def f(r):
        g = r.rng(name)
        ps = []
        for _ in range(n * K):
            q = random.Random(g.getrandbits(64))
            p = gen.make(q, size(q), **{a: (b(q) if callable(b) else b) for a, b in kw.items()})
            fmt, nm = q.choice(fmts), X.rname(q).replace(".", "")
            if nm + "." in {f["n"].split(".")[0] + "." for f in p["files"]}: nm += "zz"
            p["x"] = {"fmt": fmt, "name": [ord(x) for x in nm]}
            p["outname"] = nm + "." + q.choice([fmt, fmt.lower()]) if fmt else nm
            ps.append(p)
        r.check(name, ps, ("out",), ["rc", "has", "out", "ds", "im"], module="AsmFile", runner=lambda exe, p, want: spasm.run_program(exe, p, want, outname=p["outname"]))
    f.part = name
    return f

mixed = lambda n=400, **k: theme("mixed", n, lambda q: q.randrange(5, 45), w=MIX, ez=pick(False, False, True), cs=pick(False, False, True), reus=0.3, **k)

def pictures(name, n, rich):
    def f(r): r.check(name, B.cases(r.rng(name), n * K, rich), (), [], module="BitmapTrace", runner=B.run_bitmap, show=B.show)
    f.part = name
    return f

def lines(name, n):
    def f(r): r.check(name, L.cases(r.rng(name), n * K), (), [], module="CliTrace", runner=L.run_cli, show=L.show)
    f.part = name
    return f

def system(name, make, want=WANT, cmp=ALL):
    """Systematic programs (small.py); make gets a generator of random numbers and whether to be thorough."""
    def f(r): r.check(name, make(r.rng(name), THOROUGH), want, cmp)
    f.part = name
    return f

def combos(ez, a, b):
    def f(r): r.check("operand combinations", S.combinations(r.rng("combos"), forms(r, ez), bool(ez), a, b, THOROUGH), WANT, ALL)
    f.part = "operand combinations"
    return f

def sequences(name, alphabet, whole, longer, n, **kw):
    """All sequences of up to `whole` statements (one more if thorough), n random longer ones."""
    w, c = kw.pop("want", WANT), kw.pop("cmp", ALL)
    return system(name, lambda q, t: S.sequences(q, alphabet, whole + t, longer + 2 * t, n * K, **kw), w, c)

AS = dict(w=dict(MIX, seek=1, org=1), err=0.005, undef=0, ez=pick(False, False, True), fwd=0, reus=0)
PARTS = {
    "C01": [forms_part(False, 6), theme("instructions", 900, 25, w=INS),
            combos(False, 4000, 1500)],
    "C02": [forms_part(True, 5), theme("instructions", 700, 25, w=dict(INS, assume=2), ez=True), theme("eZ80 mixed", 400, 25, w=dict(MIX, assume=1), ez=True, reus=0.3),
            combos(True, 4000, 1500), system("ends of ranges", lambda q, t: S.ranges(q, True, 0 if t else 500))],
    "C03": [theme("forward", 1200, lambda q: q.randrange(4, 30), w=W(ins=8, data=8, label=4, equ=1, define=2, func=1), fwd=0.9, nlab=10, ez=pick(False, True)),
            theme("forward macros", 500, 25, w=W(ins=4, data=4, label=4, macro=2, call=4, define=2, reus=2), fwd=0.9, nlab=10, reus=0.4, ez=pick(False, True)), mixed(),
            system("ends of ranges", lambda q, t: S.ranges(q, q.random() < 0.5, 0 if t else 700))],
    "C04": [theme("limits", 1500, 15, w=W(ins=8, label=3, org=1), err=0.3, rel=0.3, fwd=0.5, ez=pick(False, True)),
            system("ends of ranges", lambda q, t: S.ranges(q, False, 0) + S.ranges(q, True, 0))],
    "C05": [theme("expressions", 1600, 14, w=W(data=8, label=3, equ=2, define=1), depth=4, fwd=0.2, err=0.02, nlab=8),
            theme("getc", 400, 12, w=W(data=8, label=3, equ=2, define=1, func=1, macro=1, call=1, echo=1), depth=2, fwd=0.3, err=0.02, getc=0.15, nlab=8, case=pick(False, True)),
            theme("expression errors", 500, 6, w=W(data=8, label=3, equ=1), depth=3, err=0.3, undef=0.05),
            system("operators", lambda q, t: S.operators(q, 0 if t else 6000), ("lab",), ["rc", "has", "out", "lab", "ds", "im", "txt"])],
    "C06": [theme("data", 1600, 15, w=W(data=10, label=2, fill=3, define=2, func=1), ez=pick(False, True)),
            theme("lines and files", 400, 18, w=W(data=6, echo=3, label=2, define=2, func=1, macro=2, call=3, fill=1, error=0.05), line=0.25, fname=0.2, fwd=0.4, err=0.02, case=pick(False, True)),
            theme("data lists", 500, 15, w=W(data=8, label=2, define=3, defcont=2, redef=2, undef=1), fwd=0.5)],
    "C07": [theme("places", 1300, 20, w=W(org=4, label=4, relabel=1, data=3, ins=3, fill=2, equ=2, macro=1, call=1, **{"import": 1}), ez=pick(False, True), fwd=0.4),
            theme("seek", 500, 18, w=W(seek=3, org=2, label=3, data=4, fill=1), fwd=0, reus=0),
            sequences("sequences", S.PLACES, 3, 8, 500)],
    "C08": [theme("conditionals", 1000, lambda q: q.randrange(4, 30), w={"if": 6, "ins": 3, "data": 3, "label": 2, "define": 2, "undef": 1, "comment": 1}),
            theme("stray", 300, 12, w={"if": 4, "stray": 2, "data": 3, "label": 2, "comment": 1}),
            theme("conditionals in macros", 350, 25, w={"if": 5, "macro": 2, "call": 4, "data": 3, "label": 1, "define": 1, "include": 0.5}, joinp=0.4),
            sequences("sequences", S.CONDITIONS, 4, 9, 600, ok=S.one_else), sequences("sequences of #ifdef", S.CONDITIONS2, 2, 8, 600, ok=S.one_else)],
    "C09": [theme("defines", 1200, 22, w=W(define=6, undef=2, func=3, data=6, label=2), nlab=4),
            theme("continued", 600, 20, w=W(define=3, defcont=3, redef=3, show=2, undef=1, data=5, label=2), cs=pick(False, True), err=0.01),
            theme("pieces", 400, 18, w={"concat": 4, "define": 2, "undef": 1, "label": 3, "data": 6}, case=pick(False, True)),
            theme("loops", 300, 14, w={"loop": 1, "func": 3, "ins": 2, "label": 2, "data": 5, "echo": 2, "macro": 1, "call": 1}, loop=0.06, fwd=0.3, nlab=8, p_call=0.6),
            theme("lists as numbers", 300, 14, w={"define": 3, "defcont": 1, "func": 1, "undef": 0.5, "ins": 4, "label": 2, "data": 3, "echo": 1, "if": 1}, lnum=0.1, fwd=0.5, nlab=8),
            theme("defines and macros", 500, 25, w={"define": 4, "undef": 1, "func": 2, "macro": 2, "call": 3, "data": 4, "if": 2, "label": 1}),
            sequences("sequences", S.DEFINES, 3, 7, 500)],
    "C10": [theme("macros", 1500, 25, w=W(macro=3, call=6, data=3, ins=2, label=2, define=2, undef=0.5), reus=0.1, nlab=4),
            theme("values", 500, 18, w={"value": 3, "usevalue": 5, "data": 2, "label": 2, "define": 1, "undef": 0.3, "func": 0.5, "if": 0.5}, fwd=0.4, err=0.02, case=pick(False, True)),
            theme("files in macros", 400, 18, w={"macro": 3, "minc": 3, "call": 4, "data": 3, "label": 1, "reus": 1, "if": 1}, reus=0.2, joinp=0.2, want=("out", "lab"), cmp=[c for c in ALL if c != "lst"]),
            theme("macros+", 500, 30, w={"macro": 3, "call": 5, "data": 3, "label": 2, "if": 2, "func": 2, "reus": 1, "echo": 1}, reus=0.3, joinp=0.3)],
    "C11": [theme("reusable", 1500, 25, w={"reus": 5, "ins": 6, "data": 4, "label": 1, "if": 1, "echo": 2}, reus=0.9, rel=0.3, ez=pick(False, False, True)),
            theme("reusable in macros", 600, 25, w={"reus": 3, "ins": 4, "data": 4, "macro": 2, "call": 4, "include": 0.6, "if": 1, "echo": 1}, reus=0.8),
            sequences("sequences", S.REUSABLE, 3, 9, 500)],
    "C12": [theme("files", 1400, 18, w={"include": 2, "import": 2, "data": 3, "label": 3, "reus": 1, "if": 1, "define": 1, "ins": 2}, reus=0.2),
            theme("directories", 1200, 14, w={"include": 2, "import": 1.5, "data": 3, "label": 2, "ins": 1, "wr": 0.2, "unknown": 0.05, "macro": 0.3, "call": 0.5}, post=gen.spread),
            theme("missing files", 200, 10, w={"include": 2, "import": 2, "data": 3, "unknown": 1, "label": 2})],
    "C13": [theme("problems", 1000, 12, w={"ins": 4, "data": 4, "label": 3, "relabel": 1, "set": 0.2, "unknown": 1, "if": 1, "stray": 0.3, "error": 0.5, "define": 1, "macro": 1, "call": 1,
                                           "include": 0.3, "fill": 1, "org": 1}, err=0.2, undef=0.05),
            theme("late problems", 700, 15, w={"ins": 6, "data": 6, "label": 3, "echo": 1, "define": 1, "func": 1, "macro": 1, "call": 2}, err=0.15, fwd=0.8, undef=0.06, ez=pick(False, True)),
            theme("faults", 500, 12, w={"fault": 4, "ins": 2, "data": 2, "label": 2, "if": 1, "unknown": 0.3, "include": 0.4, "macro": 0.5, "call": 1, "echo": 0.5}, err=0.05),
            theme("no problems", 300, 25, w=MIX, err=0)],
    "C14": [theme("listings", 1200, 22, w={"list": 2, "data": 6, "ins": 4, "label": 2, "fill": 1, "include": 1, "macro": 1, "call": 2, "if": 1, "import": 1, "comment": 0.5},
                  ez=pick(False, False, True)),
            theme("listings of buffers", 500, 18, w={"list": 2, "data": 4, "wr": 3, "include": 0.6, "macro": 1, "call": 2, "label": 1}), mixed(300),
            sequences("sequences", S.LISTS, 3, 8, 400, extra=[S.LISTED])],
    "C15": [theme("set afterwards", 500, 18, w={"set": 3, "label": 4, "equ": 1, "relabel": 0.5, "data": 4, "org": 1, "macro": 1, "call": 2, "if": 0.5, "define": 0.5}, fwd=0.3, cs=pick(False, True), case=pick(False, True)),
            theme("symbols", 1500, 22, w={"label": 8, "equ": 4, "relabel": 1, "define": 4, "undef": 1, "func": 1, "org": 1, "reus": 1, "data": 2}, nlab=18, cs=pick(False, True), case=pick(False, True)),
            mixed(300)],
    "C16": [forms_part(False, 2, want=("cnt",), cmp=["rc", "out", "cnt"], cc=True), forms_part(True, 2, want=("cnt",), cmp=["rc", "out", "cnt"], cc=True),
            theme("counted", 700, 25, w={"ins": 9, "assume": 0.5, "addi": 0.4, "useadd": 0.8, "data": 3, "label": 3, "macro": 1, "call": 1, "if": 1, "fill": 1, "include": 0.4}, cc=True, err=0.01, want=("cnt",), cmp=CC, ez=pick(False, True)),
            theme("statistics", 700, 25, w=dict(MIX), want=("out", "sta"), cmp=["rc", "out", "sta"], err=0.01, ez=pick(False, True))],
    "C17": [files("programs", lambda q: X.program_cases(q, 900)), files("large programs", X.big_program_cases), assembled("assembled programs", 500, X.EXTS, **AS)],
    "C18": [files("applications", lambda q: X.app_cases(q, 110, True)), files("faulty headers", lambda q: X.app_cases(q, 300, False)),
            files("sizes near a page", X.small_page_cases), files("large applications", lambda q: X.big_app_cases(q, [16384 - 96, 16384 + 2000, 40000, 65536 - 96, 81000]))],
    "C19": [files("small files", lambda q: X.raw_cases(q, 600)), files("large files", X.big_raw_cases), files("over 4 MB", X.huge_case), assembled("assembled files", 400, ["HEX", "BIN", ""], **AS)],
    "C20": [pictures("headers", 400, "headers"), pictures("bitmaps", 2500, True), pictures("plain bitmaps", 1000, False)],
    "C21": [theme("buffers", 1600, 18, w={"wr": 6, "data": 3, "label": 3, "ins": 2, "list": 0.5, "define": 1, "include": 0.4, "assume": 0.3}, ez=pick(False, False, True)),
            sequences("sequences", S.BUFFERS, 3, 9, 500)],
    "C22": [theme("declared", 1600, 16, w={"ins": 3, "data": 1, "label": 2, "addi": 3, "useadd": 6, "include": 0.3, "if": 0.6, "macro": 0.5, "call": 1}, ez=pick(False, False, True), err=0.02)],
    "C23": [theme("case", 1500, 22, w={"ins": 3, "data": 4, "label": 4, "equ": 2, "define": 3, "undef": 1, "func": 2, "macro": 1, "call": 2, "if": 2}, case=pick(False, True), cs=False, nlab=10),
            theme("case -A", 900, 12, w={"ins": 2, "data": 4, "label": 4, "define": 3, "undef": 1, "func": 1, "macro": 1, "call": 1, "if": 1}, case=pick(False, True), cs=True, nlab=10),
            sequences("sequences", S.CASES, 3, 8, 600, cs=pick(False, True))],
    "C24": [lines("command lines", 1500)],
    "C25": [theme("messages", 1300, 18, w={"echo": 5, "error": 0.2, "show": 2, "define": 3, "undef": 1, "func": 1, "label": 3, "data": 2, "macro": 1, "call": 1, "if": 1}, fwd=0.6),
            theme("messages to files", 500, 15, w={"echof": 4, "echo": 2, "data": 2, "label": 2, "define": 1, "if": 1}, want=("out", "fl"), cmp=["rc", "ds", "im", "txt", "fl", "out"]),
            sequences("sequences", S.ECHOES, 2, 8, 800)],
    "C26": [theme("layout", 1200, 25, w=dict(MIX), noise=0.95, joinp=0.5, reus=0.2, ez=pick(False, False, True)),
            theme("layout of conditionals", 700, 22, w={"if": 5, "comment": 1, "data": 3, "ins": 3, "label": 3, "define": 2, "unknown": 0.1}, noise=0.95, joinp=0.6)],
}
