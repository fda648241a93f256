"""Programs as data (the form the specification reads) and their rendering as source text.

A program is {cs, ez, cc, tl, files, dd}; see spec/Asm.tla.  Everything lexical that must not
matter (blank space, letter case of keywords, radix of literals, comments, joining with '\\',
line ends, byte-order mark) is chosen here and never reaches the specification.
"""
import re

def N(s): return [s, s.upper()]
def num(v): return {"k": "n", "v": v}
def lit(d, b): return {"k": "lit", "b": b, "d": d}
def getc(f, b, i): return {"k": "getc", "f": f, "ok": b is not None, "b": b or [], "i": i}
def chr_(c): return {"k": "chr", "v": c}
def sym(s): return {"k": "sym", "n": N(s)}
def call(s, a): return {"k": "call", "n": N(s), "a": a}
PC = {"k": "pc"}
MISS = {"k": "miss"}
def re_(d): return {"k": "re", "d": d}
def par(e): return {"k": "par", "e": e}
def un(o, e): return {"k": "un", "o": o, "e": e}
def ch(h, *t): return {"k": "ch", "h": h, "t": [{"o": o, "x": x} for o, x in t]}
def hole(i): return {"k": "hole", "i": i}

ESC = {10: "\\n", 92: "\\\\", 34: '\\"', 9: "\\t", 13: "\\r", 0: "\\0"}
def strx(codes):
    return "".join(ESC.get(c, chr(c)) for c in codes)
def str_(s):
    b = [ord(c) for c in s] if isinstance(s, str) else list(s)
    return {"k": "str", "b": b, "x": strx(b)}

def opnd(t):
    """A register-like operand; its e is what it means when read as an expression."""
    if t in ("IX+", "IY+", "IX@", "IY@", "AF'"): return {"t": t, "e": num(0)}
    if t.isdigit(): return {"t": t, "e": num(int(t))}
    return {"t": t, "e": par(sym(t[1:-1])) if t[0] == "(" else sym(t)}
def ins(m, *o, sfx=""):
    return {"k": "ins", "m": m, "sfx": sfx, "o": [x if isinstance(x, dict) else {"t": x[0], "e": x[1]} if isinstance(x, tuple)
                                                 else opnd(x) for x in o]}
def data(w, *i): return {"k": "data", "w": w, "i": list(i)}
def lab(n): return {"k": "lab", "n": N(n)}
REUS = {"k": "reus"}
def equ(e, j="="): return {"k": "equ", "e": e, "j": j}
def mcall(n, *a): return {"k": "call", "n": N(n), "a": list(a)}
def fill(n, *v): return {"k": "fill", "n": n, "v": list(v)}
def org(e): return {"k": "org", "e": e}
def seek(e): return {"k": "seek", "e": e}
def assume(e): return {"k": "assume", "e": e}
NB = {"t": "none"}
def be(e): return {"t": "e", "e": e}
def bi(*i): return {"t": "i", "i": list(i)}
def bs(*s): return {"t": "s", "s": list(s)}
def beval(e): return {"t": "eval", "e": e}
def bconcat(*i): return {"t": "concat", "i": list(i)}
def define(n, b=NB, ps=()): return {"k": "define", "n": N(n), "ps": [N(p) for p in ps], "b": b}
def defcont(j, *x):
    return {"k": "defcont", "j": j, "i": list(x) if j != "\\" else [], "s": list(x) if j == "\\" else []}
def undef(n): return {"k": "undef", "n": N(n)}
def macro(n, ps=()): return {"k": "macro", "n": N(n), "ps": [N(p) for p in ps]}
ENDM = {"k": "endmacro"}
def val(*x): return {"k": "val", "i": list(x)}
def ifnone(w): return {"k": "ifnone", "x": w}
def if_(e): return {"k": "if", "e": e}
def ifdef(n): return {"k": "ifdef", "n": N(n)}
def ifndef(n): return {"k": "ifndef", "n": N(n)}
ELSE = {"k": "else"}
def elif_(e): return {"k": "elif", "e": e}
ENDIF = {"k": "endif"}
COMMENT = {"k": "comment"}
ENDCOMMENT = {"k": "endcomment"}
def include(i, name): return {"k": "include", "i": i, "name": name}
def import_(i, b, name): return {"k": "import", "i": i, "b": list(b), "name": name}
def echo(*i, tg="", ap=False): return {"k": "echo", "i": list(i), "tg": tg, "ap": ap}
def show(n): return {"k": "show", "n": N(n)}
def error(*i): return {"k": "error", "i": list(i)}
LIST = {"k": "list"}
NOLIST = {"k": "nolist"}
def buf(e): return {"k": "buf", "e": e}
CLR = {"k": "clr"}
def wr(ss, *e): return {"k": "wr", "s": list(ss), "e": list(e)}
RUN = {"k": "run"}
def addi(m, p, e, text): return {"k": "addi", "m": m, "p": p, "e": e, "x": text}
def bad(c, text): return {"k": "bad", "c": c, "x": text}

PREOPS = {"ifnone", "define", "defcont", "undef", "macro", "endmacro", "if", "ifdef", "ifndef", "else", "elif", "endif",
          "comment", "endcomment", "include", "import"}
#statements that have their line to themselves
SOLE = {"list", "nolist", "include", "macro", "endmacro", "comment", "endcomment"}
#statements that take the rest of the line
def last_only(s):
    return s["k"] == "define" and s["b"]["t"] in ("s",) or (s["k"] == "defcont" and s["j"] == "\\") or s["k"] == "addi" or s["k"] == "bad" and (s["c"] == "SE119" or s["x"].startswith(".addinstr")) \
        or s["k"] == "run" or s["k"] == "elif" and s["e"]["k"] == "miss"


class Style:
    """How a program is written down.  noise 0: canonical."""
    def __init__(self, rng=None, noise=0.0):
        self.r, self.noise = rng, noise if rng else 0.0

    def p(self, x):
        return self.noise and self.r.random() < x * self.noise

    def sp(self):
        if not self.noise: return ""
        return self.r.choice(["", "", "", " ", "  ", "\t"]) if self.p(0.6) else ""

    def sp1(self):
        if not self.noise: return " "
        return self.r.choice(["  ", "\t", " \t "]) if self.p(0.3) else " "

    def kw(self, s):
        if not self.noise: return s.lower()
        x = self.r.random()
        if x > self.noise: return s.lower()
        if x < self.noise / 2: return s.upper()
        return "".join(c.upper() if self.r.random() < 0.5 else c.lower() for c in s)

    # -- expressions -------------------------------------------------------
    def number(self, v):
        if v < 0: return str(v)
        x = self.r.random() if self.noise else 0.0
        if x < 0.5 or not self.noise: return str(v)
        if x < 0.7: return "$" + self.hexd("%X" % v)
        if x < 0.85: return self.hexd("0%X" % v) + self.r.choice("hH")
        if v < 4096:
            return "%" + bin(v)[2:] if x < 0.95 else bin(v)[2:] + self.r.choice("bB")
        return str(v)

    def hexd(self, s):
        return s.lower() if self.p(0.5) else s

    def literal(self, e):
        d = e["d"]
        if e["b"] == 10: return d
        if e["b"] == 16:
            if self.p(0.4) and (d[0].isdigit()): return d + "h"
            return "$" + d
        if self.p(0.4) and d[0].isdigit(): return d + "b"
        return "%" + d

    def name(self, n): return n[0]

    def expr(self, e):
        k = e["k"]
        if k == "n": return self.number(e["v"])
        if k == "chr":
            v = e["v"]
            t = {10: "\\n", 92: "\\\\", 0: "\\0", 13: "\\r", 9: "\\t", 39: "\\'"}.get(v)
            if t and self.p(0.3): t = t.upper()
            return "'" + (t or ("\\" if v in (59, 33, 42) and self.p(0.2) else "") + chr(v)) + "'"
        if k == "lit": return self.literal(e)
        if k == "pc": return "$"
        if k == "sym": return self.name(e["n"])
        if k == "call":
            return self.name(e["n"]) + "(" + self.items(e["a"]) + ")"
        if k == "re":
            d = e["d"]
            if d == 1: return "_" if not self.p(0.5) else "+_"
            return ("+" * d if d > 0 else "-" * -d) + "_"
        if k == "par": return "(" + self.sp() + self.expr(e["e"]) + self.sp() + ")"
        if k == "un": return e["o"] + (self.sp() if e["e"]["k"] != "re" else "") + self.expr(e["e"])
        if k == "ch":
            s = self.expr(e["h"])
            return s + self.tail(e["t"])
        if k == "getc": return self.kw("getc") + '("' + e["f"] + '",' + self.sp() + self.expr(e["i"]) + ")"
        if k == "miss": return ""
        if k == "hole": return "%HOLE" + str(e["i"]) + "%"
        if k == "str": return '"' + e["x"] + '"'
        raise ValueError(k)

    def tail(self, t):
        s = ""
        for x in t:
            o = x["o"]
            if o == "": s += " " + self.expr(x["x"]); continue
            a = self.expr(x["x"])
            tight = self.noise and self.p(0.5) and a[:1] not in "+-~%$<>=&|*/!^" and o not in ("!=", "%")
            l = self.sp() or ("" if tight else " ")
            s += (l or "") + o + (self.sp() if tight else (self.sp() or " ")) + a
        return s

    def items(self, its):
        return ("," + (self.sp() or ("" if self.p(0.5) else " "))).join(self.sp() + self.expr(i) for i in its)

    def operand(self, o):
        t, e = o["t"], o["e"]
        if t in ("*", "(*)"): return self.expr(e)
        if t in ("IX+", "IY+"):
            return "(" + self.sp() + self.kw(t[:2]) + self.sp() + self.tail(e["t"]) + self.sp() + ")"
        if t in ("IX@", "IY@"):
            return self.kw(t[:2]) + self.sp() + self.tail(e["t"])
        if t[0] == "(":
            return "(" + self.sp() + self.kw(t[1:-1]) + self.sp() + ")"
        return self.kw(t)

    # -- statements --------------------------------------------------------
    def body(self, b):
        t = b["t"]
        if t == "none": return ""
        if t == "e": return self.expr(b["e"])
        if t == "i": return self.items(b["i"])
        if t == "eval": return self.kw("eval") + "(" + self.expr(b["e"]) + ")"
        if t == "concat": return self.kw("concat") + "(" + self.items(b["i"]) + ")"
        if t == "s": return self.stmts(b["s"], inner=True)
        raise ValueError(t)

    def stmt(self, s):
        k = s["k"]
        kw, sp1 = self.kw, self.sp1
        if k == "ins":
            m = kw(s["m"]) + ("." + kw(s["sfx"]) if s["sfx"] else "")
            if not s["o"]: return m
            return m + sp1() + ("," + self.sp()).join(self.operand(o) + self.sp() for o in s["o"]).rstrip()
        if k == "data":
            d = {1: [".db", ".byte"], 2: [".dw", ".word"], 3: [".dl", ".long"]}[s["w"]]
            return kw(self.pick(d)) + sp1() + self.items(s["i"])
        if k == "equ":
            return "=" + self.sp() + self.expr(s["e"]) if s["j"] == "=" else kw(".equ") + sp1() + self.expr(s["e"])
        if k == "call":
            return self.name(s["n"]) + ("(" + self.items(s["a"]) + ")" if s["a"] or not self.bare(s) else "")
        if k == "fill":
            return kw(self.pick([".fill", ".block"])) + sp1() + self.items([s["n"]] + s["v"])
        if k == "org": return kw(".org") + sp1() + self.expr(s["e"])
        if k == "seek": return kw(".seek") + sp1() + self.expr(s["e"])
        if k == "assume": return kw(".assume") + sp1() + kw("adl") + self.sp() + "=" + self.sp() + self.expr(s["e"])
        if k == "define":
            h = self.hash("define") + sp1() + self.name(s["n"])
            if s["ps"]: h += "(" + ("," + self.sp()).join(self.name(p) for p in s["ps"]) + ")"
            b = self.body(s["b"])
            sep = sp1()
            if s["b"]["t"] in ("e", "i", "s", "concat"): s["b"]["xs"] = [ord(c) for c in sep + b]
            return h + (sep + b if b else "")
        if k == "defcont":
            j = s["j"]
            if j == "\\": return self.hash("defcont") + sp1() + "\\" + self.stmts(s["s"], inner=True)
            return self.hash("defcont") + sp1() + j + " " + self.items(s["i"])
        if k == "undef": return self.hash("undef") + sp1() + self.name(s["n"])
        if k == "macro":
            return self.hash("macro") + sp1() + self.name(s["n"]) + \
                ("(" + ("," + self.sp()).join(self.name(p) for p in s["ps"]) + ")" if s["ps"] else "")
        if k in ("endmacro", "else", "endif", "comment", "endcomment"): return self.hash(k)
        if k == "elif" and s["e"]["k"] == "miss": return self.hash(k)
        if k in ("if", "elif"): return self.hash(k) + sp1() + self.expr(s["e"])
        if k == "val": return self.items(s["i"])
        if k == "ifnone": return self.hash(s["x"])
        if k in ("ifdef", "ifndef"): return self.hash(k) + sp1() + self.name(s["n"])
        if k == "include": return self.hash(k) + sp1() + '"' + s["name"] + '"'
        if k == "import": return self.hash(k) + sp1() + '"' + s["name"] + '"'
        if k == "echo":
            r = (">>" + self.sp() if s["ap"] else ">" + sp1()) + s["tg"] + sp1() if s["tg"] else ""
            return kw(".echo") + sp1() + r + self.items(s["i"])
        if k == "error": return kw(".error") + sp1() + self.items(s["i"])
        if k == "show": return kw(".show") + sp1() + self.name(s["n"])
        if k in ("list", "nolist"): return kw("." + k)
        if k == "buf": return kw("buf") + "(" + self.expr(s["e"]) + ")"
        if k == "clr": return kw("clr") + "()"
        if k == "run": return kw("run") + "()"
        if k == "wr":
            st = Style()
            t = st.line_text(s["s"])
            parts, s["tx"] = self.split_holes(t, s["e"])
            return kw("wr") + "(" + ("," + self.sp()).join(parts) + ")"
        if k == "addi": return kw(".addinstr") + sp1() + s["x"]
        if k in ("bad", "raw"): return s["x"]
        raise ValueError(k)

    def bare(self, s):      # a macro call without parentheses
        return s.get("bare", True)

    def hash(self, w): return "#" + (self.sp() if False else "") + self.kw(w)

    def pick(self, l): return l[0] if not self.noise else self.r.choice(l)

    def split_holes(self, t, es):
        parts, tx = [], []
        for i, seg in enumerate(t.split("%HOLE")):
            if i:
                j, seg = seg.split("%", 1)
                tx.append({"h": int(j), "t": ""})
                parts.append(self.expr(es[int(j) - 1]))
            if seg:
                tx.append({"h": 0, "t": seg})
                parts.append('"' + "".join({'"': '\\"', "\\": "\\\\"}.get(c, c) for c in seg) + '"')
        return parts, tx

    def stmts(self, ss, inner=False):
        """Statements of one line joined; inner: inside a define."""
        out = ""
        prev = None
        for i, s in enumerate(ss):
            k = s["k"]
            if k in ("lab", "reus"):
                t = (s["n"][0] if k == "lab" else "_") + (":" if not self.p(0.5) else "")
                if prev is None: out += t
                else: out = out.rstrip(" \t") + " \\" + t
            else:
                pre = k in PREOPS
                t = self.stmt(s)
                if prev is None:
                    out += ("" if pre else " " if not self.noise else self.r.choice([" ", "\t", "    "])) + t
                    if (k in ("equ",) or t[:1] == ".") and self.p(0.3): out = t
                elif prev in ("lab", "reus") and not pre and (k in ("ins", "data", "equ") or k == "call"):
                    out += self.sp1() + t
                else:
                    out += ("\\" if self.p(0.3) and out[-1:] != "'" and not re.search(r"\.\w+$", out) else " \\") + ("" if pre and self.p(0.5) else " ") + t
            prev = k
        return out

    def line_text(self, ss):
        return self.stmts(ss)

    def comment(self):
        if not self.p(0.35): return ""
        return self.r.choice([" ; c", "\t;x \\ nop", " ; \"quote", ";", " ;'(", " ; #endif .db 1", "; tail \\ ld a,b"])

    def render_file(self, lines):
        for ln in lines:
            if ln.get("fixed"): continue
            ss = ln["s"]
            t = self.line_text(ss)
            if not ss:
                t = self.r.choice(["", "", "  ", "\t", " ; only a comment", ";"]) if self.noise else ""
            elif not any(last_only(s) or s["k"] in ("error", "echo", "include", "import", "bad", "raw", "addi", "macro", "endmacro", "define", "defcont",
                                    "undef", "list", "nolist", "comment", "endcomment", "show", "wr") for s in ss):
                t += self.comment()
            ln["x"] = t

    def program(self, p):
        for f in p["files"]: self.render_file(f["l"])
        return p


def program(lines, cs=False, ez=False, cc=False, tl=True, dd=(), extra=()):
    """lines: list of lists of statements (or single statements)."""
    def L(x): return {"s": x if isinstance(x, list) else [x], "x": ""}
    files = [{"n": "in.asm", "l": [L(x) for x in lines]}] + [{"n": n, "l": [L(x) for x in ls]} for n, ls in extra]
    return {"cs": cs, "ez": ez, "cc": cc, "tl": tl, "files": files, "dd": list(dd), "fc": [ord(c) for c in files[0]["n"]]}
