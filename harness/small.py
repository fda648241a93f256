"""Systematic programs: every statement sequence over a small alphabet, every pair of operands, every operator with
boundary values, every range with the values around its ends."""
import itertools, random
from lang import *
from gen import EDGE, BIN

# -- instructions with operands no form (or only a reading as a symbol) takes ------------------
TOKENS = ["A", "B", "C", "D", "E", "H", "L", "F", "I", "R", "MB", "IXH", "IXL", "IYH", "IYL", "AF", "BC", "DE", "HL", "SP", "IX", "IY", "NZ", "Z", "NC",
          "PO", "PE", "P", "M", "(HL)", "(BC)", "(DE)", "(SP)", "(C)", "(IX)", "(IY)", "*", "(*)", "IX+", "IY+", "IX@", "IY@"]


def alts(t):
    if t == "*": return ["*"]
    if t == "(*)": return ["(*)", "*"]
    if t in ("IX", "IY"): return [t, t + "@", "*"]
    if t in ("(IX)", "(IY)"): return [t, t[1:3] + "+", "(*)", "*"]
    if t in ("IX+", "IY+"): return [t, "(*)", "*"]
    if t in ("IX@", "IY@"): return [t, "*"]
    if t[0] == "(": return [t, "(*)", "*"]
    return [t, "*"]


def operand(q, t):
    if t == "*": return (t, num(q.choice([5, 0, 200])))
    if t == "(*)": return (t, par(num(q.choice([5, 300]))))
    if t in ("IX+", "IY+", "IX@", "IY@"): return (t, ch(num(0), (q.choice("+-"), num(q.randrange(100)))))
    return t


def combinations(q, forms, ez, n_none, n_sym, whole=False):
    """Lines of instructions that are no form as they are written."""
    ms = sorted({f["m"] for f in forms} - {"IM"})
    ok = {(f["m"], tuple(f["k"])) for f in forms}
    none, some = [], []
    pats = [(a,) for a in TOKENS] + [(a, b) for a in TOKENS for b in TOKENS]
    for m in ms:
        for p in [()] + pats:
            if (m, p) in ok: continue
            rd = sum((m, x) in ok for x in itertools.product(*[alts(t) for t in p]))
            if rd < 2: (some if rd else none).append((m, p))          # which of several readings counts is not specified
    q.shuffle(none)
    q.shuffle(some)
    out = []
    for xs, n, size in ((none, n_none, 40), (some, n_sym, 12)):
        xs = xs if whole else xs[:n]
        for i in range(0, len(xs), size):
            ls = []
            if size == 12 and q.random() < 0.3:
                for t in q.sample(["A", "HL", "NZ", "B", "SP", "DE", "M", "I"], 3): ls.append([lab(t), equ(num(q.randrange(200)))])
            ls += [[ins(m, *[operand(q, t) for t in p])] for m, p in xs[i:i + size]]
            p = program(ls, ez=ez)
            Style(q, q.choice([0, 0.6])).program(p)
            p["lex"] = {}
            out.append(p)
    return out


# -- operators -------------------------------------------------------------------------------
def literal(v): return num(v) if v >= 0 else par(ch(num(0), ("-", num(-v)))) if v > -2 ** 31 else par(ch(num(1), ("<<", num(31))))

VALS = EDGE + [-v for v in EDGE if v] + [-2 ** 31]


def operators(q, n):
    """name = a o b for pairs of boundary values; all 32 bits of the result are in the symbol table."""
    xs = [(o, a, b) for o in BIN for a in VALS for b in VALS if o not in ("<<", ">>") or 0 <= b < 32]
    xs += [(o, a, b) for o in ("<<", ">>") for a in VALS for b in range(32)]
    q.shuffle(xs)
    xs = xs[:n] if n else xs
    for k in range(len(xs) // 10): xs.append((q.choice("-+~"), q.choice(VALS), None))
    q.shuffle(xs)
    out = []
    for i in range(0, len(xs), 30):
        ls = []
        for j, (o, a, b) in enumerate(xs[i:i + 30]):
            e = ch(literal(a), (o, literal(b))) if b is not None else un(o, literal(a))
            ls.append([lab("v%d" % j), equ(e)])
        p = program(ls, tl=False)
        Style(q, 0.5).program(p)
        p["lex"] = {}
        out.append(p)
    return out


# -- the ends of ranges ----------------------------------------------------------------------
def around(*xs): return sorted({x + d for x in xs for d in (-2, -1, 0, 1, 2)})

N8 = around(-128, 0, 127, 255) + [256 + 5, 1000, -1000, 65535, 0x7FFFFFFF, -2 ** 31 + 1]
N16 = around(-32768, 0, 32767, 65535) + [-65536, 0x12345, -40000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF]
D8 = around(-128, 0, 127) + [255, 256, -255, 1000]


def ranges(q, ez, n):
    """Operands at and beyond the ends of their ranges: known, defined later, by way of a define or a parameter."""
    cs = []
    for v in N8:
        cs += [("b", v), ("LD", ("A", "*"), v), ("LD", ("(HL)", "*"), v), ("ADD", ("A", "*"), v), ("CP", ("*",), v), ("LD", ("IXL", "*"), v), ("LD", ("IX+", "*"), v),
               ("OUT", ("(*)", "A"), v), ("IN", ("A", "(*)"), v), ("SUB", ("*",), v), ("LD", ("C", "*"), v)]
        if ez: cs += [("TST", ("A", "*"), v), ("IN0", ("B", "(*)"), v), ("OUT0", ("(*)", "C"), v), ("TSTIO", ("*",), v)]
    for v in N16:
        cs += [("w", v), ("l", v), ("LD", ("HL", "*"), v), ("LD", ("A", "(*)"), v), ("LD", ("(*)", "IX"), v), ("CALL", ("*",), v), ("JP", ("NZ", "*"), v), ("LD", ("SP", "(*)"), v),
               ("LD", ("IY", "*"), v)]
    for v in D8:
        cs += [("LD", ("A", "IX+"), v), ("LD", ("IY+", "B"), v), ("BIT", ("*", "IX+"), v), ("INC", ("IY+",), v), ("RL", ("IX+",), v), ("SET", ("*", "IY+"), v), ("LD", ("IX+", "*"), v)]
        if ez: cs += [("LEA", ("HL", "IX@"), v), ("PEA", ("IY@",), v), ("LD", ("IX+", "HL"), v)]
    for v in around(0, 8) + [4, 15, 255, -8]:
        cs += [("BIT", ("*", "A"), v), ("SET", ("*", "(HL)"), v), ("RES", ("*", "B"), v)]
    for v in list(range(-9, 66)) + [72, 128, 199, 255, 256]: cs.append(("RST", ("*",), v))
    for v in around(-128, 127) + [0, 300, -300]:
        for m in ("JR", "DJNZ", "JRC"): cs += [(m, "rel", v)] * 2
    q.shuffle(cs)
    cs = cs[:n] if n else cs
    out = []
    for i in range(0, len(cs), 8):
        adl = q.random() < 0.5
        ls, late = [], []
        if ez and not adl: ls.append([assume(num(0))])
        ls.append([org(num(q.choice([0, 0x4000, 0x9D95] + ([0x1FFF0, 0xD1A881] if ez else [0xFFC0]))))])
        for j, c in enumerate(cs[i:i + 8]):
            sfx = q.choice(["", "", "S", "L", "IS", "IL", "SIS", "LIS", "SIL", "LIL"]) if ez else ""
            way = q.choice(["now", "later", "later", "define", "later define", "equate", "later sum"])
            nm = "v%d" % j
            v = c[-1]
            if c[1] == "rel":
                m, cc = ("JR", [q.choice(["NZ", "Z", "NC", "C"])]) if c[0] == "JRC" else (c[0], [])
                size = 2 + (1 if sfx else 0)
                if way in ("now", "define", "equate"):
                    if q.random() < 0.5 or v > 0 or v < -200: e = ch(dict(PC), ("+" if v + size >= 0 else "-", num(abs(v + size))))
                    else:                                               # a label behind
                        ls.append([lab(nm), fill(num(-v - size))]) if -v - size >= 0 else ls.append([lab(nm)])
                        e = sym(nm)
                    ls.append([ins(m, *cc, ("*", e), sfx=sfx)])
                else:
                    if v < 0:
                        late.append((nm, None, v)); ls.append([lab("b%d" % j)])
                        ls.append([ins(m, *cc, ("*", ch(sym(nm), ("-", sym("z%d" % j)), ("+", sym("b%d" % j)), ("+", num(size)))), sfx=sfx)])
                    else:
                        ls.append([ins(m, *cc, ("*", sym(nm)), sfx=sfx)]); ls.append([fill(num(v)), lab(nm)])
                continue
            x = literal(v)
            if way == "now": e = x
            elif way == "equate": ls.append([lab(nm), equ(x)]); e = sym(nm)
            elif way == "define": ls.append([define(nm, be(x))]); e = sym(nm)
            elif way == "later define": ls.append([define("d" + nm, be(ch(sym(nm), ("+", num(1)))))]); late.append((nm, v, -1)); e = sym("d" + nm)
            elif way == "later sum": late.append((nm, v, 7)); e = ch(sym(nm), ("-", num(7)))
            else: late.append((nm, v, 0)); e = sym(nm)
            if c[0] in ("b", "w", "l"):
                ls.append([data({"b": 1, "w": 2, "l": 3}[c[0]], e)])
                continue
            os = []
            done = False
            for t in c[1]:
                if t in ("IX+", "IY+", "IX@", "IY@"):
                    if c[0] in ("BIT", "SET") or not done and not (c[0] == "LD" and "*" in c[1] and v in N8 and not v in D8):
                        d = ch(num(0), ("-", num(-v))) if way == "now" and v < 0 else ch(num(0), ("+", num(v) if way == "now" else par(e) if e["k"] == "ch" else e))
                        os.append((t, d)); done = True
                    else: os.append((t, ch(num(0), ("+", num(1)))))
                elif t == "*": os.append(("*", num(3)) if done or any(y in ("IX+", "IY+") for y in c[1]) and c[0] in ("BIT", "SET") else ("(*)" if e["k"] == "par" else "*", e))
                elif t == "(*)": os.append((t, par(e)))
                else: os.append(t)
            ls.append([ins(c[0], *os, sfx=sfx)])
        for nm, v, d in late:
            if v is None: ls.append([lab(nm), equ(num(1000))]); ls.append([lab("z" + nm[1:]), equ(num(1000 - d))])
            else: ls.append([lab(nm), equ(literal(v + d) if -2 ** 31 <= v + d < 2 ** 31 else literal(v))])
        p = program(ls, ez=ez)
        Style(q, q.choice([0, 0.5])).program(p)
        p["lex"] = {}
        out.append(p)
    return out


# -- every sequence over an alphabet -----------------------------------------------------------
def sequences(q, alphabet, whole, longer, n, end=(), ok=None, **kw):
    """All sequences of up to `whole` statements of the alphabet, and n of the longer ones (up to `longer`)."""
    ss = [s for k in range(1, whole + 1) for s in itertools.product(range(len(alphabet)), repeat=k)]
    ss += [tuple(q.randrange(len(alphabet)) for _ in range(q.randrange(whole + 1, longer + 1))) for _ in range(n)]
    out = []
    for s in ss:
        ls = []
        for i, a in enumerate(s):
            x = alphabet[a](i) if callable(alphabet[a]) else alphabet[a]
            ls.append([dict(y) for y in (x if isinstance(x, list) else [x])])
        if ok and not ok(ls): continue
        p = program(ls + [[dict(y) for y in x] for x in end], **{a: (b(q) if callable(b) else b) for a, b in kw.items()})
        Style(q, 0).program(p)
        p["lex"] = {}
        out.append(p)
    return out


def db(i): return data(1, num(16 + i))

def one_else(ls):
    """No conditional has two #else (what that means is not specified)."""
    st = [0]
    for l in ls:
        for s in l:
            if s["k"] in ("if", "ifdef", "ifndef"): st.append(0)
            elif s["k"] == "endif" and len(st) > 1: st.pop()
            elif s["k"] == "else":
                if st[-1]: return False
                st[-1] = 1
            elif s["k"] == "elif" and st[-1]: return False
    return True

CONDITIONS = [if_(num(1)), if_(num(0)), elif_(num(1)), elif_(num(0)), ELSE, ENDIF, db]
CONDITIONS2 = [ifdef("a"), ifndef("a"), define("a"), undef("a"), ELSE, ENDIF, db, lambda i: [dict(COMMENT)], lambda i: [dict(ENDCOMMENT)]]
A = sym("a")
DEFINES = [define("a", be(num(1))), define("a", be(ch(A, ("+", num(1))))), define("b", be(ch(A, ("*", num(2))))), define("b", beval(ch(A, ("+", num(3))))), undef("a"),
           define("a"), data(1, A), data(1, sym("b")), [lab("a")]]
JR = lambda d: ins("JR", ("*", re_(d)))
REUSABLE = [REUS, JR(1), JR(2), JR(-1), JR(-2), ins("NOP"), [dict(REUS), JR(-1)], data(2, re_(1), re_(-1))]
BUFFERS = [buf(num(0)), buf(num(1)), lambda i: wr([data(1, num(16 + i))]), lambda i: wr([ins("INC", "A")]), CLR, RUN, db]
PLACES = [org(num(16)), org(ch(dict(PC), ("+", num(4)))), db, seek(ch(dict(PC), ("+", num(2)))), seek(ch(dict(PC), ("-", num(1)))), fill(num(2), num(9)), data(2, dict(PC)),
          lambda i: [lab("l%d" % i)]]
LISTS = [LIST, NOLIST, db, lambda i: [lab("l%d" % i), ins("NOP")], data(1, *[num(x) for x in range(6)]), include(2, "i.inc"), wr([data(1, num(9))]), RUN]
LISTED = ("i.inc", [data(1, num(1), num(2)), NOLIST, [ins("NOP"), ins("RET")], LIST, data(2, dict(PC))])
CASES = [lab("a"), lab("A"), define("b", be(num(5))), define("B", be(num(6))), undef("b"), data(1, sym("A")), data(1, sym("b")), data(1, sym("B"))]
ECHOES = [echo(str_("x"), A), echo(sym("b")), lambda i: define("b", be(num(i))), lambda i: [lab("a")], show("b"), error(str_("e")), db, echo(dict(PC), re_(1)), REUS]
