"""Random programs.  A theme is a dict of weights of statement kinds and a few probabilities."""
import random
from lang import *

BIN = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "&&", "||", "<", ">", "<=", ">=", "=", "==", "!="]
EDGE = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 31, 32, 100, 127, 128, 129, 200, 254, 255, 256, 257, 1000, 32767, 32768, 32769, 40000,
        65534, 65535, 65536, 65537, 0xFFFFFF, 0x1000000, 0x7FFFFFFF]
LABELS = ["start", "Loop", "end_it", "L1", "L2", "data1", "Table", "skip_a", "q2", "main", "Zed", "tbl.end", "__x", "a1", "b_2", "Hook",
          "value", "sz", "ptr", "outer", "Inner", "last_", "mid[1]", "go!", "what?"]
DEFS = ["FOO", "Bar", "baz", "SIZE", "debug", "Mode", "ver", "K1", "K2", "opt_x", "LIMIT", "flagA"]
MACROS = ["mcr", "Emit", "twice", "wrapM", "putb", "Store"]
FUNCS = ["fadd", "Fmul", "fsel", "fmix"]
PARAMS = ["x", "y", "arg1", "Val", "n"]

Z1 = [("INC", ["A", "B", "(HL)", "IXH", "IX+", "DE", "IX", "SP"]), ("DEC", ["C", "(HL)", "IYL", "IY+", "BC", "IY"]),
      ("PUSH", ["BC", "AF", "IX"]), ("POP", ["HL", "IY"]), ("SUB", ["B", "*", "(HL)", "IX+"]), ("AND", ["A", "*"]), ("CP", ["*", "IY+"]),
      ("XOR", ["A", "*"]), ("RL", ["C", "IX+"]), ("SLA", ["(HL)"]), ("SRL", ["A"]), ("JP", ["*", "(HL)", "(IX)"]), ("CALL", ["*"]), ("RET", ["NZ", "C"]),
      ("IM", ["1"])]
Z2 = [("LD", [("A", "*"), ("B", "*"), ("(HL)", "*"), ("HL", "*"), ("BC", "*"), ("SP", "*"), ("IX", "*"), ("A", "(*)"), ("(*)", "A"), ("HL", "(*)"),
              ("(*)", "HL"), ("DE", "(*)"), ("(*)", "BC"), ("IY", "(*)"), ("A", "IX+"), ("IY+", "B"), ("IX+", "*"), ("IXL", "*"), ("A", "I"), ("R", "A"),
              ("B", "C"), ("SP", "HL"), ("A", "(BC)")]),
      ("ADD", [("A", "*"), ("HL", "BC"), ("IX", "DE"), ("A", "IX+")]), ("ADC", [("A", "*"), ("HL", "SP")]), ("SBC", [("A", "B"), ("HL", "DE")]),
      ("JP", [("NZ", "*"), ("M", "*")]), ("CALL", [("C", "*")]), ("OUT", [("(*)", "A"), ("(C)", "B")]), ("IN", [("A", "(*)"), ("E", "(C)")]),
      ("EX", [("DE", "HL"), ("(SP)", "HL"), ("AF", "AF'")])]
Z0 = ["NOP", "RET", "EI", "DI", "EXX", "LDIR", "LDI", "NEG", "RETI", "SCF", "CPL", "HALT", "DAA", "RRD", "OTIR", "RLCA"]
EZ2 = [("LD", [("BC", "(HL)"), ("(HL)", "IX"), ("HL", "IX+"), ("IY+", "DE"), ("A", "MB")]), ("LEA", [("HL", "IX@"), ("IY", "IY@")]),
       ("TST", [("A", "*"), ("A", "B")]), ("IN0", [("B", "(*)")]), ("OUT0", [("(*)", "C")])]
EZ1 = [("MLT", ["BC", "SP"]), ("PEA", ["IX@"]), ("TSTIO", ["*"])]


class Gen:
    def __init__(self, rng, w=None, ez=False, **o):
        self.r = rng
        self.ez = ez
        self.w = dict(ins=10, data=6, label=5, equ=2, fill=1, blank=1)
        if w is not None: self.w = w
        self.relabels = "relabel" in self.w or "set" in self.w
        self.loops = []
        self.o = dict(err=0.05, undef=0.0, fwd=0.4, depth=2, p_call=0.3, reus=0.0, nest=2, case=False, spread=0.0, redef=0.0, getc=0.0, line=0.0, fname=0.0, lnum=0.0, loop=0.0)
        self.o.update(o)
        n = self.o.get("nlab", 6)
        pool = LABELS[:]
        self.r.shuffle(pool)
        self.labels = pool[:n]
        self.todo = self.labels[:]          # labels still to be defined
        self.have = []                      # labels already defined
        self.defs = {}                      # numeric defines that exist now
        self.lists = {}
        self.funcs = {}
        # some arguments have the name of a label or a define elsewhere
        self.params = PARAMS if rng.random() < 0.6 else PARAMS[:3] + rng.sample(LABELS, 1) + rng.sample(DEFS, 1)
        self.vals = {}
        self.vlists = {}
        self.macros = {}                    # name -> arity
        self.smacros = {}
        self.level = {}
        self.mlev = 0
        self.scope = []                     # parameters in scope
        self.holes = None
        self.extra = []                     # included files
        self.nimp = 0
        self.got = []                       # files read by getc()
        self.inside = []                    # what we are nested in
        self.nre = 0
        self.dead = []
        self.decl = []                      # declared instructions
        self.spliced = set()                # defines whose text is not what was written
        self.sure = []                      # labels that certainly exist
        self.shown = set()
        self.wasdef = set()                 # names that have been numbers

    # -- names ---------------------------------------------------------------
    def nm(self, s):
        """A spelling of name s."""
        if self.o["case"] and self.r.random() < 0.5:
            return self.r.choice([s.upper(), s.lower(), s.swapcase()])
        return s

    def chance(self, x): return self.r.random() < x

    # -- expressions ---------------------------------------------------------
    def atom(self, lo=0, hi=None):
        r = self.r
        if self.o["getc"] and self.chance(self.o["getc"]): return self.a_getc()
        if self.o["line"] and self.chance(self.o["line"]): return sym(self.nm("__LINE"))
        if self.o["lnum"] and self.lists and self.chance(self.o["lnum"]): return sym(self.nm(r.choice(list(self.lists))))
        if self.o["loop"] and self.loops and self.chance(self.o["loop"]): return sym(self.nm(r.choice(self.loops)))
        x = r.random()
        if self.scope and x < 0.45:
            return sym(self.nm(r.choice(self.scope)))
        if x < 0.5:
            v = r.choice(EDGE) if r.random() < 0.4 else r.randrange(300)
            return num(v)
        if x < 0.55: return chr_(r.choice([65, 97, 48, 32, 59, 44, 41, 40, 10, 92, 34, 61, 60, 62, 38, 124, 33, 39, 42, 9]))
        if x < 0.60: return dict(PC)
        if x < 0.68 and self.defs: return sym(self.nm(r.choice(list(self.defs))))
        if x < 0.72 and self.funcs and self.o["p_call"]:
            f = r.choice(list(self.funcs))
            return call(self.nm(f), [self.expr(0) for _ in range(self.funcs[f])])
        if x < 0.76 and self.o["reus"]:
            return re_(r.choice([1, 1, 2, 3, -1, -1, -2]) if self.nre > 2 else 1)
        if self.chance(self.o["undef"]): return sym("nosuch%d" % r.randrange(3))
        if self.todo and self.chance(self.o["fwd"]): return sym(self.nm(r.choice(self.todo)))
        if self.have: return sym(self.nm(r.choice(self.have)))
        if self.todo and self.chance(self.o["fwd"]): return sym(self.nm(r.choice(self.todo)))
        return num(r.randrange(100))

    def expr(self, depth=None):
        r = self.r
        d = self.o["depth"] if depth is None else depth
        x = r.random()
        if d <= 0 or x < 0.35: return self.atom()
        if x < 0.45:
            e = self.atom() if r.random() < 0.6 else par(self.expr(d - 1))
            return un(r.choice("-~+"), par(e) if e["k"] == "re" or e["k"] == "sym" and e["n"][1] in [n.upper() for n in self.lists] else e)
        if x < 0.55: return par(self.expr(d - 1))
        t = []
        for _ in range(r.choice([1, 1, 2, 3])):
            o = r.choice(BIN) if r.random() < 0.6 else r.choice("+-&|")
            if o in ("<<", ">>"): y = num(r.randrange(32))
            elif o in ("/", "%"):
                y = num(r.randrange(1, 20)) if not self.chance(self.o["err"]) else self.atom()
            else: y = self.atom() if r.random() < 0.7 else par(self.expr(d - 1))
            t.append((o, y))
        h = self.atom() if r.random() < 0.8 else par(self.expr(d - 1))
        return ch(h, *t)

    def a_getc(self):
        r = self.r
        if not self.got or self.chance(0.3):
            self.got.append({"p": "got%d.bin" % len(self.got), "b": [r.randrange(256) for _ in range(r.choice([0, 1, 2, 5, 40]))]})
        g = r.choice(self.got)
        i = r.choice([0, 1, 2, 3, 4, 10, 39, 40])
        return getc(g["p"], g["b"], r.choice([num(i), ch(num(i), ("+", num(r.randrange(3)))), par(num(i))]))

    def chain(self, e, o, y):
        """e o y as it is written: the operators are applied left to right."""
        if e["k"] == "ch": return {"k": "ch", "h": e["h"], "t": e["t"] + [{"o": o, "x": y}]}
        return ch(e, (o, y))

    def e8(self):
        if self.chance(self.o["err"]): return self.expr()
        e = self.expr()
        if e["k"] == "n" and e["v"] < 256: return e
        return self.chain(e, "&", num(255))

    def e16(self):
        if not self.ez or self.chance(self.o["err"]): return self.expr()
        return self.chain(self.expr(), "&", num(self.r.choice([0xFFFF, 0x7FFF])))

    def disp(self):
        if self.chance(self.o["err"]):
            return ch(num(0), (self.r.choice("+-"), self.atom()))
        if self.chance(0.3) and self.have + self.todo:
            return ch(num(0), ("+", par(self.chain(self.expr(1), "&", num(127)))))
        return ch(num(0), (self.r.choice("+-"), num(self.r.randrange(128))))

    def near(self):
        """A target of a relative jump."""
        if self.chance(self.o["err"]): return self.expr(1)
        if self.chance(0.6): return ch(dict(PC), (self.r.choice("+-"), num(self.r.randrange(100))))
        return self.atom()

    def nostop(self, e):
        return par(e) if e["k"] in ("ch", "un") else e

    # -- instructions --------------------------------------------------------
    def opd(self, m, t):
        if t in ("IX+", "IY+", "IX@", "IY@"): return (t, self.disp())
        if t == "*":
            n8 = m in ("SUB", "AND", "CP", "XOR", "TST", "TSTIO", "ADD", "ADC")
            e = self.e8() if n8 else self.e16()
            return ("(*)" if e["k"] == "par" else "*", e)
        if t == "(*)": return ("(*)", par(self.e8() if m in ("OUT", "IN", "IN0", "OUT0") else self.e16()))
        return t

    def instr(self):
        r = self.r
        sfx = ""
        if self.ez and r.random() < 0.15: sfx = r.choice(["S", "L", "IS", "IL", "SIS", "LIS", "SIL", "LIL"])
        x = r.random()
        if x < 0.2: return ins(r.choice(Z0), sfx=sfx)
        if self.o.get("rel", 0.08) and x < 0.2 + self.o.get("rel", 0.08):
            m = r.choice(["JR", "JR", "DJNZ"])
            e = self.near()
            t = ("(*)" if e["k"] == "par" else "*", e)
            if m == "JR" and r.random() < 0.5: return ins(m, r.choice(["NZ", "Z", "NC", "C"]), t, sfx=sfx)
            return ins(m, t, sfx=sfx)
        if x < 0.36:
            m = r.choice(["BIT", "SET", "RES"])
            e = num(r.randrange(8)) if not self.chance(self.o["err"]) else self.expr(0)
            return ins(m, ("(*)" if e["k"] == "par" else "*", e), self.opd(m, r.choice(["A", "B", "(HL)", "IX+", "IY+"])), sfx=sfx)
        if x < 0.38:
            e = num(8 * r.randrange(8)) if not self.chance(self.o["err"]) else self.expr(0)
            return ins("RST", ("(*)" if e["k"] == "par" else "*", e), sfx=sfx)
        if x < 0.6:
            m, ts = r.choice(Z1 + (EZ1 if self.ez else []))
            return ins(m, self.opd(m, r.choice(ts)), sfx=sfx)
        m, ts = r.choice(Z2[:1] * 4 + Z2 + (EZ2 * 2 if self.ez else []))
        a, b = r.choice(ts)
        if m == "LD" and b == "*" and a in ("A", "B", "(HL)", "IX+", "IXL"):
            e = self.e8()
            return ins(m, self.opd(m, a), ("(*)" if e["k"] == "par" else "*", e), sfx=sfx)
        return ins(m, self.opd(m, a), self.opd(m, b), sfx=sfx)

    def string(self, lo=1, hi=9):
        r = self.r
        out = [r.choice([65, 98, 99, 32, 44, 59, 92, 34, 10, 48, 40, 41, 58, 46, 35, 61, 9, 0, 126, 39, 13, 233, 255])
               for _ in range(r.randrange(lo, hi))]
        if hi == 9 and r.random() < 0.25:        # names within strings are text
            n = [ord(c) for c in r.choice(self.scope + list(self.defs) + self.have + ["__LINE", "$", "1"])]
            out = out[:2] + r.choice([[], [34], [34, 32], [92], [92, 34]]) + n + r.choice([[], [34], [32], [40, 41]]) + out[2:4]
        return str_(out)

    def items(self, w, n=None):
        r = self.r
        its = []
        for _ in range(n or r.choice([1, 1, 2, 3, 5])):
            x = r.random()
            if x < 0.15: its.append(self.string())
            elif self.o["fname"] and self.chance(self.o["fname"]): its.append(sym(self.nm("__FILE")))
            elif x < 0.25 and self.lists: its.append(sym(self.nm(r.choice(list(self.lists)))))
            else:
                e = self.e8() if w == 1 else self.e16() if w == 2 else self.expr()
                its.append(e)
        return its

    # -- statements: each returns a list of lines ----------------------------------
    def s_ins(self): return [[self.instr()]]
    def s_data(self):
        w = self.r.choice([1, 1, 2, 3])
        return [[data(w, *self.items(w))]]
    def s_blank(self): return [[] for _ in range(self.r.randrange(1, 3))]
    def s_label(self):
        if not self.todo or self.inside.count("macro"): return self.s_ins()
        n = self.todo.pop(self.r.randrange(len(self.todo)))
        self.have.append(n)
        if not self.inside: self.sure.append(n)
        l = [lab(self.nm(n))]
        if self.chance(0.3): l.append(self.instr())
        return [l]
    def s_relabel(self):
        if not self.have: return self.s_label()
        return [[lab(self.nm(self.r.choice(self.have)))]]
    def s_equ(self):
        if not self.todo or self.inside.count("macro"): return self.s_ins()
        n = self.todo.pop(self.r.randrange(len(self.todo)))
        old = self.o["fwd"], self.o["reus"]
        if not self.chance(self.o["err"]): self.o["fwd"] = 0
        self.o["reus"] = 0
        e = self.expr()
        self.o["fwd"], self.o["reus"] = old
        self.have.append(n)
        if not self.inside: self.sure.append(n)
        return [[lab(self.nm(n)), equ(e, self.r.choice(["=", ".equ"]))]]
    def s_loop(self):
        """A define that mentions itself."""
        if self.loops: return self.s_ins()
        self.loops = ["loopA"]
        return [[define(self.nm("loopA"), be(ch(sym(self.nm("loopA")), (self.r.choice("+-&"), num(self.r.randrange(9))))))]]
    def s_set(self):
        """A new value for the latest label."""
        if not self.have and not self.chance(0.3): return self.s_label()
        return [[equ(self.now(self.expr), self.r.choice(["=", ".equ"]))]]
    def now(self, f):
        """Without forward references."""
        old = self.o["fwd"], self.o["reus"], self.o["undef"]
        self.o["fwd"] = self.o["reus"] = self.o["undef"] = 0
        e = f()
        self.o["fwd"], self.o["reus"], self.o["undef"] = old
        return e
    def s_fill(self):
        n = num(self.r.randrange(12)) if not self.chance(self.o["err"]) else self.r.choice([un("-", num(1)), ch(num(3), ("-", num(5)))])
        v = [] if self.chance(0.4) else [self.now(self.e8)]
        if v and self.chance(0.25): v = [num(x) if x >= 0 else un("-", num(-x)) for x in [self.r.choice([-128, -128, 255, 255, 127, -1, -129, 256] if self.chance(3 * self.o["err"]) else [-128, 255, 127, -1])]]
        return [[fill(n, *v)]]
    def s_org(self):
        r = self.r
        x = r.random()
        if x < 0.7: e = num(r.choice([0, 0x100, 0x4000, 0x8000, 0x9D93, 0xFFF0, 0x1234, 0x10000, 0xD1A881]))
        elif x < 0.9: e = ch(dict(PC), ("+", num(r.randrange(300))))
        else: e = ch(dict(PC), ("&", num(0xFF00)))
        if self.chance(self.o["err"]): e = un("-", num(5))
        return [[org(e)]]
    def s_seek(self):
        r = self.r
        x = r.random()
        if x < 0.5: e = ch(dict(PC), ("+", num(r.randrange(20))))
        elif x < 0.95 or not self.have: e = ch(dict(PC), ("-", num(r.randrange(1, 4))))
        else: e = sym(r.choice(self.have))
        return [[seek(e)]]
    def s_reus(self):
        self.nre += 1
        l = [dict(REUS)]
        if self.chance(0.3): l.append(self.instr())
        return [l]
    def s_assume(self): return [[assume(num(self.r.randrange(2)))]]

    def cond(self):
        x = self.r.random()
        if x < 0.5: return num(self.r.randrange(2))
        return self.now(lambda: self.expr(1))
    def s_if(self):
        r = self.r
        if len(self.inside) >= 4: return self.s_ins()
        out = []
        x = r.random()
        if x < 0.4: out.append([if_(self.cond())])
        else:
            n = r.choice(DEFS) if not (self.have and r.random() < 0.2) else r.choice(self.have)
            out.append([(ifdef if x < 0.7 else ifndef)(self.nm(n))])
        self.inside.append("if")
        out += self.block(r.randrange(0, 4))
        while r.random() < 0.3:
            out.append([elif_(self.cond())])
            out += self.block(r.randrange(0, 3))
        if r.random() < 0.5:
            out.append([dict(ELSE)])
            out += self.block(r.randrange(0, 4))
        out.append([dict(ENDIF)])
        self.inside.pop()
        return out
    def s_stray(self):
        return [[self.r.choice([dict(ENDIF), dict(ELSE), elif_(num(1)), if_(num(self.r.randrange(2)))])]]
    def s_comment(self):
        if "if" in self.inside: return self.s_ins()
        return [[dict(COMMENT)]] + self.block(self.r.randrange(0, 3)) + [[dict(ENDCOMMENT)]]

    def s_define(self):
        r = self.r
        n = r.choice(DEFS)
        x = r.random()
        nm = self.nm(n)
        if n in self.lists and x >= 0.8: x = 0.5
        if x < 0.1:
            if n in self.defs or n in self.lists: return self.s_ins()
            self.defs[n] = 1
            return [[define(nm)]]
        if x < 0.65:
            if n in self.lists: return self.s_ins()
            e = self.now(self.expr) if not (n in self.defs) else num(r.randrange(256))
            self.defs[n] = 1
            return [[define(nm, be(e))]]
        if x < 0.75 and n in self.defs and self.chance(0.7) and n not in self.shown and not self.relabels:
            self.spliced.add(n)
            return [[define(nm, be(ch(sym(self.nm(n)), (r.choice("+-*|"), num(r.randrange(1, 9))))))]]
        if x < 0.9 and n not in self.lists:
            if self.chance(0.5) or n in self.shown:
                dd = self.defs, self.funcs, self.have
                self.defs, self.funcs, self.have = {}, {}, []
                e = self.now(self.expr)
                self.defs, self.funcs, self.have = dd
            else:
                e = self.expr()
                self.spliced.add(n)
            self.defs[n] = 1
            return [[define(nm, beval(e))]]
        if n in self.defs or n in self.wasdef: return self.s_ins()
        self.lists[n] = 1
        return [[define(nm, bi(*([self.string(1, 4)] if r.random() < 0.3 else [self.e8(), self.e8()]) + [num(r.randrange(256))]))]]
    # a macro that has a value: one line of several, chosen by its arguments
    def s_value(self):
        r = self.r
        n = r.choice(["vmax", "Vsel", "vpick", "vrow", "Vtab"])
        if n in self.vals or n in self.vlists or self.inside: return self.s_data()
        many = n in ("vrow", "Vtab")
        ps = r.sample(self.params, r.choice([1, 2, 2, 3]))
        def cond():
            return r.choice([ch(sym(self.nm(ps[0])), (r.choice(["<", ">", "==", "!=", "&"]), num(r.randrange(8)))), ch(sym(self.nm(ps[0])), ("%", num(r.randrange(1, 4)))), num(r.randrange(2)),
                             ch(sym(self.nm(ps[0])), (">", sym(self.nm(ps[0])))), sym(self.nm(ps[0]))])
        def own(s): return [dict(s, own=1)]
        def value():
            old, self.scope = self.scope, ps
            oh, self.have, ot, self.todo = self.have, [], self.todo, []
            es = [self.expr(1)]
            if many and r.random() < 0.5: es += [self.expr(1) if r.random() < 0.7 else str_([c for c in self.string(1, 3)["b"] if c] or [66]) for _ in range(r.choice([1, 1, 2]))]
            self.scope, self.have, self.todo = old, oh, ot
            return [[val(*es)]] if r.random() < 0.9 else [[], [val(*es)]]
        def tree(d):
            x = r.random()
            if d == 0 or x < 0.3: return value() if x > 0.04 else [[]]
            c = own(if_(cond())) if r.random() < 0.7 else own((ifdef if r.random() < 0.5 else ifndef)(self.nm(r.choice(ps + DEFS[:3]))))
            out = [c] + tree(d - 1)
            if r.random() < 0.3: out += [own(elif_(cond()))] + tree(d - 1)
            if r.random() < 0.8: out += [own(ELSE)] + tree(d - 1)
            return out + [own(ENDIF)]
        ls = tree(2) + (value() if r.random() < 0.4 else [])
        (self.vlists if many else self.vals)[n] = len(ps)
        if many and r.random() < 0.4:
            x = [v for l in ls for v in l if v["k"] == "val"]
            if x: return [[define(self.nm(n), bi(*x[0]["i"]) if len(x[0]["i"]) > 1 or x[0]["i"][0]["k"] == "str" else be(x[0]["i"][0]), ps)]]
        return [[macro(self.nm(n), ps)]] + ls + [[dict(ENDM)]]
    def s_usevalue(self):
        r = self.r
        if not self.vals: return self.s_value()
        def one():
            n = r.choice(list(self.vals))
            k = self.vals[n] - (r.random() < 0.03)
            a = [num(r.randrange(8))] if k else []
            a += [self.atom() if self.scope == [] else num(4) for _ in range(k - 1)]
            e = call(self.nm(n), a)
            x = r.random()
            return e if x < 0.5 else ch(e, (r.choice("+*-|"), self.atom())) if x < 0.8 else un("-", e)
        if self.vlists and r.random() < 0.4:
            es = []
            says = r.random() < 0.15
            dd = self.defs, self.have
            if says: self.defs, self.have = {}, self.sure
            for _ in range(r.choice([1, 1, 2, 3])):
                if r.random() < 0.2: es.append(self.atom())
                n = r.choice(list(self.vlists))
                k = self.vlists[n] - (r.random() < 0.03)
                es.append(call(self.nm(n), [num(r.randrange(8))] * min(k, 1) + [num(4) if self.scope else self.now(self.atom) if says else self.atom() for _ in range(k - 1)]))
            self.defs, self.have = dd
            return [[echo(*es) if says else data(r.choice([2, 3]), *es)]]
        es = [one() for _ in range(r.choice([1, 1, 2]))]
        x = r.random()
        if x < 0.6: return [[data(r.choice([2, 3]), *es)]]
        if x < 0.7: return [[ins("LD", "HL", ("*", es[0]))]]
        return [[data(3, *es)]]

    def s_undef(self):
        x = list(self.defs) + list(self.lists)
        if not x: return self.s_define()
        n = self.r.choice(x)
        if n in self.defs: self.wasdef.add(n)
        self.defs.pop(n, None); self.lists.pop(n, None)
        return [[undef(self.nm(n))]]
    def s_func(self):
        r = self.r
        n = r.choice(FUNCS)
        if n in self.funcs: return self.s_ins()
        ps = r.sample(self.params, r.choice([1, 1, 2]))
        old, self.scope = self.scope, ps
        e = self.expr()
        self.scope = old
        self.funcs[n] = len(ps)
        return [[define(self.nm(n), be(e), ps)]]

    def s_macro(self):
        r = self.r
        n = r.choice(MACROS)
        if n in self.macros or n in self.smacros or self.inside: return self.s_call()
        ps = r.sample(self.params, r.choice([0, 1, 1, 2, 3]))
        old, self.scope = self.scope, ps
        self.inside.append("macro")
        ow, self.w = self.w, {k: v for k, v in self.w.items() if k in ("ins", "data", "blank", "if", "reus", "fill", "call", "echo", "error", "minc")}
        orf = self.o["reus"]
        self.mlev = 0
        if r.random() < 0.3:
            b = [x for ln in self.block(r.randrange(1, 4)) for x in ln if x["k"] in ("ins", "data", "fill") or x["k"] == "call" and not ow.get("minc")]
            d = [[define(self.nm(n), bs(*b) if b else NB, ps)]]
        else:
            d = [[macro(self.nm(n), ps)]] + self.block(r.randrange(1, 5)) + [[dict(ENDM)]]
        self.w, self.o["reus"] = ow, orf
        self.inside.pop()
        self.scope = old
        self.macros[n] = len(ps)
        self.level[n] = self.mlev + 1
        return d
    def s_call(self):
        if not self.macros: return self.s_macro() if not self.inside else self.s_ins()
        nested = "macro" in self.inside
        ms = [m for m in self.macros if not nested or self.level[m] < 3]
        if not ms: return self.s_ins()
        n = self.r.choice(ms)
        if nested: self.mlev = max(self.mlev, self.level[n])
        k = self.macros[n]
        if self.chance(self.o["err"]): k += self.r.choice([-1, 1])
        if nested:            # the size of arguments grows with the power of the level
            return [[mcall(self.nm(n), *[self.chain(self.atom(), "&", num(255)) if self.r.random() < 0.5 else self.atom() for _ in range(max(k, 0))])]]
        c = mcall(self.nm(n), *[self.e8() if self.r.random() < 0.8 else self.expr() for _ in range(max(k, 0))])
        return [[c]]

    def s_include(self):
        if len(self.extra) >= 3 or "macro" in self.inside: return self.s_ins()
        n = "inc%d.inc" % len(self.extra)
        self.extra.append(None)
        i = len(self.extra)
        oi, self.inside = self.inside, []
        ls = self.block(self.r.randrange(0, 6))
        self.inside = oi
        self.extra[i - 1] = (n, ls)
        return [[include(i + 1, n)]]
    def s_minc(self):
        """A file of (code within) a macro: read anew by every call, with the arguments of the call."""
        if len(self.extra) >= 3 or "macro" not in self.inside: return self.s_ins()
        n = "part%d.inc" % len(self.extra)
        self.extra.append(None)
        i = len(self.extra)
        ow, self.w = self.w, {k: v for k, v in self.w.items() if k != "minc"}
        ls = self.block(self.r.randrange(0, 5))
        self.w = ow
        self.extra[i - 1] = (n, ls)
        return [[include(i + 1, n)]]
    def s_import(self):
        self.nimp += 1
        n = "blob%d.bin" % self.nimp
        return [[import_(1, [self.r.randrange(256) for _ in range(self.r.randrange(0, 9))], n)]]
    def s_echo(self):
        r = self.r
        its = [self.string(*r.choice([(1, 5), (1, 9)])) if r.random() < 0.4 else self.expr(1) for _ in range(r.randrange(1, 4))]
        if self.o["fname"] and self.chance(self.o["fname"]): its.append(sym(self.nm("__FILE")))
        its = [str_([c for c in x["b"] if c] or [65]) if x["k"] == "str" else x for x in its]
        return [[echo(*its)]]
    def s_error(self): return [[error(str_("boo"), self.now(lambda: self.expr(1)))]]
    def s_list(self): return [[dict(self.r.choice([LIST, NOLIST]))]]
    def s_wr(self):
        r = self.r
        out = []
        if r.random() < 0.5: out.append([buf(num(r.randrange(10)))])
        for _ in range(r.randrange(1, 4)):
            x = r.random()
            dd, self.defs = self.defs, {}
            e = [self.now(lambda: self.expr(1))]
            self.defs = dd
            if x < 0.4: out.append([wr([data(2, hole(1), num(3))], *e)])
            elif x < 0.7: out.append([wr([ins("LD", "HL", ("*", hole(1)))], *e)])
            else: out.append([wr([self.instr_plain()])])
        if r.random() < 0.8: out.append([dict(RUN)])
        elif r.random() < 0.3: out.append([dict(CLR)])
        return out
    def instr_plain(self):
        return self.r.choice([ins("NOP"), ins("LD", "A", ("*", num(5))), data(1, str_("a;b"), num(2)), ins("INC", "IX+" and ("IX+", ch(num(0), ("+", num(4)))))])
    def s_unknown(self):
        r = self.r
        x = r.random()
        if x < 0.3: return [[bad("SE113", r.choice(["frobnicate a,b", "xyzzy", "nop2 (hl)", "ldx a,5"]))]]
        if x < 0.5: return [[bad("SE111", r.choice(["#foo", "#definex a 1"]))]]
        if x < 0.6: return [[bad("SE113", r.choice([".bogus 1", ".wordy"]))]]
        if x < 0.8: return [[r.choice([ins("LD", "I", "B"), ins("PUSH", "A"), ins("EX", "DE", "BC"), ins("ADD", "IX", "HL"), ins("JR", "PO", ("*", num(5))),
                                       ins("JR", "PE", ("*", dict(PC))), ins("SUB", "HL"), ins("SBC", "IX", "BC"), ins("LD", "IXH", "IYL")])]]
        if x < 0.9: return [[import_(0, [], "nosuch.bin")]]
        return [[include(0, "nosuch.inc")]]

    # faulty statements
    def s_fault(self):
        r = self.r
        x = r.random()
        if x < 0.25:
            return [[bad(*r.choice([("SE119", "5"), ("SE119", "!foo"), ("SE119", "(hl)"), ("SE119", ",a"), ("SE119", "1abc: nop"), ("SE111", "#"), ("SE111", "# define x 5"),
                                    ("SE113", "."), ("SE113", ". db 1"), ("SE122", "#define"), ("SE122", "#undef"), ("SE122", "#undefine"), ("SE122", "#macro"), ("SE126", ".addinstr"),
                                    ("SE126", ".addinstr ABC"), ("SE126", ".addinstr ABC A,B"), ("SE126", ".addinstr ABC A,B 3C"), ("SE125", ".assume"), ("SE125", ".assume foo=1"),
                                    ("SE109", ".echo > "), ("SE109", ".echo >> "), ("SE002", '.echo > /dev/null/no "x"'), ("SE002", ".echo >> /dev/null/no 5")]))]]
        if x < 0.35: return [[bad("E", r.choice(["#include", "#import", "#define zz9(a"]))]]
        if x < 0.37: return [[bad("F", r.choice(["#define f(a,b,a) a", "#macro f(x,y,y)", "#define f(" + ",".join("a%d" % i for i in range(17)) + ") 1"]))]]
        if x < 0.45: return [[ifnone(r.choice(["ifdef", "ifndef"]))]]
        if x < 0.6:
            out = [[if_(dict(MISS)) if r.random() < 0.5 else if_(self.cond())]] + self.block(r.randrange(3))
            if r.random() < 0.5: out += [[elif_(dict(MISS))]] + self.block(r.randrange(3))
            if r.random() < 0.5: out += [[dict(ELSE)]] + self.block(r.randrange(3))
            return out + [[dict(ENDIF)]]
        m = dict(MISS)
        return [[r.choice([data(r.randrange(1, 4), num(1), m, num(2)), data(1, m), data(2, m, num(3)), data(2, num(5), m), org(m), seek(m), fill(m), fill(m, num(3)),
                           echo(str_("a"), m, num(5)), echo(m, num(5)), error(m)])]]

    # declared instructions: (mnemonic, operand tokens, operand text, bytes, wildcard width, end byte)
    def s_addi(self):
        r = self.r
        m = r.choice(["FOO2", "XLD", "TWO", "LD", "ADD", "NOP", "PUSH", "JP", "swapn", "MUL", "CCF", "RET", "SET"])
        toks = r.choice([["*"], ["A", "*"], ["HL", "*"], ["(*)", "A"], ["HL", "BC"], ["A"], ["(HL+)"], ["A", "(HL-)"], ["(HL+)", "*"], ["B", "C", "D"], ["*", "HL"],
                         ["IX"], ["AF", "HL"], ["(DE)", "*"], [], []])
        wild = any("*" in t for t in toks)
        w = r.choice([1, 2]) if wild else 0
        opc = [r.randrange(256) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        end = [r.randrange(256)] if r.random() < 0.25 else []
        size = len(opc) + w + len(end)
        es = [["b", b] for b in reversed(opc)]
        for i, t in enumerate(toks):
            if "*" in t: es.append(["n8" if w == 1 else "nn", i + 1])
        es += [["b", b] for b in end]
        ops = ",".join(self.case(t) for t in toks)
        if not ops or r.random() < 0.3: ops = '"' + ops + '"'
        text = m + " " + ops + r.choice([" ", "\t", "  "]) + \
            "".join(("%02X" if r.random() < 0.5 else "%02x") % b for b in opc) + " %d" % size
        if end: text += r.choice([" NOP 1 %02X", " NOTOUCH 2 %02x"]) % end[0]
        elif r.random() < 0.4: text += r.choice([" NOP", " NOP 1"])
        self.decl.append((m.upper(), toks))
        return [[addi(m.upper(), toks, es, text)]]
    def case(self, s): return self.r.choice([s, s.lower()])
    def s_useadd(self):
        r = self.r
        if not self.decl: return self.s_addi()
        m, toks = r.choice(self.decl)
        if r.random() < 0.2: toks = r.choice(self.decl)[1]
        if toks and r.random() < 0.15 and not any("+" in t or "-" in t for t in toks): toks = toks[:r.randrange(len(toks))] + ["A"]
        os = []
        for t in toks:
            if t == "*":
                e = self.e8() if r.random() < 0.7 else self.e16()
                os.append(("(*)" if e["k"] == "par" else "*", e))
            elif t == "(*)": os.append(("(*)", par(self.e8() if r.random() < 0.7 else self.e16())))
            else: os.append(t)
        return [[ins(m, *os)]]

    def s_show(self):
        x = [n for n in self.defs if n not in self.spliced] + list(self.funcs)
        if not x or self.chance(0.1):
            n = self.r.choice(DEFS)
            if n in self.spliced: return self.s_ins()
            self.shown.add(n)
            return [[show(self.nm(n))]]
        return [[show(self.nm(self.r.choice(x)))]]
    def s_defcont(self):
        """A define, continued."""
        r = self.r
        n = r.choice(DEFS)
        if n in self.defs or n in self.lists or n in self.funcs or n in self.shown: return self.s_ins()
        x = r.random()
        nm = self.nm(n)
        self.spliced.add(n)
        if x < 0.5:
            out = [[define(nm, be(self.expr(1)))]]
            for _ in range(r.randrange(1, 4)): out.append([defcont(r.choice("+-|&^*"), self.atom())])
            self.defs[n] = 1
        else:
            out = [[define(nm, bi(num(r.randrange(256)), num(r.randrange(256))))]]
            for _ in range(r.randrange(1, 4)): out.append([defcont(",", *[self.e8() if r.random() < 0.7 else self.string(1, 4) for _ in range(r.randrange(1, 3))])])
            if n in self.wasdef: return self.s_ins()
            self.lists[n] = 1
        return out
    def s_concat(self):
        """A number or a name, put together from pieces."""
        r = self.r
        n = r.choice(DEFS)
        if n in self.lists or n in self.funcs or n in self.shown or n in self.defs and r.random() < 0.5: return self.s_ins()
        out = []
        def text(t): return dict(str_([ord(c) for c in t]), x=t)
        def digits(): return "".join(r.choice("0123456789") for _ in range(r.randrange(1, 3)))
        def piece(t):
            x = r.random()
            if x < 0.5: return text(t)
            c = "cp%d" % r.randrange(3)
            if x < 0.75 or not t.isalnum() or t[0].isdigit() and not t.isdigit(): b = bi(text(t))
            elif t.isdigit(): b = be({"k": "lit", "b": 10, "d": t})
            else: b = be(sym(t))
            if c in made: return text(t)
            made.add(c)
            out.append([define(c, b)])
            return sym(c)
        made = set()
        if r.random() < 0.5 or not self.have:
            ps = [piece(digits()) if r.random() < 0.6 else self.count(r) for _ in range(r.randrange(1, 4))]
            if all(p["k"] not in ("str", "sym") for p in ps) and r.random() < 0.5: ps.append(text("7"))
        else:
            l = r.choice(self.have)
            if not all(c.isalnum() or c == "_" for c in l) or self.nm(l) != l and self.o["case"]: l = ""
            if not l: return self.s_ins()
            k = sorted(r.randrange(len(l) + 1) for _ in range(r.randrange(1, 3)))
            ts = [t for t in [l[a:b] for a, b in zip([0] + k, k + [len(l)])] if t]
            ps = [num(int(t)) if t.isdigit() and str(int(t)) == t and r.random() < 0.6 else piece(t) for t in ts]
        out.append([define(self.nm(n), bconcat(*ps))])
        for c in made: out.append([undef(c)])
        self.spliced.add(n)
        self.defs[n] = 1
        return out
    def count(self, r):
        """An expression that is a small number."""
        v = r.randrange(100)
        x = r.random()
        return num(v) if x < 0.4 else ch(num(v), (r.choice("+*|"), num(r.randrange(9)))) if x < 0.8 else par(ch(num(v), ("==", num(v))))
    def s_redef(self):
        """A list that is redefined by way of its own contents."""
        r = self.r
        x = [n for n in self.lists if n not in self.shown]
        if not x: return self.s_defcont()
        n = r.choice(x)
        self.spliced.add(n)
        its = [num(r.randrange(256)) for _ in range(r.randrange(0, 2))] + [sym(self.nm(n))] + [num(r.randrange(256)) for _ in range(r.randrange(0, 2))]
        if len(its) == 1: its.append(num(1))
        return [[define(self.nm(n), bi(*its))]]
    def s_echof(self):
        """Text to files (without forward references)."""
        r = self.r
        dd = self.defs, self.have
        self.defs, self.have = {}, self.sure
        its = [self.string(*r.choice([(1, 5), (1, 9)])) if r.random() < 0.4 else self.now(lambda: self.expr(1)) for _ in range(r.randrange(1, 4))]
        self.defs, self.have = dd
        its = [str_([c for c in x["b"] if c] or [65]) if x["k"] == "str" else x for x in its]
        return [[echo(*its, tg=r.choice(["log.txt", "b.out", "log.txt"]), ap=r.random() < 0.6)]]

    def block(self, n):
        out = []
        ks = [k for k in self.w if self.w[k] > 0]
        ws = [self.w[k] for k in ks]
        for _ in range(n):
            k = self.r.choices(ks, ws)[0]
            old, self.o["lnum"] = self.o["lnum"], self.o["lnum"] * (k in ("ins", "data"))     # defines of defines of ... take for ever
            loop, self.o["loop"] = self.o["loop"], self.o["loop"] * (k in ("ins", "data", "echo", "call"))
            out += getattr(self, "s_" + k)()
            self.o["lnum"] = old
            self.o["loop"] = loop
        return out

    def lines(self, n):
        out = self.block(n)
        # define most of what was promised
        keep = self.todo if self.chance(1 - self.o["undef"]) else self.todo[1:]
        for l in list(keep):
            out.append([lab(self.nm(l))])
            if self.chance(0.4): out.append([self.instr()])
        if self.o["reus"]: out += [[dict(REUS)] for _ in range(3)]
        return out


def join(r, lines, p):
    """Put consecutive statements on one line."""
    out = []
    def mergeable(l): return l and not any(s["k"] in SOLE or s["k"] == "val" or s.get("own") or last_only(s) or s["k"] in ("error", "echo", "define", "undef", "show", "defcont", "import") for s in l)
    depth = 0
    for l in lines:
        if any(s["k"] == "macro" for s in l): depth += 1
        if out and mergeable(out[-1]) and mergeable(l) and r.random() < p and len(out[-1]) + len(l) < 6:
            out[-1] = out[-1] + l
        else: out.append(list(l))
    return out


def make(rng, n, w=None, cs=False, ez=False, noise=0.6, joinp=0.15, tl=True, cc=False, dd=(), **o):
    g = Gen(rng, w, ez, **o)
    ls = g.lines(n)
    ls = join(rng, ls, joinp)
    p = program(ls, cs=cs, ez=ez, cc=cc, tl=tl, dd=dd, extra=[(n, join(rng, l, joinp)) for n, l in g.extra])
    st = Style(rng, noise)
    st.program(p)
    if g.got: p["got"] = g.got
    p["lex"] = {}
    if noise:
        if rng.random() < 0.15: p["lex"]["eol"] = "\r\n"
        if rng.random() < 0.1: p["lex"]["bom"] = 1
        if rng.random() < 0.15: p["lex"]["nofinal"] = 1
    return p


def spread(r, p, relative=False):
    """Put the files of a program into directories that are searched in some order."""
    cand = ["d1", "d2", "sub", "d1/in", "none"]
    r.shuffle(cand)
    cand = cand[:r.randrange(0, 5)]
    form = r.choice(["cwd", "cwd", "rel"] + ([] if relative else ["abs", "abscwd"]))
    main = {"cwd": "in.asm", "rel": "src/in.asm", "abs": "src/in.asm", "abscwd": "in.asm"}[form]
    home = "src" if form == "abs" else ""
    dirs = [{"d": home, "at": home}]
    opts, group = [], []
    def flush():
        if not group: return
        t = r.choice(";,").join(group)
        opts.extend(["-I" + t] if r.random() < 0.5 else ["-I", t])
        del group[:]
    for d in cand:
        x = r.random()
        if x < 0.15: o, d1 = d + "/", d + "/"
        elif x < 0.25: o, d1 = "./" + d, "./" + d
        elif x < 0.4 and not relative: o, d1 = "{D}/" + d, d
        else: o = d1 = d
        dirs.append({"d": d1, "at": d})
        if r.random() < 0.4: flush()
        group.append(o)
    flush()
    p["dirs"], p["bins"] = dirs, []
    p["main"] = ("{D}/" if form.startswith("abs") else "") + main
    p["opts"] = opts
    p["files"][0]["n"] = p["files"][0]["p"] = main
    have = {main}
    def j(d, n): return d + "/" + n if d else n
    def place(n):
        """Where to put a file: usually somewhere it is found; perhaps where it is not."""
        k = r.randrange(len(dirs)) if r.random() < 0.95 else -1
        at = dirs[k]["at"] if k >= 0 else "lost"
        rest = [d["at"] for d in dirs[k + 1:]] if k >= 0 else []
        return j(at, n), [j(d, n) for d in rest if r.random() < 0.5]
    names = {}
    for i, f in enumerate(p["files"][1:], 1):
        n = r.choice(["", "", "sub/", "d1/"]) + r.choice([f["n"], f["n"], "same.inc" if not any("same.inc" in x for x in names.values()) else f["n"]])
        names[f["n"]] = n
        f["p"], f["decoys"] = place(n)
        f["n"] = f["p"]
        have.add(f["p"])
    blobs = {}
    for f in p["files"]:
        for l in f["l"]:
            for s in l["s"]:
                if s["k"] == "include" and s["name"] in names:
                    new = names[s["name"]]
                    l["x"] = l["x"].replace(s["name"], new.replace("/", r.choice(["/", "\\"])))
                    s["name"] = new
                elif s["k"] == "import" and s["i"]:
                    n = r.choice(["", "", "sub/"]) + s["name"]
                    l["x"] = l["x"].replace(s["name"], n)
                    s["name"] = n
                    if n in blobs: continue
                    blobs[n] = 1
                    at, decoys = place(n)
                    for q, b in [(at, s["b"])] + [(q, [238] * 3) for q in decoys]:
                        if q not in have:
                            have.add(q)
                            p["bins"].append({"p": q, "b": b})
    for f in p["files"][1:]:
        for q in f.pop("decoys"):
            if q not in have:
                have.add(q)
                p["files"].append({"n": q, "p": q, "l": [{"s": [data(1, num(239))], "x": " .db 239"}]})
    return p
