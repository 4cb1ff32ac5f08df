"""Programs of spec/WlaAsm.tla: macros, loops, conditionals and definitions as source lines."""
import random, re
from gen_link import BIG

MODULE = "WlaAsm"
CPUS = ["z80", "gb", "6502", "65816", "8080", "huc6280", "spc700"]
BANK = 2048

# ------------------------------------------------------------------ expressions
# trees: ("n",v) ("d",name) ("a",i) ("qa",i) ("at",) ("nargs",) ("defd",name) ("len",ref) ("op",o,a,b) ("fn",o,a,b)


def rpn(e, out=None):
    out = [] if out is None else out
    k = e[0]
    if k == "n":
        out.append({"k": "n", "v": e[1]})
    elif k == "q":
        out.append({"k": "q", "v": e[1], "d": e[2]})
    elif k in ("d", "defd"):
        out.append({"k": k, "n": e[1]})
    elif k in ("a", "qa"):
        out.append({"k": k, "i": e[1]})
    elif k in ("at", "nargs"):
        out.append({"k": k})
    elif k == "len":
        out.append({"k": "len", "r": {"k": e[1][0], ("n" if e[1][0] == "d" else "i"): e[1][1]}})
    elif k == "lnot":
        rpn(e[1], out)
        out.append({"k": "o", "o": "lnot", "a": 1})
    else:
        for a in e[2:]:
            rpn(a, out)
        out.append({"k": "o", "o": e[1], "a": len(e) - 2})
    return out


def reft(ref):
    return ref[1] if ref[0] == "d" else "\\%d" % ref[1] if ref[0] == "a" else "?%d" % ref[1]


def text(r, e, top=True):
    k = e[0]
    if k == "n":
        v = e[1]
        return "$%X" % v if v >= 0 and r.random() < .2 else "%d" % v if v >= 0 else "(0-%d)" % -v
    if k == "q":
        return "%s" % (e[1] / e[2])
    if k == "d":
        return e[1]
    if k in ("a", "qa"):
        return reft(e)
    if k == "at":
        return "\\@"
    if k == "nargs":
        return r.choice(["NARGS", "NARGS", "nargs"])
    if k == "defd":
        return "defined(%s)" % e[1]
    if k == "len":
        return reft(e[1]) + ".length"
    if k == "lnot":
        return "!" + text(r, e[1], False)
    if k == "fn":
        return "%s(%s)" % (e[1], ", ".join(text(r, a) for a in e[2:]))
    s = r.choice(["%s%s%s", "%s%s%s", "%s %s %s"]) % (text(r, e[2], False), e[1], text(r, e[3], False))
    return s if top else "(" + s + ")"


class G:
    """one program"""

    def __init__(self, r, w, size):
        self.r, self.w = r, w
        self.prog = []
        self.nums = []          # numeric definitions that exist at the top level
        self.strs = []
        self.labs = []
        self.lats = []          # definitions worked out from labels
        self.macros = []
        self.used = 0
        self.budget = size
        self.uid = 0
        self.files = ["there.txt", "data.bin"]

    def new(self, p):
        self.uid += 1
        return "%s%d" % (p, self.uid)

    def add(self, t, **k):
        if t in ("def", "redef"):
            k.setdefault("exp", False)
        self.prog.append(dict(t=t, **k))

    # --- expressions
    def leaf(self, cx):
        r = self.r
        o = [("n", r.randrange(12)), ("n", r.randrange(12)), ("n", r.choice([15, 31, 64, 100]))]
        nums = self.nums + cx.get("idx", []) + cx.get("nnames", [])
        if nums:
            o += [("d", r.choice(nums))] * 4
        if cx.get("idx"):
            o += [("d", r.choice(cx["idx"]))] * 4
        if cx.get("kinds"):
            ks = [i + 1 for i, k in enumerate(cx["kinds"]) if k == "num"]
            if ks:
                o += [("a", r.choice(ks))] * 5
            if cx.get("nnames"):
                o += [("d", r.choice(cx["nnames"]))] * 4
            ks = [i + 1 for i, k in enumerate(cx["kinds"]) if k == "amp"]
            if ks:
                o += [("qa", r.choice(ks))] * 3
            ks = [a for a, k in zip(cx.get("argn", []), cx["kinds"]) if k == "str" and not cx.get("shiftok")]
            if ks and not cx.get("infn"):      # .length is documented for names, not for the numbered form
                o += [("len", ("d", r.choice(ks)))]
        if "kinds" in cx:
            o += [("nargs",), ("at",)]
        if self.strs and r.random() < .1:
            o += [("len", ("d", r.choice(self.strs)))]
        if cx.get("lateok") and r.random() < .25:
            return ("d", r.choice(self.labs + self.lats * 2 + self.late))
        if r.random() < self.w.get("undef", 0):
            return ("d", "NOSUCH%d" % r.randrange(3))
        return r.choice(o)

    def expr(self, cx, d=None):
        r = self.r
        d = r.choice([0, 0, 1, 1, 2]) if d is None else d
        if d == 0:
            return self.leaf(cx)
        o = r.choice(["+", "+", "-", "&", "|", "*", "~", "min", "max"])
        if o in ("min", "max"):
            cx = dict(cx, infn=True)
        a = self.expr(cx, d - 1)
        b = self.expr(cx, 0)
        if o == "*":
            return ("op", "*", a, ("n", r.randrange(1, 5)))
        if o in ("min", "max"):
            return ("fn", o, a, b)
        return ("op", o, a, b)

    def byte(self, cx):
        e = self.expr(cx)
        return e if self.r.random() < self.w.get("raw", .15) or e[0] == "n" else ("op", "&", e, ("n", self.r.choice([255, 15, 63])))

    def boolx(self, cx, d=None):
        r = self.r
        d = r.choice([0, 0, 0, 1, 2]) if d is None else d
        if d:
            return ("op", r.choice(["&&", "||"]), self.boolx(cx, d - 1), self.boolx(cx, 0))
        k = r.random()
        if k < .7:
            return ("op", r.choice(["==", "!=", "<", ">", "<=", ">="]), self.expr(cx, r.choice([0, 0, 1])), ("n", r.randrange(9)) if r.random() < .6 else self.leaf(cx))
        if k < .85:
            return ("defd", r.choice(self.nums + self.strs + ["NOSUCH1", "NOSUCH2"] + cx.get("names", [])))
        return self.expr(cx, 1)

    def string(self):
        r = self.r
        return [r.choice(b"abcXYZ 019") for _ in range(r.choice([1, 1, 2, 3, 5]))]

    # --- conditions
    def cond(self, cx):
        r = self.r
        k = r.random()
        if cx.get("kinds") is not None and k < .25:
            i = r.randrange(1, len(cx["kinds"]) + 2)
            if r.random() < .35 and i <= len(cx["kinds"]):
                return {"f": "type", "i": i, "ty": r.choice(["ARG_NUMBER", "ARG_STRING", "ARG_LABEL"])}
            return {"f": r.choice(["defm", "ndefm"]), "i": i if r.random() < .85 else r.choice([10, 11, 12, 20])}
        if k < .4:
            return {"f": r.choice(["def", "ndef"]), "n": r.choice(self.nums + self.strs + ["NOSUCH0", "NOSUCH1"] + cx.get("names", []) + cx.get("idx", []))}
        if k < .45:
            return {"f": "exists", "n": r.choice(self.files + ["missing.bin", "nodir/x"])}
        if k < .6:
            return {"f": "cmp", "o": r.choice(["==", "!=", "<", ">", "<=", ">="]), "a": {"k": "x", "e": self.expr(cx, r.choice([0, 0, 1]))},
                    "b": {"k": "x", "e": self.expr(cx, r.choice([0, 0, 1]))}}
        srefs = [("d", s) for s in self.strs] + [("a", i + 1) for i, kk in enumerate(cx.get("kinds") or []) if kk == "str"]
        if k < .7 and srefs:
            a = r.choice(srefs)
            same = r.random() < .4
            return {"f": "cmp", "o": r.choice(["==", "!=", "==", "!=", "<", ">", "<=", ">="]), "a": {"k": a[0], "n" if a[0] == "d" else "i": a[1]},
                    "b": {"k": "s", "s": self.lit_like(a) if same else self.string()}}
        return {"f": "x", "e": self.boolx(cx)}

    def lit_like(self, a):
        return self.sval.get(a[1], self.string()) if a[0] == "d" else self.string()

    sval = {}

    # --- statements
    def data(self, cx):
        r = self.r
        w = r.choice([1, 1, 1, 2])
        items = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.random()
            if k < .12 and w == 1:
                items.append({"k": "s", "s": self.string()})
            elif k < .2 and w == 1 and self.strs:
                items.append({"k": "d", "n": r.choice(self.strs)})
            elif k < .3 and cx.get("kinds"):
                i = r.randrange(len(cx["kinds"]))
                kk = cx["kinds"][i]
                if kk == "str":
                    w2 = 1
                    items = [x for x in items if not (w == 2 and x["k"] == "s")]
                    if w == 1:
                        items.append({"k": "qs", "i": i + 1} if r.random() < .2 else {"k": "a", "i": i + 1} if i >= len(cx["argn"]) or r.random() < .6 else {"k": "d", "n": cx["argn"][i]})
                elif kk == "lab" and w == 2:
                    items.append({"k": "a", "i": i + 1} if i >= len(cx["argn"]) or r.random() < .6 else {"k": "d", "n": cx["argn"][i]})
            elif k < .36 and w == 2 and self.labs:
                items.append({"k": "lab", "n": r.choice(self.labs), "at": False})
            elif k < .4 and w == 1 and "kinds" in cx:
                items.append({"k": "ats", "pre": self.string()})
            elif k < .42 and r.random() < self.w.get("late", 0):
                items.append({"k": "d", "n": r.choice(self.late)})
            else:
                lx = dict(cx, lateok=True) if r.random() < self.w.get("late", 0) else cx
                items.append({"k": "x", "e": self.byte(lx) if w == 1 else self.expr(lx)})
        if not items:
            items.append({"k": "x", "e": self.byte(cx)})
        self.add("data", w=w, items=items)

    late = ["LATE0", "LATE1"]

    def define(self, cx):
        r = self.r
        k = r.random()
        if self.w.get("late", 0) and r.random() < .1:
            n = self.new("L")
            self.add("def", n=n, ni=0, v={"k": "x", "e": self.expr(dict(cx, lateok=True), r.choice([0, 1, 1, 2]))})
            if not cx.get("cond"):
                self.lats.append(n)
            return
        if r.random() < self.w.get("enum", 0):
            if r.random() < .97:
                self.add("enumid", n="", v=r.randrange(20), step=r.choice([1, 1, 1, 2, 3, -1]), exp=r.random() < .4)
            self.en = True
            for _ in range(r.choice([1, 1, 2, 3])):
                n = self.new("E")
                self.add("enumid", n=n, v=0, step=0, exp=False)
                if not cx.get("cond"):
                    self.nums.append(n)
            return
        if k < .12:
            n = self.new("W") if r.random() < .9 or not self.nums else r.choice(self.nums)
            nv = r.choice(["x", "x", "s", "m", "nothing"])
            self.add("def", n=n, ni=0, v=self.value(cx, nv))
            if not cx.get("cond"):
                (self.nums if nv in ("x", "nothing") else self.strs).append(n)
                self.note(n, self.prog[-1]["v"])
        elif k < .2 and r.random() < self.w.get("undefine", .3):
            ns = [r.choice(self.nums + ["NOSUCH0"]) for _ in range(r.choice([1, 1, 2]))]
            self.add("undef", ns=ns)
            if not cx.get("cond"):
                self.nums = [x for x in self.nums if x not in ns]
        elif k < .3:
            if self.strs:
                n = r.choice(self.strs)
                self.add("redef", n=n, ni=0, v=self.value(cx, r.choice(["s", "m"])))
                self.note(n, self.prog[-1]["v"])
        elif k < .45:
            if r.random() < .35 or not getattr(self, "en", False):
                self.add("enumid", n="", v=r.randrange(20), step=r.choice([1, 1, 1, 2, 3, -1]), exp=r.random() < .35)
                self.en = True
            elif getattr(self, "en", False) or r.random() < .05:
                n = self.new("E")
                self.add("enumid", n=n, v=0, step=0, exp=False)
                if not cx.get("cond"):
                    self.nums.append(n)
        elif k < .6 and "amp" in (cx.get("kinds") or []):
            i = cx["kinds"].index("amp") + 1
            self.add("redef", n="", ni=i, v={"k": "x", "e": ("op", "&", ("op", "+", ("qa", i), self.leaf(cx)), ("n", 255))})
        else:
            ns = self.nums + [x for x in cx.get("nnames", [])]
            if not ns:
                return
            n = r.choice(ns)
            self.add("redef", n=n, ni=0, v={"k": "x", "e": ("op", "&", ("op", r.choice("+-+"), ("d", n), self.expr(cx, 0)), ("n", 255))
                                            if r.random() < .6 else ("op", "&", self.expr(cx, 1), ("n", 1023))})

    def note(self, n, v):
        if v["k"] == "s":
            self.sval = dict(self.sval)
            self.sval[n] = v["s"]

    def value(self, cx, k):
        r = self.r
        if k == "x":
            return {"k": "x", "e": ("op", "&", self.expr(cx), ("n", r.choice([255, 1023])))}
        if k == "s":
            return {"k": "s", "s": self.string()}
        if k == "m":
            return {"k": "m", "items": [r.choice([{"k": "x", "e": ("n", r.randrange(1, 256))}, {"k": "s", "s": self.string()},
                                                  {"k": "x", "e": ("op", "|", ("op", "&", self.leaf(cx), ("n", 126)), ("n", 1))}]) for _ in range(r.choice([2, 2, 3, 4]))]}
        return {"k": k}

    def ifchain(self, cx, depth):
        r = self.r
        c2 = dict(cx, cond=True)
        self.add("if", c=self.cond(cx))
        self.block(c2, depth - 1, r.choice([0, 1, 1, 2]))
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            e = self.boolx(cx)
            self.add("elif", c={"f": "x", "e": e})
            self.block(c2, depth - 1, r.choice([0, 1, 1, 2]))
        if r.random() < .5:
            self.add("else")
            self.block(c2, depth - 1, r.choice([0, 1, 1, 2]))
        self.add("endif")

    def loop(self, cx, depth):
        r = self.r
        inner = dict(cx, loop=True, cond=True, loops=cx.get("loops", 0) + 1)
        if r.random() < .65:
            k = r.random()
            hi = 4 if cx.get("loops", 0) == 0 else 3
            e = ("n", r.choice([0, 1, 1, 2, 2, 3, hi, hi + 1])) if k < .6 else ("op", "&", self.expr(cx, r.choice([0, 1])), ("n", 3))
            if k > .98:
                e = ("op", "-", ("n", 1), ("n", 3))
            idx = ""
            if r.random() < .55:
                idx = self.new("K")
                inner["idx"] = cx.get("idx", []) + [idx]
            self.add("rept", x=e, idx=idx)
            self.loopbody(inner, depth)
        else:
            n = self.new("V")
            up = r.random() < .5
            top = r.choice([0, 1, 2, 3, 4])
            self.add("redef", n=n, ni=0, v={"k": "x", "e": ("n", 0 if up else top)})
            x = ("op", "<", ("d", n), ("n", top)) if up else ("op", ">", ("d", n), ("n", 0))
            if r.random() < .3:
                x = ("op", "&&", x, self.boolx(cx, 0))
            self.add("while", c={"f": "x", "e": x})
            first = r.random() < .5 or True
            self.add("redef", n=n, ni=0, v={"k": "x", "e": ("op", "+" if up else "-", ("d", n), ("n", 1))})
            inner["idx"] = cx.get("idx", []) + [n]
            self.loopbody(inner, depth)

    def loopbody(self, inner, depth):
        r = self.r
        self.block(inner, depth - 1, r.choice([1, 1, 2, 2, 3]))
        if r.random() < self.w.get("exit", .3):
            k = r.choice(["break", "continue"])
            if r.random() < .85:
                self.add("if", c=self.cond(inner))
                if r.random() < .4:
                    self.block(inner, 0, 1)
                self.add(k)
                if r.random() < .3:
                    self.add("else")
                    self.block(inner, 0, 1)
                self.add("endif")
            else:
                self.add(k)
            self.block(inner, depth - 1, r.choice([0, 1, 1, 2]))
        self.add("endr")

    def call(self, cx):
        r = self.r
        ms = [m for m in self.macros if m["level"] < cx.get("level", 9)]
        if not ms:
            return
        m = r.choice(ms)
        self.callof(cx, m)

    def callof(self, cx, m, forced=None):
        r = self.r
        args = []
        n = len(m["kinds"])
        if m["var"]:
            n = r.randrange(m["min"], len(m["kinds"]) + 3)
        elif r.random() < .06 and not m.get("len"):
            n = max(0, n + r.choice([-1, 1]))
        for i in range(n):
            k = m["kinds"][i] if i < len(m["kinds"]) else "num"
            args.append(forced if forced is not None and i == 0 else self.arg(cx, k))
        self.add("call", n=m["n"], args=args, paren=r.random() < .35)

    def arg(self, cx, k):
        r = self.r
        passon = [i + 1 for i, kk in enumerate(cx.get("kinds") or []) if kk == k and k != "amp"]
        if passon and r.random() < .5:
            i = r.choice(passon)
            if k == "str":   # a string argument is pasted as text where its number stands
                return {"k": "qs", "i": i} if i > len(cx["argn"]) or r.random() < .5 else {"k": "d", "n": cx["argn"][i - 1]}
            if k == "num" or r.random() < .9:
                return {"k": "a", "i": i} if i > len(cx["argn"]) or r.random() < .6 else {"k": "d", "n": cx["argn"][i - 1]}
        if k == "num":
            return {"k": "x", "e": self.expr(cx)}
        if k == "str":
            if self.strs and r.random() < .4:
                return {"k": "d", "n": r.choice(self.strs)}
            return {"k": "s", "s": self.string()}
        if k == "lab" and self.labs:
            return {"k": "lab", "n": r.choice(self.labs)}
        if k == "amp" and self.nums:
            return {"k": "amp", "n": r.choice(self.nums)}
        return {"k": "x", "e": ("n", r.randrange(10))}

    def block(self, cx, depth, n):
        r = self.r
        for _ in range(n):
            if self.used >= self.budget:
                return
            self.used += 1
            ops = [("data", 5), ("define", self.w.get("define", 2)), ("call", self.w.get("call", 2))]
            if depth > 0:
                ops += [("if", self.w.get("if", 2)), ("loop", self.w.get("loop", 2) / (1 + 2 * cx.get("loops", 0)))]
            ops += [("print", .4), ("stop", self.w.get("stop", .02) if cx.get("cond") else 0)]
            if cx.get("kinds") is not None and cx.get("shiftok") and self.w.get("shift", .5):
                ops += [("shift", self.w.get("shift", .5))]
            if cx.get("kinds") is not None and not cx.get("loop"):
                ops += [("mlabel", .5)]
            if not cx.get("loop") and not cx.get("cond") and cx.get("kinds") is None:
                ops += [("label", .7)]
            k = r.choices([o for o, _ in ops], [x for _, x in ops])[0]
            if k == "data":
                self.data(cx)
            elif k == "define":
                self.define(cx)
            elif k == "call":
                self.call(cx)
            elif k == "if":
                self.ifchain(cx, depth)
            elif k == "loop":
                self.loop(cx, depth)
            elif k == "print":
                self.add("print", x=self.expr(cx))
            elif k == "stop":
                self.add("fail", code=r.choice([1, 1, 2]))
            elif k == "shift":
                self.add("shift")
            elif k == "label":
                n2 = self.new("lab")
                self.labs.append(n2)
                self.add("label", n=n2, at=False)
            elif k == "mlabel":
                n2 = self.new("ml")
                self.add("label", n=n2 + "_", at=True)
                if r.random() < .6:
                    self.add("data", w=2, items=[{"k": "lab", "n": n2 + "_", "at": True}])

    def macro(self, level):
        r = self.r
        n = self.new("MAC")
        kinds = [r.choice(["num", "num", "num", "str", "lab", "amp"]) for _ in range(r.choice([0, 1, 2, 2, 3, 4]))]
        var = r.random() < .35
        argn = []
        if kinds and r.random() < .55:
            for i in range(r.randrange(1, len(kinds) + 1)):
                # a name of the caller's, or of its own
                argn.append(r.choice(self.nums) if self.nums and r.random() < .25 and kinds[i] == "num" else self.new("P"))
            if len(set(argn)) != len(argn):
                argn = [self.new("P") for _ in argn]
        mn = r.randrange(0, len(kinds) + 1) if var else len(kinds)
        shift = var and r.random() < .6
        form = r.randrange(2)
        self.add("macro", n=n, args=argn, form=form)
        first = len(self.prog)
        m = {"n": n, "kinds": kinds, "var": var, "min": mn, "level": level, "len": True}
        base = kinds[:mn]
        cx = {"kinds": base, "argn": argn, "names": argn, "nnames": [a for a, k in zip(argn, base) if k == "num"],
              "level": level, "cond": True, "shiftok": False}
        rec = r.random() < self.w.get("rec", .12) and kinds and kinds[0] == "num" and not var
        self.block(cx, 2, r.choice([1, 1, 2, 3]))
        if rec:
            self.add("if", c={"f": "x", "e": ("op", ">", ("a", 1), ("n", 0))})
            self.callof(cx, dict(m, var=False), {"k": "x", "e": ("op", "-", ("op", "&", ("a", 1), ("n", 3)), ("n", 1))})
            self.add("endif")
            self.block(cx, 1, r.choice([0, 1]))
        elif var:
            sub = {"k": "data", "w": 1}
            num = [{"k": "x", "e": ("op", "&", ("a", 1), ("n", 255))}]
            if all(k == "num" for k in kinds):
                k = r.random()
                if k < .5:
                    if r.random() < .5:
                        self.add("rept", x=("nargs",), idx="")
                    else:
                        self.add("while", c={"f": "x", "e": ("op", ">", ("nargs",), ("n", 0))})
                    self.add("data", w=1, items=num + ([{"k": "x", "e": ("nargs",)}] if r.random() < .5 else []))
                    if r.random() < .5:
                        ms = [x for x in self.macros if x["level"] < level]
                        if ms:
                            self.callof(dict(cx, kinds=["num"], argn=[]), r.choice(ms))
                    self.add("shift")
                    self.add("endr")
                else:
                    for i in range(1, len(kinds) + 2):
                        self.add("if", c=r.choice([{"f": "defm", "i": i}, {"f": "x", "e": ("op", ">=", ("nargs",), ("n", i))}]))
                        self.add("data", w=1, items=[{"k": "x", "e": ("op", "&", ("a", i), ("n", 255))}])
                        self.add("endif")
            else:
                cx["shiftok"] = shift
                self.block(cx, 1, 2)
        self.add("endm")
        m["len"] = "('len'," in repr(self.prog[first:])
        self.macros.append(m)


def program(r, w, size):
    g = G(r, w, size)
    for _ in range(r.choice([1, 2, 3, 4])):
        n = g.new("N")
        g.add("def", n=n, ni=0, v={"k": "x", "e": ("n", r.choice([0, 1, 2, 3, 5, 7, 20, 200, 300]))})
        g.nums.append(n)
    for _ in range(r.choice([0, 1, 1, 2])):
        n = g.new("S")
        g.add("def", n=n, ni=0, v=g.value({}, r.choice(["s", "s", "m"])))
        g.strs.append(n)
        g.note(n, g.prog[-1]["v"])
    g.add("label", n="start", at=False)
    g.labs = ["start", "finish"]
    for i in range(r.choice(w.get("macros", [0, 1, 2]))):
        g.used = max(0, g.used - 4)
        g.macro(i)
        if r.random() < .4:
            g.block({}, 2, 1)
    g.used = 0
    while g.used < g.budget and len(g.prog) < 90:
        g.block({}, w.get("depth", 3), r.choice([1, 2, 3]))
        if g.used and r.random() < .25:
            break
    if r.random() < w.get("late", 0) and any(isinstance(x, dict) for x in g.prog):
        for n in g.late:
            if r.random() < .8:
                g.add("def", n=n, ni=0, v={"k": "x", "e": ("n", r.randrange(200))})
                if r.random() < .4:
                    g.add("data", w=1, items=[{"k": "x", "e": ("d", n)}])
                    g.add("redef", n=n, ni=0, v={"k": "x", "e": ("n", r.randrange(200))})
    g.add("label", n="finish", at=False)
    g.add("data", w=1, items=[{"k": "x", "e": ("n", 0xA5)}])
    use = []
    if r.random() < w.get("export", 0):
        ns = [n for n in dict.fromkeys(g.nums) if r.random() < .5]
        for n in ns:
            g.prog.insert(r.randrange(len(g.prog) // 2, len(g.prog) + 1) if r.random() < .3 else len(g.prog), {"t": "export", "n": n})
        if ns and r.random() < .8:
            use = [r.choice(ns) for _ in range(r.choice([1, 2, 3]))]
        for s in g.prog:
            if s["t"] in ("def", "redef") and s["v"]["k"] in ("x", "s") and r.random() < .15:
                s["exp"] = True
                if r.random() < .4 and s["n"] in g.nums:
                    use.append(s["n"])
            if s["t"] == "enumid" and s["n"] and r.random() < .3:
                use.append(s["n"])
        es = [s["n"] for s in g.prog if s["t"] == "enumid" and s["n"]]
        use = [r.choice(es)] if es and r.random() < .5 else use[-6:]
        if r.random() < .15:
            use.append(r.choice(g.nums + ["NOSUCH0"]))
        if g.labs and r.random() < .3:
            use.append(r.choice(g.labs))
    bal = True
    whole = list(g.prog)
    if r.random() < w.get("unbal", .04):
        bal = False
        k = r.randrange(len(g.prog))
        if r.random() < .5:
            ks = [i for i, s in enumerate(g.prog) if s["t"] in ("endif", "endr", "endm", "else", "if", "rept", "while")]
            if ks:
                del g.prog[r.choice(ks)]
        else:
            g.prog.insert(k, {"t": r.choice(["endif", "endr", "else", "break", "continue", "endm", "shift"])})
        if afterelse(g.prog):
            g.prog, bal = whole, True
    return {"prog": g.prog, "cpu": r.choice(w.get("cpus", CPUS)), "fill": r.choice([0, 0, 255, 0xE7]), "files": g.files, "bal": bal, "use": use}


def afterelse(prog):
    """does another branch follow an .ELSE of the same chain? What that means is nowhere said"""
    open_ = []
    for s in prog:
        t = s["t"]
        if t == "if":
            open_.append(False)
        elif t == "endif" and open_:
            open_.pop()
        elif t in ("else", "elif") and open_:
            if open_[-1]:
                return True
            open_[-1] = t == "else"
    return False


# ------------------------------------------------------------------ rendering
def q(s):
    return '"' + "".join(chr(c) for c in s) + '"'


def item(r, t):
    k = t["k"]
    if k == "x":
        return text(r, t["e"])
    if k == "s":
        return q(t["s"])
    if k == "ats":
        return '"%s\\@"' % "".join(chr(c) for c in t["pre"])
    if k == "lab":
        return t["n"] + ("\\@" if t.get("at") else "")
    if k == "amp":
        return "&" + t["n"]
    if k == "qs":
        return '"\\%d"' % t["i"]
    return reft((k, t["n"] if k == "d" else t["i"]))


CMPD = {"==": "IFEQ", "!=": "IFNEQ", "<": "IFLE", ">": "IFGR", "<=": "IFLEEQ", ">=": "IFGREQ"}


def condt(r, c, kw):
    """-> text after the dot"""
    f = c["f"]
    if f == "x":
        return kw + " " + text(r, c["e"])
    if f == "type":
        return kw + " \\?%d == %s" % (c["i"], c["ty"])
    if f == "def":
        return "IFDEF " + c["n"] if r.random() < .7 else "IF defined(%s)" % c["n"]
    if f == "ndef":
        return "IFNDEF " + c["n"] if r.random() < .7 else "IF !defined(%s)" % c["n"]
    if f == "defm":
        return "IFDEFM \\%d" % c["i"]
    if f == "ndefm":
        return "IFNDEFM \\%d" % c["i"]
    if f == "exists":
        return 'IFEXISTS "%s"' % c["n"] if r.random() < .6 else 'IF exists("%s")' % c["n"]
    a, b = item(r, c["a"]), item(r, c["b"])
    if c["a"]["k"] == "x":
        if r.random() < .75:
            return "%s %s %s" % (CMPD[c["o"]], a.replace(" ", ""), b.replace(" ", ""))
        return "IF %s %s %s" % (text(r, c["a"]["e"], False), c["o"], text(r, c["b"]["e"], False))
    if c["o"] in ("==", "!=") and r.random() < .6:
        return "IF %s %s %s" % (a, c["o"], b)
    return "%s %s %s" % (CMPD[c["o"]], a, b)


def case(r, s):
    k = r.randrange(8)
    return s.lower() if k == 0 else s


def line(r, s):
    t = s["t"]
    def D(w):
        a, sp, b = w.partition(" ")
        return "." + (a.lower() if r.random() < .15 else a) + sp + b
    if t == "data":
        w = D(r.choice(["DB", "DB", "BYT", "BYTE"]) if s["w"] == 1 else r.choice(["DW", "DW", "WORD"]))
        return w + " " + r.choice([", ", ",", ", "]).join(item(r, x) for x in s["items"])
    if t in ("def", "redef"):
        n = s["n"] or "\\%d" % s["ni"]
        w = D(r.choice(["DEFINE", "DEF", "EQU"]) if t == "def" else r.choice(["REDEFINE", "REDEF"]))
        v = s["v"]
        if v["k"] == "nothing":
            return "%s %s" % (w, n)
        vt = ", ".join(item(r, x) for x in v["items"]) if v["k"] == "m" else item(r, v)
        return "%s %s%s%s%s" % (w, n, r.choice([" = ", " ", " "]), vt, " EXPORT" if s.get("exp") else "")
    if t == "undef":
        return D(r.choice(["UNDEFINE", "UNDEF"])) + " " + ", ".join(s["ns"])
    if t == "enumid":
        if s["n"]:
            return D("ENUMID") + " " + s["n"]
        return D("ENUMID") + " %d" % s["v"] + ("" if s["step"] == 1 and r.random() < .7 else " STEP %d" % s["step"]) + (" EXPORT" if s["exp"] else "")
    if t == "label":
        return s["n"] + ("\\@" if s["at"] else "") + ":"
    if t == "export":
        return D("EXPORT") + " " + s["n"]
    if t == "print":
        return D("PRINT") + ' "#", DEC %s, "\\n"' % text(r, s["x"])
    if t == "fail":
        return D("FAIL") + r.choice(["", ' "stop"'])
    if t == "if":
        return D(condt(r, s["c"], "IF"))
    if t == "elif":
        return D(condt(r, s["c"], "ELIF"))
    if t in ("else", "endif", "endr", "break", "continue", "endm", "shift"):
        return D(t.upper())
    if t == "rept":
        return D(r.choice(["REPT", "REPEAT"])) + " " + text(r, s["x"]) + (" INDEX " + s["idx"] if s["idx"] else "")
    if t == "while":
        return D("WHILE") + " " + text(r, s["c"]["e"])
    if t == "macro":
        if s["args"]:
            return D("MACRO") + " " + s["n"] + (" ARGS " + ", ".join(s["args"]) if s["form"] == 0 else "(" + ", ".join(s["args"]) + ")")
        return D("MACRO") + " " + s["n"]
    if t == "call":
        a = [item(r, x) for x in s["args"]]
        if s["paren"]:
            return "%s(%s)" % (s["n"], ", ".join(a))
        if a and a[0].startswith("("):
            a[0] = "0+" + a[0]
        return s["n"] + (" " + r.choice([", ", ",", ", "]).join(a) if a else "")
    raise ValueError(t)


def render(c, r):
    out = [".MEMORYMAP", "DEFAULTSLOT 0", "SLOT 0 START $%X SIZE $%X" % (c.get("base", 0), BANK), ".ENDME", ".ROMBANKMAP", "BANKSTOTAL 1",
           "BANKSIZE $%X" % BANK, "BANKS 1", ".ENDRO", ".EMPTYFILL $%X" % c["fill"], ".BANK 0 SLOT 0", ".ORG 0"]
    ind = 0
    for s in c["prog"]:
        t = s["t"]
        ln = line(r, s)
        if t in ("endif", "endr", "endm", "else", "elif"):
            ind = max(0, ind - 1)
        if t != "label":
            ln = "  " * ind + (r.choice(["", "", " "]) if t != "call" else " ") + ln
        if t in ("if", "rept", "while", "macro", "else", "elif"):
            ind += 1
        k = r.random()
        if k < .06:
            ln += r.choice(["  ; note", " ; .ENDIF .ENDR", " ; x"])
        elif k < .1:
            out.append(r.choice(["", "; .IF 1", "   "]))
        out.append(ln)
    return "\n".join(out) + "\n"


def to_job(c, seed):
    r = random.Random(seed)
    src = render(c, r)
    files = {"m.s": src, "link": "[objects]\nm.o\n", "there.txt": "x", "data.bin": "y"}
    steps = [["wla-" + c["cpu"], "-o", "m.o", "m.s"]]
    if c["use"]:
        files["u.s"] = "\n".join(src.split("\n")[:12]).replace(".ORG 0", ".ORG $%X" % USES) + "\n" + "\n".join(" .DW " + n for n in c["use"]) + "\n"
        files["link"] = "[objects]\n" + r.choice(["m.o\nu.o\n", "u.o\nm.o\n"])
        steps.append(["wla-" + c["cpu"], "-o", "u.o", "u.s"])
    return {"files": files, "steps": steps + [["wlalink", "link", "out.rom"]], "collect": ["out.rom", "m.o"]}


USES = BANK - 32
_pr = re.compile(rb"#(-?\d+)\n")


def observe(c, res):
    rcs = res["rcs"]
    ok = rcs == [0] * (3 if c["use"] else 2)
    rom = res["files"].get("out.rom")
    msg = b" ".join(res["outs"])[-160:].decode("latin-1").replace("\n", " ").replace('"', "'").replace("|", "/").replace("\\", "/")
    o = {"ok": ok, "crash": any(x < 0 for x in rcs), "rom": [], "uses": [], "prints": [], "msg": msg}
    if ok:
        if rom is None or len(rom) != BANK:
            o["ok"], o["crash"], o["msg"] = True, True, "no ROM or wrong size"
        else:
            n = 2 * len(c["use"])
            o["uses"] = list(rom[USES:USES + n])
            rom = rom[:USES] + bytes([c["fill"]]) * n + rom[USES + n:]
            o["rom"] = list(rom.rstrip(bytes([c["fill"]])))
        o["prints"] = [int(x) for x in _pr.findall(res["outs"][0])]
    return o


def fin(x):
    """trees to tokens"""
    if isinstance(x, dict):
        return {("x" if k == "e" else k): (rpn(v) if k == "e" or (k == "x" and isinstance(v, tuple)) else fin(v)) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [fin(v) for v in x]
    return x


def once(prog):
    """names given at most one definition, outside macros and loops"""
    n, t, b = {}, 0, set()
    for s in prog:
        t += {"macro": 1, "rept": 1, "while": 1, "endm": -1, "endr": -1}.get(s["t"], 0)
        if s["t"] in ("def", "redef", "enumid") and s["n"]:
            n[s["n"]] = n.get(s["n"], 0) + 1
            if t > 0:
                b.add(s["n"])
        if s["t"] == "undef":
            b.update(s["ns"])
        if s["t"] == "macro":
            b.update(s["args"])
        if s["t"] == "rept" and s["idx"]:
            b.add(s["idx"])
    return sorted(k for k, v in n.items() if v == 1 and k not in b)


def to_tla(cid, c, obs):
    return {"id": cid, "prog": [fin(s) for s in c["prog"]], "files": c["files"], "bal": c["bal"], "once": once(c["prog"]), "use": c["use"], "fill": c["fill"], "base": c.get("base", 0), "obs": obs}


# ------------------------------------------------------------------ profiles
def p_macro(r, i):
    return program(r, {"macros": [1, 2, 2, 3, 4], "call": 6, "loop": 1, "if": 1.5, "define": 1.2, "rec": .2}, 14)


def p_loop(r, i):
    return program(r, {"macros": [0, 0, 1], "loop": 6, "if": 1.5, "exit": .45, "define": 1.5}, 12)


def p_cond(r, i):
    return program(r, {"macros": [0, 1, 2], "loop": .6, "if": 7, "define": 2, "unbal": .1, "stop": .15}, 18)


def p_defs(r, i):
    return program(r, {"macros": [0, 1], "loop": 1, "if": 2, "define": 8, "undefine": .8, "late": .5, "undef": .02, "export": .4, "enum": r.choice([0, .15, .3])}, 20)
