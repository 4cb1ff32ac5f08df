"""Cases of spec/WlaCalc.tla: labels at known places, expressions as they are written, fields."""
import math, random
from fractions import Fraction
from run import run_jobs
from gen_link import BIG, clean

MODULE = "WlaCalc"
LIM = 1 << 30
WD = {"8": ".DB", "16": ".DW", "24": ".DL", "32": ".DD"}
SZ = {"8": 1, "r8": 1, "16": 2, "r16": 2, "24": 3, "32": 4, "if": 1}
INS = {
    "z80": [("8", "ld a, {}", [0x3E]), ("16", "ld hl, {}", [0x21]), ("8", "ld b, {}", [0x06]), ("8", "cp {}", [0xFE])],
    "gb": [("8", "ld a, {}", [0x3E]), ("16", "ld hl, {}", [0x21])],
    "6502": [("8", "lda #{}", [0xA9]), ("16", "lda.w {}", [0xAD]), ("8", "ldx #{}", [0xA2])],
    "65816": [("8", "lda.b #{}", [0xA9]), ("16", "lda.w {}", [0xAD]), ("24", "lda.l {}", [0xAF]), ("16", "ldx.w #{}", [0xA2])],
    "6800": [], "68000": [], "spc700": [], "huc6280": [], "8080": [], "6809": [],
}


class Reject(Exception):
    pass


# ------------------------------------------------------------ expressions as trees
# ("n", v) ("q", v, fd) ("l", name) ("b", name) ("bb", name) ("d", name) ("defd", name) ("cur", what)
# ("un", o, x) ("op", o, a, b) ("fn", o, args...) ("par", x)
PREC = {"||": 10, "&&": 20, "|": 30, "~": 40, "&": 50, "==": 60, "!=": 60, "<": 70, ">": 70, "<=": 70, ">=": 70,
        "<<": 80, ">>": 80, "+": 90, "-": 90, "*": 100, "/": 100, "#": 100, "^": 100}
ARITY = {"min": 2, "max": 2, "clamp": 3, "abs": 1, "sign": 1, "round": 1, "ceil": 1, "floor": 1, "lobyte": 1, "hibyte": 1,
         "loword": 1, "hiword": 1, "pow": 2}


def chk(*xs):
    for x in xs:
        if not (abs(x.numerator) < LIM and x.denominator < 4096):
            raise Reject
        if x.denominator & (x.denominator - 1):
            raise Reject        # only what binary floating point holds exactly
    if len(xs) == 2:
        a, b = xs
        if max(abs(a.numerator), a.denominator) * max(abs(b.numerator), b.denominator) >= LIM:
            raise Reject


def tr(q):
    return int(q)


def ev(e, env):
    """only used to keep generated values inside what TLC and the tools can represent; None = evaluation error"""
    v = ev0(e, env)
    if v is not None:
        chk(v)
    return v


def ev0(e, env):
    k = e[0]
    if k == "n":
        return Fraction(e[1])
    if k == "q":
        return Fraction(e[1], 10 ** e[2])
    if k in ("l", "b", "bb", "d"):
        v = env.get((k, e[1]))
        if v is None:
            raise Reject
        return Fraction(v)
    if k == "defd":
        return Fraction(1)
    if k == "cur":
        return Fraction(30000)
    if k == "par":
        return ev(e[1], env)
    if k == "un":
        a = ev(e[2], env)
        if a is None:
            return None
        i = tr(a)
        return Fraction({"neg": lambda: -a, "lobyte": lambda: i & 255, "hibyte": lambda: i >> 8 & 255,
                         "lnot": lambda: int(i == 0), "not8": lambda: i ^ 255, "not16": lambda: i ^ 65535,
                         "not24": lambda: i ^ 0xFFFFFF, "not32": lambda: ~i}[e[1]]())
    args = [ev(x, env) for x in e[2:]]
    if None in args:
        return None
    a = args[0]
    b = args[1] if len(args) > 1 else None
    o = e[1]
    if k == "fn":
        for x in args[1:]:
            chk(a, x)
        i = tr(a)
        if o == "pow":
            if b.denominator != 1 or b < 0 or b > 12:
                raise Reject
            r = Fraction(1)
            for _ in range(int(b)):
                chk(a, r)
                r = a * r
            return r
        return Fraction({"min": lambda: min(a, b), "max": lambda: max(a, b), "abs": lambda: abs(a),
                         "clamp": lambda: b if a < b else (args[2] if a > args[2] else a),
                         "sign": lambda: (a > 0) - (a < 0), "ceil": lambda: math.ceil(a), "floor": lambda: math.floor(a),
                         "round": lambda: int(math.copysign(math.floor(abs(a) + Fraction(1, 2)), a)), "lobyte": lambda: i & 255, "hibyte": lambda: i >> 8 & 255,
                         "loword": lambda: i & 65535, "hiword": lambda: i >> 16 & 65535}[o]())
    chk(a, b)
    i, j = tr(a), tr(b)
    if o == "/":
        return None if b == 0 else a / b
    if o == "#":
        return None if j == 0 else Fraction(int(math.fmod(i, j)))
    if o == "^":
        if b.denominator != 1 or not 0 <= b <= 10:
            raise Reject
        r = Fraction(1)
        for _ in range(int(b)):
            chk(a, r)
            r = a * r
        return r
    if o in ("<<", ">>"):
        if not 0 <= j < 20 or (o == "<<" and (i < 0 or i << j >= LIM)):
            raise Reject
        return Fraction(i << j if o == "<<" else i >> j)
    return Fraction({"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "&": lambda: i & j, "|": lambda: i | j,
                     "~": lambda: i ^ j, "<": lambda: a < b, ">": lambda: a > b, "<=": lambda: a <= b, ">=": lambda: a >= b,
                     "==": lambda: a == b, "!=": lambda: a != b, "&&": lambda: a != 0 and b != 0,
                     "||": lambda: a != 0 or b != 0}[o]())


def prec(e):
    return PREC[e[1]] if e[0] == "op" else 110 if e[0] != "un" else 100 if e[1] == "neg" else 120 if "not" in e[1] else 110


def lit(r, v):
    """(text, token) of a literal"""
    k = r.randrange(8)
    if 32 < v < 127 and k == 7 and chr(v) not in "'\\\"":
        return "'%c'" % v, {"k": "n", "b": 256, "ds": [v]}
    if k in (0, 1, 2):
        h = "%X" % v
        if k == 2:
            h = ("0" if not h[0].isdigit() else "") + h
        t = ["$" + h, "0x" + h, h + "h"][k]
        if r.random() < .4:
            t = t.lower()
        if k != 2 and r.random() < .2:
            t = t[:len(t) - len(h)] + "0" + t[len(t) - len(h):]
        return t, {"k": "n", "b": 16, "ds": [int(c, 16) for c in h]}
    if k in (3, 4) and v < 1 << 18:
        b = bin(v)[2:]
        return ("%" if k == 3 else "0b") + b, {"k": "n", "b": 2, "ds": [int(c) for c in b]}
    return str(v), {"k": "n", "b": 10, "ds": [int(c) for c in str(v)]}


def emit(r, e, out, sp, need=0):
    """tokens of the expression with the parentheses the documented precedence needs (and some more)"""
    # "~" is only understood as a prefix at the start of an expression
    first = not out or out[-1][1]["k"] in ("(", ",")
    # and a sign there and after the operators of conditions
    sign = first or out[-1][1].get("o") in ("<", ">", "<=", ">=", "==", "!=", "&&", "||")
    if e[0] in ("op", "un") and (prec(e) < need or r.random() < .08 or (e[0] == "un" and e[1][:3] == "not" and not first) or
                                 (e[0] == "un" and e[1] == "neg" and not sign)):
        out.append(("(", {"k": "("}))
        emit(r, e, out, sp, 0)
        out.append((")", {"k": ")"}))
        return
    k = e[0]
    if k == "n":
        if e[1] < 0:
            out.append(("(-", {"k": "("}))
            out.append(("", {"k": "un", "o": "neg", "a": 1}))
            out.append(lit(r, -e[1]))
            out.append((")", {"k": ")"}))
        else:
            out.append(lit(r, e[1]))
    elif k == "q":
        s = str(e[1]).rjust(e[2] + 1, "0")
        out.append((s[:-e[2]] + "." + s[-e[2]:], {"k": "q", "ds": [int(c) for c in s], "fd": e[2]}))
    elif k == "l":
        out.append((e[1], {"k": "l", "n": e[1]}))
    elif k == "d":
        out.append((e[1], {"k": "d", "n": e[1]}))
    elif k == "b":
        out.append((":" + e[1] if r.random() < .6 else "bank(%s)" % e[1], {"k": "b", "n": e[1]}))
    elif k == "bb":
        out.append(("bankbyte(%s)" % e[1], {"k": "bb", "n": e[1]}))
    elif k == "defd":
        out.append(("defined(%s)" % e[1], {"k": "defd", "n": e[1]}))
    elif k == "cur":
        out.append(("CADDR" if e[1] == "caddr" else e[1] + "()", {"k": "cur", "o": e[1]}))
    elif k == "par":
        out.append(("(", {"k": "("}))
        emit(r, e[1], out, sp, 0)
        out.append((")", {"k": ")"}))
    elif k == "un":
        if e[1] == "lnot":
            t = r.choice("!~") if first else "!"
        elif e[1].startswith("not"):
            t = "~"
        else:
            t = {"neg": "-", "lobyte": "<", "hibyte": ">"}[e[1]]
        out.append((t, {"k": "un", "o": e[1], "a": 1}))
        emit(r, e[2], out, sp, 101 if e[1] == "neg" else 121 if "not" in e[1] else 111)
    elif k == "fn":
        out.append((e[1], {"k": "fn", "o": e[1], "a": len(e) - 2}))
        out.append(("(", {"k": "("}))
        for q, a in enumerate(e[2:]):
            if q:
                out.append((", " if r.random() < .5 else ",", {"k": ","}))
            emit(r, a, out, sp, 0)
        out.append((")", {"k": ")"}))
    else:
        p = prec(e)
        emit(r, e[2], out, sp, p)
        out.append(((" %s " if r.random() < (.4 if sp else .15) else "%s") % e[1], {"k": "op", "o": e[1], "a": 2}))
        emit(r, e[3], out, sp, p + 1)


def expr(r, e, sp=""):
    out = []
    emit(r, e, out, sp)
    return "".join(t for t, _ in out), [x for _, x in out]


def rnum(r):
    return r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 31, 64, 100, 127, 128, 200, 255, 256, 257, 1000, 4095, 0x1234, 0x7FFF, 0x8000,
                     0xFFFF, 0x10000, 65, 97])


def gen(r, depth, leaves, cond=False, frac=.04, w=None):
    """random expression; leaves: list of leaf trees"""
    x = r.random()
    if depth == 0 or x < .2:
        y = r.random()
        if leaves and y < .6:
            return r.choice(leaves)
        if y < .6 + frac:
            return r.choice([("q", 25, 1), ("q", 5, 1), ("q", 125, 2), ("q", 1075, 2), ("q", 35, 1)])
        if y > .96:
            return ("n", -rnum(r))
        return ("n", rnum(r))
    if x < .28:
        return ("par", gen(r, depth - 1, leaves, cond, frac, w))
    if x < .40:
        # outside conditions "~" is the complement in the width of the field
        return ("un", r.choice(["neg", "neg", "lnot"] if cond else ["neg", "neg", "lobyte", "hibyte", "lobyte", "hibyte"] + (["not" + w] if w else [])),
                gen(r, depth - 1, leaves, cond, frac, w))
    if x < .52:
        f = r.choice(["min", "max", "clamp", "abs", "sign", "round", "ceil", "floor", "lobyte", "hibyte", "loword", "hiword", "pow"])
        if f == "pow":
            return ("fn", f, gen(r, 1, leaves, False, frac), ("n", r.choice([0, 1, 2, 3])))
        if f == "clamp":
            a, b = sorted([r.choice([0, 1, 5, 10, 100]), r.choice([0, 3, 50, 255, 1000])])
            return ("fn", f, gen(r, depth - 1, leaves, False, frac), ("n", a), ("n", b))
        return ("fn", f) + tuple(gen(r, depth - 1, leaves, False, frac) for _ in range(ARITY[f]))
    o = r.choice(["+", "-", "*", "/", "#", "&", "|", "~", "<<", ">>", "+", "-", "^"] + (["<", ">", "<=", ">=", "==", "!=", "&&", "||"] * 2 if cond else []))
    a = gen(r, depth - 1, leaves, cond, frac, w)
    if o == "/":
        b = ("n", r.choice([1, 2, 4, 8, 16, 256]))
    elif o == "^":
        b = ("n", r.choice([0, 1, 2, 3]))
    elif o in ("<<", ">>"):
        b = ("n", r.choice([0, 1, 2, 3, 4, 8, 12]))
    elif o == "#":
        b = ("n", r.choice([1, 2, 3, 5, 7, 10, 16, 100, 256]))
    else:
        b = gen(r, depth - 1, leaves, cond, frac, w)
    return ("op", o, a, b)


def fit(r, e, w, env, why):
    """make the value fit the field (mostly); why(e) says whether the form is allowed"""
    lo, hi = {"8": (-128, 255), "16": (-32768, 65535), "24": (-(1 << 23), (1 << 24) - 1), "32": (-LIM, LIM), "if": (-LIM, LIM)}[w]
    v = ev(e, env)
    if v is None:
        return e, False
    if lo <= tr(v) <= hi:
        return e, True
    if r.random() < .04:
        return e, False
    m = {"8": 0xFF, "16": 0xFFFF, "24": 0xFFFF, "32": 0xFFFF}[w]
    e = ("op", "&", e, ("n", m))
    v = ev(e, env)
    return e, lo <= tr(v) <= hi


def mkfield(r, w, e, cpu, ins=True, name=None, tidy=True):
    t, x = expr(r, e)
    f, pre = WD.get(w, ".DB") + " {}", []
    if ins and INS.get(cpu) and r.random() < .35:
        c = [q for q in INS[cpu] if q[0] == w]
        if c:
            _, f, pre = r.choice(c)
            # an outer pair of parentheses means memory to these processors
            if t.startswith("(") or "," in t:
                f, pre = WD[w] + " {}", []
    return {"t": "fld", "w": w, "x": x, "pre": list(pre), "_s": f.format(t)}


def mkcase(cpu, banks, slots, els, mode="none", fill=0xEE, sizes=None, nobj=1):
    return dict(cpu=cpu, banks=banks, slots=slots, sizes=sizes or [max(banks)] * len(slots), els=els, mode=mode, fill=fill, nobj=nobj)


def render(c, r):
    head = [".MEMORYMAP", "DEFAULTSLOT 0"]
    for i, a in enumerate(c["slots"]):
        head.append("SLOT %d START $%X SIZE $%X" % (i, a, c["sizes"][i]))
    head += [".ENDME", ".ROMBANKMAP", "BANKSTOTAL %d" % len(c["banks"])]
    k = 0
    while k < len(c["banks"]):
        n = 1
        while k + n < len(c["banks"]) and c["banks"][k + n] == c["banks"][k]:
            n += 1
        head += ["BANKSIZE $%X" % c["banks"][k], "BANKS %d" % n]
        k += n
    head += [".ENDRO", ".EMPTYFILL %d" % c["fill"]]
    md = {"none": [], "lo": [".LOROM"], "hi": [".HIROM"], "exhi": [".EXHIROM"], "exlo": [".EXLOROM"]}[c["mode"]]
    files, cur, o = {}, list(head) + md, 1
    insec = None
    nsec = 0

    def flush():
        nonlocal insec
        if insec:
            cur.append(".ENDS")
            insec = None
    for e in c["els"]:
        t = e["t"]
        if t == "obj":
            flush()
            files["o%d.s" % o] = "\n".join(cur) + "\n"
            o += 1
            cur = list(head)
        elif t == "pos":
            flush()
            if e.get("_sec"):
                nsec += 1
                cur.append('.SECTION "sec%d_%d" BASE %d BANK %d SLOT %d ORG %d %s' % (o, nsec, e["base"], e["bank"], e["slot"], e["org"], e["_sec"]))
                insec = True
            else:
                cur.append(".BANK %d SLOT %d" % (e["bank"], e["slot"]))
                cur.append(".BASE %d" % e["base"])
                cur.append(".ORG $%X" % e["org"])
        elif t == "ram":
            assert not insec
            nsec += 1
            cur.append('.RAMSECTION "ram%d_%d" BASE %d BANK %d SLOT %d%s %s' % (o, nsec, e["base"], e["bank"], e["slot"],
                                                                                                          "" if e["kind"] == "FREE" else " ORG %d" % e["org"], e["kind"]))
            cur.append("  %s DSB %d" % (e["n"], e["_n"]))
            cur.append(".ENDS")
        elif t == "lab":
            cur.append(e["n"] + ":")
        elif t == "dat":
            cur.append("  .DB " + ", ".join(str(x) for x in e["v"]))
        elif t == "fld":
            cur.append("  " + e["_s"])
        elif t in ("def", "redef"):
            cur.append(e["_s"])
        elif t == "if":
            cur += [".IF " + e["_s"], "  .DB %d" % e["yes"], ".ELSE", "  .DB %d" % e["no"], ".ENDIF"]
    flush()
    files["o%d.s" % o] = "\n".join(cur) + "\n"
    files["link"] = "[objects]\n" + "".join("o%d.o\n" % q for q in range(1, o + 1))
    return files, o


def to_job(c, seed):
    files, n = render(c, random.Random(seed))
    steps = [["wla-" + c["cpu"], "-o", "o%d.o" % o, "o%d.s" % o] for o in range(1, n + 1)]
    steps.append(["wlalink", "link", "out.rom"])
    return {"files": files, "steps": steps, "collect": ["out.rom"], "n": n}


def nonfill(rom, fill):
    """[[address, byte]..] of the bytes that differ from the fill value"""
    out, f, n, p = [], bytes([fill]), len(rom), 0
    blank = f * 4096
    while p < n:
        ch = rom[p:p + 4096]
        if ch != blank[:len(ch)]:
            out += [[p + q, b] for q, b in enumerate(ch) if b != fill]
        p += 4096
    return out


def observe(c, res):
    rc = 0 if all(x == 0 for x in res["rcs"]) and len(res["rcs"]) == c["nobj"] + 1 else 1
    if any(x < 0 for x in res["rcs"]):
        rc = 2
    rom = res["files"].get("out.rom")
    o = {"rc": rc, "hasrom": rom is not None, "size": len(rom or b""), "cells": []}
    if rc == 0 and rom is not None:
        # the cartridge type the SNES modes write is the matter of another specification
        ign = {0x7FD5, 0xFFD5, 0x40FFD5} if c["mode"] != "none" else ()
        o["cells"] = [x for x in nonfill(rom, c["fill"])[:4000] if x[0] not in ign]
    return o


def to_tla(cid, c, obs):
    return {"id": cid, "be": c["cpu"] in BIG, "fill": c["fill"], "banks": c["banks"], "slots": c["slots"], "mode": c["mode"],
            "els": clean(c["els"]), "obs": obs}


# ---------------------------------------------------------------- profiles
CPUS = ["z80", "6502", "65816", "gb", "6800", "spc700", "huc6280", "8080"]


def retry(r, f, n=200):
    for _ in range(n):
        try:
            return f()
        except Reject:
            pass
    return None


EDGES = {"8": (-128, 255), "16": (-32768, 65535), "24": (-(1 << 23), (1 << 24) - 1)}


def edge(r, leaf=None):
    """a field whose value is at or just outside the limits of its width, or an impossible operation"""
    w = r.choice(["8", "16", "16", "24"]) if leaf is None else r.choice(["8", "16", "16"])
    lo, hi = EDGES[w]
    v = r.choice([lo, hi, lo, hi, lo, hi, lo - 1, hi + 1, lo - 2, hi + r.choice([2, 100])])
    zero = ("op", "&", leaf, ("n", 0)) if leaf else ("op", "-", ("n", 5), ("n", 5))
    n = ("n", v)
    if r.random() < .12:
        return w, ("op", r.choice("/#"), ("n", 7), ("par", zero))
    return w, r.choice([("op", "+", ("par", zero), n), ("op", "|", ("par", zero), n) if v >= 0 else n, ("op", "-", n, ("par", zero)),
                        ("op", "+", ("op", "-", n, ("n", 1)), ("op", "+", ("par", zero), ("n", 1)))] + ([n] if leaf is None else []))


def p_const(r, i):
    """C08: constant expressions in data, instructions, definitions and conditions"""
    cpu = r.choice(CPUS)
    els = [{"t": "pos", "bank": 0, "slot": 0, "base": r.choice([0, 0, 2]), "org": r.choice([0, 3, 16])}]
    env, defs = {}, []
    bad = r.random() < .06
    for q in range(r.randint(8, 16)):
        leaves = [("d", n) for n in defs[-4:]]
        k = r.random()
        if k < .25:
            n = "D%d" % len(defs)

            def mk():
                e = gen(r, r.choice([0, 1, 2, 3]), leaves, False, .1)
                v = ev(e, env)
                if v is None:
                    raise Reject
                return e, v
            z = retry(r, mk)
            if z is None:
                continue
            e, v = z
            if defs and r.random() < .2:
                n = r.choice(defs)
                t = "redef"
            else:
                defs.append(n)
                t = "def"
            env[("d", n)] = v
            tx, x = expr(r, e)
            els.append({"t": t, "n": n, "x": x, "_s": "%s %s %s" % (r.choice([".DEFINE", ".DEF"]) if t == "def" else ".REDEFINE",
                                                                 n, tx if r.random() < .6 else "= " + tx)})
        elif k < .4:
            def mk():
                e = gen(r, r.choice([1, 2, 3]), leaves + [("defd", n) for n in defs[-1:]], True, .05)
                if ev(e, env) is None:
                    raise Reject
                return e
            e = retry(r, mk)
            if e is None:
                continue
            t, x = expr(r, e, "if")
            a, b = r.sample(range(1, 99), 2)
            els.append({"t": "if", "x": x, "yes": a, "no": b, "_s": t})
        else:
            w = r.choice(["8", "16", "16", "24", "32", "32"])

            def mk():
                e = gen(r, r.choice([0, 1, 2, 2, 3, 4]), leaves, w=w)
                v = ev(e, env)
                if v is None and not bad:
                    raise Reject
                if v is None:
                    return e
                e, ok = fit(r, e, w, env, None)
                if not ok and not bad:
                    raise Reject
                return e
            e = retry(r, mk)
            if e is None:
                continue
            els.append(mkfield(r, w, e, cpu))
            if bad and r.random() < .3:
                bad = False
    if r.random() < .25:
        w, e = edge(r)
        els.append(mkfield(r, w, e, cpu, ins=False))
    return mkcase(cpu, [256], [r.choice([0, 0x8000, 0x4000])], els)


def layout(r, mode):
    if mode == "none":
        bs = r.choice([256, 0x2000, 0x4000])
        nb = r.choice([1, 2, 4, 8])
        slots = [r.choice([0, 0x4000, 0x8000]), 0xC000]
        sizes = [bs, bs]
        return [bs] * nb, slots, sizes
    bs = 0x8000 if mode in ("lo", "exlo") else 0x10000
    nb = r.choice([2, 3, 4, 8])
    return [bs] * nb, [0x8000 if bs == 0x8000 else 0, 0], [bs, 0x2000 if bs == 0x8000 else 0x10000]


def place(r, c, n, banks, cpu, modes, base, nobj, fieldsper):
    pass


def program(r, cpu, mode, nlab, nfld, mkexpr, nobj=1, secp=.4, basep=.3, ws=("8", "16", "16", "24", "32")):
    """labels in ROM (outside sections and in fixed ones) and RAM; fields whose expressions mkexpr makes"""
    banks, slots, sizes = layout(r, mode)
    nb, bs = len(banks), banks[0]
    spots = set()
    groups, labs, env = [], [], {}
    ngrp = r.randint(1, 4)
    per = 48
    base = lambda: r.choice([0, 0, 1, 2, 0x40, 0x80, 0x7E]) if r.random() < basep else 0
    used = set()
    for g in range(ngrp):
        for _ in range(50):
            b = r.randrange(nb)
            # leave the places of the headers alone
            org = r.choice([0, 0x40, 0x80, bs - per, r.randrange(0, bs - per)])
            if mode != "none" and bs - 0x100 < org + per:
                org = r.randrange(0x100, bs - 0x200)
            if mode in ("hi", "exhi") and 0x7F00 < org + per and org < 0x8000:
                org = 0x8000 + r.randrange(256)
            if not any(u[0] == b and abs(u[1] - org) < per + 1 for u in used):
                used.add((b, org))
                break
        else:
            continue
        sl = 0 if mode != "none" else r.choice([0, 0, 1])
        groups.append({"pos": {"t": "pos", "bank": b, "slot": sl, "base": base(), "org": org,
                               "_sec": r.choice(["FORCE", "OVERWRITE"]) if r.random() < secp else None},
                       "obj": r.randint(1, nobj), "els": []})
    rams = []
    for q in range(r.choice([0, 0, 1, 2])):
        rams.append({"t": "ram", "n": "R%d" % q, "bank": r.choice([0, 0, 1, 3]), "slot": 1, "base": base(), "org": 0x10 + 16 * q + r.randrange(8),
                     "kind": "FORCE", "_n": r.choice([1, 2])})
    for x in rams:
        # alone in its bank it goes to the first address it may have
        if not any(y["bank"] == x["bank"] for y in rams if y is not x):
            x["kind"] = r.choice(["FORCE", "FREE", "SEMIFREE", "SEMISUBFREE"])
    names = ["L%d" % q for q in range(nlab)]
    # labels and fields are dealt over the groups; expressions are made when all addresses are known
    plan = [("lab", n) for n in names] + [("fld", r.choice(ws)) for _ in range(nfld)]
    r.shuffle(plan)
    for p in plan:
        g = r.choice(groups)
        g["els"].append(p)
    for g in groups:
        off = g["pos"]["org"]
        room = g["pos"]["org"] + per - 6
        out = []
        for p in g["els"]:
            if p[0] == "lab":
                out.append(p + (off,))
                b, bse, sl = g["pos"]["bank"], g["pos"]["base"], g["pos"]["slot"]
                env[("l", p[1])] = slots[sl] + off
                env[("b", p[1])] = 255
                env[("bb", p[1])] = 255
            else:
                if off + 5 > room:
                    continue
                out.append(p + (off,))
                off += 5       # an upper bound; the real size is known to the specification
        g["plan"] = out
    for x in rams:
        env[("l", x["n"])] = slots[1] + (x["org"] if x["kind"] in ("FORCE", "SEMIFREE") else 0)
        env[("b", x["n"])] = env[("bb", x["n"])] = 255
    labs = [n for n in names if ("l", n) in env] + [x["n"] for x in rams]
    els = []
    for o in range(1, nobj + 1):
        if o > 1:
            els.append({"t": "obj"})
        if o == 1:
            els += rams
        for g in groups:
            if g["obj"] != o:
                continue
            els.append(g["pos"])
            if not any(p[0] == "fld" for p in g["plan"]) or g["pos"]["_sec"]:
                # a section without bytes vanishes with its labels
                els.append({"t": "dat", "v": [r.randrange(1, 200)]})
            for p in g["plan"]:
                if p[0] == "lab":
                    els.append({"t": "lab", "n": p[1]})
                    els.append({"t": "dat", "v": [r.randrange(1, 200)]}) if r.random() < .3 else None
                else:
                    f = mkexpr(r, p[1], labs, env)
                    if f is not None:
                        els += f if isinstance(f, list) else [f]
    return mkcase(cpu, banks, slots, els, mode=mode, sizes=sizes, nobj=nobj)


def p_linkcalc(r, i):
    """C09: expressions of labels, some solved by the assembler and some by the linker"""
    cpu = r.choice(CPUS + ["65816"])
    mode = "none"
    bad = [r.random() < .05]

    def mkexpr(r, w, labs, env):
        def mk():
            if w == "24":
                # what the bank part of a label means inside a longer calculation is not documented
                e = r.choice([lambda n: n, lambda n: ("op", "+", n, ("n", r.choice([0, 1, 2, 5, 16]))), lambda n: ("op", "-", n, ("n", r.choice([0, 1]))),
                              lambda n: ("par", n), lambda n: ("op", "+", ("n", r.choice([1, 7])), n)])(("l", r.choice(labs)))
                return e
            if r.random() < .2:
                # small values of both signs with fractions
                def small():
                    e = ("op", "-", ("par", ("op", "&", ("l", r.choice(labs)), ("n", r.choice([0, 0, 1, 3, 7])))), ("n", r.choice([0, 1, 2, 3, 5, 7, 9])))
                    if r.random() < .5:
                        e = ("op", "-", ("n", r.choice([0, 1, 2, 4])), e)
                    return r.choice([e, ("op", "/", e, ("n", r.choice([2, 4]))), ("op", "*", e, r.choice([("q", 5, 1), ("q", 25, 2), ("q", 15, 1)]))])
                f = r.choice(["round", "round", "ceil", "floor", "abs", "sign", "min", "max", "clamp", "trunc"])
                e = small()
                if f == "clamp":
                    a = r.choice([-3, -1, 0, 2])
                    e = ("fn", f, e, ("n", a), ("n", a + r.choice([0, 1, 3])))
                elif f in ("min", "max"):
                    e = ("fn", f, e, small())
                elif f != "trunc":
                    e = ("fn", f, e)
                return e
            e = gen(r, r.choice([1, 1, 2, 2, 3]), [("l", n) for n in r.sample(labs, min(3, len(labs)))], False, .03, w)
            if "'l'" not in repr(e):
                raise Reject
            wide = {k: (v + (255 << 16 if w == "24" and k[0] == "l" else 0)) for k, v in env.items()}
            for en in (env, wide):
                if ev(e, en) is None and not bad[0]:
                    raise Reject
            if ev(e, env) is None:
                return e
            e2, ok = fit(r, e, w, env, None)
            if w == "24" or not ok:
                e2 = ("op", "&", ("par", e2), ("n", 0xFFFF if w != "8" else 0xFF))
                if bad[0]:
                    bad[0] = False
                    return e
            for en in (env, wide):
                ev(e2, en)
            return e2
        if want_edge and r.random() < .4:
            want_edge.clear()
            w, e = edge(r, ("l", r.choice(labs)))
            return mkfield(r, w, e, cpu, ins=False)
        e = retry(r, mk, 60)
        if e and w != "24" and "'not" not in repr(e) and r.random() < .2:
            # the calculation gets a name, and the name is used in another one
            n = "K%d" % len(ndef)
            ndef.append(n)
            tx, x = expr(r, e)
            use = ("d", n)
            if r.random() < .6:
                v = ev(e, env)
                o, k2 = r.choice([("+", 0), ("*", 1), ("-", 0), ("&", 255), ("/", 1)])
                use = ("op", o, use, ("n", k2))
            return [{"t": "def", "n": n, "x": x, "_s": ".DEFINE %s %s" % (n, tx)}, mkfield(r, w, use, cpu)]
        return e and mkfield(r, w, e, cpu)
    ndef = []
    want_edge = [1] if r.random() < .3 else []
    return program(r, cpu, mode, r.randint(2, 5), r.randint(4, 10), mkexpr, nobj=r.choice([1, 1, 2]), ws=("8", "16", "16", "16", "32", "24"))


def p_bank(r, i):
    """C07: banks, slots, bases and 24-bit addresses"""
    mode = r.choice(["none", "none", "lo", "hi", "exhi", "exlo", "lo", "hi"])
    cpu = "65816" if mode != "none" else r.choice(["65816", "z80", "6502", "gb", "huc6280", "65816"])

    def mkexpr(r, w, labs, env):
        n = r.choice(labs)
        x = r.random()
        if w == "8":
            e = r.choice([("b", n), ("bb", n), ("op", "+", ("b", n), ("n", r.choice([0, 1, 2]))), ("op", "&", ("b", n), ("n", 0x7F)),
                          ("un", "lobyte", ("l", n)), ("un", "hibyte", ("l", n))])
        elif w == "16":
            e = r.choice([("l", n), ("l", n), ("b", n), ("op", "+", ("l", n), ("n", 1)), ("op", "+", ("op", "<<", ("b", n), ("n", 8)), ("n", 3)),
                          ("op", "|", ("op", "<<", ("b", n), ("n", 8)), ("b", r.choice(labs)))])
        elif w == "24":
            e = r.choice([("l", n), ("l", n), ("op", "+", ("l", n), ("n", r.choice([1, 2, 16]))), ("op", "-", ("l", n), ("n", 1))])
        else:
            e = r.choice([("l", n), ("op", "+", ("op", "<<", ("b", n), ("n", 16)), ("l", n)), ("op", "+", ("l", n), ("n", 5))])
        return mkfield(r, w, e, cpu)
    c = program(r, cpu, mode, r.randint(2, 5), r.randint(5, 10), mkexpr, nobj=r.choice([1, 1, 1, 2]), basep=.5,
                ws=("8", "8", "16", "24", "24", "32"))
    return c
