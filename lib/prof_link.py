"""Random and systematic abstract programs per property (inputs of WlaLink)."""
import random
from gen_link import *

ROMK = ["FREE", "SEMIFREE", "SEMISUBFREE", "SUPERFREE", "SEMISUPERFREE", "FORCE", "OVERWRITE"]


def layout(r, big=False):
    nb = r.choice([1, 2, 2, 3, 4])
    bs = r.choice([16, 24, 32, 48, 64])
    banks = [bs] * nb
    if nb > 1 and r.random() < .3:
        banks[-1] = r.choice([16, 32, 64])
    slots = [[r.choice([0, 0, 0x100, 0x4000, 0x8000]), r.choice([bs, bs, max(banks)])]]
    st = slots[0][0] + slots[0][1] + r.choice([0, 2, 16, 100])
    slots.append([st, r.choice([bs, 32, 64])])
    slots.append([0xC000 + r.choice([0, 1, 2, 6]), r.choice([16, 32, 40])])
    return banks, slots


def nonce(r):
    return r.choice([1, 1, 1, 1, 2, 2, 4, 8, 3, 16])


def rnd_bytes(r, n):
    return [r.randrange(1, 250) for _ in range(n)]


def rom_section(r, name, banks, slots, kinds=ROMK, maxlen=12, posp=.5, fancy=.3):
    k = r.choice(kinds)
    b = r.randrange(len(banks))
    n = r.choice([1, 1, 2, 3, 4, 5, 6, 8, maxlen])
    s = sec(name, kind=k, items=[data(rnd_bytes(r, n))])
    s["prio"] = r.choice([0, 0, 0, 0, 1, 2, -1, 5])
    s["ret"] = r.random() < .3
    if r.random() < posp or k in ("SEMISUBFREE",):
        s["bank"] = b
        s["slot"] = r.choice([0, 0, 1]) if len(slots) > 1 else 0
        if r.random() < .8:
            s["org"] = r.randrange(0, banks[b])
            if k == "SEMISUBFREE":
                s["org"] = r.randrange(n, banks[b] + 1) if n <= banks[b] else banks[b]
    if k == "SEMISUPERFREE":
        bl = list(range(len(banks)))
        r.shuffle(bl)
        s["banks"] = bl[:r.randint(1, len(bl))]
    if r.random() < fancy and k not in ("FORCE", "OVERWRITE"):
        s["align"] = nonce(r)
    if r.random() < fancy / 2 and k not in ("FORCE", "OVERWRITE"):
        s["offset"] = r.choice([1, 2, 3, 5])
    if r.random() < fancy / 3 and k not in ("FORCE", "OVERWRITE"):
        sl = slots[s["slot"]] if s["slot"] >= 0 else slots[0]
        lo = sl[0] + r.randrange(0, sl[1])
        s["wlo"] = lo
        s["whi"] = lo + r.choice([n, n + 4, n + 10])
    if r.random() < fancy / 3 and k not in ("FORCE", "OVERWRITE"):
        s["bitw"] = r.choice([2, 3, 4])
    if r.random() < .1:
        s["size"] = n + r.choice([0, 1, 3])
    return s


def ram_section(r, name, slots, lab=None, maxlen=10):
    k = r.choice(RAMORDER)
    sl = r.choice([1, 2])
    items = []
    for q in range(r.choice([1, 1, 2, 3])):
        items.append(var("%sv%d" % (name, q) if r.random() < .8 else "", r.choice([1, 1, 2, 2, 3, 4, maxlen])))
    n = sum(i["sz"] for i in items)
    s = sec(name, kind=k, items=items, bank=r.choice([0, 0, 0, 1, 2]), slot=sl)
    s["prio"] = r.choice([0, 0, 0, 1, -1])
    if k in ("RAM_FORCE", "RAM_SEMIFREE", "RAM_SEMISUBFREE"):
        s["org"] = r.randrange(0, slots[sl][1])
        if k == "RAM_SEMISUBFREE":
            s["org"] = r.randrange(min(n, slots[sl][1]), slots[sl][1] + 1)
    if r.random() < .3:
        s["align"] = nonce(r)
    if r.random() < .15:
        s["offset"] = r.choice([1, 2, 3])
    if r.random() < .1:
        lo = slots[sl][0] + r.randrange(0, slots[sl][1])
        s["wlo"], s["whi"] = lo, lo + n + r.choice([0, 3, 8])
    if r.random() < .1:
        s["bitw"] = r.choice([2, 3, 4])
    s["ret"] = r.random() < .1
    return s


def order_opts(r):
    f, ro, ra = [], None, None
    x = r.random()
    if x < .08:
        f.append("-nS")
    elif x < .16:
        f += r.choice([["-pS"], ["-pR"], ["-pS", "-pR"]])
    if r.random() < .12:
        ro = ROMORDER[:]
        r.shuffle(ro)
    if r.random() < .12:
        ra = RAMORDER[:]
        r.shuffle(ra)
    return f, ro, ra


def okbank(r, banks, slots):
    c = [(b, s) for b in range(len(banks)) for s in (0, 0, 1) if slots[s][1] >= banks[b]]
    return r.choice(c) if c and r.random() < .95 else (r.randrange(len(banks)), 0)


def blocks(r, banks, slots, n, pre="K"):
    """code blocks outside sections at distinct places"""
    out, used = [], set()
    for i in range(n):
        b = r.randrange(len(banks))
        ln = r.choice([1, 2, 3, 4, 6])
        o = r.randrange(0, max(1, banks[b] - ln))
        if any((b, o + k) in used for k in range(ln)):
            continue
        sl = r.choice([0, 0, 1])
        if slots[sl][1] < banks[b]:
            continue
        used |= {(b, o + k) for k in range(ln)}
        out.append((setpos(1, b, sl, r.choice([0, 0, 0, 2, 0x80]), o), blk(1, [label("%s%d" % (pre, i)), data(rnd_bytes(r, ln))])))
    return out


def p_place(r, i):
    """C01/C02: mixtures of ROM sections of all kinds"""
    banks, slots = layout(r)
    els = []
    for a, b in blocks(r, banks, slots, r.choice([0, 0, 1, 2, 3])):
        els += [a, b]
    els.append(setpos(1, *okbank(r, banks, slots), 0, r.choice([0, 0, 2, 5])))
    for q in range(r.choice([1, 2, 3, 4, 5, 6, 8])):
        els.append(rom_section(r, "S%d" % q, banks, slots))
        els[-1]["items"].insert(r.randint(0, 1), label("L%d" % q))
        if r.random() < .1:
            els.append(blk(1, [label("M%d" % q), data(rnd_bytes(r, r.choice([1, 2])))]))
    f, ro, ra = order_opts(r)
    return mkcase(banks, slots, els, fill=r.choice([0, 0xFF, 0xEE]), flags=f, romorder=ro, ramorder=ra,
                  cpu=r.choice(["z80", "6502", "65816", "gb"]))


def p_ram(r, i):
    """C03: RAM sections"""
    banks, slots = layout(r)
    els = [setpos(1, 0, 0, r.choice([0, 0x7E]), 0), blk(1, [data([1, 2])])]
    for q in range(r.choice([1, 2, 3, 4, 5, 6])):
        els.append(ram_section(r, "R%d" % q, slots))
    f, ro, ra = order_opts(r)
    return mkcase(banks, slots, els, fill=0xEE, flags=f, ramorder=ra, cpu=r.choice(["z80", "6502", "65816", "gb"]))


def item_size(it):
    if it["k"] == "d":
        return len(it["v"])
    if it["k"] == "v":
        return it["sz"]
    if it["k"] == "r":
        return len(it["pre"]) + {"8": 1, "r8": 1, "9": 1, "16": 2, "r16": 2, "13": 2, "24": 3, "32": 4}[it["w"]]
    return 0


def untie(els):
    """the order of followers of one section that have equal priority and size is not promised: avoid it"""
    seen = set()
    for e in els:
        if e["t"] == "sec" and e["rel"]:
            n = max(e["size"], sum(item_size(x) for x in e["items"]))
            while (e["target"], e["prio"], n) in seen:
                e["prio"] -= 1
            seen.add((e["target"], e["prio"], n))
    return els


def p_rel(r, i):
    """C04: forests (and sometimes cycles) of APPENDTO and AFTER"""
    based = r.random() < .3
    banks, slots = layout(r)
    banks = [max(b, 32) for b in banks]
    slots = [[a, max(z, max(banks))] for a, z in slots[:1]] + [[slots[0][0] + max(slots[0][1], max(banks)) + 4, r.choice([32, 64])],
                                                              [0xC000 + r.choice([0, 1, 2, 6]), r.choice([24, 32, 40])]]
    els = []
    for a, b in blocks(r, banks, slots, r.choice([0, 0, 1])):
        els += [a, b]
    els.append(setpos(1, 0, 0, r.choice([0, 0, 2]), 0))
    ram = r.random() < .3
    n = r.choice([2, 3, 4, 5, 6, 7])
    names = ["S%d" % q for q in range(n)]
    relp = r.choice([.5, .7, .9])
    for q in range(n):
        if ram:
            s = ram_section(r, names[q], slots, maxlen=5)
        else:
            s = rom_section(r, names[q], banks, slots, maxlen=7, posp=.3, fancy=.15)
            s["items"].insert(r.randint(0, 1), label("L%d" % q))
            if r.random() < .3:
                s["items"].append(ref("16", ("l", r.choice(["L%d" % r.randrange(n), "_p%d" % q])), None))
                s["items"].append(label("_p%d" % q))
                s["items"].append(data([q + 1]))
            if based and r.random() < .6:
                s["items"].append(ref("8", ("b", "L%d" % r.randrange(n))))
        if based and r.random() < .6:
            s["base"] = r.choice([0, 1, 2, 16, 64])
        if q and r.random() < relp:
            s["rel"] = r.choice(["append", "append", "after"])
            x = r.random()
            if x < .85:
                s["target"] = names[r.randrange(q)]
            elif x < .95:
                s["target"] = r.choice(names)
            else:
                s["target"] = "NOPE"
        elif r.random() < .05:
            s["rel"] = r.choice(["append", "after"])
            s["target"] = r.choice(names)
        if s["rel"] and r.random() < .6:   # these words mean nothing on a section that follows
            s["align"] = 1
        els.append(s)
    if r.random() < .6:
        secs = [e for e in els if e["t"] == "sec"]
        rest = [e for e in els if e["t"] != "sec"]
        r.shuffle(secs)
        els = rest + secs
    untie(els)
    f, ro, ra = order_opts(r) if r.random() < .5 else ([], None, None)
    if r.random() < .15:
        f = f + ["-d"]
    return mkcase(banks, slots, els, fill=r.choice([0, 0xEE]), flags=f, romorder=ro, ramorder=ra,
                  cpu=r.choice(["z80", "6502", "65816", "gb"]))


def rexpr(r, names, depth=2):
    """label expression that stays inside 16 bits most of the time"""
    if depth == 0 or r.random() < .4:
        return ("l", r.choice(names)) if r.random() < .7 else ("n", r.choice([0, 1, 2, 3, 7, 16, 100]))
    k = r.randrange(6)
    a, b = rexpr(r, names, depth - 1), rexpr(r, names, depth - 1)
    if k == 0:
        return ("op", "+", a, ("n", r.choice([1, 2, 5])))
    if k == 1:     # (the assembler may work out a difference of two labels by itself)
        return ("op", "-", a, ("n", r.choice([1, 2, 5])))
    if k == 2:
        return ("op", "&", a, b)
    if k == 3:
        return ("un", r.choice(["lobyte", "hibyte"]), a)
    if k == 4:
        return ("op", "+", a, b)
    return ("op", r.choice(["|", "&"]), a, b)


def lexpr(r, names, depth=2):
    """one that mentions a label"""
    while True:
        e = rexpr(r, names, depth)
        if "'l'" in repr(e):
            return e


def p_discard(r, i):
    """C05: reference graphs with -d"""
    nb = r.choice([1, 2, 3])
    banks = [r.choice([64, 128])] * nb
    slots = [[r.choice([0, 0x4000, 0x8000]), banks[0]], [0x8000 + banks[0], 64], [0xC000, 64]]
    els = []
    n = r.choice([2, 3, 4, 5, 6, 7, 8])
    names = ["S%d" % q for q in range(n)]
    labs = ["L%d" % q for q in range(n)]
    dens = r.choice([.3, .5, .8])
    nobj = r.choice([1, 1, 1, 2, 3])

    def refs(q):
        out = []
        while r.random() < dens and len(out) < 4:
            x = r.random()
            t = labs[r.randrange(n)]
            if x < .4:
                out.append(ref(r.choice(["16", "24", "32"]), ("l", t)))
            elif x < .5:
                out.append(ref("8", ("b", t)))
            elif x < .8:
                out.append(ref("32", lexpr(r, labs, 2)))
            elif q is not None and x < .9:
                out += [ref("16", ("l", "_p%d" % q)), label("_p%d" % q), data([1])]
            elif q is not None:
                out.append(ref("16", ("l", labs[q])))
            if len(out) and out[0]["k"] == "l":
                pass
        seen = set()
        res = []
        for it in out:
            if it["k"] == "l":
                if it["n"] in seen:
                    continue
                seen.add(it["n"])
            res.append(it)
        if any(it["k"] == "r" and len(it["x"]) == 1 and it["x"][0].get("n", "").startswith("_") for it in res) and not seen:
            res = []
        return res
    for o in range(1, nobj + 1):
        els.append(setpos(o, r.randrange(nb), 0, 0, (o - 1) * 16))
        if r.random() < .5:
            els.append(blk(o, [label("B%d" % o), data([o])] + refs(None)[:2]))
    for q in range(n):
        o = r.randint(1, nobj)
        if r.random() < .15:
            s = ram_section(r, names[q], slots, maxlen=4)
            s["items"].insert(0, label(labs[q])) if False else None
            s["items"][0] = var(labs[q], 2)
            s.update(align=1, offset=0, wlo=-1, whi=-1, bitw=0)
        else:
            k = r.choice(["FREE", "FREE", "SUPERFREE", "SEMIFREE", "SEMISUBFREE", "FORCE", "SEMISUPERFREE", "OVERWRITE"])
            if k in ("FORCE", "OVERWRITE") and r.random() < .6:
                k = "FREE"
            s = sec(names[q], kind=k, items=[label(labs[q]), data(rnd_bytes(r, r.choice([1, 2])))] + refs(q))
            s["prio"] = r.choice([0, 0, 0, 1])
            s["bank"], s["slot"] = r.randrange(nb), 0
            if k == "SEMISUBFREE":
                s["org"] = banks[0]
            if k in ("FORCE", "OVERWRITE"):
                s["org"] = banks[0] - 32 + r.randrange(8)
            if k == "SEMISUPERFREE":
                s["banks"] = list(range(nb))
        s["obj"] = o
        s["keep"] = r.random() < .12
        if r.random() < .1:
            s["name"] = names[q] = "!" + names[q]
            s["keep"] = True
        if q and r.random() < .2:
            s["rel"] = r.choice(["append", "append", "after"])
            t = r.randrange(q)
            s["target"] = names[t]
            tk = [e for e in els if e["t"] == "sec" and e["name"] == names[t]][0]["kind"]
            if tk.startswith("RAM") != s["kind"].startswith("RAM"):
                s["rel"] = s["target"] = ""
        els.append(s)
    # objects must come in order
    els = untie([e for o in range(1, nobj + 1) for e in els if e["obj"] == o])
    return mkcase(banks, slots, els, fill=r.choice([0, 0xEE]), flags=["-d"] if r.random() < .92 else [], nobj=nobj,
                  cpu=r.choice(["z80", "6502", "65816", "gb"]))


# references written as instructions: cpu -> [(width, format, bytes before the field)]
INS = {
    "z80": [("r8", "jr {}", [0x18]), ("r8", "djnz {}", [0x10]), ("r8", "jr nz, {}", [0x20]), ("16", "jp {}", [0xC3]),
            ("16", "call {}", [0xCD]), ("16", "ld hl, {}", [0x21]), ("16", "ld a, ({})", [0x3A]), ("8", "ld a, {}", [0x3E]),
            ("16", "ld ix, {}", [0xDD, 0x21]), ("8", "add a, {}", [0xC6])],
    "gb": [("r8", "jr {}", [0x18]), ("r8", "jr c, {}", [0x38]), ("16", "jp {}", [0xC3]), ("16", "call z, {}", [0xCC]),
           ("16", "ld de, {}", [0x11]), ("8", "ld b, {}", [0x06])],
    "6502": [("16", "jmp {}", [0x4C]), ("16", "jsr {}", [0x20]), ("r8", "beq {}", [0xF0]), ("r8", "bcc {}", [0x90]),
             ("8", "lda #{}", [0xA9]), ("16", "lda.w {}", [0xAD]), ("8", "lda.b {}", [0xA5]), ("16", "sta.w {},x", [0x9D])],
    "65816": [("16", "jmp.w {}", [0x4C]), ("24", "jsl {}", [0x22]), ("24", "lda.l {}", [0xAF]), ("r8", "bra {}", [0x80]),
              ("r8", "bne {}", [0xD0]), ("r16", "brl {}", [0x82]), ("r16", "per {}", [0x62]), ("16", "lda.w {}", [0xAD]),
              ("8", "lda.b {}", [0xA5]), ("16", "pea {}", [0xF4]), ("24", "sta.l {},x", [0x9F])],
    "6809": [("r16", "lbra {}", [0x16]), ("r8", "bra {}", [0x20]), ("r8", "beq {}", [0x27]), ("r16", "lbeq {}", [0x10, 0x27])],
    "6800": [("r8", "bra {}", [0x20]), ("r8", "bsr {}", [0x8D])],
    "huc6280": [("r8", "bra {}", [0x80]), ("16", "jmp {}", [0x4C])],
    "spc700": [("r8", "bra {}", [0x2F])],
}


def p_ref(r, i):
    """C06: references of every width and site, at and around the limits of their fields"""
    cpu = r.choice(["z80", "gb", "6502", "65816", "65816", "6809", "6800", "huc6280", "spc700", "z80"])
    bs = r.choice([64, 320])
    nb = r.choice([1, 2]) if bs > 64 else r.choice([2, 3, 4])
    banks = [bs] * nb
    lay = r.randrange(4)
    s0, s1, s2 = [(0, 0x8000, 0xF0 if bs < 0xF0 else 0x1F0), (0x4000, 0xC000, 0xF8), (0x100, 0x8000 + 0x100, 0xF0),
                  (0, 0x7FC0, 0x1000)][lay]
    slots = [[s0, bs], [s1, bs], [s2, 0x10 if s2 < 0x100 and s0 == 0x100 else 0x20]]
    els = [setpos(1, 0, 0, r.choice([0, 0, 0, 2, 0x7F, 0x80]), 0)]
    n = r.choice([2, 3, 4, 5]) if bs > 64 else r.choice([2, 3])
    nobj = r.choice([1, 1, 2])
    if nobj == 2:
        els.append(setpos(2, nb - 1, 0, r.choice([0, 1]), 0))
    wild = r.random() < .1
    labs, places = [], []
    used = []
    secs = []
    for q in range(n):
        b, sl = r.randrange(nb), r.choice([0, 0, 1])
        ch = bs // n
        L = r.randrange(0, bs - 30) if wild else q * ch + r.randrange(max(1, ch - 24))
        secs.append((q, b, sl, L))
        labs.append(("L%d" % q, slots[sl][0] + L))
    nr = r.choice([1, 2, 3])
    rams = []
    for q in range(nr):
        a = r.randrange(0, slots[2][1] - 2)
        rams.append((q, a))
        labs.append(("V%d" % q, s2 + a))
    ins = INS.get(cpu, [])
    out = []
    pinned = set()
    for q in range(n):
        q, b, sl, L = secs[q]
        s = sec("S%d" % q, kind="FORCE", bank=b, slot=sl, org=L, items=[label("L%d" % q)])
        pos = slots[sl][0] + L
        free = q not in pinned and r.random() < .25
        if free:
            s["kind"] = r.choice(["FREE", "SEMIFREE", "SUPERFREE"])
            s["org"] = L if s["kind"] == "SEMIFREE" else -1
        for z in range(r.choice([0, 1, 1, 2, 3])):
            if pos - slots[sl][0] > bs - 10:
                break
            if r.random() < .5:
                d = rnd_bytes(r, r.choice([1, 2, 5]))
                s["items"].append(data(d))
                pos += len(d)
            if ins and r.random() < .6:
                w, f, pre = r.choice(ins)
            else:
                w, f, pre = r.choice([("8", None, []), ("16", None, []), ("24", None, []), ("32", None, [])])
            t = r.choice(labs)[0]
            e = ("l", t)
            if w == "r8" and bs > 64 and r.random() < .5 and q + 1 < len(secs):
                # put a later section where its label is at a limit of this very field
                nxt = pos + len(pre) + 1
                z = r.randrange(q + 1, len(secs))
                goal = nxt + r.choice([-129, -128, 127, 127, 128, 128, 126, -127]) - slots[sl][0]
                if 0 <= goal < bs - 24 and not (L - 24 < goal < pos + 8 - slots[sl][0]):
                    secs[z] = (z, b, sl, goal)
                    labs[z] = ("L%d" % z, slots[sl][0] + goal)
                    pinned.add(z)
                    s["items"].append(ref(w, ("l", "L%d" % z), f, pre))
                    pos += len(pre) + 1
                    continue
            low = [a for a, v in labs if v <= 0xFF]
            if w == "8" and r.random() < .9 and low:
                e = ("l", r.choice(low))
            elif w == "8" and r.random() < .9:
                e = ("b", t)
            elif w in ("r8", "r16") and r.random() < .6:
                # aim at the limits from where we are
                nxt = pos + len(pre) + (1 if w == "r8" else 2)
                lim = 128 if w == "r8" else 32768
                goal = nxt + r.choice([-lim - 1, -lim, -lim + 1, lim - 2, lim - 1, lim, lim + 1])
                best = min(labs, key=lambda x: abs(x[1] - goal))
                e = ("op", "+" if goal >= best[1] else "-", ("l", best[0]), ("n", abs(goal - best[1])))
                if goal == best[1]:
                    e = ("l", best[0])
            elif w not in ("24",) and r.random() < .2:
                e = ("op", r.choice("+-"), ("l", t), ("n", r.choice([0, 1, 2, 255, 256, 5])))
            if w == "24" and cpu != "65816" and f is None and r.random() < .5:
                e = ("l", t)
            s["items"].append(ref(w, e, f, pre))
            pos += len(pre) + {"8": 1, "r8": 1, "16": 2, "r16": 2, "24": 3, "32": 4}[w]
        if len(s["items"]) == 1:
            s["items"].append(data([q + 1]))
        if r.random() < .03:
            s["items"].append(ref("16", ("l", "Nowhere")))
        s["obj"] = r.randint(1, nobj)
        out.append(s)
    for q, a in rams:
        s = sec("R%d" % q, kind="RAM_FORCE", bank=q, slot=2, org=a, items=[var("V%d" % q, 1)])
        s["obj"] = r.randint(1, nobj)
        out.append(s)
    r.shuffle(out)
    els = [e for o in range(1, nobj + 1) for e in els + out if e["obj"] == o]
    return mkcase(banks, slots, els, fill=r.choice([0, 0xEE]), nobj=nobj, cpu=cpu)


def p_split(r, i):
    """C22: a program cut into objects, included files and libraries"""
    base = r.choice([p_place, p_ref, p_ref, p_ref, p_rel])
    c = base(r, i)
    secs = [e for e in c["els"] if e["t"] == "sec"]
    rest = [e for e in c["els"] if e["t"] != "sec"]
    for e in secs:
        if e["kind"] == "OVERWRITE":
            e["kind"] = "SEMIFREE"
    # more references between the parts
    names = [it["n"] for e in secs + rest if e["t"] != "set" for it in e["items"] if it["k"] in ("l", "v") and it["n"] and not it["n"].startswith("_")]
    nobj, nlib = c["nobj"], r.choice([0, 1, 1, 2, 3])
    parts = [("obj", k) for k in range(1, nobj + 1)]
    more = r.choice([0, 0, 1, 2])
    first = {}
    for e in rest:
        if e["t"] == "set":
            first.setdefault(e["obj"], e)
    for k in range(more):
        parts.append(("obj", nobj + 1 + k))
        rest.append(dict(first[r.randint(1, nobj)], obj=nobj + 1 + k))
    libs = {}
    for k in range(nlib):
        b = r.randrange(len(c["banks"]))
        n = nobj + more + 1 + k
        parts.append(("lib", n))
        # which base sections get that are put after others of another base is not documented
        libs[n] = dict(bank=b, slot=r.choice([0, 0, 1]), base=r.choice([0, 0, 0, 1, 0x80]) if base is not p_rel else 0)
    if base is p_rel:
        for e in secs + rest:
            if "base" in e and e["t"] == "set" or e.get("base", -1) >= 0:
                e["base"] = 0
    # whether a section belongs to this object or that one must not matter, if it says where it wants to be
    for e in secs:
        if e["kind"] in ("FREE", "SUPERFREE") and libs and r.random() < .7 and e["ns"] == "":
            n = r.choice(sorted(libs))
            e.update(libs[n], obj=n, org=-1, size=-1)       # a library does not know the fill byte
        elif more and e["bank"] >= 0 and e["slot"] >= 0 and r.random() < .5:
            e["obj"] = r.randint(1, nobj + more)
    # RAM sections of libraries get their place in the link file
    link = []
    for n in libs:
        if r.random() < .4:
            q = sec("LR%d" % n, kind="RAM_FREE", bank=r.choice([0, 0, 1]), slot=2, items=[var("LV%d" % n, r.choice([1, 2])), var("LW%d" % n, 1)], obj=n)
            q["base"] = libs[n]["base"]
            a = ["bank %d" % q["bank"], "slot 2"]
            r.shuffle(a)
            link.append(" ".join(a) + ' "LR%d"' % n)
            secs.append(q)
            names += ["LV%d" % n, "LW%d" % n]
    if link:
        c["link"] = c["link"] + ["[ramsections]"] + link
    for n in libs:
        mine = [e for e in secs if e["obj"] == n]
        if not mine or r.random() < .5:
            nm = "LB%d" % n
            items = [label(nm), data(rnd_bytes(r, r.choice([1, 2, 4])))]
            for q in range(r.choice([0, 1, 2])):
                if names:
                    t = r.choice(names)
                    w, x = r.choice([("8", ("b", t)), ("16", ("l", t)), ("24", ("l", t)), ("32", ("op", "+", ("l", t), ("n", r.randrange(9)))), ("16", ("op", "-", ("l", t), ("l", nm)))])
                    items.append(ref(w, x))
            s = sec("T%d" % n, kind=r.choice(["FREE", "SUPERFREE"]), items=items)
            s.update(libs[n], obj=n)
            if r.random() < .3:
                s["align"] = nonce(r)
            if r.random() < .3:
                s["prio"] = r.choice([1, 2, -1])
            secs.append(s)
            names.append(nm)
    # and references into the libraries
    ln = [it["n"] for e in secs if e["obj"] in libs for it in e["items"] if it["k"] == "l"]
    for e in secs:
        if ln and not e["kind"].startswith("RAM_") and e["size"] < 0 and r.random() < .3:
            t = r.choice(ln)
            e["items"].append(ref(*r.choice([("16", ("l", t)), ("8", ("b", t)), ("24", ("l", t)), ("16", ("op", "+", ("l", t), ("n", 2)))])))
    # the order of the parts in the link file
    x = r.random()
    if x < .3:
        r.shuffle(parts)
    perm = {n: k + 1 for k, (t, n) in enumerate(parts)}
    els = []
    for t, n in parts:
        a = [e for e in rest if e["obj"] == n]
        b = [e for e in secs if e["obj"] == n]
        # position changes and code stay in order, after the first one sections go anywhere
        out = a[:1]
        a = a[1:]
        while a or b:
            if a and (not b or r.random() < .5):
                out.append(a.pop(0))
            else:
                out.append(b.pop(0))
        els += [dict(e, obj=perm[n]) for e in out]
    c.update(els=els, nobj=len(parts), libs={perm[n]: d for n, d in libs.items()}, inc=r.choice([0, 0, 1, 2, 3]), libdir=r.choice([0, 0, 0, 1, 2]))
    return c


def fixed_place(tier):
    """cases kept for the known findings of C01"""
    def lab(n, o):
        return sec(n, kind="FORCE", bank=0, slot=0, org=o, items=[label("L" + n), ref("16", ("l", "L" + n))])
    far = sec("A", kind="FORCE", bank=0, slot=0, org=4, items=[label("LA"), ref("16", ("l", "LF"))])
    near = sec("B", kind="FORCE", bank=0, slot=0, org=5, items=[label("LB"), ref("16", ("l", "LG"))])
    free = sec("F", items=[label("LF"), data([1])], bank=0, slot=0)
    gree = sec("G", items=[label("LG"), data([2, 3])], bank=0, slot=0)
    c = mkcase([32], [[0, 32]], [setpos(1), far, near, free, gree])
    c["strict"] = True
    c["key"] = "force-overlap-of-pending-references"
    return [c]


def p_sym(r, i):
    """C23: the programs of C01 to C06 with symbols, breakpoints and definitions, and everything the symbol files list"""
    c = r.choice([p_place, p_place, p_ram, p_rel, p_discard, p_discard, p_ref])(r, i)
    tag, lab = [0], [0]

    def grow(items, ram):
        out = []
        for it in items:
            parts = [it]
            if it["k"] == "d" and len(it["v"]) > 1 and r.random() < .5:
                k = r.randrange(1, len(it["v"]))
                parts = [data(it["v"][:k]), data(it["v"][k:])]
            for x in parts:
                if not ram and r.random() < .2:
                    y = r.random()
                    if y < .4:
                        lab[0] += 1
                        out.append(label("X%d" % lab[0]))
                    else:
                        lab[0] += 1
                        out.append({"k": "s", "n": "Y%d" % lab[0] if y < .7 else ""})
                out.append(x)
        if not ram and r.random() < .15:
            lab[0] += 1
            out.append({"k": "s", "n": "Y%d" % lab[0]} if r.random() < .5 else label("X%d" % lab[0]))
        for x in out:
            tag[0] += 1
            x["tag"] = tag[0]
        return out
    for e in c["els"]:
        if e["t"] != "set":
            e["items"] = grow(e["items"], e.get("kind", "").startswith("RAM"))
    c["defs"] = [dict(obj=r.randint(1, c["nobj"]), n="D%d" % k, v=r.choice([0, 1, -1, 255, 256, 65536, 0x7FFFFFFF, -128, r.randrange(-70000, 70000)]), export=r.random() < .7)
                 for k in range(r.choice([0, 0, 1, 2, 4]))]
    c["sym"] = True
    c["alt"] = r.choice(["", "equ"])
    c["aflags"] = ["-i"] if r.random() < .5 else []
    if r.random() < .6 and c["aflags"] or r.random() < .1:
        c["flags"] = c["flags"] + ["-A"]
    if r.random() < .12:
        c["flags"] = c["flags"] + ["-D"]
    c["inc"] = r.choice([0, 0, 1, 2])
    return c
