"""Programs of spec/WlaImage.tla: banks and blocks in them, background images, header directives, checksums and partial outputs."""
import random

MODULE = "WlaImage"
CPUS = ["6502", "z80", "gb", "65816", "68000"]
K = 1024
# where headers (and their checksums) go: nothing else is generated there
ZONES = {"gb": [(0x104, 0x150)], "smd": [(0x100, 0x200)]}


def rle(b):
    out = []
    for x in b:
        if out and out[-1][1] == x:
            out[-1][0] += 1
        else:
            out.append([1, x])
    return out


def block(r, n):
    if n > 48 or r.random() < .2:
        return [[n, r.randrange(256)]]
    return rle([r.choice([0, 255, 128, r.randrange(256), r.randrange(256)]) for _ in range(n)])


def word(r, lo, hi):
    return r.choice([lo, hi, r.randrange(lo, hi + 1), r.randrange(lo, hi + 1)])


def text(r, lo, hi):
    n = r.choice([lo, hi, hi, r.randrange(lo, hi + 1)])
    return [ord(r.choice("ABCDEFGH abc019.-")) if 0 < i < n - 1 else ord(r.choice("ABCXYZ")) for i in range(n)]


def gb_header(r):
    h = []
    def p(x, f):
        if r.random() < x:
            h.append(f())
    p(.6, lambda: ["name", text(r, 1, 15)])
    p(.3, lambda: [r.choice(["licold"]), [word(r, 0, 255)]])
    if not h or h[-1][0] != "licold":
        p(.4, lambda: ["licnew", text(r, 2, 2)])
    p(.6, lambda: ["cart", [word(r, 0, 255)]])
    p(.6, lambda: ["ramsize", [word(r, 0, 255)]])
    p(.7, lambda: ["romsize", [] if r.random() < .6 else [word(r, 0, 255)]])
    p(.6, lambda: ["country", [word(r, 0, 255)]])
    p(.5, lambda: ["logo", []])
    p(.6, lambda: ["version", [word(r, 0, 255)]])
    p(.7, lambda: [r.choice(["dmg", "gbc", "gbconly", "sgb"]), []])
    if h and h[-1][0] in ("gbc", "gbconly"):
        p(.3, lambda: ["sgb", []])
    elif not any(x[0] in ("gbc", "gbconly") for x in h):
        for x in h:
            if x[0] == "name" and r.random() < .4:
                x[1] = text(r, 16, 16)
    return h


def sms_header(r, size):
    h = []
    def p(x, f):
        if r.random() < x:
            h.append(f())
    p(.6, lambda: ["product", [word(r, 0, 255), word(r, 0, 255), word(r, 0, 15)]])
    p(.6, lambda: ["smsversion", [word(r, 0, 15)]])
    p(.6, lambda: ["region", [word(r, 3, 7)]])
    p(.5, lambda: ["reserved", [word(r, 0, 255), word(r, 0, 255)]])
    ok = [x for x, n in ((10, 8), (11, 16), (12, 32), (13, 48), (14, 64), (15, 128), (0, 256), (1, 512)) if n * K <= size]
    p(.7, lambda: ["smsromsize", [r.choice(ok[-3:] + ok)]])
    if r.random() < .3:
        h.append(["cksize", [r.choice([0, 1, 100, size, size // 2, 0x1FF0, 0x1FF5, r.randrange(size)])]])
    elif r.random() < .25:
        h.append(["force", [word(r, 0, 65535)]])
    p(.25, lambda: ["base", [r.choice([0x1FF0, 0x3FF0, 0, 16, size - 16, 256 * r.randrange(size // 256)])]])
    h[:] = [x for x in h if x[0] != "base" or x[1][0] + 16 <= size]
    return h


def snes_header(r):
    h = []
    def p(x, f):
        if r.random() < x:
            h.append(f())
    p(.5, lambda: ["id", text(r, 1, 4)])
    p(.6, lambda: ["name", text(r, 1, 21)])
    p(.6, lambda: [r.choice(["fast", "slow"]), []])
    p(.6, lambda: ["cart", [word(r, 0, 255)]])
    p(.6, lambda: ["snesromsize", [word(r, 1, 255)]])
    p(.6, lambda: ["sram", [word(r, 0, 3)]])
    p(.6, lambda: ["country", [word(r, 0, 255)]])
    p(.6, lambda: ["lic", [word(r, 0, 255)]])
    p(.6, lambda: ["version", [word(r, 0, 255)]])
    return h


def smd_header(r, size):
    h = []
    def p(x, f):
        if r.random() < x:
            h.append(f())
    for k, n in (("systype", 16), ("copyright", 16), ("domestic", 48), ("overseas", 48), ("serial", 14), ("devices", 16), ("modem", 12), ("regions", 3)):
        p(.4, lambda: [k, text(r, 1, n)])
    p(.5, lambda: ["romrange", [word(r, 0, 0x3FFFFF), r.choice([-1, -1, word(r, 0, 0x3FFFFF)])]])
    p(.5, lambda: ["ramrange", [word(r, 0, 0xFFFFFF), word(r, 0, 0xFFFFFF)]])
    p(.5, lambda: ["extra", text(r, 2, 2) + [word(r, 0, 255), word(r, 0, 255), word(r, 0, 0xFFFFFF), word(r, 0, 0x7FFFFFFF)]])
    return h


BADH = {"gb": [["name", [65] * 17], ["licnew", [65]], ["licnew", [65, 66, 67]], ["cart", [256]], ["version", [-129]], ["ramsize", [256]], ["country", [300]], ["licold", [256]], ["dmg", []], ["sgb", []], ["licold", [1]]],
        "sms": [["smsversion", [16]], ["smsversion", [-1]], ["region", [2]], ["region", [8]], ["smsromsize", [16]], ["force", [1]], ["cksize", [100]]],
        "snes": [["name", [65] * 22], ["id", [65] * 5], ["cart", [256]], ["sram", [8]], ["country", [-129]], ["lic", [256]], ["version", [256]], ["snesromsize", [256]], ["slow", []], ["fast", []]],
        "smd": [["systype", [65] * 17], ["regions", [65] * 4], ["serial", [65] * 15], ["modem", [65] * 13], ["overseas", [65] * 49]]}


def program(r, plat, prg=False, sums=True):
    big = False
    fill = r.choice([0, 0, 255, 0xC9, r.randrange(256)])
    prog = []
    mode = None
    uniform = r.random() < .7
    if plat == "gb":
        cpu = "gb"
        n = r.choice([2, 2, 3, 4, 4, 5, 8, 9, 16])
        banks = [0x4000] * n
        if not uniform:
            banks = [r.choice([0x2000, 0x4000, 0x6000]) for _ in range(n)]
            while sum(banks) < 0x8000:
                banks.append(0x4000)
    elif plat == "sms":
        cpu = "z80"
        if uniform:
            banks = [r.choice([0x2000, 0x4000, 0x4000, 0x8000])] * r.choice([1, 1, 2, 3, 4, 6, 8, 16])
        else:
            banks = [r.choice([0x2000, 0x4000, 0x7FF0, 0x10, 0x400]) for _ in range(r.randrange(1, 7))]
            while sum(banks) < 0x2000:
                banks.append(0x2000)
        if not sums:
            banks = [r.choice([0x100, 0x1000, 0x4000])] * r.randrange(1, 5)
    elif plat == "snes":
        cpu = "65816"
        mode = r.choice(["lorom"] * 4 + ["hirom"] * 4 + [None])
        n = r.choice([1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16])
        if mode == "hirom":
            banks = [0x10000] * n
            if r.random() < .2:
                banks = [0x8000] * (2 * n)
        else:
            banks = [0x8000] * n
        if r.random() < .015:
            mode = "exhirom"
            banks = [0x10000] * (64 + r.choice([2, 4, 8]))
    elif plat == "smd":
        cpu, big = "68000", True
        banks = [r.choice([0x1000, 0x2000, 0x10000])] * r.choice([1, 1, 2, 4])
        if r.random() < .3:
            banks = [0x1000] + [r.choice([0x10, 0x100, 0x1002]) for _ in range(r.randrange(4))]
    else:
        cpu = r.choice(CPUS)
        big = cpu == "68000"
        banks = [r.choice([1, 2, 16, 0x100, 0x1000, 0x3FF])] * r.choice([1, 2, 3, 5, 17]) if uniform else [r.choice([1, 2, 3, 16, 0x100, 0x1000, 0x7F]) for _ in range(r.randrange(1, 9))]
    size = sum(banks)
    starts = [sum(banks[:i]) for i in range(len(banks))]
    room = max(banks)
    slots = [r.choice([0, 0x8000 if room <= 0x8000 else 0, 0x100 if room < 0xFF00 else 0])]
    for _ in range(r.randrange(3)):
        slots.append(r.choice([0, 0x4000 if room <= 0xC000 else 0, 0x8000 if room <= 0x8000 else 0, 1 if room < 0xFFFF else 0]))
    zones = list(ZONES.get(plat, []))
    h = []
    head = None                  # the block directive
    own = None
    if plat == "gb":
        if r.random() < .7:
            head = "gbheader"
            h = gb_header(r)
        else:
            h = gb_header(r) if r.random() < .6 else []
            h += [[k, []] for k in ("gbcomplement", "gbsum") if r.random() < .7]
            r.shuffle(h)
    elif plat == "sms":
        if sums:
            if r.random() < .6:
                head = "smsheader"
                h = sms_header(r, size)
            else:
                h = [[r.choice(["smstag", "smssum"]), []]]
        d = dict((k, v) for k, v in h)
        at = d["base"][0] if "base" in d else 0x1FF0 if size < 0x4000 else 0x3FF0 if size < 0x8000 else 0x7FF0
        zones = [(at, at + 16)]
        if sums and head is None and r.random() < .3:
            own = at + 15
    elif plat == "snes":
        z = {"lorom": 0, None: 0, "hirom": 0x8000, "exhirom": 0x408000}[mode]
        zones = [(z + 0x7FB0, z + 0x8000)] + ([(0xFFB0, 0x10000)] if mode == "exhirom" else [])
        h = snes_header(r)
        if r.random() < .65 or mode is None:
            head = "snesheader"
        else:
            h = [x for x in h if x[0] in ("name", "fast", "slow")]
            if r.random() < .7:
                h.append(["snessum", []])
    elif plat == "smd":
        if r.random() < .7:
            head = "smdheader"
            h = smd_header(r, size)
        elif r.random() < .8:
            h = [["smdsum", []]]
    bad = None
    if h and head and r.random() < .1:
        bad = r.choice(BADH[plat])
        h.insert(r.randrange(len(h) + 1), bad)
        if bad[0] in ("dmg", "sgb", "licold", "slow", "fast", "force", "cksize") and sum(1 for x in h if x[0] == bad[0]) > 1:
            h.remove(bad)
    if head == "snesheader" or head is None:
        r.shuffle(h)
    if plat == "gb" and head is None:
        h = [["ramsize", [v[0] % 6]] if k == "ramsize" else [k, v] for k, v in h]       # .RAMSIZE alone takes 0-5
    # conflicting blocks: the model knows those above only
    blockh = [dict(t="h", k=k, v=v, b=head or "") for k, v in h]
    if head:
        blockh.insert(0, dict(t="h", k=head, v=[], b=head))
    first = []
    if mode:
        x = dict(t="h", k=mode, v=[], b="")
        if head == "snesheader" and r.random() < .5:
            x["b"] = head
            blockh.insert(1, x)
        else:
            first.append(x)
    if plat == "snes" and r.random() < .25:
        (first if r.random() < .5 or head is None else blockh).append(dict(t="h", k="smc", v=[], b=""))
    taken = list(zones)

    def free(a, b):
        return all(b <= x or y <= a for x, y in taken)
    code = []
    files = {}
    labels = []
    if plat == "none" and r.random() < .35:
        n = r.choice([size, size, r.randrange(1, size + 1), size + 1 if r.random() < .3 else size])
        l, left = [], n
        while left:
            m = min(left, r.choice([1, 2, 5, 100, 1000, size]))
            l.append([m, r.randrange(256)])
            left -= m
        code.append(dict(t="back", l=l))
        files["back.bin"] = b"".join(bytes([v]) * m for m, v in l)
        taken = [(0, n)]
        for _ in range(r.randrange(4)):
            a = r.randrange(size)
            b = min(a + r.choice([0, 1, 10, 300]), size + (2 if r.random() < .2 else -1))
            if r.random() < .03:
                a, b = b, a
            code.append(dict(t="unback", a=a, b=b))
            nt = []
            for x, y in taken:
                if b + 1 <= x or y <= a:
                    nt.append((x, y))
                else:
                    nt += [z for z in ((x, a), (b + 1, y)) if z[0] < z[1]]
            taken = nt
    cur = None
    for _ in range(r.choice([1, 2, 4, 8, 12])):
        b = r.randrange(len(banks))
        s = r.randrange(len(slots))
        n = r.choice([1, 1, 2, 3, 8, 20, 40, 100, 1000])
        if r.random() < .06:
            n = banks[b]
        lim = banks[b]
        o = r.choice([0, lim - n, lim - n, r.randrange(lim), r.randrange(lim)] + [z + d - starts[b] for z, y in zones for d in (-n, y - z)] + [0x200 - n, 0x200])
        if cur and r.random() < .4:
            b, o, s = cur
            lim = banks[b]
            go = False
        else:
            go = True
        over = r.random() < .03
        if over:
            o = max(lim - n + r.choice([1, 1, 2]), 0) if go else o
            n = max(n, lim - o + 1)
        if not (0 <= o and (o + n <= lim or over)):
            continue
        a = starts[b] + o
        if not free(a, a + (n if not over else max(lim - o, 0))) or (over and not free(a, min(a + n, size))):
            continue
        if go:
            code.append(dict(t="org", bank=b, org=o, slot=s, how=r.choice(["org", "orga"])))
        if r.random() < .3:
            labels.append((len(labels) + 1, a))
            code.append(dict(t="label", n=len(labels)))
        if n == 2 and r.random() < .6 or n == 20 and r.random() < .3:
            for j in range(n // 2):
                code.append(dict(t="ref", n=0))
        else:
            code.append(dict(t="data", l=block(r, n)))
        taken.append((a, a + n))
        cur = (b, o + n, s)
        if over:
            break
    if own is not None:
        b = max(i for i in range(len(banks)) if starts[i] <= own)
        nib = r.choice([x for x, n in ((10, 8), (11, 16), (12, 32), (13, 48), (14, 64), (15, 128), (0, 256)) if n * K <= size])
        code += [dict(t="org", bank=b, org=own - starts[b], slot=0, how="org"), dict(t="data", l=[[1, r.randrange(16) * 16 + nib]])]
    for x in code:
        if x["t"] == "ref":
            if labels:
                x["n"] = r.choice(labels)[0]
            else:
                x.update(t="data", l=[[2, r.randrange(256)]])
    if plat == "snes" and mode:
        for k in ("native", "emu"):
            if r.random() < .4:
                v = [0 if r.random() < .25 else -r.choice(labels)[0] if labels and r.random() < .5 else word(r, 0, 65535) for _ in range(6)]
                blockh.append(dict(t="h", k=k, v=v, b=""))
    if r.random() < .03:
        code.append(dict(t="org", bank=len(banks), org=0, slot=0, how="org") if r.random() < .5 else dict(t="org", bank=0, org=0, slot=len(slots), how="org"))
    where = r.choice(["first", "last", "last"])
    prog = first + (blockh + code if where == "first" and not any(x["k"] in ("native", "emu") for x in blockh) else code + blockh)
    c = dict(cpu=cpu, plat=plat, banks=banks, uniform=len(set(banks)) == 1 and r.random() < .7, slots=slots, size=[], fill=fill, big=big, prog=prog, files=files, prg=False, bs=[], be=[], head=[], foot=[])
    if prg and mode != "exhirom" and not any(x["t"] == "h" and x["k"] == "smc" for x in prog):
        c["prg"] = r.random() < .7
        if c["prg"]:
            def edge():
                if labels and r.random() < .4:
                    return [-r.choice(labels)[0]]
                return [r.choice([0, size - 1, r.randrange(size), r.randrange(size), size if r.random() < .3 else 1])]
            if r.random() < .5:
                c["bs"] = edge()
            if r.random() < .5:
                c["be"] = edge()
        if r.random() < .3:
            c["head"] = [r.randrange(256) for _ in range(r.choice([1, 2, 3, 16, 20]))]
        if r.random() < .3:
            c["foot"] = [r.randrange(256) for _ in range(r.choice([1, 2, 3, 16, 20]))]
    return c


NAMES = {"cart": "CARTRIDGETYPE", "ramsize": "RAMSIZE", "romsize": "ROMSIZE", "country": "COUNTRYCODE", "version": "VERSION", "licold": "LICENSEECODEOLD", "licnew": "LICENSEECODENEW",
         "name": "NAME", "logo": "NINTENDOLOGO", "dmg": "ROMDMG", "gbc": "ROMGBC", "gbconly": "ROMGBCONLY", "sgb": "ROMSGB", "gbcomplement": "COMPUTEGBCOMPLEMENTCHECK",
         "gbsum": "COMPUTEGBCHECKSUM", "smssum": "COMPUTESMSCHECKSUM", "smstag": "SMSTAG", "product": "PRODUCTCODE", "smsversion": "VERSION", "region": "REGIONCODE", "reserved": "RESERVEDSPACE",
         "smsromsize": "ROMSIZE", "cksize": "CHECKSUMSIZE", "force": "FORCECHECKSUM", "base": "BASEADDRESS", "id": "ID", "fast": "FASTROM", "slow": "SLOWROM", "snesromsize": "ROMSIZE",
         "sram": "SRAMSIZE", "lic": "LICENSEECODE", "smc": "SMC", "lorom": "LOROM", "hirom": "HIROM", "exhirom": "EXHIROM", "snessum": "COMPUTESNESCHECKSUM", "smdsum": "COMPUTESMDCHECKSUM",
         "systype": "SYSTEMTYPE", "copyright": "COPYRIGHT", "domestic": "TITLEDOMESTIC", "overseas": "TITLEOVERSEAS", "serial": "SERIALNUMBER", "devices": "DEVICESUPPORT",
         "modem": "MODEMSUPPORT", "regions": "REGIONSUPPORT", "romrange": "ROMADDRESSRANGE", "ramrange": "RAMADDRESSRANGE", "extra": "EXTRAMEMORY"}
STRINGS = {"name", "licnew", "id", "systype", "copyright", "domestic", "overseas", "serial", "devices", "modem", "regions"}
COUNTRY = {"snes": "COUNTRY"}
ENDS = {"gbheader": ".ENDGB", "smsheader": ".ENDSMS", "snesheader": ".ENDSNES", "smdheader": ".ENDSMD"}
VECT = {"native": (".SNESNATIVEVECTOR", ["COP", "BRK", "ABORT", "NMI", "UNUSED", "IRQ"], ".ENDNATIVEVECTOR"),
        "emu": (".SNESEMUVECTOR", ["COP", "UNUSED", "ABORT", "NMI", "RESET", "IRQBRK"], ".ENDEMUVECTOR")}


def num(r, v):
    if v < 0:
        return str(v)
    return r.choice(["%d" % v, "$%X" % v, "$%02x" % v])


def setting(r, c, s):
    k, v = s["k"], s["v"]
    n = NAMES[k]
    if k == "country":
        n = "COUNTRY" if c["plat"] == "snes" else r.choice(["COUNTRYCODE", "DESTINATIONCODE"])
    if k in STRINGS:
        return n + ' "%s"' % "".join(map(chr, v))
    if k == "extra":
        return n + ' "%c%c", ' % tuple(v[:2]) + ", ".join(num(r, x) for x in v[2:])
    return (n + " " + ", ".join(num(r, x) for x in v)).strip()


def to_job(c, seed):
    r = random.Random(seed)
    out = [".MEMORYMAP", "DEFAULTSLOT 0"]
    for i, s in enumerate(c["slots"]):
        out.append("SLOT %d START $%X SIZE $%X" % (i, s, max(c["banks"])))
    out.append(".ENDME")
    if c["uniform"]:
        out += r.choice([[".ROMBANKSIZE $%X" % c["banks"][0], ".ROMBANKS %d" % len(c["banks"])],
                         [".ROMBANKMAP", "BANKSTOTAL %d" % len(c["banks"]), "BANKSIZE $%X" % c["banks"][0], "BANKS %d" % len(c["banks"]), ".ENDRO"]])
    else:
        out += [".ROMBANKMAP", "BANKSTOTAL %d" % len(c["banks"])]
        for n, s in rle(c["banks"]):
            out += ["BANKSIZE $%X" % s, "BANKS %d" % n]
        out.append(".ENDRO")
    fillat = ".EMPTYFILL " + num(r, c["fill"])
    if c["fill"] or r.random() < .5:
        out.append(fillat)
    files = dict(c["files"])
    cur = None
    blk = None
    for s in c["prog"]:
        if blk and not (s["t"] == "h" and s["b"] == blk):
            out.append(ENDS[blk])
            blk = None
        if s["t"] == "h":
            if s["k"] in VECT:
                a, names, z = VECT[s["k"]]
                out.append(a)
                l = ["%s %s" % (n, "lab%d" % -v if v < 0 else num(r, v)) for n, v in zip(names, s["v"]) if v or r.random() < .5]
                r.shuffle(l)
                out += l + [z]
            elif s["k"] in ENDS:
                blk = s["k"]
                out.append("." + blk.upper())
            elif s["b"]:
                out.append("  " + setting(r, c, s))
            else:
                out.append("." + setting(r, c, s))
        elif s["t"] == "org":
            st = c["slots"][s["slot"]] if s["slot"] < len(c["slots"]) else 0
            out.append(".BANK %s SLOT %d" % (num(r, s["bank"]), s["slot"]) if s["slot"] or r.random() < .7 else ".BANK %d" % s["bank"])
            out.append(".ORGA " + num(r, st + s["org"]) if s["how"] == "orga" else ".ORG " + num(r, s["org"]))
        elif s["t"] == "label":
            out.append("lab%d:" % s["n"])
        elif s["t"] == "ref":
            out.append(".DW lab%d" % s["n"])
        elif s["t"] == "data":
            n = sum(x[0] for x in s["l"])
            if n > 60:
                for m, v in s["l"]:
                    while m > 0:
                        out.append(".DSB %s, %s" % (num(r, min(m, 65535)), num(r, v)))
                        m -= 65535
            else:
                b = [v for m, v in s["l"] for _ in range(m)]
                while b:
                    k = r.randrange(1, 17)
                    if len(b[:k]) == b[:k].count(b[0]) and r.random() < .5:
                        out.append(".DSB %d, %d" % (len(b[:k]), b[0]))
                    else:
                        out.append(".DB " + ", ".join(num(r, x) for x in b[:k]))
                    b = b[k:]
        elif s["t"] == "back":
            out.append('.BACKGROUND "back.bin"')
        elif s["t"] == "unback":
            out.append(".UNBACKGROUND %s %s" % (num(r, s["a"]), num(r, s["b"])))
    if blk:
        out.append(ENDS[blk])
    link = ["[objects]", "m.o"]
    if c["head"]:
        files["h.bin"] = bytes(c["head"])
        link += ["[header]", "h.bin"]
    if c["foot"]:
        files["f.bin"] = bytes(c["foot"])
        link += ["[footer]", "f.bin"]
    files["m.s"] = "\n".join(out) + "\n"
    files["link"] = "\n".join(link) + "\n"
    opt = []
    if c["prg"]:
        opt.append("-b")
        for o, e in (("-bS", c["bs"]), ("-bE", c["be"])):
            if e:
                opt += [o, "lab%d" % -e[0] if e[0] < 0 else r.choice(["%d", "$%X", "0x%x"][:2]) % e[0]]
    elif r.random() < .3:
        opt.append("-r")
    return {"files": files, "steps": [["wla-" + c["cpu"], "-o", "m.o", "m.s"], ["wlalink"] + opt + ["link", "out.rom"]], "collect": ["out.rom"]}


def observe(c, res):
    rcs = res["rcs"]
    ok = rcs == [0, 0]
    rom = res["files"].get("out.rom")
    msg = b" ".join(res["outs"])[-160:].decode("latin-1").replace("\n", " ").replace('"', "'").replace("|", "/").replace("\\", "/")
    o = {"ok": ok, "crash": any(x < 0 for x in rcs), "runs": [], "size": -1, "msg": "".join(x if x < "\x7f" else "?" for x in msg)}
    if ok:
        if rom is None:
            o["crash"], o["msg"] = True, "no ROM"
        else:
            o["size"] = len(rom)
            i = 0
            import re
            for m in re.finditer(rb"(.)\1*", rom, re.S):
                o["runs"].append([m.start(), m.end() - m.start(), m.group(1)[0]])
    return o


def to_tla(cid, c, obs):
    return {k: v for k, v in dict(c, id=cid, obs=obs, files=0).items() if k != "key"}


def p_image(r, i):
    return program(r, r.choice(["none", "none", "none", "gb", "sms", "smd", "snes"]), prg=True, sums=r.random() < .6)


def p_sums(r, i):
    return program(r, r.choice(["gb", "sms", "smd", "snes", "snes"]))
