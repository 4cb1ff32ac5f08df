"""Programs of spec/WlaLayout.tla: structures, unions, enumerations, RAM sections and .DSTRUCTs."""
import random

MODULE = "WlaLayout"
CPUS = ["z80", "6502", "65816", "gb", "68000"]
NONE = {"t": "none", "name": "", "size": 0, "desc": False, "export": False, "at": 0}


class Layout:
    """Names, offsets and sizes of what was generated, to choose names and data from."""
    def __init__(self, size, es, union=False, padded=False):
        self.size, self.es, self.union, self.padded = size, es, union, padded


def dot(p, n):
    return p + "." + n if p and n else p or n


def program(r):
    cnt = [0]
    def fresh(p):
        cnt[0] += 1
        return p + str(cnt[0])
    lays, prog = {}, []
    fault = r.choice(["size", "isize", "st", "nextu", "endu", "open"]) if r.random() < .12 else None
    room = [0]

    def items(n, depth, out):
        """-> size, entries (name, off, size, data), alias entries, union?, padded?"""
        pos, es, un, pad = 0, [], False, False
        for _ in range(n):
            x = r.random()
            if x < .5 or not lays and x < .8:
                z = r.choice([1, 1, 1, 2, 2, 3, 4, r.randrange(1, 9), r.randrange(1, 20)])
                nm, d = fresh("f"), r.random() < .12
                out.append(dict(t="field", name=nm, n=z, dot=d))
                es.append((nm, pos, z, not d, False))
                pos += 0 if d else z
            elif x < .8:
                st = r.choice(list(lays))
                L = lays[st]
                k = r.choice([1, 1, 1, 2, 2, 3])
                if L.size * k > 120 or not L.size:
                    continue
                fr = r.choice([1, 1, 0, 2, 7]) if k > 1 else 1
                sz = L.size + r.choice([0, 1, 3]) if r.random() < .25 else 0
                nm = fresh("i") if k > 1 or r.random() < .75 else ""
                d = bool(nm) and r.random() < .1
                if not nm and imported & {e[0] for e in L.es}:
                    continue
                if not nm:
                    imported.update(e[0] for e in L.es)
                out.append(dict(t="inst", name=nm, st=st, n=k, size=sz, dot=d, **{"from": fr}))
                z = sz or L.size
                pad = pad or z != L.raw or L.padded
                un = un or L.union
                if nm:
                    es.append((nm, pos, z * k, False, False))
                if k > 1:
                    for e in L.es:
                        es.append((dot(nm, e[0]), pos + e[1], e[2], False, True))
                for j in range(k):
                    p = nm
                    if k > 1:
                        p = nm + "." + str(fr + j)
                        es.append((p, pos + j * z, z, False, False))
                    es += [(dot(p, e[0]), pos + j * z + e[1], e[2], e[3] and not d, e[4]) for e in L.es]
                if d:
                    # what a dotted instance lies over
                    f2 = fresh("f")
                    out.append(dict(t="field", name=f2, n=z * k, dot=False))
                    es.append((f2, pos, z * k, True, False))
                pos += z * k
            elif depth < 2:
                un = True
                z, done = 0, []
                for j in range(r.randrange(1, 4)):
                    nm = fresh("u") if r.random() < .5 else ""
                    out.append(dict(t="union" if j == 0 else "nextu", name=nm))
                    s, e, _, p2 = items(r.randrange(1, 4), depth + 1, out)
                    pad = pad or p2
                    if nm:
                        done.append((nm, 0, s, False, False))
                    done += [(dot(nm, q[0]),) + q[1:] for q in e]
                    z = max(z, s)
                out.append(dict(t="endu"))
                es += [(q[0], pos + q[1]) + q[2:] for q in done]
                pos += z
        return pos, es, un, pad

    def close(out):
        out.append(dict(t="close"))

    exports = []
    alias = []
    nstruct = r.randrange(1, 5)
    nblk = 0
    for i in range(nstruct):
        out = []
        imported = set()
        nm = fresh("S")
        pos, es, un, pad = items(r.choice([1, 2, 3, 3, 4, 5]), 0, out)
        if not pos:
            continue
        size = pos + r.choice([0, 1, 2, 5]) if r.random() < .25 else 0
        if fault == "size" and pos > 1:
            size, fault = r.randrange(1, pos), "done"
        prog.append(dict(NONE, t="struct", name=nm, size=size))
        prog += out
        close(prog)
        L = lays[nm] = Layout(size or pos, es, un, pad)
        L.raw = pos
        for e in es:
            if not e[4] and r.random() < .5:
                exports += [nm + "." + e[0]] if r.random() < .6 else ["_sizeof_" + nm + "." + e[0]]
        if r.random() < .6:
            exports.append("_sizeof_" + nm)
    mark = 0
    glob = set()
    for i in range(r.randrange(2, 6)):
        k = r.choice(["enum", "enum", "ram", "ram", "flat", "byname", "byname"])
        out = []
        imported = glob
        if k in ("enum", "ram"):
            pos, es, un, pad = items(r.choice([1, 2, 3, 4, 5, 6]), 0, out)
            desc = k == "enum" and r.random() < .35
            if k == "ram":
                at = 0x8000 + room[0]
                room[0] += 0x400
                if pos > 0x400:
                    continue
                if not pos:
                    continue
            else:
                at = r.choice([0, 0x20, 0x1000, 0xC000]) if not desc else r.choice([0x1000, 0xC000, 0xFFFF])
            exp = r.random() < .8
            prog.append(dict(NONE, t=k, name=fresh("R"), at=at, desc=desc, export=exp and k == "enum"))
            if k == "enum" and not exp:
                for e in es:
                    if not e[4] and r.random() < .5:
                        exports += [e[0]] if r.random() < .5 else ["_sizeof_" + e[0]]
            prog += out
            close(prog)
        elif lays:
            st = r.choice(list(lays))
            L = lays[st]
            nm = fresh("V") if r.random() < .8 else ""
            mark += 1
            d = dict(t=k, name=nm, st=st, size=L.size + r.choice([0, 1, 4]) if r.random() < .25 else 0, nolabels=bool(nm) and r.random() < .15, mark=100 + mark, items=[], vals=[])
            alias += [nm + "." + e[0] for e in L.es if e[4]] + ["_sizeof_" + nm + "." + e[0] for e in L.es if e[4]]
            if fault == "isize" and L.raw > 1:
                d["size"], fault = r.randrange(1, L.raw), "done"
            plain = [e for e in L.es if not e[4]]
            if k == "flat":
                fs = [e for e in plain if e[3]]
                n = 0 if L.union else r.randrange(0, len(fs) + 1) if r.random() < .5 else len(fs)
                for e in fs[:n]:
                    if e[2] > 4 or r.random() < .25:
                        m = max(2, e[2] if r.random() < .5 else r.randrange(1, e[2] + 2))
                        d["items"].append(dict(k="s", v=0, s=[r.choice(b"ABCDEFgh ") for _ in range(m)]))
                    else:
                        d["items"].append(dict(k="n", v=r.choice([0, 1, 127, 255, r.randrange(256), (256 ** min(e[2], 3)) - 1, r.randrange(256 ** min(3, e[2]))]) if r.random() < .9 else -1, s=[]))
                if n == len(fs) and not L.union and r.random() < .03:
                    d["items"].append(dict(k="n", v=1, s=[]))
            else:
                used = []
                for _ in range(r.randrange(0, 4)):
                    e = r.choice(plain)
                    if any(e[1] < b and a < e[1] + e[2] for a, b in used) or not e[2] or e[1] + e[2] > L.raw:
                        continue
                    used.append((e[1], e[1] + e[2]))
                    m = r.choice([e[2], r.randrange(1, e[2] + 1)])
                    if r.random() < .03:
                        m = e[2] + 1
                    d["vals"].append(dict(n=e[0], b=[r.randrange(256) for _ in range(m)]))
                    if m > e[2]:
                        break
            d["z"] = max(d["size"], L.size) + 1
            prog.append(d)
    if fault == "st":
        prog.append(dict(NONE, t="enum", name="", at=0, export=True))
        prog += [dict(t="inst", name="zz", st="Nosuch", n=1, size=0, dot=False, **{"from": 1}), dict(t="close")]
    elif fault in ("nextu", "endu", "open"):
        prog += [dict(NONE, t=r.choice(["enum", "struct"]), name="Zs", at=0), dict(t="field", name="zy", n=1, dot=False),
                 dict(t={"open": "union"}.get(fault, fault), name=""), dict(t="field", name="zz", n=1, dot=False), dict(t="close")]
    return dict(prog=prog, exports=sorted(set(exports)), alias=sorted(set(alias)), unions=[n for n in lays if lays[n].union], padded=[n for n in lays if lays[n].padded],
                fill=r.choice([0, 255, 0xEE]), none=NONE)


def num(r, v):
    return r.choice(["%d" % v, "$%X" % v]) if v >= 0 else "%d" % v


KIND = {1: ["db", "byt", "byte"], 2: ["dw", "word", "addr"], 3: ["dl", "long", "faraddr"], 4: ["dd"]}
DOTKIND = {1: ["db", "byt", "byte"], 2: ["dw", "word", "addr"], 3: ["dl", "long", "faraddr"], 4: ["dd"]}


def case(r, s):
    return r.choice([s.lower(), s.upper()])


def kind(r, z):
    opts = [k for k in KIND.get(z, [])]
    opts += ["ds %s" % num(r, z), "dsb %s" % num(r, z)]
    for d, w in (("dsw", 2), ("dsl", 3), ("dsd", 4)):
        if z % w == 0:
            opts.append("%s %s" % (d, num(r, z // w)))
    return case(r, r.choice(opts))


def line(r, s, c):
    t = s["t"]
    colon = lambda n: n + r.choice(["", "", ":"])
    if t == "struct":
        return ".STRUCT %s%s" % (s["name"], " SIZE %s" % num(r, s["size"]) if s["size"] else "")
    if t == "enum":
        return ".ENUM %s%s%s" % (num(r, s["at"]), " DESC" if s["desc"] else r.choice(["", " ASC"]), " EXPORT" if s["export"] else "")
    if t == "ram":
        return '.RAMSECTION "%s" BANK 0 SLOT 1 ORG %s FORCE' % (s["name"], num(r, s["at"] - 0x8000))
    if t == "field":
        k = kind(r, s["n"])
        return "%s %s%s" % (colon(s["name"]), "." if s["dot"] else "", k)
    if t == "inst":
        o = []
        if s["n"] > 1 or r.random() < .15:
            o.append(r.choice(["%d", "COUNT %d"]) % s["n"])
        if s["size"]:
            o.append("SIZE %s" % num(r, s["size"]))
        if s["n"] > 1 and (s["from"] != 1 or r.random() < .2):
            o.append("STARTFROM %d" % s["from"])
        if o and not o[0].startswith("COUNT") and r.random() < .8 or not o or o[0][0].isdigit():
            pass
        else:
            r.shuffle(o)
        k = case(r, "instanceof")
        return "%s%s%s %s" % (colon(s["name"]) + " " if s["name"] else "", "." if s["dot"] else "", k, " ".join([s["st"]] + o))
    if t in ("union", "nextu"):
        return (".%s %s" % (case(r, t), s["name"])).rstrip()
    if t == "endu":
        return case(r, ".endu")
    if t in ("flat", "byname"):
        h = ".DSTRUCT %s%s%s" % (s["name"] + " " if s["name"] else "", "INSTANCEOF " if not s["name"] or r.random() < .7 else "", s["st"])
        h += " SIZE %s" % num(r, s["size"]) if s["size"] else ""
        h += " NOLABELS" if s["nolabels"] else ""
        if t == "flat":
            xs = []
            for x in s["items"]:
                xs.append('"%s"' % bytes(x["s"]).decode() if x["k"] == "s" else num(r, x["v"]))
            if xs or r.random() < .5:
                h += " DATA"
            h += " " + ", ".join(xs)
            out = [h.rstrip()]
        else:
            out = [h + " VALUES"]
            for x in s["vals"]:
                b = list(x["b"])
                ds = []
                while b:
                    n = r.randrange(1, len(b) + 1)
                    if len(b) >= 2 and r.random() < .3:
                        v = b[0] * 256 + b[1] if c["big"] else b[1] * 256 + b[0]
                        ds.append(".DW %s" % num(r, v))
                        b = b[2:]
                    else:
                        ds.append(".DB " + ", ".join(num(r, v) for v in b[:n]))
                        b = b[n:]
                out.append(colon(x["n"]) + " " + ("\n  ").join(ds))
            out.append(".ENDST")
        return "\n".join(out + [".DB %d" % s["mark"]])
    raise KeyError(t)


def to_job(c, seed):
    r = random.Random(seed)
    out = [".MEMORYMAP", "DEFAULTSLOT 0", "SLOT 0 START $0 SIZE $1000", "SLOT 1 START $8000 SIZE $4000", ".ENDME", ".ROMBANKMAP", "BANKSTOTAL 1", "BANKSIZE $1000", "BANKS 1", ".ENDRO",
           ".EMPTYFILL %d" % c["fill"], ".BANK 0 SLOT 0", ".ORG 0"]
    blk = None
    at = 0
    for s in c["prog"]:
        if s["t"] in ("flat", "byname"):
            out.append(".ORG %s" % num(r, at))      # sections, RAM sections too, move the address of what follows
            at += s["z"]
        if s["t"] in ("struct", "enum", "ram"):
            blk = s["t"]
        if s["t"] == "close":
            out.append({"struct": ".ENDST", "enum": ".ENDE", "ram": ".ENDS"}[blk])
        else:
            out.append(line(r, s, c))
    if c["exports"]:
        xs = list(c["exports"])
        r.shuffle(xs)
        for j in range(0, len(xs), 8):
            out.append(".EXPORT " + ", ".join(xs[j:j + 8]))
    return {"files": {"m.s": "\n".join(out) + "\n", "link": "[objects]\nm.o\n"}, "steps": [["wla-" + c["cpu"], "-o", "m.o", "m.s"], ["wlalink", "-S", "link", "out.rom"]],
            "collect": ["out.rom", "out.sym"]}


def observe(c, res):
    rcs = res["rcs"]
    ok = rcs == [0, 0]
    rom, sym = res["files"].get("out.rom"), res["files"].get("out.sym")
    msg = b" ".join(res["outs"])[-160:].decode("latin-1").replace("\n", " ").replace('"', "'").replace("|", "/").replace("\\", "/")
    o = {"ok": ok, "crash": any(x < 0 for x in rcs), "rom": [], "labs": [], "defs": [], "msg": "".join(x if x < "\x7f" else "?" for x in msg)}
    if ok:
        if rom is None or sym is None or len(rom) != 0x1000:
            o["crash"], o["msg"] = True, "no ROM or symbol file"
            return o
        n = sum(1 for s in c["prog"])
        o["rom"] = list(rom[:1200])
        part = ""
        for ln in sym.decode("latin-1").split("\n"):
            ln = ln.strip()
            if ln.startswith("["):
                part = ln
            elif ln and not ln.startswith(";") and part in ("[labels]", "[definitions]"):
                a, name = ln.split(" ", 1)
                base = name[8:] if name.startswith("_sizeof_") else name
                if base.startswith(("SECTIONSTART_", "SECTIONEND_", "RAM_USAGE")):
                    continue
                v = int(a.split(":")[-1], 16)
                if v >= 0x80000000:
                    v -= 1 << 32
                o["labs" if part == "[labels]" else "defs"].append({"n": name, "v": v})
    return o


def to_tla(cid, c, obs):
    return {"id": cid, "big": c["big"], "fill": c["fill"], "prog": c["prog"], "exports": c["exports"], "alias": c["alias"], "unions": c["unions"], "padded": c["padded"],
            "none": c["none"], "obs": obs}


def p_layout(r, i):
    c = program(r)
    c["cpu"] = r.choice(CPUS)
    c["big"] = c["cpu"] == "68000"
    return c
