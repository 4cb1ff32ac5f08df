"""Abstract programs for spec/WlaLink.tla, their rendering to WLA DX source and the observation of the tools."""
import random, re, zlib
from run import run_jobs, sym_obs

MODULE = "WlaLink"
ROMORDER = ["FORCE", "SEMISUPERFREE", "SEMISUBFREE", "SEMIFREE", "FREE", "SUPERFREE", "OVERWRITE"]
RAMORDER = ["RAM_FORCE", "RAM_SEMISUBFREE", "RAM_SEMIFREE", "RAM_FREE"]
CPUS_LE = ["z80", "6502", "65816", "gb", "spc700", "huc6280", "8080", "65c02"]
CPUS_BE = ["6800", "68000", "6809", "6801"]
BIG = set(CPUS_BE)
WD = {"8": ".DB", "16": ".DW", "24": ".DL", "32": ".DD"}


def num(r, v):
    """one of the notations for a literal"""
    if v < 0:
        return "-" + num(r, -v)
    k = r.randrange(6)
    if k == 0:
        return "$%X" % v
    if k == 1:
        return "$%04x" % v
    if k == 2:
        return "0x%X" % v
    if k == 3:
        return "%" + bin(v)[2:]
    return str(v)


# ---- expressions: nested tuples -> text and RPN
def etext(e):
    k = e[0]
    if k == "n":
        return str(e[1]) if e[1] >= 0 else "(0-%d)" % -e[1]
    if k == "l":
        return e[1]
    if k == "b":
        return ":" + e[1]
    if k == "fn":
        return "%s(%s)" % (e[1], ", ".join(etext(a) for a in e[2:]))
    if k == "un":
        return {"neg": "(-%s)", "lobyte": "(<%s)", "hibyte": "(>%s)"}[e[1]] % etext(e[2])
    return "(%s%s%s)" % (etext(e[2]), e[1], etext(e[3]))


def erpn(e, out=None):
    out = [] if out is None else out
    k = e[0]
    if k == "n":
        out.append({"k": "n", "v": e[1]})
    elif k in ("l", "b"):
        n = e[1]
        if "." in n and not n.startswith("."):
            pre, post = n.split(".", 1)
        else:
            pre, post = "", n
        out.append({"k": k, "n": n, "pre": pre, "post": post, "loc": n.startswith("_")})
    else:
        args = e[2:]
        for a in args:
            erpn(a, out)
        out.append({"k": "o", "o": e[1], "a": len(args)})
    return out


def ref(w, e, src=None, pre=()):
    """reference item; src: instruction format with {} for the expression"""
    t = etext(e)
    if t.startswith("(") and t.endswith(")") and e[0] == "op":
        t = t[1:-1]
    if src is None:
        src = WD[w] + " {}"
    return {"k": "r", "pre": list(pre), "w": w, "x": erpn(e), "_s": src.format(t)}


def data(vals):
    return {"k": "d", "v": list(vals)}


def label(n):
    return {"k": "l", "n": n, "loc": n.startswith("_")}


def var(n, sz, how=None):
    return {"k": "v", "n": n, "sz": sz, "loc": n.startswith("_"), "_h": how}


SECDEF = dict(t="sec", obj=1, name="", kind="FREE", prio=0, bank=-1, slot=-1, base=-1, org=-1, align=1, offset=0,
              wlo=-1, whi=-1, bitw=0, banks=[], keep=False, rel="", target="", ns="", size=-1, ret=False, items=[])


def sec(name, **k):
    s = dict(SECDEF)
    s["banks"] = []
    s["items"] = []
    s.update(k, name=name)
    if name.startswith("!"):
        s["keep"] = True
    return s


def blk(obj, items):
    return {"t": "blk", "obj": obj, "items": items}


def setpos(obj, bank=0, slot=0, base=0, org=0):
    return {"t": "set", "obj": obj, "bank": bank, "slot": slot, "base": base, "org": org}


def mkcase(banks, slots, els, cpu="z80", fill=0, flags=(), romorder=None, ramorder=None, nobj=1, link=()):
    return dict(banks=banks, slots=slots, els=els, cpu=cpu, fill=fill, flags=list(flags), nobj=nobj,
                romorder=romorder, ramorder=ramorder, link=list(link))


# ---------------------------------------------------------------- rendering
def header(c):
    o = [".MEMORYMAP", "DEFAULTSLOT 0"]
    for i, (st, sz) in enumerate(c["slots"]):
        o.append("SLOT %d START $%X SIZE $%X" % (i, st, sz))
    o += [".ENDME", ".ROMBANKMAP", "BANKSTOTAL %d" % len(c["banks"])]
    k = 0
    while k < len(c["banks"]):
        n = 1
        while k + n < len(c["banks"]) and c["banks"][k + n] == c["banks"][k]:
            n += 1
        o += ["BANKSIZE $%X" % c["banks"][k], "BANKS %d" % n]
        k += n
    o += [".ENDRO", ".EMPTYFILL %d" % c["fill"]]
    return o


def ritems(r, items, ram=False, sym=False):
    o = []
    pend = []
    if sym:
        for it in items:
            x = ritems(r, [it], ram) if it["k"] != "s" else [r.choice([".SYM ", ".SYMBOL "]) + it["n"] if it["n"] else r.choice([".BR", ".BREAKPOINT"])]
            if it["k"] in ("d", "r"):
                x = ["  .DB " + ", ".join(num(r, v) for v in it["v"])] if it["k"] == "d" else x
                x = [y + "  ; #%d" % it["tag"] for y in x]
            o += x
            if r.random() < .1:
                o.append(r.choice(["", "; nothing", "  ; #0", "/* two\nlines */"]))
        return o

    def flush():
        while pend:
            n = r.choice([len(pend), len(pend), 1, min(len(pend), 8)])
            o.append("  .DB " + ", ".join(str(x) for x in pend[:n]))
            del pend[:n]
    for it in items:
        if it["k"] == "d":
            pend.extend(it["v"])
            continue
        flush()
        if it["k"] == "l":
            o.append(it["n"] + ":")
        elif it["k"] == "v":
            n = it["n"] or "."
            sz = it["sz"]
            h = it.get("_h") or r.randrange(3)
            if sz == 1 and h == 0:
                o.append("  %s DB" % n)
            elif sz == 2 and h == 0:
                o.append("  %s DW" % n)
            elif sz == 3 and h == 0:
                o.append("  %s DL" % n)
            elif sz == 4 and h == 0:
                o.append("  %s DD" % n)
            elif sz % 2 == 0 and h == 1:
                o.append("  %s DSW %d" % (n, sz // 2))
            else:
                o.append("  %s%s DSB %d" % (n, r.choice(["", ":"]) if it["n"] else "", sz))
        elif it["k"] == "r":
            if it["pre"] and not it["_s"]:
                raise ValueError
            o.append("  " + it["_s"])
    flush()
    return o


def banklist(r, banks):
    out, k = [], 0
    while k < len(banks):
        n = 1
        if k + 1 < len(banks) and abs(banks[k + 1] - banks[k]) == 1:
            d = banks[k + 1] - banks[k]
            while k + n < len(banks) and banks[k + n] - banks[k + n - 1] == d:
                n += 1
        if n > 1:
            out.append("%d-%d" % (banks[k], banks[k + n - 1]))
        else:
            out.append(str(banks[k]))
        k += n
    return "/".join(out)


def lib_header(c):
    return []


def chop(r, n, lines, depth, files, pre):
    """some runs of whole elements go to included files, the others stay"""
    out, k = [], 0
    while k < len(lines):
        m = r.choice([1, 1, 2, 3, 5])
        run = lines[k:k + m]
        k += m
        if depth > 0 and r.random() < .4:
            f = "%s%d.inc" % (pre, len(files))
            files[f] = ""
            files[f] = "\n".join(chop(r, n, run, depth - 1, files, pre)) + "\n"
            out.append('.INCLUDE "%s"' % f)
        else:
            for x in run:
                out += x
    return out


def rsec(r, c, e):
    lib = e["obj"] in c.get("libs", {})
    ram = e["kind"].startswith("RAM_")
    a = ['.%s "%s"' % ("RAMSECTION" if ram else "SECTION", e["name"])]
    if e["ns"]:
        a.append('NAMESPACE "%s"' % e["ns"])
    p = []
    if e["base"] >= 0 and not lib:
        p.append("BASE %s" % num(r, e["base"]))
    if e["bank"] >= 0 and not lib:
        p.append("BANK %d" % e["bank"])
    if e["slot"] >= 0 and not lib:
        p.append("SLOT %d" % e["slot"])
    if e["size"] >= 0:
        p.append("SIZE %d" % e["size"])
    if e["align"] != 1 or not (lib and ram) and r.random() < .1:
        p.append("ALIGN %s" % num(r, e["align"]))
    if e["offset"]:
        p.append("OFFSET %s" % num(r, e["offset"]))
    if e["prio"]:
        p.append("PRIORITY %d" % e["prio"])
    if e["wlo"] >= 0:
        p.append("WINDOW $%X $%X" % (e["wlo"], e["whi"]))
    if e["bitw"]:
        p.append("BITWINDOW %d" % e["bitw"])
    if e["banks"]:
        p.append("BANKS " + banklist(r, e["banks"]))
    if e["keep"] and not e["name"].startswith("!"):
        p.append("KEEP")
    if e["ret"]:
        p.append("RETURNORG")
    if e["rel"]:
        p.append('%s "%s"' % ("APPENDTO" if e["rel"] == "append" else "AFTER", e["target"]))
    kd = e["kind"].replace("RAM_", "")
    if kd != "FREE" or r.random() < .5:
        p.append(kd)
    r.shuffle(p)
    if e["org"] >= 0:
        # ORGA needs the slot to be known
        if e["slot"] >= 0 and e["org"] < c["slots"][e["slot"]][1] and r.random() < .4:
            p.append("ORGA $%X" % (e["org"] + c["slots"][e["slot"]][0]))
        else:
            p.append("ORG %s" % num(r, e["org"]))
    return " ".join(a + p)


def render(c, r):
    """-> {filename: text} plus the link file"""
    files = {}
    libs = c.get("libs", {})
    for o in range(1, c["nobj"] + 1):
        body = []
        for e in c["els"]:
            if e.get("obj") != o:
                continue
            t = []
            if e["t"] == "set":
                if r.random() < .5 or min(x[1] for x in c["slots"]) < max(c["banks"]):
                    t += [".BANK %d SLOT %d" % (e["bank"], e["slot"])]
                else:
                    t += [".BANK %d" % e["bank"], ".SLOT %d" % e["slot"]]
                t += [".BASE %s" % num(r, e["base"]),
                      (".ORG %s" % num(r, e["org"])) if r.random() < .6 else
                      (".ORGA $%X" % (e["org"] + c["slots"][e["slot"]][0]))]
            elif e["t"] == "blk":
                t += ritems(r, e["items"], False, c.get("sym"))
            else:
                t.append(rsec(r, c, e))
                t += ritems(r, e["items"], e["kind"].startswith("RAM_"), c.get("sym"))
                t.append(".ENDS")
            body.append(t)
        inc = {}
        for d in c.get("defs", []):
            if d["obj"] == o:
                x = r.choice([".DEFINE %s %s EXPORT", ".DEF %s %s EXPORT", ".DEFINE %s %s\n.EXPORT " + d["n"]]) if d["export"] else ".DEFINE %s %s"
                body.insert(r.randint(0, len(body)), [x % (d["n"], num(r, d["v"]))])
        t = (lib_header(c) if o in libs else header(c)) + chop(r, o, body, c.get("inc", 0), inc, "p%d_" % o)
        files.update(inc)
        files["o%d.s" % o] = "\n".join(t) + "\n"
    lk = []
    state = ""
    for o in range(1, c["nobj"] + 1):
        if o in libs:
            d = libs[o]
            sa = c["slots"][d["slot"]][0]
            a = ["BANK %s" % num(r, d["bank"]), "SLOT %s" % (num(r, sa) if sa >= 256 and r.random() < .3 else d["slot"])]
            if d["base"] or r.random() < .2:
                a.append("BASE %s" % num(r, d["base"]))
            r.shuffle(a)
            lk += ["[libraries]"] if state != "lib" or r.random() < .1 else []
            lk.append(" ".join(a if r.random() < .5 else [x.lower() for x in a]) + " %so%d.l" % ("lb/" if c.get("libdir") == 1 else "", o))
            state = "lib"
        else:
            lk += ["[objects]"] if state != "obj" else []
            lk.append("o%d.o" % o)
            state = "obj"
    if c["romorder"]:
        lk += ["[sectionwriteorder]"] + c["romorder"]
    if c["ramorder"]:
        lk += ["[ramsectionwriteorder]"] + [x[4:] for x in c["ramorder"]]
    lk += c["link"]
    files["link"] = "\n".join(lk) + "\n"
    if c.get("libdir"):
        files["lb/x"] = ""
    return files


def to_job(c, seed):
    r = random.Random(seed)
    files = render(c, r)
    steps = [["wla-" + c["cpu"]] + c.get("aflags", []) + (["-l", "%so%d.l" % ("lb/" if c.get("libdir") else "", o)] if o in c.get("libs", {}) else ["-o", "o%d.o" % o]) + ["o%d.s" % o] for o in range(1, c["nobj"] + 1)]
    steps.append(["wlalink"] + c["flags"] + (["-L", "lb"] if c.get("libdir") == 2 else []) + ["-S", "link", "out.rom"])
    if c.get("sym"):
        steps.append(["wlalink"] + [x for x in c["flags"] if x != "-A"] + ["-sE" if c["alt"] == "equ" else "-s", "link", "alt.rom"])
        return {"files": files, "steps": steps, "collect": ["out.rom", "out.sym", "alt.rom", "alt.sym"]}
    return {"files": files, "steps": steps, "collect": ["out.rom", "out.sym"]}


def observe(c, res):
    """the recorded execution, in the form the spec compares with"""
    rc = 0 if all(x == 0 for x in res["rcs"]) and len(res["rcs"]) == c["nobj"] + (2 if c.get("sym") else 1) else 1
    if any(x < 0 for x in res["rcs"]):
        rc = 2      # crash or timeout: never acceptable
    rom = res["files"].get("out.rom")
    o = {"rc": rc, "hasrom": rom is not None, "rom": list(rom or b""), "labels": [], "secs": [], "rams": [], "usage": [],
         "syms": [], "brks": [], "nbrk": 0, "defs": [], "sizes": [], "lines": [], "sums": True, "alt": []}
    if rc == 0 and res["files"].get("out.sym") is not None:
        s = sym_obs(res["files"]["out.sym"])
        for k in ("labels", "secs", "rams", "usage"):
            o[k] = s[k]
        if c.get("sym"):
            sym_more(c, res, s, o)
    return o


def sym_more(c, res, s, o):
    raw = s["raw"]
    files = render(c, random.Random(c["_rs"]))

    def place(x):
        return [int(y, 16) for y in x.split(":")]
    for ln in raw.get("symbols", []):
        a, n = ln.split(" ", 1)
        o["syms"].append([n] + place(a))
    o["brks"] = [place(x) for x in raw.get("breakpoints", [])]
    o["nbrk"] = len(o["brks"])
    for n, v in s["defs"]:
        v = v - (1 << 32) if v >> 31 else v
        if n.startswith("_sizeof_"):
            o["sizes"].append([n[8:], v])
        else:
            o["defs"].append([n, v])
    src = {}
    ok = True
    for ln in raw.get("source files v2", []):
        a, crc, n = ln.strip().split(" ", 2)
        src[a] = n
        ok = ok and n in files and zlib.crc32(files[n].encode("latin-1")) == int(crc, 16)
    if "-A" in c["flags"]:
        ok = ok and set(src.values()) >= set(f for f in files if f.endswith((".s", ".inc"))) and raw.get("rom checksum") == ["%08x" % zlib.crc32(res["files"]["out.rom"])]
    for ln in raw.get("addr-to-line mapping v2", []):
        a, b, m, w = ln.split(" ")
        w = w.rsplit(":", 1)
        t = files.get(src.get(w[0]), "").split("\n")
        k = int(w[1], 16)
        t = re.search(r"; #(\d+)$", t[k - 1]) if 0 < k <= len(t) else None
        o["lines"].append([int(a, 16)] + place(b) + [int(m, 16), int(t.group(1)) if t else -1])
    o["sums"] = ok and res["files"].get("alt.rom") == res["files"].get("out.rom")
    for ln in (res["files"].get("alt.sym") or b"").decode("latin-1").splitlines():
        m = re.match(r"([0-9a-f]+):([0-9a-f]+) (.*)$|(.*): equ ([0-9a-f]+)H$", ln)
        if m:
            x = [m.group(3), int(m.group(1), 16), int(m.group(2), 16)] if m.group(3) else [m.group(4), 0, int(m.group(5), 16)]
            if not x[0].startswith(("RAM_USAGE_", "SECTIONSTART_", "SECTIONEND_")):
                o["alt"].append(x)


def clean(x):
    if isinstance(x, dict):
        return {k: clean(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


def to_tla(cid, c, obs):
    fl = c["flags"]
    return {"id": cid, "be": c["cpu"] in BIG, "fill": c["fill"], "banks": c["banks"], "slots": [list(s) for s in c["slots"]],
            "strict": bool(c.get("strict")), "discard": "-d" in fl, "nosort": "-nS" in fl, "priram": "-pR" in fl,
            "prirom": "-pS" in fl,
            "romorder": c["romorder"] or ROMORDER, "ramorder": c["ramorder"] or RAMORDER,
            "els": clean(c["els"]), "obs": obs, "sym": bool(c.get("sym")), "lines": "-A" in fl and "-i" in c.get("aflags", []), "nosizes": "-D" in fl,
            "defs": c.get("defs", []), "alt": c.get("alt", "")}
