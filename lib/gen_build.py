"""Histories of spec/WlaBuild.tla: the same programs built under different circumstances, and builds with faults."""
import hashlib, random, zlib
import gen_link, prof_link, gen_calc, gen_asm, gen_data, gen_names

MODULE = "WlaBuild"
CPUS = sorted(set(["z80", "6502", "65816", "gb"] + gen_calc.CPUS + gen_asm.CPUS + gen_data.CPUS + gen_names.CPUS))
SOURCES = [(gen_link, prof_link.p_place), (gen_link, prof_link.p_rel), (gen_link, prof_link.p_ram), (gen_link, prof_link.p_discard), (gen_link, prof_link.p_ref),
           (gen_calc, gen_calc.p_linkcalc), (gen_calc, gen_calc.p_bank), (gen_asm, gen_asm.p_macro), (gen_asm, gen_asm.p_defs), (gen_asm, gen_asm.p_loop),
           (gen_data, gen_data.p_data), (gen_data, gen_data.p_text), (gen_names, gen_names.p_scope), (gen_names, gen_names.p_anon)]
ASM_QUIET = [[], [], ["-v"], ["-v1"], ["-v2"], ["-i"], ["-q"], ["-v", "-i"]]
LINK_QUIET = [[], [], ["-v"], ["-v1"], ["-v2"], ["-s"], ["-S"], ["-sE"], ["-S", "-A"], ["-S", "-D"], ["-v", "-S"], ["-s", "-A"]]
STALE = ["", "old", "WLAZ" + "\0" * 40, "x" * 70000]
BAD = "WLADX SEED"


def program(r, i):
    """a program of one of the other generators: files, [assembler steps], link step"""
    for _ in range(50):
        g, p = r.choice(SOURCES)
        c = p(r, i)
        j = g.to_job(c, r.random())
        st = j["steps"]
        if len(st) < 2 or st[-1][0] != "wlalink" or "cwd" in j or not all(s[1:2] == ["-o"] or "-o" in s for s in st[:-1]):
            continue
        txt = "\n".join(t if isinstance(t, str) else t.decode("latin-1") for t in j["files"].values())
        if "DBRND" in txt.upper() or "DWRND" in txt.upper() or "RND" in txt.upper() or "RANDOM" in txt.upper():
            continue
        return j["files"], st[:-1], st[-1]
    raise RuntimeError("no program")


def variant(r, files, asm, link, v, plain):
    """one build in a directory of its own: (list of steps)"""
    d = "d%d" % v if plain else r.choice(["d%d", "a b%d", "deep/er/d%d", "d%d.x"]) % v
    env = {} if plain else {"MALLOC_PERTURB_": str(r.randrange(1, 255)), "TZ": r.choice(["UTC", "Asia/Tokyo", "EST5EDT"]),
                            "LC_ALL": r.choice(["C", "C.UTF-8", "POSIX"]), "WLA_X": "y" * r.randrange(0, 3000)}
    aq = [] if plain else r.choice(ASM_QUIET)
    lq = [] if plain else r.choice(LINK_QUIET)
    has = set(link[1:-2])
    lq = [x for x in lq if x not in has]
    if any(x in has for x in ("-s", "-S", "-sE")):
        lq = [x for x in lq if x not in ("-s", "-S", "-sE")]
    lo = link[1:-2] + lq
    old, rom = link[-1], link[-1]
    if not plain and r.random() < .4:
        rom = r.choice(["other.bin", "x.smc", "r.rom"])
    put = {d + "/" + n: t for n, t in files.items()}
    ren = {}
    if not plain and r.random() < .4:
        lf = files[link[-2]]
        lf = lf if isinstance(lf, str) else lf.decode("latin-1")
        for s in asm:
            o = s[s.index("-o") + 1]
            if lf.count(o) == 1 and r.random() < .7:
                ren[o] = "n_" + o
        for o, n in ren.items():
            lf = lf.replace(o, n)
        put[d + "/" + link[-2]] = lf
    base = rom.rsplit(".", 1)[0]
    if not plain and r.random() < .5:       # leftovers of an earlier life
        for n in [rom, base + ".sym", base + ".lst", asm[0][asm[0].index("-o") + 1], base + ".map"]:
            if r.random() < .5:
                put[d + "/" + n] = r.choice(STALE)
    steps = [dict(t="world", put=put, tag="world")]
    for s in asm:
        o = s[s.index("-o") + 1]
        k = s.index("-o")
        rest = [ren.get(x, x) for x in s[1:]]
        lst = "-i" in aq
        steps.append(dict(t="tool", cmd=[s[0]] + aq + rest, cwd=d, env=env, exp="same", tag="assemble " + o, group=o,
                          outs=[dict(name=d + "/" + ren.get(o, o), key="obj %s %s" % (o, lst), must=True)]))
    opts = set(lo)
    symk = "sym %s" % " ".join(sorted(x for x in opts if x in ("-s", "-S", "-sE", "-A", "-D")))
    outs = [dict(name=d + "/" + rom, key="rom", must=True)]
    if opts & {"-s", "-S", "-sE"}:
        lists = "-A" in opts
        outs.append(dict(name=d + "/" + base + ".sym", key=symk + " " + rom + (" %s %s" % (sorted(ren), "-i" in aq) if lists else ""), must=False))
    steps.append(dict(t="tool", cmd=[link[0]] + lo + [link[-2], rom], cwd=d, env=env, exp="same", tag="link", group="link", outs=outs))
    return steps


def p_repro(r, i):
    files, asm, link = program(r, i)
    steps = []
    nv = r.choice([2, 3, 3, 4])
    for v in range(nv):
        steps += variant(r, files, asm, link, v, v == 0)
    if r.random() < .3:                     # build the first again, over its own outputs
        steps += [dict(s, tag=s["tag"] + " again") for s in variant(random.Random(0), files, asm, link, 0, True)[1:]]
    return dict(steps=steps)


# ---- faults
def lines(*x):
    return "\n" + "\n".join(x) + "\n"


ASM_FAULTS = {
    "directive": [lines(".QWERTY 1"), lines(".DBB 1")],
    "mnemonic": [lines(" FROBNICATE 1"), lines("lab_zz: %^&")],
    "data": [lines(".DB 256"), lines(".DB -129"), lines(".DW 65536"), lines(".DW -32769"), lines(".DB"), lines('.DB "abc'), lines(".DB (1"),
             lines(".DSB 3, 256"), lines(".DSB"), lines(".DS -1 0"), lines(".DBSIN 0"), lines(".DL 16777216")],
    "org": [lines(".BANK 20000 SLOT 0"), lines(".BANK 0 SLOT 77"), lines(".SLOT 99"), lines(".ORG -1"), lines(".BANK -1 SLOT 0"), lines(".SLOT -1"), lines(".BANK"), lines(".ORG"), lines(".ORGA -7")],
    "section": [lines('.SECTION "qz" ALIGN', ".ENDS"), lines('.SECTION qz QFREE', ".ENDS"), lines('.SECTION', ".ENDS"), lines('.SECTION "qz" FREE', ".ORG 3", ".ENDS"),
                lines('.SECTION "qz" FREE', ".BANK 0 SLOT 0", ".ENDS"), lines('.SECTION "qz" SIZE 2', ".DB 1, 2, 3", ".ENDS"), lines('.RAMSECTION "qz" SLOT 99 BANK 0', "qv DB", ".ENDS"),
                lines('.RAMSECTION "qz" SLOT 0 BANK 0', "qv DQQ", ".ENDS"), lines('.RAMSECTION "qz" SLOT 0 BANK 0', "qv INSTANCEOF qnone", ".ENDS")],
    "enum": [lines(".ENUM", ".ENDE"), lines(".ENUM 5", "qv DQQ", ".ENDE"), lines(".ENUM 5", "qv INSTANCEOF qnone", ".ENDE"), 
             lines(".DSTRUCT INSTANCEOF qnone VALUES", ".ENDST"), lines(".DSTRUCT qd INSTANCEOF qnone DATA 1"), lines(".STRUCT qs", "a DB", ".ENDST", ".DSTRUCT qd INSTANCEOF qs VALUES", "b: .DB 1", ".ENDST")],
    "table": [lines(".ASCTABLE", 'MAP "A" = 256', ".ENDA"), lines(".ASCTABLE", "XYZ", ".ENDA"), lines('.ASC "abc'), lines('.STRINGMAPTABLE qq "nowhere.tbl"'), lines('.STRINGMAP qnone, "a"'), lines(".INPUT"),
              lines(".ARRAYIN qnone INDEX 0 VALUE 1"), lines(".TABLE"), lines(".ROW 1"), lines(".FCLOSE qnone"), lines('.FREAD "x" y')],
    "block": [lines(".ENDS"), lines(".ENDIF"), lines(".ELSE"), lines(".ENDR"), lines(".ENDM"), lines(".IF 1"), lines(".IFDEF QQQQ"),
              lines('.SECTION "qz" FREE', ".DB 1"), lines(".MACRO qqm", ".DB 1"), lines(".ENUM 0"), lines('.RAMSECTION "qz" SLOT 0'), lines(".STRUCT qz"),
              lines('.SECTION "qz" FREE', '.SECTION "qy" FREE', ".DB 1", ".ENDS", ".ENDS"), lines(".MACRO qqm", ".ENDM", ".MACRO qqm", ".ENDM"), lines(".BREAK")],
    "file": [lines('.INCLUDE "nowhere.inc"'), lines('.INCBIN "nowhere.bin"'), lines('.INCBIN "p.bin" SKIP 100'), lines('.INCBIN "p.bin" READ 9999'), lines('.FOPEN "nowhere.bin" fpq'),
             lines(".FREAD nofp qq")],
    "user": [lines(".FAIL"), lines('.FAIL "message"'), lines(".ASSERT 1 == 2"), lines(".ASSERT 0"), lines(".FAIL 3")],
    "defs": [lines(".DEFINE"), lines(".DEFINE qzq 1", ".DEFINE qzq 2"), lines(".REDEFINE"), lines(".EXPORT"), lines(".IF qzqundefined == 1", ".ENDIF"), lines(".REPT qzundef", ".ENDR")],
    "label": [lines("qzdup:", ".DB 1", "qzdup:", ".DB 2")],
    "div": [lines(".DB 1 / 0"), lines(".IF 1 # 0", ".ENDIF")],
}
LINK_FAULTS = {
    "unknown": [lines(".DW qz_nowhere"), lines(".DB :qz_nowhere"), lines(".DW qz_nowhere + 1"), lines(".DB <(qz_nowhere+2)"), lines('.SECTION "qz" FREE KEEP', ".DW qz_nowhere", ".ENDS")],
    "range": [lines("qzl:", ".DB qzl - 999"), lines("qzm:", ".DB qzm + 512"), lines("qzn:", ".DW qzn + 70000 * 2")],
    "room": [lines('.SECTION "qz" SEMIFREE KEEP', ".DSB 3000000, 1", ".ENDS"), lines('.SECTION "qz" FORCE', ".DSB 3000000, 1", ".ENDS"), lines('.SECTION "qz" SUPERFREE', ".DSB 3000000, 1", ".ENDS"),
             lines('.RAMSECTION "qz" SLOT 0 BANK 0 KEEP', "qv DSB 3000000", ".ENDS"), lines(".DSB 3000000, 1"), lines(".ORG $FFFFFF", ".DB 1")],
}


def p_fault(r, i):
    files, asm, link = program(r, i)
    files = dict(files)
    files["p.bin"] = b"0123456789"
    steps = variant(r, files, asm, link, 0, True)
    kind = r.choice(["asm", "asm", "asm", "link", "link", "full", "full", "missing", "object", "where", "side", "side", "libs"])
    second = {k: v for k, v in files.items()}
    exp = {}
    env = {}
    extra = {}
    n = r.randrange(len(asm))
    src = asm[n][-1]
    o = asm[n][asm[n].index("-o") + 1]
    tag = kind
    if kind in ("asm", "link"):
        tab = ASM_FAULTS if kind == "asm" else LINK_FAULTS
        cls = r.choice(sorted(tab))
        flt = r.choice(tab[cls])
        t = second[src]
        t = t if isinstance(t, str) else t.decode("latin-1")
        second[src] = t + flt
        exp[o if kind == "asm" else "link"] = "fail"
        if kind == "link":
            exp[o] = "either"
        tag = "%s:%s" % (cls, flt.strip().replace("\n", "/"))
    b = variant(r, second, asm, link, 1, True)
    if kind != "side" and r.random() < .5:         # outputs of an earlier, successful build are around
        steps += [dict(t="world", put={}, copy=[("d0", "d1")], tag="copy")]
    put = b[0]["put"]
    todo = b[1:]
    if kind in ("asm", "full") and r.random() < .4:     # go on after unknown words
        todo = [dict(s, cmd=s["cmd"][:1] + ["-c"] + s["cmd"][1:]) if s["group"] != "link" else s for s in todo]
    if kind == "full":
        lim = r.choice([0, 1, 7, 40, 100, 130, 200, 300, 500, 1000, 1024, 2000, 4095, 4096, r.randrange(4200)])
        k = r.randrange(len(todo))
        todo[k] = dict(todo[k], limit=lim, exp="either")
        tag = "file size limit %d" % lim
    elif kind == "missing":
        k = r.randrange(len(todo))
        if todo[k]["group"] == "link":
            x = r.choice([todo[j]["outs"][0]["name"] for j in range(len(todo) - 1)] + ["d1/" + link[-2]])
        else:
            x = "d1/" + asm[k][-1]
        todo.insert(k, dict(t="world", put={}, drop=[x], tag="lost " + x))
        todo[k + 1] = dict(todo[k + 1], exp="fail")
        tag = "missing input"
    elif kind == "object":
        x = todo[r.randrange(len(todo) - 1)]["outs"][0]["name"]
        how = r.choice(["empty", "magic"])
        todo.insert(len(todo) - 1, dict(t="world", put={}, hurt=[(x, how, r.random())], tag="damaged " + x))
        todo[-1] = dict(todo[-1], exp="fail")
        tag = "damaged object: " + how
    elif kind == "where":
        k = r.randrange(len(todo))
        w = r.choice(["nodir/x", "isdir"])
        s = todo[k]
        c = list(s["cmd"])
        if s["group"] == "link":
            c[-1] = w
        else:
            c[c.index("-o") + 1] = w
        put["d1/isdir/f"] = "x"
        todo[k] = dict(s, cmd=c, exp="fail", outs=[dict(name="d1/" + w, key="x", must=True)])
        tag = "output cannot be written"
    elif kind == "side":        # another output of the linker cannot be written
        k = len(todo) - 1
        s = todo[k]
        c = list(s["cmd"])
        names = s["outs"]
        if not set(c) & {"-s", "-S", "-sE"}:
            c.insert(1, r.choice(["-s", "-S", "-sE"]))
        put["d1/out.sym/f"] = "x"
        names = [dict(x) for x in names if not x["name"].endswith(".sym")]
        todo[k] = dict(s, cmd=c, exp="fail", outs=names)
        tag = "symbol file cannot be written"
    elif kind == "libs":
        k = len(todo) - 1
        t = second[link[-2]]
        t = t if isinstance(t, str) else t.decode("latin-1")
        how = r.choice(["[libraries]\nnolib.l\n", "[libraries]\nbank 0 slot 0 nolib.l\n", "[objects]\nnoobj.o\n", "[nonsense]\nx.o\n", "[definitions]\nqdef\n", "[header]\nnohdr.bin\n", "[footer]\nnoftr.bin\n", "[ramsections]\nbank 0 slot 0 \"qnone\"\n", "[sections]\nbank 0 slot 0 \"qnone\"\n", "[sectionwriteorder]\nQFREE\n"])
        put["d1/" + link[-2]] = t + "\n" + how
        todo[k] = dict(todo[k], exp="fail")
        tag = "link file: " + how.replace("\n", "/")
    out = [dict(b[0], put=put)]
    for s in todo:
        if s["t"] == "tool":
            s = dict(s)
            g = s["group"]
            if kind in ("asm", "link") and g in (o, "link"):
                s["outs"] = [dict(x, key="faulty " + x["key"]) for x in s["outs"]]
            if g in exp:
                s["exp"] = exp[g]
            s["tag"] += " [" + tag + "]"
        out.append(s)
    steps += out
    return dict(steps=steps, fault=tag)


def to_job(c, seed):
    return {"files": {}, "steps": [], "history": c["steps"]}


def observe(c, res):
    return res["history"]


def to_tla(cid, c, obs):
    """what was expected to happen, with what happened"""
    steps = []
    ok0 = {}
    for s, o in zip(c["steps"], obs):
        x = dict(t=s["t"], tag=s["tag"], after=o["after"], rc=0, outs=[], exp="ok")
        if s["t"] == "tool":
            exp = s["exp"]
            if exp == "same":       # as in the first build
                if s["group"] in ok0:
                    exp = "ok" if ok0[s["group"]] else "fail"
                else:
                    exp = "either"
                    ok0[s["group"]] = o["rc"] == 0
            elif s["group"] in ok0 and not ok0[s["group"]]:
                exp = "fail"
            x.update(rc=0 if o["rc"] == 0 else 2 if o["rc"] < 0 or o["rc"] > 127 else 1, outs=s["outs"], exp=exp)
        steps.append(x)
        if s["t"] == "tool" and o["rc"] != 0 and s["group"] != "link":
            break                   # nobody links after that
    return {"id": cid, "steps": steps}
