"""Programs of spec/WlaNames.tla: labels in sections, files, namespaces, macros and objects, and references to them."""
import random

MODULE = "WlaNames"
CPUS = ["z80", "gb", "6502", "huc6280"]
JUMP = {"z80": "JP", "gb": "JP", "6502": "JMP", "huc6280": "JMP"}
REL = {"z80": "JR", "gb": "JR", "6502": "BNE", "huc6280": "BRA"}
BANK = 1024
SIGNS = ["-", "--", "---", "+", "++", "+++", "__"]
TOPS = ["main", "Main", "loop", "Q", "qq", "zzz", "data1", "w_1", "PQR", "foo", "bar", "baz", "tab", "n1x", "go", "Go2", "end_", "ww", "k", "init"]
KIDS = ["c", "d", "ee", "x1", "loop", "_u"]
LOCS = ["_x", "_y", "_bar", "_fx", "_loop", "_1", "_n"]


class G:
    def __init__(self, r, w):
        self.r, self.w, self.prog = r, w, []
        self.file = self.sec = self.nsec = 0
        self.at = 0                     # bytes used in the chunk
        self.used = {}                  # taken global names
        self.macs = 0
        self.secns = {}
        self.sizes = {}

    def add(self, t, **k):
        self.prog.append(dict(t=t, **k))

    # where a plain label belongs; the children of labels that belong elsewhere are not documented
    def here(self):
        ns = self.secns.get(self.sec, "") if self.sec else ""
        return (ns, "" if ns else self.inc)

    # the python side keeps just enough of the scopes to choose sensible names
    def label(self):
        r, w = self.r, self.w
        par = self.par[-1]
        lv = max(par) if par else -1
        k = r.random()
        if par and self.home[-1] == self.here() and k < w.get("kids", .35) and (self.kidsok or len(par) > 0):
            at = r.choice([1, lv + 1, lv + 1, max(1, lv)]) if r.random() < .97 else lv + 2
            at = max(1, min(at, 5))
            n = r.choice(KIDS)
            o = max(l for l in par if l < at)
            key = par[o] + [""] * (at - 1 - o) + [n]
        else:
            at = 0
            n = r.choice(LOCS) if r.random() < w.get("locals", .25) else r.choice(TOPS)
            key = [n]
        if self.child:                  # in a CHILDLABELS macro
            at = r.choice([0, 0, 1])
            n = r.choice(KIDS)
            base = self.child_lvl + 1 + at
            o = max(l for l in par if l < base)
            key = par[o] + [""] * (base - 1 - o) + [n]
            lvl = base
        else:
            lvl = at
        loc = key[0][0] == "_"
        ns = self.secns.get(self.sec, "")
        inc = "" if loc or ns else self.inc
        if lvl > 0:
            inc = self.keyinc[-1]
        else:
            self.keyinc[-1] = inc
        scope = (("s", self.sec, self.ctxid if loc else 0) if loc and self.sec else ("f", self.file, self.ctxid) if loc else ("n", ns) if ns else ("g", inc))
        full = (scope, tuple(key))
        if full in self.used and r.random() > .012:
            return
        self.used[full] = 1
        for l in [l for l in par if l >= lvl]:
            del par[l]
        par[lvl] = key
        if lvl == 0:
            self.home[-1] = self.here()
        self.lvl[-1] = lvl
        self.names.append(dict(key=key, loc=loc, sec=self.sec, file=self.file, ns=ns, inc=inc, ctx=self.ctxid))
        self.add("lab", at=at, id=n, loc=n[0] == "_")
        if lvl == 0:
            self.lastsec = (self.sec, self.file)

    def anon(self):
        n = self.r.choice(SIGNS)
        self.anons.append((len(self.prog), n, self.file, self.sec, self.actx))
        self.add("anon", n=n)

    def ref(self):
        r, w = self.r, self.w
        form = r.choice(["dw", "dw", "calc", "jp", "bank", "rel" if r.random() < .1 else "jp"])
        x = dict(form=form, ns="", at=0, p=[], loc=False, anon="", last=False, add=0, q=False)
        k = r.random()
        if k < w.get("anons", .3):
            x["pick"] = dict(anon=len(self.prog), file=self.file, sec=self.sec, actx=self.actx)
        elif k < w.get("anons", .3) + .04 and self.lastsec == (self.sec, self.file) and 0 in self.par[-1] and not self.child:
            x["last"] = True
        else:
            x["pick"] = dict(par={l: list(v) for l, v in self.par[-1].items()} if self.home[-1] == self.here() else {}, sec=self.sec, file=self.file, inc=self.inc, ns=self.secns.get(self.sec, ""),
                             ctx=self.ctxid, child=self.child_lvl + 1 if self.child else 0)
        if x["form"] == "calc":
            x["add"] = r.choice([1, 2, 5])
        self.prog.append(dict(t="ref", **x))
        self.at += 3

    def pick(self, x):
        """choose a name for a reference, most of the time one that can be reached"""
        r = self.r
        p = x.pop("pick")
        if "anon" in p:
            x["add"] = 0
        if "anon" in p:
            good = [(i, n) for i, n, f, s, c in self.anons if f == p["file"] and s == p["sec"] and c == p["actx"]]
            al = []
            for i, n in good:
                if n == "__":
                    al.append("_b" if i < p["anon"] else "_f")
                elif (n[0] == "-") == (i < p["anon"]):
                    al.append(n)
            if not al:
                if r.random() < .97:
                    x.update(form="dw", p=[self.first], loc=False)
                    return
                al = ["-", "--", "+", "++", "_f", "_b"]
            x["anon"] = r.choice(al)
            forms = ["jp", "jp", "rel"]
            if x["anon"][0] == "_":
                forms += ["dw", "calc"]
            x["form"] = r.choice(forms)
            if x["form"] == "calc":
                x["add"] = r.choice([1, 2, 5])
            return
        cands = []
        for n in self.names:
            if n["loc"]:
                ok = n["ctx"] == p["ctx"] and (n["sec"] == p["sec"] if n["sec"] else n["file"] == p["file"])
            else:
                ok = True
            if ok or r.random() < .004:
                near = n["file"] == p["file"] and n["sec"] == p["sec"]
                cands += [n] * (3 if near else 1)
        if not cands:
            x["p"] = [self.first]
            return
        if r.random() < .006:
            x["p"] = [r.choice(TOPS + LOCS)]
            x["loc"] = x["p"][0][0] == "_"
            return
        n = r.choice(cands)
        key = n["key"]
        # through the parents
        opts = []
        for l, v in p["par"].items():
            if len(key) > len(v) and key[:len(v)] == v and all(key[len(v):]):
                at = l + 1
                if p["child"]:
                    if at >= p["child"]:
                        opts.append((at - p["child"], key[len(v):]))
                else:
                    opts.append((at, key[len(v):]))
        if opts and r.random() < .7 or (opts and p["child"]):
            x["at"], x["p"] = r.choice(opts)
            x["q"] = bool(p["child"])
            return
        if any(not e for e in key):
            key = key[:1]
        x["p"] = list(key)
        x["loc"] = key[0][0] == "_"
        if x["loc"]:
            return
        if n["ns"] and (n["ns"] != p["ns"] or r.random() < .3) and r.random() < .98:
            x["ns"] = n["ns"]
        elif n["inc"] and (n["inc"] != p["inc"] or r.random() < .3) and r.random() < .98:
            x["ns"] = n["inc"]

    def chunk_items(self, n, macro=True):
        r, w = self.r, self.w
        for _ in range(n):
            if self.at > 70:
                return
            k = r.random()
            if k < .3:
                self.label()
                if r.random() < .7:
                    self.pad()
            elif k < .3 + w.get("anonl", .15) and not self.child:
                self.anon()
            elif k < .8:
                self.ref()
            elif k < .87 and macro and not self.child and len(self.par) < 3:
                self.macro()
            else:
                self.pad()

    def pad(self):
        n = self.r.choice([1, 1, 2, 3])
        self.add("pad", n=n)
        self.at += n

    def macro(self):
        r, w = self.r, self.w
        k = r.random()
        child = k < .25 and bool(self.par[-1]) and self.home[-1] == self.here() and len(self.par) == 1 and self.lvl[-1] < 4
        kind = r.choice(["ISOLATED", "ISOLATED", "ISOLATELOCAL", "ISOLATEUNNAMED"])
        if len(self.par) > 1:
            kind = "ISOLATED"
        un, lo = kind != "ISOLATELOCAL", kind != "ISOLATEUNNAMED"
        self.macs += 1
        mid = self.macs
        b = len(self.prog)
        times = 2 if r.random() < .3 and not child else 1
        self.add("in", m=mid, child=child, un=un, lo=lo, kind="CHILDLABELS" if child else kind, call=0)
        save = (self.ctxid, self.kidsok, self.actx)
        if child:
            self.child, self.child_lvl = True, self.lvl[-1]
            keep = {l: v for l, v in self.par[-1].items()}
            self.chunk_items(r.randrange(2, 6), False)
            self.child = False
            self.lvl[-1] = self.child_lvl
        else:
            self.nctx += 1
            self.actx = self.nctx if un else 0
            self.ctxid = self.nctx if lo else (self.ctxid if False else 0)
            self.par.append({})
            self.lvl.append(0)
            self.home.append(None)
            self.keyinc.append("")
            old = self.w
            # what a macro does to child labels and names when it isolates only one kind is not documented
            self.w = dict(old, kids=.35 if kind == "ISOLATED" else 0, locals=.6 if lo else 0)
            self.chunk_items(r.randrange(2, 7), kind == "ISOLATED")
            self.w = old
            self.par.pop()
            self.lvl.pop()
            self.home.pop()
            self.keyinc.pop()
        self.ctxid, self.kidsok, self.actx = save
        self.add("out", m=mid, child=child)
        self.lastsec = None
        body = self.prog[b:]
        glob = any(s["t"] == "lab" and s["at"] == 0 and not s["loc"] or s["t"] == "in" and s is not body[0] for s in body)
        if times == 2 and not glob and lo and un and self.at < 45:
            self.again.append((b, len(self.prog)))
            self.at *= 2

    def section(self, items):
        r, w = self.r, self.w
        self.nsec += 1
        ns = r.choice(["n1", "n2"]) if r.random() < w.get("ns", .2) else ""
        self.secns[self.nsec] = ns
        self.add("sec", name="S%d" % self.nsec, ns=ns)
        self.sec = self.nsec
        self.chunk_items(items)
        self.pad()
        self.add("ends")
        self.sec = 0

    def run(self):
        r, w = self.r, self.w
        self.names, self.again = [], []
        self.nctx = 0
        self.anons, self.actx, self.first = [], 0, "First"
        nfiles = r.choice([1, 1, 2, 2, 3])
        place = 0
        self.ctxid, self.kidsok, self.child, self.child_lvl = 0, True, False, 0
        for f in range(nfiles):
            self.file += 1
            self.add("file")
            self.par, self.lvl, self.home, self.keyinc, self.lastsec, self.inc = [{}], [0], [None], [""], None, ""
            self.cansec, self.taken = [], []
            depth = 0
            if f == 0:
                self.add("org", a=2 * BANK - 16)
                self.add("lab", at=0, id=self.first, loc=False)
                self.add("pad", n=1)
                self.par[-1][0] = [self.first]
            for c in range(r.randrange(1, 5)):
                if place >= 2 * BANK - 400:
                    break
                if depth == 0 and r.random() < w.get("incs", .2):
                    self.inc = r.choice(["m1", "m2", ""]) if r.random() < .9 else ""
                    self.lastsec = None
                    self.add("inc", ns=self.inc)
                    depth = 1
                self.add("org", a=place)
                self.at = 0
                n = r.randrange(3, 12)
                if r.random() < w.get("secs", .55):
                    self.section(n)
                else:
                    self.sec = 0
                    self.chunk_items(n)
                    self.pad()
                place += 260
                if place % BANK > BANK - 260:
                    place = (place // BANK + 1) * BANK
                if depth and r.random() < .5:
                    self.add("endinc")
                    self.inc, depth = "", 0
                    self.lastsec = None
            if depth:
                self.add("endinc")
                self.inc = ""
        for b, e in sorted(self.again, reverse=True):
            body = self.prog[b:e]
            dup = [dict(s) for s in body]
            dup[0] = dict(dup[0], call=1)
            for s in body:
                if s["t"] == "ref" and "pick" in s:
                    self.pick(s)
            for s, d in zip(body, dup):
                if s["t"] == "ref":
                    d.update(s)
                    d.pop("pick", None)
            self.prog[e:e] = dup
        for s in self.prog:
            if s["t"] == "ref" and "pick" in s:
                self.pick(s)
        return self.prog


def name(s):
    t = "@" * s["at"] + "@".join(s["p"])
    if s["q"]:
        t = "?" + t
    return (s["ns"] + "." if s["ns"] else "") + t


def line(r, cpu, s):
    t = s["t"]
    if t == "org":
        return ".BANK %d SLOT 0\n.ORG $%X" % (s["a"] // BANK, s["a"] % BANK)
    if t in ("sec", "app"):
        return '.SECTION "%s"%s%s' % (s["name"], ' NAMESPACE "%s"' % s["ns"] if s["ns"] else "", " FORCE" if t == "sec" else ' APPENDTO "S%d"' % s["to"])
    if t == "ends":
        return ".ENDS"
    if t == "lab":
        return "@" * s["at"] + s["id"] + (":" if s["at"] == 0 or r.random() < .7 else "")
    if t == "anon":
        return s["n"]
    if t == "pad":
        return ".DB " + ", ".join(["$%X" % r.randrange(200, 240) for _ in range(s["n"])])
    if t == "ref":
        n = s["anon"] or ("__label__" if s["last"] else name(s))
        f = s["form"]
        if f == "dw":
            return ".DW " + n
        if f == "calc":
            return ".DW %s" % r.choice(["%s + %d" % (n, s["add"]), "%s+%d" % (n, s["add"]), "%d + %s" % (s["add"], n)])
        if f == "bank":
            return ".DB :" + n
        return "    %s %s" % ((JUMP if f == "jp" else REL)[cpu], n)
    raise KeyError(t)


def to_job(c, seed):
    r = random.Random(seed)
    files, objs = {}, []
    stack = []
    outs = None
    macros = []

    def begin():
        return []

    for s in c["prog"]:
        t = s["t"]
        if t == "file":
            if objs:
                files["m%d.s" % len(objs)] = (head, macros, main)
            objs.append("m%d.o" % (len(objs) + 1))
            head = [".MEMORYMAP", "DEFAULTSLOT 0", "SLOT 0 START 0 SIZE $400", ".ENDME", ".ROMBANKMAP", "BANKSTOTAL 2", "BANKSIZE $400", "BANKS 2",
                    ".ENDRO"]
            macros, main = [], []
            cur, stack = main, []
            ninc = 0
        elif t == "inc":
            ninc += 1
            fn = "i%d_%d.s" % (len(objs), ninc)
            body = []
            cur.append('.INCLUDE "%s"%s' % (fn, ' NAMESPACE "%s"' % s["ns"] if s["ns"] else ""))
            stack.append(cur)
            cur = body
            incfile = fn
        elif t == "endinc":
            files[incfile] = ("\n".join(cur) + "\n").encode()
            cur = stack.pop()
        elif t == "in":
            cur.append(" MAC%d" % s["m"])
            stack.append(cur)
            cur = []
            if not s["call"]:
                cur.append(".MACRO MAC%d %s" % (s["m"], s["kind"]))
        elif t == "out":
            if cur and cur[0].startswith(".MACRO"):
                macros += cur + [".ENDM"]
            cur = stack.pop()
        else:
            cur.append(line(r, c["cpu"], s))
    files["m%d.s" % len(objs)] = (head, macros, main)
    for n, x in list(files.items()):
        if isinstance(x, tuple):
            files[n] = ("\n".join(x[0] + x[1] + x[2]) + "\n").encode()
    files["link"] = "[objects]\n" + "\n".join(objs) + "\n"
    steps = [["wla-" + c["cpu"], "-o", o, o[:-1] + "s"] for o in objs] + [["wlalink", "link", "out.rom"]]
    return {"files": files, "steps": steps, "collect": ["out.rom"]}


def observe(c, res):
    rcs = res["rcs"]
    ok = all(x == 0 for x in rcs) and len(rcs) == 1 + sum(s["t"] == "file" for s in c["prog"])
    rom = res["files"].get("out.rom")
    msg = b" ".join(res["outs"])[-200:].decode("latin-1").replace("\n", " ").replace('"', "'").replace("|", "/").replace("\\", "/")
    o = {"ok": ok, "crash": any(x < 0 for x in rcs), "rom": [], "msg": "".join(x if x < "\x7f" else "?" for x in msg)}
    if ok:
        if rom is None or len(rom) != 2 * BANK:
            o["crash"], o["msg"] = True, "no ROM or wrong size"
        else:
            o["rom"] = list(rom.rstrip(b"\0")) + [0, 0, 0, 0]
    return o


def to_tla(cid, c, obs):
    prog = [{k: v for k, v in s.items() if k not in ("m", "kind", "call", "name")} for s in c["prog"]]
    return {"id": cid, "prog": prog, "obs": obs}


def case(r, w):
    return {"cpu": r.choice(CPUS), "prog": G(r, w).run()}


def p_anon(r, i):
    return case(r, {"anons": .45, "anonl": .25, "kids": .45, "locals": .1, "ns": .05, "incs": .08})


def p_scope(r, i):
    return case(r, {"anons": .06, "anonl": .04, "kids": .2, "locals": .4, "ns": .3, "incs": .3})
