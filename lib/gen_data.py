"""Programs of spec/WlaData.tla: data directives, character and string tables, arrays."""
import random
from gen_link import BIG

MODULE = "WlaData"
CPUS = ["z80", "gb", "6502", "65816", "6800", "6809", "68000", "8080", "huc6280", "spc700"]
LO = {1: -128, 2: -32768, 3: -8388608, 4: -2147483647}
HI = {1: 255, 2: 65535, 3: 16777215, 4: 2147483647}
DIR = {1: ["DB", "DB", "BYT", "BYTE"], 2: ["DW", "DW", "WORD", "ADDR"], 3: ["DL", "LONG", "FARADDR"], 4: ["DD"]}
DS = {1: ["DSB", "DS"], 2: ["DSW"], 3: ["DSL"], 4: ["DSD"]}
COLS = {1: ["DB", "BYT", "BYTE", "db", "byte"], 2: ["DW", "WORD", "ADDR", "dw"], 3: ["DL", "LONG", "FARADDR"], 4: ["DD", "dd"]}


class G:
    def __init__(self, r, w, room):
        self.r, self.w, self.room, self.n = r, w, room, 0
        self.prog, self.labs, self.defs, self.late, self.maps, self.arrs, self.macs = [], [], [], [], {}, [], []
        self.cols = None
        self.files, self.hs = {}, []

    def afile(self):
        """a file there is (or is not)"""
        r = self.r
        if r.random() < .01:
            return "nofile.bin", 8
        if len(self.files) < 2 or r.random() < .2:
            f = r.choice(["f0.bin", "f1.bin", "sub/f0.bin", "sub/f1.bin", "f0", "sub/sub/f0"])
            n = r.choice([1, 2, 3, 4, 6, 8, 12, 13, 24, 60]) if r.random() < .99 else 0
            self.files[f] = self.files.get(f) or [r.choice([r.randrange(128), r.randrange(256) if self.n % 2 else 7, 0, 10, 26, 255 if self.n % 2 else 127]) for _ in range(n)]
        f = r.choice(sorted(self.files))
        return f, len(self.files[f])

    def add(self, t, **k):
        self.prog.append(dict(t=t, **k))

    def num(self, w):
        r = self.r
        k = r.random()
        if k < .06:
            return r.choice([LO[w], HI[w], LO[w] + 1, HI[w] - 1, 0, -1])
        if k < .065 and w < 4:
            return r.choice([LO[w] - 1, HI[w] + 1, HI[w] + 100])
        if k < .5:
            return r.randrange(100)
        return r.randrange(LO[w], HI[w] + 1)

    def text(self, lo=0, hi=6, plain=False):
        r = self.r
        n = r.randrange(lo, hi + 1)
        al = self.w.get("alpha")
        if al and r.random() < .8:
            return [r.choice(al) for _ in range(n)]
        if plain:
            return [r.choice(b"ABCabc0123 .,;:#+-*/!?<>()[]=&%|'") for _ in range(n)]
        return [r.choice([r.randrange(32, 127), r.randrange(32, 127), r.choice(b"ABCxyz019"), r.choice([0, 9, 10, 13, 34, 92, 59, 46]), r.randrange(128, 256)]) for _ in range(n)]

    def fix(self, s):
        return [65 if c in (123, 125) else c for c in s]

    def item(self, w, strings=True, labels=True):
        r = self.r
        k = r.random()
        if k < .2 and w == 1 and strings:
            return {"k": "s", "s": self.fix(self.text(1 if r.random() < .95 else 0))}
        if .2 <= k < .203 and strings and w > 1:
            return {"k": "s", "s": [65, 66]}
        if k < .3 and labels and self.labs and self.w.get("labels", 1):
            calc = r.random() < .4
            return {"k": "l", "n": r.choice(self.labs), "calc": calc, "add": r.choice([1, 2, -1, 5]) if calc else 0}
        if k < .34 and self.defs:
            return {"k": "d", "n": r.choice(self.defs)}
        if k < .37 and labels and self.late:
            return {"k": "d", "n": r.choice(self.late)}
        if .37 <= k < .37 + self.w.get("ascfn", 0):
            return {"k": "asc", "v": r.randrange(32, 127) if r.random() < .8 else r.randrange(256)}
        return {"k": "n", "v": self.num(w)}

    def items(self, w, lo=1, hi=5, **k):
        return [self.item(w, **k) for _ in range(self.r.randrange(lo, hi + 1))]

    def step(self):
        r, w = self.r, self.w
        if r.random() < .12 and len(self.labs) < 6:
            n = "LA%d" % len(self.labs)
            self.labs.append(n)
            self.add("label", n=n)
        kind = r.choices(*zip(*[(k, v) for k, v in w["kinds"].items() if v]))[0]
        width = r.choice([1, 1, 2, 2, 3, 4])
        if kind == "data":
            self.add("data", w=width, items=self.items(width, 1 if r.random() < .99 else 0, 5))
        elif kind == "ds":
            n = r.choice([1, 2, 3, 5, 8]) if r.random() < .96 else r.choice([0, -1, 65536, 20])
            self.add("ds", w=width, n=n, x=self.item(width, strings=False))
        elif kind == "table":
            if self.cols is None or r.random() < .3:
                self.cols = [r.choice([1, 1, 2, 3, 4]) for _ in range(r.randrange(1, 6))]
                self.col = 0
                self.add("table", fmt=list(self.cols))
            for _ in range(r.randrange(0, 3)):
                whole = self.col == 0 and r.random() < .6 or r.random() < .03
                n = len(self.cols) if whole else r.randrange(1, 8)
                if r.random() < .03:
                    n = max(1, n + r.choice([-1, 1]))
                its = []
                for j in range(n):
                    cw = self.cols[(self.col + j) % len(self.cols)]
                    x = self.item(cw, strings=False)
                    if cw == 1 and r.random() < .25:
                        x = {"k": "s", "s": [r.choice([r.randrange(32, 123), r.randrange(32, 123), r.randrange(128, 256)])]}
                    elif r.random() < .04:
                        n = cw if r.random() < .8 else r.choice([0, 6])
                        x = {"k": "s", "s": [r.choice([r.randrange(32, 123), r.randrange(128, 256)]) for _ in range(n)]}
                    its.append(x)
                self.col = (self.col + n) % len(self.cols)
                self.add("row", whole=whole, items=its)
        elif kind == "hex":
            self.add("hex", s=[r.randrange(256) for _ in range(r.choice([1, 2, 3, 6, 10]))], good=r.random() < .95, form=r.randrange(3))
        elif kind == "bits":
            for _ in range(r.randrange(1, 5)):
                n = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 24, 31, 32])
                its = []
                for _ in range(r.randrange(1, 4)):
                    top = 2 ** n - 1 if n < 31 else 2147483647
                    v = r.choice([r.randrange(top + 1), top, 0])
                    if r.random() < .02:
                        v = r.choice([-1, min(top + 1, 2147483647)])
                    x = {"k": "n", "v": v}
                    if n >= 9 and r.random() < .3:
                        k = r.random()
                        if self.labs and k < .6:
                            calc = r.random() < .4
                            x = {"k": "l", "n": r.choice(self.labs), "calc": calc, "add": r.choice([1, 2, 5]) if calc else 0}
                        elif self.defs + self.late:
                            x = {"k": "d", "n": r.choice(self.defs + self.late)}
                    its.append(x)
                self.add("bits", n=n if r.random() < .98 else r.choice([0, 33]), items=its)
            self.add("endbits")
        elif kind == "rnd":
            width = r.choice([1, 2])
            lo = r.randrange(LO[width], HI[width])
            hi = min(HI[width], lo + r.choice([1, 1, 3, 10, 200]))
            if r.random() < .03:
                lo, hi = hi, lo
            if r.random() < .03:
                hi += 400
            self.add("rnd", w=width, n=r.choice([1, 2, 5, 9]) if r.random() < .97 else 0, lo=lo, hi=hi)
        elif kind == "wave":
            width = r.choice([1, 2])
            m = r.choice([10, 100, 600, 1000, 1270, r.randrange(-1270, 1270)]) if width == 1 else r.choice([1000, 10000, r.randrange(-10000, 10000)])
            a = r.choice([0, 90, 180, 45, 359, r.randrange(360), r.randrange(360), r.randrange(-700, 900)])
            add = r.choice([0, 0, 10, 5, 13, 640, r.randrange(0, 1280)]) if m > 0 and width == 1 else r.randrange(-500, 500)
            self.add("wave", w=width, cos=r.random() < .5, a=a, n=r.choice([0, 1, 3, 7]) if r.random() < .98 else -1, step=r.choice([1, 10, 30, 33, 90, -20, 400]), m=m, add=add)
        elif kind == "asctable":
            ms = []
            for _ in range(r.randrange(0, 5)):
                al = w.get("alpha") or list(range(32, 127))
                a = r.choice(al) if r.random() < .8 else r.randrange(256)
                b = a if r.random() < .4 else min(255, a + r.randrange(0, 30))
                v = r.randrange(0, 256 - (b - a)) if r.random() < .98 else r.choice([256, 255, -1])
                if r.random() < .02:
                    a, b = b, a
                ms.append({"from": a, "to": b, "v": v, "odd": r.random() < .01})
            self.add("asctable", maps=ms)
        elif kind == "asc":
            its = []
            st = r.random() < .4
            for _ in range(r.randrange(1, 4)):
                if r.random() < .7:
                    its.append({"k": "s", "s": self.fix(self.text(1, 7))})
                else:
                    its.append({"k": "n", "v": r.randrange(256) if r.random() < .97 else r.choice([-1, 256, -128, -129])})
            self.add("asc", items=its, str=st)
        elif kind == "smt":
            n = "map%d" % len(self.maps)
            m = []
            al = w.get("alpha") or b"ABCabc"
            for _ in range(r.randrange(2, 9)):
                t = [r.choice(al) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
                if r.random() < .1:
                    t[r.randrange(len(t))] = r.choice([10, 61, 200, 32, 92])
                m.append({"text": self.fix(t), "bytes": [r.randrange(256) for _ in range(r.choice([1, 1, 2, 3]))]})
            if r.random() < .8:
                for c in al:
                    if r.random() < .95:
                        m.insert(r.randrange(len(m) + 1), {"text": [c], "bytes": [r.randrange(256)]})
            self.maps[n] = m
            self.add("smt", n=n, map=m)
        elif kind == "smap":
            if self.maps or r.random() < .05:
                n = r.choice(list(self.maps) or ["nomap"])
                s = []
                m = self.maps.get(n, [{"text": [65]}])
                for _ in range(r.randrange(1, 6)):
                    s += r.choice(m)["text"]
                if r.random() < .1:
                    s.insert(r.randrange(len(s) + 1), r.choice(w.get("alpha") or [65]))
                self.add("smap", n=n, s=self.fix(s))
        elif kind == "array":
            if not self.arrs or r.random() < .15:
                n = "Arr%d" % len(self.arrs) if r.random() < .97 or not self.arrs else r.choice(self.arrs)
                if n not in self.arrs:
                    self.arrs.append(n)
                self.add("arrdef", n=n, size=r.choice([4, 100, 256, 300, 500]), form=r.randrange(2))
            n = r.choice(self.arrs) if r.random() < .98 else "NoArr"
            for _ in range(r.randrange(1, 4)):
                k = r.random()
                if k < .45:
                    i = r.choice([r.randrange(10), r.randrange(48, 58), r.randrange(97, 100), 255, 256, 300, 290]) if r.random() < .98 else -1
                    self.add("arrin", n=n, i=i, vs=[r.choice([r.randrange(256), r.randrange(-100, 70000)]) if r.random() < .3 else r.randrange(256) for _ in range(r.choice([1, 1, 2, 4]))], form=r.randrange(2))
                elif k < .6:
                    d = "AD%d" % r.randrange(3)
                    if d not in self.defs:
                        self.defs.append(d)
                    self.add("arrout", n=n, i=r.choice([r.randrange(10), 255, 48, 97, 256]) if r.random() < .96 else r.choice([-1, 299, 5000]), d=d, form=r.randrange(2))
                else:
                    its = []
                    for _ in range(r.randrange(1, 4)):
                        if r.random() < .4:
                            its.append({"k": "s", "s": [r.choice(b"0123456789abc") if r.random() < .96 else r.randrange(128, 256) for _ in range(r.randrange(1, 5))]})
                        else:
                            its.append({"k": "n", "v": r.choice([r.randrange(10), r.randrange(48, 58), 97, 255, 100]) if r.random() < .97 else r.choice([256, 290, -1, 700])})
                    self.add("arrdata", n=n, w=r.choice([1, 2, 2, 3, 4]), items=its, form=r.randrange(2))
        elif kind == "dxm":
            if len(self.macs) < 2:
                mod = r.choice([0, 256, 256, 65536, 16])
                self.macs.append({"n": "FM%d" % len(self.macs), "a": r.choice([1, 1, 2, -1, 3]), "b": r.choice([0, 0, 1, 2, -1]), "c": r.randrange(-3, 10), "mod": mod})
            m = r.choice(self.macs)
            width = 1 if m["mod"] in (256, 16) and r.random() < .5 else r.choice([1, 2, 3, 4])
            its = []
            for _ in range(r.randrange(1, 4)):
                if r.random() < .4:
                    its.append({"k": "s", "s": self.text(1, 4, True)})
                else:
                    its.append({"k": "n", "v": r.randrange(60) if width == 1 and r.random() < .9 else self.num(min(width, 3)) // 4})
            if its[0]["k"] == "n":
                its[0]["v"] = abs(its[0]["v"])
            self.add("dxm", w=width, items=its, **m)
        elif kind == "incbin":
            f, n = self.afile()
            d = dict(file=f, skip=0, read=0, swap=False, fsize="", fread="", filt="", fsz=1, a=1, b=0, c=0, mod=0)
            k = r.random()
            if k < .6:
                d["skip"] = r.randrange(max(1, n))
            if k < .02:
                d["skip"] = r.choice([n, n + 1, -1, n - 1, -n])
            if r.random() < .6:
                rest = max(1, n - d["skip"])
                d["read"] = r.choice([1, rest, r.randrange(1, rest + 1), -1, -r.randrange(1, rest + 1), 1 - rest])
                if r.random() < .05:
                    d["read"] = r.choice([rest + 1, -rest, -rest - 1, -rest - 2, n, -n])
            if d["read"] == 0 and "READ" and r.random() < .01:
                d["read"] = r.choice([n - d["skip"] + 1])
            cnt = d["read"] if d["read"] > 0 else n - d["skip"] + d["read"]
            if r.random() < .4:
                d["filt"] = "FI%d" % len(self.prog)
                d["fsz"] = r.choice([1, 1, 2, 3, 4])
                if cnt % d["fsz"] and r.random() < .9:
                    d["fsz"] = 1
                if d["fsz"] == 4 and max(self.files.get(f) or [0]) > 127:
                    d["fsz"] = 1                    # TLC's integers have 32 bits
                if d["fsz"] == 4:
                    d["c"] = -r.randrange(2)
                else:
                    d.update(a=r.choice([1, 1, 2, -1, 3]), b=r.choice([0, 0, 1, 2, -1]), c=r.randrange(-3, 10), mod=r.choice([0, 256, 256, 65536, 16]))
                    if (d["mod"] == 0 or d["mod"] > 256 ** d["fsz"]) and r.random() < .95:
                        d.update(a=1, b=0, c=0)
            u = d["fsz"] if d["filt"] and d["fsz"] > 1 else 2
            d["swap"] = r.random() < (.5 if cnt % u == 0 else .05)
            for k in ("fsize", "fread"):
                if r.random() < .3:
                    d[k] = "FD%d" % self.n
                    self.n += 1
                    if r.random() < .05 and self.defs:
                        d[k] = r.choice(self.defs)
                    elif r.random() < .9:
                        self.defs.append(d[k])
            self.add("incbin", **d)
        elif kind == "file":
            for _ in range(r.randrange(1, 6)):
                if not self.hs or r.random() < .2:
                    h = "fp%d" % r.randrange(3)
                    self.add("fopen", file=self.afile()[0], h=h)
                    if h not in self.hs:
                        self.hs.append(h)
                h = r.choice(self.hs) if r.random() < .99 else "nofp"
                t = r.choice(["fread"] * 6 + ["fseek", "fseek", "fseek", "ftell", "fsize", "fclose"])
                d = "FV%d" % r.randrange(4)
                off, mode = r.randrange(0, 5), r.choice(["START", "START", "START", "CURRENT", "END"])
                if mode == "END":
                    off = r.choice([-1, -1, -2, -3, 0])
                if mode == "CURRENT" and r.random() < .4 or r.random() < .01:
                    off = -r.randrange(1, 4)
                if t == "fsize":
                    d = "FS%d" % self.n
                    self.n += 1
                    if r.random() < .03 and self.defs:
                        d = r.choice(self.defs)
                self.add(t, h=h, d=d, off=off, mode=mode)
                if t == "fclose" and h in self.hs:
                    self.hs.remove(h)
                if t in ("fread", "ftell", "fsize"):
                    if d not in self.defs:
                        self.defs.append(d)
                    self.add("data", w=2, items=[{"k": "d", "n": d}])
        elif kind == "def":
            n = "DE%d" % r.randrange(4)
            if self.late and r.random() < .5:
                n = self.late.pop()
                self.add("def", n=n, v=r.randrange(200) if r.random() < .9 else r.randrange(-40000, 70000), re=False)
                return
            v = r.randrange(200) if r.random() < .7 else r.randrange(-40000, 70000)
            self.add("def", n=n, v=v, re=n in self.defs)
            if n not in self.defs:
                self.defs.append(n)


def program(r, w, lines):
    room = 512
    g = G(r, w, room)
    if w.get("late") and r.random() < .5:
        g.late = ["LT0", "LT1"][:r.randrange(1, 3)]
    n = r.randrange(2, lines + 1)
    for k in w.get("first", []):
        if r.random() < .85:
            h, w["kinds"] = w["kinds"], {k: 1}
            g.step()
            w["kinds"] = h
    for _ in range(n):
        g.step()
    lates = {x["n"] for s in g.prog for x in s.get("items", []) + ([s["x"]] if "x" in s else []) if x["k"] == "d" and x["n"].startswith("LT")}
    done = {s["n"] for s in g.prog if s["t"] == "def"}
    for x in sorted(lates - done):
        if r.random() < .97:
            g.add("def", n=x, v=r.randrange(200) if r.random() < .85 else r.randrange(-40000, 70000), re=False)
    g.add("label", n="END")
    if g.labs:
        g.add("data", w=2, items=[{"k": "l", "n": x, "calc": False, "add": 0} for x in g.labs + ["END"]])
    cpu = r.choice(CPUS)
    base = r.choice([0, 0, 0, 0x80, 0x4000, 0xC000])
    return {"cpu": cpu, "big": cpu in BIG, "base": base, "fill": r.choice([0, 0, 255, 0x5A]), "room": room, "prog": g.prog, "files": g.files,
            "sec": r.random() < .3, "out": r.choice(["_out", "_OUT"])}


# ------------------------------------------------------------------ source text

def num(r, v, w=None):
    k = r.random()
    if v < 0:
        if w == 4 and k < .3:
            return "$%X" % (v & 0xFFFFFFFF)
        return str(v) if k < .8 else "0-%d" % -v
    if k < .35:
        return "$%X" % v if r.random() < .7 else "$%02x" % v
    if k < .45 and v < 65536:
        return "%" + bin(v)[2:]
    if k < .55 and 33 <= v < 127 and v not in (39, 92, 34, 123, 125):
        return "'%c'" % v
    if k < .65 and v > 5:
        a = r.randrange(v)
        return "%d+%d" % (a, v - a)
    if k < .7 and v < 10000:
        return "(%d*2)-%d" % (v, v)
    return str(v)


ESC = {0: "\\0", 9: "\\t", 10: "\\n", 13: "\\r", 34: '\\"', 92: "\\\\"}


def string(r, s, hexes=True):
    o = ""
    for c in s:
        if c in ESC:
            o += ESC[c]
        elif 32 <= c < 127:
            o += "\\x%02x" % c if hexes and r.random() < .04 else chr(c)
        elif c >= 160 and r.random() < .5:
            o += chr(c)
        else:
            o += "\\x%02X" % c
    return '"%s"' % o


def item(r, x, w=None):
    if x["k"] == "n":
        return num(r, x["v"], w)
    if x["k"] == "s":
        return string(r, x["s"])
    if x["k"] == "d":
        return x["n"]
    if x["k"] == "asc":
        return "%s(%s)" % (r.choice(["asc", "ASC"]), r.choice(["%d", "$%x", "%d"]) % x["v"] if not 48 <= x["v"] < 123 or x["v"] == 92 else r.choice(["%d" % x["v"], "'%c'" % x["v"]]))
    return x["n"] + ("%+d" % x["add"] if x["calc"] else "")


def line(r, s, files):
    t = s["t"]

    def D(w):
        return "." + (w.lower() if r.random() < .2 else w)

    def join(xs, w=None):
        return r.choice([", ", ",", ", "]).join(item(r, x, w) for x in xs)
    if t == "data":
        return D(r.choice(DIR[s["w"]])) + " " + join(s["items"], s["w"])
    if t == "ds":
        return D(r.choice(DS[s["w"]])) + " %s, %s" % (num(r, s["n"]), item(r, s["x"], s["w"]))
    if t == "table":
        o, j = [], 0
        f = s["fmt"]
        while j < len(f):
            k = 1
            while j + k < len(f) and f[j + k] == f[j] and r.random() < .7:
                k += 1
            if k > 1 or r.random() < .2:
                o.append("%s %d" % (r.choice(DS[f[j]]), k))
            else:
                o.append(r.choice(COLS[f[j]]))
            j += k
        return D("TABLE") + " " + ", ".join(o)
    if t == "row":
        return D("ROW" if s["whole"] else "DATA") + " " + join(s["items"])
    if t == "hex":
        h = ["%02X" % b if r.random() < .5 else "%02x" % b for b in s["s"]]
        if not s["good"]:
            k = r.randrange(len(h))
            h[k] = r.choice([h[k][0], h[k] + "7", "G0", "0x"])
        if s["form"] == 0:
            return D("HEX") + ' "%s"' % "".join(h)
        if s["form"] == 1:
            return D("HEX") + " " + " ".join(h)
        return D("HEX") + " BLOCK\n " + r.choice([" ", "\n "]).join(h) + "\n.ENDHEX"
    if t == "bits":
        return D("BITS") + " %d %s" % (s["n"], r.choice(["DATA ", "", ""]) if s["items"][0].get("v", 0) >= 0 else "DATA ") + join(s["items"])
    if t == "endbits":
        return D("ENDBITS")
    if t == "rnd":
        k = ("COUNT ", "MIN ", "MAX ") if r.random() < .3 else ("", "", "")
        sep = " " if k[0] else ", "
        return D("DBRND" if s["w"] == 1 else "DWRND") + " " + sep.join(k[j] + str(s[f]) for j, f in enumerate(("n", "lo", "hi")))
    if t == "wave":
        def tenth(v):
            return str(v // 10) if v % 10 == 0 else ("-" if v < 0 else "") + "%d.%d" % (abs(v) // 10, abs(v) % 10)
        return D(("DB" if s["w"] == 1 else "DW") + ("COS" if s["cos"] else "SIN")) + " %d, %d, %d, %s, %s" % (s["a"], s["n"], s["step"], tenth(s["m"]), tenth(s["add"]))
    if t == "asctable":
        d = r.choice(["ASCIITABLE", "ASCTABLE"])
        o = [D(d)]

        def ch(c):
            if 33 <= c < 127 and c not in (34, 39, 92, 123, 125, 59) and r.random() < .8:
                return r.choice(['"%c"', "'%c'"]) % c
            return num(r, c) if c < 0 or r.random() < .8 or c in (123, 125) else string(r, [c])
        for m in s["maps"]:
            o.append("MAP %s%s = %s" % ("nosuch" if m["odd"] else ch(m["from"]), "" if m["from"] == m["to"] and r.random() < .8 else " TO " + ch(m["to"]), num(r, m["v"]) if m["from"] and m["to"] else m["v"]))
        return "\n".join(o + [D("ENDA")])
    if t == "asc":
        return D("ASCSTR" if s["str"] else "ASC") + " " + join(s["items"])
    if t == "smt":
        f = "%s.tbl" % s["n"]
        o = []
        for m in s["map"]:
            if r.random() < .1:
                o.append(r.choice(["; note", "# note", "", "nothing here"]))
            b = "".join("%02X" % x if r.random() < .5 else "%02x" % x for x in m["bytes"])
            if b[0] == "0" and r.random() < .2:
                b = b[1:]
            o.append(b + "=" + "".join(ESC[c] if c in ESC and c != 34 else chr(c) for c in m["text"]))
        files[f] = ("\n".join(o) + r.choice(["\n", ""])).encode("latin-1")
        return D("STRINGMAPTABLE") + " %s %s" % (r.choice([s["n"], '"%s"' % s["n"]]), '"%s"' % f)
    if t == "smap":
        return D("STRINGMAP") + " %s%s%s" % (s["n"], r.choice([", ", " "]), string(r, s["s"]))
    if t == "arrdef":
        return D(r.choice(["ARRAYDEF", "ARRAYDEFINE"])) + (" NAME %s SIZE %d" if s["form"] else " %s %d") % (s["n"], s["size"])
    if t == "arrin":
        k = ("NAME ", "INDEX ", r.choice(["VALUE ", "VALUES "])) if s["form"] or s["i"] < 0 or s["vs"][0] < 0 else ("", "", "")
        return D("ARRAYIN") + " %s%s %s%s %s%s" % (k[0], s["n"], k[1], num(r, s["i"]) if k[1] else s["i"], k[2], ", ".join(num(r, v) if k[1] else str(v) for v in s["vs"]))
    if t == "arrout":
        k = ("NAME ", "INDEX ", "DEFINITION ") if s["form"] or s["i"] < 0 else ("", "", "")
        return D("ARRAYOUT") + " %s%s %s%s %s%s" % (k[0], s["n"], k[1], num(r, s["i"]), k[2], s["d"])
    if t == "arrdata":
        k = ("NAME ", "INDICES ") if s["form"] or s["items"][0].get("v", 0) < 0 else ("", "")
        return D("ARRAYD" + "BWLD"[s["w"] - 1]) + " %s%s %s%s" % (k[0], s["n"], k[1], join(s["items"]))
    if t == "dxm":
        return D("D%sM" % "BWLD"[s["w"] - 1]) + " %s %s" % (s["n"], join(s["items"]))
    if t == "incbin":
        o = []
        if s["skip"] or r.random() < .05:
            o.append("SKIP " + (num(r, s["skip"]) if s["skip"] >= 0 else str(s["skip"])))
        if s["read"]:
            o.append("READ " + (num(r, s["read"]) if s["read"] >= 0 else str(s["read"])))
        if s["swap"]:
            o.append("SWAP")
        for k, x in (("FSIZE", "fsize"), ("FREADSIZE", "fread")):
            if s[x]:
                o.append(k + " " + s[x])
        if s["filt"]:
            o.append("FILTER " + s["filt"])
            if s["fsz"] > 1 or r.random() < .2:
                o.append("FILTERSIZE %d" % s["fsz"])
        r.shuffle(o)
        return D("INCBIN") + ' "%s" ' % s["file"] + " ".join(x if r.random() < .8 else x.split()[0].lower() + x[len(x.split()[0]):] for x in o)
    if t == "fopen":
        return D("FOPEN") + ' "%s" %s' % (s["file"], s["h"])
    if t in ("fread", "fsize", "ftell"):
        return D(t.upper()) + " %s %s" % (s["h"], s["d"])
    if t == "fseek":
        return D("FSEEK") + " %s %d %s" % (s["h"], s["off"], s["mode"])
    if t == "fclose":
        return D("FCLOSE") + " " + s["h"]
    if t == "label":
        return s["n"] + ":"
    if t == "def":
        return D("REDEFINE" if s["re"] else "DEFINE") + " %s %d" % (s["n"], s["v"])
    raise ValueError(t)


def to_job(c, seed):
    r = random.Random(seed)
    out = [".MEMORYMAP", "DEFAULTSLOT 0", "SLOT 0 START $%X SIZE $%X" % (c["base"], c["room"]), ".ENDME", ".ROMBANKMAP", "BANKSTOTAL 1",
           "BANKSIZE $%X" % c["room"], "BANKS 1", ".ENDRO", ".EMPTYFILL $%X" % c["fill"], ".BANK 0 SLOT 0", ".ORG 0"]
    for m in {s.get("filt") or s["n"]: dict(s, n=s.get("filt") or s["n"]) for s in c["prog"] if s["t"] == "dxm" or s["t"] == "incbin" and s["filt"]}.values():
        e = "\\1*%d+\\2*%d+%d" % (m["a"], m["b"], m["c"]) if r.random() < .5 else "(\\1*%d)+%d+(\\2*%d)" % (m["a"], m["c"], m["b"])
        e = e.replace("+-", "-")
        if m["mod"]:
            e = "(%s)&%d" % (e, m["mod"] - 1)
        out += [".MACRO " + m["n"], ".REDEFINE %s %s" % (c["out"], e), ".ENDM"]
    files = {"link": "[objects]\nm.o\n"}
    for f, b in c["files"].items():
        files[f] = bytes(b)
    if c["sec"]:
        out.append('.SECTION "S" FORCE')
    for s in c["prog"]:
        if r.random() < .04:
            out.append(r.choice(["", "; note", " ; .DB 1"]))
        ln = line(r, s, files)
        if s["t"] not in ("hex", "asctable") and r.random() < .06:
            ln += r.choice(["  ; note", " ; .DB 1", "\t; x"])
        out.append(ln)
    if c["sec"]:
        out.append(".ENDS")
    files["m.s"] = ("\n".join(out) + "\n").encode("latin-1")
    return {"files": files, "steps": [["wla-" + c["cpu"], "-o", "m.o", "m.s"], ["wlalink", "link", "out.rom"]], "collect": ["out.rom", "m.o"]}


def observe(c, res):
    rcs = res["rcs"]
    ok = rcs == [0, 0]
    rom = res["files"].get("out.rom")
    msg = b" ".join(res["outs"])[-160:].decode("latin-1").replace("\n", " ").replace('"', "'").replace("|", "/").replace("\\", "/")
    o = {"ok": ok, "crash": any(x < 0 for x in rcs), "rom": [], "msg": "".join(x if x < "\x7f" else "?" for x in msg)}
    if ok:
        if rom is None or len(rom) != c["room"]:
            o["crash"], o["msg"] = True, "no ROM or wrong size"
        else:
            o["rom"] = list(rom.rstrip(bytes([c["fill"]])))
    return o


def to_tla(cid, c, obs):
    return {"id": cid, "big": c["big"], "base": c["base"], "fill": c["fill"], "room": c["room"], "prog": c["prog"], "files": dict(c["files"], **{"": []}), "obs": obs}


def p_data(r, i):
    return program(r, {"late": True, "kinds": {"data": 6, "ds": 3, "table": 3, "hex": 1.5, "bits": 2, "rnd": .7, "wave": 1, "dxm": 1, "array": 1, "def": 2}}, 12)


def p_text(r, i):
    return program(r, {"labels": 0, "ascfn": .3, "alpha": list(b"ABCDEF abc01!"), "first": ["asctable", "smt"],
                       "kinds": {"asctable": 2, "asc": 5, "smt": 1, "smap": 5, "data": 1.5, "array": 1}}, 10)


def p_files(r, i):
    return program(r, {"late": True, "kinds": {"incbin": 6, "file": 5, "data": 2, "def": 1, "ds": .5, "bits": .3}}, 9)
