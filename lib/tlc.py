"""Replay cases in TLC: one verdict per case, plus state counts."""
import json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def run_tlc(module, cases=None, cfg=None, workers=8, timeout=600, env=None, heap="6g"):
    """returns (verdicts {id: (ok, classes, detail)}, states, distinct, output)"""
    d = tempfile.mkdtemp(prefix="wlatlc", dir="/tmp")
    try:
        e = dict(os.environ)
        e.update(env or {})
        if cases is not None:
            cf = os.path.join(d, "cases.ndjson")
            with open(cf, "w") as f:
                for c in cases:
                    f.write(json.dumps(c, separators=(",", ":")) + "\n")
            e["CASES"] = cf
        cfg = cfg or os.path.join(SPEC, module + ".cfg")
        argv = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", CP, "tlc2.TLC",
                "-workers", str(workers), "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE",
                "-deadlock", "-config", cfg, os.path.join(SPEC, module + ".tla")]
        p = subprocess.run(argv, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, stdin=subprocess.DEVNULL)
        out = p.stdout.decode("latin-1")
        out = re.sub(r"^(Parsing file|Semantic processing|TLC2 Version|Running breadth).*\n", "", out, flags=re.M)
        verd = {}
        for m in re.finditer(r'^"?VERDICT\|([^|]*)\|(OK|BAD)\|(.*?)"?$', out, re.M):
            cid, r, rest = m.groups()
            if r == "OK":
                verd[cid] = (True, set(), rest)
            else:
                cl, _, det = rest.partition("|")
                verd[cid] = (False, set(re.findall(r'\w+', cl.replace('\\"', ' '))), det)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
        st, di = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
        ok = "Model checking completed. No error has been found." in out
        return verd, st, di, ok, out
    finally:
        shutil.rmtree(d, ignore_errors=True)
