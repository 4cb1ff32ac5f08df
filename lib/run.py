"""Run the real tools on rendered programs, in scratch directories, in parallel."""
import hashlib, os, resource, shutil, signal, subprocess, tempfile, itertools, multiprocessing, random

TIMEOUT = 20
_bins = {}


def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def base_env(tmp):
    return {"PATH": "/usr/bin:/bin", "HOME": tmp, "LC_ALL": "C", "TZ": "UTC", "TMPDIR": tmp}


def small_files(n):
    def f():
        signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, n))
    return f


def run_tool(argv, cwd, env=None, timeout=TIMEOUT, limit=None):
    """returns (rc, output bytes); rc -1000 = timeout, negative = signal; limit: no file may grow larger"""
    try:
        p = subprocess.run(argv, cwd=cwd, env=env or base_env(cwd), stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, preexec_fn=small_files(limit) if limit is not None else None)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return -1000, e.stdout or b""


def digests(d):
    out = []
    for dp, dn, fn in os.walk(d):
        for f in fn:
            p = os.path.join(dp, f)
            out.append([os.path.relpath(p, d), hashlib.sha1(open(p, "rb").read()).hexdigest()[:12] if os.path.isfile(p) else "special"])
    return sorted(out)


def run_history(job):
    """the steps of a WlaBuild case: worlds (files put, dropped, damaged) and tool runs, with all files after each step"""
    d = tempfile.mkdtemp(prefix="wlav", dir=scratch_root())
    tmp = tempfile.mkdtemp(prefix="wlat", dir=scratch_root())
    hist, outs, rcs = [], [], []
    try:
        for st in job["history"]:
            rc = 0
            if st["t"] == "world":
                for a, b in st.get("copy", []):
                    if os.path.isdir(os.path.join(d, a)):
                        shutil.copytree(os.path.join(d, a), os.path.join(d, b), dirs_exist_ok=True)
                for n, c in st["put"].items():
                    p = os.path.join(d, n)
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "wb") as f:
                        f.write(c if isinstance(c, bytes) else c.encode("latin-1"))
                for n in st.get("drop", []):
                    if os.path.isfile(os.path.join(d, n)):
                        os.unlink(os.path.join(d, n))
                for n, how, x in st.get("hurt", []):
                    p = os.path.join(d, n)
                    c = open(p, "rb").read() if os.path.isfile(p) else b""
                    c = b"" if how == "empty" else c[:4 + int(x * (len(c) - 4))] if how == "cut" else b"XXX!" + c[4:]
                    open(p, "wb").write(c)
            else:
                env = base_env(tmp)
                env.update(st.get("env", {}))
                rc, out = run_tool([job["bins"][st["cmd"][0]]] + st["cmd"][1:], os.path.join(d, st["cwd"]), env, limit=st.get("limit"))
                outs.append(out)
                rcs.append(rc)
            hist.append({"rc": rc, "after": digests(d)})
        return {"rcs": rcs, "outs": outs, "files": {}, "history": hist}
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


def run_job(job):
    if "history" in job:
        return run_history(job)
    return run_plain(job)


def run_plain(job):
    """job: {files:{name:bytes|str}, steps:[[tool,args..]..], collect:[names], stop:bool}
    steps run in order; a step that fails stops the job unless stop is False.
    Returns {rcs:[], outs:[], files:{name: bytes or None}}"""
    d = tempfile.mkdtemp(prefix="wlav", dir=scratch_root())
    try:
        for n, c in job["files"].items():
            p = os.path.join(d, n)
            if os.path.dirname(n):
                os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(c if isinstance(c, bytes) else c.encode("latin-1"))
        rcs, outs = [], []
        for st in job["steps"]:
            rc, out = run_tool([job["bins"][st[0]]] + list(st[1:]), os.path.join(d, job.get("cwd", "")))
            rcs.append(rc)
            outs.append(out)
            if rc != 0 and job.get("stop", True):
                break
        files = {}
        for n in job.get("collect", []):
            p = os.path.join(d, n)
            files[n] = open(p, "rb").read() if os.path.isfile(p) else None
        if job.get("listing"):
            files["."] = sorted(os.path.relpath(os.path.join(dp, f), d) for dp, _, fn in os.walk(d) for f in fn)
        return {"rcs": rcs, "outs": outs, "files": files}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_jobs(jobs, bins, procs=8):
    for j in jobs:
        j["bins"] = bins
    if len(jobs) <= 2:
        return [run_job(j) for j in jobs]
    with multiprocessing.Pool(procs) as p:
        return p.map(run_job, jobs, chunksize=max(1, min(16, len(jobs) // (procs * 4) or 1)))


def parse_sym(text):
    """WLA symbol file -> {section: [line,...]}"""
    out, cur = {}, None
    for ln in text.decode("latin-1").splitlines():
        ln = ln.strip()
        if not ln or ln.startswith(";"):
            continue
        if ln.startswith("[") and ln.endswith("]"):
            cur = ln[1:-1]
            out.setdefault(cur, [])
        elif cur is not None:
            out[cur].append(ln)
    return out


import re
_us = re.compile(r"^RAM_USAGE_SLOT_(\d+)_BANK_(\d+)_(START|END)$")


def sym_obs(text):
    s = parse_sym(text)
    labels, usage, secs, rams, sizes, defs, raw_usage = [], {}, [], [], [], [], []
    for ln in s.get("labels", []):
        a, n = ln.split(" ", 1)
        b, ad = a.split(":")
        m = _us.match(n)
        if m:
            usage.setdefault((int(m.group(2)), int(m.group(1))), {})[m.group(3)] = int(ad, 16)
            continue
        if n.startswith("SECTIONSTART_") or n.startswith("SECTIONEND_"):
            continue
        labels.append([n, int(b, 16), int(ad, 16)])
    for ln in s.get("sections", []):
        f = ln.split(" ", 4)
        b, ad = f[1].split(":")
        secs.append([f[4], int(f[0], 16), int(b, 16), int(ad, 16), int(f[2], 16), int(f[3], 16)])
    for ln in s.get("ramsections", []):
        f = ln.split(" ", 3)
        b, ad = f[0].split(":")
        rams.append([f[3], 0, int(b, 16), int(ad, 16), int(f[1], 16), int(f[2], 16)])
    for ln in s.get("definitions", []):
        v, n = ln.split(" ", 1)
        defs.append([n, int(v, 16)])
    return {"labels": labels, "secs": secs, "rams": rams, "defs": defs,
            "usage": [[b, sl, v.get("START", -1), v.get("END", -1)] for (b, sl), v in sorted(usage.items())],
            "raw": s}
