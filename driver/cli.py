"""Runs of the real binary: histories of one file, and configuration files."""
import multiprocessing
import os
import re
import resource
import shutil
import signal
import subprocess

from lib import *

NOBODY = 65534
PERMS = {"rw": 0o644, "rwx": 0o755, "ro": 0o444, "none": 0o000}
BYTES = b"class A { String s = '\xff\xfe'; }\n"
PATHS = ["f.cls", "./f.cls", "sub/f.cls", "sub/../f.cls", "ABS/f.cls", "my file.cls", "\u00fcn\u00ef.cls", "f", "a.b.trigger", "sub/deep/x.cls"]


def as_nobody():
    return {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.getuid() == 0 else {}


def can_drop():
    try:
        return subprocess.run(["true"], **as_nobody()).returncode == 0 and os.getuid() == 0
    except (OSError, subprocess.SubprocessError):
        return False


def see(path, twin):
    """Facts about the file: kind, text, permission, link."""
    try:
        st = os.stat(path)
    except FileNotFoundError:
        return ["missing", "", "rw", "none"]
    link = "none"
    if os.path.islink(path):
        link = "sym" if os.path.samefile(path, twin) and os.readlink(path) == twin else "other"
    elif os.path.exists(twin):
        link = "hard" if os.path.samefile(path, twin) else "other"
    if os.path.isdir(path):
        return ["dir", "", "rw", link]
    mode = st.st_mode & 0o7777
    perm = next((k for k, v in PERMS.items() if v == mode), oct(mode))
    data = open(path, "rb").read()
    try:
        return ["text", data.decode("utf-8"), perm, link]
    except UnicodeDecodeError:
        return ["bytes", "" if data == BYTES else repr(data), perm, link]


def snapshot(d, *but):
    r = {}
    for b, ds, fs in os.walk(d):
        for f in ds + fs:
            p = os.path.join(b, f)
            if p in but:
                continue
            r[p] = (os.lstat(p).st_mode, None if os.path.isdir(p) else open(p, "rb").read())
    return r


def own(path, drop):
    if drop:
        os.chown(path, NOBODY, NOBODY)


def wipe(path):
    if os.path.isdir(path):
        os.rmdir(path)
    elif os.path.lexists(path):
        os.unlink(path)


def run_history(job):
    """job: id, dir, hist, texts (class -> text), conf2 (w, i), style (random numbers), drop."""
    d, drop = job["dir"], job["drop"]
    os.makedirs(d)
    os.chmod(d, 0o755)
    os.makedirs(os.path.join(d, "sub", "deep"))
    for x in ("", "sub", "sub/deep"):
        own(os.path.join(d, x), drop)
    r = random.Random(job["style"])
    arg = job.get("path") or r.choice(PATHS)
    arg = arg.replace("ABS", d)
    path, twin = os.path.normpath(os.path.join(d, arg)), os.path.join(d, "sub", "twin.cls")
    files = {".afmt.toml": "max_width = 33\nindent_size = 5\n", "conf2.toml": "max_width = %d\nindent_size = %d\n" % tuple(job["conf2"]), "badconf.toml": "max_width = = 3\n",
             "other.cls": "class   Other{}\n", "sub/other.cls": "class   Other{}\n"}
    for k, v in files.items():
        with open(os.path.join(d, k), "w") as f:
            f.write(v)
        own(os.path.join(d, k), drop)
    steps = []
    for a in job["hist"]:
        if a[0] in ("edit", "make"):
            wipe(path)
            wipe(twin)
            if a[0] == "edit" or a[1] == "bytes":
                with open(path, "wb") as f:
                    f.write(BYTES if a[0] == "make" else job["texts"][a[1]].encode())
                os.chmod(path, 0o644)
                own(path, drop)
            elif a[1] == "dir":
                os.mkdir(path)
                own(path, drop)
            steps.append({"act": a[0]})
        elif a[0] == "chmod":
            os.chmod(path, PERMS[a[1]])
            steps.append({"act": "chmod"})
        elif a[0] == "link":
            if a[1] == "sym":
                os.rename(path, twin)
                os.symlink(twin, path)
            else:
                os.link(path, twin)
            steps.append({"act": "link"})
        else:
            before, snap = see(path, twin), snapshot(d, path, twin)
            asked = False
            limit = None
            if a[0] == "usage":
                args = r.choice([[], ["-w", "-C", arg], ["--check", "--write", arg], ["--bogus", arg], [arg, arg], ["-c"], ["-w"]])
            else:
                asked = r.random() < 0.3
                parts = [[arg]]
                if a[1] != "dry":
                    parts.append([r.choice({"write": ["-w", "--write"], "check": ["-C", "--check"]}[a[1]])])
                if asked:
                    parts.append([r.choice(["-t", "--time"])])
                if a[2] != "none":
                    f = a[2] + ".toml"
                    f = r.choice([f, "./" + f, os.path.join(d, f)])
                    parts.append(r.choice([["-c", f], ["--config", f], ["--config=" + f], ["-c" + f]]))
                r.shuffle(parts)
                args = [x for p in parts for x in p]
                if a[0] == "fault":
                    limit = a[3]

            def pre():
                if limit is not None:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            p = subprocess.run([job["bin"], *args], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60,
                               restore_signals=limit is None, preexec_fn=pre if limit is not None else None, **(as_nobody() if drop else {}))
            out = p.stdout.decode("utf-8", "replace")
            m = re.search(r"\n-- Execution time: [^\n]*\n\Z", out)
            timed = bool(m)
            if m and asked:
                out = out[:m.start()]
            now = snapshot(d, path, twin)
            steps.append({"act": a[0], "mode": a[1] if a[0] != "usage" else "", "conf": a[2] if a[0] != "usage" else "", "code": p.returncode, "out": out, "asked": asked, "timed": timed,
                          "err": p.stderr.decode("utf-8", "replace")[:200],
                          "others": sorted(os.path.relpath(x, d) for x in set(snap) | set(now) if snap.get(x) != now.get(x)),
                          "args": args, "before": before})
        steps[-1]["after"] = see(path, twin)
    shutil.rmtree(d)
    return {"id": job["id"], "conf2": job["conf2"], "steps": steps}


def answers(pairs, sc, tag):
    """What the library answers: (text, w, i) -> (status, output)."""
    pairs = sorted(set(pairs))
    if not pairs:
        return {}
    cases = [{"id": str(k), "runs": [{"n": "f", "src": s, "w": w, "i": i}], "want": ["raw"]} for k, (s, w, i) in enumerate(pairs)]
    r = {}
    for p, l in zip(pairs, record(cases, sc, tag)):
        x = json.loads(l)
        run = x["runs"][0]
        r[p] = (run["st"], x["outs"][run["o"] - 1] if "outs" in x and run["o"] else "")
    return r


def parallel(f, jobs):
    with multiprocessing.get_context("fork").Pool(NPROC) as pool:
        return pool.map(f, jobs, chunksize=8)


def run_conf(job):
    """One run of the binary under a configuration file."""
    d = job["dir"]
    os.makedirs(d)
    r = random.Random(job["style"])
    name = r.choice([".afmt.toml", "afmt.toml", "my conf", "x.json"])
    conf, path = os.path.join(d, name), os.path.join(d, "f.cls")
    if job["how"] == "text":
        with open(conf, "wb") as f:
            f.write(job["file"].encode())
    elif job["how"] == "dir":
        os.mkdir(conf)
    elif job["how"] == "bytes":
        with open(conf, "wb") as f:
            f.write(b"max_width = 40 # \xff\n")
    with open(path, "w", newline="") as f:
        f.write(job["text"])
    args = {"dry": [], "write": ["-w"], "check": ["-C"]}[job["mode"]]
    args = r.choice([args + ["-c", name, "f.cls"], ["f.cls"] + args + ["--config", conf], ["--config=./" + name, "f.cls"] + args])
    p = subprocess.run([CLI, *args], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    with open(path, newline="") as f:
        after = f.read()
    shutil.rmtree(d)
    return {"id": job["id"], "conf": job["conf"], "mode": job["mode"], "absent": job["how"] != "text", "code": p.returncode,
            "out": p.stdout.decode("utf-8", "replace"), "err": p.stderr.decode("utf-8", "replace")[:200], "before": job["text"], "after": after}
