"""Plumbing of the checks: build, generate with TLC, record, validate with TLC.

Nothing here judges the formatter: programs come out of the TLA+ generator,
verdicts come out of TLC runs of the specifications in /verif/spec.
"""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("AFMT_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
REC = os.path.join(HARNESS, "target/release/afmt-rec")
CLI = os.path.join(HARNESS, "target/release/afmt")
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known-findings.txt")
NPROC = min(8, os.cpu_count() or 4)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class CheckError(Exception):
    """The check itself could not run: neither a pass nor a violation."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def build():
    p = subprocess.run(
        ["cargo", "build", "--release", "--offline", "--locked"],
        cwd=HARNESS, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-3000:])
        raise CheckError("the harness does not build against /repo")


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="afmtv.")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


JAVA = ["java", "-XX:+UseSerialGC", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC"]


def tlc(module, cfg_text, scratch, tag, args=(), env=None, workers=1, mem="3g", timeout=850):
    """Run TLC on a module of /verif/spec; returns its output."""
    d = os.path.join(scratch, tag)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, module + ".cfg")
    with open(cfg, "w") as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = JAVA[:1] + ["-Xmx" + mem, "-Djava.io.tmpdir=" + d] + JAVA[1:] + [
        "-workers", str(workers), "-config", cfg, "-metadir", os.path.join(d, "md"), "-noGenerateSpecTE",
        *args, module + ".tla"]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC ran out of time on " + module)
    return p.stdout


def states(out):
    m = None
    for m in re.finditer(r"(?m)^([\d,]+) states generated, ([\d,]+) distinct states found, (\d+) states left", out):
        pass
    if m:
        return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", "")), int(m.group(3))
    m = re.search(r"The number of states generated: (\d+)", out)
    return (int(m.group(1)), int(m.group(1)), 0) if m else (0, 0, -1)


def tla_set(xs):
    return "{" + ", ".join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs) + "}"


def prints(out, tag):
    r = []
    for l in out.splitlines():
        if l.startswith('"' + tag + " "):
            r.append(json.loads(json.loads(l)[len(tag) + 1:]))
    return r


ROOTS = ["R_unit", "R_member", "R_stmt", "R_expr", "R_ctx", "R_type", "R_soql", "R_sosl", "R_anno", "R_big"]


STARTS = """S_Bin S_Cond S_Un S_Upd1 S_Cast S_New S_Call S_Acc S_Lit S_P S_PO S_Chain S_Args S_CallS S_NewS S_Asgn S_Local
S_If S_For S_Each S_While S_Do S_Try S_Switch S_When S_Dml S_RunAs S_Upd S_Field S_Method S_Ctor S_Prop S_Accs
S_Params S_Class S_Intf S_Enum S_Trigger S_Sub S_SubIntf S_SubEnum S_Anno S_AV S_Inits S_MapInits S_Sel S_From
S_SubQ S_Bool S_Cmp S_Cmp2 S_SV S_Clauses S_InC S_SWith S_Inst S_LitS S_Key S_EStmt S_Body S_TPar S_Inv S_WE S_Sosl S_AP""".split()


class Stats:
    """What was measured on this run."""

    def __init__(self):
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}

    def add(self, out):
        g, d, left = states(out)
        self.transitions += g
        self.states += d
        return left


def gen_exhaustive(scratch, st, roots=ROOTS, maxdev=1, maxtrivia=0, kinds=(), maxlen=400, tag="genx"):
    cfg = f"""SPECIFICATION Spec
CONSTANTS
 Roots = {tla_set(roots)}
 MaxDev = {maxdev}
 MaxTrivia = {maxtrivia}
 TriviaKinds = {tla_set(kinds)}
 MaxLen = {maxlen}
INVARIANTS TypeOK Complete
"""
    out = tlc("Grammar", cfg, scratch, tag, workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("generator model failed")
    st.add(out)
    return prints(out, "PROG")


SIMROOTS = ROOTS + ["R_list"]


def gen_random(scratch, st, num, seed=SEED, roots=SIMROOTS, maxdev=40, kinds=("nl",), tripcts=(0,), maxlen=300,
               probs=(15, 30, 45, 60, 75), suffixes=("", "", "Long", "LongerName", "AVeryMuchLongerIdentifierName"),
               gapsafter=(), tag="gens"):
    """num random programs per process, 8 processes."""
    cfg = f"""SPECIFICATION SSpec
CONSTANTS
 Roots = {tla_set(roots)}
 MaxDev = {maxdev}
 MaxTrivia = 0
 TriviaKinds = {tla_set(kinds)}
 MaxLen = {maxlen}
 Probs = {tla_set(probs)}
 Suffixes = {tla_set(sorted(set(suffixes)))}
 TriPcts = {tla_set(tripcts)}
 GapsAfter = {tla_set(gapsafter)}
INVARIANT STypeOK
CHECK_DEADLOCK FALSE
"""
    n = max(1, (num + NPROC - 1) // NPROC)

    def one(i):
        return tlc("GrammarSim", cfg, scratch, f"{tag}{i}",
                   args=["-simulate", f"num={n}", "-depth", "900", "-seed", str(seed * 1000 + i)])
    progs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for out in ex.map(one, range(NPROC)):
            got = prints(out, "PROG")
            if not got:
                print(out[-2000:])
                raise CheckError("random generator produced nothing")
            st.add(out)
            progs += got
    return progs


def gen_nested(scratch, st, depths=(6,), period=2, tag="nest"):
    """Constructs nested deeply in themselves (spec/Nest.tla)."""
    out = tlc("Nest", f"""SPECIFICATION Spec
CONSTANTS
 Depths = {tla_set(depths)}
 Period = {period}
INVARIANT Balanced
CHECK_DEADLOCK FALSE
""", scratch, tag, workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("generator of nested programs failed")
    st.add(out)
    return prints(out, "PROG")


def gen_trivia(scratch, st, comments=2, kinds="lbmd", places="body", tag="triv"):
    """Every sequence of comments in every place of the host programs (spec/Trivia.tla)."""
    out = tlc("Trivia", f"""SPECIFICATION Spec
CONSTANTS
 MaxComments = {comments}
 Kinds = {tla_set(list(kinds))}
 Places = "{places}"
INVARIANTS Safe Set
CHECK_DEADLOCK FALSE
""", scratch, tag + places, workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("generator of comments failed")
    st.add(out)
    return prints(out, "PROG")


def gen_comments(scratch, st, lines=3, dev=2):
    """Texts of comments (spec/CommentGen.tla); those the closing mark would end early are left out."""
    out = tlc("CommentGen", f"SPECIFICATION Spec\nCONSTANTS MaxLines = {lines}\n MaxDev = {dev}\nINVARIANT Bounded\nCHECK_DEADLOCK FALSE\n",
              scratch, "cmg", workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("generator of comment texts failed")
    st.add(out)
    r = []
    for c in prints(out, "COMMENT"):
        t = "\n".join(c["lines"])
        if c["kind"] == "line" or "*/" not in t[2:-2] and len(t) >= 4:
            r.append((c["kind"], t))
    return r


MARKS = {"s": " ", "n": "\n", "N": "\n\n", "l": "//C%s", "b": "/*C%s*/", "m": "/* C%s\n  D */", "d": "/**\n * C%s\n */"}


def trivia(kind, gap):
    if kind.startswith("raw:"):
        return kind[4:]
    if kind not in TRIVIA:
        return "".join(MARKS[m].replace("%s", f"{gap}{chr(97 + k)}") for k, m in enumerate(kind))
    x = TRIVIA[kind]
    return x % ((gap,) * x.count("%d")) if "%d" in x else x


TRIVIA = {
    "none": None, "nl": "\n", "blank": "\n\n", "blank3": "\n\n\n\n", "sp": "  ", "tab": "\t", "crlf": "\r\n",
    "blk": " /*C%d*/ ", "line": " //C%d\n", "own": "\n//C%d\n", "ownblk": "\n/*C%d*/\n",
    "ownsp": "\n\n//C%d\n\n", "blk2": " /*C%d*/ /*D%d*/ ", "own2": "\n//C%d\n//D%d\n", "doc": "\n/**\n * C%d\n */\n",
    "docx": "\n  /** first %d\n no star\n  *\n\n   ** two\n * last  **/  \n", "longblk": " /* a %d\n\n      * b\t\n  c*/ ",
    "mix2": " //C%d\n /*D%d*/ ", "mix": " /*C%d*/ //D%d\n", "multi": "\n/* C%d\n   D%d */\n",
}


def tokens_of(p):
    xs = p.get("x")
    r = []
    for t in p["t"]:
        if xs:
            m = re.fullmatch(r"[vF](\d+)", t)
            if m:
                t += xs[int(m.group(1)) - 1]
        r.append(t)
    return r


def gaps_of(p):
    if "k" in p:
        return {i: k for i, k in enumerate(p["k"]) if k != "none"}
    return {a: b for a, b in p.get("g", [])}


def render(p, gaps=None, toks=None):
    """Source text of a generated program: tokens joined by the trivia of each gap."""
    g = gaps_of(p) if gaps is None else gaps
    toks = toks or tokens_of(p)
    s = []
    for i, t in enumerate(toks):
        if i in g:
            s.append(trivia(g[i], i))
        elif i:
            s.append(" ")
        s.append(t)
    n = len(toks)
    if n in g:
        s.append(trivia(g[n], n))
    s.append("\n")
    return "".join(s)


def uniq(progs):
    seen, r = set(), []
    for p in progs:
        k = json.dumps([p["t"], p.get("g"), p.get("k"), p.get("x")])
        if k not in seen:
            seen.add(k)
            r.append(p)
    return r


def fixtures(limit_bytes=20000):
    """Sources of the repository's own fixtures (inputs only)."""
    r = []
    base = os.path.join(REPO, "tests")
    for d, _, fs in sorted(os.walk(base)):
        for f in sorted(fs):
            if f.endswith((".in", ".cls")) and "battle" not in d:
                try:
                    s = open(os.path.join(d, f), encoding="utf-8").read()
                except (OSError, UnicodeDecodeError):
                    continue
                if s.strip() and len(s) < limit_bytes:
                    r.append((os.path.relpath(os.path.join(d, f), base), s))
    seen, u = set(), []
    for n, s in r:
        if s not in seen:
            seen.add(s)
            u.append((n, s))
    return u


def record(cases, scratch, tag="rec", how="rec"):
    """Run the real code on the cases; returns the paths of the record shards."""
    d = os.path.join(scratch, tag)
    os.makedirs(d, exist_ok=True)
    jobs, out = os.path.join(d, "jobs.jsonl"), os.path.join(d, "out.jsonl")
    with open(jobs, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    p = subprocess.run([REC, how, jobs, out, str(NPROC), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-2000:])
        raise CheckError("recorder failed")
    lines = open(out).read().splitlines()
    if len(lines) != len(cases):
        raise CheckError(f"recorder returned {len(lines)} of {len(cases)} records")
    return lines


def validate(module, lines, scratch, st, tag="val", cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", linear=True,
             per_shard=4000):
    """Let TLC judge the records with a trace specification; returns the rejects."""
    n = len(lines)
    if n == 0:
        raise CheckError("no records to judge")
    nsh = max(NPROC if n >= 64 else 1, -(-n // per_shard))
    shards = [lines[i::nsh] for i in range(nsh)]

    def one(i):
        d = os.path.join(scratch, f"{tag}{i}")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, "cases.ndjson")
        with open(f, "w") as h:
            h.write("\n".join(shards[i]) + "\n")
        out = tlc(module, cfg, scratch, f"{tag}{i}", env={"CASES": f})
        os.unlink(f)
        return out
    rej = []
    with ThreadPoolExecutor(NPROC) as ex:
        for i, out in enumerate(ex.map(one, range(nsh))):
            if "Model checking completed. No error has been found" not in out:
                print("\n".join(out.splitlines()[-40:]))
                raise CheckError(f"TLC could not judge the records with {module}")
            g, dd, left = states(out)
            if left != 0 or (linear and dd != len(shards[i]) + 1):
                raise CheckError(f"{module}: judged {dd - 1} of {len(shards[i])} records")
            st.transitions += g
            st.states += dd
            rej += prints(out, "REJECT")
    st.traces += n
    return rej


def load_known(prop):
    """known: property=ID input=<sha256 of source+config> ...   (one per line)"""
    r = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"known: property=(\S+) input=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3)
    return r


def fingerprint(case):
    if "runs" not in case:
        c = {k: v for k, v in case.items() if k not in ("id", "want")}
        return hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]
    return hashlib.sha256(json.dumps([[r["src"], r.get("w", 80), r.get("i", 2)] for r in case["runs"]]).encode()).hexdigest()[:16]


def finish(prop, level, st, rejects, cases_by_id, assumptions, extra=None):
    """Write the evidence, print the verdict, return the exit code."""
    known = load_known(prop)
    os.makedirs(EVID, exist_ok=True)
    viol, reported = 0, set()
    rdir = os.path.join(EVID, "replay")
    first = None
    seen_cases = {}
    for r in rejects:
        seen_cases.setdefault(r["id"], []).append(r["why"])
    for cid, whys in seen_cases.items():
        c = cases_by_id[cid]
        fp = fingerprint(c)
        if fp in known:
            if fp not in reported:
                print(f"KNOWN-FINDING: property={prop} {known[fp]}")
                reported.add(fp)
            continue
        viol += 1
        if viol <= 5:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, f"{prop}-{viol}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "case": c, "why": whys}, f, indent=1)
            print("  reason:", json.dumps(whys)[:600])
            first = first or path
    for fp in known:
        if fp not in reported:
            log(f"note: known finding {fp} was not reproduced on this run")
    cov = {"states": st.states, "transitions": st.transitions,
           "traces_validated_against_impl": st.traces, "samples": st.samples[:20]}
    cov.update(st.extra)
    cov.update(extra or {})
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "wall_s": round(time.time() - T0, 2), "violations": viol, "assumptions": assumptions}
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop}: {st.traces} traces judged, {st.states} states, {viol} violations")
    if viol:
        print(f"VIOLATION property={prop} replay={first}")
        return 1
    return 0


JUNK = ["{", "}", "(", ")", "[", "]", ";", ",", "=", "+", "class", "if", "xyz", "'s'", "'", "/*", "@", "select", ".", "?", "1"]


def gen_mutants(scratch, st, num=0, roots=ROOTS, maxdev=1, maxmut=1, ops=("drop", "swap", "cut"), maxlen=300,
                seed=SEED, tag="genm"):
    """num = 0: every mutant within the bounds; otherwise num random ones."""
    def cfg(spec):
        return f"""SPECIFICATION {spec}
CONSTANTS
 Roots = {tla_set(roots)}
 MaxDev = {maxdev}
 MaxTrivia = 0
 TriviaKinds = {{"nl"}}
 MaxLen = {maxlen}
 MaxMut = {maxmut}
 Ops = {tla_set(ops)}
 Junk = {tla_set(JUNK)}
INVARIANT MTypeOK
CHECK_DEADLOCK FALSE
"""
    if num == 0:
        out = tlc("GrammarMut", cfg("MSpec"), scratch, tag, workers=NPROC, mem="8g")
        if "No error has been found" not in out:
            print(out[-2000:])
            raise CheckError("mutant generator failed")
        st.add(out)
        return prints(out, "PROG")
    n = max(1, (num + NPROC - 1) // NPROC)

    def one(i):
        return tlc("GrammarMut", cfg("MSimSpec"), scratch, f"{tag}{i}",
                   args=["-simulate", f"num={n}", "-depth", "900", "-seed", str(seed * 1000 + 500 + i)])
    progs = []
    with ThreadPoolExecutor(NPROC) as ex:
        for out in ex.map(one, range(NPROC)):
            got = prints(out, "PROG")
            if not got:
                print(out[-2000:])
                raise CheckError("mutant generator produced nothing")
            st.add(out)
            progs += got
    return progs
