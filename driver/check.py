"""check.py PROPERTY [--replay FILE]: decide one property on /repo's working tree.

Corpora are behaviours of the TLA+ generator (exhaustive within bounds and
simulated) and the repository's fixture inputs; verdicts come from TLC.
"""
import random
import re
import sys
import traceback

from lib import *
import cli

THOROUGH = TIER == "thorough"
rnd = random.Random(SEED)

COMMENT_KINDS = ["own", "ownblk", "line", "blk", "doc", "ownsp", "own2", "mix", "mix2", "multi", "blk2", "nl", "blank", "blank3", "docx", "longblk"]
SPACE_KINDS = ["blank", "nl", "sp", "blank3"]
WIDTHS = [1, 20, 40, 80, 80, 120, 100000]
INDENTS = [2, 4, 3, 1, 8]


def n(quick, thorough):
    return thorough if THOROUGH else quick


def config():
    return rnd.choice(WIDTHS), rnd.choice(INDENTS)


class Cases:
    """Cases of a check, by id."""

    def __init__(self, want):
        self.want = want
        self.list = []

    def add(self, kind, runs):
        self.list.append({"id": f"{kind}{len(self.list)}", "runs": runs, "want": self.want})

    def single(self, kind, src, cfg=None):
        w, i = cfg or config()
        if rnd.random() < 0.1:   # how the file begins and ends
            src = rnd.choice(["", "", "\n", "\n\n\n", "  ", "\t\n"]) + src.rstrip("\n") + rnd.choice(["", "", "\n\n", "\n\n\n\n", "  ", " \n\t"])
        if rnd.random() < 0.1:
            src = src.replace("\n", "\r\n")
        self.add(kind, [{"n": "f", "src": src, "w": w, "i": i}])


# ---------------------------------------------------------------- corpora

def plain_programs(sc, st, dev=2, num=4000, nest=2):
    a = gen_exhaustive(sc, st, maxdev=dev)
    a += gen_exhaustive(sc, st, roots=["R_nest"], maxdev=nest, tag="genn")
    a += gen_exhaustive(sc, st, roots=["R_list"], maxdev=1, tag="genl")
    b = gen_exhaustive(sc, st, roots=STARTS, maxdev=2, tag="gens")
    a += rnd.sample(b, min(len(b), n(9000, 10 ** 6)))
    b = gen_nested(sc, st, depths=(3, 6) if THOROUGH else (5,))
    a += rnd.sample(b, min(len(b), n(2000, 10 ** 6)))
    a += gen_random(sc, st, num, kinds=SPACE_KINDS, tripcts=(0, 100, 400))
    if THOROUGH:
        a += gen_random(sc, st, num, seed=SEED + 50, maxlen=900, kinds=SPACE_KINDS, tripcts=(0, 100), tag="genb")
    return a


def commented_programs(sc, st, num=4000, exhaustive=True):
    a = []
    if exhaustive:
        # every production of the grammar with a comment in each of its gaps
        for p in gen_exhaustive(sc, st, maxdev=1, maxtrivia=1, kinds=["any"], roots=ROOTS[:9] + STARTS, tag="genc"):
            for _ in range(n(1, 4) if p["g"] else 1):
                a.append(dict(p, g=[[g, rnd.choice(COMMENT_KINDS)] for g, k in p["g"]]))
        # comments on both sides of a mark
        for p in gen_random(sc, st, num // 2, tag="genm"):
            toks = tokens_of(p)
            marks = [i for i, t in enumerate(toks) if t in (",", ";", "(", ")", ".", "?.", "else")]
            i = rnd.choice(rnd.choice([marks, [m for m in marks if toks[m] in (",", ";")]]) or [0])
            a.append(dict(p, g=[[i, rnd.choice(COMMENT_KINDS)], [i + 1, rnd.choice(COMMENT_KINDS)]]))
    # every sequence of comments in every place of some hosts
    b = gen_trivia(sc, st, places="body") + (gen_trivia(sc, st, 3, "lb", tag="triv3") if THOROUGH else [])
    a += rnd.sample(b, min(len(b), n(5000, 40000)))
    b = gen_trivia(sc, st, places="odd")
    a += rnd.sample(b, n(3000, 20000))
    # comments of every form, in any of these places
    places = {"line": gen_trivia(sc, st, 1, "l", "body", "t1") + gen_trivia(sc, st, 1, "l", "odd", "t1")}
    places["block"] = places["doc"] = gen_trivia(sc, st, 1, "b", "body", "t2") * 3 + gen_trivia(sc, st, 1, "b", "odd", "t2")
    b = gen_comments(sc, st, 3, n(2, 3))
    for kind, text in rnd.sample(b, min(len(b), n(5000, 30000))):
        p = rnd.choice(places[kind])
        (gap, k), = p["g"]
        a.append(dict(p, g=[[gap, "raw:" + MARKS[k[0]] + text + MARKS[k[2]]]]))
    a += gen_random(sc, st, num, kinds=COMMENT_KINDS, tripcts=(100, 250, 600), gapsafter=(";", "{", "}"), tag="geno")
    a += gen_random(sc, st, num, seed=SEED + 7, kinds=COMMENT_KINDS, tripcts=(20, 80), tag="gena")
    return a


def singles(progs, want, kind="g"):
    c = Cases(want)
    for p in progs:
        c.single(kind, render(p))
    return c


def add_fixtures(c, kind="fix:"):
    for name, src in fixtures():
        for cfg in ((80, 2), (1, 2), (40, 4), (100000, 3)):
            c.add(kind + name + ":", [{"n": f"w{cfg[0]}i{cfg[1]}", "src": src, "w": cfg[0], "i": cfg[1]}])


def judge(prop, level, st, sc, c, module, assumptions, cfg="SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", linear=True, rule=None):
    log(f"{len(c.list)} cases")
    lines = record(c.list, sc)
    log(f"recorded {sum(map(len, lines)) / 1e6:.0f} MB")
    rej = validate(module, lines, sc, st, cfg=cfg, linear=linear)
    if os.environ.get("AFMT_DUMP"): json.dump(rej, open(os.environ["AFMT_DUMP"], "w"))
    by = {x["id"]: x for x in c.list}
    step = max(1, len(c.list) // 12)
    st.samples = [{"id": x["id"], "runs": [{k: r[k] for k in r} for r in x["runs"]][:2]} for x in c.list[step // 2::step]
                  if len(x["runs"][0]["src"]) < 1500][:12]
    ok = sum('"st":"ok"' in l for l in lines)
    st.extra.update(distinct_sources=len({r["src"] for x in c.list for r in x["runs"]}), accepted_cases=ok)
    return finish(prop, level, st, rej, by, assumptions)


GRAMMAR_NOTE = ("programs: every derivation of spec/Grammar.tla within the stated number of deviations, "
                "seeded simulations of it, and the repository's fixture inputs")
PARSER_NOTE = "the syntax tree and tokens of source and output are those of the tree-sitter grammar the formatter itself uses"


# ------------------------------------------------------------- properties

def p01(sc, st):
    c = singles(plain_programs(sc, st, num=n(4000, 40000)), ["it", "ot"])
    for p in commented_programs(sc, st, n(2000, 20000)):
        c.single("c", render(p))
    add_fixtures(c)
    return judge("P01", "model_checking", st, sc, c, "Tokens", [GRAMMAR_NOTE, PARSER_NOTE,
                 "tokens are compared without letter case and inner white space where they are not names, numbers or strings"], linear=False)


def p18(sc, st):
    c = singles(plain_programs(sc, st, num=n(4000, 40000)), ["it", "ot"])
    add_fixtures(c)
    return judge("P18", "model_checking", st, sc, c, "Structure", [GRAMMAR_NOTE, PARSER_NOTE, "AND nested in AND (OR in OR) counts as one level"])


COMPARISONS = ["F%d = 1", "F%d.G%d IN :v", "F%d LIKE 'and ( or'", "F%d IN (SELECT G%d FROM H%d WHERE K = 1 AND (L = 2 OR M = 3))",
               "toLabel(F%d) != null", "DISTANCE(F%d, GEOLOCATION(1.5, 2.5), 'mi') < 20", "F%d NOT IN ('a', 'b')", "F%d > :(a + b)"]
QUERIES = ["class A { void f() { x = [SELECT Id FROM A WHERE %s]; } }",
           "class A { void f() { x = [SELECT Id FROM A WHERE %s ORDER BY Id LIMIT 1]; } }",
           "class A { void f() { x = [SELECT Id, (SELECT Id FROM Bs WHERE %s) FROM A WHERE C = 1]; } }",
           "class A { void f() { for (A a : [SELECT Id FROM A WHERE B IN (SELECT Id FROM B WHERE %s)]) {} } }",
           "class A { void f() { x = [FIND 'x' RETURNING A (Id WHERE %s)]; } }",
           "class A { void f() { x = [SELECT COUNT(Id) FROM A WHERE Z = 1 GROUP BY B HAVING %s]; } }"]


def query_conditions(sc, st, leaves, parens, nots, tag="soql"):
    cfg = f"""SPECIFICATION GSpec
CONSTANTS
 MaxLeaves = {leaves}
 MaxParens = {parens}
 MaxNots = {nots}
INVARIANTS Defined Wrapped Twice
CHECK_DEADLOCK FALSE
"""
    out = tlc("SoqlGen", cfg, sc, tag, workers=NPROC, mem="6g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("condition generator failed")
    st.add(out)
    return prints(out, "COND")


def p16(sc, st):
    c = Cases(["it", "ot"])
    conds = query_conditions(sc, st, 4, 4, 2)
    if THOROUGH:
        conds += query_conditions(sc, st, 5, 5, 2, "soqlb")
    for x in conds:
        for _ in range(n(1, 2)):
            k = rnd.choice([0, 0, len(COMPARISONS)])
            words = []
            for m, t in enumerate(x):
                if t == "#":
                    f = COMPARISONS[rnd.randrange(k)] if k else COMPARISONS[0]
                    t = f % ((m,) * f.count("%d"))
                words.append(rnd.choice([t, t.upper(), t.upper(), t.capitalize()]) if t in ("and", "or", "not") else t)
            c.single("q", rnd.choice(QUERIES) % " ".join(words))
    for p in gen_exhaustive(sc, st, roots=["S_Bool", "S_Clauses", "S_SubQ"], maxdev=n(2, 3)):
        c.single("g", render(p))
    add_fixtures(c)
    return judge("P16", "model_checking", st, sc, c, "SoqlGroups", ["conditions: every one of the grammar within the bounds on comparisons, parentheses and NOTs; "
                 "meaning: all assignments of truth values to the comparisons", GRAMMAR_NOTE, PARSER_NOTE])


def comments(prop, module, extra):
    def f(sc, st):
        c = singles(commented_programs(sc, st, n(4000, 40000)), ["it", "ot", "cm"])
        add_fixtures(c)
        return judge(prop, "model_checking", st, sc, c, module, [GRAMMAR_NOTE, PARSER_NOTE] + extra)
    return f


def layout(prop, module, extra):
    def f(sc, st):
        c = singles(plain_programs(sc, st, dev=n(1, 2), num=n(5000, 50000), nest=n(3, 4)), ["it", "ot"])
        for p in commented_programs(sc, st, n(4000, 40000), exhaustive=THOROUGH):
            c.single("c", render(p))
        add_fixtures(c)
        return judge(prop, "model_checking", st, sc, c, module, [GRAMMAR_NOTE, PARSER_NOTE] + extra)
    return f


CANON = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Fixpoint = %s Layout = %s\n"


def p04(sc, st):
    c = singles(plain_programs(sc, st, num=n(4000, 40000)), ["it", "ot", "again"])
    for p in commented_programs(sc, st, n(4000, 40000), exhaustive=THOROUGH):
        c.single("c", render(p))
    add_fixtures(c)
    return judge("P04", "model_checking", st, sc, c, "Canon", [GRAMMAR_NOTE, PARSER_NOTE,
                 "with comments: only where every comment stands between the items of a body"],
                 cfg=CANON % ("TRUE", "FALSE"), linear=False)


def respace(p, kinds):
    toks = tokens_of(p)
    return render(p, gaps={g: rnd.choice(kinds) for g in range(1, len(toks)) if rnd.random() < 0.5}, toks=toks)


def p05(sc, st):
    progs = gen_exhaustive(sc, st, maxdev=n(1, 2)) + gen_random(sc, st, n(6000, 40000), kinds=["blank", "nl", "sp"], tripcts=(0, 100))
    deep = gen_nested(sc, st, depths=(4,))
    progs += deep if THOROUGH else rnd.sample(deep, 800)
    c = Cases(["it", "ot"])
    for p in progs:
        w, i = config()
        toks = tokens_of(p)
        vs = [render(p), respace(p, ["nl", "tab", "crlf", "sp"]), render(p, {g: "nl" for g in range(1, len(toks))}, toks),
              respace(p, ["nl", "blank", "blank3", "tab"]), render(p, {g: "blank" for g in range(1, len(toks))}, toks)]
        c.add("v", [{"n": f"v{j}", "src": s, "w": w, "i": i} for j, s in enumerate(vs)])
    return judge("P05", "model_checking", st, sc, c, "Canon", [GRAMMAR_NOTE, PARSER_NOTE, "programs without comments and stray semicolons"],
                 cfg=CANON % ("FALSE", "TRUE"), linear=False)


def p08(sc, st):
    progs = plain_programs(sc, st, dev=n(1, 2), num=n(6000, 40000))
    c = Cases(["it", "ot"])
    for p in progs:
        s = render(p)
        ind = rnd.choice(INDENTS)
        c.add("w", [{"n": f"w{w}", "src": s, "w": w, "i": ind} for w in sorted({1, 20, 40, 60, 80, 100, 100000, rnd.randrange(2, 140)})])
    for name, s in fixtures(6000):
        c.add("fix:" + name + ":", [{"n": f"w{w}", "src": s, "w": w, "i": 2} for w in (1, 20, 40, 60, 80, 100, 120, 100000)])
    return judge("P08", "model_checking", st, sc, c, "Width", [GRAMMAR_NOTE, PARSER_NOTE, "programs without comments"])


def mutate_text(s):
    op = rnd.randrange(4)
    q = rnd.randrange(len(s))
    if op == 0:
        return s[:q]
    if op == 1:
        return s[:q] + s[q + 1:]
    if op == 2:
        return s[:q] + rnd.choice("{}()[];,'\"/*@=.") + s[q:]
    return s[q:]


ACCEPT = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS Refusals = %s\n"


def p13(sc, st):
    progs = gen_mutants(sc, st, ops=n(("drop", "cut"), ("drop", "swap", "cut", "dup", "tail")), maxdev=1)
    progs += gen_mutants(sc, st, num=n(8000, 60000), maxdev=30, maxmut=2, ops=("drop", "dup", "swap", "cut", "tail", "ins"), tag="genr")
    c = Cases(["it"])
    seen = set()
    for p in progs:
        s = render(p)
        if s not in seen:
            seen.add(s)
            c.single("m", s)
    for name, s in fixtures():
        for _ in range(n(3, 30)):
            c.single("fix:" + name + ":", mutate_text(s))
    return judge("P13", "model_checking", st, sc, c, "Accept", [PARSER_NOTE,
                 "programs: mutants (spec/GrammarMut.tla) of generated programs and fixtures; what is a syntax error is the grammar's verdict"],
                 cfg=ACCEPT % "TRUE")


def p14(sc, st):
    c = singles(plain_programs(sc, st, num=n(4000, 40000)), ["it"])
    for p in commented_programs(sc, st, n(3000, 30000), exhaustive=True):
        c.single("c", render(p))
    deep = gen_nested(sc, st, depths=(60,), tag="deep")
    for p in deep if THOROUGH else rnd.sample(deep, 4000):
        c.single("deep", render(p))
    for p in gen_random(sc, st, 64, maxdev=400, probs=(60, 75, 90), maxlen=4000, tag="genh"):
        c.single("big", render(p))
    add_fixtures(c)
    return judge("P14", "model_checking", st, sc, c, "Accept", [GRAMMAR_NOTE, PARSER_NOTE,
                 "constructs the formatter does not support (listed in spec/Apex.tla and spec/Accept.tla) may be refused",
                 "a run that takes more than the recorder's time limit counts as a hang"], cfg=ACCEPT % "FALSE")


# ------------------------------------------------- many calls of the formatter

JOBS_CFG = """SPECIFICATION Spec
CONSTANTS
 Workers = %d
 MaxLen = %d
 Classes = %s
 Batch = %s
 Flaws = {%s}
 Emit = TRUE
INVARIANTS TypeOK Isolated AllAnswered InOrder OnceEach
PROPERTY Ends
CHECK_DEADLOCK FALSE
"""
CLASSES = ["ok1", "ok2", "unreadable", "syntax", "odd", "lost"]


def jobs_model(sc, st, workers, maxlen, classes, batch, tag):
    """Check the model within bounds; returns its scenarios (lists of classes, order of reading)."""
    out = tlc("Jobs", JOBS_CFG % (workers, maxlen, tla_set(classes), "TRUE" if batch else "FALSE", ""), sc, tag,
              workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("the model of the calls does not have its properties")
    st.add(out)
    return uniqj(prints(out, "JOBS"))


def jobs_flaws(sc, st):
    """The invariants of the model must notice each of the flaws it can be given."""
    for flaw, batch in (("shared", False), ("stale", False), ("lazy", False), ("unsorted", True), ("uncaught", True)):
        out = tlc("Jobs", (JOBS_CFG % (2, 2, tla_set(["ok1", "ok2", "syntax", "lost"]), "TRUE" if batch else "FALSE",
                                       '"%s"' % flaw)).replace("Emit = TRUE", "Emit = FALSE"), sc, "flaw" + flaw, workers=NPROC)
        if "is violated" not in out:
            raise CheckError(f"the model does not notice the flaw {flaw}")
    st.extra["model_flaws_noticed"] = 5


def uniqj(xs):
    return [json.loads(x) for x in sorted({json.dumps(x) for x in xs})]


def classify(sc, st):
    """Texts by what becomes of them when formatted alone (facts for choosing scenarios, not verdicts)."""
    c = singles(gen_random(sc, st, n(400, 1600), maxdev=60, kinds=COMMENT_KINDS, tripcts=(50, 200), gapsafter=(";", "{", "}"), tag="ja"), [])
    for p in gen_random(sc, st, n(400, 1600), maxdev=60, kinds=COMMENT_KINDS, tripcts=(0, 100, 300), seed=SEED + 3, tag="jb"):
        c.single("o", render(p))
    for p in gen_mutants(sc, st, num=n(200, 800), maxdev=20, tag="jm"):
        c.single("m", render(p))
    for _, s in fixtures(8000):
        c.single("fix", s)
    for s in ODD:
        c.single("odd", s)
    pool = {"ok1": [], "ok2": [], "syntax": [], "odd": [], "lost": []}
    for x, l in zip(c.list, record(c.list, sc, "cls")):
        r = json.loads(l)
        src, run = x["runs"][0]["src"], r["runs"][0]
        if run["st"] == "ok":
            pool["ok1" if "/*" in src or "//" in src else "ok2"].append(src)
        elif r["texts"][run["s"] - 1]["err"]:
            pool["syntax"].append(src)
        elif "comment" in run["msg"]:
            pool["lost"].append(src)
        else:
            pool["odd"].append(src)
    for k in pool:
        if not pool[k]:
            pool[k] = pool["syntax"] or ["class {"]
    st.extra["texts_by_class"] = {k: len(v) for k, v in pool.items()}
    return pool


ODD = ["class A { void f() { Integer[] a = {1, 2}; } }\n", "void f() { }\n",
       "class A { void f() { x = [SELECT Id FROM A WITH DATA CATEGORY B__c AT C__c]; } }\n"]


class Texts:
    def __init__(self, pool):
        self.pool, self.list = pool, []

    def pick(self, cl):
        s = rnd.choice(self.pool[cl])
        if s not in self.list:
            self.list.append(s)
        return self.list.index(s) + 1


def judge_calls(prop, st, sc, cases, assumptions):
    log(f"{len(cases)} cases")
    lines = record(cases, sc, how="calls")
    rej = validate("Batch", lines, sc, st)
    st.samples = [{k: x[k] for k in x if k != "texts"} for x in cases[:: max(1, len(cases) // 12)]][:12]
    st.extra.update(calls=sum(len(x.get("files", [])) + sum(map(len, x.get("threads", []))) for x in cases))
    return finish(prop, "model_checking", st, rej, {x["id"]: x for x in cases}, assumptions)


JOBS_NOTE = "schedules: every interleaving of the steps in spec/Jobs.tla for the stated numbers of workers; the real runs are paced by pipes (order of reading) or left to the scheduler"


SESSION = """SPECIFICATION Spec
CONSTANTS
 Depth = %d
 Flaws = {%s}
 Emit = %s
INVARIANT Right
CHECK_DEADLOCK FALSE
"""
FORMATTERS = [[1, ["p", "q"]], [2, ["q", "p", "p"]], [1, ["none", "q"]]]


def sessions(sc, st):
    """Histories of calls, edits and batches in one process (spec/Session.tla)."""
    for flaw in ("sticky", "bytext", "near", "bypath", "poisoned"):
        out = tlc("Session", SESSION % (3, '"%s"' % flaw, "FALSE"), sc, "sf" + flaw, workers=NPROC)
        if "is violated" not in out:
            raise CheckError(f"the model does not notice the flaw {flaw}")
    out = tlc("Session", SESSION % (3, "", "TRUE"), sc, "sx", workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("the model of the sessions does not have its property")
    st.add(out)
    hs = [h for h in prints(out, "SESSION") if h[-1][0] != "edit"]
    hs = rnd.sample(hs, n(1500, 12000))
    k = n(1500, 12000)
    out = tlc("Session", SESSION % (9, "", "TRUE"), sc, "ss", args=["-simulate", f"num={k}", "-depth", "10", "-seed", str(SEED)])
    more = prints(out, "SESSION")
    if not more:
        print(out[-2000:])
        raise CheckError("no random sessions")
    return hs + more[:k]


def twin(s):
    """The text with one letter of an identifier changed."""
    ms = [m for m in re.finditer(r"\b[vF]\d+[A-Za-z]*", s)]
    if not ms:
        return s + "\n"
    m = rnd.choice(ms)
    return s[:m.start()] + ("u" if s[m.start()] == "v" else "G") + s[m.start() + 1:]


def session_cases(sc, st, pool):
    cases = []
    for h in sessions(sc, st):
        a = rnd.choice(pool["ok1"] if rnd.random() < 0.5 else pool["ok2"])
        texts = [a, twin(a), rnd.choice(pool["syntax"] + pool["odd"]), rnd.choice(pool["lost"])]
        ix = {"a": 1, "twin": 2, "bad": 3, "lost": 4, "none": 0}
        c1 = config()
        confs = [c1, rnd.choice([(c1[0], rnd.choice([i for i in INDENTS if i != c1[1]])), (rnd.choice([w for w in WIDTHS if w != c1[0]]), c1[1])])]
        steps = []
        for s in h:
            if s[0] == "one":
                steps.append(["one", s[1], ix[s[2]], int(s[3][1])])
            elif s[0] == "edit":
                steps.append(["edit", s[1], ix[s[2]], 0])
            else:
                steps.append(["batch", "", s[1], 0])
        cases.append({"id": f"s{len(cases)}", "w": 80, "i": 2, "texts": texts, "confs": confs, "formatters": FORMATTERS, "steps": steps})
    return cases


def p06(sc, st):
    scen = jobs_model(sc, st, 1, n(4, 5), [x for x in CLASSES if x != "unreadable"], False, "j1")
    scen += jobs_model(sc, st, 2, 2, ["ok1", "ok2", "syntax", "lost"], False, "j2")
    if THOROUGH:
        scen += jobs_model(sc, st, 3, 1, [x for x in CLASSES if x != "unreadable"], False, "j3")
    jobs_flaws(sc, st)
    pool = classify(sc, st)
    cases = []
    for s in scen:
        t = Texts(pool)
        w, i = config()
        th = [[t.pick(cl) for cl in l] for l in s["lists"]]
        cases.append({"id": f"t{len(cases)}", "w": w, "i": i, "texts": t.list, "threads": th})
    for _ in range(n(60, 600)):   # many threads at once, the same few texts in different orders
        t = Texts(pool)
        w, i = config()
        for cl in ("ok1", "ok1", "ok1", "ok2", "ok2", "syntax", "odd", "lost"):
            t.pick(cl)
        ids = list(range(1, len(t.list) + 1))
        cases.append({"id": f"t{len(cases)}", "w": w, "i": i, "texts": t.list,
                      "threads": [rnd.sample(ids, len(ids)) * n(4, 8) for _ in range(8)]})
    cases += session_cases(sc, st, pool)
    rnd.shuffle(cases)   # the processes of the recorder live through many cases
    return judge_calls("P06", st, sc, cases, [JOBS_NOTE, "what a text gives alone is recorded in a process of its own"])


def p07(sc, st):
    scen = jobs_model(sc, st, 2, 1, CLASSES, True, "j2")
    scen += jobs_model(sc, st, 3, 1, n(["ok1", "ok2", "unreadable", "syntax"], CLASSES), True, "j3")
    jobs_flaws(sc, st)
    pool = classify(sc, st)
    cases = []

    def add(classes, order, pause, kinds=("pipe",), again=False):
        t = Texts(pool)
        w, i = config()
        files = []
        for cl in classes:
            if cl == "unreadable":
                files.append([rnd.choice(["missing", "dir", "bytes"]), 1])
            else:
                files.append([rnd.choice(kinds), t.pick(cl)])
            if again and files[-1][0] == "file" and rnd.random() < 0.2:
                files.append(["same", files[-1][1]])
        if not t.list:
            t.pick("ok2")
        pipes = [q + 1 for q, f in enumerate(files) if f[0] == "pipe"]
        cases.append({"id": f"b{len(cases)}", "w": w, "i": i, "texts": t.list, "files": files,
                      "order": [q for q in order if q in pipes] + [q for q in pipes if q not in order], "pause_ms": pause})
    for s in scen:
        add([l[0] for l in s["lists"]], s["order"], 12)
    for _ in range(n(150, 1500)):
        k = rnd.choice([1, 4, 5, 8, 16, 40, 130])
        cl = [rnd.choice(CLASSES[:2] * rnd.choice([1, 4]) + CLASSES[2:]) for _ in range(k)]
        add(cl, rnd.sample(range(1, k + 1), k), rnd.choice([0, 2]), rnd.choice([("pipe",), ("file",), ("file", "pipe")]), again=k % 2 == 0)
    return judge_calls("P07", st, sc, cases, [JOBS_NOTE, "files: readable ones (regular files and pipes), missing ones, directories, files that are not UTF-8"])


# ------------------------------------------------------------ command line

CLIGEN = """SPECIFICATION Spec
CONSTANTS
 Depth = %d
 Confs = {"none", "conf2", "badconf", "noconf"}
 Faults = %s
 Emit = %s
INVARIANTS OnlyWriteChanges SameFile Truth Agree NeverCut
CHECK_DEADLOCK FALSE
"""
FAULT_TEXT = "class A{void f(){a();b();c();}}\n"


def p12(sc, st):
    out = tlc("CliGen", CLIGEN % (n(3, 4), "FALSE", "TRUE"), sc, "cg", workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("the model of the command line does not have its properties")
    st.add(out)
    hists = [h for h in prints(out, "HIST") if any(a[0] == "run" for a in h) and h[0][0] != "run"]
    f = tlc("CliGen", (CLIGEN % (2, "TRUE", "FALSE")).replace("OnlyWriteChanges SameFile Truth Agree ", ""), sc, "cf")
    if "NeverCut is violated" not in f:
        raise CheckError("the model does not show what an interrupted write can do")
    rnd.shuffle(hists)
    hists = hists[:n(6000, 60000)]
    pool = classify(sc, st)
    ok = rnd.sample(pool["ok1"] + pool["ok2"], 60) + ["class A{}", "", "\n", "class A {\r\n}\r\n", "class \u00e9 { String s = '\u20ac'; }"]
    fm = cli.answers([(s, 80, 2) for s in ok], sc, "pre")
    ok = [s for s in ok if fm[(s, 80, 2)][0] == "ok"]
    drop = cli.can_drop()
    root = os.path.join(sc, "cli")
    os.makedirs(root)
    for d in (sc, root):
        os.chmod(d, 0o755)
    binary = os.path.join(root, "afmt")
    cli.shutil.copy(CLI, binary)
    os.chmod(binary, 0o755)
    jobs = []
    for k, h in enumerate(hists):
        if not drop and any(a[0] == "chmod" for a in h):
            continue
        raw = rnd.choice(ok)
        h = [list(a) for a in h]
        if rnd.random() < 0.15:
            h.insert(rnd.randrange(1, len(h) + 1), ["usage"])
        jobs.append({"id": f"h{k}", "dir": f"{root}/h{k}", "bin": binary, "hist": h, "drop": drop, "style": rnd.randrange(1 << 30),
                     "conf2": rnd.choice([[40, 4], [20, 3], [120, 8], [80, 4], [60, 2]]),
                     "texts": {"raw": raw, "fmt": fm[(raw, 80, 2)][1], "broken": rnd.choice(pool["syntax"]),
                               "odd": rnd.choice(pool["odd"] + pool["lost"]), "empty": ""}})
    jobs.append({"id": "fault", "dir": f"{root}/fault", "bin": binary, "hist": [["edit", "raw"], ["fault", "write", "none", 16]], "drop": drop,
                 "style": 1, "path": "f.cls", "conf2": [40, 4], "texts": {"raw": FAULT_TEXT}})
    log(f"{len(jobs)} histories")
    recs = cli.parallel(cli.run_history, jobs)
    log("ran them")
    need = []
    for r in recs:
        for e in r["steps"]:
            if "before" in e and e["before"][0] == "text":
                need += [(e["before"][1], 80, 2), (e["before"][1], *r["conf2"])]
    ans = cli.answers(need, sc, "ans")
    lines = []
    for r in recs:
        ts = sorted({e["before"][1] for e in r["steps"] if "before" in e and e["before"][0] == "text"})
        r["ans"] = [[t, c, *ans[(t, *w)]] for t in ts for c, w in (("none", (80, 2)), ("conf2", r["conf2"]))]
        lines.append(json.dumps(r))
    rej = validate("CliTrace", lines, sc, st, linear=False)
    by = {j["id"]: {k: j[k] for k in ("hist", "texts", "conf2", "style")} for j in jobs}
    st.samples = [{"hist": j["hist"], "steps": [{k: e[k] for k in ("args", "code") if k in e} for e in r["steps"]]} for j, r in list(zip(jobs, recs))[5::len(jobs) // 12]][:12]
    st.extra["runs_of_the_binary"] = sum("code" in e for r in recs for e in r["steps"])
    return finish("P12", "model_checking", st, rej, by, [
        "what the formatter answers for a text and a configuration is the library's recorded answer",
        "permissions are tested as an unprivileged user" if drop else "permissions could not be tested in this environment"])


CONFGEN = """SPECIFICATION Spec
CONSTANTS MaxLines = %d
 MaxOdd = %d
INVARIANTS Sane Idle
CHECK_DEADLOCK FALSE
"""


def render_conf(lines, r):
    """Text of an abstract configuration, in a random spelling."""
    out = []
    for kind, key, vk, v in lines:
        if kind == "table":
            out.append(r.choice(["[t]", "[ t ]", "[\"t\"]"]))
        elif kind == "malformed":
            out.append(r.choice(["max_width 20", "= 3", "max_width = ", "[t", "max_width = 20 indent_size = 4", "max_width : 20", "\"max_width = 3"]))
        elif kind == "comment":
            out.append(r.choice(["# max_width = 33", "", "   ", "\t# indent_size = 7"]))
        else:
            if vk == "int":
                x = int(v)
                v = r.choice([v, v, v, hex(x), "+" + v if x else v, oct(x), bin(x)] + ([v[0] + "_" + v[1:]] if len(v) > 1 else []))
            else:
                v = r.choice({"neg": ["-1", "-80"], "big": ["4294967296", "99999999999"], "str": ['"80"', "'4'", '""'],
                              "float": ["80.0", "4e1", "inf"], "bool": ["true", "false"], "array": ["[80]", "[]", "{ a = 1 }"]}[vk])
            k = r.choice([key, key, key, '"%s"' % key, "'%s'" % key])
            out.append(r.choice(["%s = %s", "%s=%s", "  %s   =\t%s", "%s = %s  # note"]) % (k, v))
    nl = r.choice(["\n", "\n", "\r\n"])
    return nl.join(out) + r.choice([nl, ""])


def telling(sc, texts, widths, indents, least):
    cs = [(w, i) for w in widths for i in indents]
    a = cli.answers([(s, w, i) for s in texts for w, i in cs], sc, "pre" + str(least))
    return [s for s in texts if len({a[(s, w, i)] for w, i in cs}) >= least and a[(s, *cs[0])][0] == "ok"]


def p15(sc, st):
    out = tlc("ConfigGen", CONFGEN % (n(3, 4), n(2, 2)), sc, "cg", workers=NPROC, mem="8g")
    if "No error has been found" not in out:
        print(out[-2000:])
        raise CheckError("the model of the configuration does not have its properties")
    st.add(out)
    confs = prints(out, "CONF")
    st.extra["configurations_enumerated"] = len(confs)
    small = [c for c in confs if len(c["c"]) <= 2]
    rest = [c for c in confs if len(c["c"]) > 2]
    confs = small + rnd.sample(rest, min(len(rest), n(5000, 60000)))
    meanings = sorted({tuple(c["m"][1:]) for c in confs if c["m"][0] == "ok"})
    pool = [s for p in gen_random(sc, st, 300, roots=["R_big", "R_unit", "R_member"], maxdev=60, tag="cp") for s in [render(p)] if len(s) < 3000]
    pool += [s for _, s in fixtures(1500)]
    rnd.shuffle(pool)
    wide = ["class A { void f() { %s } }" % " ".join("g(%s);" % ", ".join(["name%d" % rnd.randrange(100, 999) for _ in range(k)])
                                                     for k in rnd.sample([9, 12, 16, 24, 28, 60, 105, 115, 130], 9)) for _ in range(n(3, 12))]
    # texts whose layouts tell the configurations apart
    wide = telling(sc, wide, (80, 120, 200, 250, 1000, 100000), (2, 5), 12)
    pool = telling(sc, pool, (20, 40, 79, 80, 120), (2, 3), 8)[:n(12, 40)] + [pool[0]] + wide
    st.extra.update(texts=len(pool), wide_texts=len(wide))
    log(f"{len(confs)} configurations, {len(pool)} texts")
    a = cli.answers([(s, int(w), int(i)) for s in pool for w, i in meanings], sc, "ans")
    root = os.path.join(sc, "conf")
    os.makedirs(root)
    jobs = []
    for k, c in enumerate(confs):
        r = random.Random(SEED * 1000003 + k)
        jobs.append({"id": f"c{k}", "dir": f"{root}/c{k}", "conf": c["c"], "text": r.choice(pool), "mode": r.choice(["dry", "dry", "write", "check"]),
                     "file": render_conf(c["c"], r), "style": r.randrange(1 << 30), "how": "text", "meaning": c["m"]})
    for k in range(24):
        r = random.Random(SEED * 1009 + k)
        jobs.append({"id": f"a{k}", "dir": f"{root}/a{k}", "conf": [], "text": r.choice(pool), "mode": ["dry", "write", "check"][k % 3], "file": "max_width = 40\n",
                     "style": k, "how": ["missing", "dir", "bytes"][k // 3 % 3], "meaning": ["refused", "", ""]})
    recs = cli.parallel(cli.run_conf, jobs)
    lines = []
    for j, r in zip(jobs, recs):
        m = j["meaning"]
        r["ans"] = [[m[1], m[2], *a[(j["text"], int(m[1]), int(m[2]))]]] if m[0] == "ok" else []
        lines.append(json.dumps(r))
    rej = validate("ConfigTrace", lines, sc, st)
    st.samples = [{"file": j["file"], "meaning": j["meaning"], "mode": j["mode"]} for j in jobs[7::len(jobs) // 12]][:12]
    by = {j["id"]: {k: j[k] for k in ("conf", "file", "text", "mode", "how")} for j in jobs}
    return finish("P15", "model_checking", st, rej, by, ["the layout for a width and an indentation is the library's recorded answer",
                                                         "indentations above 8 are not tested"])


PROPS = {
    "P01": p01,
    "P02": comments("P02", "CommentOnce", []),
    "P03": comments("P03", "CommentPlace", ["rules for the exact place apply where all comments stand between the items of a body"]),
    "P04": p04,
    "P05": p05,
    "P06": p06,
    "P07": p07,
    "P08": p08,
    "P09": layout("P09", "Indent", []),
    "P10": layout("P10", "Vertical", ["blank line rules apply where all comments stand between the items of a body"]),
    "P11": layout("P11", "Spacing", ["judged where all comments stand between the items of a body; the space beside comments is not judged"]),
    "P12": p12,
    "P13": p13,
    "P14": p14,
    "P15": p15,
    "P16": p16,
    "P17": comments("P17", "CommentForm", []),
    "P18": p18,
}


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check PROPERTY; one of", " ".join(sorted(PROPS)))
        return 2
    prop = sys.argv[1]
    try:
        build()
        log("built")
        with Scratch() as sc:
            return PROPS[prop](sc, Stats())
    except CheckError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
