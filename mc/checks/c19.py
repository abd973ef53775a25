"""C19: a failing or interrupted run leaves every output file as it was or complete."""
import itertools
import json
import os

from ..faults import ERRORS, READS, restore, run_cli, snapshot
from ..faulty import FAILURES
from ..turmsio import plugins, scratch, stylers, write_tree

ID = "C19"
LEVEL = "model_checking"
RULE = ("one case = one project layout, one state of the output before, one entry point and one kind of failure; a state is one point of the run at which "
        "the failure strikes: every file-system call below the project (seen through Python's audit events) for errors, interruption and process "
        "death, every size at which the kernel stops a write (RLIMIT_FSIZE) for torn writes; a trace is one run of the real command line in a process of its "
        "own, compared file by file with the state before and with the run without failure; runs that died are followed by a run without failure, which "
        "must give the complete output. Outcomes: distinct (kind, files changed, exit code class).")
BOUNDS = {
    "quick": "8 layouts x 5 states before x 7 entry points x (4 errors, interruption, lack of memory, death) at every call; torn writes at 12 sizes per output; 12 failures x 4 kinds of stages x 3 places x 4 exit "
             "settings; 24 broken inputs x 3 places x 4 exit settings",
    "thorough": "as quick, with all pairs of two faults (error then error or death) and torn writes at every 64 bytes",
}
ASSUMPTIONS = ["process death, not power loss: what was written before stays written", "a process that dies may leave its own temporary file (never an output name); a run that fails without dying may not leave anything",
               "a folder that cannot be listed counts as empty (that is what Python's glob makes of it), so errors of directory listings are injected into runs of the first listing of a pattern only"]
CASE_TIMEOUT = 600



def setup(tier):
    """everything a run needs is loaded once, before the children are forked"""
    import black  # noqa
    import libcst  # noqa
    import turms.cli.main  # noqa
    import turms.processors.black, turms.processors.disclaimer, turms.processors.isort, turms.processors.merge  # noqa

    with scratch() as d:
        write_tree(d, {**base(n=1), "graphql.config.json": json.dumps(LAYOUTS["merge"]())})
        here = os.getcwd()
        os.chdir(d)
        try:
            from turms.run import generate, load_projects_from_configpath

            for _ in range(2):
                generate(load_projects_from_configpath("graphql.config.json")["default"], log=lambda *a, **k: None)
        finally:
            os.chdir(here)


SCHEMA = "type Query { a: Int b(x: In): T c: Color } type T { id: ID! name: String } input In { q: Int c: Color } enum Color { RED GREEN }"
NEWER = SCHEMA.replace("name: String", "name: String size: Float day: [Int!]").replace("RED GREEN", "RED GREEN BLUE")
DOCS = {"a.graphql": "query A { a c }", "b.graphql": "query B { b { id } }"}
NEWDOCS = {"a.graphql": "query A { a c }", "b.graphql": "query B { b { id size day } c }\nquery C { a }"}


def turms(out, exit_on_error=True, dumps=False, post=(), **kw):
    procs = {"black": {"type": "turms.processors.black.BlackProcessor"}, "merge": {"type": "turms.processors.merge.MergeProcessor"}, "disclaimer": {"type": "turms.processors.disclaimer.DisclaimerProcessor"}}
    return {"out_dir": out, "exit_on_error": exit_on_error, "dump_schema": dumps, "dump_configuration": dumps, "plugins": plugins("enums", "operations"), "stylers": stylers("capitalize"),
            "processors": [procs[p] for p in post], "skip_forwards": False, **kw}


def project(n, out=None, **kw):
    return {"schema": f"s{n}.graphql", "documents": f"docs{n}/*.graphql", "extensions": {"turms": turms(out or f"out{n}", **kw)}}


def base(docs=NEWDOCS, sdl=NEWER, n=2):
    files = {}
    for i in range(n):
        files[f"s{i}.graphql"] = sdl
        files.update({f"docs{i}/{k}": v for k, v in docs.items()})
    return files


LAYOUTS = {
    "single": lambda **k: project(0, **k),
    "dumps": lambda **k: project(0, dumps=True, **k),
    "two": lambda **k: {"projects": {"p0": project(0, **k), "p1": project(1, **k)}},
    "twodumps": lambda **k: {"projects": {"p0": project(0, dumps=True, **k), "p1": project(1, dumps=True, **k)}},
    "sameout": lambda **k: {"projects": {"p0": project(0, out="out", generated_name="x.py", **k), "p1": project(1, out="out", generated_name="y.py", **k)}},
    "merge": lambda **k: project(0, post=("black", "merge"), **k),
    "post": lambda **k: project(0, post=("disclaimer", "black"), dumps=True, **k),
    "deep": lambda **k: project(0, out="a/b/c", **k),
}
BEFORE = ["absent", "older", "same", "link", "own"]
ENTRIES = {"gen": ["gen"], "genone": ["gen", "--config", "graphql.config.json"], "download": ["download", "--dir", "."], "init": ["init", "--config", "graphql.config.json"], "initnew": ["init", "--config", "new.yaml", "--template", "strawberry"],
           "api": "api", "apistrict": "apistrict"}
OUTPUTS = ("schema.py", "x.py", "y.py", "schema.graphql", "project.json")


def api(strict):
    def go(argv):
        from turms.run import gen

        gen("graphql.config.json", strict=strict)
        return 0
    return go


def start(root, config, before, entry="gen"):
    """puts the project and its earlier output in place -> snapshot"""
    import shutil

    for n in os.listdir(root):
        p = os.path.join(root, n)
        shutil.rmtree(p) if os.path.isdir(p) and not os.path.islink(p) else os.remove(p)
    if before in ("older", "link", "same"):
        write_tree(root, {**(base(DOCS, SCHEMA) if before != "same" else base()), "graphql.config.json": json.dumps(config)})
        r = run_cli(root, ["gen"])
        assert r.code == 0, r.log
        if entry == "download":
            run_cli(root, ["download"])
    if before == "own":
        for c in (config.get("projects") or {"default": config}).values():
            t = c["extensions"]["turms"]
            write_tree(root, {f"{t['out_dir']}/{t.get('generated_name', 'schema.py')}": "# hand-written é\nx = 1\n", f"{t['out_dir']}/schema.graphql": "# mine", f"{t['out_dir']}/project.json": "mine", f"{t['out_dir']}/keep.py": "k = 1"})
            os.chmod(os.path.join(root, t["out_dir"], t.get("generated_name", "schema.py")), 0o640)
        write_tree(root, {"p0.schema.graphql": "# mine", "default.schema.graphql": "# mine", "new.yaml": "# mine"})
    write_tree(root, {**base(), "graphql.config.json": json.dumps(config)})
    if before == "link":
        for d, _, files in list(os.walk(root)):
            for f in files:
                if f in OUTPUTS and "docs" not in d:
                    p = os.path.join(d, f)
                    real = os.path.join(root, "elsewhere", os.path.relpath(p, root))
                    os.makedirs(os.path.dirname(real), exist_ok=True)
                    os.rename(p, real)
                    os.symlink(os.path.relpath(real, d), p)
    return snapshot(root)


def judge(st, old, new, got, code, died, what, complete=None):
    """complete: files that must be new; code: exit code"""
    out = []
    for p in sorted(set(old) | set(new) | set(got)):
        a, b, c = old.get(p), new.get(p), got.get(p)
        st.evals += 1
        if c == b or c == a:
            if complete and p in complete and c != b:
                out.append(("untouched", f"{what}: {p} was not generated although nothing of it failed"))
            continue
        if p not in old and p not in new:
            if died and p.endswith(".tmp"):
                continue
            out.append(("left", f"{what}: {p} is left behind"))
        elif c is None:
            out.append(("lost", f"{what}: {p} is gone"))
        elif a is not None and (c[0], c[1]) == (a[0], a[1]) or b is not None and (c[0], c[1]) == (b[0], b[1]):
            out.append(("mode", f"{what}: {p} has mode {c[2]:o}, before {a and oct(a[2])}, without failure {b and oct(b[2])}"))
        else:
            out.append(("damaged", f"{what}: {p} is neither as before nor complete: {c[1][:60]!r}... ({len(c[1])} bytes; before {a and len(a[1])}, complete {b and len(b[1])})"))
    return out


def cases(tier):
    for (l, b, (e, argv)) in itertools.product(LAYOUTS, BEFORE, ENTRIES.items()):
        if e in ("init", "initnew", "download", "genone") and l not in ("single", "two"):
            continue
        if e == "download" and b == "link":
            continue
        for kind in ERRORS + ["interrupt", "memory", "death"]:
            if e in ("genone", "apistrict", "api") and kind not in (ERRORS[0], "death"):
                continue
            if tier != "thorough" and (kind in ERRORS[1:] + ["memory"] and (b != "older" or e != "gen") or e in ("api", "apistrict", "genone") and (l not in ("two", "single") or b not in ("older", "own"))
                                       or b == "same" and l not in ("single", "merge") or b == "link" and l not in ("dumps", "sameout", "merge")):
                continue
            yield {"key": f"fault:{l}:{b}:{e}:{kind}", "group": "fault", "layout": l, "before": b, "entry": e, "kind": kind, "pairs": tier == "thorough" and kind.startswith("error")}
        for torn in ("error", "death"):
            if tier != "thorough" and e in ("api", "apistrict", "genone"):
                continue
            yield {"key": f"torn:{l}:{b}:{e}:{torn}", "group": "torn", "layout": l, "before": b, "entry": e, "torn": torn, "step": 64 if tier == "thorough" else 0}
    for n, stage, where, (x, y), b in itertools.product(FAILURES, ("plugins", "parsers", "processors", "stylers"), ("first", "second", "both"), itertools.product((True, False), repeat=2), ("absent", "older")):
        yield {"key": f"stage:{n}:{stage}:{where}:{x}:{y}:{b}", "group": "broken", "stage": (stage, n), "where": where, "exit": [x, y], "before": b}
    for n, where, (x, y), b in itertools.product(BROKEN, ("first", "second", "both"), itertools.product((True, False), repeat=2), ("absent", "older")):
        yield {"key": f"broken:{n}:{where}:{x}:{y}:{b}", "group": "broken", "broken": n, "where": where, "exit": [x, y], "before": b}
    for n, b in itertools.product(CONFIGS, ("absent", "older")):
        yield {"key": f"config:{n}:{b}", "group": "config", "broken": n, "before": b}


# ways to break one project (files, changes to its turms section, changes to the project)
BROKEN = {
    "noschema": ({}, {}, {"schema": "nowhere.graphql"}), "schemasyntax": ({"s{}.graphql": NEWER + "\ntype X {"}, {}, {}), "schemaempty": ({"s{}.graphql": ""}, {}, {}), "schemabytes": ({"s{}.graphql": "\ud800"}, {}, {}),
    "schematype": ({"s{}.graphql": NEWER + " type X { y: Nowhere }"}, {}, {}), "noquery": ({"s{}.graphql": NEWER.replace("Query", "Qwery")}, {}, {}),
    "docsyntax": ({"docs{}/z.graphql": "query {"}, {}, {}), "docfield": ({"docs{}/z.graphql": "query Z { nothing }"}, {}, {}), "docfragment": ({"docs{}/z.graphql": "query Z { b { ...Nope } }"}, {}, {}),
    "docbytes": ({"docs{}/z.graphql": "\ud800"}, {}, {}), "nodocs": ({}, {}, {"documents": "nowhere/*.graphql"}), "doctwice": ({"docs{}/z.graphql": "query A { a }"}, {}, {}),
    "plugin": ({}, {"plugins": [{"type": "nowhere.Plugin"}]}, {}), "pluginname": ({}, {"plugins": [{"type": "turms.plugins.enums.Nope"}]}, {}), "pluginconfig": ({}, {"plugins": [{"type": "turms.plugins.enums.EnumsPlugin", "nonsense": 1}]}, {}),
    "notree": ({}, {"plugins": plugins("enums", "mc.faulty.PluginNotTree")}, {}), "styler": ({}, {"stylers": [{"type": "nowhere"}]}, {}), "processor": ({}, {"processors": [{"type": "turms.nothing.X"}]}, {}),
    "nottext": ({}, {"processors": [{"type": "mc.faulty.ProcessorNotText"}]}, {}), "surrogate": ({}, {"processors": [{"type": "mc.faulty.ProcessorSurrogate"}]}, {}), "scalar": ({"s{}.graphql": NEWER.replace("a: Int", "a: Unmapped") + " scalar Unmapped"}, {}, {}),
    "outfile": ({"blocked": "x"}, {"out_dir": "blocked"}, {}), "outname": ({"taken/schema.py/x": "x"}, {"out_dir": "taken"}, {}), "mergebroken": ({"mb{}/schema.py": "def ("}, {"out_dir": "mb{}", "processors": [{"type": "turms.processors.merge.MergeProcessor"}]}, {}),
    "mergebytes": ({"mb{}/schema.py": "\ud800"}, {"out_dir": "mb{}", "processors": [{"type": "turms.processors.merge.MergeProcessor"}]}, {}),
    "dumpdir": ({"dd{}/schema.graphql/x": "x"}, {"out_dir": "dd{}", "dump_schema": True}, {}), "nul": ({}, {"generated_name": "a\0b.py"}, {}),
}
REFUSED = ("plugin", "pluginname", "styler", "processor")
CONFIGS = {
    "syntax": "{", "empty": "{}", "bytes": "\ud800", "null": "null", "list": "[]", "projects": '{"projects": []}', "noturms": json.dumps({"schema": "s0.graphql", "documents": "docs0/*.graphql"}),
    "badturms": json.dumps({"projects": {"p0": project(0), "p1": {"schema": "s1.graphql", "extensions": {"turms": {"plugins": 5}}}}}), "unknown": json.dumps({"projects": {"p0": project(0), "p1": {**project(1), "extensions": {"turms": {**turms("out1"), "freeze": {"enabled": "maybe"}}}}}}),
}


def put(root, files):
    for rel, text in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(b"\xff\xfe\xfa" if text == "\ud800" else text.encode())


def run(case, st):
    with scratch() as d:
        root = os.path.realpath(d)
        return {"fault": fault, "torn": tear, "broken": broken, "config": broken_config}[case["group"]](case, st, root)


def go(case, root, **kw):
    e = ENTRIES[case["entry"]]
    entry = api(e == "apistrict") if isinstance(e, str) else None
    return run_cli(root, [] if entry else e, entry=entry, stdin="y\n", **kw)


def fault(case, st, root):
    config = LAYOUTS[case["layout"]]()
    old = start(root, config, case["before"], case["entry"])
    clean = go(case, root)
    new = snapshot(root)
    out = []
    if clean.code:
        return [("clean", f"a run without failure ends with {clean.code}: {clean.log[-300:]}")]
    plans = [[(k, case["kind"])] for k in range(len(clean.events))]
    if case.get("pairs"):
        plans += [[(i, case["kind"]), (j, k2)] for i, j in itertools.combinations(range(len(clean.events) + 2), 2) for k2 in ("error:28", "death")]
    listed = set()
    for plan in plans:
        k = plan[0][0]
        ev = clean.events[k] if k < len(clean.events) else ("", "")
        if ev[0] in READS and case["kind"].startswith("error"):
            continue
        restore(root, old)
        r = go(case, root, faults=plan)
        st.traces += 1
        st.states += 1
        st.transitions += len(r.events)
        what = f"{case['kind']} at call {k} ({ev[0]} {ev[1]})"
        died = any(x == "death" for _, x in plan)
        if not r.fired:
            out.append(("schedule", f"{what}: the run did not reach it again"))
            continue
        got = snapshot(root)
        problems = judge(st, old, new, got, r.code, died, what) if len(plan) == 1 else [p for p in judge(st, old, new, got, r.code, True, what) if p[0] != "mode"]
        outputs = {p for p in new if new[p] != old.get(p)}
        missing = sorted(p for p in outputs if got.get(p) != new[p])
        st.outcome(case["kind"].split(":")[0], len(missing), bool(r.code))
        if len(plan) == 1 and missing and r.code == 0 and case["entry"] != "api":
            problems.append(("silent", f"{what}: ends with 0 although {missing} was not written"))
        if len(plan) == 1 and not died and case["kind"] != "interrupt" and case["entry"] == "gen" and "projects" in config and ev[1] != "." and not ev[1].startswith("graphql.config"):
            done = [n for n, c in config["projects"].items() if all(got.get(p) == new[p] for p in new if p in outputs_of(c))]
            if not done:
                problems.append(("others", f"{what}: no project was generated"))
        if died and not problems:
            r = go(case, root)
            st.traces += 1
            again = {p: v for p, v in snapshot(root).items() if not p.endswith(".tmp")}
            if r.code or again != {p: v for p, v in new.items()}:
                if not (r.code == 0 and {p: v[:2] for p, v in again.items()} == {p: v[:2] for p, v in new.items()}):
                    problems.append(("recovery", f"{what}: the next run ends with {r.code} and differs in {sorted(p for p in set(again) | set(new) if again.get(p) != new.get(p))}"))
        out += problems
        if len(out) > 10:
            break
    return out


def outputs_of(c):
    t = c["extensions"]["turms"]
    return {os.path.normpath(os.path.join(t["out_dir"], n)) for n in (t.get("generated_name", "schema.py"), "schema.graphql", "project.json")}


def tear(case, st, root):
    config = LAYOUTS[case["layout"]]()
    old = start(root, config, case["before"], case["entry"])
    clean = go(case, root)
    new = snapshot(root)
    sizes = sorted({len(v[1]) for p, v in new.items() if v[0] == "file" and v != old.get(p)})
    top = max(sizes, default=0)
    points = {0, 1, top // 4, top // 2, top - 1, 4096, 8192} | {s + x for s in sizes for x in (-1, 0)} | (set(range(0, top, case["step"])) if case["step"] else set())
    out = []
    for n in sorted(p for p in points if 0 <= p < top):
        restore(root, old)
        r = go(case, root, limit=n, torn=case["torn"])
        st.traces += 1
        st.states += 1
        what = f"writes stop at {n} bytes ({case['torn']})"
        died = r.code < 0
        got = snapshot(root)
        problems = judge(st, old, new, got, r.code, died, what)
        missing = sorted(p for p in new if new[p] != old.get(p) and got.get(p) != new[p])
        st.outcome("torn", case["torn"], died, len(missing), bool(r.code))
        if missing and r.code == 0 and case["entry"] != "api":
            problems.append(("silent", f"{what}: ends with 0 although {missing} was not written"))
        out += problems
        if len(out) > 10:
            break
    return out


def broken(case, st, root):
    marks = {"first": [True, False], "second": [False, True], "both": [True, True]}[case["where"]]
    good = {"projects": {f"p{i}": project(i, exit_on_error=case["exit"][i]) for i in range(2)}}
    old = start(root, good, case["before"])
    r = run_cli(root, ["gen"])
    assert r.code == 0, r.log
    new = snapshot(root)
    restore(root, old)
    bad = json.loads(json.dumps(good))
    for i, b in enumerate(marks):
        if not b:
            continue
        p = bad["projects"][f"p{i}"]
        if "stage" in case:
            stage, n = case["stage"]
            cls = {"plugins": "Plugin", "parsers": "Parser", "processors": "Processor", "stylers": "Styler"}[stage]
            p["extensions"]["turms"].setdefault(stage, [])
            p["extensions"]["turms"][stage] = p["extensions"]["turms"][stage] + [{"type": f"mc.faulty.{cls}{n}"}]
        else:
            files, t, more = BROKEN[case["broken"]]
            put(root, {k.format(i): v for k, v in files.items()})
            p["extensions"]["turms"].update({k: v.format(i) if isinstance(v, str) else v for k, v in t.items()})
            p.update(more)
    put(root, {"graphql.config.json": json.dumps(bad)})
    before = snapshot(root)
    expect = dict(before)
    n = case.get("stage", ("", ""))[1]
    refused = case.get("broken") in REFUSED  # the configuration as a whole is not usable
    fatal = n in ("Death", "Interrupt", "Exit", "Odd") or refused
    for i, b in enumerate(marks):
        if not b and not (fatal and i > marks.index(True)) and not refused:
            expect.update({p: v for p, v in new.items() if p in outputs_of(good["projects"][f"p{i}"])})
    r = run_cli(root, ["gen"])
    st.traces += 1
    st.states += 1
    got = snapshot(root)
    out = []
    for p in sorted(set(expect) | set(got)):
        st.evals += 1
        if case.get("broken") == "dumpdir" and p.startswith("dd") and p.endswith("schema.py") and got[p][1] == new[p.replace("dd", "out")][1]:
            continue  # complete, only the schema next to it cannot be written
        if expect.get(p) != got.get(p):
            out.append(("files", f"{p} is {'missing' if p not in got else 'changed' if p in expect else 'left behind'}: {str(got.get(p, ('', '', ''))[1])[:80]!r}"))
    must = fatal or any(b and e for b, e in zip(marks, case["exit"]))
    st.outcome(case["key"].split(":")[1], bool(r.code))
    if bool(r.code) != must:
        out.append(("exit", f"ends with {r.code}, failing projects with exit_on_error: {must}: {r.log[-200:]}"))
    if n != "Death" and not fatal and any(marks):
        for i, b in enumerate(marks):
            if b and f"p{i} 💥" not in r.log and f"p{i}" not in r.log.replace("Generating the p0.p1", ""):
                out.append(("report", f"the failure of p{i} is not reported: {r.log[-300:]}"))
    return out


def broken_config(case, st, root):
    good = {"projects": {f"p{i}": project(i) for i in range(2)}}
    start(root, good, case["before"])
    put(root, {"graphql.config.json": CONFIGS[case["broken"]]})
    before = snapshot(root)
    out = []
    for argv in (["gen"], ["gen", "p0"], ["gen", "--config", "graphql.config.json"], ["watch"], ["download"], ["gen", "nope"]):
        r = run_cli(root, argv)
        st.traces += 1
        st.states += 1
        got = snapshot(root)
        st.outcome("config", case["broken"], argv[0], bool(r.code))
        if got != before:
            out.append(("files", f"{argv}: changes {sorted(p for p in set(got) | set(before) if got.get(p) != before.get(p))}"))
        if r.code == 0:
            out.append(("exit", f"{argv}: ends with 0: {r.log[-200:]}"))
        restore(root, before)
    return out
