"""C25: the configuration that applies is the one the user selected."""
import contextlib
import itertools
import json
import os
import typing

import toml
import yaml

from ..confwalk import STAGES, config_class, kinds
from ..turmsio import plugins, scratch, stylers, write_tree
from ..faults import run_cli

ID = "C25"
LEVEL = "model_checking"
RULE = ("one case = one family of layouts, formats, selections or environment variables; a state is one folder with its command line and environment; a trace is one run of the command line whose files and exit code are compared with those the selected configuration stands for; "
        "an evaluation is one setting compared between two ways of giving it. Outcomes: what was selected and how, variables.")
BOUNDS = {
    "quick": "all pairs of 12 candidate file names with every way to name a file; 60 configurations in 4 formats; 3 projects x all selections x all sets of failing ones x output settings; every field name of every configuration class as a bare variable (2 spellings x 3 values) and under another component's prefix; every documented variable alone and with the file",
    "thorough": "all triples of candidate files, every field under every other prefix, all values",
}
ASSUMPTIONS = ["keys next to `turms` belong to other tools", "a dictionary in the file and one in the environment are put together as pydantic settings do", "paths are relative to the folder of the command"]
CASE_TIMEOUT = 600

SDL = "enum Color { RED } input In { a: Int! next: In c: Color = RED _u: Int } type Query { hello(i: In, id: ID!): String t: T n: N } interface N { id: ID! } type T implements N { id: ID! color: Color t: T } type O implements N { id: ID! } type Mutation { set(i: In!): T } type Subscription { s(i: In): T }"
DOC = "query hello($i: In, $id: ID!) { hello(i: $i, id: $id) t { ...f } n { id ... on T { color } } }\nmutation set($i: In!) { set(i: $i) { ...f t { id } } }\nsubscription sub { s { id } }\nfragment f on T { id color }"
FUNCS = ("funcs", {"definitions": [{"type": "query", "use": "mc.proxies.query"}, {"type": "mutation", "use": "mc.proxies.amutate", "is_async": True}]})
CLIENT = ("enums", "inputs", "fragments", "operations", FUNCS, "input_funcs")
BAD = {"schema": "no-such-schema.graphql"}


def project(out="out", name="schema.py", plugs=("enums", "inputs", "fragments", "operations"), style=(), **turms):
    p = {"schema": "schema.graphql", "documents": "documents/*.graphql", "extensions": {"turms": {"out_dir": out, "generated_name": name, "plugins": plugins(*plugs), "stylers": stylers(*style), **turms}}}
    return p


def dump(name, conf):
    ext = name.lower().rsplit(".", 1)[-1]
    if ext == "json":
        return json.dumps(conf)
    if ext == "toml":
        return toml.dumps(conf)
    return yaml.safe_dump(conf, allow_unicode=True)


def files(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = open(p, encoding="utf-8").read()
    return out


@contextlib.contextmanager
def env(**vars):
    old = {k: os.environ.get(k) for k in vars}
    os.environ.update(vars)
    try:
        yield
    finally:
        for k, v in old.items():
            os.environ.pop(k, None) if v is None else os.environ.__setitem__(k, v)


class Run:
    """One run in a fresh folder: exit code, output, new or changed files, files that are gone."""

    def __init__(self, tree, argv, st, **vars):
        st.states += 1
        st.traces += 1
        with scratch() as d:
            write_tree(d, {"schema.graphql": SDL, "documents/a.graphql": DOC, **tree})
            before = files(d)
            with env(**vars):
                r = run_cli(d, argv, events=("none",))
            after = files(d)
        self.code = r.code
        self.text = r.log
        self.written = {k: v for k, v in after.items() if before.get(k) != v}
        self.gone = sorted(set(before) - set(after))


NAMES = ["graphql.config.yaml", ".graphqlrc.yaml", "graphql.config.yml", ".graphqlrc.yml", "graphql.config.toml", ".graphqlrc.toml", "graphql.config.json", ".graphqlrc.json"]
OTHERS = ["GraphQL.Config.YAML", ".graphqlrc", "graphql.config.js", "turms.yaml"]  # only the first one is a candidate (the case of the name does not matter)
EXPLICIT = NAMES + ["turms.yaml", "my.JSON", "sub/graphql.config.json", "sub/other.toml", "a b.yml", "./x.yaml", "graphql.config.yaml.json"]
UNSUPPORTED = ["graphql.config.js", ".graphqlrc", "conf.ini", "noextension", "x.yaml.bak"]


def cases(tier):
    deep = tier == "thorough"
    for r in (0, 1, 2, 3) if deep else (0, 1, 2):
        for some in itertools.combinations(NAMES + OTHERS, r):
            yield {"key": f"found:{'+'.join(some)}", "family": "found", "names": list(some), "deep": deep}
    for n in EXPLICIT + UNSUPPORTED:
        yield {"key": f"explicit:{n}", "family": "explicit", "name": n}
    for k in configurations():
        yield {"key": f"format:{k}", "family": "format", "conf": k}
    for fail in range(8):
        for exits in range(8):
            for shared in ("apart", "folder", "nested"):
                yield {"key": f"projects:{fail}:{exits}:{shared}", "family": "projects", "fail": fail, "exits": exits, "shared": shared}
    for k in OUTPUTS:
        yield {"key": f"output:{k}", "family": "output", "which": k}
    names = sorted(bare_names())
    for i in range(0, len(names), 8):
        yield {"key": f"bare:{names[i]}", "family": "bare", "names": names[i:i + 8], "deep": deep}
    own = documented()
    for i in range(0, len(own), 6):
        yield {"key": f"variable:{own[i][0]}", "family": "variable", "at": i, "n": 6}
    wrong = foreign(deep)
    for i in range(0, len(wrong), 10):
        yield {"key": f"foreign:{wrong[i]}", "family": "foreign", "names": wrong[i:i + 10]}


def run(case, st):
    return globals()["run_" + case["family"]](case, st)[:10]


# ---------------------------------------------------------------- discovery

def run_found(case, st):
    out = []
    names = case["names"]
    if os.path.exists("/proc") and len({n.lower() for n in names}) < len(names):
        pass  # (two names that differ in case only are two candidates)
    tree = {n: dump(n.replace("graphqlrc", "x.yaml") if "." not in n.strip(".") else n if n.rsplit(".", 1)[-1].lower() in ("json", "toml", "yaml", "yml") else "x.json", project(out=f"out{i}")) for i, n in enumerate(names)}
    cands = [n for n in names if n.lower() in NAMES]
    for sub in ({}, {"deeper/graphql.config.yaml": dump("x.yaml", project(out="deeperout")), "documents/.graphqlrc.json": "{}"}):
        for argv in (["gen"], ["gen", "default"], ["download"]) if case["deep"] or len(names) < 2 else (["gen"],):
            r = Run({**tree, **sub}, argv, st)
            st.outcome("found", str(len(cands)), argv[0])
            if len(cands) == 1:
                i = names.index(cands[0])
                want = {f"out{i}/schema.py"} if argv[0] == "gen" else {"default.schema.graphql"}
                if r.code != 0 or set(r.written) != want:
                    out.append(("found", f"{names} {argv}: exit {r.code}, wrote {sorted(r.written)} instead of {sorted(want)}: {r.text[-200:]}"))
            else:
                if r.code == 0 or r.written or r.gone:
                    out.append(("found", f"{names} {argv}: exit {r.code}, wrote {sorted(r.written)} although {len(cands)} files are candidates"))
    # ... and a file that is named always wins
    for n in names:
        i = names.index(n)
        if n.rsplit(".", 1)[-1].lower() in ("json", "toml", "yaml", "yml"):
            r = Run(tree, ["gen", "--config", n], st)
            if r.code != 0 or set(r.written) != {f"out{i}/schema.py"}:
                out.append(("named", f"{names}, --config {n}: exit {r.code}, wrote {sorted(r.written)}: {r.text[-200:]}"))
    return out


def run_explicit(case, st):
    out = []
    n = case["name"]
    ok = n in EXPLICIT
    conf = project(out="mine")
    text = dump(n if ok else "x.yaml", conf)
    for decoys in ({}, {"graphql.config.yaml": dump("x.yaml", project(out="decoy"))}, {"graphql.config.yaml": dump("x.yaml", project(out="decoy")), ".graphqlrc.json": dump("x.json", project(out="decoy2"))}):
        tree = {**decoys, n.replace("./", ""): text}
        for argv in (["gen", "--config", n], ["gen", "--config=" + n, "default"], ["gen", "default", "--config", n]):
            r = Run(tree, argv, st)
            st.outcome("explicit", "taken" if ok else "refused")
            if ok and (r.code != 0 or set(r.written) != {"mine/schema.py"}):
                out.append(("named", f"{argv} with {sorted(decoys)}: exit {r.code}, wrote {sorted(r.written)}: {r.text[-200:]}"))
            if not ok and (r.code == 0 or r.written):
                out.append(("unsupported", f"{argv}: exit {r.code}, wrote {sorted(r.written)}"))
        for argv in (["gen", "--config", "no-" + n], ["gen", "--config", n, "nothing"], ["gen", "--config", n, "Default"], ["gen", "--config", "documents"], ["download", "--config", n, "def"]):
            r = Run(tree, argv, st)
            if r.code == 0 or r.written:
                out.append(("missing", f"{argv}: exit {r.code}, wrote {sorted(r.written)}"))
    return out


# ---------------------------------------------------------------- formats

def configurations():
    t = {
        "plain": {}, "domain": {"domain": "é.example.org/漢"}, "dumps": {"dump_schema": True, "dump_configuration": True}, "names": {"generated_name": "b c.py", "schema_name": "s.gql", "dump_schema": True}, "scalars": {"scalar_definitions": {"ID": "int", "Other": "typing.Any"}}, "bases": {"object_bases": ["mc.bases.Plain"] if False else ["pydantic.BaseModel"]},
        "freeze": {"freeze": {"enabled": True, "types": ["input", "fragment"], "exclude": ["T"]}}, "freezeall": {"freeze": {"enabled": True, "convert_list_to_tuple": False}}, "options": {"options": {"enabled": True, "extra": "forbid", "types": ["input"]}}, "additional": {"additional_config": {"T": {"str_strip_whitespace": True, "title": "a: b # c"}, "In": {"extra": "allow"}}},
        "rules": {"omited_document_rules": ["no_unused_fragments"]}, "v1": {"pydantic_version": "v1"}, "flags": {"create_catchall": False, "skip_forwards": True, "document_field_metadata": False, "exclude_typenames": False, "always_resolve_interfaces": True},
        "disclaimer": {"processors": [{"type": "turms.processors.disclaimer.DisclaimerProcessor", "disclaimer": "# one: 'two' \"three\" \\ \t é\n# [more]\n"}]}, "command": {"processors": [{"type": "turms.processors.command.CommandProcessor", "command": ["cat", "-"]}]}, "commandstring": {"processors": [{"type": "turms.processors.command.CommandProcessor", "command": "cat -"}]},
        "polyfill": {"parsers": [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": "3.7"}]}, "polyfillfloat": {"parsers": [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": 3.8}]}, "documents": {"documents": "documents/a.*"}, "coercible": {"coercible_scalars": {"ID": "int"}, "coercible_inputs": {"In": "int"}},
        "order": {"processors": [{"type": "turms.processors.disclaimer.DisclaimerProcessor", "disclaimer": c} for c in ("# 1", "# 2", "# 3")]},
    }
    out = {}
    for k, v in t.items():
        out[k] = project(plugs=CLIENT, style=("capitalize", "snake"), **{kk: vv for kk, vv in v.items() if kk not in ("generated_name",)}, **({"name": v["generated_name"]} if "generated_name" in v else {}))
    out["stylers"] = project(plugs=CLIENT, style=("appender", "default"))
    out["extra"] = {**project(), "include": "x/*.py", "exclude": ["a"]}
    out["extra"]["extensions"]["endpoints"] = {"default": {"url": "http://localhost/", "headers": {"a": "b"}}}
    out["list"] = {**project(), "schema": ["schema.graphql", "more*.graphql"]}
    out["sources"] = {**project(), "schema": ["schema.graphql"]}
    out["exit"] = project(exit_on_error=False)
    out["failing"] = {**project(), **BAD}
    out["failingquiet"] = {**project(exit_on_error=False), **BAD}
    out["deepfolder"] = project(out="a/b c/é")
    return out


def run_format(case, st):
    """the same settings in every format: the same files and exit codes, those of the settings themselves"""
    from turms.run import load_projects_from_configpath

    out = []
    conf = configurations()[case["conf"]]
    more = {"more1.graphql": "extend type Query { more: Int }"} if case["conf"] == "list" else {}
    for layout in ("single", "multiple"):
        whole = conf if layout == "single" else {"projects": {"one": conf, "two é": {**conf, "extensions": {"turms": {**conf["extensions"]["turms"], "out_dir": "second"}}}}}
        results = {}
        for ext in ("yaml", "yml", "toml", "json"):
            text = dump("x." + ext, whole)
            r = Run({f"graphql.config.{ext}": text, **more}, ["gen"], st)
            results[ext] = (r.code, {k: json.loads(v) if k.endswith(".json") else v for k, v in r.written.items()}, r.gone)
            st.outcome("format", ext, layout, str(r.code))
            with scratch() as d:
                p = os.path.join(d, "graphql.config." + ext)
                open(p, "w", encoding="utf-8").write(text)
                loaded = {k: v.model_dump(mode="json", by_alias=True) for k, v in load_projects_from_configpath(p).items()}
            st.evals += 1
            wanted = whole["projects"] if layout == "multiple" else {"default": conf}
            if list(loaded) != list(wanted) and ext != "toml":
                out.append(("projects", f"{case['conf']} {ext} {layout}: projects {list(loaded)} instead of {list(wanted)}"))
            for k, c in wanted.items():
                bad = contained(c, loaded[k])
                if bad:
                    out.append(("value", f"{case['conf']} {ext} {layout} {k}: {bad}"))
        for ext, r in results.items():
            if r != results["yaml"]:
                out.append(("format", f"{case['conf']} {layout}: {ext} gives exit {r[0]} and {sorted(r[1])}, yaml exit {results['yaml'][0]} and {sorted(results['yaml'][1])}"))
        fails = conf["schema"] == BAD["schema"]
        want = set()
        if not fails:
            for k, o in (("one", conf["extensions"]["turms"]["out_dir"]), ("two", "second"))[: 1 if layout == "single" else 2]:
                t = conf["extensions"]["turms"]
                want |= {f"{o}/{t['generated_name']}"} | ({f"{o}/{t.get('schema_name', 'schema.graphql')}"} if t.get("dump_schema") else set()) | ({f"{o}/project.json"} if t.get("dump_configuration") else set())
        r = results["yaml"]
        if set(r[1]) != want or (r[0] != 0) != (fails and conf["extensions"]["turms"].get("exit_on_error", True)):
            out.append(("files", f"{case['conf']} {layout}: exit {r[0]}, wrote {sorted(r[1])} instead of {sorted(want)}"))
    return out


def contained(a, b, path=""):
    """everything the file says is what the loaded project has"""
    if isinstance(a, dict):
        a = {k: v for k, v in a.items() if k != "endpoints"}  # (belongs to other tools)
        if not isinstance(b, dict):
            return f"{path} is {b!r}"
        for k, v in a.items():
            if k not in b:
                return f"{path}.{k} is missing"
            bad = contained(v, b[k], f"{path}.{k}")
            if bad:
                return bad
        return None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return f"{path} is {b!r} instead of {a!r}"
        return next((x for x in (contained(v, w, f"{path}[{i}]") for i, (v, w) in enumerate(zip(a, b))) if x), None)
    return None if a == b else f"{path} is {b!r} instead of {a!r}"


# ---------------------------------------------------------------- selections of projects

def run_projects(case, st):
    out = []
    keys = ["a", "b", "a.b"]
    confs = {}
    for i, k in enumerate(keys):
        c = project(out={"apart": f"out{i}", "folder": "out", "nested": ["x", "x/y", "x/y/z"][i]}[case["shared"]], name=f"{['a', 'b', 'c'][i]}.py", dump_schema=i != 1, dump_configuration=i == 2, schema_name=f"{i}.graphql", configuration_name=f"{i}.json", exit_on_error=bool(case["exits"] >> i & 1))
        if case["fail"] >> i & 1:
            c.update(BAD)
        confs[k] = c
    tree = {"graphql.config.yaml": dump("x.yaml", {"projects": confs}), "unrelated.py": "x = 1\n"}
    for i, k in enumerate(keys):
        o = confs[k]["extensions"]["turms"]["out_dir"]
        tree.update({f"{o}/{n}": "OLD" for n in (f"{['a', 'b', 'c'][i]}.py", f"{i}.graphql", f"{i}.json")})
    for select in [None] + keys + ["c", "", "A", "a."]:
        r = Run(tree, ["gen"] + ([select] if select is not None else []), st)
        if select in ("c", "A", "a."):
            if r.code == 0 or r.written:
                out.append(("missing", f"project {select!r}: exit {r.code}, wrote {sorted(r.written)}"))
            continue
        chosen = [k for k in keys if not select or k == select]
        want = set()
        code = 0
        for k in chosen:
            i = keys.index(k)
            o = confs[k]["extensions"]["turms"]["out_dir"]
            if case["fail"] >> i & 1:
                code = 1 if case["exits"] >> i & 1 else code
                continue
            want |= {f"{o}/{['a', 'b', 'c'][i]}.py"} | ({f"{o}/{i}.graphql"} if i != 1 else set()) | ({f"{o}/{i}.json"} if i == 2 else set())
        st.outcome("projects", str(len(chosen)), str(len(want)), str(code))
        if set(r.written) != want or r.gone or (r.code != 0) != bool(code):
            out.append(("projects", f"fail {case['fail']} exits {case['exits']} select {select!r}: exit {r.code} instead of {code}, wrote {sorted(r.written)} instead of {sorted(want)}"))
        if select != "" and case["exits"] == 0:
            r = Run(tree, ["download"] + ([select] if select else []) + ["--out", ".gql", "--dir", "down"], st)
            names = {f"down/{k}.gql" for k in chosen if not case["fail"] >> keys.index(k) & 1}
            bad = any(case["fail"] >> keys.index(k) & 1 for k in chosen)
            if (bad and (r.code == 0 or not set(r.written) <= names)) or (not bad and (r.code != 0 or set(r.written) != names)):
                out.append(("download", f"fail {case['fail']} select {select!r}: exit {r.code}, wrote {sorted(r.written)} instead of {sorted(names)}"))
    return out


OUTPUTS = {
    "name": {"generated_name": "x.py"}, "folder": {"out_dir": "a/b/c"}, "here": {"out_dir": "."}, "up": {"out_dir": "sub/../other"}, "schema": {"dump_schema": True}, "schemaname": {"dump_schema": True, "schema_name": "my.gql"}, "configuration": {"dump_configuration": True, "configuration_name": "c.json"},
    "documents": {"documents": "documents/b.graphql"}, "missingdocuments": {"documents": "nothing/*.graphql"}, "introspection": {"allow_introspection": False}, "verbose": {"verbose": True}, "default": {},
}


def run_output(case, st):
    """where files go, and that the documents of turms come before those of the project"""
    out = []
    t = OUTPUTS[case["which"]]
    tree = {"documents/b.graphql": "query other { hello(id: 1) }"}
    for base_docs in ("documents/a.graphql", "documents/*.graphql", None):
        conf = project()
        conf["extensions"]["turms"].update(t)
        for k in ("out_dir", "generated_name"):
            if k not in t and case["which"] != "default":
                conf["extensions"]["turms"].pop(k)
        if base_docs is None:
            conf.pop("documents")
        else:
            conf["documents"] = base_docs
        r = Run({**tree, "graphql.config.json": json.dumps(conf)}, ["gen"], st)
        folder = os.path.normpath(conf["extensions"]["turms"].get("out_dir", "api"))
        j = lambda n: os.path.normpath(os.path.join(folder, n))  # noqa
        want = {j(conf["extensions"]["turms"].get("generated_name", "schema.py"))} | ({j(t.get("schema_name", "schema.graphql"))} if t.get("dump_schema") else set()) | ({j(t.get("configuration_name", "project.json"))} if t.get("dump_configuration") else set())
        fails = case["which"] == "missingdocuments" or (base_docs is None and "documents" not in t)
        st.outcome("output", case["which"], "fails" if fails else "works")
        if case["which"] == "here" and not fails:
            want = {os.path.normpath(w) for w in want}
        if (r.code != 0) != fails or set(map(os.path.normpath, r.written)) != (set() if fails else want):
            out.append(("output", f"{t} with documents {base_docs}: exit {r.code}, wrote {sorted(r.written)} instead of {sorted(want)}: {r.text[-150:]}"))
            continue
        if not fails:
            code = r.written[next(k for k in r.written if k.endswith(".py"))]
            used = t.get("documents", base_docs)
            has = ("class hello(" in code, "class other(" in code)
            if has != (used != "documents/b.graphql", used != "documents/a.graphql"):
                out.append(("documents", f"{t} with documents {base_docs}: the operations of {used} are expected, got {has}"))
    return out


# ---------------------------------------------------------------- the environment

def stage_configs():
    return {p: config_class(p) for k in STAGES for p in STAGES[k]}


def sections():
    from turms.config import FreezeConfig, GeneratorConfig, OptionsConfig

    return {"": GeneratorConfig, "FREEZE_": FreezeConfig, "OPTIONS_": OptionsConfig}


def bare_names():
    from turms.config import Extensions, GraphQLProject

    names = {"SCHEMA", "PROJECTS", "EXTENSIONS", "TURMS", "TYPE", "CONFIG", "PLUGINS", "DOCUMENTS", "SCHEMA_URL", "HEADERS", "OUT", "DIR", "PROJECT", "GRAPHQL_SCHEMA", "TURMS_CONFIG"}
    for c in [*sections().values(), *stage_configs().values(), GraphQLProject, Extensions]:
        names |= {n.upper() for n in c.model_fields}
    return names


WHOLE = {"domain": None}


def everything(multiple=False, **turms):
    """a project with all kinds of stages, each with nothing but its type"""
    c = project(plugs=("enums", "inputs", "fragments", "operations", FUNCS, "input_funcs"), style=("capitalize", "snake", "appender", "default"),
                parsers=[{"type": p} for p in STAGES["parsers"]], processors=[{"type": p} for p in STAGES["processors"] if "command" not in p and "black" not in p and "ruff" not in p] + [{"type": "turms.processors.ruff.RuffProcessor"}, {"type": "turms.processors.command.CommandProcessor", "command": "cat"}], **turms)
    return {"projects": {"one": c}} if multiple else c


def server():
    return project(plugs=("strawberry",), style=("capitalize",))


def objects():
    return project(plugs=(("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "objects"), style=("appender",))


def values(deep):
    return ("1", "text", '{"a": "b"}', '["x"]', "") if deep else ("true", "text", '{"a": "b"}')


_base = {}


def baseline(which, conf, st):
    if which not in _base:
        r = Run({"graphql.config.json": json.dumps(conf)}, ["gen"], st)
        if r.code != 0:
            raise RuntimeError(f"baseline {which}: {r.text}")
        _base[which] = r.written
    return _base[which]


def run_bare(case, st):
    """variables without the prefix mean nothing to turms"""
    out = []
    confs = {"single": everything(), "multiple": everything(True), "server": server(), "objects": objects()}
    some = False  # all of the case's variables at once; each by itself when that changes something (and in the thorough tier)
    for v in () if case["deep"] else values(False):
        for which, conf in confs.items():
            r = Run({"graphql.config.json": json.dumps(conf)}, ["gen"], st, **{name: v for n in case["names"] for name in (n, n.lower())})
            some = some or r.code != 0 or r.written != baseline(which, conf, st)
    for n in case["names"]:
        st.outcome("bare", n)
        for v in values(case["deep"]):
            for which, conf in confs.items():
                for name in (n, n.lower(), "GRAPHQL_" + n) if case["deep"] or some else ():
                    r = Run({"graphql.config.json": json.dumps(conf)}, ["gen"], st, **{name: v})
                    if r.code != 0 or r.written != baseline(which, conf, st):
                        out.append(("environment", f"{name}={v} changes a {which} generation: exit {r.code}, {sorted(r.written)}: {r.text[-120:]}"))
    if some and not out:
        out.append(("environment", f"the variables {case['names']} together change a generation"))
    return out


def prefix_of(path):
    c = config_class(path)
    return c.model_config.get("env_prefix") or ""


def foreign(deep):
    """fields under the prefix of a component that has no such field"""
    out = []
    owners = {prefix_of(p): set(config_class(p).model_fields) for k in STAGES for p in STAGES[k] if prefix_of(p)}
    owners.update({"TURMS_" + k: set(c.model_fields) for k, c in sections().items()})
    owners["TURMS_GRAPHQL_"] = {"documents", "extensions", "schema", "schema_url"}
    owners["TURM_"] = owners["XTURMS_"] = set()
    allf = set().union(*owners.values())
    known = {(p + f).upper() for p, fs in owners.items() for f in fs}
    for i, f in enumerate(sorted(allf)):
        ps = sorted(p for p in owners if f not in owners[p] and (p + f).upper() not in known)
        out += [p + f.upper() for p in (ps if deep else [ps[i % len(ps)]])]
    return out


def run_foreign(case, st):
    out = []
    for name in case["names"]:
        for which, conf in (("single", everything()), ("server", server())):
            r = Run({"graphql.config.json": json.dumps(conf)}, ["gen"], st, **{name: "true"})
            st.outcome("foreign", name)
            if r.code != 0 or r.written != baseline(which, conf, st):
                out.append(("environment", f"{name}=true changes a {which} generation: exit {r.code}, {sorted(r.written)}: {r.text[-120:]}"))
    return out


SPECIAL = {
    "object_bases": ["mc.c25bases.Base"], "interface_bases": ["mc.c25bases.Base"], "fragment_bases": ["mc.c25bases.Mix"], "query_bases": ["mc.c25bases.Mix"], "mutation_bases": ["mc.c25bases.Mix"], "subscription_bases": ["mc.c25bases.Mix"], "arguments_bases": ["mc.c25bases.Mix"], "types_bases": ["mc.c25bases.Base"], "inputtype_bases": ["mc.c25bases.Base"],
    "scalar_definitions": {"ID": "int"}, "coercible_scalars": {"ID": "int"}, "coercible_inputs": {"In": "int"}, "graphql_default_class": "mc.c25bases.Default", "deprecated_class": "mc.c25bases.Deprecated", "additional_bases": {"T": ["mc.c25bases.Mix"]}, "additional_config": {"T": {"title": "x"}}, "omited_document_rules": ["no_unused_fragments"],
    "pydantic_version": "v1", "types": ["input"], "exclude": ["In"], "include": ["In"], "extra": "forbid", "documents": "documents/b.graphql", "expand_input_types": ["i"], "python_version": "3.7", "builtin_directives": ["include", "skip", "deprecated", "specifiedBy", "oneOf"], "builtin_scalars": ["String", "Boolean", "Int", "Float", "DateTime"], "out_dir": "elsewhere", "disclaimer": "# mine", "command": "cat -",
    "definitions": [{"type": "query", "use": "mc.proxies.aquery", "is_async": True}], "global_args": [{"key": "ctx", "type": "mc.proxies.Ctx", "description": "the ctx"}], "global_kwargs": [{"key": "extra", "type": "mc.proxies.Ctx", "description": "more"}],
    "fragments_glob": None, "operations_glob": None, "funcs_glob": None, "unset_type_class": None, "unset_instance": None, "generate_directives_func": None, "generate_enums_func": None, "plugins": [{"type": "turms.plugins.enums.EnumsPlugin"}], "stylers": [{"type": "turms.stylers.appender.AppenderStyler"}], "parsers": [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": "3.7"}],
    "processors": [{"type": "turms.processors.disclaimer.DisclaimerProcessor", "disclaimer": "# x"}], "freeze": {"enabled": True}, "options": {"enabled": True, "extra": "allow"}, "validators": None,
}


def documented():
    """(variable, section or stage, field, value)"""
    out = []
    for pre, c in list(sections().items()):
        for n, f in c.model_fields.items():
            out.append(("TURMS_" + pre + n.upper(), pre, n, value_of(n, f)))
    for p, c in stage_configs().items():
        if prefix_of(p):
            for n, f in c.model_fields.items():
                if n != "type":
                    out.append((prefix_of(p) + n.upper(), p, n, value_of(n, f)))
    return [o for o in out if o[3] is not None]


def value_of(n, f):
    if n in SPECIAL:
        return SPECIAL[n]
    k = kinds(f.annotation)
    if "bool" in k:
        return not bool(f.default)
    if "str" in k:
        return "Alt" if "name" not in n else "alt.py"
    return None


def configured(where, field, value):
    """the project in which the file gives the setting, and the one where it does not"""
    pick = {"objects": objects, "strawberry": server}.get(where.split(".")[2] if "plugins." in where else "", None)
    with_, without = (pick() if pick else everything()), (pick() if pick else everything())
    tw, to = with_["extensions"]["turms"], without["extensions"]["turms"]
    if "." not in where:
        for t in (tw, to):
            t.pop(field, None) if not where else None
            if where:
                t.setdefault(where[:-1].lower(), {})
                if field != "enabled":
                    t[where[:-1].lower()]["enabled"] = True
        (tw.setdefault(where[:-1].lower(), {}) if where else tw)[field] = value
        return with_, without
    kind = next(k for k in STAGES if where in STAGES[k])
    for t, v in ((tw, True), (to, False)):
        stage = next(s for s in t[kind] if s["type"] == where)
        stage.pop(field, None)
        if v:
            stage[field] = value
    return with_, without


def run_variable(case, st):
    out = []
    tree = {"documents/b.graphql": "query other { hello(id: 1) }"}
    for name, where, field, value in documented()[case["at"]: case["at"] + case["n"]]:
        text = value if isinstance(value, str) else json.dumps(value)
        with_, without = configured(where, field, value)
        said = Run({**tree, "graphql.config.json": json.dumps(with_)}, ["gen"], st)
        plain = Run({**tree, "graphql.config.json": json.dumps(without)}, ["gen"], st)
        if field == "command" and plain.code != 0:
            plain = said  # (it has to be given somewhere)
        fails = said.code != 0 and name == "TURMS_PLUGINS_STRAWBERRY_GENERATE_ENUMS"  # (refused: nothing else defines the enums)
        if (said.code != 0 and not fails) or plain.code != 0:
            out.append(("harness", f"{where}{field}={value}: exits {said.code} {plain.code}: {(said if said.code else plain).text[-300:]}"))
            continue
        st.evals += 1
        st.outcome("variable", name, "visible" if said.written != plain.written else "invisible")
        for n in (name, name.lower()):
            for layout in ("single", "multiple"):
                conf = without if layout == "single" else {"projects": {"one": without}}
                r = Run({**tree, "graphql.config.json": json.dumps(conf)}, ["gen"], st, **{n: text})
                if r.code != said.code or same(r.written) != same(said.written):
                    out.append(("variable", f"{n}={text} ({layout}) is not the same as the setting in the file: exit {r.code}, {sorted(r.written)} instead of {sorted(said.written)}: {r.text[-150:]}"))
        # what the file says comes first
        if not isinstance(value, (dict, list)):
            for other in opposite(value, field):
                r = Run({**tree, "graphql.config.json": json.dumps(with_)}, ["gen"], st, **{name: other})
                if r.code != said.code or same(r.written) != same(said.written):
                    out.append(("precedence", f"{name}={other} overrides the setting {value!r} of the file: exit {r.code} {sorted(r.written)}"))
    return out


def same(written):
    return {k: v for k, v in written.items()}


def opposite(value, field):
    if isinstance(value, bool):
        return ["false" if value else "true"]
    return {"pydantic_version": ["v2"], "extra": ["allow"], "python_version": ["3.13"], "documents": ["nothing/*.graphql"]}.get(field, ["Other.x"] if field.endswith("class") else ["Other"])
