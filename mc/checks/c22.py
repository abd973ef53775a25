"""C22: invalid documents or configuration never produce output; valid documents are never refused as invalid."""
import contextlib
import io
import itertools
import json
import os

from graphql import GraphQLError, Lexer, Source, TokenKind, build_schema, parse, specified_rules, validate
from graphql.utilities import strip_ignored_characters

from .. import confwalk
from ..faults import run_cli
from ..turmsio import PLUG, make_project, plugins, scratch, stylers, write_tree

ID = "C22"
LEVEL = "model_checking"
RULE = ("one case = one token of the documents with all its replacements, one document rule, or one configuration class; a trace is one generation from a corrupted input; a state is one distinct corrupted document set or configuration; "
        "an evaluation is one comparison with graphql-core's own validator (all specified rules) or with what the annotation of a setting takes. Outcomes: (invalid, refused) pairs and the rule broken.")
BOUNDS = {
    "quick": "every deletion, duplication, swap and replacement (46 replacements) of every token of 3 document sets x 4 plugin sets; every cut; 27 rules broken and omitted; every setting of every configuration class (generator, 19 stages) with every value of a wrong kind, "
             "misspelt keys, unknown choices, classes of the wrong kind in every place; every cut of a configuration file",
    "thorough": "all pairs of token deletions and of a deletion and a replacement",
}
ASSUMPTIONS = ["graphql-core's validator with the specified rules decides what a valid document is", "keys at the project level and next to `turms` belong to other tools (graphql-config) and are not judged",
               "names of classes that only the generated code imports are not loaded by turms and not judged beyond their form"]
CASE_TIMEOUT = 600

SDL = """
directive @mark(n: Int) on FIELD | QUERY
directive @many(n: Int) repeatable on FIELD
type Query { a(x: Int, y: In): T n: Node u: [U!] i(id: ID!): Int }
type Mutation { m(c: Color!): T }
type Subscription { s: T o: Int }
type T implements Node { id: ID! name: String c: Color t(x: Int = 1): T }
type O { z: Int name: Int }
interface Node { id: ID! }
union U = T | O
enum Color { RED GREEN }
input In { r: Int! s: [String!] c: Color = RED n: In }
"""
SETS = {
    "one": {"a.graphql": 'query A($x: Int = 1, $i: In!) @mark { a(x: $x, y: $i) { ...F t(x: 2) { id } } n { id ... on T { name @include(if: true) } } }\nfragment F on T { id c }'},
    "two": {"a.graphql": 'query A($c: Color) { u { ... on T { ...F } ... on O { z } } a(y: {r: 1, s: ["x"], c: $c}) { ...F } }', "b.graphql": 'fragment F on T { id k: name }\nmutation M($c: Color!) { m(c: $c) { ...F } }'},
    "three": {"a.graphql": "subscription S { s { id } }", "sub/b.graphql": 'query B($id: ID!, $l: [String!]) { i(id: $id) a(y: {r: 2, s: $l, n: {r: 1}}) { name @many(n: 1) @many } }', "sub/c.graphql": "# nothing\n"},
}
POOL = ["{", "}", "(", ")", "[", "]", "!", "$", ":", "=", "@", "...", "|", "&", "query", "mutation", "subscription", "fragment", "on", "A", "F", "T", "O", "In", "Color", "Int", "Node", "Query", "id", "name", "z", "x", "y", "c", "nothing", "mark", "include", "__typename", "RED", "BLUE", "1", "1.5", '"x"', "true", "null", "type"]
ALL = (("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "fragments", "operations")
PLUGS = {
    "client": ALL, "funcs": ("enums", "inputs", "fragments", "operations", ("funcs", {"definitions": [{"type": t, "use": "builtins.print"} for t in ("query", "mutation", "subscription")]})),
    "operations": ALL[:2] + ("operations",), "reached": ("enums", "inputs"),
}
RULES = {  # a document that breaks nothing else
    "ExecutableDefinitionsRule": "query A { i(id: 1) } scalar X", "UniqueOperationNamesRule": "query A { i(id: 1) } query A { i(id: 1) }", "LoneAnonymousOperationRule": "{ i(id: 1) } query A { i(id: 1) }", "SingleFieldSubscriptionsRule": "subscription S { s { id } o }",
    "KnownTypeNamesRule": "query A($x: Nope) { i(id: 1) __typename @include(if: $x) }", "FragmentsOnCompositeTypesRule": "query A { i(id: 1) } fragment F on Color { x }", "VariablesAreInputTypesRule": "query A($x: T) { i(id: 1) }", "ScalarLeafsRule": "query A { a }", "FieldsOnCorrectTypeRule": "query A { nope }",
    "UniqueFragmentNamesRule": "query A { a { ...F } } fragment F on T { id } fragment F on T { id }", "KnownFragmentNamesRule": "query A { a { id ...F } }", "NoUnusedFragmentsRule": "query A { i(id: 1) } fragment F on T { id }", "PossibleFragmentSpreadsRule": "query A { a { ... on O { z } } }",
    "NoFragmentCyclesRule": "query A { a { ...F } } fragment F on T { t { ...F } }", "UniqueVariableNamesRule": "query A($x: Int, $x: Int) { a(x: $x) { id } }", "NoUndefinedVariablesRule": "query A { a(x: $x) { id } }", "NoUnusedVariablesRule": "query A($x: Int) { i(id: 1) }", "KnownDirectivesRule": "query A { i(id: 1) @nope }",
    "UniqueDirectivesPerLocationRule": "query A { i(id: 1) @mark @mark }", "KnownArgumentNamesRule": "query A { i(id: 1, nope: 1) }", "UniqueArgumentNamesRule": "query A { i(id: 1, id: 1) }", "ValuesOfCorrectTypeRule": "query A { a(x: \"s\") { id } }", "ProvidedRequiredArgumentsRule": "query A { i }",
    "VariablesInAllowedPositionRule": "query A($x: String) { a(x: $x) { id } }", "OverlappingFieldsCanBeMergedRule": "query A { a { id: name id } }", "UniqueInputFieldNamesRule": "query A { a(y: {r: 1, r: 1}) { id } }",
}
schema = build_schema(SDL)


def setup(tier):
    from . import c19

    c19.setup(tier)


def tokens(text):
    lexer = Lexer(Source(text))
    out = []
    while True:
        t = lexer.advance()
        if t.kind is TokenKind.EOF:
            return out
        out.append((t.start, t.end))


def edits(text, k, spans, deep=False):
    a, b = spans[k]
    yield f"delete {text[a:b]}", text[:a] + text[b:]
    yield f"duplicate {text[a:b]}", text[:b] + " " + text[a:b] + text[b:]
    if k + 1 < len(spans):
        c, d = spans[k + 1]
        yield f"swap {text[a:d]}", text[:a] + text[c:d] + " " + text[a:b] + text[d:]
        yield f"cut after {text[a:b]}", text[:b]
    for p in POOL:
        yield f"{text[a:b]} becomes {p}", text[:a] + " " + p + " " + text[b:]
        yield f"{p} before {text[a:b]}", text[:a] + " " + p + " " + text[a:]


def invalid(docs, rules=specified_rules):
    """None when the documents are valid, or what is wrong with them"""
    try:
        defs = []
        for t in docs.values():
            if strip_ignored_characters(t):
                defs += parse(t).definitions
    except GraphQLError as e:
        return "syntax: " + e.message
    if not defs:
        return "nothing"
    from graphql import DocumentNode

    e = validate(schema, DocumentNode(definitions=tuple(defs)), rules=rules)
    return e[0].message if e else None


def attempt(d, docs, turms):
    """-> (code or None, error)"""
    from turms.run import generate

    write_tree(d, {"schema.graphql": SDL, **{"documents/" + k: v for k, v in docs.items()}})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return generate(make_project(os.path.join(d, "schema.graphql"), os.path.join(d, "documents", "**", "*.graphql"), turms), log=lambda *a, **k: None)[0], ""
    except Exception as e:  # noqa
        return None, f"{type(e).__name__}: {e}"


def config(name, **kw):
    return {"plugins": plugins(*PLUGS[name]), "stylers": [], **kw}


def cases(tier):
    deep = tier == "thorough"
    for s, docs in SETS.items():
        for f, text in docs.items():
            for k in range(len(tokens(text))):
                for p in PLUGS if s == "one" or deep else ("client", "funcs"):
                    yield {"key": f"token:{s}:{f}:{k}:{p}", "set": s, "file": f, "token": k, "plugs": p}
                if deep:
                    yield {"key": f"pair:{s}:{f}:{k}", "set": s, "file": f, "token": k, "plugs": "client", "pairs": True}
    for r in RULES:
        yield {"key": f"rule:{r}", "rule": r}
    yield {"key": "rules", "rules": True}
    yield {"key": "files", "files": True}
    yield {"key": "config:generator", "class": None}
    for kind, paths in confwalk.STAGES.items():
        for p in paths:
            yield {"key": f"config:{p.rsplit('.', 1)[1]}", "class": [kind, p]}
    for kind in confwalk.STAGES:
        yield {"key": f"classes:{kind}", "classes": kind}
    yield {"key": "configfile", "configfile": True}
    yield {"key": "cli", "cli": True}


def run(case, st):
    out = []
    with scratch() as d:
        d = os.path.realpath(d)
        if "token" in case:
            token(case, st, d, out)
        elif "rule" in case:
            rule(case, st, d, out)
        elif "rules" in case:
            rules(case, st, d, out)
        elif "files" in case:
            files(case, st, d, out)
        elif "class" in case:
            settings(case, st, d, out)
        elif "classes" in case:
            classes(case, st, d, out)
        elif "configfile" in case:
            configfile(case, st, d, out)
        else:
            cli(case, st, d, out)
    return out


# what the plugin sets here are not able to generate: a plugin set without the fragments plugin, operations without a name
KNOWN_REFUSALS = ("Fragment F is not yet defined",)


def anonymous(docs):
    return any(getattr(x, "operation", None) and x.name is None for t in docs.values() if strip_ignored_characters(t) for x in parse(t).definitions)


def judge(st, d, docs, turms, what, out, rules=specified_rules):
    problem = invalid(docs, rules)
    code, error = attempt(d, docs, turms)
    st.traces += 1
    st.states += 1
    st.evals += 1
    st.outcome(problem is None, code is None, problem and problem.split("'")[0].split('"')[0][:40])
    if problem and code is not None:
        out.append(("accepted", f"{what}: generated although the documents are invalid ({problem})"))
    if problem is None and code is None:
        if "Invalid Documents" in error or "Syntax Error" in error:
            out.append(("refused", f"{what}: valid documents are refused: {error[:200]}"))
        elif not any(k in error for k in KNOWN_REFUSALS) and not anonymous(docs):
            out.append(("failed", f"{what}: valid documents are not generated: {error[:300]}"))
    if code is not None:
        compile(code, "x", "exec")
    return problem


def token(case, st, d, out):
    docs = SETS[case["set"]]
    text = docs[case["file"]]
    spans = tokens(text)
    turms = config(case["plugs"])
    if case["token"] == 0 and judge(st, d, docs, turms, "unchanged", out):
        out.append(("harness", "the documents are invalid to begin with"))
    for what, new in edits(text, case["token"], spans):
        if case.get("pairs"):
            if what.split()[0] != "delete":
                continue
            try:
                again = tokens(new)
            except GraphQLError:
                continue
            for j in range(len(again)):
                for what2, new2 in edits(new, j, again):
                    if " before " not in what2 and len(out) < 5:
                        judge(st, d, {**docs, case["file"]: new2}, turms, f"{what}, {what2} in {case['file']}", out)
            continue
        if " before " in what and case["plugs"] != "client":
            continue
        judge(st, d, {**docs, case["file"]: new}, turms, f"{what} in {case['file']} ({case['plugs']})", out)
        if len(out) > 5:
            return


def rule(case, st, d, out):
    r = case["rule"]
    docs = {"a.graphql": RULES[r]}
    by_name = {x.__name__: x for x in specified_rules}
    others = [n for n in by_name if n != r]
    from turms.rules import specified_rules_map

    broken = [n for n, x in by_name.items() if invalid(docs, [x])]
    if r not in broken:
        out.append(("harness", f"{r} is not broken by {RULES[r]}"))
        return
    name = {x.__name__: k for k, x in specified_rules_map.items()}
    for p in PLUGS:
        judge(st, d, docs, config(p), f"{r} ({p})", out)
        # only the rules that are broken: still refused unless all of them are omitted
        for n in broken:
            left = [x for x in others if x not in broken]
            omitted = [name[x] for x in by_name if x != n and x in name]
            code, error = attempt(d, docs, config(p, omited_document_rules=omitted))
            st.traces += 1
            if code is not None or "Invalid Documents" not in error:
                out.append(("accepted", f"{r} ({p}): with only {n} left in force the documents are not refused ({error[:100]})"))
        code, error = attempt(d, docs, config(p, omited_document_rules=[name[n] for n in broken if n in name]))
        st.traces += 1
        st.outcome(r, code is None)
        if "Invalid Documents" in error:
            out.append(("refused", f"{r} ({p}): omitted, but still enforced: {error[:200]}"))


def rules(case, st, d, out):
    from turms.rules import specified_rules_map

    want, have = {r for r in specified_rules}, set(specified_rules_map.values())
    for r in want ^ have:
        out.append(("rules", f"{r.__name__} is {'not in force' if r in want else 'no specified rule'}"))
    st.states += len(want)
    st.traces += 1
    for bad in (["Nope"], [""], [r.__name__.lower() for r in specified_rules][:1], [1], "x", {"a": 1}):
        code, error = attempt(d, SETS["one"], config("client", omited_document_rules=bad))
        st.traces += 1
        if code is not None:
            out.append(("accepted", f"omited_document_rules {bad} is accepted"))


def files(case, st, d, out):
    base = SETS["two"]
    extra = {"again": {"c.graphql": base["b.graphql"]}, "same": {"c.graphql": "query A { i(id: 1) }"}, "unused": {"c.graphql": "fragment G on T { id }"}, "types": {"c.graphql": "type X { a: Int }"}, "anonymous": {"c.graphql": "{ i(id: 1) }"}, "open": {"a.graphql": base["a.graphql"] + " query B { i(id: 1)", "b.graphql": "} " + base["b.graphql"]},
             "half": {"a.graphql": base["a.graphql"] + ' query B($x: Int = "', "b.graphql": '") { i(id: 1) } ' + base["b.graphql"]}, "garbage": {"c.graphql": "hello"}, "bom": {"c.graphql": "\ufeff"}, "comment": {"c.graphql": "# query {"}, "comma": {"c.graphql": ",,, "}, "nested": {"x/y/c.graphql": "query C { nope }"}, "nestedok": {"x/y/c.graphql": "query C { i(id: 1) }"},
             "nofragment": {"b.graphql": "query B { i(id: 1) }"}, "moved": {"b.graphql": "", "z.graphql": base["b.graphql"]}, "directive": {"c.graphql": "directive @d on FIELD query C { i(id: 1) @d }"}, "extend": {"c.graphql": "extend type T { more: Int }"}, "blank": {"a.graphql": "", "b.graphql": ""}, "hash": {"a.graphql": "#", "b.graphql": "\n"}}
    for n, e in extra.items():
        for p in PLUGS:
            import shutil

            shutil.rmtree(os.path.join(d, "documents"), ignore_errors=True)
            judge(st, d, {**base, **e}, config(p), f"{n} ({p})", out)
    # bytes that are no text
    import shutil

    for p in PLUGS:
        shutil.rmtree(os.path.join(d, "documents"), ignore_errors=True)
        for raw in (b"query A { a { id } } # \xff", b"\xff\xfeq\x00", base["a.graphql"].encode("utf-16")):
            os.makedirs(os.path.join(d, "documents"), exist_ok=True)
            with open(os.path.join(d, "documents", "n.graphql"), "wb") as f:
                f.write(raw)
            code, error = attempt(d, {"m.graphql": "query M { i(id: 1) }"}, config(p))
            st.traces += 1
            if code is not None:
                out.append(("accepted", f"{raw!r} is read as a document ({p})"))


def settings(case, st, d, out):
    kind, path = case["class"] or (None, None)
    if kind is None:
        from turms.config import GeneratorConfig

        cls = GeneratorConfig
    else:
        cls = confwalk.config_class(path)
    good = {} if kind is None else {**confwalk.minimal(cls), "type": path}
    if path and path.endswith("CommandProcessor"):
        good["command"] = "cat"
    if path and path.endswith("PolyfillParser"):
        good["python_version"] = "3.9"
    everything = plugins("enums", "inputs", "fragments", "operations")

    def project(change):
        if kind is None:
            return {"plugins": everything, **change}
        stage = {**good, **change}
        return {"plugins": [stage] if kind == "plugins" else everything, **({} if kind == "plugins" else {kind: [stage]})}

    docs = SETS["one"]
    code, error = attempt(d, docs, project({}))
    if code is None:
        if path and path.endswith(("OperationsPlugin", "FuncsPlugin", "InputsPlugin", "InputFuncsPlugin", "StrawberryPlugin", "ObjectsPlugin", "FragmentsPlugin", "EnumsPlugin")):
            pass  # on its own it refuses these documents: the settings are refused with or without it, see the message
        else:
            out.append(("harness", f"{path}: the settings are refused to begin with: {error[:200]}"))
            return
    for what, change in confwalk.corruptions(cls):
        code, error = attempt(d, docs, project(change))
        st.traces += 1
        st.states += 1
        st.evals += 1
        st.outcome(path, "refused" if code is None else "accepted")
        about = "validation error" in error or "Invalid import" in error or "Input should be" in error or "argument after ** must be a mapping" in error or "keywords must be strings" in error
        if code is not None or not about:
            out.append(("accepted", f"{path or 'turms'} {what}: {json.dumps(change)[:80]} is accepted ({error[:120]})"))
        if len(out) > 400:
            return
    # what has no default must be given
    for n, f in cls.model_fields.items():
        if f.is_required() and kind:
            code, error = attempt(d, docs, {**project({}), kind: [{k: v for k, v in good.items() if k != n}]})
            st.traces += 1
            if code is not None:
                out.append(("accepted", f"{path}: {n} can be left out"))
    if kind is None:
        for change in ({"unset_type_class": "a.B"}, {"unset_instance": "a.b"}, {"additional_bases": {"T": ["nodot"]}}, {"plugins": "x"}, {"plugins": [{}]}, {"plugins": [3]}, {"plugins": ["turms.plugins.enums.EnumsPlugin"]}, {"plugins": [{"type": None}]}, {"plugins": {"type": "turms.plugins.enums.EnumsPlugin"}},
                       {"pydantic_version": "v3"}, {"freeze": {"enabled": "x"}}, {"options": {"extra": "x"}}):
            code, error = attempt(d, docs, project(change))
            st.traces += 1
            if code is not None:
                out.append(("accepted", f"turms {change} is accepted"))


def classes(case, st, d, out):
    kind = case["classes"]
    everything = plugins("enums", "inputs", "fragments", "operations")
    bad = ["nope", "", ".", "nope.Nope", "turms.Nope", "turms.plugins.enums", "turms.plugins.enums.Nope", "turms.plugins.enums.EnumsPlugin.", ".turms.plugins.enums.EnumsPlugin", "turms.plugins.enums:EnumsPlugin", "os.path.join", "os.sep", "builtins.dict", "builtins.print", "json.loads", "collections.OrderedDict", "turms.config.GeneratorConfig",
           "turms.plugins.base.Plugin", "turms.stylers.base.Styler", "turms.processors.base.Processor", "turms.parsers.base.Parser", "turms.plugins.enums.EnumsPluginConfig"]
    bad += [p for k, ps in confwalk.STAGES.items() if k != kind for p in ps]
    for path in bad:
        for first in (True, False):
            stage = {"type": path}
            if path.endswith("CommandProcessor"):
                stage["command"] = "cat"
            if kind == "plugins":
                t = {"plugins": [stage] + everything if first else everything + [stage]}
            else:
                good = {"stylers": stylers("snake"), "processors": [{"type": "turms.processors.disclaimer.DisclaimerProcessor"}], "parsers": [{"type": "turms.parsers.polyfill.PolyfillParser", "python_version": "3.9"}]}[kind]
                t = {"plugins": everything, kind: [stage] + good if first else good + [stage]}
            code, error = attempt(d, SETS["one"], t)
            st.traces += 1
            st.states += 1
            st.outcome(kind, path, code is None)
            if code is not None:
                out.append(("class", f"{path} is accepted among the {kind} ({'first' if first else 'last'})"))


def configfile(case, st, d, out):
    """every cut of the file, every key missing, every part of a wrong kind, through the command line's loader"""
    from turms.run import load_projects_from_configpath

    write_tree(d, {"schema.graphql": SDL, **{"documents/" + k: v for k, v in SETS["one"].items()}})
    single = {"schema": "schema.graphql", "documents": "documents/*.graphql", "extensions": {"turms": {"out_dir": "out", "plugins": plugins("enums")}}}
    multi = {"projects": {"a": single, "b": single}}

    def load(name, text):
        with open(os.path.join(d, name), "w") as f:
            f.write(text)
        st.traces += 1
        st.states += 1
        with contextlib.redirect_stdout(io.StringIO()):
            return load_projects_from_configpath(os.path.join(d, name))

    def refuse(name, text, what):
        try:
            load(name, text)
            out.append(("accepted", f"{what} is accepted"))
        except Exception:  # noqa
            st.outcome("configfile", name)

    for c in (single, multi):
        text = json.dumps(c, indent=1)
        load("c.json", text)
        for i in range(len(text)):
            refuse("c.json", text[:i], f"the file cut at {i}")
        for junk in ("}", "x", ","):
            refuse("c.json", text + junk, f"the file followed by {junk}")
    for top in ([], [single], "x", 3, None, True, {}, {"projects": []}, {"projects": None}, {"projects": {"a": None}}, {"projects": {"a": []}}, {"projects": {"a": {}}}, {"projects": [single]}, {"projects": {"a": single, "b": {}}}):
        refuse("c.json", json.dumps(top), f"{json.dumps(top)[:60]}")
        import yaml

        refuse("c.yaml", yaml.safe_dump(top), f"yaml {json.dumps(top)[:60]}")
    for bad in (None, [], {}, 3, True):
        for path in (("schema",), ("documents",), ("extensions",), ("extensions", "turms")):
            if path == ("documents",) and bad is None or path == ("schema",) and bad in ([], {}):
                continue
            if path[-1] == "turms" and bad == {}:
                continue  # every setting has a default
            c = json.loads(json.dumps(single))
            at = c
            for k in path[:-1]:
                at = at[k]
            at[path[-1]] = bad
            refuse("c.json", json.dumps(c), f"{'.'.join(path)} = {bad}")
            refuse("c.json", json.dumps({"projects": {"a": single, "b": c}}), f"projects.b.{'.'.join(path)} = {bad}")
    for path in (("schema",), ("extensions",), ("extensions", "turms")):
        c = json.loads(json.dumps(single))
        at = c
        for k in path[:-1]:
            at = at[k]
        del at[path[-1]]
        refuse("c.json", json.dumps(c), f"{'.'.join(path)} is missing")
    for name in ("c.ini", "c", "c.json5", "json", "c.jso"):
        refuse(name, json.dumps(single), f"a file called {name}")
    refuse("c.yaml", "schema: [", "broken yaml")
    refuse("c.yaml", "a: b: c", "broken yaml")
    refuse("c.yaml", "", "an empty file")
    refuse("c.toml", "schema = ", "broken toml")


def cli(case, st, d, out):
    """through the command: exit code and files"""
    good = {"schema": "schema.graphql", "documents": "documents/*.graphql", "extensions": {"turms": {"out_dir": "out", "dump_schema": True, "dump_configuration": True, "plugins": plugins("enums", "inputs", "fragments", "operations")}}}

    def broken(change):
        c = json.loads(json.dumps(good))
        change(c)
        return c

    T = lambda c: c["extensions"]["turms"]  # noqa
    configs = {"unknown": broken(lambda c: T(c).update(nope=1)), "kind": broken(lambda c: T(c).update(plugins=3)), "class": broken(lambda c: T(c)["plugins"].append({"type": "a.B"})), "stagekey": broken(lambda c: T(c)["plugins"][0].update(nope=1)), "stagekind": broken(lambda c: T(c)["plugins"][3].update(query_bases=3)),
               "unset": broken(lambda c: T(c).update(unset_instance="a.b")), "lateplugin": broken(lambda c: T(c)["plugins"].append({"type": "turms.stylers.default.DefaultStyler"})), "noschema": broken(lambda c: c.pop("schema")), "rule": broken(lambda c: T(c).update(omited_document_rules=["x"])), "noglob": broken(lambda c: c.update(documents="none/*.graphql")),
               "nodocs": broken(lambda c: c.pop("documents"))}
    docs = {"syntax": "query A {", "field": "query A { nope }", "var": "query A { a(x: $x) { id } }", "unused": "query A { i(id: 1) } fragment F on T { id }", "empty": ""}
    for old in (False, True):
        for other in (False, True):
            for n, (c, doc) in {**{k: (v, "query A { i(id: 1) }") for k, v in configs.items()}, **{"doc " + k: (good, v) for k, v in docs.items()}}.items():
                import shutil

                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                tree = {"schema.graphql": SDL, "documents/a.graphql": doc}
                if old:
                    tree.update({"out/schema.py": "OLD = 1\n", "out/schema.graphql": "OLD", "out/project.json": "OLD"})
                c2 = {"projects": {"a": c, "b": {**c, "extensions": {"turms": {**c["extensions"]["turms"], "out_dir": "out2"}}}}} if other else c
                write_tree(d, {**tree, "graphql.config.json": json.dumps(c2)})
                for argv in (["gen"], ["gen", "a"] if other else ["gen", "default"]):
                    r = run_cli(d, argv, events=())
                    st.traces += 1
                    st.states += 1
                    if r.code == 0:
                        out.append(("exit", f"{n}: {argv} exits 0"))
                    for f in ("out/schema.py", "out/schema.graphql", "out/project.json", "out2/schema.py"):
                        p = os.path.join(d, f)
                        if old and f[:4] == "out/":
                            if open(p).read() != tree[f]:
                                out.append(("written", f"{n}: {f} was written"))
                        elif os.path.exists(p):
                            out.append(("written", f"{n}: {f} was written"))
                    st.outcome("cli", n)
