"""C21: every way of giving the schema leads to the same code; what cannot be loaded is reported."""
import io
import contextlib
import itertools
import json
import os

from ..faults import run_cli
from ..sources import Answer, canonical, endpoint, introspection, ok, server
from ..turmsio import GenFailed, LoadFailed, client_config, loaded, make_project, plugins, scratch, stylers, write_tree

ID = "C21"
LEVEL = "model_checking"
RULE = ("one case = one schema (a subset of schema features) with one plugin set, or one way to give it with one server answer; a trace is one generation from one source form; a transition is one request a loopback "
        "server answered; a state is one schema text; an evaluation is one comparison with the code generated from a single local file. Outcomes: distinct (form, accepted or refused).")
BOUNDS = {
    "quick": "all subsets of up to 2 out of 13 schema features x 2 plugin sets x 37 source forms; every cut of the schema at a line; 24 GET and 20 POST answers in all remote forms; 10 header sets x remote forms; 12 broken local sources",
    "thorough": "subsets of up to 4 features; every cut of the schema at any byte and of the introspection answer at every 7th byte",
}
ASSUMPTIONS = ["graphql-core's introspection and printing stand for a conforming server", "what introspection cannot tell (applied directives such as @oneOf) is outside the comparison of introspected sources",
               "the order of definitions may differ between sources, their text may not"]
CASE_TIMEOUT = 600


def setup(tier):
    from . import c19

    c19.setup(tier)
    import requests  # noqa


def schema(features):
    """-> (definitions, document) of the schema with the features"""
    f = set(features)
    d = (lambda text: f'"""{text}"""\n') if "desc" in f else (lambda text: "")
    dep = ' @deprecated(reason: "old")' if "deprecated" in f else ""
    q, m = ("Root", "Change") if "roots" in f else ("Query", "Mutation")
    default = {k: (f" = {v}" if "defaults" in f else "") for k, v in (("s", '"a\\n\\"b"'), ("e", "RED"), ("l", "[1, 2]"), ("o", "{name: \"x\", kinds: [RED]}"), ("n", "null"), ("f", "1.5"), ("b", "true"))}
    on = " @tag(name: \"t\")" if "directives" in f else ""
    defs = [
        f'{d("The root")}type {q}{on} {{\n  {d("me")}me: User\n  search({d("what to look for")}text: String{default["s"]}, filter: Filter{default["o"]}, n: [Int!]{default["l"]}, old: Int{dep}): [Hit!]!\n  node(id: ID!): Node\n  color: Color{dep}\n}}',
        f'{d("Changes things")}type {m} {{ rename(id: ID!, name: String{default["n"]}, to: Filter!): User }}',
        f'{d("Somebody" + chr(10) + "  known, é ☃")}type User implements Node{on} {{ id: ID! {d("is it")}name: String, color: Color!, at: Stamp, friends: [User!], nick: String{dep} }}',
        f'{d("a thing with id")}interface Node {{ id: ID! }}', f'type Post implements Node {{ id: ID! title: String! tags: [[String!]]! }}', f'{d("either")}union Hit{on} = User | Post',
        f'{d("colours")}enum Color{on} {{ {d("warm")}RED GREEN{dep} }}', f'{d("narrows")}input Filter{on} {{ {d("by name")}name: String, kinds: [Color!]{default["l"].replace("1, 2", "RED")}, sub: Filter, old: Int{dep}, since: Stamp, size: Float{default["f"]}, on: Boolean{default["b"]} }}',
        f'{d("a moment")}scalar Stamp' + (' @specifiedBy(url: "https://example.org/s")' if "specified" in f else ""),
    ]
    doc = "query Search($t: String, $f: Filter) { search(text: $t, filter: $f, n: [1]) { __typename ... on User { ...U } ... on Post { title tags } } color me { color nick } node(id: \"1\") { __typename id ... on User { name } } }\n" \
          "fragment U on User { id name at friends { id color } }\nmutation Rename($f: Filter!) { rename(id: 1, to: $f) { id } }\nquery Old { search(old: 1, filter: {old: 2, kinds: [RED]}) { __typename } }\n"
    if "roots" in f:
        defs.insert(3, f"schema {{ query: {q} mutation: {m} }}")
    if "directives" in f:
        defs += ["directive @tag(name: String!) repeatable on OBJECT | UNION | ENUM | INPUT_OBJECT"]
    if "extend" in f:
        defs += ["extend type User { age: Int }", "extend enum Color { BLUE }", "extend input Filter { more: [Int] }", "extend union Hit = Extra", "type Extra { x: Int }"]
        doc += "query Extended($f: Filter) { me { age } search(filter: $f) { __typename ... on Extra { x } } }\n"
    if "iface2" in f:
        defs += ["interface Sized implements Node { id: ID! size: Int }", "type Box implements Sized & Node { id: ID! size: Int at: Stamp }", f"extend type {q} {{ sized: Sized box: Box }}"]
        doc += "query Sized { sized { __typename id size ... on Box { at } } box { id } }\n"
    if "oneof" in f:
        defs += ["directive @oneOf on INPUT_OBJECT", "input ById { id: ID! }", "input ByName { name: String! }", "input By @oneOf { id: ById name: ByName }", "input Raw @oneOf { a: Int b: [String] }", f"extend type {q} {{ by(by: By!, raw: Raw): User }}"]
        doc += "query By($b: By!, $r: Raw) { by(by: $b, raw: $r) { id } }\n"
    if "elements" in f:
        defs += ["directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT", 'input Cat @unionElementOf(union: "Pet", discriminator: "kind", key: "CAT") { kind: PetKind! lives: Int }',
                 'input Dog @unionElementOf(union: "Pet", discriminator: "kind", key: "DOG") { kind: PetKind! name: String }', "enum PetKind { CAT DOG }", "input Pet { kind: PetKind! lives: Int name: String }", f"extend type {q} {{ pet(pet: Pet!): Int }}"]
        doc += "query Pet($p: Pet!) { pet(pet: $p) }\n"
    if "sub" in f:
        defs += ["type Subscription { ticks(n: Int!): User! }"]
        if "roots" in f:
            defs[3] = f"schema {{ query: {q} mutation: {m} subscription: Subscription }}"
        doc += "subscription Ticks($n: Int!) { ticks(n: $n) { id } }\n"
    if "unused" in f:
        defs += ["type Lonely { a: Int }", "enum Solo { ONE }", "input Alone { s: Solo }", "scalar Odd"]
    if "order" in f:
        defs.reverse()
    return defs, doc


FEATURES = ["desc", "deprecated", "roots", "defaults", "directives", "specified", "extend", "iface2", "oneof", "elements", "sub", "unused", "order"]
TEXTS = {"": lambda t: t, "crlf": lambda t: t.replace("\n", "\r\n"), "bom": lambda t: "\ufeff" + t, "comment": lambda t: "# first\n" + t + "\n# last, without newline"}

SETS = {
    "client": lambda: client_config((("enums", {"skip_unreferenced": False}), ("inputs", {"skip_unreferenced": False}), "fragments", "operations", "objects"), ("capitalize", "snake"), scalar_definitions={"Stamp": "str", "Odd": "str"}),
    "server": lambda: {"plugins": plugins("strawberry"), "stylers": stylers("capitalize", "snake"), "skip_forwards": True, "scalar_definitions": {"Stamp": "str", "Odd": "str"}},
}


def build(d, source, doc, turms):
    from turms.run import generate

    write_tree(d, {"documents/a.graphql": doc})
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            project = make_project(source, os.path.join(d, "documents", "*.graphql"), dict(turms))
            return generate(project, log=lambda *a, **k: None)[0]
    except Exception as e:  # noqa
        raise GenFailed(f"{type(e).__name__}: {e}") from e


H = {"Authorization": "Bearer t", "X-Key": "1"}


def forms(s, d, defs, text):
    """every way to give the schema: name -> (source, needs introspection, urls that must see the headers).  s: server, d: folder"""
    one = text("\n".join(defs))
    k = len(defs) // 2
    parts = [text("\n".join(defs[:k])), text("\n".join(defs[k:]))]
    thirds = [text("\n".join(defs[i::3])) for i in range(3)]
    plain = "\n".join(defs)
    files = {"one.graphql": one, "sub dir/one.graphql": one, "httpfiles/one.graphql": one, "https.graphql": one, "br [1]/one.graphql": one, "parts/a.graphql": parts[0], "parts/b.graphql": parts[1], "deep/x/a.graphqls": parts[0], "deep/y/z/b.graphqls": parts[1],
             "three/1.gql": thirds[0], "three/2.gql": thirds[1], "three/3.gql": thirds[2], "three/readme.txt": "no", "rev/a.graphql": parts[1], "rev/b.graphql": parts[0],
             "intro.json": json.dumps(introspection(plain)), "intro/bom.json": "\ufeff" + json.dumps(introspection(plain), ensure_ascii=False)}
    write_tree(d, files)
    p = lambda x: os.path.join(d, x)  # noqa
    up = endpoint(plain)
    s.answers.update({
        "/sdl": Answer(ok(one), None), "/api": Answer((400, {}, b"Must provide query"), up), "/html": Answer(ok("<html><body>GraphiQL</body></html>", "text/html"), up), "/none": Answer("drop", up),
        "/405": Answer((405, {}, b""), up), "/old": Answer(None, endpoint(plain, True)), "/exec": Answer(ok("query A { a }"), up), "/empty": Answer(ok(""), up), "/json": Answer(ok('{"errors": []}', "application/json"), up), "/hash": Answer(ok("# nothing here\n"), up),
        "/p0": Answer(ok(parts[0]), None), "/p1": Answer(ok(parts[1]), None), "/moved": Answer((302, {"Location": "/sdl"}, b""), None), "/gone": Answer(None, (307, {"Location": "/api"}, b"")),
    })
    u = s.base
    h = {"headers": H}
    return {
        "glob": p("one.*"), "parts": p("parts/*.graphql"), "deep": p("deep/**/*.graphqls"), "three": p("three/*.gql"), "reversed": p("rev/*.graphql"), "space": p("sub dir/one.graphql"), "httpdir": ("cwd", "httpfiles/one.graphql"), "httpfile": ("cwd", "https.graphql"),
        "brackets": p("br [1]/one.graphql"), "relative": ("cwd", "one.graphql"), "list1": [p("one.graphql")], "list2": [p("parts/a.graphql"), p("parts/b.graphql")], "list2r": [p("parts/b.graphql"), p("parts/a.graphql")], "listglobs": [p("three/[12].gql"), p("three/3*")],
        "url": u + "/sdl", "urlheaders": {u + "/sdl": h}, "listurl": [u + "/sdl"], "listurlheaders": [{u + "/sdl": h}], "urls": [u + "/p0", u + "/p1"], "dict2": {u + "/p0": h, u + "/p1": {"headers": {}}}, "listdict2": [{u + "/p0": h, u + "/p1": h}], "dicts": [{u + "/p0": h}, {u + "/p1": h}],
        "mixed": [p("parts/a.graphql"), u + "/p1"], "mixedheaders": [{u + "/p0": h}, p("parts/b.graphql")], "mixedurls": [u + "/p0", {u + "/p1": h}], "redirect": u + "/moved",
        "i:file": p("intro.json"), "i:bom": p("intro/bom.json"), "i:list": [p("intro.json")], "i:url": u + "/api", "i:html": u + "/html", "i:none": u + "/none", "i:405": {u + "/405": h}, "i:old": u + "/old", "i:exec": u + "/exec", "i:empty": u + "/empty", "i:json": u + "/json", "i:hash": u + "/hash",
        "i:headers": {u + "/api": h}, "i:listheaders": [{u + "/html": h}], "i:redirect": u + "/gone",
    }


ENV = {"MC_TOKEN": "s3cret $MC_OTHER", "MC_OTHER": "o"}


def filled(v):
    import re

    return re.sub(r"\$\{(MC_\w+)\}", lambda m: ENV[m.group(1)], v)


def wanted_headers(source):
    """[(url path, headers)] of a source"""
    out = []
    for item in source if isinstance(source, list) else [source]:
        if isinstance(item, dict):
            out += [("/" + k.split("/", 3)[3], v["headers"]) for k, v in item.items()]
        elif isinstance(item, str) and item.startswith("http://"):
            out.append(("/" + item.split("/", 3)[3], {}))
    return out


def cases(tier):
    deep = tier == "thorough"
    for n in range(5 if deep else 3):
        for c in itertools.combinations(FEATURES, n):
            for k in SETS:
                yield {"key": f"schema:{'+'.join(c)}:{k}", "features": c, "set": k, "text": ""}
    for t in ("crlf", "bom", "comment"):
        for c in [()] + [(x,) for x in FEATURES] + ([(a, b) for a, b in itertools.combinations(FEATURES, 2)] if deep else []):
            yield {"key": f"text:{t}:{'+'.join(c)}", "features": c, "set": "client", "text": t}
    for c in ((), ("desc", "deprecated", "directives", "extend", "oneof", "elements", "defaults", "roots", "specified", "iface2")):
        yield {"key": f"download:{'+'.join(c)}", "features": c, "download": True}
    for x in FEATURES:
        yield {"key": f"download:{x}", "features": (x,), "download": True}
    if deep:
        for c in itertools.combinations(FEATURES, 2):
            yield {"key": f"download:{'+'.join(c)}", "features": c, "download": True}
    for form in ("url", "urlheaders", "listurl", "listdict", "pair", "dict2", "mixed"):
        for intro in (True, False):
            yield {"key": f"answers:{form}:{intro}", "answers": form, "intro": intro}
            yield {"key": f"cuts:{form}:{intro}", "cuts": form, "intro": intro, "step": 1 if deep else 0}
    yield {"key": "posts:cut", "postcut": 7 if deep else 97}
    for i in range(len(HEADERS)):
        yield {"key": f"headers:{i}", "headers": i}
    yield {"key": "local", "local": True}


HEADERS = [{}, {"Authorization": "Bearer abc"}, {"authorization": "token"}, {"Content-Type": "application/graphql-response+json"}, {"accept": "text/x"}, {"A": "1", "B": "2"}, {"X": ""}, {"X-Long": "y" * 3000}, {"Authorization": "Bearer ${MC_TOKEN}", "X-Two": "${MC_TOKEN}-${MC_OTHER}", "X-Cost": "$5 {a} ${}"}, {"User-Agent": "me", "X-Quote": "a\"b, c; d=e"}]


def compare(name, expected, code, out, st):
    st.evals += 1
    got = canonical(code)
    if got != expected:
        diff = [x[:150] for x in got if x not in expected][:2] + ["--"] + [x[:150] for x in expected if x not in got][:2]
        out.append(("differs", f"{name}: the generated code differs from that of a single file: {diff}"))


def run(case, st):
    out = []
    with scratch() as d, server() as s:
        d = os.path.realpath(d)
        here = os.getcwd()
        os.chdir(d)
        try:
            if "answers" in case or "cuts" in case or "postcut" in case:
                answers(case, st, s, d, out)
            elif "headers" in case:
                headers(case, st, s, d, out)
            elif "local" in case:
                local(case, st, d, out)
            elif "download" in case:
                download(case, st, s, d, out)
            else:
                same(case, st, s, d, out)
        finally:
            os.chdir(here)
        st.transitions += len(s.seen)
    return out


def same(case, st, s, d, out):
    defs, doc = schema(case["features"])
    st.states += 1
    turms = SETS[case["set"]]()
    write_tree(d, {"base.graphql": "\n".join(defs)})
    base = build(d, os.path.join(d, "base.graphql"), doc, turms)
    expected = canonical(base)
    hidden = {"oneof", "elements"} & set(case["features"])
    for name, source in forms(s, d, defs, TEXTS[case["text"]]).items():
        intro = name.startswith("i:")
        if intro and (hidden or case["set"] == "server" and "directives" in case["features"]) or name == "i:old" and "deprecated" in case["features"]:
            continue
        if isinstance(source, tuple):
            source = source[1]
        s.seen.clear()
        st.traces += 1
        try:
            code = build(d, source, doc, turms)
        except GenFailed as e:
            out.append(("refused", f"{name}: {str(e)[:300]}"))
            st.outcome(name, "refused")
            continue
        st.outcome(name, "accepted")
        compare(name, expected, code, out, st)
        if code != base and intro:
            try:
                with loaded(code):
                    pass
            except LoadFailed as e:
                out.append(("import", f"{name}: {str(e)[:200]}"))
        sent(name, source, s, out)


def sent(name, source, s, out):
    want = dict(wanted_headers(source))
    for method, path, got, body in s.seen:
        w = want.get(path, next((v for k, v in want.items() if k in ("/moved", "/gone")), None))
        if w is None:
            out.append(("request", f"{name}: a request to {path}, which is not configured"))
            continue
        for k, v in w.items():
            if got.get(k.lower()) != v:
                out.append(("header", f"{name}: {method} {path} does not carry {k}: {got.get(k.lower())!r} instead of {v!r}"))
        if not w:
            for k in H:
                if k.lower() in got:
                    out.append(("leak", f"{name}: {method} {path} carries {k} although it is configured for another source"))
    for path in want:
        if not any(p == path for _, p, _, _ in s.seen):
            out.append(("unasked", f"{name}: {path} was never asked"))


def download(case, st, s, d, out):
    defs, doc = schema(case["features"])
    st.states += 1
    hidden = {"oneof", "elements"} & set(case["features"])
    bases = {}
    for k in SETS:
        write_tree(d, {"base.graphql": "\n".join(defs)})
        bases[k] = canonical(build(d, os.path.join(d, "base.graphql"), doc, SETS[k]()))
    for name, source in forms(s, d, defs, TEXTS[""]).items():
        intro = name.startswith("i:")
        if intro and (hidden or "directives" in case["features"]) or name == "i:old" and "deprecated" in case["features"]:
            continue
        if isinstance(source, tuple):
            source = source[1]
        turms = SETS["client"]()
        for folder in (None, "got"):
            if folder:
                os.makedirs(os.path.join(d, "got"), exist_ok=True)
            write_tree(d, {"c.json": json.dumps({"projects": {"p": {"schema": source, "extensions": {"turms": turms}}}})})
            s.seen.clear()
            r = run_cli(d, ["download", "--config", "c.json"] + (["--dir", folder] if folder else ["--out", "x.sdl"]), events=())
            st.traces += 1
            path = os.path.join(d, "got", "p.schema.graphql") if folder else os.path.join(d, "px.sdl")
            if folder and not os.path.exists(path):
                found = os.listdir(os.path.join(d, "got"))
                path = os.path.join(d, "got", found[0]) if found else path
            if r.code != 0 or not os.path.exists(path):
                out.append(("download", f"{name}: {r.code} {r.output[-300:] if hasattr(r, 'output') else ''}"))
                continue
            st.outcome("download", name)
            for k in SETS:
                try:
                    compare(f"download {name} {k}", bases[k], build(d, path, doc, SETS[k]()), out, st)
                except GenFailed as e:
                    out.append(("download", f"{name} {k}: the downloaded schema does not generate: {str(e)[:200]}"))
            os.remove(path)
            if name not in ("glob", "url", "i:url"):
                break


def gets(one):
    b = one.encode()
    n = str(len(b))
    return {
        "404": (404, {}, b), "500": (500, {}, b), "401": (401, {}, b), "403": (403, {}, b), "503": (503, {"Retry-After": "0"}, b), "204": (204, {}, b""), "html": ok("<html></html>"), "empty": ok(""), "blank": ok(" \n"), "hash": ok("# no schema\n"), "json": ok('{"data": null}'), "exec": ok("query A { a }"),
        "short": (200, {"Content-Length": n}, b[: len(b) // 2]), "chunked": (200, {"Transfer-Encoding": "chunked"}, b"%x\r\n%s\r\n" % (40, b[:40])), "badchunk": (200, {"Transfer-Encoding": "chunked"}, b"zz\r\n" + b), "drop": "drop", "binary": ok(b"\xff\xfe\x00" + b), "gzip": (200, {"Content-Encoding": "gzip"}, b"nonsense"),
        "loop": (302, {"Location": "/x"}, b""), "elsewhere": (302, {"Location": "/nothing"}, b""), "introspection": ok(json.dumps(introspection("\n".join(schema(())[0]))), "application/json"), "missing": ok(one.replace("scalar Stamp", "")), "noquery": ok(one.replace("type Query", "type Quark")),
    }


def posts(one):
    full = introspection(one)
    cut = json.loads(json.dumps(full))
    cut["__schema"]["types"] = [t for t in cut["__schema"]["types"] if t["name"] != "Filter"]
    odd = json.loads(json.dumps(full))
    odd["__schema"]["types"][0]["kind"] = "ODD"
    j = lambda x, status=200: (status, {"Content-Type": "application/json"}, json.dumps(x).encode())  # noqa
    good = json.dumps({"data": full}).encode()
    return {
        "404": None, "errors": j({"errors": [{"message": "no"}]}), "both": j({"errors": [{"message": "no"}], "data": None}), "null": j({"data": None}), "empty": j({"data": {}}), "noschema": j({"data": {"__schema": None}}), "list": j([]), "string": j("x"), "number": j(3), "nothing": j(None), "html": ok("<html>"),
        "blank": ok(""), "401": j({"message": "who?"}, 401), "401e": j({"errors": [{"message": "who?"}]}, 401), "cut": j({"data": cut}), "odd": j({"data": odd}), "short": (200, {"Content-Length": str(len(good))}, good[: len(good) // 2]), "drop": "drop", "loop": (307, {"Location": "/x"}, b""), "notypes": j({"data": {"__schema": {"types": []}}}),
    }


def source_of(form, s, d, bad):
    u, p = s.base + bad, s.base + "/p1"
    h = {"headers": H}
    return {"url": u, "urlheaders": {u: h}, "listurl": [u], "listdict": [{u: h}], "pair": [u, p], "dict2": {p: h, u: h}, "mixed": [os.path.join(d, "half.graphql"), {u: h}]}[form]


def answers(case, st, s, d, out):
    form = case.get("answers") or case.get("cuts") or "url"
    defs, doc = schema(())
    st.states += 1
    single = form in ("url", "urlheaders", "listurl", "listdict")
    k = len(defs) // 2
    mine = "\n".join(defs if single else defs[:k])
    write_tree(d, {"base.graphql": "\n".join(defs), "half.graphql": "\n".join(defs[k:])})
    turms = {**SETS["client"](), "allow_introspection": case.get("intro", True)}
    expected = canonical(build(d, os.path.join(d, "base.graphql"), doc, turms))
    s.answers["/p1"] = Answer(ok("\n".join(defs[k:])), None)
    good = endpoint("\n".join(defs))

    def go(name, get, post, allowed):
        s.answers["/x"] = Answer(get, post)
        st.traces += 1
        try:
            code = build(d, source_of(form, s, d, "/x"), doc, turms)
        except GenFailed as e:
            st.outcome(form, name.split("@")[0], "refused")
            if allowed:
                out.append(("refused", f"{form} {name}: {str(e)[:250]}"))
            return
        st.outcome(form, name.split("@")[0], "accepted")
        if not allowed:
            out.append(("accepted", f"{form} {name}: code is generated although the schema could not be loaded"))
        else:
            compare(f"{form} {name}", expected, code, out, st)

    fallback = single and case.get("intro", True)
    if "answers" in case:
        for g, get in gets(mine).items():
            if not single and g in ("missing", "noquery"):
                continue  # half a schema has no root type to begin with
            go(f"get {g}", get, None, False)
            if g not in ("missing", "noquery"):
                go(f"get {g}, introspection", get, good, fallback)
        for p, post in posts("\n".join(defs)).items():
            go(f"post {p}", (400, {}, b""), post, False)
            go(f"sdl, post {p}", ok(mine), post, True)
    elif "cuts" in case:
        data = mine.encode()
        points = [i for i in range(len(data)) if case["step"] or data[i:i + 1] in (b"\n", b"{", b"}", b"(", b":")]
        for i in points:
            go(f"cut@{i}", (200, {"Content-Length": str(len(data))}, data[:i]), None, False)
    else:
        data = json.dumps({"data": introspection("\n".join(defs))}).encode()
        for i in range(0, len(data) - 1, case["postcut"]):
            go(f"postcut@{i}", None, (200, {"Content-Length": str(len(data))}, data[:i]), False)
            go(f"postend@{i}", None, (200, {}, data[:i]), False)
    # the command line says so and leaves the output alone
    if "answers" in case:
        s.answers["/x"] = Answer(None, None)
        write_tree(d, {"c.json": json.dumps({"projects": {"p": {"schema": source_of(form, s, d, "/x"), "documents": "documents/*.graphql", "extensions": {"turms": {**turms, "out_dir": "out", "exit_on_error": True}}}}}), "out/schema.py": "KEEP = 1\n"})
        for argv in (["gen", "--config", "c.json"], ["download", "--config", "c.json", "--dir", "out"]):
            before = sorted(os.listdir(os.path.join(d, "out")))
            r = run_cli(d, argv, events=())
            st.traces += 1
            if r.code == 0:
                out.append(("exit", f"{form} {argv[0]}: exit 0 although the schema cannot be loaded"))
            if open(os.path.join(d, "out/schema.py")).read() != "KEEP = 1\n" or sorted(os.listdir(os.path.join(d, "out"))) != before:
                out.append(("written", f"{form} {argv[0]}: output is written although the schema cannot be loaded"))


def headers(case, st, s, d, out):
    defs, doc = schema(())
    plain = "\n".join(defs)
    st.states += 1
    write_tree(d, {"base.graphql": plain})
    turms = SETS["client"]()
    expected = canonical(build(d, os.path.join(d, "base.graphql"), doc, turms))
    up = endpoint(plain)
    k = len(defs) // 2
    s.answers.update({"/sdl": Answer(ok(plain), None), "/api": Answer((400, {}, b""), up), "/p0": Answer(ok("\n".join(defs[:k])), None), "/p1": Answer(ok("\n".join(defs[k:])), None)})
    h = HEADERS[case["headers"]]
    os.environ.update(ENV)
    u = s.base
    other = {"headers": {"X-Other": "o"}}
    for name, source in {"sdl": {u + "/sdl": {"headers": h}}, "api": {u + "/api": {"headers": h}}, "list": [{u + "/api": {"headers": h}}], "two": [{u + "/p0": {"headers": h}}, {u + "/p1": other}], "dict2": {u + "/p0": {"headers": h}, u + "/p1": other}, "plain": [{u + "/p0": {"headers": h}}, u + "/p1"]}.items():
        s.seen.clear()
        st.traces += 1
        try:
            compare(f"headers {name}", expected, build(d, source, doc, turms), out, st)
        except GenFailed as e:
            out.append(("refused", f"headers {h} {name}: {str(e)[:200]}"))
            continue
        st.outcome("headers", name)
        want = dict(wanted_headers(source))
        for method, path, got, _ in s.seen:
            for key, v in want[path].items():
                v = filled(v)
                if got.get(key.lower()) != v:
                    out.append(("header", f"{name}: {method} {path} carries {key}: {got.get(key.lower())!r} instead of {v!r}"))
            for p2, w in want.items():
                if p2 != path:
                    for key, v in w.items():
                        if key.lower() not in {x.lower() for x in want[path]} and got.get(key.lower()) == v:
                            out.append(("leak", f"{name}: {path} receives {key} of {p2}"))
        if {p for _, p, _, _ in s.seen} != set(want):
            out.append(("unasked", f"{name}: {[p for _, p, _, _ in s.seen]} asked"))


    if any("${MC" in v for v in h.values()):
        del os.environ["MC_OTHER"]
        s.seen.clear()
        for source in ({u + "/sdl": {"headers": h}}, [{u + "/api": {"headers": h}}]):
            st.traces += 1
            try:
                build(d, source, doc, turms)
                out.append(("unset", "a header names a variable that is not set, but the code is generated"))
            except GenFailed:
                st.outcome("unset")
        if s.seen:
            out.append(("unset", "requests are sent although a header names a variable that is not set"))


def local(case, st, d, out):
    defs, doc = schema(())
    plain = "\n".join(defs)
    k = len(defs) // 2
    st.states += 1
    write_tree(d, {"a.graphql": "\n".join(defs[:k]), "b.graphql": "\n".join(defs[k:]), "none/x.txt": "", "broken.graphql": "type {", "cut.graphql": plain[:-20], "exec.graphql": "query A { a }", "empty.graphql": "", "hash.graphql": "# x", "odd.json": "{}", "list.json": "[]", "cut.json": json.dumps(introspection(plain))[:-9],
                   "data.json": json.dumps({"__schema": None}), "good.json": json.dumps(introspection(plain)), "undefined.graphql": plain.replace("scalar Stamp", ""), "noroot.graphql": plain.replace("type Query", "type Quark")})
    with open(os.path.join(d, "bytes.graphql"), "wb") as f:
        f.write(b'"""\xff"""' + plain.encode())
    p = lambda x: os.path.join(d, x)  # noqa
    bad = {x: p(x) for x in ("missing.graphql", "none", "none/*.graphql", "broken.graphql", "cut.graphql", "exec.graphql", "empty.graphql", "hash.graphql", "odd.json", "list.json", "cut.json", "data.json", "bytes.graphql", "undefined.graphql", "noroot.graphql", "a.graphql")}
    sources = {**bad, **{f"[{k}]": [v] for k, v in bad.items()}, **{f"[a, {k}]": [p("a.graphql"), v] for k, v in bad.items()}, **{f"[{k}, b]": [v, p("b.graphql")] for k, v in bad.items() if k != "a.graphql"}, "[good.json, b]": [p("good.json"), p("b.graphql")], "nothing": [], "no dict": {}, "number": 3, "null": None, "blank": ""}
    for name in list(sources):
        if "empty" in name or "hash" in name:
            if "[a" in name or ", b" in name:
                sources[name] = None if False else sources[name]
    for intro in (True, False):
        turms = {**SETS["client"](), "allow_introspection": intro}
        for name, source in list(sources.items()) + ([] if intro else [("introspection", p("good.json")), ("[introspection]", [p("good.json")])]):
            st.traces += 1
            try:
                build(d, source, doc, turms)
                out.append(("accepted", f"{name} (introspection {intro}): code is generated although the schema cannot be loaded"))
                st.outcome("local", name, "accepted")
            except GenFailed:
                st.outcome("local", name, "refused")
