"""C26: skipping unreferenced types drops exactly what nothing uses."""
import inspect
import itertools
from enum import Enum

from graphql import GraphQLEnumType, GraphQLInputObjectType, TypeInfo, TypeInfoVisitor, Visitor, build_schema, get_named_type, parse, type_from_ast, visit

from ..signature import difference, signature
from ..turmsio import GenFailed, LoadFailed, generate, loaded, plugins, stylers

ID = "C26"
LEVEL = "model_checking"
RULE = ("one case = one reference graph of input types with all its sets of used inputs, or one combination of places of a document; a state is one generated module; a transition is one edge of the reference graph followed by the reference computation; "
        "a trace is one comparison of the pruned module with the module that keeps everything; an evaluation is one type whose presence is compared with the independent reachability.")
BOUNDS = {
    "quick": "all reference graphs of 3 input types (512, self references and cycles included) x all sets of used ones, all graphs of 2 types that may be one-of inputs or unions, all pairs of 40 places that use an enum, settings of the three plugins, objects plugin alongside",
    "thorough": "all graphs of 3 types that may be one-of inputs or unions, all pairs of places with all settings, triples of 16 places",
}
ASSUMPTIONS = ["a fragment that no operation uses is generated and so uses its types", "types whose names start with an underscore are subject to another setting"]
CASE_TIMEOUT = 300
TASKS_PER_CHILD = 12

ALL = ("enums", "inputs", "fragments", "operations", "funcs", "input_funcs")
HEAD = "directive @unionElementOf(union: String!, discriminator: String!, key: String!) repeatable on INPUT_OBJECT directive @oneOf on INPUT_OBJECT "
USES = ("q(i: %s)", "%s!", "[%s]", "[[%s!]!]!")


def config(enums=True, inputs=True, funcs=True, objects=None, extra=(), style=()):
    p = [("enums", {"skip_unreferenced": enums}), ("inputs", {"skip_unreferenced": inputs, "skip_underscore": False})]
    p += ["objects"] if objects == "first" else []
    p += ["fragments", "operations", ("funcs", {"definitions": [{"type": t, "use": "mc.proxies." + u} for t, u in (("query", "query"), ("mutation", "mutate"), ("subscription", "subscribe"))], **dict(extra)}), ("input_funcs", {"skip_unreferenced": funcs})]
    p += ["objects"] if objects == "last" else []
    return {"plugins": plugins(*p), "stylers": stylers(*style)}


# ---------------------------------------------------------------- places of a document
# X stands for a field of the place's own enum, E for that enum
PLACES = {
    "root": "query A { X }", "mutation": "mutation A { X }", "subscription": "subscription A { X }", "alias": "query A { k: X }", "nested": "query A { t { X } }", "deep": "query A { t { t { ts { X } } } }", "list": "query A { ts { X } }", "listfield": "query A { t { lX } }",
    "interface": "query A { n { X } }", "interfacelist": "query A { ns { lX } }", "member": "query A { n { __typename ... on T { X } } }", "members": "query A { n { __typename id ... on T { id } ... on O { X } } }", "membernested": "query A { n { __typename ... on T { t { X } } } }", "memberinmember": "query A { n { __typename ... on T { n { __typename ... on O { X } } } } }",
    "union": "query A { u { ... on T { X } } }", "uniondeep": "query A { u { ... on O { id } ... on T { us { ... on O { X } } } } }", "unionlist": "query A { us { ... on T { lX } } }", "fragment": "query A { t { ...F } } fragment F on T { X }", "fragmentdeep": "query A { t { ...F } } fragment F on T { t { X } }", "unused": "query A { t { id } } fragment F on T { X }",
    "unuseddeep": "query A { t { id } } fragment F on T { ts { lX } }", "chain": "query A { t { ...F } } fragment F on T { t { ...G } } fragment G on T { X }", "fragmentinterface": "query A { n { ...F } } fragment F on N { X }", "fragmentmember": "query A { n { ...F } } fragment F on N { __typename id ... on T { X } }", "fragmentmemberdeep": "query A { n { ...F } } fragment F on N { __typename id ... on T { t { X } } }",
    "fragmentunion": "query A { u { ...F } } fragment F on U { ... on T { X } }", "fragmentmembermember": "query A { n { ...F } } fragment F on N { __typename ... on T { n { __typename ... on O { X } } } }", "spreadmember": "query A { n { __typename ... on T { ...F } } } fragment F on T { X }", "spreadinterface": "query A { n { __typename ...F } } fragment F on T { X }",
    "variable": "query A($e: E) { a(X: $e) }", "required": "query A($e: E!) { a(X: $e) }", "listvariable": "query A($e: [E!]) { l(X: $e) }", "default": "query A($e: E = RED) { a(X: $e) }", "nestedvariable": "query A($e: E) { t { a(X: $e) } }", "mutationvariable": "mutation A($e: E) { a(X: $e) }", "subscriptionvariable": "subscription A($e: E) { a(X: $e) }",
    "literal": "query A { a(X: RED) }", "nestedliteral": "query A { t { t { a(X: RED) } } }", "listliteral": "query A { l(X: [RED]) }", "inputliteral": "query A { i(i: {X: RED}) }", "inlineinline": "query A { n { __typename ... on M { mid ... on T { X } } } }", "fragmentinline": "query A { n { ...F } } fragment F on N { __typename ... on M { mid ... on T { X } } }",
    "operationinline": "query A { ... on Query { X } }", "conditional": "query A($c: Boolean!) { t { X @include(if: $c) } }", "inlineinterface": "query A { n { __typename ... on M { X } } }", "fragmentinlineinterface": "query A { n { ...F } } fragment F on N { __typename ... on M { X } }",
}
TRIPLES = ("nested", "memberinmember", "uniondeep", "fragmentdeep", "unuseddeep", "fragmentmemberdeep", "fragmentmembermember", "spreadinterface", "nestedvariable", "listvariable", "literal", "mutation", "chain", "inputliteral", "inlineinline", "fragmentinlineinterface")


def place_schema(n):
    xs = range(n)
    f = " ".join(f"x{k}: X{k} lx{k}: [[X{k}!]]!" for k in xs)
    args = "(" + " ".join(f"x{k}: X{k}" for k in xs) + ")"
    largs = "(" + " ".join(f"x{k}: [X{k}!]" for k in xs) + ")"
    return (" ".join(f"enum X{k} {{ RED GREEN{k} }}" for k in xs) + f" enum Never {{ A }} enum Inner {{ I }} input In {{ {' '.join(f'x{k}: X{k}' for k in xs)} e: Inner }} input NeverIn {{ e: Never n: NeverIn i: In }} interface N {{ id: Int {f} }} interface M implements N {{ id: Int mid: Int {f} }} union U = T | O "
            f"type T implements N & M {{ id: Int mid: Int {f} t: T ts: [T!]! n: N us: [U] a{args}: Int never: Never }} type O implements N {{ id: Int {f} never: [Never] }} "
            f"type Query {{ id: Int {f} t: T ts: [T] n: N ns: [N!] u: U us: [U!]! a{args}: Int l{largs}: Int i(i: In): Int }} type Mutation {{ id: Int {f} a{args}: Int }} type Subscription {{ id: Int {f} a{args}: Int }}")


def place_document(names):
    import re

    out = []
    for k, n in enumerate(names):
        text = PLACES[n].replace("lX", f"lx{k}").replace("GX", "GX")
        text = re.sub(r"\bX\b", f"x{k}", text)
        text = re.sub(r"\bE\b", f"X{k}", text)
        text = re.sub(r"\bA\b", f"A{k}", text)
        out.append(re.sub(r"\b(F|G)\b", rf"\g<1>{k}", text))
    return "\n".join(out)


# ---------------------------------------------------------------- reference graphs of input types

def graph_schema(kinds, edges):
    """kinds: p(lain), o(ne-of), u(nion); an edge from a union is a membership"""
    n = len(kinds)
    parts = [HEAD, "enum Never { N } input NeverIn { n: Never e: E0 i: I0 }"]
    args = []
    for i in range(n):
        dirs = "".join(f' @unionElementOf(union: "I{u}", discriminator: "kind{u}", key: "K{i}")' for u in range(n) if kinds[u] == "u" and (u, i) in edges and kinds[i] == "p")
        wraps = ("{}", "[{}!]", "[[{}]!]")
        fs = " ".join(f"to{j}: " + wraps[(i + j) % 3].format(f"I{j}") for j in range(n) if (i, j) in edges) if kinds[i] != "u" else ""
        parts.append(f"enum E{i} {{ V{i} }} input I{i}{dirs}{' @oneOf' if kinds[i] == 'o' else ''} {{ v: Int e: E{i} {fs} }}" if kinds[i] != "u" else f"enum E{i} {{ V{i} }} input I{i} {{ dummy: Int }}")
        args += [f"i{i}: I{i}", f"l{i}: [[I{i}!]!]"]
    parts.append(f"type Query {{ q({' '.join(args)}): Int }}")
    return "\n".join(parts)


def sound(kinds, edges):
    """unions have members, which are plain; one-of members have no reason to be excluded"""
    for u, k in enumerate(kinds):
        if k == "u":
            members = [j for i, j in edges if i == u]
            if not members or any(kinds[j] != "p" for j in members):
                return False
    return True


def graphs(n):
    pairs = list(itertools.product(range(n), repeat=2))
    for bits in range(1 << len(pairs)):
        yield [p for b, p in enumerate(pairs) if bits >> b & 1]


SETTINGS = [(True, True, True), (False, True, True), (True, False, True), (True, True, False), (True, False, False), (False, False, False)]


def cases(tier):
    deep = tier == "thorough"
    for i, e in enumerate(graphs(3)):
        yield {"key": f"graph:ppp:{i}", "kinds": "ppp", "edges": e, "deep": deep, "settings": SETTINGS if deep else [SETTINGS[i % 5]]}
    for n in (2, 3) if deep else (2,):
        for kinds in itertools.product("pou", repeat=n):
            if set(kinds) == {"p"}:
                continue
            for i, e in enumerate(graphs(n)):
                if sound(kinds, e):
                    yield {"key": f"graph:{''.join(kinds)}:{i}", "kinds": "".join(kinds), "edges": e, "settings": SETTINGS[:3] if n == 3 else SETTINGS}
    if not deep:
        for kinds in itertools.product("pou", repeat=3):
            if set(kinds) == {"p"}:
                continue
            for i, e in enumerate(graphs(3)):
                if i % 16 == 5 and sound(kinds, e):
                    yield {"key": f"graph:{''.join(kinds)}:{i}", "kinds": "".join(kinds), "edges": e, "settings": SETTINGS[:1]}
    for a in PLACES:
        for s in SETTINGS:
            for objects in (None, "first", "last"):
                yield {"key": f"place:{a}:{s}:{objects}", "places": [a], "settings": [s], "objects": objects}
        for b in PLACES:
            if not deep and (list(PLACES).index(a) + list(PLACES).index(b)) % 2 == (a < b):
                continue
            yield {"key": f"places:{a}:{b}", "places": [a, b], "settings": SETTINGS if deep else SETTINGS[:1], "objects": None}
    for j, style in enumerate((("capitalize", "snake"), ("appender",), ("default",))):
        for k, a in enumerate(PLACES):
            if not deep and k % 3 != j:
                continue
            yield {"key": f"styled:{a}:{style[0]}", "places": [a, "nested"], "settings": [SETTINGS[0]], "objects": None, "style": style}
    if deep:
        for t in itertools.permutations(TRIPLES, 3):
            yield {"key": f"triple:{':'.join(t)}", "places": t, "settings": SETTINGS[:1], "objects": None}


# ---------------------------------------------------------------- the independent reachability

def unions_of(schema):
    """members of a union, read from the declarations"""
    out = {}
    for t in schema.type_map.values():
        if isinstance(t, GraphQLInputObjectType) and t.ast_node:
            for d in t.ast_node.directives:
                if d.name.value == "unionElementOf":
                    out.setdefault(next(a.value.value for a in d.arguments if a.name.value == "union"), set()).add(t.name)
    return out


def closure(schema, todo, st):
    unions, inputs, enums = unions_of(schema), set(), set()
    todo = list(todo)
    while todo:
        t = todo.pop()
        if isinstance(t, GraphQLEnumType):
            enums.add(t.name)
        elif isinstance(t, GraphQLInputObjectType) and t.name not in inputs:
            inputs.add(t.name)
            if t.name in unions:
                todo += [schema.get_type(m) for m in unions[t.name]]
            else:
                todo += [get_named_type(f.type) for f in t.fields.values()]
            st.transitions += 1
    return inputs, enums


def used(schema, document):
    """the types that the operations and fragments of a document speak of"""
    found = []
    info = TypeInfo(schema)

    class V(Visitor):
        def enter_field(self, node, *_):
            found.append(get_named_type(info.get_type()))

        def enter_variable_definition(self, node, *_):
            found.append(get_named_type(type_from_ast(schema, node.type)))

    visit(parse(document), TypeInfoVisitor(info, V()))
    return found


def expected(schema, document, setting, objects, st):
    enums_pruned, inputs_pruned, _ = setting
    own = {n for n in schema.type_map if not n.startswith("__")}
    all_inputs = {n for n in own if isinstance(schema.type_map[n], GraphQLInputObjectType)}
    all_enums = {n for n in own if isinstance(schema.type_map[n], GraphQLEnumType)}
    inputs, enums = closure(schema, used(schema, document), st)
    if not inputs_pruned:
        inputs = all_inputs
    # (the fields of what is generated anyway need their enums)
    enums |= closure(schema, [schema.type_map[n] for n in inputs], st)[1] if not inputs_pruned else set()
    if objects:
        for n in own:
            t = schema.type_map[n]
            if hasattr(t, "fields") and not isinstance(t, GraphQLInputObjectType):
                enums |= {get_named_type(f.type).name for f in t.fields.values() if isinstance(get_named_type(f.type), GraphQLEnumType)}
    return inputs, enums if enums_pruned else all_enums


def name_of(n, style, kind):
    return n


def run(case, st):
    out = []
    if "places" in case:
        sdl = place_schema(len(case["places"]))
        docs = [place_document(case["places"])]
    else:
        sdl = graph_schema(case["kinds"], [tuple(e) for e in case["edges"]])
        n = len(case["kinds"])
        docs = []
        for r in range(1, 1 << n):
            use = [i for i in range(n) if r >> i & 1]
            decl = " ".join(f"${'il'[(i + r) % 2]}{i}: {('I%d', '[[I%d!]!]')[(i + r) % 2] % i}" for i in use)
            args = " ".join(f"{'il'[(i + r) % 2]}{i}: ${'il'[(i + r) % 2]}{i}" for i in use)
            docs.append(f"query A({decl}) {{ q({args}) }}")
    schema = build_schema(sdl)
    style = tuple(case.get("style", ()))
    objects = case.get("objects")
    for at, doc in enumerate(docs):
        whole = None
        for setting in case["settings"]:
            setting = tuple(setting)
            try:
                code = generate(sdl, doc, config(*setting, objects=objects, style=style))
            except GenFailed as e:
                if whole is None:
                    try:
                        generate(sdl, doc, config(False, False, False, objects=objects, style=style))
                    except GenFailed:
                        st.outcome("refused either way")
                        continue
                out.append(("refused", f"{setting} {doc[:150]}: {str(e)[:200]}"))
                continue
            st.states += 1
            # (which of a dense graph's modules are compared as a whole)
            whole_too = case.get("deep") or case.get("kinds") != "ppp" or (at + len(case["edges"])) % 3 == 0
            try:
                with loaded(code) as mod:
                    judge(mod, schema, doc, setting, objects, style, st, out)
                    mine = signature(mod) if whole_too else None
            except LoadFailed as e:
                out.append(("import", f"{setting} {doc[:150]}: {str(e)[:200]}"))
                continue
            if mine is None:
                continue
            if whole is None:
                with loaded(generate(sdl, doc, config(False, False, False, objects=objects, style=style))) as mod:
                    whole = signature(mod)
            st.traces += 1
            reached = expected(schema, doc, setting, objects, st)[0]
            # (a member of a union that nothing uses needs no discriminator)
            apart = {m for u, ms in unions_of(schema).items() if u not in reached for m in ms}
            d = compare({k: v for k, v in mine.items() if k.split(".")[0] not in apart}, whole)
            if d:
                out.append(("behaviour", f"{setting} {doc[:150]}: {d}"))
    return out[:12]


def compare(mine, whole):
    missing = [k for k in mine if k not in whole]
    if missing:
        return f"only the pruned module has {missing[:3]}"
    return difference(mine, {k: v for k, v in whole.items() if k in mine})


def judge(mod, schema, doc, setting, objects, style, st, out):
    inputs, enums = expected(schema, doc, setting, objects, st)
    names = {n for n, v in vars(mod).items()}
    for n, t in schema.type_map.items():
        if n.startswith("__") or not isinstance(t, (GraphQLEnumType, GraphQLInputObjectType)):
            continue
        st.evals += 1
        is_enum = isinstance(t, GraphQLEnumType)
        want = n in (enums if is_enum else inputs)
        cands = [n + "Input"] if style == ("appender",) and not is_enum else [n]
        got = any(c in names and (not is_enum or (inspect.isclass(getattr(mod, c)) and issubclass(getattr(mod, c), Enum))) for c in cands)
        st.outcome("enum" if is_enum else "input", str(setting), str(want))
        if want and not got:
            out.append(("dropped", f"{setting} {doc[:160]}: {n} is used, but not generated"))
        if got and not want:
            out.append(("kept", f"{setting} {doc[:160]}: {n} is generated, although nothing uses it"))
