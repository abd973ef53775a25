"""Exhaustive enumeration of GraphQL documents by cost, over the ZOO schema.

A selection is a tree; every tree up to a cost bound is enumerated.  Leaf = 1, a field with a
selection = 1 + selection, inline fragment / fragment spread = 1 + body.  Identical fragment bodies
share one definition, so reuse of a fragment in several places is part of the space.

What is left out (`supported`): the constructs the generator refuses or has recorded findings for
(DESIGN.md lists them); each of those has its own designated probe cases.
"""
from functools import lru_cache

from graphql import (
    FieldNode,
    FragmentDefinitionNode,
    FragmentSpreadNode,
    GraphQLInterfaceType,
    GraphQLObjectType,
    GraphQLUnionType,
    InlineFragmentNode,
    build_schema,
    get_named_type,
    parse,
    validate,
)

ZOO = '''
"the colors"
enum Color { RED GREEN }
scalar Date
"a thing"
interface Node { id: ID! name: String owner: Person tags: [String!] }
interface Animal implements Node { id: ID! name: String owner: Person tags: [String!] legs: Int! }
"a dog"
type Dog implements Node & Animal { id: ID! name: String owner: Person tags: [String!] legs: Int!
  barks: Boolean! color: Color friend: Pet bestFriend: Animal buddy: Dog }
type Cat implements Node & Animal { id: ID! name: String owner: Person tags: [String!] legs: Int!
  meows: Int mood: Color! rival: Node }
type Fish implements Node { id: ID! name: String owner: Person tags: [String!] fin: Int! tank: Person }
union Pet = Dog | Cat | Fish
type Person {
  id: ID! firstName: String from: String class: Int! age: Int height: Float alive: Boolean!
  "when born" born: Date color: Color! colors: [Color!]! grid: [[Int!]]! nicks: [String]
  birthDay: Date! oldName: String @deprecated(reason: "gone")
  dog: Dog! cat: Cat pets: [Pet!]! pet: Pet node: Node nodes: [Node!]! animal: Animal!
  boss: Person team: [Person] say(x: Int, y: [Int!] = [1]): String
}
type Query {
  me: Person! person(id: ID): Person people: [Person!]! node(id: ID): Node nodes: [Node]!
  pet: Pet! pets: [[Pet!]!] dog: Dog animal: Animal color: Color! when: Date count: Int! words: [String!]
}
type Mutation { rename(id: ID, name: String): Person! touch: Int }
type Subscription { ticked: Int! changed: Person! }
'''
ZOO_SCHEMA = build_schema(ZOO)
SCALARDEF = {"Date": "datetime.date"}

# structural alphabet: (leaf fields, composite fields, inline conditions, fragment conditions)
ALPHA = {
    "Person": (["firstName", "id"], ["dog", "node", "pet", "team", "nodes"], [], ["Person"]),
    "Dog": (["barks", "name"], ["owner", "friend"], [], ["Dog", "Node"]),
    "Cat": (["meows"], ["rival"], [], ["Cat"]),
    "Fish": (["fin"], [], [], ["Fish"]),
    "Node": (["name", "id"], ["owner"], ["Dog", "Cat"], ["Node", "Dog"]),
    "Animal": (["legs"], [], ["Dog"], ["Node", "Cat"]),
    "Pet": (["__typename"], [], ["Dog", "Cat", "Fish"], ["Pet", "Dog", "Node"]),
    "Query": (["count"], ["me", "node", "pet", "dog", "people", "nodes", "pets"], [], []),
}
SMALL = {
    "Person": (["firstName"], ["dog", "node", "pet"], [], ["Person"]),
    "Dog": (["barks"], ["owner"], [], ["Dog", "Node"]),
    "Cat": (["meows"], [], [], []),
    "Fish": (["fin"], [], [], []),
    "Node": (["name"], ["owner"], ["Dog"], ["Node", "Dog"]),
    "Animal": (["legs"], [], ["Dog"], ["Node"]),
    "Pet": (["__typename"], [], ["Dog", "Cat"], ["Pet", "Dog"]),
    "Query": (["count"], ["me", "node", "pet"], [], []),
}


def field_type(t, name):
    return get_named_type(ZOO_SCHEMA.type_map[t].fields[name].type).name


def space(alpha):
    """-> sel(type, budget): tuple of (cost, items) for every selection of that cost or less."""

    @lru_cache(None)
    def items(t, b):
        leaves, comps, inl, frags = alpha[t]
        out = []
        if b >= 1:
            out += [(1, ("leaf", x)) for x in leaves]
        if b >= 2:
            for x in comps:
                out += [(1 + c, ("field", x, s)) for c, s in sel(field_type(t, x), b - 1)]
            for x in inl:
                out += [(1 + c, ("inline", x, s)) for c, s in sel(x, b - 1)]
            for x in frags:
                out += [(1 + c, ("spread", x, s)) for c, s in sel(x, b - 1)]
        return tuple(out)

    def key(it):  # two items with one key may not stand side by side (merging is another space)
        return it[:2] if it[0] in ("leaf", "field", "inline") else ("spread",) + it[1:]

    @lru_cache(None)
    def sel(t, b):
        out = []
        its = items(t, b)

        def rec(start, left, acc, cost):
            if acc:
                out.append((cost, tuple(acc)))
            if len(acc) >= 3:
                return
            for i in range(start, len(its)):
                c, it = its[i]
                if c <= left and all(key(it) != key(a) for a in acc):
                    acc.append(it)
                    rec(i + 1, left - c, acc, cost + c)
                    acc.pop()

        rec(0, b, [], 0)
        return tuple(out)

    return sel


FRAG_NAMES = {
    "plain": lambda i, t: f"{t}Frag{'ABCDEFGH'[i]}",
    "lower": lambda i, t: f"{t[0].lower()}{t[1:]}_fields{i}",
    "tricky": lambda i, t: ["on_x1", "Fragment", "q2q", "_under", "A1", "A", "fragment_x", "typename"][i],
}


def render(selection, reverse=False, names="plain", alias=None):
    """-> (selection text, {fragment name: (condition, text)})"""
    frags = {}  # (cond, body text) -> name

    def go(sel):
        parts = []
        for it in (reversed(sel) if reverse else sel):
            if it[0] == "leaf":
                n = it[1]
                parts.append(f"{alias}_{n}: {n}" if alias and n != "__typename" else n)
            elif it[0] == "field":
                n = f"{alias}_{it[1]}: {it[1]}" if alias else it[1]
                parts.append(f"{n} {{ {go(it[2])} }}")
            elif it[0] == "inline":
                parts.append(f"... on {it[1]} {{ {go(it[2])} }}")
            else:
                body = go(it[2])
                k = (it[1], body)
                if k not in frags:
                    frags[k] = FRAG_NAMES[names](len(frags), it[1])
                parts.append("..." + frags[k])
        return " ".join(parts)

    text = go(selection)
    return text, {v: k for k, v in frags.items()}


def fragment_text(frags, order="deps"):
    defs = [f"fragment {n} on {c} {{ {b} }}" for n, (c, b) in frags.items()]
    return defs if order == "deps" else defs[::-1]


def document(selection, op="query Get", order="after", **kw):
    text, frags = render(selection, **kw)
    defs = fragment_text(frags)
    o = f"{op} {{ {text} }}"
    if order == "after":
        return "\n".join([o] + defs[::-1])
    return "\n".join(defs + [o])


# ------------------------------------------------------------------ the supported language
class Unsupported(Exception):
    pass


def possible(schema, t):
    return [t] if isinstance(t, GraphQLObjectType) else list(schema.get_possible_types(t))


def supported(schema, text):
    """None, or why the document is outside the space the property is claimed for."""
    ast = parse(text)
    frags = {d.name.value: d for d in ast.definitions if isinstance(d, FragmentDefinitionNode)}

    def contributions(selset, runtime, out):
        """response key -> [field nodes] for a runtime type, with multiplicity"""
        for s in selset.selections:
            if isinstance(s, FieldNode):
                out.setdefault(s.alias.value if s.alias else s.name.value, []).append(s)
            else:
                if isinstance(s, InlineFragmentNode):
                    cond, sub = s.type_condition, s.selection_set
                else:
                    f = frags[s.name.value]
                    cond, sub = f.type_condition, f.selection_set
                if cond is None:
                    raise Unsupported("inline fragment without type condition")
                if runtime in possible(schema, schema.type_map[cond.name.value]):
                    contributions(sub, runtime, out)
        return out

    def covers(s):
        cond = s.type_condition if isinstance(s, InlineFragmentNode) else frags[s.name.value].type_condition
        return possible(schema, schema.type_map[cond.name.value])

    def walk(t, selset):
        for s in selset.selections:
            cond = None
            if isinstance(s, FieldNode):
                if s.name.value == "__typename" and s.alias:
                    raise Unsupported("aliased __typename")
            elif isinstance(s, InlineFragmentNode):
                if s.type_condition is None:
                    raise Unsupported("inline fragment without type condition")
                cond = schema.type_map[s.type_condition.name.value]
                if isinstance(t, GraphQLObjectType):
                    raise Unsupported("inline fragment on an object")
                if not isinstance(cond, GraphQLObjectType):
                    raise Unsupported("inline fragment on an abstract type")
                if any(isinstance(x, InlineFragmentNode) for x in s.selection_set.selections):
                    raise Unsupported("inline fragment on an object")
            else:
                cond = schema.type_map[frags[s.name.value].type_condition.name.value]
                if isinstance(cond, GraphQLUnionType) and not isinstance(t, GraphQLUnionType):
                    raise Unsupported("union fragment outside a union")
        if isinstance(t, GraphQLUnionType):
            subs = [s for s in selset.selections if not isinstance(s, FieldNode)]
            for m in possible(schema, t):
                if sum(m in covers(s) for s in subs) > 1:
                    raise Unsupported("one union member selected twice")
        # merged subselections
        for m in possible(schema, t):
            for k, nodes in contributions(selset, m, {}).items():
                if len(nodes) > 1 and nodes[0].selection_set:
                    raise Unsupported("merged selections of one field")
        for s in selset.selections:
            if isinstance(s, FieldNode):
                if s.selection_set:
                    walk(get_named_type(t.fields[s.name.value].type), s.selection_set)
            elif isinstance(s, InlineFragmentNode):
                walk(schema.type_map[s.type_condition.name.value], s.selection_set)

    try:
        for d in ast.definitions:
            if isinstance(d, FragmentDefinitionNode):
                walk(schema.type_map[d.type_condition.name.value], d.selection_set)
            else:
                root = {"query": schema.query_type, "mutation": schema.mutation_type,
                        "subscription": schema.subscription_type}[d.operation.value]
                for s in d.selection_set.selections:
                    if not isinstance(s, FieldNode) or s.name.value == "__typename":
                        raise Unsupported("fragment or __typename at the root")
                walk(root, d.selection_set)
    except Unsupported as e:
        return str(e)
    return None


def documents(alpha, cost, roots=None, schema=ZOO_SCHEMA, **kw):
    """Every valid supported document of that cost or less (canonical order)."""
    sel = space(alpha)
    seen = set()
    for c, s in sel("Query", cost):
        if roots and not all(i[1] in roots for i in s):
            continue
        text = document(s, **kw)
        if text in seen:
            continue
        seen.add(text)
        if supported(schema, text) is None and not validate(schema, parse(text)):
            yield c, text
