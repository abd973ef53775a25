"""C02: responses that do not conform to the schema are refused."""
from ..docs import ALPHA, SMALL, ZOO, documents
from ..roundtrip import negatives, with_module
from .c01 import LEAF, SUB, WRAP, conf, leaf_sdl

ID = "C02"
LEVEL = "model_checking"
RULE = ("one case = one document and configuration, generated by the real generator; for every explored response of the "
        "reference server every single-point corruption (distinct by path, type, runtime types and corruption) is "
        "replayed against the generated model, which must raise a validation error. Outcomes are distinct "
        "(corruption, position kind, type) triples that were refused.")
BOUNDS = {
    "quick": "documents: cost<=4 full alphabet, <=5 small alphabet, all leaf kinds x 9 list/null wrappers; responses: <=1 deviation; all single-point corruptions",
    "thorough": "documents: cost<=5 full alphabet, <=6 small; responses: <=2 deviations; all single-point corruptions",
}
ASSUMPTIONS = ["with the catch-all enabled an interface deliberately accepts what no known type matches, so corruptions "
               "below interfaces are judged with the catch-all disabled"]


def cases(tier):
    full, small = (4, 5) if tier == "quick" else (5, 6)
    dev = 1 if tier == "quick" else 2
    seen = set()
    for alpha, cost in ((ALPHA, full), (SMALL, small)):
        for c, d in documents(alpha, cost):
            if d not in seen:
                seen.add(d)
                yield {"key": f"doc:{d}", "kind": "zoo", "doc": d, "style": "snake", "dev": dev, "cfg": {"create_catchall": False}}
    for variant, kw in (("rev", dict(reverse=True)), ("alias", dict(alias="myAlias"))):
        for c, d in documents(SMALL, 4 if tier == "quick" else 5, **kw):
            for style in ("append", "none"):
                yield {"key": f"{variant}:{style}:{d}", "kind": "zoo", "doc": d, "style": style, "dev": 1, "cfg": {"create_catchall": False}}
    # no interface involved: the same with the default configuration
    for c, d in documents(SMALL, 5, roots={"me", "pet", "count"}):
        if "node" not in d and "on Node" not in d:
            yield {"key": f"default:{d}", "kind": "zoo", "doc": d, "style": "none", "dev": 1, "cfg": {}}
    for leaf in LEAF:
        for w in WRAP:
            t = w.format(leaf)
            for style in ("none", "snake"):
                for cfg in ({"create_catchall": False}, {"create_catchall": False, "freeze": {"enabled": True}}):
                    sub = SUB.get(leaf, "")
                    yield {"key": f"leaf:{t}:{style}:{len(cfg)}", "kind": "sdl", "sdl": leaf_sdl(t), "style": style, "dev": 2, "cfg": cfg,
                           "doc": f"query Get {{ top {sub} wrap {{ a {sub} other }} }}"}
    for opk, sel in (("query", "count"), ("query", "words"), ("mutation", "touch"), ("mutation", "rename { id }"),
                     ("subscription", "ticked"), ("subscription", "changed { id pet { ... on Fish { fin } } }")):
        yield {"key": f"op:{opk}:{sel}", "kind": "zoo", "style": "snake", "dev": dev, "cfg": {"create_catchall": False},
               "doc": f"{opk} Get {{ {sel} }}"}


def run(case, st):
    sdl = ZOO if case["kind"] == "zoo" else case["sdl"]
    st.programs += 1
    return with_module(sdl, case["doc"], conf(case["style"], **case["cfg"]),
                       lambda mod, schema, user: negatives(mod, schema, user, st, case["dev"]))
