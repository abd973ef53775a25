"""Writes properties.jsonl and MANIFEST.json from the texts below (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"

R, REC, OBJ = "turms/registry.py", "turms/recurse.py", "turms/plugins/objects.py"
OPS, FRG, INP = "turms/plugins/operations.py", "turms/plugins/fragments.py", "turms/plugins/inputs.py"
INF, FUN, ENU = "turms/plugins/input_funcs.py", "turms/plugins/funcs.py", "turms/plugins/enums.py"
STR, RUN, CLI = "turms/plugins/strawberry.py", "turms/run.py", "turms/cli/main.py"
UTL, CFG, HLP, REF = "turms/utils.py", "turms/config.py", "turms/helpers.py", "turms/referencer.py"
MRG, WAT = "turms/processors/merge.py", "turms/cli/watch.py"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism, observe, technique, level note
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


prop("C01", "Every response a conforming server can give is parsed, without loss",
     "For every supported document and schema, each response a specification-conforming server can give to the "
     "generated operation is accepted by the generated model, and dumping that model (JSON, by alias) gives the "
     "response back. This holds for every null/list/leaf combination, alias, reserved-word name, fragment and "
     "runtime type.",
     ["programs", "inputs"],
     "all documents up to a cost over a schema with objects, interfaces, unions, lists and custom scalars; all "
     "responses of the reference server with a bounded number of deviations from the default answer",
     "the tests build the models of a handful of documents and feed one or two hand-written responses; the guarantee "
     "ranges over the product of document shapes and server answers",
     [REC, OPS, FRG, R, UTL],
     [("field annotation recursion", REC), ("fragment base classes", FRG), ("name styling and aliasing", R)],
     ["model_validate / model_dump of the generated operation class"],
     "bounded exhaustive enumeration of documents and of all server answers (choice-tree exploration of a reference server) replayed on the generated models",
     "complete within the stated document cost and response deviation bounds; trusts pydantic and the reference response model")

prop("C02", "Responses that do not conform to the schema are refused",
     "A response that departs from the schema in one place (null or missing for a non-null position, a list for a "
     "single value or the reverse, an undeclared enum value, a value of the wrong scalar type, an unknown concrete "
     "type without a catch-all) is rejected by the generated model with a validation error. It never passes silently.",
     ["programs", "inputs"],
     "every single-point corruption of every response of the reference server, for all documents up to a cost",
     "tests check that valid data loads; hardly any feed invalid data, and none at every position",
     [REC, OPS, FRG, R],
     [("non-null types are required fields", REC), ("Literal discriminators", UTL), ("enum classes", ENU)],
     ["ValidationError from the generated operation class"],
     "bounded exhaustive enumeration: every single-point mutation of every explored response replayed on the generated models",
     "complete for the listed corruption kinds within the document/response bounds")

prop("C03", "Interface and union results become exactly the concrete type's model",
     "A result of interface or union type is read into a model carrying exactly the fields selected for its runtime "
     "type (shared selections plus matching fragments), whatever the order of fragments and of selected types. With "
     "the catch-all enabled, types a selection has no fields for, and types unknown to the schema under an interface, "
     "are read into a model that keeps the shared fields; without it an unknown type is refused.",
     ["programs", "inputs", "configurations"],
     "all selections up to a cost on interfaces, unions and lists of them, x all runtime types incl. unknown ones, x catch-all on/off",
     "the dispatch depends on the interplay of selection, member order and class order; tests sample a few schemas",
     [REC, FRG, R, UTL],
     [("discriminated unions of per-type classes", REC), ("catch-all classes", REC), ("interface fragments", FRG)],
     ["the concrete class, typename and attributes of the parsed value"],
     "bounded exhaustive enumeration of abstract selections x runtime types, judged by an independent field-collection model",
     "complete within the stated bounds")

prop("C04", "The document sent is the user's operation plus the fragments it needs",
     "The document text attached to a generated operation is valid against the schema, contains the user's operation "
     "and exactly its transitively used fragments, each once, and selects for every runtime type what the user "
     "selected, with the same arguments, variables, directives and aliases. Nothing is added to it but the type "
     "discriminator.",
     ["programs"],
     "all documents up to a cost, with arguments, directives, variables and nested fragments spread over several files",
     "tests compare some snapshots; fragment collection and discriminator insertion depend on nesting depth, naming and order",
     [OPS, FRG, UTL, R],
     [("fragment document map", R), ("discriminator insertion", UTL), ("document of an operation", OPS)],
     ["the document text of the generated operation class"],
     "bounded exhaustive enumeration of documents; the sent document is compared with the user's by an independent field-collection semantics over every runtime type",
     "complete within the stated bounds")

prop("C05", "Operation variables are sent by their GraphQL name and only when provided",
     "The generated argument model of an operation accepts every combination of provided, null and omitted variables "
     "the schema allows, refuses a missing required variable, and serialises exactly the provided ones under the exact "
     "GraphQL variable names, so that the values the server coerces are the ones the caller gave. Variables with a default value may be omitted; the default is "
     "never baked into what is sent.",
     ["programs", "inputs", "configurations"],
     "all variable types up to a nesting depth x default values x names (reserved words, mixed case) x all assignments of omitted / null / value",
     "tests look at single variables; the contract is a product of types, wrappers, names, stylers and presence",
     [OPS, R, UTL],
     [("Arguments model", OPS), ("type annotation of variables", UTL), ("aliasing of parameter names", R)],
     ["serialised variables of the generated argument model, coerced by a reference server"],
     "bounded exhaustive enumeration of variable declarations and presence assignments; the sent variables are judged by reference variable coercion",
     "complete within the stated bounds; trusts graphql-core's coercion")

prop("C06", "Input objects are sent exactly as given and refuse what the schema refuses",
     "For every input object type, constructing the generated model with any schema-conforming subset of its fields "
     "and dumping what was set gives exactly these fields under their GraphQL names with values that coerce back to "
     "the same input; missing required fields and wrongly typed values are refused. Recursive, nested and list-wrapped "
     "input types are included.",
     ["programs", "inputs", "configurations"],
     "all input types up to a nesting depth x wrappers x names x all presence assignments",
     "tests check a few classes; required/optional/default/recursive/renamed fields multiply",
     [INP, R], [("input model generation", INP), ("forward references", R)],
     ["model_dump(by_alias, exclude_unset) of the generated input class"],
     "bounded exhaustive enumeration of input types and presence assignments against reference input coercion",
     "complete within the stated bounds")

prop("C07", "Tagged inputs are sent in their one legal wire form",
     "A one-of input type is generated so that every legal member has exactly one wire form carrying that single "
     "field, and no model can be built that sends none or several fields. An input split into a discriminated union "
     "sends the discriminator and exactly the fields of the chosen member, whichever way the value is built or parsed, and inconsistent "
     "directive declarations are refused when generating.",
     ["programs", "inputs", "configurations"],
     "all one-of and union-element declarations over a small schema alphabet x all member values x all invalid field combinations",
     "the legal and illegal field combinations are exponential in the members; tests check one example each",
     [INP, R], [("one-of classes", INP), ("union elements", INP)],
     ["what the generated model accepts and dumps; generation errors"],
     "bounded exhaustive enumeration of declarations and of all field subsets, judged against the directive's definition",
     "complete within the stated bounds")

prop("C08", "Operation functions forward exactly the arguments they were given",
     "Calling a generated sync, async or subscription function hands the configured proxy the operation class and "
     "exactly the variables the caller passed, under their GraphQL names, plus the configured extra arguments; an "
     "argument the caller left out is not sent, while an explicit null is. The function returns (or yields) the "
     "proxy's result, unwrapped to the single root field where collapsing is configured, and its signature demands exactly the required variables.",
     ["programs", "inputs", "configurations"],
     "all signatures up to a size x function kinds x configuration flags x all call shapes",
     "unset-vs-null, defaults, renaming, coercion and collapsing interact; tests run a few calls",
     [FUN, R, UTL], [("function generation", FUN), ("unset sentinel", R), ("argument filtering", FUN)],
     ["the calls a recording proxy receives, and what the function returns"],
     "bounded exhaustive enumeration of operations, configurations and call shapes against a recording proxy",
     "complete within the stated bounds")

prop("C09", "Input factories and expanded inputs build the same input as the model",
     "A generated factory for an input type, and a function whose input object is expanded into parameters, produce "
     "exactly the wire value that building the input model directly with the same fields would produce, for every "
     "choice of provided, null and omitted fields. They demand exactly the fields the schema requires.",
     ["programs", "inputs", "configurations"],
     "all input types of the alphabet x all presence assignments x configuration flags",
     "equality has to hold over every subset of fields and naming style; tests call a factory once",
     [INF, FUN, INP], [("input factories", INF), ("input expansion", FUN)],
     ["dump of the factory's result / variables a recording proxy receives"],
     "bounded exhaustive enumeration; factory and model are run side by side on every presence assignment",
     "complete within the stated bounds")

prop("C10", "Generated code does not depend on how documents and schema are split or ordered",
     "Spreading the same operations and fragments over any number of files in any order, and reordering or splitting "
     "the schema's definitions over files, yields modules with the same observable behaviour: same classes, fields, "
     "documents and functions. Files are never glued together so that their meaning changes.",
     ["inputs", "configurations"],
     "all permutations and set partitions into files of a set of definitions, with and without trailing newline or comments",
     "tests use one layout per document set; order dependence only shows in particular permutations",
     [UTL, HLP, RUN, FRG], [("document loading", UTL), ("fragment ordering", FRG), ("schema loading", HLP)],
     ["the generated module"],
     "bounded exhaustive enumeration of file partitions and definition orders; generated modules compared by a canonical behavioural description",
     "complete for the stated definition sets")

prop("C11", "Generation is deterministic",
     "Generating twice from the same project gives byte-identical output, in the same process or another, whatever "
     "the hash seed, the directory listing order, the locale, the time zone or what was generated before.",
     ["schedules", "histories", "configurations"],
     "all orders of small project sequences in one process, several hash seeds, all directory listing orders, locales",
     "a test run sees a single hash seed, file system and history",
     [R, RUN, UTL], [("ordered imports", R), ("registry per generation", RUN)],
     ["bytes of the generated files"],
     "bounded exhaustive enumeration of process histories, listing orders, hash seeds and locales with byte comparison",
     "hash seeds are a bounded set; histories and listing orders are complete within bounds")

prop("C12", "Enums round-trip every declared value and nothing else",
     "Each generated enum has exactly the schema's values; each response value parses to the member of that value and "
     "each member serialises to exactly its GraphQL name, whatever the name (reserved words, mixed case) and wherever the enum "
     "is used. Undeclared values are refused.",
     ["programs", "inputs", "configurations"],
     "all enums over a name alphabet x usage positions x stylers/options",
     "tests use friendly names; keywords, underscores, builtin names and prefixes only break in particular combinations",
     [ENU, R], [("enum generation", ENU)],
     ["generated enum classes, models and arguments using them"],
     "bounded exhaustive enumeration of enum declarations and usages with round trip of every value",
     "complete within the stated name alphabet")

prop("C13", "Styling renames Python names only, never what goes over the wire",
     "For every sequence of stylers, the documents, variable names, input field names and accepted responses are the "
     "same as without stylers. Only Python identifiers differ, and a styled name never makes one field overwrite another.",
     ["programs", "configurations"],
     "all sequences of the shipped stylers up to length 3 with their options x documents x names",
     "tests apply one or two styler lists to one schema",
     ["turms/stylers", R], [("stylers", "turms/stylers"), ("aliases", R)],
     ["documents, dumps and parses of the generated module under every styler sequence"],
     "bounded exhaustive enumeration of styler sequences; wire behaviour compared with the unstyled module",
     "complete for styler sequences of the stated length")

prop("C14", "Freezing and model options reach exactly the configured kinds and types",
     "With freezing or model options enabled, every generated model of the enabled kinds that the include/exclude "
     "lists select is immutable, hashable (where configured lists become tuples) or carries the configured option, and "
     "no other model becomes immutable or carries the option. This holds for nested, fragment and per-type variant classes alike.",
     ["configurations", "programs"],
     "all combinations of kinds, include and exclude lists, list conversion and options over a document that has every class kind",
     "tests switch a flag on and look at one class; exactness needs every class under every combination",
     [R, REC, OPS, FRG, INP, OBJ, CFG], [("freeze and options", CFG), ("model config", R)],
     ["mutability, hashability and model_config of every generated class"],
     "bounded exhaustive enumeration of configuration combinations over all generated classes",
     "complete within the stated configuration alphabet")

prop("C15", "Configured bases and traits are inherited by every class of their type",
     "A base class configured globally or per kind, an additional base configured for a GraphQL type, and a trait of an "
     "interface are inherited by every model generated for that type (nested selections, fragments, per-type "
     "variants, inputs, objects) and by no unrelated one. The module still imports whatever fragments are combined, "
     "as long as the configured traits themselves can be combined in one order. Traits of a union's name carry no promise.",
     ["configurations", "programs"],
     "all documents up to a cost x base configurations",
     "base lists are assembled on many paths; linearisation conflicts show only in particular fragment combinations",
     [REC, FRG, OPS, INP, OBJ, R], [("additional bases", REC), ("interface traits", OBJ)],
     ["the method resolution order of every generated class"],
     "bounded exhaustive enumeration of documents and base configurations; MROs compared with the types the selection produces",
     "complete within the stated bounds")

prop("C16", "Merging a regeneration never loses user code and converges",
     "Regenerating into an existing file with a merging writer keeps everything the user added (classes, methods, "
     "fields, functions, statements, imports, comments at top and bottom), brings in everything newly generated, and "
     "leaves an importable module. Regenerating again without changes changes nothing.",
     ["histories"],
     "all histories of user edits and schema changes up to a depth, each followed by a regeneration",
     "tests merge one pair of files; losses appear after particular edit/regenerate sequences",
     ["turms/mergers"], [("merge of syntax trees", "turms/mergers")],
     ["the merged module"],
     "explicit-state breadth-first exploration of edit/schema-change/regenerate histories on the real merger against a set model of what must be present",
     "complete for the edit alphabet and depth stated")

prop("C17", "A generated server skeleton serves the schema it was generated from",
     "The server code generated from a schema imports and its own printed schema has the same types, fields, "
     "arguments, nullability, enum values, interfaces, union members and input fields as the source schema. "
     "Merging a regenerated skeleton into an existing one and naming styles do not change that, and every "
     "operation the schema allows reaches a resolver.",
     ["programs", "configurations"],
     "all schemas over an alphabet of type kinds, wrappers, arguments and names",
     "tests check a few fixed schemas",
     [STR], [("server types", STR)],
     ["schema printed by the generated module"],
     "bounded exhaustive enumeration of schemas; served schema compared structurally with the source",
     "complete within the stated schema alphabet; trusts the installed server library's printer")

prop("C18", "Object models represent the schema's object and interface types faithfully",
     "The model generated for an object type accepts every conforming value of that type (all fields, by GraphQL "
     "name), refuses nulls and wrong types where the schema forbids them, and reproduces what it read. Interfaces, unions, "
     "recursive types and skipped or renamed types are represented accordingly.",
     ["programs", "inputs", "configurations"],
     "all schemas over an alphabet of field types and wrappers x all values with bounded deviations",
     "tests only check that the module parses",
     [OBJ, R], [("object models", OBJ)],
     ["model_validate / dump of the generated object classes"],
     "bounded exhaustive enumeration of schemas and of values from the reference server model",
     "complete within the stated bounds")

prop("C19", "A failed or interrupted generation never damages existing output",
     "Whatever fails (schema, documents, configuration, a stage, a write at any point), each output file on disk "
     "afterwards is either its previous content or the complete new one; other projects are generated or untouched as "
     "configured, no half-written file remains, and a failure is reported with a non-zero exit where exiting on error "
     "is configured.",
     ["crash_points", "fault_sequences", "configurations"],
     "a fault at every file-system call of a run over one and two projects, with every failure kind, in the presence or absence of previous output",
     "tests never inject a failure",
     [CLI, RUN, MRG], [("write after everything succeeded", CLI), ("atomic replace", CLI)],
     ["files on disk, exit code"],
     "exhaustive fault injection: one execution per file-system call and fault kind (error, process death, torn write) of the command line",
     "complete for single faults at the intercepted calls")

prop("C20", "Watching keeps the output equal to a fresh generation",
     "After any sequence of document changes, once the watcher has handled them the generated file equals what a "
     "fresh generation of the current files gives; changes to files that are not documents trigger nothing, and a "
     "change that makes the documents invalid leaves the last good output and does not stop the watcher.",
     ["histories", "schedules"],
     "all event histories up to a depth over a small set of files",
     "tests do not run the watcher",
     [WAT, CLI], [("event handler", WAT)],
     ["generated file after every event"],
     "explicit-state exploration of event histories delivered to the real event handler, compared with a fresh generation",
     "complete for the event alphabet and depth; the operating system's notification delivery is modelled")

prop("C21", "Every way of giving the schema leads to the same code",
     "A schema given as a file, a glob, a list of files, a URL, a URL with headers or a downloaded file yields the same generated code, "
     "and configured headers are sent with the introspection request. A schema that cannot be loaded is reported and never half used.",
     ["inputs", "configurations", "fault_sequences"],
     "all schema source forms x schemas of the alphabet x server answers (good, error, garbage, refused)",
     "tests only use files; the remote ones need the network",
     [HLP, RUN, CLI, CFG], [("schema loading", HLP), ("introspection", HLP)],
     ["generated code; the request a loopback server sees"],
     "bounded exhaustive enumeration of source forms and server answers against a loopback server",
     "complete for the listed forms")

prop("C22", "Invalid documents or configuration never produce output",
     "A document that is not valid GraphQL for the schema, and a configuration with unknown keys, unknown classes or "
     "contradictory options, is refused with an error and produces no code. Documents that are valid are never "
     "refused by this validation.",
     ["programs", "configurations"],
     "every single-point corruption of valid documents and configurations of the alphabet",
     "tests contain one or two invalid examples",
     [UTL, RUN, CFG], [("document validation", UTL), ("strict configuration models", CFG)],
     ["error vs. generated code"],
     "bounded exhaustive enumeration of single-point corruptions, judged by the reference validator",
     "complete within the stated corruption operators; trusts graphql-core's validator")

prop("C23", "Scalars map to the configured Python types everywhere, or generation fails",
     "A scalar is represented by the Python type the project configured for it (or the built-in default) in every "
     "position: results, variables, inputs, objects and functions. A scalar without mapping makes the generation fail "
     "with an error that names it; a mapping for one scalar never affects another.",
     ["programs", "configurations"],
     "all scalars x mapping forms x positions x wrappers",
     "tests map one scalar in one position",
     [R, REC, OPS, INP, OBJ, FUN], [("scalar mapping", R)],
     ["annotations and parsed values of the generated code; generation errors"],
     "bounded exhaustive enumeration of mappings and positions with round trip of values",
     "complete within the stated alphabet")

prop("C24", "Post-processing preserves the program and runs in the configured order",
     "Whatever parsers and processors are configured, in whatever order, the resulting module has the same observable "
     "behaviour as the unprocessed one, and each stage sees the output of the stage before. A failing stage fails the generation.",
     ["configurations", "programs"],
     "all sequences of the shipped stages up to length 2 or 3 with their options",
     "tests apply one processor at a time, if at all",
     ["turms/processors", "turms/parsers", RUN], [("stage pipeline", RUN)],
     ["behavioural description of the module; stage inputs"],
     "bounded exhaustive enumeration of stage sequences compared by a canonical behavioural description",
     "complete for the installed tools; trusts their own correctness only as far as observed")

prop("C25", "The configuration that applies is the one the user selected",
     "The command line uses the configuration file given, or else the only one found under a documented name (several, or none, are refused), reads it the same in every "
     "supported format, generates exactly the selected projects into their configured places and leaves the others alone. "
     "Environment variables supply the settings that the file leaves open, under the TURMS_ prefix of their component only; what the file says comes first, and no other variable has an effect.",
     ["configurations", "histories"],
     "all subsets of candidate files, formats, project selections, output settings and environment variables",
     "tests use one layout at a time",
     [RUN, CLI, CFG], [("configuration discovery", RUN), ("project selection", CLI), ("environment settings", CFG)],
     ["files written, configuration applied"],
     "bounded exhaustive enumeration of project layouts and command lines",
     "complete within the stated alphabet")

prop("C26", "Skipping unreferenced types drops exactly what nothing uses",
     "With skipping of unreferenced types enabled, every enum and input type that generated code refers to (directly or "
     "through other inputs) is still generated, the module imports and behaves the same, and types no operation "
     "reaches are not generated.",
     ["programs", "configurations"],
     "all reference graphs of input types and enums up to a size x operations",
     "reachability is transitive; tests prune a single flat example",
     [REF, INP, ENU], [("reference finder", REF)],
     ["classes of the generated module"],
     "bounded exhaustive enumeration of reference graphs compared with an independent reachability computation",
     "complete within the stated graph sizes")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        path = os.path.join(HERE, "mc", "checks", p["id"].lower() + ".py")
        if not os.path.exists(path):
            na.append({"property": p["id"], "reason": "its check is still being built; nothing is claimed for it yet"})
            continue
        level = "fault_enumeration" if 'LEVEL = "fault_enumeration"' in open(path).read() else "model_checking"
        checks.append({"property": p["id"], "quick_cmd": f"{PY} check.py {p['id']}",
                       "thorough_cmd": f"{PY} check.py {p['id']} --tier thorough",
                       "evidence_file": f"evidence/{p['id']}.json",
                       "technique": "model checking: " + p["technique"], "level": level, "level_note": p["note"]})
    man = {"version": 1, "setup_cmd": f"{PY} tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives the unmodified working tree through configuration, the command line and the generated code."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks")


main()
