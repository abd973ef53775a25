From 644ae0642f5ef74ecc9168976ae318e0e8386302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 01/98] fix: collect fragment spreads from the parsed document
 so any fragment name is found

---
 turms/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index dffd2ad..1e6b27d 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -7,6 +7,7 @@ from graphql import (
     BooleanValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
+    FragmentSpreadNode,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -529,7 +530,18 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[a-zA-Z]*)")
+def find_fragment_spreads(document: str) -> Set[str]:
+    """Returns the names of all fragments that are spread in the document"""
+    names: Set[str] = set()
+    pending: list = list(parse(document).definitions)
+    while pending:
+        node = pending.pop()
+        if isinstance(node, FragmentSpreadNode):
+            names.add(node.name.value)
+        selection_set = getattr(node, "selection_set", None)
+        if selection_set:
+            pending.extend(selection_set.selections)
+    return names
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
@@ -560,9 +572,9 @@ def replace_iteratively(
     taken: list[str] = [],
 ) -> str:
     """Replaces the fragments in the pattern with their definitions"""
-    z = set(fragment_searcher.findall(pattern))  # only set is important
+    z = find_fragment_spreads(pattern)  # only set is important
 
-    new_fragments = [new_f for new_f in z if new_f not in taken and new_f != ""]
+    new_fragments = [new_f for new_f in z if new_f not in taken]
     new_fragments.sort()
 
     if not new_fragments:
-- 
2.43.0


From ca079289e4bd6a2a059307a629bc93f72eaed373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:58 +0000
Subject: [PATCH 02/98] fix: select __typename in selections nested inside
 inline fragments

---
 turms/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index 1e6b27d..19694b9 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -18,6 +18,7 @@ from graphql import (
     GraphQLOutputType,
     GraphQLScalarType,
     GraphQLUnionType,
+    InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
     NamedTypeNode,
@@ -478,6 +479,9 @@ def add_typename_recursively(
     for field in selections:
         if isinstance(field, FieldNode) and field.selection_set:
             add_typename_recursively(field.selection_set)
+        elif isinstance(field, InlineFragmentNode):
+            # The enclosing selection set already selects __typename
+            add_typename_recursively(field.selection_set, skip=True)
 
     # Update the selection set with potentially added __typename fields
     selection_set.selections = tuple(selections)
-- 
2.43.0


From b88206a7fc44a8fbd240bb0effb7793d68f5e4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 03/98] fix: an aliased __typename does not stand in for the
 __typename the models dispatch on

---
 turms/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 19694b9..1849dd1 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -460,7 +460,9 @@ def add_typename_recursively(
     # Collect all existing fields in the selection set
     selections = list(selection_set.selections)
     has_typename = any(
-        isinstance(field, FieldNode) and field.name.value == "__typename"
+        isinstance(field, FieldNode)
+        and field.name.value == "__typename"
+        and not field.alias
         for field in selections
     )
 
@@ -554,7 +556,9 @@ def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
         if isinstance(fragment, FragmentDefinitionNode):
             selections = list(fragment.selection_set.selections)
             if not any(
-                isinstance(field, FieldNode) and field.name.value == "__typename"
+                isinstance(field, FieldNode)
+                and field.name.value == "__typename"
+                and not field.alias
                 for field in selections
             ):
                 selections.append(
-- 
2.43.0


From ed84df4992223cab2d1879a6886d21436394e8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 04/98] fix: order fragments by the spreads inside their inline
 fragments too

---
 turms/plugins/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 0824547..d674a43 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -64,8 +64,11 @@ def find_fragment_dependencies_recursive(
                         fragment.selection_set, fragment_definitions, visited
                     )
                 )
-        # If it's a field with a nested selection set, dive deeper
-        elif isinstance(selection, FieldNode) and selection.selection_set:
+        # If it's a field or inline fragment with a nested selection set, dive deeper
+        elif (
+            isinstance(selection, (FieldNode, InlineFragmentNode))
+            and selection.selection_set
+        ):
             dependencies.update(
                 find_fragment_dependencies_recursive(
                     selection.selection_set, fragment_definitions, visited
-- 
2.43.0


From 9553191e80f14d653a3a55dd4f5adc78806b236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 05/98] fix: a nullable union field selecting a single member
 stays optional

---
 turms/recurse.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/turms/recurse.py b/turms/recurse.py
index d0e48fb..fc17d94 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -209,6 +209,14 @@ def recurse_annotation(
                     slice=union_slice,
                     ctx=ast.Load(),
                 )
+        elif is_optional:
+            registry.register_import("typing.Optional")
+
+            return ast.Subscript(
+                value=ast.Name("Optional", ctx=ast.Load()),
+                slice=ast.Name(id=union_class_names[0], ctx=ast.Load()),
+                ctx=ast.Load(),
+            )
         else:
             return ast.Name(id=union_class_names[0], ctx=ast.Load())
 
-- 
2.43.0


From a48983526a53819893cf6cdd5584677a57dbed63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:20 +0000
Subject: [PATCH 06/98] fix: union fragments inherit from the styled class of
 the fragments they spread

---
 turms/plugins/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index d674a43..9dbd785 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -524,7 +524,7 @@ def generate_fragment(
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            field.name.value
+                            registry.inherit_fragment(field.name.value)
                         )
                         continue
 
-- 
2.43.0


From f1de510cd0bb4e0f9debeefb3acf5f98cc2408de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 07/98] fix: keep fragments spread inside an interface's inline
 fragments

---
 turms/plugins/fragments.py | 11 +++++++++++
 turms/recurse.py           | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 9dbd785..487a367 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -265,6 +265,17 @@ def generate_fragment(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if isinstance(field, FieldNode):
                         if field.name.value == "__typename":
                             continue
diff --git a/turms/recurse.py b/turms/recurse.py
index fc17d94..7b01865 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -285,6 +285,17 @@ def recurse_annotation(
                 inline_fields = []
 
                 for field in sub_node.selection_set.selections:
+                    if isinstance(field, FragmentSpreadNode):
+                        implementing_class_base_classes.setdefault(
+                            on_type_name, []
+                        ).append(
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
+                        )
+                        continue
+
                     if not isinstance(field, FieldNode):
                         continue
 
-- 
2.43.0


From a2636417a034558a08e70d9ce24e3c9594826724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/98] fix: different selections of one document never share a
 generated class

---
 turms/recurse.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 7b01865..d7c0f57 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -38,6 +38,15 @@ from graphql.type.definition import (
 from turms.config import GraphQLTypes
 
 
+def unique_class_name(name: str, subtree: list, suffix: str = "") -> str:
+    """Returns name, numbered if the subtree already holds a class of that name (plus suffix)"""
+    taken = {cls.name for cls in subtree if isinstance(cls, ast.ClassDef)}
+    unique, count = name, 2
+    while f"{unique}{suffix}" in taken:
+        unique, count = f"{name}{count}", count + 1
+    return unique
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -89,8 +98,9 @@ def recurse_annotation(
                 union_class_names.append(fragment_name)
 
             if isinstance(sub_node, InlineFragmentNode):
-                inline_fragment_name = (
-                    f"{parent}{sub_node.type_condition.name.value}InlineFragment"
+                inline_fragment_name = unique_class_name(
+                    f"{parent}{sub_node.type_condition.name.value}InlineFragment",
+                    subtree,
                 )
                 spread_fragment_bases: list[ast.Name] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
@@ -227,7 +237,9 @@ def recurse_annotation(
 
         sub_nodes = non_typename_fields(node)
 
-        base_name = f"{parent}{target.capitalize()}"
+        base_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree, suffix="Base"
+        )
 
         if type.description:
             mother_class_fields.append(
@@ -477,7 +489,9 @@ def recurse_annotation(
         pick_fields: list[ast.Expr | ast.AnnAssign] = []
 
         target = target_from_node(node)
-        object_class_name = f"{parent}{target.capitalize()}"
+        object_class_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree
+        )
 
         if type.description:
             pick_fields.append(ast.Expr(value=ast.Constant(value=type.description)))
-- 
2.43.0


From 19021810567fa7c4d6f3c11c60831d1539572072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:56 +0000
Subject: [PATCH 09/98] fix: emit imports and builtins in a deterministic order

---
 turms/parsers/polyfill.py | 4 ++--
 turms/registry.py         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 458b81d..2aa47b4 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -36,7 +36,7 @@ def polyfill_python_seven(
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in need_extensions],
+                            names=[ast.alias(name=name) for name in sorted(need_extensions)],
                             level=0,
                         )
                     )
@@ -44,7 +44,7 @@ def polyfill_python_seven(
                 okay_imports = aliases - need_extensions
                 new_nodes.append(
                     ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in okay_imports],
+                        names=[ast.alias(name=name) for name in sorted(okay_imports)],
                         module="typing",
                         level=0,
                     )
diff --git a/turms/registry.py b/turms/registry.py
index a53c05a..ffcf947 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -647,14 +647,14 @@ class ClassRegistry(object):
                     name.split(".")[-1]
                 )
 
-        for lone_top_import in lone_top_imports:
+        for lone_top_import in sorted(lone_top_imports):
             imports.append(ast.Import(names=[ast.alias(name=lone_top_import)]))
 
-        for top_level_name, sub_level_names in top_level.items():
+        for top_level_name, sub_level_names in sorted(top_level.items()):
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sub_level_names],
+                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
                     level=0,
                 )
             )
@@ -665,7 +665,7 @@ class ClassRegistry(object):
         """Generate the builtins for the generated code. This is used to generate the"""
         builtins: list[ast.AST] = []
 
-        for built_in in self._builtins:
+        for built_in in sorted(self._builtins):
             node = built_in_map[built_in]
             if isinstance(node, list):
                 builtins.extend(node)
-- 
2.43.0


From ebdab5dbeffde338b10572098621784a0d49e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 10/98] fix: replace generated files in one step so a failing
 write keeps the previous output

---
 turms/run.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index e4d3c0e..5251748 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -1,5 +1,6 @@
 import ast
 import os
+import shutil
 from typing import Dict, List, Optional, Callable, Tuple
 
 import yaml
@@ -162,6 +163,22 @@ def scan_folder_for_single_config(folder_path: str | None = None) -> str:
     return configs[0]
 
 
+def replace_file(path: str, content: str) -> None:
+    """Writes the content next to the path and moves it into place, so that a
+    failing or interrupted write leaves the previous file as it was"""
+    path = os.path.realpath(path)
+    temporary = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(temporary, "w", encoding="utf-8") as file:
+            file.write(content)
+        if os.path.exists(path):
+            shutil.copymode(path, temporary)
+        os.replace(temporary, path)
+    finally:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+
+
 def write_code_to_file(code: str, outdir: str, filepath: str):
     if not os.path.isdir(outdir):  # pragma: no cover
         os.makedirs(outdir)
@@ -171,12 +188,7 @@ def write_code_to_file(code: str, outdir: str, filepath: str):
         filepath,
     )
 
-    with open(
-        generated_file,
-        "w",
-        encoding="utf-8",
-    ) as file:
-        file.write(code)
+    replace_file(generated_file, code)
 
     return generated_file
 
@@ -190,12 +202,7 @@ def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
         filepath,
     )
 
-    with open(
-        generated_file,
-        "w",
-        encoding="utf-8",
-    ) as file:
-        file.write(print_schema(schema))
+    replace_file(generated_file, print_schema(schema))
 
     return generated_file
 
@@ -209,12 +216,7 @@ def write_project(project: GraphQLProject, outdir: str, filepath: str):
         filepath,
     )
 
-    with open(
-        generated_file,
-        "w",
-        encoding="utf-8",
-    ) as file:
-        file.write(project.model_dump_json(indent=4))
+    replace_file(generated_file, project.model_dump_json(indent=4))
 
     return generated_file
 
-- 
2.43.0


From 6ba54357ecda1fc4f5af19c4a556a4d6d90004c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 11/98] fix: gen() writes the generated code and not the (code,
 schema) pair

---
 turms/run.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index 5251748..ac43ef2 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -245,7 +245,7 @@ def gen(
                 f"-------------- Generating project: {key} --------------"
             )
 
-            generated_code = generate(project)
+            generated_code, schema = generate(project)
 
             write_code_to_file(
                 generated_code,
@@ -254,11 +254,6 @@ def gen(
             )
 
             if project.extensions.turms.dump_schema:
-                schema = build_schema_from_schema_type(
-                    project.schema_url,
-                    allow_introspection=project.extensions.turms.allow_introspection,
-                )
-
                 write_schema_to_file(
                     schema,
                     project.extensions.turms.out_dir,
-- 
2.43.0


From 27a251aa9376cc6f22cac2dfd87157eb799055be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 12/98] fix: report an unsupported config file extension

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index ac43ef2..d4d9f0b 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -80,7 +80,7 @@ FILE_NAME_LOADERS = {
 def get_file_loader(file_name: str) -> Callable:
     try:
         return FILE_NAME_LOADERS[file_name.lower().split(".")[-1]]
-    except AttributeError as err:
+    except KeyError as err:
         raise GenerationError(
             f"File {file_name} is not supported. Please use one of {FILE_NAME_LOADERS.keys()}"
         ) from err
-- 
2.43.0


From ba0439db4f3fabd13196a1b2c273292d5df93d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:13 +0000
Subject: [PATCH 13/98] fix: read and write documents, schemas and merged
 modules as UTF-8 in any locale

---
 turms/cli/main.py         | 4 +++-
 turms/processors/merge.py | 2 +-
 turms/utils.py            | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 0556907..1d20825 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -449,7 +449,9 @@ def download(projects, out, dir):
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
             )
-            with open(os.path.join(app_directory, filename), "w") as f:
+            with open(
+                os.path.join(app_directory, filename), "w", encoding="utf-8"
+            ) as f:
                 f.write(print_schema(schema))
     except Exception as e:
         raise click.ClickException(str(e)) from e
diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5a90b04..cb97a55 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -257,7 +257,7 @@ class MergeProcessor(Processor):
             return gen_file
 
         # the one we want to merge into
-        with open(old_generated_file) as f:
+        with open(old_generated_file, encoding="utf-8") as f:
             existing_code = f.read()
 
         return merge_code(existing_code, gen_file, self.config)
diff --git a/turms/utils.py b/turms/utils.py
index 1849dd1..e61402f 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -515,7 +515,7 @@ def parse_documents(
     dsl = ""
 
     for file in x:
-        with open(file, "r") as f:
+        with open(file, "r", encoding="utf-8-sig") as f:
             dsl += f.read()
 
     if dsl == "":
-- 
2.43.0


From 5b16a3e2c9dea2fc980aec23c1d7b4b9a3518b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:14 +0000
Subject: [PATCH 14/98] fix: merging keeps the comments at the top and bottom
 of the existing module

---
 turms/processors/merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index cb97a55..7b5f82d 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -220,7 +220,7 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
-    md = cst.Module(body=updated_body)
+    md = existing_module.with_changes(body=updated_body)
 
     return md.code
 
-- 
2.43.0


From 051554edc5f83c651d8d3198bd151bbec0141a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:15 +0000
Subject: [PATCH 15/98] fix: merging adds and updates generated assignments
 such as enum members and union aliases

---
 turms/processors/merge.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 7b5f82d..072855b 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -12,6 +12,12 @@ def retrieve_symbol_name(simple_statement: cst.SimpleStatementLine):
     for node in simple_statement.body:
         if isinstance(node, cst.AnnAssign):
             return node.target.value
+        if (
+            isinstance(node, cst.Assign)
+            and len(node.targets) == 1
+            and isinstance(node.targets[0].target, cst.Name)
+        ):
+            return node.targets[0].target.value
     else:
         return None
 
@@ -155,6 +161,12 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             symbols[node.name.value] = node
             new_symbols.add(node.name.value)
 
+        if isinstance(node, cst.SimpleStatementLine):
+            name = retrieve_symbol_name(node)
+            if name is not None:
+                symbols[name] = node
+                new_symbols.add(name)
+
     symbol_position = {}
 
     for node in existing_module.body:
@@ -180,6 +192,15 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
             else:
                 new_body.append(node)
 
+        elif (
+            isinstance(node, cst.SimpleStatementLine)
+            and retrieve_symbol_name(node) in symbols
+        ):
+            name = retrieve_symbol_name(node)
+            symbol_position[name] = len(new_body)
+            new_body.append(merge_statements(symbols[name], node))
+            implemented_symbols.append(name)
+
         else:
             new_body.append(node)
 
-- 
2.43.0


From 7ce60231760df1722ea997a5b3a394d7b1ad926f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:16 +0000
Subject: [PATCH 16/98] fix: merging adds the imports newly generated code
 needs

---
 turms/processors/merge.py | 49 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 072855b..f6468c8 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -134,6 +134,51 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     return new_class
 
 
+def imported_names(node: cst.CSTNode):
+    """Returns the names an import statement binds (empty for other statements)"""
+    names = set()
+    if isinstance(node, cst.SimpleStatementLine):
+        for statement in node.body:
+            if isinstance(statement, (cst.Import, cst.ImportFrom)):
+                if isinstance(statement.names, cst.ImportStar):
+                    continue
+                for alias in statement.names:
+                    names.add(
+                        alias.evaluated_alias or alias.evaluated_name.split(".")[0]
+                    )
+    return names
+
+
+def is_docstring(node: cst.CSTNode):
+    return (
+        isinstance(node, cst.SimpleStatementLine)
+        and isinstance(node.body[0], cst.Expr)
+        and isinstance(
+            node.body[0].value, (cst.SimpleString, cst.ConcatenatedString)
+        )
+    )
+
+
+def add_missing_imports(body, new_module: cst.Module):
+    """Adds the imports of the new module, that the body does not already bind,
+    after the imports that lead the body"""
+    existing_names = set()
+    for node in body:
+        existing_names |= imported_names(node)
+
+    missing = [
+        node for node in new_module.body if imported_names(node) - existing_names
+    ]
+
+    position = 0
+    while position < len(body) and (
+        is_docstring(body[position]) or imported_names(body[position])
+    ):
+        position += 1
+
+    return [*body[:position], *missing, *body[position:]]
+
+
 class MergeProcessorConfig(ProcessorConfig):
     type: str = "turms.processors.merge.MergeProcessor"
 
@@ -241,7 +286,9 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
-    md = existing_module.with_changes(body=updated_body)
+    md = existing_module.with_changes(
+        body=add_missing_imports(updated_body, new_module)
+    )
 
     return md.code
 
-- 
2.43.0


From 0cc0f5a45c7fb2015c282fd87dbfe0f9522065ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 17/98] fix: load every entry of a schema list once, by its own
 kind

---
 turms/run.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index d4d9f0b..153e43c 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -337,12 +337,12 @@ def build_schema_from_schema_type(
             dsl_subschemas = []
 
             for item in schema:
-                if is_url(item):
-                    dsl_subschemas.append(load_dsl_from_url(item))
                 if isinstance(item, dict):
                     for key, value in item.items():
                         dsl_subschemas.append(load_dsl_from_url(key, value.headers))
-                if isinstance(item, str):
+                elif is_url(item):
+                    dsl_subschemas.append(load_dsl_from_url(item))
+                elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
             return build_ast_schema(parse(" ".join(dsl_subschemas)))
-- 
2.43.0


From 0b58cd217134e99d799aae41d9071989c7cc5cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 18/98] fix: separate the schema and document files that are
 read together

---
 turms/helpers.py | 3 ++-
 turms/run.py     | 4 ++--
 turms/utils.py   | 5 +++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 97ec390..214dd8b 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -134,7 +134,8 @@ def load_dsl_from_glob(
 
     dsl_string = ""
     for file in schema_glob:
-        dsl_string += load_dsl_from_file(file)
+        # A file without a final newline must not run into the next one
+        dsl_string += load_dsl_from_file(file) + "\n"
 
     return dsl_string
 
diff --git a/turms/run.py b/turms/run.py
index 153e43c..d61f3d6 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -324,7 +324,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -345,7 +345,7 @@ def build_schema_from_schema_type(
                 elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if is_url(schema):
         try:
diff --git a/turms/utils.py b/turms/utils.py
index e61402f..94f452e 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -516,9 +516,10 @@ def parse_documents(
 
     for file in x:
         with open(file, "r", encoding="utf-8-sig") as f:
-            dsl += f.read()
+            # A file without a final newline must not run into the next one
+            dsl += f.read() + "\n"
 
-    if dsl == "":
+    if dsl.strip() == "":
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
-- 
2.43.0


From 4d2d7889e404bb4dfd62552a161c548353839aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 19/98] fix: watch documents with any number of dots in their
 name

---
 turms/cli/watch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/cli/watch.py b/turms/cli/watch.py
index 0287a10..6ffd9e4 100644
--- a/turms/cli/watch.py
+++ b/turms/cli/watch.py
@@ -10,9 +10,9 @@ class GraphQLFilter(BaseFilter):  # pragma: no cover
             return False
 
         x = os.path.basename(path)
-        fileending = x.split(".")[1]
+        fileending = os.path.splitext(x)[1]
 
-        return fileending == "graphql"
+        return fileending == ".graphql"
 
 
 def stream_changes(folder: str):  # pragma: no cover
-- 
2.43.0


From 388e4d6ef33397b60a8ab16723b0274a05d47cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 20/98] fix: unwrap a non-null type once

---
 turms/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 94f452e..370bb87 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -748,8 +748,6 @@ def recurse_outputtype_annotation(
 ) -> ast.expr:
     if isinstance(type, GraphQLNonNull):
         # If the type is non-null, we need to recurse into the inner type
-        type = type.of_type
-
         return recurse_outputtype_annotation(
             type.of_type, registry, optional=False, overwrite_final=overwrite_final
         )
-- 
2.43.0


From d7eaee5285a0d9d0e5da9b4e2b952a76f998c699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 21/98] fix: freeze and options read prefixed environment
 variables only

---
 turms/config.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/config.py b/turms/config.py
index 0082b8a..0510771 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -109,6 +109,8 @@ class FreezeConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(env_prefix="TURMS_FREEZE_")
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
@@ -154,6 +156,8 @@ class OptionsConfig(BaseSettings):
 
     """
 
+    model_config = SettingsConfigDict(env_prefix="TURMS_OPTIONS_")
+
     enabled: bool = Field(
         default=False, description="Enabling this, will freeze the schema"
     )
-- 
2.43.0


From a850af92c548ca03486b1108d15f350121c18f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 22/98] fix: arguments_allow_population_by_field_name reaches
 the Arguments models

---
 turms/plugins/operations.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 7af7856..01633ce 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -102,7 +102,7 @@ def generate_arguments_config(
     plugin_config: OperationsPluginConfig,
     registry: ClassRegistry,
 ):
-    if config.pydantic_version == "1":
+    if config.pydantic_version == "v1":
         config_fields = []
 
         if plugin_config.arguments_allow_population_by_field_name:
@@ -141,7 +141,10 @@ def generate_arguments_config(
                 ast.keyword(
                     arg="populate_by_name",
                     value=ast.Constant(
-                        value=config.options.allow_population_by_field_name
+                        value=bool(
+                            plugin_config.arguments_allow_population_by_field_name
+                            or config.options.allow_population_by_field_name
+                        )
                     ),
                 )
             )
-- 
2.43.0


From 9f9e1ed9a1330fc17d238b41e8d493a349c92952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:12 +0000
Subject: [PATCH 23/98] fix: freezing honours convert_list_to_tuple in the
 models of responses

---
 turms/recurse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index d7c0f57..9350a59 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -652,7 +652,7 @@ def recurse_annotation(
         )
 
     if isinstance(type, GraphQLList):
-        if config.freeze.enabled:
+        if config.freeze.enabled and config.freeze.convert_list_to_tuple:
             registry.register_import("typing.Tuple")
 
             def list_builder(x: ast.Name | ast.Subscript | ast.Constant):
-- 
2.43.0


From 17f497ecf4d4a932c56e38bd4117ca386ac485b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:16 +0000
Subject: [PATCH 24/98] fix: input fields with a schema default can be omitted
 from factories and expanded operations

---
 turms/plugins/funcs.py       | 5 +++--
 turms/plugins/input_funcs.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index aecdc08..bdb0ead 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -14,6 +14,7 @@ from graphql import (
     NamedTypeNode,
     VariableNode,
     get_named_type,
+    is_required_input_field,
 )
 from graphql.type.definition import (
     GraphQLEnumType,
@@ -411,7 +412,7 @@ def generate_input_type_params(
     for value_key, value in input_type.fields.items():
         field_name = registry.generate_node_name(value_key)
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             pos_args.append(
                 ast.arg(
                     arg=field_name,
@@ -635,7 +636,7 @@ def generate_variable_assignments(
                     ctx=ast.Store(),
                 )
                 field_value = ast.Name(id=field_param, ctx=ast.Load())
-                if isinstance(field.type, GraphQLNonNull):
+                if is_required_input_field(field):
                     # required field → always present (positional parameter)
                     stmts.append(
                         ast.Assign(targets=[field_subscript], value=field_value)
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0164dcc..4fb8292 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -15,7 +15,7 @@ plugin; the input model / pydantic performs the coercion.
 import ast
 from typing import Dict, List
 
-from graphql import GraphQLInputObjectType, GraphQLNonNull, GraphQLSchema
+from graphql import GraphQLInputObjectType, GraphQLSchema, is_required_input_field
 from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 
@@ -98,7 +98,7 @@ def generate_input_func(
         )
         param_value = ast.Name(id=field_param, ctx=ast.Load())
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             # required -> always present
             body.append(ast.Assign(targets=[subscript], value=param_value))
         else:
-- 
2.43.0


From 8f7e4563faf1f9fec4fc1f319ea970fadafa843d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:29 +0000
Subject: [PATCH 25/98] fix: describe variables used at any depth of an
 operation

---
 turms/plugins/funcs.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index bdb0ead..1ade61b 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -843,8 +843,11 @@ def estimate_variable_name(
         return
     for field in o.selection_set.selections:
         if isinstance(field, FieldNode):
+            the_field = get_field_def(client_schema, root, field)
+            if the_field is None:
+                continue
+
             for arg in field.arguments:
-                the_field = get_field_def(client_schema, root, field)
                 if isinstance(arg.value, VariableNode):
                     if arg.value.name.value in the_field.args:
                         mapped_description = the_field.args[
@@ -861,14 +864,12 @@ def estimate_variable_name(
                                     mapped_description
                                 )
 
-            for sub in non_typename_fields(field):
-                if isinstance(sub, FieldNode):
-                    estimate_variable_name(
-                        sub,
-                        client_schema,
-                        get_field_def(client_schema, root, field),
-                        description_map,
-                    )
+            estimate_variable_name(
+                field,
+                client_schema,
+                get_named_type(the_field.type),
+                description_map,
+            )
 
 
 def generate_query_doc(
-- 
2.43.0


From d7b6908c59d21b316aea4411e1fca8436c7574ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 26/98] fix: any default value of an operation variable can be
 documented and recorded

---
 turms/plugins/funcs.py |  3 ++-
 turms/utils.py         | 28 +++++-----------------------
 2 files changed, 7 insertions(+), 24 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 1ade61b..2470d9f 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -15,6 +15,7 @@ from graphql import (
     VariableNode,
     get_named_type,
     is_required_input_field,
+    print_ast,
 )
 from graphql.type.definition import (
     GraphQLEnumType,
@@ -947,7 +948,7 @@ def generate_query_doc(
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(v.default_value.value)}\n"
+            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(getattr(v.default_value, 'value', print_ast(v.default_value)))}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
diff --git a/turms/utils.py b/turms/utils.py
index 370bb87..30d5c52 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,11 +1,9 @@
 import ast
 import glob
 import re
-from typing import List, Optional, Sequence, Set, Union
+from typing import Any, List, Optional, Sequence, Set, Union
 
 from graphql import (
-    BooleanValueNode,
-    FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
     GraphQLEnumType,
@@ -19,21 +17,19 @@ from graphql import (
     GraphQLScalarType,
     GraphQLUnionType,
     InlineFragmentNode,
-    IntValueNode,
     ListTypeNode,
     NamedTypeNode,
     NonNullTypeNode,
-    NullValueNode,
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
-    StringValueNode,
     TypeNode,
     Undefined,
     ValueNode,
     parse,
     print_ast,
     validate,
+    value_from_ast_untyped,
 )
 from graphql.error.graphql_error import GraphQLError
 from graphql.language.ast import DocumentNode, FieldNode, NameNode
@@ -926,31 +922,17 @@ def recurse_type_label(
     raise NotImplementedError("Not implemented for this type")
 
 
-def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool]:
+def parse_value_node(value_node: ValueNode) -> Any:
     """Parses a Value Node into a Python value
     using standard types
 
     Args:
         value_node (ValueNode): The Argument Value Node
 
-    Raises:
-        NotImplementedError: If the Value Node is not supported
-
     Returns:
-        Union[None, str, int, float, bool]: The parsed value
+        Any: The parsed value (enum members are represented by their name)
     """
-    if isinstance(value_node, IntValueNode):
-        return int(value_node.value)
-    elif isinstance(value_node, FloatValueNode):
-        return float(value_node.value)
-    elif isinstance(value_node, StringValueNode):
-        return value_node.value
-    elif isinstance(value_node, BooleanValueNode):
-        return value_node.value == "true"
-    elif isinstance(value_node, NullValueNode):
-        return None
-    else:
-        raise NotImplementedError(f"Cannot parse {value_node}")
+    return value_from_ast_untyped(value_node)
 
 
 def convert_default_value_to_ast(value):
-- 
2.43.0


From 047cafdd6f97c0accddec9e765ba725911b29a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 27/98] fix: the local dict of a generated function never
 shadows one of its parameters

---
 turms/plugins/funcs.py       | 144 ++++++++++++++++++++++++++---------
 turms/plugins/input_funcs.py |  15 ++--
 2 files changed, 119 insertions(+), 40 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 2470d9f..2abcd1e 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -394,7 +394,10 @@ def dict_str_any_annotation(registry: ClassRegistry) -> ast.expr:
     return ast.Subscript(
         value=ast.Name(id="Dict", ctx=ast.Load()),
         slice=ast.Tuple(
-            elts=[ast.Name(id="str", ctx=ast.Load()), ast.Name(id="Any", ctx=ast.Load())],
+            elts=[
+                ast.Name(id="str", ctx=ast.Load()),
+                ast.Name(id="Any", ctx=ast.Load()),
+            ],
             ctx=ast.Load(),
         ),
         ctx=ast.Load(),
@@ -490,9 +493,11 @@ def generate_parameters(
 
             type = client_schema.type_map[input_type.type.name.value]
 
-            expanded_pos_args, expanded_kw_args, expanded_kw_values = (
-                generate_input_type_params(type, plugin_config, registry)
-            )
+            (
+                expanded_pos_args,
+                expanded_kw_args,
+                expanded_kw_values,
+            ) = generate_input_type_params(type, plugin_config, registry)
 
             pos_args += expanded_pos_args
             kw_args += expanded_kw_args
@@ -585,6 +590,7 @@ def generate_variable_assignments(
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
     client_schema: GraphQLSchema,
+    variables_name: str = "variables",
 ):
     """Builds the statements that assemble the ``variables`` dict for an
     operation, omitting any argument the caller left as ``UNSET``. Combined with
@@ -593,7 +599,7 @@ def generate_variable_assignments(
     stmts = []
     stmts.append(
         ast.AnnAssign(
-            target=ast.Name(id="variables", ctx=ast.Store()),
+            target=ast.Name(id=variables_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -605,7 +611,7 @@ def generate_variable_assignments(
         is_required = isinstance(v.type, NonNullTypeNode) and not v.default_value
 
         outer_subscript = ast.Subscript(
-            value=ast.Name(id="variables", ctx=ast.Load()),
+            value=ast.Name(id=variables_name, ctx=ast.Load()),
             slice=ast.Constant(value=gql_name),
             ctx=ast.Store(),
         )
@@ -659,9 +665,7 @@ def generate_variable_assignments(
             param_value = ast.Name(id=param, ctx=ast.Load())
             if is_required:
                 # required positional argument → always present
-                stmts.append(
-                    ast.Assign(targets=[outer_subscript], value=param_value)
-                )
+                stmts.append(ast.Assign(targets=[outer_subscript], value=param_value))
             else:
                 stmts.append(
                     _guarded_variable_assign(
@@ -672,6 +676,34 @@ def generate_variable_assignments(
     return stmts
 
 
+def generate_variables_name(
+    definition: FunctionDefinition,
+    o: OperationDefinitionNode,
+    plugin_config: FuncsPluginConfig,
+    registry: ClassRegistry,
+    client_schema: GraphQLSchema,
+) -> str:
+    """The name of the local dict the variables are assembled in. It must not
+    shadow a parameter of the generated function."""
+    params = {arg.key for arg in get_extra_args_for_onode(definition, plugin_config)}
+    params |= {
+        kwarg.key for kwarg in get_extra_kwargs_for_onode(definition, plugin_config)
+    }
+    for v in o.variable_definitions:
+        if v.variable.name.value in plugin_config.expand_input_types:
+            params |= {
+                registry.generate_node_name(field_key)
+                for field_key in client_schema.type_map[v.type.type.name.value].fields
+            }
+        else:
+            params.add(registry.generate_parameter_name(v.variable.name.value))
+
+    name = "variables"
+    while name in params:
+        name += "_"
+    return name
+
+
 def generate_document_arg(o: OperationDefinitionNode, registry: ClassRegistry):
     return ast.Name(id=get_operation_class_name(o, registry), ctx=ast.Load())
 
@@ -741,11 +773,9 @@ def get_return_type_annotation(
             if isinstance(
                 collapsable_fragment_field, FragmentSpreadNode
             ):  # Dealing with a on element fragment
-                implementation = (
-                    registry.get_interface_fragment_implementation_or_none(
-                        collapsable_fragment_field.name.value,
-                        get_named_type(field_definition.type).name,
-                    )
+                implementation = registry.get_interface_fragment_implementation_or_none(
+                    collapsable_fragment_field.name.value,
+                    get_named_type(field_definition.type).name,
                 )
                 overwrite_final = (
                     implementation
@@ -805,11 +835,9 @@ def get_return_type_string(
             if isinstance(
                 collapsable_fragment_field, FragmentSpreadNode
             ):  # Dealing with a on element fragment
-                implementation = (
-                    registry.get_interface_fragment_implementation_or_none(
-                        collapsable_fragment_field.name.value,
-                        get_named_type(potential_return_type.type).name,
-                    )
+                implementation = registry.get_interface_fragment_implementation_or_none(
+                    collapsable_fragment_field.name.value,
+                    get_named_type(potential_return_type.type).name,
                 )
                 overwrite_final = (
                     implementation
@@ -857,13 +885,13 @@ def estimate_variable_name(
 
                         if mapped_description:
                             if arg.value.name.value in description_map:
-                                description_map[arg.value.name.value] = (
-                                    f"{description_map[arg.value.name.value]} AND {mapped_description}"
-                                )
+                                description_map[
+                                    arg.value.name.value
+                                ] = f"{description_map[arg.value.name.value]} AND {mapped_description}"
                             else:
-                                description_map[arg.value.name.value] = (
-                                    mapped_description
-                                )
+                                description_map[
+                                    arg.value.name.value
+                                ] = mapped_description
 
             estimate_variable_name(
                 field,
@@ -989,7 +1017,12 @@ def genereate_async_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(
+                            id=generate_variables_name(
+                                definition, o, plugin_config, registry, client_schema
+                            ),
+                            ctx=ast.Load(),
+                        ),
                     ],
                 )
             )
@@ -1017,7 +1050,16 @@ def genereate_async_call(
                         )
                         + [
                             generate_document_arg(o, registry),
-                            ast.Name(id="variables", ctx=ast.Load()),
+                            ast.Name(
+                                id=generate_variables_name(
+                                    definition,
+                                    o,
+                                    plugin_config,
+                                    registry,
+                                    client_schema,
+                                ),
+                                ctx=ast.Load(),
+                            ),
                         ],
                     )
                 ),
@@ -1050,7 +1092,12 @@ def genereate_sync_call(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(
+                        id=generate_variables_name(
+                            definition, o, plugin_config, registry, client_schema
+                        ),
+                        ctx=ast.Load(),
+                    ),
                 ],
             )
         )
@@ -1076,7 +1123,12 @@ def genereate_sync_call(
                     )
                     + [
                         generate_document_arg(o, registry),
-                        ast.Name(id="variables", ctx=ast.Load()),
+                        ast.Name(
+                            id=generate_variables_name(
+                                definition, o, plugin_config, registry, client_schema
+                            ),
+                            ctx=ast.Load(),
+                        ),
                     ],
                 ),
                 attr=registry.generate_node_name(correct_attr),
@@ -1109,7 +1161,12 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(
+                        id=generate_variables_name(
+                            definition, o, plugin_config, registry, client_schema
+                        ),
+                        ctx=ast.Load(),
+                    ),
                 ],
             ),
             body=[
@@ -1137,7 +1194,12 @@ def genereate_async_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(
+                        id=generate_variables_name(
+                            definition, o, plugin_config, registry, client_schema
+                        ),
+                        ctx=ast.Load(),
+                    ),
                 ],
             ),
             body=[
@@ -1179,7 +1241,12 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(
+                        id=generate_variables_name(
+                            definition, o, plugin_config, registry, client_schema
+                        ),
+                        ctx=ast.Load(),
+                    ),
                 ],
             ),
             body=[
@@ -1207,7 +1274,12 @@ def genereate_sync_iterator(
                 args=generate_passing_extra_args_for_onode(definition, plugin_config)
                 + [
                     generate_document_arg(o, registry),
-                    ast.Name(id="variables", ctx=ast.Load()),
+                    ast.Name(
+                        id=generate_variables_name(
+                            definition, o, plugin_config, registry, client_schema
+                        ),
+                        ctx=ast.Load(),
+                    ),
                 ],
             ),
             body=[
@@ -1251,7 +1323,11 @@ def generate_operation_func(
     )
 
     var_assignments = generate_variable_assignments(
-        o, plugin_config, registry, client_schema
+        o,
+        plugin_config,
+        registry,
+        client_schema,
+        generate_variables_name(definition, o, plugin_config, registry, client_schema),
     )
 
     if definition.is_async:
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 4fb8292..b3dbd63 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -69,6 +69,11 @@ def generate_input_func(
         input_type, plugin_config, registry
     )
 
+    # The local dict must not shadow a parameter.
+    data_name = "data"
+    while data_name in {arg.arg for arg in pos_args + kw_args}:
+        data_name += "_"
+
     body: List[ast.stmt] = []
 
     if plugin_config.extract_documentation:
@@ -80,7 +85,7 @@ def generate_input_func(
     # data: Dict[str, Any] = {}
     body.append(
         ast.AnnAssign(
-            target=ast.Name(id="data", ctx=ast.Store()),
+            target=ast.Name(id=data_name, ctx=ast.Store()),
             annotation=dict_str_any_annotation(registry),
             value=ast.Dict(keys=[], values=[]),
             simple=1,
@@ -92,7 +97,7 @@ def generate_input_func(
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-            value=ast.Name(id="data", ctx=ast.Load()),
+            value=ast.Name(id=data_name, ctx=ast.Load()),
             slice=ast.Constant(value=value_key),
             ctx=ast.Store(),
         )
@@ -127,7 +132,7 @@ def generate_input_func(
                 func=ast.Name(id=class_name, ctx=ast.Load()),
                 args=[],
                 keywords=[
-                    ast.keyword(arg=None, value=ast.Name(id="data", ctx=ast.Load()))
+                    ast.keyword(arg=None, value=ast.Name(id=data_name, ctx=ast.Load()))
                 ],
             )
         )
@@ -181,9 +186,7 @@ def generate_input_funcs(
         if key not in registry.inputtype_class_map:
             continue
 
-        tree.append(
-            generate_input_func(key, type, config, plugin_config, registry)
-        )
+        tree.append(generate_input_func(key, type, config, plugin_config, registry))
 
     return tree
 
-- 
2.43.0


From bfe8c861c9a088bfc4e96bf42828fa1544f5aad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:28 +0000
Subject: [PATCH 28/98] fix: import Optional for extra keyword arguments
 without a default

---
 turms/plugins/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 2abcd1e..035dc83 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -545,6 +545,7 @@ def generate_parameters(
         if kwarg.default is None:
             # if we set the default to None, we need to make the annotation optional
             # complies with PEP 484
+            registry.register_import("typing.Optional")
             annotation = ast.Subscript(
                 value=ast.Name(id="Optional", ctx=ast.Load()),
                 slice=annotation,
-- 
2.43.0


From 72e707914df538df3ec555f12d6060bfdd97620e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:41 +0000
Subject: [PATCH 29/98] fix: members of union fragments inherit the additional
 bases of their type

---
 turms/plugins/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 487a367..2c4ac71 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -503,7 +503,6 @@ def generate_fragment(
 
     elif isinstance(type, GraphQLUnionType):
         base_fragment_name = registry.style_fragment_class(f.name.value)
-        additional_bases = get_additional_bases_for_type(type.name, config, registry)
 
         sub_nodes = non_typename_fields(f)
 
@@ -588,6 +587,7 @@ def generate_fragment(
                 class_name,
                 bases=merge_bases_sequences(
                     ast_base_nodes,
+                    get_additional_bases_for_type(i.name, config, registry),
                     get_fragment_bases("UNION", config, plugin_config, registry),
                 ),
                 decorator_list=[],
-- 
2.43.0


From 0952fc60f9b285e1fb8d9133d0da7ad3a97c8e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 30/98] fix: fragments on interfaces and unions honour freeze
 and options

---
 turms/plugins/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 2c4ac71..f7620d8 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -311,7 +311,8 @@ def generate_fragment(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                mother_class_fields if mother_class_fields else [ast.Pass()]
+                mother_class_fields if mother_class_fields else [ast.Pass()],
+                generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
             ),
         )
 
@@ -594,7 +595,9 @@ def generate_fragment(
                 keywords=[],
                 type_params=[],
                 body=merge_body_sequences(
-                    [generate_typename_field(i.name, registry, config)], inline_fields
+                    [generate_typename_field(i.name, registry, config)],
+                    inline_fields,
+                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
                 ),
             )
 
-- 
2.43.0


From 11a4dae14643fdfbeb4f3d35596d17e5a14be8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:35 +0000
Subject: [PATCH 31/98] fix: catch-all classes keep the fields selected through
 interface fragments

---
 turms/plugins/fragments.py | 17 ++++++++++++++++-
 turms/recurse.py           | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index f7620d8..4391013 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -3,6 +3,7 @@ import logging
 from collections import defaultdict, deque
 from typing import DefaultDict, Dict, List, Literal, Optional, Sequence, Set
 
+from graphql.utilities import is_type_sub_type_of
 from graphql import (
     DocumentNode,
     FieldNode,
@@ -224,6 +225,10 @@ def generate_fragment(
         # i.e eg subtype of the interface
         implementing_class_base_classes: Dict[str, List[str]] = {}
 
+        # The catch-all classes of the interface fragments spread in here, that
+        # apply to every implementation (also to those unknown to the schema)
+        catch_all_bases: List[str] = []
+
         # This is a map of inlien fragments field on their respective types
         inline_fragment_fields: Dict[str, List[ast.AnnAssign | ast.Expr]] = {}
 
@@ -241,6 +246,15 @@ def generate_fragment(
                     for k, v in implementation_map.items():
                         implementing_class_base_classes.setdefault(k, []).append(v)
 
+                    if is_type_sub_type_of(
+                        client_schema,
+                        type,
+                        registry.get_fragment_type(sub_node.name.value),
+                    ):
+                        catch_all_bases.append(
+                            f"{registry.inherit_fragment(sub_node.name.value)}Catch"
+                        )
+
                 except KeyError:
                     x = registry.get_fragment_type(sub_node.name.value)
                     implementing_class_base_classes.setdefault(x.name, []).append(
@@ -321,7 +335,8 @@ def generate_fragment(
         catch_class = ast.ClassDef(
             catch_class_name,
             bases=[
-                ast.Name(id=mother_class_name, ctx=ast.Load())
+                ast.Name(id=base, ctx=ast.Load())
+                for base in dict.fromkeys([*catch_all_bases, mother_class_name])
             ],  # Todo: fill with base
             decorator_list=[],
             keywords=[],
diff --git a/turms/recurse.py b/turms/recurse.py
index 9350a59..86f765f 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -1,6 +1,7 @@
 from typing import Any, Dict, List, Union, cast
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema, GraphQLWrappingType
+from graphql.utilities import is_type_sub_type_of
 from graphql.language.ast import (
     FieldNode,
     FragmentSpreadNode,
@@ -254,6 +255,10 @@ def recurse_annotation(
 
         implementing_class_base_classes: Dict[str, List[str]] = {}
 
+        # The catch-all classes of the interface fragments spread in here, that
+        # apply to every implementation (also to those unknown to the schema)
+        catch_all_bases: List[str] = []
+
         inline_fragment_fields: Dict[str, List[ast.AnnAssign | ast.Expr]] = {}
 
         for sub_node in sub_nodes:
@@ -269,6 +274,15 @@ def recurse_annotation(
                     for k, v in implementation_map.items():
                         implementing_class_base_classes.setdefault(k, []).append(v)
 
+                    if is_type_sub_type_of(
+                        client_schema,
+                        type,
+                        registry.get_fragment_type(sub_node.name.value),
+                    ):
+                        catch_all_bases.append(
+                            f"{registry.inherit_fragment(sub_node.name.value)}Catch"
+                        )
+
                 except KeyError:
                     x = registry.get_fragment_type(sub_node.name.value)
                     implementing_class_base_classes.setdefault(x.name, []).append(
@@ -440,6 +454,7 @@ def recurse_annotation(
             catch_all_class = ast.ClassDef(
                 catch_all_class_name,
                 bases=merge_bases_sequences(
+                    [ast.Name(id=base, ctx=ast.Load()) for base in catch_all_bases],
                     [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     get_interface_bases(config, registry),
                 ),  # Todo: fill with base
-- 
2.43.0


From fad046d4f3ac9d23412e2c378fb76146b5181ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:25 +0000
Subject: [PATCH 32/98] fix: spread fragments in any order, also repeatedly and
 together with the fragments they spread

---
 turms/plugins/fragments.py | 36 ++++++++++++++++++++---------------
 turms/recurse.py           | 39 +++++++++++++++++++++-----------------
 turms/registry.py          | 22 +++++++++++++++++++++
 3 files changed, 65 insertions(+), 32 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 4391013..aae6b15 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -336,7 +336,10 @@ def generate_fragment(
             catch_class_name,
             bases=[
                 ast.Name(id=base, ctx=ast.Load())
-                for base in dict.fromkeys([*catch_all_bases, mother_class_name])
+                for base in [
+                    *registry.order_fragment_bases(catch_all_bases),
+                    mother_class_name,
+                ]
             ],  # Todo: fill with base
             decorator_list=[],
             keywords=[],
@@ -372,7 +375,9 @@ def generate_fragment(
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-                for x in implementing_class_base_classes.get(i.name, [])
+                for x in registry.order_fragment_bases(
+                    implementing_class_base_classes.get(i.name, [])
+                )
             ]
             implementaionMap[i.name] = class_name
 
@@ -418,6 +423,8 @@ def generate_fragment(
 
         fields += [generate_typename_field(type.name, registry, config)]
 
+        fragment_class_bases: List[str] = []
+
         for field in f.selection_set.selections:
             if isinstance(field, FragmentDefinitionNode):  # pragma: no cover
                 continue
@@ -428,23 +435,15 @@ def generate_fragment(
                         field.name.value
                     )
                     if type.name in implementationMap:
-                        additional_bases = [
-                            ast.Name(
-                                id=implementationMap[type.name],
-                                ctx=ast.Load(),
-                            )
-                        ] + additional_bases
+                        fragment_class_bases.append(implementationMap[type.name])
                     else:
                         raise Exception(
                             f"Could not find implementation for {type.name} in {implementationMap}"
                         )
                 except KeyError:
-                    additional_bases = [
-                        ast.Name(
-                            id=registry.inherit_fragment(field.name.value),
-                            ctx=ast.Load(),
-                        )
-                    ] + additional_bases  # needs to be prepended (MRO)
+                    fragment_class_bases.append(
+                        registry.inherit_fragment(field.name.value)
+                    )
                 continue
 
             if isinstance(field, FieldNode):
@@ -502,6 +501,11 @@ def generate_fragment(
             ast.ClassDef(
                 name,
                 bases=merge_bases_sequences(
+                    # fragments need to come first (MRO)
+                    [
+                        ast.Name(id=x, ctx=ast.Load())
+                        for x in registry.order_fragment_bases(fragment_class_bases)
+                    ],
                     additional_bases,
                     get_fragment_bases("OBJECT", config, plugin_config, registry),
                 ),
@@ -593,7 +597,9 @@ def generate_fragment(
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-                for x in member_class_base_classes.get(i.name, [])
+                for x in registry.order_fragment_bases(
+                    member_class_base_classes.get(i.name, [])
+                )
             ]
             implementationMap[i.name] = class_name
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 86f765f..2cbffbd 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -103,7 +103,7 @@ def recurse_annotation(
                     f"{parent}{sub_node.type_condition.name.value}InlineFragment",
                     subtree,
                 )
-                spread_fragment_bases: list[ast.Name] = []
+                spread_fragment_bases: list[str] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
 
                 if not sub_node.selection_set:
@@ -118,10 +118,7 @@ def recurse_annotation(
                                 "Interface Fragments with additional subfields are not yet implemented"
                             )
                         spread_fragment_bases.append(
-                            ast.Name(
-                                id=registry.inherit_fragment(sub_sub_node.name.value),
-                                ctx=ast.Load(),
-                            )
+                            registry.inherit_fragment(sub_sub_node.name.value)
                         )
                         continue
 
@@ -160,7 +157,10 @@ def recurse_annotation(
                     ]
 
                 if spread_fragment_bases:
-                    additional_bases = spread_fragment_bases
+                    additional_bases = [
+                        ast.Name(id=x, ctx=ast.Load())
+                        for x in registry.order_fragment_bases(spread_fragment_bases)
+                    ]
                 else:
                     additional_bases = get_additional_bases_for_type(
                         sub_node.type_condition.name.value, config, registry
@@ -384,7 +384,9 @@ def recurse_annotation(
 
             ast_base_nodes = [
                 ast.Name(id=x, ctx=ast.Load())
-                for x in implementing_class_base_classes.get(i.name, [])
+                for x in registry.order_fragment_bases(
+                    implementing_class_base_classes.get(i.name, [])
+                )
             ]
             implementaionMap[i.name] = class_name
 
@@ -454,7 +456,10 @@ def recurse_annotation(
             catch_all_class = ast.ClassDef(
                 catch_all_class_name,
                 bases=merge_bases_sequences(
-                    [ast.Name(id=base, ctx=ast.Load()) for base in catch_all_bases],
+                    [
+                        ast.Name(id=base, ctx=ast.Load())
+                        for base in registry.order_fragment_bases(catch_all_bases)
+                    ],
                     [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     get_interface_bases(config, registry),
                 ),  # Todo: fill with base
@@ -548,7 +553,7 @@ def recurse_annotation(
                 else:
                     return reference
 
-        additional_bases: list[ast.Name] = []
+        fragment_bases: list[str] = []
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
@@ -560,15 +565,10 @@ def recurse_annotation(
                     )
                 )
                 if implementation is not None:
-                    additional_bases.append(
-                        ast.Name(id=implementation, ctx=ast.Load())
-                    )
+                    fragment_bases.append(implementation)
                 else:
-                    additional_bases.append(
-                        ast.Name(
-                            id=registry.inherit_fragment(sub_node.name.value),
-                            ctx=ast.Load(),
-                        )
+                    fragment_bases.append(
+                        registry.inherit_fragment(sub_node.name.value)
                     )
 
             if isinstance(sub_node, FieldNode):
@@ -588,6 +588,11 @@ def recurse_annotation(
             if isinstance(sub_node, InlineFragmentNode):
                 raise NotImplementedError("Inline Fragments are not yet implemented")
 
+        additional_bases = [
+            ast.Name(id=x, ctx=ast.Load())
+            for x in registry.order_fragment_bases(fragment_bases)
+        ]
+
         if not additional_bases:
             # We need to add the base class if we have no fragments
             additional_bases = get_additional_bases_for_type(
diff --git a/turms/registry.py b/turms/registry.py
index ffcf947..d1b7477 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -528,6 +528,28 @@ class ClassRegistry(object):
             )
         return self.fragment_class_map[typename]
 
+    def order_fragment_bases(self, class_names: List[str]) -> List[str]:
+        """Orders the fragment classes a generated class inherits from.
+
+        A fragment is always generated after the fragments it spreads. Listing
+        every class once and the latest fragment first therefore puts subclasses
+        in front of their bases, so that python can always linearize the bases,
+        in whatever order the fragments were spread."""
+        rank: Dict[str, int] = {}
+        for index, (fragmentname, class_name) in enumerate(
+            self.fragment_class_map.items()
+        ):
+            rank[class_name] = index
+            rank[f"{class_name}Catch"] = index
+            for members in (
+                self.interfacefragments_impl_map.get(fragmentname, {}),
+                self.unionfragment_members_map.get(fragmentname, {}),
+            ):
+                for member in members.values():
+                    rank[member] = index
+
+        return sorted(dict.fromkeys(class_names), key=lambda x: -rank.get(x, -1))
+
     def generate_node_name(self, node_name: str):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
-- 
2.43.0


From 89a70bcd0774c89708e66a01bdd13693bd20eb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:22 +0000
Subject: [PATCH 33/98] fix: spread interface and object fragments in unions
 and union fragments

---
 turms/plugins/fragments.py | 26 +++++++++++++++++++++-----
 turms/recurse.py           | 30 +++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 12 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index aae6b15..1c3331a 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -535,10 +535,23 @@ def generate_fragment(
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
                 # Spread nodes are like inheritance
-                # We are dealing with a fragment that is a union
-                implementation_map = registry.get_union_fragment_members(
-                    sub_node.name.value
-                )
+                fragment_type = registry.get_fragment_type(sub_node.name.value)
+                if isinstance(fragment_type, GraphQLUnionType):
+                    implementation_map = registry.get_union_fragment_members(
+                        sub_node.name.value
+                    )
+                elif isinstance(fragment_type, GraphQLInterfaceType):
+                    implementation_map = (
+                        registry.get_interface_fragment_implementations(
+                            sub_node.name.value
+                        )
+                    )
+                else:
+                    implementation_map = {
+                        fragment_type.name: registry.inherit_fragment(
+                            sub_node.name.value
+                        )
+                    }
                 for k, v in implementation_map.items():
                     member_class_base_classes.setdefault(k, []).append(v)
 
@@ -554,7 +567,10 @@ def generate_fragment(
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            registry.inherit_fragment(field.name.value)
+                            registry.get_interface_fragment_implementation_or_none(
+                                field.name.value, on_type_name
+                            )
+                            or registry.inherit_fragment(field.name.value)
                         )
                         continue
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 2cbffbd..4f9ac94 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -95,8 +95,24 @@ def recurse_annotation(
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
-                fragment_name = registry.inherit_fragment(sub_node.name.value)
-                union_class_names.append(fragment_name)
+                try:
+                    # An interface fragment applies to the members of the union
+                    # that implement the interface
+                    implementation_map = (
+                        registry.get_interface_fragment_implementations(
+                            sub_node.name.value
+                        )
+                    )
+                    union_class_names += [
+                        implementation_map[member.name]
+                        for member in type.types
+                        if member.name in implementation_map
+                    ]
+
+                except KeyError:
+                    union_class_names.append(
+                        registry.inherit_fragment(sub_node.name.value)
+                    )
 
             if isinstance(sub_node, InlineFragmentNode):
                 inline_fragment_name = unique_class_name(
@@ -113,12 +129,12 @@ def recurse_annotation(
 
                 for sub_sub_node in sub_node.selection_set.selections:
                     if isinstance(sub_sub_node, FragmentSpreadNode):
-                        if registry.is_interface_fragment(sub_sub_node.name.value):
-                            raise Exception(
-                                "Interface Fragments with additional subfields are not yet implemented"
-                            )
                         spread_fragment_bases.append(
-                            registry.inherit_fragment(sub_sub_node.name.value)
+                            registry.get_interface_fragment_implementation_or_none(
+                                sub_sub_node.name.value,
+                                sub_node.type_condition.name.value,
+                            )
+                            or registry.inherit_fragment(sub_sub_node.name.value)
                         )
                         continue
 
-- 
2.43.0


From 9c20bd441b64eef8d5d38328c50f4ffd88eebcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 34/98] fix: freeze, options and additional_config of a type
 reach every model of that type

---
 turms/plugins/fragments.py | 17 +++++++++++++----
 turms/recurse.py           | 20 +++++++++++++++-----
 turms/utils.py             |  2 ++
 3 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 1c3331a..6cf5757 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -325,8 +325,7 @@ def generate_fragment(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                mother_class_fields if mother_class_fields else [ast.Pass()],
-                generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                mother_class_fields if mother_class_fields else [ast.Pass()]
             ),
         )
 
@@ -354,6 +353,9 @@ def generate_fragment(
                     generate_generic_typename_field(registry, config),
                 ],
                 mother_class_fields,
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, type.name
+                ),
             ),
         )
 
@@ -400,6 +402,9 @@ def generate_fragment(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
@@ -514,7 +519,9 @@ def generate_fragment(
                 type_params=[],
                 body=merge_body_sequences(
                     fields,
-                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, type.name
+                    ),
                     meta_body,
                 ),
             )
@@ -634,7 +641,9 @@ def generate_fragment(
                 body=merge_body_sequences(
                     [generate_typename_field(i.name, registry, config)],
                     inline_fields,
-                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
diff --git a/turms/recurse.py b/turms/recurse.py
index 4f9ac94..fb0d60d 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -190,7 +190,10 @@ def recurse_annotation(
                 merged_body = merge_body_sequences(
                     this_inline_fragment_fields,
                     generate_pydantic_config(
-                        GraphQLTypes.FRAGMENT, config, registry
+                        GraphQLTypes.FRAGMENT,
+                        config,
+                        registry,
+                        sub_node.type_condition.name.value,
                     ),
                 )
                 if not merged_body:
@@ -378,9 +381,7 @@ def recurse_annotation(
             decorator_list=[],
             keywords=[],
             type_params=[],
-            body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry)
-            ),
+            body=merge_body_sequences(body),
         )
         subtree.append(mother_class)
 
@@ -427,6 +428,9 @@ def recurse_annotation(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, i.name
+                    ),
                 ),
             )
 
@@ -489,6 +493,9 @@ def recurse_annotation(
                         )
                     ),
                     generate_generic_typename_field(registry=registry, config=config),
+                    *generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, type.name
+                    ),
                 ],
             )
 
@@ -630,7 +637,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.OBJECT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.OBJECT, config, registry, type.name
+                ),
             ),
         )
 
diff --git a/turms/utils.py b/turms/utils.py
index 30d5c52..346beb1 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -288,6 +288,8 @@ def generate_config_dict(
     if typename:
         if typename in config.additional_config:
             for key, value in config.additional_config[typename].items():
+                # attributes of a specific type take precedence
+                config_keywords = [kw for kw in config_keywords if kw.arg != key]
                 config_keywords.append(
                     ast.keyword(arg=key, value=ast.Constant(value=value))
                 )
-- 
2.43.0


From f8e777e1b89a3911a5031cc8e613318367f2e46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:25 +0000
Subject: [PATCH 35/98] fix: a styled discriminator field does not duplicate
 the Literal of a union member

---
 turms/plugins/inputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 010f234..bbe14ed 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -258,7 +258,7 @@ def generate_input_type(
 
     for value_key, value in type.fields.items():
         field_name = registry.generate_node_name(value_key)
-        if field_name in discriminator_names:
+        if value_key in discriminator_names:
             continue
         # A field is omittable (and thus optional, defaulting to None) when it is
         # nullable OR carries a schema default. For a default we no longer bake the
-- 
2.43.0


From fddc15c8bc760718304205eb605fdbf56d0f15af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:58 +0000
Subject: [PATCH 36/98] fix: union fields accept the members a selection has no
 fields for

---
 turms/recurse.py | 53 +++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 52 insertions(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index fb0d60d..6e59f6d 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, List, Union, cast
+from typing import Any, Dict, List, Sequence, Union, cast
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema, GraphQLWrappingType
 from graphql.utilities import is_type_sub_type_of
@@ -29,6 +29,7 @@ from graphql.type.definition import (
     GraphQLField,
     GraphQLInterfaceType,
     GraphQLList,
+    GraphQLNamedType,
     GraphQLNonNull,
     GraphQLObjectType,
     GraphQLScalarType,
@@ -48,6 +49,15 @@ def unique_class_name(name: str, subtree: list, suffix: str = "") -> str:
     return unique
 
 
+def possible_types(
+    client_schema: GraphQLSchema, type: GraphQLNamedType
+) -> Sequence[GraphQLObjectType]:
+    """Returns the object types a value of the type can have"""
+    if isinstance(type, GraphQLObjectType):
+        return [type]
+    return client_schema.get_possible_types(type)
+
+
 def recurse_annotation(
     node: FieldNode,
     parent: str,
@@ -90,11 +100,19 @@ def recurse_annotation(
 
     if isinstance(type, GraphQLUnionType):
         union_class_names: List[str] = []
+        # The members of the union that the selection has fields for
+        selected_members: set[str] = set()
 
         sub_nodes = non_typename_fields(node)
 
         for sub_node in sub_nodes:
             if isinstance(sub_node, FragmentSpreadNode):
+                selected_members.update(
+                    possible.name
+                    for possible in possible_types(
+                        client_schema, registry.get_fragment_type(sub_node.name.value)
+                    )
+                )
                 try:
                     # An interface fragment applies to the members of the union
                     # that implement the interface
@@ -115,6 +133,7 @@ def recurse_annotation(
                     )
 
             if isinstance(sub_node, InlineFragmentNode):
+                selected_members.add(sub_node.type_condition.name.value)
                 inline_fragment_name = unique_class_name(
                     f"{parent}{sub_node.type_condition.name.value}InlineFragment",
                     subtree,
@@ -211,6 +230,38 @@ def recurse_annotation(
                 subtree.append(cls)
                 union_class_names.append(inline_fragment_name)
 
+        for member in type.types:
+            # The server answers with nothing but the typename for the members
+            # that the selection has no fields for
+            if member.name in selected_members:
+                continue
+
+            member_class_name = unique_class_name(
+                f"{parent}{member.name}InlineFragment", subtree
+            )
+            subtree.append(
+                ast.ClassDef(
+                    member_class_name,
+                    bases=merge_bases_sequences(
+                        get_additional_bases_for_type(member.name, config, registry),
+                        [
+                            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                            for base in config.object_bases
+                        ],
+                    ),
+                    decorator_list=[],
+                    keywords=[],
+                    type_params=[],
+                    body=merge_body_sequences(
+                        [generate_typename_field(member.name, registry, config)],
+                        generate_pydantic_config(
+                            GraphQLTypes.FRAGMENT, config, registry, member.name
+                        ),
+                    ),
+                )
+            )
+            union_class_names.append(member_class_name)
+
         if len(union_class_names) > 1:
             registry.register_import("typing.Union")
             union_slice = ast.Tuple(
-- 
2.43.0


From 16f23b98ff2d7410dc6d024c158797f34c58f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:28 +0000
Subject: [PATCH 37/98] fix: fields named like the annotations or the
 discriminator of their model get a suffix

---
 turms/registry.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index d1b7477..9b68306 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -23,6 +23,24 @@ SCALAR_DEFAULTS: Dict[str, str] = {
     "Float": "float",
 }
 
+# Names a generated class body relies on: a field of that name would shadow the
+# annotation of the fields next to it (or the discriminator of the model).
+RESERVED_FIELD_NAMES: Set[str] = {
+    "typename",
+    "int",
+    "str",
+    "float",
+    "bool",
+    "Optional",
+    "List",
+    "Tuple",
+    "Dict",
+    "Union",
+    "Literal",
+    "Annotated",
+    "Field",
+}
+
 # Annotated metadata markers generated into the output module (unless the user
 # overrides them via config). Authored as source and parsed to AST for clarity.
 _GRAPHQL_DEFAULT_SRC = """
@@ -554,7 +572,7 @@ class ClassRegistry(object):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
 
-        if iskeyword(node_name):
+        if iskeyword(node_name) or node_name in RESERVED_FIELD_NAMES:
             return node_name + "_"
 
         return node_name
-- 
2.43.0


From 3d08aa2cd21b02fc2fbad09bc820099a9792040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 38/98] fix: fields named like an attribute of the model stay
 required and get a suffix

---
 turms/plugins/operations.py |  2 +-
 turms/registry.py           | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 01633ce..016fd12 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -331,7 +331,7 @@ def generate_operation(
                     else None
                 ),
             )
-            field_name = registry.generate_parameter_name(v.variable.name.value)
+            field_name = registry.generate_argument_name(v.variable.name.value)
             target = v.variable.name.value
 
             if target != field_name:
diff --git a/turms/registry.py b/turms/registry.py
index 9b68306..acc0de1 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -3,6 +3,7 @@ from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
 
 from graphql import DocumentNode, GraphQLNamedType
+from pydantic import BaseModel
 
 from turms.config import GeneratorConfig, LogFunction, PythonType
 from turms.errors import (
@@ -24,8 +25,10 @@ SCALAR_DEFAULTS: Dict[str, str] = {
 }
 
 # Names a generated class body relies on: a field of that name would shadow the
-# annotation of the fields next to it (or the discriminator of the model).
+# annotation of the fields next to it (or the discriminator of the model), or take
+# the model's attribute of that name for its default.
 RESERVED_FIELD_NAMES: Set[str] = {
+    *(name for name in dir(BaseModel) if not name.startswith("_")),
     "typename",
     "int",
     "str",
@@ -572,10 +575,17 @@ class ClassRegistry(object):
         for styler in self.stylers:
             node_name = styler.style_node_name(node_name)
 
-        if iskeyword(node_name) or node_name in RESERVED_FIELD_NAMES:
-            return node_name + "_"
+        return self._escape_field_name(node_name)
 
-        return node_name
+    def _escape_field_name(self, field_name: str) -> str:
+        if iskeyword(field_name) or field_name in RESERVED_FIELD_NAMES:
+            return field_name + "_"
+
+        return field_name
+
+    def generate_argument_name(self, variable_name: str):
+        """The field of the Arguments model that holds a variable"""
+        return self._escape_field_name(self.generate_parameter_name(variable_name))
 
     def generate_parameter_name(self, node_name: str):
         for styler in self.stylers:
-- 
2.43.0


From 428dc0439a669c011816db8824d8790c91381f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:41 +0000
Subject: [PATCH 39/98] fix: enum values named like a python keyword or a
 reserved enum name get a suffix

---
 turms/plugins/enums.py |  7 ++++++-
 turms/registry.py      | 17 +++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e06a193..bcaf942 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -73,7 +73,12 @@ def generate_enums(
                 servalue = value.value.value
 
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=registry.generate_enum_member_name(value_key, type.values),
+                        ctx=ast.Store(),
+                    )
+                ],
                 value=ast.Constant(value=servalue),
             )
 
diff --git a/turms/registry.py b/turms/registry.py
index acc0de1..7e4a656 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -337,6 +337,23 @@ class ClassRegistry(object):
         self.enum_class_map[typename] = classname
         return classname
 
+    def generate_enum_member_name(self, value_name: str, value_names) -> str:
+        """The name of the member of an enum value: the name of the value, unless
+        python reserves that name. Never the name of another value."""
+        is_sunder = (
+            len(value_name) > 2
+            and value_name[0] == value_name[-1] == "_"
+            and "_" not in (value_name[1], value_name[-2])
+        )
+        if not (iskeyword(value_name) or value_name == "mro" or is_sunder):
+            return value_name
+
+        member_name = value_name + "_"
+        while member_name in value_names:
+            member_name += "_"
+
+        return member_name
+
     def register_builtin(self, typename: str) -> None:
         """Register a builtin definition (from ``built_in_map``) to be emitted at
         the top of the generated module. Deduplicated via the builtins set."""
-- 
2.43.0


From 75e3aeee0d004843dd422f66e1a3c3486085466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:47 +0000
Subject: [PATCH 40/98] fix: fields named like a type their class refers to, or
 with a leading underscore, get a usable name

---
 turms/plugins/funcs.py |  16 +++--
 turms/registry.py      | 134 +++++++++++++++++++++++++++++++++++------
 turms/run.py           |   4 +-
 3 files changed, 132 insertions(+), 22 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 035dc83..7592b83 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -1064,7 +1064,9 @@ def genereate_async_call(
                         ],
                     )
                 ),
-                attr=registry.generate_node_name(correct_attr),
+                attr=registry.generate_attribute_name(
+                    get_operation_class_name(o, registry), correct_attr
+                ),
                 ctx=ast.Load(),
             )
         )
@@ -1132,7 +1134,9 @@ def genereate_sync_call(
                         ),
                     ],
                 ),
-                attr=registry.generate_node_name(correct_attr),
+                attr=registry.generate_attribute_name(
+                    get_operation_class_name(o, registry), correct_attr
+                ),
                 ctx=ast.Load(),
             )
         )
@@ -1209,7 +1213,9 @@ def genereate_async_iterator(
                         value=ast.Attribute(
                             value=ast.Name(id="event", ctx=ast.Load()),
                             ctx=ast.Load(),
-                            attr=registry.generate_node_name(correct_attr),
+                            attr=registry.generate_attribute_name(
+                                get_operation_class_name(o, registry), correct_attr
+                            ),
                         )
                     )
                 ),
@@ -1289,7 +1295,9 @@ def genereate_sync_iterator(
                         value=ast.Attribute(
                             value=ast.Name(id="event", ctx=ast.Load()),
                             ctx=ast.Load(),
-                            attr=registry.generate_node_name(correct_attr),
+                            attr=registry.generate_attribute_name(
+                                get_operation_class_name(o, registry), correct_attr
+                            ),
                         )
                     )
                 ),
diff --git a/turms/registry.py b/turms/registry.py
index 7e4a656..44acab7 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,6 +1,6 @@
 import ast
 from keyword import iskeyword
-from typing import Callable, Dict, List, Optional, Set, Type
+from typing import Callable, Dict, List, Optional, Sequence, Set, Tuple, Type
 
 from graphql import DocumentNode, GraphQLNamedType
 from pydantic import BaseModel
@@ -24,24 +24,11 @@ SCALAR_DEFAULTS: Dict[str, str] = {
     "Float": "float",
 }
 
-# Names a generated class body relies on: a field of that name would shadow the
-# annotation of the fields next to it (or the discriminator of the model), or take
-# the model's attribute of that name for its default.
+# Names that a field of a model cannot have: the discriminator of the model, and
+# its attributes (a field would take them for its default).
 RESERVED_FIELD_NAMES: Set[str] = {
-    *(name for name in dir(BaseModel) if not name.startswith("_")),
     "typename",
-    "int",
-    "str",
-    "float",
-    "bool",
-    "Optional",
-    "List",
-    "Tuple",
-    "Dict",
-    "Union",
-    "Literal",
-    "Annotated",
-    "Field",
+    *(name for name in dir(BaseModel) if not name.startswith("_")),
 }
 
 # Annotated metadata markers generated into the output module (unless the user
@@ -232,6 +219,37 @@ built_in_map = {
 }  # builtin map provides the default types for any schema if they are referenced
 
 
+def find_type_names(field: ast.AnnAssign) -> Tuple[Set[str], Set[str]]:
+    """The names a field refers to in its annotation and value, and those that it
+    refers to through forward references."""
+    direct: Set[str] = set()
+    deferred: Set[str] = set()
+
+    def visit(node: ast.AST, is_type: bool) -> None:
+        if isinstance(node, ast.Name):
+            direct.add(node.id)
+        elif isinstance(node, ast.Constant):
+            if is_type and isinstance(node.value, str):
+                deferred.add(node.value)
+        elif isinstance(node, ast.Subscript):
+            visit(node.value, is_type)
+            is_literal = isinstance(node.value, ast.Name) and (
+                node.value.id == "Literal"
+            )
+            visit(node.slice, is_type and not is_literal)
+        elif isinstance(node, ast.Call):
+            for child in ast.iter_child_nodes(node):
+                visit(child, False)
+        else:
+            for child in ast.iter_child_nodes(node):
+                visit(child, is_type)
+
+    visit(field.annotation, True)
+    if field.value is not None:
+        visit(field.value, False)
+    return direct, deferred
+
+
 class ClassRegistry(object):
     """Class Registry is responsible for keeping track of all the classes that are generated
     as well as their names. It also keeps track of all the imports that are required for the
@@ -256,6 +274,10 @@ class ClassRegistry(object):
         self.fragment_document_map: Dict[str, str] = {}
 
         self.enum_class_map: Dict[str, str] = {}
+
+        # (class name, field name) of the fields that were named like a type of
+        # their class, and the names they got
+        self.separated_fields: Dict[Tuple[str, str], str] = {}
         self.inputtype_class_map: Dict[str, str] = {}
         self.object_class_map: Dict[str, str] = {}
         self.interface_reference_map: Dict[str, str] = {}
@@ -595,11 +617,89 @@ class ClassRegistry(object):
         return self._escape_field_name(node_name)
 
     def _escape_field_name(self, field_name: str) -> str:
+        if field_name.startswith("_"):
+            # Models only have private attributes with such names
+            public_name = field_name.lstrip("_")
+            if not public_name.isidentifier():
+                public_name = f"field_{public_name}"
+            return public_name + "_"
+
         if iskeyword(field_name) or field_name in RESERVED_FIELD_NAMES:
             return field_name + "_"
 
         return field_name
 
+    def separate_fields_from_types(self, tree: Sequence[ast.AST]) -> None:
+        """Renames the fields that are named like a type their class refers to.
+
+        A field with a default is bound in the class body, and hides the type from
+        the annotations that follow (``date: Optional[date] = None``)."""
+        for node in tree:
+            for class_def in ast.walk(node):
+                if isinstance(class_def, ast.ClassDef):
+                    self._separate_fields_of_class(class_def)
+
+    def _separate_fields_of_class(self, class_def: ast.ClassDef) -> None:
+        statements: List[ast.AST] = []
+        for statement in class_def.body:
+            statements += statement if isinstance(statement, list) else [statement]
+
+        fields = [
+            statement
+            for statement in statements
+            if isinstance(statement, ast.AnnAssign)
+            and isinstance(statement.target, ast.Name)
+        ]
+        taken = {field.target.id for field in fields}
+
+        # The names each field needs: directly, or when the model is completed
+        names = [find_type_names(field) for field in fields]
+        deferred = set().union(*(later for _, later in names))
+
+        for index, field in enumerate(fields):
+            name = field.target.id
+            is_field_call = (
+                isinstance(field.value, ast.Call)
+                and isinstance(field.value.func, ast.Name)
+                and field.value.func.id == "Field"
+            )
+            is_none = isinstance(field.value, ast.Constant) and (
+                field.value.value is None
+            )
+            if not is_field_call and not is_none:
+                continue
+
+            if name not in deferred and not any(
+                name in direct for direct, _ in names[index:]
+            ):
+                continue
+
+            new_name = name + "_"
+            while new_name in taken or any(
+                new_name in direct | later for direct, later in names
+            ):
+                new_name += "_"
+            taken.add(new_name)
+
+            if is_none:
+                field.value = ast.Call(
+                    func=ast.Name(id="Field", ctx=ast.Load()),
+                    args=[],
+                    keywords=[ast.keyword(arg="default", value=field.value)],
+                )
+            if not any(keyword.arg == "alias" for keyword in field.value.keywords):
+                field.value.keywords.append(
+                    ast.keyword(arg="alias", value=ast.Constant(value=name))
+                )
+            self.register_import("pydantic.Field")
+            field.target = ast.Name(id=new_name, ctx=ast.Store())
+            self.separated_fields[(class_def.name, name)] = new_name
+
+    def generate_attribute_name(self, class_name: str, node_name: str) -> str:
+        """The attribute of a generated class that holds a selected field"""
+        field_name = self.generate_node_name(node_name)
+        return self.separated_fields.get((class_name, field_name), field_name)
+
     def generate_argument_name(self, variable_name: str):
         """The field of the Arguments model that holds a variable"""
         return self._escape_field_name(self.generate_parameter_name(variable_name))
diff --git a/turms/run.py b/turms/run.py
index d61f3d6..d0940ba 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -493,7 +493,9 @@ def generate_ast(
 
     for plugin in plugins:
         try:
-            global_tree += plugin.generate_ast(schema, config, registry)
+            plugin_tree = plugin.generate_ast(schema, config, registry)
+            registry.separate_fields_from_types(plugin_tree)
+            global_tree += plugin_tree
         except Exception as e:
             raise GenerationError(
                 f"{plugin.__class__.__name__} failed!\n {str(e)}"
-- 
2.43.0


From 448a6c6f831cff24d4aafb2f473a814c4039ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:17 +0000
Subject: [PATCH 41/98] fix: members of an input union count as referenced
 where the union is

---
 turms/referencer.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/turms/referencer.py b/turms/referencer.py
index e0d6c5b..21edf1d 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -1,4 +1,4 @@
-from typing import Dict, Set
+from typing import Dict, List, Set
 from graphql import (
     FragmentDefinitionNode,
     GraphQLEnumType,
@@ -153,6 +153,24 @@ def recurse_find_references(
         raise Exception("Unknown Type", type(graphql_type), graphql_type)
 
 
+def find_union_members(
+    union: str, schema: GraphQLSchema
+) -> List[GraphQLInputObjectType]:
+    """The input types that declare to be members of the union with the
+    ``@unionElementOf`` directive"""
+    members = []
+    for type in schema.type_map.values():
+        if not isinstance(type, GraphQLInputObjectType) or not type.ast_node:
+            continue
+        for directive in type.ast_node.directives:
+            if directive.name.value == "unionElementOf" and any(
+                arg.name.value == "union" and arg.value.value == union
+                for arg in directive.arguments
+            ):
+                members.append(type)
+    return members
+
+
 def recurse_type_annotation(
     field: GraphQLInputField,
     graphql_type: NamedTypeNode,
@@ -200,6 +218,10 @@ def recurse_type_annotation(
             for key, node in graphql_type.fields.items():
                 recurse_type_annotation(node, node.type, schema, registry)
 
+            # ... and, if it is a placeholder of an input union, all its members
+            for member in find_union_members(graphql_type.name, schema):
+                recurse_type_annotation(field, member, schema, registry)
+
     else:
         raise Exception("Unknown Type", field, graphql_type)
 
-- 
2.43.0


From 3f8aff4d8266b4d0933e4042745dc64a5b965821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 42/98] fix: the discriminator of an input union is named like
 any other field

---
 turms/plugins/inputs.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index bbe14ed..2046ee2 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -228,9 +228,19 @@ def generate_input_type(
     for discriminator in discriminators or []:
         registry.register_import("typing.Literal")
         registry.register_import("pydantic.Field")
+        field_name = registry.generate_node_name(discriminator.discriminator)
+        keywords = [
+            ast.keyword(arg="default", value=ast.Constant(value=discriminator.value))
+        ]
+        if field_name != discriminator.discriminator:
+            keywords.append(
+                ast.keyword(
+                    arg="alias", value=ast.Constant(value=discriminator.discriminator)
+                )
+            )
         fields.append(
             ast.AnnAssign(
-                target=ast.Name(discriminator.discriminator, ctx=ast.Store()),
+                target=ast.Name(field_name, ctx=ast.Store()),
                 annotation=ast.Subscript(
                     value=ast.Name("Literal", ctx=ast.Load()),
                     slice=ast.Constant(value=discriminator.value),
@@ -239,11 +249,7 @@ def generate_input_type(
                 value=ast.Call(
                     func=ast.Name(id="Field", ctx=ast.Load()),
                     args=[],
-                    keywords=[
-                        ast.keyword(
-                            arg="default", value=ast.Constant(value=discriminator.value)
-                        )
-                    ],
+                    keywords=keywords,
                 ),
                 simple=1,
             )
@@ -319,7 +325,9 @@ def generate_input_type(
         # exclude_unset dump (the proxy contract) would drop it from the wire —
         # but the server needs it to discriminate. Mark it as set on every
         # construction so it always serializes.
-        names = ", ".join(repr(d.discriminator) for d in discriminators)
+        names = ", ".join(
+            repr(registry.generate_node_name(d.discriminator)) for d in discriminators
+        )
         fields += ast.parse(
             "def model_post_init(self, context):\n"
             f"    self.__pydantic_fields_set__.update({{{names}}})\n"
@@ -690,7 +698,9 @@ def generate_inputs(
                             ast.keyword(
                                 arg="discriminator",
                                 value=ast.Constant(
-                                    union_type_discriminators[type.name]
+                                    registry.generate_node_name(
+                                        union_type_discriminators[type.name]
+                                    )
                                 ),
                             )
                         ],
-- 
2.43.0


From fa0979fbe297d8c2644c2bf781bb5917c2aaf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 43/98] fix: refuse a one-of wrapper class named like an enum

---
 turms/plugins/inputs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 2046ee2..5cff65f 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -431,6 +431,7 @@ def generate_oneof_wrapper_input(
     for value_key, value in type.fields.items():
         try:
             classname = registry.generate_inputtype(f"{type.name}{_pascal(value_key)}")
+            assert classname not in registry.enum_class_map.values()
         except AssertionError as e:
             raise GenerationError(
                 f"Cannot generate wrapper class for field '{value_key}' of @oneOf "
-- 
2.43.0


From fb4d69412038799b6152304f35a0fd128c42206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:26 +0000
Subject: [PATCH 44/98] fix: refuse two members of an input union with the same
 key

---
 turms/plugins/inputs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 5cff65f..dfc5e31 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -13,7 +13,7 @@ from turms.errors import GenerationError
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
-from typing import Dict, List, Optional
+from typing import Dict, List, Optional, Tuple
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
 from turms.plugins.base import Plugin
@@ -564,6 +564,7 @@ def generate_inputs(
 
     union_input_types = {}
     union_type_discriminators = {}
+    union_member_keys: Dict[Tuple[str, str], str] = {}
     # Member types generated by the unionElementOf pre-pass; the main loop must
     # not generate them a second time.
     union_member_types = set()
@@ -596,6 +597,12 @@ def generate_inputs(
                     )
             else:
                 union_type_discriminators[union_type] = discriminator
+            other = union_member_keys.setdefault((union_type, member_key), type.name)
+            if other != type.name:
+                raise GenerationError(
+                    f"'{other}' and '{type.name}' use the same key '{member_key}' "
+                    f"in union '{union_type}'."
+                )
             memberships.append((union_type, discriminator, member_key))
 
         if not memberships:
-- 
2.43.0


From e93f89f41359d8492237893b8078a92add933339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 45/98] fix: generated functions and their parameters never
 hide what the functions refer to

---
 turms/plugins/funcs.py       | 120 ++++++++++++++++++++++++++++++-----
 turms/plugins/input_funcs.py |  22 +++++--
 2 files changed, 120 insertions(+), 22 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 7592b83..eeb48e1 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -3,7 +3,8 @@ from __future__ import annotations
 import ast
 import logging
 import re
-from typing import Any, List, Optional, Tuple
+from keyword import iskeyword
+from typing import Any, List, Optional, Set, Tuple
 
 
 from graphql import (
@@ -104,6 +105,37 @@ def camel_to_snake(name: str) -> str:
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
 
 
+def separate_func_name(
+    func_name: str, registry: ClassRegistry, used_names: Set[str]
+) -> str:
+    """A function must be callable by its name, and not hide the classes of its module
+    or what the functions refer to."""
+    used_names = {
+        *used_names,
+        *registry.enum_class_map.values(),
+        *registry.inputtype_class_map.values(),
+        *registry.fragment_class_map.values(),
+        *registry.query_class_map.values(),
+        *registry.mutation_class_map.values(),
+        *registry.subscription_class_map.values(),
+    }
+    while iskeyword(func_name) or func_name in used_names:
+        func_name += "_"
+    return func_name
+
+
+def generate_func_name(
+    func_name: str,
+    o: OperationDefinitionNode,
+    plugin_config: FuncsPluginConfig,
+    registry: ClassRegistry,
+) -> str:
+    used_names: Set[str] = set()
+    for definition in plugin_config.definitions:
+        used_names |= get_used_names(definition, o, registry)
+    return separate_func_name(func_name, registry, used_names)
+
+
 def generate_async_func_name(
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
@@ -112,7 +144,12 @@ def generate_async_func_name(
 ):
     if not o.name:
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    return generate_func_name(
+        f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}",
+        o,
+        plugin_config,
+        registry,
+    )
 
 
 def generate_sync_func_name(
@@ -123,7 +160,12 @@ def generate_sync_func_name(
 ):
     if not o.name:  # pragma: no cover
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    return generate_func_name(
+        f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}",
+        o,
+        plugin_config,
+        registry,
+    )
 
 
 def get_extra_args_for_onode(
@@ -319,6 +361,24 @@ def generate_input_type_descriptions(
     return description
 
 
+def get_used_names(
+    definition: FunctionDefinition, o: OperationDefinitionNode, registry: ClassRegistry
+) -> Set[str]:
+    """What the body of an operation's function refers to."""
+    return {
+        definition.use.split(".")[-1],
+        get_operation_class_name(o, registry),
+        "UNSET",
+    }
+
+
+def separate_parameter_name(parameter_name: str, used_names: Set[str]) -> str:
+    """A parameter must not hide what the body of its function refers to."""
+    while parameter_name in used_names:
+        parameter_name += "_"
+    return parameter_name
+
+
 def coercible_input_union(
     inputtype_reference: ast.expr,
     coercible: PythonType,
@@ -408,13 +468,16 @@ def generate_input_type_params(
     input_type: GraphQLInputObjectType,
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
+    used_names: Set[str],
 ):
     pos_args = []
     kw_args = []
     kw_values = []
 
     for value_key, value in input_type.fields.items():
-        field_name = registry.generate_node_name(value_key)
+        field_name = separate_parameter_name(
+            registry.generate_node_name(value_key), used_names
+        )
 
         if is_required_input_field(value):
             pos_args.append(
@@ -460,6 +523,7 @@ def generate_parameters(
     kw_args = []
     kw_values = []
 
+    used_names = get_used_names(definition, operation_definition, registry)
     extra_args = get_extra_args_for_onode(definition, plugin_config)
 
     for arg in extra_args:
@@ -497,7 +561,9 @@ def generate_parameters(
                 expanded_pos_args,
                 expanded_kw_args,
                 expanded_kw_values,
-            ) = generate_input_type_params(type, plugin_config, registry)
+            ) = generate_input_type_params(
+                type, plugin_config, registry, used_names
+            )
 
             pos_args += expanded_pos_args
             kw_args += expanded_kw_args
@@ -509,7 +575,9 @@ def generate_parameters(
     for v in non_expandable_args:
         pos_args.append(
             ast.arg(
-                arg=registry.generate_parameter_name(v.variable.name.value),
+                arg=separate_parameter_name(
+                    registry.generate_parameter_name(v.variable.name.value), used_names
+                ),
                 annotation=generate_variable_annotation(
                     v.type, registry, plugin_config
                 ),
@@ -523,7 +591,9 @@ def generate_parameters(
         # is part of the parameter's type: Union[<type>, UnsetType].
         kw_args.append(
             ast.arg(
-                arg=registry.generate_parameter_name(v.variable.name.value),
+                arg=separate_parameter_name(
+                    registry.generate_parameter_name(v.variable.name.value), used_names
+                ),
                 annotation=unset_union_annotation(
                     generate_variable_annotation(v.type, registry, plugin_config),
                     registry,
@@ -587,6 +657,7 @@ def _guarded_variable_assign(
 
 
 def generate_variable_assignments(
+    definition: FunctionDefinition,
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
@@ -598,6 +669,7 @@ def generate_variable_assignments(
     ``exclude_unset`` serialization this lets the server apply its own defaults
     for omitted arguments while still transmitting an explicitly-passed ``None``."""
     stmts = []
+    used_names = get_used_names(definition, o, registry)
     stmts.append(
         ast.AnnAssign(
             target=ast.Name(id=variables_name, ctx=ast.Store()),
@@ -637,7 +709,9 @@ def generate_variable_assignments(
                 )
             )
             for value_key, field in input_type.fields.items():
-                field_param = registry.generate_node_name(value_key)
+                field_param = separate_parameter_name(
+                    registry.generate_node_name(value_key), used_names
+                )
                 field_subscript = ast.Subscript(
                     value=ast.Name(id=inner_name, ctx=ast.Load()),
                     slice=ast.Constant(value=value_key),
@@ -662,7 +736,9 @@ def generate_variable_assignments(
                 )
             )
         else:
-            param = registry.generate_parameter_name(gql_name)
+            param = separate_parameter_name(
+                registry.generate_parameter_name(gql_name), used_names
+            )
             param_value = ast.Name(id=param, ctx=ast.Load())
             if is_required:
                 # required positional argument → always present
@@ -686,6 +762,7 @@ def generate_variables_name(
 ) -> str:
     """The name of the local dict the variables are assembled in. It must not
     shadow a parameter of the generated function."""
+    used_names = get_used_names(definition, o, registry)
     params = {arg.key for arg in get_extra_args_for_onode(definition, plugin_config)}
     params |= {
         kwarg.key for kwarg in get_extra_kwargs_for_onode(definition, plugin_config)
@@ -693,14 +770,20 @@ def generate_variables_name(
     for v in o.variable_definitions:
         if v.variable.name.value in plugin_config.expand_input_types:
             params |= {
-                registry.generate_node_name(field_key)
+                separate_parameter_name(
+                    registry.generate_node_name(field_key), used_names
+                )
                 for field_key in client_schema.type_map[v.type.type.name.value].fields
             }
         else:
-            params.add(registry.generate_parameter_name(v.variable.name.value))
+            params.add(
+                separate_parameter_name(
+                    registry.generate_parameter_name(v.variable.name.value), used_names
+                )
+            )
 
     name = "variables"
-    while name in params:
+    while name in params | used_names:
         name += "_"
     return name
 
@@ -914,7 +997,7 @@ def generate_query_doc(
     x = get_operation_root_type(client_schema, o)
     o.__annotations__
 
-    get_operation_class_name(o, registry)
+    used_names = get_used_names(definition, o, registry)
 
     return_type = get_return_type_string(o, client_schema, registry, collapse)
 
@@ -971,13 +1054,19 @@ def generate_query_doc(
             )
 
             if isinstance(v.type, NonNullTypeNode) and not v.default_value:
-                description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}): {field_description}\n"
+                parameter_name = separate_parameter_name(
+                    registry.generate_parameter_name(v.variable.name.value), used_names
+                )
+                description += f"    {parameter_name} ({recurse_type_label(v.type, registry)}): {field_description}\n"
 
     for v in o.variable_definitions:
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(getattr(v.default_value, 'value', print_ast(v.default_value)))}\n"
+            parameter_name = separate_parameter_name(
+                registry.generate_parameter_name(v.variable.name.value), used_names
+            )
+            description += f"    {parameter_name} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(getattr(v.default_value, 'value', print_ast(v.default_value)))}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
@@ -1332,6 +1421,7 @@ def generate_operation_func(
     )
 
     var_assignments = generate_variable_assignments(
+        definition,
         o,
         plugin_config,
         registry,
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index b3dbd63..a1bf2b8 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -25,6 +25,8 @@ from turms.plugins.funcs import (
     dict_str_any_annotation,
     generate_input_type_descriptions,
     generate_input_type_params,
+    separate_func_name,
+    separate_parameter_name,
 )
 from turms.referencer import create_reference_registry_from_documents
 from turms.registry import ClassRegistry
@@ -58,20 +60,24 @@ def generate_input_func(
     """Builds a factory function that constructs and returns the input model."""
     class_name = registry.get_inputtype_class(typename)
 
-    func_name = plugin_config.prepend + registry.generate_parameter_name(typename)
-    if func_name == class_name:
-        # Avoid shadowing the model class (would make the body call itself).
-        func_name += "_"
+    used_names = {class_name, "UNSET"}
+
+    # Avoid shadowing the model class (would make the body call itself).
+    func_name = separate_func_name(
+        plugin_config.prepend + registry.generate_parameter_name(typename),
+        registry,
+        used_names,
+    )
 
     # Required fields -> positional params; optional fields -> keyword params
     # defaulting to UNSET (so they can be omitted). Honors coercible_scalars.
     pos_args, kw_args, kw_values = generate_input_type_params(
-        input_type, plugin_config, registry
+        input_type, plugin_config, registry, used_names
     )
 
     # The local dict must not shadow a parameter.
     data_name = "data"
-    while data_name in {arg.arg for arg in pos_args + kw_args}:
+    while data_name in used_names | {arg.arg for arg in pos_args + kw_args}:
         data_name += "_"
 
     body: List[ast.stmt] = []
@@ -93,7 +99,9 @@ def generate_input_func(
     )
 
     for value_key, value in input_type.fields.items():
-        field_param = registry.generate_node_name(value_key)
+        field_param = separate_parameter_name(
+            registry.generate_node_name(value_key), used_names
+        )
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-- 
2.43.0


From 78b2e0b477779a3733a0379092edf704f324e51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 46/98] fix: collapse an operation that selects only __typename
 of its field

---
 turms/plugins/funcs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index eeb48e1..97c49b7 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -849,7 +849,7 @@ def get_return_type_annotation(
         sub_nodes = non_typename_fields(collapsable_field)
         field_definition = get_field_def(client_schema, root, collapsable_field)
 
-        if len(sub_nodes) == 0:  # pragma: no cover
+        if not collapsable_field.selection_set:  # pragma: no cover
             return recurse_outputtype_annotation(field_definition.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
@@ -910,7 +910,7 @@ def get_return_type_string(
             client_schema, root, potential_return_field
         )
 
-        if len(sub_nodes) == 0:  # Dealing with a scalar type  # pragma: no cover
+        if not potential_return_field.selection_set:  # Dealing with a scalar type  # pragma: no cover
             return recurse_outputtype_label(potential_return_type.type, registry)
 
         if len(sub_nodes) == 1:  # Dealing with one Element
-- 
2.43.0


From baf3a3ba329e28d76ae878e29c8af54a0f2ea3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 47/98] fix: classes named like something the module imports
 get a suffix

---
 turms/registry.py | 46 ++++++++++++++++++++++------------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index 44acab7..b351f20 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -31,6 +31,15 @@ RESERVED_FIELD_NAMES: Set[str] = {
     *(name for name in dir(BaseModel) if not name.startswith("_")),
 }
 
+# Classes never hide what the generated modules import or find in the builtins
+RESERVED_CLASS_NAMES: Set[str] = {
+    *("bool", "str", "int", "float", "dict", "list", "tuple", "super"),
+    *("BaseModel", "ConfigDict", "Field", "WrapSerializer", "Enum", "UNSET"),
+    *("UnsetType", "Annotated", "Any", "AsyncGenerator", "AsyncIterator", "Dict"),
+    *("Iterable", "Iterator", "List", "Literal", "NewType", "Optional", "Tuple"),
+    "Union",
+}
+
 # Annotated metadata markers generated into the output module (unless the user
 # overrides them via config). Authored as source and parsed to AST for clarity.
 _GRAPHQL_DEFAULT_SRC = """
@@ -313,12 +322,15 @@ class ClassRegistry(object):
             else None
         )
 
+    def _escape_class_name(self, class_name: str) -> str:
+        if iskeyword(class_name) or class_name in RESERVED_CLASS_NAMES:
+            return class_name + "_"
+        return class_name
+
     def style_inputtype_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_input_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_inputtype(self, typename: str):
         assert typename not in self.inputtype_class_map, (
@@ -347,9 +359,7 @@ class ClassRegistry(object):
     def style_enum_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_enum_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_enum(self, typename: str):
         assert typename not in self.enum_class_map, (
@@ -406,9 +416,7 @@ class ClassRegistry(object):
     def style_objecttype_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_object_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_objecttype(self, typename: str):
         assert typename not in self.object_class_map, (
@@ -452,9 +460,7 @@ class ClassRegistry(object):
     def style_interface_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_object_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_interface(self, typename: str, with_base: bool = True):
         assert typename not in self.interface_baseclass_map, (
@@ -486,9 +492,7 @@ class ClassRegistry(object):
     def style_fragment_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_fragment_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_fragment(self, fragmentname: str, is_interface: bool = False):
         assert fragmentname not in self.fragment_class_map, (
@@ -716,9 +720,7 @@ class ClassRegistry(object):
     def style_query_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_query_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_query(self, typename: str):
         assert typename not in self.query_class_map, (
@@ -743,9 +745,7 @@ class ClassRegistry(object):
     def style_mutation_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_mutation_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_mutation(self, typename: str):
         assert typename not in self.mutation_class_map, (
@@ -770,9 +770,7 @@ class ClassRegistry(object):
     def style_subscription_class(self, typename: str):
         for styler in self.stylers:
             typename = styler.style_subscription_name(typename)
-        if iskeyword(typename):
-            typename += "_"
-        return typename
+        return self._escape_class_name(typename)
 
     def generate_subscription(self, typename: str):
         assert typename not in self.subscription_class_map, (
-- 
2.43.0


From 680bb6836db9f0025d8ef94cc6c262163eccfa18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:54 +0000
Subject: [PATCH 48/98] fix: a field never hides a base of the nested Arguments
 model

---
 turms/registry.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index b351f20..77321b1 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -659,6 +659,13 @@ class ClassRegistry(object):
         # The names each field needs: directly, or when the model is completed
         names = [find_type_names(field) for field in fields]
         deferred = set().union(*(later for _, later in names))
+        nested_bases = {
+            base.id
+            for statement in statements
+            if isinstance(statement, ast.ClassDef)
+            for base in statement.bases
+            if isinstance(base, ast.Name)
+        }
 
         for index, field in enumerate(fields):
             name = field.target.id
@@ -673,7 +680,7 @@ class ClassRegistry(object):
             if not is_field_call and not is_none:
                 continue
 
-            if name not in deferred and not any(
+            if name not in deferred | nested_bases and not any(
                 name in direct for direct, _ in names[index:]
             ):
                 continue
-- 
2.43.0


From 73e38ccf4b3cf4775a51949661da4b4b405465dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 49/98] fix: only required single input objects are expanded
 into parameters

---
 turms/plugins/funcs.py | 41 +++++++++++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 14 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 97c49b7..f8eafa5 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -27,6 +27,7 @@ from graphql.language.ast import (
     OperationDefinitionNode,
     OperationType,
     TypeNode,
+    VariableDefinitionNode,
 )
 from graphql import GraphQLSchema
 from graphql.utilities.get_operation_root_type import get_operation_root_type
@@ -464,6 +465,23 @@ def dict_str_any_annotation(registry: ClassRegistry) -> ast.expr:
     )
 
 
+def get_expanded_input_type(
+    v: VariableDefinitionNode,
+    plugin_config: FuncsPluginConfig,
+    client_schema: GraphQLSchema,
+) -> Optional[GraphQLInputObjectType]:
+    """The input type that is spread into parameters for the variable, if it is one
+    that can be: a required single input object."""
+    if v.variable.name.value not in plugin_config.expand_input_types:
+        return None
+    if not isinstance(v.type, NonNullTypeNode) or v.default_value:
+        return None
+    if not isinstance(v.type.type, NamedTypeNode):
+        return None
+    input_type = client_schema.type_map[v.type.type.name.value]
+    return input_type if isinstance(input_type, GraphQLInputObjectType) else None
+
+
 def generate_input_type_params(
     input_type: GraphQLInputObjectType,
     plugin_config: FuncsPluginConfig,
@@ -552,11 +570,8 @@ def generate_parameters(
     non_expandable_args = []
 
     for v in arg_variables:
-        if v.variable.name.value in plugin_config.expand_input_types:
-            input_type = v.type
-
-            type = client_schema.type_map[input_type.type.name.value]
-
+        type = get_expanded_input_type(v, plugin_config, client_schema)
+        if type:
             (
                 expanded_pos_args,
                 expanded_kw_args,
@@ -689,10 +704,10 @@ def generate_variable_assignments(
             ctx=ast.Store(),
         )
 
-        if gql_name in plugin_config.expand_input_types:
+        input_type = get_expanded_input_type(v, plugin_config, client_schema)
+        if input_type:
             # The input is spread into one parameter per field; build the inner
             # dict, omitting fields the caller did not provide.
-            input_type = client_schema.type_map[v.type.type.name.value]
             if is_oneof_input_type(input_type):
                 registry.warn(
                     f"Input type '{input_type.name}' is a @oneOf input: expanding "
@@ -768,12 +783,13 @@ def generate_variables_name(
         kwarg.key for kwarg in get_extra_kwargs_for_onode(definition, plugin_config)
     }
     for v in o.variable_definitions:
-        if v.variable.name.value in plugin_config.expand_input_types:
+        input_type = get_expanded_input_type(v, plugin_config, client_schema)
+        if input_type:
             params |= {
                 separate_parameter_name(
                     registry.generate_node_name(field_key), used_names
                 )
-                for field_key in client_schema.type_map[v.type.type.name.value].fields
+                for field_key in input_type.fields
             }
         else:
             params.add(
@@ -1041,11 +1057,8 @@ def generate_query_doc(
         description += f"    {arg.key} ({arg.type}): {arg.description}\n"
 
     for v in o.variable_definitions:
-        if v.variable.name.value in plugin_config.expand_input_types:
-            input_type = v.type
-
-            type = client_schema.type_map[input_type.type.name.value]
-
+        type = get_expanded_input_type(v, plugin_config, client_schema)
+        if type:
             description += generate_input_type_descriptions(type, registry)
 
         else:
-- 
2.43.0


From 03e5b41cca77396f7b3d0b08a4bec8098a52784b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:59 +0000
Subject: [PATCH 50/98] fix: no factories for one-of inputs and input unions

---
 turms/plugins/input_funcs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index a1bf2b8..0ef4aa0 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -28,9 +28,12 @@ from turms.plugins.funcs import (
     separate_func_name,
     separate_parameter_name,
 )
-from turms.referencer import create_reference_registry_from_documents
+from turms.referencer import (
+    create_reference_registry_from_documents,
+    find_union_members,
+)
 from turms.registry import ClassRegistry
-from turms.utils import parse_documents
+from turms.utils import is_oneof_input_type, parse_documents
 
 
 class InputFuncsPluginConfig(PluginConfig):
@@ -194,6 +197,11 @@ def generate_input_funcs(
         if key not in registry.inputtype_class_map:
             continue
 
+        # One-of inputs and input unions are type aliases: they have no model of
+        # their own that could be constructed.
+        if is_oneof_input_type(type) or find_union_members(key, client_schema):
+            continue
+
         tree.append(generate_input_func(key, type, config, plugin_config, registry))
 
     return tree
-- 
2.43.0


From 874f0273c4c0863ca613902119a4de1e1c8222d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 51/98] fix: every schema file and url has to be complete on
 its own

---
 turms/helpers.py | 21 ++++++++++++++-------
 turms/run.py     |  5 +++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 214dd8b..597bc31 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -1,10 +1,12 @@
 import glob
 import json
 from importlib import import_module
-from typing import Any, Dict, Optional, Tuple
+from typing import Any, Dict, List, Optional, Tuple
 
 from graphql import (
     get_introspection_query,
+    parse,
+    strip_ignored_characters,
 )
 from pydantic import AnyHttpUrl
 
@@ -122,6 +124,16 @@ def load_introspection_from_file(file_path: str) -> IntrospectionResult:
 ParseResult = Tuple[Optional[DSLString], Optional[IntrospectionResult]]
 
 
+def join_dsl(dsl_strings: List[DSLString]) -> DSLString:
+    """Join the dsl of several sources. Each needs to be complete on its own, so that
+    none of them runs into the next one"""
+    for dsl_string in dsl_strings:
+        if strip_ignored_characters(dsl_string):
+            parse(dsl_string)
+
+    return "\n".join(dsl_strings)
+
+
 def load_dsl_from_glob(
     glob_string: str,
     allow_introspection: bool = True,
@@ -132,12 +144,7 @@ def load_dsl_from_glob(
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
 
-    dsl_string = ""
-    for file in schema_glob:
-        # A file without a final newline must not run into the next one
-        dsl_string += load_dsl_from_file(file) + "\n"
-
-    return dsl_string
+    return join_dsl([load_dsl_from_file(file) for file in schema_glob])
 
 
 def load_introspection_from_glob(
diff --git a/turms/run.py b/turms/run.py
index d0940ba..2d97094 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -25,6 +25,7 @@ from turms.config import (
 from turms.helpers import (
     load_introspection_from_glob,
     load_introspection_from_url,
+    join_dsl,
     load_dsl_from_glob,
     load_dsl_from_url,
     import_string,
@@ -324,7 +325,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse("\n".join(dsl_subschemas)))
+            return build_ast_schema(parse(join_dsl(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -345,7 +346,7 @@ def build_schema_from_schema_type(
                 elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse("\n".join(dsl_subschemas)))
+            return build_ast_schema(parse(join_dsl(dsl_subschemas)))
 
     if is_url(schema):
         try:
-- 
2.43.0


From 9e9df79367b00769b2565c75983bc604b0a3ff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 52/98] fix: every documents file is a document of its own

---
 turms/utils.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 346beb1..35cbc75 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -23,16 +23,18 @@ from graphql import (
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
+    Source,
     TypeNode,
     Undefined,
     ValueNode,
     parse,
     print_ast,
+    strip_ignored_characters,
     validate,
     value_from_ast_untyped,
 )
 from graphql.error.graphql_error import GraphQLError
-from graphql.language.ast import DocumentNode, FieldNode, NameNode
+from graphql.language.ast import DefinitionNode, DocumentNode, FieldNode, NameNode
 from graphql import GraphQLSchema
 
 from turms.config import GeneratorConfig
@@ -510,19 +512,21 @@ def parse_documents(
 
     errors: List[GraphQLError] = []
 
-    dsl = ""
+    definitions: List[DefinitionNode] = []
 
     for file in x:
         with open(file, "r", encoding="utf-8-sig") as f:
-            # A file without a final newline must not run into the next one
-            dsl += f.read() + "\n"
+            source = Source(f.read(), file)
+        # Every file is a document of its own: it never runs into the next one
+        if strip_ignored_characters(source):
+            definitions.extend(parse(source).definitions)
 
-    if dsl.strip() == "":
+    if not definitions:
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
 
-    nodes = parse(dsl)
+    nodes = DocumentNode(definitions=tuple(definitions))
 
     errors = validate(client_schema, nodes, rules=config.get_document_rules())
     if len(errors) > 0:
-- 
2.43.0


From ebdd84fb5b03f39ebc8a69b98ea8efcef9a5107f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 53/98] fix: exchange UTF-8 with external formatters whatever
 the locale

---
 turms/processors/command.py | 1 +
 turms/processors/ruff.py    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/turms/processors/command.py b/turms/processors/command.py
index 5454d67..4460cdc 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -45,6 +45,7 @@ class CommandProcessor(Processor):
             input=gen_file,
             capture_output=True,
             text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 37df3f6..2b057eb 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -32,6 +32,7 @@ class RuffProcessor(Processor):
             input=gen_file,
             capture_output=True,
             text=True,
+            encoding="utf-8",
         )
         if result.returncode != 0:
             raise RuntimeError(
-- 
2.43.0


From 2e21b0bdf857bb7912b96e547ad3f385f2d95b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 54/98] fix: do not fail a command because the terminal cannot
 show a character

---
 turms/cli/main.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 1d20825..fc9d924 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -1,6 +1,7 @@
 from enum import Enum
 import importlib.util
 import os
+import sys
 from typing import Any, Callable, Dict
 
 import yaml
@@ -374,6 +375,11 @@ def cli(ctx):
 
     For more information, visit [link=https://github.com/jhnnsrs/turms] https://github.com/jhnnsrs/turms [/link]
     """
+    # Messages carry characters that the terminal's encoding may lack; failing to
+    # show one of them must not fail the command
+    for stream in (sys.stdout, sys.stderr):
+        if hasattr(stream, "reconfigure"):
+            stream.reconfigure(errors="replace")
 
 
 @cli.command()
-- 
2.43.0


From 176a00d713845d15ecf22c1c0a74aad9807fc2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 55/98] fix: keep enum values that python would treat as
 private names

---
 turms/plugins/enums.py |  4 +++-
 turms/registry.py      | 12 +++++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index bcaf942..dee5d05 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -75,7 +75,9 @@ def generate_enums(
             assign = ast.Assign(
                 targets=[
                     ast.Name(
-                        id=registry.generate_enum_member_name(value_key, type.values),
+                        id=registry.generate_enum_member_name(
+                            value_key, type.values, classname
+                        ),
                         ctx=ast.Store(),
                     )
                 ],
diff --git a/turms/registry.py b/turms/registry.py
index 77321b1..3a860f0 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -369,7 +369,9 @@ class ClassRegistry(object):
         self.enum_class_map[typename] = classname
         return classname
 
-    def generate_enum_member_name(self, value_name: str, value_names) -> str:
+    def generate_enum_member_name(
+        self, value_name: str, value_names, classname: str = ""
+    ) -> str:
         """The name of the member of an enum value: the name of the value, unless
         python reserves that name. Never the name of another value."""
         is_sunder = (
@@ -377,10 +379,14 @@ class ClassRegistry(object):
             and value_name[0] == value_name[-1] == "_"
             and "_" not in (value_name[1], value_name[-2])
         )
-        if not (iskeyword(value_name) or value_name == "mro" or is_sunder):
+        is_private = value_name.startswith(f"_{classname}__")
+        if not (
+            iskeyword(value_name) or value_name == "mro" or is_sunder or is_private
+        ):
             return value_name
 
-        member_name = value_name + "_"
+        # Only two trailing underscores keep a private name from staying private
+        member_name = value_name + ("__" if is_private else "_")
         while member_name in value_names:
             member_name += "_"
 
-- 
2.43.0


From 778c0917ee260695f610ed9fb3803e068104a719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 56/98] fix: generate introspection queries

---
 turms/referencer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/referencer.py b/turms/referencer.py
index 21edf1d..162d5bb 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -25,6 +25,7 @@ from graphql.type.definition import (
     GraphQLUnionType,
 )
 from graphql import GraphQLSchema
+from graphql.utilities.type_info import get_field_def
 
 
 class ReferenceRegistry:
@@ -282,7 +283,7 @@ def create_reference_registry_from_documents(
                 # definition
                 if selection.name.value == "__typename":
                     continue
-                this_type = type.fields[selection.name.value]
+                this_type = get_field_def(schema, type, selection)
 
                 recurse_find_references(
                     selection,
-- 
2.43.0


From 8381b460913ccf42ba7ce49669826f896c67bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 57/98] fix: builtin introspection enums lack half of their
 values

---
 turms/registry.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index 3a860f0..556f419 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -79,7 +79,16 @@ built_in_map = {
                 targets=[ast.Name(id=str(value), ctx=ast.Store())],
                 value=ast.Constant(value=value),
             )
-            for value in ["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"]
+            for value in [
+                "SCALAR",
+                "OBJECT",
+                "INTERFACE",
+                "UNION",
+                "ENUM",
+                "INPUT_OBJECT",
+                "LIST",
+                "NON_NULL",
+            ]
         ],
     ),
     "__DirectiveLocation": ast.ClassDef(
@@ -96,6 +105,14 @@ built_in_map = {
                 value=ast.Constant(value=value),
             )
             for value in [
+                "QUERY",
+                "MUTATION",
+                "SUBSCRIPTION",
+                "FIELD",
+                "FRAGMENT_DEFINITION",
+                "FRAGMENT_SPREAD",
+                "INLINE_FRAGMENT",
+                "VARIABLE_DEFINITION",
                 "SCALAR",
                 "OBJECT",
                 "FIELD_DEFINITION",
-- 
2.43.0


From 85c2542e252c554842e9ccbdb5977527e52322f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:53 +0000
Subject: [PATCH 58/98] fix: refuse to give two schema types the same class

---
 turms/registry.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/turms/registry.py b/turms/registry.py
index 556f419..809dedc 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -299,6 +299,7 @@ class ClassRegistry(object):
         # map of fragment typename to the strinigify graphql document
         self.fragment_document_map: Dict[str, str] = {}
 
+        self.class_name_owners: Dict[str, str] = {}
         self.enum_class_map: Dict[str, str] = {}
 
         # (class name, field name) of the fields that were named like a type of
@@ -339,6 +340,16 @@ class ClassRegistry(object):
             else None
         )
 
+    def _claim_class_name(self, class_name: str, typename: str) -> None:
+        """Refuses to give two types of the schema the same class, where the one
+        generated last would silently replace the other."""
+        owner = self.class_name_owners.setdefault(class_name, typename)
+        if owner != typename:
+            raise RegistryError(
+                f"The types {owner} and {typename} would both be generated as {class_name}. "
+                "Please use stylers that keep their names apart."
+            )
+
     def _escape_class_name(self, class_name: str) -> str:
         if iskeyword(class_name) or class_name in RESERVED_CLASS_NAMES:
             return class_name + "_"
@@ -354,6 +365,7 @@ class ClassRegistry(object):
             "Type was already registered, cannot register annew"
         )
         classname = self.style_inputtype_class(typename)
+        self._claim_class_name(classname, typename)
         self.inputtype_class_map[typename] = classname
         return classname
 
@@ -383,6 +395,7 @@ class ClassRegistry(object):
             "Type was already registered, cannot register annew"
         )
         classname = self.style_enum_class(typename)
+        self._claim_class_name(classname, typename)
         self.enum_class_map[typename] = classname
         return classname
 
@@ -446,6 +459,7 @@ class ClassRegistry(object):
             "Type was already registered, cannot register annew"
         )
         classname = self.style_objecttype_class(typename)
+        self._claim_class_name(classname, typename)
         self.object_class_map[typename] = classname
         return classname
 
@@ -494,6 +508,8 @@ class ClassRegistry(object):
             self.interface_baseclass_map[typename] = classname + "Base"
         else:
             self.interface_baseclass_map[typename] = classname
+        self._claim_class_name(self.interface_baseclass_map[typename], typename)
+        self._claim_class_name(classname, typename)
         self.interface_reference_map[typename] = classname
         return self.interface_baseclass_map[typename]
 
-- 
2.43.0


From 1b03f010b26d59ccaf192766dfe04c0ba80755f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 59/98] fix: define the union of an interface under its styled
 name

---
 turms/plugins/objects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 1fa36c0..f44f1d9 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -377,7 +377,11 @@ def generate_types(
         registry.register_import("typing.Union")
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=interface, ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=registry.style_interface_class(interface), ctx=ast.Store()
+                    )
+                ],
                 value=ast.Subscript(
                     value=ast.Name("Union", ctx=ast.Load()),
                     slice=ast.Tuple(
@@ -407,7 +411,12 @@ def generate_types(
             registry.warn(f"Interface {interface} has no types implementing it")
             tree.append(
                 ast.Assign(
-                    targets=[ast.Name(id=interface, ctx=ast.Store())],
+                    targets=[
+                        ast.Name(
+                            id=registry.style_interface_class(interface),
+                            ctx=ast.Store(),
+                        )
+                    ],
                     value=ast.Name(baseclass, ctx=ast.Load()),
                 )
             )
-- 
2.43.0


From 6cf61d90e33d6b1d287d87f13e075b1af1e7515f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 60/98] fix: fields that styling gives one name replace each
 other

---
 turms/registry.py | 150 ++++++++++++++++++++++++++++++++++++----------
 turms/run.py      |   1 +
 2 files changed, 119 insertions(+), 32 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index 809dedc..e47ee47 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -245,6 +245,42 @@ built_in_map = {
 }  # builtin map provides the default types for any schema if they are referenced
 
 
+def find_statements(class_def: ast.ClassDef) -> List[ast.AST]:
+    """The statements of a generated class"""
+    statements: List[ast.AST] = []
+    for statement in class_def.body:
+        statements += statement if isinstance(statement, list) else [statement]
+    return statements
+
+
+def find_fields(class_def: ast.ClassDef) -> List[ast.AnnAssign]:
+    """The fields of a generated class"""
+    return [
+        statement
+        for statement in find_statements(class_def)
+        if isinstance(statement, ast.AnnAssign)
+        and isinstance(statement.target, ast.Name)
+    ]
+
+
+def is_field_call(value: Optional[ast.AST]) -> bool:
+    """Is this the ``Field(...)`` of a field?"""
+    return (
+        isinstance(value, ast.Call)
+        and isinstance(value.func, ast.Name)
+        and value.func.id == "Field"
+    )
+
+
+def find_alias(field: ast.AnnAssign) -> str:
+    """The name under which a field is sent and received"""
+    if is_field_call(field.value):
+        for keyword in field.value.keywords:
+            if keyword.arg == "alias":
+                return keyword.value.value
+    return field.target.id
+
+
 def find_type_names(field: ast.AnnAssign) -> Tuple[Set[str], Set[str]]:
     """The names a field refers to in its annotation and value, and those that it
     refers to through forward references."""
@@ -304,7 +340,8 @@ class ClassRegistry(object):
 
         # (class name, field name) of the fields that were named like a type of
         # their class, and the names they got
-        self.separated_fields: Dict[Tuple[str, str], str] = {}
+        # The names of the fields of each class, by the alias they are sent under
+        self.fields_of_class: Dict[str, Dict[str, str]] = {}
         self.inputtype_class_map: Dict[str, str] = {}
         self.object_class_map: Dict[str, str] = {}
         self.interface_reference_map: Dict[str, str] = {}
@@ -672,6 +709,80 @@ class ClassRegistry(object):
 
         return field_name
 
+    def separate_fields(self, tree: Sequence[ast.AST]) -> None:
+        """Gives the fields of a class that would have the same name (``fooBar`` and
+        ``foo_bar`` in snake case, ``from`` and ``from_``) names of their own.
+
+        The field whose name needs no alias keeps it, if there is one."""
+        for node in tree:
+            for class_def in ast.walk(node):
+                if isinstance(class_def, ast.ClassDef):
+                    self._separate_fields_from_each_other(class_def)
+
+    def _separate_fields_from_each_other(self, class_def: ast.ClassDef) -> None:
+        fields = find_fields(class_def)
+        reserved = {
+            statement.name
+            for statement in find_statements(class_def)
+            if isinstance(statement, ast.ClassDef)
+        }
+
+        # The inherited fields: the name of each alias, and the alias of each name
+        inherited: Dict[str, str] = {}
+        aliases: Dict[str, str] = {}
+        for base in class_def.bases:
+            base_name = base.id if isinstance(base, ast.Name) else ""
+            for alias, name in self.fields_of_class.get(base_name, {}).items():
+                if aliases.setdefault(name, alias) != alias:
+                    raise RegistryError(
+                        f"{aliases[name]} and {alias} would both be generated as {name} of {class_def.name}. "
+                        "Please select one of them under another alias."
+                    )
+                inherited[alias] = name
+
+        by_alias = {find_alias(field): field.target.id for field in fields}
+        taken = {*by_alias.values(), *aliases}
+        names = dict(inherited)
+
+        for field in sorted(fields, key=lambda f: find_alias(f) != f.target.id):
+            alias, name = find_alias(field), field.target.id
+            if alias not in names:
+                owners = {n: a for a, n in names.items()}
+                if name in owners or name in reserved:
+                    name += "_"
+                    while name in taken | reserved:
+                        name += "_"
+                    taken.add(name)
+                names[alias] = name
+
+            if names[alias] != field.target.id:
+                self._rename_field(class_def, field, names[alias])
+
+        self.fields_of_class[class_def.name] = names
+
+    def _rename_field(
+        self, class_def: ast.ClassDef, field: ast.AnnAssign, new_name: str
+    ) -> None:
+        """Renames a field of a class, and keeps the name it has outside of python"""
+        alias = find_alias(field)
+        if not is_field_call(field.value):
+            field.value = ast.Call(
+                func=ast.Name(id="Field", ctx=ast.Load()),
+                args=[],
+                keywords=(
+                    [ast.keyword(arg="default", value=field.value)]
+                    if field.value is not None
+                    else []
+                ),
+            )
+        if not any(keyword.arg == "alias" for keyword in field.value.keywords):
+            field.value.keywords.append(
+                ast.keyword(arg="alias", value=ast.Constant(value=alias))
+            )
+        self.register_import("pydantic.Field")
+        field.target = ast.Name(id=new_name, ctx=ast.Store())
+        self.fields_of_class.setdefault(class_def.name, {})[alias] = new_name
+
     def separate_fields_from_types(self, tree: Sequence[ast.AST]) -> None:
         """Renames the fields that are named like a type their class refers to.
 
@@ -683,16 +794,8 @@ class ClassRegistry(object):
                     self._separate_fields_of_class(class_def)
 
     def _separate_fields_of_class(self, class_def: ast.ClassDef) -> None:
-        statements: List[ast.AST] = []
-        for statement in class_def.body:
-            statements += statement if isinstance(statement, list) else [statement]
-
-        fields = [
-            statement
-            for statement in statements
-            if isinstance(statement, ast.AnnAssign)
-            and isinstance(statement.target, ast.Name)
-        ]
+        statements = find_statements(class_def)
+        fields = find_fields(class_def)
         taken = {field.target.id for field in fields}
 
         # The names each field needs: directly, or when the model is completed
@@ -708,15 +811,10 @@ class ClassRegistry(object):
 
         for index, field in enumerate(fields):
             name = field.target.id
-            is_field_call = (
-                isinstance(field.value, ast.Call)
-                and isinstance(field.value.func, ast.Name)
-                and field.value.func.id == "Field"
-            )
             is_none = isinstance(field.value, ast.Constant) and (
                 field.value.value is None
             )
-            if not is_field_call and not is_none:
+            if not is_field_call(field.value) and not is_none:
                 continue
 
             if name not in deferred | nested_bases and not any(
@@ -731,24 +829,12 @@ class ClassRegistry(object):
                 new_name += "_"
             taken.add(new_name)
 
-            if is_none:
-                field.value = ast.Call(
-                    func=ast.Name(id="Field", ctx=ast.Load()),
-                    args=[],
-                    keywords=[ast.keyword(arg="default", value=field.value)],
-                )
-            if not any(keyword.arg == "alias" for keyword in field.value.keywords):
-                field.value.keywords.append(
-                    ast.keyword(arg="alias", value=ast.Constant(value=name))
-                )
-            self.register_import("pydantic.Field")
-            field.target = ast.Name(id=new_name, ctx=ast.Store())
-            self.separated_fields[(class_def.name, name)] = new_name
+            self._rename_field(class_def, field, new_name)
 
     def generate_attribute_name(self, class_name: str, node_name: str) -> str:
         """The attribute of a generated class that holds a selected field"""
-        field_name = self.generate_node_name(node_name)
-        return self.separated_fields.get((class_name, field_name), field_name)
+        fields = self.fields_of_class.get(class_name, {})
+        return fields.get(node_name) or self.generate_node_name(node_name)
 
     def generate_argument_name(self, variable_name: str):
         """The field of the Arguments model that holds a variable"""
diff --git a/turms/run.py b/turms/run.py
index 2d97094..9491f25 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -495,6 +495,7 @@ def generate_ast(
     for plugin in plugins:
         try:
             plugin_tree = plugin.generate_ast(schema, config, registry)
+            registry.separate_fields(plugin_tree)
             registry.separate_fields_from_types(plugin_tree)
             global_tree += plugin_tree
         except Exception as e:
-- 
2.43.0


From 911431963ff863c23cec11c04c38573579b9908f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 61/98] fix: functions that get one name replace each other

---
 turms/plugins/funcs.py       | 16 +++++++++++-----
 turms/plugins/input_funcs.py |  1 +
 turms/registry.py            |  3 ++-
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index f8eafa5..9d4dced 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -107,10 +107,10 @@ def camel_to_snake(name: str) -> str:
 
 
 def separate_func_name(
-    func_name: str, registry: ClassRegistry, used_names: Set[str]
+    func_name: str, owner: str, registry: ClassRegistry, used_names: Set[str]
 ) -> str:
-    """A function must be callable by its name, and not hide the classes of its module
-    or what the functions refer to."""
+    """A function must be callable by its name, and not hide the classes of its module,
+    what the functions refer to or the function of another operation or input type."""
     used_names = {
         *used_names,
         *registry.enum_class_map.values(),
@@ -120,7 +120,11 @@ def separate_func_name(
         *registry.mutation_class_map.values(),
         *registry.subscription_class_map.values(),
     }
-    while iskeyword(func_name) or func_name in used_names:
+    while (
+        iskeyword(func_name)
+        or func_name in used_names
+        or registry.func_name_owners.setdefault(func_name, owner) != owner
+    ):
         func_name += "_"
     return func_name
 
@@ -134,7 +138,9 @@ def generate_func_name(
     used_names: Set[str] = set()
     for definition in plugin_config.definitions:
         used_names |= get_used_names(definition, o, registry)
-    return separate_func_name(func_name, registry, used_names)
+    return separate_func_name(
+        func_name, get_operation_class_name(o, registry), registry, used_names
+    )
 
 
 def generate_async_func_name(
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0ef4aa0..4447b8d 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -68,6 +68,7 @@ def generate_input_func(
     # Avoid shadowing the model class (would make the body call itself).
     func_name = separate_func_name(
         plugin_config.prepend + registry.generate_parameter_name(typename),
+        class_name,
         registry,
         used_names,
     )
diff --git a/turms/registry.py b/turms/registry.py
index e47ee47..3ef503d 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -335,7 +335,8 @@ class ClassRegistry(object):
         # map of fragment typename to the strinigify graphql document
         self.fragment_document_map: Dict[str, str] = {}
 
-        self.class_name_owners: Dict[str, str] = {}
+        self.class_name_owners: Dict[Tuple[str, str], str] = {}
+        self.func_name_owners: Dict[str, str] = {}
         self.enum_class_map: Dict[str, str] = {}
 
         # (class name, field name) of the fields that were named like a type of
-- 
2.43.0


From 7aa77940154e902e3874bcd447273305ab83b6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 62/98] fix: parameters that styling gives one name make the
 function unimportable

---
 turms/plugins/funcs.py       | 140 +++++++++++++++++++++++++----------
 turms/plugins/input_funcs.py |   9 +--
 2 files changed, 103 insertions(+), 46 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 9d4dced..933730a 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -4,7 +4,7 @@ import ast
 import logging
 import re
 from keyword import iskeyword
-from typing import Any, List, Optional, Set, Tuple
+from typing import Any, Dict, List, Optional, Set, Tuple, TypeVar
 
 
 from graphql import (
@@ -71,6 +71,9 @@ class Arg(BaseModel):
     description: str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
 
 
+T = TypeVar("T")
+
+
 class FunctionDefinition(BaseModel):
     type: OperationType
     is_async: bool = False
@@ -386,6 +389,69 @@ def separate_parameter_name(parameter_name: str, used_names: Set[str]) -> str:
     return parameter_name
 
 
+def separate_parameter_names(
+    styled_names: Dict[T, Tuple[str, str]], used_names: Set[str]
+) -> Dict[T, str]:
+    """The parameters of a function, from their names before and after styling. No two
+    parameters share a name, and a parameter that is not renamed keeps its own."""
+    names: Dict[T, str] = {}
+    taken = {styled for _, styled in styled_names.values()}
+
+    for key in sorted(
+        styled_names, key=lambda k: styled_names[k][0] != styled_names[k][1]
+    ):
+        name = separate_parameter_name(styled_names[key][1], used_names)
+        if name in names.values():
+            while name in taken | used_names:
+                name += "_"
+        taken.add(name)
+        names[key] = name
+
+    return {key: names[key] for key in styled_names}
+
+
+def generate_field_parameter_names(
+    input_type: GraphQLInputObjectType,
+    registry: ClassRegistry,
+    used_names: Set[str],
+) -> Dict[str, str]:
+    """The parameter of each field of an input type that is built by a function."""
+    return separate_parameter_names(
+        {key: (key, registry.generate_node_name(key)) for key in input_type.fields},
+        used_names,
+    )
+
+
+def generate_parameter_names(
+    definition: FunctionDefinition,
+    o: OperationDefinitionNode,
+    plugin_config: FuncsPluginConfig,
+    registry: ClassRegistry,
+    client_schema: GraphQLSchema,
+) -> Dict[Tuple[str, Optional[str]], str]:
+    """The parameter of each variable of an operation, or of each of its fields if the
+    input type of the variable is expanded."""
+    used_names = get_used_names(definition, o, registry)
+    used_names |= {
+        arg.key for arg in get_extra_args_for_onode(definition, plugin_config)
+    }
+    used_names |= {
+        kwarg.key for kwarg in get_extra_kwargs_for_onode(definition, plugin_config)
+    }
+
+    styled_names: Dict[Tuple[str, Optional[str]], Tuple[str, str]] = {}
+    for v in o.variable_definitions:
+        name = v.variable.name.value
+        input_type = get_expanded_input_type(v, plugin_config, client_schema)
+        if input_type:
+            for key in input_type.fields:
+                styled_names[name, key] = (key, registry.generate_node_name(key))
+        else:
+            styled_names[name, None] = (name, registry.generate_parameter_name(name))
+
+    return separate_parameter_names(styled_names, used_names)
+
+
 def coercible_input_union(
     inputtype_reference: ast.expr,
     coercible: PythonType,
@@ -492,16 +558,14 @@ def generate_input_type_params(
     input_type: GraphQLInputObjectType,
     plugin_config: FuncsPluginConfig,
     registry: ClassRegistry,
-    used_names: Set[str],
+    parameter_names: Dict[str, str],
 ):
     pos_args = []
     kw_args = []
     kw_values = []
 
     for value_key, value in input_type.fields.items():
-        field_name = separate_parameter_name(
-            registry.generate_node_name(value_key), used_names
-        )
+        field_name = parameter_names[value_key]
 
         if is_required_input_field(value):
             pos_args.append(
@@ -547,7 +611,9 @@ def generate_parameters(
     kw_args = []
     kw_values = []
 
-    used_names = get_used_names(definition, operation_definition, registry)
+    parameter_names = generate_parameter_names(
+        definition, operation_definition, plugin_config, registry, client_schema
+    )
     extra_args = get_extra_args_for_onode(definition, plugin_config)
 
     for arg in extra_args:
@@ -583,7 +649,10 @@ def generate_parameters(
                 expanded_kw_args,
                 expanded_kw_values,
             ) = generate_input_type_params(
-                type, plugin_config, registry, used_names
+                type,
+                plugin_config,
+                registry,
+                {key: parameter_names[v.variable.name.value, key] for key in type.fields},
             )
 
             pos_args += expanded_pos_args
@@ -596,9 +665,7 @@ def generate_parameters(
     for v in non_expandable_args:
         pos_args.append(
             ast.arg(
-                arg=separate_parameter_name(
-                    registry.generate_parameter_name(v.variable.name.value), used_names
-                ),
+                arg=parameter_names[v.variable.name.value, None],
                 annotation=generate_variable_annotation(
                     v.type, registry, plugin_config
                 ),
@@ -612,9 +679,7 @@ def generate_parameters(
         # is part of the parameter's type: Union[<type>, UnsetType].
         kw_args.append(
             ast.arg(
-                arg=separate_parameter_name(
-                    registry.generate_parameter_name(v.variable.name.value), used_names
-                ),
+                arg=parameter_names[v.variable.name.value, None],
                 annotation=unset_union_annotation(
                     generate_variable_annotation(v.type, registry, plugin_config),
                     registry,
@@ -690,7 +755,10 @@ def generate_variable_assignments(
     ``exclude_unset`` serialization this lets the server apply its own defaults
     for omitted arguments while still transmitting an explicitly-passed ``None``."""
     stmts = []
-    used_names = get_used_names(definition, o, registry)
+    parameter_names = generate_parameter_names(
+        definition, o, plugin_config, registry, client_schema
+    )
+    local_names = {variables_name, *parameter_names.values()}
     stmts.append(
         ast.AnnAssign(
             target=ast.Name(id=variables_name, ctx=ast.Store()),
@@ -721,6 +789,9 @@ def generate_variable_assignments(
                     "of them is provided."
                 )
             inner_name = f"_{registry.generate_parameter_name(gql_name)}"
+            while inner_name in local_names:
+                inner_name += "_"
+            local_names.add(inner_name)
             stmts.append(
                 ast.AnnAssign(
                     target=ast.Name(id=inner_name, ctx=ast.Store()),
@@ -730,9 +801,7 @@ def generate_variable_assignments(
                 )
             )
             for value_key, field in input_type.fields.items():
-                field_param = separate_parameter_name(
-                    registry.generate_node_name(value_key), used_names
-                )
+                field_param = parameter_names[gql_name, value_key]
                 field_subscript = ast.Subscript(
                     value=ast.Name(id=inner_name, ctx=ast.Load()),
                     slice=ast.Constant(value=value_key),
@@ -757,9 +826,7 @@ def generate_variable_assignments(
                 )
             )
         else:
-            param = separate_parameter_name(
-                registry.generate_parameter_name(gql_name), used_names
-            )
+            param = parameter_names[gql_name, None]
             param_value = ast.Name(id=param, ctx=ast.Load())
             if is_required:
                 # required positional argument → always present
@@ -788,21 +855,11 @@ def generate_variables_name(
     params |= {
         kwarg.key for kwarg in get_extra_kwargs_for_onode(definition, plugin_config)
     }
-    for v in o.variable_definitions:
-        input_type = get_expanded_input_type(v, plugin_config, client_schema)
-        if input_type:
-            params |= {
-                separate_parameter_name(
-                    registry.generate_node_name(field_key), used_names
-                )
-                for field_key in input_type.fields
-            }
-        else:
-            params.add(
-                separate_parameter_name(
-                    registry.generate_parameter_name(v.variable.name.value), used_names
-                )
-            )
+    params |= set(
+        generate_parameter_names(
+            definition, o, plugin_config, registry, client_schema
+        ).values()
+    )
 
     name = "variables"
     while name in params | used_names:
@@ -1019,7 +1076,9 @@ def generate_query_doc(
     x = get_operation_root_type(client_schema, o)
     o.__annotations__
 
-    used_names = get_used_names(definition, o, registry)
+    parameter_names = generate_parameter_names(
+        definition, o, plugin_config, registry, client_schema
+    )
 
     return_type = get_return_type_string(o, client_schema, registry, collapse)
 
@@ -1073,17 +1132,16 @@ def generate_query_doc(
             )
 
             if isinstance(v.type, NonNullTypeNode) and not v.default_value:
-                parameter_name = separate_parameter_name(
-                    registry.generate_parameter_name(v.variable.name.value), used_names
-                )
+                parameter_name = parameter_names[v.variable.name.value, None]
                 description += f"    {parameter_name} ({recurse_type_label(v.type, registry)}): {field_description}\n"
 
     for v in o.variable_definitions:
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            parameter_name = separate_parameter_name(
-                registry.generate_parameter_name(v.variable.name.value), used_names
+            parameter_name = parameter_names.get(
+                (v.variable.name.value, None),
+                registry.generate_parameter_name(v.variable.name.value),
             )
             description += f"    {parameter_name} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(getattr(v.default_value, 'value', print_ast(v.default_value)))}\n"
 
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 4447b8d..9c3424c 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -26,7 +26,7 @@ from turms.plugins.funcs import (
     generate_input_type_descriptions,
     generate_input_type_params,
     separate_func_name,
-    separate_parameter_name,
+    generate_field_parameter_names,
 )
 from turms.referencer import (
     create_reference_registry_from_documents,
@@ -75,8 +75,9 @@ def generate_input_func(
 
     # Required fields -> positional params; optional fields -> keyword params
     # defaulting to UNSET (so they can be omitted). Honors coercible_scalars.
+    parameter_names = generate_field_parameter_names(input_type, registry, used_names)
     pos_args, kw_args, kw_values = generate_input_type_params(
-        input_type, plugin_config, registry, used_names
+        input_type, plugin_config, registry, parameter_names
     )
 
     # The local dict must not shadow a parameter.
@@ -103,9 +104,7 @@ def generate_input_func(
     )
 
     for value_key, value in input_type.fields.items():
-        field_param = separate_parameter_name(
-            registry.generate_node_name(value_key), used_names
-        )
+        field_param = parameter_names[value_key]
         # Key by the GraphQL field name (the model's alias) so construction works
         # regardless of populate_by_name.
         subscript = ast.Subscript(
-- 
2.43.0


From 1e68bb91b58404221b68a0143376e5f587f70989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:35 +0000
Subject: [PATCH 63/98] fix: refuse to give two operations or fragments the
 same class

---
 turms/registry.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/turms/registry.py b/turms/registry.py
index 3ef503d..d9ffa3d 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -378,13 +378,15 @@ class ClassRegistry(object):
             else None
         )
 
-    def _claim_class_name(self, class_name: str, typename: str) -> None:
-        """Refuses to give two types of the schema the same class, where the one
-        generated last would silently replace the other."""
-        owner = self.class_name_owners.setdefault(class_name, typename)
+    def _claim_class_name(
+        self, class_name: str, typename: str, kind: str = "types"
+    ) -> None:
+        """Refuses to give two types of the schema, two operations or two fragments the
+        same class, where the one generated last would silently replace the other."""
+        owner = self.class_name_owners.setdefault((kind, class_name), typename)
         if owner != typename:
             raise RegistryError(
-                f"The types {owner} and {typename} would both be generated as {class_name}. "
+                f"The {kind} {owner} and {typename} would both be generated as {class_name}. "
                 "Please use stylers that keep their names apart."
             )
 
@@ -577,6 +579,7 @@ class ClassRegistry(object):
         )
         classname = self.style_fragment_class(fragmentname)
         real_classname = classname if not is_interface else classname
+        self._claim_class_name(real_classname, fragmentname, "fragments")
         self.fragment_class_map[fragmentname] = real_classname
         return real_classname
 
@@ -860,6 +863,7 @@ class ClassRegistry(object):
             f"Type {typename} was already registered, cannot register annew"
         )
         classname = self.style_query_class(typename)
+        self._claim_class_name(classname, typename, "operations")
         self.query_class_map[typename] = classname
         return classname
 
@@ -885,6 +889,7 @@ class ClassRegistry(object):
             f"Type {typename} was already registered, cannot register annew"
         )
         classname = self.style_mutation_class(typename)
+        self._claim_class_name(classname, typename, "operations")
         self.mutation_class_map[typename] = classname
         return classname
 
@@ -910,6 +915,7 @@ class ClassRegistry(object):
             f"Type {typename} was already registered, cannot register annew"
         )
         classname = self.style_subscription_class(typename)
+        self._claim_class_name(classname, typename, "operations")
         self.subscription_class_map[typename] = classname
         return classname
 
-- 
2.43.0


From f6598c1ac3a9817796fcdfc3b73a36114e3c0dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:40 +0000
Subject: [PATCH 64/98] fix: freeze and model options of operation kinds reach
 the operation classes

---
 turms/plugins/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 016fd12..aced532 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -2,7 +2,7 @@ import ast
 from typing import List, Optional
 
 from pydantic_settings import SettingsConfigDict
-from turms.config import GeneratorConfig
+from turms.config import GeneratorConfig, GraphQLTypes
 from graphql import GraphQLSchema, InputObjectTypeDefinitionNode
 from graphql.language.ast import OperationDefinitionNode, OperationType
 from turms.recurse import type_field_node
@@ -457,7 +457,9 @@ def generate_operation(
             type_params=[],
             body=merge_body_sequences(
                 class_body_fields,
-                generate_pydantic_config(o.operation, config, registry),
+                generate_pydantic_config(
+                    GraphQLTypes(o.operation.value), config, registry
+                ),
             ),
         )
     )
-- 
2.43.0


From 3bb81e578d4f43ab25a22b78f8ee778cc2bf7124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 65/98] fix: a base class is listed once in every generated
 class, after the classes built on it

---
 turms/plugins/inputs.py  | 37 ++++++++++++++++++++++---------------
 turms/plugins/objects.py | 18 ++++++++++++------
 turms/utils.py           | 15 ++++++++++-----
 3 files changed, 44 insertions(+), 26 deletions(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index dfc5e31..3625048 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -28,6 +28,7 @@ from turms.utils import (
     compose_field_documentation,
     generate_pydantic_config,
     get_additional_bases_for_type,
+    merge_bases_sequences,
     is_oneof_input_type,
     parse_documents,
 )
@@ -335,11 +336,13 @@ def generate_input_type(
 
     return ast.ClassDef(
         name,
-        bases=additional_bases
-        + [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-            for base in plugin_config.inputtype_bases
-        ],
+        bases=merge_bases_sequences(
+            additional_bases,
+            [
+                ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                for base in plugin_config.inputtype_bases
+            ],
+        ),
         decorator_list=[],
         keywords=[],
         body=fields
@@ -455,11 +458,13 @@ def generate_oneof_wrapper_input(
         tree.append(
             ast.ClassDef(
                 classname,
-                bases=additional_bases
-                + [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in plugin_config.inputtype_bases
-                ],
+                bases=merge_bases_sequences(
+                    additional_bases,
+                    [
+                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        for base in plugin_config.inputtype_bases
+                    ],
+                ),
                 decorator_list=[],
                 keywords=[],
                 body=[
@@ -800,11 +805,13 @@ def generate_inputs(
         tree.append(
             ast.ClassDef(
                 name,
-                bases=additional_bases
-                + [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in plugin_config.inputtype_bases
-                ],
+                bases=merge_bases_sequences(
+                    additional_bases,
+                    [
+                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        for base in plugin_config.inputtype_bases
+                    ],
+                ),
                 decorator_list=[],
                 keywords=[],
                 body=fields
diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index f44f1d9..477418c 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -26,6 +26,7 @@ from turms.utils import (
     compose_field_documentation,
     generate_pydantic_config,
     get_additional_bases_for_type,
+    merge_bases_sequences,
     interface_is_extended_by_other_interfaces,
 )
 from turms.config import GraphQLTypes
@@ -261,6 +262,7 @@ def generate_types(
             classname = registry.generate_interface(key)
             interface_base_map[key] = classname
 
+        interface_bases: List[ast.Name] = []
         for interface in object_type.interfaces:
             # Populate the Union_classed
             interface_map.setdefault(interface.name, []).append(classname)
@@ -269,7 +271,7 @@ def generate_types(
             if not interface_is_extended_by_other_interfaces(
                 interface, other_interfaces
             ):
-                additional_bases.append(
+                interface_bases.append(
                     ast.Name(
                         id=registry.inherit_interface(interface.name),
                         ctx=ast.Load(),
@@ -361,11 +363,15 @@ def generate_types(
         tree.append(
             ast.ClassDef(
                 classname,
-                bases=additional_bases
-                + [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in plugin_config.types_bases
-                ],
+                bases=merge_bases_sequences(
+                    # the interface might inherit from the same traits
+                    interface_bases,
+                    additional_bases,
+                    [
+                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        for base in plugin_config.types_bases
+                    ],
+                ),
                 decorator_list=[],
                 keywords=[],
                 body=fields
diff --git a/turms/utils.py b/turms/utils.py
index 35cbc75..a73ac67 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -1,7 +1,7 @@
 import ast
 import glob
 import re
-from typing import Any, List, Optional, Sequence, Set, Union
+from typing import Any, Dict, List, Optional, Sequence, Set, Union
 
 from graphql import (
     FragmentDefinitionNode,
@@ -82,11 +82,16 @@ def merge_body_sequences(
 def merge_bases_sequences(
     *sequences: Sequence[ast.Name],
 ) -> list[ast.expr]:
-    """Merges a list of sequences into a single sequence"""
-    merged = []
+    """Merges a list of sequences of base classes into a single sequence
+
+    A class can only be listed once as a base. Its last occurrence counts, so that
+    the common bases keep their order in every class."""
+    merged: Dict[str, ast.expr] = {}
     for seq in sequences:
-        merged.extend(seq)  # type: ignore
-    return merged  # type: ignore
+        for base in seq:
+            merged.pop(base.id, None)
+            merged[base.id] = base
+    return list(merged.values())
 
 
 def target_from_node(node: FieldNode) -> str:
-- 
2.43.0


From f3faa502040de9159e3b9bee10f836f98b0460fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 66/98] fix: configured bases of generated models are imported
 and reach interface fragments, and a type's traits are linearized the same
 way in every class

---
 turms/plugins/fragments.py | 38 ++++++++++++++++++++------------------
 turms/recurse.py           | 30 +++++++++++-------------------
 turms/utils.py             | 37 ++++++++++++++++++++++++++++++-------
 3 files changed, 61 insertions(+), 44 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 6cf5757..9c45cfb 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -30,7 +30,9 @@ from turms.utils import (
     generate_pydantic_config,
     generate_typename_field,
     get_additional_bases_for_type,
+    get_additional_bases_for_variant,
     get_interface_bases,
+    get_object_bases,
     merge_bases_sequences,
     merge_body_sequences,
     replace_iteratively,
@@ -166,12 +168,10 @@ def get_fragment_bases(
                 for base in pluginConfig.object_bases
             ]
 
-    for base in config.object_bases:
-        registry.register_import(base)
+    if kind == "INTERFACE":
+        return bases + get_interface_bases(config, registry)
 
-    return bases + [
-        ast.Name(id=base.split(".")[-1], ctx=ast.Load()) for base in config.object_bases
-    ]
+    return bases + get_object_bases(config, registry)
 
 
 def generate_fragment(
@@ -206,8 +206,6 @@ def generate_fragment(
 
         mother_class_fields: list[ast.AnnAssign | ast.Expr] = []
         base_fragment_name = registry.style_fragment_class(f.name.value)
-        additional_bases = get_additional_bases_for_type(type.name, config, registry)
-
         if type.description and plugin_config.add_documentation:
             mother_class_fields.append(
                 ast.Expr(value=ast.Constant(value=type.description))
@@ -319,7 +317,7 @@ def generate_fragment(
         mother_class = ast.ClassDef(
             mother_class_name,
             bases=merge_bases_sequences(
-                additional_bases, get_interface_bases(config, registry)
+                get_fragment_bases("INTERFACE", config, plugin_config, registry),
             ),  # Todo: fill with base
             decorator_list=[],
             keywords=[],
@@ -333,13 +331,15 @@ def generate_fragment(
 
         catch_class = ast.ClassDef(
             catch_class_name,
-            bases=[
-                ast.Name(id=base, ctx=ast.Load())
-                for base in [
-                    *registry.order_fragment_bases(catch_all_bases),
-                    mother_class_name,
-                ]
-            ],  # Todo: fill with base
+            bases=merge_bases_sequences(
+                [
+                    ast.Name(id=base, ctx=ast.Load())
+                    for base in registry.order_fragment_bases(catch_all_bases)
+                ],
+                get_additional_bases_for_type(type.name, config, registry),
+                [ast.Name(id=mother_class_name, ctx=ast.Load())],
+                get_fragment_bases("INTERFACE", config, plugin_config, registry),
+            ),  # Todo: fill with base
             decorator_list=[],
             keywords=[],
             type_params=[],
@@ -367,7 +367,9 @@ def generate_fragment(
         for i in implementing_types.objects:
             class_name = f"{base_fragment_name}{i.name}"
 
-            additional_bases = get_additional_bases_for_type(i.name, config, registry)
+            additional_bases = get_additional_bases_for_variant(
+                i.name, type.name, config, registry
+            )
 
             description_field = (
                 ast.Expr(value=ast.Constant(value=i.description))
@@ -389,9 +391,9 @@ def generate_fragment(
                 class_name,
                 bases=merge_bases_sequences(
                     ast_base_nodes,
-                    [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     additional_bases,
-                    get_interface_bases(config, registry),
+                    [ast.Name(id=mother_class_name, ctx=ast.Load())],
+                    get_fragment_bases("INTERFACE", config, plugin_config, registry),
                 ),  # Todo: fill with base
                 decorator_list=[],
                 keywords=[],
diff --git a/turms/recurse.py b/turms/recurse.py
index 6e59f6d..128ff41 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -15,7 +15,9 @@ from turms.utils import (
     generate_pydantic_config,
     generate_typename_field,
     get_additional_bases_for_type,
+    get_additional_bases_for_variant,
     get_interface_bases,
+    get_object_bases,
     merge_bases_sequences,
     merge_body_sequences,
     non_typename_fields,
@@ -201,10 +203,7 @@ def recurse_annotation(
                         sub_node.type_condition.name.value, config, registry
                     )
 
-                config_bases = [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in config.object_bases
-                ]
+                config_bases = get_object_bases(config, registry)
 
                 merged_body = merge_body_sequences(
                     this_inline_fragment_fields,
@@ -244,10 +243,7 @@ def recurse_annotation(
                     member_class_name,
                     bases=merge_bases_sequences(
                         get_additional_bases_for_type(member.name, config, registry),
-                        [
-                            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                            for base in config.object_bases
-                        ],
+                        get_object_bases(config, registry),
                     ),
                     decorator_list=[],
                     keywords=[],
@@ -420,15 +416,11 @@ def recurse_annotation(
         # We first genrate the mother class that will provide common fields of this fragment. This will never be reference
         # though
         mother_class_name = f"{base_name}Base"
-        additional_bases = get_additional_bases_for_type(type.name, config, registry)
-
         body = mother_class_fields if mother_class_fields else [ast.Pass()]
 
         mother_class = ast.ClassDef(
             mother_class_name,
-            bases=merge_bases_sequences(
-                additional_bases, get_interface_bases(config, registry)
-            ),
+            bases=merge_bases_sequences(get_interface_bases(config, registry)),
             decorator_list=[],
             keywords=[],
             type_params=[],
@@ -442,7 +434,9 @@ def recurse_annotation(
         for i in implementing_types.objects:
             class_name = f"{mother_class_name}{i.name}"
 
-            additional_bases = get_additional_bases_for_type(i.name, config, registry)
+            additional_bases = get_additional_bases_for_variant(
+                i.name, type.name, config, registry
+            )
 
             description_field = (
                 ast.Expr(value=ast.Constant(value=i.description))
@@ -466,8 +460,8 @@ def recurse_annotation(
                 class_name,
                 bases=merge_bases_sequences(
                     ast_base_nodes,
-                    [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     additional_bases,
+                    [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     get_interface_bases(config, registry),
                 ),  # Todo: fill with base
                 decorator_list=[],
@@ -531,6 +525,7 @@ def recurse_annotation(
                         ast.Name(id=base, ctx=ast.Load())
                         for base in registry.order_fragment_bases(catch_all_bases)
                     ],
+                    get_additional_bases_for_type(type.name, config, registry),
                     [ast.Name(id=mother_class_name, ctx=ast.Load())],
                     get_interface_bases(config, registry),
                 ),  # Todo: fill with base
@@ -679,10 +674,7 @@ def recurse_annotation(
             object_class_name,
             bases=merge_bases_sequences(
                 additional_bases,
-                [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in config.object_bases
-                ],
+                get_object_bases(config, registry),
             ),
             decorator_list=[],
             keywords=[],
diff --git a/turms/utils.py b/turms/utils.py
index a73ac67..ef5e6d6 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -629,6 +629,23 @@ def get_additional_bases_for_type(
     return []
 
 
+def get_additional_bases_for_variant(
+    typename: str, interface_name: str, config: GeneratorConfig, registry: ClassRegistry
+) -> List[ast.Name]:
+    """The additional bases of the class that represents a type in a selection on an
+    interface: those of the type, and those of the interface.
+
+    They are listed in front of the class with the shared fields, so that the bases of
+    a type are linearized the same way in every class of that type."""
+    bases = get_additional_bases_for_type(typename, config, registry)
+    own = {base.id for base in bases}
+    return bases + [
+        base
+        for base in get_additional_bases_for_type(interface_name, config, registry)
+        if base.id not in own
+    ]
+
+
 def is_oneof_input_type(graphql_type) -> bool:
     """Whether an input object type is declared with the spec ``@oneOf`` directive.
 
@@ -643,6 +660,18 @@ def is_oneof_input_type(graphql_type) -> bool:
     return any(directive.name.value == "oneOf" for directive in ast_node.directives)
 
 
+def get_object_bases(
+    config: GeneratorConfig, registry: ClassRegistry
+) -> List[ast.Name]:
+    """The globally configured base classes"""
+    for base in config.object_bases:
+        registry.register_import(base)
+
+    return [
+        ast.Name(id=base.split(".")[-1], ctx=ast.Load()) for base in config.object_bases
+    ]
+
+
 def get_interface_bases(config: GeneratorConfig, registry: ClassRegistry):
     if config.interface_bases:
         for base in config.interface_bases:
@@ -653,13 +682,7 @@ def get_interface_bases(config: GeneratorConfig, registry: ClassRegistry):
             for base in config.interface_bases
         ]
     else:
-        for base in config.object_bases:
-            registry.register_import(base)
-
-        return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-            for base in config.object_bases
-        ]
+        return get_object_bases(config, registry)
 
 
 def interface_is_extended_by_other_interfaces(
-- 
2.43.0


From 6c49251f9cb4e062c0b8edc3d42351961e8be5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 67/98] fix: the disclaimer is not repeated when an earlier
 output was merged before it

---
 turms/processors/disclaimer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turms/processors/disclaimer.py b/turms/processors/disclaimer.py
index 90ad090..1a839ae 100644
--- a/turms/processors/disclaimer.py
+++ b/turms/processors/disclaimer.py
@@ -19,4 +19,7 @@ class DisclaimerProcessor(Processor):
     config: DisclaimerProcessorConfig = Field(default_factory=DisclaimerProcessorConfig)
 
     def run(self, gen_file: str, config: GeneratorConfig):
+        if gen_file.startswith(self.config.disclaimer):
+            # the disclaimer of an earlier run, that was merged into this file
+            return gen_file
         return self.config.disclaimer + "\n" + gen_file
-- 
2.43.0


From 64046f0e69eaa4b7826644a2fdae367714b6172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 68/98] fix: merging keeps async functions, user decorators and
 same-line statements, and brings in new bases, decorators, nested classes,
 calls and fields that become resolvers

---
 turms/processors/merge.py | 361 ++++++++++++++++++++------------------
 1 file changed, 189 insertions(+), 172 deletions(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index f6468c8..5b20a5f 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -8,27 +8,33 @@ import os
 # load beasts.py as a ast.Module
 
 
-def retrieve_symbol_name(simple_statement: cst.SimpleStatementLine):
-    for node in simple_statement.body:
-        if isinstance(node, cst.AnnAssign):
-            return node.target.value
-        if (
-            isinstance(node, cst.Assign)
-            and len(node.targets) == 1
-            and isinstance(node.targets[0].target, cst.Name)
-        ):
-            return node.targets[0].target.value
-    else:
-        return None
+def retrieve_symbol_name(statement: cst.BaseSmallStatement):
+    """Returns the name the statement assigns (None for other statements)"""
+    if isinstance(statement, cst.AnnAssign) and isinstance(statement.target, cst.Name):
+        return statement.target.value
+    if (
+        isinstance(statement, cst.Assign)
+        and len(statement.targets) == 1
+        and isinstance(statement.targets[0].target, cst.Name)
+    ):
+        return statement.targets[0].target.value
+    return None
+
+
+def contains_equal(nodes, node: cst.CSTNode):
+    return any(node.deep_equals(other) for other in nodes)
 
 
 def merge_functions(generated: cst.FunctionDef, existing: cst.FunctionDef):
     # merge the two functions
 
-    # we want to merge the body of the new function into the existing one
-
-    new_def = generated.with_changes(body=existing.body)
-    return new_def
+    # we want to merge the body of the existing function into the new one, a
+    # body that awaits something needs its function to stay async
+    return generated.with_changes(
+        body=existing.body,
+        asynchronous=generated.asynchronous or existing.asynchronous,
+        decorators=merge_decorators(generated.decorators, existing.decorators),
+    )
 
 
 def merge_statements(
@@ -36,102 +42,208 @@ def merge_statements(
 ):
     # merge the two statements
 
-    # we want to merge the body of the new statement into the existing one
+    # we want to replace the statement of the existing line, that assigns the same
+    # name, and keep everything else on that line
+    name = retrieve_symbol_name(generated.body[0])
+
+    return existing.with_changes(
+        body=[
+            (
+                generated.body[0].with_changes(semicolon=statement.semicolon)
+                if retrieve_symbol_name(statement) == name
+                else statement
+            )
+            for statement in existing.body
+        ]
+    )
+
+
+def merge_decorators(generated, existing):
+    """The generated decorators replace the existing ones that apply the same
+    callable, all other existing decorators are kept"""
+
+    def applied(decorator: cst.Decorator):
+        node = decorator.decorator
+        return node.func if isinstance(node, cst.Call) else node
+
+    missing = list(generated)
+    merged = []
+    for decorator in existing:
+        match = next(
+            (new for new in missing if applied(new).deep_equals(applied(decorator))),
+            None,
+        )
+        if match is None:
+            merged.append(decorator)
+        else:
+            missing.remove(match)
+            merged.append(decorator.with_changes(decorator=match.decorator))
+
+    return [*missing, *merged]
+
 
-    new_def = existing.with_changes(body=generated.body)
-    return new_def
+def merge_bases(generated: cst.ClassDef, existing: cst.ClassDef):
+    """Adds the bases, that the existing class does not have yet, in front of the
+    bases they were generated in front of"""
+    merged = [base.value for base in existing.bases]
+    if all(contains_equal(merged, base.value) for base in generated.bases):
+        return existing.bases
+
+    following = []
+    for base in reversed(generated.bases):
+        if not contains_equal(merged, base.value):
+            position = next(
+                (i for i, x in enumerate(merged) if contains_equal(following, x)),
+                len(merged),
+            )
+            merged.insert(position, base.value)
+        following.append(base.value)
+
+    return [cst.Arg(base) for base in merged]
 
 
 def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
     # merge the two classes
-    body_symbols = OrderedDict()
-    body_implemented_symbols = []
-    body_symbol_position = OrderedDict()
+    body = existing.body
+    if isinstance(body, cst.SimpleStatementSuite):
+        # a class on a single line
+        body = cst.IndentedBlock(
+            body=[
+                cst.SimpleStatementLine(
+                    body=body.body, trailing_whitespace=body.trailing_whitespace
+                )
+            ]
+        )
 
-    generated_indented_block = generated.body
+    bases = merge_bases(generated, existing)
+
+    merged = existing.with_changes(
+        body=body.with_changes(
+            body=merge_body(generated.body.body, body.body, is_class=True)
+        ),
+        bases=bases,
+        decorators=merge_decorators(generated.decorators, existing.decorators),
+    )
+    if bases and not existing.bases:
+        merged = merged.with_changes(
+            lpar=cst.LeftParen(), rpar=cst.RightParen()
+        )
+    return merged
 
-    for node in generated_indented_block.body:
-        if isinstance(node, cst.FunctionDef):
-            body_symbols[node.name.value] = node
 
-        if isinstance(node, cst.SimpleStatementLine):
-            x = retrieve_symbol_name(node)
-            if retrieve_symbol_name(node) is not None:
-                body_symbols[x] = node
+def merge_body(generated, existing, is_class: bool = False):
+    """Merges the generated statements of a module or class into the existing ones"""
+    symbols = OrderedDict()
+
+    for node in generated:
+        if isinstance(node, (cst.ClassDef, cst.FunctionDef)):
+            symbols[node.name.value] = node
+        elif isinstance(node, cst.SimpleStatementLine):
+            name = retrieve_symbol_name(node.body[0])
+            if name is not None:
+                symbols[name] = node
+            elif isinstance(node.body[0], cst.Expr) and not is_docstring(node):
+                # calls like model_rebuild() are identified by their code
+                symbols[cst.Module([]).code_for_node(node.body[0])] = node
 
-    existing_indented_block = existing.body
+    symbol_position = OrderedDict()
 
     new_body = []
 
-    for node in existing_indented_block.body:
-        if isinstance(node, cst.SimpleStatementLine):
-            name = retrieve_symbol_name(node)
-            if name is not None:
-                if name in body_symbols:
-                    body_symbol_position[name] = len(new_body)
-                    new_body.append(merge_statements(body_symbols[name], node))
-                    body_implemented_symbols.append(name)
-                else:
-                    new_body.append(node)
-            else:
-                new_body.append(node)
+    def merge_node(name, node):
+        """Merges the symbol of that name into the node, if they belong together"""
+        symbol = symbols.get(name)
+        if symbol is None or name in symbol_position:
+            return None
+        if isinstance(symbol, cst.ClassDef) and isinstance(node, cst.ClassDef):
+            return merge_class(symbol, node)
+        if isinstance(symbol, cst.FunctionDef) and isinstance(node, cst.FunctionDef):
+            return merge_functions(symbol, node)
+        if isinstance(symbol, cst.SimpleStatementLine):
+            if isinstance(node, cst.SimpleStatementLine):
+                return merge_statements(symbol, node)
+            if is_class and isinstance(node, cst.FunctionDef):
+                # the field is implemented by a function
+                return node
+        return None
+
+    for node in existing:
+        if isinstance(node, (cst.ClassDef, cst.FunctionDef)):
+            merged = merge_node(node.name.value, node)
+            if merged is not None:
+                symbol_position[node.name.value] = len(new_body)
+                node = merged
+            new_body.append(node)
+
+        elif isinstance(node, cst.SimpleStatementLine):
+            outdated = []
+            for statement in node.body:
+                name = retrieve_symbol_name(statement)
+                if name is None:
+                    name = cst.Module([]).code_for_node(
+                        statement.with_changes(semicolon=cst.MaybeSentinel.DEFAULT)
+                    )
+                elif is_class and isinstance(symbols.get(name), cst.FunctionDef):
+                    # the field became a function
+                    outdated.append(name)
+                    continue
 
-        elif isinstance(node, cst.FunctionDef):
-            if node.name.value in body_symbols:
-                x = body_symbols[node.name.value]
-                body_symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_functions(x, node))
-                body_implemented_symbols.append(node.name.value)
+                merged = merge_node(name, node)
+                if merged is not None:
+                    symbol_position[name] = len(new_body)
+                    node = merged
+
+            if outdated:
+                remaining = [
+                    statement
+                    for statement in node.body
+                    if retrieve_symbol_name(statement) not in outdated
+                ]
+                if remaining:
+                    new_body.append(node.with_changes(body=remaining))
+                for name in outdated:
+                    if name not in symbol_position:
+                        symbol_position[name] = len(new_body)
+                        new_body.append(symbols[name])
             else:
                 new_body.append(node)
 
         else:
             new_body.append(node)
 
-    # add the missing classes at the right position
+    # add the missing symbols at the right position
 
-    body_missing_symbols = [
-        key for key in body_symbols.keys() if key not in body_implemented_symbols
-    ]
+    missing_symbols = [key for key in symbols.keys() if key not in symbol_position]
 
     beforemap = {}  # a map index and a list of symbols to insert before
     aftermap = {}
 
-    # add the missing classes at the right position
     last_key = None
-    for existingkey in body_implemented_symbols:
+    for existingkey in symbol_position:
         last_key = existingkey
-        for key, value in body_symbols.items():
+        for key in symbols:
             if existingkey == key:
                 break
-            if key in body_missing_symbols:
-                body_missing_symbols.remove(key)
-                beforemap.setdefault(body_symbol_position[existingkey], []).append(
-                    key
-                )  # we need to reverse
+            if key in missing_symbols:
+                missing_symbols.remove(key)
+                beforemap.setdefault(symbol_position[existingkey], []).append(key)
 
     if last_key is not None:
-        aftermap[body_symbol_position[last_key]] = body_missing_symbols
+        aftermap[symbol_position[last_key]] = missing_symbols
 
     updated_body = []
     for index, node in enumerate(new_body):
-        if index in beforemap:
-            for missingkey in beforemap[index]:
-                updated_body.append(body_symbols[missingkey])
+        for missingkey in beforemap.get(index, []):
+            updated_body.append(symbols[missingkey])
         updated_body.append(node)
-        if index in aftermap:
-            for missingkey in aftermap[index]:
-                updated_body.append(body_symbols[missingkey])
+        for missingkey in aftermap.get(index, []):
+            updated_body.append(symbols[missingkey])
 
     if last_key is None:
-        for missingkey in body_missing_symbols:
-            updated_body.append(body_symbols[missingkey])
-
-    new_class = existing.with_changes(
-        body=existing_indented_block.with_changes(body=updated_body)
-    )
+        for missingkey in missing_symbols:
+            updated_body.append(symbols[missingkey])
 
-    return new_class
+    return updated_body
 
 
 def imported_names(node: cst.CSTNode):
@@ -188,106 +300,11 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
     existing_module = cst.parse_module(old_code)
     new_module = cst.parse_module(new_code)
 
-    symbols = OrderedDict()
-
-    implemented_symbols = []
-    new_symbols = set()
-
-    new_body = []
-
     # merge the two ast.Module
-    for node in new_module.body:
-
-        if isinstance(node, cst.ClassDef):
-            symbols[node.name.value] = node
-            new_symbols.add(node.name.value)
-
-        if isinstance(node, cst.FunctionDef):
-            symbols[node.name.value] = node
-            new_symbols.add(node.name.value)
-
-        if isinstance(node, cst.SimpleStatementLine):
-            name = retrieve_symbol_name(node)
-            if name is not None:
-                symbols[name] = node
-                new_symbols.add(name)
-
-    symbol_position = {}
-
-    for node in existing_module.body:
-        if isinstance(node, cst.ClassDef):
-            if node.name.value in symbols:
-                x = symbols[node.name.value]
-                # merge the two classes
-
-                symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_class(x, node))
-                implemented_symbols.append(node.name.value)
-            else:
-                new_body.append(node)
-
-        elif isinstance(node, cst.FunctionDef):
-            if node.name.value in symbols:
-                # merge the two functions
-                x = symbols[node.name.value]
-
-                symbol_position[node.name.value] = len(new_body)
-                new_body.append(merge_functions(x, node))
-                implemented_symbols.append(node.name.value)
-            else:
-                new_body.append(node)
-
-        elif (
-            isinstance(node, cst.SimpleStatementLine)
-            and retrieve_symbol_name(node) in symbols
-        ):
-            name = retrieve_symbol_name(node)
-            symbol_position[name] = len(new_body)
-            new_body.append(merge_statements(symbols[name], node))
-            implemented_symbols.append(name)
-
-        else:
-            new_body.append(node)
-
-    # add the missing classes at the right position
-
-    missing_symbols = [key for key in symbols.keys() if key not in implemented_symbols]
-
-    beforemap = {}  # a map index and a list of symbols to insert before
-    aftermap = {}
-
-    # add the missing classes at the right position
-    last_key = None
-    for existingkey in implemented_symbols:
-        last_key = existingkey
-        for key, value in symbols.items():
-            if existingkey == key:
-                break
-            if key in missing_symbols:
-                missing_symbols.remove(key)
-                beforemap.setdefault(symbol_position[existingkey], []).append(
-                    key
-                )  # we need to reverse
-
-    if last_key is not None:
-        aftermap[symbol_position[last_key]] = missing_symbols
-
-    updated_body = []
-    for index, node in enumerate(new_body):
-        if index in beforemap:
-            for missingkey in beforemap[index]:
-                updated_body.append(symbols[missingkey])
-        updated_body.append(node)
-        if index in aftermap:
-            for missingkey in aftermap[index]:
-                updated_body.append(symbols[missingkey])
-
-    if last_key is None:
-        for missingkey in missing_symbols:
-            updated_body.append(symbols[missingkey])
+    merged_body = merge_body(new_module.body, existing_module.body)
 
     md = existing_module.with_changes(
-        body=add_missing_imports(updated_body, new_module)
+        body=add_missing_imports(merged_body, new_module)
     )
 
     return md.code
-- 
2.43.0


From e0773fe621e65c9ebd006b687ad5ebe62c1c086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:20 +0000
Subject: [PATCH 69/98] fix: merging moves a definition in front of the
 statements that newly depend on it

---
 turms/processors/merge.py | 61 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5b20a5f..60f7398 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -1,5 +1,6 @@
 from pydantic import Field
 from turms.processors.base import Processor, ProcessorConfig
+import ast
 import libcst as cst
 from collections import OrderedDict
 from turms.config import GeneratorConfig
@@ -291,6 +292,62 @@ def add_missing_imports(body, new_module: cst.Module):
     return [*body[:position], *missing, *body[position:]]
 
 
+def defined_names(node: ast.stmt):
+    if isinstance(node, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef)):
+        return {node.name}
+    if isinstance(node, (ast.Assign, ast.AnnAssign)):
+        targets = node.targets if isinstance(node, ast.Assign) else [node.target]
+        return {target.id for target in targets if isinstance(target, ast.Name)}
+    return set()
+
+
+def needed_names(node: ast.AST):
+    """The names that need to be defined when the statement is executed"""
+    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
+        children = [*node.decorator_list, node.args, node.returns]
+    elif isinstance(node, ast.Name):
+        return {node.id} if isinstance(node.ctx, ast.Load) else set()
+    else:
+        children = ast.iter_child_nodes(node)
+    return {name for child in children if child for name in needed_names(child)}
+
+
+def order_definitions(body):
+    """Moves definitions, that an earlier statement became dependent on, in front of
+    that statement"""
+    statements = []
+    for node in body:
+        parsed = ast.parse(cst.Module([]).code_for_node(node)).body
+        statements.append(
+            (
+                node,
+                {name for x in parsed for name in defined_names(x)},
+                {name for x in parsed for name in needed_names(x)},
+            )
+        )
+
+    moved = set()
+    position = 0
+    while position < len(statements):
+        defined = {name for _, names, _ in statements[:position] for name in names}
+        needed = statements[position][2] - defined - moved
+        late = next(
+            (
+                index
+                for index in range(position + 1, len(statements))
+                if needed & statements[index][1]
+            ),
+            None,
+        )
+        if late is None:
+            position += 1
+        else:
+            moved |= statements[late][1]
+            statements.insert(position, statements.pop(late))
+
+    return [node for node, _, _ in statements]
+
+
 class MergeProcessorConfig(ProcessorConfig):
     type: str = "turms.processors.merge.MergeProcessor"
 
@@ -301,7 +358,9 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
     new_module = cst.parse_module(new_code)
 
     # merge the two ast.Module
-    merged_body = merge_body(new_module.body, existing_module.body)
+    merged_body = order_definitions(
+        merge_body(new_module.body, existing_module.body)
+    )
 
     md = existing_module.with_changes(
         body=add_missing_imports(merged_body, new_module)
-- 
2.43.0


From ffe0016c16de29d1831deebe8bee917575bb5065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 70/98] fix: strawberry skeletons keep every name of the schema
 whatever its python name

---
 turms/plugins/strawberry.py | 224 +++++++++++++++++++++++++++++++++---
 turms/registry.py           |   5 +-
 2 files changed, 210 insertions(+), 19 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8ba983e..88fe7af 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1,11 +1,8 @@
 from graphql import (
-    BooleanValueNode,
-    ConstListValueNode,
-    ConstObjectValueNode,
-    ConstValueNode,
-    EnumValueNode,
-    FloatValueNode,
+    DirectiveLocation,
+    GraphQLDirective,
     GraphQLField,
+    GraphQLInputField,
     GraphQLInputObjectType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -14,37 +11,50 @@ from graphql import (
     GraphQLScalarType,
     GraphQLType,
     GraphQLUnionType,
-    IntValueNode,
-    ListValueNode,
-    NullValueNode,
-    ObjectValueNode,
-    StringValueNode,
     Undefined,
     GraphQLArgument,
     ObjectTypeDefinitionNode,
+    is_required_argument,
+    value_from_ast,
 )
 from pydantic_settings import SettingsConfigDict
 
 from turms.plugins.base import Plugin, PluginConfig
 import ast
-from typing import Dict, List, Protocol, runtime_checkable
+import builtins
+from keyword import iskeyword
+from typing import (
+    Callable,
+    Dict,
+    Iterable,
+    List,
+    Optional,
+    Protocol,
+    Set,
+    runtime_checkable,
+)
 from turms.config import GeneratorConfig, ImportableFunctionMixin
 from graphql.utilities.build_client_schema import GraphQLSchema
 from pydantic import Field
 from graphql.type.definition import (
     GraphQLEnumType,
 )
-from turms.registry import ClassRegistry
+from turms.registry import RESERVED_CLASS_NAMES, ClassRegistry
 from turms.utils import (
     convert_default_value_to_ast,
     generate_pydantic_config,
     get_additional_bases_for_type,
     interface_is_extended_by_other_interfaces,
     is_oneof_input_type,
+    merge_bases_sequences,
 )
 from turms.config import GraphQLTypes
 
 
+# Parameters that mean something else to strawberry
+RESOLVER_PARAMETERS = {"self", "cls", "root", "info"}
+
+
 @runtime_checkable
 class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     def __call__(
@@ -56,6 +66,178 @@ class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     ) -> List[ast.AST]: ...  # pragma: no cover
 
 
+def find_hidden_names(
+    client_schema: GraphQLSchema, registry: ClassRegistry
+) -> Set[str]:
+    """The names of the generated module, that the fields of a class would hide from
+    the annotations and decorators in its body"""
+    # (mro is an attribute of every class, which would pass for the default)
+    names = {"strawberry", "mro", *RESERVED_CLASS_NAMES}
+    for key, type in client_schema.type_map.items():
+        if isinstance(type, GraphQLScalarType):
+            names.add(registry.scalar_map.get(key, key).split(".")[-1])
+        elif isinstance(type, GraphQLEnumType):
+            names.add(registry.style_enum_class(key))
+        elif isinstance(type, GraphQLInputObjectType):
+            names.add(registry.style_inputtype_class(key))
+        else:
+            names.add(registry.style_objecttype_class(key))
+    for directive in client_schema.directives:
+        names.add(escape_global_name(directive.name))
+    return names
+
+
+def escape_global_name(name: str) -> str:
+    """The name of the class of a directive or of a scalar"""
+    if iskeyword(name) or name in RESERVED_CLASS_NAMES:
+        return name + "_"
+    return name
+
+
+def name_members(
+    keys: Iterable[str],
+    style: Callable[[str], str],
+    hidden: Set[str],
+    inherited: Optional[Dict[str, str]] = None,
+) -> Dict[str, str]:
+    """The python names of the fields of a type (or arguments of a field), that
+    neither clash with each other nor hide anything their class refers to"""
+    keys = list(keys)
+    names = {key: name for key, name in (inherited or {}).items() if key in keys}
+    for key in sorted(keys, key=lambda key: style(key) != key):
+        if key not in names:
+            name = style(key)
+            while name in hidden or name in names.values():
+                name += "_"
+            names[key] = name
+    return names
+
+
+def find_schema_locations(directive: GraphQLDirective) -> List[DirectiveLocation]:
+    """The locations of a directive in a schema, not in the documents of its clients"""
+    return [
+        location
+        for location in directive.locations
+        if location.name
+        in (
+            "SCHEMA",
+            "SCALAR",
+            "OBJECT",
+            "FIELD_DEFINITION",
+            "ARGUMENT_DEFINITION",
+            "INTERFACE",
+            "UNION",
+            "ENUM",
+            "ENUM_VALUE",
+            "INPUT_OBJECT",
+            "INPUT_FIELD_DEFINITION",
+        )
+    ]
+
+
+def is_generated_directive(
+    directive: GraphQLDirective, plugin_config: "StrawberryPluginConfig"
+) -> bool:
+    if directive.name in plugin_config.builtin_directives:
+        return False
+    if plugin_config.skip_underscore and directive.name.startswith("_"):
+        return False
+    if plugin_config.skip_double_underscore and directive.name.startswith("__"):
+        return False
+    return bool(find_schema_locations(directive))
+
+
+def generate_name_keywords(python_name: str, graphql_name: str) -> List[ast.keyword]:
+    """Strawberry serves everything under a camel cased version of its python name,
+    unless it is told otherwise"""
+    if python_name == graphql_name and "_" not in graphql_name:
+        return []
+    return [ast.keyword(arg="name", value=ast.Constant(value=graphql_name))]
+
+
+def convert_default_to_ast(
+    value, graphql_type: GraphQLType, parent: str, registry: ClassRegistry
+) -> ast.expr:
+    """Converts a default value to the python value of the served type"""
+    if isinstance(graphql_type, GraphQLNonNull):
+        graphql_type = graphql_type.of_type
+    if value is None:
+        return ast.Constant(value=None)
+    if isinstance(graphql_type, GraphQLList):
+        values = value if isinstance(value, (list, tuple)) else [value]
+        return ast.List(
+            elts=[
+                convert_default_to_ast(x, graphql_type.of_type, parent, registry)
+                for x in values
+            ],
+            ctx=ast.Load(),
+        )
+    if isinstance(graphql_type, GraphQLEnumType):
+        enum = registry.reference_enum(graphql_type.name, parent)
+        if isinstance(enum, ast.Constant):
+            return ast.Constant(value=value)
+        return ast.Attribute(
+            value=enum,
+            attr=registry.generate_enum_member_name(
+                value, graphql_type.values, enum.id
+            ),
+            ctx=ast.Load(),
+        )
+    if isinstance(graphql_type, GraphQLInputObjectType):
+        return ast.Dict(
+            keys=[ast.Constant(value=key) for key in value],
+            values=[
+                convert_default_to_ast(
+                    inner, graphql_type.fields[key].type, parent, registry
+                )
+                for key, inner in value.items()
+            ],
+        )
+    return convert_default_value_to_ast(value)
+
+
+def generate_factory(default: ast.expr) -> ast.Lambda:
+    return ast.Lambda(
+        args=ast.arguments(
+            posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
+        ),
+        body=default,
+    )
+
+
+def generate_unset() -> ast.expr:
+    return ast.Name(id="strawberry.UNSET", ctx=ast.Load())
+
+
+def generate_union_annotation(
+    graphql_type: GraphQLUnionType,
+    members: List[ast.expr],
+    registry: ClassRegistry,
+) -> ast.expr:
+    """A union that is served under its own name"""
+    registry.register_import("typing.Annotated")
+    registry.register_import("typing.Union")
+    return ast.Subscript(
+        value=ast.Name("Annotated", ctx=ast.Load()),
+        slice=ast.Tuple(
+            elts=[
+                ast.Subscript(
+                    value=ast.Name("Union", ctx=ast.Load()),
+                    slice=ast.Tuple(elts=members, ctx=ast.Load()),
+                    ctx=ast.Load(),
+                ),
+                ast.Call(
+                    func=ast.Name(id="strawberry.union", ctx=ast.Load()),
+                    args=[ast.Constant(value=graphql_type.name)],
+                    keywords=[],
+                ),
+            ],
+            ctx=ast.Load(),
+        ),
+        ctx=ast.Load(),
+    )
+
+
 def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry, is_optional=True):
 
     if isinstance(value, GraphQLScalarType):
@@ -1089,8 +1271,9 @@ def generate_scalars(
         registry.register_import("typing.NewType")
 
     for key, scalar in objects.items():
-        keywords = []
-        keywords += generate_directive_keywords(scalar.ast_node, plugin_config)
+        scalar_name = escape_global_name(key)
+        keywords = generate_name_keywords(scalar_name, key)
+        keywords += generate_directive_keywords(scalar.ast_node, client_schema, plugin_config, registry, scalar_name)
         if scalar.description:
             keywords.append(
                 ast.keyword(
@@ -1129,7 +1312,7 @@ def generate_scalars(
 
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=key, ctx=ast.Store())],
+                targets=[ast.Name(id=scalar_name, ctx=ast.Store())],
                 value=ast.Call(
                     func=ast.Name(
                         id="strawberry.scalar",
@@ -1149,7 +1332,7 @@ def generate_scalars(
                 ),
             )
         )
-        registry.register_scalar(key, key)
+        registry.register_scalar(key, scalar_name)
 
     return tree
 
@@ -1175,6 +1358,11 @@ class StrawberryPlugin(Plugin):
         registry: ClassRegistry,
     ) -> List[ast.AST]:
         registry.register_import("strawberry")
+        # Strawberry resolves a forward reference to Warning or print to the builtin
+        registry.reserved_class_names.update(dir(builtins))
+
+        # Strawberry resolves the forward references of its classes by itself
+        forward_references = set(registry.forward_references)
 
         directives = (
             self.config.generate_directives_func(
@@ -1208,4 +1396,6 @@ class StrawberryPlugin(Plugin):
             else []
         )
 
+        registry.forward_references = forward_references
+
         return directives + scalars + enums + inputs + types
diff --git a/turms/registry.py b/turms/registry.py
index d9ffa3d..00ea938 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -37,7 +37,7 @@ RESERVED_CLASS_NAMES: Set[str] = {
     *("BaseModel", "ConfigDict", "Field", "WrapSerializer", "Enum", "UNSET"),
     *("UnsetType", "Annotated", "Any", "AsyncGenerator", "AsyncIterator", "Dict"),
     *("Iterable", "Iterator", "List", "Literal", "NewType", "Optional", "Tuple"),
-    "Union",
+    *("Union", "strawberry"),
 }
 
 # Annotated metadata markers generated into the output module (unless the user
@@ -336,6 +336,7 @@ class ClassRegistry(object):
         self.fragment_document_map: Dict[str, str] = {}
 
         self.class_name_owners: Dict[Tuple[str, str], str] = {}
+        self.reserved_class_names: Set[str] = set(RESERVED_CLASS_NAMES)
         self.func_name_owners: Dict[str, str] = {}
         self.enum_class_map: Dict[str, str] = {}
 
@@ -391,7 +392,7 @@ class ClassRegistry(object):
             )
 
     def _escape_class_name(self, class_name: str) -> str:
-        if iskeyword(class_name) or class_name in RESERVED_CLASS_NAMES:
+        if iskeyword(class_name) or class_name in self.reserved_class_names:
             return class_name + "_"
         return class_name
 
-- 
2.43.0


From a04fed038bbd2e9baeb35d71431cba02aafc51e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 71/98] fix: strawberry unions keep their name and members

---
 turms/plugins/strawberry.py | 55 ++++++++++++-------------------------
 1 file changed, 17 insertions(+), 38 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 88fe7af..6207108 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -613,50 +613,29 @@ def generate_object_field_annotation(
         return registry.reference_object(graphql_type.name, parent)
 
     if isinstance(graphql_type, GraphQLUnionType):
+        union = generate_union_annotation(
+            graphql_type,
+            [
+                generate_object_field_annotation(
+                    union_type,
+                    parent,
+                    config,
+                    plugin_config,
+                    registry,
+                    is_optional=False,
+                )
+                for union_type in graphql_type.types
+            ],
+            registry,
+        )
         if is_optional:
             registry.register_import("typing.Optional")
-            registry.register_import("typing.Union")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=ast.Subscript(
-                    value=ast.Name("Union", ctx=ast.Load()),
-                    slice=ast.Tuple(
-                        elts=[
-                            generate_object_field_annotation(
-                                union_type,
-                                parent,
-                                config,
-                                plugin_config,
-                                registry,
-                                is_optional=False,
-                            )
-                            for union_type in graphql_type.types
-                        ],
-                        ctx=ast.Load(),
-                    ),
-                ),
+                slice=union,
                 ctx=ast.Load(),
             )
-        registry.register_import("typing.Union")
-
-        return ast.Subscript(
-            value=ast.Name("Union", ctx=ast.Load()),
-            slice=ast.Tuple(
-                elts=[
-                    generate_object_field_annotation(
-                        union_type,
-                        parent,
-                        config,
-                        plugin_config,
-                        registry,
-                        is_optional=False,
-                    )
-                    for union_type in graphql_type.types
-                ],
-                ctx=ast.Load(),
-            ),
-            ctx=ast.Load(),
-        )
+        return union
 
     if isinstance(graphql_type, GraphQLEnumType):
         if is_optional:
-- 
2.43.0


From 858699d7fe32fc9ff03d4df75662a378954c229c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 72/98] fix: strawberry root types follow the schema and
 interfaces are ordered by what they implement

---
 turms/plugins/strawberry.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 6207108..e89087e 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1010,12 +1010,16 @@ def generate_types(
         or isinstance(value, GraphQLInterfaceType)
     }
 
+    # Interfaces come first, after the interfaces they implement themselves
     sorted_objects = {
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            key=lambda item: (
+                len(item[1].interfaces)
+                if isinstance(item[1], GraphQLInterfaceType)
+                else len(objects)
+            ),
         )
     }
     registry.register_import("strawberry")
@@ -1149,7 +1153,7 @@ def generate_types(
 
             keywords += generate_directive_keywords(value.ast_node, plugin_config)
 
-            if not additional_args and key not in ["Mutation", "Subscription", "Query"]:
+            if not additional_args and object_type not in root_types:
                 if not keywords:
                     assign_value = None
                 else:
@@ -1173,11 +1177,11 @@ def generate_types(
                 )
 
             else:
-                if key == "Mutation":
+                if object_type is client_schema.mutation_type:
                     decorator_name = ast.Name(id="strawberry.mutation", ctx=ast.Load())
                     function_def = ast.FunctionDef
                     returns = returns
-                elif key == "Subscription":
+                elif object_type is client_schema.subscription_type:
                     registry.register_import("typing.AsyncGenerator")
                     decorator_name = ast.Name(
                         id="strawberry.subscription", ctx=ast.Load()
-- 
2.43.0


From 821ad983e6865f81f61a30508ea04d0523896135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 73/98] fix: strawberry directives are served at schema
 locations with typed arguments

---
 turms/plugins/strawberry.py | 193 +++++++++++++++---------------------
 1 file changed, 79 insertions(+), 114 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index e89087e..b8dd6bc 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -261,11 +261,11 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
             registry.register_import("typing.Optional")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=registry.reference_enum(value.name),
+                slice=registry.reference_enum(value.name, "directive"),
                 ctx=ast.Load(),
             )
 
-        return registry.reference_enum(value.name)
+        return registry.reference_enum(value.name, "directive")
     if isinstance(value, GraphQLNonNull):
         return build_directive_type_annotation(value.of_type, registry, is_optional=False)
     if isinstance(value, GraphQLList):
@@ -296,44 +296,6 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
 
 
 
-def convert_valuenode_to_ast(value: ConstValueNode):
-    if isinstance(value, NullValueNode):
-        return ast.Constant(value=None)
-    if isinstance(value, StringValueNode):
-        return ast.Constant(value=value.value)
-    if isinstance(value, IntValueNode):
-        return ast.Constant(value=value.value)
-    if isinstance(value, FloatValueNode):
-        return ast.Constant(value=value.value)
-    if isinstance(value, BooleanValueNode):
-        return ast.Constant(value=value.value)
-
-    if isinstance(value, EnumValueNode):
-        return ast.Constant(value=value)
-    if isinstance(value, ListValueNode):
-        return ast.List(elts=[convert_valuenode_to_ast(x) for x in value.values], ctx=ast.Load())
-    if isinstance(value, ObjectValueNode):
-
-        keys = []
-        values = []
-
-        for field in value.fields:
-            keys.append(field.name.value)
-            values.append(convert_valuenode_to_ast(field.value))
-
-        return ast.Dict(
-            keys=keys,
-            values=values,
-        )
-    
-    raise NotImplementedError(f"Unknown default value {repr(value)}")
-
-
-
-
-
-
-
 def default_generate_directives(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -343,27 +305,26 @@ def default_generate_directives(
     tree = []
 
     directives = client_schema.directives
+    hidden = find_hidden_names(client_schema, registry)
 
     generatable_directives = [
         directive
         for directive in directives
-        if directive.name not in plugin_config.builtin_directives
+        if is_generated_directive(directive, plugin_config)
     ]
 
     if not generatable_directives:
         return []
 
-    registry.register_import("strawberry.schema_directive.Location")
-
     for directive in generatable_directives:
-        if plugin_config.skip_underscore and directive.name.startswith("_"):
-            continue
-
-        if plugin_config.skip_double_underscore and directive.name.startswith("__"):
-            continue
+        registry.register_import("strawberry.schema_directive.Location")
 
-        keywords = []
+        classname = escape_global_name(directive.name)
+        keywords = generate_name_keywords(classname, directive.name)
         fields = []
+        argument_names = name_members(
+            directive.args, registry.generate_node_name, hidden
+        )
 
         keywords.append(
             ast.keyword(
@@ -375,7 +336,7 @@ def default_generate_directives(
                             attr=location.name,
                             ctx=ast.Load(),
                         )
-                        for location in directive.locations
+                        for location in find_schema_locations(directive)
                     ],
                     ctx=ast.Load(),
                 ),
@@ -387,10 +348,13 @@ def default_generate_directives(
 
             type = value.type
 
-            if value.default_value is not None:
-                default = convert_default_value_to_ast(value.default_value)
-            else:
-                default = None
+            default = (
+                None
+                if value.default_value is Undefined
+                else convert_default_to_ast(
+                    value.default_value, type, classname, registry
+                )
+            )
 
             needs_factory = False
             if isinstance(default, ast.List):
@@ -399,39 +363,33 @@ def default_generate_directives(
                 needs_factory = True
 
 
-            field_value = None
+            field_keywords = generate_name_keywords(
+                argument_names[value_key], value_key
+            )
 
-            if default:
-                if needs_factory:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default_factory",
-                                value=ast.Lambda(
-                                    args=[], body=default
-                                ),
-                            ),
-                        ],
-                        args=[],
-                    )
-                else:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default",
-                                value=default,
-                            ),
-                        ],
-                        args=[],
+            if default is None and not isinstance(type, GraphQLNonNull):
+                default = generate_unset()
+
+            if default is not None:
+                field_keywords.append(
+                    ast.keyword(
+                        arg="default_factory", value=generate_factory(default)
                     )
+                    if needs_factory
+                    else ast.keyword(arg="default", value=default)
+                )
+
+            field_value = None
 
+            if field_keywords:
+                field_value = ast.Call(
+                    func=ast.Name(id="strawberry.field", ctx=ast.Load()),
+                    keywords=field_keywords,
+                    args=[],
+                )
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    id=registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(id=argument_names[value_key], ctx=ast.Store()),
                 annotation=build_directive_type_annotation(type, registry),
                 value=field_value,
                 simple=1,
@@ -450,7 +408,7 @@ def default_generate_directives(
 
         tree.append(
             ast.ClassDef(
-                name=directive.name,
+                name=classname,
                 bases=[],
                 decorator_list=[decorator],
                 keywords=[],
@@ -479,16 +437,6 @@ def default_generate_enums(
     }
 
     for key, type in enum_types.items():
-        directive_keywords = generate_directive_keywords(type.ast_node, plugin_config)
-        if directive_keywords:
-            decorator = ast.Call(
-                func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
-                keywords=directive_keywords,
-                args=[],
-            )
-        else:
-            decorator = ast.Name(id="strawberry.enum", ctx=ast.Load())
-
         if plugin_config.skip_underscore and key.startswith("_"):
             continue
 
@@ -847,33 +795,47 @@ def recurse_argument_annotation(
 
 
 def generate_directive_keywords(
-    ast_node: ObjectTypeDefinitionNode, plugin_config: StrawberryPluginConfig
+    ast_node: ObjectTypeDefinitionNode,
+    client_schema: GraphQLSchema,
+    plugin_config: StrawberryPluginConfig,
+    registry: ClassRegistry,
+    parent: str,
 ):
-    if not ast_node:
+    if not ast_node or not plugin_config.generate_directives:
         return []
 
-    directives = [
-        directive
-        for directive in ast_node.directives
-        if directive.name.value not in plugin_config.builtin_directives
-    ]
+    hidden = find_hidden_names(client_schema, registry)
+    calls = []
+    for node in ast_node.directives:
+        directive = client_schema.get_directive(node.name.value)
+        if directive is None or not is_generated_directive(directive, plugin_config):
+            continue
 
-    if directives:
-        calls = [
+        argument_names = name_members(
+            directive.args, registry.generate_node_name, hidden
+        )
+        calls.append(
             ast.Call(
-                func=ast.Name(
-                    id=directive.name.value,
-                    ctx=ast.Load(),
-                ),
+                func=ast.Name(id=escape_global_name(directive.name), ctx=ast.Load()),
                 keywords=[
-                    ast.keyword(arg=arg.name.value, value=convert_valuenode_to_ast(arg.value))
-                    for arg in directive.arguments
+                    ast.keyword(
+                        arg=argument_names[arg.name.value],
+                        value=convert_default_to_ast(
+                            value_from_ast(
+                                arg.value, directive.args[arg.name.value].type
+                            ),
+                            directive.args[arg.name.value].type,
+                            parent,
+                            registry,
+                        ),
+                    )
+                    for arg in node.arguments
                 ],
                 args=[],
             )
-            for directive in directives
-        ]
+        )
 
+    if calls:
         return [
             ast.keyword(
                 arg="directives",
@@ -1054,10 +1016,13 @@ def generate_types(
             decorator_name = "strawberry.interface"
             interface_base_map[key] = classname
 
-        if directive_keywords:
+        decorator_keywords = generate_name_keywords(
+            classname, key
+        ) + generate_directive_keywords(object_type.ast_node, client_schema, plugin_config, registry, classname)
+        if decorator_keywords:
             decorator = ast.Call(
                 func=ast.Name(id=decorator_name, ctx=ast.Load()),
-                keywords=directive_keywords,
+                keywords=decorator_keywords,
                 args=[],
             )
         else:
@@ -1151,7 +1116,7 @@ def generate_types(
                 is_optional=True,
             )
 
-            keywords += generate_directive_keywords(value.ast_node, plugin_config)
+            keywords += generate_directive_keywords(value.ast_node, client_schema, plugin_config, registry, classname)
 
             if not additional_args and object_type not in root_types:
                 if not keywords:
@@ -1357,7 +1322,7 @@ class StrawberryPlugin(Plugin):
 
         scalars = (
             generate_scalars(client_schema, config, self.config, registry)
-            if self.config.generate_directives
+            if self.config.generate_scalars
             else []
         )
 
-- 
2.43.0


From 74fe98fffb03b3ef80340480b529713ae07c2cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 74/98] fix: strawberry enum values keep names that python or a
 styler changes

---
 turms/plugins/strawberry.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index b8dd6bc..326ecf4 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -445,6 +445,18 @@ def default_generate_enums(
 
         classname = registry.generate_enum(key)
 
+        decorator_keywords = generate_name_keywords(
+            classname, key
+        ) + generate_directive_keywords(type.ast_node, client_schema, plugin_config, registry, classname)
+        if decorator_keywords:
+            decorator = ast.Call(
+                func=ast.Name(id="strawberry.enum", ctx=ast.Load()),
+                keywords=decorator_keywords,
+                args=[],
+            )
+        else:
+            decorator = ast.Name(id="strawberry.enum", ctx=ast.Load())
+
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
             if type.description
@@ -457,9 +469,20 @@ def default_generate_enums(
             else:
                 servalue = value.value.value
 
+            member_name = registry.generate_enum_member_name(
+                value_key, type.values, classname
+            )
+            member_value = ast.Constant(value=servalue)
+            if member_name != value_key:
+                member_value = ast.Call(
+                    func=ast.Name(id="strawberry.enum_value", ctx=ast.Load()),
+                    args=[member_value],
+                    keywords=generate_name_keywords(member_name, value_key),
+                )
+
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
-                value=ast.Constant(value=servalue),
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
+                value=member_value,
             )
 
             potential_comment = (
-- 
2.43.0


From cb960e1bf9628ad808729598b2ada35af2866c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 75/98] fix: strawberry inputs keep their names, bases,
 defaults and one-of fields

---
 turms/plugins/strawberry.py | 56 +++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 14 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 326ecf4..6e18f65 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -883,11 +883,21 @@ def generate_inputs(
         if isinstance(value, GraphQLInputObjectType)
     }
 
+    hidden = find_hidden_names(client_schema, registry)
+
+    for base in plugin_config.inputtype_bases:
+        registry.register_import(base)
+
     for key, type in inputobjects_type.items():
         if plugin_config.skip_underscore and key.startswith("_"):  # pragma: no cover
             continue
 
-        decorator_keywords = generate_directive_keywords(type.ast_node, plugin_config)
+        additional_bases = get_additional_bases_for_type(type.name, config, registry)
+        name = registry.generate_inputtype(key)
+
+        decorator_keywords = generate_name_keywords(
+            name, key
+        ) + generate_directive_keywords(type.ast_node, client_schema, plugin_config, registry, name)
         if is_oneof_input_type(type):
             decorator_keywords.append(
                 ast.keyword(arg="one_of", value=ast.Constant(value=True))
@@ -901,18 +911,18 @@ def generate_inputs(
         else:
             decorator = ast.Name(id="strawberry.input", ctx=ast.Load())
 
-        additional_bases = get_additional_bases_for_type(type.name, config, registry)
-        name = registry.generate_inputtype(key)
         fields = (
             [ast.Expr(value=ast.Constant(value=type.description))]
             if type.description
             else []
         )
 
+        field_names = name_members(type.fields, registry.generate_node_name, hidden)
+
         for value_key, value in type.fields.items():
-            value: GraphQLField
+            value: GraphQLInputField
 
-            keywords = []
+            keywords = generate_name_keywords(field_names[value_key], value_key)
             if value.description:
                 keywords.append(
                     ast.keyword(
@@ -929,6 +939,24 @@ def generate_inputs(
                     )
                 )
 
+            default = None
+            if value.default_value is not Undefined:
+                default = convert_default_to_ast(
+                    value.default_value, value.type, name, registry
+                )
+            elif is_oneof_input_type(type):
+                # all but one of the fields are left out
+                default = generate_unset()
+
+            if isinstance(default, (ast.List, ast.Dict)):
+                keywords.append(
+                    ast.keyword(
+                        arg="default_factory", value=generate_factory(default)
+                    )
+                )
+            elif default is not None and keywords:
+                keywords.append(ast.keyword(arg="default", value=default))
+
             if keywords:
                 assign_value = ast.Call(
                     func=ast.Name(
@@ -939,12 +967,10 @@ def generate_inputs(
                     args=[],
                 )
             else:
-                assign_value = None
+                assign_value = default
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(field_names[value_key], ctx=ast.Store()),
                 annotation=recurse_argument_annotation(
                     value.type,
                     name,
@@ -962,11 +988,13 @@ def generate_inputs(
         tree.append(
             ast.ClassDef(
                 name,
-                bases=additional_bases
-                + [
-                    ast.Name(id=base.split(".")[-1], ctx=ast.Load())
-                    for base in plugin_config.inputtype_bases
-                ],
+                bases=merge_bases_sequences(
+                    additional_bases,
+                    [
+                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        for base in plugin_config.inputtype_bases
+                    ],
+                ),
                 decorator_list=[decorator],
                 keywords=[],
                 body=fields
-- 
2.43.0


From cee34ee9692b07e5f53e782c37746cc1fc659ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:04 +0000
Subject: [PATCH 76/98] fix: strawberry fields and arguments keep their names,
 nullability and defaults

---
 turms/plugins/strawberry.py | 110 ++++++++++++++++++++++++++----------
 1 file changed, 79 insertions(+), 31 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 6e18f65..38a5ee1 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1037,6 +1037,18 @@ def generate_types(
     }
     registry.register_import("strawberry")
 
+    hidden = find_hidden_names(client_schema, registry)
+    field_names_of: Dict[str, Dict[str, str]] = {}
+
+    for base in plugin_config.types_bases:
+        registry.register_import(base)
+
+    root_types = [
+        client_schema.query_type,
+        client_schema.mutation_type,
+        client_schema.subscription_type,
+    ]
+
     interface_map: Dict[str, List[str]] = (
         {}
     )  # A list of interfaces with the union classes attached
@@ -1055,10 +1067,6 @@ def generate_types(
         if plugin_config.skip_double_underscore and key.startswith("__"):
             continue
 
-        directive_keywords = generate_directive_keywords(
-            object_type.ast_node, plugin_config
-        )
-
         if isinstance(object_type, GraphQLObjectType):
             classname = registry.generate_objecttype(key)
             decorator_name = "strawberry.type"
@@ -1100,10 +1108,22 @@ def generate_types(
             else []
         )
 
+        field_names = name_members(
+            object_type.fields,
+            registry.generate_node_name,
+            hidden,
+            {
+                field: name
+                for interface in object_type.interfaces
+                for field, name in field_names_of.get(interface.name, {}).items()
+            },
+        )
+        field_names_of[key] = field_names
+
         for value_key, value in object_type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            keywords = generate_name_keywords(field_names[value_key], value_key)
 
             if value.description:
                 keywords.append(
@@ -1124,32 +1144,56 @@ def generate_types(
             additional_args = []
             kwdefaults = []
             if value.args:
-                sorted_args = {
-                    key: value
-                    for key, value in sorted(
-                        value.args.items(),
-                        key=lambda item: item[1].default_value == Undefined,
-                        reverse=True,
-                    )
-                }
+                argument_names = name_members(
+                    value.args, registry.generate_parameter_name, RESOLVER_PARAMETERS
+                )
 
-                for argkey, arg in sorted_args.items():
-                    additional_args.append(
-                        ast.arg(
-                            arg=registry.generate_parameter_name(argkey),
-                            annotation=recurse_argument_annotation(
-                                arg.type,
-                                classname,
-                                config,
-                                plugin_config,
-                                registry=registry,
-                                is_optional=arg.default_value == Undefined,
+                # Arguments that can be left out follow those that cannot
+                for argkey, arg in sorted(
+                    value.args.items(), key=lambda item: not is_required_argument(item[1])
+                ):
+                    annotation = recurse_argument_annotation(
+                        arg.type,
+                        classname,
+                        config,
+                        plugin_config,
+                        registry=registry,
+                        is_optional=True,
+                    )
+                    name_keywords = generate_name_keywords(
+                        argument_names[argkey], argkey
+                    )
+                    if name_keywords:
+                        registry.register_import("typing.Annotated")
+                        annotation = ast.Subscript(
+                            value=ast.Name("Annotated", ctx=ast.Load()),
+                            slice=ast.Tuple(
+                                elts=[
+                                    annotation,
+                                    ast.Call(
+                                        func=ast.Name(
+                                            id="strawberry.argument", ctx=ast.Load()
+                                        ),
+                                        args=[],
+                                        keywords=name_keywords,
+                                    ),
+                                ],
+                                ctx=ast.Load(),
                             ),
+                            ctx=ast.Load(),
                         )
+                    additional_args.append(
+                        ast.arg(arg=argument_names[argkey], annotation=annotation)
                     )
 
-                    if arg.default_value != Undefined:
-                        kwdefaults.append(ast.Constant(value=arg.default_value))
+                    if arg.default_value is not Undefined:
+                        kwdefaults.append(
+                            convert_default_to_ast(
+                                arg.default_value, arg.type, classname, registry
+                            )
+                        )
+                    elif not is_required_argument(arg):
+                        kwdefaults.append(generate_unset())
 
             body = []
 
@@ -1184,9 +1228,7 @@ def generate_types(
 
                 # lets create a simple field
                 assign = ast.AnnAssign(
-                    target=ast.Name(
-                        registry.generate_node_name(value_key), ctx=ast.Store()
-                    ),
+                    target=ast.Name(field_names[value_key], ctx=ast.Store()),
                     annotation=returns,
                     value=assign_value,
                     simple=1,
@@ -1222,7 +1264,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.generate_node_name(value_key),
+                    name=field_names[value_key],
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
@@ -1240,7 +1282,13 @@ def generate_types(
         tree.append(
             ast.ClassDef(
                 classname,
-                bases=additional_bases,
+                bases=merge_bases_sequences(
+                    additional_bases,
+                    [
+                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        for base in plugin_config.types_bases
+                    ],
+                ),
                 decorator_list=[decorator],
                 keywords=[],
                 body=fields
-- 
2.43.0


From f6ed28adfcf2fd1c68ccd02d8d0069f75939b4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 77/98] fix: messages of failing projects are shown as text,
 not as markup

---
 turms/cli/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index fc9d924..4fec7db 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -10,6 +10,7 @@ from turms.run import generate, write_code_to_file, write_project, write_schema_
 from rich import get_console
 from rich.panel import Panel
 from rich.live import Live
+from rich.markup import escape
 from rich.tree import Tree
 from rich.console import Group
 import rich_click as click
@@ -222,7 +223,7 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
 
             def log(message: str, level: str = "INFO"):
                 if level == "WARN":
-                    project_tree.add(Tree(message, style="yellow"))
+                    project_tree.add(Tree(escape(message), style="yellow"))
 
             try:
                 generated_code, schema = generate(project, log=log)
@@ -253,7 +254,7 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
             except Exception as e:
                 project_tree.style = "red"
                 project_tree.label = f"{key} 💥"
-                project_tree.add(Tree(str(e), style="red"))
+                project_tree.add(Tree(escape(str(e)), style="red"))
                 if project.extensions.turms.exit_on_error:
                     raised_exceptions.append(e)
                 live.update(panel)
@@ -359,7 +360,7 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
                 live.update(panel)
 
             except Exception as e:
-                tree.renderable = f"[red] {str(e)} [/],"
+                tree.renderable = f"[red] {escape(str(e))} [/],"
                 tree.border_style = "not bold red"
                 tree.style = "not bold red"
                 live.update(panel)
-- 
2.43.0


From dbfe5a620b902155662e5c5f41546c65e3b74cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 78/98] fix: init and download replace their file in one step

---
 turms/cli/main.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 4fec7db..8b4e948 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -15,12 +15,12 @@ from rich.tree import Tree
 from rich.console import Group
 import rich_click as click
 from turms.run import (
+    replace_file,
     scan_folder_for_single_config,
     load_projects_from_configpath,
     build_schema_from_schema_type,
 )
 from .watch import stream_changes
-from graphql import print_schema
 from functools import wraps
 
 click.rich_click.USE_RICH_MARKUP = True
@@ -411,8 +411,9 @@ def init(config, template):
     get_console().print(
         f"Creating {config} in {app_directory} (template: {template})"
     )
-    with open(os.path.join(app_directory, config), "w") as f:
-        f.write(build_default_settings(template))
+    replace_file(
+        os.path.join(app_directory, config), build_default_settings(template)
+    )
 
     get_console().print(TEMPLATES[template]["hint"])
 
@@ -456,10 +457,7 @@ def download(projects, out, dir):
             schema = build_schema_from_schema_type(
                 project.schema_url, allow_introspection=True
             )
-            with open(
-                os.path.join(app_directory, filename), "w", encoding="utf-8"
-            ) as f:
-                f.write(print_schema(schema))
+            write_schema_to_file(schema, app_directory, filename)
     except Exception as e:
         raise click.ClickException(str(e)) from e
 
-- 
2.43.0


From 11680326c3c065d1e623f8069afb6f0cebe67338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 79/98] fix: object interfaces follow the interfaces they
 implement

---
 turms/plugins/objects.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 477418c..7f373fc 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -13,6 +13,7 @@ from pydantic_settings import SettingsConfigDict
 from turms.errors import GenerationError
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+from math import inf
 from typing import Dict, List
 from turms.config import GeneratorConfig
 from graphql.utilities.build_client_schema import GraphQLSchema
@@ -229,8 +230,12 @@ def generate_types(
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            # interfaces come first, after the interfaces they implement themselves
+            key=lambda item: (
+                len(item[1].interfaces)
+                if isinstance(item[1], GraphQLInterfaceType)
+                else inf
+            ),
         )
     }
 
-- 
2.43.0


From b919943bfbb4522ce86350c562a5b82103f9ab14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 80/98] fix: skipped object types are not referred to, and an
 interface is read as one of its object types

---
 turms/plugins/objects.py | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 7f373fc..d0028a8 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -8,6 +8,7 @@ from graphql import (
     GraphQLScalarType,
     GraphQLType,
     GraphQLUnionType,
+    get_named_type,
 )
 from pydantic_settings import SettingsConfigDict
 from turms.errors import GenerationError
@@ -41,6 +42,17 @@ class ObjectsPluginConfig(PluginConfig):
     skip_double_underscore: bool = True
 
 
+def is_skipped(graphql_type: GraphQLType, plugin_config: ObjectsPluginConfig) -> bool:
+    """Whether no class is generated for the type (or for any member of the union)"""
+    if isinstance(graphql_type, GraphQLUnionType):
+        return all(is_skipped(member, plugin_config) for member in graphql_type.types)
+    if not isinstance(graphql_type, (GraphQLObjectType, GraphQLInterfaceType)):
+        return False
+    return (plugin_config.skip_underscore and graphql_type.name.startswith("_")) or (
+        plugin_config.skip_double_underscore and graphql_type.name.startswith("__")
+    )
+
+
 def generate_object_field_annotation(
     graphql_type: GraphQLType,
     parent: str,
@@ -100,6 +112,7 @@ def generate_object_field_annotation(
                                 is_optional=False,
                             )
                             for union_type in graphql_type.types
+                            if not is_skipped(union_type, plugin_config)
                         ],
                         ctx=ast.Load(),
                     ),
@@ -121,6 +134,7 @@ def generate_object_field_annotation(
                         is_optional=False,
                     )
                     for union_type in graphql_type.types
+                    if not is_skipped(union_type, plugin_config)
                 ],
                 ctx=ast.Load(),
             ),
@@ -255,11 +269,14 @@ def generate_types(
             object_type.name, config, registry
         )
 
-        if plugin_config.skip_underscore and key.startswith("_"):
+        if is_skipped(object_type, plugin_config):
             continue
 
-        if plugin_config.skip_double_underscore and key.startswith("__"):
-            continue
+        interfaces = [
+            interface
+            for interface in object_type.interfaces
+            if not is_skipped(interface, plugin_config)
+        ]
 
         if isinstance(object_type, GraphQLObjectType):
             classname = registry.generate_objecttype(key)
@@ -268,11 +285,12 @@ def generate_types(
             interface_base_map[key] = classname
 
         interface_bases: List[ast.Name] = []
-        for interface in object_type.interfaces:
-            # Populate the Union_classed
-            interface_map.setdefault(interface.name, []).append(classname)
+        for interface in interfaces:
+            # Populate the Union_classed (no value is of an interface alone)
+            if isinstance(object_type, GraphQLObjectType):
+                interface_map.setdefault(interface.name, []).append(classname)
 
-            other_interfaces = set(object_type.interfaces) - {interface}
+            other_interfaces = set(interfaces) - {interface}
             if not interface_is_extended_by_other_interfaces(
                 interface, other_interfaces
             ):
@@ -291,6 +309,9 @@ def generate_types(
 
         for value_key, value in object_type.fields.items():
             value: GraphQLField
+            if is_skipped(get_named_type(value.type), plugin_config):
+                continue
+
             field_name = registry.generate_node_name(value_key)
 
             keywords = []
-- 
2.43.0


From 1728024ba0e63178a54f3f441ea93251549e7c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 81/98] fix: classes of schema types never hide builtins, nor
 fields the mro of their class

---
 turms/plugins/strawberry.py | 5 +----
 turms/registry.py           | 8 ++++----
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 38a5ee1..5800a16 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -21,7 +21,6 @@ from pydantic_settings import SettingsConfigDict
 
 from turms.plugins.base import Plugin, PluginConfig
 import ast
-import builtins
 from keyword import iskeyword
 from typing import (
     Callable,
@@ -72,7 +71,7 @@ def find_hidden_names(
     """The names of the generated module, that the fields of a class would hide from
     the annotations and decorators in its body"""
     # (mro is an attribute of every class, which would pass for the default)
-    names = {"strawberry", "mro", *RESERVED_CLASS_NAMES}
+    names = {"mro", *RESERVED_CLASS_NAMES}
     for key, type in client_schema.type_map.items():
         if isinstance(type, GraphQLScalarType):
             names.add(registry.scalar_map.get(key, key).split(".")[-1])
@@ -1405,8 +1404,6 @@ class StrawberryPlugin(Plugin):
         registry: ClassRegistry,
     ) -> List[ast.AST]:
         registry.register_import("strawberry")
-        # Strawberry resolves a forward reference to Warning or print to the builtin
-        registry.reserved_class_names.update(dir(builtins))
 
         # Strawberry resolves the forward references of its classes by itself
         forward_references = set(registry.forward_references)
diff --git a/turms/registry.py b/turms/registry.py
index 00ea938..1d5fc7b 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,4 +1,5 @@
 import ast
+import builtins
 from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Sequence, Set, Tuple, Type
 
@@ -27,13 +28,13 @@ SCALAR_DEFAULTS: Dict[str, str] = {
 # Names that a field of a model cannot have: the discriminator of the model, and
 # its attributes (a field would take them for its default).
 RESERVED_FIELD_NAMES: Set[str] = {
-    "typename",
+    *("typename", "mro"),
     *(name for name in dir(BaseModel) if not name.startswith("_")),
 }
 
 # Classes never hide what the generated modules import or find in the builtins
 RESERVED_CLASS_NAMES: Set[str] = {
-    *("bool", "str", "int", "float", "dict", "list", "tuple", "super"),
+    *dir(builtins),
     *("BaseModel", "ConfigDict", "Field", "WrapSerializer", "Enum", "UNSET"),
     *("UnsetType", "Annotated", "Any", "AsyncGenerator", "AsyncIterator", "Dict"),
     *("Iterable", "Iterator", "List", "Literal", "NewType", "Optional", "Tuple"),
@@ -336,7 +337,6 @@ class ClassRegistry(object):
         self.fragment_document_map: Dict[str, str] = {}
 
         self.class_name_owners: Dict[Tuple[str, str], str] = {}
-        self.reserved_class_names: Set[str] = set(RESERVED_CLASS_NAMES)
         self.func_name_owners: Dict[str, str] = {}
         self.enum_class_map: Dict[str, str] = {}
 
@@ -392,7 +392,7 @@ class ClassRegistry(object):
             )
 
     def _escape_class_name(self, class_name: str) -> str:
-        if iskeyword(class_name) or class_name in self.reserved_class_names:
+        if iskeyword(class_name) or class_name in RESERVED_CLASS_NAMES:
             return class_name + "_"
         return class_name
 
-- 
2.43.0


From 3d614f10757477b44b9d656ed45758ac665c2605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:25 +0000
Subject: [PATCH 82/98] fix: names of introspection types are not mangled in
 class bodies

---
 turms/registry.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/registry.py b/turms/registry.py
index 1d5fc7b..4540ecd 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -533,6 +533,10 @@ class ClassRegistry(object):
                 )
             self.forward_references.add(parent)
             return ast.Constant(value=classname)
+        if classname.startswith("__"):
+            # Python would mangle such a name in the body of a class
+            self.forward_references.add(parent)
+            return ast.Constant(value=classname)
         return ast.Name(id=classname, ctx=ast.Load())
 
     def style_interface_class(self, typename: str):
-- 
2.43.0


From 7702e528febf6e5562a7edb18d6a16f4dce518a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:22 +0000
Subject: [PATCH 83/98] fix: watch the documents wherever the configuration
 says they are

Only .graphql files below the working directory were watched: documents elsewhere, documents with another extension or in a folder that appeared, moved or vanished, and documents configured for turms only were missed.
---
 turms/cli/main.py  |  5 ++--
 turms/cli/watch.py | 66 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 64 insertions(+), 7 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 8b4e948..60e2204 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -332,10 +332,11 @@ def watch_projects(projects, title="Turms"):  # pragma: no cover
     )
 
     with Live(panel, screen=False) as live:
-        tree.renderable = f"Watching {project.documents}..."
+        documents = project.extensions.turms.documents or project.documents
+        tree.renderable = f"Watching {documents}..."
         live.update(panel)
 
-        for event in stream_changes(project.documents):
+        for event in stream_changes(documents):
             live.update(panel)
 
             try:
diff --git a/turms/cli/watch.py b/turms/cli/watch.py
index 6ffd9e4..0b3592e 100644
--- a/turms/cli/watch.py
+++ b/turms/cli/watch.py
@@ -1,20 +1,76 @@
 from watchfiles.filters import BaseFilter
 from watchfiles import Change, watch
+from fnmatch import fnmatch
+from typing import Optional
+import glob
 import os
 
 
 class GraphQLFilter(BaseFilter):  # pragma: no cover
+    """Lets those changes pass that concern documents
+
+    These are changes of graphql files and of files that the documents pattern names, as
+    well as folders that appear or vanish where the pattern looks for documents: of these
+    only the folder is reported, not the documents within.
+    """
+
+    def __init__(self, documents: Optional[str] = None) -> None:
+        super().__init__()
+        self.pattern = (
+            os.path.normpath(os.path.join(glob.escape(os.getcwd()), documents))
+            if documents
+            else None
+        )
+        self.root = find_documents_root(documents) if documents else None
+        self.nested = bool(documents) and glob.has_magic(os.path.dirname(documents))
+
     def __call__(self, change: Change, path: str) -> bool:
         x = super().__call__(change, path)
         if not x:
             return False
 
-        x = os.path.basename(path)
-        fileending = os.path.splitext(x)[1]
+        path = os.path.abspath(path)
+        fileending = os.path.splitext(os.path.basename(path))[1]
+        if fileending == ".graphql":
+            return True
+
+        if self.pattern is None:
+            return False
+
+        if change == Change.deleted and not fileending:
+            is_folder = True  # it is gone, so that is all there is to tell by
+        else:
+            is_folder = change != Change.modified and os.path.isdir(path)
+
+        if is_folder:
+            return is_within(self.root, path) or (
+                self.nested and is_within(path, self.root)
+            )
+
+        return fnmatch(path, self.pattern)
+
+
+def is_within(path: str, folder: str) -> bool:  # pragma: no cover
+    return path == folder or path.startswith(os.path.join(folder, ""))
+
+
+def find_documents_root(documents: str) -> str:  # pragma: no cover
+    """Finds the folder below which all documents are: what precedes the first wildcard"""
+    root = os.path.dirname(documents)
+    while glob.has_magic(root):
+        root = os.path.dirname(root)
+    return os.path.abspath(root)
+
 
-        return fileending == ".graphql"
+def stream_changes(documents: Optional[str]):  # pragma: no cover
+    folders = ["."]
 
+    if documents:
+        root = find_documents_root(documents)
+        if not is_within(root, os.getcwd()) and os.path.isdir(root):
+            folders.append(root)
 
-def stream_changes(folder: str):  # pragma: no cover
-    for changes in watch(".", watch_filter=GraphQLFilter(), debounce=2000, step=500):
+    for changes in watch(
+        *folders, watch_filter=GraphQLFilter(documents), debounce=2000, step=500
+    ):
         yield changes
-- 
2.43.0


From 9078f034ac354aa648fb187376a930d1a4f0478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 84/98] fix: files whose name starts with http are files, also
 when a URL object is given

---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index 9491f25..b3d1c64 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -293,7 +293,7 @@ def instantiate(module_path: str, **kwargs):
 
 
 def is_url(url: str) -> bool:
-    return url.startswith("http") or url.startswith("https")
+    return str(url).lower().startswith(("http://", "https://"))
 
 
 def build_schema_from_schema_type(
-- 
2.43.0


From a82b5837717db4e52ff025232f02123b2913e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 85/98] fix: a schema file whose name contains wildcard
 characters is that file

---
 turms/helpers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 597bc31..4ccc40a 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -1,5 +1,7 @@
 import glob
 import json
+import os
+import re
 from importlib import import_module
 from typing import Any, Dict, List, Optional, Tuple
 
@@ -134,13 +136,20 @@ def join_dsl(dsl_strings: List[DSLString]) -> DSLString:
     return "\n".join(dsl_strings)
 
 
+def find_schema_files(glob_string: str) -> List[str]:
+    """Find the files a path or glob string names"""
+    if os.path.isfile(glob_string):
+        return [glob_string]  # the characters of its name are not wildcards
+
+    return sorted(glob.glob(glob_string, recursive=True))  # in a deterministic order
+
+
 def load_dsl_from_glob(
     glob_string: str,
     allow_introspection: bool = True,
 ) -> DSLString:
     """Build a GraphQL schema from a glob string"""
-    schema_glob = glob.glob(glob_string, recursive=True)
-    schema_glob.sort()  # Ensure deterministic order
+    schema_glob = find_schema_files(glob_string)
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
 
@@ -150,8 +159,7 @@ def load_dsl_from_glob(
 def load_introspection_from_glob(
     glob_string: str,
 ):
-    schema_glob = glob.glob(glob_string, recursive=True)
-    schema_glob.sort()  # Ensure deterministic order
+    schema_glob = find_schema_files(glob_string)
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
 
-- 
2.43.0


From 1fbb08bd38d7a44c6681e89864f1922bf85386bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 86/98] fix: what defines no types is not a schema

---
 turms/helpers.py | 17 +++++++++++++++++
 turms/run.py     | 12 ++++++------
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 4ccc40a..d578a8f 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -6,7 +6,12 @@ from importlib import import_module
 from typing import Any, Dict, List, Optional, Tuple
 
 from graphql import (
+    DocumentNode,
+    GraphQLSchema,
+    Node,
     get_introspection_query,
+    is_type_system_definition_node,
+    is_type_system_extension_node,
     parse,
     strip_ignored_characters,
 )
@@ -108,9 +113,21 @@ def load_dsl_from_url(
         x = req.content.decode()
     except Exception as e:
         raise GenerationError(f"Failed to fetch schema from {url}") from e
+    parse_dsl(x)
     return x
 
 
+def parse_dsl(dsl_string: DSLString) -> DocumentNode:
+    """Parse the dsl, which needs to define something that belongs to a schema"""
+    document = parse(dsl_string)
+    if not any(
+        is_type_system_definition_node(node) or is_type_system_extension_node(node)
+        for node in document.definitions
+    ):
+        raise GenerationError("The schema does not contain any type definitions")
+    return document
+
+
 def load_dsl_from_file(file_path: str) -> DSLString:
     """Load a GraphQL DSL file and return its content as a string"""
     with open(file_path, "rb") as f:
diff --git a/turms/run.py b/turms/run.py
index b3d1c64..133e144 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -6,7 +6,6 @@ from typing import Dict, List, Optional, Callable, Tuple
 import yaml
 from graphql import (
     GraphQLSchema,
-    parse,
     build_ast_schema,
     build_client_schema,
     print_schema,
@@ -26,6 +25,7 @@ from turms.helpers import (
     load_introspection_from_glob,
     load_introspection_from_url,
     join_dsl,
+    parse_dsl,
     load_dsl_from_glob,
     load_dsl_from_url,
     import_string,
@@ -312,7 +312,7 @@ def build_schema_from_schema_type(
             key, value = list(schema.items())[0]
             try:
                 dsl_string = load_dsl_from_url(key, value.headers)
-                return build_ast_schema(parse(dsl_string))
+                return build_ast_schema(parse_dsl(dsl_string))
             except Exception as e:
                 if allow_introspection:
                     intropection = load_introspection_from_url(key, value.headers)
@@ -325,7 +325,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(join_dsl(dsl_subschemas)))
+            return build_ast_schema(parse_dsl(join_dsl(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -346,13 +346,13 @@ def build_schema_from_schema_type(
                 elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(join_dsl(dsl_subschemas)))
+            return build_ast_schema(parse_dsl(join_dsl(dsl_subschemas)))
 
     if is_url(schema):
         try:
             dsl_string = load_dsl_from_url(schema)
             return build_ast_schema(
-                parse(dsl_string), assume_valid_sdl=True, assume_valid=True
+                parse_dsl(dsl_string), assume_valid_sdl=True, assume_valid=True
             )
         except Exception as e:
             if allow_introspection:
@@ -364,7 +364,7 @@ def build_schema_from_schema_type(
         try:
             dsl_string = load_dsl_from_glob(schema)
             return build_ast_schema(
-                parse(dsl_string), assume_valid_sdl=True, assume_valid=True
+                parse_dsl(dsl_string), assume_valid_sdl=True, assume_valid=True
             )
         except Exception as e:
             if allow_introspection:
-- 
2.43.0


From 21f78e6c6e676b5a7e6d575d65657d13354bc739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 87/98] fix: a downloaded or dumped schema keeps the directives
 applied in its source

---
 turms/helpers.py | 45 +++++++++++++++++++++++++++++++++++++++++++++
 turms/run.py     |  4 ++--
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index d578a8f..b085f44 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -13,6 +13,8 @@ from graphql import (
     is_type_system_definition_node,
     is_type_system_extension_node,
     parse,
+    print_ast,
+    print_schema,
     strip_ignored_characters,
 )
 from pydantic import AnyHttpUrl
@@ -140,6 +142,49 @@ def load_introspection_from_file(file_path: str) -> IntrospectionResult:
         return json.loads(f.read().decode("utf-8-sig"))
 
 
+def print_dsl(schema: GraphQLSchema) -> DSLString:
+    """Print the schema together with the directives that are applied in the dsl it was
+    built from, as these also decide on the generated code"""
+    dsl_string = print_schema(schema)
+    document = parse(dsl_string)
+
+    restored = False
+    for node in document.definitions:
+        graphql_type = schema.get_type(node.name.value) if hasattr(node, "name") else None
+        if graphql_type is None:
+            continue
+        sources = [graphql_type.ast_node, *graphql_type.extension_ast_nodes]
+        restored |= restore_directives(node, [x for x in sources if x])
+
+    return print_ast(document) + "\n" if restored else dsl_string
+
+
+def restore_directives(node: Node, sources: List[Node]) -> bool:
+    """Add the directives of the sources to the printed node and what it consists of"""
+    printed = {directive.name.value for directive in node.directives}
+    missing = [
+        directive
+        for source in sources
+        for directive in source.directives
+        if directive.name.value not in printed
+    ]
+    node.directives = (*node.directives, *missing)
+
+    restored = bool(missing)
+    for part in ("fields", "arguments", "values"):
+        for child in getattr(node, part, ()):
+            restored |= restore_directives(
+                child,
+                [
+                    other
+                    for source in sources
+                    for other in getattr(source, part, ())
+                    if other.name.value == child.name.value
+                ],
+            )
+    return restored
+
+
 ParseResult = Tuple[Optional[DSLString], Optional[IntrospectionResult]]
 
 
diff --git a/turms/run.py b/turms/run.py
index 133e144..c04b86d 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -8,7 +8,6 @@ from graphql import (
     GraphQLSchema,
     build_ast_schema,
     build_client_schema,
-    print_schema,
 )
 from pydantic import ValidationError
 from rich import get_console
@@ -28,6 +27,7 @@ from turms.helpers import (
     parse_dsl,
     load_dsl_from_glob,
     load_dsl_from_url,
+    print_dsl,
     import_string,
 )
 from turms.plugins.base import Plugin
@@ -203,7 +203,7 @@ def write_schema_to_file(schema: GraphQLSchema, outdir: str, filepath: str):
         filepath,
     )
 
-    replace_file(generated_file, print_schema(schema))
+    replace_file(generated_file, print_dsl(schema))
 
     return generated_file
 
-- 
2.43.0


From 4544188b4dcb09adda54862b228e4fb9276e15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:18 +0000
Subject: [PATCH 88/98] fix: headers may refer to environment variables, as
 documented

---
 turms/helpers.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index b085f44..d45b34c 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -51,6 +51,21 @@ def import_string(dotted_path: str) -> Any:
         ) from err
 
 
+def expand_headers(headers: Dict[str, str]) -> Dict[str, str]:
+    """Fill in the environment variables that headers refer to as ``${NAME}``"""
+
+    def value_of(match: "re.Match[str]") -> str:
+        if match.group(1) not in os.environ:
+            raise GenerationError(
+                f"The headers refer to {match.group(0)}, which is not set in the environment"
+            )
+        return os.environ[match.group(1)]
+
+    return {
+        key: re.sub(r"\$\{(\w+)\}", value_of, value) for key, value in headers.items()
+    }
+
+
 def load_introspection_from_url(
     url: AnyHttpUrl, headers: Optional[Dict[str, str]] = None
 ) -> IntrospectionResult:
@@ -107,7 +122,7 @@ def load_dsl_from_url(
 
     default_headers: Dict[str, str] = {}
     if headers:
-        default_headers.update(headers)
+        default_headers.update(expand_headers(headers))
     try:
         req = requests.get(url, headers=default_headers)  # type: ignore
         assert req.status_code == 200, "Incorrect status code"
-- 
2.43.0


From f14a0b9794495ef8ed671b9812f0a6613606b5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:19 +0000
Subject: [PATCH 89/98] fix: introspection misses deprecated input values and
 the url of scalars

---
 turms/helpers.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index d45b34c..7ab30bb 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -88,15 +88,23 @@ def load_introspection_from_url(
             "The requests library is required to introspect a schema from a url"
         )  # pragma: no cover
 
-    jdata = json.dumps({"query": get_introspection_query()}).encode("utf-8")
+    # Not every server knows the arguments that also reveal deprecated input values
+    queries = [
+        get_introspection_query(specified_by_url=True, input_value_deprecation=True),
+        get_introspection_query(),
+    ]
     default_headers = {"Content-Type": "application/json", "Accept": "application/json"}
     if headers:
-        default_headers.update(headers)
-    try:
-        req = requests.post(url, data=jdata, headers=default_headers)  # type: ignore
-        x = req.json()
-    except Exception as e:
-        raise GenerationError(f"Failed to fetch schema from {url}") from e
+        default_headers.update(expand_headers(headers))
+    for query in queries:
+        jdata = json.dumps({"query": query}).encode("utf-8")
+        try:
+            req = requests.post(url, data=jdata, headers=default_headers)  # type: ignore
+            x = req.json()
+        except Exception as e:
+            raise GenerationError(f"Failed to fetch schema from {url}") from e
+        if "errors" not in x:
+            break
     if "errors" in x:  # pragma: no cover
         raise GenerationError(
             f"Failed to fetch schema from {url} Graphql error: {x['errors']}"
-- 
2.43.0


From 95078304620e51cfac55fcffad6cf6da073f2011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:23 +0000
Subject: [PATCH 90/98] fix: unknown keys of function definitions, their
 arguments and the capitalizer are refused

---
 turms/plugins/funcs.py      | 5 ++++-
 turms/stylers/capitalize.py | 6 +++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 933730a..9bae9b2 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -32,7 +32,7 @@ from graphql.language.ast import (
 from graphql import GraphQLSchema
 from graphql.utilities.get_operation_root_type import get_operation_root_type
 from graphql.utilities.type_info import get_field_def
-from pydantic import BaseModel, Field
+from pydantic import BaseModel, ConfigDict, Field
 from pydantic_settings import SettingsConfigDict
 from turms.config import GeneratorConfig, PythonType
 from turms.plugins.base import Plugin, PluginConfig
@@ -59,6 +59,7 @@ logger = logging.getLogger(__name__)
 
 
 class Kwarg(BaseModel):
+    model_config = ConfigDict(extra="forbid")
     key: str
     type: str
     description: str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
@@ -66,6 +67,7 @@ class Kwarg(BaseModel):
 
 
 class Arg(BaseModel):
+    model_config = ConfigDict(extra="forbid")
     key: str
     type: str
     description: str = "Specify that in turms.plugin.funcs.OperationsFuncPlugin"
@@ -75,6 +77,7 @@ T = TypeVar("T")
 
 
 class FunctionDefinition(BaseModel):
+    model_config = ConfigDict(extra="forbid")
     type: OperationType
     is_async: bool = False
     extra_args: List[Arg] = []
diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 85a0c3d..5d8c2b0 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -1,8 +1,8 @@
-from pydantic import BaseModel, Field
-from turms.stylers.base import BaseStyler
+from pydantic import Field
+from turms.stylers.base import BaseStyler, StylerConfig
 
 
-class CapitalizeSylerConfig(BaseModel):
+class CapitalizeSylerConfig(StylerConfig):
     type: str = "turms.stylers.capitalize.CapitalizerSyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
-- 
2.43.0


From 0a6d26b8bd26293e3f683ff48f50e03eba0cb415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:32 +0000
Subject: [PATCH 91/98] fix: the options of the capitalizer have no effect

---
 turms/stylers/capitalize.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 5d8c2b0..271a9b3 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -18,19 +18,31 @@ class CapitalizeStyler(BaseStyler):
     config: CapitalizeSylerConfig = Field(default_factory=CapitalizeSylerConfig)
 
     def style_fragment_name(self, typename):
+        if not self.config.capitalize_fragment:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_query_name(self, typename):
+        if not self.config.capitalize_query:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_subscription_name(self, typename):
+        if not self.config.capitalize_subscription:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_mutation_name(self, typename):
+        if not self.config.capitalize_mutation:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_input_name(self, typename):
+        if not self.config.capitalize_input:
+            return typename
         return typename[0].upper() + typename[1:]
 
     def style_enum_name(self, typename):
+        if not self.config.capitalize_enum:
+            return typename
         return typename[0].upper() + typename[1:]
-- 
2.43.0


From 6a9c9c19e488b71f31650d0709ec9a78fd16edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:50 +0000
Subject: [PATCH 92/98] fix: tell the imported types of a configuration apart
 from one another and from the generated classes

---
 turms/plugins/fragments.py  |  4 +-
 turms/plugins/funcs.py      | 29 +++++++-------
 turms/plugins/inputs.py     |  6 +--
 turms/plugins/objects.py    |  2 +-
 turms/plugins/operations.py | 16 ++++----
 turms/plugins/strawberry.py |  4 +-
 turms/registry.py           | 80 +++++++++++++++++++++++++++++++------
 turms/utils.py              |  6 +--
 8 files changed, 102 insertions(+), 45 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 9c45cfb..3b3d70b 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -154,7 +154,7 @@ def get_fragment_bases(
             registry.register_import(base)
 
         bases += [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in pluginConfig.fragment_bases
         ]
 
@@ -164,7 +164,7 @@ def get_fragment_bases(
                 registry.register_import(base)
 
             bases += [
-                ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                 for base in pluginConfig.object_bases
             ]
 
diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 9bae9b2..2409aaa 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -119,6 +119,7 @@ def separate_func_name(
     what the functions refer to or the function of another operation or input type."""
     used_names = {
         *used_names,
+        *registry.import_names.values(),
         *registry.enum_class_map.values(),
         *registry.inputtype_class_map.values(),
         *registry.fragment_class_map.values(),
@@ -250,7 +251,7 @@ def generate_input_annotation(
         if type.name in plugin_config.coercible_scalars:
             registry.register_import(plugin_config.coercible_scalars[type.name])
             slice = ast.Name(
-                id=plugin_config.coercible_scalars[type.name].split(".")[-1],
+                id=registry.get_import_name(plugin_config.coercible_scalars[type.name]),
                 ctx=ast.Load(),
             )
         else:
@@ -379,7 +380,7 @@ def get_used_names(
 ) -> Set[str]:
     """What the body of an operation's function refers to."""
     return {
-        definition.use.split(".")[-1],
+        registry.get_import_name(definition.use),
         get_operation_class_name(o, registry),
         "UNSET",
     }
@@ -469,7 +470,7 @@ def coercible_input_union(
         slice=ast.Tuple(
             elts=[
                 inputtype_reference,
-                ast.Name(id=coercible.split(".")[-1], ctx=ast.Load()),
+                ast.Name(id=registry.get_import_name(coercible), ctx=ast.Load()),
             ],
             ctx=ast.Load(),
         ),
@@ -494,7 +495,7 @@ def generate_variable_annotation(
     if scalar_coercible:
         registry.register_import(scalar_coercible)
         return recurse_type_annotation(
-            type_node, registry, overwrite_final=scalar_coercible.split(".")[-1]
+            type_node, registry, overwrite_final=registry.get_import_name(scalar_coercible)
         )
 
     input_coercible = plugin_config.coercible_inputs.get(name)
@@ -625,7 +626,7 @@ def generate_parameters(
             ast.arg(
                 arg=arg.key,
                 annotation=ast.Name(
-                    id=arg.type.split(".")[-1],
+                    id=registry.get_import_name(arg.type),
                     ctx=ast.Load(),
                 ),
             )
@@ -697,7 +698,7 @@ def generate_parameters(
         registry.register_import(kwarg.type)
 
         annotation = ast.Name(
-            id=kwarg.type.split(".")[-1],
+            id=registry.get_import_name(kwarg.type),
             ctx=ast.Load(),
         )
 
@@ -1176,7 +1177,7 @@ def genereate_async_call(
             value=ast.Await(
                 value=ast.Call(
                     func=ast.Name(
-                        id=definition.use.split(".")[-1],
+                        id=registry.get_import_name(definition.use),
                         ctx=ast.Load(),
                     ),
                     keywords=generate_passing_extra_kwargs_for_onode(
@@ -1209,7 +1210,7 @@ def genereate_async_call(
                 value=ast.Await(
                     value=ast.Call(
                         func=ast.Name(
-                            id=definition.use.split(".")[-1],
+                            id=registry.get_import_name(definition.use),
                             ctx=ast.Load(),
                         ),
                         keywords=generate_passing_extra_kwargs_for_onode(
@@ -1255,7 +1256,7 @@ def genereate_sync_call(
         return ast.Return(
             value=ast.Call(
                 func=ast.Name(
-                    id=definition.use.split(".")[-1],
+                    id=registry.get_import_name(definition.use),
                     ctx=ast.Load(),
                 ),
                 keywords=generate_passing_extra_kwargs_for_onode(
@@ -1284,7 +1285,7 @@ def genereate_sync_call(
             value=ast.Attribute(
                 value=ast.Call(
                     func=ast.Name(
-                        id=definition.use.split(".")[-1],
+                        id=registry.get_import_name(definition.use),
                         ctx=ast.Load(),
                     ),
                     keywords=generate_passing_extra_kwargs_for_onode(
@@ -1326,7 +1327,7 @@ def genereate_async_iterator(
             target=ast.Name(id="event", ctx=ast.Store()),
             iter=ast.Call(
                 func=ast.Name(
-                    id=definition.use.split(".")[-1],
+                    id=registry.get_import_name(definition.use),
                     ctx=ast.Load(),
                 ),
                 keywords=generate_passing_extra_kwargs_for_onode(
@@ -1359,7 +1360,7 @@ def genereate_async_iterator(
             target=ast.Name(id="event", ctx=ast.Store()),
             iter=ast.Call(
                 func=ast.Name(
-                    id=definition.use.split(".")[-1],
+                    id=registry.get_import_name(definition.use),
                     ctx=ast.Load(),
                 ),
                 keywords=generate_passing_extra_kwargs_for_onode(
@@ -1408,7 +1409,7 @@ def genereate_sync_iterator(
             target=ast.Name(id="event", ctx=ast.Store()),
             iter=ast.Call(
                 func=ast.Name(
-                    id=definition.use.split(".")[-1],
+                    id=registry.get_import_name(definition.use),
                     ctx=ast.Load(),
                 ),
                 keywords=generate_passing_extra_kwargs_for_onode(
@@ -1441,7 +1442,7 @@ def genereate_sync_iterator(
             target=ast.Name(id="event", ctx=ast.Store()),
             iter=ast.Call(
                 func=ast.Name(
-                    id=definition.use.split(".")[-1],
+                    id=registry.get_import_name(definition.use),
                     ctx=ast.Load(),
                 ),
                 keywords=generate_passing_extra_kwargs_for_onode(
diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 3625048..e87f58a 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -339,7 +339,7 @@ def generate_input_type(
         bases=merge_bases_sequences(
             additional_bases,
             [
-                ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                 for base in plugin_config.inputtype_bases
             ],
         ),
@@ -461,7 +461,7 @@ def generate_oneof_wrapper_input(
                 bases=merge_bases_sequences(
                     additional_bases,
                     [
-                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                         for base in plugin_config.inputtype_bases
                     ],
                 ),
@@ -808,7 +808,7 @@ def generate_inputs(
                 bases=merge_bases_sequences(
                     additional_bases,
                     [
-                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                         for base in plugin_config.inputtype_bases
                     ],
                 ),
diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index d0028a8..6a7de1a 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -394,7 +394,7 @@ def generate_types(
                     interface_bases,
                     additional_bases,
                     [
-                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                         for base in plugin_config.types_bases
                     ],
                 ),
diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index aced532..7fde765 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -60,7 +60,7 @@ def get_query_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in plugin_config.query_bases
         ]
     else:
@@ -68,7 +68,7 @@ def get_query_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in config.object_bases
         ]
 
@@ -83,7 +83,7 @@ def get_mutation_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in plugin_config.mutation_bases
         ]
     else:
@@ -91,7 +91,7 @@ def get_mutation_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in config.object_bases
         ]
 
@@ -175,7 +175,7 @@ def get_arguments_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in plugin_config.arguments_bases
         ]
     else:
@@ -183,7 +183,7 @@ def get_arguments_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in config.object_bases
         ]
 
@@ -198,7 +198,7 @@ def get_subscription_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in plugin_config.subscription_bases
         ]
     else:
@@ -206,7 +206,7 @@ def get_subscription_bases(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in config.object_bases
         ]
 
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 5800a16..87fd1f5 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -990,7 +990,7 @@ def generate_inputs(
                 bases=merge_bases_sequences(
                     additional_bases,
                     [
-                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                         for base in plugin_config.inputtype_bases
                     ],
                 ),
@@ -1284,7 +1284,7 @@ def generate_types(
                 bases=merge_bases_sequences(
                     additional_bases,
                     [
-                        ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+                        ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
                         for base in plugin_config.types_bases
                     ],
                 ),
diff --git a/turms/registry.py b/turms/registry.py
index 4540ecd..cfdc46c 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,5 +1,6 @@
 import ast
 import builtins
+from itertools import chain
 from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Sequence, Set, Tuple, Type
 
@@ -41,6 +42,11 @@ RESERVED_CLASS_NAMES: Set[str] = {
     *("Union", "strawberry"),
 }
 
+# The modules that the generated ones import from by themselves
+GENERATED_IMPORTS: Set[str] = {
+    *("builtins", "enum", "pydantic", "strawberry.schema_directive", "typing"),
+}
+
 # Annotated metadata markers generated into the output module (unless the user
 # overrides them via config). Authored as source and parsed to AST for clarity.
 _GRAPHQL_DEFAULT_SRC = """
@@ -327,16 +333,41 @@ class ClassRegistry(object):
         self.stylers: List[Styler] = stylers
         self._imports: Set[str] = set()
         self._builtins: Set[str] = set()
+        self.class_name_owners: Dict[Tuple[str, str], str] = {}
         self.config: GeneratorConfig = config
 
         self.scalar_map: Dict[str, str] = {
             **SCALAR_DEFAULTS,
             **config.scalar_definitions,
         }
+        # the names under which the generated module knows what it imports
+        self.import_names: Dict[str, str] = {
+            override: override.split(".")[-1]
+            for override in (
+                config.unset_instance,
+                config.unset_type_class,
+                config.graphql_default_class,
+                config.deprecated_class,
+            )
+            if override
+        }
+        for path in (
+            *config.object_bases,
+            *(config.interface_bases or []),
+            *chain.from_iterable(config.additional_bases.values()),
+            *self.scalar_map.values(),
+            *config.coercible_scalars.values(),
+            *config.coercible_inputs.values(),
+        ):
+            self.get_import_name(path)
+        self.reserved_class_names = {
+            *RESERVED_CLASS_NAMES,
+            *self.import_names.values(),
+        }
+
         # map of fragment typename to the strinigify graphql document
         self.fragment_document_map: Dict[str, str] = {}
 
-        self.class_name_owners: Dict[Tuple[str, str], str] = {}
         self.func_name_owners: Dict[str, str] = {}
         self.enum_class_map: Dict[str, str] = {}
 
@@ -392,8 +423,8 @@ class ClassRegistry(object):
             )
 
     def _escape_class_name(self, class_name: str) -> str:
-        if iskeyword(class_name) or class_name in RESERVED_CLASS_NAMES:
-            return class_name + "_"
+        while iskeyword(class_name) or class_name in self.reserved_class_names:
+            class_name += "_"
         return class_name
 
     def style_inputtype_class(self, typename: str):
@@ -942,18 +973,38 @@ class ClassRegistry(object):
 
         self._imports.add(name)
 
+    def get_import_name(self, path: str) -> str:
+        """The name under which the generated module knows what it imports from this
+        dotted path: its last part, unless that already means something else there."""
+        module, _, name = path.rpartition(".")
+        if not module:
+            return name
+        if path not in self.import_names:
+            taken = {
+                *self.import_names.values(),
+                *(class_name for _, class_name in self.class_name_owners),
+            }
+            if module not in GENERATED_IMPORTS:
+                taken |= RESERVED_CLASS_NAMES - {"BaseModel"}
+            while name in taken:
+                name += "_"
+            self.import_names[path] = name
+        return self.import_names[path]
+
     def generate_imports(self) -> List[ast.AST]:
         """Generate the imports for the generated code. This is used to generate the"""
         imports: List[ast.AST] = []
 
         lone_top_imports: Set[str] = set()
-        top_level: Dict[str, Set[str]] = {}
+        top_level: Dict[str, Set[Tuple[str, Optional[str]]]] = {}
         for name in self._imports:
             if "." not in name:
                 lone_top_imports.add(name)
             else:
-                top_level.setdefault(".".join(name.split(".")[:-1]), set()).add(
-                    name.split(".")[-1]
+                module, _, imported = name.rpartition(".")
+                local = self.get_import_name(name)
+                top_level.setdefault(module, set()).add(
+                    (imported, local if local != imported else None)
                 )
 
         for lone_top_import in sorted(lone_top_imports):
@@ -963,7 +1014,12 @@ class ClassRegistry(object):
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
+                    names=[
+                        ast.alias(name=name, asname=asname)
+                        for name, asname in sorted(
+                            sub_level_names, key=lambda names: (names[0], names[1] or "")
+                        )
+                    ],
                     level=0,
                 )
             )
@@ -1025,7 +1081,7 @@ class ClassRegistry(object):
         override = self.config.unset_instance
         if override:
             self.register_import(override)
-            return ast.Name(id=override.split(".")[-1], ctx=ast.Load())
+            return ast.Name(id=self.get_import_name(override), ctx=ast.Load())
         self.register_builtin("UNSET")
         return ast.Name(id="UNSET", ctx=ast.Load())
 
@@ -1035,7 +1091,7 @@ class ClassRegistry(object):
         override = self.config.unset_type_class
         if override:
             self.register_import(override)
-            return ast.Name(id=override.split(".")[-1], ctx=ast.Load())
+            return ast.Name(id=self.get_import_name(override), ctx=ast.Load())
         self.register_builtin("UNSET")
         return ast.Name(id="UnsetType", ctx=ast.Load())
 
@@ -1045,7 +1101,7 @@ class ClassRegistry(object):
         override = self.config.graphql_default_class
         if override:
             self.register_import(override)
-            return ast.Name(id=override.split(".")[-1], ctx=ast.Load())
+            return ast.Name(id=self.get_import_name(override), ctx=ast.Load())
         self.register_builtin("GraphQLDefault")
         return ast.Name(id="GraphQLDefault", ctx=ast.Load())
 
@@ -1055,7 +1111,7 @@ class ClassRegistry(object):
         override = self.config.deprecated_class
         if override:
             self.register_import(override)
-            return ast.Name(id=override.split(".")[-1], ctx=ast.Load())
+            return ast.Name(id=self.get_import_name(override), ctx=ast.Load())
         self.register_builtin("Deprecated")
         return ast.Name(id="Deprecated", ctx=ast.Load())
 
@@ -1070,7 +1126,7 @@ class ClassRegistry(object):
                 self.register_import(python_type)
 
             return ast.Name(
-                id=python_type.split(".")[-1], ctx=ast.Load()
+                id=self.get_import_name(python_type), ctx=ast.Load()
             )  # That results only in the class name (also in the case of a builtin)
 
         raise NoScalarFound(
diff --git a/turms/utils.py b/turms/utils.py
index ef5e6d6..fb85343 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -623,7 +623,7 @@ def get_additional_bases_for_type(
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in config.additional_bases[typename]
         ]
     return []
@@ -668,7 +668,7 @@ def get_object_bases(
         registry.register_import(base)
 
     return [
-        ast.Name(id=base.split(".")[-1], ctx=ast.Load()) for base in config.object_bases
+        ast.Name(id=registry.get_import_name(base), ctx=ast.Load()) for base in config.object_bases
     ]
 
 
@@ -678,7 +678,7 @@ def get_interface_bases(config: GeneratorConfig, registry: ClassRegistry):
             registry.register_import(base)
 
         return [
-            ast.Name(id=base.split(".")[-1], ctx=ast.Load())
+            ast.Name(id=registry.get_import_name(base), ctx=ast.Load())
             for base in config.interface_bases
         ]
     else:
-- 
2.43.0


From a462b10e1d92e4cbe3f9c811393073fbee5822ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 93/98] fix: find the types used inside inline fragments of
 inline fragments

---
 turms/referencer.py | 54 ++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 40 deletions(-)

diff --git a/turms/referencer.py b/turms/referencer.py
index 162d5bb..62c0e6c 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Set
+from typing import Dict, List, Set, Union
 from graphql import (
     FragmentDefinitionNode,
     GraphQLEnumType,
@@ -57,7 +57,7 @@ class ReferenceRegistry:
 
 
 def recurse_find_references(
-    node: FieldNode,
+    node: Union[FieldNode, InlineFragmentNode],
     graphql_type: GraphQLType,
     client_schema: GraphQLSchema,
     registry: ReferenceRegistry,
@@ -76,32 +76,12 @@ def recurse_find_references(
                 registry.register_fragment(sub_node.name.value)
 
             elif isinstance(sub_node, InlineFragmentNode):
-                for sub_sub_node in sub_node.selection_set.selections:
-                    if isinstance(sub_sub_node, FieldNode):
-                        sub_sub_node_type = client_schema.get_type(
-                            sub_node.type_condition.name.value
-                        )
-
-                        if sub_sub_node.name.value == "__typename":
-                            continue
-
-                        if not isinstance(
-                            sub_sub_node_type,
-                            (GraphQLObjectType, GraphQLInterfaceType),
-                        ):
-                            raise Exception(
-                                "Expected GraphQLObjectType",
-                                sub_sub_node_type,
-                                sub_node.type_condition.name.value,
-                            )
-
-                        field_type = sub_sub_node_type.fields[sub_sub_node.name.value]
-                        recurse_find_references(
-                            sub_sub_node,
-                            field_type.type,
-                            client_schema,
-                            registry,
-                        )
+                recurse_find_references(
+                    sub_node,
+                    client_schema.get_type(sub_node.type_condition.name.value),
+                    client_schema,
+                    registry,
+                )
             elif isinstance(sub_node, FieldNode):
                 if sub_node.name.value == "__typename":
                     continue
@@ -259,18 +239,12 @@ def create_reference_registry_from_documents(
                     registry,
                 )
             elif isinstance(selection, InlineFragmentNode):
-                sub_type = schema.get_type(selection.type_condition.name.value)
-                for sub_selection in selection.selection_set.selections:
-                    if isinstance(sub_selection, FieldNode):
-                        if sub_selection.name.value == "__typename":
-                            continue
-                        sub_this_type = sub_type.fields[sub_selection.name.value]
-                        recurse_find_references(
-                            sub_selection,
-                            sub_this_type.type,
-                            schema,
-                            registry,
-                        )
+                recurse_find_references(
+                    selection,
+                    schema.get_type(selection.type_condition.name.value),
+                    schema,
+                    registry,
+                )
 
     for operation in operations.values():
         type = schema.get_root_type(operation.operation)
-- 
2.43.0


From 9ffa91c93b8cf5cae21f61e627210d4a9f5e1a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:34 +0000
Subject: [PATCH 94/98] fix: keep the enums that inputs and objects refer to
 when documents do not use them

---
 turms/plugins/base.py    |  8 +++++++-
 turms/plugins/enums.py   |  6 +++++-
 turms/plugins/inputs.py  | 17 ++++++++++++++++-
 turms/plugins/objects.py | 14 +++++++++++++-
 turms/registry.py        |  2 ++
 turms/run.py             |  2 ++
 6 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/base.py b/turms/plugins/base.py
index fedfd90..de8199e 100644
--- a/turms/plugins/base.py
+++ b/turms/plugins/base.py
@@ -1,6 +1,6 @@
 from abc import abstractmethod
 import ast
-from typing import List, TYPE_CHECKING, Literal, Sequence
+from typing import List, TYPE_CHECKING, Literal, Sequence, Set
 
 from pydantic import BaseModel, ConfigDict, Field
 from pydantic_settings import BaseSettings, SettingsConfigDict
@@ -34,6 +34,12 @@ class Plugin(BaseModel):
     model_config = ConfigDict(extra="forbid", arbitrary_types_allowed=True)
     log: LogFunction = Field(default=print_logger)
 
+    def get_referenced_enums(
+        self, client_schema: GraphQLSchema, config: GeneratorConfig
+    ) -> Set[str]:
+        """The enums that the generated code refers to, even if no document does"""
+        return set()
+
     @abstractmethod
     def generate_ast(
         self,
diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index dee5d05..827bc8b 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -49,7 +49,11 @@ def generate_enums(
         ref_registry = None
 
     for key, type in enum_types.items():
-        if ref_registry and key not in ref_registry.enums:
+        if (
+            ref_registry
+            and key not in ref_registry.enums
+            and key not in registry.referenced_enums
+        ):
             continue
 
         if plugin_config.skip_underscore and key.startswith("_"):
diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index e87f58a..8babfd6 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -8,12 +8,13 @@ from graphql import (
     GraphQLNonNull,
     GraphQLScalarType,
     Undefined,
+    get_named_type,
 )
 from turms.errors import GenerationError
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
-from typing import Dict, List, Optional, Tuple
+from typing import Dict, List, Optional, Set, Tuple
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
 from turms.plugins.base import Plugin
@@ -837,6 +838,20 @@ class InputsPlugin(Plugin):
 
     config: InputsPluginConfig = Field(default_factory=InputsPluginConfig)
 
+    def get_referenced_enums(
+        self, client_schema: GraphQLSchema, config: GeneratorConfig
+    ) -> Set[str]:
+        if self.config.skip_unreferenced and config.documents:
+            return set()
+        return {
+            get_named_type(field.type).name
+            for key, type in client_schema.type_map.items()
+            if isinstance(type, GraphQLInputObjectType)
+            and not (self.config.skip_underscore and key.startswith("_"))
+            for field in type.fields.values()
+            if isinstance(get_named_type(field.type), GraphQLEnumType)
+        }
+
     def generate_ast(
         self,
         client_schema: GraphQLSchema,
diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 6a7de1a..7940620 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -15,7 +15,7 @@ from turms.errors import GenerationError
 from turms.plugins.base import Plugin, PluginConfig
 import ast
 from math import inf
-from typing import Dict, List
+from typing import Dict, List, Set
 from turms.config import GeneratorConfig
 from graphql.utilities.build_client_schema import GraphQLSchema
 from pydantic import Field
@@ -470,6 +470,18 @@ class ObjectsPlugin(Plugin):
 
     config: ObjectsPluginConfig = Field(default_factory=ObjectsPluginConfig)
 
+    def get_referenced_enums(
+        self, client_schema: GraphQLSchema, config: GeneratorConfig
+    ) -> Set[str]:
+        return {
+            get_named_type(field.type).name
+            for type in client_schema.type_map.values()
+            if isinstance(type, (GraphQLObjectType, GraphQLInterfaceType))
+            and not is_skipped(type, self.config)
+            for field in type.fields.values()
+            if isinstance(get_named_type(field.type), GraphQLEnumType)
+        }
+
     def generate_ast(
         self,
         client_schema: GraphQLSchema,
diff --git a/turms/registry.py b/turms/registry.py
index cfdc46c..4d202a8 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -333,6 +333,8 @@ class ClassRegistry(object):
         self.stylers: List[Styler] = stylers
         self._imports: Set[str] = set()
         self._builtins: Set[str] = set()
+        # what the plugins refer to besides the types that the documents use
+        self.referenced_enums: Set[str] = set()
         self.class_name_owners: Dict[Tuple[str, str], str] = {}
         self.config: GeneratorConfig = config
 
diff --git a/turms/run.py b/turms/run.py
index c04b86d..834c098 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -491,6 +491,8 @@ def generate_ast(
 
     global_tree = []
     registry = ClassRegistry(config, stylers, log)
+    for plugin in plugins:
+        registry.referenced_enums |= plugin.get_referenced_enums(schema, config)
 
     for plugin in plugins:
         try:
-- 
2.43.0


From f84b6db8568acfe1e944687cc1805271806f44fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:11 +0000
Subject: [PATCH 95/98] fix: polyfill every name of typing that the target
 version lacks

---
 turms/parsers/polyfill.py | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 2aa47b4..b4e578e 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -1,5 +1,5 @@
 from turms.parsers.base import Parser, ParserConfig
-from typing import List, Union
+from typing import List, Set, Union
 import ast
 from pydantic_settings import SettingsConfigDict
 from pydantic import Field, field_validator
@@ -22,33 +22,41 @@ class PolyfillPluginConfig(ParserConfig):
         return value
 
 
-def polyfill_python_seven(
-    asts: List[ast.AST], config: PolyfillPluginConfig
-) -> List[ast.AST]:
+# What the typing module of a version lacks
+MISSING_TYPING_NAMES = {
+    "3.7": {"Annotated", "Literal"},
+    "3.8": {"Annotated"},
+}
+
+
+def polyfill_typing(asts: List[ast.AST], missing_names: Set[str]) -> List[ast.AST]:
     new_nodes: list[ast.AST] = []
     for node in asts:
         if isinstance(node, ast.ImportFrom):
             if node.module == "typing":
                 # okay imports
                 aliases = {alias.name for alias in node.names}
-                need_extensions = aliases.intersection({"Literal"})
-                if need_extensions:
+                need_extensions = aliases.intersection(missing_names)
+                for name in sorted(need_extensions):
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in sorted(need_extensions)],
+                            names=[ast.alias(name=name)],
                             level=0,
                         )
                     )
 
                 okay_imports = aliases - need_extensions
-                new_nodes.append(
-                    ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in sorted(okay_imports)],
-                        module="typing",
-                        level=0,
+                if okay_imports:
+                    new_nodes.append(
+                        ast.ImportFrom(
+                            names=[
+                                ast.alias(name=name) for name in sorted(okay_imports)
+                            ],
+                            module="typing",
+                            level=0,
+                        )
                     )
-                )
             else:
                 new_nodes.append(node)
 
@@ -70,7 +78,8 @@ class PolyfillParser(Parser):
         self,
         asts: List[ast.AST],
     ) -> List[ast.AST]:
-        if self.config.python_version == "3.7":
-            return polyfill_python_seven(asts, self.config)
+        missing_names = MISSING_TYPING_NAMES.get(self.config.python_version)
+        if missing_names:
+            return polyfill_typing(asts, missing_names)
 
         return asts  # pragma: no cover
-- 
2.43.0


From 7a2d5b75d2f504a77c328e20ca7dee11f8bce757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:11 +0000
Subject: [PATCH 96/98] fix: do not fail a generation for the lints that ruff
 cannot fix

---
 turms/processors/ruff.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 2b057eb..2021aba 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -1,3 +1,4 @@
+import ast
 import subprocess
 import sys
 
@@ -42,8 +43,13 @@ class RuffProcessor(Processor):
 
     def run(self, gen_file: str, config: GeneratorConfig):
         if self.config.fix:
+            # lints that ruff cannot fix are no failure, unlike code it cannot parse
+            ast.parse(gen_file)
             gen_file = self._run_ruff(
-                ["check", "--fix", "--quiet", "--stdin-filename", "generated.py"],
+                [
+                    *("check", "--fix", "--exit-zero", "--quiet"),
+                    *("--stdin-filename", "generated.py"),
+                ],
                 gen_file,
             )
         if self.config.format:
-- 
2.43.0


From d3af1152fdc9ad5954d86dfdd77367e21c776ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:35 +0000
Subject: [PATCH 97/98] fix: do not let an environment variable PROJECTS stand
 in for the projects

---
 turms/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/config.py b/turms/config.py
index 0510771..aee4012 100644
--- a/turms/config.py
+++ b/turms/config.py
@@ -458,6 +458,7 @@ class GraphQLConfigMultiple(BaseSettings):
     the graphql-config specification for multiple projec."""
 
     model_config = SettingsConfigDict(
+        env_prefix="TURMS_GRAPHQL_",
         extra="allow",
     )
 
-- 
2.43.0


From cc0cdc2a7dfb5c8a6670a50bbfacfeeb6cba30e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:35 +0000
Subject: [PATCH 98/98] fix: read the settings of parsers, processors and
 stylers under the TURMS_ prefix only

---
 turms/parsers/base.py          | 2 +-
 turms/plugins/base.py          | 2 +-
 turms/processors/base.py       | 2 +-
 turms/processors/command.py    | 2 ++
 turms/processors/disclaimer.py | 2 ++
 turms/processors/merge.py      | 2 ++
 turms/processors/ruff.py       | 2 ++
 turms/stylers/appender.py      | 2 ++
 turms/stylers/base.py          | 2 +-
 turms/stylers/capitalize.py    | 2 ++
 10 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/turms/parsers/base.py b/turms/parsers/base.py
index 039ad60..67d3362 100644
--- a/turms/parsers/base.py
+++ b/turms/parsers/base.py
@@ -5,7 +5,7 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 
 class ParserConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(extra="forbid", env_prefix="TURMS_PARSERS_")
     type: str
 
 
diff --git a/turms/plugins/base.py b/turms/plugins/base.py
index de8199e..94a39cf 100644
--- a/turms/plugins/base.py
+++ b/turms/plugins/base.py
@@ -12,7 +12,7 @@ from turms.registry import ClassRegistry
 
 
 class PluginConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(extra="forbid", env_prefix="TURMS_PLUGINS_")
     type: str
 
 
diff --git a/turms/processors/base.py b/turms/processors/base.py
index 1ab6f47..a24e7c9 100644
--- a/turms/processors/base.py
+++ b/turms/processors/base.py
@@ -6,7 +6,7 @@ from turms.config import GeneratorConfig
 
 
 class ProcessorConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(extra="forbid", env_prefix="TURMS_PROCESSORS_")
     type: str
 
 
diff --git a/turms/processors/command.py b/turms/processors/command.py
index 4460cdc..31b939e 100644
--- a/turms/processors/command.py
+++ b/turms/processors/command.py
@@ -3,11 +3,13 @@ import subprocess
 from typing import List, Union
 
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class CommandProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_COMMAND_")
     type: str = "turms.processors.command.CommandProcessor"
     command: Union[str, List[str]]
     """The command to run. The generated code is piped to the command's stdin and the
diff --git a/turms/processors/disclaimer.py b/turms/processors/disclaimer.py
index 1a839ae..0de9633 100644
--- a/turms/processors/disclaimer.py
+++ b/turms/processors/disclaimer.py
@@ -1,9 +1,11 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class DisclaimerProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_DISCLAIMER_")
     type: str = "turms.processors.black.DisclaimerProcessor"
     disclaimer: str = '''""" This file was code generated by turms. If you want to change the contents of this file, you should make sure to add the MergeProcessor to your config will keep your changes when you re-run turms)."""
     '''
diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 60f7398..499eaa5 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -1,4 +1,5 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 import ast
 import libcst as cst
@@ -349,6 +350,7 @@ def order_definitions(body):
 
 
 class MergeProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_MERGE_")
     type: str = "turms.processors.merge.MergeProcessor"
 
 
diff --git a/turms/processors/ruff.py b/turms/processors/ruff.py
index 2021aba..ba73aab 100644
--- a/turms/processors/ruff.py
+++ b/turms/processors/ruff.py
@@ -3,11 +3,13 @@ import subprocess
 import sys
 
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.processors.base import Processor, ProcessorConfig
 from turms.config import GeneratorConfig
 
 
 class RuffProcessorConfig(ProcessorConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_PROCESSORS_RUFF_")
     type: str = "turms.processors.ruff.RuffProcessor"
     format: bool = True
     """Whether to run `ruff format` to enforce a consistent style."""
diff --git a/turms/stylers/appender.py b/turms/stylers/appender.py
index d06e6a4..3b3b2d2 100644
--- a/turms/stylers/appender.py
+++ b/turms/stylers/appender.py
@@ -1,8 +1,10 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.stylers.base import BaseStyler, StylerConfig
 
 
 class AppenderStylerConfig(StylerConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_STYLERS_APPENDER_")
     type: str = "turms.stylers.appender.AppenderStyler"
     append_fragment: str = "Fragment"
     append_query: str = "Query"
diff --git a/turms/stylers/base.py b/turms/stylers/base.py
index 08bdd96..007571b 100644
--- a/turms/stylers/base.py
+++ b/turms/stylers/base.py
@@ -5,7 +5,7 @@ from pydantic_settings import BaseSettings, SettingsConfigDict
 
 
 class StylerConfig(BaseSettings):
-    model_config = SettingsConfigDict(extra="forbid")
+    model_config = SettingsConfigDict(extra="forbid", env_prefix="TURMS_STYLERS_")
     type: str
 
 
diff --git a/turms/stylers/capitalize.py b/turms/stylers/capitalize.py
index 271a9b3..8fe5365 100644
--- a/turms/stylers/capitalize.py
+++ b/turms/stylers/capitalize.py
@@ -1,8 +1,10 @@
 from pydantic import Field
+from pydantic_settings import SettingsConfigDict
 from turms.stylers.base import BaseStyler, StylerConfig
 
 
 class CapitalizeSylerConfig(StylerConfig):
+    model_config = SettingsConfigDict(env_prefix="TURMS_STYLERS_CAPITALIZE_")
     type: str = "turms.stylers.capitalize.CapitalizerSyler"
     capitalize_fragment: bool = True
     capitalize_query: bool = True
-- 
2.43.0

