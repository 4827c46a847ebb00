From c56a76226de7829e3e960c5e344ae54d11c39deb Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:55:43 +0000
Subject: [PATCH 01/45] fix: find fragment spreads of any GraphQL name when
 composing documents

The regular expression only matched letters, so a fragment called e.g.
Person_2 was cut to Person and generation failed; it also matched text
inside string literals. Collect the spreads from the parsed document.
---
 turms/utils.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index dffd2ad..5b862a9 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -7,6 +7,7 @@ from graphql import (
     BooleanValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
+    FragmentSpreadNode,
     GraphQLEnumType,
     GraphQLInterfaceType,
     GraphQLList,
@@ -29,9 +30,11 @@ from graphql import (
     TypeNode,
     Undefined,
     ValueNode,
+    Visitor,
     parse,
     print_ast,
     validate,
+    visit,
 )
 from graphql.error.graphql_error import GraphQLError
 from graphql.language.ast import DocumentNode, FieldNode, NameNode
@@ -529,7 +532,16 @@ def parse_documents(
     return nodes
 
 
-fragment_searcher = re.compile(r"\.\.\.(?P<fragment>[a-zA-Z]*)")
+def find_fragment_spreads(document: str) -> Set[str]:
+    """Returns the names of all fragments that are spread anywhere in a document"""
+    names: Set[str] = set()
+
+    class SpreadCollector(Visitor):
+        def enter_fragment_spread(self, node: FragmentSpreadNode, *_):
+            names.add(node.name.value)
+
+    visit(parse(document), SpreadCollector())
+    return names
 
 
 def auto_add_typename_field_to_fragment_str(fragment_str: str) -> str:
@@ -560,9 +572,9 @@ def replace_iteratively(
     taken: list[str] = [],
 ) -> str:
     """Replaces the fragments in the pattern with their definitions"""
-    z = set(fragment_searcher.findall(pattern))  # only set is important
+    z = find_fragment_spreads(pattern)
 
-    new_fragments = [new_f for new_f in z if new_f not in taken and new_f != ""]
+    new_fragments = [new_f for new_f in z if new_f not in taken]
     new_fragments.sort()
 
     if not new_fragments:
-- 
2.43.0


From c73807ac72c8132453e3db9d938f4b35398f4b2a Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:55:52 +0000
Subject: [PATCH 02/45] fix: parse enum, list, object and boolean values of
 document defaults

Enum, list and object defaults of an operation variable made generation
crash, and boolean defaults were compared with a string, so every boolean
default was read as False.
---
 turms/utils.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 5b862a9..25f02f1 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -5,6 +5,7 @@ from typing import List, Optional, Sequence, Set, Union
 
 from graphql import (
     BooleanValueNode,
+    EnumValueNode,
     FloatValueNode,
     FragmentDefinitionNode,
     FragmentSpreadNode,
@@ -20,9 +21,11 @@ from graphql import (
     GraphQLUnionType,
     IntValueNode,
     ListTypeNode,
+    ListValueNode,
     NamedTypeNode,
     NonNullTypeNode,
     NullValueNode,
+    ObjectValueNode,
     OperationDefinitionNode,
     SelectionNode,
     SelectionSetNode,
@@ -919,7 +922,9 @@ def recurse_type_label(
     raise NotImplementedError("Not implemented for this type")
 
 
-def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool]:
+def parse_value_node(
+    value_node: ValueNode,
+) -> Union[None, str, int, float, bool, list, dict]:
     """Parses a Value Node into a Python value
     using standard types
 
@@ -930,7 +935,7 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
         NotImplementedError: If the Value Node is not supported
 
     Returns:
-        Union[None, str, int, float, bool]: The parsed value
+        Union[None, str, int, float, bool, list, dict]: The parsed value
     """
     if isinstance(value_node, IntValueNode):
         return int(value_node.value)
@@ -939,9 +944,18 @@ def parse_value_node(value_node: ValueNode) -> Union[None, str, int, float, bool
     elif isinstance(value_node, StringValueNode):
         return value_node.value
     elif isinstance(value_node, BooleanValueNode):
-        return value_node.value == "true"
+        return value_node.value
     elif isinstance(value_node, NullValueNode):
         return None
+    elif isinstance(value_node, EnumValueNode):
+        return value_node.value
+    elif isinstance(value_node, ListValueNode):
+        return [parse_value_node(value) for value in value_node.values]
+    elif isinstance(value_node, ObjectValueNode):
+        return {
+            field.name.value: parse_value_node(field.value)
+            for field in value_node.fields
+        }
     else:
         raise NotImplementedError(f"Cannot parse {value_node}")
 
-- 
2.43.0


From b88d3a3c05ef275af2a00882868362807b12efc3 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:56:06 +0000
Subject: [PATCH 03/45] fix: keep concatenated documents and schema files apart

Files were glued together without a separator, so a comment at the end of
one file (no trailing newline) swallowed the first line of the next one:
an operation or type silently disappeared.
---
 turms/helpers.py | 7 ++-----
 turms/run.py     | 4 ++--
 turms/utils.py   | 9 ++++++---
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/turms/helpers.py b/turms/helpers.py
index 97ec390..59e2bdd 100644
--- a/turms/helpers.py
+++ b/turms/helpers.py
@@ -132,11 +132,8 @@ def load_dsl_from_glob(
     if len(schema_glob) == 0:
         raise GenerationError(f"No files found for glob string {glob_string}")
 
-    dsl_string = ""
-    for file in schema_glob:
-        dsl_string += load_dsl_from_file(file)
-
-    return dsl_string
+    # A file may end in a comment without a newline: keep the files apart
+    return "\n".join(load_dsl_from_file(file) for file in schema_glob)
 
 
 def load_introspection_from_glob(
diff --git a/turms/run.py b/turms/run.py
index e4d3c0e..a017c6f 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -327,7 +327,7 @@ def build_schema_from_schema_type(
             for key, value in schema.items():
                 dsl_subschemas.append(load_dsl_from_url(key, value.headers))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if isinstance(schema, list):
         if len(schema) == 1:
@@ -348,7 +348,7 @@ def build_schema_from_schema_type(
                 if isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
-            return build_ast_schema(parse(" ".join(dsl_subschemas)))
+            return build_ast_schema(parse("\n".join(dsl_subschemas)))
 
     if is_url(schema):
         try:
diff --git a/turms/utils.py b/turms/utils.py
index 25f02f1..5e693f8 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -511,13 +511,16 @@ def parse_documents(
 
     errors: List[GraphQLError] = []
 
-    dsl = ""
+    sources: List[str] = []
 
     for file in x:
         with open(file, "r") as f:
-            dsl += f.read()
+            sources.append(f.read())
 
-    if dsl == "":
+    # A file may end in a comment without a newline: keep the files apart
+    dsl = "\n".join(sources)
+
+    if dsl.strip() == "":
         raise NoDocumentsFoundError(
             f"Glob {scan_glob} did not find documents. Or only empty documents"
         )
-- 
2.43.0


From 68702f81ccea197ea42af1a80cd0ab3032714838 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:56:13 +0000
Subject: [PATCH 04/45] fix: load each entry of a schema list exactly once

A url entry is also a string, so after it was fetched it was looked up
again as a file glob, which failed; an entry with headers crashed because
it was treated as a string.
---
 turms/run.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index a017c6f..b20181e 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -340,12 +340,12 @@ def build_schema_from_schema_type(
             dsl_subschemas = []
 
             for item in schema:
-                if is_url(item):
-                    dsl_subschemas.append(load_dsl_from_url(item))
                 if isinstance(item, dict):
                     for key, value in item.items():
                         dsl_subschemas.append(load_dsl_from_url(key, value.headers))
-                if isinstance(item, str):
+                elif is_url(item):
+                    dsl_subschemas.append(load_dsl_from_url(item))
+                elif isinstance(item, str):
                     dsl_subschemas.append(load_dsl_from_glob(item))
 
             return build_ast_schema(parse("\n".join(dsl_subschemas)))
-- 
2.43.0


From 05200f18f2e3b95e5e9e52ac9d035ffa061efb8c Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 05/45] fix: report unsupported config file types as
 GenerationError

The lookup of the loader raises KeyError, not AttributeError.
---
 turms/run.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/run.py b/turms/run.py
index b20181e..d7130cb 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -79,7 +79,7 @@ FILE_NAME_LOADERS = {
 def get_file_loader(file_name: str) -> Callable:
     try:
         return FILE_NAME_LOADERS[file_name.lower().split(".")[-1]]
-    except AttributeError as err:
+    except KeyError as err:
         raise GenerationError(
             f"File {file_name} is not supported. Please use one of {FILE_NAME_LOADERS.keys()}"
         ) from err
-- 
2.43.0


From 5003c2e7869538ca40c56e3fd5ef5518d6beafe4 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 06/45] fix: unpack the generated code in gen

generate returns the code together with the schema; gen tried to write
the tuple, so every project failed.
---
 turms/run.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/turms/run.py b/turms/run.py
index d7130cb..2ed5020 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -243,7 +243,7 @@ def gen(
                 f"-------------- Generating project: {key} --------------"
             )
 
-            generated_code = generate(project)
+            generated_code, schema = generate(project)
 
             write_code_to_file(
                 generated_code,
@@ -252,11 +252,6 @@ def gen(
             )
 
             if project.extensions.turms.dump_schema:
-                schema = build_schema_from_schema_type(
-                    project.schema_url,
-                    allow_introspection=project.extensions.turms.allow_introspection,
-                )
-
                 write_schema_to_file(
                     schema,
                     project.extensions.turms.out_dir,
-- 
2.43.0


From 0b08f386b998a7c88d141a0135afcc2784f36fae Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 07/45] fix: unwrap non-null output types once

The non-null branch took the inner type twice: named types crashed and
lists lost a level.
---
 turms/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turms/utils.py b/turms/utils.py
index 5e693f8..e7ba8e2 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -745,8 +745,6 @@ def recurse_outputtype_annotation(
 ) -> ast.expr:
     if isinstance(type, GraphQLNonNull):
         # If the type is non-null, we need to recurse into the inner type
-        type = type.of_type
-
         return recurse_outputtype_annotation(
             type.of_type, registry, optional=False, overwrite_final=overwrite_final
         )
-- 
2.43.0


From a9da14f9922eba05e9d3ac6206a55c293fac3a41 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:56:37 +0000
Subject: [PATCH 08/45] fix: request __typename for objects selected inside
 inline fragments

Their result models carry a __typename (used as discriminator for
interfaces) but the document never selected it.
---
 turms/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/utils.py b/turms/utils.py
index e7ba8e2..2dfc2bc 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -19,6 +19,7 @@ from graphql import (
     GraphQLOutputType,
     GraphQLScalarType,
     GraphQLUnionType,
+    InlineFragmentNode,
     IntValueNode,
     ListTypeNode,
     ListValueNode,
@@ -483,6 +484,9 @@ def add_typename_recursively(
     for field in selections:
         if isinstance(field, FieldNode) and field.selection_set:
             add_typename_recursively(field.selection_set)
+        elif isinstance(field, InlineFragmentNode):
+            # selected into the object that surrounds it, which is handled above
+            add_typename_recursively(field.selection_set, skip=True)
 
     # Update the selection set with potentially added __typename fields
     selection_set.selections = tuple(selections)
-- 
2.43.0


From da0f8b98d0959de25794f0742e219e25b9eceff5 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 09/45] fix: apply freeze and options to operations

The operation kind of graphql-core never compares equal to the configured
type names, so freezing queries, mutations or subscriptions did nothing.
---
 turms/plugins/operations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index 7af7856..eae60bf 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -2,7 +2,7 @@ import ast
 from typing import List, Optional
 
 from pydantic_settings import SettingsConfigDict
-from turms.config import GeneratorConfig
+from turms.config import GeneratorConfig, GraphQLTypes
 from graphql import GraphQLSchema, InputObjectTypeDefinitionNode
 from graphql.language.ast import OperationDefinitionNode, OperationType
 from turms.recurse import type_field_node
@@ -454,7 +454,9 @@ def generate_operation(
             type_params=[],
             body=merge_body_sequences(
                 class_body_fields,
-                generate_pydantic_config(o.operation, config, registry),
+                generate_pydantic_config(
+                    GraphQLTypes(o.operation.value), config, registry
+                ),
             ),
         )
     )
-- 
2.43.0


From 9c05d0d1364fa9c533aca4065c61546bc9a32efc Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 10/45] fix: honour arguments_allow_population_by_field_name

The generated Arguments classes copied an unrelated (usually unset) option,
and pydantic v1 output got a v2 config.
---
 turms/plugins/operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index eae60bf..bd5b1a6 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -102,7 +102,7 @@ def generate_arguments_config(
     plugin_config: OperationsPluginConfig,
     registry: ClassRegistry,
 ):
-    if config.pydantic_version == "1":
+    if config.pydantic_version == "v1":
         config_fields = []
 
         if plugin_config.arguments_allow_population_by_field_name:
@@ -141,7 +141,7 @@ def generate_arguments_config(
                 ast.keyword(
                     arg="populate_by_name",
                     value=ast.Constant(
-                        value=config.options.allow_population_by_field_name
+                        value=plugin_config.arguments_allow_population_by_field_name
                     ),
                 )
             )
-- 
2.43.0


From 1304e1faa28f372e3d5f8dd824b37b47f8793b5e Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 11/45] fix: honour freeze.convert_list_to_tuple in result
 models

---
 turms/recurse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index d0e48fb..bf013b8 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -619,7 +619,7 @@ def recurse_annotation(
         )
 
     if isinstance(type, GraphQLList):
-        if config.freeze.enabled:
+        if config.freeze.enabled and config.freeze.convert_list_to_tuple:
             registry.register_import("typing.Tuple")
 
             def list_builder(x: ast.Name | ast.Subscript | ast.Constant):
-- 
2.43.0


From 6afc219e466f1ff5f926d38cdc3e5b40f321ddd0 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 12/45] fix: apply per-type freeze, options and additional
 config to result models

The type name was not passed on, so include/exclude lists and
additional_config had no (or the wrong) effect on fragments and nested
result classes, and classes of interface and union fragments were never
configured at all.
---
 turms/plugins/fragments.py | 18 +++++++++++++++---
 turms/recurse.py           | 18 +++++++++++++++---
 2 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 0824547..8968662 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -297,7 +297,10 @@ def generate_fragment(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                mother_class_fields if mother_class_fields else [ast.Pass()]
+                mother_class_fields if mother_class_fields else [ast.Pass()],
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, typename=type.name
+                ),
             ),
         )
 
@@ -365,6 +368,9 @@ def generate_fragment(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, typename=i.name
+                    ),
                 ),
             )
 
@@ -480,7 +486,9 @@ def generate_fragment(
                 type_params=[],
                 body=merge_body_sequences(
                     fields,
-                    generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry),
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, typename=type.name
+                    ),
                     meta_body,
                 ),
             )
@@ -580,7 +588,11 @@ def generate_fragment(
                 keywords=[],
                 type_params=[],
                 body=merge_body_sequences(
-                    [generate_typename_field(i.name, registry, config)], inline_fields
+                    [generate_typename_field(i.name, registry, config)],
+                    inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, typename=i.name
+                    ),
                 ),
             )
 
diff --git a/turms/recurse.py b/turms/recurse.py
index bf013b8..6b4355d 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -163,7 +163,10 @@ def recurse_annotation(
                 merged_body = merge_body_sequences(
                     this_inline_fragment_fields,
                     generate_pydantic_config(
-                        GraphQLTypes.FRAGMENT, config, registry
+                        GraphQLTypes.FRAGMENT,
+                        config,
+                        registry,
+                        typename=sub_node.type_condition.name.value,
                     ),
                 )
                 if not merged_body:
@@ -318,7 +321,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.FRAGMENT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.FRAGMENT, config, registry, typename=type.name
+                ),
             ),
         )
         subtree.append(mother_class)
@@ -364,6 +370,9 @@ def recurse_annotation(
                         generate_typename_field(i.name, registry, config),
                     ],
                     inline_fields,
+                    generate_pydantic_config(
+                        GraphQLTypes.FRAGMENT, config, registry, typename=i.name
+                    ),
                 ),
             )
 
@@ -561,7 +570,10 @@ def recurse_annotation(
             keywords=[],
             type_params=[],
             body=merge_body_sequences(
-                body, generate_pydantic_config(GraphQLTypes.OBJECT, config, registry)
+                body,
+                generate_pydantic_config(
+                    GraphQLTypes.OBJECT, config, registry, typename=type.name
+                ),
             ),
         )
 
-- 
2.43.0


From a0811b0543f81fda1c2bfe3a0da0b4f06e5d1508 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 13/45] fix: order fragments by dependencies inside inline
 fragments

A fragment spread inside an inline fragment was not a dependency, so the
class could be emitted before the base it inherits from.
---
 turms/plugins/fragments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 8968662..69f9fe3 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -64,8 +64,11 @@ def find_fragment_dependencies_recursive(
                         fragment.selection_set, fragment_definitions, visited
                     )
                 )
-        # If it's a field with a nested selection set, dive deeper
-        elif isinstance(selection, FieldNode) and selection.selection_set:
+        # If it's a field or inline fragment with a nested selection set, dive deeper
+        elif (
+            isinstance(selection, (FieldNode, InlineFragmentNode))
+            and selection.selection_set
+        ):
             dependencies.update(
                 find_fragment_dependencies_recursive(
                     selection.selection_set, fragment_definitions, visited
-- 
2.43.0


From c70dbf9fbfded780850c28f0e60c55f3ff07cbbb Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 14/45] fix: inherit the styled class of fragments spread into
 union members

The raw fragment name was used as base class, which is undefined as soon
as a styler renames fragments.
---
 turms/plugins/fragments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index 69f9fe3..e6c7117 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -532,7 +532,7 @@ def generate_fragment(
                 for field in sub_node.selection_set.selections:
                     if isinstance(field, FragmentSpreadNode):
                         member_class_base_classes.setdefault(on_type_name, []).append(
-                            field.name.value
+                            registry.inherit_fragment(field.name.value)
                         )
                         continue
 
-- 
2.43.0


From 6d4e7fbfda1d06b958bb5268e9a66b166af3f4df Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:59:25 +0000
Subject: [PATCH 15/45] fix: keep nullable union fields with one selected
 member optional

---
 turms/recurse.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index 6b4355d..c5c78c6 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -213,7 +213,18 @@ def recurse_annotation(
                     ctx=ast.Load(),
                 )
         else:
-            return ast.Name(id=union_class_names[0], ctx=ast.Load())
+            member = ast.Name(id=union_class_names[0], ctx=ast.Load())
+
+            if is_optional:
+                registry.register_import("typing.Optional")
+
+                return ast.Subscript(
+                    value=ast.Name("Optional", ctx=ast.Load()),
+                    slice=member,
+                    ctx=ast.Load(),
+                )
+
+            return member
 
     if isinstance(type, GraphQLInterfaceType):
         # Lets Create Base Class to Inherit from for this
-- 
2.43.0


From 95cc648ec006c610e89579d1066f5ed1f62418a3 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:59:41 +0000
Subject: [PATCH 16/45] fix: escape enum values that are no valid Python member
 names

GraphQL allows values such as None or class; the generated module was not
importable.
---
 turms/plugins/enums.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index e06a193..dc0ea59 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -1,6 +1,7 @@
 from pydantic_settings import SettingsConfigDict
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+from keyword import iskeyword
 from typing import List, Sequence
 from turms.config import GeneratorConfig
 from graphql import GraphQLSchema
@@ -72,8 +73,13 @@ def generate_enums(
             else:
                 servalue = value.value.value
 
+            member_name = str(value_key)
+            if iskeyword(member_name) or member_name == "mro":
+                # not allowed as member name, the value stays untouched
+                member_name += "_"
+
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
                 value=ast.Constant(value=servalue),
             )
 
-- 
2.43.0


From fed9667f2e4a384a5ffc49a9c89d1d4ba95cd935 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 17/45] fix: never import builtins as modules

Only a handful of builtins was known, a base or scalar such as bytes or
Exception led to 'import bytes' in the generated module.
---
 turms/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index a53c05a..a3c786e 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -1,4 +1,5 @@
 import ast
+import builtins
 from keyword import iskeyword
 from typing import Callable, Dict, List, Optional, Set, Type
 
@@ -628,7 +629,7 @@ class ClassRegistry(object):
         )
 
     def register_import(self, name: str) -> None:
-        if name in ("bool", "str", "int", "float", "dict", "list", "tuple"):
+        if name in dir(builtins):
             return
 
         self._imports.add(name)
-- 
2.43.0


From ea030d86d660bcd528dc8194e682163899dcdfa5 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 21:59:54 +0000
Subject: [PATCH 18/45] fix: emit imports and builtins in a stable order

They were written in set order, so the generated file changed from run to
run without any change of its inputs.
---
 turms/parsers/polyfill.py | 4 ++--
 turms/registry.py         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 458b81d..2aa47b4 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -36,7 +36,7 @@ def polyfill_python_seven(
                     new_nodes.append(
                         ast.ImportFrom(
                             module="typing_extensions",
-                            names=[ast.alias(name=name) for name in need_extensions],
+                            names=[ast.alias(name=name) for name in sorted(need_extensions)],
                             level=0,
                         )
                     )
@@ -44,7 +44,7 @@ def polyfill_python_seven(
                 okay_imports = aliases - need_extensions
                 new_nodes.append(
                     ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in okay_imports],
+                        names=[ast.alias(name=name) for name in sorted(okay_imports)],
                         module="typing",
                         level=0,
                     )
diff --git a/turms/registry.py b/turms/registry.py
index a3c786e..ec9aaaf 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -640,7 +640,7 @@ class ClassRegistry(object):
 
         lone_top_imports: Set[str] = set()
         top_level: Dict[str, Set[str]] = {}
-        for name in self._imports:
+        for name in sorted(self._imports):
             if "." not in name:
                 lone_top_imports.add(name)
             else:
@@ -648,14 +648,14 @@ class ClassRegistry(object):
                     name.split(".")[-1]
                 )
 
-        for lone_top_import in lone_top_imports:
+        for lone_top_import in sorted(lone_top_imports):
             imports.append(ast.Import(names=[ast.alias(name=lone_top_import)]))
 
         for top_level_name, sub_level_names in top_level.items():
             imports.append(
                 ast.ImportFrom(
                     module=top_level_name,
-                    names=[ast.alias(name=name) for name in sub_level_names],
+                    names=[ast.alias(name=name) for name in sorted(sub_level_names)],
                     level=0,
                 )
             )
@@ -666,7 +666,7 @@ class ClassRegistry(object):
         """Generate the builtins for the generated code. This is used to generate the"""
         builtins: list[ast.AST] = []
 
-        for built_in in self._builtins:
+        for built_in in sorted(self._builtins):
             node = built_in_map[built_in]
             if isinstance(node, list):
                 builtins.extend(node)
-- 
2.43.0


From 9b6d24d8ffc4f1cc46b85058a1f5286d16494dc9 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:00:05 +0000
Subject: [PATCH 19/45] fix: do not leave an empty typing import in polyfilled
 modules

---
 turms/parsers/polyfill.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/turms/parsers/polyfill.py b/turms/parsers/polyfill.py
index 2aa47b4..29b7285 100644
--- a/turms/parsers/polyfill.py
+++ b/turms/parsers/polyfill.py
@@ -42,13 +42,16 @@ def polyfill_python_seven(
                     )
 
                 okay_imports = aliases - need_extensions
-                new_nodes.append(
-                    ast.ImportFrom(
-                        names=[ast.alias(name=name) for name in sorted(okay_imports)],
-                        module="typing",
-                        level=0,
+                if okay_imports:
+                    new_nodes.append(
+                        ast.ImportFrom(
+                            names=[
+                                ast.alias(name=name) for name in sorted(okay_imports)
+                            ],
+                            module="typing",
+                            level=0,
+                        )
                     )
-                )
             else:
                 new_nodes.append(node)
 
-- 
2.43.0


From aef86e5f2c67e2cacb5db019529cb527a4885324 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 20/45] fix: recognise the discriminator field of union members
 under any styler

The comparison used the styled python name, so a renamed discriminator was
emitted a second time as a required field.
---
 turms/plugins/inputs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/inputs.py b/turms/plugins/inputs.py
index 010f234..bbe14ed 100644
--- a/turms/plugins/inputs.py
+++ b/turms/plugins/inputs.py
@@ -258,7 +258,7 @@ def generate_input_type(
 
     for value_key, value in type.fields.items():
         field_name = registry.generate_node_name(value_key)
-        if field_name in discriminator_names:
+        if value_key in discriminator_names:
             continue
         # A field is omittable (and thus optional, defaulting to None) when it is
         # nullable OR carries a schema default. For a default we no longer bake the
-- 
2.43.0


From f51ecda4368b20847292f143550b6a019f999be6 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:03:35 +0000
Subject: [PATCH 21/45] fix: complete the builtin introspection enums and
 import Enum for them

---
 turms/registry.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/turms/registry.py b/turms/registry.py
index ec9aaaf..8e23c72 100644
--- a/turms/registry.py
+++ b/turms/registry.py
@@ -63,7 +63,16 @@ built_in_map = {
                 targets=[ast.Name(id=str(value), ctx=ast.Store())],
                 value=ast.Constant(value=value),
             )
-            for value in ["OBJECT", "INTERFACE", "UNION", "ENUM", "INPUT_OBJECT"]
+            for value in [
+                "SCALAR",
+                "OBJECT",
+                "INTERFACE",
+                "UNION",
+                "ENUM",
+                "INPUT_OBJECT",
+                "LIST",
+                "NON_NULL",
+            ]
         ],
     ),
     "__DirectiveLocation": ast.ClassDef(
@@ -80,6 +89,14 @@ built_in_map = {
                 value=ast.Constant(value=value),
             )
             for value in [
+                "QUERY",
+                "MUTATION",
+                "SUBSCRIPTION",
+                "FIELD",
+                "FRAGMENT_DEFINITION",
+                "FRAGMENT_SPREAD",
+                "INLINE_FRAGMENT",
+                "VARIABLE_DEFINITION",
                 "SCALAR",
                 "OBJECT",
                 "FIELD_DEFINITION",
@@ -330,6 +347,7 @@ class ClassRegistry(object):
     ) -> ast.Constant | ast.Name:
         if typename in built_in_map:
             # Builtin enums
+            self.register_import("enum.Enum")
             self._builtins.add(typename)
             self.forward_references.add(parent)
             return ast.Constant(value=typename)
-- 
2.43.0


From d32868a4e0553c90a03666bd4cc4057dd6726567 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 22/45] fix: reach the inputs of tagged input unions when
 pruning unreferenced types

---
 turms/referencer.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/turms/referencer.py b/turms/referencer.py
index e0d6c5b..56a6f26 100644
--- a/turms/referencer.py
+++ b/turms/referencer.py
@@ -153,6 +153,19 @@ def recurse_find_references(
         raise Exception("Unknown Type", type(graphql_type), graphql_type)
 
 
+def get_union_memberships(input_type: GraphQLInputObjectType) -> Set[str]:
+    """The names of the input unions a type joins through ``@unionElementOf``"""
+    if not input_type.ast_node:
+        return set()
+    return {
+        argument.value.value
+        for directive in input_type.ast_node.directives
+        if directive.name.value == "unionElementOf"
+        for argument in directive.arguments
+        if argument.name.value == "union"
+    }
+
+
 def recurse_type_annotation(
     field: GraphQLInputField,
     graphql_type: NamedTypeNode,
@@ -200,6 +213,13 @@ def recurse_type_annotation(
             for key, node in graphql_type.fields.items():
                 recurse_type_annotation(node, node.type, schema, registry)
 
+            # The members of a tagged input union replace it in the generated code
+            for member in schema.type_map.values():
+                if isinstance(
+                    member, GraphQLInputObjectType
+                ) and graphql_type.name in get_union_memberships(member):
+                    recurse_type_annotation(field, member, schema, registry)
+
     else:
         raise Exception("Unknown Type", field, graphql_type)
 
-- 
2.43.0


From f4fd78eede90143284a6bed25d5609f51fa7dd07 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 23/45] fix: document list, object and null defaults of
 operation variables

---
 turms/plugins/funcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index aecdc08..23d6080 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -38,6 +38,7 @@ from turms.utils import (
     is_oneof_input_type,
     non_typename_fields,
     parse_documents,
+    parse_value_node,
     recurse_outputtype_annotation,
     recurse_outputtype_label,
     recurse_type_annotation,
@@ -945,7 +946,7 @@ def generate_query_doc(
         field_description = description_map.get(v.variable.name.value, "No description")
 
         if not isinstance(v.type, NonNullTypeNode) or v.default_value:
-            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(v.default_value.value)}\n"
+            description += f"    {registry.generate_parameter_name(v.variable.name.value)} ({recurse_type_label(v.type, registry)}, optional): {field_description}. {'' if not v.default_value else 'Defaults to ' + str(parse_value_node(v.default_value))}\n"
 
     extra_kwargs = get_extra_kwargs_for_onode(definition, plugin_config)
     for kwarg in extra_kwargs:
-- 
2.43.0


From 7ca3c6574a94f519c9843659011ff76a500780b3 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 24/45] fix: look up nested fields on the type of their parent
 field

---
 turms/plugins/funcs.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 23d6080..68e16d7 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -861,14 +861,14 @@ def estimate_variable_name(
                                     mapped_description
                                 )
 
-            for sub in non_typename_fields(field):
-                if isinstance(sub, FieldNode):
-                    estimate_variable_name(
-                        sub,
-                        client_schema,
-                        get_field_def(client_schema, root, field),
-                        description_map,
-                    )
+            field_definition = get_field_def(client_schema, root, field)
+            if field_definition:
+                estimate_variable_name(
+                    field,
+                    client_schema,
+                    get_named_type(field_definition.type),
+                    description_map,
+                )
 
 
 def generate_query_doc(
-- 
2.43.0


From ef744c58d23f2e73c7e5f7f55614d91c2580748f Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 25/45] fix: do not shadow operation classes with their
 functions

---
 turms/plugins/funcs.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 68e16d7..16f8b47 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -103,6 +103,17 @@ def camel_to_snake(name: str) -> str:
     return re.sub("([a-z0-9])([A-Z])", r"\1_\2", name).lower()
 
 
+def avoid_shadowing_operation(
+    func_name: str, o: OperationDefinitionNode, registry: ClassRegistry
+) -> str:
+    # The function passes its operation class to the proxy: it must not replace it
+    return (
+        f"{func_name}_"
+        if func_name == get_operation_class_name(o, registry)
+        else func_name
+    )
+
+
 def generate_async_func_name(
     o: OperationDefinitionNode,
     plugin_config: FuncsPluginConfig,
@@ -111,7 +122,9 @@ def generate_async_func_name(
 ):
     if not o.name:
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}"
+    return avoid_shadowing_operation(
+        f"{plugin_config.prepend_async}{camel_to_snake(o.name.value)}", o, registry
+    )
 
 
 def generate_sync_func_name(
@@ -122,7 +135,9 @@ def generate_sync_func_name(
 ):
     if not o.name:  # pragma: no cover
         raise Exception("Operation name is None")
-    return f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}"
+    return avoid_shadowing_operation(
+        f"{plugin_config.prepend_sync}{camel_to_snake(o.name.value)}", o, registry
+    )
 
 
 def get_extra_args_for_onode(
-- 
2.43.0


From 04c25fb670845f62850fa73c49fbc21a18b80932 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 26/45] fix: import Optional for keyword arguments without
 default

---
 turms/plugins/funcs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index 16f8b47..e8c4992 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -554,6 +554,7 @@ def generate_parameters(
         if kwarg.default is None:
             # if we set the default to None, we need to make the annotation optional
             # complies with PEP 484
+            registry.register_import("typing.Optional")
             annotation = ast.Subscript(
                 value=ast.Name(id="Optional", ctx=ast.Load()),
                 slice=annotation,
-- 
2.43.0


From dc01c6457ff3dc3b12d32c90bf45260951fa6936 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 27/45] fix: let input factories omit non-null fields with a
 schema default

---
 turms/plugins/funcs.py       | 5 +++--
 turms/plugins/input_funcs.py | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/funcs.py b/turms/plugins/funcs.py
index e8c4992..6bb8adb 100644
--- a/turms/plugins/funcs.py
+++ b/turms/plugins/funcs.py
@@ -14,6 +14,7 @@ from graphql import (
     NamedTypeNode,
     VariableNode,
     get_named_type,
+    is_required_input_field,
 )
 from graphql.type.definition import (
     GraphQLEnumType,
@@ -427,7 +428,7 @@ def generate_input_type_params(
     for value_key, value in input_type.fields.items():
         field_name = registry.generate_node_name(value_key)
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             pos_args.append(
                 ast.arg(
                     arg=field_name,
@@ -652,7 +653,7 @@ def generate_variable_assignments(
                     ctx=ast.Store(),
                 )
                 field_value = ast.Name(id=field_param, ctx=ast.Load())
-                if isinstance(field.type, GraphQLNonNull):
+                if is_required_input_field(field):
                     # required field → always present (positional parameter)
                     stmts.append(
                         ast.Assign(targets=[field_subscript], value=field_value)
diff --git a/turms/plugins/input_funcs.py b/turms/plugins/input_funcs.py
index 0164dcc..da28346 100644
--- a/turms/plugins/input_funcs.py
+++ b/turms/plugins/input_funcs.py
@@ -15,7 +15,11 @@ plugin; the input model / pydantic performs the coercion.
 import ast
 from typing import Dict, List
 
-from graphql import GraphQLInputObjectType, GraphQLNonNull, GraphQLSchema
+from graphql import (
+    GraphQLInputObjectType,
+    GraphQLSchema,
+    is_required_input_field,
+)
 from pydantic import Field
 from pydantic_settings import SettingsConfigDict
 
@@ -98,7 +102,7 @@ def generate_input_func(
         )
         param_value = ast.Name(id=field_param, ctx=ast.Load())
 
-        if isinstance(value.type, GraphQLNonNull):
+        if is_required_input_field(value):
             # required -> always present
             body.append(ast.Assign(targets=[subscript], value=param_value))
         else:
-- 
2.43.0


From 7741a108518f55761a905196f8365abd5ce34af4 Mon Sep 17 00:00:00 2001
From: vf <vf@local>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 28/45] fix: keep header and footer comments of merged files

---
 turms/processors/merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 5a90b04..9ea1b2e 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -220,7 +220,8 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
-    md = cst.Module(body=updated_body)
+    # keeps the comments around the code of the existing module
+    md = existing_module.with_changes(body=updated_body)
 
     return md.code
 
-- 
2.43.0


From 3cc49d4fedddd810a51493cdbe1127b8bc87709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 29/45] fix: give colliding nested result classes distinct
 names

---
 turms/recurse.py | 14 ++++++++++----
 turms/utils.py   | 13 +++++++++++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/turms/recurse.py b/turms/recurse.py
index c5c78c6..021a8fe 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -19,6 +19,7 @@ from turms.utils import (
     merge_body_sequences,
     non_typename_fields,
     target_from_node,
+    unique_class_name,
 )
 from graphql.utilities.type_info import get_field_def
 
@@ -89,8 +90,9 @@ def recurse_annotation(
                 union_class_names.append(fragment_name)
 
             if isinstance(sub_node, InlineFragmentNode):
-                inline_fragment_name = (
-                    f"{parent}{sub_node.type_condition.name.value}InlineFragment"
+                inline_fragment_name = unique_class_name(
+                    f"{parent}{sub_node.type_condition.name.value}InlineFragment",
+                    subtree,
                 )
                 spread_fragment_bases: list[ast.Name] = []
                 inline_field_nodes: list[ast.AnnAssign | ast.Expr] = []
@@ -233,7 +235,9 @@ def recurse_annotation(
 
         sub_nodes = non_typename_fields(node)
 
-        base_name = f"{parent}{target.capitalize()}"
+        base_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree, suffix="Base"
+        )
 
         if type.description:
             mother_class_fields.append(
@@ -478,7 +482,9 @@ def recurse_annotation(
         pick_fields: list[ast.Expr | ast.AnnAssign] = []
 
         target = target_from_node(node)
-        object_class_name = f"{parent}{target.capitalize()}"
+        object_class_name = unique_class_name(
+            f"{parent}{target.capitalize()}", subtree
+        )
 
         if type.description:
             pick_fields.append(ast.Expr(value=ast.Constant(value=type.description)))
diff --git a/turms/utils.py b/turms/utils.py
index 2dfc2bc..db3184d 100644
--- a/turms/utils.py
+++ b/turms/utils.py
@@ -96,6 +96,19 @@ def merge_bases_sequences(
     return merged  # type: ignore
 
 
+def unique_class_name(
+    name: str, subtree: Sequence[ast.AST], suffix: str = ""
+) -> str:
+    """Returns the name, numbered if one of the classes generated before already
+    took it (two selections can lead to the same nested class name)"""
+    taken = {node.name for node in subtree if isinstance(node, ast.ClassDef)}
+    candidate, count = name, 1
+    while candidate + suffix in taken:
+        count += 1
+        candidate = f"{name}{count}"
+    return candidate
+
+
 def target_from_node(node: FieldNode) -> str:
     """Extacts the field name from a FieldNode. If alias is present, it will be used instead of the name"""
     return (
-- 
2.43.0


From 646c9c273e94fc91352a1eedb01dc5e08be4f541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:52 +0000
Subject: [PATCH 30/45] fix: import Field for optional operation arguments

---
 turms/plugins/operations.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turms/plugins/operations.py b/turms/plugins/operations.py
index bd5b1a6..4447bdc 100644
--- a/turms/plugins/operations.py
+++ b/turms/plugins/operations.py
@@ -369,6 +369,7 @@ def generate_operation(
                     )
             else:
                 if is_optional:
+                    registry.register_import("pydantic.Field")
                     assign = ast.AnnAssign(
                         target=ast.Name(field_name, ctx=ast.Store()),
                         annotation=annotation,
-- 
2.43.0


From 1dfa9f12bd880bb86518f35c94f6795b1b4866af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 31/45] fix: define interfaces after the interfaces they
 implement

---
 turms/plugins/objects.py    | 8 ++++++--
 turms/plugins/strawberry.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 1fa36c0..b223179 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -228,8 +228,12 @@ def generate_types(
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            # interfaces first, each after the interfaces it implements
+            key=lambda item: (
+                len(item[1].interfaces)
+                if isinstance(item[1], GraphQLInterfaceType)
+                else float("inf")
+            ),
         )
     }
 
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 8ba983e..be661ea 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -853,8 +853,12 @@ def generate_types(
         k: v
         for k, v in sorted(
             objects.items(),
-            key=lambda item: isinstance(item[1], GraphQLInterfaceType),
-            reverse=True,
+            # interfaces first, each after the interfaces it implements
+            key=lambda item: (
+                len(item[1].interfaces)
+                if isinstance(item[1], GraphQLInterfaceType)
+                else float("inf")
+            ),
         )
     }
     registry.register_import("strawberry")
-- 
2.43.0


From 091396613163e0f6d1fda5ae969c14b5e5695a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 32/45] fix: name interface unions as their references do

---
 turms/plugins/objects.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index b223179..73ca9b9 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -381,7 +381,11 @@ def generate_types(
         registry.register_import("typing.Union")
         tree.append(
             ast.Assign(
-                targets=[ast.Name(id=interface, ctx=ast.Store())],
+                targets=[
+                    ast.Name(
+                        id=registry.style_interface_class(interface), ctx=ast.Store()
+                    )
+                ],
                 value=ast.Subscript(
                     value=ast.Name("Union", ctx=ast.Load()),
                     slice=ast.Tuple(
@@ -411,7 +415,12 @@ def generate_types(
             registry.warn(f"Interface {interface} has no types implementing it")
             tree.append(
                 ast.Assign(
-                    targets=[ast.Name(id=interface, ctx=ast.Store())],
+                    targets=[
+                        ast.Name(
+                            id=registry.style_interface_class(interface),
+                            ctx=ast.Store(),
+                        )
+                    ],
                     value=ast.Name(baseclass, ctx=ast.Load()),
                 )
             )
-- 
2.43.0


From c3b73c85f1deab793151e088bddb3fe48d0712a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:23 +0000
Subject: [PATCH 33/45] fix: interface references admit only concrete types

---
 turms/plugins/objects.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 73ca9b9..f993393 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -267,7 +267,8 @@ def generate_types(
 
         for interface in object_type.interfaces:
             # Populate the Union_classed
-            interface_map.setdefault(interface.name, []).append(classname)
+            if isinstance(object_type, GraphQLObjectType):
+                interface_map.setdefault(interface.name, []).append(classname)
 
             other_interfaces = set(object_type.interfaces) - {interface}
             if not interface_is_extended_by_other_interfaces(
-- 
2.43.0


From f3b76f8b4184fea2aa42a6c55c1128def58a0c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:44 +0000
Subject: [PATCH 34/45] fix: enum members carry the GraphQL value in scaffold
 and introspection enums

---
 turms/plugins/enums.py      |  7 +------
 turms/plugins/strawberry.py | 13 +++++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/turms/plugins/enums.py b/turms/plugins/enums.py
index dc0ea59..8e398e1 100644
--- a/turms/plugins/enums.py
+++ b/turms/plugins/enums.py
@@ -68,11 +68,6 @@ def generate_enums(
         )
 
         for value_key, value in type.values.items():
-            if isinstance(value.value, str):
-                servalue = value.value
-            else:
-                servalue = value.value.value
-
             member_name = str(value_key)
             if iskeyword(member_name) or member_name == "mro":
                 # not allowed as member name, the value stays untouched
@@ -80,7 +75,7 @@ def generate_enums(
 
             assign = ast.Assign(
                 targets=[ast.Name(id=member_name, ctx=ast.Store())],
-                value=ast.Constant(value=servalue),
+                value=ast.Constant(value=str(value_key)),
             )
 
             potential_comment = (
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index be661ea..4236cb5 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -27,6 +27,7 @@ from pydantic_settings import SettingsConfigDict
 
 from turms.plugins.base import Plugin, PluginConfig
 import ast
+from keyword import iskeyword
 from typing import Dict, List, Protocol, runtime_checkable
 from turms.config import GeneratorConfig, ImportableFunctionMixin
 from graphql.utilities.build_client_schema import GraphQLSchema
@@ -322,14 +323,14 @@ def default_generate_enums(
         )
 
         for value_key, value in type.values.items():
-            if isinstance(value.value, str):
-                servalue = value.value
-            else:
-                servalue = value.value.value
+            member_name = str(value_key)
+            if iskeyword(member_name) or member_name == "mro":
+                # not allowed as member name, the value stays untouched
+                member_name += "_"
 
             assign = ast.Assign(
-                targets=[ast.Name(id=str(value_key), ctx=ast.Store())],
-                value=ast.Constant(value=servalue),
+                targets=[ast.Name(id=member_name, ctx=ast.Store())],
+                value=ast.Constant(value=str(value_key)),
             )
 
             potential_comment = (
-- 
2.43.0


From 6c55aa66cbf97b79ac55efaab7293071bc2b7c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 35/45] fix: inherit interfaces in one linearisable order

---
 turms/plugins/objects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index f993393..74fcf86 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -265,7 +265,13 @@ def generate_types(
             classname = registry.generate_interface(key)
             interface_base_map[key] = classname
 
-        for interface in object_type.interfaces:
+        # one order for all classes, so that their bases can be linearised
+        definition_order = list(sorted_objects)
+        for interface in sorted(
+            object_type.interfaces,
+            key=lambda x: definition_order.index(x.name),
+            reverse=True,
+        ):
             # Populate the Union_classed
             if isinstance(object_type, GraphQLObjectType):
                 interface_map.setdefault(interface.name, []).append(classname)
-- 
2.43.0


From 32bf2099411bd1afb454788e9444b248ad338667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 36/45] fix: scaffold directives with enum arguments

---
 turms/plugins/strawberry.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 4236cb5..2fa7be1 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -57,7 +57,7 @@ class StrawberryGenerateFunc(ImportableFunctionMixin, Protocol):
     ) -> List[ast.AST]: ...  # pragma: no cover
 
 
-def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry, is_optional=True):
+def build_directive_type_annotation(value: GraphQLType, parent: str, registry: ClassRegistry, is_optional=True):
 
     if isinstance(value, GraphQLScalarType):
         if is_optional:
@@ -80,13 +80,13 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
             registry.register_import("typing.Optional")
             return ast.Subscript(
                 value=ast.Name("Optional", ctx=ast.Load()),
-                slice=registry.reference_enum(value.name),
+                slice=registry.reference_enum(value.name, parent),
                 ctx=ast.Load(),
             )
 
-        return registry.reference_enum(value.name)
+        return registry.reference_enum(value.name, parent)
     if isinstance(value, GraphQLNonNull):
-        return build_directive_type_annotation(value.of_type, registry, is_optional=False)
+        return build_directive_type_annotation(value.of_type, parent, registry, is_optional=False)
     if isinstance(value, GraphQLList):
         registry.register_import("typing.List")
 
@@ -97,7 +97,7 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
                 value=ast.Name("Optional", ctx=ast.Load()),
                 slice=ast.Subscript(
                     value=ast.Name("List", ctx=ast.Load()),
-                    slice=build_directive_type_annotation(value.of_type, registry, is_optional=True),
+                    slice=build_directive_type_annotation(value.of_type, parent, registry, is_optional=True),
                     ctx=ast.Load(),
                 ),
                 ctx=ast.Load(),
@@ -105,7 +105,7 @@ def build_directive_type_annotation(value: GraphQLType, registry: ClassRegistry,
 
         return ast.Subscript(
             value=ast.Name("List", ctx=ast.Load()),
-            slice=build_directive_type_annotation(value.of_type, registry, is_optional=True),
+            slice=build_directive_type_annotation(value.of_type, parent, registry, is_optional=True),
             ctx=ast.Load(),
         )
     if isinstance(value, GraphQLInputObjectType):
@@ -251,7 +251,7 @@ def default_generate_directives(
                 target=ast.Name(
                     id=registry.generate_node_name(value_key), ctx=ast.Store()
                 ),
-                annotation=build_directive_type_annotation(type, registry),
+                annotation=build_directive_type_annotation(type, directive.name, registry),
                 value=field_value,
                 simple=1,
             )
-- 
2.43.0


From 323c549b015f506ffaa4bb2415fa22348959d4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 37/45] fix: scaffold directive arguments as values of their
 type

---
 turms/plugins/strawberry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 2fa7be1..1652075 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -121,14 +121,14 @@ def convert_valuenode_to_ast(value: ConstValueNode):
     if isinstance(value, StringValueNode):
         return ast.Constant(value=value.value)
     if isinstance(value, IntValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=int(value.value))
     if isinstance(value, FloatValueNode):
-        return ast.Constant(value=value.value)
+        return ast.Constant(value=float(value.value))
     if isinstance(value, BooleanValueNode):
         return ast.Constant(value=value.value)
 
     if isinstance(value, EnumValueNode):
-        return ast.Constant(value=value)
+        return ast.Constant(value=value.value)
     if isinstance(value, ListValueNode):
         return ast.List(elts=[convert_valuenode_to_ast(x) for x in value.values], ctx=ast.Load())
     if isinstance(value, ObjectValueNode):
@@ -137,7 +137,7 @@ def convert_valuenode_to_ast(value: ConstValueNode):
         values = []
 
         for field in value.fields:
-            keys.append(field.name.value)
+            keys.append(ast.Constant(value=field.name.value))
             values.append(convert_valuenode_to_ast(field.value))
 
         return ast.Dict(
-- 
2.43.0


From 21e5df64d29a2c9f0ba9a773e40669424294bf84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 38/45] fix: nullable scaffold arguments with default are
 optional

---
 turms/plugins/strawberry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 1652075..4a2382b 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -967,7 +967,7 @@ def generate_types(
                                 config,
                                 plugin_config,
                                 registry=registry,
-                                is_optional=arg.default_value == Undefined,
+                                is_optional=True,
                             ),
                         )
                     )
-- 
2.43.0


From 56a79256e7ca7b34e44b910ef3f7e886c90922ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 39/45] fix: generate_scalars switches scaffold scalars

---
 turms/plugins/strawberry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 4a2382b..f72eed4 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -1191,7 +1191,7 @@ class StrawberryPlugin(Plugin):
 
         scalars = (
             generate_scalars(client_schema, config, self.config, registry)
-            if self.config.generate_directives
+            if self.config.generate_scalars
             else []
         )
 
-- 
2.43.0


From 2b33eae98cebca1895356f11695482133f1c08a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:29 +0000
Subject: [PATCH 40/45] fix: renamed scaffold fields and arguments keep their
 GraphQL name

---
 turms/plugins/strawberry.py | 101 +++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 43 deletions(-)

diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index f72eed4..2331a23 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -153,6 +153,13 @@ def convert_valuenode_to_ast(value: ConstValueNode):
 
 
 
+def generate_name_keywords(python_name: str, graphql_name: str):
+    """Keeps the GraphQL name of a field or argument that was renamed"""
+    if python_name == graphql_name:
+        return []
+    return [ast.keyword(arg="name", value=ast.Constant(value=graphql_name))]
+
+
 def default_generate_directives(
     client_schema: GraphQLSchema,
     config: GeneratorConfig,
@@ -219,38 +226,29 @@ def default_generate_directives(
 
 
             field_value = None
+            field_name = registry.generate_node_name(value_key)
+            field_keywords = generate_name_keywords(field_name, value_key)
 
             if default:
                 if needs_factory:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default_factory",
-                                value=ast.Lambda(
-                                    args=[], body=default
-                                ),
-                            ),
-                        ],
-                        args=[],
+                    field_keywords.append(
+                        ast.keyword(
+                            arg="default_factory",
+                            value=ast.Lambda(args=[], body=default),
+                        )
                     )
                 else:
-                    field_value = ast.Call(
-                        func=ast.Name(id="strawberry.field", ctx=ast.Load()),
-                        keywords=[
-                            ast.keyword(
-                                arg="default",
-                                value=default,
-                            ),
-                        ],
-                        args=[],
-                    )
+                    field_keywords.append(ast.keyword(arg="default", value=default))
 
+            if field_keywords:
+                field_value = ast.Call(
+                    func=ast.Name(id="strawberry.field", ctx=ast.Load()),
+                    keywords=field_keywords,
+                    args=[],
+                )
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    id=registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(id=field_name, ctx=ast.Store()),
                 annotation=build_directive_type_annotation(type, directive.name, registry),
                 value=field_value,
                 simple=1,
@@ -767,7 +765,8 @@ def generate_inputs(
         for value_key, value in type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            field_name = registry.generate_node_name(value_key)
+            keywords = generate_name_keywords(field_name, value_key)
             if value.description:
                 keywords.append(
                     ast.keyword(
@@ -797,9 +796,7 @@ def generate_inputs(
                 assign_value = None
 
             assign = ast.AnnAssign(
-                target=ast.Name(
-                    registry.generate_node_name(value_key), ctx=ast.Store()
-                ),
+                target=ast.Name(field_name, ctx=ast.Store()),
                 annotation=recurse_argument_annotation(
                     value.type,
                     name,
@@ -927,7 +924,8 @@ def generate_types(
         for value_key, value in object_type.fields.items():
             value: GraphQLField
 
-            keywords = []
+            field_name = registry.generate_node_name(value_key)
+            keywords = generate_name_keywords(field_name, value_key)
 
             if value.description:
                 keywords.append(
@@ -958,18 +956,37 @@ def generate_types(
                 }
 
                 for argkey, arg in sorted_args.items():
-                    additional_args.append(
-                        ast.arg(
-                            arg=registry.generate_parameter_name(argkey),
-                            annotation=recurse_argument_annotation(
-                                arg.type,
-                                classname,
-                                config,
-                                plugin_config,
-                                registry=registry,
-                                is_optional=True,
+                    arg_name = registry.generate_parameter_name(argkey)
+                    annotation = recurse_argument_annotation(
+                        arg.type,
+                        classname,
+                        config,
+                        plugin_config,
+                        registry=registry,
+                        is_optional=True,
+                    )
+                    name_keywords = generate_name_keywords(arg_name, argkey)
+                    if name_keywords:
+                        registry.register_import("typing.Annotated")
+                        annotation = ast.Subscript(
+                            value=ast.Name(id="Annotated", ctx=ast.Load()),
+                            slice=ast.Tuple(
+                                elts=[
+                                    annotation,
+                                    ast.Call(
+                                        func=ast.Name(
+                                            id="strawberry.argument", ctx=ast.Load()
+                                        ),
+                                        args=[],
+                                        keywords=name_keywords,
+                                    ),
+                                ],
+                                ctx=ast.Load(),
                             ),
+                            ctx=ast.Load(),
                         )
+                    additional_args.append(
+                        ast.arg(arg=arg_name, annotation=annotation)
                     )
 
                     if arg.default_value != Undefined:
@@ -1008,9 +1025,7 @@ def generate_types(
 
                 # lets create a simple field
                 assign = ast.AnnAssign(
-                    target=ast.Name(
-                        registry.generate_node_name(value_key), ctx=ast.Store()
-                    ),
+                    target=ast.Name(field_name, ctx=ast.Store()),
                     annotation=returns,
                     value=assign_value,
                     simple=1,
@@ -1046,7 +1061,7 @@ def generate_types(
                 )
 
                 assign = function_def(
-                    name=registry.generate_node_name(value_key),
+                    name=field_name,
                     returns=returns,
                     args=ast.arguments(
                         args=[ast.arg(arg="self")] + additional_args,
-- 
2.43.0


From 5cfe6ca4186a0199a758f0df840263463b034bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:16 +0000
Subject: [PATCH 41/45] fix: additional bases follow the interface bases that
 may share them

---
 turms/plugins/objects.py    | 7 +++++--
 turms/plugins/strawberry.py | 6 ++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/turms/plugins/objects.py b/turms/plugins/objects.py
index 74fcf86..2349d24 100644
--- a/turms/plugins/objects.py
+++ b/turms/plugins/objects.py
@@ -265,6 +265,7 @@ def generate_types(
             classname = registry.generate_interface(key)
             interface_base_map[key] = classname
 
+        interface_bases = []
         # one order for all classes, so that their bases can be linearised
         definition_order = list(sorted_objects)
         for interface in sorted(
@@ -280,7 +281,7 @@ def generate_types(
             if not interface_is_extended_by_other_interfaces(
                 interface, other_interfaces
             ):
-                additional_bases.append(
+                interface_bases.append(
                     ast.Name(
                         id=registry.inherit_interface(interface.name),
                         ctx=ast.Load(),
@@ -372,7 +373,9 @@ def generate_types(
         tree.append(
             ast.ClassDef(
                 classname,
-                bases=additional_bases
+                # interfaces may share the additional bases, so these come later (MRO)
+                bases=interface_bases
+                + additional_bases
                 + [
                     ast.Name(id=base.split(".")[-1], ctx=ast.Load())
                     for base in plugin_config.types_bases
diff --git a/turms/plugins/strawberry.py b/turms/plugins/strawberry.py
index 2331a23..d7e8a82 100644
--- a/turms/plugins/strawberry.py
+++ b/turms/plugins/strawberry.py
@@ -900,6 +900,7 @@ def generate_types(
         else:
             decorator = ast.Name(id=decorator_name, ctx=ast.Load())
 
+        interface_bases = []
         for interface in object_type.interfaces:
             # Populate the Union_classed
             interface_map.setdefault(interface.name, []).append(classname)
@@ -908,7 +909,7 @@ def generate_types(
             if not interface_is_extended_by_other_interfaces(
                 interface, other_interfaces
             ):
-                additional_bases.append(
+                interface_bases.append(
                     ast.Name(
                         id=registry.inherit_interface(interface.name),
                         ctx=ast.Load(),
@@ -1079,7 +1080,8 @@ def generate_types(
         tree.append(
             ast.ClassDef(
                 classname,
-                bases=additional_bases,
+                # interfaces may share the additional bases, so these come later (MRO)
+                bases=interface_bases + additional_bases,
                 decorator_list=[decorator],
                 keywords=[],
                 body=fields
-- 
2.43.0


From 27dd4d330ed8ee72be1d073e7fc20eb2cae0141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 42/45] fix: import object bases of nested models and extend
 union fragment members

---
 turms/plugins/fragments.py | 3 +--
 turms/recurse.py           | 6 ++++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/turms/plugins/fragments.py b/turms/plugins/fragments.py
index e6c7117..a79b3fa 100644
--- a/turms/plugins/fragments.py
+++ b/turms/plugins/fragments.py
@@ -500,8 +500,6 @@ def generate_fragment(
 
     elif isinstance(type, GraphQLUnionType):
         base_fragment_name = registry.style_fragment_class(f.name.value)
-        additional_bases = get_additional_bases_for_type(type.name, config, registry)
-
         sub_nodes = non_typename_fields(f)
 
         mother_class_name = base_fragment_name  # + "Base"
@@ -585,6 +583,7 @@ def generate_fragment(
                 class_name,
                 bases=merge_bases_sequences(
                     ast_base_nodes,
+                    get_additional_bases_for_type(i.name, config, registry),
                     get_fragment_bases("UNION", config, plugin_config, registry),
                 ),
                 decorator_list=[],
diff --git a/turms/recurse.py b/turms/recurse.py
index 021a8fe..aa7b98a 100644
--- a/turms/recurse.py
+++ b/turms/recurse.py
@@ -157,6 +157,9 @@ def recurse_annotation(
                         sub_node.type_condition.name.value, config, registry
                     )
 
+                for base in config.object_bases:
+                    registry.register_import(base)
+
                 config_bases = [
                     ast.Name(id=base.split(".")[-1], ctx=ast.Load())
                     for base in config.object_bases
@@ -566,6 +569,9 @@ def recurse_annotation(
             if isinstance(sub_node, InlineFragmentNode):
                 raise NotImplementedError("Inline Fragments are not yet implemented")
 
+        for base in config.object_bases:
+            registry.register_import(base)
+
         if not additional_bases:
             # We need to add the base class if we have no fragments
             additional_bases = get_additional_bases_for_type(
-- 
2.43.0


From 2234cee308f61dd1ff8a23912bc0622a247fb259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:50 +0000
Subject: [PATCH 43/45] fix: escape project names and error messages on the
 console

An error message or project name with square brackets was read as console
markup; the markup error ended the run before the remaining projects.
---
 turms/cli/main.py | 15 +++++++++------
 turms/run.py      |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/turms/cli/main.py b/turms/cli/main.py
index 0556907..4586bb2 100644
--- a/turms/cli/main.py
+++ b/turms/cli/main.py
@@ -7,6 +7,7 @@ import yaml
 from turms.config import GraphQLProject
 from turms.run import generate, write_code_to_file, write_project, write_schema_to_file
 from rich import get_console
+from rich.markup import escape
 from rich.panel import Panel
 from rich.live import Live
 from rich.tree import Tree
@@ -198,7 +199,9 @@ def build_default_settings(template: str = "documents") -> str:
 
 
 def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms"):
-    generation_message = f"Generating the {'.'.join(projects.keys())} projects. This may take a while...\n"
+    generation_message = escape(
+        f"Generating the {'.'.join(projects.keys())} projects. This may take a while...\n"
+    )
 
     tree = Tree("Generating projects", style="bold green")
     panel_group = Group(generation_message, tree)
@@ -215,18 +218,18 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
 
     with Live(panel, screen=False) as live:
         for key, project in projects.items():
-            project_tree = Tree(f"{key}", style="not bold white")
+            project_tree = Tree(escape(key), style="not bold white")
             tree.add(project_tree)
             live.update(panel)
 
             def log(message: str, level: str = "INFO"):
                 if level == "WARN":
-                    project_tree.add(Tree(message, style="yellow"))
+                    project_tree.add(Tree(escape(message), style="yellow"))
 
             try:
                 generated_code, schema = generate(project, log=log)
 
-                project_tree.label = f"{key} ✔️"
+                project_tree.label = f"{escape(key)} ✔️"
                 live.update(panel)
 
                 write_code_to_file(
@@ -251,8 +254,8 @@ def generate_projects(projects: Dict[str, GraphQLProject], title: str = "Turms")
 
             except Exception as e:
                 project_tree.style = "red"
-                project_tree.label = f"{key} 💥"
-                project_tree.add(Tree(str(e), style="red"))
+                project_tree.label = f"{escape(key)} 💥"
+                project_tree.add(Tree(escape(str(e)), style="red"))
                 if project.extensions.turms.exit_on_error:
                     raised_exceptions.append(e)
                 live.update(panel)
diff --git a/turms/run.py b/turms/run.py
index 2ed5020..2ccaa4a 100644
--- a/turms/run.py
+++ b/turms/run.py
@@ -12,6 +12,7 @@ from graphql import (
 )
 from pydantic import ValidationError
 from rich import get_console
+from rich.markup import escape
 
 from turms.config import (
     GeneratorConfig,
@@ -240,7 +241,7 @@ def gen(
     for key, project in projects.items():
         try:
             get_console().print(
-                f"-------------- Generating project: {key} --------------"
+                f"-------------- Generating project: {escape(key)} --------------"
             )
 
             generated_code, schema = generate(project)
@@ -268,7 +269,7 @@ def gen(
             get_console().print("Sucessfull!! :right-facing_fist::left-facing_fist:")
         except Exception as e:
             get_console().print(
-                "-------- ERROR FOR PROJECT: " + key.upper() + " --------"
+                "-------- ERROR FOR PROJECT: " + escape(key.upper()) + " --------"
             )
             get_console().print_exception()
             if strict:
-- 
2.43.0


From 59b8109e0b45895b21669c88375f8f97af146228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:06 +0000
Subject: [PATCH 44/45] fix: merge into classes written on one line

Merging new members into 'class X: ...' failed with an AttributeError.
---
 turms/processors/merge.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 9ea1b2e..8a673f0 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -54,6 +54,12 @@ def merge_class(generated: cst.ClassDef, existing: cst.ClassDef):
                 body_symbols[x] = node
 
     existing_indented_block = existing.body
+    if isinstance(existing_indented_block, cst.SimpleStatementSuite):
+        # class X: ... on one line, cannot take additional members
+        existing_indented_block = cst.IndentedBlock(
+            body=[cst.SimpleStatementLine(body=existing_indented_block.body)],
+            header=existing_indented_block.trailing_whitespace,
+        )
 
     new_body = []
 
-- 
2.43.0


From 99c782a27caf8dda63163657af8de77b7e66c97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 45/45] fix: merging the same output again adds no blank lines

The lines above the first statement belong to the header of the existing
module; a generated function merged into the first statement added its own
on every run.
---
 turms/processors/merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turms/processors/merge.py b/turms/processors/merge.py
index 8a673f0..fbf71e1 100644
--- a/turms/processors/merge.py
+++ b/turms/processors/merge.py
@@ -226,6 +226,10 @@ def merge_code(old_code: str, new_code: str, config: MergeProcessorConfig):
         for missingkey in missing_symbols:
             updated_body.append(symbols[missingkey])
 
+    if updated_body and isinstance(updated_body[0], cst.FunctionDef):
+        # the lines above the first statement belong to the module header
+        updated_body[0] = updated_body[0].with_changes(leading_lines=[])
+
     # keeps the comments around the code of the existing module
     md = existing_module.with_changes(body=updated_body)
 
-- 
2.43.0

