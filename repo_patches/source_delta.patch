From ce06333e0ed2899c4e0f49df50d37cb422516d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:11 +0000
Subject: [PATCH 01/22] fix: reject circular imports and self-referential types
 instead of looping forever

generate-cfs/-c/-binary never terminated on modules importing each other and
on types defined in terms of themselves (the sorting loops wait for a
dependency that never becomes available), generate-cosmos ended in a
RecursionError.
---
 .../asn1/validation/asn1_bundle_validator.py  | 57 ++++++++++++++++++-
 1 file changed, 56 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 97e948c..b0f4408 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -1,8 +1,11 @@
-from typing import List, Union, Dict
+from typing import List, Union, Dict, Set
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
+from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
+from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
+from asn1_parser.asn1.grammar_elements.sequence import Sequence
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -35,6 +38,7 @@ class ASN1BundleValidator:
     def validate_bundle(bundle: ASN1Bundle) -> None:
         ASN1BundleValidator._check_imported_types_and_check_components(bundle)
         ASN1BundleValidator._check_bundle_for_duplicate_definitions(bundle)
+        ASN1BundleValidator._check_circular_dependencies(bundle)
 
     @staticmethod
     def _check_imported_types_and_check_components(bundle: ASN1Bundle) -> None:
@@ -101,6 +105,57 @@ class ASN1BundleValidator:
                         definition.get_type_name()
                     ] = module.get_module_name()
 
+    @staticmethod
+    def _check_circular_dependencies(bundle: ASN1Bundle) -> None:
+        # Neither the modules nor the types can be put into a "defined before
+        # used" order when they depend on each other.
+        module_imports: Dict[str, List[str]] = {
+            module.get_module_name(): [
+                item.get_module_name() for item in module.get_import_items()
+            ]
+            for module in bundle.get_modules()
+        }
+        cycle = ASN1BundleValidator._find_cycle(module_imports)
+        if cycle:
+            raise ASN1ConsistencyError(
+                f"The modules import each other: {' -> '.join(cycle)}"
+            )
+
+        used_types: Dict[str, List[str]] = {}
+        for module in bundle.get_modules():
+            for definition in module.get_definitions():
+                children: List[KeyTypePair] = []
+                if isinstance(definition, (Sequence, Choice)):
+                    children = definition.get_children()
+                used_types[definition.get_type_name()] = [
+                    child.get_asn_type().get_type_name() for child in children
+                ]
+        cycle = ASN1BundleValidator._find_cycle(used_types)
+        if cycle:
+            raise ASN1ConsistencyError(
+                f"The type {cycle[0]} is defined in terms of itself: "
+                f"{' -> '.join(cycle)}"
+            )
+
+    @staticmethod
+    def _find_cycle(graph: Dict[str, List[str]]) -> List[str]:
+        done: Set[str] = set()
+        for start in graph:
+            path: List[str] = [start]
+            pending: List[List[str]] = [list(graph[start])]
+            while path:
+                if not pending[-1]:
+                    pending.pop()
+                    done.add(path.pop())
+                    continue
+                successor = pending[-1].pop(0)
+                if successor in path:
+                    return path[path.index(successor) :] + [successor]
+                if successor in graph and successor not in done:
+                    path.append(successor)
+                    pending.append(list(graph[successor]))
+        return []
+
     @staticmethod
     def check_missing_modules(
         config: Union[
-- 
2.43.0


From 5c689abc98b649d6e1febdf9dd9084cbc6b559bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:49 +0000
Subject: [PATCH 02/22] fix: name modules and types in error messages in a
 fixed order

The lists came from sets, so the same mistake was reported differently from
one run to the next (hash randomisation).
---
 asn1_parser/asn1/asn1_bundle_builder.py              | 6 +++---
 asn1_parser/asn1/validation/asn1_bundle_validator.py | 6 +++---
 asn1_parser/generators/cosmos/generator.py           | 4 +++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index c1f6c8a..083a2fb 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -134,7 +134,7 @@ class ASN1BundleBuilder:
                 if missing:
                     raise SyntaxError(
                         f"Module '{module_name}' uses "
-                        f"undeclared dependencies {missing}"
+                        f"undeclared dependencies {sorted(missing)}"
                     )
                 for dependency in dependencies:
                     module.add_imported_module(asn_models[dependency][0])
@@ -175,7 +175,7 @@ class ASN1BundleBuilder:
         ]
 
         counts = Counter(module_names_list)
-        duplicate_modules = list(
+        duplicate_modules = sorted(
             set(
                 module_name
                 for module_name in module_names_list
@@ -194,7 +194,7 @@ class ASN1BundleBuilder:
             )
 
         counts = Counter(config.asn1_modules)
-        duplicate_modules = list(
+        duplicate_modules = sorted(
             set(
                 module_name
                 for module_name in config.asn1_modules
diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index b0f4408..1bb9d1c 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -62,7 +62,7 @@ class ASN1BundleValidator:
                 if undefined:
                     raise ASN1ConsistencyError(
                         f"Error parsing '{asn_module.get_module_name()}': "
-                        + f"Imports {undefined} From "
+                        + f"Imports {sorted(undefined)} From "
                         + f"'{imported_module.get_module_name()}' not found."
                     )
 
@@ -165,7 +165,7 @@ class ASN1BundleValidator:
         ],
         bundle: ASN1Bundle,
     ) -> None:
-        asn1_module_names_bundle_not_in_config: List[str] = list(
+        asn1_module_names_bundle_not_in_config: List[str] = sorted(
             set(bundle.get_modules_names()) - set(config.asn1_modules)
         )
         missing_modules_in_config = len(asn1_module_names_bundle_not_in_config)
@@ -183,7 +183,7 @@ class ASN1BundleValidator:
                 f"{literal_plurality} found in bundle, but {literal_plurality} "
                 f"not found in the --asn1-modules command-line argument."
             )
-        asn1_module_names_config_not_in_bundle: List[str] = list(
+        asn1_module_names_config_not_in_bundle: List[str] = sorted(
             set(config.asn1_modules) - set(bundle.get_modules_names())
         )
         missing_modules_in_bundle = len(asn1_module_names_config_not_in_bundle)
diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 9a25552..4ad8fa5 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -64,7 +64,9 @@ class COSMOSGenerator:
         # check for undefined types
         undefined = set(types_to_generate) - set(definitions_dict.keys())
         if undefined:
-            raise Exception(f"can not generate undefined types: {undefined}")
+            raise Exception(
+                f"can not generate undefined types: {sorted(undefined)}"
+            )
 
         # generate a COSMOS packet for each selected definition
         for definition_name in types_to_generate:
-- 
2.43.0


From 11391ae65b4841e24d273ebc9c1d9f44088277a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:03 +0000
Subject: [PATCH 03/22] fix: do not print object addresses when a COSMOS
 message is not a SEQUENCE

---
 asn1_parser/generators/cosmos/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 4ad8fa5..882db8a 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -245,7 +245,9 @@ class COSMOSGenerator:
                 "CHOICE currently can't be converted into COSMOS"
             )
         else:
-            raise Exception(f"unknown '{definition}' processing")
+            raise Exception(
+                f"unknown '{definition.get_type_name()}' processing"
+            )
 
     @classmethod
     def _get_definitions_recurs(
-- 
2.43.0


From 8e3fc30b7b622aa12eb962c8de75d1794431e0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:16 +0000
Subject: [PATCH 04/22] fix: overwrite the COSMOS file instead of appending to
 an earlier one

A second run (after an edit, or after a run that was killed half-way) left the
old, possibly torn packet definitions in front of the new ones.
---
 asn1_parser/generators/cosmos/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 882db8a..f42cc79 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -110,7 +110,7 @@ class COSMOSGenerator:
         if not os.path.isdir(output_folder):
             pathlib.Path(output_folder).mkdir(parents=True, exist_ok=True)
 
-        with open(file=output_filepath, mode="a", encoding="utf-8") as out:
+        with open(file=output_filepath, mode="w", encoding="utf-8") as out:
             out.write("# This file was autogenerated from ASN.1 model.\n")
 
             for pkt in telemetry_packets:
-- 
2.43.0


From 7812e148368d257d418d5cd625bbd50a1dca8f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:43 +0000
Subject: [PATCH 05/22] fix: a BOOLEAN without a fixed value is not a COSMOS ID
 item

Every BOOLEAN that WITH COMPONENTS leaves open became an ID item with value 0,
so COSMOS recognised only the packets in which it happened to be FALSE.
---
 asn1_parser/generators/cosmos/templates.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/templates.py b/asn1_parser/generators/cosmos/templates.py
index 7164131..3463b45 100644
--- a/asn1_parser/generators/cosmos/templates.py
+++ b/asn1_parser/generators/cosmos/templates.py
@@ -62,7 +62,7 @@ def cosmos_telemetry(
             cos_type = "UINT"
             if specific_value == "True":
                 specific_value = "1"
-            else:
+            elif specific_value == "False":
                 specific_value = "0"
         elif cosmos_type == TypeEnum.A_DOUBLE:
             # change c_double to FLOAT
-- 
2.43.0


From 7453902f5b8c8dae9e499ab45ac3d6c4eb851088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:56 +0000
Subject: [PATCH 06/22] fix: do not carry fixed values of one COSMOS packet
 over to the next

The list of components of the parsed model was extended in place.
---
 asn1_parser/generators/cosmos/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index f42cc79..be3b959 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -133,7 +133,7 @@ class COSMOSGenerator:
                 with_components: WithComponents = seq_item.get_with_components()
                 components_list: List[ComponentsItem] = []
                 if with_components:
-                    components_list = with_components.get_components()
+                    components_list = list(with_components.get_components())
                 specific_value: str = ""
                 # go through WITH COMPONENTS
                 if with_comp:
-- 
2.43.0


From 833c180162c8266a4a65f7ff2cb3d55d81632116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:08 +0000
Subject: [PATCH 07/22] fix: give signed integers a C type of their own width

A signed INTEGER became a C int whatever its range, so its size in the struct
differed from the one in the COSMOS and binary artefacts (8, 16, 32, 64 bit).
---
 asn1_parser/generators/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 6573cd1..560e7a1 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -67,7 +67,7 @@ class Generator:
                 next_bit_size = next_bit_size + 1
                 mod = math.log(next_bit_size, 2)
             valid_c_type = c_type.value.lower()
-            if valid_c_type == "uint":
+            if valid_c_type in ("uint", "int"):
                 if (
                     valid_c_type + str(next_bit_size) + "_t"
                 ) in cls._POSIX_DEFINED_TYPES:
-- 
2.43.0


From a282abe4bd9546256f71f8c4c5acfe830a2d126f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:20 +0000
Subject: [PATCH 08/22] fix: include the header of an imported module by its
 file name

generate-c and generate-binary left the .h out, so the header of a module with
imports did not compile.
---
 asn1_parser/generators/binary/generator.py | 2 +-
 asn1_parser/generators/c/generator.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 969e740..23b153c 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -107,7 +107,7 @@ class BinaryGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 74ed97d..7472726 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -62,7 +62,7 @@ class CGenerator(Generator):
                 module_cdata.add_include(
                     str(
                         cgen.Include(
-                            cls.get_filename(module_imported_item),
+                            cls.get_filename(module_imported_item) + ".h",
                             system=False,
                         )
                     )
-- 
2.43.0


From 67762e6266e2761493d9075b4146eadda1e8d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:50 +0000
Subject: [PATCH 09/22] fix: treat a named BOOLEAN like one that is written out

It became a C bool without a header that defines it and eight times the size of
the COSMOS item, which in turn lacked the states.
---
 asn1_parser/generators/cosmos/generator.py | 2 ++
 asn1_parser/generators/generator.py        | 5 +++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index be3b959..5062b53 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -188,6 +188,8 @@ class COSMOSGenerator:
                         c_type = inner_definition.get_asn_type().get_c_type()
                         begin = inner_definition.get_asn_type().get_begin()
                         end = inner_definition.get_asn_type().get_end()
+                        if c_type == TypeEnum.A_BOOL:
+                            state_list = ["False", "True"]
                     elif isinstance(inner_definition, Enumerated):
                         # if it is an enumerated do not start a recursion but
                         # resolve the data
diff --git a/asn1_parser/generators/generator.py b/asn1_parser/generators/generator.py
index 560e7a1..90256e5 100644
--- a/asn1_parser/generators/generator.py
+++ b/asn1_parser/generators/generator.py
@@ -42,8 +42,9 @@ class Generator:
         is_stdbool_needed = False
         is_stdint_needed = False
 
-        if valid_c_type in ["INTEGER", "REAL"] or isinstance(
-            definition, SimpleDefinition
+        if valid_c_type in ["INTEGER", "REAL"] or (
+            isinstance(definition, SimpleDefinition)
+            and valid_c_type != "BOOLEAN"
         ):
             c_type: Optional[TypeEnum] = definition.get_asn_type().get_c_type()
             if c_type is None:
-- 
2.43.0


From ec5762e0007707d3cf4b3462ea21a66bbeb8e5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:09 +0000
Subject: [PATCH 10/22] fix: reject enumeration positions that cancel out to
 zero

Positions such as (1), (-1) were taken for "no positions given" and silently
renumbered.
---
 asn1_parser/asn1/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index c3bdd7c..10fb18b 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -270,7 +270,7 @@ def check_comment(model: Asn1Comment) -> None:
 
 def check_enumerated(model: Enumerated) -> None:
     pos_sum = sum([e.get_pos() for e in model.get_enum()])
-    if pos_sum == 0:
+    if all(e.get_pos() == 0 for e in model.get_enum()):
         # write position into object, when no positions are given
         pos = 0
         for enum in model.get_enum():
-- 
2.43.0


From 136a84d522960f6a84b4ddc6abad3aeab93e7c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:46 +0000
Subject: [PATCH 11/22] fix: reject a simple definition that uses an undefined
 type before generating

---
 asn1_parser/asn1/processor.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 10fb18b..09c350a 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -65,14 +65,16 @@ def model_processor_check_used_types_defined(
 
     defined_types: List[str] = _check_types_once_defined(model)
     for definition in model.get_definitions():
-        key_type_pair_list: List[KeyTypePair] = []
+        users: List[Union[KeyTypePair, SimpleDefinition]] = []
         if isinstance(definition, (Sequence, Choice)):
-            key_type_pair_list = definition.get_children()
+            users = definition.get_children()
+        elif isinstance(definition, SimpleDefinition):
+            users = [definition]
         else:
             pass
 
-        for key_type_pair in key_type_pair_list:
-            type_name: str = key_type_pair.get_asn_type().get_type_name()
+        for user in users:
+            type_name: str = user.get_asn_type().get_type_name()
             if isinstance(type_name, str):
                 if type_name not in defined_types:
                     module = model.get_module_name()
-- 
2.43.0


From 8835c17a664a71c7f42bdafb3751d537660130f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:03 +0000
Subject: [PATCH 12/22] fix: reject simple definitions that are circular before
 generating

---
 asn1_parser/asn1/validation/asn1_bundle_validator.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/asn1_parser/asn1/validation/asn1_bundle_validator.py b/asn1_parser/asn1/validation/asn1_bundle_validator.py
index 1bb9d1c..21cd0ee 100644
--- a/asn1_parser/asn1/validation/asn1_bundle_validator.py
+++ b/asn1_parser/asn1/validation/asn1_bundle_validator.py
@@ -6,6 +6,7 @@ from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.definitions import Definitions
 from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
 from asn1_parser.asn1.grammar_elements.sequence import Sequence
+from asn1_parser.asn1.grammar_elements.simple_definition import SimpleDefinition
 from asn1_parser.asn1.processor import (
     model_processor_check_used_components_defined,
 )
@@ -124,11 +125,13 @@ class ASN1BundleValidator:
         used_types: Dict[str, List[str]] = {}
         for module in bundle.get_modules():
             for definition in module.get_definitions():
-                children: List[KeyTypePair] = []
+                users: List[Union[KeyTypePair, SimpleDefinition]] = []
                 if isinstance(definition, (Sequence, Choice)):
-                    children = definition.get_children()
+                    users = definition.get_children()
+                elif isinstance(definition, SimpleDefinition):
+                    users = [definition]
                 used_types[definition.get_type_name()] = [
-                    child.get_asn_type().get_type_name() for child in children
+                    user.get_asn_type().get_type_name() for user in users
                 ]
         cycle = ASN1BundleValidator._find_cycle(used_types)
         if cycle:
-- 
2.43.0


From 1229af72a3c1720809cdcd736db3987067e92e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:16 +0000
Subject: [PATCH 13/22] fix: reject duplicate module names in generate-cosmos
 too

---
 asn1_parser/asn1/asn1_bundle_builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/asn1_parser/asn1/asn1_bundle_builder.py b/asn1_parser/asn1/asn1_bundle_builder.py
index 083a2fb..5398e25 100644
--- a/asn1_parser/asn1/asn1_bundle_builder.py
+++ b/asn1_parser/asn1/asn1_bundle_builder.py
@@ -66,6 +66,7 @@ class ASN1BundleBuilder:
             *config.input_paths
         )
 
+        ASN1BundleBuilder._validate_unique_module_names(modules, config)
         bundle = ASN1BundleBuilder.build(modules)
         ASN1BundleValidator.validate_bundle(bundle)
 
@@ -166,6 +167,7 @@ class ASN1BundleBuilder:
             GenerateCFSCommandConfig,
             GenerateBinaryCommandConfig,
             GenerateCCommandConfig,
+            GenerateCosmosCommandConfig,
         ],
     ) -> None:
         error_message: str = ""
-- 
2.43.0


From 1ec62ac0f42537c7c96a670f6db0b648171e528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:19 +0000
Subject: [PATCH 14/22] fix: search each imported module once for a COSMOS type

With n layers of modules that all import the layer below, the definition of
every type was searched on 2^n paths and generate-cosmos practically did not
end.
---
 asn1_parser/generators/cosmos/generator.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index 5062b53..e0234b0 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -1,6 +1,6 @@
 import os
 import pathlib
-from typing import List, Optional, Any
+from typing import List, Optional, Any, Set
 
 from asn1_parser.asn1.asn1_bundle import ASN1Bundle
 from asn1_parser.asn1.grammar_elements.array import Array
@@ -253,8 +253,20 @@ class COSMOSGenerator:
 
     @classmethod
     def _get_definitions_recurs(
-        cls, type_name: str, asn1_model: Optional[Asn1Module]
+        cls,
+        type_name: str,
+        asn1_model: Optional[Asn1Module],
+        searched: Optional[Set[str]] = None,
     ) -> List[Definitions]:
+        # a module can be imported on many ways, but is searched only once
+
+        if searched is None:
+            searched = set()
+        if asn1_model is not None:
+            if asn1_model.get_module_name() in searched:
+                return []
+            searched.add(asn1_model.get_module_name())
+
         # search for the definition in current module
 
         module_definitions: List[Definitions] = []
@@ -266,7 +278,7 @@ class COSMOSGenerator:
         if asn1_model is not None:
             imported_definitions = flatten(
                 [
-                    cls._get_definitions_recurs(type_name, module)
+                    cls._get_definitions_recurs(type_name, module, searched)
                     for module in asn1_model.get_imported_modules()
                 ]
             )
-- 
2.43.0


From 375d9bc6c753550223dd5ab27ae2cc98a7b6a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:43:25 +0000
Subject: [PATCH 15/22] fix: keep the include of the header in the C source

A definition without fixed values that follows one with fixed values dropped
the include, and the generated C source did not compile.
---
 asn1_parser/c_data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/c_data.py b/asn1_parser/c_data.py
index be0cfb7..b3ebcf3 100644
--- a/asn1_parser/c_data.py
+++ b/asn1_parser/c_data.py
@@ -80,7 +80,8 @@ class CData:
         self._init_list.extend(other_cdata.get_init_list())
         self._init_list_predef.extend(other_cdata.get_init_list_predef())
         # TODO one init_include per file?
-        self.set_init_include(other_cdata.get_init_include())
+        if other_cdata.get_init_include():
+            self.set_init_include(other_cdata.get_init_include())
         self.set_stdbool_if_needed(other_cdata.is_stdbool_needed())
         self.set_stdint_if_needed(other_cdata.is_stdint_needed())
         # TODO prevent overriding existing keys
-- 
2.43.0


From 228017e14c608282607e28380c77aa90680ec582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:05 +0000
Subject: [PATCH 16/22] fix: write the whole struct, in its order, to the
 binary file

---
 asn1_parser/generators/binary/generator.py | 87 +++++++++++++++-------
 1 file changed, 59 insertions(+), 28 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index 23b153c..a45d9ec 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -178,30 +178,40 @@ class BinaryGenerator(Generator):
         bin_data_list: List[bytes] = []
 
         # get sequences with their defined keys and types
+        members: List[KeyTypePair] = []
         definitions: Dict[str, Dict[str, SequenceSpecificationContainer]] = {}
         for definition in module.get_definitions():
             # only sequences can have WITH COMPONENTS
             # ignore other ASN.1 definitions
             if isinstance(definition, Sequence):
+                if seq_item in definition.get_children():
+                    members = definition.get_children()
                 seq_specifications: Dict[
                     str, SequenceSpecificationContainer
                 ] = {}
                 for sequence in definition.get_children():
-                    if sequence.get_with_components() is None:
-                        seq_specifications[
-                            sequence.get_key()
-                        ] = SequenceSpecificationContainer(
-                            # None if a WITH COMPONENTS otherwise TypeEnum
-                            c_type=sequence.get_asn_type().get_c_type(),
-                            # needed for correct (u)int assignement
-                            bitsize=sequence.get_size_bits(),
-                            # ASN.1 type, either simple definition or own
-                            # definition (Sequence, Choice, ...)
-                            seq_type=sequence.get_asn_type().get_type_name(),
-                        )
+                    seq_specifications[
+                        sequence.get_key()
+                    ] = SequenceSpecificationContainer(
+                        # None if a WITH COMPONENTS otherwise TypeEnum
+                        c_type=sequence.get_asn_type().get_c_type(),
+                        # needed for correct (u)int assignement
+                        bitsize=sequence.get_size_bits(),
+                        # ASN.1 type, either simple definition or own
+                        # definition (Sequence, Choice, ...)
+                        seq_type=sequence.get_asn_type().get_type_name(),
+                    )
                 definitions[definition.get_type_name()] = seq_specifications
 
-        bin_data_list.extend(cls._values_to_bytes_list(seq_item, definitions))
+        # The file is an image of the whole struct: everything has its place,
+        # what has no value is zero.
+        for member in members:
+            if member.get_with_components():
+                bin_data_list.extend(
+                    cls._values_to_bytes_list(member, definitions)
+                )
+            else:
+                bin_data_list.append(bytes(bit_to_bytes(member.get_size_bits())))
 
         cdata.add_binary_init(
             lowerize(definition_type_name_c),
@@ -215,8 +225,6 @@ class BinaryGenerator(Generator):
         key_type_pair: KeyTypePair,
         definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
     ) -> List[bytes]:
-        bin_data_list: List[bytes] = []
-
         with_component: WithComponents = key_type_pair.get_with_components()
         asn_type: Asn1Type = key_type_pair.get_asn_type()
         if asn_type is None:
@@ -225,13 +233,37 @@ class BinaryGenerator(Generator):
             )
         asn_type_name: str = asn_type.get_type_name()
 
-        for component in with_component.get_components():
-            bin_data = cls._component_to_bytes(
-                component,
-                asn_type_name,
-                definitions,
-            )
-            bin_data_list.extend(bin_data)
+        return cls._with_components_to_bytes(
+            with_component, asn_type_name, definitions
+        )
+
+    @classmethod
+    def _with_components_to_bytes(
+        cls,
+        with_components: WithComponents,
+        asn_type_name: str,
+        definitions: Dict[str, Dict[str, SequenceSpecificationContainer]],
+    ) -> List[bytes]:
+        bin_data_list: List[bytes] = []
+        components: Dict[str, ComponentsItem] = {
+            component.get_key(): component
+            for component in with_components.get_components()
+        }
+
+        # in the order of the definition, which is the order in the struct
+        for key, specification in definitions[asn_type_name].items():
+            if key in components:
+                bin_data_list.extend(
+                    cls._component_to_bytes(
+                        components[key],
+                        asn_type_name,
+                        definitions,
+                    )
+                )
+            else:
+                bin_data_list.append(
+                    bytes(bit_to_bytes(specification.get_bitsize()))
+                )
 
         return bin_data_list
 
@@ -254,14 +286,13 @@ class BinaryGenerator(Generator):
         ]
 
         if isinstance(value, WithComponents):
-            inner_asn_type_name: str = key.get_seq_type()
-            for inner_component in value.get_components():
-                bin_data = cls._component_to_bytes(
-                    inner_component,
-                    inner_asn_type_name,
+            bin_data_list.extend(
+                cls._with_components_to_bytes(
+                    value,
+                    key.get_seq_type(),
                     definitions,
                 )
-                bin_data_list.extend(bin_data)
+            )
         else:
             c_type: Optional[TypeEnum] = key.get_c_type()
             if c_type is None:
-- 
2.43.0


From d07b97bc295b3f04cada9c0f4eb5b32a9e736457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:16 +0000
Subject: [PATCH 17/22] fix: one initialisation per sequence with several WITH
 COMPONENTS items

---
 asn1_parser/generators/c/generator.py | 53 +++++++++++++++++----------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/asn1_parser/generators/c/generator.py b/asn1_parser/generators/c/generator.py
index 7472726..f18ec54 100644
--- a/asn1_parser/generators/c/generator.py
+++ b/asn1_parser/generators/c/generator.py
@@ -130,8 +130,23 @@ class CGenerator(Generator):
 
         cdata: CData = CData.create_empty()
 
+        # all items of a sequence with WITH COMPONENTS share one initialization
+        seq_items: List[KeyTypePair] = [seq_item]
+        for definition in module.get_definitions():
+            if (
+                isinstance(definition, Sequence)
+                and seq_item in definition.get_children()
+            ):
+                seq_items = [
+                    item
+                    for item in definition.get_children()
+                    if item.get_with_components()
+                ]
+        if seq_item is not seq_items[0]:
+            return cdata
+
         cdata.add_init(
-            cls._process_start_with_component(definition_type_name_c, seq_item)
+            cls._process_start_with_component(definition_type_name_c, seq_items)
         )
         cdata.add_init_predef(
             definition_type_name_c
@@ -148,28 +163,26 @@ class CGenerator(Generator):
     def _process_start_with_component(
         cls,
         seq_name: str,
-        seq_item: KeyTypePair,
+        seq_items: List[KeyTypePair],
     ) -> str:
-        seq_key: str = seq_item.get_key()
-        with_components: WithComponents = seq_item.get_with_components()
-
         shift_level: int = 1
-        return (
-            seq_name
-            + " "
-            + lowerize(seq_name)
-            + " = {\n"
-            + (shift_level * cls._C_SPACES)
-            + "."
-            + CPrinter.asn1_to_c_style_naming(seq_key)
-            + " = {\n"
-            + cls._process_with_components(
-                with_components=with_components, shift_level=shift_level + 1
+        init_str: str = ""
+        for seq_item in seq_items:
+            seq_key: str = seq_item.get_key()
+            with_components: WithComponents = seq_item.get_with_components()
+            init_str += (
+                (shift_level * cls._C_SPACES)
+                + "."
+                + CPrinter.asn1_to_c_style_naming(seq_key)
+                + " = {\n"
+                + cls._process_with_components(
+                    with_components=with_components, shift_level=shift_level + 1
+                )
+                + (shift_level * cls._C_SPACES)
+                + "},\n"
             )
-            + (shift_level * cls._C_SPACES)
-            + "},\n"
-            + "};\n"
-        )
+
+        return seq_name + " " + lowerize(seq_name) + " = {\n" + init_str + "};\n"
 
     @classmethod
     def _process_with_components(
-- 
2.43.0


From 99e7addfe81cf989a8f67a89f57fe81effddebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:27 +0000
Subject: [PATCH 18/22] fix: generate COSMOS packets whose application id is
 not fixed

---
 asn1_parser/generators/cosmos/generator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/generators/cosmos/generator.py b/asn1_parser/generators/cosmos/generator.py
index e0234b0..fa1bb5d 100644
--- a/asn1_parser/generators/cosmos/generator.py
+++ b/asn1_parser/generators/cosmos/generator.py
@@ -221,7 +221,9 @@ class COSMOSGenerator:
                 is_array = isinstance(seq_type, Array)
                 if is_array:
                     specific_value = str(seq_type.get_length() * bitsize)
-                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID:
+                elif seq_item.get_key() == ASN1_KEY_CCSDS_APID and isinstance(
+                    specific_value, int
+                ):
                     specific_value = f"0x{specific_value:02X}"
                 else:
                     specific_value = str(specific_value)
-- 
2.43.0


From f848b24cf2b804ab94e4c9cdb6d2f982fc2e71e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:42 +0000
Subject: [PATCH 19/22] fix: write binary data of imported sequences and of
 named simple types

---
 asn1_parser/generators/binary/generator.py | 26 ++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/generators/binary/generator.py b/asn1_parser/generators/binary/generator.py
index a45d9ec..af17124 100644
--- a/asn1_parser/generators/binary/generator.py
+++ b/asn1_parser/generators/binary/generator.py
@@ -11,6 +11,7 @@ from asn1_parser.asn1.grammar_elements.asn1_module import Asn1Module
 from asn1_parser.asn1.grammar_elements.asn1_type import Asn1Type
 from asn1_parser.asn1.grammar_elements.choice import Choice
 from asn1_parser.asn1.grammar_elements.components_item import ComponentsItem
+from asn1_parser.asn1.grammar_elements.definitions import Definitions
 from asn1_parser.asn1.grammar_elements.enumerated import Enumerated
 from asn1_parser.asn1.grammar_elements.import_item import ImportItem
 from asn1_parser.asn1.grammar_elements.key_type_pair import KeyTypePair
@@ -180,7 +181,7 @@ class BinaryGenerator(Generator):
         # get sequences with their defined keys and types
         members: List[KeyTypePair] = []
         definitions: Dict[str, Dict[str, SequenceSpecificationContainer]] = {}
-        for definition in module.get_definitions():
+        for definition in cls._get_reachable_definitions(module):
             # only sequences can have WITH COMPONENTS
             # ignore other ASN.1 definitions
             if isinstance(definition, Sequence):
@@ -194,7 +195,7 @@ class BinaryGenerator(Generator):
                         sequence.get_key()
                     ] = SequenceSpecificationContainer(
                         # None if a WITH COMPONENTS otherwise TypeEnum
-                        c_type=sequence.get_asn_type().get_c_type(),
+                        c_type=cls._get_c_type(sequence.get_asn_type()),
                         # needed for correct (u)int assignement
                         bitsize=sequence.get_size_bits(),
                         # ASN.1 type, either simple definition or own
@@ -219,6 +220,27 @@ class BinaryGenerator(Generator):
         )
         return cdata
 
+    @classmethod
+    def _get_reachable_definitions(
+        cls, module: Asn1Module
+    ) -> List[Definitions]:
+        """
+        Returns the definitions of the module and of all modules it depends on.
+        """
+        modules: List[Asn1Module] = [module]
+        for reachable_module in modules:
+            for imported_module in reachable_module.get_imported_modules():
+                if imported_module not in modules:
+                    modules.append(imported_module)
+        return [d for m in modules for d in m.get_definitions()]
+
+    @classmethod
+    def _get_c_type(cls, asn_type: Asn1Type) -> Optional[TypeEnum]:
+        definition = asn_type.get_type()
+        if isinstance(definition, SimpleDefinition):
+            return definition.get_asn_type().get_c_type()
+        return asn_type.get_c_type()
+
     @classmethod
     def _values_to_bytes_list(
         cls,
-- 
2.43.0


From a8e69de935c83a9ca6dd5825ff84d3a388755766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:51 +0000
Subject: [PATCH 20/22] fix: reject INTEGER ranges that do not fit into 64 bits
 before anything is generated

---
 asn1_parser/asn1/processor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/processor.py b/asn1_parser/asn1/processor.py
index 09c350a..639637d 100644
--- a/asn1_parser/asn1/processor.py
+++ b/asn1_parser/asn1/processor.py
@@ -195,9 +195,14 @@ def asn1_type(model: Asn1Type) -> None:
     elif type_name == "INTEGER" and begin is not None and end is not None:
         if begin >= 0:
             c_type = TypeEnum.A_UINT
+            widest = ASN1_POSIX_RANGE["Uint64-t"]
         else:
-            # TODO check bounds
             c_type = TypeEnum.A_INT
+            widest = ASN1_POSIX_RANGE["Int64-t"]
+        if begin < widest["begin"] or end > widest["end"]:
+            raise ValueError(
+                f"One of {begin} and {end} is out of stdint definition."
+            )
     elif type_name == "REAL" and begin is not None and end is not None:
         if begin >= FLOAT_MIN and end <= FLOAT_MAX:
             c_type = TypeEnum.A_FLOAT
-- 
2.43.0


From 98601d9b86d3ed61c41623edef419a6763dff490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:18 +0000
Subject: [PATCH 21/22] fix: give fields whose only value is 0 one bit instead
 of none

---
 asn1_parser/asn1/grammar_elements/enumerated.py | 3 ++-
 asn1_parser/utils/size.py                       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/asn1_parser/asn1/grammar_elements/enumerated.py b/asn1_parser/asn1/grammar_elements/enumerated.py
index 2490546..c5f998d 100644
--- a/asn1_parser/asn1/grammar_elements/enumerated.py
+++ b/asn1_parser/asn1/grammar_elements/enumerated.py
@@ -37,4 +37,5 @@ class Enumerated(Definitions):
         """
         values = [e.get_pos() for e in self.get_enum()]
         last_value = max(values)
-        return last_value.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, 0 needs a bit as well
+        return max(last_value.bit_length(), 1)
diff --git a/asn1_parser/utils/size.py b/asn1_parser/utils/size.py
index e1ad03c..5b9fe77 100644
--- a/asn1_parser/utils/size.py
+++ b/asn1_parser/utils/size.py
@@ -40,7 +40,8 @@ def get_bit_size(
         bitsize = 1
     elif c_type is TypeEnum.A_UINT:
         assert isinstance(end, int), f"Expected int, got {type(end)} ({end})"
-        bitsize = end.bit_length()  # int.bit_length() is a Python builtin
+        # int.bit_length() is a Python builtin, 0 needs a bit as well
+        bitsize = max(end.bit_length(), 1)
     elif c_type is TypeEnum.A_INT:
         assert isinstance(
             begin, int
-- 
2.43.0


From fce631bd6bdc8bea5300e8a7ec6a818f12415621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:08 +0000
Subject: [PATCH 22/22] fix: parse nested WITH COMPONENTS in linear time

Every constrained component was tried as 'not last' and then as 'last',
so each nesting level doubled the work: a specification nested 25 deep
was never parsed. Let the parser memoize.
---
 asn1_parser/asn1/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1_parser/asn1/parser.py b/asn1_parser/asn1/parser.py
index 040d736..aca78af 100644
--- a/asn1_parser/asn1/parser.py
+++ b/asn1_parser/asn1/parser.py
@@ -94,7 +94,9 @@ class Asn1Parser:
         cls, input_text: str, is_multimodule: bool = False
     ) -> Asn1Module:
         cls._logger.debug("parsing ASN.1 string")
-        meta_model = metamodel_from_str(GRAMMAR, classes=cls.used_classes)
+        meta_model = metamodel_from_str(
+            GRAMMAR, classes=cls.used_classes, memoization=True
+        )
         meta_model.register_obj_processors(cls._obj_processor)
         meta_model.register_model_processor(
             model_processor_check_used_types_defined
-- 
2.43.0

