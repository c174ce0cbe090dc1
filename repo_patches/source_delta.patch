From 8f8413d23c7d7b947cbc2aac5fc14ef12db8f673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:29 +0000
Subject: [PATCH 01/37] fix: adding no node relationships appended a second
 JSON document to the indexes file

---
 .../graph/database/indexes/node_relationships_index.py         | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..c1b72b3 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,10 +39,9 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
-
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
+        file_handle.seek(0)
         dump(indexes_dict, file_handle, indent=4)
         file_handle.truncate()
 
-- 
2.43.0


From a7fc2353504fb57e2db8622a120be394b58dd75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 02/37] fix: MAKE stored the left node again instead of the
 right node

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From 585da73d64b44a17d80489bbfd932e5b11c05274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 03/37] fix: blanks after a left-to-right relationship reversed
 its direction

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..c29a44e 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.strip()[-1] == ">" else False
-- 
2.43.0


From 1ec6ff3905c740c56c88535465b8557e4e60272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 04/37] fix: relationships were not checked in statements after
 one without relationships

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From c45ad02096a1740852937c9caef3e2776dffca13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 05/37] fix: a query with only MAKE statements was refused

---
 wiggle_shell/core/query/query.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..bc6bda3 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,7 +35,9 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = (
+        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
+    )
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
@@ -51,6 +53,11 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    if not parsed_query.find_parsed and (
+        parsed_query.report_parsed or not parsed_query.make_parsed
+    ):
+        raise Exception("You must provide a FIND with a RETURN! FUBAR")
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
@@ -65,8 +72,6 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
 
-- 
2.43.0


From 4d3f9066082581ac3aad75d365df3fe1fc4ce691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:02 +0000
Subject: [PATCH 06/37] fix: FIND took the right node from the middle and left
 nodes and refused two-node patterns

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From a7f170c372bc97789f78410dc6d1a3849f679ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:05 +0000
Subject: [PATCH 07/37] fix: criteria could not be merged into an element
 without properties

---
 wiggle_query_language/clauses/find/transform/find_pre.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 20afbfe..2bdd4ce 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,7 +31,10 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
             find_pre_model.props_dict_no.update(props_dict_no)
-- 
2.43.0


From 2276963f98d6c9084f3b5ba5a20f478e48f605cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:08 +0000
Subject: [PATCH 08/37] fix: FIND reported no results when the names were
 present and missed absent ones

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 wiggle_query_language/clauses/find/short_circuits/nodes.py      | 2 +-
 .../clauses/find/short_circuits/relationships.py                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..fcab9d5 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
diff --git a/wiggle_query_language/clauses/find/short_circuits/nodes.py b/wiggle_query_language/clauses/find/short_circuits/nodes.py
index 237a4cb..8628adb 100644
--- a/wiggle_query_language/clauses/find/short_circuits/nodes.py
+++ b/wiggle_query_language/clauses/find/short_circuits/nodes.py
@@ -1,4 +1,4 @@
 def node_label_is_in_index(
     node_label_set: set[str], node_label_index: set[str]
 ) -> bool:
-    return bool(node_label_set.intersection(node_label_index))
+    return node_label_set.issubset(node_label_index)
diff --git a/wiggle_query_language/clauses/find/short_circuits/relationships.py b/wiggle_query_language/clauses/find/short_circuits/relationships.py
index 21e4ef2..1d8c372 100644
--- a/wiggle_query_language/clauses/find/short_circuits/relationships.py
+++ b/wiggle_query_language/clauses/find/short_circuits/relationships.py
@@ -1,4 +1,4 @@
 def relationship_name_is_in_index(
     relationship_name_set: set[str], relationship_name_index: set[str]
 ) -> bool:
-    return bool(relationship_name_set.intersection(relationship_name_index))
+    return relationship_name_set.issubset(relationship_name_index)
-- 
2.43.0


From 7991ba2cdddac6443d33bfc502030370ef0822b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:43 +0000
Subject: [PATCH 09/37] fix: a query rejected because of its FIND had already
 stored its MAKE

---
 wiggle_shell/core/query/query.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index bc6bda3..322040a 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -58,6 +59,13 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
     ):
         raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
+    # A FIND that cannot be processed must not leave the MAKE behind
+    if parsed_query.find_parsed:
+        process_parsed_find(
+            parsed_find=parsed_query.find_parsed,
+            parsed_criteria=parsed_query.criteria_parsed,
+        )
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
-- 
2.43.0


From e444359d0db895db957f633c36e072e37ad96f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 10/37] fix: a blank after a closing quote left the quote in
 the stored string

---
 .../clauses/parsing_helpers/parse_properties.py               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..6b0bdee 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -60,7 +60,9 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = (
+        extracted_property.property_value.strip().strip('"').strip("'").strip()
+    )
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From 7bcfefa40036495d27011a5c0ae87cba131d9a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 11/37] fix: true, false and null inside a listed string were
 rewritten

---
 .../clauses/parsing_helpers/parse_properties.py       | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 6b0bdee..283622b 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from re import sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -168,10 +169,12 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
+    # strings are left as they are, they may well contain one of the keywords
+    keywords = {"true": "True", "false": "False", "null": "None"}
+    value = sub(
+        r"""'[^']*'|"[^"]*"|\b(?:true|false|null)\b""",
+        lambda match: keywords.get(match.group(), match.group()),
+        value_in,
     )
     try:
         found_list = literal_eval(value)
-- 
2.43.0


From f2ea816d3dc94fc9f5c0c3bef904b69a0c9c8657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:28 +0000
Subject: [PATCH 12/37] fix: list elements that cannot be stored broke off the
 MAKE half way

---
 .../clauses/parsing_helpers/parse_properties.py              | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 283622b..b660dea 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from json import dumps
 from re import sub
 from typing import Optional
 
@@ -178,7 +179,9 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     )
     try:
         found_list = literal_eval(value)
-    except SyntaxError:
+        # e.g. bytes and complex numbers are literals that cannot be stored
+        dumps(found_list, allow_nan=False)
+    except (SyntaxError, TypeError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
-- 
2.43.0


From 7a39525b10b9cfb6989eba8cbf7fbcc1e2bad5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:41 +0000
Subject: [PATCH 13/37] fix: a missing comma between two strings in a list
 joined them into one

---
 .../clauses/parsing_helpers/parse_properties.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index b660dea..005b80f 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -178,6 +178,8 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
         value_in,
     )
     try:
+        # Python would join strings that are not separated by a comma
+        literal_eval(sub(r"""'[^']*'|"[^"]*\"""", " 0 ", value))
         found_list = literal_eval(value)
         # e.g. bytes and complex numbers are literals that cannot be stored
         dumps(found_list, allow_nan=False)
-- 
2.43.0


From 51359acb775576c0b7ccd2f77b4c2c15d7d6ed6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:00 +0000
Subject: [PATCH 14/37] fix: an interrupted or failing write left the database,
 indexes or wiggle number corrupt

---
 .../graph/database/database.py                | 34 ++++++++---------
 .../graph/database/indexes/index_helpers.py   | 25 ++++++-------
 .../indexes/node_relationships_index.py       | 37 +++++++++----------
 .../graph/state/replace_file.py               | 25 +++++++++++++
 .../graph/state/wiggle_number.py              |  4 +-
 5 files changed, 73 insertions(+), 52 deletions(-)
 create mode 100644 wiggle_query_language/graph/state/replace_file.py

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..7a34a2c 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -6,6 +6,7 @@ from typing import Any
 from exceptions.wql.database import NodeExistsError
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import DATABASE_TEST_FILE_PATH
+from wiggle_query_language.graph.state.replace_file import replace_file
 
 DATABASE_SHAPE = dict[str, dict[str, Any]]
 
@@ -38,19 +39,19 @@ def add_item_to_database(
     :return: A bool.
     """
 
-    with open(database_file_path, "r+") as file_handle:
+    with open(database_file_path, "r") as file_handle:
         database = load(file_handle)
-        graph_logger.info("writing to db")
-        for wiggle_number_to_add, node in items_to_add.items():
-            if wiggle_number_to_add in database:
-                raise NodeExistsError(
-                    message=f"Node {wiggle_number_to_add} already exists did you mean to update"
-                )
-            else:
-                database[wiggle_number_to_add] = node
-
-        file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+
+    graph_logger.info("writing to db")
+    for wiggle_number_to_add, node in items_to_add.items():
+        if wiggle_number_to_add in database:
+            raise NodeExistsError(
+                message=f"Node {wiggle_number_to_add} already exists did you mean to update"
+            )
+        else:
+            database[wiggle_number_to_add] = node
+
+    replace_file(database_file_path, dumps(database, indent=4))
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
@@ -68,11 +69,8 @@ def wipe_database(database_file_path: Path, im_sure: bool = False) -> bool:
     """
     if im_sure:
         graph_logger.info("Dropping database")
-        with open(database_file_path, "w") as file_handle:
-            database = dict()
-            file_handle.seek(0)
-            dump(database, file_handle, indent=4)
-            file_handle.truncate()
+        database = dict()
+        replace_file(database_file_path, dumps(database, indent=4))
 
         graph_logger.info("Database successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/index_helpers.py b/wiggle_query_language/graph/database/indexes/index_helpers.py
index d24b988..cf02b66 100644
--- a/wiggle_query_language/graph/database/indexes/index_helpers.py
+++ b/wiggle_query_language/graph/database/indexes/index_helpers.py
@@ -1,8 +1,9 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
+from wiggle_query_language.graph.state.replace_file import replace_file
 
 
 def add_items_set_to_index_by_name(
@@ -15,14 +16,13 @@ def add_items_set_to_index_by_name(
     :param index_name: The name of the index.
     :return: A bool.
     """
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        node_label_indexes = set(indexes_dict[index_name])
-        updated_index = node_label_indexes.union(items_to_add)
-        file_handle.seek(0)
-        indexes_dict[index_name] = list(updated_index)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+
+    node_label_indexes = set(indexes_dict[index_name])
+    updated_index = node_label_indexes.union(items_to_add)
+    indexes_dict[index_name] = list(updated_index)
+    replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -62,12 +62,11 @@ def wipe_index_set_by_name(
     """
     if im_sure:
         graph_logger.info(f"Dropping {index_name} indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[index_name] = []
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+
+        indexes_dict[index_name] = []
+        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info(f"{index_name} successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index c1b72b3..c99b632 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -1,10 +1,11 @@
-from json import dump, load
+from json import dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Optional
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from wiggle_query_language.graph.database.indexes import NODE_RELATIONSHIPS_INDEX_NAME
+from wiggle_query_language.graph.state.replace_file import replace_file
 
 
 def json_to_dict(
@@ -27,23 +28,22 @@ def add_items_to_node_relationships_index(
     :return: A bool.
     """
 
-    with open(indexes_file_path, "r+") as file_handle:
+    with open(indexes_file_path, "r") as file_handle:
         indexes_dict = load(file_handle)
-        rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        for node_wn, new_rels_wn_set in items_to_add.items():
-            if node_wn in rel_indexes_dict:
-                existing_rels = set(rel_indexes_dict[node_wn])
-                new_set = existing_rels.union(new_rels_wn_set)
-                rel_indexes_dict[node_wn] = list(new_set)
-            else:
-                rel_indexes_dict[node_wn] = list(new_rels_wn_set)
+    rel_indexes_dict = indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME]
 
-        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+    for node_wn, new_rels_wn_set in items_to_add.items():
+        if node_wn in rel_indexes_dict:
+            existing_rels = set(rel_indexes_dict[node_wn])
+            new_set = existing_rels.union(new_rels_wn_set)
+            rel_indexes_dict[node_wn] = list(new_set)
+        else:
+            rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-        file_handle.seek(0)
-        dump(indexes_dict, file_handle, indent=4)
-        file_handle.truncate()
+    indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
+
+    replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
     return True
 
@@ -85,12 +85,11 @@ def wipe_node_relationships_index(
     """
     if im_sure:
         graph_logger.info("Dropping relationship indexes")
-        with open(indexes_file_path, "r+") as file_handle:
+        with open(indexes_file_path, "r") as file_handle:
             indexes_dict = load(file_handle)
-            indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
-            file_handle.seek(0)
-            dump(indexes_dict, file_handle, indent=4)
-            file_handle.truncate()
+
+        indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = {}
+        replace_file(indexes_file_path, dumps(indexes_dict, indent=4))
 
         graph_logger.info("Relationship indexes successfully dropped.")
         return True
diff --git a/wiggle_query_language/graph/state/replace_file.py b/wiggle_query_language/graph/state/replace_file.py
new file mode 100644
index 0000000..175568c
--- /dev/null
+++ b/wiggle_query_language/graph/state/replace_file.py
@@ -0,0 +1,25 @@
+import os
+from pathlib import Path
+from shutil import copymode
+
+
+def replace_file(file_path: Path, content: str) -> None:
+    """
+    Replaces the content of a file in one step, it has either the old or the new
+    content, even if writing fails or is interrupted.
+    :param file_path: The path to the file.
+    :param content: The new content of the file.
+    :return: None
+    """
+    file_path = Path(file_path).resolve()
+    temporary_file_path = file_path.with_name("replacement.tmp")
+
+    try:
+        with open(temporary_file_path, "w") as file_handle:
+            file_handle.write(content)
+        if file_path.exists():
+            copymode(file_path, temporary_file_path)
+        os.replace(temporary_file_path, file_path)
+    except BaseException:
+        temporary_file_path.unlink(missing_ok=True)
+        raise
diff --git a/wiggle_query_language/graph/state/wiggle_number.py b/wiggle_query_language/graph/state/wiggle_number.py
index 5a99305..296d92d 100644
--- a/wiggle_query_language/graph/state/wiggle_number.py
+++ b/wiggle_query_language/graph/state/wiggle_number.py
@@ -2,6 +2,7 @@ from pathlib import Path
 
 from wiggle_graph_logger.graph_logger import graph_logger
 from testing import WIGGLE_NUMBER_TEST_FILE_PATH
+from wiggle_query_language.graph.state.replace_file import replace_file
 
 
 def get_current_wiggle_number(file_path: Path) -> int:
@@ -35,8 +36,7 @@ def update_wiggle_number(file_path: Path, new_wiggle_number: int) -> int:
     """
 
     graph_logger.debug("Updating state for WiggleNumber")
-    with open(file_path, "w") as file_handle:
-        file_handle.write(str(new_wiggle_number))
+    replace_file(file_path, str(new_wiggle_number))
     graph_logger.debug("Successfully updated state for WiggleNumber")
     return new_wiggle_number
 
-- 
2.43.0


From 6f1cba8d385b80f79dd826dfc4a483b481149c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:04 +0000
Subject: [PATCH 15/37] fix: a MAKE interrupted after storing its nodes reused
 their numbers and left them unindexed

---
 wiggle_query_language/clauses/make/make.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 8c827bd..29b3cc0 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -171,11 +171,12 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
     nodes_list = [make_nodes(emit_nodes) for emit_nodes in emit_nodes_list]
     nodes_list_flat = [item for sublist in nodes_list for item in sublist]
 
-    # Commit if only not errors
-    add_nodes_to_graph(
-        nodes_list=nodes_list_flat,
-        gdbms_file_path=gdbms_file_path,
+    # Update WiggleNumber first, a number must not be reused if a later step fails
+    update_wiggle_number(
+        new_wiggle_number=current_wiggle_number,
+        file_path=gdbms_file_path.wiggle_number_file_path,
     )
+
     # Add Indexes
     add_indexes(
         nodes_list=nodes_list_flat,
@@ -183,10 +184,10 @@ def make(parsed_make_list: list[ParsedMake], gdbms_file_path: GDBMSFilePath) ->
         gdbms_file_path=gdbms_file_path,
     )
 
-    # Update WiggleNumber if no errors
-    update_wiggle_number(
-        new_wiggle_number=current_wiggle_number,
-        file_path=gdbms_file_path.wiggle_number_file_path,
+    # Commit if only not errors
+    add_nodes_to_graph(
+        nodes_list=nodes_list_flat,
+        gdbms_file_path=gdbms_file_path,
     )
 
     return True
-- 
2.43.0


From d55ff8b4fee7ea989f4cd2e6b6640da1c80949bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:07 +0000
Subject: [PATCH 16/37] fix: every element was stamped with the time the
 program was started

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From cbfe4e380c5e1908c34324a14effe23dd40e9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:44 +0000
Subject: [PATCH 17/37] fix: statements on one line were read as one, and mixed
 case clause words were refused

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..4bd5d39 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>\b((?i:{clause}))\s*\(.+?\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
-- 
2.43.0


From 4cbae5d9af2a66c2cb99cd7de9da3cf1ea561dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 18/37] fix: names and values containing the letters of REPORT
 were taken for a REPORT

---
 .../clauses/parsing_helpers/extract_statements.py      |  4 +++-
 .../clauses/regexes/report/report_patterns.py          | 10 +++++-----
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..da9ebec 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,7 +32,9 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
+    if make_matches := [
+        x.group().strip() for x in clause_all_regex.finditer(query_string)
+    ]:
         return make_matches
 
     check_clause_spelling(query_string, clause)
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..e5e26f2 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -1,4 +1,4 @@
-from re import compile, IGNORECASE
+from re import compile, IGNORECASE, MULTILINE
 
 from wiggle_query_language.clauses.regexes.patterns.clause_helpers import (
     get_clause_permutations,
@@ -8,12 +8,12 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
-    flags=IGNORECASE,
+    pattern=rf"(?:^|(?<=;))\s*(?P<report_stmt_all>((?i:{CLAUSE}))\b.+?;)",
+    flags=IGNORECASE | MULTILINE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
-    flags=IGNORECASE,
+    pattern=rf"(?:^|(?<=;))\s*(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})\b)",
+    flags=IGNORECASE | MULTILINE,
 )
-- 
2.43.0


From b07970c5cd7896a82dc7af804ab34e83b5032080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:20 +0000
Subject: [PATCH 19/37] fix: a misspelled or unfinished statement was ignored
 when another one was fine

---
 .../clauses/parsing_helpers/extract_statements.py      | 10 ++++------
 .../clauses/regexes/patterns/clause_helpers.py         |  2 +-
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index da9ebec..478bda3 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,11 +32,9 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [
-        x.group().strip() for x in clause_all_regex.finditer(query_string)
-    ]:
-        return make_matches
+    matches = [x.group().strip() for x in clause_all_regex.finditer(query_string)]
 
-    check_clause_spelling(query_string, clause)
+    # What is left must not contain another, misspelled or unfinished, statement
+    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
 
-    return None
+    return matches or None
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 4bd5d39..b774784 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -29,7 +29,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\("
     )
 
     return clause_permutations_regex
-- 
2.43.0


From d7ac0cacf79b2de7e706b4db8e933e5b1df23773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:03 +0000
Subject: [PATCH 20/37] fix: a statement without its opening bracket was
 ignored when another one was fine

---
 .../clauses/parsing_helpers/extract_statements.py              | 2 +-
 .../clauses/parsing_helpers/parse_statement_checks.py          | 2 +-
 .../clauses/regexes/patterns/clause_helpers.py                 | 3 ++-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 478bda3..36bb385 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -35,6 +35,6 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
     matches = [x.group().strip() for x in clause_all_regex.finditer(query_string)]
 
     # What is left must not contain another, misspelled or unfinished, statement
-    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
+    check_clause_spelling(clause_all_regex.sub(";", query_string), clause)
 
     return matches or None
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..1b2b323 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -49,7 +49,7 @@ def check_clause_spelling(query_string: str, clause: Clause) -> bool:
     if matches := clause_syntax_regex.findall(query_string):
         for match in matches:
             raise ClauseSyntaxError(
-                message=f"SyntaxError: {match} was not recognised did you mean {clause.value}?"
+                message=f"SyntaxError: {match or 'statement'} was not recognised did you mean {clause.value}?"
             )
 
     return True
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index b774784..a45132b 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -29,7 +29,8 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\("
+        rf"(?:\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\(|"
+        rf"(?:(?m:^)|(?<=;))\s*(?:{all_permutations_joined})\b)"
     )
 
     return clause_permutations_regex
-- 
2.43.0


From 86d510eabdde788538fb6d8cb2a57717ce507dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:25 +0000
Subject: [PATCH 21/37] fix: parts of a statement that could not be read were
 silently left out

---
 .../find/parse_find/parse_find_statement.py   |  3 +++
 .../make/parse_make/parse_make_statement.py   |  3 +++
 .../parsing_helpers/parse_statement_checks.py | 22 ++++++++++++++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index b9ee7c6..12b59c4 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -6,6 +6,7 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
+    check_statement_is_covered,
     validate_statement,
 )
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
@@ -19,6 +20,8 @@ def build_parsed_find(statement: str) -> ParsedFind:
     :param statement: The raw FIND statement.
     :return: A ParsedFind Object.
     """
+    check_statement_is_covered(statement, Clause.FIND)
+
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
diff --git a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
index 4f2bd0d..49ae451 100644
--- a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
+++ b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
@@ -5,6 +5,7 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
+    check_statement_is_covered,
     validate_statement,
 )
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
@@ -18,6 +19,8 @@ def build_parsed_make(statement: str) -> ParsedMake:
     :param statement: The raw make statement.
     :return: A ParsedMake Object.
     """
+    check_statement_is_covered(statement, Clause.MAKE)
+
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 1b2b323..72038ee 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import split
+from re import IGNORECASE, fullmatch, split
 
 from exceptions.wql.parsing import (
     ClauseSyntaxError,
@@ -15,6 +15,9 @@ from wiggle_query_language.clauses.regexes.find.find_patterns import (
 from wiggle_query_language.clauses.regexes.make.make_patterns import (
     MAKE_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
@@ -185,6 +188,23 @@ def check_statement_syntax(stmt_matches: list[str]) -> bool:
     return True
 
 
+def check_statement_is_covered(statement: str, clause: Clause) -> bool:
+    """
+    Checks that the patterns make up the whole statement, so nothing gets lost.
+    :param statement: The extracted MAKE/FIND statement.
+    :param clause: The WQL clause.
+    :return: True or raises and exception.
+    """
+    left_over = NODES_RELS_PATTERN_REGEX.sub("", statement)
+
+    if not fullmatch(rf"{clause.value}[\s,]*;", left_over.strip(), flags=IGNORECASE):
+        raise ClauseSyntaxError(
+            message=f"SyntaxError: could not read all of {statement}, left with: {left_over}"
+        )
+
+    return True
+
+
 def validate_statement(stmt_matches: list[str]) -> bool:
     """
     Handles the validation for the MAKE/FIND statement.
-- 
2.43.0


From 3ac4e31d998544ec3a6dc2aa7364503d4950cfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 22/37] fix: property values were cut short and unreadable
 properties silently left out

---
 .../clauses/parsing_helpers/parse_properties.py        | 10 +++++++++-
 .../clauses/regexes/patterns/properties.py             | 10 +++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 005b80f..d3c4488 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,6 +1,6 @@
 from ast import literal_eval
 from json import dumps
-from re import sub
+from re import fullmatch, sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -33,6 +33,14 @@ def parse_properties(properties_string: str) -> dict:
     :return: A dictionary ready for export.
     """
     primitive_property_dictionary = dict()
+
+    # Nothing of the properties may get lost
+    left_over = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+    if not fullmatch(r"[\s{},]*", left_over):
+        raise WiggleGraphIllegalPropertyValue(
+            f"Could not read all of {properties_string}, left with {left_over}"
+        )
+
     if props_primitive := ALL_PROPERTIES_KEY_VALUE_REGEX.finditer(properties_string):
         for match in props_primitive:
             make_primitive_property = WiggleGraphPropertyPre(**match.groupdict())
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..e6e39ee 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -2,12 +2,16 @@ from re import IGNORECASE, compile
 
 from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 
+# A value ends where the next property starts or the properties end
+VALUE_END = r"(?=\s*(?:[,}]|$))"
+
 # int: 1, float: 3.14, bool: true, none: null, str: '2', str2:"2_4", str3: "3 4 5", email: 'foo@bar.net',  list: [...]
 ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
-        r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
-        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
-        r"(?P<string_type>[\w+\'\"@\.\s]+))"
+        rf"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null){VALUE_END}|(?P<bool_type>true|false){VALUE_END}|"
+        rf"(?P<float_type>\d+\.\d+){VALUE_END}|(?P<int_type>[0-9]+){VALUE_END}|(?P<list_type>\[[\w,\s'\"\.@\+]+\]){VALUE_END}|"
+        rf"(?P<string_type>'[^']*'{VALUE_END}|\"[^\"]*\"{VALUE_END}|"
+        rf"'[\w+\'\"@\.\s]*'{VALUE_END}|\"[\w+\'\"@\.\s]*\"{VALUE_END}|[\w+@\.\s]+{VALUE_END}))"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From bf5640cdef6bebdbf4ede5a831ea324ab494f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 23/37] fix: the first value of a property given twice was
 silently dropped

---
 .../clauses/parsing_helpers/parse_properties.py               | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index d3c4488..b0abfd1 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -48,6 +48,10 @@ def parse_properties(properties_string: str) -> dict:
                 raise WiggleGraphIllegalPropertyValue(
                     f"Error for setting property in {properties_string} {make_primitive_property.property_name} was empty a value must be supplied"
                 )
+            if make_primitive_property.property_name in primitive_property_dictionary:
+                raise WiggleGraphIllegalPropertyValue(
+                    f"{make_primitive_property.property_name} is given more than once in {properties_string}"
+                )
             try:
                 value_parsed = handle_extracted_property(make_primitive_property)
             except WiggleGraphIllegalPropertyValue as e:
-- 
2.43.0


From d7ac3ac3a8b085f8a91d7b793df0ac1bca4c714f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 24/37] fix: REPORT was refused for naming some of the handles
 and accepted for naming others

---
 .../report/parse_report/parse_report_statement.py     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
index d171f6d..74ca526 100644
--- a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
+++ b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
@@ -1,3 +1,4 @@
+from re import findall, sub
 from typing import Optional
 
 from exceptions.wql.clauses import MultipleClauseStatementsError
@@ -9,11 +10,13 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
 
 
 def check_find_report_handles(find_handles: set[str], extracted_report: str) -> True:
-    if find_handles:
-        for find_handle in find_handles:
-            if find_handle not in extracted_report:
+    if find_handles is not None:
+        # foo, foo.bar and wn(foo) all report the handle foo
+        report_items = sub(r"^\s*\w+|\.\s*\w+|\w+\s*\(", " ", extracted_report)
+        for report_handle in findall(r"\w+", report_items):
+            if report_handle not in find_handles:
                 raise FindReportHandleMissmatch(
-                    f"FIND handle {find_handle} was not found not in the ---> {extracted_report} <---"
+                    f"REPORT handle {report_handle} was not found in the FIND ---> {extracted_report} <---"
                 )
 
     return True
-- 
2.43.0


From a7b0e209659430784d50cf7a3c7f4204d24dd39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 25/37] fix: selecting a database listed the default folder
 whatever folder was asked for

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..c824eab 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -117,7 +117,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From 62f57051c752b3f05ff3617df0d24f37b006f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:47 +0000
Subject: [PATCH 26/37] fix: listing databases failed before the first one was
 created

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c824eab..65c134a 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -32,6 +32,9 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    # The folder is created along with the first database
+    if not path_to_dbms_dir.is_dir():
+        return []
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From e04def7de2e4d4e80b9af976a6399bc7650f570f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:50 +0000
Subject: [PATCH 27/37] fix: only the first 26 databases were listed

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 65c134a..f214f27 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,6 @@
 import os
 from glob import glob
+from itertools import count, product
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -55,12 +56,14 @@ def get_and_display_available_dbms(
     skips = {"tests", "__pycache__"}
     if not (existing_databases := list_existing_dbms(skips, path_to_dbms_dir)):
         return None
+    # A, B, ..., Z, AA, AB, ...
+    letters = (
+        "".join(chars)
+        for length in count(1)
+        for chars in product(ascii_uppercase, repeat=length)
+    )
     # Zip does the shorter of the two iterables
-    letter_db_dict = {
-        char: x
-        for char, x in zip(ascii_uppercase, existing_databases)
-        if x not in skips
-    }
+    letter_db_dict = {char: x for x, char in zip(existing_databases, letters)}
     # todo refactor this
     print("\nLetter      db_name")
     for key, value in letter_db_dict.items():
-- 
2.43.0


From 1497b9d71bf3ab3171b9806645fa3056f8519ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:13 +0000
Subject: [PATCH 28/37] fix: database names reached outside the database folder

---
 wiggle_shell/core/select_gdbms/gdbms_name.py  | 20 +++++++++++++++++++
 .../core/select_gdbms/select_database_file.py |  3 +++
 .../core/select_gdbms/select_gdbms.py         |  7 +++++--
 .../core/select_gdbms/select_index_file.py    |  3 +++
 .../select_gdbms/select_wiggle_number_file.py |  3 +++
 5 files changed, 34 insertions(+), 2 deletions(-)
 create mode 100644 wiggle_shell/core/select_gdbms/gdbms_name.py

diff --git a/wiggle_shell/core/select_gdbms/gdbms_name.py b/wiggle_shell/core/select_gdbms/gdbms_name.py
new file mode 100644
index 0000000..d880db4
--- /dev/null
+++ b/wiggle_shell/core/select_gdbms/gdbms_name.py
@@ -0,0 +1,20 @@
+import os
+
+
+def check_gdbms_name(gdbms_name: str) -> bool:
+    """
+    Checks that the name is that of a folder directly under the DBMS folder.
+    :param gdbms_name: The name of the database.
+    :return: True or raises an exception.
+    """
+    if gdbms_name in {"", ".", ".."}:
+        raise ValueError(f"{gdbms_name!r} is not a name for a database")
+
+    if any(char in gdbms_name for char in (os.sep, os.altsep, "\0") if char):
+        raise ValueError(f"{gdbms_name!r} contains a path separator")
+
+    # The longest of the file names
+    if len(os.fsencode(f"wiggle_number_{gdbms_name}.txt")) > 255:
+        raise ValueError(f"{gdbms_name!r} is too long")
+
+    return True
diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..3d01934 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 
 
 def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> Path:
@@ -12,6 +13,8 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     :return : The path to the new database file.
     """
 
+    check_gdbms_name(gdbms_name)
+
     path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
     new_database_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/database_{gdbms_name}.json"
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index f214f27..dec8191 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -7,6 +7,7 @@ from typing import Optional
 
 from models.wigish import GDBMSFilePath
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
     get_existing_db_file_path,
@@ -85,7 +86,7 @@ def create_new_dbms(path_to_dbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
                 new_gdbms_name=new_db_name, path_to_dbms_dir=path_to_dbms_dir
             )
         except ValueError:
-            print(f"{new_db_name} is already taken, please choose another name.")
+            print(f"{new_db_name} cannot be used, please choose another name.")
             continue
 
 
@@ -111,7 +112,7 @@ def get_new_gdbms_file_paths(
             wiggle_number_file_path=wn_path,
         )
     except ValueError:
-        print(f"{new_gdbms_name} is already taken, please choose another name.")
+        print(f"{new_gdbms_name} cannot be used, please choose another name.")
         raise
 
 
@@ -173,6 +174,8 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
+    check_gdbms_name(gdbms_name)
+
     db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
 
     if not db_path.is_dir():
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..76b60f8 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 
 
 def create_new_indexes_file(
@@ -14,6 +15,8 @@ def create_new_indexes_file(
     :return : The path to the new database file.
     """
 
+    check_gdbms_name(gdbms_name)
+
     path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
     new_indexes_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/indexes_{gdbms_name}.json"
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..ba203dd 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -15,6 +16,8 @@ def create_new_wiggle_number_file(
     :param path_to_dbms_dir The directory of the DBMS folder.
     :return The path to the new Wiggle number file.
     """
+    check_gdbms_name(dbms_name)
+
     path_to_dbms_dir.joinpath(f"{dbms_name}").mkdir(parents=True, exist_ok=True)
     new_wn_state_file_path = path_to_dbms_dir.joinpath(
         f"{dbms_name}/wiggle_number_{dbms_name}.txt"
-- 
2.43.0


From 67f20bf98590f5fd9d3ba1c3d5d28af5ae33f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:17 +0000
Subject: [PATCH 29/37] fix: deleting a database with a wildcard in its name
 deleted the files of others

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index dec8191..51c45c3 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,5 @@
 import os
-from glob import glob
+from glob import escape, glob
 from itertools import count, product
 from pathlib import Path
 from string import ascii_uppercase
@@ -181,7 +181,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
+    files = glob(f"{escape(str(db_path))}/*")
     if files:
         for file in files:
             os.remove(file)
-- 
2.43.0


From a077eb4fe6302125e84fcd8b7ee3c98108f9eaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:20 +0000
Subject: [PATCH 30/37] fix: the shell skipped every query with the letters
 help in it

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From ff2ba562ff6f7cca21febbc8c9571bdcb872ae2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:41 +0000
Subject: [PATCH 31/37] fix: opening a database refuses names that reach
 outside the database folder

---
 wiggle_shell/core/select_gdbms/select_database_file.py      | 2 ++
 wiggle_shell/core/select_gdbms/select_gdbms.py              | 2 +-
 wiggle_shell/core/select_gdbms/select_index_file.py         | 2 ++
 wiggle_shell/core/select_gdbms/select_wiggle_number_file.py | 2 ++
 4 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 3d01934..32ba1f4 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -42,6 +42,8 @@ def get_existing_db_file_path(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return:
     """
+    check_gdbms_name(gdbms_name)
+
     db_file_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/database_{gdbms_name}.json")
     if not db_file_path.is_file():
         raise FileNotFoundError()
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 51c45c3..a2f5c7c 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -155,7 +155,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
                 indexes_file_path=indexes_path,
                 wiggle_number_file_path=wn_path,
             )
-        except FileNotFoundError as e:
+        except (FileNotFoundError, ValueError) as e:
             print(f"Database files could not be found {e}")
             continue
 
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 76b60f8..d7a8943 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -48,6 +48,8 @@ def get_existing_indexes_file_path(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return:
     """
+    check_gdbms_name(gdbms_name)
+
     rel_idx_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/indexes_{gdbms_name}.json"
     )
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index ba203dd..5da24b3 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -42,6 +42,8 @@ def get_existing_wn_file_path(
     :param path_to_dbms_dir: The directory of the DBMS folder.
     :return: The path to the Wiggle number file for a given database.
     """
+    check_gdbms_name(gdbms_name)
+
     wn_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/wiggle_number_{gdbms_name}.txt"
     )
-- 
2.43.0


From 702046ae18de678b7d13a9671a81322de4c2982c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:51 +0000
Subject: [PATCH 32/37] fix: short relationships with many blanks took minutes
 to be refused

---
 .../clauses/regexes/patterns/patterns.py             |  3 ++-
 .../clauses/regexes/patterns/patterns_helpers.py     | 12 ++++++++++++
 .../clauses/regexes/patterns/relationships.py        |  5 ++++-
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/patterns.py b/wiggle_query_language/clauses/regexes/patterns/patterns.py
index 233e5a0..8d4be0a 100644
--- a/wiggle_query_language/clauses/regexes/patterns/patterns.py
+++ b/wiggle_query_language/clauses/regexes/patterns/patterns.py
@@ -2,10 +2,11 @@ from re import IGNORECASE, compile
 
 from wiggle_query_language.clauses.regexes.patterns.patterns_helpers import (
     get_nodes_rels_pattern_regex,
+    get_whole_runs_regex,
 )
 
 # (left:NodeLabel{LeftParams})-[r:LM{LMParams}]->(middle:NodeLabel{MiddleParams})-[r2:MR{MRParams}]->(right:NodeLabel{RightParams});
 NODES_RELS_PATTERN_REGEX = compile(
-    pattern=rf"{get_nodes_rels_pattern_regex()}",
+    pattern=rf"{get_whole_runs_regex(get_nodes_rels_pattern_regex())}",
     flags=IGNORECASE,
 )
diff --git a/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py b/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py
index fa4d280..aa46487 100644
--- a/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/patterns_helpers.py
@@ -1,6 +1,18 @@
+from re import sub
+
 from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 
 
+def get_whole_runs_regex(pattern: str) -> str:
+    """
+    Makes the blanks and names of a pattern match as a whole, as trying all the ways to share out
+    a run between them takes ages.
+    :param pattern: A regex expression.
+    :return: A regex expression.
+    """
+    return sub(r"\\([sw])([*+])", r"\\\1\2(?!\\\1)", pattern)
+
+
 def get_all_params_regex() -> str:
     """
     Gets the regex for the parameters for a Node or Rel.
diff --git a/wiggle_query_language/clauses/regexes/patterns/relationships.py b/wiggle_query_language/clauses/regexes/patterns/relationships.py
index 670f6bc..11fd656 100644
--- a/wiggle_query_language/clauses/regexes/patterns/relationships.py
+++ b/wiggle_query_language/clauses/regexes/patterns/relationships.py
@@ -3,11 +3,14 @@ from re import IGNORECASE, compile
 from wiggle_query_language.clauses.regexes.patterns.patterns_helpers import (
     get_all_params_regex,
     get_rel_pattern_regex,
+    get_whole_runs_regex,
 )
 
 # -[r:Rel]->
 RELATIONSHIP_DIR_CHECK_REGEX = compile(
-    pattern=rf"(?P<foo><?-+\[\s*\w*\s*:?\s*(?P<rel_name>\w*)\s*{get_all_params_regex()}-+>?)",
+    pattern=get_whole_runs_regex(
+        rf"(?P<foo><?-+\[\s*\w*\s*:?\s*(?P<rel_name>\w*)\s*{get_all_params_regex()}-+>?)"
+    ),
     flags=IGNORECASE,
 )
 
-- 
2.43.0


From 21af4d86997970ce18f974d4069284a7cbf45bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:46 +0000
Subject: [PATCH 33/37] fix: refuse a decimal that is too large to be stored
 instead of storing Infinity

---
 .../clauses/parsing_helpers/parse_properties.py                 | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index b0abfd1..9e4d29c 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -146,6 +146,8 @@ def handle_float_property(value: str) -> float:
         )
     try:
         found_float = float(value)
+        if found_float == float("inf"):
+            raise ValueError(f"{value} is too large")
         graph_logger.debug(f"{value} was determined to be a float: {found_float}")
         return found_float
     except (TypeError, ValueError):
-- 
2.43.0


From 750fd68ef04352b3680453ec05cfd557511fa6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:46 +0000
Subject: [PATCH 34/37] fix: refuse a pattern of more than three nodes, or with
 a relationship that lacks a node, instead of ignoring the rest of the FIND

---
 .../parsing_helpers/parse_statement_checks.py  | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 72038ee..ef41c6f 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -202,6 +202,24 @@ def check_statement_is_covered(statement: str, clause: Clause) -> bool:
             message=f"SyntaxError: could not read all of {statement}, left with: {left_over}"
         )
 
+    # a relationship joins two nodes, a pattern has at most three nodes
+    for pattern in NODES_RELS_PATTERN_REGEX.finditer(statement):
+        left, left_rel, middle, right_rel, right = pattern.group(
+            "left_node",
+            "left_middle_rel",
+            "middle_node",
+            "middle_right_rel",
+            "right_node",
+        )
+        if pattern.group() and (
+            not left
+            or (left_rel and not middle)
+            or (right_rel and not (middle and right))
+        ):
+            raise ClauseSyntaxError(
+                message=f"SyntaxError: {pattern.group()} is not a complete pattern of one to three nodes"
+            )
+
     return True
 
 
-- 
2.43.0


From 0932371a4c22f03777efd36297ecfe1fbced213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 35/37] fix: take only the enclosing quotes off a string, not
 the blanks and quotes within them

---
 .../clauses/parsing_helpers/parse_properties.py          | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9e4d29c..b674f92 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,6 +1,6 @@
 from ast import literal_eval
 from json import dumps
-from re import fullmatch, sub
+from re import DOTALL, fullmatch, sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -74,9 +74,10 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = (
-        extracted_property.property_value.strip().strip('"').strip("'").strip()
-    )
+    striped_value = extracted_property.property_value.strip()
+    # only the quotes around a string are not a part of it
+    if quoted := fullmatch(r"""(['"])(.*)\1""", striped_value, flags=DOTALL):
+        striped_value = quoted.group(2)
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From bd015e51a255e3654c807177b5fc68fa87756c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:51 +0000
Subject: [PATCH 36/37] fix: leave an index file that lacks one of its indexes
 as it is instead of rewriting it partly

---
 wiggle_query_language/clauses/make/make.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index 29b3cc0..e389008 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -17,12 +17,15 @@ from wiggle_query_language.clauses.parsing_helpers.parse_properties import (
 from wiggle_query_language.graph.database.database import add_item_to_database
 from wiggle_query_language.graph.database.indexes.node_labels_index import (
     add_items_to_node_labels_index,
+    load_node_labels_index,
 )
 from wiggle_query_language.graph.database.indexes.node_relationships_index import (
     add_items_to_node_relationships_index,
+    load_node_relationships_index,
 )
 from wiggle_query_language.graph.database.indexes.relationship_names_index import (
     add_items_to_relationship_names_index,
+    load_relationship_names_index,
 )
 from wiggle_query_language.graph.state.wiggle_number import (
     get_current_wiggle_number,
@@ -138,6 +141,11 @@ def add_indexes(
             make_pre.relationship_names
         )
 
+    # All of the indexes must be readable before any of them is changed
+    load_node_relationships_index(gdbms_file_path.indexes_file_path)
+    load_node_labels_index(gdbms_file_path.indexes_file_path)
+    load_relationship_names_index(gdbms_file_path.indexes_file_path)
+
     add_items_to_node_relationships_index(
         gdbms_file_path.indexes_file_path, rel_indexes_to_add_dict
     )
-- 
2.43.0


From 802e9e458ceb30826eb92a2967f64d6f5c61c71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:29 +0000
Subject: [PATCH 37/37] fix: bytes that cannot be decoded, or characters that
 cannot be shown, ended the shell

---
 wiggle_shell/wiggleshell.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 83dcc58..19675b0 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -1,3 +1,5 @@
+import sys
+
 from core.query.query import query
 from core.select_gdbms.select_gdbms import select_gdbms
 
@@ -10,6 +12,11 @@ def start_wiggle_shell() -> None:
     :return: None
     """
 
+    # What cannot be decoded or shown must not end the shell
+    for stream, errors in ((sys.stdin, "replace"), (sys.stdout, "backslashreplace")):
+        if hasattr(stream, "reconfigure"):
+            stream.reconfigure(errors=errors)
+
     print("**********************")
     print("Welcome to WiggleGraph")
     print("**********************\n")
-- 
2.43.0

