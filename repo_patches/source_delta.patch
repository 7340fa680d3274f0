From 9699219f86e24ac51a0648b3c690fe9f68a8382b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:21 +0000
Subject: [PATCH 01/34] fix: MAKE stored the left node twice and lost the right
 node

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From b14bd0775f3a1f8bf091f74954b586307137b720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:26 +0000
Subject: [PATCH 02/34] fix: whitespace after an arrow flipped the direction of
 the relationship

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..a84e7e4 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.rstrip()[-1] == ">" else False
-- 
2.43.0


From 86357924312e14c81d033149b49008f278e8c306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 03/34] fix: a MAKE without relationships appended a second
 document to the indexes file

---
 .../graph/database/indexes/node_relationships_index.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..1f93e9d 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,7 +39,7 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
+        file_handle.seek(0)
 
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
-- 
2.43.0


From 8d2d3c5d7b5ea3235fcd95fddcad2aef915dfef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 04/34] fix: FIND built its right node from the middle handle
 and the left properties

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From b75f1999b3c097da7ea55543dbfeab546d14a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:56 +0000
Subject: [PATCH 05/34] fix: CRITERIA on a handle without inline properties
 crashed

---
 wiggle_query_language/clauses/find/transform/find_pre.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 20afbfe..2bdd4ce 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,7 +31,10 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
             find_pre_model.props_dict_no.update(props_dict_no)
-- 
2.43.0


From cadb27f3955b5421ef29b1250b77814017ea6aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:08 +0000
Subject: [PATCH 06/34] fix: FIND reported no results when its relationship
 names exist in the graph

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 wiggle_query_language/clauses/find/short_circuits/nodes.py      | 2 +-
 .../clauses/find/short_circuits/relationships.py                | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..fcab9d5 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
diff --git a/wiggle_query_language/clauses/find/short_circuits/nodes.py b/wiggle_query_language/clauses/find/short_circuits/nodes.py
index 237a4cb..8628adb 100644
--- a/wiggle_query_language/clauses/find/short_circuits/nodes.py
+++ b/wiggle_query_language/clauses/find/short_circuits/nodes.py
@@ -1,4 +1,4 @@
 def node_label_is_in_index(
     node_label_set: set[str], node_label_index: set[str]
 ) -> bool:
-    return bool(node_label_set.intersection(node_label_index))
+    return node_label_set.issubset(node_label_index)
diff --git a/wiggle_query_language/clauses/find/short_circuits/relationships.py b/wiggle_query_language/clauses/find/short_circuits/relationships.py
index 21e4ef2..1d8c372 100644
--- a/wiggle_query_language/clauses/find/short_circuits/relationships.py
+++ b/wiggle_query_language/clauses/find/short_circuits/relationships.py
@@ -1,4 +1,4 @@
 def relationship_name_is_in_index(
     relationship_name_set: set[str], relationship_name_index: set[str]
 ) -> bool:
-    return bool(relationship_name_set.intersection(relationship_name_index))
+    return relationship_name_set.issubset(relationship_name_index)
-- 
2.43.0


From 8624d7e039af2081e29c7b6ab698f683797e18c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:46 +0000
Subject: [PATCH 07/34] fix: relationship checks stopped at the first statement
 without a relationship

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From df82ccbc0dea96499ad0f2ffb727e032e73447c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 08/34] fix: clauses written on one line were merged into a
 single statement

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..e53661f 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\);)"
 
 
 def get_clause_permutations(clause: str) -> str:
-- 
2.43.0


From ee86bdb7a27654385b82860d0077f75ee56df92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:15 +0000
Subject: [PATCH 09/34] fix: property values were cut short at a recognised
 prefix or at a comma inside quotes

---
 .../clauses/regexes/patterns/properties.py               | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..b3e4497 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -2,12 +2,15 @@ from re import IGNORECASE, compile
 
 from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 
+# A value ends at the next comma, at the closing brace or at the end of the string.
+VALUE_END = r"(?=\s*(?:[,}]|\Z))"
+
 # int: 1, float: 3.14, bool: true, none: null, str: '2', str2:"2_4", str3: "3 4 5", email: 'foo@bar.net',  list: [...]
 ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
-        r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
-        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
-        r"(?P<string_type>[\w+\'\"@\.\s]+))"
+        rf"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null){VALUE_END}|(?P<bool_type>true|false){VALUE_END}|"
+        rf"(?P<float_type>\d+\.\d+){VALUE_END}|(?P<int_type>[0-9]+){VALUE_END}|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
+        rf"(?P<string_type>'[^']*'{VALUE_END}|\"[^\"]*\"{VALUE_END}|[\w+\'\"@\.\s]+))"
     ),
     flags=IGNORECASE,
 )
-- 
2.43.0


From 07bd415c071cd9adafa89abe96420d546c20b639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 10/34] fix: quotes and spaces that belong to a string value
 were stripped or kept wrongly

---
 .../parsing_helpers/parse_properties.py       | 22 ++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..e5b9941 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -60,7 +60,10 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = extracted_property.property_value.strip()
+
+    if extracted_property.property_type is PropertyType.STRING_TYPE:
+        striped_value = unquote_string(striped_value)
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
@@ -79,6 +82,23 @@ def handle_extracted_property(
             raise Exception()
 
 
+def unquote_string(value: str) -> str:
+    """
+    Removes the one pair of quotes that encloses a string value.
+    :param value: The extracted string value.
+    :return: The text between the quotes, or the value itself if it has no quotes.
+    """
+    if value[:1] in ("'", '"') and value.find(value[0], 1) == len(value) - 1:
+        return value[1:-1]
+
+    if "'" in value or '"' in value:
+        raise WiggleGraphIllegalPropertyValue(
+            f"{value} has unbalanced quotes. String property example: {{foo: 'bar'}}"
+        )
+
+    return value
+
+
 def handle_null_property(value: str) -> None:
     """
     Handles the parsing for WiggleGraph null values.
-- 
2.43.0


From 1becc0afb85bc0f733a9a4f14380512b59c01c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:40 +0000
Subject: [PATCH 11/34] fix: true, false and null inside the strings of a list
 were rewritten

---
 .../clauses/parsing_helpers/parse_properties.py          | 9 +++++----
 .../clauses/regexes/patterns/properties.py               | 4 ++++
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index e5b9941..73c898d 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -6,8 +6,11 @@ from wiggle_graph_logger.graph_logger import graph_logger
 from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
+    LIST_KEYWORD_REGEX,
 )
 
+LIST_KEYWORDS = {"true": "True", "false": "False", "null": "None"}
+
 
 def get_property_dict(properties_string: str) -> Optional[dict]:
     """
@@ -186,10 +189,8 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
+    value = LIST_KEYWORD_REGEX.sub(
+        lambda match: LIST_KEYWORDS.get(match.group(), match.group()), value_in
     )
     try:
         found_list = literal_eval(value)
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index b3e4497..d6beefd 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -27,3 +27,7 @@ CHECK_PROPERTIES_SYNTAX_REGEX = compile(
 PROPERTIES_LIST_VALUE_REGEX = compile(
     pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]+])", flags=IGNORECASE
 )
+
+
+# A quoted string, or one of the keywords outside of quotes
+LIST_KEYWORD_REGEX = compile(pattern=r"'[^']*'|\"[^\"]*\"|true|false|null")
-- 
2.43.0


From 3ab005c2c96feeea33cb9fd82da77c6e548269f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:45 +0000
Subject: [PATCH 12/34] fix: a list element that JSON cannot hold left the
 database file half written

---
 .../clauses/parsing_helpers/parse_properties.py               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 73c898d..94ba071 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -194,8 +194,10 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     )
     try:
         found_list = literal_eval(value)
-    except SyntaxError:
+    except (SyntaxError, ValueError):
         raise WiggleGraphIllegalPropertyValue(f"{value_in} contained an Error.")
+    if not all(isinstance(x, (int, float, str, type(None))) for x in found_list):
+        raise WiggleGraphIllegalPropertyValue(f"{value_in} has an unsupported type.")
     graph_logger.debug(f"{value_in} was determined to be a list: {found_list}")
     return found_list
 
-- 
2.43.0


From 0bfc02644c953179fb889496fa08944696e7904f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 13/34] fix: strings of a list that miss a comma between them
 were joined into one

---
 .../clauses/parsing_helpers/parse_properties.py              | 5 +++++
 wiggle_query_language/clauses/regexes/patterns/properties.py | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 94ba071..4940edf 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -7,6 +7,7 @@ from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
     LIST_KEYWORD_REGEX,
+    QUOTED_STRING_REGEX,
 )
 
 LIST_KEYWORDS = {"true": "True", "false": "False", "null": "None"}
@@ -192,6 +193,10 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     value = LIST_KEYWORD_REGEX.sub(
         lambda match: LIST_KEYWORDS.get(match.group(), match.group()), value_in
     )
+    # Python would join 'a' 'b' into one string and read r'a' as 'a'
+    blanked = QUOTED_STRING_REGEX.sub("''", value)
+    if any("'" in x and x.strip() != "''" for x in blanked[1:-1].split(",")):
+        raise WiggleGraphIllegalPropertyValue(f"{value_in} is missing a comma?")
     try:
         found_list = literal_eval(value)
     except (SyntaxError, ValueError):
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index d6beefd..900c744 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -31,3 +31,7 @@ PROPERTIES_LIST_VALUE_REGEX = compile(
 
 # A quoted string, or one of the keywords outside of quotes
 LIST_KEYWORD_REGEX = compile(pattern=r"'[^']*'|\"[^\"]*\"|true|false|null")
+
+
+# 'foo' or "foo"
+QUOTED_STRING_REGEX = compile(pattern=r"'[^']*'|\"[^\"]*\"")
-- 
2.43.0


From 8352155658c5590406798416b4da7c6d341a9f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:09 +0000
Subject: [PATCH 14/34] fix: text in the properties that is not a property was
 silently dropped

---
 .../clauses/parsing_helpers/parse_properties.py             | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 4940edf..dec3483 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -51,6 +51,12 @@ def parse_properties(properties_string: str) -> dict:
                 make_primitive_property.property_name
             ] = value_parsed
 
+    leftover = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
+    if "".join(leftover.replace(",", "").split()) != "{}":
+        raise WiggleGraphIllegalPropertyValue(
+            f"Could not read all of the properties in {properties_string}"
+        )
+
     return primitive_property_dictionary
 
 
-- 
2.43.0


From 292c4810ea2d3116383b6e05ea34be9feb23a706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:37 +0000
Subject: [PATCH 15/34] fix: a record that cannot be serialised, or a shorter
 rewrite, left the database file broken

---
 wiggle_query_language/graph/database/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..0598aa1 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dump, dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -49,8 +49,11 @@ def add_item_to_database(
             else:
                 database[wiggle_number_to_add] = node
 
+        # Nothing is written if the database cannot be serialised
+        database_json = dumps(database, indent=4)
         file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+        file_handle.write(database_json)
+        file_handle.truncate()
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
-- 
2.43.0


From fdde08996a5d7478237776c1f38154b7ce10646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 16/34] fix: created_at was the time the program started, not
 the time of the MAKE

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From 13428ed0da2d6093eb4043ec6003e805d3cac922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:45 +0000
Subject: [PATCH 17/34] fix: deleting a DBMS whose name has glob characters
 deleted files of other DBMSs

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..f513582 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,5 @@
 import os
-from glob import glob
+from glob import escape, glob
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -172,7 +172,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
+    files = glob(f"{escape(str(db_path))}/*")
     if files:
         for file in files:
             os.remove(file)
-- 
2.43.0


From 726d578046ee652fb98d3e47de4bf02852fe123a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:50 +0000
Subject: [PATCH 18/34] fix: an existing DBMS was picked from the default
 folder, not from the given one

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index f513582..c5919af 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -117,7 +117,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From e2c91caba4a45404946cddd6711d007b7067ec28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 19/34] fix: choosing an existing DBMS crashed when the DBMS
 folder does not exist yet

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c5919af..5f17ee3 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -32,6 +32,8 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From e93951941376551bc291b9b5e94edd288f2e0997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 20/34] fix: a DBMS name could create or delete files outside
 its own folder

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 5f17ee3..5291274 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -20,6 +20,16 @@ from wiggle_shell.core.select_gdbms.select_wiggle_number_file import (
 )
 
 
+def check_gdbms_name(gdbms_name: str) -> None:
+    """
+    Checks that a DBMS name names one folder directly inside the DBMS folder.
+    :param gdbms_name: The name of the DBMS.
+    :return: None or raises a ValueError.
+    """
+    if gdbms_name in ("", ".", "..") or "/" in gdbms_name or os.sep in gdbms_name:
+        raise ValueError(f"{gdbms_name} cannot be used as a DBMS name")
+
+
 def list_existing_dbms(
     skips: Optional[set[str]] = None, path_to_dbms_dir: Path = DBMS_FOLDER
 ) -> list[str]:
@@ -97,6 +107,7 @@ def get_new_gdbms_file_paths(
 
     try:
         # todo cancel operation
+        check_gdbms_name(new_gdbms_name)
         db_path = create_new_database(new_gdbms_name, path_to_dbms_dir)
         indexes_path = create_new_indexes_file(new_gdbms_name, path_to_dbms_dir)
         wn_path = create_new_wiggle_number_file(new_gdbms_name, path_to_dbms_dir)
@@ -169,6 +180,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
+    check_gdbms_name(gdbms_name)
     db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
 
     if not db_path.is_dir():
-- 
2.43.0


From cf87fcf7a8595b4b98b0d9696d3274a6535031d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:20 +0000
Subject: [PATCH 21/34] fix: queries that contain the letters help were not
 executed

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From 2f022e50862f0afe9ecd28dbb2b81d864ef911cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 22/34] fix: a clause in mixed case was found but then
 rejected, clauses are case-insensitive

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index e53661f..0a77f5d 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\);)"
+    return rf"(?P<clause_stmt_all>(?i:({clause.upper()}|{clause.lower()}))\s*\(.+?\);)"
 
 
 def get_clause_permutations(clause: str) -> str:
-- 
2.43.0


From ba7d04d9b90e79d7b4e28440887a8cdfd329c5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:44 +0000
Subject: [PATCH 23/34] fix: labels such as Porter or Report were taken for a
 REPORT clause

---
 .../clauses/regexes/report/report_patterns.py              | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..f7f9dab 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -6,14 +6,17 @@ from wiggle_query_language.clauses.regexes.patterns.clause_helpers import (
 
 CLAUSE = "REPORT"
 
+# A clause starts the query, or follows the ; of the clause before it or a new line.
+CLAUSE_START = r"(?:^|(?<=[;\n]))\s*"
+
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"{CLAUSE_START}(?P<report_stmt_all>(?i:({CLAUSE.upper()}|{CLAUSE.lower()})).+?;)",
     flags=IGNORECASE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"{CLAUSE_START}(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})\b)",
     flags=IGNORECASE,
 )
-- 
2.43.0


From 56a1bbadaedb05140fb41a21bc16afcca861a305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:06 +0000
Subject: [PATCH 24/34] fix: a misspelt clause was ignored when the query has
 another clause of its kind

---
 .../clauses/parsing_helpers/extract_statements.py         | 8 ++++----
 .../clauses/regexes/patterns/clause_helpers.py            | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..75c4304 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,9 +32,9 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
-        return make_matches
+    make_matches = [x.group() for x in clause_all_regex.finditer(query_string)]
 
-    check_clause_spelling(query_string, clause)
+    # Whatever is not part of a statement may be a misspelt one
+    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
 
-    return None
+    return make_matches or None
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 0a77f5d..391dace 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -29,7 +29,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\("
     )
 
     return clause_permutations_regex
-- 
2.43.0


From e979a31465150ed2695b48918aa6c6637eed461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:10 +0000
Subject: [PATCH 25/34] fix: parts of a statement that are not a pattern were
 silently dropped

---
 .../find/parse_find/parse_find_statement.py     |  3 +++
 .../make/parse_make/parse_make_statement.py     |  3 +++
 .../parsing_helpers/parse_statement_checks.py   | 17 +++++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
index b9ee7c6..01f07f3 100644
--- a/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
+++ b/wiggle_query_language/clauses/find/parse_find/parse_find_statement.py
@@ -6,6 +6,7 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
+    check_nothing_left_over,
     validate_statement,
 )
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
@@ -19,6 +20,8 @@ def build_parsed_find(statement: str) -> ParsedFind:
     :param statement: The raw FIND statement.
     :return: A ParsedFind Object.
     """
+    check_nothing_left_over(statement, Clause.FIND)
+
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
diff --git a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
index 4f2bd0d..b1e7174 100644
--- a/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
+++ b/wiggle_query_language/clauses/make/parse_make/parse_make_statement.py
@@ -5,6 +5,7 @@ from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
+    check_nothing_left_over,
     validate_statement,
 )
 from wiggle_query_language.clauses.regexes.patterns.patterns import (
@@ -18,6 +19,8 @@ def build_parsed_make(statement: str) -> ParsedMake:
     :param statement: The raw make statement.
     :return: A ParsedMake Object.
     """
+    check_nothing_left_over(statement, Clause.MAKE)
+
     parsed_pattern_dict = [
         x.groupdict() for x in NODES_RELS_PATTERN_REGEX.finditer(statement) if x.group()
     ]
diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..b465aa3 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -15,6 +15,9 @@ from wiggle_query_language.clauses.regexes.find.find_patterns import (
 from wiggle_query_language.clauses.regexes.make.make_patterns import (
     MAKE_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
@@ -185,6 +188,20 @@ def check_statement_syntax(stmt_matches: list[str]) -> bool:
     return True
 
 
+def check_nothing_left_over(statement: str, clause: Clause) -> bool:
+    """
+    Checks that the whole of the statement is made of patterns.
+    :param statement: The extracted statement.
+    :param clause: The WQL clause.
+    :return: True or raises and exception.
+    """
+    leftover = "".join(NODES_RELS_PATTERN_REGEX.sub("", statement).split())
+    if leftover.replace(",", "").lower() != f"{clause.value};".lower():
+        raise ClauseSyntaxError(f"Could not read all of: ---> {statement} <---")
+
+    return True
+
+
 def validate_statement(stmt_matches: list[str]) -> bool:
     """
     Handles the validation for the MAKE/FIND statement.
-- 
2.43.0


From 5710fa8f8787f9644682f79fbcb68aaa8d5f53a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:39 +0000
Subject: [PATCH 26/34] fix: REPORT handles were matched as substrings, an
 unknown handle was accepted and a subset refused

---
 .../clauses/regexes/report/report_patterns.py  |  6 ++++++
 .../parse_report/parse_report_statement.py     | 18 ++++++++++++------
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index f7f9dab..f47e780 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -20,3 +20,9 @@ REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
     pattern=rf"{CLAUSE_START}(?P<report_stmt_all>({get_clause_permutations(CLAUSE)})\b)",
     flags=IGNORECASE,
 )
+
+# foo, foo.bar or wn(foo)
+REPORT_ITEM_REGEX = compile(
+    pattern=r"\s*(?:\w+\(\s*)?(?P<handle>\w+)(?:\.\w+)?(?:\s*\))?\s*",
+    flags=IGNORECASE,
+)
diff --git a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
index d171f6d..e92b319 100644
--- a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
+++ b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
@@ -6,15 +6,21 @@ from models.wql import ParsedReport, Clause
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
+from wiggle_query_language.clauses.regexes.report.report_patterns import (
+    REPORT_ITEM_REGEX,
+)
 
 
 def check_find_report_handles(find_handles: set[str], extracted_report: str) -> True:
-    if find_handles:
-        for find_handle in find_handles:
-            if find_handle not in extracted_report:
-                raise FindReportHandleMissmatch(
-                    f"FIND handle {find_handle} was not found not in the ---> {extracted_report} <---"
-                )
+    report_items = extracted_report.strip()[len(Clause.REPORT.value) :].rstrip(";")
+    for report_item in report_items.split(","):
+        if report_item.strip() == "*":
+            continue
+        item_match = REPORT_ITEM_REGEX.fullmatch(report_item)
+        if not item_match or item_match.group("handle") not in (find_handles or set()):
+            raise FindReportHandleMissmatch(
+                f"REPORT item {report_item} was not found in the FIND handles ---> {find_handles} <---"
+            )
 
     return True
 
-- 
2.43.0


From ffb814cab43251ad2678aa5a1bbf0de513cfda9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:09 +0000
Subject: [PATCH 27/34] fix: a query with only a MAKE crashed, or failed after
 its data was written

---
 wiggle_shell/core/query/query.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..d762c5d 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,11 +35,19 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = (
+        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
+    )
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
 
+    if not make_parsed and not find_parsed:
+        raise NotAValidQueryError("Query must contain a MAKE or a FIND")
+
+    if report_parsed and not find_parsed:
+        raise NotAValidQueryError("A REPORT must be used in conjunction with a FIND")
+
     query_parsed = ParsedQuery(
         make_parsed=make_parsed,
         find_parsed=find_parsed,
@@ -65,8 +73,6 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
 
-- 
2.43.0


From cc8254d71709dad79306322978de9a423260e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 28/34] fix: a FIND with bad properties failed only after the
 MAKE of its query was written

---
 wiggle_shell/core/query/query.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index d762c5d..cf87c39 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -59,6 +60,12 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    # A FIND that cannot be processed must fail before the MAKE writes anything
+    if query_find := parsed_query.find_parsed:
+        process_parsed_find(
+            parsed_find=query_find, parsed_criteria=parsed_query.criteria_parsed
+        )
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
-- 
2.43.0


From 6adb79997fe729f64a821c7ebf501980ab6d7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 29/34] fix: text in front of or behind a property map was read
 as properties

(a:A)-[,r:REL{n: 1}]->(b:B) stored a relationship without a name and with the
property r.
---
 .../clauses/parsing_helpers/parse_properties.py               | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index dec3483..2ea2189 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -52,7 +52,9 @@ def parse_properties(properties_string: str) -> dict:
             ] = value_parsed
 
     leftover = ALL_PROPERTIES_KEY_VALUE_REGEX.sub("", properties_string)
-    if "".join(leftover.replace(",", "").split()) != "{}":
+    stripped = properties_string.strip()
+    enclosed = stripped.startswith("{") and stripped.endswith("}")
+    if not enclosed or "".join(leftover.replace(",", "").split()) != "{}":
         raise WiggleGraphIllegalPropertyValue(
             f"Could not read all of the properties in {properties_string}"
         )
-- 
2.43.0


From 8861bdcceca32bd6bfd10291e4c8324f0d01bcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:00 +0000
Subject: [PATCH 30/34] fix: a MAKE or FIND that is not followed by a node was
 ignored

MAKE -[:R]->(:B); next to a valid clause was dropped without an error.
---
 .../clauses/parsing_helpers/extract_statements.py             | 2 +-
 .../clauses/regexes/patterns/clause_helpers.py                | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 75c4304..ce0b3ae 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -35,6 +35,6 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
     make_matches = [x.group() for x in clause_all_regex.finditer(query_string)]
 
     # Whatever is not part of a statement may be a misspelt one
-    check_clause_spelling(clause_all_regex.sub(" ", query_string), clause)
+    check_clause_spelling(clause_all_regex.sub(";", query_string), clause)
 
     return make_matches or None
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 391dace..7cc98ae 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -28,8 +28,10 @@ def get_clause_permutations_regex(clause: str) -> str:
     """
     all_permutations_joined = get_clause_permutations(clause)
 
+    # At the start of a clause, or anywhere in front of a (
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s*\("
+        rf"(?:(?:^|(?<=;))\s*|\s?(?=(?:{all_permutations_joined})\s*\())"
+        rf"(?P<clause_syntax_error>{all_permutations_joined})\b"
     )
 
     return clause_permutations_regex
-- 
2.43.0


From e713fccb1ecea5d6caee61cbf34bc875e0e57087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:03 +0000
Subject: [PATCH 31/34] fix: a DBMS with a hidden file in its folder lost its
 files but could not be deleted

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 5291274..5828f0b 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -186,7 +186,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{escape(str(db_path))}/*")
+    files = glob(f"{escape(str(db_path))}/*", include_hidden=True)
     if files:
         for file in files:
             os.remove(file)
-- 
2.43.0


From 7615cddecfffa2ee2b107d1bd7e6b4481c42f8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:00 +0000
Subject: [PATCH 32/34] fix: a string property with a comma or a colon in it
 was refused

---
 .../clauses/parsing_helpers/parse_statement_checks.py         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index b465aa3..3d83751 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -21,6 +21,7 @@ from wiggle_query_language.clauses.regexes.patterns.patterns import (
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
+    QUOTED_STRING_REGEX,
 )
 from wiggle_query_language.clauses.regexes.report.report_patterns import (
     REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
@@ -93,7 +94,8 @@ def check_node_rel_properties(stmt_matches: list[str]) -> True:
 
             # remove the list from the params
             params_sans_list = PROPERTIES_LIST_VALUE_REGEX.sub("", param_match)
-            check_property_syntax(params_sans_list)
+            # the text of a string is not syntax
+            check_property_syntax(QUOTED_STRING_REGEX.sub("''", params_sans_list))
 
             # check lists
             if params_lists := PROPERTIES_LIST_VALUE_REGEX.findall(param_match):
-- 
2.43.0


From 248931431a96d310cd9803cf814627625beb3d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:21 +0000
Subject: [PATCH 33/34] fix: refuse numbers that are too large for a float

Python reads such a number as infinity, which was then stored in place of
the number that was written.
---
 .../clauses/parsing_helpers/parse_properties.py            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 2ea2189..85adf9b 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -47,6 +47,13 @@ def parse_properties(properties_string: str) -> dict:
             except WiggleGraphIllegalPropertyValue as e:
                 raise e
 
+            # Python reads a number that is too large for a float as infinity
+            values = value_parsed if isinstance(value_parsed, list) else [value_parsed]
+            if float("inf") in values:
+                raise WiggleGraphIllegalPropertyValue(
+                    f"{make_primitive_property.property_value} has too large a number."
+                )
+
             primitive_property_dictionary[
                 make_primitive_property.property_name
             ] = value_parsed
-- 
2.43.0


From 3f9e1ddec4db749c3c2f42b4f3e80da2436a668b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:39 +0000
Subject: [PATCH 34/34] fix: deleting a DBMS with a subfolder lost its files
 and failed, deleting a link to a folder emptied that folder

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 5828f0b..f539ecc 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,6 +1,6 @@
 import os
-from glob import escape, glob
 from pathlib import Path
+from shutil import rmtree
 from string import ascii_uppercase
 from typing import Optional
 
@@ -186,12 +186,8 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{escape(str(db_path))}/*", include_hidden=True)
-    if files:
-        for file in files:
-            os.remove(file)
-
-    db_path.rmdir()
+    # A link to a folder is refused, the folder belongs to something else
+    rmtree(db_path)
 
     return 0
 
-- 
2.43.0

