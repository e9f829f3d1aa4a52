From 1495a697be4dd2e667eefd75ead178f86fc14760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:43 +0000
Subject: [PATCH 01/29] fix: do not change other nodes when an overlay updates
 a YAML-aliased mapping

---
 src/vss_tools/vspec/vspec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vspec.py b/src/vss_tools/vspec/vspec.py
index a36ef8c..b3ced16 100644
--- a/src/vss_tools/vspec/vspec.py
+++ b/src/vss_tools/vspec/vspec.py
@@ -58,6 +58,8 @@ def deep_update(base: dict[str, Any], update: dict[str, Any]) -> None:
     for key, value in update.items():
         if isinstance(value, dict):
             if key in base and isinstance(base[key], dict):
+                # The mapping might be shared with other nodes (YAML aliases)
+                base[key] = base[key].copy()
                 deep_update(base[key], value)
             else:
                 base[key] = value
-- 
2.43.0


From 5c7ee77ffb3e7005e22fec10d7ae8314d71fbcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 02/29] fix: let later type files redefine types of earlier
 ones

---
 src/vss_tools/vspec/main.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/main.py b/src/vss_tools/vspec/main.py
index 71945a6..c31a066 100644
--- a/src/vss_tools/vspec/main.py
+++ b/src/vss_tools/vspec/main.py
@@ -119,10 +119,9 @@ def get_types_root(types: tuple[Path, ...], include_dirs: list[Path]) -> VSSNode
             log.error(f"Types model has orphans\n{orphans}")
             exit(1)
         if types_root:
-            node: VSSNode
-            for node in PreOrderIter(root):
-                if not types_root.connect(node.get_fqn(), node):
-                    raise MultipleTypeTreesException()
+            if types_root.get_fqn() != root.get_fqn():
+                raise MultipleTypeTreesException()
+            types_root.merge(root)
         else:
             types_root = root
 
-- 
2.43.0


From 970b3eff06341a9c854f70bab0f3646703762f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 03/29] fix: keep instance branches marked as such when they
 are defined explicitly

---
 src/vss_tools/vspec/tree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index a6775bc..612e572 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -129,7 +129,8 @@ class VSSNode(Node):  # type: ignore[misc]
 
         log.debug(f"{self.get_fqn()}, merging with='{other.get_fqn()}'")
         self_data = self.data.as_dict(exclude_fields=["fqn"])
-        other_data = other.data.as_dict(exclude_fields=["fqn"])
+        # 'is_instance' is no user input, merging a definition does not change it
+        other_data = other.data.as_dict(exclude_fields=["fqn", "is_instance"])
 
         deep_update(self_data, other_data)
         self.data = get_vss_raw(self_data, self.get_fqn())
-- 
2.43.0


From 543f0abe2264adf747324787012c1b2ebe4c4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 04/29] fix: reject constUID values followed by a newline

---
 src/vss_tools/vspec/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index ce38f99..b4d55ea 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -119,8 +119,8 @@ class VSSData(VSSRaw):
     def check_const_uid_format(cls, v: str | None) -> str | None:
         if v is None:
             return v
-        pattern = r"^0x[0-9A-Fa-f]{8}$"
-        assert bool(re.match(pattern, v)), f"'{v}' is not a valid 'constUID'"
+        pattern = r"0x[0-9A-Fa-f]{8}"
+        assert bool(re.fullmatch(pattern, v)), f"'{v}' is not a valid 'constUID'"
         return v
 
 
-- 
2.43.0


From 4c462d840d42c29f42cac7136007f0dabbc9b96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 05/29] fix: report node names followed by a newline as naming
 violation

---
 src/vss_tools/vspec/tree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/tree.py b/src/vss_tools/vspec/tree.py
index 612e572..91434cf 100644
--- a/src/vss_tools/vspec/tree.py
+++ b/src/vss_tools/vspec/tree.py
@@ -281,9 +281,9 @@ class VSSNode(Node):  # type: ignore[misc]
         """
         violations = []
         log.debug(f"Checking node name compliance for {self.name}")
-        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*$")
+        camel_case_pattern = re.compile("[A-Z][A-Za-z0-9]*")
         for node in PreOrderIter(self):
-            match = re.match(camel_case_pattern, node.name)
+            match = re.fullmatch(camel_case_pattern, node.name)
             if not match:
                 violations.append([node.get_fqn(), "not CamelCase"])
             if isinstance(node.data, VSSDataDatatype):
-- 
2.43.0


From c4a8f2fa700466f76223973b0505a7a36d7fd3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:39 +0000
Subject: [PATCH 06/29] fix: compare whole names when looking up namespaced
 datatypes

---
 src/vss_tools/vspec/datatypes.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/datatypes.py b/src/vss_tools/vspec/datatypes.py
index e3ed5e9..29296c4 100644
--- a/src/vss_tools/vspec/datatypes.py
+++ b/src/vss_tools/vspec/datatypes.py
@@ -238,16 +238,17 @@ def get_fqn_namespaced_datatypes(fqn: str | None = None) -> dict[str, str]:
     if not fqn:
         return {}
     fqn_namespaced_datatypes = {}
-    for t in dynamic_datatypes:
+    # Sorted so that the datatype of the innermost namespace wins
+    for t in sorted(dynamic_datatypes, key=lambda t: (t.count("."), t)):
         # This excludes referencing the own struct as a datatype
-        if fqn.startswith(t):
+        if f"{fqn}.".startswith(f"{t}."):
             continue
 
         # fqn: Types.A.B.C.x_property
         # t: Types.A.B.D
         # We are checking whether fqn starts with Types.A.B
         # in this case we add {D: Types.A.B.D}
-        if fqn.startswith(".".join(t.split(".")[:-1])):
+        if fqn.startswith(".".join(t.split(".")[:-1]) + "."):
             fqn_namespaced_datatypes[(t.split(".")[-1])] = t
 
     if fqn_namespaced_datatypes:
-- 
2.43.0


From 1711b417ad0dc4d2e875946d3d0fe84b20c54308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:21 +0000
Subject: [PATCH 07/29] fix: apply the extended attribute options to all nodes
 of the JSON export

---
 src/vss_tools/vspec/vssexporters/vss2json.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2json.py b/src/vss_tools/vspec/vssexporters/vss2json.py
index b05d564..d3eaab3 100644
--- a/src/vss_tools/vspec/vssexporters/vss2json.py
+++ b/src/vss_tools/vspec/vssexporters/vss2json.py
@@ -27,7 +27,7 @@ def get_data(node: VSSNode, with_extra_attributes: bool = True, extended_attribu
     if len(node.children) > 0:
         data["children"] = {}
     for child in node.children:
-        data["children"][child.name] = get_data(child)
+        data["children"][child.name] = get_data(child, with_extra_attributes, extended_attributes)
     return data
 
 
@@ -88,7 +88,9 @@ def cli(
     signals_data = {tree.name: get_data(tree, extend_all_attributes, extended_attributes)}
 
     if datatype_tree:
-        types_data: dict[str, Any] = {datatype_tree.name: get_data(datatype_tree, extend_all_attributes)}
+        types_data: dict[str, Any] = {
+            datatype_tree.name: get_data(datatype_tree, extend_all_attributes, extended_attributes)
+        }
         if not types_output:
             log.info("Adding custom data types to signal dictionary")
             signals_data["ComplexDataTypes"] = types_data
-- 
2.43.0


From ed60509d65316c09d0d699da4e6277bc79cbd745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 08/29] fix: validate former names with the case sensitivity
 the static IDs are generated with

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 021f54a..47b0b14 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -213,7 +213,7 @@ def cli(
             types=types,
             expand=expand,
         )
-        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, strict)
+        vss2id_val.validate_static_uids(signals_yaml_dict, validation_tree, case_sensitive)
 
     if not validate_only:
         with open(output, "w") as f:
-- 
2.43.0


From eca09035141f4e7bcc28160a9a963a3e5bcec754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:59 +0000
Subject: [PATCH 09/29] fix: detect duplicated static IDs independent of the
 case of their hex digits

---
 src/vss_tools/vspec/vssexporters/vss2id.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2id.py b/src/vss_tools/vspec/vssexporters/vss2id.py
index 47b0b14..2e955ff 100644
--- a/src/vss_tools/vspec/vssexporters/vss2id.py
+++ b/src/vss_tools/vspec/vssexporters/vss2id.py
@@ -91,7 +91,7 @@ def export_node(data: dict[str, Any], node: VSSNode, id_counter, strict_mode: bo
     # check for hash duplicates
     for key, value in get_all_keys_values(data):
         if not isinstance(value, dict) and key == "staticUID":
-            if node_id == value:
+            if int(node_id, 16) == int(value, 16):
                 log.fatal(
                     f"There is a small chance that the result of FNV-1 "
                     f"hashes are the same in this case the hash of node "
-- 
2.43.0


From 55ff72293032759cb82eeecc06ef0626f6ca18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 10/29] fix: write the binary length prefixes in bytes and
 allow non-string allowed values

---
 src/vss_tools/vspec/vssexporters/vss2binary.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2binary.py b/src/vss_tools/vspec/vssexporters/vss2binary.py
index 9b72797..e67986e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2binary.py
+++ b/src/vss_tools/vspec/vssexporters/vss2binary.py
@@ -40,13 +40,15 @@ from vss_tools.vspec.tree import VSSNode
 def allowedString(allowedList):
     allowedStr = ""
     for elem in allowedList:
+        elem = str(elem)
         allowedStr += hexAllowedLen(elem) + elem
     return allowedStr
 
 
 def hexAllowedLen(allowed):
-    hexDigit1 = len(allowed) // 16
-    hexDigit2 = len(allowed) - hexDigit1 * 16
+    length = len(allowed.encode())
+    hexDigit1 = length // 16
+    hexDigit2 = length - hexDigit1 * 16
     return "".join([intToHexChar(hexDigit1), intToHexChar(hexDigit2)])
 
 
@@ -60,7 +62,8 @@ def intToHexChar(hexInt):
 # Create a struct containing the length of the string as uint8
 #  and the string itself
 def create_l8v_string(s: str) -> bytes:
-    pack = struct.pack(f"{len(s)+1}p", s.encode())
+    encoded = s.encode()
+    pack = struct.pack(f"{len(encoded)+1}p", encoded)
     # log.debug(f"create_l8v_string: {s} as {pack.hex()}")
     return pack
 
@@ -68,7 +71,8 @@ def create_l8v_string(s: str) -> bytes:
 # Create a struct containing the length of the string as uint16
 #  and the string itself
 def create_l16v_string(s: str) -> bytes:
-    pack = struct.pack(f"=H{len(s)}s", len(s), s.encode())
+    encoded = s.encode()
+    pack = struct.pack(f"=H{len(encoded)}s", len(encoded), encoded)
     # log.debug(f"create_l16v_string: {s} as {pack.hex()}")
     return pack
 
-- 
2.43.0


From 61686eae92ce53257d02f2298f7694b07543c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 11/29] fix: do not read uninitialised memory or overflow
 buffers in the binary C reader

---
 binary/c_parser/cparserlib.c | 5 +++--
 binary/c_parser/cparserlib.h | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index 73617f3..a72b3c2 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -139,6 +139,7 @@ uint8_t validateToUint8(char* validate) {
 }
 
 void validateToString(uint8_t validate, char *validation) {
+    validation[0] = 0;
     if (validate%10 == 1) {
         strcpy(validation, "write-only");
     } else if (validate%10 == 2) {
@@ -428,7 +429,7 @@ void populateNode(node_t* thisNode) {
 	uint8_t validateLen;
 	ret = fread(&validateLen, sizeof(uint8_t), 1, treeFp);
 	if (validateLen > 0) {
-		char validate[50];
+		char validate[255+1];
 		ret = fread(validate, sizeof(char)*validateLen, 1, treeFp);
 		validate[validateLen] = '\0';
 		thisNode->validate = validateToUint8(validate);
@@ -522,7 +523,7 @@ void writeNode(struct node_t* node) {
 }
 
 struct node_t* traverseAndReadNode(struct node_t* parentNode) {
-	node_t* thisNode = (node_t*) malloc(sizeof(node_t));
+	node_t* thisNode = (node_t*) calloc(1, sizeof(node_t));
 	updateReadMetadata(true);
 	populateNode(thisNode);
 
diff --git a/binary/c_parser/cparserlib.h b/binary/c_parser/cparserlib.h
index 782d02c..e8e34af 100644
--- a/binary/c_parser/cparserlib.h
+++ b/binary/c_parser/cparserlib.h
@@ -12,7 +12,7 @@
 #define UNKNOWN 0
 typedef enum {SENSOR=1, ACTUATOR, ATTRIBUTE, BRANCH, STRUCT, PROPERTY } nodeTypes_t;
 
-#define MAXALLOWEDELEMENTLEN 64
+#define MAXALLOWEDELEMENTLEN 256
 typedef char allowed_t[MAXALLOWEDELEMENTLEN];
 
 typedef struct node_t {
-- 
2.43.0


From b27084daa8419a34bb6725ee56cabea3aebe270e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:05 +0000
Subject: [PATCH 12/29] fix: keep properties, consent and the file length when
 the Go reader writes a tree back

---
 binary/go_parser/datamodel/datamodel.go | 6 +++---
 binary/go_parser/parserlib/parser.go    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/binary/go_parser/datamodel/datamodel.go b/binary/go_parser/datamodel/datamodel.go
index a7e9f00..ffd2a22 100644
--- a/binary/go_parser/datamodel/datamodel.go
+++ b/binary/go_parser/datamodel/datamodel.go
@@ -60,7 +60,7 @@ func StringToNodetype(nodeType string) uint8 {
     if (nodeType == "struct") {
         return STRUCT
     }
-    if (nodeType == "propery") {
+    if (nodeType == "property") {
         return PROPERTY
     }
     fmt.Printf("Unknown type! |%s|\n", nodeType);
@@ -97,7 +97,7 @@ func NodetypeToString(nodeType NodeTypes_t) string {
         return "struct"
     }
     if (nodeType == PROPERTY) {
-        return "propery"
+        return "property"
     }
     fmt.Printf("Unknown type! |%d|\n", nodeType);
     return ""
@@ -113,7 +113,7 @@ func ValidateToString(validate uint8) string {
         validation = "read-write"
     }
     if (validate/10 == 1) {
-        validation = "+consent"
+        validation += "+consent"
     }
     return validation
 }
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 066f55e..5b91e13 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -575,7 +575,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -593,7 +593,7 @@ func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetUuidList = true
     var err error
-    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", listFname)
 	return 0
@@ -622,7 +622,7 @@ func VSSReadTree(fname string) *def.Node_t {
 
 func VSSWriteTree(fname string, root *def.Node_t) {
     var err error
-    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE, 0755)
+    treeFp, err = os.OpenFile(fname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
 	fmt.Printf("Could not open %s for writing tree data\n", fname)
 	return
-- 
2.43.0


From f87cf7991d49ddd285a81be9e66a552e96ef506a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:46 +0000
Subject: [PATCH 13/29] fix: keep wildcard search from dropping, adding or
 missing matches in the binary readers

---
 binary/c_parser/cparserlib.c         |  9 ++++++---
 binary/go_parser/parserlib/parser.go | 14 +++++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/binary/c_parser/cparserlib.c b/binary/c_parser/cparserlib.c
index a72b3c2..a737619 100644
--- a/binary/c_parser/cparserlib.c
+++ b/binary/c_parser/cparserlib.c
@@ -238,7 +238,8 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 		context->speculationIndex++;
 	}
 	context->maxValidation = getMaxValidation(VSSgetValidation(thisNode), context->maxValidation);
-	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT || context->leafNodesOnly == false) {
+	bool completeMatch = context->currentDepth >= countSegments(context->searchPath);
+	if (VSSgetType(thisNode) != BRANCH && VSSgetType(thisNode) != STRUCT && completeMatch == true || context->leafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			strcpy(context->searchData[context->numOfMatches].responsePaths, context->matchPath);
 			context->searchData[context->numOfMatches].foundNodeHandles = thisNode;
@@ -275,7 +276,7 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
 	} else {
 		*done = false;
 	}
-	if (context->speculationIndex >= 0 && ((VSSgetNumOfChildren(thisNode) == 0 && context->currentDepth >= countSegments(context->searchPath)) || context->currentDepth == context->maxDepth)) {
+	if (context->speculationIndex >= 0 && completeMatch == true) {
 		return 1;
 	}
 	return 0;
@@ -285,7 +286,7 @@ int saveMatchingNode(long thisNode, SearchContext_t* context, bool* done) {
  * decDepth() shall reverse speculative wildcard matches that have failed, and also decrement currentDepth.
  **/
 void decDepth(int speculationSucceded, SearchContext_t* context) {
-	if (context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
+	if (context->leafNodesOnly == false && context->speculationIndex >= 0 && context->speculativeMatches[context->speculationIndex] > 0) {
 		if (speculationSucceded == 0) {  // it failed so remove a saved match
 			context->numOfMatches--;
 			context->speculativeMatches[context->speculationIndex]--;
@@ -655,6 +656,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
 	isGetLeafNodeList = true;
+	isGetUuidList = false;
 
 	FILE* listFp = fopen(listFname, "w+");
 	fwrite("{\"leafpaths\":[", 14, 1, listFp);
@@ -669,6 +671,7 @@ int VSSGetLeafNodesList(long rootNode, char* listFname) {
 int VSSGetUuidList(long rootNode, char* listFname) {
 	struct SearchContext_t searchContext;
 	struct SearchContext_t* context = &searchContext;
+	isGetLeafNodeList = false;
 	isGetUuidList = true;
 
 	FILE* listFp = fopen(listFname, "w+");
diff --git a/binary/go_parser/parserlib/parser.go b/binary/go_parser/parserlib/parser.go
index 5b91e13..17b66f4 100644
--- a/binary/go_parser/parserlib/parser.go
+++ b/binary/go_parser/parserlib/parser.go
@@ -196,7 +196,8 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 		context.SpeculationIndex++
 	}
 	context.MaxValidation = getMaxValidation(VSSgetValidation(thisNode), context.MaxValidation)
-	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT || context.LeafNodesOnly == false) {
+	completeMatch := context.CurrentDepth >= countSegments(context.SearchPath)
+	if (VSSgetType(thisNode) != def.BRANCH  && VSSgetType(thisNode) != def.STRUCT && completeMatch == true || context.LeafNodesOnly == false) {
 		if ( isGetLeafNodeList == false && isGetUuidList == false) {
 			context.SearchData[context.NumOfMatches].NodePath = context.MatchPath
 			context.SearchData[context.NumOfMatches].NodeHandle = thisNode
@@ -232,7 +233,7 @@ func saveMatchingNode(thisNode *def.Node_t, context *SearchContext_t, done *bool
 	} else {
 		*done = false
 	}
-	if (context.SpeculationIndex >= 0 && ((VSSgetNumOfChildren(thisNode) == 0 && context.CurrentDepth >= countSegments(context.SearchPath)) || context.CurrentDepth == context.MaxDepth)) {
+	if (context.SpeculationIndex >= 0 && completeMatch == true) {
 		return 1
 	}
 	return 0
@@ -277,8 +278,9 @@ func popPathSegment(context *SearchContext_t) {
 func getPathSegment(offset int, context *SearchContext_t) string {
 	frontDelimiter := 0
 	for i := 1 ; i < context.CurrentDepth + offset ; i++ {
-		frontDelimiter += strings.Index(context.SearchPath[frontDelimiter+1:], ".") + 1
-		if (frontDelimiter == -1) {
+		nextDelimiter := strings.Index(context.SearchPath[frontDelimiter+1:], ".")
+		frontDelimiter += nextDelimiter + 1
+		if (nextDelimiter == -1) {
 			if (context.SearchPath[len(context.SearchPath)-1] == '*' && context.CurrentDepth < context.MaxDepth) {
 				return "*"
 			} else {
@@ -306,7 +308,7 @@ func incDepth(thisNode *def.Node_t, context *SearchContext_t) {
  **/
 func decDepth(speculationSucceded int, context *SearchContext_t) {
 	//fmt.Printf("decDepth():speculationSucceded=%d\n", speculationSucceded)
-	if (context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
+	if (context.LeafNodesOnly == false && context.SpeculationIndex >= 0 && context.SpeculativeMatches[context.SpeculationIndex] > 0) {
 		if (speculationSucceded == 0) {  // it failed so remove a saved match
 			context.NumOfMatches--
 			context.SpeculativeMatches[context.SpeculationIndex]--
@@ -574,6 +576,7 @@ func VSSsearchNodes(searchPath string, rootNode *def.Node_t, maxFound int, anyDe
 func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
     isGetLeafNodeList = true
+    isGetUuidList = false
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
     if (err != nil) {
@@ -591,6 +594,7 @@ func VSSGetLeafNodesList(rootNode *def.Node_t, listFname string) int {
 
 func VSSGetUuidList(rootNode *def.Node_t, listFname string) int {
     var context SearchContext_t
+    isGetLeafNodeList = false
     isGetUuidList = true
     var err error
     treeFp, err = os.OpenFile(listFname, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0755)
-- 
2.43.0


From 68fda2bbc6f2e7f0f710c2ac75dcf587b88e0fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:45 +0000
Subject: [PATCH 14/29] fix: leave the CSV instance column empty for branches
 without instances

---
 src/vss_tools/vspec/vssexporters/vss2csv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2csv.py b/src/vss_tools/vspec/vssexporters/vss2csv.py
index 1b916e8..1cc1641 100644
--- a/src/vss_tools/vspec/vssexporters/vss2csv.py
+++ b/src/vss_tools/vspec/vssexporters/vss2csv.py
@@ -63,7 +63,7 @@ def add_rows(rows: list[list[Any]], root: VSSNode, with_uuid: bool, with_instanc
         if with_uuid:
             row.append(getattr_nn(node, "uuid", ""))
         if with_instance_column:
-            row.append(getattr_nn(data, "instances", ""))
+            row.append(getattr_nn(data, "instances", "") or "")
         rows.append(row)
 
 
-- 
2.43.0


From 44da399c5d1fd4602713b23e94bb005584f7abcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 15/29] fix: write the proto files of the types anew in each
 run and import each file once

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index 1072a79..ee67c26 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -60,6 +60,9 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
     A/B/C/C.proto
     """
 
+    # Imports already written to the files of this run
+    written_imports: dict[Path, set[str]] = {}
+
     node: VSSNode
     for node in findall(tree, filter_=lambda n: isinstance(n.data, VSSDataStruct)):
         # A/B/C/MyType
@@ -71,8 +74,9 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
 
         # <out-dir>/A/B/C/C.proto
         out_file = package_path / f"{package_path.name}.proto"
-        if not out_file.exists():
+        if out_file not in written_imports:
             init_package_file(out_file, ".".join(struct_path.parent.parts))
+            written_imports[out_file] = set()
 
         with open(out_file, "a") as fd:
             imports = []
@@ -84,7 +88,8 @@ def traverse_data_type_tree(tree: VSSNode, static_uid: bool, add_optional: bool,
                 if c_struct_path.parent != struct_path.parent:
                     imports.append(f"{c_struct_path.parent}/{c_struct_path.parent.name}.proto")
 
-            write_imports(fd, imports)
+            write_imports(fd, [stmt for stmt in imports if stmt not in written_imports[out_file]])
+            written_imports[out_file].update(imports)
 
             fd.write(f"message {struct_path.name} {{" + "\n")
             print_messages(node.children, fd, static_uid, add_optional)
-- 
2.43.0


From 2687ee6a87703962a9bec3b42d8872455f968916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:12 +0000
Subject: [PATCH 16/29] fix: accept static IDs given as numbers in the protobuf
 export

---
 src/vss_tools/vspec/vssexporters/vss2protobuf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2protobuf.py b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
index ee67c26..c4b9a0d 100644
--- a/src/vss_tools/vspec/vssexporters/vss2protobuf.py
+++ b/src/vss_tools/vspec/vssexporters/vss2protobuf.py
@@ -147,7 +147,7 @@ def print_messages(nodes: tuple[VSSNode], fd: TextIOWrapper, static_uid: bool, a
                     )
                 )
                 sys.exit(-1)
-            fieldNumber = int(int(getattr(node.data, "staticUID"), 0) / 8)
+            fieldNumber = int(int(str(getattr(node.data, "staticUID")), 0) / 8)
             if fieldNumber < 20000 and fieldNumber >= 19000:
                 log.fatal("""Aborting because field number {fieldNumber} for signal {node.name} is in
                 reservered range between 19000 and 20000. Consider changing the signal to alter the staticUID.""")
-- 
2.43.0


From 6d1bc368d40aabf1d4de43474b96175382811b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:20 +0000
Subject: [PATCH 17/29] fix: rename only the instance path of children in the
 Go export

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 90cafa9..1861c20 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -70,7 +70,7 @@ def add_children_map_entries(root: VSSNode, fqn: str, replace: str, map: dict[st
     child: VSSNode
     for child in root.children:
         child_fqn = child.get_fqn()
-        new_name = child_fqn.replace(fqn, replace)
+        new_name = replace + child_fqn[len(fqn) :]
         map[child_fqn] = new_name
         add_children_map_entries(child, fqn, replace, map)
 
-- 
2.43.0


From 2be5fb177e547bbbe6bb329b6bf6cca3711240e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:16 +0000
Subject: [PATCH 18/29] fix: detect Go struct name conflicts on the written
 names

---
 src/vss_tools/vspec/vssexporters/vss2go.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2go.py b/src/vss_tools/vspec/vssexporters/vss2go.py
index 1861c20..0610aaf 100644
--- a/src/vss_tools/vspec/vssexporters/vss2go.py
+++ b/src/vss_tools/vspec/vssexporters/vss2go.py
@@ -201,14 +201,16 @@ def get_prefix_strip_conflicts(prefix: str, structs: dict[str, GoStruct]) -> int
         if len(split) == 1:
             structs_new.append(struct.name)
         else:
-            if sp != prefix:
+            if sp != prefix or is_only_instance(".".join(split[1:])):
                 structs_new.append(struct.name)
             else:
                 log.debug(f"Stripping, {prefix=}, {struct.name=}")
                 structs_new.append(".".join(split[1:]))
                 log.debug(f"New name: {structs_new[-1]}")
 
-    return len(structs_new) - len(set(structs_new))
+    # The delimiter is dropped when writing the structs
+    written_names = [name.replace(".", "") for name in structs_new]
+    return len(written_names) - len(set(written_names))
 
 
 def is_only_instance(s: str) -> bool:
-- 
2.43.0


From c893ab2b84b25cb27a9ec684c48f60849ebe88ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 19/29] fix: keep defaults that are 0, false or empty in the
 JSON schema

---
 src/vss_tools/vspec/vssexporters/vss2jsonschema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 8c67d09..2e2d491 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -80,7 +80,7 @@ def export_node(
         json_dict[node.name]["enum"] = allowed
 
     default = getattr(data, "default", None)
-    if default:
+    if default is not None:
         json_dict[node.name]["default"] = default
 
     if isinstance(data, VSSDataStruct):
-- 
2.43.0


From b0e74511413784f3c6d402f286c69bbbce040ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 20/29] fix: export models with struct types and numeric
 datatypes as JSON schema

---
 .../vspec/vssexporters/vss2jsonschema.py      | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
index 2e2d491..c67b96f 100644
--- a/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
+++ b/src/vss_tools/vspec/vssexporters/vss2jsonschema.py
@@ -17,6 +17,7 @@ import rich_click as click
 
 import vss_tools.vspec.cli_options as clo
 from vss_tools import log
+from vss_tools.vspec.datatypes import is_array
 from vss_tools.vspec.main import get_trees
 from vss_tools.vspec.model import VSSDataBranch, VSSDataDatatype, VSSDataStruct
 from vss_tools.vspec.tree import VSSNode
@@ -34,6 +35,7 @@ type_map = {
     "float": "number",
     "double": "number",
     "string": "string",
+    "numeric": "number",
     "int8[]": "array",
     "uint8[]": "array",
     "int16[]": "array",
@@ -46,6 +48,7 @@ type_map = {
     "float[]": "array",
     "double[]": "array",
     "string[]": "array",
+    "numeric[]": "array",
 }
 
 
@@ -65,7 +68,9 @@ def export_node(
     }
 
     if isinstance(data, VSSDataDatatype):
-        json_dict[node.name]["type"] = type_map[data.datatype]
+        # Datatypes that are not in the map are structs
+        struct_type = "array" if is_array(data.datatype) else "object"
+        json_dict[node.name]["type"] = type_map.get(data.datatype, struct_type)
 
     min = getattr(data, "min", None)
     if min is not None:
@@ -207,6 +212,12 @@ def cli(
         require_all_properties,
     )
 
+    # VSS models only have one root, so there should only be one
+    # key in the dict
+    assert len(signals_json_schema.keys()) == 1
+    top_node_name = list(signals_json_schema.keys())[0]
+    signals_json_schema = signals_json_schema.pop(top_node_name)
+
     # Add data types to the schema
     if datatype_tree is not None:
         data_types_json_schema: Dict[str, Any] = {}
@@ -221,12 +232,6 @@ def cli(
         if extend_all_attributes:
             signals_json_schema["x-ComplexDataTypes"] = data_types_json_schema
 
-    # VSS models only have one root, so there should only be one
-    # key in the dict
-    assert len(signals_json_schema.keys()) == 1
-    top_node_name = list(signals_json_schema.keys())[0]
-    signals_json_schema = signals_json_schema.pop(top_node_name)
-
     json_schema = {
         "$schema": "https://json-schema.org/draft/2020-12/schema",
         "title": top_node_name,
-- 
2.43.0


From 80c0f334a89e6455aecefc637d3b08a5d5c24ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 21/29] fix: keep extra attributes in their order, independent
 of the hash seed

---
 src/vss_tools/vspec/model.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/model.py b/src/vss_tools/vspec/model.py
index b4d55ea..aeb7efa 100644
--- a/src/vss_tools/vspec/model.py
+++ b/src/vss_tools/vspec/model.py
@@ -78,8 +78,7 @@ class VSSRaw(BaseModel):
 
     def get_extra_attributes(self) -> list[str]:
         defined_fields = self.model_fields.keys()
-        additional_fields = set(self.model_dump().keys()) - set(defined_fields)
-        return list(additional_fields)
+        return [field for field in self.model_dump().keys() if field not in defined_fields]
 
     def as_dict(
         self,
-- 
2.43.0


From d26ddecd61695d738d93e9314a8967a2b7043caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 22/29] fix: recognise Python keywords and IDL keywords of any
 case in the DDS-IDL export

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 4107789..9559904 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -146,7 +146,12 @@ idl_keywords = [
 
 
 def getAllowedName(name):
-    if name.lower() in c_keywords or name.lower() in idl_keywords or keyword.iskeyword(name.lower):
+    # IDL keywords are case-insensitive
+    if (
+        name.lower() in c_keywords
+        or name.lower() in [idl_keyword.lower() for idl_keyword in idl_keywords]
+        or keyword.iskeyword(name.lower())
+    ):
         return "_" + name
     else:
         return name
-- 
2.43.0


From ba4bbcb65f776f74ba70c02dce3daed0ec74e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:52 +0000
Subject: [PATCH 23/29] fix: do not repeat earlier DDS-IDL exports of the same
 process in the output

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 9559904..94f31ca 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -381,6 +381,7 @@ def export_idl(file, root, generate_uuids=True, generate_all_idl_features=False)
     """This method is used to traverse through the root VSS node to build
     -> DDS IDL equivalent string buffer and to serialize it acccordingly into a file
     """
+    idl_file_buffer.clear()
     export_node(root, generate_uuids, generate_all_idl_features)
     file.write("\n".join(idl_file_buffer))
     log.info("IDL file generated at location : " + file.name)
-- 
2.43.0


From 037b91e1576a6193e26e6a93ee93a969003c9e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:53 +0000
Subject: [PATCH 24/29] fix: export properties of struct types below a Types
 branch as DDS-IDL, forward declarations in order

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 94f31ca..504cd07 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -349,13 +349,12 @@ class StructExporter(object):
                 if not datatype.startswith("Types."):
                     continue
 
-                datatype_str = datatype(".", "::").split("[", 1)[0]
+                datatype_str = datatype.replace(".", "::").split("[", 1)[0]
                 if datatype_str not in self.structs_seen:
                     base_type = datatype_str.split("::")[-1]
                     fwds.append(base_type)
 
-            fwds.sort()
-            for f in set(fwds):
+            for f in sorted(set(fwds)):
                 prefix += f"struct {f};\n"
 
             prefix += f"struct {getAllowedName(node.name)}" + " {\n"
-- 
2.43.0


From 8976c41e05e681cf5484990752546a26941f486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:01 +0000
Subject: [PATCH 25/29] fix: export arrays of struct types as DDS-IDL sequences

---
 src/vss_tools/vspec/vssexporters/vss2ddsidl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
index 504cd07..b0b015e 100644
--- a/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
+++ b/src/vss_tools/vspec/vssexporters/vss2ddsidl.py
@@ -250,6 +250,9 @@ def export_node(node: VSSNode, generate_uuid: bool, generate_all_idl_features: b
                     if str(nodevalueArray[0]) in dataTypesMap_covesa_dds:
                         datatype = str(dataTypesMap_covesa_dds[str(nodevalueArray[0])])
                         arraysize = "[" + str(arraysize) + nodevalueArray[1]
+                    else:  # array of a custom data type
+                        datatype = nodevalueArray[0].replace(".", "::")
+                        arraysize = "[" + str(arraysize) + nodevalueArray[1]
                 else:  # no primitive type. this is custom
                     datatype = datatype.replace(".", "::")  # custom data type
 
-- 
2.43.0


From 79a1513f0ac859aaef9d5e0b529c3faf5653c6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:06 +0000
Subject: [PATCH 26/29] fix: export numeric datatypes to GraphQL

---
 src/vss_tools/vspec/vssexporters/vss2graphql.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vss_tools/vspec/vssexporters/vss2graphql.py b/src/vss_tools/vspec/vssexporters/vss2graphql.py
index b259d9b..968aee8 100644
--- a/src/vss_tools/vspec/vssexporters/vss2graphql.py
+++ b/src/vss_tools/vspec/vssexporters/vss2graphql.py
@@ -53,6 +53,8 @@ GRAPHQL_TYPE_MAPPING = {
     Datatypes.FLOAT_ARRAY[0]: GraphQLList(GraphQLFloat),
     Datatypes.DOUBLE[0]: GraphQLFloat,
     Datatypes.DOUBLE_ARRAY[0]: GraphQLList(GraphQLFloat),
+    Datatypes.NUMERIC[0]: GraphQLFloat,
+    Datatypes.NUMERIC_ARRAY[0]: GraphQLList(GraphQLFloat),
     Datatypes.BOOLEAN[0]: GraphQLBoolean,
     Datatypes.BOOLEAN_ARRAY[0]: GraphQLList(GraphQLBoolean),
     Datatypes.STRING[0]: GraphQLString,
-- 
2.43.0


From ba486c3ba9a1677f942e032159ba89ad4f741195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:00 +0000
Subject: [PATCH 27/29] fix: export numeric and boolean allowed values to SAMM

---
 .../vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
index 05e6570..21ffe60 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/ttl_builder_helper.py
@@ -476,8 +476,10 @@ def get_enum_values(collection_to_process: list[str] | str):
     for value in collection_to_process:
         if type(value) is str:
             enum_values += '"' + value + '" '
+        elif type(value) is bool:
+            enum_values += str(value).lower() + " "
         else:
-            enum_values += value + " "
+            enum_values += str(value) + " "
 
     return Literal(f"( {enum_values.strip()} )")
 
-- 
2.43.0


From 6c10f7d80530a2c6baf4488550be76e11fe27133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:00 +0000
Subject: [PATCH 28/29] fix: select SAMM signals by whole path segments

---
 .../vspec/vssexporters/vss2samm/helpers/vss_helper.py        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
index 63ec712..1e1f336 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/helpers/vss_helper.py
@@ -173,8 +173,9 @@ def is_vss_node_selected_for_processing(selected_signals_paths: list[str], vss_n
     #           Vehicle.Cabin.Door.Window.Position
 
     for selected_signal_path in selected_signals_paths:
-        node_is_selected = selected_signal_path.startswith(vss_node_path) or vss_node_path.startswith(
-            selected_signal_path
+        # Compare whole path segments, i.e. Vehicle.Speed does not select Vehicle.SpeedLimit
+        node_is_selected = f"{selected_signal_path}.".startswith(f"{vss_node_path}.") or f"{vss_node_path}.".startswith(
+            f"{selected_signal_path}."
         )
 
         if node_is_selected:
-- 
2.43.0


From adb8ca536bce040a4425d8252479882bcd96fc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:00 +0000
Subject: [PATCH 29/29] fix: read VSS version numbers 0 and 1 for SAMM

---
 src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
index 76925b1..2e30230 100644
--- a/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
+++ b/src/vss_tools/vspec/vssexporters/vss2samm/vss2samm.py
@@ -68,7 +68,7 @@ def __get_version_vss(vss_tree: VSSNode) -> str:
                     v_child.name in ["Major", "Minor", "Patch"]
                     and hasattr(v_child.data, "default")
                     and type(v_child.data.default) is int
-                    and v_child.data.default > 1
+                    and v_child.data.default >= 0
                 ):
                     match v_child.name:
                         case "Major":
-- 
2.43.0

