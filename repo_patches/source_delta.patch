From 0f19123cf8360db806daea2dca586ad6291cf7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 01/38] fix: effective sizes use the size stated on device
 level

The size of peripherals and clusters whose registers inherit their size from
the device was computed with 32 bits even when the device states another size.
---
 src/svdsuite/resolve/resolver.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 2fb9b48..9e47945 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -435,7 +435,9 @@ class Resolver:
         parent = parents[0]  # only dim nodes have multiple parents, but all have same size
 
         if parent.level == ElementLevel.DEVICE:
-            return 32  # default size for device
+            # size specified on device level, or the default size for a device
+            parsed_size = cast(SVDDevice, parent.parsed).size
+            return parsed_size if parsed_size is not None else 32
 
         element = parent.processed
         if not isinstance(element, IPeripheral | ICluster):
-- 
2.43.0


From 27e84baed4d39b9ab55fdfc56c73e5dbbdac86f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 02/38] fix: alternatePeripheral/alternateCluster naming an
 unknown element raises KeyError

---
 src/svdsuite/process.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 866322c..4e75bd4 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -765,7 +765,8 @@ class _ValidateAndFinalize:
             # Add peripherals that have 'current' as their alternate.
             stack.extend(name for name, p in peripheral_lookup.items() if p.alternate_peripheral == current)
             # If the current peripheral has an alternate (primary), add it.
-            primary = peripheral_lookup[current].alternate_peripheral
+            # The named peripheral may not exist (or may have been ignored), it has no alternate then.
+            primary = peripheral_lookup[current].alternate_peripheral if current in peripheral_lookup else None
             if primary is not None:
                 stack.append(primary)
 
@@ -975,7 +976,8 @@ class _ValidateAndFinalize:
             # Add clusters that have 'current' as their alternate.
             stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
             # If the current cluster has an alternate (primary), add it.
-            primary = cluster_lookup[current].alternate_cluster
+            # The named cluster may not exist (or may have been ignored), it has no alternate then.
+            primary = cluster_lookup[current].alternate_cluster if current in cluster_lookup else None
             if primary is not None:
                 stack.append(primary)
 
-- 
2.43.0


From d3bacb8d55e4ccb45e62e7d74ca639f5d2ca47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 03/38] fix: resolver exceptions escape from Process instead of
 ProcessException

---
 src/svdsuite/process.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 4e75bd4..800001e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -48,6 +48,8 @@ from svdsuite.resolve.exception import (
     LoopException,
     CycleException,
     UnprocessedNodesException,
+    ResolveException,
+    ResolverGraphException,
 )
 from svdsuite.model.type_alias import ParsedDimablePeripheralTypes, IntermediateDimablePeripheralTypes
 
@@ -104,6 +106,8 @@ class Process:
             raise ProcessException("A circular inheritance was detected during resolving") from e
         except UnprocessedNodesException as e:
             raise ProcessException("Some nodes were not processed during resolving") from e
+        except (ResolveException, ResolverGraphException) as e:
+            raise ProcessException(f"Resolving failed: {e}") from e
 
         intermediate_device = IDevice(
             size=size,
-- 
2.43.0


From 4395b632f83fc1efdaeeb062530a410509324bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:04 +0000
Subject: [PATCH 04/38] fix: replicated derived elements keep a stray derive
 edge

A derived element replicated together with its base got two derive edges, only
one of which was removed on processing. The other one made the base look like
the parent of the derived element in the finalization.
---
 src/svdsuite/resolve/graph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index b152d4c..da3bf7c 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -259,6 +259,10 @@ class ResolverGraph:
                 if child_rx_index not in rx_indices_to_replicate:
                     continue
 
+                # handled below, a second derive edge would never be removed
+                if edge_type == EdgeType.DERIVE:
+                    continue
+
                 self._graph.add_edge(replica_mapping[rx_index], replica_mapping[child_rx_index], edge_type)
 
             # replicate incoming _EdgeType.DERIVE edges
-- 
2.43.0


From 74b1f1bb5c1dcb227cd989be92b7ada2fd3c985f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 05/38] fix: derived element processed before its base is

An element was processed in a round in which its base could not be processed
yet, e.g. as the base waits for the expansion of a dim element. This ended in an
exception, or lost the values in case of enumerated value containers.
---
 src/svdsuite/resolve/resolver.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 9e47945..17e1821 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -76,6 +76,10 @@ class Resolver:
             previous_nodes = processable_nodes
 
             for node in processable_nodes:
+                # base not processable in this round, try again in the next one
+                if self._is_waiting_for_base_or_parent(node):
+                    continue
+
                 self._process_node(node)
 
             self._logger.log_round_end()
@@ -327,6 +331,15 @@ class Resolver:
 
         return False
 
+    def _is_waiting_for_base_or_parent(self, node: ElementNode) -> bool:
+        base_node = self._resolver_graph.get_base_element_node(node)
+        if base_node is not None and base_node.status != NodeStatus.PROCESSED:
+            return True
+
+        return any(
+            parent.status != NodeStatus.PROCESSED for parent in self._resolver_graph.get_element_parents(node)
+        )
+
     def _finalize_node(self, node: ElementNode, child_nodes: list[ElementNode]):
         if node.is_dim_template:
             return
-- 
2.43.0


From a387c337a5729422a5ab27971edb0b18a76e4ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:41 +0000
Subject: [PATCH 06/38] fix: unresolved derivedFrom lost when an expanded dim
 element is derived

Unresolved children of an expanded dim element were replicated without their
placeholder, so that their derivedFrom was never resolved.
---
 src/svdsuite/resolve/graph.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index da3bf7c..92df4fb 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -239,6 +239,17 @@ class ResolverGraph:
                 rx_indices_to_replicate.add(child_rx_index)
                 stack.append(child_rx_index)
 
+        # source_node may be an expanded dim element, unresolved placeholders of its children have an edge from the dim
+        # template only
+        template_placeholders: set[int] = set()
+        for _, child_rx_index, _ in self._graph.out_edges(source_rx_index):
+            for parent_rx_index, _, _ in self._graph.in_edges(child_rx_index):
+                is_placeholder = isinstance(self._graph[parent_rx_index], PlaceholderNode)
+                if is_placeholder and child_rx_index in rx_indices_to_replicate:
+                    template_placeholders.add(parent_rx_index)
+        template_placeholders -= rx_indices_to_replicate
+        rx_indices_to_replicate |= template_placeholders
+
         # replicate the nodes and map the indicies
         replica_mapping: dict[int, int] = {}
         for rx_index in rx_indices_to_replicate:
@@ -276,6 +287,7 @@ class ResolverGraph:
             for _, child_rx_index, _ in self._graph.out_edges(source_rx_index)
             if child_rx_index in rx_indices_to_replicate
         ]
+        immediate_children.extend(template_placeholders)
 
         # attach the replicated subgraph to target_node
         target_rx_index = self._node_to_rx_index[target_node]
-- 
2.43.0


From a196e97df5f51d67ef927d5f6eedef57d141d7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 07/38] fix: elements derived from the parent are taken for
 siblings

The siblings of an element, among which a derivedFrom is looked up first,
included the elements derived from its parent.
---
 src/svdsuite/resolve/graph.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 92df4fb..ba6e4d3 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -109,17 +109,8 @@ class ResolverGraph:
         # hence, the first parent suffices to find siblings
         parent = parents[0]
 
-        siblings: list[ElementNode] = []
-        for child in self._graph.successors(self._node_to_rx_index[parent]):
-            if not isinstance(child, ElementNode):
-                continue
-
-            if child == node:
-                continue
-
-            siblings.append(child)
-
-        return siblings
+        # elements derived from the parent are successors as well, but no siblings
+        return [child for child in self.get_element_childrens(parent) if child != node]
 
     def remove_placeholder(self, placeholder: PlaceholderNode):
         self._remove_node(placeholder)
-- 
2.43.0


From 03253587f4cc6eaaa5c32a17a00200f034c1d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 08/38] fix: allocated range ends with the block of the highest
 offset, even if another block reaches further

---
 src/svdsuite/map.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index cd4f0fa..fb56e4f 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -78,12 +78,10 @@ class PeripheralRegisterMap:
         return registers
 
     def _get_allocated_range(self, start_address: int, address_blocks: list[AddressBlock]) -> tuple[int, int]:
-        address_blocks = sorted(address_blocks, key=lambda x: x.offset)
-
         if not address_blocks:
             raise ValueError("Address blocks are empty")
 
-        begin = start_address + address_blocks[0].offset
-        end = start_address + address_blocks[-1].offset + address_blocks[-1].size - 1
+        begin = start_address + min(block.offset for block in address_blocks)
+        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
 
         return (begin, end)
-- 
2.43.0


From a7fa8fbae27e2164dcfbd6772c3477ed02362536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 09/38] fix: resolver log is never written

---
 src/svdsuite/resolve/resolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 17e1821..1e7676b 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -85,6 +85,7 @@ class Resolver:
             self._logger.log_round_end()
 
         self._logger.log_repeating_steps_finished()
+        self._logger.log_finalize()
 
         if self._resolver_graph.get_unprocessed_nodes():
             raise UnprocessedNodesException(
-- 
2.43.0


From c26935a6824336cf459576013ea8e2c98f5c6768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:12 +0000
Subject: [PATCH 10/38] fix: repeated element without text ends in TypeError

---
 src/svdsuite/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 82b4378..6bebd4f 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -143,7 +143,7 @@ class Parser:
         elements = parent.findall(element_name)
 
         if len(elements) > 1:
-            texts = ", ".join([x.text for x in elements])  # type: ignore[union-attr]
+            texts = ", ".join([x.text or "" for x in elements])
             lines = ", ".join([str(x.sourceline) for x in elements])
             warnings.warn(
                 f"Multiple elements '{element_name}' with texts '{texts}' found at svd file source lines '{lines}'. "
-- 
2.43.0


From c45a848942b6030b274132d6f1c3871ceab82516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 11/38] fix: serializer drops a bit position stated in part

---
 src/svdsuite/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index afaac20..c0cffdc 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -316,12 +316,16 @@ class SVDFieldSerializer(XMLSerializable):
         if self.field.description is not None:
             element.append(self._append_element("description", text=self.field.description))
 
-        if self.field.bit_offset is not None and self.field.bit_width is not None:
+        if self.field.bit_offset is not None:
             element.append(self._append_element("bitOffset", text=str(self.field.bit_offset)))
+
+        if self.field.bit_width is not None:
             element.append(self._append_element("bitWidth", text=str(self.field.bit_width)))
 
-        if self.field.lsb is not None and self.field.msb is not None:
+        if self.field.lsb is not None:
             element.append(self._append_element("lsb", text=str(self.field.lsb)))
+
+        if self.field.msb is not None:
             element.append(self._append_element("msb", text=str(self.field.msb)))
 
         if self.field.bit_range is not None:
-- 
2.43.0


From 1bd026ba30ea2d1c793be772bd1f146230ff4007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:45 +0000
Subject: [PATCH 12/38] fix: encoding named in the XML declaration of a string
 garbles its text

---
 src/svdsuite/map.py            |  2 +-
 src/svdsuite/parse.py          |  2 +-
 src/svdsuite/process.py        |  2 +-
 src/svdsuite/util/xml_parse.py | 12 +++++++++---
 src/svdsuite/validate.py       |  2 +-
 5 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/svdsuite/map.py b/src/svdsuite/map.py
index fb56e4f..3003ecc 100644
--- a/src/svdsuite/map.py
+++ b/src/svdsuite/map.py
@@ -10,7 +10,7 @@ class PeripheralRegisterMap:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Process.from_xml_content(xml_str.encode(), resolver_logging_file_path).get_processed_device())
+        return cls(Process.from_xml_str(xml_str, resolver_logging_file_path).get_processed_device())
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 6bebd4f..fef0fe5 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -103,7 +103,7 @@ class Parser:
 
     @staticmethod
     def from_xml_str(xml_str: str):
-        return Parser.from_xml_content(xml_str.encode())
+        return Parser(safe_fromstring(xml_str).getroottree())
 
     @classmethod
     def from_xml_content(cls, content: bytes):
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 800001e..a548049 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -73,7 +73,7 @@ class Process:
 
     @classmethod
     def from_xml_str(cls, xml_str: str, resolver_logging_file_path: None | str = None):
-        return cls(Parser.from_xml_content(xml_str.encode()).get_parsed_device(), resolver_logging_file_path)
+        return cls(Parser.from_xml_str(xml_str).get_parsed_device(), resolver_logging_file_path)
 
     @classmethod
     def from_xml_content(cls, content: bytes, resolver_logging_file_path: None | str = None):
diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 5bccf84..73081ab 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -49,10 +49,16 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     raise original_exception
 
 
-def safe_fromstring(content: bytes) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
-    # First attempt: no encoding, recover=False.
+def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[reportPrivateUsage]
+    # A string is already decoded, an encoding stated in its XML declaration doesn't apply to the bytes made from it.
+    encoding = None
+    if isinstance(content, str):
+        encoding = "utf-8"
+        content = content.encode(encoding)
+
+    # First attempt: encoding as declared (or given by the string), recover=False.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = etree.XMLParser(encoding=encoding, recover=False)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
diff --git a/src/svdsuite/validate.py b/src/svdsuite/validate.py
index 9f18e80..3c695c9 100644
--- a/src/svdsuite/validate.py
+++ b/src/svdsuite/validate.py
@@ -50,7 +50,7 @@ class Validator:
     def validate_xml_str(
         xml_str: str, get_exception: bool = True, schema_version: SVDSchemaVersion = SVDSchemaVersion.get_latest()
     ) -> bool:
-        return Validator.validate_xml_content(xml_str.encode(), get_exception, schema_version)
+        return Validator._validate(safe_fromstring(xml_str).getroottree(), get_exception, schema_version)
 
     @staticmethod
     def _validate(
-- 
2.43.0


From 88f548d7bbdaa921fedfe6aa11adfa7636a2b703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:32 +0000
Subject: [PATCH 13/38] fix: fallback encodings are not tried for files

---
 src/svdsuite/util/xml_parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 73081ab..019d5a0 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -12,11 +12,12 @@ _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
+    # Depending on the libxml2 version, bytes that don't fit the encoding of a file are reported as OSError.
     try:
         parser = etree.XMLParser(recover=False)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
-    except etree.XMLSyntaxError as e:
+    except (etree.XMLSyntaxError, OSError) as e:
         original_exception = e
 
     # Second attempt: try common encodings with recover=False.
@@ -29,7 +30,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except (etree.XMLSyntaxError, OSError):
             continue
 
     # Third attempt: try common encodings with recover=True.
@@ -42,7 +43,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
                 ParserWarning,
             )
             return tree
-        except etree.XMLSyntaxError:
+        except (etree.XMLSyntaxError, OSError):
             continue
 
     # If all attempts fail, re-raise the original exception.
-- 
2.43.0


From 27a6b589fd2372df218caa55c01479446917625e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 14/38] fix: write constraints of a converted device have no
 parent

---
 src/svdsuite/util/process_parse_model_convert.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/svdsuite/util/process_parse_model_convert.py b/src/svdsuite/util/process_parse_model_convert.py
index 04ad35f..6fd08c5 100644
--- a/src/svdsuite/util/process_parse_model_convert.py
+++ b/src/svdsuite/util/process_parse_model_convert.py
@@ -186,6 +186,9 @@ def process_parse_convert_field(field: Field) -> SVDField:
     for container in enumerated_value_containers:
         container.parent = svd_field
 
+    if svd_field.write_constraint is not None:
+        svd_field.write_constraint.parent = svd_field
+
     return svd_field
 
 
@@ -218,6 +221,9 @@ def process_parse_convert_register(register: Register) -> SVDRegister:
     for field in fields:
         field.parent = svd_register
 
+    if svd_register.write_constraint is not None:
+        svd_register.write_constraint.parent = svd_register
+
     return svd_register
 
 
-- 
2.43.0


From b6cdb44abd368985de556be08d858e5dee323a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 15/38] fix: wording of overlap warnings depends on the hash
 seed

---
 src/svdsuite/process.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index a548049..00ff801 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -712,7 +712,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Effective peripheral address overlap: '{periph.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate peripherals {allowed_names}",
+                                f"which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -733,7 +733,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"Specified peripheral address overlap in address_blocks: '{periph.name}' overlaps "
-                                f"with '{name}', which is not among the allowed alternate peripherals {allowed_names}",
+                                f"with '{name}', which is not among the allowed alternate peripherals {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
@@ -921,7 +921,7 @@ class _ValidateAndFinalize:
                         if name not in allowed_names:
                             warnings.warn(
                                 f"{type_label} '{item.name}' overlaps with '{name}', "
-                                f"which is not among the allowed alternate {type_label.lower()}s {allowed_names}",
+                                f"which is not among the allowed alternate {type_label.lower()}s {sorted(allowed_names)}",
                                 ProcessWarning,
                             )
                     else:
-- 
2.43.0


From 2b4544a0b3b925aa60851e609de8e379d8b62e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:41 +0000
Subject: [PATCH 16/38] fix: default value in a field with msb below lsb ends
 in TypeError

---
 src/svdsuite/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 00ff801..50d36d7 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1258,7 +1258,7 @@ class _ProcessEnumeratedValueContainer:
         self, enumerated_values: list[IEnumeratedValue], default: IEnumeratedValue, lsb: int, msb: int
     ) -> list[IEnumeratedValue]:
         covered_values = {value.value for value in enumerated_values if value.value is not None}
-        all_possible_values = set(range(pow(2, msb - lsb + 1)))
+        all_possible_values = set(range(pow(2, msb - lsb + 1))) if msb >= lsb else set()
 
         uncovered_values = all_possible_values - covered_values
 
-- 
2.43.0


From b6a7822fbbbd9325004a4446f1e504e84d9a1779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 17/38] fix: content nothing can be recovered from ends in
 AttributeError

---
 src/svdsuite/util/xml_parse.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index 019d5a0..cabc975 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -38,6 +38,8 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
             tree = etree.parse(path_or_file, parser=parser)
+            if tree.getroot() is None:  # nothing could be recovered
+                continue
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
@@ -83,6 +85,8 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
         try:
             parser = etree.XMLParser(encoding=enc, recover=True)
             root = etree.fromstring(content, parser=parser)
+            if root is None:  # nothing could be recovered
+                continue
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=True.",
                 ParserWarning,
-- 
2.43.0


From 61e2542be460b9541d6162cfecbc424368625d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 18/38] fix: log of a document with quotes in a name fails

---
 src/svdsuite/resolve/graph.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index ba6e4d3..01efd10 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -357,6 +357,9 @@ class ResolverGraph:
                     queue.append(parent)
 
     def get_svg(self) -> str:
+        def escape(text: str) -> str:  # texts are put into double quotes unescaped
+            return text.replace("\\", "\\\\").replace('"', '\\"')
+
         def node_attr_fn(node: ResolverNode) -> dict[str, str]:
             if isinstance(node, ElementNode):
                 if node.level == ElementLevel.DEVICE:
@@ -364,7 +367,7 @@ class ResolverGraph:
 
                 return {
                     "label": (
-                        f"{node.name}\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
+                        f"{escape(node.name)}\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
                         if node.name
                         else f"no name\n({node.level.value})\nrx_index: {self._node_to_rx_index[node]}"
                     ),
@@ -373,7 +376,7 @@ class ResolverGraph:
                 }
             elif isinstance(node, PlaceholderNode):
                 return {
-                    "label": f"{node.derive_path}\n(Placeholder)\nrx_index: {self._node_to_rx_index[node]}",
+                    "label": f"{escape(node.derive_path)}\n(Placeholder)\nrx_index: {self._node_to_rx_index[node]}",
                     "color": "red",
                     "fontcolor": "red",
                 }
-- 
2.43.0


From 21b48671223c577a694c51c9b8018c8303690a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 19/38] fix: comments and processing instructions within a text
 don't cut it off

---
 src/svdsuite/util/xml_parse.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/util/xml_parse.py b/src/svdsuite/util/xml_parse.py
index cabc975..4063861 100644
--- a/src/svdsuite/util/xml_parse.py
+++ b/src/svdsuite/util/xml_parse.py
@@ -10,11 +10,16 @@ warnings.formatwarning = custom_warning_format
 _COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]
 
 
+def _xml_parser(recover: bool, encoding: str | None = None) -> etree.XMLParser:
+    # Comments and processing instructions have no meaning, but would split the text of the element they are in.
+    return etree.XMLParser(encoding=encoding, recover=recover, remove_comments=True, remove_pis=True)
+
+
 def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright: ignore[reportPrivateUsage]
     # First attempt: no encoding, recover=False.
     # Depending on the libxml2 version, bytes that don't fit the encoding of a file are reported as OSError.
     try:
-        parser = etree.XMLParser(recover=False)
+        parser = _xml_parser(recover=False)
         tree = etree.parse(path_or_file, parser=parser)
         return tree
     except (etree.XMLSyntaxError, OSError) as e:
@@ -23,7 +28,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = _xml_parser(encoding=enc, recover=False)
             tree = etree.parse(path_or_file, parser=parser)
             warnings.warn(
                 f"XML file parsed using fallback encoding '{enc}' with recover=False.",
@@ -36,7 +41,7 @@ def safe_parse(path_or_file: str | BinaryIO) -> etree._ElementTree:  # pyright:
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = _xml_parser(encoding=enc, recover=True)
             tree = etree.parse(path_or_file, parser=parser)
             if tree.getroot() is None:  # nothing could be recovered
                 continue
@@ -61,7 +66,7 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
 
     # First attempt: encoding as declared (or given by the string), recover=False.
     try:
-        parser = etree.XMLParser(encoding=encoding, recover=False)
+        parser = _xml_parser(encoding=encoding, recover=False)
         root = etree.fromstring(content, parser=parser)
         return root
     except etree.XMLSyntaxError as e:
@@ -70,7 +75,7 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
     # Second attempt: try common encodings with recover=False.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=False)
+            parser = _xml_parser(encoding=enc, recover=False)
             root = etree.fromstring(content, parser=parser)
             warnings.warn(
                 f"XML content parsed using fallback encoding '{enc}' with recover=False.",
@@ -83,7 +88,7 @@ def safe_fromstring(content: bytes | str) -> etree._Element:  # pyright: ignore[
     # Third attempt: try common encodings with recover=True.
     for enc in _COMMON_ENCODINGS:
         try:
-            parser = etree.XMLParser(encoding=enc, recover=True)
+            parser = _xml_parser(encoding=enc, recover=True)
             root = etree.fromstring(content, parser=parser)
             if root is None:  # nothing could be recovered
                 continue
-- 
2.43.0


From a959cd004b4a3a7dffccf4b84265c046f28390fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 20/38] fix: malformed dimIndex ends in ValueError or TypeError

---
 src/svdsuite/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 50d36d7..40f63fb 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1124,25 +1124,25 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.match(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
-        elif re.match(r"[A-Z]-[A-Z]", dim_index):
+        elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
 
             if ord(start) >= ord(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
             dim_index_list = [chr(i) for i in range(ord(start), ord(end) + 1)]
-        elif re.match(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\s*[_0-9a-zA-Z]+)+", dim_index):
             dim_index_no_whitespace = re.sub(r"\s+", "", dim_index)
             dim_index_list = dim_index_no_whitespace.split(",")
         # Not supported by the XSD, but required to parse some vendor files
-        elif re.match(r"[_0-9a-zA-Z]+", dim_index):
+        elif re.fullmatch(r"[_0-9a-zA-Z]+", dim_index):
             dim_index_list = [dim_index]
         else:
             raise ProcessException(f"can't resolve dim index for '{dim_index}'")
-- 
2.43.0


From cc77a00fd25215dc0425f083264cbe7d1824db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 21/38] fix: a huge dimIndex range exhausts the memory before
 it is refused

---
 src/svdsuite/process.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 40f63fb..b2b12de 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1130,6 +1130,9 @@ class _ProcessDimension:
             if int(start) > int(end):
                 raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
 
+            if int(end) - int(start) + 1 != dim:  # don't list a range which can't fit, it may be huge
+                raise ProcessException(f"dim index '{dim_index}' does not match the dim value '{dim}'")
+
             dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
         elif re.fullmatch(r"[A-Z]-[A-Z]", dim_index):
             start, end = dim_index.split("-")
-- 
2.43.0


From 7794ab950758d2c6c723cf8597d65bbf5acb46bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 22/38] fix: resolver log is lost if resolving fails and the
 program ends

---
 src/svdsuite/resolve/resolver.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 1e7676b..5013def 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -56,6 +56,13 @@ class Resolver:
         return self._root_node_
 
     def resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
+        try:
+            return self._resolve_peripherals(parsed_device)
+        finally:
+            # the log is needed most if resolving fails, and at interpreter shutdown it is too late to write it
+            self._logger.log_finalize()
+
+    def _resolve_peripherals(self, parsed_device: SVDDevice) -> list[IPeripheral]:
         self._initialization(parsed_device)
 
         self._logger.log_repeating_steps_start()
-- 
2.43.0


From 98dd1d21e0bdd5bdecb880cf6fca814a1c65c944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 23/38] fix: numbers with a # in the middle are guessed at

---
 src/svdsuite/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index fef0fe5..4b2c5e6 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -85,7 +85,8 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
         return None
 
     # transfer binary value to a string int function can handle
-    value = value.replace("#", "0b")
+    if value.lstrip("+-").startswith("#"):
+        value = value.replace("#", "0b", 1)
 
     try:
         return int(value, base)
-- 
2.43.0


From 8fd73a8a6d4d4933d42523ff68d4dd2ef3870b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 24/38] fix: a device that can't be serialized costs the
 existing file

---
 src/svdsuite/serialize.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/svdsuite/serialize.py b/src/svdsuite/serialize.py
index c0cffdc..cbe4857 100644
--- a/src/svdsuite/serialize.py
+++ b/src/svdsuite/serialize.py
@@ -20,15 +20,11 @@ from svdsuite.model.parse import (
 class Serializer:
     @staticmethod
     def device_to_svd_file(path: str, device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True):
+        # a device that can't be serialized must not cost the existing file
+        content = Serializer.device_to_svd_content(device, pretty_print=pretty_print, xml_declaration=xml_declaration)
+
         with open(path, "wb") as f:
-            f.write(
-                lxml.etree.tostring(
-                    SVDDeviceSerializer(device).to_xml(),
-                    pretty_print=pretty_print,
-                    xml_declaration=xml_declaration,
-                    encoding="utf-8",
-                )
-            )
+            f.write(content)
 
     @staticmethod
     def device_to_svd_content(device: SVDDevice, pretty_print: bool = False, xml_declaration: bool = True) -> bytes:
-- 
2.43.0


From 1a09a789cf573af904d6efd077223b2ef79a12ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 25/38] fix: notations only Python knows are taken for numbers

---
 src/svdsuite/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 4b2c5e6..62ceabe 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -1,3 +1,4 @@
+import re
 import warnings
 from typing import Literal, Optional, overload
 
@@ -88,6 +89,10 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
     if value.lstrip("+-").startswith("#"):
         value = value.replace("#", "0b", 1)
 
+    # int() also takes notations the standard doesn't know, e.g. '1_000', '0o17' or digits outside ASCII
+    if not re.fullmatch(r"[+-]?(0x[0-9a-f]+|0b[01]+|[0-9]+)", value, re.IGNORECASE):
+        raise NotImplementedError(f"can't parse value '{value}' in function _to_int")
+
     try:
         return int(value, base)
     except ValueError as exc:
-- 
2.43.0


From 442572073a9769879fe78dedcf87a1cec571b2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 26/38] fix: malformed literals of enumerated values are taken
 for numbers

---
 src/svdsuite/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index b2b12de..d9af61e 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1280,14 +1280,14 @@ class _ProcessEnumeratedValueContainer:
 
     def _convert_enumerated_value(self, input_str: str) -> list[int]:
         # transfer binary value to a string int function can handle
-        input_str = input_str.lower().replace("#", "0b")
+        input_str = re.sub(r"^#", "0b", input_str.lower())
 
         try:
-            if input_str.startswith("0b"):
+            if re.fullmatch(r"0b[01x]+", input_str):
                 return self._process_binary_value_with_wildcard(input_str[2:])
-            elif input_str.startswith("0x"):
+            elif re.fullmatch(r"0x[0-9a-f]+", input_str):
                 return [int(input_str, 16)]
-            elif input_str.isdigit():
+            elif re.fullmatch(r"[0-9]+", input_str):
                 return [int(input_str)]
             else:
                 raise ProcessException(f"Unrecognized format for input: '{input_str}'")
-- 
2.43.0


From d2fdf24f173ca666ca56a558094870a2ea1b05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 27/38] fix: comparing parsed elements ends in RecursionError

---
 src/svdsuite/model/parse.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/svdsuite/model/parse.py b/src/svdsuite/model/parse.py
index c059139..7edd31c 100644
--- a/src/svdsuite/model/parse.py
+++ b/src/svdsuite/model/parse.py
@@ -21,7 +21,7 @@ class SVDSauRegion:
     base: int
     limit: int
     access: SauAccessType
-    parent: "None | SVDSauRegionsConfig" = None
+    parent: "None | SVDSauRegionsConfig" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -29,7 +29,7 @@ class SVDSauRegionsConfig:
     enabled: None | bool = None
     protection_when_disabled: None | ProtectionStringType = None
     regions: list[SVDSauRegion] = field(default_factory=list)
-    parent: "None | SVDCPU" = None
+    parent: "None | SVDCPU" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -51,7 +51,7 @@ class SVDCPU:
     device_num_interrupts: None | int = None
     sau_num_regions: None | int = None
     sau_regions_config: None | SVDSauRegionsConfig = None
-    parent: "None | SVDDevice" = None
+    parent: "None | SVDDevice" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -60,14 +60,14 @@ class SVDEnumeratedValue:
     description: None | str = None
     value: None | str = None  # int value, but can contain 'do not care' bits represented by >x<
     is_default: None | bool = None
-    parent: "None | SVDEnumeratedValueContainer | SVDDimArrayIndex" = None
+    parent: "None | SVDEnumeratedValueContainer | SVDDimArrayIndex" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
 class SVDDimArrayIndex:
     header_enum_name: None | str = None
     enumerated_values: list[SVDEnumeratedValue]
-    parent: "None | SVDPeripheral | SVDCluster | SVDRegister | SVDField" = None
+    parent: "None | SVDPeripheral | SVDCluster | SVDRegister | SVDField" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -94,7 +94,7 @@ class SVDAddressBlock:
     size: int
     usage: EnumeratedTokenType
     protection: None | ProtectionStringType = None
-    parent: "None | SVDPeripheral" = None
+    parent: "None | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -102,7 +102,7 @@ class SVDInterrupt:
     name: str
     description: None | str = None
     value: int
-    parent: "None | SVDPeripheral" = None
+    parent: "None | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -110,7 +110,7 @@ class SVDWriteConstraint:
     write_as_read: None | bool = None
     use_enumerated_values: None | bool = None
     range_: None | tuple[int, int] = None
-    parent: "None | SVDField | SVDRegister" = None
+    parent: "None | SVDField | SVDRegister" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -120,7 +120,7 @@ class SVDEnumeratedValueContainer:
     usage: None | EnumUsageType = None
     enumerated_values: list[SVDEnumeratedValue]
     derived_from: None | str = None
-    parent: "None | SVDField" = None
+    parent: "None | SVDField" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -138,7 +138,7 @@ class SVDField(_SVDDimElementGroup):
     read_action: None | ReadActionType = None
     enumerated_value_containers: list[SVDEnumeratedValueContainer] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDRegister" = None
+    parent: "None | SVDRegister" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -155,7 +155,7 @@ class SVDRegister(_SVDDimElementGroup, _SVDRegisterPropertiesGroup):
     read_action: None | ReadActionType = None
     fields: list[SVDField] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDCluster  | SVDPeripheral" = None
+    parent: "None | SVDCluster  | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -167,7 +167,7 @@ class SVDCluster(_SVDDimElementGroup, _SVDRegisterPropertiesGroup):
     address_offset: int
     registers_clusters: list["SVDRegister | SVDCluster"] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDCluster | SVDPeripheral" = None
+    parent: "None | SVDCluster | SVDPeripheral" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
@@ -186,7 +186,7 @@ class SVDPeripheral(_SVDDimElementGroup, _SVDRegisterPropertiesGroup):
     interrupts: list[SVDInterrupt] = field(default_factory=list)
     registers_clusters: list[SVDRegister | SVDCluster] = field(default_factory=list)
     derived_from: None | str = None
-    parent: "None | SVDDevice" = None
+    parent: "None | SVDDevice" = field(default=None, compare=False)
 
 
 @dataclass(kw_only=True)
-- 
2.43.0


From b8ee497fb7b2bba88bab88db4c316a8d09a066f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 28/38] fix: base with an alternate of the same name isn't
 found in some orders

---
 src/svdsuite/resolve/resolver.py | 52 +++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 5013def..783c401 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -302,35 +302,45 @@ class Resolver:
                     )
                     matches.extend(child_matches)
 
-                if len(matches) > 1:
-                    filtered_matches = [
-                        match
-                        for match in matches
-                        if isinstance(match.processed, IRegister) and match.processed.alternate_group is None
-                    ]
-                    if len(filtered_matches) == 1:
-                        return filtered_matches
-
-                    # More than one match found – raise exception immediately
-                    raise ResolveException(f"Multiple base nodes found for derive path '{'.'.join(path_parts)}'")
-
             return matches
 
-        # Search in same scope
+        # Search in same scope, if not found, search over all peripherals
         siblings = self._resolver_graph.get_element_siblings(derived_node)
-        matches = search_nodes(siblings, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
-            return matches[0]
-
-        # If not found, search over all peripherals
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
-        matches = search_nodes(peripherals, derive_path_parts, derived_node, level)
-        if len(matches) == 1:
-            return matches[0]
+        for nodes in (siblings, peripherals):
+            matches = search_nodes(nodes, derive_path_parts, derived_node, level)
+            if len(matches) == 1:
+                return matches[0]
+
+            if len(matches) > 1:
+                # It isn't known yet whether a derived register inherits an alternate group, try again in the next round
+                if any(self._is_waiting_for_alternate_group(match) for match in matches):
+                    return None
+
+                filtered_matches = [match for match in matches if self._is_register_without_alternate_group(match)]
+                if len(filtered_matches) == 1:
+                    return filtered_matches[0]
+
+                # More than one match found – raise exception
+                raise ResolveException(f"Multiple base nodes found for derive path '{derive_path}'")
 
         # No matches found
         return None
 
+    def _is_waiting_for_alternate_group(self, node: ElementNode) -> bool:
+        return (
+            node.status != NodeStatus.PROCESSED
+            and isinstance(node.parsed, SVDRegister)
+            and node.parsed.alternate_group is None
+            and node.parsed.derived_from is not None
+        )
+
+    def _is_register_without_alternate_group(self, node: ElementNode) -> bool:
+        if node.status == NodeStatus.PROCESSED:
+            return isinstance(node.processed, IRegister) and node.processed.alternate_group is None
+
+        return isinstance(node.parsed, SVDRegister) and node.parsed.alternate_group is None
+
     def _is_placeholder_parent_resolved(self, placeholder: PlaceholderNode) -> bool:
         parent = self._resolver_graph.get_placeholder_parent(placeholder)
 
-- 
2.43.0


From f17d67faadb7ddfd425029ed85a4780bf0bb76f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:04 +0000
Subject: [PATCH 29/38] fix: copy of a derived element takes the original for a
 second base

---
 src/svdsuite/resolve/resolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 783c401..160b02a 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -286,7 +286,7 @@ class Resolver:
         ) -> list[ElementNode]:
             matches: list[ElementNode] = []
             for node in nodes:
-                if node == exclude_node:
+                if node.parsed is exclude_node.parsed:  # the node itself or the one it is a copy of
                     continue
                 if node.name != path_parts[0]:
                     continue
-- 
2.43.0


From 6147f9e940d9c80af48a9ab0b7d58a2720b017b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:00 +0000
Subject: [PATCH 30/38] fix: log of names beyond ASCII fails where UTF-8 isn't
 the default encoding

---
 src/svdsuite/resolve/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 01efd10..ec14c8b 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -395,7 +395,7 @@ class ResolverGraph:
             else:
                 return {}
 
-        with tempfile.NamedTemporaryFile(mode="w+", suffix=".svg") as temp_file:
+        with tempfile.NamedTemporaryFile(mode="w+", suffix=".svg", encoding="utf-8") as temp_file:
             graphviz_draw(
                 self._graph,
                 node_attr_fn=node_attr_fn,
-- 
2.43.0


From 046a7860f6da9e785addfcaea97d06a9369ff707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:35 +0000
Subject: [PATCH 31/38] fix: names and paths with markup are put into the log
 as they are

---
 src/svdsuite/resolve/graph.py       | 4 ++--
 src/svdsuite/resolve/logger.py      | 5 +++--
 src/svdsuite/util/html_generator.py | 5 +++--
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index ec14c8b..945154c 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -357,8 +357,8 @@ class ResolverGraph:
                     queue.append(parent)
 
     def get_svg(self) -> str:
-        def escape(text: str) -> str:  # texts are put into double quotes unescaped
-            return text.replace("\\", "\\\\").replace('"', '\\"')
+        def escape(text: str) -> str:  # texts are put into double quotes unescaped, entities in them are replaced
+            return text.replace("\\", "\\\\").replace('"', '\\"').replace("&", "&amp;")
 
         def node_attr_fn(node: ResolverNode) -> dict[str, str]:
             if isinstance(node, ElementNode):
diff --git a/src/svdsuite/resolve/logger.py b/src/svdsuite/resolve/logger.py
index a168db4..4970e8e 100644
--- a/src/svdsuite/resolve/logger.py
+++ b/src/svdsuite/resolve/logger.py
@@ -1,3 +1,4 @@
+import html
 import itertools
 from typing import Any, Callable
 
@@ -62,7 +63,7 @@ class ResolverLogger:
 
     @_only_execute_if_logging_is_active
     def log_resolved_placeholder(self, derive_path: str):
-        self._current_round_resolved_placeholders.append(derive_path)
+        self._current_round_resolved_placeholders.append(html.escape(derive_path))
 
     @_only_execute_if_logging_is_active
     def log_resolve_placeholder_finished(self):
@@ -92,7 +93,7 @@ class ResolverLogger:
             "<br />".join(
                 [
                     f"{self._resolver_graph._node_to_rx_index[node]}: "  # pylint: disable=W0212  #pyright: ignore[reportPrivateUsage]
-                    f"{node.name or 'no name'} ({node.level.value})"
+                    f"{html.escape(node.name or 'no name')} ({node.level.value})"
                     for node in topological_sorted_nodes
                 ]
             ),
diff --git a/src/svdsuite/util/html_generator.py b/src/svdsuite/util/html_generator.py
index 26ceb4b..602cb26 100644
--- a/src/svdsuite/util/html_generator.py
+++ b/src/svdsuite/util/html_generator.py
@@ -251,8 +251,9 @@ class HTMLGenerator:
         return lxml.etree.tostring(tree, pretty_print=True, encoding="unicode")
 
     def _compress_with_gzip(self) -> str:
-        html_content = self.html_content_template.replace("BODY_CONTENT", self._body_content)
-        html_content = html_content.replace("SVG_PAN_ZOOM_INSTANCES", self._svg_pan_zoom_instances)
+        # the body comes last, names in it may look like a marker
+        html_content = self.html_content_template.replace("SVG_PAN_ZOOM_INSTANCES", self._svg_pan_zoom_instances)
+        html_content = html_content.replace("BODY_CONTENT", self._body_content)
 
         # Compress the HTML content using gzip
         compressed_data = gzip.compress(html_content.encode("utf-8"))
-- 
2.43.0


From 456bceefcda24a5436fa684409ff492d27da9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:01 +0000
Subject: [PATCH 32/38] fix: numbers of thousands of digits are refused in
 every notation

---
 src/svdsuite/parse.py   | 5 +++--
 src/svdsuite/process.py | 7 +++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 62ceabe..1521f39 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -89,8 +89,9 @@ def _to_int(value: None | str, base: int = 0) -> None | int:
     if value.lstrip("+-").startswith("#"):
         value = value.replace("#", "0b", 1)
 
-    # int() also takes notations the standard doesn't know, e.g. '1_000', '0o17' or digits outside ASCII
-    if not re.fullmatch(r"[+-]?(0x[0-9a-f]+|0b[01]+|[0-9]+)", value, re.IGNORECASE):
+    # int() also takes notations the standard doesn't know, e.g. '1_000', '0o17' or digits outside ASCII. Numbers of
+    # thousands of digits can't be converted to text by python, so they are refused in every notation
+    if len(value) > 1000 or not re.fullmatch(r"[+-]?(0x[0-9a-f]+|0b[01]+|[0-9]+)", value, re.IGNORECASE):
         raise NotImplementedError(f"can't parse value '{value}' in function _to_int")
 
     try:
diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index d9af61e..f88a178 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -442,7 +442,7 @@ class Process:
 
         if parsed_field.bit_range is not None:
             if bit_range is not None:
-                match = re.match(r"\[(\d+):(\d+)\]", bit_range)
+                match = re.match(r"\[(\d{1,1000}):(\d{1,1000})\]", bit_range)
                 if match:
                     field_msb, field_lsb = map(int, match.groups())
 
@@ -1124,7 +1124,7 @@ class _ProcessDimension:
 
         if dim_index is None:
             dim_index_list = [str(i) for i in range(dim)]
-        elif re.fullmatch(r"[0-9]+\-[0-9]+", dim_index):
+        elif re.fullmatch(r"[0-9]{1,1000}\-[0-9]{1,1000}", dim_index):
             start, end = dim_index.split("-")
 
             if int(start) > int(end):
@@ -1279,6 +1279,9 @@ class _ProcessEnumeratedValueContainer:
         return [value for value in enumerated_values if not value.is_default]
 
     def _convert_enumerated_value(self, input_str: str) -> list[int]:
+        if len(input_str) > 1000:  # python can't convert numbers of thousands of digits
+            raise ProcessException(f"Unrecognized format for input: '{input_str}'")
+
         # transfer binary value to a string int function can handle
         input_str = re.sub(r"^#", "0b", input_str.lower())
 
-- 
2.43.0


From 37efb97366756c7b0f13db2c1279e556800de35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:25 +0000
Subject: [PATCH 33/38] fix: checking enumerated values against the field's
 width takes no time and memory for huge widths

---
 src/svdsuite/process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index f88a178..33f3b93 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -1078,10 +1078,11 @@ class _ValidateAndFinalize:
             if i_enum_value.value is None:
                 raise ProcessException("Enumerated value must have a value")
 
-            if i_enum_value.value < 0 or i_enum_value.value > (2 ** (msb - lsb + 1) - 1):
+            width = msb - lsb + 1
+            if i_enum_value.value < 0 or i_enum_value.value.bit_length() > width:
                 warnings.warn(
                     f"Enumerated value '{i_enum_value.name}' with value '{i_enum_value.value}' is outside of the valid "
-                    f"range for a field of width {msb - lsb + 1} (0 to {2 ** (msb - lsb + 1) - 1}). "
+                    f"range for a field of width {width} (0 to {2 ** max(width, 0) - 1}). "
                     "Enumerated value will be ignored.",
                     ProcessWarning,
                 )
-- 
2.43.0


From 513b6b64bb19e8dea1468a809e3b0502a6a63e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:12 +0000
Subject: [PATCH 34/38] fix: derivation copied with its element is resolved in
 the copied element's scope, whenever it is resolved

---
 src/svdsuite/resolve/graph.py          |  5 ++++-
 src/svdsuite/resolve/graph_elements.py |  8 +++++++-
 src/svdsuite/resolve/resolver.py       | 17 ++++++++++++++---
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/svdsuite/resolve/graph.py b/src/svdsuite/resolve/graph.py
index 945154c..db38925 100644
--- a/src/svdsuite/resolve/graph.py
+++ b/src/svdsuite/resolve/graph.py
@@ -420,6 +420,9 @@ class ResolverGraph:
             )
 
         if isinstance(existing_node, PlaceholderNode):
-            return PlaceholderNode(derive_path=existing_node.derive_path)
+            return PlaceholderNode(
+                derive_path=existing_node.derive_path,
+                scope_node=existing_node.scope_node or self.get_placeholder_child(existing_node),
+            )
 
         raise ResolverGraphException("Unknown node type")
diff --git a/src/svdsuite/resolve/graph_elements.py b/src/svdsuite/resolve/graph_elements.py
index b879953..ddacb40 100644
--- a/src/svdsuite/resolve/graph_elements.py
+++ b/src/svdsuite/resolve/graph_elements.py
@@ -32,11 +32,17 @@ class ResolverNode(ABC):
 
 
 class PlaceholderNode(ResolverNode):
-    def __init__(self, derive_path: str):
+    def __init__(self, derive_path: str, scope_node: "None | ElementNode" = None):
         self._derive_path = derive_path
+        self._scope_node = scope_node
 
         super().__init__()
 
+    @property
+    def scope_node(self) -> "None | ElementNode":
+        # the element of the document in whose scope the path is looked up, if the placeholder belongs to a copy of it
+        return self._scope_node
+
     @property
     def derive_path(self) -> str:
         return self._derive_path
diff --git a/src/svdsuite/resolve/resolver.py b/src/svdsuite/resolve/resolver.py
index 160b02a..5b0e4ed 100644
--- a/src/svdsuite/resolve/resolver.py
+++ b/src/svdsuite/resolve/resolver.py
@@ -260,7 +260,13 @@ class Resolver:
             return
 
         derive_node = self._resolver_graph.get_placeholder_child(placeholder)
-        base_node = self._derived_from_path_resolving(derive_node, placeholder.derive_path)
+
+        # a copy has the base of the element it is a copy of, no matter whether that is resolved before or after copying
+        scope_node = placeholder.scope_node or derive_node
+        if self._is_waiting_for_parent(scope_node):
+            return
+
+        base_node = self._derived_from_path_resolving(derive_node, scope_node, placeholder.derive_path)
 
         if base_node is None:
             return
@@ -277,7 +283,9 @@ class Resolver:
 
         self._logger.log_resolved_placeholder(placeholder.derive_path)
 
-    def _derived_from_path_resolving(self, derived_node: ElementNode, derive_path: str) -> None | ElementNode:
+    def _derived_from_path_resolving(
+        self, derived_node: ElementNode, scope_node: ElementNode, derive_path: str
+    ) -> None | ElementNode:
         derive_path_parts = derive_path.split(".")
         level = derived_node.level
 
@@ -305,7 +313,7 @@ class Resolver:
             return matches
 
         # Search in same scope, if not found, search over all peripherals
-        siblings = self._resolver_graph.get_element_siblings(derived_node)
+        siblings = self._resolver_graph.get_element_siblings(scope_node)
         peripherals = self._resolver_graph.get_element_childrens(self._root_node)
         for nodes in (siblings, peripherals):
             matches = search_nodes(nodes, derive_path_parts, derived_node, level)
@@ -354,6 +362,9 @@ class Resolver:
         if base_node is not None and base_node.status != NodeStatus.PROCESSED:
             return True
 
+        return self._is_waiting_for_parent(node)
+
+    def _is_waiting_for_parent(self, node: ElementNode) -> bool:
         return any(
             parent.status != NodeStatus.PROCESSED for parent in self._resolver_graph.get_element_parents(node)
         )
-- 
2.43.0


From 2140bd8ab92312ee9704b5abdd6e05436c65464f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:08 +0000
Subject: [PATCH 35/38] fix: schema location is found whatever prefix the
 document gives the schema instance namespace

---
 src/svdsuite/parse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 1521f39..3d84e21 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -231,9 +231,14 @@ class Parser:
 
     def _parse_device(self, device_element: lxml.etree._Element) -> SVDDevice:  # pyright: ignore[reportPrivateUsage]
         try:
-            ns_key = "xs" if "xs" in device_element.nsmap else "xsi"
+            # the prefix is up to the document, so that it's looked up only if the namespace isn't the expected one
+            namespace = "http://www.w3.org/2001/XMLSchema-instance"
+            if f"{{{namespace}}}noNamespaceSchemaLocation" not in device_element.attrib:
+                ns_key = "xs" if "xs" in device_element.nsmap else "xsi"
+                namespace = device_element.nsmap[ns_key]
+
             xs_no_namesp = self._parse_element_attribute(
-                f"{{{device_element.nsmap[ns_key]}}}noNamespaceSchemaLocation", device_element, optional=False
+                f"{{{namespace}}}noNamespaceSchemaLocation", device_element, optional=False
             )
         except (ParserException, KeyError):
             warnings.warn(
-- 
2.43.0


From d3f2c04021f389c802760980c136629dda6439e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:10 +0000
Subject: [PATCH 36/38] fix: address blocks overlapping one further ahead are
 reported, too

---
 src/svdsuite/process.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/svdsuite/process.py b/src/svdsuite/process.py
index 33f3b93..e44e558 100644
--- a/src/svdsuite/process.py
+++ b/src/svdsuite/process.py
@@ -687,15 +687,14 @@ class _ValidateAndFinalize:
         return registers
 
     def _validate_address_blocks(self, i_peripheral: IPeripheral) -> None:
-        for idx in range(1, len(i_peripheral.address_blocks)):
-            prev = i_peripheral.address_blocks[idx - 1]
-            curr = i_peripheral.address_blocks[idx]
-            if curr.offset < prev.offset + prev.size:
-                warnings.warn(
-                    f"Address block with offset '{curr.offset}' overlaps with address block "
-                    f"with offset '{prev.offset}'",
-                    ProcessWarning,
-                )
+        for idx, curr in enumerate(i_peripheral.address_blocks):
+            for prev in i_peripheral.address_blocks[:idx]:
+                if curr.offset < prev.offset + prev.size:
+                    warnings.warn(
+                        f"Address block with offset '{curr.offset}' overlaps with address block "
+                        f"with offset '{prev.offset}'",
+                        ProcessWarning,
+                    )
 
     def _check_peripheral_address_overlaps(
         self, finalized_peripherals: list[Peripheral], peripheral_lookup: dict[str, Peripheral]
-- 
2.43.0


From 58e54380517cf6827aed3a0ea3175028c76c2b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:43 +0000
Subject: [PATCH 37/38] fix: of a repeated cpu, sauRegionsConfig,
 writeConstraint, range or dimArrayIndex the last one counts and is reported

---
 src/svdsuite/parse.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 3d84e21..58ee436 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -184,6 +184,21 @@ class Parser:
 
         return text_after_strip
 
+    def _find_last_element(
+        self, element_name: str, parent: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
+    ) -> None | lxml.etree._Element:  # pyright: ignore[reportPrivateUsage]
+        elements = parent.findall(element_name)
+
+        if len(elements) > 1:
+            lines = ", ".join([str(x.sourceline) for x in elements])
+            warnings.warn(
+                f"Multiple elements '{element_name}' found at svd file source lines '{lines}'. "
+                "As for elements with texts, only the last one will be used",
+                ParserWarning,
+            )
+
+        return elements[-1] if elements else None
+
     @overload
     def _parse_element_attribute(
         self,
@@ -319,7 +334,7 @@ class Parser:
         return size, access, protection, reset_value, reset_mask
 
     def _parse_cpu(self, device_element: lxml.etree._Element) -> None | SVDCPU:  # pyright: ignore[reportPrivateUsage]
-        cpu_element = device_element.find("cpu")
+        cpu_element = self._find_last_element("cpu", device_element)
 
         if cpu_element is None:
             return None
@@ -372,7 +387,7 @@ class Parser:
     def _parse_sau_regions_config(
         self, cpu_element: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
     ) -> None | SVDSauRegionsConfig:
-        config_element = cpu_element.find("sauRegionsConfig")
+        config_element = self._find_last_element("sauRegionsConfig", cpu_element)
 
         if config_element is None:
             return None
@@ -657,7 +672,7 @@ class Parser:
     def _parse_write_constraint(
         self, parent_element: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
     ) -> None | SVDWriteConstraint:
-        write_cronstraint_element = parent_element.find("writeConstraint")
+        write_cronstraint_element = self._find_last_element("writeConstraint", parent_element)
 
         if write_cronstraint_element is None:
             return None
@@ -669,7 +684,7 @@ class Parser:
             self._parse_element_text("useEnumeratedValues", write_cronstraint_element, optional=True)
         )
 
-        if (range_element := write_cronstraint_element.find("range")) is not None:
+        if (range_element := self._find_last_element("range", write_cronstraint_element)) is not None:
             minimum = _to_int(self._parse_element_text("minimum", range_element, optional=False))
             maximum = _to_int(self._parse_element_text("maximum", range_element, optional=False))
 
@@ -802,7 +817,7 @@ class Parser:
         self,
         element: lxml.etree._Element,  # pyright: ignore[reportPrivateUsage]
     ) -> None | SVDDimArrayIndex:
-        dim_array_index_element = element.find("dimArrayIndex")
+        dim_array_index_element = self._find_last_element("dimArrayIndex", element)
 
         if dim_array_index_element is None:
             return None
-- 
2.43.0


From e7cd57d2130af6264e744931332aaef522665fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:14 +0000
Subject: [PATCH 38/38] fix: peripherals of further <peripherals> elements are
 not dropped silently

---
 src/svdsuite/parse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/svdsuite/parse.py b/src/svdsuite/parse.py
index 58ee436..34a17e5 100644
--- a/src/svdsuite/parse.py
+++ b/src/svdsuite/parse.py
@@ -430,13 +430,12 @@ class Parser:
     def _parse_peripherals(
         self, device_element: lxml.etree._Element  # pyright: ignore[reportPrivateUsage]
     ) -> list[SVDPeripheral]:
-        peripherals_element = device_element.find("peripherals")
-
-        if peripherals_element is None:
+        # Multiple <peripherals> elements are not allowed by the schema, all are parsed like <registers> and <fields>
+        if device_element.find("peripherals") is None:
             raise ParserException("can't find peripherals element")
 
         peripherals: list[SVDPeripheral] = []
-        for peripheral_element in peripherals_element.findall("peripheral"):
+        for peripheral_element in device_element.findall("peripherals/peripheral"):
             derived_from = self._parse_element_attribute("derivedFrom", peripheral_element, optional=True)
             name = self._parse_element_text("name", peripheral_element, optional=False)
             version = self._parse_element_text("version", peripheral_element, optional=True)
-- 
2.43.0

