From 930d51cba00a987107f5f30169157c5c3c95557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:05 +0000
Subject: [PATCH 01/24] fix: order SpineVersion by major, then minor, then
 patch

---
 spine_json_lib/data/spine_version_type.py | 27 ++++++-----------------
 1 file changed, 7 insertions(+), 20 deletions(-)

diff --git a/spine_json_lib/data/spine_version_type.py b/spine_json_lib/data/spine_version_type.py
index 2f707ca..c4f55f4 100644
--- a/spine_json_lib/data/spine_version_type.py
+++ b/spine_json_lib/data/spine_version_type.py
@@ -17,6 +17,9 @@ class SpineVersion(object):
         # "3.8.69" <-> 3008069
         self._int_version = self.major * 1000000 + self.minor * 1000 + self.patch
 
+    def _as_tuple(self) -> Tuple[int, int, int]:
+        return self.major, self.minor, self.patch
+
     @staticmethod
     def __force_cast_to_spine_version(obj):
         if isinstance(obj, str):
@@ -48,41 +51,25 @@ class SpineVersion(object):
         # operator <
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major < _other.major
-            and self.minor < _other.minor
-            and self.patch < _other.patch
-        )
+        return self._as_tuple() < _other._as_tuple()
 
     def __gt__(self, other):
         # operator >
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major > _other.major
-            and self.minor > _other.minor
-            and self.patch > _other.patch
-        )
+        return self._as_tuple() > _other._as_tuple()
 
     def __le__(self, other):
         # operator <=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major <= _other.major
-            and self.minor <= _other.minor
-            and self.patch <= _other.patch
-        )
+        return self._as_tuple() <= _other._as_tuple()
 
     def __ge__(self, other):
         # operator >=
         _other = self.__force_cast_to_spine_version(other)
 
-        return (
-            self.major >= _other.major
-            and self.minor >= _other.minor
-            and self.patch >= _other.patch
-        )
+        return self._as_tuple() >= _other._as_tuple()
 
     def __cmp__(self, other):
         """
-- 
2.43.0


From 2051f0061ea030a324749d3cd234269741d70e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 02/24] fix: strip only the type suffix when converting a graph
 id to a base id

---
 spine_json_lib/deserializer/spine_nodes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index f925f82..fac9b15 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -331,4 +331,6 @@ class SpineGraphParser(IGraphParser):
     @staticmethod
     def _to_base_id(node_type_name, graph_id):
         _suffix = "_{}".format(NodeType[node_type_name].name)
-        return graph_id.replace(_suffix, "")
+        if graph_id.endswith(_suffix):
+            return graph_id[: -len(_suffix)]
+        return graph_id
-- 
2.43.0


From 882f48e665afb5a1246a72c6fc45fd51d4b2a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 03/24] fix: rebuild the graph from the current data before
 cleaning

---
 spine_json_lib/spine_animation_editor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 8cabeea..1b1c11c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -141,6 +141,10 @@ class SpineAnimationEditor(object):
         - We cannot remove BONES because it affect the weight on meshes and the vertices
         information saved in the binary.
         """
+        # The graph has to reflect the current data: bones could have been scaled
+        # or animations and skins erased after it was created
+        self.spine_graph = SpineGraphContainer(self.spine_anim_data.to_json_data())
+
         # Save slots before removing. Needed to recalculate offsets when removing
         # slots in a drawOrder array.
         slots_before_removing = copy.deepcopy(self.spine_anim_data.data.slots)
-- 
2.43.0


From aa0a5e20ee56437164ddd6ee40d279b13d1f8753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:18 +0000
Subject: [PATCH 04/24] fix: reject unknown animations before erasing any of
 the requested ones

---
 spine_json_lib/spine_animation_editor.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 1b1c11c..02211fd 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -267,13 +267,12 @@ class SpineAnimationEditor(object):
     def _erase_raw_animations_data(
         self, animations_to_erase: List[str], strict_mode: bool
     ) -> None:
-        # Erasing animation from the json
-        not_found_animations = []
-        for animation_name in animations_to_erase:
-            if animation_name in self.spine_anim_data.data.animations:
-                del self.spine_anim_data.data.animations[animation_name]
-            else:
-                not_found_animations.append(animation_name)
+        animations = self.spine_anim_data.data.animations
+        not_found_animations = [
+            animation_name
+            for animation_name in animations_to_erase
+            if animation_name not in animations
+        ]
 
         if not_found_animations and strict_mode:
             raise ValueError(
@@ -282,6 +281,10 @@ class SpineAnimationEditor(object):
                 )
             )
 
+        # Erasing animation from the json
+        for animation_name in animations_to_erase:
+            animations.pop(animation_name, None)
+
     def _clean_images_references(self, images_ids: List[str]) -> None:
         copy_json = copy.deepcopy(self.images_references)
         removed_images = []
-- 
2.43.0


From 75e0608b4d03e44b20793e9776e8671e892b7ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:22 +0000
Subject: [PATCH 05/24] fix: reject unknown skins before erasing any of the
 requested ones

---
 spine_json_lib/spine_animation_editor.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 02211fd..c04ee8c 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -64,6 +64,15 @@ class SpineAnimationEditor(object):
         return SpineAnimationEditor(json_data=spine_json_data)
 
     def erase_skins(self, skins_to_erase, is_safe_mode=False):
+        skins_to_erase = list(dict.fromkeys(skins_to_erase))
+        for skin_name in skins_to_erase:
+            if self.spine_anim_data.data.get_skin(skin_name) is None:
+                raise SpineJsonEditorError(
+                    message="Trying to remove skin with name {} but was not found".format(
+                        skin_name
+                    )
+                )
+
         images_skins_refs = []
         skin_attachments_removed = {}
         for skin_name in skins_to_erase:
-- 
2.43.0


From 32b3723aa55950eb8792bbba922ce3827b05e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:26 +0000
Subject: [PATCH 06/24] fix: allow saving to a file name without a directory

---
 spine_json_lib/spine_animation_editor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index c04ee8c..5730779 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -231,7 +231,7 @@ class SpineAnimationEditor(object):
 
     def to_json(self, output_json):
         base_dir = os.path.dirname(output_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(output_json, "w") as outfile:
@@ -267,7 +267,7 @@ class SpineAnimationEditor(object):
 
     def save_images_json(self, images_json):
         base_dir = os.path.dirname(images_json)
-        if not os.path.isdir(base_dir):
+        if base_dir and not os.path.isdir(base_dir):
             os.makedirs(base_dir)
 
         with open(images_json, "w") as outfile:
-- 
2.43.0


From 994027530463457b9ef75b416c11a0db7d325e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:49 +0000
Subject: [PATCH 07/24] fix: support bounding box, point and clipping
 attachments

---
 spine_json_lib/data/data_types/skin.py   |  3 +++
 spine_json_lib/spine_animation_editor.py | 11 +++++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/data_types/skin.py b/spine_json_lib/data/data_types/skin.py
index 0b91870..e99400c 100644
--- a/spine_json_lib/data/data_types/skin.py
+++ b/spine_json_lib/data/data_types/skin.py
@@ -184,6 +184,7 @@ class SkinBoundingBox(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinBoundingBox, self).__init__(values)
 
@@ -199,6 +200,7 @@ class SkinPoint(SpineData):
         self.y = values.get("y")
         self.rotation = values.get("rotation")
         self.color = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinPoint, self).__init__(values)
 
@@ -214,5 +216,6 @@ class SkinClipping(SpineData):
         self.vertexCount: int = values.get("vertexCount")
         self.vertices: List[float] = values.get("vertices")
         self.color: str = values.get("color")
+        self.type: str = values.get("type")
 
         super(SkinClipping, self).__init__(values)
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 5730779..b95db5a 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -8,7 +8,11 @@ from typing import List, TypeVar
 from spine_json_lib.data.constants import SPINE_3_8_VERSION
 from spine_json_lib.data.data_types.bone import Bone
 from spine_json_lib.data.data_types.ik import Ik
-from spine_json_lib.data.data_types.skin import SkinPath
+from spine_json_lib.data.data_types.skin import (
+    SkinAttachment,
+    SkinLinkedMesh,
+    SkinMesh,
+)
 from spine_json_lib.data.data_types.slot import Slot
 from spine_json_lib.data.spine_anim_data import JsonSpineAnimationData
 from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
@@ -252,7 +256,10 @@ class SpineAnimationEditor(object):
                 scale = self.spine_anim_data.data.get_slot_custom_scale(slot=slot_data)
                 for sub_part_key in skin_data[part_name]:
                     skin_sub_part_instance = skin_data[part_name][sub_part_key]
-                    if not isinstance(skin_sub_part_instance, SkinPath):
+                    if isinstance(
+                        skin_sub_part_instance,
+                        (SkinAttachment, SkinMesh, SkinLinkedMesh),
+                    ):
                         relative_path = (
                             skin_sub_part_instance.path
                             or skin_sub_part_instance.name
-- 
2.43.0


From ff06f18c062d90f1f3dfa79ca195d79f500df076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 08/24] fix: take the image of an attachment without path nor
 name from its key when removing a skin

---
 spine_json_lib/data/spine_anim_data.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index c192c4c..1c6f289 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -169,12 +169,11 @@ class SpineAnimationData(SpineData):
         for attachment_id, attachment in skin_to_remove.attachments.items():
             for slot_id, slot_data in attachment.items():
                 if isinstance(slot_data, SkinAttachment):
-                    image_path = slot_data.path or slot_data.name
-                    if image_path is not None:
-                        removed_attachments.setdefault(attachment_id, {})
-                        removed_attachments[attachment_id][slot_id] = image_path
+                    image_path = slot_data.path or slot_data.name or slot_id
+                    removed_attachments.setdefault(attachment_id, {})
+                    removed_attachments[attachment_id][slot_id] = image_path
                 elif isinstance(slot_data, (SkinMesh, SkinLinkedMesh)):
-                    mesh_image_path = slot_data.path or slot_data.name
+                    mesh_image_path = slot_data.path or slot_data.name or slot_id
                     removed_images.append(mesh_image_path)
                 elif hasattr(slot_data, "path") and slot_data.path is not None:
                     removed_images.append(slot_data.path)
-- 
2.43.0


From bf449e018e32e36e039cc3f31bca9b9ef6fa6280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:59 +0000
Subject: [PATCH 09/24] fix: return an integer from SpamNode.__hash__

---
 spine_json_lib/graph/spamnode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/graph/spamnode.py b/spine_json_lib/graph/spamnode.py
index f287590..f4d205c 100644
--- a/spine_json_lib/graph/spamnode.py
+++ b/spine_json_lib/graph/spamnode.py
@@ -48,7 +48,7 @@ class SpamNode(object):
 
     def __hash__(self):
         """ Used for finding the collision chain for this node."""
-        return self._id
+        return hash(self._id)
 
     @property
     def id(self) -> str:
-- 
2.43.0


From 0a558e030b2c6371e72df4434c8b1936a4e79f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:02 +0000
Subject: [PATCH 10/24] fix: clean animations in which no slot is visible

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 1c6f289..3a86bd9 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -294,7 +294,7 @@ class SpineAnimationData(SpineData):
             visible_slots |= anim_visible_slots
 
             l_attachments_used |= functools.reduce(
-                (lambda x, y: x | y), anim_used_attachments.values()
+                (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
         invisible_slots = slots_set - visible_slots
-- 
2.43.0


From bcf22349fbc5dcddb00239a7b70d4a353df2d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:06 +0000
Subject: [PATCH 11/24] fix: copy the parent mesh into the linked meshes of a
 removed skin

---
 spine_json_lib/data/spine_anim_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 3a86bd9..1a88029 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -21,6 +21,9 @@ from spine_json_lib.data.spine_exceptions import SpineJsonEditorError
 from spine_json_lib.data.spine_version_type import SpineVersion
 
 
+# Linked meshes without skin are linked to a mesh in the default one
+DEFAULT_SKIN_NAME = "default"
+
 # Mypy forward declarations
 JsonSpineAnimationDataType = TypeVar(
     "JsonSpineAnimationDataType", bound="JsonSpineAnimationData"
@@ -146,20 +149,21 @@ class SpineAnimationData(SpineData):
                 for slot_id, slot_data in attachment_data.items():
                     if (
                         isinstance(slot_data, SkinLinkedMesh)
-                        and slot_data.skin == skin_name
+                        and (slot_data.skin or DEFAULT_SKIN_NAME) == skin_name
                     ):
 
                         # In case of a LinkedMesh linked to a mesh existing into the skin we want to remove
                         # we need to copy the Mesh information to this LinkedMesh
                         skin_removed_slot_mesh = skin_to_remove.attachments[
                             attachment_id
-                        ][slot_id]
+                        ][slot_data.parent or slot_id]
 
                         copied_mesh = copy.deepcopy(skin_removed_slot_mesh)
                         copied_mesh.name = slot_data.name
                         copied_mesh.path = slot_data.path
                         copied_mesh.width = slot_data.width
                         copied_mesh.height = slot_data.height
+                        copied_mesh.color = slot_data.color
 
                         attachment[slot_id] = copied_mesh
 
-- 
2.43.0


From c5da567bcf369899d1a08f5524b304a2092518a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:35 +0000
Subject: [PATCH 12/24] fix: keep the meshes of visible slots when an unused
 attachment has the same name

---
 spine_json_lib/data/spine_anim_data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 1a88029..1fa3069 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -304,6 +304,7 @@ class SpineAnimationData(SpineData):
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
+        meshes_to_keep: FrozenSet[Any] = frozenset([])
 
         # Only not visible slots and the ones not being used can be erased
         for skin in self.skins:
@@ -317,7 +318,9 @@ class SpineAnimationData(SpineData):
                             isinstance(attachment_data[attachment_id], SkinMesh)
                             and slot_id not in invisible_slots
                         ):
+                            meshes_to_keep |= frozenset([attachment_id])
                             continue
                         attachments_to_remove |= frozenset([attachment_id])
 
-        return invisible_slots, attachments_to_remove
+        # Attachments are removed by name from every slot and skin
+        return invisible_slots, attachments_to_remove - meshes_to_keep
-- 
2.43.0


From e59cb45bfc1b8b05250a5f574eeae872aa007eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:40 +0000
Subject: [PATCH 13/24] fix: compare node types by value instead of by identity

---
 spine_json_lib/deserializer/spine_nodes.py | 2 +-
 spine_json_lib/graph/graph_validator.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index fac9b15..b55e35f 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -142,7 +142,7 @@ class SpineGraphParser(IGraphParser):
 
         for node_id, node in graph._nodes.items():
             # IMPORTANT: We ignore attachments when generating json from graph
-            if node.node_type is NodeType.ATTACHMENT.name or node.node_type is NodeType.IMAGE.name:
+            if node.node_type in (NodeType.ATTACHMENT.name, NodeType.IMAGE.name):
                 continue
 
             node_type_json_key = SPINE_JSON_MAPPED_IDS[str(node.node_type)]
diff --git a/spine_json_lib/graph/graph_validator.py b/spine_json_lib/graph/graph_validator.py
index c90794c..6fd8a5c 100644
--- a/spine_json_lib/graph/graph_validator.py
+++ b/spine_json_lib/graph/graph_validator.py
@@ -72,7 +72,7 @@ class GraphValidator(object):
             # Check if there are any head and it is not a root of the UCGraph
             if (
                 graph.get_node(head_id).node_type
-                is not UCNodeType.INPUT_ROOT_NODE_TYPE.name
+                != UCNodeType.INPUT_ROOT_NODE_TYPE.name
             ):
                 unconnected_nodes.append(head_id)
                 continue
-- 
2.43.0


From 5c9521311abfb7cf32f2e14d1cdb481fdabb9b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:43 +0000
Subject: [PATCH 14/24] fix: do not drop attributes that differ from the
 defaults of the format

---
 spine_json_lib/data/data_types/bone.py      |  2 --
 spine_json_lib/data/data_types/events.py    | 15 ++++-----------
 spine_json_lib/data/data_types/path.py      |  6 +++---
 spine_json_lib/data/data_types/transform.py |  4 ++--
 4 files changed, 9 insertions(+), 18 deletions(-)

diff --git a/spine_json_lib/data/data_types/bone.py b/spine_json_lib/data/data_types/bone.py
index 8cb561c..14ceb4f 100644
--- a/spine_json_lib/data/data_types/bone.py
+++ b/spine_json_lib/data/data_types/bone.py
@@ -13,10 +13,8 @@ class Bone(SpineData):
         "shearX": 0,
         "shearY": 0,
         "transform": "normal",
-        "inheritRotation": False,
         "rotation": 0,
         "length": 0,
-        "inheritScale": False,
     }
     SPINE_3_8_DEFAULT_VALUES: Dict[str, Any] = DEFAULT_VALUES
 
diff --git a/spine_json_lib/data/data_types/events.py b/spine_json_lib/data/data_types/events.py
index 276b60d..ea4bec7 100644
--- a/spine_json_lib/data/data_types/events.py
+++ b/spine_json_lib/data/data_types/events.py
@@ -18,17 +18,10 @@ class Events(SpineData):
 
 
 class EventTimeline(SpineData):
-    DEFAULT_VALUES = {"name": "", "int": 0, "float": 0, "string": ""}
-    SPINE_3_8_DEFAULT_VALUES = {
-        "time": 0,
-        "name": "",
-        "int": 0,
-        "float": 0,
-        "string": "",
-        "audio": "",
-        "volume": 1,
-        "balance": 0,
-    }
+    # A value missing in a keyframe is taken from the event definition,
+    # so only the ones not defined there have a fixed default value
+    DEFAULT_VALUES = {"name": ""}
+    SPINE_3_8_DEFAULT_VALUES = {"time": 0, "name": "", "audio": ""}
 
     def __init__(self, values=None):
         values = values or {}
diff --git a/spine_json_lib/data/data_types/path.py b/spine_json_lib/data/data_types/path.py
index 079e733..e6afc19 100644
--- a/spine_json_lib/data/data_types/path.py
+++ b/spine_json_lib/data/data_types/path.py
@@ -11,7 +11,7 @@ class Path(SpineData):
         "rotateMode": "",
         "rotation": 0,
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "skin": False,
@@ -39,10 +39,10 @@ class Path(SpineData):
 
 
 class PathTimeline(SpineData):
-    DEFAULT_VALUES = {"position": 0, "spacing": 1, "rotateMix": 1, "translateMix": 1}
+    DEFAULT_VALUES = {"position": 0, "spacing": 0, "rotateMix": 1, "translateMix": 1}
     SPINE_3_8_DEFAULT_VALUES = {
         "position": 0,
-        "spacing": 1,
+        "spacing": 0,
         "rotateMix": 1,
         "translateMix": 1,
         "curve": [],
diff --git a/spine_json_lib/data/data_types/transform.py b/spine_json_lib/data/data_types/transform.py
index e039d71..a6b4017 100644
--- a/spine_json_lib/data/data_types/transform.py
+++ b/spine_json_lib/data/data_types/transform.py
@@ -12,8 +12,8 @@ class Transform(SpineData):
         "rotation": 0,
         "x": 0,
         "y": 0,
-        "scaleX": 1.0,
-        "scaleY": 1.0,
+        "scaleX": 0,
+        "scaleY": 0,
         "shearX": 0,
         "shearY": 0,
     }
-- 
2.43.0


From 632a97f1cac596308b6d27130785c8f00acee65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:48 +0000
Subject: [PATCH 15/24] fix: scale the root bone only once

---
 spine_json_lib/spine_animation_editor.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index b95db5a..5195d17 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -221,6 +221,8 @@ class SpineAnimationEditor(object):
         # attributes as these don't inherit scale from parent roots
         spine_data = self.spine_anim_data.data
         for bone in spine_data.bones:
+            if bone.name == "root":
+                continue
 
             if bone.transform in ["noScale", "noScaleOrReflection", "onlyTranslation"]:
                 bone.scale(scaleX=scaleX, scaleY=scaleY)
-- 
2.43.0


From 7403863e908cbda22f955482560f06fd8ec967ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:54 +0000
Subject: [PATCH 16/24] fix: keep draw order entries with offset zero, they pin
 the slot to its position

---
 spine_json_lib/data/data_types/draworder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/data_types/draworder.py b/spine_json_lib/data/data_types/draworder.py
index f3aabde..c04e6ef 100644
--- a/spine_json_lib/data/data_types/draworder.py
+++ b/spine_json_lib/data/data_types/draworder.py
@@ -82,7 +82,7 @@ class DrawOrderTimeline(SpineData):
         return [
             offset
             for offset in adjusted_draw_order_offsets.values()
-            if offset.slot not in slots_to_be_removed and offset.offset != 0
+            if offset.slot not in slots_to_be_removed
         ]
 
     def remove_offsets_with_ids(self, slots_ids, original_slots):
-- 
2.43.0


From ef3183949fa93ca83a17e76181d52880f7c476d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:59 +0000
Subject: [PATCH 17/24] fix: a slot timeline without keyframes does not hide
 the slot

---
 spine_json_lib/data/data_types/slot.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/spine_json_lib/data/data_types/slot.py b/spine_json_lib/data/data_types/slot.py
index 286fffa..e93664d 100644
--- a/spine_json_lib/data/data_types/slot.py
+++ b/spine_json_lib/data/data_types/slot.py
@@ -87,14 +87,9 @@ class SlotTimeline(SpineData):
         return (
             not self.color
             and not self.twoColor
-            and (
-                len(self.attachment) == 0
-                or (
-                    len(self.attachment) == 1
-                    and self.attachment[0].is_empty()
-                    and self.attachment[0].time == 0
-                )
-            )
+            and len(self.attachment) == 1
+            and self.attachment[0].is_empty()
+            and self.attachment[0].time == 0
         )
 
     def get_used_attachments(self):
-- 
2.43.0


From edc0f38026a84b761e3b2f4e1d0e07a50e644d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 18/24] fix: keep the slots referenced by path constraints and
 clipping attachments

---
 spine_json_lib/data/spine_anim_data.py   | 24 ++++++++++++++++++++++++
 spine_json_lib/spine_animation_editor.py |  5 ++++-
 spine_json_lib/spine_graph_container.py  | 24 +++++++++++++++++++-----
 3 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 1fa3069..290d20e 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -10,6 +10,7 @@ from spine_json_lib.data.data_types.ik import Ik
 from spine_json_lib.data.data_types.path import Path
 from spine_json_lib.data.data_types.skin import (
     Skin38,
+    SkinClipping,
     SkinLinkedMesh,
     SkinAttachment,
     SkinMesh,
@@ -221,6 +222,22 @@ class SpineAnimationData(SpineData):
 
         return no_attachment_slot
 
+    def get_slots_referenced_by_name(self) -> FrozenSet[str]:
+        """
+        Return the slots that path constraints and clipping attachments point to.
+        These need to exist even when nothing is drawn in them
+        """
+        referenced_slots = [path.target for path in self.path]
+        for skin in self.skins:
+            for attachments in skin.attachments.values():
+                for attachment in attachments.values():
+                    if isinstance(attachment, SkinClipping):
+                        referenced_slots.append(attachment.end)
+
+        return frozenset(
+            [slot.name for slot in self.slots if slot.name in referenced_slots]
+        )
+
     def get_visible_slots_and_attachments(
         self, anim_slots, visible_slots, alpha_zero_slots, no_attachment_slots
     ):
@@ -301,6 +318,13 @@ class SpineAnimationData(SpineData):
                 (lambda x, y: x | y), anim_used_attachments.values(), frozenset([])
             )
 
+        # Slots referenced by name are kept with their setup attachment
+        referenced_slots = self.get_slots_referenced_by_name()
+        visible_slots |= referenced_slots
+        l_attachments_used |= frozenset(
+            [slot.attachment for slot in self.slots if slot.name in referenced_slots]
+        )
+
         invisible_slots = slots_set - visible_slots
 
         attachments_to_remove: FrozenSet[Any] = frozenset([])
diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 5195d17..4805664 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -171,7 +171,10 @@ class SpineAnimationEditor(object):
 
         # Removing leaves that are slots, which means
         # they don't have any attachment as children and can be removed from animation
-        leaf_slots = self.spine_graph.remove_leafs_of_type(NodeType.SLOT.name)
+        leaf_slots = self.spine_graph.remove_leafs_of_type(
+            NodeType.SLOT.name,
+            ids_to_keep=self.spine_anim_data.data.get_slots_referenced_by_name(),
+        )
         slots_to_remove = list(slots_to_remove | frozenset(leaf_slots))
 
         # Convert spine graph back to json data
diff --git a/spine_json_lib/spine_graph_container.py b/spine_json_lib/spine_graph_container.py
index e5886cf..e1a0eed 100644
--- a/spine_json_lib/spine_graph_container.py
+++ b/spine_json_lib/spine_graph_container.py
@@ -56,13 +56,27 @@ class SpineGraphContainer(object):
 
         return leaf_slots
 
-    def remove_leafs_of_type(self, type_name) -> List[str]:
+    def remove_leafs_of_type(self, type_name, ids_to_keep=()) -> List[str]:
         """
-        Removing from graph every node leaves of type @type_name recursively
-        and return the list of ids
+        Removing from graph every node leaves of type @type_name recursively,
+        except the ones in @ids_to_keep, and return the list of ids
         """
+        graph_ids_to_keep = [
+            SpineGraphParser._to_graph_id(
+                node_type_name=type_name, node_base_id=node_id
+            )
+            for node_id in ids_to_keep
+        ]
+
+        def get_removable_leafs():
+            return [
+                node_id
+                for node_id in self.get_leafs_of_type(node_type=type_name)
+                if node_id not in graph_ids_to_keep
+            ]
+
         nodes_removed = []
-        leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+        leaf_nodes = get_removable_leafs()
         while leaf_nodes:
             nodes_removed += [
                 SpineGraphParser._to_base_id(
@@ -72,7 +86,7 @@ class SpineGraphContainer(object):
                 for s_id in leaf_nodes
             ]
 
-            leaf_nodes = self.get_leafs_of_type(node_type=type_name)
+            leaf_nodes = get_removable_leafs()
         return nodes_removed
 
     def remove_attachment(self, attachment_id: str) -> SpamNode:
-- 
2.43.0


From 4b9a098e7703af5f498e72f24e8488ff12184d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:33 +0000
Subject: [PATCH 19/24] fix: drop the images that no remaining attachment uses

---
 spine_json_lib/spine_animation_editor.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 4805664..94bbf45 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -96,15 +96,11 @@ class SpineAnimationEditor(object):
                 for attachment_path in slot_data.values():
                     images_skins_refs.append(attachment_path)
 
-        # Check which attachments are not being used in the remaining skins
-        images_to_remove = []
-
-        for img in images_skins_refs:
-            image_graph_id = SpineGraphParser._to_graph_id(
-                node_type_name=NodeType.IMAGE.name, node_base_id=img
-            )
-            if not self.spine_graph.graph.get_node(image_graph_id):
-                images_to_remove.append(img)
+        # Check which images are not being used in the remaining skins
+        remaining_images = self.get_images_references()
+        images_to_remove = [
+            img for img in images_skins_refs if img not in remaining_images
+        ]
 
         if is_safe_mode:
             removed_data = [], []
@@ -203,10 +199,15 @@ class SpineAnimationEditor(object):
             )
         )
 
-        images_node = self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
+        self.spine_graph.remove_heads_of_type(NodeType.IMAGE.name)
 
         # Remove reference to region attachments in images json file
-        self._clean_images_references(images_ids=images_node)
+        remaining_images = self.get_images_references()
+        self._clean_images_references(
+            images_ids=[
+                img for img in self.images_references if img not in remaining_images
+            ]
+        )
         return list(slots_to_remove), attachments_to_remove
 
     def remove_slots(self, slots_ids, original_slots):
-- 
2.43.0


From 6dd8754b021cf5b999a9414c3b9da114e83f31ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 20/24] fix: list a node after all of its parents in the
 execution order

---
 spine_json_lib/graph/dagraph.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/spine_json_lib/graph/dagraph.py b/spine_json_lib/graph/dagraph.py
index 040ac62..d03d7d2 100644
--- a/spine_json_lib/graph/dagraph.py
+++ b/spine_json_lib/graph/dagraph.py
@@ -209,18 +209,26 @@ class DAGraph(object):
         :return: A list of nodes with a certain order of execution taking into account
                 dependency between nodes to be able to execute them in this order
         """
+        added = set()
         visited = set()
 
         result_nodes = []
 
-        def visit(node: SpamNode) -> None:
-            visited.add(node.id)
+        def add_with_parents(node: SpamNode) -> None:
+            added.add(node.id)
 
             for parent in node.parents:
-                if parent not in visited:
-                    visit(self.get_node(parent))
+                if parent not in added:
+                    add_with_parents(self.get_node(parent))
 
             result_nodes.append(node.id)
+
+        def visit(node: SpamNode) -> None:
+            visited.add(node.id)
+
+            if node.id not in added:
+                add_with_parents(node)
+
             for child in node.children:
                 if child not in visited:
                     visit(self.get_node(child))
-- 
2.43.0


From 71311b04d06462067b9e8ec4b30e9c399feb20f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:50 +0000
Subject: [PATCH 21/24] fix: compare setup attachments with removed attachments
 by name

A slot showing 'x' at setup lost it when an unused attachment named
'x_ATTACHMENT' was removed.
---
 spine_json_lib/spine_animation_editor.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spine_json_lib/spine_animation_editor.py b/spine_json_lib/spine_animation_editor.py
index 94bbf45..7965460 100644
--- a/spine_json_lib/spine_animation_editor.py
+++ b/spine_json_lib/spine_animation_editor.py
@@ -356,10 +356,7 @@ class SpineAnimationEditor(object):
         for slot_idx, slot_data in enumerate(self.spine_anim_data.data.slots):
             default_attachment_id = slot_data.get("attachment")
             if default_attachment_id is not None:
-                attachment_graph_id = SpineGraphParser._to_graph_id(
-                    NodeType.ATTACHMENT.name, default_attachment_id
-                )
-                if attachment_graph_id in attachments_ids:
+                if default_attachment_id in attachments_ids:
                     copy_slots_data[slot_idx].attachment = None
 
         self.spine_anim_data.data.slots = copy_slots_data
-- 
2.43.0


From 2e9274a3a755e93678807e7dc57b4b401569df33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:20 +0000
Subject: [PATCH 22/24] fix: a bone without parent was taken for a child of a
 bone called None

---
 spine_json_lib/deserializer/spine_nodes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/spine_json_lib/deserializer/spine_nodes.py b/spine_json_lib/deserializer/spine_nodes.py
index b55e35f..2b0171b 100644
--- a/spine_json_lib/deserializer/spine_nodes.py
+++ b/spine_json_lib/deserializer/spine_nodes.py
@@ -186,12 +186,14 @@ class SpineGraphParser(IGraphParser):
             node_data=node_data.node_data,
         )
         # Getting optional parent from bone
-        parent_id = SpineGraphParser._to_graph_id(
-            node_type_name=NodeType.BONE.name, node_base_id=bone_data.get("parent")
-        )
-        parent = graph.get_node(parent_id)
-        if parent:
-            graph.add_edge(parent.id, node_data.node_id)
+        parent_name = bone_data.get("parent")
+        if parent_name is not None:
+            parent_id = SpineGraphParser._to_graph_id(
+                node_type_name=NodeType.BONE.name, node_base_id=parent_name
+            )
+            parent = graph.get_node(parent_id)
+            if parent:
+                graph.add_edge(parent.id, node_data.node_id)
         return node_data
 
     @staticmethod
-- 
2.43.0


From 77e684cb7e1e49a9407fbc575203f25aa29607fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:10 +0000
Subject: [PATCH 23/24] fix: a document without slots could not be loaded, not
 even one saved by the library

---
 spine_json_lib/data/spine_anim_data.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index 290d20e..e6a6e4f 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -66,7 +66,9 @@ class SpineAnimationData(SpineData):
         del _data["skeleton"]
 
         self.bones: List[Bone] = [Bone(value) for value in _data["bones"]]
-        self.slots: List[Slot] = [Slot(value) for value in _data["slots"]]
+        self.slots: List[Slot] = [
+            Slot(value) for value in _data.get("slots", [])
+        ]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
             Skin38(value) for value in _data["skins"]
         ]
-- 
2.43.0


From 97f167ab3dee2590b22aae6de8aca35610c14a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:22 +0000
Subject: [PATCH 24/24] fix: a document without skins could not be loaded

---
 spine_json_lib/data/spine_anim_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spine_json_lib/data/spine_anim_data.py b/spine_json_lib/data/spine_anim_data.py
index e6a6e4f..4d256e1 100644
--- a/spine_json_lib/data/spine_anim_data.py
+++ b/spine_json_lib/data/spine_anim_data.py
@@ -70,7 +70,7 @@ class SpineAnimationData(SpineData):
             Slot(value) for value in _data.get("slots", [])
         ]
         self.skins: Union[Dict[str, Any], List[Skin38]] = [
-            Skin38(value) for value in _data["skins"]
+            Skin38(value) for value in _data.get("skins", [])
         ]
 
         self.events: Dict[str, Events] = {
-- 
2.43.0

