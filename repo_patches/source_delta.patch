From 8cd2a381a17307e882ee792f7f70e9482d1abafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 01/27] fix: do not list the layers inside a TMX group a second
 time at the top level

raw_map.iter() walks the whole tree, so every layer nested in a <group>
(and every collision object group of an embedded tileset tile) was also
returned as a layer of the map itself.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..8bcaa5e 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From bde1d2a4870ddcaf609c55133f545132e7f8f0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:32 +0000
Subject: [PATCH 02/27] fix: keep the document order of the layers of a TMX
 group

The children of a <group> were collected by type, which reordered groups
mixing tile, object, image and group layers.
---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..7db41e9 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for child_layer in raw_layer:
+        if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(child_layer, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From 1b12771aeaea7679669a9af2379d4320c69d470b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:34 +0000
Subject: [PATCH 03/27] fix: accept layers offset along a single axis

Tiled leaves out an offset of 0, so a layer can have offsetx without
offsety (which raised KeyError) or offsety without offsetx (which was
ignored).
---
 pytiled_parser/parsers/json/layer.py |  9 ++++++++-
 pytiled_parser/parsers/tmx/layer.py  | 11 ++++++++---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..e5a2625 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,15 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
+    offset = [0.0, 0.0]
+
     if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+        offset[0] = raw_layer["offsetx"]
+
+    if raw_layer.get("offsety") is not None:
+        offset[1] = raw_layer["offsety"]
+
+    common.offset = OrderedPair(offset[0], offset[1])
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 7db41e9..f4a97be 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -170,10 +170,15 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
+    offset = [0.0, 0.0]
+
     if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+        offset[0] = float(raw_layer.attrib["offsetx"])
+
+    if raw_layer.attrib.get("offsety") is not None:
+        offset[1] = float(raw_layer.attrib["offsety"])
+
+    common.offset = OrderedPair(offset[0], offset[1])
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From 28ed97afb24bfeb278df12221cdc381484606dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:35 +0000
Subject: [PATCH 04/27] fix: read the class of JSON wang sets and wang colors

---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From fa7d6d9b911de09b9c27d3eddee88389457404d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:31 +0000
Subject: [PATCH 05/27] fix: let template instances override the values of
 their template

In JSON maps every key of the template replaced the one of the instance
(name, size, rotation, position...). In TMX maps the properties of an
instance were ignored when the template has properties, and so was a
changed text or shape.
---
 pytiled_parser/parsers/json/tiled_object.py | 11 ++++++++++-
 pytiled_parser/parsers/tmx/tiled_object.py  | 14 +++++++++++---
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..3e7f562 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -318,7 +318,16 @@ def parse(
         if isinstance(template, dict):
             loaded_template = template["object"]
             for key in loaded_template:
-                if key != "id":
+                if key == "properties" and raw_object.get("properties"):
+                    # The properties of the instance override the ones the
+                    # template gives under the same name.
+                    overridden = [prop["name"] for prop in raw_object["properties"]]
+                    raw_object["properties"] = [
+                        prop
+                        for prop in loaded_template["properties"]
+                        if prop["name"] not in overridden
+                    ] + raw_object["properties"]
+                elif key != "id" and key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
             raise NotImplementedError(
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..7fa07ec 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -277,9 +277,17 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                         continue
                     new_object.attrib[key] = val
 
-                properties_element = raw_object.find("./properties")
-                if properties_element is not None:
-                    new_object.append(properties_element)
+                for child in raw_object:
+                    existing = new_object.find(child.tag)
+                    if existing is None:
+                        new_object.append(child)
+                    elif child.tag == "properties":
+                        # The properties of the instance override the ones the
+                        # template gives under the same name.
+                        existing.extend(child)
+                    else:
+                        new_object.remove(existing)
+                        new_object.append(child)
 
                 raw_object = new_object
         elif isinstance(template, dict):
-- 
2.43.0


From 5e74c5c6d7d7798b888d90b36c8b5a5b3d56aa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:33 +0000
Subject: [PATCH 06/27] fix: remove a leftover debug print from the TMX map
 parser

---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 8bcaa5e..aa246f5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From 0254183d1f00dd4fa25f64c44b4b82d31519b194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 07/27] fix: do not share one properties dict between objects
 without properties

---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..4b33405 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.ib(factory=dict)
 
 
 @attr.s()
-- 
2.43.0


From 420bd3111de98d017223b7856236955a36b0179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:36 +0000
Subject: [PATCH 08/27] fix: skip leading blank lines when detecting the format
 of a file

A file starting with a blank line (or an empty one) raised IndexError.
---
 pytiled_parser/util.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..b2def53 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -38,11 +38,13 @@ def parse_color(color: str) -> Color:
 
 def check_format(file_path: Path) -> str:
     with open(file_path) as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
-            return "tmx"
-        else:
-            return "json"
+        for line in file:
+            line = line.strip()
+            if line:
+                return "tmx" if line[0] == "<" else "json"
+
+    # An empty file is left to the JSON parser to reject.
+    return "json"
 
 
 def load_object_template(file_path: Path) -> Any:
-- 
2.43.0


From d3424bef661f09c2c7fa21ec6497c0b0fb79ac24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:53 +0000
Subject: [PATCH 09/27] fix: accept JSON tile layers with an encoding but no
 compression

Tiled may leave out an empty compression, and "csv" is the documented
default encoding, for which data is a list of numbers; both raised
KeyError.
---
 pytiled_parser/parsers/json/layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index e5a2625..0000203 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -282,16 +282,18 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         for chunk in raw_layer["chunks"]:
             if raw_layer.get("encoding") is not None:
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk, raw_layer["encoding"], raw_layer.get("compression", "")
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding", "csv") != "csv":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From ff8decb18d7790226e4705131bca1e11f76de7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:54 +0000
Subject: [PATCH 10/27] fix: refuse tile data with an unknown compression

The compressed bytes were returned as if they were tile ids.
---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 0000203..23f96a8 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,6 +144,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported tile layer compression: {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index f4a97be..f6a3dd8 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,6 +89,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported tile layer compression: {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From 017799b248b7c75ee60519b755c23746c47d1fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:18 +0000
Subject: [PATCH 11/27] fix: accept empty tile layers of infinite TMX maps

Tiled writes no <chunk> for a layer without tiles, which raised an error
while decoding the blank text of <data>.
---
 pytiled_parser/parsers/tmx/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index f6a3dd8..41f79ac 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -239,7 +239,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
 
         raw_chunks = data_element.findall("chunk")
         if not raw_chunks:
-            if encoding and encoding != "csv":
+            if not data_element.text or not data_element.text.strip():
+                # Layers of infinite maps which have no tiles have no chunks.
+                pass
+            elif encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
                     compression=compression,
-- 
2.43.0


From 4f9746118ae09f178e8d3b4baacf1a33c9ff3c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 12/27] fix: accept TMX objects with only a width or only a
 height

Tiled leaves out a width or height of 0.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 7fa07ec..c179767 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,15 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
+    size = [0.0, 0.0]
+
     if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+        size[0] = float(raw_object.attrib["width"])
+
+    if raw_object.attrib.get("height") is not None:
+        size[1] = float(raw_object.attrib["height"])
+
+    common.size = Size(size[0], size[1])
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From 4edcae287d54fd0c31f4cbc0ea20fad175cf56ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:22 +0000
Subject: [PATCH 13/27] fix: reject malformed colors instead of guessing

Any first character of a color of odd length was dropped, and signs,
spaces and underscores were accepted as hexadecimal digits by int().
---
 pytiled_parser/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index b2def53..846fb4a 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -2,6 +2,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from string import hexdigits
 from typing import Any
 
 from pytiled_parser.common_types import Color
@@ -17,11 +18,13 @@ def parse_color(color: str) -> Color:
     Returns:
         :Color: Color object in the format that PyTiled understands.
     """
-    # the actual part we care about is always an even number
-    if len(color) % 2:
-        # strip initial '#' character
+    # strip initial '#' character
+    if color.startswith("#"):
         color = color[1:]
 
+    if not all(digit in hexdigits for digit in color):
+        raise ValueError("Improperly formatted color passed to parse_color")
+
     if len(color) == 6:
         # full opacity if no alpha specified
         return Color(int(color[0:2], 16), int(color[2:4], 16), int(color[4:6], 16), 255)
-- 
2.43.0


From b18ef15e387eebc250408a32bb683bb75cb78ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:44 +0000
Subject: [PATCH 14/27] fix: raise UnknownFormat for corrupt tilesets and
 templates of TMX maps

The json module's own error came out instead.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 22 +++++++++++++---------
 pytiled_parser/util.py                  | 17 +++++++++++++++--
 2 files changed, 28 insertions(+), 11 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index aa246f5..ca55708 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -42,16 +42,20 @@ def parse(file: Path) -> TiledMap:
                         int(raw_tileset.attrib["firstgid"]),
                         external_path=tileset_path.parent,
                     )
-                elif parser == "json":
-                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
-                        json.load(tileset_file),
-                        int(raw_tileset.attrib["firstgid"]),
-                        external_path=tileset_path.parent,
-                    )
                 else:
-                    raise UnknownFormat(
-                        "Unkown Tileset format, please use either the TSX or JSON format."
-                    )
+                    try:
+                        tilesets[
+                            int(raw_tileset.attrib["firstgid"])
+                        ] = parse_json_tileset(
+                            json.load(tileset_file),
+                            int(raw_tileset.attrib["firstgid"]),
+                            external_path=tileset_path.parent,
+                        )
+                    except ValueError:
+                        raise UnknownFormat(
+                            "Unknown Tileset Format, please use either the TSX or JSON format. "
+                            "This message could also mean your tileset file is invalid or corrupted."
+                        )
 
         else:
             # Is an embedded Tileset
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 846fb4a..0a05a9f 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -6,6 +6,7 @@ from string import hexdigits
 from typing import Any
 
 from pytiled_parser.common_types import Color
+from pytiled_parser.exception import UnknownFormat
 
 
 def parse_color(color: str) -> Color:
@@ -67,7 +68,13 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset_path = tileset_path.parent
     else:
         with open(file_path) as template_file:
-            template = json.load(template_file)
+            try:
+                template = json.load(template_file)
+            except ValueError:
+                raise UnknownFormat(
+                    "Unknown Template Format, please use either the TX or JSON format. "
+                    "This message could also mean your template file is invalid or corrupted."
+                )
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                 new_tileset = load_object_tileset(tileset_path)
@@ -85,6 +92,12 @@ def load_object_tileset(file_path: Path) -> Any:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
-            new_tileset = json.load(tileset_file)
+            try:
+                new_tileset = json.load(tileset_file)
+            except ValueError:
+                raise UnknownFormat(
+                    "Unknown Tileset Format, please use either the TSX or JSON format. "
+                    "This message could also mean your tileset file is invalid or corrupted."
+                )
 
     return new_tileset
-- 
2.43.0


From 19523bf2631e9b66e26a4ff906c78a55df4ea45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 15/27] fix: read TMX string properties spanning several lines

Tiled stores them as the text of the <property> element, without a value
attribute; they were dropped.
---
 pytiled_parser/parsers/tmx/properties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..7a420b5 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -12,11 +12,14 @@ def parse(raw_properties: etree.Element) -> Properties:
     for raw_property in raw_properties.findall("property"):
         type_ = raw_property.attrib.get("type")
 
-        if "value" not in raw_property.attrib:
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ is None or type_ == "string":
+            # Strings spanning several lines are stored as the text of the element.
+            value_ = raw_property.text or ""
+        else:
             continue
 
-        value_ = raw_property.attrib["value"]
-
         if type_ == "file":
             value = Path(value_)
         elif type_ == "color":
-- 
2.43.0


From 80f753ad5d3335697ddd80481a533d35a6c5e94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:50 +0000
Subject: [PATCH 16/27] fix: load template tilesets which are in the other
 format than the map

A JSON map with a template using a TSX tileset, or a TMX map with a
template using a JSON tileset, raised an error.
---
 pytiled_parser/parsers/json/tiled_map.py | 13 +++++++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..6ae9062 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -144,9 +144,18 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # The tileset of a template can be in the other format
+                    # than the map.
+                    if isinstance(tiled_object.new_tileset, etree.Element):
+                        parse_new_tileset = parse_tmx_tileset
+                        new_name = tiled_object.new_tileset.attrib["name"]
+                    else:
+                        parse_new_tileset = parse_json_tileset
+                        new_name = tiled_object.new_tileset["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == new_name:
                             already_loaded = val
                             break
 
@@ -154,7 +163,7 @@ def parse(file: Path) -> TiledMap:
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index ca55708..f261e0c 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -104,9 +104,18 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:  # type: ignore
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    # The tileset of a template can be in the other format
+                    # than the map.
+                    if isinstance(tiled_object.new_tileset, etree.Element):
+                        parse_new_tileset = parse_tmx_tileset
+                        new_name = tiled_object.new_tileset.attrib["name"]
+                    else:
+                        parse_new_tileset = parse_json_tileset
+                        new_name = tiled_object.new_tileset["name"]
+
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == new_name:
                             already_loaded = val
                             break
 
@@ -114,7 +123,7 @@ def parse(file: Path) -> TiledMap:
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From 54c8777d41b2f41bb3a6e0762d2d1bbce7d70313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 17/27] fix: give tilesets of templates a first gid above every
 gid in use

The first gid was computed from the tile count of the last tileset, which
is too low for image collections with gaps in their ids (or for tilesets
not listed by first gid), and failed in a map without tilesets.
---
 pytiled_parser/parsers/json/tiled_map.py |  6 ++----
 pytiled_parser/parsers/tmx/tiled_map.py  |  6 ++----
 pytiled_parser/util.py                   | 21 ++++++++++++++++++++-
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 6ae9062..3f35707 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, next_free_gid, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -160,9 +160,7 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = next_free_gid(map_.tilesets)
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index f261e0c..e299b6c 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, next_free_gid, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -120,9 +120,7 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = next_free_gid(map_.tilesets)
                         map_.tilesets[new_firstgid] = parse_new_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 0a05a9f..f88c2c9 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -3,10 +3,11 @@ import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from string import hexdigits
-from typing import Any
+from typing import Any, Dict
 
 from pytiled_parser.common_types import Color
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.tileset import Tileset
 
 
 def parse_color(color: str) -> Color:
@@ -51,6 +52,24 @@ def check_format(file_path: Path) -> str:
     return "json"
 
 
+def next_free_gid(tilesets: Dict[int, Tileset]) -> int:
+    """Get a first gid for a new tileset, above every gid already in use.
+
+    Args:
+        tilesets: The tilesets already loaded, by first gid.
+    Returns:
+        int: The lowest gid which no tile of the tilesets, nor any after it, has.
+    """
+    next_gid = 1
+
+    for firstgid, tileset in tilesets.items():
+        # The tiles of image collections can have ids beyond the tile count.
+        tile_ids = [tileset.tile_count - 1, *(tileset.tiles or {})]
+        next_gid = max(next_gid, firstgid + max(tile_ids) + 1)
+
+    return next_gid
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From 531d94c1c74ff611ca1ce82c80f5a5a9d5ecf697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:54 +0000
Subject: [PATCH 18/27] fix: give the objects of templates inside of groups
 their final gid

Only the object layers at the top level of the map were looked at.
---
 pytiled_parser/parsers/json/tiled_map.py | 69 ++++++++++++------------
 pytiled_parser/parsers/tmx/tiled_map.py  | 69 ++++++++++++------------
 pytiled_parser/util.py                   | 16 +++++-
 3 files changed, 81 insertions(+), 73 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 3f35707..c46a473 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, next_free_gid, parse_color
+from pytiled_parser.util import check_format, iter_objects, next_free_gid, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -125,9 +125,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for tiled_object in iter_objects(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
@@ -141,40 +139,39 @@ def parse(file: Path) -> TiledMap:
         # tilesets have been loaded in already, and use them if they have been, but then
         # be able to dynamically add-in tilesets after having parsed the rest of the map.
 
-        for tiled_object in my_layer.tiled_objects:  # type: ignore
-            if hasattr(tiled_object, "new_tileset"):
-                if tiled_object.new_tileset is not None:
-                    # The tileset of a template can be in the other format
-                    # than the map.
-                    if isinstance(tiled_object.new_tileset, etree.Element):
-                        parse_new_tileset = parse_tmx_tileset
-                        new_name = tiled_object.new_tileset.attrib["name"]
-                    else:
-                        parse_new_tileset = parse_json_tileset
-                        new_name = tiled_object.new_tileset["name"]
-
-                    already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_name:
-                            already_loaded = val
-                            break
-
-                    if not already_loaded:
-                        new_firstgid = next_free_gid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_new_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
-                        tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
+        if hasattr(tiled_object, "new_tileset"):
+            if tiled_object.new_tileset is not None:
+                # The tileset of a template can be in the other format
+                # than the map.
+                if isinstance(tiled_object.new_tileset, etree.Element):
+                    parse_new_tileset = parse_tmx_tileset
+                    new_name = tiled_object.new_tileset.attrib["name"]
+                else:
+                    parse_new_tileset = parse_json_tileset
+                    new_name = tiled_object.new_tileset["name"]
+
+                already_loaded = None
+                for val in map_.tilesets.values():
+                    if val.name == new_name:
+                        already_loaded = val
+                        break
+
+                if not already_loaded:
+                    new_firstgid = next_free_gid(map_.tilesets)
+                    map_.tilesets[new_firstgid] = parse_new_tileset(
+                        tiled_object.new_tileset,
+                        new_firstgid,
+                        tiled_object.new_tileset_path,
+                    )
+                    tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
-                    else:
-                        tiled_object.gid = tiled_object.gid + (
-                            already_loaded.firstgid - 1
-                        )
+                else:
+                    tiled_object.gid = tiled_object.gid + (
+                        already_loaded.firstgid - 1
+                    )
 
-                    tiled_object.new_tileset = None
-                    tiled_object.new_tileset_path = None
+                tiled_object.new_tileset = None
+                tiled_object.new_tileset_path = None
 
     if raw_tiled_map.get("class") is not None:
         map_.class_ = raw_tiled_map["class"]
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index e299b6c..9ccbac0 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, next_free_gid, parse_color
+from pytiled_parser.util import check_format, iter_objects, next_free_gid, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -85,9 +85,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for tiled_object in iter_objects(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
@@ -101,40 +99,39 @@ def parse(file: Path) -> TiledMap:
         # tilesets have been loaded in already, and use them if they have been, but then
         # be able to dynamically add-in tilesets after having parsed the rest of the map.
 
-        for tiled_object in my_layer.tiled_objects:  # type: ignore
-            if hasattr(tiled_object, "new_tileset"):
-                if tiled_object.new_tileset is not None:
-                    # The tileset of a template can be in the other format
-                    # than the map.
-                    if isinstance(tiled_object.new_tileset, etree.Element):
-                        parse_new_tileset = parse_tmx_tileset
-                        new_name = tiled_object.new_tileset.attrib["name"]
-                    else:
-                        parse_new_tileset = parse_json_tileset
-                        new_name = tiled_object.new_tileset["name"]
-
-                    already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == new_name:
-                            already_loaded = val
-                            break
-
-                    if not already_loaded:
-                        new_firstgid = next_free_gid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_new_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
-                        tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
+        if hasattr(tiled_object, "new_tileset"):
+            if tiled_object.new_tileset is not None:
+                # The tileset of a template can be in the other format
+                # than the map.
+                if isinstance(tiled_object.new_tileset, etree.Element):
+                    parse_new_tileset = parse_tmx_tileset
+                    new_name = tiled_object.new_tileset.attrib["name"]
+                else:
+                    parse_new_tileset = parse_json_tileset
+                    new_name = tiled_object.new_tileset["name"]
+
+                already_loaded = None
+                for val in map_.tilesets.values():
+                    if val.name == new_name:
+                        already_loaded = val
+                        break
+
+                if not already_loaded:
+                    new_firstgid = next_free_gid(map_.tilesets)
+                    map_.tilesets[new_firstgid] = parse_new_tileset(
+                        tiled_object.new_tileset,
+                        new_firstgid,
+                        tiled_object.new_tileset_path,
+                    )
+                    tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
-                    else:
-                        tiled_object.gid = tiled_object.gid + (
-                            already_loaded.firstgid - 1
-                        )
+                else:
+                    tiled_object.gid = tiled_object.gid + (
+                        already_loaded.firstgid - 1
+                    )
 
-                    tiled_object.new_tileset = None
-                    tiled_object.new_tileset_path = None
+                tiled_object.new_tileset = None
+                tiled_object.new_tileset_path = None
 
     if raw_map.attrib.get("backgroundcolor") is not None:
         map_.background_color = parse_color(raw_map.attrib["backgroundcolor"])
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index f88c2c9..bc70f8e 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -3,10 +3,11 @@ import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from string import hexdigits
-from typing import Any, Dict
+from typing import Any, Dict, Iterator, List
 
 from pytiled_parser.common_types import Color
 from pytiled_parser.exception import UnknownFormat
+from pytiled_parser.layer import Layer, LayerGroup, ObjectLayer
 from pytiled_parser.tileset import Tileset
 
 
@@ -70,6 +71,19 @@ def next_free_gid(tilesets: Dict[int, Tileset]) -> int:
     return next_gid
 
 
+def iter_objects(layers: List[Layer]) -> Iterator[Any]:
+    """Iterate over the objects of layers, including the ones inside of groups.
+
+    Args:
+        layers: The layers to look into.
+    """
+    for layer in layers:
+        if isinstance(layer, LayerGroup):
+            yield from iter_objects(layer.layers or [])
+        elif isinstance(layer, ObjectLayer):
+            yield from layer.tiled_objects
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From bf0dc82ff4892e64d4137a6160c1d1387373592a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:13 +0000
Subject: [PATCH 19/27] fix: do not take another tileset of the same name for
 the one of a template

The gid of the object then pointed at a tile of the wrong tileset.
---
 pytiled_parser/parsers/json/tiled_map.py | 27 ++++++++++++++----------
 pytiled_parser/parsers/tmx/tiled_map.py  | 27 ++++++++++++++----------
 2 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index c46a473..caab4db 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -143,26 +143,31 @@ def parse(file: Path) -> TiledMap:
             if tiled_object.new_tileset is not None:
                 # The tileset of a template can be in the other format
                 # than the map.
+                new_firstgid = next_free_gid(map_.tilesets)
                 if isinstance(tiled_object.new_tileset, etree.Element):
-                    parse_new_tileset = parse_tmx_tileset
-                    new_name = tiled_object.new_tileset.attrib["name"]
+                    new_tileset = parse_tmx_tileset(
+                        tiled_object.new_tileset,
+                        new_firstgid,
+                        tiled_object.new_tileset_path,
+                    )
                 else:
-                    parse_new_tileset = parse_json_tileset
-                    new_name = tiled_object.new_tileset["name"]
+                    new_tileset = parse_json_tileset(
+                        tiled_object.new_tileset,
+                        new_firstgid,
+                        tiled_object.new_tileset_path,
+                    )
 
+                # Different tilesets can have the same name.
                 already_loaded = None
                 for val in map_.tilesets.values():
-                    if val.name == new_name:
+                    new_tileset.firstgid = val.firstgid
+                    if val == new_tileset:
                         already_loaded = val
                         break
 
                 if not already_loaded:
-                    new_firstgid = next_free_gid(map_.tilesets)
-                    map_.tilesets[new_firstgid] = parse_new_tileset(
-                        tiled_object.new_tileset,
-                        new_firstgid,
-                        tiled_object.new_tileset_path,
-                    )
+                    new_tileset.firstgid = new_firstgid
+                    map_.tilesets[new_firstgid] = new_tileset
                     tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                 else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 9ccbac0..300323c 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -103,26 +103,31 @@ def parse(file: Path) -> TiledMap:
             if tiled_object.new_tileset is not None:
                 # The tileset of a template can be in the other format
                 # than the map.
+                new_firstgid = next_free_gid(map_.tilesets)
                 if isinstance(tiled_object.new_tileset, etree.Element):
-                    parse_new_tileset = parse_tmx_tileset
-                    new_name = tiled_object.new_tileset.attrib["name"]
+                    new_tileset = parse_tmx_tileset(
+                        tiled_object.new_tileset,
+                        new_firstgid,
+                        tiled_object.new_tileset_path,
+                    )
                 else:
-                    parse_new_tileset = parse_json_tileset
-                    new_name = tiled_object.new_tileset["name"]
+                    new_tileset = parse_json_tileset(
+                        tiled_object.new_tileset,
+                        new_firstgid,
+                        tiled_object.new_tileset_path,
+                    )
 
+                # Different tilesets can have the same name.
                 already_loaded = None
                 for val in map_.tilesets.values():
-                    if val.name == new_name:
+                    new_tileset.firstgid = val.firstgid
+                    if val == new_tileset:
                         already_loaded = val
                         break
 
                 if not already_loaded:
-                    new_firstgid = next_free_gid(map_.tilesets)
-                    map_.tilesets[new_firstgid] = parse_new_tileset(
-                        tiled_object.new_tileset,
-                        new_firstgid,
-                        tiled_object.new_tileset_path,
-                    )
+                    new_tileset.firstgid = new_firstgid
+                    map_.tilesets[new_firstgid] = new_tileset
                     tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                 else:
-- 
2.43.0


From a8e9b2b1bf30d84affb8181ff9ad416c7e934ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 20/27] fix: keep the gid a template instance gives itself

It refers to the tilesets of the map, not to the one of the template.
---
 pytiled_parser/parsers/json/tiled_object.py | 3 +++
 pytiled_parser/parsers/tmx/tiled_object.py  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 3e7f562..6fb8dca 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -317,6 +317,9 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            if raw_object.get("gid"):
+                # The gid of an instance is the one of a tileset of the map.
+                new_tileset = None
             for key in loaded_template:
                 if key == "properties" and raw_object.get("properties"):
                     # The properties of the instance override the ones the
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index c179767..8cc02fe 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -277,6 +277,10 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
+                if raw_object.attrib.get("gid"):
+                    # The gid of an instance is the one of a tileset of the map.
+                    new_tileset = None
+
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
-- 
2.43.0


From 0d3aeef50b72775750cc84262c8f758b9e598a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:59 +0000
Subject: [PATCH 21/27] fix: do not replace a map's empty tileset with the one
 of a template

---
 pytiled_parser/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index bc70f8e..67cea31 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -64,8 +64,9 @@ def next_free_gid(tilesets: Dict[int, Tileset]) -> int:
     next_gid = 1
 
     for firstgid, tileset in tilesets.items():
-        # The tiles of image collections can have ids beyond the tile count.
-        tile_ids = [tileset.tile_count - 1, *(tileset.tiles or {})]
+        # The tiles of image collections can have ids beyond the tile count,
+        # and a tileset without tiles still has its first gid to itself.
+        tile_ids = [0, tileset.tile_count - 1, *(tileset.tiles or {})]
         next_gid = max(next_gid, firstgid + max(tile_ids) + 1)
 
     return next_gid
-- 
2.43.0


From bb8bb3f61a4aa4da257b083fec2ca5f3988b0913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:58 +0000
Subject: [PATCH 22/27] fix: merge empty and legacy properties of template
 instances

---
 pytiled_parser/parsers/json/tiled_object.py | 31 +++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 6fb8dca..77dff6f 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -1,7 +1,7 @@
 """Object parsing for the JSON Map Format.
 """
 from pathlib import Path
-from typing import Any, Callable, Dict, List, Optional
+from typing import Any, Callable, Dict, List, Optional, Union
 
 from typing_extensions import TypedDict
 
@@ -288,6 +288,26 @@ def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
     return _parse_rectangle
 
 
+def _list_properties(
+    raw_properties: Union[List[RawProperty], Dict[str, Any]]
+) -> List[RawProperty]:
+    """Get raw properties as a list, also when they are a legacy mapping.
+
+    Args:
+        raw_properties: The raw properties of an object.
+
+    Returns:
+        List[RawProperty]: The same properties as a list.
+    """
+    if isinstance(raw_properties, dict):
+        return [
+            {"name": name, "type": "", "value": value}
+            for name, value in raw_properties.items()
+        ]
+
+    return raw_properties
+
+
 def parse(
     raw_object: RawObject,
     parent_dir: Optional[Path] = None,
@@ -321,15 +341,16 @@ def parse(
                 # The gid of an instance is the one of a tileset of the map.
                 new_tileset = None
             for key in loaded_template:
-                if key == "properties" and raw_object.get("properties"):
+                if key == "properties" and "properties" in raw_object:
                     # The properties of the instance override the ones the
                     # template gives under the same name.
-                    overridden = [prop["name"] for prop in raw_object["properties"]]
+                    own = _list_properties(raw_object["properties"])
+                    overridden = [prop["name"] for prop in own]
                     raw_object["properties"] = [
                         prop
-                        for prop in loaded_template["properties"]
+                        for prop in _list_properties(loaded_template["properties"])
                         if prop["name"] not in overridden
-                    ] + raw_object["properties"]
+                    ] + own
                 elif key != "id" and key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
-- 
2.43.0


From 948849b296d4e5fc61fdb837408699a2646b0754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 23/27] fix: refuse files that are not text with UnknownFormat

---
 pytiled_parser/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 67cea31..4a57c45 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -43,11 +43,12 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
+    # Read as bytes, since the file may be no text at all.
+    with open(file_path, "rb") as file:
         for line in file:
             line = line.strip()
             if line:
-                return "tmx" if line[0] == "<" else "json"
+                return "tmx" if line.startswith(b"<") else "json"
 
     # An empty file is left to the JSON parser to reject.
     return "json"
-- 
2.43.0


From 7a5d091295b85ac06c11a99cb565ba9e2f99c3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:30 +0000
Subject: [PATCH 24/27] fix: read files as UTF-8 whatever the locale

---
 pytiled_parser/parser.py                 | 4 ++--
 pytiled_parser/parsers/json/tiled_map.py | 4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 4 ++--
 pytiled_parser/util.py                   | 6 +++---
 pytiled_parser/world.py                  | 2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -50,12 +50,12 @@ def parse_tileset(file: Path) -> Tileset:
     parser = check_format(file)
 
     if parser == "tmx":
-        with open(file) as map_file:
+        with open(file, encoding="utf-8") as map_file:
             raw_tileset = etree.parse(map_file).getroot()
         return tmx_tileset_parse(raw_tileset, 1)
     else:
         try:
-            with open(file) as my_file:
+            with open(file, encoding="utf-8") as my_file:
                 raw_tileset = json.load(my_file)
             return json_tileset_parse(raw_tileset, 1)
         except ValueError:
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index caab4db..83430bc 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -64,7 +64,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -77,7 +77,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 300323c..ddba2f2 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -21,7 +21,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -34,7 +34,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 4a57c45..dc8ad46 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -93,7 +93,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -102,7 +102,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             try:
                 template = json.load(template_file)
             except ValueError:
@@ -123,7 +123,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From 14aa39abf6816699701c395173b6bc000ba8bb2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 25/27] fix: refuse TMX tile data stored as XML elements
 instead of dropping it

---
 pytiled_parser/parsers/tmx/layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 41f79ac..1c488a8 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -239,7 +239,9 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
 
         raw_chunks = data_element.findall("chunk")
         if not raw_chunks:
-            if not data_element.text or not data_element.text.strip():
+            if data_element.find("tile") is not None:
+                raise ValueError("Tile layer data as XML elements is not supported.")
+            elif not data_element.text or not data_element.text.strip():
                 # Layers of infinite maps which have no tiles have no chunks.
                 pass
             elif encoding and encoding != "csv":
-- 
2.43.0


From 0ae87dbc77f2c7e2a47b93c00abb322ebede41ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:24 +0000
Subject: [PATCH 26/27] fix: refuse tile data with an unknown encoding

---
 pytiled_parser/parsers/json/layer.py | 3 +++
 pytiled_parser/parsers/tmx/layer.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 23f96a8..2faa0c1 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -279,6 +279,9 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
     """
     tile_layer = TileLayer(**_parse_common(raw_layer).__dict__)
 
+    if raw_layer.get("encoding") not in [None, "csv", "base64"]:
+        raise ValueError(f"Unsupported tile layer encoding: {raw_layer['encoding']}")
+
     if raw_layer.get("chunks") is not None:
         tile_layer.chunks = []
         for chunk in raw_layer["chunks"]:
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 1c488a8..15569ff 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -233,6 +233,9 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
         if data_element.attrib.get("encoding") is not None:
             encoding = data_element.attrib["encoding"]
 
+        if encoding and encoding not in ["csv", "base64"]:
+            raise ValueError(f"Unsupported tile layer encoding: {encoding}")
+
         compression = ""
         if data_element.attrib.get("compression") is not None:
             compression = data_element.attrib["compression"]
-- 
2.43.0


From ec158b50be89e47ca3552eff8c294f27bbc74699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:24 +0000
Subject: [PATCH 27/27] fix: return TMX properties of type object as numbers,
 as in JSON

---
 pytiled_parser/parsers/tmx/properties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 7a420b5..869a033 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -24,7 +24,7 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = Path(value_)
         elif type_ == "color":
             value = parse_color(value_)
-        elif type_ == "int" or type_ == "float":
+        elif type_ == "int" or type_ == "float" or type_ == "object":
             value = float(value_)
         elif type_ == "bool":
             if value_ == "true":
-- 
2.43.0

