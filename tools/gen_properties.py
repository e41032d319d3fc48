#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os

P = "pytiled_parser/"
J, T = P + "parsers/json/", P + "parsers/tmx/"

ROWS = []


def p(id, title, statement, qtext, why, files, mechanism, over=("inputs",), state=None):
    a = {"files": files,
         "mechanism": [{"name": m, "where": ", ".join(files)} for m in mechanism]}
    if state:
        a["state"] = state
    ROWS.append({"id": id, "title": title, "statement": statement,
                 "quantifier": {"over": list(over), "text": qtext},
                 "why_tests_cant": why, "anchors": a})


p("C01", "Encoded tile data decodes to exactly the stored global tile ids",
  "For every tile layer or chunk whose data is stored base64-encoded, uncompressed or compressed with zlib, gzip or (where its library is installed) zstd, "
  "the ids the parser returns are exactly the little-endian unsigned 32-bit words of the payload, in order, none lost, "
  "added, reordered or altered (including ids whose flip-flag bits are set). "
  "This holds in both the JSON and the TMX format.",
  "every byte of the payload (so every 32-bit id at every position), every compression, both formats, layers and chunks",
  "fixtures hold a few dozen small ids with flag bits clear; the 2^32 values per cell and the byte-order/boundary cases are never exercised",
  [J + "layer.py", T + "layer.py"],
  ["_decode_tile_layer_data: base64 -> decompress -> 4-byte little-endian accumulation", "_parse_tile_layer / _parse_chunk pick the decoder from encoding and compression"])

p("C02", "Tile grids are row-major with exactly the layer's dimensions",
  "A tile layer of width w and height h is returned as h rows of w ids, the id at row y and column x being the stored id number y*w+x; "
  "this holds for JSON arrays and for TMX CSV text with any whitespace or line breaks around the numbers, and the returned layer size is the stored size.",
  "every w and h in bounds, every id value in every cell, every whitespace layout around CSV numbers",
  "tests compare a handful of fixed grids, mostly square or with repeated ids, so a transposition or an off-by-one at a row edge for other shapes goes unseen",
  [J + "layer.py", T + "layer.py"],
  ["_convert_raw_tile_layer_data", "CSV split and int conversion in _parse_tile_layer / _parse_chunk"])

p("C03", "Chunks of infinite maps keep their own position, size and contents",
  "A tile layer of an infinite map returns one chunk per stored chunk, in stored order, each with its own stored coordinates (negative ones included) and size, "
  "and its cells laid out row-major by the chunk's own width, in both formats and under every data encoding; such a layer carries no plain data grid.",
  "every chunk count and chunk shape in bounds, every coordinate, id value, encoding and both formats",
  "the infinite-map fixtures have 16x16 or 32x32 chunks only, so a mixed-up width (layer against chunk) or coordinate swap on other shapes is invisible",
  [J + "layer.py", T + "layer.py"], ["_parse_chunk", "chunk loops in _parse_tile_layer"])

p("C04", "Colours decode channel-exactly wherever they occur; malformed ones are rejected",
  "Every colour written #RRGGBB or #AARRGGBB (with or without the leading #, any letter case) yields exactly those red, green, blue and alpha values, alpha 255 when absent, "
  "wherever a colour may occur (map and tileset background, layer tint, transparent colour, text colour, wang colour, colour property). "
  "A string that is not such a colour is rejected with an error and never turned into a colour.",
  "all 16^6 and 16^8 digit strings in every case mix, every string up to 10 characters for rejection, every place a colour can appear in either format",
  "a few literal colours are tested; swapped channels with equal values, odd prefixes and signs accepted by int() are not",
  [P + "util.py", J + "tileset.py", T + "tileset.py", J + "layer.py", T + "layer.py", J + "tiled_map.py", T + "tiled_map.py"],
  ["parse_color", "all parse_color call sites", "the trans attribute in the TSX parser"])

p("C05", "Custom properties keep every name, type and value on every owner",
  "Every custom property of a map, layer, tileset, tile, object, wang set or wang colour is returned under its name with its stored value: strings exactly (including multi-line and empty ones), "
  "numbers numerically equal, booleans as booleans, file values as paths and colour values as colours, falsy values included, with nothing dropped or added. "
  "This holds for JSON lists, for the legacy JSON name-to-value mapping and for TMX.",
  "every set of properties in bounds on every kind of owner, every value of each type, both formats",
  "the fixtures contain one value of each type on a few owners; zero, false, empty and multi-line values and owners without fixtures are not covered",
  [J + "properties.py", T + "properties.py", J + "layer.py", T + "layer.py", J + "tileset.py", T + "tileset.py", J + "tiled_object.py", T + "tiled_object.py", J + "wang_set.py", T + "wang_set.py"],
  ["properties.parse in both formats", "the presence test each owner applies before parsing properties"])

p("C06", "Layer attributes are returned exactly, with documented defaults when absent",
  "For every layer of every kind, name, id, class, opacity, visibility, offset, parallax factor, tint colour, repeat flags, draw order, size, start coordinates (JSON) and image attributes equal what the file stores, "
  "for any combination of present and absent attributes and including falsy values such as 0 or false; an absent attribute takes its documented default, each axis independently of the other.",
  "every combination of present/absent optional attributes, every value of each (0 and false included), every layer kind, both formats",
  "the combinations of optional attributes are exponential and fixtures hold the few that the editor happened to save",
  [J + "layer.py", T + "layer.py", P + "layer.py"], ["_parse_common", "_parse_object_layer", "_parse_image_layer", "attrs defaults in layer.py"])

p("C07", "The layer tree is preserved: kind, order, nesting, each layer exactly once",
  "The returned map has exactly the file's layers, each once, with its own kind and contents, in the file's order at each level and nested in groups exactly as in the file, to any depth. "
  "Layers of tilesets' collision shapes never appear among the map's layers.",
  "every layer tree in bounds (kinds, orders, nesting), with or without embedded tilesets that carry collision shapes, both formats",
  "no fixture mixes kinds inside nested groups in non-grouped order, or embeds a tileset with collision shapes in a TMX map",
  [J + "layer.py", T + "layer.py", J + "tiled_map.py", T + "tiled_map.py"], ["parse (layer dispatch)", "_parse_group_layer", "layer collection in tiled_map.parse"])

p("C08", "Objects keep their kind, order, geometry and attributes",
  "Every object of an object layer is returned in file order as the kind the file says (rectangle, ellipse, point, polygon, polyline, text or tile), with its id, name, class, position, size, rotation, visibility, "
  "gid and every vertex in order exactly as stored, and documented defaults for absent attributes. "
  "The older 'type' and newer 'class' spellings of an object's class are both honoured, 'class' winning.",
  "every kind, every subset of optional attributes, every coordinate (negative, fractional, zero), point lists up to the bound, both formats",
  "one fixture object of each kind; swapped axes with equal values, zero gids or sizes, one-sided sizes and class/type mixes are not sampled",
  [J + "tiled_object.py", T + "tiled_object.py", P + "tiled_object.py"], ["_get_parser", "_parse_common", "_parse_polygon / _parse_polyline", "_parse_tile"])

p("C09", "Text objects keep their text and every formatting attribute",
  "A text object is returned with exactly the stored text (possibly empty) and every formatting attribute - colour, font family, pixel size, bold, italic, kerning, strikeout, underline, wrap, horizontal and vertical alignment - as stored, "
  "each independently of the others, with the documented default for each absent one.",
  "every subset of the eleven optional attributes and every value of each, both formats",
  "2^11 attribute subsets; fixtures contain three",
  [J + "tiled_object.py", T + "tiled_object.py", P + "tiled_object.py"], ["_parse_text", "Text defaults"])

p("C10", "Tilesets keep every attribute, with documented defaults when absent",
  "Every tileset, embedded or external, is returned with its name, tile size, count, columns, spacing, margin, versions, class, alignment, render size, fill mode, image and image size, background and transparent colour, "
  "tile offset, grid and allowed transformations exactly as stored, falsy values included, and documented defaults for what is absent.",
  "every subset of optional attributes and every value of each, both formats, standalone and inside a map",
  "fixtures cover a few of the 2^15 attribute subsets, mostly with default values",
  [J + "tileset.py", T + "tileset.py", P + "tileset.py"], ["tileset.parse", "_parse_grid", "_parse_transformations", "_parse_tile_offset"])

p("C11", "Every tile definition is kept under its id with all its data",
  "Every tile defined in a tileset is returned under its own local id (also sparse or unordered ids, also the legacy id-to-tile mapping) with its class, animation frames in order with tile id and duration, "
  "collision shapes, properties, image and image size, and sub-rectangle; a tile's width and height are its image's unless the file gives its own.",
  "every tile id set in bounds, every subset of tile data, every frame list in bounds, both formats",
  "fixtures use consecutive ids and few combinations of image, sub-rectangle, animation and collision data",
  [J + "tileset.py", T + "tileset.py"], ["_parse_tile", "_parse_frame", "the tiles loop in tileset.parse"])

p("C12", "Wang sets keep their colours, tiles and attributes",
  "Every wang set of a tileset is returned in order with its name, class, type, representative tile and properties, its colours in order with name, class, colour, tile, probability and properties, and each wang tile under its own tile id with its eight colour indexes in order.",
  "every wang set in bounds, every value of each field and every subset of optional ones, both formats",
  "three fixtures from the editor without classes or duplicate shapes",
  [J + "wang_set.py", T + "wang_set.py", P + "wang_set.py"], ["wang_set.parse", "_parse_wang_color", "_parse_wang_tile"])

p("C13", "Map attributes are returned exactly, with documented defaults when absent",
  "A parsed map carries exactly the stored size, tile size, orientation, render order, infinite flag, versions, next ids, class, background colour, hexagon side length, stagger axis and index and parallax origin, for every combination of present and absent optional ones including zero values, "
  "documented defaults where absent, and the path it was given.",
  "every subset of optional attributes, every value of each, both formats",
  "fixtures cover the subsets the editor saved; an attribute copied from its neighbour or dropped when zero passes them",
  [J + "tiled_map.py", T + "tiled_map.py", P + "tiled_map.py"], ["tiled_map.parse"])

p("C14", "Tileset references resolve to the right file, first gid and image paths",
  "A map's tilesets are keyed by the first gid the map gives, one for each tileset in the file, each with the content of the embedded definition or of the referenced file (JSON or TSX, whatever the map's own format), resolved against the map's directory. "
  "Image paths in an external tileset are resolved against that tileset's own directory to absolute normalised paths; embedded and standalone tilesets keep their image path as stored.",
  "every combination of up to three tilesets (embedded, external JSON, external TSX), every first gid, directory depths and relative path shapes including parent steps",
  "fixtures keep maps and tilesets in the same directory or one level away; the map-format x tileset-format x location grid is not covered",
  [J + "tiled_map.py", T + "tiled_map.py", J + "tileset.py", T + "tileset.py"], ["the raw_tilesets loop", "external_path handling"],
  over=("inputs", "configurations"))

p("C15", "Template instances inherit from the template and override it",
  "An object that names a template is returned with every attribute, property and shape the template defines, except those the instance itself gives, which win; properties are merged by name with the instance's value winning, and the id and position are the instance's. "
  "Parsing several instances of one template, in any order, never lets one affect another.",
  "every subset of attributes overridden, every pair of values, properties on either side or both, several instances of one template, both formats",
  "fixtures hold one instance per template and instances that override nothing",
  [J + "tiled_object.py", T + "tiled_object.py", P + "util.py"], ["parse (template branch)", "load_object_template"])

p("C16", "Template tile objects get the gid of the right tile; gid ranges stay disjoint",
  "A tile object that comes from a template with its own tileset gets the gid that the map's tilesets map to that very tile: if the map already has that tileset, its first gid is used, otherwise the tileset is added once under a first gid above every id already in use. "
  "Distinct tilesets' gid ranges never overlap, and objects nested in groups are treated like top-level ones.",
  "every combination of tilesets already in the map (none, the same, others; with sparse ids above the count), several template objects in bounds, top-level and nested, both map formats and both tileset formats",
  "the fixtures have one template tileset against one dense tileset at top level",
  [J + "tiled_map.py", T + "tiled_map.py"], ["the new_tileset block of tiled_map.parse"], over=("inputs", "configurations"))

p("C17", "Format is detected from content; bad input is refused with the library's error",
  "A map, tileset or template is read as XML exactly when its first non-blank character opens a tag and as JSON otherwise, whatever its file name and whatever blank space or blank lines precede it. "
  "A non-XML file that is not valid JSON is refused with the library's unknown-format error, in every place where a map or tileset may be read.",
  "every leading-whitespace string in bounds, every file name, both contents, and corrupt content at the map, external-tileset and standalone-tileset positions",
  "tests use the natural extension and one corrupt file per entry point",
  [P + "util.py", P + "parser.py", J + "tiled_map.py", T + "tiled_map.py"], ["check_format", "UnknownFormat handling in parse_map / parse_tileset / tileset loading"])

p("C18", "World files list every map with its position, size and path",
  "A parsed world lists every statically named map, in order, with its stored size, position and path resolved against the world's directory, followed for each pattern by exactly the files of that directory whose name matches the pattern from the start, "
  "positioned at the captured numbers times the multipliers plus the offsets (0 where absent) and sized by the multipliers; the only-show-adjacent flag is as stored, false when absent.",
  "every number in every field, every capture value, every directory listing in bounds, presence or absence of maps, patterns, offsets and the flag",
  "two fixtures with one pattern, equal multipliers and no mixed directories",
  [P + "world.py"], ["parse_world", "_parse_world_map"])

p("C19", "The same map written as JSON and as TMX parses to the same data",
  "A map or tileset expressible in both formats gives the same layers, objects, tiles, properties, tilesets and attributes whichever format it is saved in: equal values field by field, apart from the map's own file path, whole numbers written as floats, and information only one of the formats stores.",
  "all maps in the intersection of the two formats within the bounds",
  "the fixtures pair the formats only through separately written expectations for the same few maps",
  [J + "tiled_map.py", T + "tiled_map.py", J + "layer.py", T + "layer.py", J + "tileset.py", T + "tileset.py", J + "tiled_object.py", T + "tiled_object.py"],
  ["the two parallel parser packages"])

p("C20", "Parsing is pure: results share no state, repeats agree, nothing is left behind",
  "Parsing any file twice gives equal results, and no mutation of one result is visible in another result, in another object of the same result or in a later parse. "
  "A file changed between two parses is read anew. Parsing prints nothing, writes nothing and leaves no file open, also when it fails.",
  "every sequence of two parses of maps, tilesets and worlds in bounds with a mutation in between, both formats, with and without errors",
  "tests parse once per process-wide fixture and compare once; they never mutate a result or look at output or open files",
  [P + "tiled_object.py", P + "layer.py", P + "tileset.py", P + "util.py", P + "parser.py", J + "tiled_map.py", T + "tiled_map.py"],
  ["attrs defaults", "module-level state", "file handling in the parse functions"], over=("inputs", "histories"),
  state=[{"name": "attrs default values", "meaning": "objects created at import time and shared by every instance"}])

p("C21", "Data the parser does not support is refused, never mis-decoded",
  "A tile layer with a compression the parser does not know or cannot load (such as zstd without its library), a layer of unknown kind, an image layer without an image in TMX, and an object template in the other format than the map are refused with an exception; "
  "the parser never returns tile ids or objects for them that the file does not contain.",
  "every compression name outside the supported set, every unknown kind name, each position in both formats",
  "one fixture for zstd and for one unknown kind; unknown compression names are not tested",
  [J + "layer.py", T + "layer.py", J + "tiled_object.py", T + "tiled_object.py"], ["_decode_tile_layer_data", "parse (layer dispatch)", "parse (template branch)"])

p("C22", "Parsing cost grows at most linearly with the number of tiles",
  "The time and memory needed to parse a tile layer grow at most proportionally to the number of cells, whatever the encoding.",
  "every layer size", "tests use layers of at most a few thousand cells and never measure",
  [J + "layer.py", T + "layer.py"], ["_convert_raw_tile_layer_data", "_decode_tile_layer_data"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for r in ROWS:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
