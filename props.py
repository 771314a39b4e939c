"""The properties, and the symbolic-execution jobs that decide them. gen.py derives properties.jsonl and MANIFEST.json."""
LEVEL_NOTE = ("Every assertion is decided by the solver for all values within these bounds; counterexamples are replayed natively. "
              "Trusted: rustc's IR generation at opt-level 2, the engine's IR semantics (validated natively on witnesses each run), Z3.")
HOOK_COMMITS = ["eb0f9de"]
COMMON_ASSUMPTIONS = [
    "IR is generated by the installed rustc at opt-level 2 with fat LTO, overflow checks on; later code generation is trusted",
    "allocation never fails; a panic aborts",
    "tracing/log macros have no subscriber",
]
CR = "crates/rerecast/src/"
PROPS = {}
CTR_RAW = [1, 2, 3, 5, 11, 12, 13, 14, 15, 16]
CTR_SIMP = [4, 6] + list(range(30, 39))
REG_PART = [1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 14, 17]
REG_SIZE = [10, 11, 12, 15, 16]
PM_ADJ = [8, 11, 12, 13, 20]
PM_COVER = [x for x in range(1, 22) if x not in (8, 11, 12, 13)]
PM_SEAM = list(range(1, 40))
POLY_SHAPES = "14 shapes"
NOT_APPLICABLE = {}


def P(pid, title, statement, quant, why, files, mech, jobs, ids={}, over=("inputs",), **kw):
    PROPS[pid] = dict(title=title, statement=statement, quant=quant, why=why, files=[CR + f if "/" not in f else f for f in files],
                      mech=mech, jobs=jobs, ids={str(k): v for k, v in ids.items()}, over=list(over), **kw)


def J(entry, shards, bounds, **kw):
    return dict(entry=entry, shards=shards, bounds=bounds, **kw)


P("C01", "Adding a solid block to a column keeps the column a sorted disjoint union",
  "After a voxel block is added to a heightfield column, the column is the union of the old blocks and the new one (sorted bottom to top, pairwise neither overlapping nor touching), every other block and every other column is unchanged, and no storage slot is leaked. Where blocks merge, the merged block's area type is the highest-priority one among the merged blocks whose tops lie within the merge threshold of the top reached so far, the new block's own type being the starting point and blocks being absorbed bottom to top.",
  "all columns of up to 3 blocks, all 16-bit extents, all area types, all thresholds", "the C++ comparison test rasterizes three meshes with one threshold; equal tops, touching blocks and extreme thresholds are never enumerated",
  ["heightfield.rs", "span.rs", "rasterize.rs"], [("column insertion with merging", CR + "heightfield.rs")],
  [J("h_add_span", 4, "0..3 existing blocks, one neighbour column")],
  {1: "insertion succeeds", 2: "number of blocks", 3: "extent of a block", 4: "area of a block", 5: "another column changed", 6: "stored spans leaked or lost", 90: "column is cyclic"},
  hook="cfg(rerecast_verif) wrapper around span insertion")
P("C02", "Low-hanging obstacles become walkable exactly when climbable",
  "Filtering low-hanging obstacles re-labels an unwalkable block with the area type that the block directly below originally had, exactly when that block was originally walkable and its top is at most the climb height below. All other area types, all extents and all columns' structure are unchanged.",
  "all columns of up to 4 blocks, all extents, area types and climb heights", "the reference data holds a few obstacle configurations and one climb height",
  ["pre_filter.rs"], [("filter_low_hanging_walkable_obstacles", CR + "pre_filter.rs")],
  [J("h_low_hanging", 5, "0..4 blocks in one column, 2 in another")],
  {1: "area type after the filter", 90: "column is cyclic", 91: "number of blocks", 92: "an extent changed", 93: "stored spans"})
P("C03", "Floors without head room become unwalkable, and only those",
  "Filtering by walkable height makes a block unwalkable exactly when the free space between its top and the next block above it (or the top of the height range) is less than the required height. All other area types, extents and the columns' structure are unchanged.",
  "all columns of up to 4 blocks, all extents, area types and heights", "one walkable height and a handful of ceilings in the reference data",
  ["pre_filter.rs"], [("filter_walkable_low_height_spans", CR + "pre_filter.rs")],
  [J("h_low_height", 5, "0..4 blocks in one column, 2 in another")],
  {1: "area type after the filter", 91: "number of blocks", 92: "an extent changed"})
P("C04", "Ledges and steep steps become unwalkable, and only those",
  "Filtering ledges makes a block unwalkable exactly when it is at the edge of the field, when an opening of at least agent height into a neighbouring column leads further down than the climb height, or when the floors reachable from it by steps of at most the climb height differ among themselves and from it by more than the climb height. The bottom of the field counts as an endless drop; every other block keeps its area type, and the result does not depend on the order of columns.",
  "all 3x3 neighbourhoods with up to 2 blocks per column, all extents, area types, heights and climbs", "the exact boundary cases (equal to the climb, ceiling pinching the opening) are not in the reference data",
  ["pre_filter.rs"], [("filter_ledge_spans", CR + "pre_filter.rs")],
  [J("h_ledge", 9, "a centre column with 1..2 blocks and its four neighbours with 0..2 blocks, at most 7 blocks in total")],
  {1: "area type after the filter", 91: "number of blocks", 92: "an extent changed"})
P("C06", "Compaction keeps exactly the walkable floors",
  "The compact heightfield holds one open span for each walkable block, in column order and bottom to top, with the block's top as floor, its area type, and the clearance above it up to the next block of any kind, capped at 255. Field dimensions, cell sizes and agent parameters carry over, and every cell's range selects exactly its own spans.",
  "all fields of up to 4 columns and 4 blocks, all extents and area types", "tests compare three complete meshes; unwalkable blocks as ceilings and clearances near the cap are not enumerated",
  ["compact_heightfield.rs", "compact_cell.rs"], [("into_compact", CR + "compact_heightfield.rs")],
  [J("h_compact", 3, "2x2, 1x1 and 3x1 fields with 4 blocks in total")],
  {1: "compaction fails", 2: "number of spans", 3: "number of cells", 4: "dimensions", 10: "cell count", 11: "cell index", 12: "floor", 13: "clearance", 14: "area type"})
P("C07", "Neighbouring floors are linked exactly when an agent can step across",
  "A floor is linked in a direction exactly when the neighbouring column in that direction exists and holds a floor that differs from it in height by at most the climb and shares with it an opening of at least the agent height (clearances capped at 255); the link then names the lowest such floor. Nothing is linked across the field's edge.",
  "all pairs and small rows of columns with up to 2 walkable floors each, all heights and agent parameters", "reference data has one agent and few multi-level places",
  ["compact_heightfield.rs", "compact_span.rs"], [("into_compact neighbour links", CR + "compact_heightfield.rs")],
  [J("h_connect", 4, "columns with 2+2 walkable floors; 1+2, 1+1+1 and 2x2 floors of any area type", weight=5)],
  {20: "link across the edge", 21: "wrong link"})
P("C08", "Fields that exceed the layer limits are rejected, never silently wrong",
  "When a link would have to name a layer beyond the 63 a link can express, or a column has more than 255 walkable floors, compaction reports an error. In all other cases it succeeds and every link and cell count is exact.",
  "columns of 58 to 65 floors and each reachable layer; columns of 254 to 257 floors of any area type and agent height", "no test has columns that deep",
  ["compact_heightfield.rs", "compact_cell.rs"], [("TooManyLayers", CR + "compact_heightfield.rs")],
  [J("h_layers", 8, "58..65 floors, any one of them reachable"), J("h_column_count", 4, "254..257 floors in a column")],
  {1: "link or count", 2: "back link or span count", 3: "inexpressible link accepted, or a representable column rejected", 4: "a representable link rejected"})
P("C09", "Links and clearance of an open span are stored independently",
  "Setting a span's link in one direction is read back exactly and leaves the links of the other directions, the clearance, the floor and the region alone; setting the clearance leaves all links alone. A cell's first index and count are likewise stored independently.",
  "all 2^32 packed contents, all directions, links and clearances", "unit tests set a few values in one order",
  ["compact_span.rs", "compact_cell.rs"], [("bit packing", CR + "compact_span.rs")],
  [J("h_packing", 1, "unbounded: all bit patterns")],
  {1: "link", 2: "clearance changed by a link", 4: "clearance", 5: "link changed by clearance", 6: "cell index or count", 8: "count increment"})
P("C10", "Erosion removes exactly the floors within the agent radius of an edge",
  "Eroding by a radius makes a walkable floor unwalkable exactly when its chamfer distance (2 per straight step, 3 per diagonal step, along links) to the nearest boundary floor is less than twice the radius, for every radius; a boundary floor is an unwalkable one or one without a walkable linked floor in each of the four directions. Everything else in the field is unchanged.",
  "all radii; all area and link patterns of fields up to 4x3 and 3x3 with two levels; open fields up to 520 cells long and 265 cells wide", "one radius is compared; radii above 127 and multi-level links are untested",
  ["erosion.rs"], [("erode_walkable_area", CR + "erosion.rs")],
  [J("h_erode", 6, "six layouts up to 12 columns and 10 floors, all areas and links symbolic, all radii"), J("h_erode_wide", 4, "open 7x6 field with every subset of four holes, all radii"),
   J("h_erode_large", 2, "open fields of 257 and 520 by 3, all radii"), J("h_erode_deep", 1, "open 265x265 field, all radii", path_steps=200000000)],
  {1: "area type after erosion", 2: "a span changed", 3: "structure", 4: "metadata"})
P("C11", "The distance field is the smoothed distance to the nearest area border",
  "Building the distance field gives each floor the chamfer distance (2 per straight step, 3 per diagonal, along links) to the nearest floor that lacks a same-area neighbour in some direction, smoothed by a rounded 3x3 average (missing neighbours count as the floor itself) wherever that distance exceeds 2. The recorded maximum is that of the unsmoothed distances, and nothing else changes.",
  "all area and link patterns of fields up to 4x3 and 3x3 with two levels, an open 5x5 field, and open fields up to 300 cells wide", "one set of meshes is compared",
  ["watershed_distance_field.rs"], [("build_distance_field", CR + "watershed_distance_field.rs")],
  [J("h_distance", 6, "six layouts up to 12 columns and 10 floors, all areas and links symbolic"), J("h_distance_wide", 1, "open 5x5 field, each cell one of two areas"), J("h_distance_large", 2, "open 270x270 and 262x300 fields", path_steps=200000000)],
  {1: "maximum distance", 2: "length", 3: "smoothed distance", 4: "an area changed", 6: "a span changed"})
P("C05", "Populating a heightfield applies the three filters in the documented order",
  "Populating a heightfield from triangles is the same as rasterizing and then applying, in this order, the low-hanging-obstacle filter, the ledge filter and the low-height filter with the same height and climb.",
  "all 5-column neighbourhoods with 6 blocks, all extents, area types, heights and climbs; no further triangles", "the final meshes of the reference inputs barely depend on the order",
  ["pre_filter.rs", "rasterize.rs", "heightfield.rs"], [("populate_from_trimesh", CR + "heightfield.rs")],
  [J("h_populate_filters", 1, "a centre column with 2 blocks and its four neighbours with one block each")],
  {1: "area type differs", 2: "populating fails", 91: "number of blocks", 92: "an extent changed"})
P("C13", "Raw contours are the exact outlines of the regions",
  "Building contours walks every outline of every region (outer ones and holes) exactly once, corner by corner: each raw contour carries its region and area type; each of its points is the next corner of the outline, at the height of the highest floor touching that corner, and records the region on the other side, whether the area type changes there, and whether the corner lies on the tile border's seam. Positions are relative to the tile without its border; the set's dimensions, bounds and metadata are those of the tile without its border.",
  "every assignment of one region to a 4x3 field and of two regions to a 4x2 field, a dozen larger layouts with holes, overlapping levels and painted borders; all floor heights", "two reference meshes are compared; holes, single-cell corners, level changes and border seams are not enumerated",
  ["contours.rs"], [("build_contours, walk_contour, corner heights", CR + "contours.rs")],
  [J("h_contours", 10, "10 layouts up to 6x6, two levels, all heights", ids=CTR_RAW), J("h_contours_any", 8, "every one-region 4x3 layout, all heights", ids=CTR_RAW),
   J("h_contours_any3", 27, "every two-region 4x2 layout, all heights", ids=CTR_RAW), J("h_contours_many", 2, "9 and 16 holes", ids=CTR_RAW),
   J("h_contours_border", 4, "four 5x5 layouts with a painted border of one cell", ids=CTR_RAW)],
  {1: "dimensions", 2: "bounds", 3: "metadata", 5: "spurious contour", 11: "number of raw points", 12: "position of a raw point", 13: "corner height", 14: "region, area or border information of a raw point", 15: "region", 16: "area type"})
P("C14", "Simplified contours stay within the tolerance and keep every portal",
  "A simplified contour has at least three vertices, all of them corners of the raw outline in order and going round exactly once, at their raw heights; each edge records what its outline part faces; every change of the facing region is kept as a vertex; outline corners facing no region or another area type deviate from their edge by at most the tolerance (where the edge is not subject to length splitting); edges subject to splitting are no longer than the maximum length. A contour is only dropped when it is thinner than the tolerance.",
  "the layouts of C13; six tolerances from 0 to 4 cells, all maximum edge lengths, all splitting flags", "one tolerance and one edge length are compared",
  ["contours.rs"], [("simplify_contour, remove_degenerate_segments", CR + "contours.rs")],
  [J("h_contours", 10, "10 layouts up to 6x6, six tolerances, all edge lengths and flags", ids=CTR_SIMP), J("h_contours_any", 8, "every one-region 4x3 layout, two tolerances", ids=CTR_SIMP),
   J("h_contours_any3", 27, "every two-region 4x2 layout, two tolerances", ids=CTR_SIMP), J("h_contours_border", 4, "four 5x5 layouts with a painted border", ids=CTR_SIMP)],
  {4: "contour dropped although the tolerance is small", 6: "contour dropped although it is wider than the tolerance", 30: "fewer than three vertices", 31: "vertex not on the outline", 32: "not one turn around the outline", 33: "zero-length edge",
   34: "height of a vertex", 35: "region, area or border information of an edge", 36: "portal end is not a vertex", 37: "outside the tolerance", 38: "edge too long"})
P("C15", "Regions partition the walkable floors into connected single-area pieces",
  "Every region that is built is one connected set of floors of one area type, numbered from 1 to the recorded maximum; unwalkable floors get no region, floors within the border width of the field's edge get border regions, and without a minimum size every walkable floor inside gets a region (if any floor of the field lies away from all edges). Merging never makes a region cover the same column twice. Area types, distances, links and floors are unchanged.",
  "every one-area pattern of a 4x3 field, every two-area pattern of a 3x3 field, fields with painted borders, two-room layouts and a ramp that overlaps itself; all minimum and merge sizes", "two reference meshes are compared",
  ["watershed_build_regions.rs", "region.rs"], [("build_regions", CR + "watershed_build_regions.rs"), ("merge_and_filter_regions", CR + "watershed_build_regions.rs")],
  [J("h_regions", 8, "every one-area 4x3 pattern, all sizes", ids=REG_PART), J("h_regions_areas", 27, "every two-area 3x3 pattern, all sizes", ids=REG_PART), J("h_regions_border", 8, "3x2 patterns inside a border of one cell", ids=REG_PART),
   J("h_regions_rooms", 5, "two 7x7 rooms with 16 walls between them; a 15x15 spiral ramp overlapping itself, 16 door patterns", ids=REG_PART, weight=3)],
  {1: "border size", 2: "too many regions", 3: "region on an unwalkable floor", 4: "floor in the border without border region", 5: "region number out of range", 6: "an area type changed", 7: "the field changed", 8: "two area types in a region",
   9: "region is not connected", 11: "floor without region", 13: "building fails", 14: "region covers a column twice", 17: "too many regions"})
P("C16", "Small islands vanish, larger ones stay, and merging respects the merge size",
  "An island of connected walkable floors smaller than the minimum region size and not touching the tile border loses its region; an island at least that large, or touching the border, keeps a region on every floor. Regions larger than the merge size that touch the outside are never merged with each other; once the merge size reaches the size of an island without holes and of one area type, it is a single region.",
  "the patterns of C15, all minimum and merge sizes", "one setting of each is compared",
  ["watershed_build_regions.rs"], [("merge_and_filter_regions", CR + "watershed_build_regions.rs")],
  [J("h_regions", 8, "every one-area 4x3 pattern, all sizes", ids=REG_SIZE), J("h_regions_areas", 27, "every two-area 3x3 pattern, all sizes", ids=REG_SIZE), J("h_regions_border", 8, "3x2 patterns inside a border of one cell", ids=REG_SIZE),
   J("h_regions_rooms", 5, "two 7x7 rooms with 16 walls between them", ids=REG_SIZE, weight=3)],
  {10: "small island kept", 11: "large island lost", 12: "island at the border lost", 15: "regions left unmerged", 16: "large regions merged"})
P("C17", "The polygon mesh covers every region exactly with convex polygons",
  "Building the polygon mesh from the contours of regions, with or without holes, succeeds, and the polygons of each region tile that region's simplified outline exactly: nothing is left out, covered twice or added. Every polygon has between three and the maximum number of distinct vertices, is convex with one orientation, and carries the region and area type of its contour; every vertex is a corner of some outline at its height, corners at one place share one vertex, and the per-polygon arrays have one entry per polygon.",
  "every one- and two-region layout of small fields whose regions have no holes, five layouts with holes, 14 shapes with needles, spirals, combs and straight corners, at scales up to the largest coordinates; all numbers of vertices per polygon", "two reference meshes with one setting are compared; degenerate triangles, straight corners, large coordinates and small vertex limits are not enumerated",
  ["poly_mesh.rs"], [("into_polygon_mesh, triangulate, merge_poly_verts, get_poly_merge_value", CR + "poly_mesh.rs")],
  [J("h_poly_shapes", 14, POLY_SHAPES, ids=PM_COVER, weight=2), J("h_poly_any", 8, "hole-free one-region 4x3 layouts", ids=PM_COVER), J("h_poly_any3", 27, "hole-free two-region 4x2 layouts", ids=PM_COVER),
   J("h_poly_holes", 5, "five layouts of regions with holes")],
  {1: "metadata", 2: "number of polygons", 3: "number of regions", 4: "number of areas", 5: "number of flags", 6: "fewer than three vertices", 7: "vertex index", 9: "not convex", 10: "repeated vertex", 14: "vertex is no corner of an outline", 15: "two vertices at one place",
   16: "corner lost", 17: "area type", 18: "outline not covered exactly", 19: "region", 20: "building fails", 21: "scaled outline meshes differently", 40: "building fails", 41: "building fails", 42: "building fails", 43: "building fails", 44: "building fails"})
P("C18", "Polygons that share an edge are linked both ways, outer edges are not",
  "Two polygons of the mesh that share an edge name each other as neighbours across exactly that edge, and no other edge names a neighbour. An edge on the tile's outer border, where the tile has a border, records the side it lies on as a portal; all other outer edges record nothing.",
  "the meshes of C17 and of fields with painted borders; all numbers of vertices per polygon", "two reference meshes are compared",
  ["poly_mesh.rs"], [("build_mesh_adjacency, portal edges", CR + "poly_mesh.rs")],
  [J("h_poly_shapes", 14, POLY_SHAPES, ids=PM_ADJ, weight=2), J("h_poly_any", 8, "hole-free one-region 4x3 layouts", ids=PM_ADJ), J("h_poly_any3", 27, "hole-free two-region 4x2 layouts", ids=PM_ADJ),
   J("h_poly_border", 27, "two-region layouts of the 3x2 cells inside and across a painted border", ids=PM_ADJ), J("h_poly_border_full", 8, "layouts that fill the tile and its border", ids=PM_ADJ)],
  {8: "padding", 11: "shared edge", 12: "outer or portal edge", 13: "neighbour out of range", 20: "building fails"})
P("C19", "Seam vertices are removed exactly when possible, without changing coverage",
  "Vertices that only mark the tile border's seam are removed from the polygon mesh exactly when the polygons around them form one open fan with enough outer edges; the polygons that fill the gap keep the region and area type of a removed one, or no region where they join several. The mesh stays a valid one in all respects of the polygon mesh's guarantees, and the covered outline changes only by cutting the removed corners.",
  "two-region layouts of the cells inside and across a painted border, 13 layouts of up to 6 regions around seam vertices and half circles cut into sectors; all area types; vertex limits 3 to 7", "no test has a border seam",
  ["poly_mesh.rs"], [("can_remove_vertex, remove_vertex", CR + "poly_mesh.rs")],
  [J("h_poly_border", 27, "two-region layouts of the 3x2 cells inside and across a painted border", ids=PM_SEAM), J("h_poly_border_full", 8, "layouts that fill the tile and its border", ids=PM_SEAM),
   J("h_poly_seams", 14, "13 layouts of up to 6 regions around seam vertices and every cut of a half circle into 2 or 3 sectors, all area types", ids=PM_SEAM)],
  {30: "coverage after removal", 31: "coverage after removal", 32: "coverage after removal", 33: "region", 34: "area type", 35: "vertex removed although needed, or kept although removable", 20: "building fails"})
P("C12", "A convex volume marks exactly the floors inside it",
  "Marking a convex volume gives its area type to every walkable floor whose column centre lies inside the volume's outline and whose height lies between the voxels that the volume's bottom and top reach into; volumes that share an edge leave no floor between them unmarked and none marked by both. Unwalkable floors, floors outside and everything else in the field stay unchanged, for outlines of either orientation, reaching over the field's edges, or without area.",
  "every triangle and convex quadrilateral over coarse grids in and around a 3x3 field, twelve larger polygons at odd cell sizes and distant origins; all floor heights, area types and vertical extents", "the reference data marks one volume",
  ["mark_convex_poly_area.rs", "math.rs"], [("mark_convex_poly_area, point_in_poly", CR + "mark_convex_poly_area.rs")],
  [J("h_convex_tri", 36, "triangles with corners from a 6x6 grid"), J("h_convex_quad", 16, "convex quadrilaterals with corners from a 4x4 grid"), J("h_convex_poly", 12, "polygons of up to 10 corners, 2 orientations, 4 scales"),
   J("h_convex_shared", 16, "16 ways to cut a square in two")],
  {1: "number of areas", 2: "the field changed", 3: "floor inside not marked", 4: "floor outside marked", 5: "unwalkable floor or floor above or below marked", 6: "wrong area type", 7: "floor on a shared edge marked twice or not at all"})
P("C20", "A triangle fills exactly the cells it overlaps, over the heights it has there",
  "Rasterizing a triangle adds one block to every column whose cell shares area with the triangle, spanning the voxels between the least and the greatest height of the triangle inside that cell (at least one voxel, cut off at the bounds of the field) and carrying the given area type, and adds nothing to columns whose cell it does not touch; cells that it only touches may or may not be filled. Parts above, below or beside the field add nothing (what sticks out by less than a cell may count for the first row or column), rasterizing never fails, and a mesh is rasterized as the sequence of its triangles.",
  "level triangles over coarse grids in and around a 3x3 field at all heights, sloping triangles in and across a 4x4 field at all heights, odd cell sizes and distant origins, fields at the size limits", "three meshes are compared; triangles on cell boundaries, at the height limits and across the field's sides are not enumerated",
  ["rasterize.rs", "heightfield.rs", "math.rs"], [("rasterize_triangle, divide_poly", CR + "rasterize.rs")],
  [J("h_raster_flat", 36, "level triangles with corners from a 6x6 grid, all 16-bit heights", ids=list(range(1, 10))), J("h_raster_slope", 72, "12 triangles at 6 places, 8 slopes, 6 vertex orders, all heights"),
   J("h_raster_scale", 24, "corners on and next to cell boundaries, 6 cell sizes and origins"), J("h_raster_limits", 6, "fields 65535 voxels high, 40000 and 65535 cells wide, without cells"), J("h_mesh_raster", 3, "meshes of up to three triangles, all heights, area types and thresholds")],
  {1: "rasterizing fails", 2: "cell not filled", 3: "cell filled that the triangle does not touch", 4: "more than one block", 5: "block outside the height range", 6: "bottom", 7: "top", 8: "area type", 9: "empty block",
   30: "rasterizing fails", 31: "mesh differs from its triangles", 32: "mesh differs from its triangles"})
P("C21", "Joined meshes keep every triangle; only gentle upward triangles are walkable",
  "Joining two meshes keeps all vertices, triangles and area types of both, every triangle with its own corners. A mesh's bounds are the least box around its vertices (none for an empty mesh). Marking walkable triangles makes a triangle walkable exactly when it faces upward and its slope is below the threshold (triangles without area have no slope), and changes nothing else.",
  "meshes of up to 10 vertices with all indices, heights and area types; all finite coordinates for up to 4 vertices; six plan shapes at 169 slopes and four thresholds", "one joined pair and one threshold are tested",
  ["trimesh.rs", "math.rs"], [("TriMesh::extend, compute_aabb, mark_walkable_triangles", CR + "trimesh.rs")],
  [J("h_mesh_extend", 6, "0..5 vertices joined to 0..5"), J("h_mesh_bounds", 5, "0..4 vertices, all finite coordinates"), J("h_mesh_walkable", 24, "six plan shapes, 13x13 relative heights, four thresholds; slopes within 1% of the threshold excluded")],
  {1: "number of vertices", 2: "number of triangles", 3: "vertex", 4: "corners of a triangle", 5: "area type", 10: "bounds of an empty mesh", 11: "vertex outside the bounds", 12: "bounds too large", 20: "mesh changed", 21: "triangle without area marked", 22: "area type",
   23: "walkable triangle not marked", 24: "steep or downward triangle marked"})
if __import__("os").environ.get("VF_TMP"):
    def _tmp(e):
        # entry/shards[/id,id,...]; an id with a leading minus excludes
        p = e.split("/")
        ids = [int(x) for x in p[2].split("+")] if len(p) > 2 else None
        if ids and ids[0] < 0:
            ids = [x for x in range(1, 200) if -x not in ids]
        return J(p[0], int(p[1]), "", path_steps=200000000, **({"ids": ids} if ids else {}))
    PROPS["T01"] = {"jobs": [_tmp(e) for e in __import__("os").environ["VF_TMP"].split(",")]}
