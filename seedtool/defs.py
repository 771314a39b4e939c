"""Planted bugs: edits against /repo, demonstration, meta data."""
D = {}


def S(i, property, edits, needs, what, demo, **k):
    D[i] = dict(property=property, edits=edits, needs=needs, what=what, demo=demo, **k)


S("s02-low-hanging-chain", "C02", [("pre_filter.rs", "previous_was_walkable = walkable;", "previous_was_walkable = current_span.area.is_walkable();")],
  "two obstacles stacked within climb distance of each other above a floor",
  "consecutive obstacles become walkable one after the other, so agents climb stacks higher than the climb height",
  r'''
fn main() {
    let mut hf = field(1, 1, &[vec![(0, 10, 63), (11, 12, 0), (13, 14, 0)]]);
    hf.filter_low_hanging_walkable_obstacles(2);
    assert_eq!(column(&hf, 0), vec![(0, 10, 63), (11, 12, 63), (13, 14, 0)]);
}
''')
S("s03-top-span-clearance", "C03", [("pre_filter.rs", "                        ceiling - floor < walkable_height as i32\n", "                        span.next.is_some() && ceiling - floor < walkable_height as i32\n")],
  "a floor within the agent height of the top of the height range",
  "the topmost floor of a column is taken to have unlimited clearance",
  r'''
fn main() {
    let mut hf = field(1, 1, &[vec![(65000, 65530, 63)]]);
    hf.filter_walkable_low_height_spans(10);
    assert_eq!(column(&hf, 0)[0].2, 0);
}
''')
S("s04-ledge-first-step", "C04", [("pre_filter.rs", "                                        highest_traversable_neighbor_floor.max(neighbor_floor);\n", "                                        highest_traversable_neighbor_floor.max(neighbor_floor);\n                                    break;\n")],
  "a neighbour column with two floors that both are within the climb height (agent height below twice the climb)",
  "only the lowest reachable floor of a neighbouring column counts for the steepness test",
  r'''
fn main() {
    let n = vec![(0u16, 8u16, 63u8)];
    let cols = vec![vec![], n.clone(), vec![], n.clone(), vec![(0, 10, 63)], n.clone(), vec![], vec![(0, 9, 63), (12, 13, 63)], vec![]];
    let mut hf = field(3, 3, &cols);
    hf.filter_ledge_spans(2, 4);
    // floors 8, 9 and 13 are reachable: they differ by more than 4
    assert_eq!(column(&hf, 4)[0].2, 0);
}
''')
S("s07-link-highest", "C07", [("compact_heightfield.rs", "                            compact_heightfield.spans[i].set_con(dir, Some(layer_index));\n                            break;", "                            compact_heightfield.spans[i].set_con(dir, Some(layer_index));\n                            if walkable_climb <= walkable_height {\n                                break;\n                            }")],
  "a climb larger than the agent height and a neighbouring column with two floors in reach",
  "the highest instead of the lowest floor in reach is linked",
  r'''
fn main() {
    let c = field(2, 1, &[vec![(0, 10, 63)], vec![(0, 9, 63), (13, 14, 63)]]).into_compact(3, 5).unwrap();
    assert_eq!(c.spans[0].con(2), Some(0));
}
''')
S("s08-layer-limit", "C08", [("compact_heightfield.rs", "if max_layer_index > MAX_LAYERS as u32 {", "if max_layer_index > CompactSpan::NOT_CONNECTED as u32 {")],
  "a neighbouring column with 64 floors of which the topmost is the only one in reach",
  "a link to layer 63, which is the 'no link' value, is dropped without an error",
  r'''
fn main() {
    let tower: Vec<(u16, u16, u8)> = (0..64u16).map(|i| (i * 10, i * 10 + 4, 63)).collect();
    let r = field(2, 1, &[vec![(0, 634, 63)], tower]).into_compact(3, 2);
    assert!(r.is_err());
}
''')
S("s10-erode-area-border", "C10", [("erosion.rs", "                        if !self.areas[neighbor_span_index].is_walkable() {", "                        if self.areas[neighbor_span_index] != self.areas[span_index] {")],
  "two walkable area types next to each other",
  "erosion also eats the walkable area along borders between two area types",
  r'''
fn main() {
    let mut a = vec![63u8; 81];
    for i in 0..81 {
        if i % 9 > 4 {
            a[i] = 20;
        }
    }
    let mut c = flat(9, 9, &a);
    c.erode_walkable_area(1);
    assert_eq!(c.areas[4 + 4 * 9].0, 63);
}
''')
S("s13-seam-area", "C13", [("contours.rs", "            if two_same_exts && two_ints && no_zeros && ints_same_area {", "            let ints_same_area = ints_same_area || two_same_exts;\n            if two_same_exts && two_ints && no_zeros && ints_same_area {")],
  "a tile border next to two inner area types that meet at the border",
  "corners where two area types meet the tile border are flagged as removable seam vertices",
  r'''
fn main() {
    let a: Vec<u8> = (0..81).map(|i| if i % 9 > 4 && i > 8 && i < 72 { 20 } else { 63 }).collect();
    let mut c = flat(9, 9, &a);
    c.build_distance_field();
    c.build_regions(1, 0, 0).unwrap();
    let set = c.build_contours(1.3, 0, BuildContoursFlags::DEFAULT);
    for k in &set.contours {
        for (p, r) in &k.raw_vertices {
            // the area types meet between columns 4 and 5 of the field, 4 of the tile
            if p.x == 4 && (p.z == 0 || p.z == 7) {
                assert!(!r.contains(RegionVertexId::BORDER_VERTEX), "{p:?}");
            }
        }
    }
}
''')
S("s14-area-edge-tolerance", "C14", [("contours.rs", "            || region.intersects(RegionVertexId::AREA_BORDER)\n        {", "            || (region.intersects(RegionVertexId::AREA_BORDER) && max_edge_len > 0)\n        {")],
  "two area types with a crooked border and edge splitting disabled",
  "without a maximum edge length, borders between area types are cut straight regardless of the tolerance",
  r'''
fn main() {
    let (w, h) = (13usize, 9usize);
    // a tongue of the second area type reaches into the first
    let a: Vec<u8> = (0..w * h).map(|i| if i % w > 7 || (i / w == 4 && i % w > 4) { 20 } else { 63 }).collect();
    let mut c = flat(w as u16, h as u16, &a);
    c.build_distance_field();
    c.build_regions(0, 0, 0).unwrap();
    let set = c.build_contours(1.3, 0, BuildContoursFlags::DEFAULT);
    let first = set.contours.iter().find(|k| k.area.0 == 63).unwrap();
    assert!(first.vertices.iter().any(|(v, _)| v.x <= 6 && v.x >= 4 && (v.z == 4 || v.z == 5)), "{:?}", first.vertices);
}
''')
S("s16-border-island", "C16", [("watershed_build_regions.rs", "                    if connection.intersects(RegionId::BORDER_REGION) {\n                        connects_to_border = true;\n                        continue;\n                    }", "                    if connection.intersects(RegionId::BORDER_REGION) {\n                        connects_to_border |= c_reg.span_count as u16 > merge_region_size;\n                        continue;\n                    }")],
  "a small island at the tile border, no larger than the merge size",
  "small pieces at tile borders are dropped although the neighbouring tile may continue them",
  r'''
fn main() {
    // 2 x 3 floors next to the border of a 9 x 9 field and a large area elsewhere
    let a: Vec<u8> = (0..121usize).map(|i| { let (x, z) = (i % 11, i / 11); if z < 4 || x <= 3 { if x == 3 && z >= 4 { 0 } else { 63 } } else { 63 } }).map(|v| v).collect();
    let mut a = a;
    for z in 0..11 { a[3 + z * 11] = 0; }
    let mut c = flat(11, 11, &a);
    c.build_distance_field();
    c.build_regions(1, 100, 20).unwrap();
    assert!(c.spans[1 + 5 * 11].region != RegionId::NONE);
}
''')
S("s17-merge-floors", "C15", [("watershed_build_regions.rs", "            if floor == &other.id {\n                return false;", "            if floor == &other.id && self.span_count > 0 && self.floors.len() > 1 {\n                return false;")],
  "a ramp that ends above its own start, with regions that overlap exactly one other region",
  "regions lying above each other are merged, so a region covers columns twice",
  r'''
fn main() {
    const A: usize = 7;
    let (w, h) = (2 * A + 1, 2 * A + 1);
    for doors in 0..16u32 {
        // a ramp around a pillar; heights rise by one per arm, the last arm ends above the first
        let mut c = CompactHeightfield { width: w as u16, height: h as u16, cell_size: 1.0, cell_height: 1.0, ..Default::default() };
        let two = |x: usize, z: usize| z > A && x < A;
        let count = |x: usize, z: usize| if x == A && z == A { 0 } else if two(x, z) { 2 } else { 1 };
        for z in 0..h {
            for x in 0..w {
                let mut cell = CompactCell::default();
                cell.set_index(c.spans.len() as u32);
                cell.set_count(count(x, z) as u8);
                c.cells.push(cell);
                let wall = (doors & 1 != 0 && z > A && x == A && z != A + 4) || (doors & 2 != 0 && x > A && z == A && x != A + 4)
                    || (doors & 4 != 0 && z < A && x == A && z != 3) || (doors & 8 != 0 && x < A && z == A && x != 3);
                for lv in 0..count(x, z) {
                    let mut s = CompactSpan::default();
                    s.y = 10 + 20 * lv as u16;
                    s.set_height(10);
                    for d in 0..4usize {
                        s.set_con(d as u8, None);
                        let (nx, nz) = (x as i32 + [-1, 0, 1, 0][d], z as i32 + [0, 1, 0, -1][d]);
                        if nx < 0 || nz < 0 || nx >= w as i32 || nz >= h as i32 || count(nx as usize, nz as usize) == 0 {
                            continue;
                        }
                        let (nx, nz) = (nx as usize, nz as usize);
                        let (t, n) = (two(x, z), two(nx, nz));
                        let seam = x < A && nx < A && t != n;
                        let to = match (t, n) {
                            (true, true) => Some(lv),
                            (false, false) => Some(0),
                            (true, false) => (seam == (lv == 1)).then_some(0),
                            (false, true) => Some(seam as usize),
                        };
                        s.set_con(d as u8, to.map(|v| v as u8));
                    }
                    c.spans.push(s);
                    c.areas.push(AreaType(if wall { 0 } else { 63 }));
                }
            }
        }
        c.build_distance_field();
        let mut plain = c.clone();
        plain.build_regions(0, 0, 0).unwrap();
        let over = |c: &CompactHeightfield| c.cells.iter().any(|k| k.count() == 2 && { let i = k.index() as usize; c.spans[i].region != RegionId::NONE && c.spans[i].region == c.spans[i + 1].region });
        if over(&plain) {
            continue;
        }
        for m in [10, 40, 60, 100, 150, 1000] {
            let mut f = c.clone();
            f.build_regions(0, 0, m).unwrap();
            assert!(!over(&f));
        }
    }
}
''')

S("s05-climb-zero", "C05", [("heightfield.rs", "        self.filter_ledge_spans(walkable_height, walkable_climb);\n", "        if walkable_climb > 0 {\n            self.filter_ledge_spans(walkable_height, walkable_climb);\n        }\n")],
  "an agent that cannot climb at all",
  "with a climb height of 0 ledges stay walkable",
  r'''
fn main() {
    let mut hf = field(1, 1, &[vec![(0, 10, 63)]]);
    hf.populate_from_trimesh(TriMesh::default(), 3, 0).unwrap();
    assert_eq!(column(&hf, 0)[0].2, 0);
}
''')
S("s06-high-floor", "C06", [("compact_heightfield.rs", "bot.clamp(0, Self::MAX_HEIGHT);", "bot.clamp(0, i16::MAX as u16);")],
  "floors in the upper half of the height range",
  "floors above 32767 are stored at 32767",
  r'''
fn main() {
    let c = field(1, 1, &[vec![(0, 40000, 63)]]).into_compact(3, 2).unwrap();
    assert_eq!(c.spans[0].y, 40000);
}
''')
S("s09-height-mask", "C09", [("compact_span.rs", "(self.data & 0x00FF_FFFF)", "(self.data & 0x007F_FFFF)")],
  "setting the clearance after the last link, with a layer of 32 or more",
  "setting the clearance clears a bit of the last link",
  r'''
fn main() {
    let mut s = CompactSpan::default();
    s.set_con(3, Some(40));
    s.set_height(9);
    assert_eq!(s.con(3), Some(40));
}
''')

S("s01-short-threshold", "C01", [("heightfield.rs", "            if (new_span.max as i32 - current_span.max as i32).unsigned_abs()\n                <= insertion.flag_merge_threshold as u32", "            if (new_span.max as i16)\n                .wrapping_sub(current_span.max as i16)\n                .unsigned_abs()\n                <= insertion.flag_merge_threshold")],
  "blocks whose tops are more than 32767 cells apart",
  "the difference of the tops wraps around, so a far lower block's area type is merged into a tall block",
  r'''
fn main() {
    let tri = vec![Vec3A::new(0.1, 1.0, 0.1), Vec3A::new(0.1, 65530.0, 0.9), Vec3A::new(0.9, 1.0, 0.1)];
    let mut cols = vec![vec![(0u16, 65530u16, 63u8)]; 9];
    cols[4] = vec![(0, 3, 63)];
    let mut hf = field(3, 3, &cols);
    hf.aabb.max.y = 65535.0;
    hf.populate_from_trimesh(TriMesh { vertices: tri.into_iter().map(|v| v + Vec3A::new(1.0, 0.0, 1.0)).collect(), indices: vec![UVec3::new(0, 1, 2)], area_types: vec![AreaType(0)] }, 0, 60).unwrap();
    let c = column(&hf, 4);
    println!("{c:?}");
    assert_eq!(c[0].2, 0);
}
''')
S("s11-blur-byte", "C11", [("watershed_distance_field.rs", "result[i] = ((d + 5) / 9) as u16;", "result[i] = ((d + 5) / 9) as u8 as u16;")],
  "an open area more than 256 cells wide",
  "smoothed distances wrap at 256",
  r'''
fn main() {
    let n = 270u16;
    let mut c = flat(n, n, &vec![63; n as usize * n as usize]);
    c.build_distance_field();
    assert!(c.dist[135 * 270 + 135] > 250);
}
''')
S("s15-stale-floors", "C15", [("watershed_build_regions.rs", "            if *floor == old_id {\n                *floor = new_id;\n            }", "            if *floor == old_id && nei_changed {\n                *floor = new_id;\n            }")],
  "a ramp that passes below itself, with a region merged into a third one before it meets the region above it",
  "a region forgets what it lies above when that region is merged, and regions covering the same columns are merged",
  D["s17-merge-floors"]["demo"])
S("s12-high-floor", "C12", [("mark_convex_poly_area.rs", "if (span.y as i32) < min.y || (span.y as i32) > max.y {", "if (span.y as i16 as i32) < min.y || (span.y as i32) > max.y {")],
  "floors in the upper half of the height range",
  "floors above 32767 are taken for floors far below the volume",
  r'''
fn main() {
    let mut c = flat(1, 1, &[63]);
    c.spans[0].y = 40000;
    c.mark_convex_poly_area(ConvexVolume { vertices: vec![Vec2::new(0.0, 0.0), Vec2::new(3.0, 0.0), Vec2::new(3.0, 6.0), Vec2::new(0.0, 6.0)], min_y: 30000.0, max_y: 50000.0, area: AreaType(7) });
    assert_eq!(c.areas[0].0, 7);
}
''')
S("s12-edge-tie", "C12", [("mark_convex_poly_area.rs", "if ((yi > point.y) != (yj > point.y))", "if ((yi >= point.y) != (yj > point.y))")],
  "a corner of the volume exactly on the row of a cell's centre",
  "the parity of crossings is wrong on such rows",
  r'''
fn main() {
    let mut c = flat(5, 5, &[63; 25]);
    c.mark_convex_poly_area(ConvexVolume { vertices: vec![Vec2::new(2.5, 0.1), Vec2::new(4.9, 2.5), Vec2::new(2.5, 4.9), Vec2::new(0.1, 2.5)], min_y: 0.0, max_y: 50.0, area: AreaType(7) });
    for z in 0..5 {
        println!("{:?}", &c.areas[z * 5..z * 5 + 5]);
    }
    assert_eq!(c.areas[12].0, 7);
    assert_eq!(c.areas[10].0 == 7 || c.areas[14].0 == 7, c.areas[11].0 == 7 && c.areas[13].0 == 7);
    assert_eq!(c.areas[13].0, 7);
    assert_eq!(c.areas[11].0, 7);
}
''')
S("s20-tile-start", "C20", [("rasterize.rs", "let x0 = x0.clamp(-1, w - 1);", "let x0 = x0.clamp(0, w - 1);")],
  "a sloping triangle that starts more than a cell before the field's first column",
  "the first column gets the heights of everything before it",
  r'''
fn main() {
    let mut hf = field(3, 3, &vec![vec![]; 9]);
    hf.rasterize_triangle([Vec3A::new(-20.0, 0.0, 0.0), Vec3A::new(3.0, 46.0, 0.0), Vec3A::new(-20.0, 0.0, 40.0)], AreaType(63), 1).unwrap();
    let c = column(&hf, 0);
    println!("{c:?}");
    assert!(c[0].0 > 35);
}
''')
S("s20-top-edge", "C20", [("rasterize.rs", "if span_max < 0.0 || span_min > by {", "if span_max < 0.0 || span_max > by {")],
  "a triangle that reaches through the top of the field",
  "blocks that are partly above the field are dropped instead of cut off",
  r'''
fn main() {
    let mut hf = field(1, 1, &[vec![]]);
    hf.rasterize_triangle([Vec3A::new(0.0, 90.0, 0.0), Vec3A::new(1.0, 110.0, 0.0), Vec3A::new(0.0, 90.0, 1.0)], AreaType(63), 1).unwrap();
    assert_eq!(column(&hf, 0), vec![(90, 100, 63)]);
}
''')
S("s21-bounds-negative", "C21", [("math.rs", "            .fold(Vec3A::splat(f32::MIN), |acc, &v| acc.max(v));", "            .fold(Vec3A::splat(f32::MIN_POSITIVE), |acc, &v| acc.max(v));")],
  "a mesh whose coordinates are all negative along an axis",
  "the upper bound is next to zero instead of the largest coordinate",
  r'''
fn main() {
    let m = TriMesh { vertices: vec![Vec3A::splat(-5.0), Vec3A::splat(-3.0)], ..Default::default() };
    assert_eq!(m.compute_aabb().unwrap().max.x, -3.0);
}
''')
CTR = r'''
fn contour(p: &[(u16, u16, u16)], region: u16) -> Contour {
    Contour { vertices: p.iter().map(|v| (U16Vec3::new(v.0, v.1, v.2), 0)).collect(), raw_vertices: vec![], region: RegionId::from(region), area: AreaType(63) }
}
fn set(w: u16, h: u16, border: u16, contours: Vec<Contour>) -> ContourSet {
    ContourSet { contours, width: w, height: h, border_size: border, cell_size: 1.0, cell_height: 1.0, max_error: 1.0, ..Default::default() }
}
'''
S("s17-stacked-vertices", "C17", [("poly_mesh.rs", "(v.y as i32 - vertex.y as i32).abs() <= 2", "(v.y as i32 - vertex.y as i32).abs() as u8 <= 2")],
  "two floors exactly 256 height steps apart with corners at the same place",
  "their corners are taken for one vertex, so the upper polygon lies on the lower floor",
  CTR + r'''
fn main() {
    let q = |y| [(0, y, 0), (0, y, 4), (4, y, 4), (4, y, 0)];
    let m = set(4, 4, 0, vec![contour(&q(10), 1), contour(&q(266), 2)]).into_polygon_mesh(6).unwrap();
    assert_eq!(m.vertices.len(), 8);
}
''')
S("s18-portal-wrap", "C18", [("poly_mesh.rs", "let nj = if nj >= nvp || p[nj] == PolygonNavmesh::NO_INDEX {", "let nj = if nj > nvp || p[nj] == PolygonNavmesh::NO_INDEX {")],
  "a polygon with the maximum number of vertices whose first edge has a neighbour and whose last edge lies on the tile's border",
  "the neighbour is taken for the edge's second vertex, and the portal is lost",
  CTR + r'''
fn main() {
    // two triangles; the first one's edges start at every corner in turn
    for k in 0..3 {
        let a = [(0, 1, 0), (0, 1, 6), (6, 1, 6)];
        let b = [(6, 1, 6), (6, 1, 0), (0, 1, 0)];
        let r = [a[k], a[(k + 1) % 3], a[(k + 2) % 3]];
        let t = [b[k], b[(k + 1) % 3], b[(k + 2) % 3]];
        let m = set(6, 6, 1, vec![contour(&r, 1), contour(&t, 2)]).into_polygon_mesh(3).unwrap();
        let mut s = m.polygon_neighbors.clone();
        println!("{s:?}");
        s.sort();
        assert_eq!(s, [0, 1, 0x8000, 0x8001, 0x8002, 0x8003]);
    }
}
''')
S("s19-area-after-merge", "C19", [("poly_mesh.rs", "                    pareas[best_pb] = pareas[npolys - 1];\n", "")],
  "a seam vertex where several floors with different area types meet",
  "after a merge the polygon that moves into the free place keeps the wrong area type",
  CTR + r'''
fn main() {
    // half circles cut into sectors around a seam vertex, each sector of its own region and area type
    let layouts: [(u16, &[&[(u16, u16)]]); 2] = [
        (5, &[
            &[(10, 0), (13, 15), (17, 22), (22, 28), (35, 37), (50, 0)],
            &[(35, 37), (50, 40), (50, 0)],
            &[(50, 40), (58, 39), (65, 37), (72, 33), (50, 0)],
            &[(72, 33), (78, 28), (50, 0)],
            &[(78, 28), (83, 22), (50, 0)],
            &[(83, 22), (87, 15), (90, 0), (50, 0)],
        ]),
        (6, &[
            &[(10, 0), (11, 8), (13, 15), (17, 22), (50, 0)],
            &[(17, 22), (28, 33), (35, 37), (50, 0)],
            &[(35, 37), (42, 39), (50, 40), (58, 39), (65, 37), (72, 33), (78, 28), (50, 0)],
            &[(78, 28), (83, 22), (89, 8), (90, 0), (50, 0)],
        ]),
    ];
    for (nvp, sectors) in layouts {
        let mut contours = vec![];
        for (i, s) in sectors.iter().enumerate() {
            let p: Vec<_> = s.iter().map(|&(x, z)| (x, 1, z)).collect();
            let mut c = contour(&p, i as u16 + 1);
            c.area = AreaType(i as u8 + 1);
            c.vertices.last_mut().unwrap().1 = 0x10000;
            contours.push(c);
        }
        let m = set(100, 50, 0, contours).into_polygon_mesh(nvp).unwrap();
        for i in 0..m.polygon_count() {
            let r = m.regions[i].bits();
            assert!(r == 0 || r == m.areas[i].0 as u16, "a polygon of region {r} has the area type of another region");
        }
    }
}
''')
