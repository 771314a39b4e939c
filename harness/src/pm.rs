//! Polygon meshes.
use crate::ctr;
use crate::rv;
use glam::{U16Vec3, Vec3};
use rerecast::*;

const NO: u16 = 0xffff;
const BORDER_VERTEX: u32 = 0x10000;

type Pt = (i64, i64);

/// twice the signed area of a triangle, negative for the orientation of outlines
fn cross(a: Pt, b: Pt, c: Pt) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (c.0 - a.0) * (b.1 - a.1)
}
fn pt(v: U16Vec3) -> Pt {
    (v.x as i64, v.z as i64)
}

/// signed directed edges by position: +1 for each edge a to b, -1 for each edge b to a
pub struct Chain {
    e: Vec<(Pt, Pt, i64)>,
}
impl Chain {
    fn new() -> Self {
        Chain { e: Vec::with_capacity(256) }
    }
    fn add(&mut self, a: Pt, b: Pt, n: i64) {
        if a == b {
            return;
        }
        let (a, b, n) = if a < b { (a, b, n) } else { (b, a, -n) };
        for k in self.e.iter_mut() {
            if k.0 == a && k.1 == b {
                k.2 += n;
                return;
            }
        }
        self.e.push((a, b, n));
    }
    fn zero(&self) -> bool {
        self.e.iter().all(|k| k.2 == 0)
    }
}

fn verts_of(p: &PolygonNavmesh, i: usize) -> Vec<u16> {
    let nvp = p.max_vertices_per_polygon as usize;
    let mut v = Vec::with_capacity(nvp);
    for j in 0..nvp {
        let x = p.polygons[i * nvp + j];
        if x == NO {
            break;
        }
        v.push(x);
    }
    v
}

/// what holds for every mesh
pub fn check_mesh(m: &PolygonNavmesh, set: &ContourSet, nvp: u16) {
    let n = nvp as usize;
    rv::check(m.max_vertices_per_polygon == nvp, 1);
    rv::check(m.aabb.min == set.aabb.min && m.aabb.max == set.aabb.max && m.cell_size == set.cell_size && m.cell_height == set.cell_height, 1);
    rv::check(m.border_size == set.border_size && m.max_edge_error == set.max_error, 1);
    let np = m.polygons.len() / n;
    rv::check(m.polygons.len() == np * n && m.polygon_neighbors.len() == np * n, 2);
    rv::check(m.regions.len() == np, 3);
    rv::check(m.areas.len() == np, 4);
    rv::check(m.flags.len() == np, 5);
    if m.polygon_neighbors.len() != m.polygons.len() || m.polygons.len() != np * n {
        return;
    }
    rv::obs(np as u64);
    for i in 0..np {
        let v = verts_of(m, i);
        let c = v.len();
        rv::check(c >= 3, 6);
        for j in 0..n {
            let x = m.polygons[i * n + j];
            rv::check(if j < c { (x as usize) < m.vertices.len() } else { x == NO }, 7);
            if j >= c {
                rv::check(m.polygon_neighbors[i * n + j] == NO, 8);
            }
            rv::obs(x as u64);
        }
        if c < 3 || v.iter().any(|x| *x as usize >= m.vertices.len()) {
            return;
        }
        let mut area = 0;
        for j in 0..c {
            let (a, b, d) = (pt(m.vertices[v[j] as usize]), pt(m.vertices[v[(j + 1) % c] as usize]), pt(m.vertices[v[(j + 2) % c] as usize]));
            rv::check(cross(a, b, d) <= 0, 9);
            area += a.0 * b.1 - b.0 * a.1;
            for k in 0..j {
                rv::check(v[j] != v[k], 10);
            }
        }
        rv::check(area <= 0, 9);
    }
    // neighbours
    for i in 0..np {
        let v = verts_of(m, i);
        for j in 0..v.len() {
            let (a, b) = (v[j], v[(j + 1) % v.len()]);
            // polygons with the opposite edge
            let mut others = 0;
            let mut other = 0;
            let mut same = 0;
            for k in 0..np {
                let w = verts_of(m, k);
                for l in 0..w.len() {
                    let (c, d) = (w[l], w[(l + 1) % w.len()]);
                    if c == b && d == a && k != i {
                        others += 1;
                        other = k;
                    }
                    if c == a && d == b {
                        same += 1;
                    }
                }
            }
            let nb = m.polygon_neighbors[i * n + j];
            rv::obs(nb as u64);
            if others == 1 && same == 1 {
                rv::check(nb as usize == other, 11);
            } else if others == 0 {
                // an outer edge: a portal when it lies on the tile border
                let (va, vb) = (m.vertices[a as usize], m.vertices[b as usize]);
                let want = if set.border_size == 0 {
                    NO
                } else if va.x == 0 && vb.x == 0 {
                    0x8000
                } else if va.z == set.height && vb.z == set.height {
                    0x8001
                } else if va.x == set.width && vb.x == set.width {
                    0x8002
                } else if va.z == 0 && vb.z == 0 {
                    0x8003
                } else {
                    NO
                };
                rv::check(nb == want, 12);
            } else {
                rv::check(nb == NO || (nb as usize) < np, 13);
            }
        }
    }
}

/// vertices are those of the outlines, welded where they coincide
fn check_vertices(m: &PolygonNavmesh, set: &ContourSet, removed: bool) {
    for (i, v) in m.vertices.iter().enumerate() {
        let mut hit = false;
        for c in &set.contours {
            if c.vertices.len() < 3 {
                continue;
            }
            for (u, _) in &c.vertices {
                if u.x == v.x && u.z == v.z {
                    hit |= u.y == v.y;
                }
            }
        }
        rv::check(hit, 14);
        for w in &m.vertices[..i] {
            if w.x == v.x && w.z == v.z {
                rv::check((w.y as i32 - v.y as i32).abs() > 2, 15);
            }
        }
    }
    for c in &set.contours {
        if c.vertices.len() < 3 {
            continue;
        }
        for (u, f) in &c.vertices {
            if removed && f & BORDER_VERTEX != 0 {
                continue;
            }
            let mut hit = false;
            for v in &m.vertices {
                if u.x == v.x && u.z == v.z {
                    hit |= (u.y as i32 - v.y as i32).abs() <= 2;
                }
            }
            rv::check(hit, 16);
        }
    }
}

/// the polygons of each region cover exactly what its outlines enclose; several pieces may share a region number
fn check_cover(m: &PolygonNavmesh, set: &ContourSet) {
    let np = m.polygon_count();
    for c in &set.contours {
        if c.vertices.len() < 3 {
            continue;
        }
        let mut ch = Chain::new();
        for d in set.contours.iter().filter(|d| d.region == c.region) {
            let k = d.vertices.len();
            for j in 0..k {
                ch.add(pt(d.vertices[j].0), pt(d.vertices[(j + 1) % k].0), 1);
            }
        }
        for i in 0..np {
            if m.regions[i] == c.region {
                rv::check(m.areas[i] == c.area, 17);
                let v = verts_of(m, i);
                for j in 0..v.len() {
                    ch.add(pt(m.vertices[v[j] as usize]), pt(m.vertices[v[(j + 1) % v.len()] as usize]), -1);
                }
            }
        }
        rv::check(ch.zero(), 18);
    }
    for i in 0..np {
        rv::check(set.contours.iter().any(|c| c.vertices.len() >= 3 && c.region == m.regions[i]), 19);
    }
}

fn build(set: &ContourSet, nvp: u16) -> Option<PolygonNavmesh> {
    set.clone().into_polygon_mesh(nvp).ok()
}

fn contour(v: &[(i64, i64)], scale: u32, region: u16, area: u8, y: &mut dyn FnMut(i64, i64) -> u16) -> Contour {
    let mut c = Contour { region: RegionId::from(region), area: AreaType(area), ..Default::default() };
    c.vertices = v.iter().map(|(x, z)| (U16Vec3::new((*x as u32 * scale) as u16, y(*x, *z), (*z as u32 * scale) as u16), 0u32)).collect();
    c
}

/// shapes: one or two outlines, in the orientation in which contours are walked
fn shape(k: u32) -> &'static [&'static [(i64, i64)]] {
    match k {
        // a triangle and a square
        0 => &[&[(0, 1), (1, 0), (0, 0)], &[(2, 3), (3, 3), (3, 2), (2, 2)]],
        // an L
        1 => &[&[(0, 3), (1, 3), (1, 1), (3, 1), (3, 0), (0, 0)]],
        // a U
        2 => &[&[(0, 3), (1, 3), (1, 1), (2, 1), (2, 3), (3, 3), (3, 0), (0, 0)]],
        // a plus
        3 => &[&[(1, 3), (2, 3), (2, 2), (3, 2), (3, 1), (2, 1), (2, 0), (1, 0), (1, 1), (0, 1), (0, 2), (1, 2)]],
        // a spiral
        4 => &[&[(0, 4), (4, 4), (4, 0), (1, 0), (1, 3), (3, 3), (3, 2), (2, 2), (2, 1), (3, 1), (3, 2), (3, 3), (1, 3), (1, 0), (0, 0)]],
        // two rectangles that share an edge
        5 => &[&[(0, 3), (2, 3), (2, 0), (0, 0)], &[(2, 3), (3, 3), (3, 0), (2, 0)]],
        // a comb
        6 => &[&[(0, 2), (1, 2), (1, 1), (2, 1), (2, 2), (3, 2), (3, 1), (4, 1), (4, 2), (5, 2), (5, 0), (0, 0)]],
        // a star
        7 => &[&[(4, 8), (5, 5), (8, 4), (5, 3), (4, 0), (3, 3), (0, 4), (3, 5)]],
        // a square with additional vertices on its sides
        8 => &[&[(0, 3), (1, 3), (3, 3), (3, 2), (3, 0), (2, 0), (0, 0), (0, 1)]],
        // two regions around a third
        9 => &[&[(0, 2), (1, 2), (2, 2), (2, 1), (0, 1)], &[(0, 1), (2, 1), (2, 0), (0, 0)], &[(0, 4), (1, 4), (1, 2), (0, 2)], &[(1, 4), (2, 4), (2, 2), (1, 2)]],
        // a convex polygon with ten vertices
        10 => &[&[(3, 8), (5, 8), (7, 7), (8, 5), (8, 3), (7, 1), (5, 0), (3, 0), (1, 1), (0, 3)]],
        // a dart and an arrow
        11 => &[&[(0, 0), (2, 4), (4, 0), (2, 1)], &[(5, 2), (8, 4), (7, 2), (8, 0)]],
        // a long sliver and its neighbour
        12 => &[&[(0, 1), (8, 0), (0, 0)], &[(0, 8), (8, 8), (8, 0), (0, 1)]],
        // a spiral staircase seen from above
        _ => &[&[(0, 5), (5, 5), (5, 0), (1, 0), (1, 3), (3, 3), (3, 2), (2, 2), (2, 1), (4, 1), (4, 4), (0, 4)]],
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_poly_shapes() {
    rv::policy(0);
    let k = rv::case(14);
    let scale = [1u32, 37, 201, 5000][rv::case(4) as usize];
    let nvp = [3u16, 4, 6][rv::case(3) as usize];
    let s = shape(k);
    let mut contours = Vec::new();
    let mut unit = Vec::new();
    for (i, o) in s.iter().enumerate() {
        let mut ys = Vec::new();
        let area = rv::u8();
        contours.push(contour(o, scale, i as u16 + 1, area, &mut |_, _| {
            let y = rv::u16();
            ys.push(y);
            y
        }));
        let mut at = 0;
        unit.push(contour(o, 1, i as u16 + 1, area, &mut |_, _| {
            at += 1;
            ys[at - 1]
        }));
    }
    let set = ContourSet {
        contours,
        aabb: Aabb3d { min: Vec3::new(1.0, 2.0, 3.0), max: Vec3::new(4.0, 5.0, 6.0) },
        cell_size: 0.5,
        cell_height: 0.25,
        width: 8,
        height: 8,
        border_size: 0,
        max_error: 1.5,
    };
    let m = build(&set, nvp);
    rv::check(m.is_some(), 20);
    let Some(m) = m else { return };
    check_mesh(&m, &set, nvp);
    check_vertices(&m, &set, false);
    check_cover(&m, &set);
    // an enlarged outline has the enlarged mesh
    let u = build(&ContourSet { contours: unit, ..set }, nvp);
    rv::check(u.is_some_and(|u| u.polygons == m.polygons), 21);
}

/// whether a vertex may go: more than two edges remain around it, and at most two edges at it are open
fn removable(m: &PolygonNavmesh, r: u16) -> bool {
    let mut remain = 0;
    let mut ends: Vec<(u16, u32)> = Vec::with_capacity(32);
    for i in 0..m.polygon_count() {
        let v = verts_of(m, i);
        if !v.contains(&r) {
            continue;
        }
        for j in 0..v.len() {
            let (a, b) = (v[j], v[(j + 1) % v.len()]);
            if a != r && b != r {
                remain += 1;
                continue;
            }
            let o = if a == r { b } else { a };
            match ends.iter_mut().find(|e| e.0 == o) {
                Some(e) => e.1 += 1,
                None => ends.push((o, 1)),
            }
        }
    }
    remain > 2 && ends.iter().filter(|e| e.1 < 2).count() <= 2
}

/// the outline of all polygons together is that of all contours together, without the vertices that were removed
fn check_cover_all(m: &PolygonNavmesh, set: &ContourSet, gaps: bool) {
    let mut out = Chain::new();
    for c in &set.contours {
        let k = c.vertices.len();
        for j in 0..k {
            out.add(pt(c.vertices[j].0), pt(c.vertices[(j + 1) % k].0), 1);
        }
    }
    for c in &set.contours {
        for (v, _) in &c.vertices {
            let p = pt(*v);
            if m.vertices.iter().any(|w| pt(*w) == p) {
                continue;
            }
            if gaps {
                return;
            }
            // net edges at a vertex that is gone
            let (mut pre, mut post, mut n) = (p, p, 0);
            for e in out.e.iter_mut() {
                if e.2 != 0 && (e.0 == p || e.1 == p) {
                    let (a, b) = if e.2 > 0 { (e.0, e.1) } else { (e.1, e.0) };
                    n += e.2.abs();
                    if a == p {
                        post = b;
                    } else {
                        pre = a;
                    }
                    e.2 = 0;
                }
            }
            rv::check(n == 0 || (n == 2 && pre != p && post != p), 30);
            if n == 2 {
                // it lay on a straight line
                rv::check(cross(pre, p, post) == 0, 31);
                out.add(pre, post, 1);
            }
        }
    }
    for i in 0..m.polygon_count() {
        let v = verts_of(m, i);
        for j in 0..v.len() {
            out.add(pt(m.vertices[v[j] as usize]), pt(m.vertices[v[(j + 1) % v.len()] as usize]), -1);
        }
    }
    rv::check(out.zero(), 32);
    for i in 0..m.polygon_count() {
        rv::check(m.regions[i] == RegionId::NONE || set.contours.iter().any(|c| c.region == m.regions[i]), 33);
        rv::check(set.contours.iter().fold(false, |a, c| a | (c.area == m.areas[i])), 34);
        if m.regions[i] != RegionId::NONE {
            rv::check(set.contours.iter().fold(false, |a, c| a | (c.region == m.regions[i]) & (c.area == m.areas[i])), 34);
        }
    }
}

fn poly_border(l: &ctr::Lay, same_area: bool, err: f32, nvp: u16) {
    let mut chf = ctr::build(l, same_area);
    for s in chf.spans.iter_mut() {
        s.y = rv::u16();
    }
    for i in 0..chf.spans.len() {
        if l.reg[i] > 100 {
            chf.areas[i] = AreaType(if same_area { 63 } else { 11 });
        }
    }
    chf.border_size = l.border;
    // a region of a single cell has no outline, so a seam next to it is not a straight line
    let mut gaps = false;
    for z in 1..l.h - 1 {
        for x in 1..l.w - 1 {
            let r = |x: usize, z: usize| l.reg[x + l.w * z];
            gaps |= r(x, z) != 0 && r(x - 1, z) != r(x, z) && r(x + 1, z) != r(x, z) && r(x, z - 1) != r(x, z) && r(x, z + 1) != r(x, z);
        }
    }
    let set = chf.build_contours(err, 0, BuildContoursFlags::DEFAULT);
    check_removal(set, gaps, nvp);
}

/// removes one seam vertex after the other
fn check_removal(set: ContourSet, gaps: bool, nvp: u16) {
    let mut flagged: Vec<Pt> = Vec::with_capacity(16);
    // in the order in which vertices enter the mesh
    for c in &set.contours {
        for (v, f) in &c.vertices {
            if f & BORDER_VERTEX != 0 && !flagged.contains(&pt(*v)) {
                flagged.push(pt(*v));
            }
        }
    }
    let mut order: Vec<Pt> = Vec::with_capacity(16);
    for c in &set.contours {
        for (v, _) in &c.vertices {
            if flagged.contains(&pt(*v)) && !order.contains(&pt(*v)) {
                order.push(pt(*v));
            }
        }
    }
    let mut may: Option<(Pt, bool)> = None;
    for k in 0..=order.len() {
        let mut part = set.clone();
        for c in part.contours.iter_mut() {
            for (v, f) in c.vertices.iter_mut() {
                if !order[..k].contains(&pt(*v)) {
                    *f &= !BORDER_VERTEX;
                }
            }
        }
        let m = build(&part, nvp);
        rv::check(m.is_some(), 20);
        let Some(m) = m else { return };
        check_mesh(&m, &part, nvp);
        check_vertices(&m, &part, true);
        if k == 0 {
            check_cover(&m, &part);
        }
        check_cover_all(&m, &part, gaps);
        if let Some((p, go)) = may {
            rv::check(m.vertices.iter().any(|v| pt(*v) == p) != go, 35);
            rv::cover(go, 2);
        }
        if k < order.len() {
            let r = m.vertices.iter().position(|v| pt(*v) == order[k]);
            may = r.map(|r| (order[k], removable(&m, r as u16)));
        }
    }
}

/// a field of the given interior with a painted border of one cell
fn bordered(w: usize, h: usize, inner: &dyn Fn(usize, usize) -> u8, out: &mut [u8]) {
    let (tw, th) = (w + 2, h + 2);
    for z in 0..th {
        for x in 0..tw {
            out[x + tw * z] = if z == th - 1 {
                104
            } else if z == 0 {
                103
            } else if x == tw - 1 {
                102
            } else if x == 0 {
                101
            } else {
                inner(x - 1, z - 1)
            };
        }
    }
}

fn poly_border_any(w: usize, h: usize, kinds: u32, split: u32) {
    rv::policy(0);
    let n = w * h;
    let mut code = 0u64;
    let first = rv::case(kinds.pow(split));
    for i in 0..n {
        let c = if (i as u32) < split { first / kinds.pow(i as u32) % kinds } else { rv::range(0, kinds - 1) };
        code = code * 4 + c as u64;
    }
    let code = rv::concretize(code);
    let mut v = [0u8; 64];
    bordered(w, h, &|x, z| (code >> (2 * (n - 1 - x - z * w)) & 3) as u8 + if kinds == 2 { 1 } else { 0 }, &mut v);
    let l = ctr::Lay { w: w + 2, h: h + 2, reg: &v[..(w + 2) * (h + 2)], lv: 1, border: 1 };
    let nvp = [3u16, 6][rv::case(2) as usize];
    poly_border(&l, true, 0.5, nvp);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_poly_border() {
    poly_border_any(3, 2, 3, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_poly_border_full() {
    poly_border_any(3, 3, 2, 3);
}

fn mesh_of(l: &ctr::Lay, err: f32, nvp: u16, fail: u32) {
    let mut chf = ctr::build(l, false);
    for s in chf.spans.iter_mut() {
        s.y = rv::u16();
    }
    let set = chf.build_contours(err, 0, BuildContoursFlags::DEFAULT);
    let m = build(&set, nvp);
    rv::check(m.is_some(), fail);
    let Some(m) = m else { return };
    check_mesh(&m, &set, nvp);
    check_vertices(&m, &set, false);
    check_cover(&m, &set);
}

/// every assignment of regions to the cells of a small field
fn poly_any(w: usize, h: usize, kinds: u32) {
    rv::policy(0);
    let n = w * h;
    let mut code = 0u64;
    let first = rv::case(kinds * kinds * kinds);
    for i in 0..n {
        let c = if i < 3 { first / kinds.pow(i as u32) % kinds } else { rv::range(0, kinds - 1) };
        code = code * 4 + c as u64;
    }
    let code = rv::concretize(code);
    let mut v = [0u8; 16];
    for i in 0..n {
        v[i] = (code >> (2 * (n - 1 - i)) & 3) as u8;
    }
    let l = ctr::Lay { w, h, reg: &v[..n], lv: 1, border: 0 };
    // regions with holes are h_poly_holes' business
    if has_hole(&l) {
        return;
    }
    let nvp = [6u16, 3][rv::case(2) as usize];
    mesh_of(&l, 0.5, nvp, 20);
}
/// whether some region encloses cells that do not belong to it: they cannot reach the outside through corners or sides
fn has_hole(l: &ctr::Lay) -> bool {
    let (w, h) = (l.w as i32 + 2, l.h as i32 + 2);
    let at = |x: i32, z: i32| if x < 1 || z < 1 || x > l.w as i32 || z > l.h as i32 { 0 } else { l.reg[(x - 1 + (z - 1) * l.w as i32) as usize] };
    for r in 1..=3u8 {
        let mut seen = vec![false; (w * h) as usize];
        let mut stack = vec![(0, 0)];
        seen[0] = true;
        while let Some((x, z)) = stack.pop() {
            for dx in -1..=1 {
                for dz in -1..=1 {
                    let (a, b) = (x + dx, z + dz);
                    if a >= 0 && b >= 0 && a < w && b < h && !seen[(a + b * w) as usize] && at(a, b) != r {
                        seen[(a + b * w) as usize] = true;
                        stack.push((a, b));
                    }
                }
            }
        }
        for z in 0..h {
            for x in 0..w {
                if at(x, z) != r && !seen[(x + z * w) as usize] {
                    return true;
                }
            }
        }
    }
    false
}
#[unsafe(no_mangle)]
pub extern "C" fn h_poly_holes() {
    rv::policy(0);
    let k = rv::case(5);
    let (w, h, reg): (usize, usize, &[u8]) = match k {
        0 => (3, 3, &[1, 1, 1, 1, 0, 1, 1, 1, 1]),
        1 => (5, 4, &[1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 1, 1, 0, 0, 1, 1, 1, 1, 1, 1]),
        2 => (5, 3, &[1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1]),
        3 => (5, 5, &[1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 1, 1, 1, 1, 1, 1, 1]),
        _ => (4, 4, &[1, 1, 1, 1, 1, 2, 2, 1, 1, 2, 2, 1, 1, 1, 1, 1]),
    };
    let l = ctr::Lay { w, h, reg, lv: 1, border: 0 };
    let nvp = [6u16, 3][rv::case(2) as usize];
    mesh_of(&l, 0.5, nvp, 40 + k);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_poly_any() {
    poly_any(4, 3, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_poly_any3() {
    poly_any(4, 2, 3);
}

/// regions with different area types that meet in seam vertices on straight outer sides: every choice of those
#[unsafe(no_mangle)]
pub extern "C" fn h_poly_seams() {
    rv::policy(0);
    let k = rv::case(14);
    let mut outlines: Vec<Vec<Pt>> = Vec::with_capacity(8);
    let mut seams: Vec<Pt> = Vec::with_capacity(8);
    let quads = |o: &mut Vec<Vec<Pt>>, s: &mut Vec<Pt>, w: i64, h: i64| {
        for z in 0..h {
            for x in 0..w {
                let (x, z) = (2 * x, 2 * z);
                o.push(vec![(x, z + 2), (x + 2, z + 2), (x + 2, z), (x, z)]);
            }
        }
        for z in 0..=h {
            for x in 0..=w {
                if ((x > 0 && x < w) && (z == 0 || z == h)) || ((z > 0 && z < h) && (x == 0 || x == w)) {
                    s.push((2 * x, 2 * z));
                }
            }
        }
    };
    match k {
        0 => quads(&mut outlines, &mut seams, 2, 2),
        1 => quads(&mut outlines, &mut seams, 3, 1),
        2 => quads(&mut outlines, &mut seams, 3, 2),
        3 => {
            // five regions around a point of a straight side
            let h: [Pt; 6] = [(0, 0), (0, 4), (3, 6), (6, 5), (8, 3), (8, 0)];
            for i in 0..5 {
                outlines.push(vec![h[i], h[i + 1], (4, 0)]);
            }
            seams.push((4, 0));
        }
        4 => {
            // an L around a square, with a corner that only the L has
            outlines.push(vec![(0, 4), (2, 4), (2, 2), (4, 2), (4, 0), (2, 0), (0, 0), (0, 2)]);
            outlines.push(vec![(2, 4), (4, 4), (4, 2), (2, 2)]);
            seams = vec![(2, 0), (0, 2), (2, 4), (4, 2)];
        }
        5 => {
            // two regions side by side with long fronts
            outlines.push(vec![(0, 3), (3, 3), (3, 2), (3, 1), (3, 0), (1, 0), (0, 0)]);
            outlines.push(vec![(3, 3), (5, 3), (7, 3), (7, 0), (3, 0), (3, 1), (3, 2)]);
            seams = vec![(3, 0), (3, 3), (1, 0), (5, 3)];
        }
        6 => {
            // three regions around a point, one of them with two corners there
            outlines.push(vec![(0, 5), (2, 5), (2, 3), (0, 2)]);
            outlines.push(vec![(2, 5), (6, 5), (6, 3), (2, 3)]);
            outlines.push(vec![(0, 2), (2, 3), (6, 3), (6, 0), (3, 0), (0, 0)]);
            seams = vec![(2, 5), (6, 3), (0, 2), (3, 0)];
        }
        8 => {
            outlines.push(vec![(0, 0), (0, 3), (2, 5), (5, 6), (5, 0)]);
            outlines.push(vec![(5, 6), (8, 5), (10, 3), (10, 0), (5, 0)]);
            seams.push((5, 0));
        }
        9 => {
            outlines.push(vec![(0, 0), (0, 4), (1, 7), (4, 9), (8, 0)]);
            outlines.push(vec![(4, 9), (7, 10), (10, 10), (13, 9), (8, 0)]);
            outlines.push(vec![(13, 9), (15, 7), (16, 4), (16, 0), (8, 0)]);
            seams.push((8, 0));
        }
        10 => {
            // a big region with two small ones in its lap
            outlines.push(vec![(0, 0), (0, 6), (3, 9), (8, 10), (13, 8), (16, 4), (16, 0), (12, 0), (11, 3), (8, 4), (8, 0)]);
            outlines.push(vec![(8, 4), (11, 3), (8, 0)]);
            outlines.push(vec![(11, 3), (12, 0), (8, 0)]);
            seams.push((8, 0));
            seams.push((12, 0));
        }
        // half circles cut into sectors
        11 => {
            outlines.push(vec![(10, 0), (13, 15), (17, 22), (22, 28), (35, 37), (50, 0)]);
            outlines.push(vec![(35, 37), (50, 40), (50, 0)]);
            outlines.push(vec![(50, 40), (58, 39), (65, 37), (72, 33), (50, 0)]);
            outlines.push(vec![(72, 33), (78, 28), (50, 0)]);
            outlines.push(vec![(78, 28), (83, 22), (50, 0)]);
            outlines.push(vec![(83, 22), (87, 15), (90, 0), (50, 0)]);
            seams.push((50, 0));
        }
        12 => {
            outlines.push(vec![(10, 0), (11, 8), (13, 15), (17, 22), (50, 0)]);
            outlines.push(vec![(17, 22), (28, 33), (35, 37), (50, 0)]);
            outlines.push(vec![(35, 37), (42, 39), (50, 40), (58, 39), (65, 37), (72, 33), (78, 28), (50, 0)]);
            outlines.push(vec![(78, 28), (83, 22), (89, 8), (90, 0), (50, 0)]);
            seams.push((50, 0));
        }
        13 => {
            let arc: [Pt; 13] = [(10, 0), (11, 8), (13, 15), (17, 22), (22, 28), (28, 33), (35, 37), (42, 39), (50, 40), (65, 37), (78, 28), (87, 15), (90, 0)];
            // every way to cut the arc into two or three sectors
            let cut = rv::case(66);
            let mut n = 0;
            for a in 1..12 {
                for b in a + 1..13 {
                    if n == cut {
                        outlines.push(arc[..=a].to_vec());
                        outlines.push(arc[a..=b].to_vec());
                        if b < 12 {
                            outlines.push(arc[b..].to_vec());
                        }
                    }
                    n += 1;
                }
            }
            for o in outlines.iter_mut() {
                o.push((50, 0));
            }
            seams.push((50, 0));
        }
        _ => {
            // a row of strips that all end on one line
            for i in 0..4i64 {
                outlines.push(vec![(2 * i, 4), (2 * i + 2, 4), (2 * i + 2, 1), (2 * i, 1)]);
            }
            outlines.push(vec![(0, 1), (2, 1), (4, 1), (6, 1), (8, 1), (8, 0), (0, 0)]);
            seams = vec![(2, 4), (4, 4), (6, 4), (0, 1), (8, 1)];
        }
    }
    let flags = rv::case(1 << seams.len());
    let nvp = [3u16, 4, 5, 6, 7][rv::case(5) as usize];
    // corners at one place differ by up to two steps
    let y = rv::range(0, 65000) as u16;
    let mut contours = Vec::with_capacity(8);
    for (i, o) in outlines.iter().enumerate() {
        let mut c = contour(o, 1, i as u16 + 1, rv::u8(), &mut |x, z| y + if (x + z) % 4 == 0 { rv::range(0, 2) as u16 } else { 0 });
        for (v, f) in c.vertices.iter_mut() {
            if seams.iter().position(|p| *p == pt(*v)).is_some_and(|i| flags >> i & 1 == 1) {
                *f = BORDER_VERTEX;
            }
        }
        contours.push(c);
    }
    check_removal(ContourSet { contours, width: 100, height: 50, cell_size: 1.0, cell_height: 1.0, ..Default::default() }, false, nvp);
}
