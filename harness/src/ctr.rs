//! Contours.
use crate::chf::{DX, DZ, blank_chf};
use crate::rv;
use rerecast::*;

/// region layout: one digit per cell, 0 = no region; the area of a region is 10 + its number
pub struct Lay<'a> {
    pub w: usize,
    pub h: usize,
    /// level by level
    pub reg: &'a [u8],
    /// floors per column
    pub lv: usize,
    pub border: u16,
}
impl Lay<'_> {
    /// region of a cell on a level, None outside the field
    fn at(&self, x: i32, z: i32, lv: usize) -> Option<u8> {
        if x < 0 || z < 0 || x >= self.w as i32 || z >= self.h as i32 { None } else { Some(self.reg[lv * self.w * self.h + x as usize + z as usize * self.w]) }
    }
    fn span(&self, x: usize, z: usize, lv: usize) -> usize {
        (x + z * self.w) * self.lv + lv
    }
    fn cell(&self, i: usize) -> (usize, usize, usize) {
        let c = i / self.lv;
        (c % self.w, c / self.w, i % self.lv)
    }
}

pub fn lay(k: u32) -> Lay<'static> {
    match k {
        0 => Lay { w: 2, h: 2, reg: &[1, 1, 1, 1], lv: 1, border: 0 },
        1 => Lay { w: 4, h: 3, reg: &[1, 1, 2, 2, 1, 1, 2, 2, 1, 1, 2, 2], lv: 1, border: 0 },
        2 => Lay { w: 4, h: 4, reg: &[0, 1, 1, 0, 1, 1, 1, 1, 0, 1, 1, 0, 0, 0, 1, 0], lv: 1, border: 0 },
        3 => Lay { w: 5, h: 3, reg: &[1, 1, 1, 1, 1, 1, 0, 0, 0, 1, 1, 0, 2, 0, 1], lv: 1, border: 0 },
        4 => Lay { w: 3, h: 3, reg: &[1, 1, 2, 1, 2, 2, 3, 3, 3], lv: 1, border: 0 },
        5 => Lay { w: 6, h: 2, reg: &[1, 1, 1, 1, 1, 1, 0, 1, 0, 1, 0, 1], lv: 1, border: 0 },
        6 => Lay { w: 4, h: 2, reg: &[1, 1, 1, 1, 2, 2, 2, 2], lv: 1, border: 0 },
        7 => Lay { w: 3, h: 2, reg: &[1, 1, 0, 1, 1, 1, 2, 2, 2, 0, 3, 3], lv: 2, border: 0 },
        8 => Lay { w: 6, h: 6, reg: &[1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 1, 2, 1, 1, 0, 0, 1, 2, 0, 2, 2, 2, 2, 2, 0, 0, 2, 2, 2, 0], lv: 1, border: 0 },
        _ => Lay { w: 2, h: 1, reg: &[1, 1], lv: 1, border: 0 },
    }
}

pub fn build(l: &Lay, same_area: bool) -> CompactHeightfield {
    let n = l.w * l.h * l.lv;
    let mut chf = blank_chf(l.w, l.h, &vec![l.lv; l.w * l.h]);
    let mut mx = 0;
    for i in 0..n {
        let (x, z, lv) = l.cell(i);
        let r = l.at(x as i32, z as i32, lv).unwrap();
        chf.spans[i].region = if r > 100 { RegionId::from(0x8000 | (r - 100) as u16) } else { RegionId::from(r as u16) };
        let a = if r == 0 { 0 } else if same_area { 63 } else { 10 + r };
        chf.areas[i] = AreaType(a);
        mx = if r > 100 { mx } else { mx.max(r) };
        for d in 0..4usize {
            if l.at(x as i32 + DX[d], z as i32 + DZ[d], lv).is_some() {
                chf.spans[i].set_con(d as u8, lv as u8);
            }
        }
    }
    chf.max_region = RegionId::from(mx as u16);
    chf
}

const CX: [usize; 4] = [0, 1, 1, 0];
const CZ: [usize; 4] = [1, 1, 0, 0];

/// Walk of region boundaries by an independent rule: edge (cell, dir) has start corner and end corner;
/// the next edge of a contour turns by the cells diagonal and straight ahead. Returns the successor of every boundary edge.
pub fn boundary_next(l: &Lay, i: usize, dir: usize) -> Option<(usize, usize)> {
    let (x, z, lv) = l.cell(i);
    let (x, z) = (x as i32, z as i32);
    let r = l.at(x, z, lv);
    if r == Some(0) || r > Some(100) || l.at(x + DX[dir], z + DZ[dir], lv) == r {
        return None;
    }
    let d2 = (dir + 1) % 4;
    let (sx, sz) = (x + DX[d2], z + DZ[d2]);
    if l.at(sx, sz, lv) != r {
        return Some((i, d2));
    }
    let (qx, qz) = (sx + DX[dir], sz + DZ[dir]);
    if l.at(qx, qz, lv) != r {
        return Some((l.span(sx as usize, sz as usize, lv), dir));
    }
    Some((l.span(qx as usize, qz as usize, lv), (dir + 3) % 4))
}

/// the corner (x, z) reported for edge (i, dir)
fn corner(l: &Lay, i: usize, dir: usize) -> (usize, usize) {
    let (x, z, _) = l.cell(i);
    (x + CX[dir], z + CZ[dir])
}

/// highest floor around a corner, and whether the corner is an inner vertex of the tile border: its four cells exist,
/// two adjacent ones belong to the same border side and the other two to the inside, both of one area type
fn corner_floor(chf: &CompactHeightfield, l: &Lay, i: usize, dir: usize) -> (u16, bool) {
    let (cx, cz) = corner(l, i, dir);
    let lv = l.cell(i).2;
    let mut m = 0u16;
    let mut reg = [0u8; 4];
    let mut area = [0u8; 4];
    for (k, (dx, dz)) in [(-1, -1), (0, -1), (0, 0), (-1, 0)].iter().enumerate() {
        let (x, z) = (cx as i32 + dx, cz as i32 + dz);
        if let Some(r) = l.at(x, z, lv) {
            let s = l.span(x as usize, z as usize, lv);
            let y = chf.spans[s].y;
            m = if y > m { y } else { m };
            reg[k] = r;
            area[k] = chf.areas[s].0;
        }
    }
    let mut bv = false;
    for a in 0..4 {
        let (b, c, d) = ((a + 1) % 4, (a + 2) % 4, (a + 3) % 4);
        let ext = reg[a] > 100 && reg[a] == reg[b] && area[a] == area[b];
        let int = reg[c] < 100 && reg[d] < 100 && area[c] == area[d];
        let exist = (reg[c] != 0 || area[c] != 0) && (reg[d] != 0 || area[d] != 0);
        bv |= ext && int && exist;
    }
    (m, bv)
}

pub struct RawPt {
    pub x: usize,
    pub z: usize,
    pub edge: (usize, usize),
    /// region on the other side
    pub other: u8,
    pub area_border: bool,
    pub y: u16,
    pub border_vertex: bool,
}

/// expected raw contours, in the order in which a row-by-row scan meets them
pub fn expected_raw(l: &Lay, chf: &CompactHeightfield) -> Vec<Vec<RawPt>> {
    let n = l.w * l.h * l.lv;
    let mut seen = vec![false; n * 4];
    let mut out: Vec<Vec<RawPt>> = Vec::with_capacity(16);
    for i in 0..n {
        let mut first = 4;
        let mut cnt = 0;
        let mut all = 0;
        for d in (0..4).rev() {
            if boundary_next(l, i, d).is_some() {
                all += 1;
                if !seen[i * 4 + d] {
                    first = d;
                    cnt += 1;
                }
            }
        }
        // single cells have no contour
        if cnt == 0 || (all == 4) {
            continue;
        }
        let mut c = Vec::with_capacity(64);
        let (mut ci, mut cd) = (i, first);
        loop {
            seen[ci * 4 + cd] = true;
            let (x, z) = corner(l, ci, cd);
            let (hx, hz, lv) = l.cell(ci);
            let (nx, nz) = (hx as i32 + DX[cd], hz as i32 + DZ[cd]);
            let o = l.at(nx, nz, lv);
            let area_border = o.is_some() && chf.areas[l.span(nx as usize, nz as usize, lv)] != chf.areas[ci];
            let (y, border_vertex) = corner_floor(chf, l, ci, cd);
            c.push(RawPt { x, z, edge: (ci, cd), other: o.unwrap_or(0), area_border, y, border_vertex });
            let Some(n) = boundary_next(l, ci, cd) else { break };
            (ci, cd) = n;
            if (ci, cd) == (i, first) {
                break;
            }
        }
        out.push(c);
    }
    out
}

fn side(e: &RawPt) -> u32 {
    if e.other > 100 { 0x8000 | (e.other - 100) as u32 } else { e.other as u32 }
}

fn check_raw(l: &Lay, chf: &CompactHeightfield, exp: &[RawPt], c: &Contour, base: u32) {
    rv::check(c.raw_vertices.len() == exp.len(), base + 1);
    if c.raw_vertices.len() != exp.len() {
        return;
    }
    for (k, e) in exp.iter().enumerate() {
        let (p, r) = &c.raw_vertices[k];
        rv::check(p.x as usize + l.border as usize == e.x && p.z as usize + l.border as usize == e.z, base + 2);
        rv::check(p.y == e.y, base + 3);
        let bits = side(e) | if e.area_border { 0x20000 } else { 0 } | if e.border_vertex { 0x10000 } else { 0 };
        rv::check(r.bits() == bits, base + 4);
        rv::obs(p.y as u64);
    }
    let i = exp[0].edge.0;
    rv::check(c.region == chf.spans[i].region, base + 5);
    rv::check(c.area == chf.areas[i], base + 6);
}

fn d2(a: (i64, i64), b: (i64, i64)) -> i64 {
    (a.0 - b.0) * (a.0 - b.0) + (a.1 - b.1) * (a.1 - b.1)
}

/// exact: squared distance of p from segment ab, as a fraction
fn seg(p: (i64, i64), a: (i64, i64), b: (i64, i64)) -> (i64, i64) {
    let l2 = d2(a, b);
    if l2 == 0 {
        return (d2(p, a), 1);
    }
    let t = (b.0 - a.0) * (p.0 - a.0) + (b.1 - a.1) * (p.1 - a.1);
    if t <= 0 {
        return (d2(p, a), 1);
    }
    if t >= l2 {
        return (d2(p, b), 1);
    }
    let cr = (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0);
    (cr * cr, l2)
}

fn check_simplified(border: usize, exp: &[RawPt], c: &Contour, err: f32, max_edge: u16, flags: u8, base: u32) {
    let n = exp.len();
    // simplified vertices are raw vertices, in contour order: position of each in the raw contour
    let m = c.vertices.len();
    rv::check(m >= 3, base + 10);
    // a contour that touches itself visits a corner twice; its positions are ambiguous
    for i in 0..n {
        for j in 0..i {
            if (exp[i].x, exp[i].z) == (exp[j].x, exp[j].z) {
                return;
            }
        }
    }
    let mut pos = Vec::with_capacity(m);
    for (v, _) in &c.vertices {
        let p = exp.iter().position(|e| e.x == v.x as usize + border && e.z == v.z as usize + border);
        rv::check(p.is_some(), base + 11);
        pos.push(p.unwrap_or(0));
    }
    let mut turns = 0;
    for k in 0..m {
        let q = (k + 1) % m;
        let (a, b) = (pos[k], pos[q]);
        turns += if b > a { b - a } else { b + n - a };
        rv::check((c.vertices[k].0.x, c.vertices[k].0.z) != (c.vertices[q].0.x, c.vertices[q].0.z), base + 13);
        rv::check(c.vertices[k].0.y == c.raw_vertices[a].0.y, base + 14);
        // the edge names what the raw edge after its first vertex faces
        let e1 = &exp[(a + 1) % n];
        let bits = side(e1) | if e1.area_border { 0x20000 } else { 0 } | if exp[a].border_vertex { 0x10000 } else { 0 };
        rv::check(c.vertices[k].1 == bits, base + 15);
        let wall = e1.other == 0 || e1.area_border;
        let split = ((flags & 1 != 0) && e1.other == 0) || ((flags & 2 != 0) && e1.area_border);
        let pa = (exp[a].x as i64, exp[a].z as i64);
        let pb = (exp[b].x as i64, exp[b].z as i64);
        let mut i = (a + 1) % n;
        while i != b {
            // a portal to another region starts and ends at a vertex
            rv::check(exp[i].other == e1.other && exp[(i + 1) % n].other == e1.other, base + 16);
            // splitting a long edge moves it, so the tolerance is claimed for edges not subject to splitting
            if wall && (!split || max_edge == 0) {
                let (num, den) = seg((exp[i].x as i64, exp[i].z as i64), pa, pb);
                // tolerance for the single-precision computation of the distance itself
                rv::check((num as f32) <= (err * err) * (den as f32) * 1.0001 + 0.0001, base + 17);
            }
            i = (i + 1) % n;
        }
        if split && max_edge > 0 {
            let cells = if b > a { b - a } else { b + n - a };
            let l2 = d2(pa, pb);
            rv::check(cells <= 1 || l2 <= max_edge as i64 * max_edge as i64, base + 18);
        }
    }
    rv::check(turns == n, base + 12);
}

fn contours(k: u32, same_area: bool) {
    rv::policy(0);
    let l = lay(k);
    let mut chf = build(&l, same_area);
    for s in chf.spans.iter_mut() {
        s.y = rv::u16();
    }
    let err = [0.0f32, 0.5, 0.8, 1.0, 1.3, 4.0][rv::case(6) as usize];
    let max_edge = rv::u16();
    let fl = rv::range(0, 3) as u8;
    let fl = rv::concretize(fl as u64) as u8;
    let set = chf.build_contours(err, max_edge, BuildContoursFlags::from_bits_retain(fl));
    compare(&l, &chf, &set, err, max_edge, fl);
}

fn compare(l: &Lay, chf: &CompactHeightfield, set: &ContourSet, err: f32, max_edge: u16, fl: u8) {
    let exp = expected_raw(l, chf);
    let b = l.border;
    rv::check(set.width == l.w as u16 - 2 * b && set.height == l.h as u16 - 2 * b && set.border_size == b, 1);
    let pad = b as f32;
    rv::check(set.aabb.min == chf.aabb.min + glam::Vec3::new(pad, 0.0, pad) && set.aabb.max == chf.aabb.max - glam::Vec3::new(pad, 0.0, pad), 2);
    rv::check(set.cell_size == 1.0 && set.cell_height == 1.0 && set.max_error == err, 3);
    // contours that simplify to less than a triangle are dropped, all others appear in scan order
    let mut at = 0;
    for e in &exp {
        let (i, _) = e[0].edge;
        let hit = at < set.contours.len() && {
            let c = &set.contours[at];
            c.region == chf.spans[i].region && !c.raw_vertices.is_empty() && (c.raw_vertices[0].0.x + b) as usize == e[0].x && (c.raw_vertices[0].0.z + b) as usize == e[0].z
        };
        if hit {
            check_raw(l, chf, e, &set.contours[at], 10);
            check_simplified(b as usize, e, &set.contours[at], err, max_edge, fl, 20);
            at += 1;
        } else {
            // may only vanish when every corner is within the tolerance of one segment
            rv::check(err > 0.7, 4);
            let mut close = false;
            for p in e {
                for q in e {
                    let mut all = true;
                    for r in e {
                        let (num, den) = seg((r.x as i64, r.z as i64), (p.x as i64, p.z as i64), (q.x as i64, q.z as i64));
                        all &= num as f32 <= err * err * den as f32 * 1.0001;
                    }
                    close |= all;
                }
            }
            rv::check(close, 6);
        }
    }
    rv::check(at == set.contours.len(), 5);
    rv::cover(at > 0, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_contours() {
    let k = rv::case(10);
    contours(k, k == 4);
}

/// every assignment of two regions (or none) to the cells of a small field
fn any_layout(w: usize, h: usize, kinds: u32) {
    rv::policy(0);
    let n = w * h;
    let mut code = 0u64;
    // the first three cells split the work
    let first = rv::case(kinds * kinds * kinds);
    for i in 0..n {
        let c = if i < 3 { first / kinds.pow(i as u32) % kinds } else { rv::range(0, kinds - 1) };
        code = code * 4 + c as u64;
    }
    let code = rv::concretize(code);
    let mut v = [0u8; 16];
    for i in 0..n {
        v[i] = (code >> (2 * (n - 1 - i)) & 3) as u8;
    }
    let l = Lay { w, h, reg: &v[..n], lv: 1, border: 0 };
    let mut chf = build(&l, false);
    for s in chf.spans.iter_mut() {
        s.y = rv::u16();
    }
    let err = [1.3f32, 0.0][rv::case(2) as usize];
    let set = chf.build_contours(err, 0, BuildContoursFlags::DEFAULT);
    compare(&l, &chf, &set, err, 0, 1);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_contours_any() {
    any_layout(4, 3, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_contours_any3() {
    any_layout(4, 2, 3);
}

/// one region with nine holes: more boundary loops than regions
#[unsafe(no_mangle)]
pub extern "C" fn h_contours_many() {
    rv::policy(0);
    let n = [7usize, 9][rv::case(2) as usize];
    let mut v = [1u8; 81];
    for z in 0..n {
        for x in 0..n {
            v[x + z * n] = if x % 2 == 1 && z % 2 == 1 { 0 } else { 1 };
        }
    }
    let l = Lay { w: n, h: n, reg: &v[..n * n], lv: 1, border: 0 };
    let mut chf = build(&l, false);
    for s in chf.spans.iter_mut() {
        s.y = rv::u16();
    }
    let set = chf.build_contours(0.5, 0, BuildContoursFlags::DEFAULT);
    compare(&l, &chf, &set, 0.5, 0, 1);
}

/// fields with a painted border
#[unsafe(no_mangle)]
pub extern "C" fn h_contours_border() {
    rv::policy(0);
    let k = rv::case(4);
    let pat: [u8; 9] = [[1, 1, 1, 1, 1, 1, 1, 1, 1], [1, 1, 2, 1, 1, 2, 1, 2, 2], [0, 1, 1, 1, 1, 1, 1, 1, 0], [1, 2, 2, 1, 2, 2, 1, 2, 2]][k as usize];
    let mut v = [0u8; 25];
    for z in 0..5usize {
        for x in 0..5usize {
            // as the four painted rectangles overwrite each other
            v[x + 5 * z] = if z == 4 {
                104
            } else if z == 0 {
                103
            } else if x == 4 {
                102
            } else if x == 0 {
                101
            } else {
                pat[x - 1 + 3 * (z - 1)]
            };
        }
    }
    let l = Lay { w: 5, h: 5, reg: &v, lv: 1, border: 1 };
    let mut chf = build(&l, false);
    let same = rv::boolean();
    for (i, s) in chf.spans.iter_mut().enumerate() {
        s.y = rv::u16();
        // border cells keep the area of the ground
        if v[i] > 100 {
            chf.areas[i] = AreaType(if same { 11 } else { 63 });
        }
    }
    chf.border_size = 1;
    let err = [1.3f32, 0.5][rv::case(2) as usize];
    let set = chf.build_contours(err, 0, BuildContoursFlags::DEFAULT);
    compare(&l, &chf, &set, err, 0, 1);
}
