//! Marking the floors inside a convex volume.
use crate::{chf, rv};
use glam::{Vec2, Vec3};
use rerecast::*;

type P2 = (i64, i64);
fn cross(a: P2, b: P2, c: P2) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
/// 1: inside, -1: outside, 0: on the outline
fn side(p: P2, poly: &[P2]) -> i32 {
    let n = poly.len();
    let mut turn = 0;
    for i in 0..n {
        let (a, b) = (poly[i], poly[(i + 1) % n]);
        if cross(a, b, p) == 0 && (p.0 - a.0) * (p.0 - b.0) <= 0 && (p.1 - a.1) * (p.1 - b.1) <= 0 {
            return 0;
        }
        if (a.1 > p.1) != (b.1 > p.1) {
            let up = b.1 > a.1;
            if (cross(a, b, p) > 0) == up {
                turn += 1;
            }
        }
    }
    if turn % 2 == 1 { 1 } else { -1 }
}

/// a field with symbolic floors, marked with the polygon given in 1/`s` cells; cell corners lie at multiples of `s`
fn mark(w: usize, h: usize, counts: &[usize], poly: &[P2], s: i64, cs: f32, origin: [f32; 3], one: bool, at: &dyn Fn(P2) -> Vec2) {
    let ch = 0.5f32;
    let mut f = chf::blank_chf(w, h, counts);
    f.cell_size = cs;
    f.cell_height = ch;
    f.aabb.min = Vec3::from_array(origin);
    f.aabb.max = f.aabb.min + Vec3::new(w as f32 * cs, 1000.0, h as f32 * cs);
    for i in 0..f.spans.len() {
        // every floor its own, or all floors of the field the same
        let k = if one && i > 0 { 0 } else { i };
        f.spans[i].y = if k == i { rv::u16() } else { f.spans[k].y };
        f.areas[i] = if k == i { AreaType(rv::u8()) } else { f.areas[k] };
    }
    // bottom and top of the volume in 1/16 cells above the field's bottom
    let (lo, hi) = (rv::range(0, 0x10_ffff) as i32 - 0x8000, rv::range(0, 0x10_ffff) as i32 - 0x8000);
    let area = AreaType(rv::u8());
    let mut g = f.clone();
    rv::policy(1);
    g.mark_convex_poly_area(ConvexVolume {
        vertices: poly.iter().map(|p| at(*p)).collect(),
        min_y: lo as f32 / 32.0 + origin[1],
        max_y: hi as f32 / 32.0 + origin[1],
        area,
    });
    rv::policy(0);
    rv::check(g.areas.len() == f.areas.len(), 1);
    for z in 0..h {
        for x in 0..w {
            let c = f.cells[x + z * w].clone();
            rv::check((g.cells[x + z * w].index() == c.index()) & (g.cells[x + z * w].count() == c.count()), 2);
            let p = (x as i64 * s + s / 2, z as i64 * s + s / 2);
            let inside = side(p, poly);
            for i in c.index() as usize..c.index() as usize + c.count() as usize {
                let y = f.spans[i].y as i32;
                rv::check((g.spans[i].y == f.spans[i].y) & (g.spans[i].data == f.spans[i].data) & (g.spans[i].region == f.spans[i].region), 2);
                // the voxels that the volume reaches into; what lies less than a voxel below the field counts for the lowest one
                let high = (y >= lo.div_euclid(16)) & (y <= hi.div_euclid(16));
                let high2 = (y >= (lo + 15).div_euclid(16).min(lo / 16)) & (y <= hi / 16);
                let was = f.areas[i] != AreaType(0);
                if inside > 0 {
                    rv::check(!(was & high) | (g.areas[i] == area), 3);
                    rv::cover(was & high, 1);
                }
                if inside < 0 {
                    rv::check(g.areas[i] == f.areas[i], 4);
                } else {
                    rv::check((was & high2) | (g.areas[i] == f.areas[i]), 5);
                    rv::check((g.areas[i] == area) | (g.areas[i] == f.areas[i]), 6);
                }
            }
        }
    }
}

/// every triangle with corners on a coarse grid in and around a 3x3 field
#[unsafe(no_mangle)]
pub extern "C" fn h_convex_tri() {
    rv::policy(0);
    let ps = [-9i64, -2, 2, 5, 9, 15];
    let mut code = rv::case(36) as usize;
    let mut c = [0usize; 6];
    for i in 0..6 {
        if i < 2 {
            c[i] = code % 6;
            code /= 6;
        } else {
            c[i] = rv::case(6) as usize;
        }
    }
    let t = [(ps[c[0]], ps[c[1]]), (ps[c[2]], ps[c[3]]), (ps[c[4]], ps[c[5]])];
    if t[0] > t[1] || t[0] > t[2] {
        return;
    }
    let o = [-5.0f32, 2.0, 3.0];
    mark(3, 4, &[1, 1, 0, 1, 2, 1, 1, 1, 1, 1, 1, 1], &t, 4, 1.0, o, true, &|p| Vec2::new(p.0 as f32 / 4.0 + o[0], p.1 as f32 / 4.0 + o[2]));
}

/// larger polygons with both orientations, odd cell sizes, origins far away
#[unsafe(no_mangle)]
pub extern "C" fn h_convex_poly() {
    rv::policy(0);
    const T: [&[P2]; 12] = [
        &[(0, 0), (60, 0), (60, 60), (0, 60)],
        &[(1, 31), (31, 1), (61, 31), (31, 61)],
        &[(20, 3), (41, 3), (59, 22), (59, 43), (41, 58), (20, 58), (3, 43), (3, 22)],
        &[(-40, -40), (100, -40), (100, 100), (-40, 100)],
        &[(-1000, 22), (1000, 22), (1000, 37), (-1000, 37)],
        &[(24, 24), (36, 24), (36, 36), (24, 36)],
        &[(-20, 7), (70, 29), (14, 73)],
        &[(11, -5), (71, 17), (52, 64), (3, 41)],
        &[(4, 4), (29, 4), (56, 4), (56, 44), (31, 57), (4, 44)],
        &[(2, 2)],
        &[(2, 2), (58, 47)],
        &[(200, 200), (260, 200), (230, 260)],
    ];
    let k = rv::case(12) as usize;
    let flip = rv::case(2) == 1;
    let (cs, ox, oz) = [(1.0f32, 0.0f32, 0.0f32), (0.3, 0.0, 0.0), (0.3, -17.3, 1000.7), (0.7, 5000.1, -0.2)][rv::case(4) as usize];
    let turn = rv::case(3) as usize;
    let mut p = T[k].to_vec();
    if flip {
        p.reverse();
    }
    let n = p.len();
    p.rotate_left(turn % n);
    let o = [ox, 0.0, oz];
    mark(5, 4, &[1; 20], &p, 12, cs, o, false, &|p| Vec2::new(p.0 as f32 / 12.0 * cs + o[0], p.1 as f32 / 12.0 * cs + o[2]));
}

/// two volumes that share an edge: no floor is left between them
#[unsafe(no_mangle)]
pub extern "C" fn h_convex_shared() {
    rv::policy(0);
    let k = rv::case(16) as usize;
    // a quad cut along a segment from its left to its right side; cell centres lie on some of the cuts
    let (a, b) = ([2i64, 4, 6, 10][k % 4], [2i64, 6, 9, 14][k / 4]);
    let f0 = chf::blank_chf(4, 4, &[1; 16]);
    let v = |p: P2| Vec2::new(p.0 as f32 / 4.0, p.1 as f32 / 4.0);
    let under = [(0, 0), (16, 0), (16, b), (0, a)];
    let over = [(0, a), (16, b), (16, 16), (0, 16)];
    let (m, n) = (rv::u8(), rv::u8());
    rv::assume((m != n) & (m != 0) & (n != 0));
    let mut f = f0.clone();
    let old = rv::u8();
    for x in f.areas.iter_mut() {
        *x = AreaType(old);
    }
    rv::assume((old != 0) & (old != m) & (old != n));
    let mut g = f.clone();
    let vol = |p: &[P2], area| ConvexVolume { vertices: p.iter().map(|p| v(*p)).collect(), min_y: 0.0, max_y: 50.0, area: AreaType(area) };
    f.mark_convex_poly_area(vol(&under, m));
    g.mark_convex_poly_area(vol(&over, n));
    for i in 0..16 {
        rv::check((f.areas[i] == AreaType(m)) != (g.areas[i] == AreaType(n)), 7);
    }
}

/// every convex quadrilateral with corners on a coarser grid
#[unsafe(no_mangle)]
pub extern "C" fn h_convex_quad() {
    rv::policy(0);
    let ps = [-3i64, 1, 7, 13];
    let k = rv::case(16) as usize;
    let mut q = [(ps[k % 4], ps[k / 4]); 4];
    for i in 1..4 {
        q[i] = (ps[rv::case(4) as usize], ps[rv::case(4) as usize]);
        if q[i] < q[0] {
            return;
        }
    }
    let c = [cross(q[0], q[1], q[2]), cross(q[1], q[2], q[3]), cross(q[2], q[3], q[0]), cross(q[3], q[0], q[1])];
    if !(c.iter().all(|v| *v >= 0) || c.iter().all(|v| *v <= 0)) || (q[0] == q[2] || q[1] == q[3]) {
        return;
    }
    let o = [0.25f32, -2.0, -3.5];
    mark(3, 2, &[1; 6], &q, 4, 0.5, o, true, &|p| Vec2::new(p.0 as f32 / 8.0 + o[0], p.1 as f32 / 8.0 + o[2]));
}
