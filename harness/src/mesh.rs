//! Input meshes: joining, bounds, walkable slopes, rasterizing all triangles.
use crate::{hf, ras, rv};
use glam::{UVec3, Vec3A};
use rerecast::*;

/// a mesh with symbolic heights and area types on given plan corners
fn sym_mesh(n: usize, idx: &[[u32; 3]]) -> (TriMesh, Vec<i32>) {
    let mut m = TriMesh::default();
    let mut ys = vec![];
    for i in 0..n {
        let y = rv::u16() as i32 - 0x8000;
        ys.push(y);
        m.vertices.push(Vec3A::new((i as i32 * 7 % 5) as f32 - 2.0, y as f32 / 64.0, (i as i32 * 3 % 7) as f32 - 3.0));
    }
    for t in idx {
        m.indices.push(UVec3::from_array(*t));
        m.area_types.push(AreaType(rv::u8()));
    }
    (m, ys)
}

#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_extend() {
    rv::policy(0);
    let (na, nb) = [(0usize, 0usize), (0, 3), (3, 0), (3, 4), (4, 3), (5, 5)][rv::case(6) as usize];
    let tri = |n: usize| -> Vec<[u32; 3]> { if n == 0 { vec![] } else { (0..n as u32 - 1).map(|i| [i, (i + 1) % n as u32, (i + 2) % n as u32]).collect() } };
    let (mut a, _) = sym_mesh(na, &tri(na));
    let (mut b, _) = sym_mesh(nb, &tri(nb));
    for m in [&mut a, &mut b] {
        let n = m.vertices.len() as u32;
        for t in m.indices.iter_mut() {
            for k in 0..3 {
                t[k] = rv::range(0, n - 1);
            }
        }
    }
    let mut j = a.clone();
    j.extend(b.clone());
    rv::check(j.vertices.len() == na + nb, 1);
    rv::check((j.indices.len() == a.indices.len() + b.indices.len()) & (j.area_types.len() == j.indices.len()), 2);
    for i in 0..na + nb {
        let e = if i < na { a.vertices[i] } else { b.vertices[i - na] };
        rv::check(j.vertices[i].to_array().map(f32::to_bits) == e.to_array().map(f32::to_bits), 3);
    }
    for i in 0..j.indices.len() {
        let k = a.indices.len();
        let (t, area, o) = if i < k { (a.indices[i], a.area_types[i], 0) } else { (b.indices[i - k], b.area_types[i - k], na as u32) };
        rv::check((j.indices[i].x == t.x + o) & (j.indices[i].y == t.y + o) & (j.indices[i].z == t.z + o), 4);
        rv::check(j.area_types[i] == area, 5);
    }
    rv::cover(true, 1);
}

/// bounds of any vertices: the least box that holds them
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_bounds() {
    rv::policy(0);
    let n = rv::case(5) as usize;
    let mut m = TriMesh::default();
    let mut p = vec![];
    for _ in 0..n {
        let mut q = [0.0f32; 3];
        for k in 0..3 {
            q[k] = rv::f32();
            rv::assume(q[k].is_finite());
        }
        p.push(q);
        m.vertices.push(Vec3A::from_array(q));
    }
    let b = m.compute_aabb();
    rv::check(b.is_some() == (n > 0), 10);
    if let Some(b) = b {
        for k in 0..3 {
            let (lo, hi) = (b.min[k], b.max[k]);
            let (mut l, mut h) = (false, false);
            for q in &p {
                rv::check((lo <= q[k]) & (q[k] <= hi), 11);
                l |= lo == q[k];
                h |= hi == q[k];
            }
            rv::check(l & h, 12);
        }
    }
}

/// which triangles are walkable: those whose upward normal is within the threshold of vertical
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_walkable() {
    rv::policy(0);
    let k = rv::case(24) as usize;
    // plan corners, both orientations, slivers and triangles without area
    const T: [[(i32, i32); 3]; 6] = [[(0, 0), (0, 4), (4, 0)], [(0, 0), (4, 0), (0, 4)], [(-3, 5), (2, 6), (7, -4)], [(0, 0), (0, 7), (1, 0)], [(0, 0), (2, 2), (4, 4)], [(5, 5), (5, 5), (5, 5)]];
    let t = T[k / 4];
    let (thr, c2): (f32, i64) = [(std::f32::consts::FRAC_PI_4, 500_000), (0.0, 1_000_000), (1.0471976, 250_000), (1.57, 0)][k % 4];
    let (a, b) = (rv::concretize(rv::range(0, 12) as u64) as i32 - 6, rv::concretize(rv::range(0, 12) as u64) as i32 - 6);
    let y0 = 3;
    let (ya, yb) = (y0 + a, y0 + b);
    let mut m = TriMesh::default();
    // two unused corners in front
    m.vertices.push(Vec3A::new(100.0, 100.0, 100.0));
    m.vertices.push(Vec3A::new(-100.0, 0.0, 100.0));
    for (i, y) in [y0, ya, yb].iter().enumerate() {
        m.vertices.push(Vec3A::new(t[i].0 as f32, *y as f32, t[i].1 as f32));
    }
    let (old, old2) = (rv::u8(), rv::u8());
    m.indices = vec![UVec3::new(0, 0, 1), UVec3::new(2, 3, 4)];
    m.area_types = vec![AreaType(old2), AreaType(old)];
    let before = m.clone();
    m.mark_walkable_triangles(thr);
    rv::check((m.vertices == before.vertices) & (m.indices == before.indices) & (m.area_types.len() == 2), 20);
    // a triangle without area has no slope
    rv::check(m.area_types[0] == AreaType(old2), 21);
    let (u, v) = ([t[1].0 - t[0].0, a, t[1].1 - t[0].1], [t[2].0 - t[0].0, b, t[2].1 - t[0].1]);
    let n = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]].map(|x| x as i64);
    let len2 = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
    // square of the cosine, in millionths
    let (s, c) = (n[1] * n[1] * 1_000_000, c2 * len2);
    let tol = len2 / 100 + 1;
    let set = m.area_types[1] == AreaType::DEFAULT_WALKABLE;
    let kept = m.area_types[1] == AreaType(old);
    rv::check(set | kept, 22);
    if n[1] > 0 && s > c + tol {
        rv::check(set, 23);
        rv::cover(true, 1);
    }
    if n[1] <= 0 || s < c - tol || len2 == 0 {
        rv::check(kept, 24);
        rv::cover(true, 2);
    }
}

/// rasterizing a mesh is rasterizing its triangles one after the other
#[unsafe(no_mangle)]
pub extern "C" fn h_mesh_raster() {
    rv::policy(0);
    let k = rv::case(3);
    let mut f = ras::field(2, 2, [0.0; 3], 1.0, 0.5, 64.0);
    let mut m = TriMesh::default();
    let plan: &[[(f32, f32); 3]] = match k {
        0 => &[[(0.0, 0.0), (2.0, 0.0), (0.0, 2.0)], [(0.0, 0.0), (2.0, 0.0), (2.0, 2.0)]],
        1 => &[[(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], [(0.0, 1.0), (1.0, 0.0), (1.0, 1.0)]],
        _ => &[[(5.0, 5.0), (6.0, 5.0), (6.0, 6.0)], [(0.0, 0.0), (1.0, 0.0), (0.0, 1.0)], [(-3.0, 0.0), (-1.0, 0.0), (-1.0, 1.0)]],
    };
    m.vertices.push(Vec3A::splat(9.0));
    for t in plan {
        let y = rv::u16() as i32 - 0x1000;
        for p in t {
            m.vertices.push(Vec3A::new(p.0, y as f32 / 64.0, p.1));
        }
        let n = m.vertices.len() as u32;
        m.indices.push(UVec3::new(n - 1, n - 3, n - 2));
        m.area_types.push(AreaType(rv::u8()));
    }
    let climb = rv::u16();
    let mut g = f.clone();
    let r = f.rasterize_triangles(&m, climb);
    rv::check(r.is_ok(), 30);
    for (t, a) in m.indices.iter().zip(&m.area_types) {
        let v = |i: u32| m.vertices[i as usize];
        rv::check(g.rasterize_triangle([v(t.x), v(t.y), v(t.z)], *a, climb).is_ok(), 30);
    }
    for i in 0..4 {
        let (a, b) = (hf::read_column(&f, i, 4), hf::read_column(&g, i, 4));
        rv::check(a.len() == b.len(), 31);
        for (x, y) in a.iter().zip(&b) {
            rv::check((x.min == y.min) & (x.max == y.max) & (x.area == y.area), 32);
            rv::cover(true, 1);
        }
    }
}
