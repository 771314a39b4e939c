//! Rasterization: which cells a triangle fills, and over which heights.
use crate::{hf, rv};
use glam::{Vec3, Vec3A};
use rerecast::*;

type P2 = (i64, i64);

pub fn field(w: u16, h: u16, origin: [f32; 3], cs: f32, ch: f32, up: f32) -> Heightfield {
    Heightfield {
        width: w,
        height: h,
        aabb: Aabb3d {
            min: Vec3::new(origin[0], origin[1], origin[2]),
            max: Vec3::new(origin[0] + w as f32 * cs, origin[1] + up, origin[2] + h as f32 * cs),
        },
        cell_size: cs,
        cell_height: ch,
        spans: vec![None; w as usize * h as usize],
        allocated_spans: Spans::default(),
    }
}

/// smallest overlap of triangle and box among the separating axes' intervals, scaled by the axis; > 0: they share an area, < 0: apart
fn overlap(t: &[P2; 3], lo: P2, hi: P2) -> i64 {
    let mut m = i64::MAX;
    let mut axes = [(1i64, 0i64), (0, 1), (0, 0), (0, 0), (0, 0)];
    for i in 0..3 {
        let (a, b) = (t[i], t[(i + 1) % 3]);
        axes[2 + i] = (b.1 - a.1, a.0 - b.0);
    }
    for (nx, nz) in axes {
        if nx == 0 && nz == 0 {
            m = m.min(0);
            continue;
        }
        let d = |p: P2| p.0 * nx + p.1 * nz;
        let (mut a0, mut a1, mut b0, mut b1) = (i64::MAX, i64::MIN, i64::MAX, i64::MIN);
        for p in t {
            a0 = a0.min(d(*p));
            a1 = a1.max(d(*p));
        }
        for p in [lo, hi, (lo.0, hi.1), (hi.0, lo.1)] {
            b0 = b0.min(d(p));
            b1 = b1.max(d(p));
        }
        // a triangle without area shares none
        m = m.min((a1 - b0).min(b1 - a0)).min(if a1 == a0 { 0 } else { i64::MAX });
    }
    m
}

/// level triangles with corners on a grid, at any height
fn flat(ps: &[i64], w: u16, h: u16, fix: usize) {
    rv::policy(0);
    let k = ps.len() as u32;
    let mut code = rv::case(k.pow(fix as u32)) as u64;
    let mut t = [(0i64, 0i64); 3];
    let mut c = [0usize; 6];
    for i in 0..6 {
        if i < fix {
            c[i] = (code % k as u64) as usize;
            code /= k as u64;
        } else {
            c[i] = rv::concretize(rv::range(0, k - 1) as u64) as usize;
        }
    }
    for i in 0..3 {
        t[i] = (ps[c[2 * i]], ps[c[2 * i + 1]]);
    }
    // every rotation and orientation of a triangle is another triangle of the enumeration; the first corner is the least
    if t[0] > t[1] || t[0] > t[2] {
        return;
    }
    let ch = [1.0f32, 0.25][(c[0] + c[3]) % 2];
    let origin = [-3.0f32, 2.0, 5.0];
    let up = 24.0;
    let mut f = field(w, h, origin, 1.0, ch, up);
    let raw = rv::u16() as i32 - 0x8000;
    // height above the field's bottom in 1/512
    let rel = raw;
    let y = raw as f32 / 512.0 + origin[1];
    let area = rv::u8();
    let v = |p: P2| Vec3A::new(p.0 as f32 / 4.0 + origin[0], y, p.1 as f32 / 4.0 + origin[2]);
    let r = f.rasterize_triangle([v(t[0]), v(t[1]), v(t[2])], AreaType(area), 1);
    rv::check(r.is_ok(), 1);
    let unit = if ch == 1.0 { 512 } else { 128 };
    let inside = (rel >= 0) & (rel <= 24 * 512);
    let lo = rel.div_euclid(unit);
    let hi = lo + 1;
    for z in 0..h as i64 {
        for x in 0..w as i64 {
            let c = hf::read_column(&f, (x + z * w as i64) as usize, 4);
            let b = (x * 4, z * 4);
            let e = (b.0 + 4, b.1 + 4);
            // what sticks out of the field by less than a cell counts for the cells at its edge
            let b2 = (if x == 0 { -4 } else { b.0 }, if z == 0 { -4 } else { b.1 });
            let must = overlap(&t, b, e) > 0;
            let may = overlap(&t, b2, e) >= 0;
            if must {
                rv::check((c.len() == 1) == inside, 2);
            } else if !may {
                rv::check(c.is_empty(), 3);
            }
            rv::check(c.len() <= 1, 4);
            rv::check(c.is_empty() | inside, 5);
            if let Some(s) = c.first() {
                rv::check(s.min as i32 == lo, 6);
                rv::check(s.max as i32 == hi, 7);
                rv::check(s.area == area, 8);
                rv::cover(must, 1);
            }
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_raster_flat() {
    flat(&[-5, -2, 0, 4, 7, 14], 2, 3, 2);
}

/// least and greatest height, times D, of the part of a triangle inside a box: at the corners of that part
const D: i64 = 16;
fn heights(q: &[P2; 3], y: &[i64; 3], b: P2, e: P2) -> (i64, i64) {
    let mut lo = i64::MAX;
    let mut hi = i64::MIN;
    let mut put = |l: [i64; 3]| {
        let s = l[0] * y[0] + l[1] * y[1] + l[2] * y[2];
        lo = lo.min(s);
        hi = hi.max(s);
    };
    for i in 0..3 {
        let j = (i + 1) % 3;
        let (p, n) = (q[i], q[j]);
        let inside = |a: i64, l: i64, u: i64, d: i64| a >= l * d && a <= u * d;
        if inside(p.0, b.0, e.0, 1) && inside(p.1, b.1, e.1, 1) {
            let mut l = [0; 3];
            l[i] = D;
            put(l);
        }
        // crossings with the four sides
        for (axis, at) in [(0, b.0), (0, e.0), (1, b.1), (1, e.1)] {
            let (p0, n0, p1, n1) = if axis == 0 { (p.0, n.0, p.1, n.1) } else { (p.1, n.1, p.0, n.0) };
            let d = n0 - p0;
            let s = at - p0;
            if d == 0 || s * d < 0 || s * d > d * d {
                continue;
            }
            let (d, s) = if d < 0 { (-d, -s) } else { (d, s) };
            let (l1, u1) = if axis == 0 { (b.1, e.1) } else { (b.0, e.0) };
            if !inside(p1 * d + (n1 - p1) * s, l1, u1, d) {
                continue;
            }
            assert!(D % d == 0);
            let mut l = [0; 3];
            l[j] = s * D / d;
            l[i] = D - l[j];
            put(l);
        }
    }
    // the cell's corners inside the triangle
    let cr = |a: P2, b: P2, c: P2| (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0);
    let a2 = cr(q[0], q[1], q[2]);
    for p in [b, e, (b.0, e.1), (e.0, b.1)] {
        let mut l = [cr(p, q[1], q[2]), cr(p, q[2], q[0]), cr(p, q[0], q[1])];
        if l.iter().all(|v| *v * a2 >= 0) {
            assert!(D % a2.abs() == 0);
            l.iter_mut().for_each(|v| *v = *v * D / a2);
            put(l);
        }
    }
    (lo, hi)
}

/// sloping triangles whose clipped corners are exactly representable, all three heights symbolic
#[unsafe(no_mangle)]
pub extern "C" fn h_raster_slope() {
    rv::policy(0);
    const T: [[P2; 3]; 12] = [
        [(0, 0), (2, 0), (0, 2)],
        [(0, 0), (2, 2), (0, 2)],
        [(2, 0), (2, 2), (0, 2)],
        [(0, 0), (2, 0), (2, 2)],
        [(0, 0), (2, 0), (1, 1)],
        [(0, 0), (1, 1), (0, 2)],
        [(0, 0), (1, 0), (0, 1)],
        [(1, 0), (1, 1), (0, 1)],
        [(0, 0), (2, 0), (1, 2)],
        [(0, 0), (0, 2), (2, 1)],
        [(0, 0), (1, 0), (0, 2)],
        [(0, 1), (1, 0), (1, 2)],
    ];
    let k = rv::case(72) as usize;
    let t = T[k % 12];
    // inside, across each side of the field, across a corner
    let (ox, oz) = [(1, 1), (0, 2), (-1, 1), (2, -1), (3, 3), (-1, -1)][k / 12];
    let steep = rv::case(4) as usize * 2 + k / 12 % 2;
    let turn = (k + steep / 2) % 6;
    let ch = [1.0f32, 0.5][turn % 2];
    let ord = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [0, 2, 1], [2, 1, 0], [1, 0, 2]][turn];
    let (w, h) = (4u16, 3u16);
    let origin = [2.0f32, -8.0, -6.0];
    let up = 30.0f32;
    let mut f = field(w, h, origin, 1.0, ch, up);
    let mut y = [0i64; 3];
    let mut v = [Vec3A::ZERO; 3];
    // height above the bottom in 1/16, from below the field to above it; how much higher the other corners are
    let base = rv::range(0, 2047) as i32 - 768;
    let up12 = [(0, 5), (7, -9), (40, 3), (-31, -64), (150, 600), (-16, 32), (1, -1), (96, 96)][steep];
    for i in 0..3 {
        let r = base + [0, up12.0, up12.1][i];
        y[i] = r as i64;
        v[i] = Vec3A::new((t[i].0 + ox) as f32 + origin[0], r as f32 / 16.0 + origin[1], (t[i].1 + oz) as f32 + origin[2]);
    }
    let area = rv::u8();
    let r = f.rasterize_triangle([v[ord[0]], v[ord[1]], v[ord[2]]], AreaType(area), 1);
    rv::check(r.is_ok(), 1);
    for z in 0..h as i64 {
        for x in 0..w as i64 {
            let c = hf::read_column(&f, (x + z * w as i64) as usize, 4);
            let q = [(t[0].0 + ox, t[0].1 + oz), (t[1].0 + ox, t[1].1 + oz), (t[2].0 + ox, t[2].1 + oz)];
            let (b, e) = ((x, z), (x + 1, z + 1));
            if overlap(&q, b, e) <= 0 {
                if overlap(&q, b, e) < 0 {
                    rv::check(c.is_empty(), 3);
                }
                rv::check(c.len() <= 1, 4);
                continue;
            }
            let unit = D * if ch == 1.0 { 16 } else { 8 };
            let top = (up * 16.0) as i64 * D;
            let (lo, hi) = heights(&q, &y, b, e);
            // what sticks out of the field by less than a cell counts for the first cells
            let (lo2, hi2) = if x == 0 { heights(&q, &y, (-1, z), e) } else { (lo, hi) };
            let out = |lo: i64, hi: i64| (hi < 0) | (lo > top);
            let bottom = |lo: i64| lo.max(0).div_euclid(unit);
            let head = |hi: i64, min: i64| ((hi.min(top) + unit - 1).div_euclid(unit)).max(min + 1);
            rv::check(!c.is_empty() | out(lo, hi), 2);
            rv::check(c.is_empty() | !out(lo2, hi2), 5);
            if let Some(s) = c.first() {
                let (min, max) = (s.min as i64, s.max as i64);
                rv::check(c.len() == 1, 4);
                rv::check((min >= bottom(lo2)) & (min <= bottom(lo)), 6);
                rv::check((max >= head(hi, min)) & (max <= head(hi2, min)), 7);
                rv::check(s.area == area, 8);
                rv::cover(true, 1);
            }
        }
    }
}

/// odd cell sizes and origins, far away ones, corners on and next to cell boundaries; any height
#[unsafe(no_mangle)]
pub extern "C" fn h_raster_scale() {
    rv::policy(0);
    let k = rv::case(24) as usize;
    let (k, first) = (k / 4, k % 4);
    let (cs, o) = [(0.3f32, 0.0f32), (0.1, 0.0), (0.3, -7.3), (0.7, 0.35), (0.3, 1000.1), (1.0 / 3.0, 0.0)][k];
    let (w, h) = (6u16, 5u16);
    let origin = [o, 1.0f32, -o];
    let mut f = field(w, h, origin, cs, 0.5, 64.0);
    // corners at multiples of the cell size, as one would compute them, and next to them
    let at = |o: f32, i: usize| match i {
        0 => o,
        1 => o + cs,
        2 => o + 3.0 * cs,
        _ => f32::from_bits((o + 3.0 * cs).to_bits() - 1),
    };
    let mut c = [first, 0, 0, 0, 0, 0];
    for i in 1..6 {
        c[i] = rv::concretize(rv::range(0, 3) as u64) as usize;
    }
    let p = [(at(origin[0], c[0]), at(origin[2], c[1])), (at(origin[0], c[2]), at(origin[2], c[3])), (at(origin[0], c[4]), at(origin[2], c[5]))];
    if p[0] > p[1] || p[0] > p[2] {
        return;
    }
    let r = rv::u16() as i32;
    let y = r as f32 / 1024.0 + 1.0;
    let v = |i: usize| Vec3A::new(p[i].0, y, p[i].1);
    let area = rv::u8();
    let res = f.rasterize_triangle([v(0), v(1), v(2)], AreaType(area), 1);
    rv::check(res.is_ok(), 1);
    // in 1/65536 of a cell
    let g = |a: f32, o: f32| ((a as f64 - o as f64) / cs as f64 * 65536.0).round() as i64;
    let t = [(g(p[0].0, origin[0]), g(p[0].1, origin[2])), (g(p[1].0, origin[0]), g(p[1].1, origin[2])), (g(p[2].0, origin[0]), g(p[2].1, origin[2]))];
    // tolerance: a hundredth of a cell (single precision far from the origin)
    let e = 655;
    for z in 0..h as i64 {
        for x in 0..w as i64 {
            let c = hf::read_column(&f, (x + z * w as i64) as usize, 4);
            let (b, t0) = ((x * 65536, z * 65536), &t);
            let inner = overlap(t0, (b.0 + e, b.1 + e), (b.0 + 65536 - e, b.1 + 65536 - e)) > 0;
            let outer = overlap(t0, (b.0 - e, b.1 - e), (b.0 + 65536 + e, b.1 + 65536 + e)) >= 0;
            if inner {
                rv::check(c.len() == 1, 2);
            } else if !outer {
                rv::check(c.is_empty(), 3);
            }
            if let Some(s) = c.first() {
                rv::check(s.min as i32 == r / 512, 6);
                rv::check(s.max as i32 == r / 512 + 1, 7);
                rv::check(s.area == area, 8);
            }
        }
    }
}

/// fields at the limits: very tall, very wide, without cells
#[unsafe(no_mangle)]
pub extern "C" fn h_raster_limits() {
    rv::policy(0);
    let k = rv::case(6);
    let (w, h) = [(1u16, 1u16), (40000, 1), (1, 65535), (0, 3), (3, 0), (32768, 1)][k as usize];
    let ch = if k == 0 { 1.0f32 / 512.0 } else { 1.0 };
    let mut f = field(w, h, [0.0; 3], 1.0, ch, if k == 0 { 256.0 } else { 60000.0 });
    let (x, z) = (w.saturating_sub(1) as f32, h.saturating_sub(1) as f32);
    let r = rv::u16();
    let y = if k == 0 { r as f32 / 256.0 } else { r as f32 / 2.0 };
    let v = |a: f32, b: f32| Vec3A::new(x + a, y, z + b);
    let res = f.rasterize_triangle([v(0.0, 0.0), v(0.75, 0.0), v(0.0, 0.75)], AreaType(7), 1);
    rv::check(res.is_ok(), 1);
    if w == 0 || h == 0 {
        rv::check(f.allocated_spans.is_empty(), 3);
        return;
    }
    let n = w as usize * h as usize;
    for i in [0, n / 2, n - 1] {
        let c = hf::read_column(&f, i, 4);
        if i != n - 1 {
            rv::check(c.is_empty(), 3);
            continue;
        }
        // in cells: the height doubled for the tall field (one or two steps of the input per cell)
        let (lo, hi) = if k == 0 { (2 * r as u32, 2 * r as u32 + 1) } else { (r as u32 / 2, r as u32 / 2 + 1) };
        rv::check(c.len() == 1, 2);
        if let Some(s) = c.first() {
            rv::check(s.min < s.max, 9);
            rv::check((s.max as u32 == hi) | (hi > 65535), 7);
            rv::check((s.min as u32 == lo) | (lo > 65534), 6);
            rv::check(s.area == 7, 8);
        }
    }
}
