//! Compact-heightfield stage: erosion, area marking, distance field.
use crate::rv;
use rerecast::*;

pub const DX: [i32; 4] = [-1, 0, 1, 0];
pub const DZ: [i32; 4] = [0, 1, 0, -1];

/// A compact heightfield with `counts[i]` spans in column `i` and symbolic neighbour links.
/// As compaction leaves it, a span links to at most one span per direction, and a linked span
/// links back into the column it was reached from.
pub fn sym_chf(w: usize, h: usize, counts: &[usize]) -> CompactHeightfield {
    let mut chf = blank_chf(w, h, counts);
    for z in 0..h {
        for x in 0..w {
            let i = x + z * w;
            if x + 1 < w {
                link(&mut chf, counts, i, i + 1, 2);
            }
            if z + 1 < h {
                link(&mut chf, counts, i, i + w, 1);
            }
        }
    }
    chf
}

pub fn blank_chf(w: usize, h: usize, counts: &[usize]) -> CompactHeightfield {
    let total: usize = counts.iter().sum();
    let mut chf = CompactHeightfield {
        width: w as u16,
        height: h as u16,
        walkable_height: 3,
        walkable_climb: 2,
        aabb: Aabb3d { min: glam::Vec3::ZERO, max: glam::Vec3::new(w as f32, 100.0, h as f32) },
        cell_size: 1.0,
        cell_height: 1.0,
        ..Default::default()
    };
    chf.cells = vec![CompactCell::default(); w * h];
    chf.spans = vec![CompactSpan::default(); total];
    chf.areas = vec![AreaType::DEFAULT_WALKABLE; total];
    let mut at = 0;
    for i in 0..w * h {
        chf.cells[i].set_index(at as u32);
        chf.cells[i].set_count(counts[i] as u8);
        for k in 0..counts[i] {
            chf.spans[at + k].y = 10 + 20 * k as u16;
            chf.spans[at + k].set_height(10);
            for d in 0..4 {
                chf.spans[at + k].set_con(d, None);
            }
        }
        at += counts[i];
    }
    chf
}

/// symbolic links between columns i and j, j in direction `d` of i (d is 1 or 2)
fn link(chf: &mut CompactHeightfield, counts: &[usize], i: usize, j: usize, d: u8) {
    let back = [2, 3, 0, 1][d as usize];
    let (bi, bj) = (chf.cells[i].index() as usize, chf.cells[j].index() as usize);
    let (ni, nj) = (counts[i], counts[j]);
    if ni == 0 || nj == 0 {
        return;
    }
    if ni == 1 && nj == 1 {
        let c = rv::boolean();
        let v = if c { 0u8 } else { 63 };
        chf.spans[bi].set_con(d, v);
        chf.spans[bj].set_con(back, v);
        return;
    }
    let mut f = Vec::with_capacity(4);
    let mut g = Vec::with_capacity(4);
    for k in 0..ni {
        let t = rv::range(0, nj as u32) as u8;
        let v = if t == nj as u8 { 63 } else { t };
        chf.spans[bi + k].set_con(d, v);
        f.push(v);
    }
    for k in 0..nj {
        let t = rv::range(0, ni as u32) as u8;
        let v = if t == ni as u8 { 63 } else { t };
        chf.spans[bj + k].set_con(back, v);
        g.push(v);
    }
    for k in 0..ni {
        for l in 0..nj {
            rv::assume((f[k] != l as u8) | (g[l] != 63));
            rv::assume((g[l] != k as u8) | (f[k] != 63));
        }
    }
}

/// neighbour span index of span `i` in cell `c`, usize::MAX for none, computed from the raw links
pub struct Nb {
    pub n: Vec<[usize; 4]>,
    pub cell: Vec<usize>,
}
pub const NONE: usize = usize::MAX;

pub fn neighbours(chf: &CompactHeightfield) -> Nb {
    let (w, h) = (chf.width as usize, chf.height as usize);
    let mut n = Vec::with_capacity(chf.spans.len());
    let mut cell = Vec::with_capacity(chf.spans.len());
    for z in 0..h {
        for x in 0..w {
            let c = chf.cells[x + z * w];
            for k in 0..c.count() as usize {
                let s = &chf.spans[c.index() as usize + k];
                let mut r = [NONE; 4];
                for d in 0..4u8 {
                    let (nx, nz) = (x as i32 + DX[d as usize], z as i32 + DZ[d as usize]);
                    if nx < 0 || nz < 0 || nx >= w as i32 || nz >= h as i32 {
                        continue;
                    }
                    let base = chf.cells[nx as usize + nz as usize * w].index() as usize;
                    r[d as usize] = match s.con(d) {
                        Some(v) => base + v as usize,
                        None => NONE,
                    };
                }
                n.push(r);
                cell.push(x + z * w);
            }
        }
    }
    Nb { n, cell }
}

fn at<T: Copy>(v: &[T], i: usize, dflt: T) -> T {
    if i == NONE { dflt } else { v[i] }
}
fn hop(nb: &Nb, i: usize, d: usize) -> usize {
    if i == NONE { NONE } else { nb.n[i][d] }
}

/// two-sweep chamfer distance (2 straight, 3 diagonal) from the given boundary spans
pub fn chamfer(nb: &Nb, boundary: &[bool]) -> Vec<u32> {
    let n = boundary.len();
    let inf = 1u32 << 20;
    let mut d: Vec<u32> = Vec::with_capacity(n);
    for b in boundary {
        d.push(if *b { 0 } else { inf });
    }
    for pass in 0..2 {
        let dirs: [(usize, usize); 2] = if pass == 0 { [(0, 3), (3, 2)] } else { [(2, 1), (1, 0)] };
        for j in 0..n {
            let i = if pass == 0 { j } else { n - 1 - j };
            // spans of one column are independent of each other, so their order does not matter
            let mut v = d[i];
            for (straight, turn) in dirs {
                let a = nb.n[i][straight];
                let da = at(&d, a, inf) + 2;
                v = if da < v { da } else { v };
                let b = hop(nb, a, turn);
                let db = at(&d, b, inf) + 3;
                v = if db < v { db } else { v };
            }
            d[i] = v;
        }
    }
    d
}

pub fn sym_areas(chf: &mut CompactHeightfield, kinds: u32) {
    let w = chf.width as usize;
    let holes = if kinds == 3 { rv::case(16) as usize } else { 0 };
    for (i, a) in chf.areas.iter_mut().enumerate() {
        if kinds == 3 {
            // four cells that may be unwalkable, one exploration per combination
            let at = [(1usize, 1usize), (5, 2), (3, 4), (3, 1)];
            let mut hole = false;
            for k in 0..4 {
                hole |= at[k] == (i % w, i / w) && holes >> k & 1 == 1;
            }
            *a = AreaType(if hole { 0 } else { 255 });
            continue;
        }
        *a = AreaType(match kinds {
            0 => rv::u8(),
            1 => if rv::boolean() { 255 } else { 0 },
            _ => [0u8, 1, 255][rv::range(0, 2) as usize],
        });
    }
}

pub fn layout(k: u32) -> (usize, usize, Vec<usize>) {
    match k {
        0 => (3, 3, vec![1; 9]),
        1 => (4, 3, vec![1; 12]),
        2 => (3, 3, vec![1, 1, 1, 1, 2, 1, 1, 1, 1]),
        3 => (2, 3, vec![2, 1, 1, 2, 0, 1]),
        4 => (3, 4, vec![1, 1, 1, 1, 1, 0, 1, 1, 1, 1, 1, 1]),
        5 => (4, 4, vec![1; 16]),
        6 => (5, 5, vec![1; 25]),
        7 => (3, 3, vec![1, 2, 1, 2, 2, 2, 1, 2, 1]),
        8 => (1, 1, vec![0]),
        9 => (5, 3, vec![1; 15]),
        11 => (7, 6, vec![1; 42]),
        _ => (1, 1, vec![1]),
    }
}

fn erode(k: u32, open: bool, kinds: u32, max_r: u32) {
    let (w, h, counts) = layout(k);
    let mut chf = if open { open_chf(w, h, &counts) } else { sym_chf(w, h, &counts) };
    sym_areas(&mut chf, kinds);
    let r = rv::range(0, max_r) as u16;
    let before = chf.clone();
    let nb = neighbours(&chf);
    chf.erode_walkable_area(r);
    let n = before.spans.len();
    let mut boundary = Vec::with_capacity(n);
    for i in 0..n {
        let mut b = before.areas[i].0 == 0;
        for d in 0..4 {
            let a = nb.n[i][d];
            b |= a == NONE;
            b |= at(&before.areas, a, AreaType(1)).0 == 0;
        }
        boundary.push(b);
    }
    let dist = chamfer(&nb, &boundary);
    let mut kept = false;
    for i in 0..n {
        let gone = dist[i] < 2 * r as u32;
        let e = if gone { 0 } else { before.areas[i].0 };
        rv::check(chf.areas[i].0 == e, 1);
        rv::check(chf.spans[i] == before.spans[i], 2);
        rv::obs(chf.areas[i].0 as u64);
        kept |= (r > 0) & (e != 0);
    }
    if k != 3 && k != 8 && k != 10 && k != 4 {
        rv::cover(kept, 1);
    }
    rv::check(chf.spans.len() == n && chf.areas.len() == n && chf.cells == before.cells, 3);
    rv::check(chf.width == before.width && chf.height == before.height && chf.dist == before.dist, 4);
}

/// all neighbouring columns linked
pub fn open_chf(w: usize, h: usize, counts: &[usize]) -> CompactHeightfield {
    let mut chf = blank_chf(w, h, counts);
    for z in 0..h {
        for x in 0..w {
            let i = x + z * w;
            if x + 1 < w {
                chf.spans[i].set_con(2, 0);
                chf.spans[i + 1].set_con(0, 0);
            }
            if z + 1 < h {
                chf.spans[i].set_con(1, 0);
                chf.spans[i + w].set_con(3, 0);
            }
        }
    }
    chf
}

#[unsafe(no_mangle)]
pub extern "C" fn h_erode() {
    let k = rv::case(6);
    erode([0, 1, 2, 3, 4, 8][k as usize], false, 0, 65535);
}
/// wide open field, so that distances beyond one cell occur; areas symbolic
#[unsafe(no_mangle)]
pub extern "C" fn h_erode_wide() {
    erode(11, true, 3, 65535);
}
/// a corridor long enough for large radii to matter: one row of concrete open cells, radius symbolic
#[unsafe(no_mangle)]
pub extern "C" fn h_erode_large() {
    let n = [257usize, 520][rv::case(2) as usize];
    let hh = 3usize;
    let mut chf = open_chf(n, hh, &vec![1; n * hh]);
    let r = rv::u16();
    chf.erode_walkable_area(r);
    for x in 0..n {
        // the middle row is one step from the boundary rows
        let d = if x == 0 || x == n - 1 { 0 } else { 2 };
        let e = if d < 2 * r as u32 { 0 } else { 255 };
        rv::check(chf.areas[n + x].0 == e, 1);
    }
}

fn distance(k: u32, open: bool, kinds: u32) {
    let (w, h, counts) = layout(k);
    let mut chf = if open { open_chf(w, h, &counts) } else { sym_chf(w, h, &counts) };
    sym_areas(&mut chf, kinds);
    let before = chf.clone();
    let nb = neighbours(&chf);
    chf.build_distance_field();
    let n = before.spans.len();
    let mut boundary = Vec::with_capacity(n);
    for i in 0..n {
        let mut b = false;
        for d in 0..4 {
            let a = nb.n[i][d];
            b |= a == NONE;
            b |= at(&before.areas, a, before.areas[i]) != before.areas[i];
        }
        boundary.push(b);
    }
    let dist = chamfer(&nb, &boundary);
    let mut mx = 0u32;
    for i in 0..n {
        mx = if dist[i] > mx { dist[i] } else { mx };
    }
    rv::check(chf.max_distance as u32 == mx, 1);
    rv::check(chf.dist.len() == n, 2);
    if chf.dist.len() != n {
        return;
    }
    for i in 0..n {
        // 3x3 average over the spans reached clockwise, missing ones counted as the centre
        let c = dist[i];
        let mut sum = c;
        for d in 0..4 {
            let a = nb.n[i][d];
            sum += at(&dist, a, c);
            let b = hop(&nb, a, (d + 1) % 4);
            sum += at(&dist, b, c);
        }
        let e = if c <= 2 { c } else { (sum + 5) / 9 };
        rv::check(chf.dist[i] as u32 == e, 3);
        rv::obs(chf.dist[i] as u64);
    }
    rv::obs(chf.max_distance as u64);
    rv::check(chf.areas == before.areas, 4);
    rv::check(chf.spans.len() == n, 5);
    for i in 0..n {
        rv::check(chf.spans[i] == before.spans[i], 6);
    }
    if k == 6 {
        rv::cover(mx > 2, 1);
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_distance() {
    let k = rv::case(6);
    distance([0, 1, 2, 3, 4, 8][k as usize], false, 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_distance_wide() {
    distance(6, true, 1);
}

/// chamfer distance of a cell of an open rectangle from its edge
fn edge_distance(x: usize, z: usize, w: usize, h: usize) -> u32 {
    let a = if x < w - 1 - x { x } else { w - 1 - x };
    let b = if z < h - 1 - z { z } else { h - 1 - z };
    2 * (if a < b { a } else { b }) as u32
}

/// open square fields wide enough for distances beyond one byte, with a wall at a symbolic distance of a corner
#[unsafe(no_mangle)]
pub extern "C" fn h_distance_large() {
    rv::policy(0);
    let (w, h) = [(270usize, 270usize), (262, 300)][rv::case(2) as usize];
    let mut chf = open_chf(w, h, &vec![1; w * h]);
    let wall = rv::boolean();
    if wall {
        chf.areas[1 + w] = AreaType(0);
    }
    chf.build_distance_field();
    let m = edge_distance(w / 2, h / 2, w, h);
    rv::check(chf.max_distance as u32 == m, 1);
    for k in [120usize, 126, 128, 129] {
        // cells on the middle row, away from the places where the distances fold
        let (x, z) = (k, h / 2);
        let d = edge_distance(x, z, w, h);
        if (x + 2) * 2 < w && edge_distance(x + 1, z - 1, w, h) == d + 2 && edge_distance(x + 1, z + 1, w, h) == d + 2 {
            // the neighbours' distances average out
            rv::check(chf.dist[x + z * w] as u32 == d, 3);
        }
        rv::obs(chf.dist[x + z * w] as u64);
    }
    rv::check(chf.dist[0] == 0, 3);
}
/// erosion deep inside an open field, all radii
#[unsafe(no_mangle)]
pub extern "C" fn h_erode_deep() {
    let n = 265usize;
    let mut chf = open_chf(n, n, &vec![1; n * n]);
    let r = rv::u16();
    chf.erode_walkable_area(r);
    for x in 0..n {
        for z in [x, n / 2] {
            let keep = edge_distance(x, z, n, n) >= 2 * r as u32;
            rv::check((chf.areas[x + z * n].0 != 0) == keep, 1);
        }
    }
}
