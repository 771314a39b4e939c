//! Heightfield stage: span insertion, pre-filters, compaction.
use crate::rv;
use rerecast::*;

pub fn empty_hf(w: u16, h: u16) -> Heightfield {
    Heightfield {
        width: w,
        height: h,
        aabb: Aabb3d { min: glam::Vec3::ZERO, max: glam::Vec3::new(w as f32, 100.0, h as f32) },
        cell_size: 1.0,
        cell_height: 1.0,
        spans: vec![None; w as usize * h as usize],
        allocated_spans: Spans::default(),
    }
}

#[derive(Clone, Copy, PartialEq, Default)]
pub struct S {
    pub min: u16,
    pub max: u16,
    pub area: u8,
}

/// `n` symbolic spans of one column, bottom first, pairwise disjoint and not touching, as insertion leaves them
pub fn sym_column(n: usize, any_area: bool) -> Vec<S> {
    let mut v: Vec<S> = Vec::with_capacity(8);
    for i in 0..n {
        let min = rv::u16();
        let max = rv::u16();
        let area = if any_area { rv::u8() } else { if rv::boolean() { 255 } else { 0 } };
        rv::assume(min < max);
        if i > 0 {
            rv::assume(v[i - 1].max < min);
        }
        v.push(S { min, max, area });
    }
    v
}

/// append a column to the heightfield (spans allocated bottom first)
pub fn put_column(hf: &mut Heightfield, col: usize, v: &[S]) {
    let mut next = None;
    for s in v.iter().rev() {
        next = Some(hf.allocated_spans.insert(Span { min: s.min, max: s.max, area: AreaType(s.area), next }));
    }
    hf.spans[col] = next;
}

pub fn read_column(hf: &Heightfield, col: usize, limit: usize) -> Vec<S> {
    let mut out = Vec::with_capacity(8);
    let mut k = hf.spans[col];
    while let Some(key) = k {
        let s = hf.span(key);
        out.push(S { min: s.min, max: s.max, area: s.area.0 });
        k = s.next;
        rv::check(out.len() <= limit, 90);
        if out.len() > limit {
            break;
        }
    }
    out
}

fn add_span(pre: usize) {
    let a = sym_column(pre, true);
    let other = sym_column(1, true);
    let (nmin, nmax, narea, thr) = (rv::u16(), rv::u16(), rv::u8(), rv::u16());
    rv::assume(nmin < nmax);
    let mut hf = empty_hf(2, 1);
    put_column(&mut hf, 0, &a);
    put_column(&mut hf, 1, &other);
    let ok = hf.verif_add_span(0, 0, nmin, nmax, AreaType(narea), thr).is_ok();
    rv::check(ok, 1);
    let got = read_column(&hf, 0, pre + 1);
    // expected: everything the new block touches collapses into one block
    let mut m = S { min: nmin, max: nmax, area: narea };
    let mut exp: Vec<S> = Vec::with_capacity(8);
    let mut merged = 0;
    for s in a.iter() {
        let touch = s.min <= nmax && s.max >= nmin;
        if touch {
            merged += 1;
            m.min = if s.min < m.min { s.min } else { m.min };
            m.max = if s.max > m.max { s.max } else { m.max };
            if m.max as u32 - s.max as u32 <= thr as u32 {
                m.area = if s.area > m.area { s.area } else { m.area };
            }
        }
    }
    rv::cover(merged == pre, 1);
    rv::cover(merged == 0, 2);
    for s in a.iter() {
        if s.max < nmin {
            exp.push(*s);
        }
    }
    exp.push(m);
    for s in a.iter() {
        if s.min > nmax {
            exp.push(*s);
        }
    }
    rv::check(got.len() == exp.len(), 2);
    if got.len() == exp.len() {
        for i in 0..exp.len() {
            rv::check((got[i].min == exp[i].min) & (got[i].max == exp[i].max), 3);
            rv::check(got[i].area == exp[i].area, 4);
            rv::obs(got[i].min as u64);
            rv::obs(got[i].max as u64);
            rv::obs(got[i].area as u64);
        }
    }
    let o = read_column(&hf, 1, 1);
    rv::check(o.len() == 1 && o[0] == other[0], 5);
    rv::check(hf.allocated_spans.len() == got.len() + 1, 6);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_add_span() {
    rv::policy(0);
    let n = rv::case(4);
    add_span(n as usize);
}

// ---------------------------------------------------------------------------------------------
// pre-filters

/// heightfield columns as plain data, read and written through the public interface
fn put_all(hf: &mut Heightfield, cols: &[Vec<S>]) {
    for (i, c) in cols.iter().enumerate() {
        put_column(hf, i, c);
    }
}
/// nothing but areas may differ
fn check_shape(hf: &Heightfield, cols: &[Vec<S>]) -> Vec<Vec<S>> {
    let mut out = Vec::with_capacity(16);
    let mut total = 0;
    for (i, c) in cols.iter().enumerate() {
        let g = read_column(hf, i, c.len());
        rv::check(g.len() == c.len(), 91);
        for k in 0..c.len().min(g.len()) {
            rv::check((g[k].min == c[k].min) & (g[k].max == c[k].max), 92);
            rv::obs(g[k].area as u64);
        }
        total += g.len();
        out.push(g);
    }
    rv::check(hf.allocated_spans.len() == total, 93);
    out
}

fn low_hanging_expected(c: &[S], climb: u16) -> Vec<u8> {
    let mut v = Vec::with_capacity(8);
    for i in 0..c.len() {
        let mut a = c[i].area;
        if i > 0 {
            let b = c[i - 1];
            let lift = (c[i].area == 0) & (b.area != 0) & ((c[i].max as i32 - b.max as i32) <= climb as i32);
            a = if lift { b.area } else { a };
        }
        v.push(a);
    }
    v
}

#[unsafe(no_mangle)]
pub extern "C" fn h_low_hanging() {
    let n = rv::case(5) as usize;
    let c0 = sym_column(n, true);
    let c1 = sym_column(2, true);
    let climb = rv::u16();
    let cols = [c0, c1];
    let mut hf = empty_hf(2, 1);
    put_all(&mut hf, &cols);
    hf.filter_low_hanging_walkable_obstacles(climb);
    let got = check_shape(&hf, &cols);
    for (c, g) in cols.iter().zip(got.iter()) {
        let e = low_hanging_expected(c, climb);
        for i in 0..c.len().min(g.len()) {
            rv::check(g[i].area == e[i], 1);
            rv::cover(e[i] != c[i].area, 1);
        }
    }
}

fn ceiling(c: &[S], i: usize) -> i32 {
    if i + 1 < c.len() { c[i + 1].min as i32 } else { 65535 }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_low_height() {
    let n = rv::case(5) as usize;
    let c0 = sym_column(n, true);
    let c1 = sym_column(2, true);
    let wh = rv::u16();
    let cols = [c0, c1];
    let mut hf = empty_hf(1, 2);
    put_all(&mut hf, &cols);
    hf.filter_walkable_low_height_spans(wh);
    let got = check_shape(&hf, &cols);
    for (c, g) in cols.iter().zip(got.iter()) {
        for i in 0..c.len().min(g.len()) {
            let room = ceiling(c, i) - c[i].max as i32;
            let e = if room < wh as i32 { 0 } else { c[i].area };
            rv::check(g[i].area == e, 1);
            rv::cover((e != c[i].area) & (i == 0), 1);
            rv::cover((e != 0) & (i == 0), 2);
        }
    }
}

/// is span `i` of column `c` next to a ledge, given the four neighbour columns (None: outside the field)
fn is_ledge(c: &[S], i: usize, nb: &[Option<&Vec<S>>], wh: u16, climb: u16) -> bool {
    let (wh, climb) = (wh as i32, climb as i32);
    let floor = c[i].max as i32;
    let top = ceiling(c, i);
    let mut drop = false; // an agent-sized opening leads further down than it can step
    let (mut lo, mut hi) = (floor, floor); // reachable neighbour floors
    for n in nb {
        let Some(n) = n else {
            drop = true;
            continue;
        };
        // the space under the lowest neighbour span reaches down to the bottom of the field
        let under = if n.is_empty() { 65535 } else { n[0].min as i32 };
        drop |= top.min(under) - floor >= wh;
        for k in 0..n.len() {
            let nf = n[k].max as i32;
            let nt = ceiling(n, k);
            let open = top.min(nt) - floor.max(nf) >= wh;
            let d = nf - floor;
            drop |= open & (d < -climb);
            let step = open & (d.abs() <= climb);
            lo = if step { lo.min(nf) } else { lo };
            hi = if step { hi.max(nf) } else { hi };
        }
    }
    drop | (hi - lo > climb)
}

fn ledge(counts: [usize; 5]) {
    // centre, then -x, +z, +x, -z
    let idx = [4usize, 3, 7, 5, 1];
    let mut cols: Vec<Vec<S>> = Vec::with_capacity(9);
    for _ in 0..9 {
        cols.push(Vec::with_capacity(0));
    }
    for k in 0..5 {
        cols[idx[k]] = sym_column(counts[k], true);
    }
    let (wh, climb) = (rv::u16(), rv::u16());
    let mut hf = empty_hf(3, 3);
    put_all(&mut hf, &cols);
    hf.filter_ledge_spans(wh, climb);
    let got = check_shape(&hf, &cols);
    let mut any_kept = false;
    let mut any_cut = false;
    for z in 0..3usize {
        for x in 0..3usize {
            let i = x + z * 3;
            let nb = [
                if x > 0 { Some(&cols[i - 1]) } else { None },
                if z < 2 { Some(&cols[i + 3]) } else { None },
                if x < 2 { Some(&cols[i + 1]) } else { None },
                if z > 0 { Some(&cols[i - 3]) } else { None },
            ];
            for k in 0..cols[i].len().min(got[i].len()) {
                let w = cols[i][k].area;
                let l = is_ledge(&cols[i], k, &nb, wh, climb);
                let e = if l { 0 } else { w };
                rv::check(got[i][k].area == e, 1);
                if i == 4 {
                    any_kept |= e != 0;
                    any_cut |= e != w;
                }
            }
        }
    }
    rv::cover(any_kept, 1);
    rv::cover(any_cut, 2);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_ledge() {
    let k = rv::case(9);
    match k {
        0 => ledge([1, 1, 1, 1, 1]),
        1 => ledge([2, 1, 1, 1, 1]),
        2 => ledge([1, 2, 1, 1, 0]),
        3 => ledge([2, 2, 1, 0, 0]),
        4 => ledge([1, 2, 1, 1, 1]),
        5 => ledge([1, 1, 2, 1, 1]),
        6 => ledge([1, 1, 1, 2, 1]),
        7 => ledge([1, 1, 1, 1, 2]),
        _ => ledge([1, 2, 2, 1, 1]),
    }
}

/// populating with no triangles runs exactly the three filters in their documented order
#[unsafe(no_mangle)]
pub extern "C" fn h_populate_filters() {
    let idx = [4usize, 3, 7, 5, 1];
    let counts = [2usize, 1, 1, 1, 1];
    let mut cols: Vec<Vec<S>> = Vec::with_capacity(9);
    for _ in 0..9 {
        cols.push(Vec::with_capacity(0));
    }
    for k in 0..5 {
        cols[idx[k]] = sym_column(counts[k], true);
    }
    let (wh, climb) = (rv::u16(), rv::u16());
    let mut a = empty_hf(3, 3);
    put_all(&mut a, &cols);
    let mut b = empty_hf(3, 3);
    put_all(&mut b, &cols);
    let ok = a.populate_from_trimesh(TriMesh::default(), wh, climb).is_ok();
    rv::check(ok, 2);
    b.filter_low_hanging_walkable_obstacles(climb);
    b.filter_ledge_spans(wh, climb);
    b.filter_walkable_low_height_spans(wh);
    let ga = check_shape(&a, &cols);
    let gb = check_shape(&b, &cols);
    for i in 0..9 {
        for k in 0..ga[i].len().min(gb[i].len()) {
            rv::check(ga[i][k].area == gb[i][k].area, 1);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// compaction

fn expected_open(c: &[S]) -> Vec<(u16, u8, u8)> {
    // (floor, clearance capped at 255, area) for every walkable span, bottom first
    let mut v = Vec::with_capacity(8);
    for i in 0..c.len() {
        let room = ceiling(c, i) - c[i].max as i32;
        v.push((c[i].max, if room > 255 { 255 } else { room as u8 }, c[i].area));
    }
    v
}

fn compact(w: usize, h: usize, counts: &[usize], wh: u16, climb: u16, what: u32) {
    // which spans are walkable is a concrete branch so that the span count is concrete
    let mut cols: Vec<Vec<S>> = Vec::with_capacity(9);
    for k in 0..w * h {
        let c = sym_column(counts[k], true);
        if what == 2 {
            for s in &c {
                rv::assume(s.area != 0);
            }
        }
        cols.push(c);
    }
    let total: usize = counts.iter().sum();
    let mask = rv::concretize({
        let mut m = 0u64;
        let mut b = 0;
        for c in &cols {
            for s in c {
                m |= ((s.area != 0) as u64) << b;
                b += 1;
            }
        }
        m
    });
    let _ = total;
    let mut hf = empty_hf(w as u16, h as u16);
    hf.cell_size = 0.5;
    hf.cell_height = 0.25;
    put_all(&mut hf, &cols);
    let before = hf.clone();
    let r = hf.into_compact(wh, climb);
    rv::check(r.is_ok(), 1);
    let Ok(chf) = r else { return };
    let mut exp: Vec<Vec<(u16, u8, u8)>> = Vec::with_capacity(9);
    let mut b = 0;
    for c in &cols {
        let e = expected_open(c);
        let mut v = Vec::with_capacity(4);
        for x in e {
            if mask >> b & 1 == 1 {
                v.push(x);
            }
            b += 1;
        }
        exp.push(v);
    }
    let walk = mask.count_ones() as usize;
    rv::check(chf.spans.len() == walk && chf.areas.len() == walk, 2);
    rv::check(chf.cells.len() == w * h, 3);
    rv::check(chf.width == w as u16 && chf.height == h as u16, 4);
    rv::check(chf.walkable_height == wh && chf.walkable_climb == climb, 5);
    rv::check(chf.cell_size == 0.5 && chf.cell_height == 0.25, 6);
    rv::check(chf.border_size == 0 && chf.max_distance == 0 && chf.max_region == RegionId::NONE && chf.dist.is_empty(), 7);
    rv::check(chf.aabb.min == before.aabb.min && chf.aabb.max.x == before.aabb.max.x && chf.aabb.max.z == before.aabb.max.z, 8);
    if chf.spans.len() != walk || chf.cells.len() != w * h {
        return;
    }
    let mut at = 0usize;
    for z in 0..h {
        for x in 0..w {
            let i = x + z * w;
            let cell = chf.cell_at(x as u16, z as u16);
            rv::check(cell.count() as usize == exp[i].len(), 10);
            rv::check(exp[i].is_empty() || cell.index() as usize == at, 11);
            for k in 0..exp[i].len() {
                let s = &chf.spans[at + k];
                let (y, hgt, area) = exp[i][k];
                rv::check(s.y == y, 12);
                rv::check(s.height() == hgt, 13);
                rv::check(chf.areas[at + k].0 == area, 14);
                rv::check(s.region == RegionId::NONE, 15);
                rv::obs(s.data as u64);
                if what > 0 {
                    for dir in 0..4u8 {
                        let (dx, dz) = [(-1i32, 0i32), (0, 1), (1, 0), (0, -1)][dir as usize];
                        let (nx, nz) = (x as i32 + dx, z as i32 + dz);
                        let con = s.con(dir);
                        let con: u8 = match con {
                            Some(c) => c,
                            None => 255,
                        };
                        if nx < 0 || nz < 0 || nx >= w as i32 || nz >= h as i32 {
                            rv::check(con == 255, 20);
                            continue;
                        }
                        let n = &exp[nx as usize + nz as usize * w];
                        let mut e: u8 = 255;
                        // the clearances are what the field reports; check 13 decides that they are right
                        let hgt = s.height();
                        let mut nat = 0usize;
                        for c in exp.iter().take(nx as usize + nz as usize * w) {
                            nat += c.len();
                        }
                        for (q, (ny, _, _)) in n.iter().enumerate() {
                            let nh = &chf.spans[nat + q].height();
                            let bot = if *ny > y { *ny } else { y } as i32;
                            let t0 = y as i32 + hgt as i32;
                            let t1 = *ny as i32 + *nh as i32;
                            let top = if t0 < t1 { t0 } else { t1 };
                            let d = *ny as i32 - y as i32;
                            let ok = (top - bot >= wh as i32) & (d <= climb as i32) & (-d <= climb as i32);
                            e = if (e == 255) & ok { q as u8 } else { e };
                        }
                        rv::check(con == e, 21);
                        rv::cover(e != 255, 1);
                    }
                }
            }
            at += exp[i].len();
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_compact() {
    let k = rv::case(3);
    let (wh, climb) = (rv::u16(), rv::u16());
    match k {
        0 => compact(2, 2, &[1, 0, 2, 1], wh, climb, 0),
        1 => compact(1, 1, &[4], wh, climb, 0),
        _ => compact(3, 1, &[0, 3, 1], wh, climb, 0),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_connect() {
    let k = rv::case(4);
    let (wh, climb) = (rv::u16(), rv::u16());
    match k {
        0 => compact(2, 1, &[2, 2], wh, climb, 2),
        1 => compact(1, 2, &[1, 2], wh, climb, 1),
        2 => compact(2, 2, &[1, 1, 1, 1], wh, climb, 1),
        _ => compact(3, 1, &[1, 1, 1], wh, climb, 1),
    }
}

/// many layers: a tall column next to one with `n` spans, of which a symbolic one is reachable
#[unsafe(no_mangle)]
pub extern "C" fn h_layers() {
    let n = 58 + rv::case(8) as usize;
    let which = rv::range(0, n as u32 - 1) as usize;
    let wh = 3u16;
    let mut a = Vec::with_capacity(80);
    let mut b = Vec::with_capacity(80);
    let y = 10 * which as u16 + 5;
    a.push(S { min: y - 1, max: y, area: 7 });
    for i in 0..n {
        // clearance 8 for each
        b.push(S { min: 10 * i as u16 + 3, max: 10 * i as u16 + 5, area: 9 });
    }
    let mut hf = empty_hf(2, 1);
    put_column(&mut hf, 0, &a);
    put_column(&mut hf, 1, &b);
    let r = hf.into_compact(wh, 0);
    rv::cover(which >= 61, 1);
    match r {
        Ok(chf) => {
            let con = chf.spans[0].con(2);
            rv::check(con == Some(which as u8), 1);
            for k in 0..n {
                let c = chf.spans[1 + k].con(0);
                rv::check(c == if k == which { Some(0) } else { None }, 2);
            }
            rv::check(which <= 62, 3);
            rv::obs(chf.spans[0].data as u64);
        }
        Err(_) => {
            // an error is only acceptable when the layer cannot be represented
            rv::check(which > 62, 4);
        }
    }
}

/// more walkable spans in one column than the cell can count
#[unsafe(no_mangle)]
pub extern "C" fn h_column_count() {
    let n = [254usize, 255, 256, 257][rv::case(4) as usize];
    let area = rv::u8();
    rv::assume(area != 0);
    let wh = rv::u16();
    let mut v = Vec::with_capacity(300);
    for i in 0..n {
        v.push(S { min: 4 * i as u16 + 1, max: 4 * i as u16 + 2, area });
    }
    let mut hf = empty_hf(1, 1);
    put_column(&mut hf, 0, &v);
    match hf.into_compact(wh, 0) {
        Ok(chf) => {
            rv::check(chf.cells[0].count() as usize == n, 1);
            rv::check(chf.spans.len() == n, 2);
        }
        Err(_) => rv::check(n > 255, 3),
    }
}

/// CompactSpan packing: every setter is read back and leaves the other fields alone
#[unsafe(no_mangle)]
pub extern "C" fn h_packing() {
    let data = rv::u32();
    let y = rv::u16();
    let (d, v, hgt) = (rv::range(0, 3) as u8, rv::range(0, 63) as u8, rv::u8());
    let none = rv::boolean();
    let s = CompactSpan { y, region: RegionId::NONE, data };
    let mut t = s.clone();
    t.set_con(d, if none { None } else { Some(v) });
    for e in 0..4u8 {
        let got = t.con(e);
        let exp = if e == d { if none | (v == 63) { None } else { Some(v) } } else { s.con(e) };
        rv::check(got == exp, 1);
    }
    rv::check(t.height() == s.height(), 2);
    rv::check(t.y == y && t.region == RegionId::NONE, 3);
    let mut u = s.clone();
    u.set_height(hgt);
    rv::check(u.height() == hgt, 4);
    for e in 0..4u8 {
        rv::check(u.con(e) == s.con(e), 5);
    }
    rv::obs(t.data as u64);
    rv::obs(u.data as u64);
    let mut c = CompactCell::default();
    let (i, n) = (rv::u32(), rv::u8());
    c.set_index(i);
    c.set_count(n);
    rv::check(c.index() == i && c.count() == n, 6);
    let r = c.index_range();
    rv::check(r.start == i as usize && r.end == i as usize + n as usize, 7);
    rv::assume(n < 255);
    c.inc_count();
    rv::check(c.index() == i && c.count() == n + 1, 8);
}
