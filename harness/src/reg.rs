//! Watershed regions.
use crate::chf::{NONE, Nb, neighbours, blank_chf, open_chf};
use crate::rv;
use rerecast::*;

/// connected components over `same(a, b)` links; returns component id per span and component sizes
fn components(n: usize, nb: &Nb, member: &[bool], same: &dyn Fn(usize, usize) -> bool) -> (Vec<usize>, Vec<usize>) {
    let mut id = vec![NONE; n];
    let mut size = Vec::with_capacity(n);
    let mut stack = Vec::with_capacity(n);
    for i in 0..n {
        if !member[i] || id[i] != NONE {
            continue;
        }
        let c = size.len();
        size.push(0);
        id[i] = c;
        stack.push(i);
        while let Some(j) = stack.pop() {
            size[c] += 1;
            for d in 0..4 {
                let k = nb.n[j][d];
                if k != NONE && member[k] && id[k] == NONE && same(j, k) {
                    id[k] = c;
                    stack.push(k);
                }
            }
        }
    }
    (id, size)
}

struct Expect {
    border: u16,
    min_area: u16,
    /// no region can enclose another one, so island sizes are exact
    exact: bool,
    /// the regions overlap themselves before any merging
    overlap: bool,
}

fn check_regions(before: &CompactHeightfield, chf: &CompactHeightfield, e: &Expect) {
    let n = before.spans.len();
    let nb = neighbours(before);
    let (w, h) = (before.width as usize, before.height as usize);
    rv::check(chf.border_size == e.border, 1);
    let mx = chf.max_region.bits();
    rv::check(mx < 0x8000, 2);
    let mut inside = vec![false; n];
    let b = e.border as usize;
    for i in 0..n {
        let (x, z) = (nb.cell[i] % w, nb.cell[i] / w);
        let on_border = x < b || z < b || x + b >= w || z + b >= h;
        let r = chf.spans[i].region;
        let walk = before.areas[i].0 != 0;
        rv::obs(r.bits() as u64);
        if !walk {
            rv::check(r == RegionId::NONE, 3);
        } else if on_border {
            rv::check(r.contains(RegionId::BORDER_REGION), 4);
        } else {
            inside[i] = true;
            rv::check(r.bits() <= mx, 5);
        }
        rv::check(chf.areas[i] == before.areas[i], 6);
        rv::check(chf.spans[i].data == before.spans[i].data && chf.spans[i].y == before.spans[i].y, 7);
    }
    rv::check(chf.dist == before.dist && chf.cells == before.cells, 7);
    // one area type per region
    for i in 0..n {
        for j in 0..i {
            if inside[i] && inside[j] && chf.spans[i].region != RegionId::NONE && chf.spans[i].region == chf.spans[j].region {
                rv::check(before.areas[i] == before.areas[j], 8);
                // no region covers a column twice
                rv::check(e.overlap || nb.cell[i] != nb.cell[j], 14);
            }
        }
    }
    // every region is connected: it is one component
    let (rid, rsize) = components(n, &nb, &inside, &|a, b| chf.spans[a].region == chf.spans[b].region);
    for i in 0..n {
        for j in 0..i {
            if inside[i] && inside[j] && chf.spans[i].region != RegionId::NONE && chf.spans[i].region == chf.spans[j].region {
                rv::check(rid[i] == rid[j], 9);
            }
        }
    }
    let _ = rsize;
    // islands
    let (iid, isize) = components(n, &nb, &inside, &|_, _| true);
    for c in 0..isize.len() {
        let mut touches = false;
        let mut any = false;
        let mut all = true;
        for i in 0..n {
            if iid[i] != c {
                continue;
            }
            for d in 0..4 {
                let k = nb.n[i][d];
                touches |= k != NONE && !inside[k] && before.areas[k].0 != 0;
            }
            let has = chf.spans[i].region != RegionId::NONE;
            any |= has;
            all &= has;
        }
        let small = isize[c] < e.min_area as usize;
        if small && !touches {
            rv::check(!any, 10);
        }
        // (a field in which every floor is at an edge has no watershed at all)
        let sheds = before.max_distance > 0;
        if sheds && (e.min_area == 0 || (e.exact && !small)) {
            rv::check(all, 11);
        }
        if sheds && e.exact && touches {
            rv::check(all, 12);
        }
    }
}

fn pattern(n: usize, kinds: u32) -> [u8; 16] {
    let first = rv::case(kinds * kinds * kinds);
    let mut code = 0u64;
    for i in 0..n {
        let c = if i < 3 { first / kinds.pow(i as u32) % kinds } else { rv::range(0, kinds - 1) };
        code = code * 4 + c as u64;
    }
    let code = rv::concretize(code);
    let mut v = [0u8; 16];
    for i in 0..n {
        v[i] = (code >> (2 * (n - 1 - i)) & 3) as u8;
    }
    v
}

fn regions(w: usize, h: usize, kinds: u32, bord: usize) {
    rv::policy(0);
    let v = pattern(w * h, kinds);
    let (fw, fh) = (w + 2 * bord, h + 2 * bord);
    let mut chf = open_chf(fw, fh, &vec![1; fw * fh]);
    let open = if bord > 0 { rv::case(3) } else { 0 };
    for z in 0..fh {
        for x in 0..fw {
            let inner = x >= bord && z >= bord && x < fw - bord && z < fh - bord;
            let a = if inner {
                v[(x - bord) + (z - bord) * w]
            } else {
                // border: walkable, unwalkable, or walkable only on one side
                match open {
                    0 => 1,
                    1 => 0,
                    _ => (x >= fw - bord) as u8,
                }
            };
            chf.areas[x + z * fw] = AreaType([0u8, 63, 20][a as usize]);
        }
    }
    chf.build_distance_field();
    let before = chf.clone();
    let (min_area, merge_area) = (rv::u16(), rv::u16());
    let ok = chf.build_regions(bord as u16, min_area, merge_area).is_ok();
    rv::check(ok, 13);
    check_regions(&before, &chf, &Expect { border: bord as u16, min_area, exact: kinds == 2, overlap: false });
    rv::cover(chf.spans[bord + bord * fw].region != RegionId::NONE, 1);
}

#[unsafe(no_mangle)]
pub extern "C" fn h_regions() {
    regions(4, 3, 2, 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_regions_areas() {
    regions(3, 3, 3, 0);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_regions_border() {
    regions(3, 2, 2, 1);
}

/// Two rooms with a partly open wall between them, or a ramp that winds around a pillar and ends above its own start.
fn rooms(k: u32) {
    rv::policy(0);
    let (mut chf, w, h, single);
    if k < 4 {
        (w, h) = (15usize, 7usize);
        chf = open_chf(w, h, &vec![1; w * h]);
        // openings as bits of the rows
        let wall = [[0u32, 1, 8, 12, 28, 62, 127, 64], [9, 65, 20, 54, 99, 85, 42, 107]][k as usize & 1][rv::concretize(rv::range(0, 7) as u64) as usize];
        let extra = rv::concretize(rv::range(0, 3) as u64);
        for z in 0..h {
            if wall >> z & 1 == 0 {
                chf.areas[7 + z * w] = AreaType(0);
            }
            if k >= 2 {
                for x in 8..w {
                    chf.areas[x + z * w] = AreaType(20);
                }
            }
        }
        for (b, c) in [2 + 2 * w, 11 + 3 * w].iter().enumerate() {
            if extra >> b & 1 != 0 {
                chf.areas[*c] = AreaType(0);
            }
        }
        single = k == 0 && wall != 0 && extra == 0;
    } else {
        // arms of width 7 (in distance) around a pillar
        const A: usize = 7;
        (w, h) = (2 * A + 1, 2 * A + 1);
        let mut counts = vec![1usize; w * h];
        for z in A + 1..h {
            for x in 0..A {
                counts[x + z * w] = 2;
            }
        }
        counts[A + A * w] = 0;
        chf = blank_chf(w, h, &counts);
        for z in 0..h {
            for x in 0..w {
                let at = chf.cells[x + z * w].index() as usize;
                for lv in 0..counts[x + z * w] {
                    for d in 0..4usize {
                        let (nx, nz) = (x as i32 + crate::chf::DX[d], z as i32 + crate::chf::DZ[d]);
                        if nx < 0 || nz < 0 || nx >= w as i32 || nz >= h as i32 || counts[nx as usize + nz as usize * w] == 0 {
                            continue;
                        }
                        let (nx, nz) = (nx as usize, nz as usize);
                        let (two, ntwo) = (counts[x + z * w] == 2, counts[nx + nz * w] == 2);
                        // the seam lies between rows A and A + 1 on the left
                        let seam = x < A && nx < A && two != ntwo;
                        let to = match (two, ntwo) {
                            (true, true) => Some(lv),
                            (false, false) => Some(0),
                            (true, false) => {
                                if seam == (lv == 1) { Some(0) } else { None }
                            }
                            (false, true) => Some(seam as usize),
                        };
                        if let Some(t) = to {
                            chf.spans[at + lv].set_con(d as u8, t as u8);
                        }
                    }
                }
            }
        }
        // walls across the arms leave doors
        let doors = rv::concretize(rv::range(0, 15) as u64);
        for z in 0..h {
            for x in 0..w {
                let at = chf.cells[x + z * w].index() as usize;
                let n = counts[x + z * w];
                let wall = (doors & 1 != 0 && z > A && x == A && z != A + 4)
                    || (doors & 2 != 0 && x > A && z == A && x != A + 4)
                    || (doors & 4 != 0 && z < A && x == A && z != 3)
                    || (doors & 8 != 0 && x < A && z == A && x != 3);
                if wall {
                    for i in at..at + n {
                        chf.areas[i] = AreaType(0);
                    }
                }
            }
        }
        single = false;
    }
    chf.build_distance_field();
    let before = chf.clone();
    let (min_area, merge_area) = (rv::u16(), rv::u16());
    let mut plain = chf.clone();
    let ok = chf.build_regions(0, min_area, merge_area).is_ok();
    rv::check(ok, 13);
    let ok = plain.build_regions(0, 0, 0).is_ok();
    rv::check(ok, 13);
    let n = before.spans.len();
    let nb = neighbours(&before);
    let mut overlap = false;
    for i in 1..n {
        let r = plain.spans[i].region;
        overlap |= nb.cell[i] == nb.cell[i - 1] && r != RegionId::NONE && r == plain.spans[i - 1].region;
    }
    check_regions(&before, &chf, &Expect { border: 0, min_area, exact: single, overlap });
    // merging
    let mut total = 0u32;
    let mut size = [0u32; 64];
    let mut used = [false; 64];
    for i in 0..n {
        let (r, f) = (plain.spans[i].region.bits() as usize, chf.spans[i].region.bits() as usize);
        rv::check(r < 64 && f < 64, 17);
        if r < 64 && f < 64 {
            size[r] += 1;
            used[f] = true;
        }
        total += (before.areas[i].0 != 0) as u32;
    }
    size[0] = 0;
    let mut m = 0;
    let mut pm = 0;
    for i in 1..64 {
        m += used[i] as u32;
        pm += (size[i] > 0) as u32;
    }
    if single {
        // everything that can be merged is merged
        rv::check(m <= 1 || (merge_area as u32) < total, 15);
    }
    if k < 4 {
        // large regions stay apart
        let mut seen = [0u16; 64];
        for i in 0..n {
            let (a, b) = (plain.spans[i].region.bits() as usize, chf.spans[i].region.bits());
            if a == 0 || a >= 64 || b == 0 || size[a] <= merge_area as u32 {
                continue;
            }
            for o in 1..64 {
                if o != a && size[o] > merge_area as u32 {
                    rv::check(seen[o] != b, 16);
                }
            }
            seen[a] = b;
        }
    }
    rv::cover(pm > 1 && !overlap, 2);
    rv::cover(m > 0 && m < pm, 3);
}
#[unsafe(no_mangle)]
pub extern "C" fn h_regions_rooms() {
    rooms(rv::case(5));
}
