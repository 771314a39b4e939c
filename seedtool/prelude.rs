#![allow(dead_code, unused_imports)]
use glam::{U16Vec3, UVec3, Vec2, Vec3A};
use rerecast::*;

/// a heightfield of unit cells; per column (x + z * w) spans (min, max, area) bottom first
pub fn field(w: u16, h: u16, cols: &[Vec<(u16, u16, u8)>]) -> Heightfield {
    let mut hf = Heightfield {
        width: w,
        height: h,
        cell_size: 1.0,
        cell_height: 1.0,
        spans: vec![None; w as usize * h as usize],
        ..Default::default()
    };
    hf.aabb.max.x = w as f32;
    hf.aabb.max.y = 100.0;
    hf.aabb.max.z = h as f32;
    for (i, c) in cols.iter().enumerate() {
        let mut next = None;
        for &(min, max, area) in c.iter().rev() {
            next = Some(hf.allocated_spans.insert(Span { min, max, area: AreaType(area), next }));
        }
        hf.spans[i] = next;
    }
    hf
}
pub fn column(hf: &Heightfield, i: usize) -> Vec<(u16, u16, u8)> {
    let mut v = vec![];
    let mut k = hf.spans[i];
    while let Some(key) = k {
        let s = hf.span(key);
        v.push((s.min, s.max, s.area.0));
        k = s.next;
    }
    v
}
/// a flat field of linked floors with the given area types
pub fn flat(w: u16, h: u16, areas: &[u8]) -> CompactHeightfield {
    let n = w as usize * h as usize;
    let cols: Vec<_> = (0..n).map(|_| vec![(0u16, 10u16, 63u8)]).collect();
    let mut c = field(w, h, &cols).into_compact(2, 2).unwrap();
    for i in 0..n {
        c.areas[i] = AreaType(areas[i]);
    }
    c
}
