use crate::ctx::Ctx;
use ppt_rs::generator::slide_content::{CellMergeState, MergeRegion, TableMergeMap};

// oracle: a set of regions in exact (u128) arithmetic
type R = (u128, u128, u128, u128);
fn covers(g: &R, r: u128, c: u128) -> bool {
    g.0 <= r && r < g.0 + g.2 && g.1 <= c && c < g.1 + g.3
}
fn overlap(a: &R, b: &R) -> bool {
    a.0 < b.0 + b.2 && b.0 < a.0 + a.2 && a.1 < b.1 + b.3 && b.1 < a.1 + a.3
}
fn state(rs: &[R], r: u128, c: u128) -> CellMergeState {
    for g in rs {
        if covers(g, r, c) {
            return if g.0 == r && g.1 == c {
                CellMergeState::Anchor { row_span: g.2 as usize, col_span: g.3 as usize }
            } else if g.0 == r {
                CellMergeState::HMerge
            } else {
                CellMergeState::VMerge
            };
        }
    }
    CellMergeState::Normal
}

pub fn run(c: &mut Ctx) {
    c.rule = "random sequences of merge requests on grids up to 7x7 (plus extreme coordinates); non-trivial: at least one accepted and one rejected merge".into();
    let mut n = 0;
    while c.upto(n, 12000) {
        n += 1;
        let long = c.rng.chance(1, 12);
        let (rows, cols) = if long { (c.rng.range(6, 20), c.rng.range(3, 14)) } else { (c.rng.below(8), c.rng.below(8)) };
        let mut m = TableMergeMap::new(rows, cols);
        let mut rs: Vec<R> = vec![];
        let mut log = format!("TableMergeMap::new({rows},{cols})");
        let (mut ok, mut bad) = (0, 0);
        let steps = if long { c.rng.range(10, 60) } else { c.rng.range(1, 6) };
        for _ in 0..steps {
            let mut v = [c.rng.below(rows + 1), c.rng.below(cols + 1), c.rng.below(4), c.rng.below(4)];
            if c.rng.chance(1, 10) {
                let k = c.rng.below(4);
                v[k] = usize::MAX - c.rng.below(3);
            }
            let req: R = (v[0] as u128, v[1] as u128, v[2] as u128, v[3] as u128);
            let expect = v[2] > 0 && v[3] > 0 && req.0 + req.2 <= rows as u128 && req.1 + req.3 <= cols as u128 && !rs.iter().any(|g| overlap(g, &req));
            log.push_str(&format!(".merge_cells({},{},{},{})", v[0], v[1], v[2], v[3]));
            let via_region = c.rng.chance(1, 3);
            let r = c.guard("merge-panics", &log.clone(), || {
                if via_region {
                    MergeRegion::new(v[0], v[1], v[2], v[3]).and_then(|g| m.add_merge(g))
                } else {
                    m.merge_cells(v[0], v[1], v[2], v[3])
                }
            });
            let Some(r) = r else { break };
            if r.is_ok() != expect {
                c.fail("merge-accept", format!("merge accepted={} but a region is acceptable iff it is inside the table and disjoint from the others: {}", r.is_ok(), expect), log.clone());
                break;
            }
            if expect {
                rs.push(req);
                ok += 1;
            } else {
                bad += 1;
            }
            let got: Vec<R> = m.regions().iter().map(|g| (g.row as u128, g.col as u128, g.row_span as u128, g.col_span as u128)).collect();
            c.check(got == rs && m.len() == rs.len() && m.is_empty() == rs.is_empty() && m.dimensions() == (rows, cols), "merge-regions", || format!("stored regions {got:?} expected {rs:?}"), || log.clone());
            for r in 0..=rows {
                for cc in 0..=cols {
                    let e = state(&rs, r as u128, cc as u128);
                    let g = m.cell_state(r, cc);
                    if g != e {
                        c.fail("cell-state", format!("cell ({r},{cc}) is {g:?}, expected {e:?}"), log.clone());
                    }
                    c.check(g.is_merged_away() == matches!(e, CellMergeState::HMerge | CellMergeState::VMerge), "merged-away", || format!("cell ({r},{cc})"), || log.clone());
                    let x = match &e {
                        CellMergeState::Normal => String::new(),
                        CellMergeState::HMerge => " hMerge=\"1\"".into(),
                        CellMergeState::VMerge => " vMerge=\"1\"".into(),
                        CellMergeState::Anchor { row_span, col_span } => {
                            let mut s = String::new();
                            if *col_span > 1 { s += &format!(" gridSpan=\"{col_span}\"") }
                            if *row_span > 1 { s += &format!(" rowSpan=\"{row_span}\"") }
                            s
                        }
                    };
                    c.check(g.to_xml_attrs() == x, "merge-attrs", || format!("attrs of cell ({r},{cc}): {}", g.to_xml_attrs()), || log.clone());
                }
            }
        }
        c.case(&log, ok > 0 && bad > 0);
    }
    // region predicates on their own
    let mut n = 0;
    while c.upto(n, 20000) {
        n += 1;
        let mut g = || -> R { (c.rng.below(6) as u128, c.rng.below(6) as u128, c.rng.range(1, 4) as u128, c.rng.range(1, 4) as u128) };
        let (a, b) = (g(), g());
        let mk = |x: &R| MergeRegion::new(x.0 as usize, x.1 as usize, x.2 as usize, x.3 as usize).unwrap();
        let log = format!("MergeRegion {a:?} vs {b:?}");
        let (x, y) = (mk(&a), mk(&b));
        c.check(x.overlaps(&y) == overlap(&a, &b), "overlaps", || "overlaps disagrees with the cell sets".into(), || log.clone());
        let (r, cc) = (c.rng.below(9), c.rng.below(9));
        c.check(x.contains(r, cc) == covers(&a, r as u128, cc as u128), "contains", || format!("contains({r},{cc})"), || log.clone());
        c.check(x.is_anchor(r, cc) == (a.0 == r as u128 && a.1 == cc as u128), "anchor", || format!("is_anchor({r},{cc})"), || log.clone());
        c.case(&log, overlap(&a, &b));
    }
}
