//@include prelude.rs
//@opt forpath
verus! {
//@type MergeRegion
//@type CellMergeState
//@type TableMergeMap

pub open spec fn covers(g: MergeRegion, r: int, c: int) -> bool {
    g.row <= r < g.row + g.row_span && g.col <= c < g.col + g.col_span
}
pub open spec fn nonempty(g: MergeRegion) -> bool { g.row_span >= 1 && g.col_span >= 1 }
pub open spec fn inside(g: MergeRegion, rows: int, cols: int) -> bool {
    nonempty(g) && g.row + g.row_span <= rows && g.col + g.col_span <= cols
}
pub open spec fn overlap(a: MergeRegion, b: MergeRegion) -> bool {
    exists|r: int, c: int| covers(a, r, c) && covers(b, r, c)
}
pub open spec fn wf(m: TableMergeMap) -> bool {
    (forall|i: int| 0 <= i < m.regions@.len() ==> inside(#[trigger] m.regions@[i], m.rows as int, m.cols as int))
    && (forall|i: int, j: int| 0 <= i < j < m.regions@.len() ==> !overlap(#[trigger] m.regions@[i], #[trigger] m.regions@[j]))
}
// what a cell is, stated over the set of regions, not over the order they are stored in
pub open spec fn state_of(m: TableMergeMap, r: int, c: int, st: CellMergeState) -> bool {
    match st {
        CellMergeState::Normal => forall|i: int| 0 <= i < m.regions@.len() ==> !covers(#[trigger] m.regions@[i], r, c),
        CellMergeState::Anchor { row_span, col_span } => exists|i: int| 0 <= i < m.regions@.len() && (#[trigger] m.regions@[i]).row == r && m.regions@[i].col == c && m.regions@[i].row_span == row_span && m.regions@[i].col_span == col_span,
        CellMergeState::HMerge => exists|i: int| 0 <= i < m.regions@.len() && covers(#[trigger] m.regions@[i], r, c) && m.regions@[i].row == r && m.regions@[i].col < c,
        CellMergeState::VMerge => exists|i: int| 0 <= i < m.regions@.len() && covers(#[trigger] m.regions@[i], r, c) && m.regions@[i].row < r,
    }
}
pub open spec fn sat_last(a: usize, s: usize) -> int {
    if a + s - 1 > usize::MAX { usize::MAX as int } else { a + s - 1 }
}

//@fn MergeRegion::new
//@ ensures:
//@   vx_ret is Ok <==> (row_span >= 1 && col_span >= 1),
//@   vx_ret is Ok ==> vx_ret->Ok_0 == (MergeRegion { row, col, row_span, col_span }),
//@end
//@fn MergeRegion::last_row
//@ requires: nonempty(*self)
//@ ensures: vx_ret == sat_last(self.row, self.row_span)
//@end
//@fn MergeRegion::last_col
//@ requires: nonempty(*self)
//@ ensures: vx_ret == sat_last(self.col, self.col_span)
//@end
//@fn MergeRegion::contains
//@ requires: nonempty(*self)
//@ ensures: vx_ret == covers(*self, r as int, c as int)
//@end
//@fn MergeRegion::is_anchor
//@ ensures: vx_ret == (r == self.row && c == self.col)
//@end
//@fn MergeRegion::overlaps
//@ requires: nonempty(*self), nonempty(*other), self.row + self.row_span <= usize::MAX, other.row + other.row_span <= usize::MAX, self.col + self.col_span <= usize::MAX, other.col + other.col_span <= usize::MAX
//@ ensures: vx_ret == overlap(*self, *other)
//@ end:
//@   proof {
//@     let r0 = if self.row >= other.row { self.row as int } else { other.row as int };
//@     let c0 = if self.col >= other.col { self.col as int } else { other.col as int };
//@     if vx_r { assert(covers(*self, r0, c0) && covers(*other, r0, c0)); }
//@   }
//@end
//@fn TableMergeMap::new
//@ ensures: wf(vx_ret), vx_ret.rows == rows, vx_ret.cols == cols, vx_ret.regions@ == Seq::<MergeRegion>::empty()
//@end
//@fn TableMergeMap::add_merge
//@ requires: wf(*old(self)), nonempty(region)
//@ ensures:
//@   wf(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
//@   vx_ret is Ok <==> (inside(region, old(self).rows as int, old(self).cols as int) && forall|i: int| 0 <= i < old(self).regions@.len() ==> !overlap(#[trigger] old(self).regions@[i], region)),
//@   vx_ret is Ok ==> final(self).regions@ == old(self).regions@.push(region),
//@   vx_ret is Err ==> final(self).regions@ == old(self).regions@,
//@ loop 0 inv:
//@   wf(*self), *self == *old(self), nonempty(region), inside(region, self.rows as int, self.cols as int), vx_s0@ == self.regions@,
//@   forall|i: int| 0 <= i < vx_i0 ==> !overlap(#[trigger] self.regions@[i], region)
//@end
//@fn TableMergeMap::merge_cells
//@ requires: wf(*old(self))
//@ ensures:
//@   wf(*final(self)), final(self).rows == old(self).rows, final(self).cols == old(self).cols,
//@   vx_ret is Err ==> final(self).regions@ == old(self).regions@,
//@   vx_ret is Ok <==> (inside(MergeRegion { row, col, row_span, col_span }, old(self).rows as int, old(self).cols as int) && forall|i: int| 0 <= i < old(self).regions@.len() ==> !overlap(#[trigger] old(self).regions@[i], MergeRegion { row, col, row_span, col_span })),
//@   vx_ret is Ok ==> final(self).regions@ == old(self).regions@.push(MergeRegion { row, col, row_span, col_span }),
//@end
//@fn TableMergeMap::cell_state
//@ requires: wf(*self)
//@ ensures: state_of(*self, r as int, c as int, vx_ret)
//@ loop 0 inv:
//@   wf(*self), vx_s0@ == self.regions@,
//@   forall|i: int| 0 <= i < vx_i0 ==> !covers(#[trigger] self.regions@[i], r as int, c as int)
//@end
//@fn TableMergeMap::len
//@ ensures: vx_ret == self.regions@.len()
//@end
//@fn TableMergeMap::is_empty
//@ ensures: vx_ret == (self.regions@.len() == 0)
//@end
//@fn TableMergeMap::dimensions
//@ ensures: vx_ret == (self.rows, self.cols)
//@end
//@fn CellMergeState::is_merged_away
//@ ensures: vx_ret == (*self is HMerge || *self is VMerge)
//@end
//@fn CellMergeState::to_xml_attrs
//@ opt: noinline
//@ ensures:
//@   *self is Normal ==> vx_ret@.len() == 0,
//@   *self is HMerge ==> vx_ret@ == " hMerge=\"1\""@,
//@   *self is VMerge ==> vx_ret@ == " vMerge=\"1\""@,
//@   *self is Anchor ==> vx_ret@ == (if self->col_span > 1 { " gridSpan=\""@ + dec(self->col_span as nat) + "\""@ } else { Seq::empty() }) + (if self->Anchor_row_span > 1 { " rowSpan=\""@ + dec(self->Anchor_row_span as nat) + "\""@ } else { Seq::empty() }),
//@ end:
//@   proof { if *self is Anchor { assert(vx_r@ =~= (if self->col_span > 1 { " gridSpan=\""@ + dec(self->col_span as nat) + "\""@ } else { Seq::empty() }) + (if self->Anchor_row_span > 1 { " rowSpan=\""@ + dec(self->Anchor_row_span as nat) + "\""@ } else { Seq::empty() })); } }
//@end

// the state of a cell is unambiguous: no two answers satisfy state_of
proof fn lemma_state_unique(m: TableMergeMap, r: int, c: int, a: CellMergeState, b: CellMergeState)
    requires wf(m), state_of(m, r, c, a), state_of(m, r, c, b)
    ensures a == b
{
    assert forall|i: int, j: int| 0 <= i < m.regions@.len() && 0 <= j < m.regions@.len()
        && covers(#[trigger] m.regions@[i], r, c) && covers(#[trigger] m.regions@[j], r, c) implies i == j by {
        if i < j { assert(overlap(m.regions@[i], m.regions@[j])); }
        if j < i { assert(overlap(m.regions@[j], m.regions@[i])); }
    }
    if a is Anchor { let i = choose|i: int| 0 <= i < m.regions@.len() && (#[trigger] m.regions@[i]).row == r && m.regions@[i].col == c && m.regions@[i].row_span == a->Anchor_row_span && m.regions@[i].col_span == a->col_span; assert(covers(m.regions@[i], r, c)); }
    if b is Anchor { let i = choose|i: int| 0 <= i < m.regions@.len() && (#[trigger] m.regions@[i]).row == r && m.regions@[i].col == c && m.regions@[i].row_span == b->Anchor_row_span && m.regions@[i].col_span == b->col_span; assert(covers(m.regions@[i], r, c)); }
}
//%extras
} // verus!
fn main() {}
