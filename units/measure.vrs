//@include prelude.rs
//@lits
//@opt remap_max
//@opt remap_min
verus! {
pub trait VxAbsDiff: Sized { spec fn adv(self) -> int; fn vx_abs_diff(self, o: Self) -> (r: Self) ensures r.adv() == (if self.adv() <= o.adv() { o.adv() - self.adv() } else { self.adv() - o.adv() }); }
impl VxAbsDiff for u32 { open spec fn adv(self) -> int { self as int } fn vx_abs_diff(self, o: u32) -> (r: u32) { if self <= o { o - self } else { self - o } } }
//@type core/placement.rs|ElementPlacement
//@fn core/placement.rs|ElementPlacement::new
//@ ensures: vx_ret == (ElementPlacement { x: 0, y: 0, width: 0, height: 0 })
//@end
//@fn core/placement.rs|ElementPlacement::with_position
//@ ensures: vx_ret == (ElementPlacement { x, y, width: self.width, height: self.height })
//@end
//@fn core/placement.rs|ElementPlacement::with_size
//@ ensures: vx_ret == (ElementPlacement { x: self.x, y: self.y, width, height })
//@end
//@fn core/placement.rs|ElementPlacement::set_position
//@ ensures: *final(self) == (ElementPlacement { x, y, width: old(self).width, height: old(self).height })
//@end
//@fn core/placement.rs|ElementPlacement::set_size
//@ ensures: *final(self) == (ElementPlacement { x: old(self).x, y: old(self).y, width, height })
//@end
//@type generator/connectors.rs|Connector only start_x,start_y,end_x,end_y
//@fn generator/connectors.rs|Connector::width
//@ ensures: vx_ret == (if self.start_x <= self.end_x { self.end_x - self.start_x } else { self.start_x - self.end_x })
//@end
//@fn generator/connectors.rs|Connector::height
//@ ensures: vx_ret == (if self.start_y <= self.end_y { self.end_y - self.start_y } else { self.start_y - self.end_y })
//@end
//@fn generator/connectors.rs|Connector::flip_h
//@ ensures: vx_ret == (self.end_x < self.start_x)
//@end
//@fn generator/connectors.rs|Connector::flip_v
//@ ensures: vx_ret == (self.end_y < self.start_y)
//@end
// a table is as wide as its columns and as high as its rows
//@type generator/table/row.rs|TableRow only height
//@type generator/table/builder.rs|Table only rows,column_widths,x,y
pub open spec fn sum_w(s: Seq<u32>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_w(s.drop_last()) + s.last() } }
pub open spec fn row_h(r: TableRow) -> u32 { match r.height { Some(h) => h, None => 400000 } }
pub open spec fn sum_h(s: Seq<TableRow>) -> int decreases s.len() { if s.len() == 0 { 0 } else { sum_h(s.drop_last()) + row_h(s.last()) } }
pub proof fn lemma_sum_w(s: Seq<u32>, n: int) requires 0 <= n < s.len() ensures sum_w(s.take(n + 1)) == sum_w(s.take(n)) + s[n], sum_w(s.take(n)) >= 0 decreases n {
    assert(s.take(n + 1).drop_last() =~= s.take(n)); if n > 0 { lemma_sum_w(s, n - 1); } else { assert(s.take(0).len() == 0); }
}
pub proof fn lemma_sum_w_all(s: Seq<u32>, n: int) requires 0 <= n <= s.len() ensures sum_w(s.take(n)) <= sum_w(s), sum_w(s.take(n)) >= 0 decreases s.len() - n {
    if n < s.len() { lemma_sum_w(s, n); lemma_sum_w_all(s, n + 1); } else { assert(s.take(n) =~= s); if n > 0 { lemma_sum_w(s, n - 1); } }
}
//@fn generator/table/builder.rs|Table::width
//@ requires: sum_w(self.column_widths@) <= u32::MAX
//@ ensures: vx_ret == sum_w(self.column_widths@)
//@ begin: proof { lemma_sum_w_all(self.column_widths@, 0); assert(self.column_widths@.take(0).len() == 0); }
//@ loop 0 inv: vx_s0@ == self.column_widths@, vx_r0 == sum_w(self.column_widths@.take(vx_i0 as int)), sum_w(self.column_widths@) <= u32::MAX
//@ loop 0 begin: proof { lemma_sum_w(self.column_widths@, vx_i0 as int); lemma_sum_w_all(self.column_widths@, vx_i0 as int + 1); }
//@ end: proof { assert(self.column_widths@.take(self.column_widths@.len() as int) =~= self.column_widths@); }
//@end
pub proof fn lemma_sum_h(s: Seq<TableRow>, n: int) requires 0 <= n < s.len() ensures sum_h(s.take(n + 1)) == sum_h(s.take(n)) + row_h(s[n]), sum_h(s.take(n)) >= 0 decreases n {
    assert(s.take(n + 1).drop_last() =~= s.take(n)); if n > 0 { lemma_sum_h(s, n - 1); } else { assert(s.take(0).len() == 0); }
}
pub proof fn lemma_sum_h_all(s: Seq<TableRow>, n: int) requires 0 <= n <= s.len() ensures sum_h(s.take(n)) <= sum_h(s), sum_h(s.take(n)) >= 0 decreases s.len() - n {
    if n < s.len() { lemma_sum_h(s, n); lemma_sum_h_all(s, n + 1); } else { assert(s.take(n) =~= s); if n > 0 { lemma_sum_h(s, n - 1); } }
}
//@fn generator/table/builder.rs|Table::height
//@ requires: sum_h(self.rows@) <= u32::MAX
//@ ensures: vx_ret == sum_h(self.rows@)
//@ begin: proof { lemma_sum_h_all(self.rows@, 0); assert(self.rows@.take(0).len() == 0); }
//@ loop 0 inv: vx_s0@ == self.rows@, vx_r0 == sum_h(self.rows@.take(vx_i0 as int)), sum_h(self.rows@) <= u32::MAX
//@ loop 0 begin: proof { lemma_sum_h(self.rows@, vx_i0 as int); lemma_sum_h_all(self.rows@, vx_i0 as int + 1); }
//@ end: proof { assert(self.rows@.take(self.rows@.len() as int) =~= self.rows@); }
//@end
//%extras
}
fn main() {}
