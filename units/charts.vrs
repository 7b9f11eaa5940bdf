//@include prelude.rs
verus! {
//@lits
//@opt opaquelits
//@known escape_xml
// what escaping makes of a text (C01 says what that is)
pub uninterp spec fn esc(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn escape_xml(s: &str) -> (r: String) ensures r@ == esc(s@) { unimplemented!() }
// ---- a text holds another
mod vx_bl { use vstd::prelude::*; verus! {
pub open spec fn cut(s: Seq<char>, m: Seq<char>, k: int) -> bool { 0 <= k && k + m.len() <= s.len() && s.subrange(k, k + m.len()) == m }
#[verifier::opaque]
pub open spec fn has(s: Seq<char>, m: Seq<char>) -> bool { exists|k: int| cut(s, m, k) }
pub broadcast proof fn lemma_empty_add(a: Seq<char>, b: Seq<char>) requires a.len() == 0 ensures #[trigger] (a + b) == b { assert(a + b =~= b); }
pub proof fn lemma_has_end(s: Seq<char>, t: Seq<char>) ensures has(s + t, t) { reveal(has); assert((s + t).subrange(s.len() as int, (s.len() + t.len()) as int) =~= t); assert(cut(s + t, t, s.len() as int)); }
pub proof fn lemma_has_start(s: Seq<char>, t: Seq<char>, m: Seq<char>) requires has(s, m) ensures has(s + t, m) { reveal(has); let k = choose|k: int| cut(s, m, k); assert((s + t).subrange(k, k + m.len()) =~= s.subrange(k, k + m.len())); assert(cut(s + t, m, k)); }
pub proof fn lemma_has_rest(s: Seq<char>, t: Seq<char>, m: Seq<char>) requires has(t, m) ensures has(s + t, m) { reveal(has); let k = choose|k: int| cut(t, m, k); assert((s + t).subrange(s.len() + k, s.len() + k + m.len()) =~= t.subrange(k, k + m.len())); assert(cut(s + t, m, s.len() + k)); }
// a text of two halves holds what either half is or holds
pub broadcast proof fn lemma_has(s: Seq<char>, t: Seq<char>, m: Seq<char>) ensures t == m || has(s, m) || has(t, m) ==> #[trigger] has(s + t, m) { lemma_has_end(s, t); if has(s, m) { lemma_has_start(s, t, m); } if has(t, m) { lemma_has_rest(s, t, m); } }
pub broadcast proof fn lemma_tail(a: Seq<char>, b: Seq<char>) ensures (#[trigger] (a + b)).subrange(a.len() as int, (a + b).len() as int) == b { assert((a + b).subrange(a.len() as int, (a + b).len() as int) =~= b); }
pub proof fn lemma_has_self(s: Seq<char>) ensures has(s, s) { reveal(has); assert(s.subrange(0, s.len() as int) =~= s); assert(cut(s, s, 0)); }
} }
use vx_bl::{has, lemma_has_self};
broadcast use {vx_bl::lemma_empty_add, vx_bl::lemma_has, vx_bl::lemma_tail};
// ---- what a chart states
pub open spec fn num(v: f64) -> Seq<char> { v.disp() }
// point k of a list of texts
pub open spec fn pt(k: int, t: Seq<char>) -> Seq<char> { S"\n<c:pt idx=\"" + dec(k as nat) + S"\">\n<c:v>" + t + S"</c:v>\n</c:pt>" }
// all points, each at its own index, in order
pub open spec fn pts(t: Seq<Seq<char>>, n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { pts(t, n - 1) + pt(n - 1, t[n - 1]) } }
pub open spec fn nums(v: Seq<f64>) -> Seq<Seq<char>> { Seq::new(v.len(), |k: int| num(v[k])) }
pub open spec fn names(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |k: int| esc(v[k]@)) }
pub open spec fn val_pts(s: Seq<f64>) -> Seq<char> { pts(nums(s), s.len() as int) }
pub open spec fn cat_pts(s: Seq<String>) -> Seq<char> { pts(names(s), s.len() as int) }
// the positions 1, 2, .. n of the points on the x axis
pub open spec fn xs(n: int) -> Seq<char> { pts(Seq::new(n as nat, |k: int| dec((k + 1) as nat)), n) }
// a series: its number, its name, its values
pub open spec fn head(k: int) -> Seq<char> { S"\n<c:ser>\n<c:idx val=\"" + dec(k as nat) + S"\"/>\n<c:order val=\"" + dec(k as nat) }
pub open spec fn is_ser(t: Seq<char>, k: int, s: ChartSeries) -> bool { has(t, head(k)) && has(t, esc(s.name@)) && has(t, val_pts(s.values@)) }
pub open spec fn is_xy(t: Seq<char>, k: int, s: ChartSeries) -> bool { is_ser(t, k, s) && has(t, xs(s.values@.len() as int)) }
pub open spec fn flat(p: Seq<Seq<char>>) -> Seq<char> decreases p.len() { if p.len() == 0 { Seq::empty() } else { flat(p.drop_last()) + p.last() } }
pub open spec fn all_ser(p: Seq<Seq<char>>, s: Seq<ChartSeries>, n: int) -> bool { p.len() == n && forall|k: int| 0 <= k < n ==> is_ser(#[trigger] p[k], k, s[k]) }
pub open spec fn all_xy(p: Seq<Seq<char>>, s: Seq<ChartSeries>, n: int) -> bool { p.len() == n && forall|k: int| 0 <= k < n ==> is_xy(#[trigger] p[k], k, s[k]) }
pub open spec fn has_series(t: Seq<char>, s: Seq<ChartSeries>) -> bool { exists|p: Seq<Seq<char>>| #[trigger] all_ser(p, s, s.len() as int) && has(t, flat(p)) }
pub open spec fn has_xy(t: Seq<char>, s: Seq<ChartSeries>) -> bool { exists|p: Seq<Seq<char>>| #[trigger] all_xy(p, s, s.len() as int) && has(t, flat(p)) }
pub proof fn lemma_push(p: Seq<Seq<char>>, t: Seq<char>) ensures flat(p.push(t)) == flat(p) + t { assert(p.push(t).drop_last() =~= p); reveal_with_fuel(flat, 2); }
//@type generator/charts/types.rs|ChartType derive Clone,Copy
//@type generator/charts/data.rs|ChartSeries
//@type generator/charts/data.rs|Chart
// ---- the kinds of charts and what states them in the chart part
pub open spec fn direction(t: ChartType) -> Seq<char> { if t is BarHorizontal { S"bar" } else { S"col" } }
pub open spec fn grouped(t: ChartType) -> Seq<char> {
    match t {
        ChartType::Bar | ChartType::BarHorizontal => S"clustered",
        ChartType::BarStacked | ChartType::LineStacked | ChartType::AreaStacked => S"stacked",
        ChartType::BarStacked100 | ChartType::AreaStacked100 => S"percentStacked",
        _ => S"standard",
    }
}
pub open spec fn dots(t: ChartType) -> Seq<char> { match t { ChartType::Scatter => S"marker", ChartType::ScatterSmooth => S"smoothMarker", _ => S"lineMarker" } }
pub open spec fn web(t: ChartType) -> Seq<char> { if t is RadarFilled { S"filled" } else { S"marker" } }
pub open spec fn is_bar(t: ChartType) -> bool { t is Bar || t is BarHorizontal || t is BarStacked || t is BarStacked100 }
pub open spec fn is_line(t: ChartType) -> bool { t is Line || t is LineMarkers || t is LineStacked }
pub open spec fn is_area(t: ChartType) -> bool { t is Area || t is AreaStacked || t is AreaStacked100 }
pub open spec fn is_scatter(t: ChartType) -> bool { t is Scatter || t is ScatterLines || t is ScatterSmooth }
pub open spec fn is_radar(t: ChartType) -> bool { t is Radar || t is RadarFilled }
// the element that opens the plot of a chart of this kind
pub open spec fn plot(t: ChartType) -> Seq<char> {
    if is_bar(t) { S"<c:barChart>\n<c:barDir val=\"" + direction(t) + S"\"/>\n<c:grouping val=\"" + grouped(t) + S"\"/>" }
    else if is_line(t) { S"<c:lineChart>\n<c:grouping val=\"" + grouped(t) + S"\"/>" }
    else if is_area(t) { S"<c:areaChart>\n<c:grouping val=\"" + grouped(t) + S"\"/>" }
    else if is_scatter(t) { S"<c:scatterChart>\n<c:scatterStyle val=\"" + dots(t) + S"\"/>" }
    else if is_radar(t) { S"<c:radarChart>\n<c:radarStyle val=\"" + web(t) + S"\"/>" }
    else if t is Pie { S"<c:pieChart>\n<c:varyColors val=\"1\"/>" }
    else if t is Doughnut { S"<c:doughnutChart>\n<c:varyColors val=\"1\"/>\n<c:holeSize val=\"50\"/>" }
    else if t is Bubble { S"<c:bubbleChart>\n<c:varyColors val=\"0\"/>\n<c:bubbleScale val=\"100\"/>" }
    else if t is Combo { S"<c:barChart>\n<c:barDir val=\"col\"/>\n<c:grouping val=\"clustered\"/>" }
    else { S"<c:stockChart>" }
}
pub open spec fn sizes(v: Seq<f64>) -> Seq<char> { pts(Seq::new(v.len(), |k: int| num(f64_mag(v[k]))), v.len() as int) }
pub uninterp spec fn f64_mag(v: f64) -> f64;
#[verifier::external_body] pub fn f64_abs(v: &f64) -> (r: f64) ensures r == f64_mag(*v) { v.abs() }
pub open spec fn is_bub(t: Seq<char>, k: int, s: ChartSeries) -> bool { is_xy(t, k, s) && has(t, sizes(s.values@)) }
pub open spec fn all_bub(p: Seq<Seq<char>>, s: Seq<ChartSeries>, n: int) -> bool { p.len() == n && forall|k: int| 0 <= k < n ==> is_bub(#[trigger] p[k], k, s[k]) }
pub open spec fn has_bub(t: Seq<char>, s: Seq<ChartSeries>) -> bool { exists|p: Seq<Seq<char>>| #[trigger] all_bub(p, s, s.len() as int) && has(t, flat(p)) }
pub open spec fn first_only(t: Seq<char>, c: Chart) -> bool { c.series@.len() > 0 ==> has(t, esc(c.series@[0].name@)) && has(t, val_pts(c.series@[0].values@)) && has(t, cat_pts(c.categories@)) }
// the first half of the series as bars, the others as lines
pub open spec fn halves(t: Seq<char>, s: Seq<ChartSeries>) -> bool {
    exists|p: Seq<Seq<char>>, q: Seq<Seq<char>>| #[trigger] all_ser(p + q, s, s.len() as int) && has(t, flat(p)) && has(t, flat(q)) && (s.len() > 1 ==> p.len() == s.len() / 2 && has(t, S"<c:lineChart>\n<c:grouping val=\"standard\"/>" + flat(q)))
}
pub open spec fn states(t: Seq<char>, c: Chart) -> bool {
    has(t, esc(c.title@)) && has(t, plot(c.chart_type)) &&
    if c.chart_type is Pie || c.chart_type is Doughnut { first_only(t, c) }
    else if is_scatter(c.chart_type) { has_xy(t, c.series@) }
    else if c.chart_type is Bubble { has_bub(t, c.series@) }
    else if c.chart_type is Combo { halves(t, c.series@) && has(t, cat_pts(c.categories@)) }
    else { has_series(t, c.series@) && has(t, cat_pts(c.categories@)) }
}
// as many points and series as memory holds
pub open spec fn fits(c: Chart) -> bool { c.categories@.len() < usize::MAX && c.series@.len() < usize::MAX / 2 - 4 && forall|k: int| 0 <= k < c.series@.len() ==> (#[trigger] c.series@[k]).values@.len() < usize::MAX }
//@fn generator/charts/xml.rs|series_column
//@ attr: #[verifier::external_body]
//@end
//@fn generator/charts/xml.rs|generate_series_data
//@ requires: idx < usize::MAX - 2, values@.len() < usize::MAX
//@ ensures: forall|s: ChartSeries| s.name@ == series_name@ && s.values@ == values@ ==> #[trigger] is_ser(vx_ret@, idx as int, s)
//@ loop 0 pre: let ghost x0 = xml@; proof { lemma_has_self(head(idx as int)); assert(has(xml@, head(idx as int))); assert(has(xml@, esc(series_name@))); assert(xml@ =~= x0 + pts(nums(values@), 0)); }
//@ loop 0 inv: vx_s0@ == values@, xml@ == x0 + pts(nums(values@), vx_i0 as int)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { assert(xml@ =~= x0 + (pts(nums(values@), i as int) + pt(i as int, nums(values@)[i as int]))); }
//@ loop 0 post: proof { assert(has(xml@, val_pts(values@))); }
//@end
pub open spec fn opt_view(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
//@fn generator/charts/types.rs|ChartType::bar_direction
//@ ensures: opt_view(vx_ret) == (if is_bar(*self) { Some(direction(*self)) } else { None })
//@end
//@fn generator/charts/types.rs|ChartType::grouping
//@ ensures: opt_view(vx_ret) == (if is_bar(*self) || is_line(*self) || is_area(*self) { Some(grouped(*self)) } else { None })
//@end
//@fn generator/charts/types.rs|ChartType::scatter_style
//@ ensures: opt_view(vx_ret) == (if is_scatter(*self) { Some(dots(*self)) } else { None })
//@end
//@fn generator/charts/types.rs|ChartType::radar_style
//@ ensures: opt_view(vx_ret) == (if is_radar(*self) { Some(web(*self)) } else { None })
//@end
//@fn generator/charts/data.rs|Chart::category_count
//@ ensures: vx_ret == self.categories@.len()
//@end
//@fn generator/charts/xml.rs|chart_part_header
//@ ensures: has(vx_ret@, esc(chart.title@))
//@end
//@fn generator/charts/xml.rs|chart_part_footer
//@end
//@fn generator/charts/xml.rs|generate_value_axis
//@end
//@fn generator/charts/xml.rs|generate_category_axis
//@ requires: chart.categories@.len() < usize::MAX
//@ ensures: has(vx_ret@, cat_pts(chart.categories@))
//@ loop 0 pre: let ghost x0 = xml@; proof { assert(xml@ =~= x0 + pts(names(chart.categories@), 0)); }
//@ loop 0 inv: *vx_s0 == chart.categories, xml@ == x0 + pts(names(chart.categories@), vx_i0 as int)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let c = names(chart.categories@)[idx as int]; assert(c == esc(cat@)); let t = pt(idx as int, c); assert(xml@ == b0 + t); assert(b0 + t =~= x0 + (pts(names(chart.categories@), idx as int) + t)); }
//@ loop 0 post: proof { assert(has(xml@, cat_pts(chart.categories@))); }
//@end
//@fn generator/charts/xml.rs|generate_bar_chart_xml
//@ requires: fits(*chart), is_bar(chart.chart_type)
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ attr: #[verifier::loop_isolation(false)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_ser(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let t = xml@.subrange(b0.len() as int, xml@.len() as int); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 post: proof { assert(all_ser(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
//@fn generator/charts/xml.rs|generate_line_chart_xml
//@ requires: fits(*chart), is_line(chart.chart_type)
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ attr: #[verifier::loop_isolation(false)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_ser(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let t = xml@.subrange(b0.len() as int, xml@.len() as int); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 post: proof { assert(all_ser(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
//@fn generator/charts/xml.rs|generate_area_chart_xml
//@ requires: fits(*chart), is_area(chart.chart_type)
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ attr: #[verifier::loop_isolation(false)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_ser(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let t = xml@.subrange(b0.len() as int, xml@.len() as int); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 post: proof { assert(all_ser(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
//@fn generator/charts/xml.rs|generate_radar_chart_xml
//@ requires: fits(*chart), is_radar(chart.chart_type)
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ attr: #[verifier::loop_isolation(false)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_ser(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let t = xml@.subrange(b0.len() as int, xml@.len() as int); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 post: proof { assert(all_ser(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
//@fn generator/charts/xml.rs|generate_stock_chart_xml
//@ requires: fits(*chart), chart.chart_type is StockHLC || chart.chart_type is StockOHLC
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ attr: #[verifier::loop_isolation(false)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_ser(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let t = xml@.subrange(b0.len() as int, xml@.len() as int); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 post: proof { assert(all_ser(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
//@fn generator/charts/xml.rs|generate_pie_chart_xml
//@ requires: fits(*chart), chart.chart_type is Pie
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ loop 0 pre: let ghost x0 = xml@; proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(has(x0, esc(series.name@))); assert(xml@ =~= x0 + pts(nums(series.values@), 0)); }
//@ loop 0 inv: *vx_s0 == series.values, xml@ == x0 + pts(nums(series.values@), vx_i0 as int)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let c = nums(series.values@)[idx as int]; assert(c == num(*value)); let t = pt(idx as int, c); assert(xml@ == b0 + t); assert(b0 + t =~= x0 + (pts(nums(series.values@), idx as int) + t)); }
//@ loop 0 post: proof { assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); assert(has(xml@, esc(series.name@))); assert(has(xml@, pts(nums(series.values@), vx_s0.len() as int))); }
//@ loop 1 pre: let ghost x1 = xml@; proof { assert(has(x1, esc(chart.title@))); assert(has(x1, plot(chart.chart_type))); assert(has(x1, esc(series.name@))); assert(has(x1, val_pts(series.values@))); assert(xml@ =~= x1 + pts(names(chart.categories@), 0)); }
//@ loop 1 inv: *vx_s1 == chart.categories, xml@ == x1 + pts(names(chart.categories@), vx_i1 as int)
//@ loop 1 begin: let ghost b1 = xml@;
//@ loop 1 end: proof { let c = names(chart.categories@)[idx as int]; assert(c == esc(cat@)); let t = pt(idx as int, c); assert(xml@ == b1 + t); assert(b1 + t =~= x1 + (pts(names(chart.categories@), idx as int) + t)); }
//@ loop 1 post: proof { assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); assert(has(xml@, esc(series.name@))); assert(has(xml@, val_pts(series.values@))); assert(has(xml@, pts(names(chart.categories@), vx_s1.len() as int))); }
//@ end: proof { assert(has(vx_r@, esc(chart.title@))); assert(has(vx_r@, plot(chart.chart_type))); assert(first_only(vx_r@, *chart)); }
//@end
//@fn generator/charts/xml.rs|generate_doughnut_chart_xml
//@ requires: fits(*chart), chart.chart_type is Doughnut
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ loop 0 pre: let ghost x0 = xml@; proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(has(x0, esc(series.name@))); assert(xml@ =~= x0 + pts(nums(series.values@), 0)); }
//@ loop 0 inv: *vx_s0 == series.values, xml@ == x0 + pts(nums(series.values@), vx_i0 as int)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let c = nums(series.values@)[idx as int]; assert(c == num(*value)); let t = pt(idx as int, c); assert(xml@ == b0 + t); assert(b0 + t =~= x0 + (pts(nums(series.values@), idx as int) + t)); }
//@ loop 0 post: proof { assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); assert(has(xml@, esc(series.name@))); assert(has(xml@, pts(nums(series.values@), vx_s0.len() as int))); }
//@ loop 1 pre: let ghost x1 = xml@; proof { assert(has(x1, esc(chart.title@))); assert(has(x1, plot(chart.chart_type))); assert(has(x1, esc(series.name@))); assert(has(x1, val_pts(series.values@))); assert(xml@ =~= x1 + pts(names(chart.categories@), 0)); }
//@ loop 1 inv: *vx_s1 == chart.categories, xml@ == x1 + pts(names(chart.categories@), vx_i1 as int)
//@ loop 1 begin: let ghost b1 = xml@;
//@ loop 1 end: proof { let c = names(chart.categories@)[idx as int]; assert(c == esc(cat@)); let t = pt(idx as int, c); assert(xml@ == b1 + t); assert(b1 + t =~= x1 + (pts(names(chart.categories@), idx as int) + t)); }
//@ loop 1 post: proof { assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); assert(has(xml@, esc(series.name@))); assert(has(xml@, val_pts(series.values@))); assert(has(xml@, pts(names(chart.categories@), vx_s1.len() as int))); }
//@ end: proof { assert(has(vx_r@, esc(chart.title@))); assert(has(vx_r@, plot(chart.chart_type))); assert(first_only(vx_r@, *chart)); }
//@end
//@fn generator/charts/xml.rs|generate_scatter_chart_xml
//@ requires: fits(*chart), is_scatter(chart.chart_type)
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_xy(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 1 pre: let ghost u1 = xml@.subrange(b0.len() as int, xml@.len() as int); let ghost x1 = xml@; proof { lemma_has_self(head(idx as int)); assert(has(u1, head(idx as int))); assert(has(u1, esc(series.name@))); assert(xml@ =~= b0 + u1); assert(xml@ =~= x1 + pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), 0)); }
//@ loop 1 inv: *vx_s1 == series.values, vx_s1@.len() < usize::MAX, xml@ == x1 + pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), vx_i1 as int)
//@ loop 1 begin: let ghost b1 = xml@;
//@ loop 1 end: proof { let c = Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat))[i as int]; assert(c == dec((i + 1) as nat)); let t = pt(i as int, c); assert(xml@ == b1 + t); assert(b1 + t =~= x1 + (pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), i as int) + t)); }
//@ loop 1 post: let ghost w1 = u1 + pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int); let ghost y1 = xml@; proof { assert(has(w1, head(idx as int))); assert(has(w1, esc(series.name@))); assert(has(w1, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(xml@ =~= b0 + w1); vy1 = y1; vw1 = w1; }
//@ loop 2 pre: let ghost g2 = xml@.subrange(vy1.len() as int, xml@.len() as int); let ghost u2 = vw1 + g2; let ghost x2 = xml@; proof { assert(xml@ == vy1 + g2); assert(has(u2, head(idx as int))); assert(has(u2, esc(series.name@))); assert(has(u2, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(xml@ =~= b0 + u2); assert(xml@ =~= x2 + pts(nums(series.values@), 0)); }
//@ loop 2 inv: *vx_s2 == series.values, vx_s2@.len() < usize::MAX, xml@ == x2 + pts(nums(series.values@), vx_i2 as int)
//@ loop 2 begin: let ghost b2 = xml@;
//@ loop 2 end: proof { let c = nums(series.values@)[i as int]; assert(c == num(*value)); let t = pt(i as int, c); assert(xml@ == b2 + t); assert(b2 + t =~= x2 + (pts(nums(series.values@), i as int) + t)); }
//@ loop 2 post: let ghost w2 = u2 + pts(nums(series.values@), series.values@.len() as int); let ghost y2 = xml@; proof { assert(has(w2, head(idx as int))); assert(has(w2, esc(series.name@))); assert(has(w2, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(has(w2, pts(nums(series.values@), series.values@.len() as int))); assert(xml@ =~= b0 + w2); vy2 = y2; vw2 = w2; }
//@ loop 0 end: proof { let g = xml@.subrange(vy2.len() as int, xml@.len() as int); assert(xml@ == vy2 + g); let t = vw2 + g; assert(has(t, head(idx as int))); assert(has(t, esc(series.name@))); assert(has(t, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(has(t, pts(nums(series.values@), series.values@.len() as int))); assert(is_xy(t, idx as int, *series)); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 begin: let ghost b0 = xml@; let ghost mut vy1 = Seq::<char>::empty(); let ghost mut vw1 = vy1; let ghost mut vy2 = Seq::<char>::empty(); let ghost mut vw2 = vy2;
//@ loop 0 post: proof { assert(all_xy(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
//@fn generator/charts/xml.rs|generate_bubble_chart_xml
//@ requires: fits(*chart), chart.chart_type is Bubble
//@ ensures: states(vx_ret@, *chart)
//@ sub: value.abs() =>> f64_abs(value)
//@ attr: #[verifier::rlimit(80)]
//@ loop 0 pre: let ghost x0 = xml@; let ghost mut ps = Seq::<Seq<char>>::empty(); proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 inv: *vx_s0 == chart.series, fits(*chart), all_bub(ps, chart.series@, vx_i0 as int), xml@ == x0 + flat(ps)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 1 pre: let ghost u1 = xml@.subrange(b0.len() as int, xml@.len() as int); let ghost x1 = xml@; proof { lemma_has_self(head(idx as int)); assert(has(u1, head(idx as int))); assert(has(u1, esc(series.name@))); assert(xml@ =~= b0 + u1); assert(xml@ =~= x1 + pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), 0)); }
//@ loop 1 inv: *vx_s1 == series.values, vx_s1@.len() < usize::MAX, xml@ == x1 + pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), vx_i1 as int)
//@ loop 1 begin: let ghost b1 = xml@;
//@ loop 1 end: proof { let c = Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat))[i as int]; assert(c == dec((i + 1) as nat)); let t = pt(i as int, c); assert(xml@ == b1 + t); assert(b1 + t =~= x1 + (pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), i as int) + t)); }
//@ loop 1 post: let ghost w1 = u1 + pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int); let ghost y1 = xml@; proof { assert(has(w1, head(idx as int))); assert(has(w1, esc(series.name@))); assert(has(w1, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(xml@ =~= b0 + w1); vy1 = y1; vw1 = w1; }
//@ loop 2 pre: let ghost g2 = xml@.subrange(vy1.len() as int, xml@.len() as int); let ghost u2 = vw1 + g2; let ghost x2 = xml@; proof { assert(xml@ == vy1 + g2); assert(has(u2, head(idx as int))); assert(has(u2, esc(series.name@))); assert(has(u2, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(xml@ =~= b0 + u2); assert(xml@ =~= x2 + pts(nums(series.values@), 0)); }
//@ loop 2 inv: *vx_s2 == series.values, vx_s2@.len() < usize::MAX, xml@ == x2 + pts(nums(series.values@), vx_i2 as int)
//@ loop 2 begin: let ghost b2 = xml@;
//@ loop 2 end: proof { let c = nums(series.values@)[i as int]; assert(c == num(*value)); let t = pt(i as int, c); assert(xml@ == b2 + t); assert(b2 + t =~= x2 + (pts(nums(series.values@), i as int) + t)); }
//@ loop 2 post: let ghost w2 = u2 + pts(nums(series.values@), series.values@.len() as int); let ghost y2 = xml@; proof { assert(has(w2, head(idx as int))); assert(has(w2, esc(series.name@))); assert(has(w2, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(has(w2, pts(nums(series.values@), series.values@.len() as int))); assert(xml@ =~= b0 + w2); vy2 = y2; vw2 = w2; }
//@ loop 3 pre: let ghost g3 = xml@.subrange(vy2.len() as int, xml@.len() as int); let ghost u3 = vw2 + g3; let ghost x3 = xml@; proof { assert(xml@ == vy2 + g3); assert(has(u3, head(idx as int))); assert(has(u3, esc(series.name@))); assert(has(u3, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(has(u3, pts(nums(series.values@), series.values@.len() as int))); assert(xml@ =~= b0 + u3); assert(xml@ =~= x3 + pts(Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k]))), 0)); }
//@ loop 3 inv: *vx_s3 == series.values, vx_s3@.len() < usize::MAX, xml@ == x3 + pts(Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k]))), vx_i3 as int)
//@ loop 3 begin: let ghost b3 = xml@;
//@ loop 3 end: proof { let c = Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k])))[i as int]; assert(c == num(f64_mag(*value))); let t = pt(i as int, c); assert(xml@ == b3 + t); assert(b3 + t =~= x3 + (pts(Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k]))), i as int) + t)); }
//@ loop 3 post: let ghost w3 = u3 + pts(Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k]))), series.values@.len() as int); let ghost y3 = xml@; proof { assert(has(w3, head(idx as int))); assert(has(w3, esc(series.name@))); assert(has(w3, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(has(w3, pts(nums(series.values@), series.values@.len() as int))); assert(has(w3, pts(Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k]))), series.values@.len() as int))); assert(xml@ =~= b0 + w3); vy3 = y3; vw3 = w3; }
//@ loop 0 end: proof { let g = xml@.subrange(vy3.len() as int, xml@.len() as int); assert(xml@ == vy3 + g); let t = vw3 + g; assert(has(t, head(idx as int))); assert(has(t, esc(series.name@))); assert(has(t, pts(Seq::new(series.values@.len(), |k: int| dec((k + 1) as nat)), series.values@.len() as int))); assert(has(t, pts(nums(series.values@), series.values@.len() as int))); assert(has(t, pts(Seq::new(series.values@.len(), |k: int| num(f64_mag(series.values@[k]))), series.values@.len() as int))); assert(is_bub(t, idx as int, *series)); assert(xml@ =~= b0 + t); lemma_push(ps, t); ps = ps.push(t); assert(xml@ =~= x0 + flat(ps)); }
//@ loop 0 begin: let ghost b0 = xml@; let ghost mut vy1 = Seq::<char>::empty(); let ghost mut vw1 = vy1; let ghost mut vy2 = Seq::<char>::empty(); let ghost mut vw2 = vy2; let ghost mut vy3 = Seq::<char>::empty(); let ghost mut vw3 = vy3;
//@ loop 0 post: proof { assert(all_bub(ps, chart.series@, chart.series@.len() as int)); assert(has(xml@, flat(ps))); assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); }
//@end
#[verifier::external_body] pub fn at_least_one(n: usize) -> (r: usize) ensures r == if n < 1 { 1 } else { n as int } { n.max(1) }
#[verifier::external_body] pub fn first_of<T>(v: &Vec<T>, n: usize) -> (r: &[T]) ensures r@ == v@.subrange(0, if n <= v@.len() { n as int } else { v@.len() as int }) { &v[..n.min(v.len())] }
#[verifier::external_body] pub fn after_first<T>(v: &Vec<T>, n: usize) -> (r: &[T]) ensures r@ == v@.subrange(if n <= v@.len() { n as int } else { v@.len() as int }, v@.len() as int) { &v[n.min(v.len())..] }
//@fn generator/charts/xml.rs|generate_combo_chart_xml
//@ requires: fits(*chart), chart.chart_type is Combo
//@ ensures: states(vx_ret@, *chart)
//@ attr: #[verifier::rlimit(80)]
//@ sub: chart.series.iter().take(mid.max(1)) =>> first_of(&chart.series, at_least_one(mid)).iter()
//@ sub: chart.series.iter().skip(mid.max(1)) =>> after_first(&chart.series, at_least_one(mid)).iter()
//@ loop 0 pre: let ghost mut p = Seq::<Seq<char>>::empty(); let ghost x0 = xml@; proof { assert(has(x0, esc(chart.title@))); assert(has(x0, plot(chart.chart_type))); assert(xml@ =~= x0 + flat(p)); }
//@ loop 0 inv: vx_s0@ == chart.series@.subrange(0, vx_s0@.len() as int), vx_s0@.len() <= chart.series@.len(), fits(*chart), all_ser(p, chart.series@, vx_i0 as int), xml@ == x0 + flat(p)
//@ loop 0 begin: let ghost b0 = xml@;
//@ loop 0 end: proof { let t = xml@.subrange(b0.len() as int, xml@.len() as int); assert(*series == chart.series@[idx as int]); assert(xml@ =~= b0 + t); lemma_push(p, t); p = p.push(t); assert(xml@ =~= x0 + flat(p)); }
//@ loop 0 post: proof { gp = p; assert(has(xml@, esc(chart.title@))); assert(has(xml@, plot(chart.chart_type))); assert(has(xml@, flat(p))); }
//@ begin: let ghost mut gp = Seq::<Seq<char>>::empty(); let ghost mut gq = gp; let ghost mut y1 = S"";
//@ loop 1 pre: let ghost mut q = Seq::<Seq<char>>::empty(); let ghost x1 = xml@; let ghost l1 = S"<c:lineChart>\n<c:grouping val=\"standard\"/>"; proof { assert(mid >= 1); assert(has(x1, esc(chart.title@))); assert(has(x1, plot(chart.chart_type))); assert(has(x1, flat(gp))); assert(has(x1, cat_pts(chart.categories@))); assert(has(x1, l1)); y1 = x1.subrange(0, x1.len() - l1.len()); assert(x1 == y1 + l1); assert(gp + q =~= gp); assert(l1 + flat(q) =~= l1); }
//@ loop 1 inv: vx_s1@ == chart.series@.subrange(mid as int, chart.series@.len() as int), mid <= chart.series@.len(), gp.len() == mid, fits(*chart), all_ser(gp + q, chart.series@, mid + vx_i1), q.len() == vx_i1, xml@ == y1 + (l1 + flat(q))
//@ loop 1 begin: let ghost b1 = xml@;
//@ loop 1 end: proof { let t = xml@.subrange(b1.len() as int, xml@.len() as int); assert(*series == chart.series@[mid + idx]); assert(xml@ =~= b1 + t); lemma_push(q, t); assert((gp + q).push(t) =~= gp + q.push(t)); q = q.push(t); assert(xml@ =~= y1 + (l1 + flat(q))); }
//@ loop 1 post: proof { gq = q; assert(y1 + (l1 + flat(q)) =~= x1 + flat(q)); assert(has(x1 + flat(q), esc(chart.title@))); assert(has(x1 + flat(q), plot(chart.chart_type))); assert(has(x1 + flat(q), flat(gp))); assert(has(x1 + flat(q), cat_pts(chart.categories@))); assert(has(xml@, l1 + flat(q))); assert(has(x1 + flat(q), flat(q))); }
//@ end: proof { if gq.len() == 0 { assert(gp + gq =~= gp); } assert(all_ser(gp + gq, chart.series@, chart.series@.len() as int)); assert(has(vx_r@, esc(chart.title@))); assert(has(vx_r@, plot(chart.chart_type))); assert(has(vx_r@, flat(gp))); assert(has(vx_r@, cat_pts(chart.categories@))); assert(has(vx_r@, flat(gq))); assert(halves(vx_r@, chart.series@)); }
//@end
//@fn generator/charts/xml.rs|generate_chart_part_xml
//@ requires: fits(*chart)
//@ ensures: states(vx_ret@, *chart)
//@end
mod vx_bm { use vstd::prelude::*; use super::vx_bl::*; verus! {
pub broadcast proof fn lemma_run(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>) ensures #[trigger] has(p + a + b + c + d + e + f + g, a + b + c + d + e + f + g) { lemma_has_end(p, a + b + c + d + e + f + g); assert(p + a + b + c + d + e + f + g =~= p + (a + b + c + d + e + f + g)); }
} }
// the box of a chart as its frame states it
pub open spec fn box_at(c: Chart) -> Seq<char> { dec(c.x as nat) + S"\" y=\"" + dec(c.y as nat) + S"\"/>\n<a:ext cx=\"" + dec(c.width as nat) + S"\" cy=\"" + dec(c.height as nat) }
//@fn generator/charts/xml.rs|generate_chart_ref_xml
//@ ensures: has(vx_ret@, box_at(*chart)), has(vx_ret@, r_id@)
//@ begin: broadcast use vx_bm::lemma_run;
//@end
//@fn generator/charts/data.rs|ChartSeries::new
//@ ensures: vx_ret.name@ == name@, vx_ret.values == values
//@end
//@fn generator/charts/data.rs|Chart::new
//@ ensures: vx_ret.title@ == title@, vx_ret.chart_type == chart_type, vx_ret.categories == categories, vx_ret.series@.len() == 0, vx_ret.x == x, vx_ret.y == y, vx_ret.width == width, vx_ret.height == height
//@end
//@fn generator/charts/data.rs|Chart::add_series
//@ ensures: vx_ret.series@ == self.series@.push(series), vx_ret.title == self.title, vx_ret.chart_type == self.chart_type, vx_ret.categories == self.categories, vx_ret.x == self.x, vx_ret.y == self.y, vx_ret.width == self.width, vx_ret.height == self.height
//@end
//@type core/placement.rs|ElementPlacement
//@type generator/charts/builder.rs|ChartBuilder
//@fn core/placement.rs|ElementPlacement::set_position
//@ ensures: final(self).x == x, final(self).y == y, final(self).width == old(self).width, final(self).height == old(self).height
//@end
//@fn core/placement.rs|ElementPlacement::set_size
//@ ensures: final(self).width == width, final(self).height == height, final(self).x == old(self).x, final(self).y == old(self).y
//@end
//@fn generator/charts/builder.rs|ChartBuilder::position
//@ ensures: vx_ret.title == self.title, vx_ret.chart_type == self.chart_type, vx_ret.categories == self.categories, vx_ret.series == self.series, vx_ret.placement.x == x, vx_ret.placement.y == y, vx_ret.placement.width == self.placement.width, vx_ret.placement.height == self.placement.height
//@end
//@fn generator/charts/builder.rs|ChartBuilder::size
//@ ensures: vx_ret.title == self.title, vx_ret.chart_type == self.chart_type, vx_ret.categories == self.categories, vx_ret.series == self.series, vx_ret.placement.width == width, vx_ret.placement.height == height, vx_ret.placement.x == self.placement.x, vx_ret.placement.y == self.placement.y
//@end
//@fn generator/charts/builder.rs|ChartBuilder::categories
//@ ensures: vx_ret.title == self.title, vx_ret.chart_type == self.chart_type, vx_ret.series == self.series, vx_ret.placement == self.placement
//@end
//@fn generator/charts/builder.rs|ChartBuilder::add_series
//@ ensures: vx_ret.title == self.title, vx_ret.chart_type == self.chart_type, vx_ret.categories == self.categories, vx_ret.placement == self.placement, vx_ret.series@ == self.series@.push(series)
//@end
//@fn generator/charts/builder.rs|ChartBuilder::build
//@ ensures: vx_ret.title == self.title, vx_ret.chart_type == self.chart_type, vx_ret.categories == self.categories, vx_ret.series == self.series, vx_ret.x == self.placement.x, vx_ret.y == self.placement.y, vx_ret.width == self.placement.width, vx_ret.height == self.placement.height
//@end
//%extras
} // verus!
fn main() {}
