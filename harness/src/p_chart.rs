//! C17: a chart part states the chart as given
use crate::ctx::Ctx;
use crate::genr::{self, Deck};
use crate::p_package;
use crate::pkg::{parse_xml, Node, Pkg};
use ppt_rs::generator::*;

fn pts(n: Option<&Node>) -> Vec<(String, String)> {
    n.map(|n| n.all("c:pt").iter().map(|p| (p.attr("idx").unwrap_or("?").to_string(), p.kid("c:v").map(|v| v.deep_text()).unwrap_or_default())).collect()).unwrap_or_default()
}
fn family(t: ChartType) -> (&'static str, Vec<(&'static str, &'static str)>) {
    use ChartType::*;
    match t {
        Bar => ("c:barChart", vec![("c:barDir", "col"), ("c:grouping", "clustered")]),
        BarHorizontal => ("c:barChart", vec![("c:barDir", "bar"), ("c:grouping", "clustered")]),
        BarStacked => ("c:barChart", vec![("c:barDir", "col"), ("c:grouping", "stacked")]),
        BarStacked100 => ("c:barChart", vec![("c:barDir", "col"), ("c:grouping", "percentStacked")]),
        Line | LineMarkers => ("c:lineChart", vec![("c:grouping", "standard")]),
        LineStacked => ("c:lineChart", vec![("c:grouping", "stacked")]),
        Pie => ("c:pieChart", vec![]),
        Doughnut => ("c:doughnutChart", vec![]),
        Area => ("c:areaChart", vec![("c:grouping", "standard")]),
        AreaStacked => ("c:areaChart", vec![("c:grouping", "stacked")]),
        AreaStacked100 => ("c:areaChart", vec![("c:grouping", "percentStacked")]),
        Scatter => ("c:scatterChart", vec![("c:scatterStyle", "marker")]),
        ScatterLines => ("c:scatterChart", vec![("c:scatterStyle", "lineMarker")]),
        ScatterSmooth => ("c:scatterChart", vec![("c:scatterStyle", "smoothMarker")]),
        Bubble => ("c:bubbleChart", vec![]),
        Radar => ("c:radarChart", vec![("c:radarStyle", "marker")]),
        RadarFilled => ("c:radarChart", vec![("c:radarStyle", "filled")]),
        StockHLC | StockOHLC => ("c:stockChart", vec![]),
        Combo => ("c:barChart", vec![("c:barDir", "col"), ("c:grouping", "clustered")]),
    }
}
fn same(p: &[(String, String)], v: &[f64]) -> bool {
    p.len() == v.len() && p.iter().zip(v).enumerate().all(|(i, ((k, t), x))| *k == i.to_string() && t.parse::<f64>().map(|y| y == *x).unwrap_or(false))
}
fn col(mut n: usize) -> String {
    let mut s = vec![];
    n += 1;
    while n > 0 {
        n -= 1;
        s.insert(0, b'A' + (n % 26) as u8);
        n /= 26;
    }
    String::from_utf8(s).unwrap()
}
fn judge(c: &mut Ctx, x: &Node, ch: &Chart, inp: &str) {
    let i = || inp.to_string();
    let title = x.first("c:title").map(|t| t.all("a:t").iter().map(|t| t.deep_text()).collect::<String>());
    c.check(title.as_deref() == Some(ch.title.as_str()), "chart-title", || format!("title {title:?}, expected {:?}", ch.title), i);
    let (el, att) = family(ch.chart_type);
    let Some(plots) = x.first("c:plotArea").map(|p| p.kids.iter().filter(|k| k.name.ends_with("Chart")).collect::<Vec<_>>()) else {
        c.fail("chart-plot", "no plot area", inp);
        return;
    };
    let combo = ch.chart_type == ChartType::Combo;
    let want: Vec<&str> = if combo && ch.series.len() > 1 { vec![el, "c:lineChart"] } else { vec![el] };
    let got: Vec<&str> = plots.iter().map(|p| p.name.as_str()).collect();
    if !c.check(got == want, "chart-kind", || format!("plots {got:?}, expected {want:?}"), i) {
        return;
    }
    for (n, v) in att {
        let g = plots[0].kid(n).and_then(|k| k.attr("val"));
        c.check(g == Some(v), n, || format!("{n} is {g:?}, expected {v:?}"), i);
    }
    let sers: Vec<&Node> = plots.iter().flat_map(|p| p.kids.iter().filter(|k| k.name == "c:ser")).collect();
    let single = matches!(ch.chart_type, ChartType::Pie | ChartType::Doughnut);
    let n = if single { ch.series.len().min(1) } else { ch.series.len() };
    if !c.check(sers.len() == n, "chart-series-count", || format!("{} series, expected {n}", sers.len()), i) {
        return;
    }
    if combo && ch.series.len() > 1 {
        let half = ch.series.len() / 2;
        let bars = plots[0].kids.iter().filter(|k| k.name == "c:ser").count();
        c.check(bars == half, "chart-halves", || format!("{bars} series as bars, expected {half}"), i);
    }
    let xy = matches!(ch.chart_type, ChartType::Scatter | ChartType::ScatterLines | ChartType::ScatterSmooth | ChartType::Bubble);
    for (k, (s, w)) in sers.iter().zip(&ch.series).enumerate() {
        let v = |e: &str| s.kid(e).and_then(|x| x.attr("val")).unwrap_or("?").to_string();
        c.check(v("c:idx") == k.to_string() && v("c:order") == k.to_string(), "chart-series-number", || format!("series {k} has idx {} and order {}", v("c:idx"), v("c:order")), i);
        let nm = pts(s.kid("c:tx"));
        c.check(nm == [("0".to_string(), w.name.clone())], "chart-series-name", || format!("series {k} named {nm:?}, expected {:?}", w.name), i);
        let p = pts(s.kid(if xy { "c:yVal" } else { "c:val" }));
        c.check(same(&p, &w.values), "chart-values", || format!("series {k} values {p:?}, expected {:?}", w.values), i);
        if xy {
            let p = pts(s.kid("c:xVal"));
            let e: Vec<f64> = (1..=w.values.len()).map(|v| v as f64).collect();
            c.check(same(&p, &e), "chart-x-values", || format!("series {k} x values {p:?}, expected {e:?}"), i);
        }
        if ch.chart_type == ChartType::Bubble {
            let p = pts(s.kid("c:bubbleSize"));
            let e: Vec<f64> = w.values.iter().map(|v| v.abs()).collect();
            c.check(same(&p, &e), "chart-bubbles", || format!("series {k} sizes {p:?}, expected {e:?}"), i);
        }
        // the cells a series refers to are a column of its own
        let cl = if ch.chart_type == ChartType::Bubble { col(2 * k + 1) } else { col(k + 1) };
        let f: Vec<String> = ["c:tx", "c:val", "c:yVal"].iter().filter_map(|e| s.kid(e)).flat_map(|e| e.all("c:f")).map(|f| f.deep_text()).collect();
        let e = [format!("Sheet1!${cl}$1"), format!("Sheet1!${cl}$2:${cl}${}", 1 + w.values.len())];
        c.check(f == e, "chart-cells", || format!("series {k} refers to {f:?}, expected {e:?}"), i);
    }
    if !xy && n > 0 {
        let e: Vec<(String, String)> = ch.categories.iter().enumerate().map(|(k, t)| (k.to_string(), t.clone())).collect();
        let cs: Vec<&Node> = plots.iter().flat_map(|p| p.all("c:strCache")).collect();
        let ok = cs.iter().any(|s| pts(Some(s)) == e);
        c.check(ok, "chart-categories", || format!("no list of the categories {e:?}"), i);
        if !single {
            c.check(sers.iter().all(|s| s.kid("c:cat").is_some()), "chart-categories-in-axis", || "the categories stand in the axis, not in the series".into(), i);
        }
    }
    if !single {
        c.check(plots.iter().all(|p| p.kids.iter().all(|k| !k.name.ends_with("Ax"))), "chart-axes-in-plot", || "the axes stand inside the plot, not beside it".into(), i);
    }
}
fn u(n: Option<&Node>, a: &str) -> Option<u32> {
    n.and_then(|n| n.attr(a)).and_then(|v| v.parse().ok())
}
pub fn run(c: &mut Ctx) {
    c.rule = "random charts of all kinds, written alone and in decks of several slides with tables, images and notes beside them; read back by an independent XML and package reader; non-trivial: at least two series with values".into();
    let mut n = 0;
    while c.upto(n, 6000) {
        n += 1;
        let mut ch = genr::chart(&mut c.rng);
        if c.rng.chance(1, 30) {
            for _ in 0..30 {
                ch = ch.add_series(ChartSeries::new(&c.rng.text(4), vec![1.5]));
            }
        }
        if c.rng.chance(1, 4) {
            // the same chart by the builder
            let cats = ch.categories.clone();
            let mut b = ChartBuilder::new(&ch.title, ch.chart_type).position(ch.x, ch.y).size(ch.width, ch.height).categories(cats.iter().map(|s| s.as_str()).collect());
            for s in &ch.series {
                b = b.add_series(s.clone());
            }
            let g = b.build();
            c.check(format!("{g:?}") == format!("{ch:?}"), "chart-builder", || format!("builder made {g:?}"), || format!("{ch:?}"));
            ch = g;
        }
        let inp = format!("{ch:?}");
        c.case(&inp, ch.series.iter().filter(|s| !s.values.is_empty()).count() > 1);
        let Some(x) = c.guard("chart-panics", &inp, || generate_chart_part_xml(&ch)) else { continue };
        match parse_xml(x.as_bytes()) {
            Ok(x) => judge(c, &x, &ch, &inp),
            Err(e) => c.fail("chart-xml", e, &inp),
        }
        if n % 6 != 0 {
            continue;
        }
        // in a deck: the frame on the slide shows the right chart in the right box
        let k = c.rng.range(1, 4);
        let slides: Vec<SlideContent> = (0..k)
            .map(|_| {
                let mut s = if c.rng.chance(1, 2) { genr::slide(&mut c.rng, k) } else { SlideContent::new("t") };
                for _ in 0..c.rng.below(3) {
                    s = s.add_chart(genr::chart(&mut c.rng));
                }
                s
            })
            .collect();
        let d = Deck { title: "d".into(), slides, settings: None };
        let inp = format!("charts {:?}", d.slides.iter().map(|s| &s.charts).collect::<Vec<_>>());
        let lazy = c.rng.chance(1, 3);
        let Ok(b) = p_package::write(&d, lazy) else { c.fail("chart-deck", "deck not written", inp); continue };
        let Ok(p) = Pkg::open(&b) else { c.fail("chart-deck", "deck not readable", inp); continue };
        let mut seen = vec![];
        for (path, s) in p.slides().iter().zip(&d.slides) {
            let Some(x) = p.xml(path) else { continue };
            let frames: Vec<&Node> = x.all("p:graphicFrame").into_iter().filter(|f| f.first("c:chart").is_some()).collect();
            if !c.check(frames.len() == s.charts.len(), "chart-frames", || format!("{path}: {} charts shown, expected {}", frames.len(), s.charts.len()), || inp.clone()) {
                continue;
            }
            for (f, ch) in frames.iter().zip(&s.charts) {
                let (o, e) = (f.first("a:off"), f.first("a:ext"));
                let g = (u(o, "x"), u(o, "y"), u(e, "cx"), u(e, "cy"));
                let w = (Some(ch.x), Some(ch.y), Some(ch.width), Some(ch.height));
                c.check(g == w, "chart-box", || format!("{path}: box {g:?}, expected {w:?}"), || inp.clone());
                let rid = f.first("c:chart").and_then(|x| x.attr("r:id")).unwrap_or("").to_string();
                let Some((ty, part)) = p.target(path, &rid) else { c.fail("chart-relation", format!("{path}: no target of {rid}"), inp.clone()); continue };
                c.check(ty == "chart", "chart-relation", || format!("{path}: {rid} is of type {ty}"), || inp.clone());
                c.check(!seen.contains(&part), "chart-shared", || format!("{part} shown twice"), || inp.clone());
                seen.push(part.clone());
                match p.xml(&part) {
                    Some(x) => judge(c, &x, ch, &inp),
                    None => c.fail("chart-part", format!("{part} missing or ill-formed"), inp.clone()),
                }
            }
        }
    }
}
