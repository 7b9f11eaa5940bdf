//! random decks over the whole public builder API
use crate::ctx::Rng;
use ppt_rs::generator::*;

#[derive(Clone, Debug)]
pub struct Deck {
    pub title: String,
    pub slides: Vec<SlideContent>,
    pub settings: Option<PresentationSettings>,
}
impl Deck {
    pub fn desc(&self) -> String {
        format!("title={:?} slides={:?} settings={:?}", self.title, self.slides, self.settings)
    }
}
pub fn color(r: &mut Rng) -> String {
    let s: String = (0..6).map(|_| *r.pick(&['0', '1', '7', '9', 'A', 'C', 'F', 'b'])).collect();
    if r.chance(1, 4) { format!("#{s}") } else { s }
}
pub fn emu(r: &mut Rng) -> u32 {
    *r.pick(&[0u32, 1, 457200, 914400, 1234567, 6858000, 9144000])
}
pub fn size(r: &mut Rng) -> u32 {
    *r.pick(&[1u32, 100, 457200, 914400, 3000000, 8230200])
}
pub const LAYOUTS: &[SlideLayout] = &[
    SlideLayout::CenteredTitle, SlideLayout::TitleAndContent, SlideLayout::TwoColumn, SlideLayout::SectionHeader, SlideLayout::Blank, SlideLayout::TitleOnly, SlideLayout::TitleAndBigContent,
];
pub const TRANSITIONS: &[TransitionType] = &[
    TransitionType::None, TransitionType::Fade, TransitionType::Cut, TransitionType::Push, TransitionType::Wipe, TransitionType::Split, TransitionType::Reveal, TransitionType::Cover, TransitionType::Zoom,
];
pub const CHARTS: &[ChartType] = &[
    ChartType::Bar, ChartType::BarHorizontal, ChartType::BarStacked, ChartType::BarStacked100, ChartType::Line, ChartType::LineMarkers, ChartType::LineStacked, ChartType::Pie, ChartType::Doughnut,
    ChartType::Area, ChartType::AreaStacked, ChartType::AreaStacked100, ChartType::Scatter, ChartType::ScatterLines, ChartType::ScatterSmooth, ChartType::Bubble, ChartType::Radar, ChartType::RadarFilled,
    ChartType::StockHLC, ChartType::StockOHLC, ChartType::Combo,
];
pub const SHAPES: &[ShapeType] = &[
    ShapeType::Rectangle, ShapeType::RoundedRectangle, ShapeType::Ellipse, ShapeType::Circle, ShapeType::Triangle, ShapeType::Diamond, ShapeType::RightArrow, ShapeType::Star5, ShapeType::CloudCallout,
    ShapeType::Heart, ShapeType::Cube, ShapeType::Donut, ShapeType::Plus, ShapeType::Minus, ShapeType::FlowChartProcess, ShapeType::FlowChartDecision,
];
pub fn bullet_style(r: &mut Rng) -> BulletStyle {
    match r.below(8) {
        0 => BulletStyle::Bullet,
        1 => BulletStyle::Number,
        2 => BulletStyle::LetterLower,
        3 => BulletStyle::LetterUpper,
        4 => BulletStyle::RomanLower,
        5 => BulletStyle::RomanUpper,
        6 => BulletStyle::Custom(*r.pick(&['★', '-', 'é', '→', '&', '"', '<'])),
        _ => BulletStyle::None,
    }
}
pub fn bullet(r: &mut Rng) -> BulletPoint {
    let mut b = BulletPoint::new(&r.text(14)).with_level(r.below(4) as u32).with_style(bullet_style(r));
    if r.chance(1, 2) {
        let mut f = BulletTextFormat::new();
        if r.chance(1, 3) { f = f.bold() }
        if r.chance(1, 3) { f = f.italic() }
        if r.chance(1, 3) { f = f.underline() }
        if r.chance(1, 3) { f = f.strikethrough() }
        if r.chance(1, 4) { f = f.subscript() }
        if r.chance(1, 4) { f = f.superscript() }
        if r.chance(1, 3) { f = f.color(&color(r)) }
        if r.chance(1, 3) { f = f.highlight(&color(r)) }
        if r.chance(1, 3) { f = f.font_size(r.range(6, 96) as u32) }
        if r.chance(1, 3) { f = f.font_family(&r.text(8)) }
        b = b.with_format(f);
    }
    b
}
pub fn table(r: &mut Rng) -> Table {
    let cols = r.range(1, 4);
    let mut tb = TableBuilder::new((0..cols).map(|_| size(r) / 10).collect()).position(emu(r), emu(r));
    for _ in 0..r.below(4) {
        let mut cells = vec![];
        for _ in 0..cols {
            let mut c = TableCell::new(&r.text(10));
            if r.chance(1, 4) { c = c.bold() }
            if r.chance(1, 4) { c = c.italic() }
            if r.chance(1, 4) { c = c.underline() }
            if r.chance(1, 4) { c = c.text_color(&color(r)) }
            if r.chance(1, 4) { c = c.background_color(&color(r)) }
            if r.chance(1, 4) { c = c.font_size(r.range(6, 60) as u32) }
            if r.chance(1, 4) { c = c.font_family(&r.text(6)) }
            if r.chance(1, 4) { c = c.align(r.pick(&[CellAlign::Left, CellAlign::Center, CellAlign::Right, CellAlign::Justify]).clone()) }
            if r.chance(1, 4) { c = c.valign(r.pick(&[CellVAlign::Top, CellVAlign::Middle, CellVAlign::Bottom]).clone()) }
            if r.chance(1, 4) { c = c.wrap(r.chance(1, 2)) }
            if r.chance(1, 8) { c = c.grid_span(r.range(1, 3) as u32) }
            if r.chance(1, 8) { c = c.row_span(r.range(1, 3) as u32) }
            if r.chance(1, 8) { c = c.h_merge() }
            if r.chance(1, 8) { c = c.v_merge() }
            cells.push(c);
        }
        let mut row = TableRow::new(cells);
        if r.chance(1, 3) { row = row.with_height(size(r)) }
        tb = tb.add_row(row);
    }
    tb.build()
}
pub fn chart(r: &mut Rng) -> Chart {
    let nc = r.below(4);
    let cats: Vec<String> = (0..nc).map(|_| r.text(8)).collect();
    let mut c = Chart::new(&r.text(10), *r.pick(CHARTS), cats, emu(r), emu(r), size(r), size(r));
    for _ in 0..r.below(4) {
        let n = if r.chance(1, 5) { r.below(5) } else { nc };
        let v = (0..n).map(|_| *r.pick(&[0.0, 1.0, -2.5, 1e9, 3.25, 0.1, 1234567.0, -0.0])).collect();
        c = c.add_series(ChartSeries::new(&r.text(8), v));
    }
    c
}
pub fn hyperlink(r: &mut Rng, nslides: usize) -> Hyperlink {
    let a = match r.below(9) {
        0 => HyperlinkAction::url(&format!("https://example.com/?q={}", r.text(8))),
        1 => HyperlinkAction::slide(r.range(1, nslides.max(1)) as u32),
        2 => HyperlinkAction::FirstSlide,
        3 => HyperlinkAction::LastSlide,
        4 => HyperlinkAction::NextSlide,
        5 => HyperlinkAction::EndShow,
        6 => HyperlinkAction::email_with_subject(&format!("{}@x.org", r.word()), &r.text(6)),
        7 => HyperlinkAction::email(&format!("{}@x.org", r.word())),
        _ => HyperlinkAction::file(&format!("C:\\{}\\{}", r.word(), r.text(6))),
    };
    let mut h = Hyperlink::new(a);
    if r.chance(1, 2) { h = h.with_tooltip(&r.text(8)) }
    if r.chance(1, 3) { h = h.with_highlight_click(false) }
    h
}
pub fn shape(r: &mut Rng) -> Shape {
    let mut s = Shape::new(*r.pick(SHAPES), emu(r), emu(r), size(r), size(r));
    if r.chance(2, 3) {
        s = s.with_text(&match r.below(6) {
            0 => format!("[{}]\n{}\n{}", r.word(), r.text(8), r.text(8)),
            1 => format!("{}\n{}", r.text(8), r.text(8)),
            2 => format!("{}\n\n{}", r.text(70), r.text(8)),
            _ => r.text(12),
        })
    }
    if r.chance(1, 3) {
        let mut f = ShapeFill::new(&color(r));
        if r.chance(1, 2) { f = f.with_transparency(r.range(0, 100) as u32) }
        s = s.with_fill(f);
    }
    if r.chance(1, 4) {
        let mut g = ShapeGradientFill::linear(&color(r), &color(r), *r.pick(&[ShapeGradientDirection::Horizontal, ShapeGradientDirection::Vertical, ShapeGradientDirection::DiagonalDown, ShapeGradientDirection::DiagonalUp, ShapeGradientDirection::Angle(33)]));
        if r.chance(1, 2) { g = g.with_stop(ShapeGradientStop::new(&color(r), r.range(0, 100) as u32).with_transparency(r.range(0, 100) as u32)) }
        s = s.with_gradient(g);
    }
    if r.chance(1, 3) { s = s.with_line(ShapeLine::new(&color(r), size(r))) }
    if r.chance(1, 4) { s = s.with_rotation(r.range(0, 720) as i32 - 360) }
    s
}
pub fn png(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, 0, 0, 0, 13, b'I', b'H', b'D', b'R', 0, 0, 0, 16, 0, 0, 0, 16];
    let n = r.below(3);
    v.push(n as u8);
    v
}
pub fn image(r: &mut Rng) -> Image {
    let data = if r.chance(1, 3) { r.bytes(3) } else { png(r) };
    let fmt = *r.pick(&["PNG", "PNG", "JPEG", "GIF", "jpg", "png", "BMP", "TIFF", "svg", "webp"]);
    let mut i = if r.chance(1, 10) {
        Image::new(&format!("/nonexistent/{}.png", r.word()), size(r), size(r), "PNG")
    } else if r.chance(1, 3) {
        let b = crate::b64(&data);
        Image::from_base64(&b, size(r), size(r), fmt)
    } else {
        Image::from_bytes(data, size(r), size(r), fmt)
    };
    if r.chance(1, 6) {
        i.filename = format!("{}.{}", r.text(5), r.pick(&["jpeg", "JPG", "tif", "png", "bmp"]));
    }
    i = i.position(emu(r), emu(r));
    if r.chance(1, 2) { i = i.with_alt_text(&r.text(10)) }
    if r.chance(1, 4) { i = i.with_crop(0.1, 0.25, 0.0, 0.5) }
    for _ in 0..r.below(3) {
        i = i.with_effect(match r.below(6) {
            0 => images::ImageEffect::Shadow,
            1 => images::ImageEffect::Reflection,
            2 => images::ImageEffect::Glow,
            3 => images::ImageEffect::SoftEdges,
            4 => images::ImageEffect::InnerShadow,
            _ => images::ImageEffect::Blur,
        });
    }
    i
}
pub fn connector(r: &mut Rng) -> Connector {
    let mut c = Connector::new(*r.pick(&[ConnectorType::Straight, ConnectorType::Elbow, ConnectorType::Curved]), emu(r), emu(r), emu(r), emu(r));
    if r.chance(1, 3) {
        c = c.with_line(ConnectorLine::new(&color(r), size(r)).with_dash(*r.pick(&[LineDash::Solid, LineDash::Dash, LineDash::Dot, LineDash::DashDot, LineDash::DashDotDot, LineDash::LongDash, LineDash::LongDashDot])))
    }
    let arrows = [ArrowType::None, ArrowType::Triangle, ArrowType::Stealth, ArrowType::Diamond, ArrowType::Oval, ArrowType::Open];
    c = c.with_arrows(*r.pick(&arrows), *r.pick(&arrows)).with_arrow_size(*r.pick(&[ArrowSize::Small, ArrowSize::Medium, ArrowSize::Large]));
    if r.chance(1, 3) { c = c.connect_start(r.below(40) as u32, ConnectionSite::Top) }
    if r.chance(1, 3) { c = c.connect_end(r.below(40) as u32, ConnectionSite::Right) }
    if r.chance(1, 2) { c = c.with_label(&r.text(10)) }
    c
}
pub fn ink(r: &mut Rng) -> InkAnnotations {
    let mut a = InkAnnotations::new();
    for _ in 0..r.range(1, 3) {
        let mut p = InkPen::new(&color(r), size(r));
        if r.chance(1, 2) { p = p.tip(PenTip::Flat) }
        if r.chance(1, 2) { p = p.opacity(0.5) }
        let mut s = InkStroke::new(p);
        for _ in 0..r.below(4) {
            s = s.add_point(r.below(100) as f64 / 4.0, r.below(100) as f64);
        }
        a.add_stroke(s);
    }
    a
}
pub fn slide(r: &mut Rng, nslides: usize) -> SlideContent {
    let mut s = SlideContent::new(&r.text(12)).layout(*r.pick(LAYOUTS)).with_transition(*r.pick(TRANSITIONS)).with_bullet_style(bullet_style(r));
    if r.chance(1, 3) { s = s.title_size(r.range(8, 96) as u32).content_size(r.range(8, 60) as u32) }
    if r.chance(1, 3) { s = s.title_italic(true).title_underline(true).content_bold(true).content_italic(true).content_underline(true) }
    if r.chance(1, 3) { s = s.title_color(&color(r)) }
    if r.chance(1, 3) { s = s.content_color(&color(r)) }
    for _ in 0..r.below(4) {
        s = match r.below(6) {
            0 => s.add_bullet(&r.text(14)),
            1 => s.add_numbered(&r.text(14)),
            2 => s.add_lettered(&r.text(14)),
            3 => s.add_sub_bullet(&r.text(14)),
            4 => {
                let st = bullet_style(r);
                s.add_styled_bullet(&r.text(14), st)
            }
            _ => {
                let b = bullet(r);
                s.content.push(b.text.clone());
                s.bullets.push(b);
                s
            }
        };
    }
    if r.chance(1, 5) { s.bullets.clear() }
    if r.chance(1, 4) { s = s.table(table(r)) }
    if r.chance(1, 3) {
        for k in 0..r.range(1, 3) {
            let mut sh = shape(r);
            if r.chance(1, 4) {
                // the caller is responsible for a relationship id that is free on the slide
                sh = sh.with_hyperlink(hyperlink(r, nslides).with_r_id(&format!("rIdLink{k}")));
            }
            // fixed ids are distinct, but may be any the library could assign
            if r.chance(1, 5) { sh = sh.with_id((10 + 3 * r.below(45) + k) as u32) }
            s = s.add_shape(sh)
        }
    }
    if r.chance(1, 3) { for _ in 0..r.range(1, 3) { s = s.add_image(image(r)) } }
    if r.chance(1, 3) { for _ in 0..r.range(1, 2) { s = s.add_connector(connector(r)) } }
    if r.chance(1, 3) { for _ in 0..r.range(1, 2) { s = s.add_chart(chart(r)) } }
    if r.chance(1, 6) {
        s.code_blocks.push(slide_content::CodeBlock::new(&format!("{}\n{}", r.text(12), r.text(12)), *r.pick(&["rust", "python", "txt", "xyz"])));
    }
    if r.chance(1, 3) { s = s.notes(&if r.chance(1, 4) { format!("{}\n{}", r.text(12), r.text(9)) } else { r.text(20) }) }
    if r.chance(1, 6) { s = s.with_ink(ink(r)) }
    s
}
pub fn font(r: &mut Rng, k: usize) -> EmbeddedFont {
    let n = r.text(6);
    let st = *r.pick(&[FontStyle::Regular, FontStyle::Bold, FontStyle::Italic, FontStyle::BoldItalic]);
    let mut f = EmbeddedFont::new(&format!("{n}{k}"), st, r.bytes(8), "");
    if r.chance(1, 3) { f = f.panose("020B0604020202020204") }
    if r.chance(1, 3) { f = f.pitch_family(r.below(255) as u8) }
    f
}
pub fn settings(r: &mut Rng) -> PresentationSettings {
    let mut p = PresentationSettings::new();
    if r.chance(1, 3) {
        let mut t = PresentationTheme::new(r.text(8));
        if r.chance(1, 2) { t = t.major_font(r.text(6)).minor_font(r.text(6)) }
        if r.chance(1, 2) { t = t.colors(ThemeColorScheme::office().accent1(color(r)).accent2(color(r)).hyperlink(color(r))) }
        p = p.theme(t);
    }
    if r.chance(1, 3) {
        let mut s = SlideShowSettings::new().show_type(*r.pick(&[ShowType::Speaker, ShowType::Kiosk, ShowType::Browsed])).pen_color(slide_content::PenColor::new(&color(r)));
        if r.chance(1, 2) { s = s.loop_continuously(true).without_narration(true).without_animation(true).use_timings(false).show_media_controls(false) }
        if r.chance(1, 3) { s = s.slide_range(SlideRange::Range { start: 1, end: 3 }) }
        p = p.slide_show(s);
    }
    if r.chance(1, 2) {
        let mut s = PrintSettings::new()
            .print_what(*r.pick(&[PrintWhat::Slides, PrintWhat::Handouts, PrintWhat::Handouts, PrintWhat::Notes, PrintWhat::Outline]))
            .color_mode(*r.pick(&[PrintColorMode::Color, PrintColorMode::Grayscale, PrintColorMode::BlackAndWhite]))
            .handout_layout(*r.pick(&[HandoutLayout::SlidesPerPage1, HandoutLayout::SlidesPerPage3, HandoutLayout::SlidesPerPage9]))
            .orientation(*r.pick(&[Orientation::Landscape, Orientation::Portrait]));
        if r.chance(1, 2) { s = s.header(&r.text(8)) }
        if r.chance(1, 2) { s = s.footer(&r.text(8)) }
        if r.chance(1, 3) { s = s.print_date(false).print_page_numbers(false).frame_slides(true) }
        p = p.print(s);
    }
    if r.chance(1, 3) {
        let mut l = EmbeddedFontList::new();
        for k in 0..r.below(4) {
            l.add(font(r, k));
        }
        p = p.embedded_fonts(l);
    }
    if r.chance(1, 3) {
        let mut i = SignerInfo::new(&r.text(8));
        if r.chance(1, 2) { i = i.email(&r.text(8)).organization(&r.text(8)).title(&r.text(6)) }
        let mut d = DigitalSignature::new(i).hash_algorithm(*r.pick(&[HashAlgorithm::Sha256, HashAlgorithm::Sha384, HashAlgorithm::Sha512, HashAlgorithm::Sha1]));
        if r.chance(1, 2) { d = d.sign_date("2026-01-01T00:00:00Z").comments(&r.text(10)).commitment(*r.pick(&[SignatureCommitment::Created, SignatureCommitment::Approved, SignatureCommitment::Reviewed])) }
        p = p.digital_signature(d);
    }
    p
}
pub fn deck(r: &mut Rng) -> Deck {
    let n = if r.chance(1, 12) { r.range(9, 12) } else { r.range(1, 4) };
    let slides = (0..n).map(|_| slide(r, n)).collect();
    let settings = if r.chance(1, 2) { Some(settings(r)) } else { None };
    Deck { title: r.text(12), slides, settings }
}
