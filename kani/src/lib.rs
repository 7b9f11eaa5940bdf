//! The real source files of /repo, included by path, and one loop-free harness per statement: every input is symbolic.
#![allow(dead_code, unused_imports)]
pub mod core {
    pub trait ToXml { fn to_xml(&self) -> String; }
    #[path = "@REPO@/src/core/dimension.rs"]
    pub mod dimension;
    pub use dimension::*;
    // extracted on every run by check.py from core/validation.rs
    include!("clamp.rs");
}
pub mod elements {
    #[path = "@REPO@/src/elements/color.rs"]
    pub mod color;
    pub use color::*;
    #[path = "@REPO@/src/elements/position.rs"]
    pub mod position;
    pub use position::*;
}
pub mod helpers {
    #[path = "@REPO@/src/helpers/colors.rs"]
    pub mod colors;
}
#[cfg(kani)]
mod proofs {
    use crate::core::*;
    use crate::elements::*;
    use crate::helpers::colors::ColorValue;
    fn cv() -> ColorValue { ColorValue { r: kani::any(), g: kani::any(), b: kani::any(), a: kani::any() } }
    // C12
    #[kani::proof]
    fn dim_total() {
        // no measure, not even NaN or infinity, stops the program; lengths never leave the type
        let v: f64 = kani::any(); let r: u32 = kani::any();
        let _ = Dimension::Inches(v).to_emu(r); let _ = Dimension::Cm(v).to_emu(r); let _ = Dimension::Pt(v).to_emu(r);
        assert!(Dimension::Emu(r).to_emu(7) == r);
        if !(v > 0.0) { assert!(Dimension::Inches(v).to_emu(r) == 0 && Dimension::Cm(v).to_emu(r) == 0 && Dimension::Pt(v).to_emu(r) == 0); }
    }
    #[kani::proof]
    fn dim_ratio_within() { let v: f64 = kani::any(); let r: u32 = kani::any(); let e = Dimension::Ratio(v).to_emu(r); assert!(e <= r); if !(v > 0.0) { assert!(e == 0); } if v >= 1.0 { assert!(e == r); } }
    #[kani::proof]
    fn pos_total() {
        let (v, w): (f64, f64) = (kani::any(), kani::any());
        let p = Position::from_inches(v, w); let s = Size::from_cm(v, w); let _ = (p.x_inches(), p.y_inches(), s.width_inches(), s.height_inches());
        let _ = Transform::from_inches(v, w, v, w).with_rotation(v);
        if v > 0.0 { assert!(p.x >= 0 && s.width >= 0); } if v.is_nan() { assert!(p.x == 0 && s.width == 0); }
    }
    #[kani::proof]
    fn pos_whole() { let n: i16 = kani::any(); let p = Position::from_inches(n as f64, 0.0); assert!(p.x == n as i64 * 914400 && p.y == 0); let s = Size::from_cm(0.0, n as f64); assert!(s.height == n as i64 * 360000 && s.width == 0); }
    #[kani::proof]
    fn dim_whole_inches() { let n: u16 = kani::any(); kani::assume(n <= 4096); assert!(Dimension::Inches(n as f64).to_emu(0) == n as u32 * 914400); }
    #[kani::proof]
    fn dim_whole_cm() { let n: u16 = kani::any(); kani::assume(n <= 10000); assert!(Dimension::Cm(n as f64).to_emu(0) == n as u32 * 360000); }
    #[kani::proof]
    fn dim_whole_pt() { let n: u32 = kani::any(); kani::assume(n <= 300000); assert!(Dimension::Pt(n as f64).to_emu(0) == n * 12700); }
    #[kani::proof]
    fn dim_ratio_ends() { let r: u32 = kani::any(); assert!(Dimension::Ratio(1.0).to_emu(r) == r && Dimension::Ratio(0.0).to_emu(r) == 0); }
    #[kani::proof]
    fn dim_axes() {
        let d = Dimension::Ratio(1.0); let p = FlexPosition::new(d.clone(), d.clone()); assert!(p.to_emu() == (SLIDE_WIDTH_EMU, SLIDE_HEIGHT_EMU));
        let (w, h): (u32, u32) = (kani::any(), kani::any());
        assert!(p.to_emu_with(w, h) == (w, h)); let s = FlexSize::new(d.clone(), d); assert!(s.to_emu_with(w, h) == (w, h) && s.to_emu() == (SLIDE_WIDTH_EMU, SLIDE_HEIGHT_EMU));
    }
    // C13
    #[kani::proof]
    fn cv_lighter() { let c = cv(); let x: f32 = kani::any(); let l = c.lighter(x); assert!(l.a == c.a); if !x.is_nan() { assert!(l.r >= c.r && l.g >= c.g && l.b >= c.b); } }
    #[kani::proof]
    fn cv_darker() { let c = cv(); let x: f32 = kani::any(); let l = c.darker(x); assert!(l.a == c.a && l.r <= c.r && l.g <= c.g && l.b <= c.b); }
    #[kani::proof]
    fn cv_ends() {
        let c = cv(); let d = cv();
        assert!(c.lighter(0.0) == c && c.darker(0.0) == c && c.mix(&d, 0.0) == c && c.mix(&d, 1.0) == d);
        assert!(c.lighter(1.0) == ColorValue { r: 255, g: 255, b: 255, a: c.a } && c.darker(1.0) == ColorValue { r: 0, g: 0, b: 0, a: c.a });
        assert!(c.invert().invert() == c && c.opacity(1.0) == ColorValue { a: 255, ..c } && c.opacity(0.0) == ColorValue { a: 0, ..c });
        let p: u8 = kani::any(); let t = c.transparent(p); assert!(t.r == c.r && t.g == c.g && t.b == c.b); if p >= 100 { assert!(t.a == 0); } if p == 0 { assert!(t.a == 255); }
    }
    #[kani::proof]
    fn cv_mix() { let c = cv(); let d = cv(); let x: f32 = kani::any(); kani::assume(!x.is_nan()); let m = c.mix(&d, x); assert!(m.r as i32 >= (c.r.min(d.r) as i32) - 1 && m.r <= c.r.max(d.r)); }
    #[kani::proof]
    fn cv_gray() { let c = cv(); let g = c.grayscale(); assert!(g.a == c.a && g.r == g.g && g.g == g.b); let (lo, hi) = (c.r.min(c.g).min(c.b), c.r.max(c.g).max(c.b)); assert!(g.r as i32 >= lo as i32 - 1 && g.r <= hi); }
}
