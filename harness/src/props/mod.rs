use crate::core::Prop;
pub mod p01_markup;
pub mod p02_color;
pub mod p03_css;
pub mod p04_cascade;
pub mod p05_vars;
pub mod p06_restyle;
pub mod p07_strip;
pub mod p08_content;
pub mod p09_canvas;
pub mod p11_export;
pub mod p12_layout;
pub mod p15_fuzzy;
pub mod p16_controls;
pub mod p19_mouse;
pub mod p20_scroll;
pub mod p21_focus;
pub mod p23_app;
pub mod p25_timers;
pub mod p26_draw;
pub mod p27_box;
pub mod p28_palette;
pub mod p29_keyline;
pub mod p30_text;

pub fn all() -> Vec<Prop> {
    vec![
        p01_markup::prop(),
        p02_color::prop(),
        p03_css::prop(),
        p04_cascade::prop(),
        p05_vars::prop(),
        p06_restyle::prop(),
        p07_strip::prop(),
        p08_content::prop(),
        p09_canvas::prop(),
        p09_canvas::prop10(),
        p11_export::prop(),
        p12_layout::prop(),
        p12_layout::prop13(),
        p12_layout::prop14(),
        p15_fuzzy::prop(),
        p16_controls::prop16(),
        p16_controls::prop17(),
        p16_controls::prop18(),
        p19_mouse::prop(),
        p20_scroll::prop(),
        p21_focus::prop(),
        p21_focus::prop22(),
        p23_app::prop(),
        p23_app::prop24(),
        p25_timers::prop(),
        p26_draw::prop(),
        p27_box::prop(),
        p28_palette::prop(),
        p29_keyline::prop(), p30_text::prop(),
    ]
}
