//! A rendering request and its answer. This file is compiled in two programs:
//! one with the whole termimad, and one without its optional feature

use {
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        crossterm::style::Color,
        minimad::{
            Alignment,
            Composite,
        },
        *,
    },
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SkinOp {
    Fg(u8),
    Bg(u8),
    HeadersFg(u8),
    HeadersBg(u8),
    GlobalBg(u8),
    Blend(u8, f32),
    Ascii,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Req {
    /// default, no style, dark, light, or read from the json
    pub start: u8,
    pub json: String,
    pub block_indent: bool,
    pub ops: Vec<SkinOp>,
    pub md: String,
    pub inline: String,
    pub width: Option<usize>,
    pub area: (u16, u16, u16, u16),
    pub scroll: usize,
    pub align: u8,
}

fn skin(req: &Req) -> Result<MadSkin, String> {
    let mut skin = match req.start {
        0 => MadSkin::default(),
        1 => MadSkin::no_style(),
        2 => MadSkin::default_dark(),
        3 => MadSkin::default_light(),
        _ => serde_json::from_str(&req.json).map_err(|e| e.to_string())?,
    };
    if req.block_indent {
        skin.list_items_indentation_mode = ListItemsIndentationMode::Block;
    }
    for op in &req.ops {
        match *op {
            SkinOp::Fg(c) => skin.set_fg(Color::AnsiValue(c)),
            SkinOp::Bg(c) => skin.set_bg(Color::AnsiValue(c)),
            SkinOp::HeadersFg(c) => skin.set_headers_fg(Color::AnsiValue(c)),
            SkinOp::HeadersBg(c) => skin.set_headers_bg(Color::AnsiValue(c)),
            SkinOp::GlobalBg(c) => skin.set_global_bg(Color::AnsiValue(c)),
            SkinOp::Blend(c, w) => skin.blend_with(Color::AnsiValue(c), w),
            SkinOp::Ascii => skin.limit_to_ascii(),
        }
    }
    Ok(skin)
}

/// everything which can be got with this request
pub fn answer(req: &Req) -> Result<Vec<(String, String)>, String> {
    let skin = skin(req)?;
    let mut v: Vec<(String, String)> = Vec::new();
    let mut add = |k: &str, s: String| v.push((k.to_string(), s));
    let mut bytes: Vec<Vec<u8>> = Vec::new();
    add("skin", serde_json::to_string(&skin).map_err(|e| e.to_string())?);
    add("text", skin.text(&req.md, req.width).to_string());
    add("inline", skin.inline(&req.inline).to_string());
    let align = match req.align {
        0 => Alignment::Unspecified,
        1 => Alignment::Left,
        2 => Alignment::Center,
        _ => Alignment::Right,
    };
    let mut out = Vec::new();
    let composite = Composite::from_inline(&req.inline);
    skin.write_composite(&mut out, composite.clone()).map_err(|e| e.to_string())?;
    bytes.push(std::mem::take(&mut out));
    let w = req.width.unwrap_or(10);
    skin.write_composite_fill(&mut out, composite, w, align).map_err(|e| e.to_string())?;
    bytes.push(std::mem::take(&mut out));
    let (l, t, w, h) = req.area;
    let area = Area::new(l, t, w, h);
    let text = skin.area_text(&req.md, &area);
    let mut view = TextView::from(&area, &text);
    view.set_scroll(req.scroll);
    view.write_on(&mut out).map_err(|e| e.to_string())?;
    bytes.push(std::mem::take(&mut out));
    let mut view = MadView::from(req.md.clone(), area, skin);
    view.scroll = req.scroll;
    view.write_on(&mut out).map_err(|e| e.to_string())?;
    bytes.push(std::mem::take(&mut out));
    for (k, b) in ["composite", "filled composite", "text view", "view"].iter().zip(bytes) {
        add(k, String::from_utf8(b).map_err(|e| e.to_string())?);
    }
    Ok(v)
}

pub fn guarded_answer(req: &Req) -> Result<Vec<(String, String)>, String> {
    std::panic::catch_unwind(|| answer(req)).unwrap_or_else(|_| Err("panic".to_string()))
}
