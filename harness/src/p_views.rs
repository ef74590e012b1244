//! Views in an area: text views, scrolling, scrollbars, rects, progress bars

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        model::*,
        term::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        crossterm::event::{
            KeyCode,
            KeyEvent,
            KeyModifiers,
        },
        minimad::Line,
        *,
    },
};

/// the size of the emulated terminal

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub struct AreaSpec {
    pub l: u16,
    pub t: u16,
    pub w: u16,
    pub h: u16,
}
impl AreaSpec {
    pub fn area(&self) -> Area {
        Area::new(self.l, self.t, self.w, self.h)
    }
    /// a screen with room around the area
    pub fn screen(&self) -> Grid {
        Grid::new(
            130.max(self.l as usize + self.w as usize + 20),
            40.max(self.t as usize + self.h as usize + 10),
        )
    }
}

/// areas of a very big screen
pub fn big_area(min_w: u16, min_h: u16) -> BoxedStrategy<(u16, u16, u16, u16)> {
    let pos = || prop_oneof![3 => 0..12u16, 1 => 120..300u16, 1 => 900..1100u16];
    let w = prop_oneof![2 => min_w..min_w + 20, 1 => 120..300u16];
    let h = prop_oneof![2 => min_h..min_h + 6, 1 => 100..300u16];
    (pos(), pos(), w, h)
        .prop_filter("too many cells", |&(l, t, w, h)| (l as u32 + w as u32) * (t as u32 + h as u32) < 250_000)
        .boxed()
}

pub fn area_spec(min_w: u16, min_h: u16) -> BoxedStrategy<AreaSpec> {
    let usual = (
        0..12u16,
        0..12u16,
        prop_oneof![3 => min_w..min_w + 12, 3 => min_w..min_w + 60],
        prop_oneof![3 => min_h..min_h + 6, 1 => min_h..min_h + 20],
    );
    let big = big_area(min_w, min_h);
    prop_oneof![199 => usual, 1 => big]
        .prop_map(|(l, t, w, h)| AreaSpec { l, t, w, h })
        .boxed()
}

/// a styled row of exactly this width
pub fn grid_row(grid: &Grid, x: usize, y: usize, w: usize) -> Vec<(String, St)> {
    (x..x + w)
        .map(|x| {
            let c = grid.cell(x, y);
            (c.s.clone().unwrap_or("\u{fffd}".to_string()), c.st)
        })
        .collect()
}

/// cells expected for a row
pub fn row_cells(row: &[Sc]) -> Vec<(String, St)> {
    let mut v: Vec<(String, St)> = Vec::new();
    for s in row {
        if s.w == 0 {
            if let Some(l) = v.iter_mut().rev().find(|c| !c.0.is_empty()) {
                l.0.push(s.c);
            }
        } else {
            v.push((s.c.to_string(), s.st));
            for _ in 1..s.w {
                v.push((String::new(), s.st));
            }
        }
    }
    v
}

/// what the scrollbar column should show
fn check_scrollbar_column(
    model: &Model,
    grid: &Grid,
    a: &AreaSpec,
    bar: (u16, u16),
) -> Result<(), String> {
    let x = (a.l + a.w - 1) as usize;
    for j in 0..a.h {
        let y = a.t + j;
        let expected = if bar.0 <= y && y <= bar.1 { model.thumb } else { model.track };
        let cell = grid.cell(x, y as usize);
        ensure!(
            cell.s.as_deref() == Some(&expected.c.to_string()) && cell.st == expected.st,
            "scrollbar cell at line {j} is {cell:?} instead of {expected:?} with a thumb {bar:?}"
        );
    }
    Ok(())
}

// -------------------------------------------------- C09: writing in an area

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ViewCase {
    pub md: String,
    pub area: AreaSpec,
    pub skin: SkinSpec,
    pub scroll: usize,
    pub show_scrollbar: bool,
}

fn view_case(tier: Tier) -> BoxedStrategy<ViewCase> {
    (
        prop_oneof![3 => doc(tier, tier.pick(8, 20)), 1 => line_md()],
        area_spec(4, 1),
        skin(),
        prop_oneof![20 => Just(0usize), 30 => 0..12usize, 10 => 0..60usize, 1 => 0..400usize],
        prop::bool::weighted(0.7),
    )
        .prop_map(|(md, area, skin, scroll, show_scrollbar)| ViewCase { md, area, skin, scroll, show_scrollbar })
        .boxed()
}

fn in_domain(model: &Model, text: &minimad::Text<'_>, width: usize) -> bool {
    text.lines.iter().all(line_additive)
        && text.lines.iter().all(|l| match l {
            Line::Normal(c) => feasible(model, c.style.into(), Some(width), max_char_width(l)),
            Line::TableRow(r) => r.cells.iter().all(|c| {
                let p = prefix_width(model, c.style.into());
                let m = c.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).max().unwrap_or(0);
                p + m <= 3
            }),
            _ => true,
        })
}

/// text of a row, without the spaces around, and the zero width chars
fn bare_text(s: &str) -> String {
    let s: String = s.chars().filter(|c| char_width(*c) > 0).collect();
    s.trim_matches(' ').to_string()
}

fn check_grid(
    skin: &MadSkin,
    model: &Model,
    text: &FmtText<'_, '_>,
    a: &AreaSpec,
    scroll: usize,
    show_scrollbar: bool,
    out: &[u8],
) -> Result<Option<(u16, u16)>, String> {
    let mut grid = a.screen();
    grid.feed_bytes(out)?;
    let (l, t, w, h) = (a.l as usize, a.t as usize, a.w as usize, a.h as usize);
    grid.check_exactly(l, t, w, h)?;
    ensure_eq!(grid.overwrites, 0, "number of cells written several times");
    ensure!(grid.is_reset(), "style not reset");
    let bar = if show_scrollbar && text.lines.len() > h {
        compute_scrollbar(scroll, text.lines.len(), h, a.t)
    } else {
        None
    };
    ensure_eq!(
        bar.is_some(),
        show_scrollbar && text.lines.len() > h,
        "presence of a scrollbar"
    );
    let cw = if bar.is_some() { w - 1 } else { w };
    let plain = rows(&text.to_string())?;
    ensure_eq!(plain.len(), text.lines.len(), "rows in the text");
    for j in 0..h {
        let got = grid_row(&grid, l, t + j, cw);
        let got_text: String = got.iter().map(|c| &*c.0).collect();
        match text.lines.get(scroll + j) {
            Some(line) => {
                let row = single_row(&DisplayableLine::new(skin, line, Some(cw)).to_string())?;
                ensure!(
                    got == row_cells(&row),
                    "line {j} of the area shows {got_text:?} instead of the line {} of the text, {:?}",
                    scroll + j,
                    row_text(&row)
                );
                if !matches!(line, FmtLine::HorizontalRule) {
                    ensure_eq!(
                        bare_text(&got_text),
                        bare_text(&row_text(&plain[scroll + j])),
                        "content of line {j} of the area"
                    );
                } else {
                    ensure!(
                        got.iter().all(|c| c.0 == model.rule.c.to_string() && c.1 == model.rule.st),
                        "bad horizontal rule: {got_text:?}"
                    );
                }
            }
            None => {
                ensure!(
                    got.iter().all(|c| c.0 == " " && c.1 == model.para.st),
                    "line {j} of the area, after the text, isn't blank: {got_text:?}"
                );
            }
        }
    }
    if let Some(bar) = bar {
        check_scrollbar_column(model, &grid, a, bar)?;
    }
    Ok(bar)
}

fn check_view(case: &ViewCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let mt = parse(&case.md);
    if !in_domain(&model, &mt, case.area.w as usize - 1) {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let area = case.area.area();
    let text = skin.area_text(&case.md, &area);
    ensure_eq!(text.width, Some(case.area.w as usize - 1), "width of an area text");
    let mut view = TextView::from(&area, &text);
    view.show_scrollbar = case.show_scrollbar;
    let scroll = view.set_scroll(case.scroll);
    let h = case.area.h as usize;
    ensure_eq!(
        scroll,
        case.scroll.min(text.lines.len().saturating_sub(h)),
        "scroll after set_scroll"
    );
    let mut out = Vec::new();
    view.write_on(&mut out).map_err(|e| e.to_string())?;
    let bar = check_grid(&skin, &model, &text, &case.area, scroll, case.show_scrollbar, &out)?;
    // same with a MadView
    let mut mv = MadView::from(case.md.clone(), area.clone(), skin.clone());
    mv.scroll = scroll;
    let mut out = Vec::new();
    mv.write_on(&mut out).map_err(|e| e.to_string())?;
    check_grid(&skin, &model, &text, &case.area, scroll, true, &out).map_err(|e| format!("MadView: {e}"))?;
    // and with write_in_area_on
    let mut out = Vec::new();
    skin.write_in_area_on(&mut out, &case.md, &area).map_err(|e| e.to_string())?;
    check_grid(&skin, &model, &text, &case.area, 0, false, &out).map_err(|e| format!("write_in_area_on: {e}"))?;
    info.class(bar.is_some(), "with scrollbar");
    info.hit(text.lines.len() > h, "text higher than the area");
    info.hit(scroll > 0, "scrolled");
    info.hit(text.lines.len() > mt.lines.len(), "wrapped");
    Ok(info)
}

// -------------------------------------------------- C10: scroll histories

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ScrollOp {
    Set(usize),
    Lines(i32),
    Pages(i32),
    HalfPages(i32),
    /// in 1/64th of a page
    PagePart(i32),
    Up,
    Down,
    PageUp,
    PageDown,
    Key(u8),
    /// a key which does nothing
    OtherKey(u8),
}

fn scroll_op() -> BoxedStrategy<ScrollOp> {
    prop_oneof![
        2 => prop_oneof![0..30usize, 0..10_000usize].prop_map(ScrollOp::Set),
        4 => prop_oneof![6 => -20..20i32, 1 => any::<i32>(), 1 => Just(i32::MIN), 1 => Just(i32::MAX)].prop_map(ScrollOp::Lines),
        3 => prop_oneof![6 => -4..4i32, 1 => any::<i32>()].prop_map(ScrollOp::Pages),
        2 => (-5..5i32).prop_map(ScrollOp::HalfPages),
        2 => (-200..200i32).prop_map(ScrollOp::PagePart),
        1 => Just(ScrollOp::Up),
        2 => Just(ScrollOp::Down),
        1 => Just(ScrollOp::PageUp),
        2 => Just(ScrollOp::PageDown),
        5 => (0..4u8).prop_map(ScrollOp::Key),
        1 => (0..6u8).prop_map(ScrollOp::OtherKey),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ScrollCase {
    pub nb_lines: usize,
    pub h: u16,
    pub ops: Vec<ScrollOp>,
}

fn scroll_case(tier: Tier) -> BoxedStrategy<ScrollCase> {
    (
        prop_oneof![60 => 0..40usize, 10 => 0..400usize, 1 => 1000..70_000usize],
        prop_oneof![40 => 1..8u16, 20 => 1..40u16, 1 => 100..1200u16],
        vec(scroll_op(), 1..tier.pick(20, 60)),
    )
        .prop_map(|(nb_lines, h, ops)| ScrollCase { nb_lines, h, ops })
        .boxed()
}

/// the reference model of a scrolled content
#[derive(Clone, Copy)]
pub struct ScrollModel {
    pub scroll: i128,
    pub content: i128,
    pub h: i128,
}
impl ScrollModel {
    pub fn max(&self) -> i128 {
        (self.content - self.h).max(0)
    }
    pub fn set(&mut self, scroll: i128) -> bool {
        let before = self.scroll;
        self.scroll = scroll.clamp(0, self.max());
        self.scroll != before
    }
    pub fn by(&mut self, d: i128) -> bool {
        self.set(self.scroll + d)
    }
}

fn key_of(k: u8) -> KeyCode {
    match k {
        0 => KeyCode::Up,
        1 => KeyCode::Down,
        2 => KeyCode::PageUp,
        _ => KeyCode::PageDown,
    }
}
fn other_key(k: u8) -> KeyEvent {
    match k {
        0 => KeyEvent::new(KeyCode::Up, KeyModifiers::SHIFT),
        1 => KeyEvent::new(KeyCode::PageDown, KeyModifiers::CONTROL),
        2 => KeyEvent::new(KeyCode::Char('j'), KeyModifiers::NONE),
        3 => KeyEvent::new(KeyCode::Enter, KeyModifiers::NONE),
        4 => KeyEvent::new(KeyCode::Left, KeyModifiers::NONE),
        _ => KeyEvent::new(KeyCode::Down, KeyModifiers::ALT),
    }
}

fn lines_md(n: usize) -> String {
    (0..n).map(|i| format!("line {i}\n")).collect()
}

fn check_scroll(case: &ScrollCase) -> CheckResult {
    let mut info = Info::new();
    let skin = MadSkin::no_style();
    let md = lines_md(case.nb_lines);
    let area = Area::new(3, 2, 20, case.h);
    let text = skin.area_text(&md, &area);
    ensure_eq!(text.lines.len(), case.nb_lines, "number of lines");
    let mut view = TextView::from(&area, &text);
    ensure_eq!(view.content_height(), case.nb_lines, "content_height");
    let h = i128::from(case.h);
    let mut m = ScrollModel { scroll: 0, content: case.nb_lines as i128, h };
    for (i, op) in case.ops.iter().enumerate() {
        let before = m.scroll;
        let mut told: Option<(bool, bool)> = None;
        match op {
            ScrollOp::Set(n) => {
                m.set(*n as i128);
                let r = view.set_scroll(*n);
                ensure_eq!(r as i128, m.scroll, "value returned by set_scroll at step {i}");
            }
            ScrollOp::Lines(n) => {
                m.by(i128::from(*n));
                view.try_scroll_lines(*n);
            }
            ScrollOp::Pages(n) => {
                m.by(i128::from(*n) * h);
                view.try_scroll_pages(*n);
            }
            ScrollOp::HalfPages(n) => {
                // partial lines are rounded away from zero
                let x = i128::from(*n) * h;
                m.by(if x < 0 { -((-x + 1) / 2) } else { (x + 1) / 2 });
                view.try_scroll_pages(f64::from(*n) / 2.0);
            }
            ScrollOp::PagePart(n) => {
                let x = i128::from(*n) * h;
                m.by(if x < 0 { -((-x + 63) / 64) } else { (x + 63) / 64 });
                view.try_scroll_pages(f64::from(*n) / 64.0);
                info.class(*n % 64 != 0, "part of a page");
            }
            ScrollOp::Up => told = Some((view.line_up(), m.by(-1))),
            ScrollOp::Down => told = Some((view.line_down(), m.by(1))),
            ScrollOp::PageUp => told = Some((view.page_up(), m.by(-h))),
            ScrollOp::PageDown => told = Some((view.page_down(), m.by(h))),
            ScrollOp::Key(k) => {
                let d = [-1, 1, -h, h][*k as usize % 4];
                let key = KeyEvent::new(key_of(*k), KeyModifiers::NONE);
                told = Some((view.apply_key_event(key), m.by(d)));
            }
            ScrollOp::OtherKey(k) => told = Some((view.apply_key_event(other_key(*k)), false)),
        }
        ensure_eq!(view.scroll as i128, m.scroll, "scroll after step {i} ({op:?}, from {before})");
        if let Some((got, expected)) = told {
            ensure_eq!(got, expected, "returned value of step {i} ({op:?}, from {before})");
        }
        info.hit(m.scroll != before, "scroll change");
        info.class(m.scroll > 0 && m.scroll == m.max(), "bottom reached");
    }
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum MadOp {
    Lines(i32),
    Pages(i32),
    Key(u8),
    OtherKey(u8),
    Resize(u16, u16),
    Move(u16, u16),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct MadCase {
    pub md: String,
    pub w: u16,
    pub h: u16,
    pub ops: Vec<MadOp>,
}

fn mad_case(tier: Tier) -> BoxedStrategy<MadCase> {
    let op = prop_oneof![
        4 => prop_oneof![6 => -20..20i32, 1 => any::<i32>(), 1 => Just(i32::MIN), 1 => Just(i32::MAX)].prop_map(MadOp::Lines),
        3 => prop_oneof![6 => -4..4i32, 1 => any::<i32>()].prop_map(MadOp::Pages),
        5 => (0..4u8).prop_map(MadOp::Key),
        1 => (0..6u8).prop_map(MadOp::OtherKey),
        3 => (4..40u16, 1..12u16).prop_map(|(w, h)| MadOp::Resize(w, h)),
        2 => prop_oneof![9 => 1..16u16, 1 => 16..400u16].prop_map(|h| MadOp::Resize(0, h)),
        1 => (0..9u16, 0..9u16).prop_map(|(l, t)| MadOp::Move(l, t)),
    ];
    (
        prop_oneof![40 => (0..40usize).prop_map(lines_md), 1 => (100..1500usize).prop_map(lines_md), 20 => doc(tier, 10)],
        4..40u16,
        prop_oneof![12 => 1..12u16, 1 => 12..300u16],
        vec(op, 1..tier.pick(14, 40)),
    )
        .prop_map(|(md, w, h, ops)| MadCase { md, w, h, ops })
        .boxed()
}

fn check_mad(case: &MadCase) -> CheckResult {
    let mut info = Info::new();
    let skin = MadSkin::no_style();
    let mut area = Area::new(2, 1, case.w, case.h);
    let mut view = MadView::from(case.md.clone(), area.clone(), skin.clone());
    let content = |area: &Area| skin.area_text(&case.md, area).lines.len() as i128;
    let mut m = ScrollModel { scroll: 0, content: content(&area), h: i128::from(area.height) };
    for (i, op) in case.ops.iter().enumerate() {
        let before = m.scroll;
        let h = m.h;
        let mut told = None;
        match op {
            MadOp::Lines(n) => {
                m.by(i128::from(*n));
                view.try_scroll_lines(*n);
            }
            MadOp::Pages(n) => {
                m.by(i128::from(*n) * h);
                view.try_scroll_pages(*n);
            }
            MadOp::Key(k) => {
                let d = [-1, 1, -h, h][*k as usize % 4];
                let key = KeyEvent::new(key_of(*k), KeyModifiers::NONE);
                told = Some((view.apply_key_event(key), m.by(d)));
            }
            MadOp::OtherKey(k) => told = Some((view.apply_key_event(other_key(*k)), false)),
            MadOp::Resize(w, h) => {
                let w = if *w == 0 { area.width } else { *w };
                let new = Area::new(area.left, area.top, w, *h);
                view.resize(&new);
                if new.width != area.width {
                    // the library is allowed to reset the scroll
                    ensure!(
                        view.scroll as i128 <= (content(&new) - i128::from(new.height)).max(0),
                        "impossible scroll {} after resize at step {i}",
                        view.scroll
                    );
                    m = ScrollModel { scroll: view.scroll as i128, content: content(&new), h: i128::from(new.height) };
                } else {
                    m.h = i128::from(new.height);
                    m.by(0);
                    info.hit(before > 0, "scrolled and resized");
                }
                area = new;
            }
            MadOp::Move(l, t) => {
                area = Area::new(*l, *t, area.width, area.height);
                view.resize(&area);
            }
        }
        ensure_eq!(view.scroll as i128, m.scroll, "scroll after step {i} ({op:?}, from {before})");
        if let Some((got, expected)) = told {
            ensure_eq!(got, expected, "returned value of step {i} ({op:?}, from {before})");
        }
        info.hit(m.scroll != before, "scroll change");
    }
    // what's written is the right part of the text, at the right place
    let text = skin.area_text(&case.md, &area);
    let mut out = Vec::new();
    view.write_on(&mut out).map_err(|e| e.to_string())?;
    let model = Model::of_skin(&skin);
    if in_domain(&model, &parse(&case.md), area.width as usize - 1) {
        let a = AreaSpec { l: area.left, t: area.top, w: area.width, h: area.height };
        check_grid(&skin, &model, &text, &a, m.scroll as usize, true, &out)?;
    }
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

// -------------------------------------------------- C11: scrollbar

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BarCase {
    pub top: u16,
    pub h: u16,
    pub content: usize,
    pub scrolls: Vec<usize>,
}

fn bar_case(_: Tier) -> BoxedStrategy<BarCase> {
    (
        prop_oneof![0..5u16, 0..2000u16],
        prop_oneof![3 => 1..12u16, 2 => 1..70u16, 1 => 1..1000u16],
    )
        .prop_flat_map(|(top, h)| {
            let hu = h as usize;
            let content = prop_oneof![
                1 => 0..=hu + 1,
                4 => hu..3 * hu + 10,
                2 => hu..hu * hu + 10,
                1 => hu..1_000_000usize,
                1 => hu..(1usize << 44),
            ];
            (Just(top), Just(h), content, vec(any::<proptest::sample::Index>(), 1..8))
        })
        .prop_map(|(top, h, content, idx)| {
            let max = content.saturating_sub(h as usize);
            let mut scrolls: Vec<usize> = idx.iter().map(|i| i.index(max + 1)).collect();
            scrolls.push(0);
            scrolls.push(max);
            scrolls.sort();
            scrolls.dedup();
            BarCase { top, h, content, scrolls }
        })
        .boxed()
}

fn check_bar(case: &BarCase) -> CheckResult {
    let mut info = Info::new();
    let area = Area::new(7, case.top, 20, case.h);
    let (first, last) = (case.top as i64, case.top as i64 + case.h as i64 - 1);
    let max = case.content.saturating_sub(case.h as usize);
    let mut previous: Option<i64> = None;
    for &scroll in &case.scrolls {
        let bar = area.scrollbar(scroll, case.content);
        ensure_eq!(bar.is_some(), case.content > case.h as usize, "presence of a scrollbar");
        ensure_eq!(
            bar,
            compute_scrollbar(scroll, case.content, case.h, case.top),
            "area.scrollbar, compared with compute_scrollbar"
        );
        let Some((top, bottom)) = bar else {
            continue;
        };
        let (top, bottom) = (i64::from(top), i64::from(bottom));
        ensure!(
            first <= top && top <= bottom && bottom <= last,
            "thumb {top}..={bottom} outside of the track {first}..={last} for scroll {scroll}"
        );
        if scroll == 0 {
            ensure_eq!(top, first, "top of the thumb without scroll");
        } else if case.h > 1 {
            ensure!(top > first, "the thumb is at the top with scroll {scroll}");
        }
        if scroll == max {
            ensure_eq!(bottom, last, "bottom of the thumb with max scroll");
        } else if case.h > 3 && case.content < case.h as usize * (case.h as usize + 1) {
            ensure!(bottom < last, "the thumb is at the bottom with scroll {scroll} on {max}");
        }
        let ideal = (case.h as f64).powi(2) / case.content as f64;
        ensure!(
            ((bottom - top + 1) as f64 - ideal).abs() <= 2.0,
            "thumb of length {} while {ideal} would be proportional",
            bottom - top + 1
        );
        let ideal_top = first as f64 + scroll as f64 * case.h as f64 / case.content as f64;
        ensure!(
            (top as f64 - ideal_top).abs() <= 1.0,
            "thumb starting at {top} while {ideal_top} would be proportional"
        );
        if let Some(p) = previous {
            ensure!(top >= p, "thumb going up when scrolling down");
        }
        previous = Some(top);
        info.hit(scroll > 0, "scrolled");
        info.class(scroll == max, "at the end");
    }
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

/// the scrollbar of big texts
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BigBarCase {
    pub nb_lines: usize,
    pub scroll: usize,
    pub h: u16,
}

fn big_bar_case(_: Tier) -> BoxedStrategy<BigBarCase> {
    (prop_oneof![3 => 65_000..66_500usize, 1 => 1..70_000usize, 1 => 131_000..132_000usize], any::<proptest::sample::Index>(), 4..50u16)
        .prop_map(|(nb_lines, i, h)| BigBarCase { nb_lines, scroll: i.index(nb_lines), h })
        .boxed()
}

fn check_big_bar(case: &BigBarCase) -> CheckResult {
    let mut info = Info::new();
    let skin = MadSkin::no_style();
    let md = "a\n".repeat(case.nb_lines);
    let area = Area::new(0, 3, 10, case.h);
    let text = skin.area_text(&md, &area);
    let mut view = TextView::from(&area, &text);
    let scroll = view.set_scroll(case.scroll);
    ensure_eq!(
        view.scrollbar(),
        compute_scrollbar(scroll, case.nb_lines, case.h, 3u16),
        "scrollbar of a text of {} lines",
        case.nb_lines
    );
    view.show_scrollbar = false;
    ensure_eq!(view.scrollbar(), None, "scrollbar when it's not shown");
    info.hit(case.nb_lines > 65_535, "more than 65535 lines");
    Ok(info)
}

/// views of texts of more lines than a u16 can count
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BigViewCase {
    pub nb_lines: usize,
    pub scrolls: Vec<usize>,
    pub h: u16,
    pub show_scrollbar: bool,
}

fn big_view_case(_: Tier) -> BoxedStrategy<BigViewCase> {
    let nb = prop_oneof![3 => 65_000..66_500usize, 1 => 1..70_000usize, 1 => 131_000..132_000usize];
    let index = any::<proptest::sample::Index>();
    (nb, vec((index, prop::bool::weighted(0.3)), 1..6), 1..20u16, any::<bool>())
        .prop_map(|(nb_lines, v, h, show_scrollbar)| BigViewCase {
            nb_lines,
            scrolls: v
                .into_iter()
                .map(|(i, near)| if near { nb_lines.saturating_sub(i.index(2_000)) } else { i.index(nb_lines) })
                .collect(),
            h,
            show_scrollbar,
        })
        .boxed()
}

fn check_big_view(case: &BigViewCase) -> CheckResult {
    let mut info = Info::new();
    let skin = MadSkin::no_style();
    let md: String = (0..case.nb_lines).map(|i| format!("{i}\n")).collect();
    let a = AreaSpec { l: 2, t: 1, w: 12, h: case.h };
    let area = a.area();
    let text = skin.area_text(&md, &area);
    ensure_eq!(text.lines.len(), case.nb_lines, "lines");
    let mut mv = MadView::from(md.clone(), area.clone(), skin.clone());
    let max = case.nb_lines.saturating_sub(case.h as usize);
    for &wanted in &case.scrolls {
        let mut view = TextView::from(&area, &text);
        view.show_scrollbar = case.show_scrollbar;
        let scroll = view.set_scroll(wanted);
        ensure_eq!(scroll, wanted.min(max), "scroll after set_scroll");
        let mut out = Vec::new();
        view.write_on(&mut out).map_err(|e| e.to_string())?;
        mv.scroll = scroll;
        let mut mv_out = Vec::new();
        mv.write_on(&mut mv_out).map_err(|e| e.to_string())?;
        for out in [out, mv_out] {
            let mut grid = a.screen();
            grid.feed_bytes(&out)?;
            for j in 0..case.h as usize {
                let got: String = grid_row(&grid, 2, 1 + j, 11).iter().map(|c| &*c.0).collect();
                let i = scroll + j;
                let expected = if i < case.nb_lines { i.to_string() } else { String::new() };
                ensure_eq!(got.trim_end(), expected, "line {j} of a view scrolled by {scroll}");
            }
        }
        info.hit(scroll > 65_535, "scrolled by more than 65535 lines");
    }
    Ok(info)
}

// -------------------------------------------------- C27: progress bar

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BarPartCase {
    pub num: u32,
    pub den: u32,
    pub len: usize,
    pub pad: usize,
}

fn progress_case(_: Tier) -> BoxedStrategy<BarPartCase> {
    (1..4000u32, any::<proptest::sample::Index>(), prop_oneof![3 => 0..30usize, 1 => 0..300usize], 0..40usize)
        .prop_map(|(den, i, len, pad)| BarPartCase { num: i.index(den as usize + 1) as u32, den, len, pad })
        .boxed()
}

fn eighths(s: &str) -> Result<usize, String> {
    const CHARS: &str = "▏▎▍▌▋▊▉█";
    let mut n = 0;
    let count = s.chars().count();
    for (i, c) in s.chars().enumerate() {
        let v = CHARS.chars().position(|x| x == c).ok_or_else(|| format!("unexpected char {c:?} in {s:?}"))? + 1;
        if i + 1 < count {
            ensure_eq!(v, 8, "eighths of a char before the last one in {s:?}");
        }
        n += v;
    }
    Ok(n)
}

fn check_progress(case: &BarPartCase) -> CheckResult {
    let mut info = Info::new();
    let part = case.num as f32 / case.den as f32;
    let s = ProgressBar::new(part, case.len).to_string();
    let n = s.chars().count();
    ensure!(n <= case.len, "bar of {n} chars for a max of {}", case.len);
    let e = eighths(&s)?;
    let ideal = 8.0 * f64::from(part) * case.len as f64;
    ensure!(
        (e as f64 - ideal).abs() <= 0.51,
        "bar of {e} eighths while {ideal} is exact: {s:?}"
    );
    // standard padding
    let pad = case.pad;
    let left = format!("{:<pad$}", ProgressBar::new(part, case.len));
    ensure_eq!(left, format!("{s:<pad$}"), "left aligned bar");
    let right = format!("{:>pad$}", ProgressBar::new(part, case.len));
    ensure_eq!(right, format!("{s:>pad$}"), "right aligned bar");
    let center = format!("{:-^pad$}", ProgressBar::new(part, case.len));
    ensure_eq!(center, format!("{s:-^pad$}"), "centered bar");
    // growing
    if case.num < case.den {
        let next = (case.num + 1) as f32 / case.den as f32;
        let s2 = ProgressBar::new(next, case.len).to_string();
        ensure!(eighths(&s2)? >= e, "the bar shrinks when the part grows");
    }
    info.hit(e % 8 != 0, "partial char");
    info.class(case.num == case.den, "full");
    Ok(info)
}

// -------------------------------------------------- C28: rects and areas

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RectCase {
    pub area: AreaSpec,
    pub style: StyleSpec,
    pub fill: bool,
    pub border: u8,
}

fn rect_case(_: Tier) -> BoxedStrategy<RectCase> {
    (area_spec(2, 2), style(), any::<bool>(), 0..5u8)
        .prop_map(|(area, style, fill, border)| RectCase { area, style, fill, border })
        .boxed()
}

fn check_rect(case: &RectCase) -> CheckResult {
    let mut info = Info::new();
    let (chars, bs): (&str, &RectBorderStyle) = match case.border {
        0 | 4 => ("        ", BORDER_STYLE_BLAND),
        1 => ("▛▀▜▐▟▄▙▌", BORDER_STYLE_HALF_WIDTH_OUTSIDE),
        2 => ("┌─┐│┘─└│", BORDER_STYLE_MIDDLE_SQUARE_LINE),
        _ => ("╭─╮│╯─╰│", BORDER_STYLE_MIDDLE_ROUND_LINE),
    };
    let ch: Vec<char> = chars.chars().collect();
    let mut rect = Rect::new(case.area.area(), case.style.compound());
    if case.border != 4 {
        rect.set_border_style(bs);
    }
    rect.set_fill(case.fill);
    let mut out = Vec::new();
    rect.draw(&mut out).map_err(|e| e.to_string())?;
    let mut grid = case.area.screen();
    grid.feed_bytes(&out)?;
    ensure!(grid.is_reset(), "style not reset");
    let (l, t, w, h) = (case.area.l as usize, case.area.t as usize, case.area.w as usize, case.area.h as usize);
    grid.check_confined(l, t, w, h)?;
    for y in 0..h {
        for x in 0..w {
            let border = match (x == 0, x == w - 1, y == 0, y == h - 1) {
                (true, _, true, _) => Some(ch[0]),
                (_, true, true, _) => Some(ch[2]),
                (_, true, _, true) => Some(ch[4]),
                (true, _, _, true) => Some(ch[6]),
                (_, _, true, _) => Some(ch[1]),
                (_, true, _, _) => Some(ch[3]),
                (_, _, _, true) => Some(ch[5]),
                (true, _, _, _) => Some(ch[7]),
                _ if case.fill => Some(' '),
                _ => None,
            };
            let cell = grid.cell(l + x, t + y);
            let expected = border.map(|c| c.to_string());
            ensure_eq!(cell.s, expected, "cell {x},{y} of the rect");
            if expected.is_some() {
                ensure_eq!(cell.st, case.style.st(), "style of cell {x},{y} of the rect");
            }
        }
    }
    info.hit(w > 2 && h > 2, "with an inside");
    info.class(case.fill, "filled");
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AreaCase {
    pub area: (u16, u16, u16, u16),
    pub point: (u16, u16),
    pub pad: (u16, u16),
    pub max_width: u16,
}

fn area_case(_: Tier) -> BoxedStrategy<AreaCase> {
    (
        prop_oneof![
            (0..20u16, 0..20u16, 0..20u16, 0..20u16).boxed(),
            (0..32_000u16, 0..32_000u16, 0..32_000u16, 0..32_000u16).boxed()
        ],
        (-3..25i32, -3..25i32),
        (any::<proptest::sample::Index>(), any::<proptest::sample::Index>()),
        prop_oneof![3 => 0..25u16, 1 => any::<u16>()],
    )
        .prop_map(|(area, d, pad, max_width)| AreaCase {
            area,
            point: (
                (i32::from(area.0) + d.0).max(0) as u16,
                (i32::from(area.1) + d.1).max(0) as u16,
            ),
            pad: (
                pad.0.index(area.2 as usize / 2 + 1) as u16,
                pad.1.index(area.3 as usize / 2 + 1) as u16,
            ),
            max_width,
        })
        .boxed()
}

fn check_area(case: &AreaCase) -> CheckResult {
    let mut info = Info::new();
    let (l, t, w, h) = case.area;
    let area = Area::new(l, t, w, h);
    ensure_eq!((area.left, area.top, area.width, area.height), (l, t, w, h), "area");
    ensure_eq!(area.right(), l + w, "right");
    ensure_eq!(area.bottom(), t + h, "bottom");
    let (x, y) = case.point;
    let inside = (u32::from(l)..u32::from(l) + u32::from(w)).contains(&u32::from(x))
        && (u32::from(t)..u32::from(t) + u32::from(h)).contains(&u32::from(y));
    ensure_eq!(area.contains(x, y), inside, "contains {x},{y}");
    let mut padded = area.clone();
    let (dx, dy) = case.pad;
    padded.pad(dx, dy);
    ensure_eq!(
        (padded.left, padded.top, padded.right(), padded.bottom()),
        (l + dx, t + dy, l + w - dx, t + h - dy),
        "padded area"
    );
    let mut shrunk = area.clone();
    shrunk.pad_for_max_width(case.max_width);
    ensure_eq!(shrunk.width, w.min(case.max_width), "width of shrunk area");
    ensure_eq!((shrunk.top, shrunk.height), (t, h), "vertical geometry of shrunk area");
    ensure!(
        shrunk.left >= l && shrunk.right() <= area.right(),
        "shrunk area out of the first one"
    );
    let (before, after) = (shrunk.left - l, area.right() - shrunk.right());
    ensure!(
        after == before || after == before + 1,
        "area not symmetrically shrunk: {before} / {after}"
    );
    info.hit(inside, "point inside");
    info.hit(case.max_width < w, "shrunk");
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    const UNI: &str = "text of displayed width equal to the sum of the unicode-width of its chars, without control chars";
    vec![
        Property {
            id: "C09",
            rule: "the text is wrapped, or higher than the area, or scrolled",
            assumptions: &[
                UNI,
                "an ANSI terminal emulator written for the check interprets the output",
                "areas at least 4 columns wide (so that the text is at least 3 wide) and 1 row high",
                "how a line is completed to the area's width is checked by C05",
            ],
            max_threads: 8,
            parts: vec![
                part("view", 60_000, 3_000_000, view_case, check_view),
                part("big_view", 64, 400, big_view_case, check_big_view),
            ],
        },
        Property {
            id: "C10",
            rule: "the scroll changes during the history, or the view is resized while scrolled",
            assumptions: &["areas at least one row high", "changing the width of a MadView may reset the scroll"],
            max_threads: 8,
            parts: vec![
                part("text_view", 60_000, 3_000_000, scroll_case, check_scroll),
                part("mad_view", 40_000, 600_000, mad_case, check_mad),
            ],
        },
        Property {
            id: "C11",
            rule: "the content is scrolled, or has more than 65535 lines",
            assumptions: &["heights of at least 1"],
            max_threads: 8,
            parts: vec![
                part("geometry", 900_000, 10_000_000, bar_case, check_bar),
                part("big_text", 120, 1_000, big_bar_case, check_big_bar),
            ],
        },
        Property {
            id: "C27",
            rule: "the last char of the bar is a partial one",
            assumptions: &["part in [0, 1]"],
            max_threads: 8,
            parts: vec![part("bar", 600_000, 10_000_000, progress_case, check_progress)],
        },
        Property {
            id: "C28",
            rule: "rect: there's an inside; area: the point is inside or the area is shrunk",
            assumptions: &["rects at least 2 x 2", "coordinates fit u16, paddings not bigger than the area"],
            max_threads: 8,
            parts: vec![
                part("rect", 300_000, 2_000_000, rect_case, check_rect),
                part("area", 500_000, 5_000_000, area_case, check_area),
            ],
        },
    ]
}
