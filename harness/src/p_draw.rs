//! Drawing primitives: compound styles, styled chars, fillings

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        term::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::fmt,
    termimad::{
        crossterm::{
            style::Color,
            terminal::ClearType,
        },
        *,
    },
};

/// A display made of a function using a formatter
struct Fmt<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result>(F);
impl<F: Fn(&mut fmt::Formatter<'_>) -> fmt::Result> fmt::Display for Fmt<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0)(f)
    }
}

fn attr_bit(i: u8) -> u32 {
    1 << [1, 2, 3, 4, 7, 9, 22, 23][i as usize % 8]
}

fn st_of(cs: &CompoundStyle) -> St {
    St::of(&cs.object_style)
}

// ------------------------------------------------ styles

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum StyleOp {
    New(StyleSpec),
    FromContent(StyleSpec),
    WithFg(ColSpec),
    WithBg(ColSpec),
    WithFgBg(ColSpec, ColSpec),
    WithAttr(u8),
    Fg(ColSpec),
    Bg(ColSpec),
    FgBg(ColSpec, ColSpec),
    AddAttr(u8),
    RemoveAttr(u8),
    OverwriteWith(StyleSpec),
    NoBlend(ColSpec),
    /// go through a line style
    Line,
}

fn style_op() -> BoxedStrategy<StyleOp> {
    use StyleOp::*;
    prop_oneof![
        2 => style().prop_map(New),
        1 => style().prop_map(FromContent),
        1 => col().prop_map(WithFg),
        1 => col().prop_map(WithBg),
        1 => (col(), col()).prop_map(|(a, b)| WithFgBg(a, b)),
        1 => (0..8u8).prop_map(WithAttr),
        2 => col().prop_map(Fg),
        2 => col().prop_map(Bg),
        1 => (col(), col()).prop_map(|(a, b)| FgBg(a, b)),
        3 => (0..8u8).prop_map(AddAttr),
        3 => (0..8u8).prop_map(RemoveAttr),
        4 => style().prop_map(OverwriteWith),
        1 => col().prop_map(NoBlend),
        1 => Just(Line),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct DrawCase {
    pub ops: Vec<StyleOp>,
    pub text: String,
    pub c: char,
    pub n: usize,
    pub big: usize,
}

fn draw_char() -> BoxedStrategy<char> {
    prop_oneof![
        3 => select(&['•', '*', '-', '>', '▐', '―', '│', '·', ' ', '◆', 'λ', '='][..]),
        2 => word_char().prop_filter("control", |c| !c.is_control()),
    ]
    .boxed()
}

fn draw_case(_tier: Tier) -> BoxedStrategy<DrawCase> {
    (
        vec(style_op(), 0..8),
        sentence(4),
        draw_char(),
        prop_oneof![1 => Just(0usize), 4 => 1..12usize],
        prop_oneof![3 => 0..20usize, 1 => select(&[999usize, 1000, 1001, 1999, 2000, 2001, 3000][..]), 1 => 900..3500usize],
    )
        .prop_map(|(ops, text, c, n, big)| DrawCase {
            ops,
            text: text.chars().filter(|c| !c.is_control()).collect(),
            c,
            n,
            big,
        })
        .boxed()
}

fn apply(cs: &mut CompoundStyle, st: &mut St, op: &StyleOp) {
    use StyleOp::*;
    let col = |c: &ColSpec| color_of(c.color());
    match op {
        New(s) => {
            *cs = s.compound();
            *st = s.st();
        }
        FromContent(s) => {
            *cs = CompoundStyle::from(s.compound().object_style);
            *st = s.st();
        }
        WithFg(c) => {
            *cs = CompoundStyle::with_fg(c.color());
            *st = St { fg: col(c), ..St::default() };
        }
        WithBg(c) => {
            *cs = CompoundStyle::with_bg(c.color());
            *st = St { bg: col(c), ..St::default() };
        }
        WithFgBg(a, b) => {
            *cs = CompoundStyle::with_fgbg(a.color(), b.color());
            *st = St { fg: col(a), bg: col(b), at: 0 };
        }
        WithAttr(a) => {
            *cs = CompoundStyle::with_attr(ATTRIBUTES_SPEC[*a as usize % 8]);
            *st = St { at: attr_bit(*a), ..St::default() };
        }
        Fg(c) => {
            cs.set_fg(c.color());
            st.fg = col(c);
        }
        Bg(c) => {
            cs.set_bg(c.color());
            st.bg = col(c);
        }
        FgBg(a, b) => {
            cs.set_fgbg(a.color(), b.color());
            st.fg = col(a);
            st.bg = col(b);
        }
        AddAttr(a) => {
            cs.add_attr(ATTRIBUTES_SPEC[*a as usize % 8]);
            st.at |= attr_bit(*a);
        }
        RemoveAttr(a) => {
            cs.remove_attr(ATTRIBUTES_SPEC[*a as usize % 8]);
            st.at &= !attr_bit(*a);
        }
        OverwriteWith(s) => {
            cs.overwrite_with(&s.compound());
            *st = st.over(s.st());
        }
        NoBlend(c) => cs.blend_with(c.color(), 0.0),
        Line => *cs = LineStyle::from(cs.clone()).compound_style,
    }
}

/// the written string must be this text, in this style, and nothing else
fn check_written(what: &str, s: &str, text: &str, st: St) -> Result<(), String> {
    let row = single_row(s).map_err(|e| format!("{what}: {e} in {s:?}"))?;
    ensure_eq!(row_text(&row), text, "text written by {what}");
    for sc in &row {
        ensure!(sc.st == st, "{what} writes {sc:?} instead of the style {st:?} in {s:?}");
    }
    Ok(())
}

fn queued(f: impl Fn(&mut Vec<u8>) -> Result<(), termimad::Error>) -> Result<String, String> {
    let mut w = Vec::new();
    f(&mut w).map_err(|e| e.to_string())?;
    String::from_utf8(w).map_err(|e| e.to_string())
}

fn check_draw(case: &DrawCase) -> CheckResult {
    let mut info = Info::new();
    let mut cs = CompoundStyle::default();
    let mut st = St::default();
    for op in &case.ops {
        let before = st;
        apply(&mut cs, &mut st, op);
        ensure_eq!(st_of(&cs), st, "style after {op:?} on {before:?}");
        ensure_eq!(cs.get_fg().and_then(color_of), st.fg, "get_fg after {op:?}");
        ensure_eq!(cs.get_bg().and_then(color_of), st.bg, "get_bg after {op:?}");
        for i in 0..8 {
            let a = ATTRIBUTES_SPEC[i as usize];
            let has = st.at & attr_bit(i) != 0;
            ensure_eq!(cs.has_attr(a), has, "has_attr({a:?}) after {op:?}");
            ensure_eq!(cs.attrs().has(a), has, "attrs() with {a:?} after {op:?}");
        }
        if let StyleOp::OverwriteWith(s) = op {
            info.hit(before.fg.is_some() && s.bg.is_some() || s.attrs != 0 && before.at != 0, "style laid over another one");
        }
        info.hit(matches!(op, StyleOp::RemoveAttr(_)) && before.at != st.at, "attribute removed");
    }
    let text = &case.text;
    let n = case.n;
    let chars: String = std::iter::repeat(case.c).take(n).collect();
    check_written("apply_to", &cs.apply_to(text).to_string(), text, st)?;
    check_written("queue", &queued(|w| cs.queue(w, text))?, text, st)?;
    check_written("queue_str", &queued(|w| cs.queue_str(w, text.as_str()))?, text, st)?;
    check_written("repeat_char", &Fmt(|f| cs.repeat_char(f, case.c, n)).to_string(), &chars, st)?;
    check_written("repeat_string", &Fmt(|f| cs.repeat_string(f, text, n)).to_string(), &text.repeat(n), st)?;
    check_written("repeat_space", &Fmt(|f| cs.repeat_space(f, n)).to_string(), &" ".repeat(n), st)?;
    let mut ls = LineStyle::new(cs.clone(), Alignment::Left);
    check_written("LineStyle::repeat_char", &Fmt(|f| ls.repeat_char(f, case.c, n)).to_string(), &chars, st)?;
    check_written("LineStyle::repeat_string", &Fmt(|f| ls.repeat_string(f, text, n)).to_string(), &text.repeat(n), st)?;
    check_written("LineStyle::repeat_space", &Fmt(|f| ls.repeat_space(f, n)).to_string(), &" ".repeat(n), st)?;
    // only the color is set
    for (what, s, expected) in [
        ("queue_fg", queued(|w| cs.queue_fg(w))?, St { fg: st.fg, ..St::default() }),
        ("queue_bg", queued(|w| cs.queue_bg(w))?, St { bg: st.bg, ..St::default() }),
        ("CropWriter::queue_fg", queued(|w| CropWriter::new(w, n).queue_fg(&cs))?, St { fg: st.fg, ..St::default() }),
        ("CropWriter::queue_bg", queued(|w| CropWriter::new(w, n).queue_bg(&cs))?, St { bg: st.bg, ..St::default() }),
        ("fill_bg", queued(|w| fill_bg(w, 0, Color::Red))?, St { bg: Some(Col::Idx(9)), ..St::default() }),
    ] {
        check_written(what, &format!("{s}{text}\u{1b}[0m"), text, expected)?;
    }
    // clear
    let mut grid = Grid::new(12, 1);
    grid.feed(&format!("abc{}", queued(|w| cs.clear(w, ClearType::UntilNewLine))?))?;
    for x in 0..12 {
        let cell = grid.cell(x, 0);
        let expected = if x < 3 { St::default() } else { St { bg: st.bg, ..St::default() } };
        ensure!(cell.st == expected && cell.s.is_some(), "cell {x} is {cell:?} after a clear with {st:?}");
    }
    let s = queued(|w| cs.clear(w, ClearType::All))?;
    ensure!(s.ends_with("\u{1b}[2J"), "clear all: {s:?}");
    // fillings
    let filling = Filling::from_char(case.c);
    let big: String = std::iter::repeat(case.c).take(case.big).collect();
    check_written("queue_styled", &queued(|w| filling.queue_styled(w, &cs, case.big))?, &big, st)?;
    check_written("queue_unstyled", &queued(|w| filling.queue_unstyled(w, case.big))?, &big, St::default())?;
    let s = queued(|w| fill_bg(w, case.big, cs.get_bg().unwrap_or(Color::Blue)))?;
    check_written(
        "fill_bg",
        &format!("{s}\u{1b}[0m"),
        &" ".repeat(case.big),
        St { bg: st.bg.or(Some(Col::Idx(12))), ..St::default() },
    )?;
    info.hit(case.big > 1000, "long filling");
    // the line style is changed like its compound style
    ls.set_fgbg(Color::Red, Color::Blue);
    ls.add_attr(ATTRIBUTES_SPEC[case.n % 8]);
    let expected = St { fg: Some(Col::Idx(9)), bg: Some(Col::Idx(12)), at: st.at | attr_bit(case.n as u8 % 8) };
    ensure_eq!(st_of(&ls.compound_style), expected, "line style after changes");
    ls.set_fg(Color::Green);
    ls.set_bg(Color::Black);
    let expected = St { fg: Some(Col::Idx(10)), bg: Some(Col::Idx(0)), ..expected };
    ensure_eq!(st_of(&ls.compound_style), expected, "line style after changes");
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

// ------------------------------------------------ styled chars

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum CharOp {
    New(StyleSpec, char),
    Nude(char),
    FromFg(ColSpec, char),
    FromStyle(StyleSpec, char),
    Char(char),
    Fg(ColSpec),
    Bg(ColSpec),
    Style(StyleSpec),
    NoBlend(ColSpec),
    FullBlend(u8, u8, u8),
    Clone,
}

fn char_op() -> BoxedStrategy<CharOp> {
    use CharOp::*;
    let c = draw_char;
    prop_oneof![
        1 => (style(), c()).prop_map(|(s, c)| New(s, c)),
        1 => c().prop_map(Nude),
        1 => (col(), c()).prop_map(|(s, c)| FromFg(s, c)),
        1 => (style(), c()).prop_map(|(s, c)| FromStyle(s, c)),
        3 => c().prop_map(Char),
        2 => col().prop_map(Fg),
        2 => col().prop_map(Bg),
        2 => style().prop_map(Style),
        1 => col().prop_map(NoBlend),
        1 => any::<(u8, u8, u8)>().prop_map(|(r, g, b)| FullBlend(r, g, b)),
        1 => Just(Clone),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CharCase {
    pub ops: Vec<CharOp>,
    pub n: usize,
    pub track_bg: Option<ColSpec>,
}

fn char_case(_tier: Tier) -> BoxedStrategy<CharCase> {
    (vec(char_op(), 1..8), prop_oneof![3 => 0..6usize, 1 => 900..2100usize], prop::option::of(col()))
        .prop_map(|(ops, n, track_bg)| CharCase { ops, n, track_bg })
        .boxed()
}

fn check_char(case: &CharCase) -> CheckResult {
    let mut info = Info::new();
    let mut sc = StyledChar::nude('x');
    let mut st = St::default();
    let mut c = 'x';
    for (i, op) in case.ops.iter().enumerate() {
        let before = (c, st);
        let col = |c: &ColSpec| color_of(c.color());
        match op {
            CharOp::New(s, ch) => {
                sc = StyledChar::new(s.compound(), *ch);
                (c, st) = (*ch, s.st());
            }
            CharOp::Nude(ch) => {
                sc = StyledChar::nude(*ch);
                (c, st) = (*ch, St::default());
            }
            CharOp::FromFg(f, ch) => {
                sc = StyledChar::from_fg_char(f.color(), *ch);
                (c, st) = (*ch, St { fg: col(f), ..St::default() });
            }
            CharOp::FromStyle(s, ch) => {
                sc = s.compound().style_char(*ch);
                (c, st) = (*ch, s.st());
            }
            CharOp::Char(ch) => {
                sc.set_char(*ch);
                c = *ch;
            }
            CharOp::Fg(f) => {
                sc.set_fg(f.color());
                st.fg = col(f);
            }
            CharOp::Bg(f) => {
                sc.set_bg(f.color());
                st.bg = col(f);
            }
            CharOp::Style(s) => {
                sc.set_compound_style(s.compound());
                st = s.st();
            }
            CharOp::NoBlend(f) => sc.blend_with(f.color(), 0.0),
            CharOp::FullBlend(r, g, b) => {
                sc.blend_with(Color::Rgb { r: *r, g: *g, b: *b }, 1.0);
                // the way colors are mixed isn't termimad's: at full weight only the target remains
                let got = st_of(sc.compound_style());
                for (was, is) in [(st.fg, got.fg), (st.bg, got.bg)] {
                    ensure_eq!(was.is_some(), is.is_some(), "color defined after a blend");
                }
                st.fg = got.fg;
                st.bg = got.bg;
            }
            CharOp::Clone => sc = sc.clone(),
        }
        let at = format!("(step {i}: {op:?} on {before:?})");
        ensure_eq!(sc.nude_char(), c, "nude_char {at}");
        ensure_eq!(sc.get_char(), c, "get_char {at}");
        ensure_eq!(sc.get_fg().and_then(color_of), st.fg, "get_fg {at}");
        ensure_eq!(sc.get_bg().and_then(color_of), st.bg, "get_bg {at}");
        ensure_eq!(st_of(sc.compound_style()), st, "compound_style {at}");
        ensure_eq!(sc, StyledChar::new(sc.compound_style().clone(), c), "same as the one made of its parts {at}");
        let one = c.to_string();
        check_written("Display", &sc.to_string(), &one, st).map_err(|e| format!("{e} {at}"))?;
        check_written("queue", &queued(|w| sc.queue(w))?, &one, st).map_err(|e| format!("{e} {at}"))?;
        info.hit(i > 0 && before.1 != St::default() && matches!(op, CharOp::Char(_) | CharOp::Fg(_) | CharOp::Bg(_)), "change of a styled char");
    }
    let many: String = std::iter::repeat(c).take(case.n).collect();
    check_written("repeated", &sc.repeated(case.n).to_string(), &many, st)?;
    check_written("queue_repeat", &queued(|w| sc.queue_repeat(w, case.n))?, &many, st)?;
    // scrollbar style
    let mut bar = ScrollBarStyle::from(sc.clone());
    let mut thumb = St { fg: st.fg, ..St::default() };
    let mut track = St { fg: st.bg, ..St::default() };
    if thumb.fg.is_none() {
        thumb.fg = st_of(ScrollBarStyle::new().thumb.compound_style()).fg;
    }
    if track.fg.is_none() {
        track.fg = st_of(ScrollBarStyle::default().track.compound_style()).fg;
    }
    if let Some(bg) = case.track_bg {
        bar.set_bg(bg.color());
        thumb.bg = color_of(bg.color());
        track.bg = thumb.bg;
    }
    check_written("thumb", &bar.thumb.to_string(), &c.to_string(), thumb)?;
    check_written("track", &bar.track.to_string(), &c.to_string(), track)?;
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C31",
        rule: "a style is laid over another one, an attribute removed, a styled char changed, or a filling is longer than 1000 chars",
        assumptions: &["the eight attributes termimad lists, no control char"],
        max_threads: 8,
        parts: vec![
            part("style", 180_000, 2_000_000, draw_case, check_draw),
            part("char", 180_000, 2_000_000, char_case, check_char),
        ],
    }]
}
