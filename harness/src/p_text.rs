//! Rendering of texts

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        model::*,
        p_table,
        term::*,
    },
    proptest::prelude::*,
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        minimad::{
            Line,
        },
        *,
    },
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TextCase {
    pub md: String,
    pub width: Option<usize>,
    pub skin: SkinSpec,
    #[serde(default)]
    pub alter: Alter,
}

/// What may be found in a text which wasn't parsed from markdown but was built
/// (with the minimad structs) or expanded from a template
#[derive(Debug, Clone, Copy, Default, Serialize, Deserialize)]
pub struct Alter {
    /// added to the depth of the list items
    pub depth: u8,
    /// whether to split the compounds in adjacent ones (of this number of chars at most)
    pub split: u8,
    /// whether to add empty compounds
    pub empty: bool,
}

fn alter() -> BoxedStrategy<Alter> {
    prop_oneof![
        5 => Just(Alter::default()),
        2 => (
            prop_oneof![2 => Just(0u8), 3 => 1..5u8, 1 => 5..40u8],
            prop_oneof![2 => Just(0u8), 2 => 1..12u8],
            prop::bool::weighted(0.2),
        ).prop_map(|(depth, split, empty)| Alter { depth, split, empty }),
    ]
    .boxed()
}

/// parse, then apply the alterations
fn parse_altered(md: &str, alter: Alter) -> minimad::Text<'_> {
    use minimad::CompositeStyle;
    let mut text = parse(md);
    let split = |c: &mut minimad::Composite<'_>| {
        if let CompositeStyle::ListItem(d) = &mut c.style {
            *d += alter.depth;
        }
        let mut compounds = Vec::new();
        for compound in c.compounds.drain(..) {
            if alter.empty {
                let mut e = compound.clone();
                e.src = &compound.src[..0];
                compounds.push(e);
            }
            let n = if alter.split == 0 { usize::MAX } else { alter.split as usize };
            let mut rest = compound.src;
            loop {
                let cut = rest.char_indices().nth(n).map_or(rest.len(), |(i, _)| i);
                let mut part = compound.clone();
                part.src = &rest[..cut];
                compounds.push(part);
                rest = &rest[cut..];
                if rest.is_empty() {
                    break;
                }
            }
        }
        c.compounds = compounds;
    };
    if alter.depth > 0 || alter.split > 0 || alter.empty {
        for line in &mut text.lines {
            match line {
                Line::Normal(c) => split(c),
                Line::TableRow(r) => r.cells.iter_mut().for_each(split),
                _ => {}
            }
        }
    }
    text
}

/// the text of a case
fn fmt_text<'k, 's>(skin: &'k MadSkin, md: &'s str, width: Option<usize>, alter: Alter) -> FmtText<'k, 's> {
    if alter.depth == 0 && alter.split == 0 && !alter.empty {
        skin.text(md, width)
    } else {
        FmtText::from_text(skin, parse_altered(md, alter), width)
    }
}

fn render_altered(skin: &MadSkin, md: &str, width: Option<usize>, alter: Alter) -> Result<Vec<Row>, String> {
    rows(&fmt_text(skin, md, width, alter).to_string())
}

pub fn render(skin: &MadSkin, md: &str, width: Option<usize>) -> Result<Vec<Row>, String> {
    rows(&skin.text(md, width).to_string())
}

fn opt_width(min: usize) -> BoxedStrategy<Option<usize>> {
    prop_oneof![1 => Just(None), 12 => width(min).prop_map(Some)].boxed()
}

// -------------------------------------------------- C02: width

fn kinds_feasible(model: &Model, text: &minimad::Text<'_>, width: Option<usize>) -> bool {
    text.lines.iter().all(|l| match l {
        Line::Normal(c) => feasible(model, c.style.into(), width, max_char_width(l)),
        _ => width.map_or(true, |w| w >= 3),
    })
}

/// cells with a prefix can't always fit the 3 columns a column may be reduced to
fn cells_feasible(model: &Model, text: &minimad::Text<'_>) -> bool {
    text.lines.iter().all(|l| match l {
        Line::TableRow(r) => r.cells.iter().all(|c| {
            let p = prefix_width(model, c.style.into());
            let m = c.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).max().unwrap_or(0);
            p + m <= 3
        }),
        _ => true,
    })
}

fn doc_case(tier: Tier) -> BoxedStrategy<TextCase> {
    (doc(tier, tier.pick(8, 14)), width(3).prop_map(Some), skin(), alter())
        .prop_map(|(md, width, skin, alter)| TextCase { md, width, skin, alter })
        .boxed()
}

fn classes(text: &minimad::Text<'_>, rows: &[Row], info: &mut Info) {
    info.class(text.lines.iter().any(|l| matches!(l, Line::TableRow(_))), "with table");
    info.class(
        text.lines.iter().any(|l| matches!(l, Line::Normal(c) if c.is_code())),
        "with code block",
    );
    info.class(
        text.lines.iter().any(|l| matches!(l, Line::Normal(c) if c.is_list_item())),
        "with list item",
    );
    info.class(
        text.lines.iter().any(|l| matches!(l, Line::Normal(c) if c.is_quote())),
        "with quote",
    );
    info.hit(rows.len() > text.lines.len(), "wrapped");
}

fn check_width(case: &TextCase) -> CheckResult {
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let text = parse_altered(&case.md, case.alter);
    let mut info = Info::new();
    if !text.lines.iter().all(line_additive)
        || !kinds_feasible(&model, &text, case.width)
        || !cells_feasible(&model, &text)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let width = case.width.unwrap();
    let rows = render_altered(&skin, &case.md, case.width, case.alter)?;
    for (i, row) in rows.iter().enumerate() {
        ensure!(
            row_width(row) <= width,
            "row {i} is {} columns wide for a width of {width}: {:?}",
            row_width(row),
            row_text(row)
        );
    }
    // same for the completed lines used in views
    let ft = fmt_text(&skin, &case.md, case.width, case.alter);
    for (i, line) in ft.lines.iter().enumerate() {
        let s = DisplayableLine::new(&skin, line, case.width).to_string();
        let row = single_row(&s)?;
        ensure!(
            row_width(&row) == width,
            "completed row {i} is {} columns wide for a width of {width}: {:?}",
            row_width(&row),
            row_text(&row)
        );
    }
    classes(&text, &rows, &mut info);
    Ok(info)
}

// chars shown as one, whose width isn't the sum of the widths of their chars

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SequenceCase {
    pub md: String,
    pub width: Option<usize>,
    pub skin: SkinSpec,
    /// whether only single char words are replaced
    pub whole: bool,
    pub seeds: Vec<u8>,
}

/// wide chars used nowhere else, one per sequence
const STANDINS: &[char] = &['国', '回', '困', '固', '围', '园'];

fn sequence_case(tier: Tier) -> BoxedStrategy<SequenceCase> {
    let md = prop_oneof![
        3 => line_md(),
        3 => doc(tier, 5),
        3 => table(tier, false).prop_map(|t| t.md()),
    ];
    (md, width(3).prop_map(Some), skin(), any::<bool>(), proptest::collection::vec(any::<u8>(), 1..12))
        .prop_map(|(md, width, skin, whole, seeds)| SequenceCase { md, width, skin, whole, seeds })
        .boxed()
}

impl SequenceCase {
    /// the markdown, with stand-ins at the places of the sequences
    fn marked(&self) -> String {
        let mut seeds = self.seeds.iter().cycle();
        let chars: Vec<char> = self.md.chars().collect();
        let mut out = String::new();
        for (i, &c) in chars.iter().enumerate() {
            let alone = |c: Option<&char>| c.map_or(true, |c| c.is_whitespace());
            let whole = alone(chars.get(i + 1)) && (i == 0 || alone(chars.get(i - 1)));
            let seed = *seeds.next().unwrap();
            let replaced = c.is_alphabetic() && (whole || !self.whole && seed % 4 == 0);
            out.push(if replaced { STANDINS[seed as usize / 4 % STANDINS.len()] } else { c });
        }
        out
    }
    /// give the sequences for the stand-ins
    fn with_sequences(s: &str) -> String {
        let mut out = String::new();
        for c in s.chars() {
            match STANDINS.iter().position(|&s| s == c) {
                Some(i) => out.push_str(SEQUENCES[i]),
                None => out.push(c),
            }
        }
        out
    }
}

fn check_sequences(case: &SequenceCase) -> CheckResult {
    use unicode_width::UnicodeWidthStr;
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let marked = case.marked();
    let text = parse(&marked);
    let mut info = Info::new();
    if !text.lines.iter().all(line_additive)
        || !kinds_feasible(&model, &text, case.width)
        || !cells_feasible(&model, &text)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let width = case.width.unwrap();
    let md = SequenceCase::with_sequences(&marked);
    let ft = skin.text(&md, case.width);
    let rows = rows(&ft.to_string())?;
    for (i, row) in rows.iter().enumerate() {
        let t = row_text(row);
        ensure!(t.width() <= width, "row {i} is {} columns wide for a width of {width}: {t:?}", t.width());
    }
    for (i, line) in ft.lines.iter().enumerate() {
        let s = DisplayableLine::new(&skin, line, case.width).to_string();
        let t = row_text(&single_row(&s)?);
        ensure!(t.width() == width, "completed row {i} is {} columns wide for a width of {width}: {t:?}", t.width());
    }
    let expected: Vec<Row> = render(&skin, &marked, case.width)?;
    // no char is lost
    let content = |rows: &[Row]| {
        let all: String = rows.iter().map(|r| row_text(r)).collect();
        let mut chars: Vec<char> = SequenceCase::with_sequences(&all)
            .chars()
            .filter(|&c| SEQUENCES.iter().any(|s| s.contains(c)) || c.is_alphanumeric())
            .filter(|&c| c != model.bullet.c && c != model.quote.c && c != model.rule.c)
            .collect();
        chars.sort_unstable();
        chars.into_iter().collect::<String>()
    };
    ensure_eq!(content(&rows), content(&expected), "chars, compared to the ones with wide chars");
    if case.whole {
        let expected = expected.iter().map(|r| row_text(r)).collect::<Vec<_>>().join("\n");
        let got = rows.iter().map(|r| row_text(r)).collect::<Vec<_>>().join("\n");
        ensure_eq!(got, SequenceCase::with_sequences(&expected), "rows with sequences, compared to the ones with wide chars");
    }
    info.hit(md != marked, "with sequences");
    classes(&text, &rows, &mut info);
    Ok(info)
}

// -------------------------------------------------- C03, C04: lines

fn line_case(_: Tier) -> BoxedStrategy<TextCase> {
    (line_md(), opt_width(3), skin(), alter())
        .prop_map(|(md, width, skin, alter)| TextCase { md, width, skin, alter })
        .boxed()
}

fn check_line_with(case: &TextCase, lc: LineCheck) -> CheckResult {
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let text = parse_altered(&case.md, case.alter);
    let mut info = Info::new();
    if text.lines.len() != 1 && !case.md.is_empty()
        || !text.lines.iter().all(line_additive)
        || !kinds_feasible(&model, &text, case.width)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let rows = render_altered(&skin, &case.md, case.width, case.alter)?;
    if let Some(line) = text.lines.first() {
        check_line(&model, line, &rows, case.width, &lc)?;
        if let Line::Normal(c) = line {
            info.class(c.compounds.len() > 1, "several styles");
            info.class(c.compounds.iter().any(|c| c.code), "inline code");
            info.class(
                c.compounds.iter().any(|c| c.code as u8 + c.bold as u8 + c.italic as u8 + c.strikeout as u8 > 1),
                "combined styles",
            );
        }
        if lc.check_style {
            info.hit(rows.iter().flatten().any(|s| s.st != St::default()), "with style");
        }
        if lc.check_words {
            info.hit(rows.len() > 1, "wrapped");
        }
    }
    classes(&text, &rows, &mut info);
    Ok(info)
}


fn check_wrap(case: &TextCase) -> CheckResult {
    check_line_with(case, LineCheck { check_style: false, check_words: true, check_pads: false })
}

fn check_style(case: &TextCase) -> CheckResult {
    check_line_with(case, LineCheck { check_style: true, check_words: false, check_pads: false })
}

fn check_layout(case: &TextCase) -> CheckResult {
    let mut info = check_line_with(case, LineCheck { check_style: true, check_words: false, check_pads: true })?;
    // the completed rows are the same ones, filled with spaces
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    if let (Some(width), false) = (case.width, info.classes.contains(&"out of domain")) {
        let ft = fmt_text(&skin, &case.md, case.width, case.alter);
        let bare = rows(&ft.to_string())?;
        let mut completed = false;
        for (i, (line, bare)) in ft.lines.iter().zip(&bare).enumerate() {
            let row = single_row(&DisplayableLine::new(&skin, line, case.width).to_string())?;
            ensure!(
                row.len() >= bare.len() && row[..bare.len()] == bare[..],
                "completed row {i} isn't the not completed one with spaces: {:?} / {:?}",
                row_text(&row),
                row_text(bare)
            );
            ensure!(
                row[bare.len()..].iter().all(|s| s.c == ' ' && s.st == model.para.st),
                "row {i} not completed with paragraph spaces: {:?}",
                row_text(&row)
            );
            ensure_eq!(row_width(&row), width, "width of completed row {i}");
            completed |= row_width(bare) < width;
        }
        info.hit(completed, "completed");
        let lead = bare.iter().any(|r| r.first().is_some_and(|s| s.c == ' '));
        info.hit(lead, "shifted");
    }
    Ok(info)
}

// -------------------------------------------------- C01: robustness

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WildCase {
    pub md: String,
    pub width: Option<usize>,
    pub skin: SkinSpec,
    pub margin: Option<(usize, usize)>,
    pub area: (u16, u16, u16, u16),
    pub scroll: i32,
}

fn wild_md(tier: Tier) -> BoxedStrategy<String> {
    prop_oneof![
        3 => wild_string(tier.pick(60, 300)),
        4 => doc(tier, tier.pick(8, 14)),
        2 => proptest::collection::vec(prop_oneof![block(tier), wild_string(20)], 0..8).prop_map(|v| v.join("\n")),
        2 => table(tier, false).prop_map(|t| t.md()),
        2 => (
            proptest::sample::select(&["* ", " * ", "  * ", "   * ", "> ", "# ", "######### ", "|", "    ", "```\n"][..]),
            wild_string(40)
        ).prop_map(|(p, s)| format!("{p}{s}")),
    ]
    .boxed()
}

fn wild_case(tier: Tier) -> BoxedStrategy<WildCase> {
    (
        wild_md(tier),
        prop_oneof![1 => Just(None), 8 => (0..12usize).prop_map(Some), 4 => (0..100usize).prop_map(Some)],
        skin(),
        prop_oneof![4 => Just(None), 2 => (0..40usize, 0..40usize).prop_map(Some), 1 => (0..100_000usize, 0..100_000usize).prop_map(Some)],
        (0..20u16, 0..20u16, prop_oneof![3 => 0..12u16, 2 => 0..60u16], 0..12u16),
        prop_oneof![4 => -30..30i32, 1 => any::<i32>()],
    )
        .prop_map(|(mut md, width, skin, margin, area, scroll)| {
            if margin.is_some_and(|(l, r)| l + r > 1000) && md.lines().count() > 20 {
                // not a long document and huge margins
                md = md.lines().take(20).collect::<Vec<_>>().join("\n");
            }
            WildCase { md, width, skin, margin, area, scroll }
        })
        .boxed()
}

fn wild_skin(case: &WildCase) -> MadSkin {
    let mut skin = case.skin.build();
    if let Some((l, r)) = case.margin {
        for ls in [&mut skin.paragraph, &mut skin.code_block, &mut skin.table] {
            ls.left_margin = l;
            ls.right_margin = r;
        }
        for ls in &mut skin.headers {
            ls.left_margin = r;
            ls.right_margin = l;
        }
    }
    skin
}

fn check_wild_text(case: &WildCase) -> CheckResult {
    let skin = wild_skin(case);
    let mut info = Info::new();
    let mut ft = skin.text(&case.md, case.width);
    let n = ft.lines.len();
    let out = ft.to_string();
    ensure!(!n > 0 || !out.is_empty(), "no output");
    for line in &ft.lines {
        let _ = DisplayableLine::new(&skin, line, case.width).to_string();
        let _ = line.visible_length();
    }
    let _ = ft.content_width();
    let raw = FmtText::raw_str(&skin, &case.md, case.width);
    let _ = raw.to_string();
    ft.set_rendering_width(case.area.2 as usize);
    let _ = ft.to_string();
    let first = case.md.lines().next().unwrap_or("");
    let _ = skin.inline(first).to_string();
    info.hit(
        n > 1 && case.width.is_some_and(|w| w < 24),
        "several lines in a small width",
    );
    info.class(case.width.is_some_and(|w| w < 3), "width < 3");
    info.class(case.margin.is_some(), "with big margins");
    Ok(info)
}

fn check_wild_area(case: &WildCase) -> CheckResult {
    let skin = wild_skin(case);
    let mut info = Info::new();
    let (l, t, w, h) = case.area;
    let area = Area::new(l, t, w, h);
    let mut out = Vec::new();
    skin.write_in_area_on(&mut out, &case.md, &area).map_err(|e| e.to_string())?;
    let text = skin.area_text(&case.md, &area);
    let mut view = TextView::from(&area, &text);
    view.try_scroll_lines(case.scroll);
    view.write_on(&mut out).map_err(|e| e.to_string())?;
    view.try_scroll_pages(case.scroll);
    view.write_on(&mut out).map_err(|e| e.to_string())?;
    let _ = view.scrollbar();
    let mut mv = MadView::from(case.md.clone(), area.clone(), skin.clone());
    mv.try_scroll_lines(case.scroll);
    mv.write_on(&mut out).map_err(|e| e.to_string())?;
    mv.try_scroll_pages(case.scroll);
    mv.write_on(&mut out).map_err(|e| e.to_string())?;
    mv.resize(&Area::new(t, l, h, w));
    mv.write_on(&mut out).map_err(|e| e.to_string())?;
    info.hit(w > 2 && h > 0 && text.lines.len() > h as usize, "scrollable");
    info.hit(w < 6 && !case.md.is_empty(), "tiny area");
    info.class(w == 0 || h == 0, "empty area");
    Ok(info)
}

fn check_wild_fit(case: &WildCase) -> CheckResult {
    let skin = wild_skin(case);
    let mut info = Info::new();
    let src: String = case.md.replace('\n', " ").chars().take(3000).collect();
    let composite = || minimad::Composite::from_inline(&src);
    for a in 0..4u8 {
        let w = case.width.unwrap_or(5);
        let mut fc = FmtComposite::from(composite(), &skin);
        fc.fit_width(w, align_of(a), &skin);
        let mut fc = FmtComposite::from(composite(), &skin);
        fc.fill_width(w, align_of(a), &skin);
        let mut buf = Vec::new();
        skin.write_composite_fill(&mut buf, composite(), w, align_of(a)).map_err(|e| e.to_string())?;
        info.hit(fc.visible_length < src.chars().count(), "cut");
    }
    Ok(info)
}

// -------------------------------------------------- C06, C07: tables

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TableCase {
    pub table: TableSpec,
    pub width: Option<usize>,
    pub skin: SkinSpec,
    #[serde(default)]
    pub alter: Alter,
}

fn table_case(tier: Tier, narrow: bool) -> BoxedStrategy<TableCase> {
    (table(tier, narrow), opt_width(3), skin(), alter())
        .prop_map(|(table, width, skin, alter)| TableCase { table, width, skin, alter })
        .boxed()
}

fn check_table_with(case: &TableCase, content: bool) -> CheckResult {
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let md = case.table.md();
    let text = parse_altered(&md, case.alter);
    let mut info = Info::new();
    let cells = || {
        text.lines.iter().flat_map(|l| match l {
            Line::TableRow(r) => &r.cells[..],
            _ => &[],
        })
    };
    let nb = p_table::nb_cols(&text.lines);
    let natural = p_table::fits(&p_table::natural_widths(&model, &text.lines), case.width);
    let v = model.tbc.vertical;
    let clash = cells().any(|c| {
        c.is_list_item() && model.bullet.c == v
            || c.is_quote() && model.quote.c == v
            || c.compounds.iter().any(|c| c.src.contains(v))
    });
    if text.lines.is_empty()
        || !text.lines.iter().all(|l| matches!(l, Line::TableRow(_) | Line::TableRule(_)))
        || !text.lines.iter().all(line_additive)
        || nb == 0
        || p_table::displayed_cols(nb, case.width) == 0
        || clash
        || !natural && !cells_feasible(&model, &text)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let rows = render_altered(&skin, &md, case.width, case.alter)?;
    let geom = p_table::check_geometry(&model, &text.lines, &rows, case.width, content)?;
    if content {
        p_table::check_cells(
            &model,
            &text.lines,
            &rows,
            &geom,
            &LineCheck { check_style: true, check_words: true, check_pads: true },
        )?;
    }
    info.class(!natural, "not natural");
    info.class(geom.removed > 0, "columns removed");
    info.class(rows.len() > text.lines.len(), "cells wrapped");
    info.class(text.lines.iter().any(|l| matches!(l, Line::TableRule(_))), "with rule");
    info.nontrivial = rows.len() > 1 && (!natural || content && nb > 1);
    Ok(info)
}

fn check_table_geometry(case: &TableCase) -> CheckResult {
    check_table_with(case, false)
}
fn check_table_content(case: &TableCase) -> CheckResult {
    check_table_with(case, true)
}

// -------------------------------------------------- C08: code blocks

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CodeCase {
    pub lines: Vec<String>,
    pub fenced: bool,
    pub lang: String,
    pub width: Option<usize>,
    pub skin: SkinSpec,
}

fn code_case(_: Tier) -> BoxedStrategy<CodeCase> {
    let line = prop_oneof![
        1 => Just(String::new()),
        5 => (0..8usize, sentence(6)).prop_map(|(n, s)| format!("{}{}", " ".repeat(n), s)),
        3 => inline_md(4),
        2 => line_md(),
        1 => table(Tier::Quick, true).prop_map(|t| t.md().lines().next().unwrap_or("").to_string()),
        1 => proptest::sample::select(&["# title", "* item", "> quote", "---", "|a|b|", "`a`", "``", "**b**", "\\*", "|-|-"][..]).prop_map(String::from),
    ];
    (
        few(line.boxed(), 1, 6, 25),
        prop::bool::weighted(0.7),
        proptest::sample::select(&["", "rust", "js"][..]),
        opt_width(3),
        skin(),
    )
        .prop_map(|(lines, fenced, lang, width, skin)| CodeCase {
            lines: lines
                .into_iter()
                .map(|l| if l.trim_start().starts_with("```") { format!("_{l}") } else { l })
                .collect(),
            fenced,
            lang: lang.to_string(),
            width,
            skin,
        })
        .boxed()
}

fn check_code(case: &CodeCase) -> CheckResult {
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let mut info = Info::new();
    let md = if case.fenced {
        format!("```{}\n{}\n```", case.lang, case.lines.join("\n"))
    } else {
        case.lines.iter().map(|l| format!("    {l}")).collect::<Vec<_>>().join("\n")
    };
    let width_of = |s: &str| -> usize { s.chars().map(char_width).sum() };
    let max_char = case.lines.iter().flat_map(|l| l.chars()).map(char_width).max().unwrap_or(0);
    if !case.lines.iter().all(|l| additive_width(l))
        || !feasible(&model, CompositeKind::Code, case.width, max_char)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let rows = render(&skin, &md, case.width)?;
    let block_width = case.lines.iter().map(|l| width_of(l)).max().unwrap();
    let lm = &model.code_block;
    let (l, r) = lm.margins(case.width);
    let avail = case.width.map(|w| w - l - r);
    let shown_width = avail.map_or(block_width, |a| block_width.min(a));
    let lead = l + case.width.map_or(0, |w| completions(lm.align, shown_width + l + r, w).0);
    for (i, row) in rows.iter().enumerate() {
        ensure!(
            row_width(row) == lead + shown_width,
            "code row {i} ends at {} instead of {} (block of width {shown_width} at {lead}): {:?}",
            row_width(row),
            lead + shown_width,
            row_text(row)
        );
        ensure!(
            row[..lead].iter().all(|s| s.c == ' ' && s.st == model.para.st),
            "wrong spaces before code row {i}: {row:?}"
        );
        let ellipsis = |s: &Sc| s.c == '…' && s.st == model.ellipsis;
        ensure!(
            row[lead..].iter().all(|s| s.st == lm.st || ellipsis(s)),
            "code row {i} not in the code style {:?}: {row:?}",
            lm.st
        );
    }
    if shown_width == block_width {
        ensure!(
            rows.len() == case.lines.len(),
            "{} rows for {} code lines which fit",
            rows.len(),
            case.lines.len()
        );
        for (row, line) in rows.iter().zip(&case.lines) {
            let got = row_text(&row[lead..]);
            let expected = format!("{line}{}", " ".repeat(block_width - width_of(line)));
            ensure!(got == expected, "code line {line:?} displayed as {got:?}");
        }
    } else {
        let compounds: Vec<minimad::Compound<'_>> = case.lines.iter().map(|l| minimad::Compound::raw_str(l)).collect();
        partition(case.lines.len(), &rows, &mut |i, rows| {
            let line = Line::Normal(minimad::Composite {
                style: minimad::CompositeStyle::Code,
                compounds: vec![compounds[i].clone()],
            });
            check_line_in_block(
                &model,
                &line,
                rows,
                case.width,
                &LineCheck { check_style: true, check_words: false, check_pads: true },
                block_width,
            )
        })?;
        info.hit(true, "wrapped");
    }
    info.class(case.fenced, "fenced");
    info.hit(
        case.lines.iter().any(|l| l.contains(['*', '`', '|', '#', '>', '~'])),
        "with markdown chars",
    );
    info.hit(case.lines.iter().any(|l| width_of(l) < block_width), "justified");
    Ok(info)
}

// -------------------------------------------------- C06: column widths

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FitterCase {
    pub nbcols: usize,
    pub width: usize,
    pub cells: Vec<(usize, usize)>,
}

fn fitter_case(tier: Tier) -> BoxedStrategy<FitterCase> {
    let n = prop_oneof![6 => 0..7usize, 2 => 0..30usize, 1 => 0..300usize];
    (n, tier.pick(Just(30usize), Just(60usize)))
        .prop_flat_map(|(n, max)| {
            let w = prop_oneof![1 => 0..4usize, 4 => 0..12usize, 3 => 0..60usize, 1 => 0..5000usize];
            (
                Just(n),
                prop_oneof![
                    4 => (0..60usize).prop_map(move |x| 4 * n + 1 + x),
                    1 => 0..4 * n + 3,
                    2 => (0..20 * n + 1).prop_map(move |x| 4 * n + 1 + x),
                    1 => 0..6000usize,
                ],
                proptest::collection::vec((0..n + 2, w), 0..max),
            )
        })
        .prop_map(|(nbcols, width, cells)| FitterCase { nbcols, width, cells })
        .boxed()
}

fn check_fitter(case: &FitterCase) -> CheckResult {
    let mut info = Info::new();
    let n = case.nbcols;
    let mut fitter = match TblFit::new(n, case.width) {
        Ok(f) => f,
        Err(_) => {
            ensure!(case.width < 4 * n + 1, "{n} columns don't fit in {}", case.width);
            return Ok(info);
        }
    };
    ensure!(case.width >= 4 * n + 1, "{n} columns fit in {}", case.width);
    let mut natural = vec![3usize; n];
    for &(col, w) in &case.cells {
        fitter.see_cell(col, w);
        if let Some(nat) = natural.get_mut(col) {
            *nat = w.max(*nat);
        }
    }
    let fit = fitter.fit();
    let total = |v: &[usize]| v.iter().sum::<usize>() + n + 1;
    ensure_eq!(fit.col_widths.len(), n, "number of columns");
    if total(&natural) <= case.width {
        ensure_eq!(fit.col_widths, natural, "widths of columns which fit");
        ensure!(!fit.reduced, "said to be reduced");
        return Ok(info);
    }
    ensure!(fit.reduced, "not said to be reduced, {natural:?} becoming {:?}", fit.col_widths);
    for (i, (w, nat)) in fit.col_widths.iter().zip(&natural).enumerate() {
        ensure!(*w >= 3, "column {i} of width {w} in {:?}", fit.col_widths);
        ensure!(w <= nat, "column {i} wider than its content in {:?} (natural widths: {natural:?})", fit.col_widths);
    }
    ensure!(
        total(&fit.col_widths) <= case.width,
        "columns {:?} don't fit in {}",
        fit.col_widths,
        case.width
    );
    ensure_eq!(total(&fit.col_widths), case.width, "total width of the reduced columns {:?}", fit.col_widths);
    info.hit(true, "reduced");
    info.class(n == 1, "one column");
    Ok(info)
}

// -------------------------------------------------- C29: content width

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ContentCase {
    pub md: String,
    pub width: Option<usize>,
    pub extra: usize,
    pub skin: SkinSpec,
}

fn content_case(tier: Tier) -> BoxedStrategy<ContentCase> {
    (
        prop_oneof![4 => doc(tier, 6), 1 => line_md(), 1 => table(tier, false).prop_map(|t| t.md())],
        opt_width(3),
        prop_oneof![2 => Just(0usize), 1 => 0..30usize],
        skin(),
    )
        .prop_map(|(md, width, extra, mut skin)| {
            if let SkinSpec::Custom(c) = &mut skin {
                for l in [&mut c.paragraph, &mut c.code_block, &mut c.table].into_iter().chain(c.headers.iter_mut()) {
                    l.lm = 0;
                    l.rm = 0;
                }
            }
            ContentCase { md, width, extra, skin }
        })
        .boxed()
}

/// lengths of the composites made by direct wrapping
fn check_hard_wrap(
    skin: &MadSkin,
    composite: &minimad::Composite<'_>,
    width: Option<usize>,
    length: usize,
) -> Result<(), String> {
    let fc = FmtComposite::from(composite.clone(), skin);
    for w in 0..3usize {
        if length > w {
            match wrap::hard_wrap_composite(&fc, w, skin) {
                Ok(_) => return Err(format!("no error when wrapping {composite:?} in {w} columns")),
                Err(e) => ensure_eq!(e.available_width, w, "available width of the error"),
            }
            ensure!(
                wrap::hard_wrap_lines(vec![FmtLine::Normal(fc.clone())], w, skin).is_err(),
                "no error when wrapping the line of {composite:?} in {w} columns"
            );
        }
    }
    let Some(w) = width.filter(|w| *w < length) else {
        return Ok(());
    };
    let pieces = wrap::hard_wrap_composite(&fc, w, skin).map_err(|e| e.to_string())?;
    ensure!(!pieces.is_empty(), "nothing left of {composite:?} wrapped in {w} columns");
    for piece in &pieces {
        let shown = row_width(&single_row(&FmtInline { skin, composite: piece.clone() }.to_string())?);
        ensure_eq!(piece.visible_length, shown, "visible_length of {piece:?}");
        ensure!(shown <= w, "{piece:?} is {shown} columns wide when wrapped in {w} columns");
        // the parts may be wrapped again
        let bare = |c: &FmtComposite<'_>| -> String {
            c.compounds.iter().flat_map(|c| c.src.chars()).filter(|c| !c.is_whitespace()).collect()
        };
        let prefix = shown - piece.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).sum::<usize>();
        let w2 = (prefix + 2).max(3 + length % w);
        if w2 < shown {
            let parts = wrap::hard_wrap_composite(piece, w2, skin).map_err(|e| e.to_string())?;
            for part in &parts {
                let shown = row_width(&single_row(&FmtInline { skin, composite: part.clone() }.to_string())?);
                ensure_eq!(part.visible_length, shown, "visible_length of {part:?}");
                ensure!(shown <= w2, "{part:?} is {shown} columns wide when {piece:?} is wrapped in {w2} columns");
            }
            let text: String = parts.iter().map(bare).collect();
            ensure_eq!(text, bare(piece), "text of {piece:?} when wrapped again in {w2} columns");
        }
    }
    let lines = wrap::hard_wrap_lines(vec![FmtLine::Normal(fc)], w, skin).map_err(|e| e.to_string())?;
    let as_lines: Vec<FmtLine> = pieces.into_iter().map(FmtLine::Normal).collect();
    ensure_eq!(format!("{lines:?}"), format!("{as_lines:?}"), "wrapping of the line of {composite:?}");
    Ok(())
}

fn check_content_width(case: &ContentCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let text = parse(&case.md);
    if !text.lines.iter().all(line_additive)
        || !kinds_feasible(&model, &text, case.width)
        || !cells_feasible(&model, &text)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    for line in &text.lines {
        if let Line::Normal(composite) = line {
            let content: usize = composite.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).sum();
            let kind: CompositeKind = composite.style.into();
            let expected = row_width(&model.prefixes(kind).0) + content;
            ensure_eq!(skin.visible_line_length(line), expected, "visible length of {line:?}");
            ensure_eq!(FmtComposite::from(composite.clone(), &skin).visible_length, expected, "visible_length of {composite:?}");
            check_hard_wrap(&skin, composite, case.width, expected)?;
            let d = (content % 11) as u8;
            for kind in [
                kind,
                CompositeKind::ListItem(d),
                CompositeKind::ListItemFollowUp(d),
                CompositeKind::Header(d.max(1)),
                CompositeKind::Quote,
                CompositeKind::Code,
                CompositeKind::Paragraph,
            ] {
                let prefix = match kind {
                    CompositeKind::ListItemFollowUp(d) => model.prefixes(CompositeKind::ListItem(d)).1,
                    kind => model.prefixes(kind).0,
                };
                let expected = row_width(&prefix) + content;
                ensure_eq!(
                    skin.visible_composite_length(kind, &composite.compounds),
                    expected,
                    "visible length of {composite:?} as {kind:?}"
                );
            }
        }
    }
    let mut ft = skin.text(&case.md, case.width);
    ft.width = None;
    let bare = rows(&ft.to_string())?;
    let widest = bare.iter().map(|r| row_width(r)).max().unwrap_or(0);
    let cw = ft.content_width();
    ensure_eq!(cw, widest, "content_width");
    if let Some(w) = case.width {
        ensure!(cw <= w, "content_width {cw} for a width of {w}");
    }
    let w = cw + case.extra;
    ft.set_rendering_width(w);
    let out = rows(&ft.to_string())?;
    ensure_eq!(out.len(), ft.lines.len(), "number of rows");
    ensure_eq!(out.len(), bare.len(), "number of rows with another rendering width");
    for (i, (row, bare)) in out.iter().zip(&bare).enumerate() {
        ensure!(
            row_width(row) <= w,
            "row {i} is {} wide with a rendering width of {w}: {:?}",
            row_width(row),
            row_text(row)
        );
        let rule = !bare.is_empty() && bare.len() != row.len() && row.iter().all(|s| s.c == model.rule.c);
        let (a, b) = (row_text(row), row_text(bare));
        ensure!(
            rule && bare.is_empty() || a.trim_start_matches(' ') == b.trim_start_matches(' ')
                || b.is_empty() && row.iter().all(|s| s.c == model.rule.c),
            "content of row {i} changed by the rendering width: {a:?} / {b:?}"
        );
    }
    info.class(text.lines.iter().any(|l| matches!(l, Line::TableRow(_))), "with table");
    info.hit(bare.len() > 1 && widest > 0, "several rows");
    Ok(info)
}

// -------------------------------------------------- C30: independent blocks

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BlocksCase {
    pub blocks: Vec<String>,
    pub width: Option<usize>,
    pub skin: SkinSpec,
    #[serde(default)]
    pub alter: Alter,
}

fn blocks_case(tier: Tier) -> BoxedStrategy<BlocksCase> {
    (proptest::collection::vec(block(tier), 1..8), opt_width(3), skin(), alter())
        .prop_map(|(blocks, width, skin, alter)| {
            // two adjacent tables, or two adjacent code blocks, are one
            let kind = |s: &str| {
                if s.starts_with('|') {
                    1
                } else if s.starts_with("    ") || s.starts_with("```") {
                    2
                } else {
                    0
                }
            };
            let mut v: Vec<String> = Vec::new();
            for b in blocks {
                if let Some(p) = v.last() {
                    if kind(p) != 0 && kind(p) == kind(&b) {
                        v.push("sep".to_string());
                    }
                }
                v.push(b);
            }
            BlocksCase { blocks: v, width, skin, alter }
        })
        .boxed()
}

fn check_blocks(case: &BlocksCase) -> CheckResult {
    let skin = case.skin.build();
    let mut info = Info::new();
    let mut separate = Vec::new();
    for b in &case.blocks {
        separate.extend(render_altered(&skin, &format!("{b}\n"), case.width, case.alter)?);
    }
    let md = case.blocks.join("\n") + "\n";
    let whole = render_altered(&skin, &md, case.width, case.alter)?;
    ensure_eq!(whole.len(), separate.len(), "number of rows of the whole document");
    for (i, (a, b)) in whole.iter().zip(&separate).enumerate() {
        ensure!(
            a == b,
            "row {i} depends on the rest of the document: {:?} instead of {:?}",
            a,
            b
        );
    }
    info.hit(case.blocks.len() > 1, "several blocks");
    info.class(case.blocks.iter().any(|b| b.starts_with('|')), "with table");
    info.class(case.blocks.iter().any(|b| b.starts_with("```")), "with fenced code");
    // rendering is deterministic and doesn't depend on the way it's written
    let again = render_altered(&skin, &md, case.width, case.alter)?;
    ensure!(again == whole, "rendering isn't deterministic");
    Ok(info)
}

// -------------------------------------------------- inline

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct InlineCase {
    pub md: String,
    pub skin: SkinSpec,
    /// chars to be replaced: (char, style of the compound, replacement)
    pub specials: Vec<(char, u8, CharSpec)>,
}

fn inline_case(_: Tier) -> BoxedStrategy<InlineCase> {
    let chars = || proptest::sample::select(&['a', '!', 'é', '1'][..]);
    let bits = || proptest::sample::select(&[0u8, 1, 2, 3, 4, 8, 9, 10][..]);
    let pool = proptest::collection::vec((chars(), bits()), 1..4);
    let around = (pool, proptest::collection::vec((0..4usize, any::<bool>(), word(5)), 0..6)).prop_flat_map(
        move |(pool, items)| {
            let md: String = items
                .iter()
                .map(|(i, sep, w)| {
                    let (c, k) = pool[i % pool.len()];
                    let sep = if *sep { " " } else { "" };
                    format!("{}{sep}{w} ", span_md(&span_of_bits(c, k)))
                })
                .collect();
            (
                Just(md),
                skin(),
                proptest::collection::vec((proptest::sample::select(pool), char_spec()), 0..4),
            )
        },
    );
    prop_oneof![
        1 => (inline_md(8), skin(), proptest::collection::vec(((chars(), bits()), char_spec()), 0..3)),
        1 => around,
    ]
    .prop_map(|(md, skin, specials)| InlineCase {
        md,
        skin,
        specials: specials.into_iter().map(|((c, k), r)| (c, k, r)).collect(),
    })
    .boxed()
}

fn span_of_bits(c: char, k: u8) -> Span {
    Span {
        text: c.to_string(),
        bold: k & 1 != 0,
        italic: k & 2 != 0,
        code: k & 4 != 0,
        strike: k & 8 != 0,
    }
}

fn special_compound(c: char, k: u8) -> minimad::Compound<'static> {
    let s: &'static str = match c {
        'a' => "a",
        '!' => "!",
        'é' => "é",
        _ => "1",
    };
    let mut cp = minimad::Compound::raw_str(s);
    cp.bold = k & 1 != 0;
    cp.italic = k & 2 != 0;
    cp.code = k & 4 != 0;
    cp.strikeout = k & 8 != 0;
    cp
}

fn check_inline(case: &InlineCase) -> CheckResult {
    let mut skin = case.skin.build();
    let mut specials: Vec<(minimad::Compound<'static>, CharSpec)> = Vec::new();
    for (c, k, r) in &case.specials {
        let cp = special_compound(*c, *k);
        specials.retain(|s| s.0 != cp);
        specials.push((cp.clone(), *r));
        skin.special_chars.insert(cp, r.styled());
    }
    let model = Model::of(&case.skin, &skin);
    let mut info = Info::new();
    let composite = minimad::Composite::from_inline(&case.md);
    if case.md.contains('\n') {
        return Ok(info);
    }
    let row = single_row(&skin.inline(&case.md).to_string())?;
    let (lm, rm) = (model.para.lm, model.para.rm);
    let _ = rm;
    let mut expected = vec![model.space(); lm];
    for c in &composite.compounds {
        if let Some((_, r)) = specials.iter().find(|s| s.0 == *c) {
            expected.push(Sc { c: r.c, w: char_width(r.c), st: r.style.st() });
            info.hit(true, "special char");
        } else {
            for s in model.src(CompositeKind::Paragraph, std::slice::from_ref(c)) {
                expected.push(Sc { c: s.c, w: s.w, st: s.st });
            }
        }
    }
    ensure!(row == expected, "inline rendered as {row:?} instead of {expected:?}");
    // other ways to write the same thing
    let mut w = Vec::new();
    skin.write_inline_on(&mut w, &case.md).map_err(|e| e.to_string())?;
    ensure!(
        single_row(std::str::from_utf8(&w).unwrap())? == expected,
        "write_inline_on differs from inline"
    );
    let mut w = Vec::new();
    skin.write_composite(&mut w, composite.clone()).map_err(|e| e.to_string())?;
    ensure!(
        single_row(std::str::from_utf8(&w).unwrap())? == expected,
        "write_composite differs from inline"
    );
    info.hit(composite.compounds.len() > 1, "several compounds");
    Ok(info)
}

// -------------------------------------------------- raw

fn check_raw(case: &TextCase) -> CheckResult {
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let mut info = Info::new();
    let lines: Vec<&str> = case.md.lines().collect();
    let max_char = case.md.chars().map(char_width).max().unwrap_or(0);
    if !lines.iter().all(|l| additive_width(l))
        || !feasible(&model, CompositeKind::Paragraph, case.width, max_char)
    {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let ft = FmtText::raw_str(&skin, &case.md, case.width);
    let out = rows(&ft.to_string())?;
    partition(lines.len(), &out, &mut |i, rows| {
        let line = Line::Normal(minimad::Composite {
            style: minimad::CompositeStyle::Paragraph,
            compounds: vec![minimad::Compound::raw_str(lines[i])],
        });
        check_line(
            &model,
            &line,
            rows,
            case.width,
            &LineCheck { check_style: true, check_words: true, check_pads: true },
        )
    })?;
    info.hit(case.md.contains(['*', '`', '|', '#', '>', '~']), "with markdown chars");
    info.hit(out.len() > lines.len(), "wrapped");
    Ok(info)
}

fn raw_case(tier: Tier) -> BoxedStrategy<TextCase> {
    (
        proptest::collection::vec(
            prop_oneof![line_md(), table(tier, true).prop_map(|t| t.md()), code_block(true)],
            0..5,
        ),
        opt_width(3),
        skin(),
    )
        .prop_map(|(v, width, skin)| TextCase { md: v.join("\n"), width, skin, alter: Alter::default() })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    const UNI: &str = "text of displayed width equal to the sum of the unicode-width of its chars, without control chars";
    const MINIMAD: &str = "minimad 0.13.1 (a dependency) defines what the markdown source means";
    const FEASIBLE: &str = "the width, once margins removed, is at least the bullet or quote mark plus the widest char (and at least 3)";
    vec![
        Property {
            id: "C01",
            rule: "text: more than one line in a width below 24; area: the text is scrollable or the area is less than 6 columns wide; fit: something is cut",
            assumptions: &["margins up to 100000, areas in 0..60 columns and 0..12 rows"],
            max_threads: 8,
            parts: vec![
                part("text", 60_000, 3_000_000, wild_case, check_wild_text),
                part("area", 40_000, 1_500_000, wild_case, check_wild_area),
                part("fit", 40_000, 1_500_000, wild_case, check_wild_fit),
            ],
        },
        Property {
            id: "C02",
            rule: "the rendering has more rows than the source has lines (something is wrapped)",
            assumptions: &[UNI, MINIMAD, FEASIBLE],
            max_threads: 8,
            parts: vec![
                part("doc", 100_000, 4_000_000, doc_case, check_width),
                part("sequences", 60_000, 2_000_000, sequence_case, check_sequences),
            ],
        },
        Property {
            id: "C03",
            rule: "the line is wrapped on several rows, or (raw) has markdown chars",
            assumptions: &[UNI, MINIMAD, FEASIBLE],
            max_threads: 8,
            parts: vec![
                part("line", 200_000, 8_000_000, line_case, check_wrap),
                part("raw", 120_000, 1_000_000, raw_case, check_raw),
            ],
        },
        Property {
            id: "C04",
            rule: "some displayed char has a non default style, or there are several compounds, or a special char is replaced",
            assumptions: &[UNI, MINIMAD, FEASIBLE],
            max_threads: 8,
            parts: vec![
                part("line", 120_000, 6_000_000, line_case, check_style),
                part("inline", 120_000, 2_000_000, inline_case, check_inline),
            ],
        },
        Property {
            id: "C05",
            rule: "a row is shifted (margin, alignment), completed with spaces, or wrapped",
            assumptions: &[UNI, MINIMAD, FEASIBLE],
            max_threads: 8,
            parts: vec![part("line", 200_000, 8_000_000, line_case, check_layout)],
        },
        Property {
            id: "C06",
            rule: "several rows and the table can't have its natural width",
            assumptions: &[UNI, MINIMAD, "the cells don't contain the border char", "cells which are list items or quotes fit a 3 columns wide cell, or the whole table fits"],
            max_threads: 8,
            parts: vec![
                part("table", 100_000, 4_000_000, |t| table_case(t, false), check_table_geometry),
                part("ascii", 40_000, 1_000_000, |t| table_case(t, true), check_table_geometry),
                part("fitter", 100_000, 4_000_000, fitter_case, check_fitter),
            ],
        },
        Property {
            id: "C07",
            rule: "several rows and several columns",
            assumptions: &[UNI, MINIMAD, "the cells don't contain the border char", "cells which are list items or quotes fit a 3 columns wide cell, or the whole table fits"],
            max_threads: 8,
            parts: vec![
                part("table", 60_000, 3_000_000, |t| table_case(t, false), check_table_content),
                part("ascii", 40_000, 1_000_000, |t| table_case(t, true), check_table_content),
            ],
        },
        Property {
            id: "C08",
            rule: "the block is wrapped, or has lines of different widths, or chars with a meaning in markdown",
            assumptions: &[UNI, FEASIBLE],
            max_threads: 8,
            parts: vec![part("block", 300_000, 4_000_000, code_case, check_code)],
        },
        Property {
            id: "C29",
            rule: "several rows, some not empty",
            assumptions: &[UNI, MINIMAD, FEASIBLE, "no margins"],
            max_threads: 8,
            parts: vec![part("doc", 100_000, 4_000_000, content_case, check_content_width)],
        },
        Property {
            id: "C30",
            rule: "several blocks",
            assumptions: &["fences are closed; two tables, or two code blocks, don't touch"],
            max_threads: 8,
            parts: vec![part("blocks", 60_000, 3_000_000, blocks_case, check_blocks)],
        },
    ]
}
