//! Fitting: ellision of composites, cropping of strings, fillings

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        model::*,
        term::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        minimad::{
            Alignment,
            Composite,
            CompositeStyle,
            Compound,
        },
        *,
    },
};

// -------------------------------------------------- C12: fit

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FitCase {
    /// text and style bits
    pub compounds: Vec<(String, u8)>,
    /// 0: paragraph, 1: quote, n: list item of depth n-2
    pub kind: u8,
    pub width: usize,
    pub align: u8,
    pub skin: SkinSpec,
}

fn fit_case(tier: Tier) -> BoxedStrategy<FitCase> {
    let text = prop_oneof![
        4 => sentence(tier.pick(6, 14)),
        2 => word(20),
        1 => Just(String::new()),
        1 => Just(" ".to_string()),
        1 => narrow_word(30),
        1 => vec(select(&['一', '概', '要', 'a', 'b', '\u{301}', ' '][..]), 0..12).prop_map(|v| v.into_iter().collect::<String>()),
    ];
    (
        vec((text, 0..16u8), 0..tier.pick(5, 9)),
        prop_oneof![5 => Just(0u8), 1 => 1..5u8],
        prop_oneof![60 => 0..30usize, 10 => 0..120usize, 1 => 0..800usize],
        0..4u8,
        skin(),
    )
        .prop_map(|(compounds, kind, width, align, mut skin)| {
            if let SkinSpec::Custom(c) = &mut skin {
                c.paragraph.lm = 0;
                c.paragraph.rm = 0;
            }
            let compounds = compounds.into_iter().map(|(s, k)| (s.replace('…', "."), k)).collect();
            FitCase { compounds, kind, width, align, skin }
        })
        .boxed()
}

impl FitCase {
    fn composite(&self) -> Composite<'_> {
        Composite {
            style: match self.kind {
                0 => CompositeStyle::Paragraph,
                1 => CompositeStyle::Quote,
                n => CompositeStyle::ListItem(n - 2),
            },
            compounds: self
                .compounds
                .iter()
                .map(|(s, k)| {
                    let mut c = Compound::raw_str(s);
                    c.bold = k & 1 != 0;
                    c.italic = k & 2 != 0;
                    c.code = k & 4 != 0;
                    c.strikeout = k & 8 != 0;
                    c
                })
                .collect(),
        }
    }
}

type Item = (char, u8);

fn items(c: &Compound<'_>) -> Vec<Item> {
    let k = c.bold as u8 + 2 * c.italic as u8 + 4 * c.code as u8 + 8 * c.strikeout as u8;
    c.src.chars().map(|ch| (ch, k)).collect()
}

fn items_width(v: &[Item]) -> usize {
    v.iter().map(|i| char_width(i.0)).sum()
}

/// check that `got` (None being an ellipsis) is the source with some parts replaced
fn is_ellision(src: &[Item], got: &[Option<Item>]) -> bool {
    // reachable positions in the source
    let mut reach = vec![false; src.len() + 1];
    reach[0] = true;
    for g in got {
        let mut next = vec![false; src.len() + 1];
        match g {
            Some(it) => {
                for i in 0..src.len() {
                    if reach[i] && src[i] == *it {
                        next[i + 1] = true;
                    }
                }
            }
            None => {
                let mut any = false;
                for i in 0..=src.len() {
                    next[i] = any;
                    any |= reach[i];
                }
            }
        }
        reach = next;
    }
    reach[src.len()]
}

fn check_fit(case: &FitCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let composite = case.composite();
    let kind: CompositeKind = composite.style.into();
    let (prefix, _) = model.prefixes(kind);
    let pw = row_width(&prefix);
    if !composite.compounds.iter().all(|c| additive_width(c.src)) || pw > 0 && case.width < pw + 1 {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let align = align_of(case.align);
    let src: Vec<Item> = composite.compounds.iter().flat_map(items).collect();
    let natural = pw + items_width(&src);
    let w = case.width;
    let mut fc = FmtComposite::from(composite.clone(), &skin);
    ensure_eq!(fc.visible_length, natural, "visible_length");
    fc.fit_width(w, align, &skin);
    let mut got: Vec<Option<Item>> = Vec::new();
    let mut width = pw;
    for c in &fc.compounds {
        if c.src == "…" {
            got.push(None);
            width += 1;
        } else {
            let v = items(c);
            width += items_width(&v);
            got.extend(v.into_iter().map(Some));
        }
    }
    let shown: String = got.iter().map(|g| g.map_or('…', |i| i.0)).collect();
    ensure!(width <= w || natural <= w, "{shown:?} is {width} wide for a width of {w}");
    ensure_eq!(fc.visible_length, if w == 0 && natural > 0 { 0 } else { width }, "visible_length of {shown:?}");
    ensure_eq!(fc.kind, kind, "kind");
    if natural <= w {
        let unchanged: Vec<Option<Item>> = src.iter().copied().map(Some).collect();
        ensure!(got == unchanged, "text changed to {shown:?} while it fits");
    } else if w > 0 {
        ensure!(
            is_ellision(&src, &got),
            "{shown:?} isn't the source with some parts replaced by an ellipsis"
        );
        let nb = got.iter().filter(|g| g.is_none()).count();
        ensure!(nb > 0, "no ellipsis in {shown:?}");
        let chars: Vec<Item> = got.iter().copied().flatten().collect();
        match align {
            Alignment::Left => {
                ensure!(nb == 1 && got.last() == Some(&None), "{shown:?} isn't left aligned");
                if w > 1 {
                    let next = src[chars.len()];
                    ensure!(
                        pw + items_width(&chars) + char_width(next.0) + 1 > w,
                        "{shown:?} should contain more chars for a width of {w}"
                    );
                }
            }
            Alignment::Right => {
                ensure!(nb == 1 && got.first() == Some(&None), "{shown:?} isn't right aligned");
                if w > 1 {
                    let previous = src[src.len() - chars.len() - 1];
                    ensure!(
                        pw + items_width(&chars) + char_width(previous.0) + 1 > w,
                        "{shown:?} should contain more chars for a width of {w}"
                    );
                }
            }
            Alignment::Center => {
                ensure!(got.last() == Some(&None), "{shown:?} isn't centered");
                ensure!(
                    nb == 1 || nb == 2 && got.first() == Some(&None),
                    "{shown:?} isn't centered"
                );
                // a wide char may not fit on each side
                ensure!(width + 2 >= w, "{shown:?} should contain more chars for a width of {w}");
                if w > 2 && src.iter().all(|i| char_width(i.0) == 1) {
                    ensure_eq!(width, w, "width of {shown:?}");
                }
            }
            Alignment::Unspecified => {}
        }
        info.hit(nb > 0, "ellision");
        info.class(nb > 1, "several ellipses");
        info.class(align == Alignment::Unspecified && got.last() != Some(&None), "internal ellision");
    }
    Ok(info)
}

fn check_fill(case: &FitCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let composite = case.composite();
    let kind: CompositeKind = composite.style.into();
    let (prefix, _) = model.prefixes(kind);
    let pw = row_width(&prefix);
    if !composite.compounds.iter().all(|c| additive_width(c.src)) || pw > 0 && case.width < pw + 1 {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let align = align_of(case.align);
    let w = case.width;
    let mut out = Vec::new();
    skin.write_composite_fill(&mut out, composite.clone(), w, align)
        .map_err(|e| e.to_string())?;
    let s = String::from_utf8(out).map_err(|e| e.to_string())?;
    let row = single_row(&s)?;
    ensure_eq!(row_width(&row), w, "width of {:?}", row_text(&row));
    // what would be displayed without filling
    let mut fc = FmtComposite::from(composite, &skin);
    fc.fit_width(w, align, &skin);
    let (lead, trail) = completions(align, fc.visible_length, w);
    let mut expected: Row = Vec::new();
    let space = model.space();
    expected.extend(std::iter::repeat(space).take(lead));
    expected.extend(prefix.iter().copied());
    for s in model.src(kind, &fc.compounds) {
        expected.push(Sc { c: s.c, w: s.w, st: s.st });
    }
    expected.extend(std::iter::repeat(space).take(trail));
    ensure!(
        row == expected,
        "filled composite {:?} / {:?}",
        row,
        expected
    );
    fc.fill_width(w, align, &skin);
    let again = FmtInline { skin: &skin, composite: fc }.to_string();
    ensure!(single_row(&again)? == row, "filled composite {again:?} different from {s:?}");
    info.hit(lead + trail > 0, "completed");
    info.hit(row.iter().any(|s| s.c == '…'), "ellision");
    Ok(info)
}

// -------------------------------------------------- C12: chars sequences

fn fit_sequences_case(tier: Tier) -> BoxedStrategy<FitCase> {
    let piece = prop_oneof![
        4 => select(SEQUENCES).prop_map(str::to_string),
        1 => Just(" ".to_string()),
        3 => word(tier.pick(5, 9)),
    ];
    let text = vec(piece, 0..8).prop_map(|v| v.concat());
    (fit_case(tier), vec((text, 0..16u8), 0..5))
        .prop_map(|(mut case, compounds)| {
            case.compounds = compounds.into_iter().map(|(s, k)| (s.replace('…', "."), k)).collect();
            case
        })
        .boxed()
}

/// the same as `check_fit` when the width of a string isn't the sum of
/// the widths of its chars
fn check_fit_sequences(case: &FitCase) -> CheckResult {
    use unicode_width::UnicodeWidthStr;
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let composite = case.composite();
    let kind: CompositeKind = composite.style.into();
    let (prefix, _) = model.prefixes(kind);
    let pw = row_width(&prefix);
    let w = case.width;
    if pw > 0 && w < pw + 2 {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let align = align_of(case.align);
    let src: Vec<Item> = composite.compounds.iter().flat_map(items).collect();
    let natural = pw + composite.compounds.iter().map(|c| c.src.width()).sum::<usize>();
    let mut fc = FmtComposite::from(composite.clone(), &skin);
    ensure_eq!(fc.visible_length, natural, "visible_length");
    fc.fit_width(w, align, &skin);
    let mut got: Vec<Option<Item>> = Vec::new();
    for c in &fc.compounds {
        if c.src == "…" {
            got.push(None);
        } else {
            got.extend(items(c).into_iter().map(Some));
        }
    }
    let shown: String = got.iter().map(|g| g.map_or('…', |i| i.0)).collect();
    let width = pw + fc.compounds.iter().map(|c| c.src.width()).sum::<usize>();
    if natural <= w {
        let unchanged: Vec<Option<Item>> = src.iter().copied().map(Some).collect();
        ensure!(got == unchanged, "text changed to {shown:?} while it fits");
    } else if w > 0 {
        ensure!(width <= w, "{shown:?} is {width} wide for a width of {w}");
        ensure_eq!(fc.visible_length, width, "visible_length of {shown:?}");
        ensure!(
            is_ellision(&src, &got),
            "{shown:?} isn't the source with some parts replaced by an ellipsis"
        );
        if matches!(align, Alignment::Left | Alignment::Right) {
            // something wide doesn't always fit
            ensure!(w == 1 || width + 1 >= w, "{shown:?} should contain more chars for a width of {w}");
        }
        info.hit(src.iter().any(|i| SEQUENCES.iter().any(|s| s.starts_with(i.0))), "ellision with sequences");
    }
    let mut out = Vec::new();
    skin.write_composite_fill(&mut out, composite, w, align).map_err(|e| e.to_string())?;
    let row = single_row(&String::from_utf8(out).map_err(|e| e.to_string())?)?;
    // the spaces and the prefix may not be combined with what comes after
    ensure_eq!(row_text(&row).width(), w, "width of the filled {:?}", row_text(&row));
    Ok(info)
}

// -------------------------------------------------- C12: sequences of fits and fills

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum FitOp {
    Fit(usize, u8),
    /// added to the current width of the spacing, if any
    Extend(usize, u8),
    Fill(usize, u8),
    Add(String, u8),
    Recompute,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FitSeqCase {
    pub start: FitCase,
    pub ops: Vec<FitOp>,
}

fn fit_seq_case(tier: Tier) -> BoxedStrategy<FitSeqCase> {
    let op = prop_oneof![
        2 => (0..30usize, 0..4u8).prop_map(|(w, a)| FitOp::Fit(w, a)),
        3 => (prop_oneof![1 => Just(0usize), 2 => 0..30usize], 0..4u8).prop_map(|(w, a)| FitOp::Extend(w, a)),
        4 => (prop_oneof![1 => Just(0usize), 2 => 0..30usize], 0..4u8).prop_map(|(w, a)| FitOp::Fill(w, a)),
        2 => (prop_oneof![word(6), sentence(3)], 0..16u8).prop_map(|(s, k)| FitOp::Add(s.replace('…', "."), k)),
        1 => Just(FitOp::Recompute),
    ];
    (fit_case(tier), vec(op, 1..tier.pick(6, 14)))
        .prop_map(|(start, ops)| FitSeqCase { start, ops })
        .boxed()
}

fn check_fit_seq(case: &FitSeqCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.start.skin.build();
    let model = Model::of(&case.start.skin, &skin);
    let composite = case.start.composite();
    let kind: CompositeKind = composite.style.into();
    let (prefix, _) = model.prefixes(kind);
    let pw = row_width(&prefix);
    let additive = |c: &Compound<'_>| additive_width(c.src);
    let adds_ok = case.ops.iter().all(|op| match op {
        FitOp::Add(s, _) => additive_width(s),
        _ => true,
    });
    if !composite.compounds.iter().all(additive) || !adds_ok || pw > 0 {
        info.class(true, "out of domain");
        return Ok(info);
    }
    let content = |fc: &FmtComposite<'_>| -> usize {
        fc.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).sum()
    };
    let mut fc = FmtComposite::from(composite, &skin);
    // what the spacing must be
    let mut spacing: Option<(usize, Alignment)> = None;
    let mut extended = 0;
    for (i, op) in case.ops.iter().enumerate() {
        let before = content(&fc);
        match op {
            FitOp::Fit(w, a) => {
                fc.fit_width(*w, align_of(*a), &skin);
                ensure!(content(&fc) <= *w, "step {i}: content too wide after a fit in {w}");
            }
            FitOp::Extend(dw, a) | FitOp::Fill(dw, a) => {
                // never less than the previous spacing
                let w = dw + spacing.map_or(0, |s| s.0);
                let a = align_of(*a);
                if matches!(op, FitOp::Extend(..)) {
                    fc.extend_width(w, a);
                } else {
                    fc.fill_width(w, a, &skin);
                    ensure!(content(&fc) <= w, "step {i}: content too wide after a fill of {w}");
                }
                if spacing.is_some() || content(&fc) < w {
                    info.class(spacing.is_some_and(|s| s.1 != a), "realigned");
                    spacing = Some((w, a));
                    extended += 1;
                }
                if before <= w {
                    ensure_eq!(content(&fc), before, "content width after step {i} (it fits)");
                }
            }
            FitOp::Add(s, k) => {
                let compound = Compound {
                    src: s,
                    italic: k & 1 != 0,
                    bold: k & 2 != 0,
                    strikeout: k & 4 != 0,
                    code: k & 8 != 0,
                };
                let one = FmtComposite::from_compound(compound.clone());
                ensure_eq!(one.visible_length, s.chars().map(char_width).sum::<usize>(), "visible length of a compound");
                ensure!(one.spacing.is_none(), "spacing of a compound");
                let expected: Row = model
                    .src(CompositeKind::Paragraph, std::slice::from_ref(&compound))
                    .iter()
                    .map(|s| Sc { c: s.c, w: s.w, st: s.st })
                    .collect();
                let row = single_row(&FmtInline { skin: &skin, composite: one }.to_string())?;
                ensure!(row == expected, "compound alone: {row:?} instead of {expected:?}");
                fc.add_compound(compound.clone());
                ensure!(fc.compounds.last() == Some(&compound), "step {i}: compound not added");
                ensure_eq!(
                    content(&fc),
                    before + s.chars().map(char_width).sum::<usize>(),
                    "content width after step {i}"
                );
            }
            FitOp::Recompute => fc.recompute_width(&skin),
        }
        ensure_eq!(fc.visible_length, content(&fc), "visible_length after step {i} ({op:?})");
        let (lead, trail) = match spacing {
            Some((w, a)) => completions(a, content(&fc), w),
            None => (0, 0),
        };
        ensure_eq!(fc.completions(), (lead, trail), "completions after step {i} ({op:?})");
        let mut expected: Row = Vec::new();
        expected.extend(std::iter::repeat(model.space()).take(lead));
        for s in model.src(kind, &fc.compounds) {
            expected.push(Sc { c: s.c, w: s.w, st: s.st });
        }
        expected.extend(std::iter::repeat(model.space()).take(trail));
        let row = single_row(&FmtInline { skin: &skin, composite: fc.clone() }.to_string())?;
        ensure!(row == expected, "after step {i} ({op:?}): {row:?} instead of {expected:?}");
    }
    info.hit(extended > 1, "several fillings");
    Ok(info)
}

// -------------------------------------------------- C13: cropping

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StrFitCase {
    pub s: String,
    pub max: usize,
}

fn str_fit_case(tier: Tier) -> BoxedStrategy<StrFitCase> {
    let c = prop_oneof![
        8 => word_char(),
        2 => Just(' '),
        1 => Just('\t'),
        1 => Just('\u{8}'),
        1 => any::<char>(),
    ];
    (
        prop_oneof![100 => vec(c.clone(), 0..tier.pick(30, 80)), 1 => vec(c, 200..1300)].prop_map(|v| v.into_iter().collect()),
        prop_oneof![60 => 0..30usize, 10 => 0..200usize, 1 => 200..1200usize],
    )
        .prop_map(|(s, max)| StrFitCase { s, max })
        .boxed()
}

fn fit_width_of(c: char) -> i64 {
    match c {
        '\t' => 2,
        '\u{8}' => -1,
        c => char_width(c) as i64,
    }
}

/// the longest prefix whose displaying never goes past max (bytes, cols)
fn model_fit(s: &str, max: usize) -> (usize, usize) {
    let mut best = (0, 0);
    for end in s.char_indices().map(|(i, c)| i + c.len_utf8()) {
        let w: i64 = s[..end].chars().map(fit_width_of).sum();
        if w > max as i64 {
            break;
        }
        best = (end, w.max(0) as usize);
    }
    best
}

fn check_str_fit(case: &StrFitCase) -> CheckResult {
    let mut info = Info::new();
    let (bytes, cols) = model_fit(&case.s, case.max);
    ensure_eq!(StrFit::count_fitting(&case.s, case.max), (bytes, cols), "count_fitting");
    let expected = case.s[..bytes].replace('\t', "  ");
    let (s, n) = StrFit::make_string(&case.s, case.max);
    ensure_eq!((&*s, n), (&*expected, cols), "make_string");
    let (s, n) = StrFit::make_cow(&case.s, case.max);
    ensure_eq!((&*s, n), (&*expected, cols), "make_cow");
    info.hit(bytes < case.s.len() && bytes > 0, "cut");
    info.class(case.s[..bytes].contains('\t'), "tab");
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum CropOp {
    Str(String),
    UnstyledStr(String),
    Char(char),
    UnstyledChar(char),
    GString(String),
    UnstyledGString(String),
    Repeat(u8, usize),
    RepeatUnstyled(u8, usize),
    Fill(u8),
    FillUnstyled(u8),
    FillSpace,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CropCase {
    pub limit: usize,
    pub style: StyleSpec,
    pub ops: Vec<CropOp>,
    /// what replaces tabulations (index in TABS, the default one being the first one)
    #[serde(default)]
    pub tab: u8,
}

const TABS: [&str; 6] = ["  ", "→", "    ", "", "» ", "⇥界"];

fn crop_case(tier: Tier) -> BoxedStrategy<CropCase> {
    let tab_char = || prop_oneof![6 => word_char(), 1 => Just(' '), 1 => Just('\t')];
    // control chars take no column
    let lone_char = move || prop_oneof![20 => tab_char(), 1 => select(&['\u{0}', '\u{7}', '\u{200d}'][..])];
    let text = move || {
        prop_oneof![40 => vec(tab_char(), 0..10), 1 => vec(tab_char(), 100..500)]
            .prop_map(|v| v.into_iter().collect::<String>())
    };
    let n = || prop_oneof![4 => 0..8usize, 1 => 0..3000usize];
    let op = prop_oneof![
        3 => text().prop_map(CropOp::Str),
        3 => text().prop_map(CropOp::UnstyledStr),
        2 => lone_char().prop_map(CropOp::Char),
        2 => lone_char().prop_map(CropOp::UnstyledChar),
        1 => g_string().prop_map(CropOp::GString),
        1 => g_string().prop_map(CropOp::UnstyledGString),
        1 => (0..3u8, n()).prop_map(|(c, n)| CropOp::Repeat(c, n)),
        1 => (0..3u8, n()).prop_map(|(c, n)| CropOp::RepeatUnstyled(c, n)),
    ];
    (
        prop_oneof![6 => 0..40usize, 1 => 0..3000usize],
        style(),
        vec(op, 0..tier.pick(10, 30)),
        prop_oneof![
            2 => Just(None),
            1 => (0..3u8).prop_map(|c| Some(CropOp::Fill(c))),
            1 => (0..3u8).prop_map(|c| Some(CropOp::FillUnstyled(c))),
            1 => Just(Some(CropOp::FillSpace)),
        ],
        prop_oneof![2 => Just(0), 1 => 1..TABS.len() as u8],
    )
        .prop_map(|(limit, style, mut ops, last, tab)| {
            ops.extend(last);
            CropCase { limit, style, ops, tab }
        })
        .boxed()
}

pub fn filling(c: u8) -> (&'static Filling, char) {
    use std::sync::OnceLock;
    static F: OnceLock<Vec<Filling>> = OnceLock::new();
    const CH: [char; 3] = ['-', '═', ' '];
    let f = F.get_or_init(|| CH.iter().map(|c| Filling::from_char(*c)).collect());
    (&f[c as usize % 3], CH[c as usize % 3])
}

fn check_crop(case: &CropCase) -> CheckResult {
    let mut info = Info::new();
    let cs = case.style.compound();
    let styled = case.style.st();
    let plain = St::default();
    let mut buf: Vec<u8> = Vec::new();
    let mut cw = CropWriter::new(&mut buf, case.limit);
    let tab = TABS[case.tab as usize % TABS.len()];
    if tab != TABS[0] {
        cw.tab_replacement = tab;
    }
    // the fitting part of a string, and its width
    let fitting = |s: &str, left: usize| -> (String, usize, bool) {
        let s = if tab == TABS[0] { s.to_string() } else { s.replace('\t', tab) };
        let (bytes, cols) = model_fit(&s, left);
        (s[..bytes].replace('\t', tab), cols, bytes < s.len())
    };
    let mut expected: Row = Vec::new();
    let mut left = case.limit;
    let mut combining_at_end = false;
    let push = |expected: &mut Row, s: &str, st: St| {
        expected.extend(s.chars().map(|c| Sc { c, w: char_width(c), st }));
    };
    for (i, op) in case.ops.iter().enumerate() {
        let before = left;
        if let CropOp::Str(s) | CropOp::UnstyledStr(s) | CropOp::GString(s) = op {
            let (fit, cols, _) = fitting(s, left);
            let (cropped, w) = cw.cropped_str(s);
            ensure_eq!((&*cropped, w), (&*fit, cols), "cropped_str");
            info.class(tab != TABS[0] && s.contains('\t'), "other tab replacement");
        }
        let r = match op {
            CropOp::Str(s) | CropOp::UnstyledStr(s) => {
                let st = if matches!(op, CropOp::Str(_)) { styled } else { plain };
                if left > 0 {
                    let (fit, cols, cut) = fitting(s, left);
                    push(&mut expected, &fit, st);
                    left -= cols;
                    info.hit(cut, "cut");
                }
                if st == plain && matches!(op, CropOp::UnstyledStr(_)) {
                    cw.queue_unstyled_str(s)
                } else {
                    cw.queue_str(&cs, s)
                }
            }
            CropOp::Char('\t') | CropOp::UnstyledChar('\t') => {
                let st = if matches!(op, CropOp::Char(_)) { styled } else { plain };
                let (bytes, n) = model_fit(tab, left);
                push(&mut expected, &tab[..bytes], st);
                left -= n;
                info.class(true, "tab char");
                if matches!(op, CropOp::Char(_)) {
                    cw.queue_char(&cs, '\t')
                } else {
                    cw.queue_unstyled_char('\t')
                }
            }
            CropOp::Char(c) | CropOp::UnstyledChar(c) => {
                let st = if matches!(op, CropOp::Char(_)) { styled } else { plain };
                let w = char_width(*c);
                let r = if matches!(op, CropOp::Char(_)) {
                    cw.queue_char(&cs, *c)
                } else {
                    cw.queue_unstyled_char(*c)
                };
                // a char is written when it fits (a combining char may be
                // written or not when there's no column left)
                if w == 0 && left == 0 {
                    combining_at_end = true;
                } else if w <= left {
                    push(&mut expected, &c.to_string(), st);
                    left -= w;
                }
                r
            }
            CropOp::GString(s) | CropOp::UnstyledGString(s) => {
                let st = if matches!(op, CropOp::GString(_)) { styled } else { plain };
                let shown: String = s.chars().take(left).collect();
                push(&mut expected, &shown, st);
                left -= shown.chars().count();
                if matches!(op, CropOp::GString(_)) {
                    cw.queue_g_string(&cs, s.clone())
                } else {
                    cw.queue_unstyled_g_string(s.clone())
                }
            }
            CropOp::Repeat(c, n) | CropOp::RepeatUnstyled(c, n) => {
                let st = if matches!(op, CropOp::Repeat(..)) { styled } else { plain };
                let (f, ch) = filling(*c);
                let shown: String = std::iter::repeat(ch).take((*n).min(left)).collect();
                push(&mut expected, &shown, st);
                left -= (*n).min(left);
                if matches!(op, CropOp::Repeat(..)) {
                    cw.repeat(&cs, f, *n)
                } else {
                    cw.repeat_unstyled(f, *n)
                }
            }
            CropOp::Fill(c) | CropOp::FillUnstyled(c) => {
                let st = if matches!(op, CropOp::Fill(_)) { styled } else { plain };
                let (f, ch) = filling(*c);
                let shown: String = std::iter::repeat(ch).take(left).collect();
                push(&mut expected, &shown, st);
                left = 0;
                info.class(true, "filled");
                if matches!(op, CropOp::Fill(_)) {
                    cw.fill(&cs, f)
                } else {
                    cw.fill_unstyled(f)
                }
            }
            CropOp::FillSpace => {
                push(&mut expected, &" ".repeat(left), styled);
                left = 0;
                info.class(true, "filled");
                cw.fill_with_space(&cs)
            }
        };
        r.map_err(|e| e.to_string())?;
        ensure_eq!(cw.allowed, left, "allowed columns after step {i} ({op:?}, {before} before)");
        ensure_eq!(cw.is_full(), left == 0, "is_full after step {i}");
    }
    let row = single_row(std::str::from_utf8(&buf).map_err(|e| e.to_string())?)?;
    ensure!(
        row.iter().all(|s| s.c != '\t'),
        "raw tabulation written: {:?}",
        row_text(&row)
    );
    ensure!(
        row_width(&row) <= case.limit,
        "{} columns written for a limit of {}",
        row_width(&row),
        case.limit
    );
    let seen = |row: &Row| -> Row { row.iter().filter(|s| !combining_at_end || s.w > 0).copied().collect() };
    ensure!(seen(&row) == seen(&expected), "written: {row:?} instead of {expected:?}");
    ensure_eq!(case.limit - row_width(&row), left, "columns left");
    info.class(left == 0, "full");
    Ok(info)
}

/// a string whose chars all take one column
fn g_string() -> BoxedStrategy<String> {
    let c = prop_oneof![5 => narrow_char(), 1 => Just(' '), 1 => select(&['│', '•', '…', '\u{a0}'][..])];
    prop_oneof![
        40 => vec(c.clone(), 0..12),
        1 => vec(c, 100..400),
    ]
    .prop_map(|v| v.into_iter().collect())
    .boxed()
}

// -------------------------------------------------- spacing

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SpacingCase {
    pub s: String,
    pub width: usize,
    pub align: u8,
    pub style: StyleSpec,
}

fn spacing_case(_: Tier) -> BoxedStrategy<SpacingCase> {
    (g_string(), prop_oneof![30 => 0..16usize, 1 => 0..300usize], 0..4u8, style())
        .prop_map(|(s, width, align, style)| SpacingCase { s, width, align, style })
        .boxed()
}

fn check_spacing(case: &SpacingCase) -> CheckResult {
    let mut info = Info::new();
    let align = align_of(case.align);
    let sp = Spacing { width: case.width, align };
    let mut out = Vec::new();
    sp.write_str(&mut out, &case.s, &case.style.compound()).map_err(|e| e.to_string())?;
    let row = single_row(std::str::from_utf8(&out).unwrap())?;
    let n = case.s.chars().count();
    let (l, r) = completions(align, n, case.width);
    let expected: String = format!("{}{}{}", " ".repeat(l), case.s.chars().take(case.width).collect::<String>(), " ".repeat(r));
    ensure_eq!(row_text(&row), expected, "spaced string");
    ensure!(row.iter().all(|s| s.st == case.style.st()), "style of spaced string");
    // with the width of the string given
    let w: usize = case.s.chars().map(char_width).sum();
    let mut out = Vec::new();
    sp.write_counted_str(&mut out, &case.s, w, &case.style.compound()).map_err(|e| e.to_string())?;
    if w <= case.width {
        let row = single_row(std::str::from_utf8(&out).unwrap())?;
        ensure_eq!(row_width(&row), case.width, "width of the string written with its width");
        ensure_eq!(row_text(&row).trim_matches(' ').to_string(), case.s.trim_matches(' ').to_string(), "string written with its width");
    }
    for outer in [None, Some(case.width)] {
        let expected = outer.map_or((0, 0), |outer| completions(align, n, outer));
        ensure_eq!(Spacing::optional_completions(align, n, outer), expected, "completions of {n} in {outer:?}");
    }
    ensure_eq!(sp.completions_for(n), (l, r), "completions_for {n}");
    info.hit(n != case.width, "cut or completed");
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    const UNI: &str = "text of displayed width equal to the sum of the unicode-width of its chars, without control chars";
    vec![
        Property {
            id: "C12",
            rule: "something is replaced by an ellipsis, or spaces are added, or (sequence) the spacing is changed at least twice",
            assumptions: &[UNI, "the width is bigger than the bullet or quote mark", "no paragraph margins", "no ellipsis in the source"],
            max_threads: 8,
            parts: vec![
                part("fit", 200_000, 8_000_000, fit_case, check_fit),
                part("fill", 100_000, 4_000_000, fit_case, check_fill),
                part("sequence", 60_000, 2_000_000, fit_seq_case, check_fit_seq),
                part("chars-sequences", 60_000, 2_000_000, fit_sequences_case, check_fit_sequences),
            ],
        },
        Property {
            id: "C13",
            rule: "the string is cut (str_fit: inside the string), or spaces are added",
            assumptions: &["fillings and 'gentle' strings made of chars of width 1"],
            max_threads: 8,
            parts: vec![
                part("str_fit", 400_000, 8_000_000, str_fit_case, check_str_fit),
                part("crop_writer", 200_000, 4_000_000, crop_case, check_crop),
                part("spacing", 200_000, 1_000_000, spacing_case, check_spacing),
            ],
        },
    ]
}
