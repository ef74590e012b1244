//! ListView: rows, filter, order, selection, scroll, display

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        model::*,
        p_views::*,
        term::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::sync::OnceLock,
    termimad::*,
};

const NB_STYLES: usize = 12;

fn style_specs() -> &'static Vec<StyleSpec> {
    static S: OnceLock<Vec<StyleSpec>> = OnceLock::new();
    S.get_or_init(|| {
        (0..NB_STYLES as u8)
            .map(|i| StyleSpec {
                fg: (i % 3 != 0).then(|| ColSpec::Ansi(20 + i)),
                bg: (i % 4 == 1).then(|| ColSpec::Rgb(i, 100, 3)),
                attrs: if i % 5 == 2 { 1 << (i % 10) } else { 0 },
            })
            .collect()
    })
}
fn styles() -> &'static Vec<CompoundStyle> {
    static S: OnceLock<Vec<CompoundStyle>> = OnceLock::new();
    S.get_or_init(|| style_specs().iter().map(|s| s.compound()).collect())
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Datum {
    pub key: u8,
    pub cells: Vec<(String, u8)>,
}
/// what's in the list
#[derive(Debug, Clone, PartialEq)]
struct Item {
    id: usize,
    d: Datum,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ColumnSpec {
    pub title: u8,
    pub min: usize,
    pub extra: usize,
    pub align: Option<u8>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Add(Vec<Datum>),
    Filter(u8, u8),
    NoFilter,
    Clear,
    Lines(i32),
    Pages(i32),
    Bottom,
    Next(bool),
    First,
    Last,
    Unselect,
    Visible,
    Resize(AreaSpec),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ListCase {
    pub columns: Vec<ColumnSpec>,
    pub area: AreaSpec,
    /// None: no sort, Some(reverse)
    pub sort: Option<bool>,
    pub init: Vec<Datum>,
    pub skin: SkinSpec,
    pub update: bool,
    pub ops: Vec<Op>,
}

/// some text, maybe with blanks around
fn cell_text() -> BoxedStrategy<String> {
    let usual = prop_oneof![
        2 => Just(String::new()),
        8 => narrow_sentence(3),
        2 => (0..4usize, narrow_sentence(2), 0..4usize)
            .prop_map(|(l, s, r)| format!("{}{s}{}", " ".repeat(l), " ".repeat(r))),
    ];
    prop_oneof![
        600 => usual,
        1 => (narrow_sentence(2), 120..600usize).prop_map(|(s, n)| format!("{s} ").chars().cycle().take(n).collect()),
    ]
    .boxed()
}

fn datum() -> BoxedStrategy<Datum> {
    (
        0..10u8,
        vec((cell_text(), 0..NB_STYLES as u8), 5),
    )
        .prop_map(|(key, cells)| Datum { key, cells })
        .boxed()
}

fn op(min_w: u16) -> BoxedStrategy<Op> {
    prop_oneof![
        6 => vec(datum(), 1..6).prop_map(Op::Add),
        3 => (1..5u8, 0..3u8).prop_map(|(m, r)| Op::Filter(m, r)),
        2 => Just(Op::NoFilter),
        1 => Just(Op::Clear),
        6 => prop_oneof![8 => -12..12i32, 1 => any::<i32>(), 1 => Just(i32::MIN)].prop_map(Op::Lines),
        3 => prop_oneof![8 => -3..4i32, 1 => any::<i32>()].prop_map(Op::Pages),
        2 => Just(Op::Bottom),
        8 => any::<bool>().prop_map(Op::Next),
        2 => Just(Op::First),
        2 => Just(Op::Last),
        1 => Just(Op::Unselect),
        1 => Just(Op::Visible),
        4 => area(min_w).prop_map(Op::Resize),
        1 => tiny_area(min_w).prop_map(Op::Resize),
    ]
    .boxed()
}

fn area(min_w: u16) -> BoxedStrategy<AreaSpec> {
    let usual = (0..12u16, 0..12u16, min_w..min_w + 40, prop_oneof![4 => 3..9u16, 1 => 3..20u16]);
    let wide = (0..20u16, 0..5u16, 200..900u16, 3..7u16);
    prop_oneof![298 => usual, 1 => big_area(min_w, 3), 1 => wide]
        .prop_map(|(l, t, w, h)| AreaSpec { l, t, w, h })
        .boxed()
}

/// an area too small for the list to be checked on screen
fn tiny_area(min_w: u16) -> BoxedStrategy<AreaSpec> {
    prop_oneof![
        (0..3u16, 0..3u16, 0..min_w + 20, 0..3u16),
        (0..3u16, 0..3u16, 0..min_w, 0..9u16),
    ]
    .prop_map(|(l, t, w, h)| AreaSpec { l, t, w, h })
    .boxed()
}

fn list_case(tier: Tier) -> BoxedStrategy<ListCase> {
    let column = (
        prop_oneof![10 => 0..3u8, 1 => 3..6u8],
        0..8usize,
        prop_oneof![40 => Just(0usize), 60 => 0..15usize, 1 => 100..500usize],
        prop::option::weighted(0.7, 0..4u8),
    )
        .prop_map(|(title, min, extra, align)| ColumnSpec { title, min, extra, align });
    prop_oneof![
        12 => vec(column.clone(), 1..5),
        1 => vec(column, 5..13),
    ]
    .prop_flat_map(move |mut columns| {
        // the first column shows the id
        columns[0].min = 4 + columns[0].min % 3;
        columns[0].align = Some(0);
        let min_w = columns.iter().map(|c| c.min).sum::<usize>() + columns.len();
        (
            Just(columns),
            area(min_w as u16),
            prop::option::weighted(0.4, any::<bool>()),
            prop_oneof![
                200 => vec(datum(), 0..4),
                200 => vec(datum(), 0..14),
                100 => vec(datum(), 10..40),
                1 => (vec(datum(), 10..40), 4..20usize).prop_map(|(v, n)| v.iter().cycle().take(n * v.len()).cloned().collect()),
            ],
            skin(),
            any::<bool>(),
            vec(op(min_w as u16), 1..tier.pick(14, 30)),
        )
            .prop_map(|(columns, area, sort, init, skin, update, ops)| ListCase {
                columns,
                area,
                sort,
                init,
                skin,
                update,
                ops,
            })
    })
    .boxed()
}

fn title_of(t: u8) -> &'static str {
    ["id", "some title", "Ti", "", "été à 2", "a much longer title, often cropped, of a column"][t as usize % 6]
}

struct M {
    items: Vec<Item>,
    next_id: usize,
    filter: Option<(u8, u8)>,
    sort: Option<bool>,
    sel: Option<usize>,
    area: AreaSpec,
}
fn passes(filter: Option<(u8, u8)>, d: &Datum) -> bool {
    filter.is_none_or(|(m, r)| d.key % m == r % m)
}
impl M {
    fn shown(&self) -> Vec<&Item> {
        self.items.iter().filter(|i| passes(self.filter, &i.d)).collect()
    }
    fn h(&self) -> usize {
        let h = self.area.h as usize;
        if h > 2 { h - 2 } else { h }
    }
    fn add(&mut self, d: &Datum) -> Item {
        let item = Item { id: self.next_id, d: d.clone() };
        self.next_id += 1;
        let idx = match self.sort {
            None => self.items.len(),
            Some(rev) => {
                // after the ones which aren't greater
                self.items
                    .iter()
                    .position(|i| if rev { i.d.key < d.key } else { i.d.key > d.key })
                    .unwrap_or(self.items.len())
            }
        };
        self.items.insert(idx, item.clone());
        item
    }
    fn rank(&self, id: usize) -> Option<usize> {
        self.shown().iter().position(|i| i.id == id)
    }
}

fn pad(s: &str, w: usize, align: Option<u8>) -> String {
    let n = s.chars().count();
    if n >= w {
        return s.chars().take(w).collect();
    }
    let (l, r) = completions(align.map_or(Alignment::Center, align_of), n, w);
    format!("{}{}{}", " ".repeat(l), s, " ".repeat(r))
}

/// check the display, and deduce the scroll
fn check_display(
    case: &ListCase,
    model: &Model,
    m: &M,
    list: &ListView<'_, Item>,
    widths_known: bool,
    info: &mut Info,
) -> Result<usize, String> {
    let mut out: Vec<u8> = Vec::new();
    list.write_on(&mut out).map_err(|e| e.to_string())?;
    let mut grid = m.area.screen();
    grid.feed_bytes(&out)?;
    ensure!(grid.is_reset(), "style not reset");
    let (l, t, w) = (m.area.l as usize, m.area.t as usize, m.area.w as usize);
    grid.check_confined(l, t, w, m.area.h as usize)?;
    let h = m.h();
    let shown = m.shown();
    let bar_wanted = shown.len() > h;
    let cells = |y: usize, from: usize, n: usize| grid_row(&grid, l + from, t + y, n);
    let str_cells = |s: &str, st: St| -> Vec<(String, St)> { s.chars().map(|c| (c.to_string(), st)).collect() };
    let tst = model.table.st;

    // --- the columns, according to the separator line
    let sep: Vec<(String, St)> = cells(1, 0, w - 1);
    let n_cols = case.columns.len();
    let mut widths = Vec::new();
    let mut x = 0;
    let mut sep_expected = String::new();
    for i in 0..n_cols {
        if i > 0 {
            let c = if case.columns[i].title == case.columns[i - 1].title { '┬' } else { '┼' };
            sep_expected.push(c);
            x += 1;
        }
        let mut n = 0;
        while x < w - 1 && sep[x].0 == "─" {
            n += 1;
            x += 1;
            sep_expected.push('─');
        }
        widths.push(n);
    }
    let total = sep_expected.chars().count();
    ensure!(total < w, "separator line too wide: {sep:?}");
    ensure_eq!(cells(1, 0, total), str_cells(&sep_expected, tst), "separator line");
    for (i, c) in case.columns.iter().enumerate() {
        ensure!(
            widths[i] >= c.min && widths[i] <= c.min + c.extra,
            "width {} for column {i}, which should be in [{}, {}]", widths[i], c.min, c.min + c.extra
        );
        ensure!(widths_known || widths[i] == c.min, "column {i} not of minimal width");
    }
    if widths_known {
        let all_max = case.columns.iter().zip(&widths).all(|(c, w)| *w == c.min + c.extra);
        ensure!(
            all_max || total + 1 == w,
            "columns of widths {widths:?} in an area of width {w} while there's some room"
        );
    }
    // --- titles
    let mut titles: Vec<(String, St)> = Vec::new();
    let mut i = 0;
    while i < n_cols {
        let mut j = i + 1;
        let mut tw = widths[i];
        while j < n_cols && case.columns[j].title == case.columns[i].title {
            tw += 1 + widths[j];
            j += 1;
        }
        if i > 0 {
            titles.push(("│".to_string(), tst));
        }
        titles.extend(str_cells(&pad(title_of(case.columns[i].title), tw, None), model.headers[0].st));
        i = j;
    }
    ensure_eq!(cells(0, 0, total), titles, "title line");

    // --- rows
    let id_of = |y: usize| -> Option<usize> {
        let s: String = cells(y, 0, 4).iter().map(|c| c.0.clone()).collect();
        s.parse::<usize>().ok()
    };
    let scroll = match id_of(2) {
        Some(id) => match shown.iter().position(|i| i.id == id) {
            Some(rank) => rank,
            None => return Err(format!("row {id} displayed while filtered or absent")),
        },
        None => shown.len(),
    };
    let sel_bg = color_of(gray(5));
    for j in 0..h {
        let content_width = if bar_wanted { w - 1 } else { w };
        match shown.get(scroll + j) {
            Some(item) => {
                let selected = m.sel == Some(item.id);
                let fix = |st: St| if selected { St { bg: sel_bg, ..st } } else { st };
                let mut expected: Vec<(String, St)> = Vec::new();
                for (i, c) in case.columns.iter().enumerate() {
                    if i > 0 {
                        let st = if selected && tst.bg.is_none() { St { bg: sel_bg, ..tst } } else { tst };
                        expected.push(("│".to_string(), st));
                    }
                    let (s, st) = cell_of(item, i);
                    expected.extend(str_cells(&pad(&s, widths[i], c.align), fix(style_specs()[st].st())));
                }
                ensure_eq!(cells(2 + j, 0, total), expected, "body line {j} (selected: {selected})");
                info.hit(selected, "selection displayed");
            }
            None => {
                let got = cells(2 + j, 0, content_width);
                ensure!(
                    got.iter().all(|c| c.0 == " " && c.1 == St::default()),
                    "body line {j} not cleared: {got:?}"
                );
            }
        }
    }
    // --- scrollbar
    let bar = list.scrollbar();
    ensure_eq!(bar.is_some(), bar_wanted, "presence of a scrollbar");
    if let Some((top, bottom)) = bar {
        let expected: Option<(u16, u16)> = compute_scrollbar(scroll, shown.len(), h, m.area.t + 2);
        ensure_eq!(bar, expected, "scrollbar");
        for j in 0..h {
            let y = t + 2 + j;
            let expected = if (top as usize..=bottom as usize).contains(&y) { model.thumb } else { model.track };
            let cell = grid.cell(l + w - 1, y);
            ensure!(
                cell.s.as_deref() == Some(&expected.c.to_string()) && cell.st == expected.st,
                "scrollbar cell at body line {j} is {cell:?} instead of {expected:?} with a thumb {bar:?}"
            );
        }
    }
    Ok(scroll)
}

fn cell_of(item: &Item, i: usize) -> (String, usize) {
    if i == 0 {
        (format!("{:04}", item.id), item.d.key as usize % NB_STYLES)
    } else {
        let (s, st) = &item.d.cells[i % item.d.cells.len()];
        (s.clone(), *st as usize)
    }
}

fn check_list(case: &ListCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let columns = case
        .columns
        .iter()
        .enumerate()
        .map(|(i, c)| {
            let col = ListViewColumn::new(
                title_of(c.title),
                c.min,
                c.min + c.extra,
                Box::new(move |item: &Item| {
                    let (s, st) = cell_of(item, i);
                    ListViewCell::new(s, &styles()[st])
                }),
            );
            match c.align {
                Some(a) => col.with_align(align_of(a)),
                None => col,
            }
        })
        .collect();
    let mut list: ListView<'_, Item> = ListView::new(case.area.area(), columns, &skin);
    if let Some(rev) = case.sort {
        list.sort(Box::new(move |a: &Item, b: &Item| {
            if rev {
                b.d.key.cmp(&a.d.key)
            } else {
                a.d.key.cmp(&b.d.key)
            }
        }));
    }
    let mut m = M { items: Vec::new(), next_id: 1, filter: None, sort: case.sort, sel: None, area: case.area };
    if case.update {
        list.update_dimensions();
    }
    let mut widths_known = case.update;
    let mut ops = vec![Op::Add(case.init.clone())];
    ops.extend(case.ops.iter().cloned());
    let mut scroll = 0usize;
    let mut scroll_known = true;
    let min_w = case.columns.iter().map(|c| c.min).sum::<usize>() + case.columns.len();
    for (step, op) in ops.iter().enumerate() {
        let ctx = |e: String| format!("{e}\n after step {step} ({op:?})");
        let before = scroll;
        let h = m.h();
        let was_count = m.shown().len();
        let was_bottom = scroll + h >= was_count;
        let mut want_visible = false;
        let mut want_scroll: Option<Vec<usize>> = None; // accepted scrolls
        match op {
            Op::Add(data) => {
                for d in data {
                    let item = m.add(d);
                    list.add_row(item);
                }
                want_scroll = Some(vec![if m.sort.is_none() && was_bottom {
                    m.shown().len().saturating_sub(h)
                } else {
                    before
                }]);
                if m.sort.is_none() && was_bottom && m.shown().len() == was_count {
                    // may stay after the end
                    want_scroll.as_mut().unwrap().push(before);
                }
                info.class(m.sort.is_some() && m.sel.is_some(), "sorted insertion with a selection");
            }
            Op::Filter(fm, r) => {
                m.filter = Some((*fm, *r));
                let (fm, r) = (*fm, *r);
                list.set_filter(Box::new(move |i: &Item| passes(Some((fm, r)), &i.d)));
                info.hit(m.shown().len() < m.items.len(), "filtered");
            }
            Op::NoFilter => {
                m.filter = None;
                list.remove_filter();
            }
            Op::Clear => {
                m.items.clear();
                m.sel = None;
                list.clear_rows();
                want_scroll = Some(vec![0]);
            }
            Op::Lines(_) | Op::Pages(_) => {
                let n = match op {
                    Op::Lines(n) => {
                        list.try_scroll_lines(*n);
                        i128::from(*n)
                    }
                    Op::Pages(n) => {
                        list.try_scroll_pages(*n);
                        i128::from(*n) * h as i128
                    }
                    _ => 0,
                };
                // one blank row after the end is OK
                let target = |max: usize| (before as i128 + n).clamp(0, max as i128) as usize;
                let accepted = if was_count > h {
                    vec![target(was_count - h), target(was_count - h + 1)]
                } else {
                    vec![0]
                };
                if m.sel.and_then(|id| m.rank(id)).is_some() {
                    want_visible = true;
                } else {
                    want_scroll = Some(accepted);
                    info.hit(was_count > h && n != 0, "free scroll");
                }
            }
            Op::Bottom => {
                list.scroll_to_bottom();
                want_scroll = Some(vec![was_count.saturating_sub(h)]);
            }
            Op::Next(up) => {
                list.try_select_next(*up);
                let shown = m.shown();
                let n = shown.len();
                if n > 0 {
                    let rank = m.sel.and_then(|id| m.rank(id));
                    let new = match (m.sel, rank) {
                        (_, Some(rank)) if *up => shown[(rank + n - 1) % n].id,
                        (_, Some(rank)) => shown[(rank + 1) % n].id,
                        (None, _) if !scroll_known => match list.get_selection() {
                            Some(item) if shown.iter().any(|i| i.id == item.id) => item.id,
                            _ => return Err(ctx("nothing selected in a tiny area".to_string())),
                        },
                        (None, _) => shown[before % n].id,
                        (Some(id), None) => {
                            // the selected row is hidden
                            let idx = m.items.iter().position(|i| i.id == id).unwrap();
                            let total = m.items.len();
                            let order: Vec<usize> = (1..total)
                                .map(|d| if *up { (idx + total - d) % total } else { (idx + d) % total })
                                .collect();
                            let i = order.into_iter().find(|i| passes(m.filter, &m.items[*i].d)).unwrap();
                            info.hit(true, "selection leaves a hidden row");
                            m.items[i].id
                        }
                    };
                    m.sel = Some(new);
                    want_visible = true;
                }
            }
            Op::First => {
                list.select_first_line();
                m.sel = m.shown().first().map(|i| i.id);
                want_visible = true;
            }
            Op::Last => {
                list.select_last_line();
                m.sel = m.shown().last().map(|i| i.id);
                want_visible = true;
            }
            Op::Unselect => {
                list.unselect();
                m.sel = None;
            }
            Op::Visible => {
                list.make_selection_visible();
                want_visible = true;
            }
            Op::Resize(a) => {
                m.area = *a;
                list.area = a.area();
                list.update_dimensions();
                widths_known = true;
                list.try_scroll_lines(0);
                want_visible = true;
            }
        }
        let h = m.h();
        let count = m.shown().len();
        ensure_eq!(list.row_counts(), (count, m.items.len()), "row_counts after step {step} ({op:?})");
        ensure_eq!(list.tbody_height() as usize, h, "tbody_height after step {step} ({op:?})");
        ensure_eq!(
            list.get_selection().map(|i| i.id),
            m.sel,
            "selection after step {step} ({op:?})"
        );
        ensure_eq!(list.has_selection(), m.sel.is_some(), "has_selection after step {step} ({op:?})");
        if m.area.h < 3 || (m.area.w as usize) < min_w {
            // the display can't be checked, only the fact the list survives
            list.write_on(&mut Vec::new()).map_err(|e| ctx(e.to_string()))?;
            let _ = (list.scrollbar(), list.do_scroll_show_bottom());
            scroll_known = false;
            info.class(true, "tiny area");
            continue;
        }
        scroll = check_display(case, &model, &m, &list, widths_known, &mut info).map_err(ctx)?;
        if count == 0 {
            // no row: the scroll isn't visible
            scroll = 0;
        }
        ensure!(
            if count > h { scroll <= count - h + 1 } else { scroll == 0 },
            "scroll of {scroll} with {count} rows in {h} lines after step {step} ({op:?})"
        );
        ensure_eq!(
            list.do_scroll_show_bottom(),
            scroll + h >= count,
            "do_scroll_show_bottom with a scroll of {scroll}, {count} rows, and {h} lines after step {step} ({op:?})"
        );
        if let Some(accepted) = want_scroll.filter(|_| scroll_known) {
            ensure!(
                accepted.contains(&scroll),
                "scroll is {scroll} instead of {accepted:?} (before: {before}) after step {step} ({op:?})"
            );
        }
        scroll_known = true;
        if want_visible {
            if let Some(rank) = m.sel.and_then(|id| m.rank(id)) {
                ensure!(
                    rank >= scroll && rank < scroll + h,
                    "selection (rank {rank}) not visible with a scroll of {scroll} and {h} lines, after step {step} ({op:?})"
                );
                info.hit(count > h, "selection made visible in a scrolled list");
            }
        }
    }
    Ok(info)
}

// -------------------------------------------------- very long lists

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum BigOp {
    Lines(i32),
    Bottom,
    First,
    Last,
    Next(bool),
    Unselect,
    /// keep only a row on n
    Filter(usize),
    NoFilter,
    Add(usize),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BigListCase {
    pub n: usize,
    pub area: AreaSpec,
    pub ops: Vec<BigOp>,
}

fn big_list_case(tier: Tier) -> BoxedStrategy<BigListCase> {
    let n = prop_oneof![
        4 => 100..1500usize,
        4 => prop_oneof![65_530..65_545usize, 66_000..67_000usize],
        1 => 131_000..132_000usize,
    ];
    let op = prop_oneof![
        4 => prop_oneof![-30..30i32, -70_000..140_000i32].prop_map(BigOp::Lines),
        2 => Just(BigOp::Bottom),
        1 => Just(BigOp::First),
        2 => Just(BigOp::Last),
        3 => any::<bool>().prop_map(BigOp::Next),
        1 => Just(BigOp::Unselect),
        1 => (1..4usize).prop_map(BigOp::Filter),
        1 => Just(BigOp::NoFilter),
        1 => (1..300usize).prop_map(BigOp::Add),
    ];
    let area = (0..5u16, 0..5u16, 12..30u16, 4..30u16).prop_map(|(l, t, w, h)| AreaSpec { l, t, w, h });
    (n, area, vec(op, 1..tier.pick(8, 14)))
        .prop_map(|(n, area, ops)| BigListCase { n, area, ops })
        .boxed()
}

fn check_big_list(case: &BigListCase) -> CheckResult {
    let mut info = Info::new();
    let skin = MadSkin::no_style();
    let column = ListViewColumn::new("n", 8, 8, Box::new(|n: &usize| ListViewCell::new(n.to_string(), &styles()[0])))
        .with_align(Alignment::Left);
    let mut list: ListView<'_, usize> = ListView::new(case.area.area(), vec![column], &skin);
    for n in 0..case.n {
        list.add_row(n);
    }
    let h = case.area.h as usize - 2;
    let (mut n, mut filter, mut sel) = (case.n, 1, None::<usize>);
    let mut scroll = n.saturating_sub(h);
    for (step, op) in case.ops.iter().enumerate() {
        // rows which are multiple of filter are displayed
        let before = scroll;
        let mut accepted = None;
        let mut visible = false;
        let count = |n: usize, filter: usize| n.div_ceil(filter);
        match *op {
            BigOp::Lines(d) => {
                list.try_scroll_lines(d);
                let max = count(n, filter).saturating_sub(h);
                let target = |max: usize| (before as i64 + i64::from(d)).clamp(0, max as i64) as usize;
                accepted = Some(if max > 0 { vec![target(max), target(max + 1)] } else { vec![0] });
                visible = true;
            }
            BigOp::Bottom => {
                list.scroll_to_bottom();
                accepted = Some(vec![count(n, filter).saturating_sub(h)]);
            }
            BigOp::First => {
                list.select_first_line();
                sel = Some(0);
                visible = true;
            }
            BigOp::Last => {
                list.select_last_line();
                sel = Some((n - 1) / filter * filter);
                visible = true;
            }
            BigOp::Next(up) => {
                list.try_select_next(up);
                let c = count(n, filter);
                sel = Some(match sel {
                    None => before * filter,
                    Some(s) if s % filter == 0 && up => (s / filter + c - 1) % c * filter,
                    Some(s) if up => s / filter * filter,
                    Some(s) => (s / filter + 1) % c * filter,
                });
                visible = true;
            }
            BigOp::Unselect => {
                list.unselect();
                sel = None;
            }
            BigOp::Filter(m) => {
                list.set_filter(Box::new(move |n| n % m == 0));
                filter = m;
            }
            BigOp::NoFilter => {
                list.remove_filter();
                filter = 1;
            }
            BigOp::Add(k) => {
                let bottom = before + h >= count(n, filter);
                for i in 0..k {
                    list.add_row(n + i);
                }
                n += k;
                accepted = Some(if bottom { vec![count(n, filter).saturating_sub(h), before] } else { vec![before] });
                if bottom && count(n, filter) > before + h {
                    accepted = Some(vec![count(n, filter) - h]);
                }
            }
        }
        let c = count(n, filter);
        ensure_eq!(list.row_counts(), (c, n), "row_counts after step {step} ({op:?})");
        ensure_eq!(list.get_selection().copied(), sel, "selection after step {step} ({op:?})");
        // --- display
        let mut out: Vec<u8> = Vec::new();
        list.write_on(&mut out).map_err(|e| e.to_string())?;
        let mut grid = case.area.screen();
        grid.feed_bytes(&out)?;
        let (l, t, w) = (case.area.l as usize, case.area.t as usize, case.area.w as usize);
        grid.check_confined(l, t, w, h + 2)?;
        let row = |j: usize| -> String { grid_row(&grid, l, t + 2 + j, 8).iter().map(|c| &*c.0).collect() };
        let first = row(0);
        let first: usize =
            first.trim_end().parse().map_err(|_| format!("first row {first:?} after step {step} ({op:?})"))?;
        ensure!(first % filter == 0, "hidden row {first} shown after step {step} ({op:?})");
        scroll = first / filter;
        for j in 0..h {
            let expected = if scroll + j < c { ((scroll + j) * filter).to_string() } else { String::new() };
            ensure_eq!(row(j), format!("{expected:8}"), "row {j} after step {step} ({op:?})");
        }
        ensure!(
            if c > h { scroll + h <= c + 1 } else { scroll == 0 },
            "scroll of {scroll} with {c} rows after step {step} ({op:?})"
        );
        if let Some(accepted) = accepted.filter(|_| sel.is_none() || !visible) {
            ensure!(accepted.contains(&scroll), "scroll of {scroll}, not in {accepted:?}, after step {step} ({op:?})");
        }
        if let Some(s) = sel.filter(|s| visible && s % filter == 0) {
            ensure!(
                (scroll..scroll + h).contains(&(s / filter)),
                "selected row {s} not visible with a scroll of {scroll} after step {step} ({op:?})"
            );
        }
        let bar = list.scrollbar();
        let expected: Option<(u16, u16)> = compute_scrollbar(scroll, c, h, case.area.t + 2);
        ensure_eq!(bar, expected, "scrollbar after step {step} ({op:?})");
        if let Some((top, bottom)) = bar {
            let model = Model::of_skin(&skin);
            for j in 0..h {
                let y = t + 2 + j;
                let expected = if (top as usize..=bottom as usize).contains(&y) { model.thumb } else { model.track };
                let cell = grid.cell(l + w - 1, y);
                ensure!(
                    cell.s.as_deref() == Some(&expected.c.to_string()),
                    "scrollbar cell {cell:?} on body line {j} after step {step} ({op:?})"
                );
            }
        }
        info.hit(scroll > 255, "big scroll");
        info.class(scroll > 65_535, "scroll of more than 65535");
    }
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C17",
        rule: "the list is filtered, or has a displayed selection, or is longer than its area and scrolled",
        assumptions: &[
            "chars of width 1 (the width is counted in chars, as told in the code)",
            "min widths of the columns not greater than their max ones, and fitting the area",
            "the display is checked in areas at least 3 lines high",
            "the sort function is set before the first row is added",
        ],
        max_threads: 8,
        parts: vec![
            part("history", 90_000, 1_000_000, list_case, check_list),
            part("big", 160, 3_000, big_list_case, check_big_list),
        ],
    }]
}
