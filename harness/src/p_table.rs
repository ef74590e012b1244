//! Oracle for tables

use {
    crate::{
        ensure,
        model::*,
        term::*,
    },
    termimad::{
        minimad::{
            Alignment,
            Composite,
            Line,
        },
        CompositeKind,
    },
};

/// The geometry of a rendered table
pub struct Geometry {
    pub widths: Vec<usize>,
    pub lead: usize,
    /// kinds of rows: true for text
    pub is_text: Vec<bool>,
    pub natural: bool,
    pub removed: usize,
}

pub fn nb_cols(lines: &[Line<'_>]) -> usize {
    lines
        .iter()
        .map(|l| match l {
            Line::TableRow(r) => r.cells.len(),
            Line::TableRule(r) => r.cells.len(),
            _ => 0,
        })
        .max()
        .unwrap_or(0)
}

pub fn composite_width(model: &Model, c: &Composite<'_>) -> usize {
    let (p, _) = model.prefixes(c.style.into());
    row_width(&p) + c.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).sum::<usize>()
}

/// the width of columns when there's enough room
pub fn natural_widths(model: &Model, lines: &[Line<'_>]) -> Vec<usize> {
    let mut widths = vec![3; nb_cols(lines)];
    for l in lines {
        if let Line::TableRow(r) = l {
            for (i, c) in r.cells.iter().enumerate() {
                widths[i] = widths[i].max(composite_width(model, c));
            }
        }
    }
    widths
}

/// whether there's enough room for the table
pub fn fits(widths: &[usize], width: Option<usize>) -> bool {
    width.map_or(true, |w| 1 + widths.iter().map(|w| w + 1).sum::<usize>() <= w)
}

/// the number of displayed columns
pub fn displayed_cols(nb: usize, width: Option<usize>) -> usize {
    match width {
        Some(w) if w < 4 * nb + 1 => w.saturating_sub(1) / 4,
        _ => nb,
    }
}

/// Check that the rows are those of a regular table, and return its geometry
pub fn check_geometry(
    model: &Model,
    lines: &[Line<'_>],
    rows: &[Row],
    width: Option<usize>,
    check_style: bool,
) -> Result<Geometry, String> {
    let tbc = model.tbc;
    let nb = nb_cols(lines);
    let ncols = displayed_cols(nb, width);
    ensure!(!rows.is_empty(), "no row for a table");
    let mut lead = None;
    let mut widths: Option<Vec<usize>> = None;
    let mut is_text = Vec::new();
    // first pass: kind of rows
    for (i, row) in rows.iter().enumerate() {
        let n = row.iter().take_while(|s| s.c == ' ').count();
        ensure!(
            *lead.get_or_insert(n) == n,
            "row {i} starts at column {n}, the first one at {}",
            lead.unwrap()
        );
        ensure!(n < row.len(), "row {i} of a table is blank");
        let c = row[n].c;
        let text = c == tbc.vertical;
        ensure!(
            text || c == tbc.left_junction || c == tbc.top_left_corner || c == tbc.bottom_left_corner,
            "row {i} doesn't start with a border: {:?}",
            row_text(row)
        );
        is_text.push(text);
        let ws: Vec<usize> = if text {
            let mut ws = Vec::new();
            let mut w = 0;
            for s in &row[n + 1..] {
                if s.c == tbc.vertical {
                    ws.push(w);
                    w = 0;
                } else {
                    w += s.w;
                }
            }
            ensure!(w == 0, "row {i} doesn't end with a border: {:?}", row_text(row));
            ws
        } else {
            let (l, j, r) = if i == 0 {
                (tbc.top_left_corner, tbc.top_junction, tbc.top_right_corner)
            } else if i + 1 == rows.len() {
                (tbc.bottom_left_corner, tbc.bottom_junction, tbc.bottom_right_corner)
            } else {
                (tbc.left_junction, tbc.cross, tbc.right_junction)
            };
            let mut ws = Vec::new();
            let mut w = 0;
            let last = row.len() - 1;
            ensure!(
                row[n].c == l && row[last].c == r,
                "rule {i} has unexpected corners: {:?}",
                row_text(row)
            );
            for s in &row[n + 1..last] {
                if s.c == j {
                    ws.push(w);
                    w = 0;
                } else {
                    ensure!(s.c == tbc.horizontal, "unexpected char {:?} in rule {i}: {:?}", s.c, row_text(row));
                    w += 1;
                }
            }
            ws.push(w);
            if check_style {
                for s in &row[n..] {
                    ensure!(s.st == model.table.st, "wrong style in rule {i}: {s:?}");
                }
            }
            ws
        };
        if check_style {
            for s in &row[..n] {
                ensure!(s.st == model.para.st, "wrong style before table row {i}: {s:?}");
            }
            if text {
                for s in row.iter().skip(n).filter(|s| s.c == tbc.vertical) {
                    ensure!(s.st == model.table.st, "wrong border style in row {i}: {s:?}");
                }
            }
        }
        if let Some(w) = &widths {
            ensure!(
                *w == ws,
                "the columns of row {i} have widths {ws:?} while the first ones have {w:?}: {:?}",
                row_text(row)
            );
        } else {
            widths = Some(ws);
        }
    }
    let widths = widths.unwrap();
    let lead = lead.unwrap();
    ensure!(
        widths.len() == ncols,
        "{} displayed columns while {ncols} were expected",
        widths.len()
    );
    ensure!(widths.iter().all(|w| *w >= 3), "columns narrower than 3: {widths:?}");
    let total = 1 + widths.iter().map(|w| w + 1).sum::<usize>();
    let natural_w = natural_widths(model, lines);
    let natural = fits(&natural_w, width);
    if let Some(w) = width {
        ensure!(total <= w, "table of width {total} for {w}");
        let (l, _) = completions(model.table.align, total, w);
        ensure!(lead == l, "table starting at {lead} instead of {l} with alignment {:?}", model.table.align);
    } else {
        ensure!(lead == 0, "table starting at {lead}");
    }
    if natural {
        ensure!(widths == natural_w, "widths {widths:?} while {natural_w:?} fits");
        ensure!(rows.len() == lines.len(), "{} rows while the {} lines fit", rows.len(), lines.len());
    } else {
        for (w, n) in widths.iter().zip(&natural_w) {
            ensure!(w <= n, "widths {widths:?} while {natural_w:?} is enough");
        }
    }
    // rules are where they should be
    let src_rules = lines.iter().filter(|l| matches!(l, Line::TableRule(_))).count();
    let out_rules = is_text.iter().filter(|t| !**t).count();
    ensure!(src_rules == out_rules, "{out_rules} rules for {src_rules} in the source");
    Ok(Geometry { widths, lead, is_text, natural, removed: nb - ncols })
}

/// Check the content of cells
pub fn check_cells(
    model: &Model,
    lines: &[Line<'_>],
    rows: &[Row],
    geom: &Geometry,
    lc: &LineCheck,
) -> Result<(), String> {
    let n = geom.widths.len();
    let mut aligns = vec![Alignment::Center; n];
    let mut at = 0;
    let mut il = 0;
    while il < lines.len() {
        // a sequence of text lines between rules
        let start = il;
        while il < lines.len() && matches!(lines[il], Line::TableRow(_)) {
            il += 1;
        }
        let out_start = at;
        while at < rows.len() && geom.is_text[at] {
            at += 1;
        }
        let cells_of = |row: &Row| -> Vec<Vec<Sc>> {
            let mut cells = Vec::new();
            let mut cell = Vec::new();
            for s in &row[geom.lead + 1..] {
                if s.c == model.tbc.vertical {
                    cells.push(std::mem::take(&mut cell));
                } else {
                    cell.push(*s);
                }
            }
            cells
        };
        let src_lines = &lines[start..il];
        partition(src_lines.len(), &rows[out_start..at], &mut |i, out| {
            let Line::TableRow(src_row) = &src_lines[i] else { unreachable!() };
            let out_cells: Vec<Vec<Vec<Sc>>> = out.iter().map(cells_of).collect();
            for ic in 0..n {
                let empty = Composite::default();
                let c = src_row.cells.get(ic).unwrap_or(&empty);
                let kind: CompositeKind = c.style.into();
                let (p1, _) = model.prefixes(kind);
                let w = geom.widths[ic];
                let m = Matcher {
                    model,
                    kind,
                    src: model.src(kind, &c.compounds),
                    check_style: lc.check_style,
                    max_word: if lc.check_words { w.saturating_sub(row_width(&p1)).max(1) } else { 0 },
                    geom: Geom::Cell { width: w, align: aligns[ic] },
                };
                let cell_rows: Vec<&[Sc]> = out_cells.iter().map(|r| &r[ic][..]).collect();
                if composite_width(model, c) <= w && cell_rows.len() > 1 {
                    // not wrapped
                    m.check(&cell_rows[..1]).map_err(|e| format!("column {ic} ({:?}): {e}", aligns[ic]))?;
                }
                m.check(&cell_rows).map_err(|e| format!("column {ic} ({:?}): {e}", aligns[ic]))?;
            }
            Ok(())
        })
        .map_err(|e| format!("table rows {start}..{il}: {e}"))?;
        if il < lines.len() {
            // a rule
            ensure!(at < rows.len() && !geom.is_text[at], "missing rule for line {il}");
            if let Line::TableRule(rule) = &lines[il] {
                aligns = (0..n)
                    .map(|i| rule.cells.get(i).copied().unwrap_or(Alignment::Unspecified))
                    .collect();
            }
            at += 1;
            il += 1;
        }
    }
    ensure!(at == rows.len(), "unexpected rows at the end of the table");
    Ok(())
}
