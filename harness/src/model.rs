//! The text oracle: what rows a skin and a minimad line may be rendered to.

use {
    crate::{
        gen::*,
        term::*,
    },
    termimad::{
        minimad::{
            self,
            Alignment,
            Compound,
            Line,
        },
        CompositeKind,
        ListItemsIndentationMode,
        MadSkin,
        StyledChar,
        TableBorderChars,
    },
    unicode_width::UnicodeWidthStr,
};

#[derive(Clone, Copy, Debug)]
pub struct LineM {
    pub st: St,
    pub align: Alignment,
    pub lm: usize,
    pub rm: usize,
}

impl LineM {
    fn of(ls: &termimad::LineStyle) -> Self {
        LineM {
            st: St::of(&ls.compound_style.object_style),
            align: ls.align,
            lm: ls.left_margin,
            rm: ls.right_margin,
        }
    }
    fn spec(l: &LineSpec) -> Self {
        LineM {
            st: l.style.st(),
            align: align_of(l.align),
            lm: l.lm,
            rm: l.rm,
        }
    }
    /// margins, when they let at least 3 columns
    pub fn margins(&self, width: Option<usize>) -> (usize, usize) {
        match width {
            Some(w) if w < self.lm + self.rm + 3 => (0, 0),
            _ => (self.lm, self.rm),
        }
    }
}

impl StyleSpec {
    pub fn st(self) -> St {
        let mut at = 0;
        for (i, bit) in [1, 2, 3, 4, 7, 9, 22, 23, 5, 6].iter().enumerate() {
            if self.attrs & (1 << i) != 0 {
                at |= 1 << bit;
            }
        }
        St {
            fg: self.fg.and_then(|c| color_of(c.color())),
            bg: self.bg.and_then(|c| color_of(c.color())),
            at,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub para: LineM,
    pub code_block: LineM,
    pub headers: Vec<LineM>,
    pub table: LineM,
    pub bold: St,
    pub italic: St,
    pub strike: St,
    pub code: St,
    pub ellipsis: St,
    pub bullet: Sc,
    pub quote: Sc,
    pub rule: Sc,
    pub track: Sc,
    pub thumb: Sc,
    pub block_indent: bool,
    pub tbc: &'static TableBorderChars,
}

fn sc_of(sc: &StyledChar) -> Sc {
    Sc {
        c: sc.nude_char(),
        w: char_width(sc.nude_char()),
        st: St::of(&sc.compound_style().object_style),
    }
}
fn sc_spec(c: &CharSpec) -> Sc {
    Sc { c: c.c, w: char_width(c.c), st: c.style.st() }
}

impl Model {
    pub fn of(spec: &SkinSpec, skin: &MadSkin) -> Model {
        let mut m = Model::of_skin(skin);
        if let SkinSpec::Custom(c) = spec {
            // computed from the spec, without using the library
            m.para = LineM::spec(&c.paragraph);
            m.code_block = LineM::spec(&c.code_block);
            m.table = LineM::spec(&c.table);
            m.headers = c.headers.iter().map(LineM::spec).collect();
            m.bold = c.bold.st();
            m.italic = c.italic.st();
            m.strike = c.strikeout.st();
            m.code = c.inline_code.st();
            m.ellipsis = c.ellipsis.st();
            m.bullet = sc_spec(&c.bullet);
            m.quote = sc_spec(&c.quote);
            m.rule = sc_spec(&c.rule);
            m.track = sc_spec(&c.track);
            m.thumb = sc_spec(&c.thumb);
            m.block_indent = c.block_indent;
        }
        m
    }
    pub fn of_skin(skin: &MadSkin) -> Model {
        let st = |cs: &termimad::CompoundStyle| St::of(&cs.object_style);
        Model {
            para: LineM::of(&skin.paragraph),
            code_block: LineM::of(&skin.code_block),
            headers: skin.headers.iter().map(LineM::of).collect(),
            table: LineM::of(&skin.table),
            bold: st(&skin.bold),
            italic: st(&skin.italic),
            strike: st(&skin.strikeout),
            code: st(&skin.inline_code),
            ellipsis: st(&skin.ellipsis),
            bullet: sc_of(&skin.bullet),
            quote: sc_of(&skin.quote_mark),
            rule: sc_of(&skin.horizontal_rule),
            track: sc_of(&skin.scrollbar.track),
            thumb: sc_of(&skin.scrollbar.thumb),
            block_indent: skin.list_items_indentation_mode == ListItemsIndentationMode::Block,
            tbc: skin.table_border_chars,
        }
    }
    pub fn line(&self, kind: CompositeKind) -> &LineM {
        match kind {
            CompositeKind::Code => &self.code_block,
            CompositeKind::Header(n) if (n as usize) <= self.headers.len() && n > 0 => {
                &self.headers[n as usize - 1]
            }
            _ => &self.para,
        }
    }
    pub fn compound_st(&self, line: St, c: &Compound<'_>) -> St {
        if c.src == "…" {
            return self.ellipsis;
        }
        let mut st = line;
        if c.italic {
            st = st.over(self.italic);
        }
        if c.strikeout {
            st = st.over(self.strike);
        }
        if c.bold {
            st = st.over(self.bold);
        }
        if c.code {
            st = st.over(self.code);
        }
        st
    }
    pub fn space(&self) -> Sc {
        Sc { c: ' ', w: 1, st: self.para.st }
    }
    /// prefixes of the first row and of the next ones
    pub fn prefixes(&self, kind: CompositeKind) -> (Row, Row) {
        let sp = self.space();
        match kind {
            CompositeKind::ListItem(d) => {
                let mut first = vec![sp; d as usize];
                first.push(self.bullet);
                first.push(sp);
                let follow = if self.block_indent { vec![sp; d as usize + 2] } else { Vec::new() };
                (first, follow)
            }
            CompositeKind::Quote => {
                let p = vec![self.quote, sp];
                (p.clone(), p)
            }
            _ => (Vec::new(), Vec::new()),
        }
    }
    /// source chars with their expected style
    pub fn src(&self, kind: CompositeKind, compounds: &[Compound<'_>]) -> Vec<Src> {
        let line = self.line(kind).st;
        let mut v = Vec::new();
        for (ci, c) in compounds.iter().enumerate() {
            let st = self.compound_st(line, c);
            let all_blank = c.src.chars().all(char::is_whitespace);
            for ch in c.src.chars() {
                v.push(Src {
                    c: ch,
                    w: char_width(ch),
                    st,
                    blank: ch.is_whitespace() && (!c.code || all_blank),
                    ci,
                });
            }
        }
        v
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Src {
    pub c: char,
    pub w: usize,
    pub st: St,
    pub blank: bool,
    /// compound index
    pub ci: usize,
}

/// number of spaces at left and right
pub fn completions(align: Alignment, inner: usize, outer: usize) -> (usize, usize) {
    if inner >= outer {
        return (0, 0);
    }
    let n = outer - inner;
    match align {
        Alignment::Left | Alignment::Unspecified => (0, n),
        Alignment::Center => (n / 2, n - n / 2),
        Alignment::Right => (n, 0),
    }
}

/// tell whether the width of the compounds is the sum of the widths of
/// their chars (which is the domain of the width sensitive properties)
pub fn additive_width(s: &str) -> bool {
    s.width() == s.chars().map(char_width).sum::<usize>() && !s.chars().any(|c| c.is_control())
}

/// Where the content of a row starts and ends
type Span = (usize, usize);

pub struct Matcher<'m> {
    pub model: &'m Model,
    pub kind: CompositeKind,
    pub src: Vec<Src>,
    pub check_style: bool,
    /// if not 0, a word not wider than this can't be cut
    pub max_word: usize,
    pub geom: Geom,
}

pub enum Geom {
    /// a line in a text of the given width
    Text { width: Option<usize>, block_width: Option<usize> },
    /// a line with any space at left and right
    Loose,
    /// a cell of a given width (always completed)
    Cell { width: usize, align: Alignment },
}

impl<'m> Matcher<'m> {
    /// the number of spaces at the start
    fn spaces<'c>(&self, cells: impl Iterator<Item = &'c Sc>, st: St) -> usize {
        cells.take_while(|s| s.c == ' ' && (!self.check_style || s.st == st)).count()
    }
    fn same(&self, a: &[Sc], b: &[Sc]) -> bool {
        a.len() == b.len()
            && a.iter().zip(b).all(|(a, b)| a.c == b.c && (!self.check_style || a.st == b.st))
    }
    fn candidates(&self, row: &[Sc], first: bool) -> Vec<Span> {
        let (p1, p2) = self.model.prefixes(self.kind);
        let prefix = if first { p1 } else { p2 };
        let line = self.model.line(self.kind);
        let pst = self.model.para.st;
        let n = row_width(row);
        let max_lead = self.spaces(row.iter(), pst);
        let mut v = Vec::new();
        let mut push = |lead: usize, end: usize| {
            if lead + prefix.len() <= end
                && self.same(&row[lead..lead + prefix.len()], &prefix)
                && !v.iter().rev().take(4).any(|c| *c == (lead + prefix.len(), end))
            {
                v.push((lead + prefix.len(), end));
            }
        };
        match self.geom {
            Geom::Text { width, block_width } => {
                let (lm, rm) = line.margins(width);
                for inner in (0..=n).rev() {
                    let lpo = width.map_or(0, |w| completions(line.align, inner + lm + rm, w).0);
                    let lead = lpo + lm;
                    if lead + inner != n || lead > max_lead {
                        continue;
                    }
                    let mut end = row.len();
                    if let Some(bw) = block_width {
                        if inner != bw {
                            continue;
                        }
                        while end > lead && row[end - 1].c == ' ' && (!self.check_style || row[end - 1].st == line.st) {
                            end -= 1;
                        }
                    }
                    push(lead, end);
                }
            }
            Geom::Loose => {
                let mut end = row.len();
                while end > 0 && row[end - 1].c == ' ' {
                    end -= 1;
                }
                for lead in 0..=max_lead {
                    push(lead, end.max(lead + prefix.len()).min(row.len()));
                    push(lead, row.len());
                }
            }
            Geom::Cell { width, align } => {
                if n != width {
                    return v;
                }
                let max_lead = self.spaces(row.iter(), line.st);
                let max_trail = self.spaces(row.iter().rev(), line.st);
                for inner in (0..=n).rev() {
                    let (lead, trail) = completions(align, inner, width);
                    if lead + trail > row.len() {
                        continue;
                    }
                    if lead <= max_lead && trail <= max_trail {
                        push(lead, row.len() - trail);
                    }
                }
            }
        }
        v
    }
    /// position in the source after having matched the content
    fn match_content(&self, content: &[Sc], mut pos: usize, first: bool) -> Vec<usize> {
        let mut results = Vec::new();
        loop {
            if let Some(end) = self.matches_at(content, pos, first) {
                results.push(end);
            }
            // blanks may be dropped at a line break
            if !first && pos < self.src.len() && self.src[pos].blank {
                pos += 1;
            } else {
                break;
            }
        }
        results
    }
    fn matches_at(&self, content: &[Sc], pos: usize, first: bool) -> Option<usize> {
        let same = |s: &Sc, e: &Src| {
            s.c == e.c
                && (!self.check_style
                    || s.st == e.st
                    || (e.c == '…' && s.st == self.model.ellipsis))
        };
        let body = content.iter().rposition(|s| !s.c.is_whitespace()).map_or(0, |i| i + 1);
        if pos + body > self.src.len()
            || !content[..body].iter().zip(&self.src[pos..]).all(|(s, e)| same(s, e))
        {
            return None;
        }
        // some of the blanks at the end of the row may have been dropped
        let mut end = pos + body;
        for s in &content[body..] {
            loop {
                let e = self.src.get(end)?;
                end += 1;
                if same(s, e) {
                    break;
                }
                if !e.blank {
                    return None;
                }
            }
        }
        if !first && !content.is_empty() && pos > 0 && self.max_word > 0 {
            // no word may be cut if it could have been kept whole
            let (a, b) = (self.src[pos - 1], self.src[pos]);
            if !a.blank && !b.blank && a.ci == b.ci {
                let in_word = |s: &Src| s.ci == a.ci && !s.blank;
                let start = self.src[..pos].iter().rposition(|s| !in_word(s)).map_or(0, |i| i + 1);
                let end = self.src[pos..]
                    .iter()
                    .position(|s| !in_word(s))
                    .map_or(self.src.len(), |i| pos + i);
                let w: usize = self.src[start..end].iter().map(|s| s.w).sum();
                if w <= self.max_word {
                    return None;
                }
            }
        }
        Some(end)
    }
    fn rec(
        &self,
        rows: &[&[Sc]],
        i: usize,
        pos: usize,
        best: &mut (usize, String),
        failed: &mut std::collections::HashSet<(usize, usize)>,
    ) -> bool {
        if failed.contains(&(i, pos)) {
            return false;
        }
        if i == rows.len() {
            let done = self.src[pos..].iter().all(|s| s.blank);
            if !done {
                let missing: String = self.src[pos..].iter().map(|s| s.c).collect();
                *best = (i, format!("missing content {missing:?}"));
            }
            return done;
        }
        if let Geom::Cell { .. } = self.geom {
            // rows added because of another cell
            if i > 0
                && self.src[pos..].iter().all(|s| s.blank)
                && rows[i..].iter().all(|r| self.spaces(r.iter(), self.model.para.st) == r.len())
            {
                return true;
            }
        }
        let row = rows[i];
        for (s, e) in self.candidates(row, i == 0) {
            for np in self.match_content(&row[s..e], pos, i == 0) {
                if self.rec(rows, i + 1, np, best, failed) {
                    return true;
                }
            }
        }
        if i >= best.0 && best.1.is_empty() || i > best.0 {
            let expected: Vec<(char, St)> = self.src[pos..].iter().take(12).map(|s| (s.c, s.st)).collect();
            *best = (
                i,
                format!(
                    "row {i} {:?} {:?} isn't a valid rendering of the rest of the source, {:?}",
                    row_text(row),
                    row.iter().take(16).collect::<Vec<_>>(),
                    expected
                ),
            );
        }
        failed.insert((i, pos));
        false
    }
    pub fn check(&self, rows: &[&[Sc]]) -> Result<(), String> {
        let mut best = (0, String::new());
        if self.rec(rows, 0, 0, &mut best, &mut Default::default()) {
            Ok(())
        } else {
            Err(format!("{:?}: {}", self.kind, best.1))
        }
    }
}

#[derive(Clone, Copy)]
pub struct LineCheck {
    pub check_style: bool,
    pub check_words: bool,
    /// check the exact alignment, margins, and justification
    pub check_pads: bool,
}

pub fn prefix_width(model: &Model, kind: CompositeKind) -> usize {
    let (a, b) = model.prefixes(kind);
    row_width(&a).max(row_width(&b))
}

/// tell whether it's possible to render this kind of line in the width
pub fn feasible(model: &Model, kind: CompositeKind, width: Option<usize>, max_char: usize) -> bool {
    match width {
        None => true,
        Some(w) if w < 3 => false,
        Some(w) => {
            let (lm, rm) = model.line(kind).margins(width);
            w - lm - rm >= prefix_width(model, kind) + max_char.max(1)
        }
    }
}

/// Check the rows produced for one line (not a table one, and code lines being
/// assumed to be alone in their block)
pub fn check_line(
    model: &Model,
    line: &Line<'_>,
    rows: &[Row],
    width: Option<usize>,
    lc: &LineCheck,
) -> Result<(), String> {
    let tw = match line {
        Line::Normal(c) => c.compounds.iter().flat_map(|c| c.src.chars()).map(char_width).sum(),
        _ => 0,
    };
    check_line_in_block(model, line, rows, width, lc, tw)
}

/// Check the rows produced for one line, block_width being the width of the
/// widest line of the code block when the line is part of one.
pub fn check_line_in_block(
    model: &Model,
    line: &Line<'_>,
    rows: &[Row],
    width: Option<usize>,
    lc: &LineCheck,
    block_width: usize,
) -> Result<(), String> {
    match line {
        Line::Normal(c) => {
            let kind: CompositeKind = c.style.into();
            let src = model.src(kind, &c.compounds);
            let text_width: usize = src.iter().map(|s| s.w).sum();
            let (lm, rm) = model.line(kind).margins(width);
            let (p1, _) = model.prefixes(kind);
            let avail = width.map(|w| w - lm - rm);
            let fits = avail.map_or(true, |a| row_width(&p1) + text_width <= a);
            if fits && rows.len() != 1 {
                return Err(format!("{} rows for a line which fits", rows.len()));
            }
            if rows.is_empty() {
                return Err("no row for a line".to_string());
            }
            let block_width = if kind == CompositeKind::Code {
                Some(avail.map_or(block_width, |a| block_width.min(a)))
            } else {
                None
            };
            let max_word = match (lc.check_words, avail) {
                (true, Some(a)) => a - row_width(&p1),
                _ => 0,
            };
            let m = Matcher {
                model,
                kind,
                src,
                check_style: lc.check_style,
                max_word,
                geom: if lc.check_pads { Geom::Text { width, block_width } } else { Geom::Loose },
            };
            let rows: Vec<&[Sc]> = rows.iter().map(|r| &r[..]).collect();
            m.check(&rows)
        }
        Line::HorizontalRule => {
            if rows.len() != 1 {
                return Err(format!("{} rows for a rule", rows.len()));
            }
            let expected = vec![model.rule; width.unwrap_or(0)];
            let same = rows[0].len() == expected.len()
                && rows[0]
                    .iter()
                    .zip(&expected)
                    .all(|(a, b)| a.c == b.c && (!lc.check_style || a.st == b.st));
            if same {
                Ok(())
            } else {
                Err(format!("bad horizontal rule {:?}", row_text(&rows[0])))
            }
        }
        _ => Err("not a simple line".to_string()),
    }
}

pub fn parse(md: &str) -> minimad::Text<'_> {
    minimad::parse_text(md, minimad::Options::default())
}

pub fn line_additive(line: &Line<'_>) -> bool {
    match line {
        Line::Normal(c) => c.compounds.iter().all(|c| additive_width(c.src)),
        Line::TableRow(r) => r.cells.iter().all(|c| c.compounds.iter().all(|c| additive_width(c.src))),
        _ => true,
    }
}

pub fn max_char_width(line: &Line<'_>) -> usize {
    let of = |cs: &[Compound<'_>]| cs.iter().flat_map(|c| c.src.chars()).map(char_width).max().unwrap_or(0);
    match line {
        Line::Normal(c) => of(&c.compounds),
        Line::TableRow(r) => r.cells.iter().map(|c| of(&c.compounds)).max().unwrap_or(0),
        _ => 0,
    }
}

/// try to split rows in consecutive non empty groups, one per source item
pub fn partition(
    nb_items: usize,
    rows: &[Row],
    check: &mut dyn FnMut(usize, &[Row]) -> Result<(), String>,
) -> Result<(), String> {
    fn rec(
        item: usize,
        nb_items: usize,
        at: usize,
        rows: &[Row],
        check: &mut dyn FnMut(usize, &[Row]) -> Result<(), String>,
        best: &mut (usize, String),
        failed: &mut std::collections::HashSet<(usize, usize)>,
    ) -> bool {
        if failed.contains(&(item, at)) {
            return false;
        }
        if item == nb_items {
            if at < rows.len() && at >= best.0 {
                *best = (at, format!("unexpected row {:?}", row_text(&rows[at])));
            }
            return at == rows.len();
        }
        let others = nb_items - item - 1;
        if rows.len() < at + 1 + others {
            if best.1.is_empty() {
                *best = (at, format!("missing rows: {} for at least {} items", rows.len() - at, others + 1));
            }
            return false;
        }
        for n in 1..=rows.len() - at - others {
            match check(item, &rows[at..at + n]) {
                Ok(()) => {
                    if rec(item + 1, nb_items, at + n, rows, check, best, failed) {
                        return true;
                    }
                }
                Err(e) => {
                    if at + n > best.0 {
                        *best = (at + n, format!("item {item}: {e}"));
                    }
                }
            }
        }
        failed.insert((item, at));
        false
    }
    let mut best = (0, String::new());
    let mut failed = Default::default();
    if rec(0, nb_items, 0, rows, check, &mut best, &mut failed) {
        Ok(())
    } else {
        Err(best.1)
    }
}
