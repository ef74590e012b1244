//! Input fields: editing, selection, display

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        model::*,
        p_views::*,
        term::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        crossterm::event::{
            Event,
            KeyCode,
            KeyEvent,
            KeyModifiers,
            MouseButton,
            MouseEvent,
            MouseEventKind,
        },
        *,
    },
};

// -------------------------------------------------- the reference model

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct Pos {
    pub y: usize,
    pub x: usize,
}

/// A text being edited is a sequence of chars, a cursor, and maybe the
/// other end of a selection
#[derive(Debug, Clone, PartialEq)]
pub struct Flat {
    pub text: Vec<char>,
    pub cur: usize,
    pub tail: Option<usize>,
}

fn width_of(c: char) -> usize {
    if c == '\t' {
        2
    } else {
        char_width(c)
    }
}

impl Flat {
    pub fn new() -> Self {
        Flat { text: Vec::new(), cur: 0, tail: None }
    }
    pub fn string(&self) -> String {
        self.text.iter().collect()
    }
    /// start and end (newline excluded) of the lines
    pub fn lines(&self) -> Vec<(usize, usize)> {
        let mut v = Vec::new();
        let mut start = 0;
        for (i, &c) in self.text.iter().enumerate() {
            if c == '\n' {
                v.push((start, i));
                start = i + 1;
            }
        }
        v.push((start, self.text.len()));
        v
    }
    pub fn pos_of(&self, idx: usize) -> Pos {
        let before = &self.text[..idx];
        let y = before.iter().filter(|&&c| c == '\n').count();
        let x = before.iter().rev().take_while(|&&c| c != '\n').count();
        Pos { x, y }
    }
    /// the nearest valid position
    pub fn idx_of(&self, pos: Pos) -> usize {
        match self.lines().get(pos.y) {
            Some((s, e)) => (s + pos.x).min(*e),
            None => self.text.len(),
        }
    }
    fn y(&self) -> usize {
        self.pos_of(self.cur).y
    }
    fn line_at(&self, y: usize) -> (usize, usize) {
        self.lines()[y]
    }
    fn line(&self) -> (usize, usize) {
        self.line_at(self.y())
    }
    pub fn insert(&mut self, s: &str) {
        for c in s.chars() {
            if c != '\r' && c != '\u{8}' {
                self.text.insert(self.cur, c);
                self.cur += 1;
            }
        }
    }
    pub fn wide(&self) -> bool {
        self.tail.is_some_and(|t| t != self.cur)
    }
    /// selected chars
    pub fn selection(&self) -> std::ops::Range<usize> {
        let t = self.tail.unwrap_or(self.cur);
        let (a, b) = (t.min(self.cur), t.max(self.cur));
        a..(b + 1).min(self.text.len())
    }
    pub fn selected(&self) -> String {
        self.text[self.selection()].iter().collect()
    }
    pub fn del_selection(&mut self) {
        if self.wide() {
            let r = self.selection();
            self.cur = r.start;
            self.text.drain(r);
            self.tail = None;
        } else {
            self.del_below();
        }
    }
    pub fn del_below(&mut self) {
        if self.cur < self.text.len() {
            self.text.remove(self.cur);
        }
    }
    pub fn del_left(&mut self) {
        if self.cur > 0 {
            self.cur -= 1;
            self.text.remove(self.cur);
        }
    }
    /// position of a column of a line
    fn at_col(&self, y: usize, col: usize) -> usize {
        let (s, e) = self.line_at(y);
        let mut w = 0;
        for i in s..e {
            if w >= col {
                return i;
            }
            w += width_of(self.text[i]);
        }
        e
    }
    fn col(&self) -> usize {
        let (s, _) = self.line();
        self.text[s..self.cur].iter().map(|&c| width_of(c)).sum()
    }
    fn vertical(&mut self, d: i64) {
        let col = self.col();
        let y = self.y() as i64;
        let last = self.lines().len() as i64 - 1;
        let ny = (y + d).clamp(0, last);
        if ny != y {
            self.cur = self.at_col(ny as usize, col);
        }
    }
    fn swap(&mut self, ya: usize, yb: usize) {
        let (a, b) = (ya.min(yb), ya.max(yb));
        let s = self.string();
        let mut v: Vec<&str> = s.split('\n').collect();
        v.swap(a, b);
        self.text = v.join("\n").chars().collect();
    }
    fn move_line(&mut self, d: i64) {
        let p = self.pos_of(self.cur);
        let ny = p.y as i64 + d;
        if ny >= 0 && (ny as usize) < self.lines().len() {
            self.swap(p.y, ny as usize);
            self.cur = self.line_at(ny as usize).0 + p.x;
        }
    }
    /// where the cursor goes one word left: at least one char, up to after a non
    /// alphanumeric one
    fn word_left(&self) -> usize {
        let (s, _) = self.line();
        let mut i = self.cur;
        while i > s {
            i -= 1;
            if i == s || !self.text[i - 1].is_alphanumeric() {
                break;
            }
        }
        i
    }
    /// at least one char, up to before a non alphanumeric one, or the last of the line
    fn word_right(&self) -> usize {
        let (_, e) = self.line();
        let mut i = self.cur;
        while i < e {
            i += 1;
            if i + 1 >= e || !self.text[i + 1].is_alphanumeric() {
                break;
            }
        }
        i
    }
    /// the chars removed are alphanumeric ones up to the first non alphanumeric one,
    /// included; the cursor goes back on the last char when the line's end is reached
    fn del_word_right(&mut self) {
        let (s, e) = self.line();
        if self.cur == e {
            if e > s {
                self.cur -= 1;
            }
            return;
        }
        let mut i = self.cur;
        let mut end_reached = false;
        loop {
            let an = self.text[i].is_alphanumeric();
            i += 1;
            if !an {
                break;
            }
            if i == e {
                end_reached = true;
                break;
            }
        }
        self.text.drain(self.cur..i);
        if end_reached && self.cur > s {
            self.cur -= 1;
        }
    }
    fn select_word(&mut self) -> bool {
        let (s, e) = self.line();
        let is_word = |i: usize| self.text[i].is_alphanumeric() || self.text[i] == '_';
        if self.cur >= e || !is_word(self.cur) {
            return false;
        }
        let mut a = self.cur;
        while a > s && is_word(a - 1) {
            a -= 1;
        }
        let mut b = self.cur;
        while b + 1 < e && is_word(b + 1) {
            b += 1;
        }
        self.tail = Some(a);
        self.cur = b;
        true
    }
}

// -------------------------------------------------- operations

/// operations existing both on the content and on the field
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    Char(char),
    Str(String),
    NewLine,
    SetStr(String),
    /// set the current content
    SetSame,
    Clear,
    DelLeft,
    DelBelow,
    DelSel,
    DelWordLeft,
    DelWordRight,
    SelectWord,
    LineUp,
    LineDown,
    Left,
    Right,
    Up,
    Down,
    Start,
    End,
    LineStart,
    LineEnd,
    WordLeft,
    WordRight,
}

fn input_char() -> BoxedStrategy<char> {
    prop_oneof![
        8 => narrow_char(),
        2 => Just(' '),
        1 => select(&['_', '-', '.', 'à'][..]),
        1 => select(&['一', '概', '😀'][..]),
        1 => Just('\t'),
    ]
    .boxed()
}

fn input_text(max: usize) -> BoxedStrategy<String> {
    let c = prop_oneof![12 => input_char(), 3 => Just('\n'), 1 => select(&['\r', '\u{8}'][..])];
    prop_oneof![
        300 => vec(c.clone(), 0..max).prop_map(|v| v.into_iter().collect::<String>()),
        200 => vec(narrow_sentence(5), 0..6).prop_map(|v| v.join("\n")),
        100 => vec(narrow_word(6), 0..4).prop_map(|v| v.join("\r\n")),
        1 => vec(input_char(), 100..700).prop_map(|v| v.into_iter().collect::<String>()),
        1 => vec(narrow_sentence(2), 100..400).prop_map(|v| v.join("\n")),
        1 => vec(c, 100..1000).prop_map(|v| v.into_iter().collect::<String>()),
    ]
    .boxed()
}

fn op(max: usize) -> BoxedStrategy<Op> {
    prop_oneof![
        6 => prop_oneof![8 => input_char(), 1 => Just('\n'), 1 => select(&['\r', '\u{8}', '\u{301}'][..])].prop_map(Op::Char),
        4 => input_text(max).prop_map(Op::Str),
        3 => Just(Op::NewLine),
        1 => input_text(max).prop_map(Op::SetStr),
        1 => Just(Op::SetSame),
        1 => prop::bool::weighted(0.3).prop_map(|b| if b { Op::Clear } else { Op::SetSame }),
        14 => select(&[
            Op::DelLeft, Op::DelBelow, Op::DelSel, Op::DelSel, Op::DelWordLeft, Op::DelWordRight,
            Op::SelectWord, Op::SelectWord, Op::LineUp, Op::LineDown,
        ][..]),
        14 => select(&[
            Op::Left, Op::Right, Op::Up, Op::Down, Op::Start, Op::End, Op::LineStart, Op::LineEnd,
            Op::WordLeft, Op::WordRight,
        ][..]),
    ]
    .boxed()
}

/// what's expected of the value returned by a function
enum Told {
    Nothing,
    /// whether the cursor or the text changed
    Changed,
    Exact(bool),
}

/// apply an op to the model. Tell whether the selection is specified, and what's returned
fn model_op(m: &mut Flat, op: &Op) -> (bool, Told) {
    let mut specified = false;
    let mut told = Told::Changed;
    match op {
        Op::Char(c) => {
            m.insert(&c.to_string());
            told = Told::Nothing;
        }
        Op::Str(s) => {
            m.insert(s);
            told = Told::Nothing;
        }
        Op::NewLine => {
            m.insert("\n");
            told = Told::Nothing;
        }
        Op::SetStr(s) => {
            if m.string() != *s {
                *m = Flat::new();
                m.insert(s);
            }
            specified = true;
            told = Told::Nothing;
        }
        Op::SetSame => {
            specified = true;
            told = Told::Nothing;
        }
        Op::Clear => {
            *m = Flat::new();
            specified = true;
            told = Told::Nothing;
        }
        Op::DelLeft => m.del_left(),
        Op::DelBelow => m.del_below(),
        Op::DelSel => {
            specified = m.wide();
            m.del_selection();
        }
        Op::DelWordLeft => {
            let to = m.word_left();
            m.text.drain(to..m.cur);
            m.cur = to;
        }
        Op::DelWordRight => m.del_word_right(),
        Op::SelectWord => {
            told = Told::Exact(m.select_word());
            specified = true;
        }
        Op::LineUp => m.move_line(-1),
        Op::LineDown => m.move_line(1),
        Op::Left => {
            m.cur = m.cur.saturating_sub(1);
            specified = true;
        }
        Op::Right => {
            m.cur = (m.cur + 1).min(m.text.len());
            specified = true;
        }
        Op::Up => {
            m.vertical(-1);
            specified = true;
        }
        Op::Down => {
            m.vertical(1);
            specified = true;
        }
        Op::Start => {
            m.cur = 0;
            specified = true;
        }
        Op::End => {
            m.cur = m.text.len();
            specified = true;
        }
        Op::LineStart => {
            m.cur = m.line().0;
            specified = true;
        }
        Op::LineEnd => {
            m.cur = m.line().1;
            specified = true;
        }
        Op::WordLeft => {
            m.cur = m.word_left();
            specified = true;
        }
        Op::WordRight => {
            m.cur = m.word_right();
            specified = true;
        }
    }
    (specified, told)
}

/// apply an op to a content or to a field
macro_rules! apply_op {
    ($t:expr, $op:expr, $char:ident, $string:expr) => {
        match $op {
            Op::Char(c) => {
                $t.$char(*c);
                None
            }
            Op::Str(s) => {
                $t.insert_str(s);
                None
            }
            Op::NewLine => {
                $t.insert_new_line();
                None
            }
            Op::SetStr(s) => {
                $t.set_str(s);
                None
            }
            Op::SetSame => {
                let s = $string;
                $t.set_str(s);
                None
            }
            Op::Clear => {
                $t.clear();
                None
            }
            Op::DelLeft => Some($t.del_char_left()),
            Op::DelBelow => Some($t.del_char_below()),
            Op::DelSel => Some($t.del_selection()),
            Op::DelWordLeft => Some($t.del_word_left()),
            Op::DelWordRight => Some($t.del_word_right()),
            Op::SelectWord => Some($t.select_word_around()),
            Op::LineUp => Some($t.move_current_line_up()),
            Op::LineDown => Some($t.move_current_line_down()),
            Op::Left => Some($t.move_left()),
            Op::Right => Some($t.move_right()),
            Op::Up => Some($t.move_up()),
            Op::Down => Some($t.move_down()),
            Op::Start => Some($t.move_to_start()),
            Op::End => Some($t.move_to_end()),
            Op::LineStart => Some($t.move_to_line_start()),
            Op::LineEnd => Some($t.move_to_line_end()),
            Op::WordLeft => Some($t.move_word_left()),
            Op::WordRight => Some($t.move_word_right()),
        }
    };
}

/// the observable state of a content (which has no public type)
struct Snap {
    string: String,
    cursor: Pos,
    line_count: usize,
    lines: Vec<String>,
    current: String,
    end: Pos,
    is_empty: bool,
    is_str: bool,
    is_longer: bool,
    is_prefix: bool,
    can_move_left: bool,
    can_move_right: bool,
    min: Pos,
    max: Pos,
    has_selection: bool,
    has_wide_selection: bool,
    selected: String,
}

macro_rules! pos {
    ($p:expr) => {{
        let p = $p;
        Pos { x: p.x, y: p.y }
    }};
}

macro_rules! snap {
    ($c:expr, $m:expr) => {{
        let c = $c;
        let s = $m.string();
        let sel = c.selection();
        Snap {
            string: c.to_string(),
            cursor: pos!(c.cursor_pos()),
            line_count: c.line_count(),
            lines: c.lines().iter().map(|l| l.chars.iter().collect()).collect(),
            current: c.current_line().chars.iter().collect(),
            end: pos!(c.end()),
            is_empty: c.is_empty(),
            is_str: c.is_str(&s),
            is_longer: c.is_str(&format!("{s}x")),
            is_prefix: s.char_indices().last().map_or(false, |(i, _)| c.is_str(&s[..i])),
            can_move_left: c.can_move_left(),
            can_move_right: c.can_move_right(),
            min: pos!(sel.min),
            max: pos!(sel.max),
            has_selection: c.has_selection(),
            has_wide_selection: c.has_wide_selection(),
            selected: c.selection_string(),
        }
    }};
}

/// compare the content with the model
fn check_content(c: &Snap, m: &mut Flat, specified: bool, what: &str) -> Result<(), String> {
    let s = m.string();
    ensure_eq!(c.string, s, "content after {what}");
    let p = c.cursor;
    ensure_eq!(p, m.pos_of(m.cur), "cursor after {what} in {s:?}");
    let lines: Vec<String> = s.split('\n').map(String::from).collect();
    ensure_eq!(c.line_count, lines.len(), "line count after {what}");
    ensure_eq!(c.lines, lines, "lines after {what}");
    ensure_eq!(c.current, lines[p.y], "current line after {what}");
    ensure_eq!(c.end, m.pos_of(m.text.len()), "end after {what}");
    ensure_eq!(c.is_empty, s.is_empty(), "is_empty after {what}");
    ensure!(c.is_str, "is_str({s:?}) is false after {what}");
    ensure!(!c.is_longer, "is_str is true for a longer string after {what}");
    ensure!(!c.is_prefix, "is_str is true for a prefix of {s:?} after {what}");
    ensure_eq!(c.can_move_left, m.cur > 0, "can_move_left after {what}");
    ensure_eq!(c.can_move_right, m.cur < m.text.len(), "can_move_right after {what}");
    // the selection
    let (min, max) = (c.min, c.max);
    let valid = |p: Pos| m.pos_of(m.idx_of(p)) == p;
    ensure!(min <= max && valid(min) && valid(max), "invalid selection {min:?}..={max:?} in {s:?} after {what}");
    if specified {
        ensure_eq!(c.has_selection, m.tail.is_some(), "has_selection after {what}");
    } else {
        ensure!(min == p || max == p, "cursor {p:?} not in selection {min:?}..={max:?} after {what}");
        ensure!(!c.has_selection || m.tail.is_some(), "a selection appears after {what}");
        m.tail = c.has_selection.then(|| m.idx_of(if min == p { max } else { min }));
    }
    ensure_eq!(c.has_wide_selection, m.wide(), "has_wide_selection after {what}");
    let t = m.tail.unwrap_or(m.cur);
    ensure_eq!(
        (min, max),
        (m.pos_of(t.min(m.cur)), m.pos_of(t.max(m.cur))),
        "selection in {s:?} after {what}"
    );
    ensure_eq!(c.selected, m.selected(), "selected string in {s:?} after {what}");
    Ok(())
}

/// positions, in and out of the content
macro_rules! check_positions {
    ($c:expr, $m:expr) => {{
        let (c, m) = ($c, $m);
        let lines = m.lines();
        let sel = c.selection();
        let (min, max) = (m.idx_of(pos!(sel.min)), m.idx_of(pos!(sel.max)));
        for y in 0..lines.len() + 2 {
            let line: Vec<char> = lines.get(y).map_or(Vec::new(), |&(s, e)| m.text[s..e].to_vec());
            ensure_eq!(c.line(y).map(|l| l.chars.clone()), lines.get(y).map(|_| line.clone()), "line({y}) of {m:?}");
            let sat = lines[y.min(lines.len() - 1)];
            ensure_eq!(c.line_saturating(y).chars, m.text[sat.0..sat.1].to_vec(), "line_saturating({y}) of {m:?}");
            if let Some(l) = c.line(y) {
                let mut col = 0;
                for (i, &ch) in line.iter().enumerate() {
                    ensure_eq!(l.char_idx_to_col(i), col, "column of char {i} of line {y} of {m:?}");
                    if width_of(ch) > 0 && (i == 0 || width_of(line[i - 1]) > 0) {
                        ensure_eq!(l.col_to_char_idx(col), Some(i), "char at column {col} of line {y} of {m:?}");
                    }
                    col += width_of(ch);
                }
                ensure_eq!(l.char_idx_to_col(line.len()), col, "column of the end of line {y} of {m:?}");
                ensure_eq!(l.width(), col, "width of line {y} of {m:?}");
                ensure_eq!(l.col_to_char_idx(col + 1), None, "char after the end of line {y} of {m:?}");
            }
            for x in 0..line.len() + 2 {
                let mut p = c.cursor_pos();
                (p.x, p.y) = (x, y);
                let valid = c.make_valid_pos(p);
                ensure_eq!(pos!(valid), m.pos_of(m.idx_of(Pos { x, y })), "make_valid_pos({x}, {y}) of {m:?}");
                if y < lines.len() && x <= line.len() {
                    let i = m.idx_of(Pos { x, y });
                    let inside = min <= i && i <= max;
                    ensure_eq!(sel.contains_pos(p), inside, "{x},{y} in the selection {sel:?} of {m:?}");
                    ensure_eq!(sel.contains(x, y), inside, "{x},{y} in the selection {sel:?} of {m:?}");
                }
            }
        }
        let chars: String = c.selection_chars().collect();
        ensure_eq!(chars, m.selected(), "selection_chars of {m:?}");
    }};
}

fn check_told(got: Option<bool>, told: Told, before: &Flat, m: &Flat, what: &str) -> Result<(), String> {
    let Some(got) = got else {
        return Ok(());
    };
    let expected = match told {
        Told::Nothing => return Ok(()),
        Told::Exact(b) => b,
        Told::Changed => before.text != m.text || before.cur != m.cur,
    };
    ensure_eq!(got, expected, "value returned by {what} on {before:?}");
    Ok(())
}

// -------------------------------------------------- C14: content

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum ContentOp {
    Op(Op),
    SetCursor(usize, usize),
    SetTail(usize, usize),
    MakeSelection,
    Unselect,
    LinesUp(usize),
    LinesDown(usize),
    Swap(usize, usize),
    Push(char),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ContentCase {
    pub text: String,
    pub ops: Vec<ContentOp>,
}

fn content_case(tier: Tier) -> BoxedStrategy<ContentCase> {
    let p = || (prop_oneof![400 => 0..9usize, 100 => 0..40usize, 1 => 0..700usize], prop_oneof![400 => 0..5usize, 100 => 0..20usize, 1 => 0..400usize]);
    let cop = prop_oneof![
        30 => op(12).prop_map(ContentOp::Op),
        6 => p().prop_map(|(x, y)| ContentOp::SetCursor(x, y)),
        6 => p().prop_map(|(x, y)| ContentOp::SetTail(x, y)),
        2 => Just(ContentOp::MakeSelection),
        1 => Just(ContentOp::Unselect),
        1 => (1..4usize).prop_map(ContentOp::LinesUp),
        1 => (1..4usize).prop_map(ContentOp::LinesDown),
        1 => (0..5usize, 0..5usize).prop_map(|(a, b)| ContentOp::Swap(a, b)),
        1 => input_char().prop_map(ContentOp::Push),
    ];
    (input_text(30), vec(cop, 1..tier.pick(16, 50)))
        .prop_map(|(text, ops)| ContentCase { text, ops })
        .boxed()
}

fn check_content_case(case: &ContentCase) -> CheckResult {
    let mut info = Info::new();
    let mut c = InputField::default().content().clone();
    c.insert_str(&case.text);
    let mut m = Flat::new();
    m.insert(&case.text);
    check_content(&snap!(&c, &m), &mut m, true, "from")?;
    for (i, op) in case.ops.iter().enumerate() {
        let what = format!("step {i} ({op:?})");
        let before = m.clone();
        let mut specified = true;
        match op {
            ContentOp::Op(op) => {
                let (sp, told) = model_op(&mut m, op);
                specified = sp;
                let got = apply_op!(c, op, insert_char, c.to_string());
                check_told(got, told, &before, &m, &what)?;
            }
            ContentOp::SetCursor(x, y) => {
                m.cur = m.idx_of(Pos { x: *x, y: *y });
                let mut p = c.cursor_pos();
                (p.x, p.y) = (*x, *y);
                c.set_cursor_pos(p);
            }
            ContentOp::SetTail(x, y) => {
                m.tail = Some(m.idx_of(Pos { x: *x, y: *y }));
                let mut p = c.cursor_pos();
                (p.x, p.y) = (*x, *y);
                c.set_selection_tail(p);
            }
            ContentOp::MakeSelection => {
                m.tail = m.tail.or(Some(m.cur));
                c.make_selection();
            }
            ContentOp::Unselect => {
                m.tail = None;
                c.unselect();
            }
            ContentOp::LinesUp(n) => {
                m.vertical(-(*n as i64));
                c.move_lines_up(*n);
            }
            ContentOp::LinesDown(n) => {
                m.vertical(*n as i64);
                c.move_lines_down(*n);
            }
            ContentOp::Swap(a, b) => {
                let n = m.lines().len();
                let p = m.pos_of(m.cur);
                if *a < n && *b < n {
                    m.swap(*a, *b);
                    m.cur = m.idx_of(p);
                }
                ensure_eq!(c.swap_lines(*a, *b), *a < n && *b < n && a != b, "value returned by {what}");
                specified = false;
            }
            ContentOp::Push(ch) => {
                m.text.push(*ch);
                c.push_char(*ch);
                specified = false;
            }
        }
        check_content(&snap!(&c, &m), &mut m, specified, &what)?;
        info.hit(m.wide() && m.selected().contains('\n'), "selection on several lines");
        info.hit(before.wide() && m.text.len() < before.text.len(), "removal with a selection");
        info.class(m.lines().len() > 2, "several lines");
        info.class(m.text != before.text, "content changed");
        info.class(m.cur != before.cur && m.text == before.text, "cursor moved");
    }
    check_positions!(&c, &m);
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

// -------------------------------------------------- C14, C16: field

#[derive(Debug, Clone, Copy, Serialize, Deserialize, PartialEq)]
pub enum Key {
    Backspace,
    Delete,
    Char(char),
    Enter,
    Home,
    End,
    Up,
    Down,
    Left,
    Right,
    PageUp,
    PageDown,
    F5,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum FieldOp {
    Op(Op),
    /// key, shift, other modifier, way to send it
    Key(Key, bool, bool, u8),
    Paste(String),
    Copy,
    Cut,
    PageUp,
    PageDown,
    Focus(bool),
    /// kind, column, row
    Mouse(u8, u16, u16),
    ScrollUp,
    ScrollDown,
    Area(AreaSpec),
    ChangeArea(u16, u16, u16),
    Mono,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FieldCase {
    pub area: AreaSpec,
    pub password: bool,
    pub text: String,
    /// 0: none, 1: alt-enter, 2: enter
    pub new_line: u8,
    pub normal: StyleSpec,
    pub unfocused: StyleSpec,
    pub ops: Vec<FieldOp>,
}

fn key() -> BoxedStrategy<Key> {
    prop_oneof![
        5 => input_char().prop_filter("no tab key", |c| *c != '\t').prop_map(Key::Char),
        2 => Just(Key::Backspace),
        2 => Just(Key::Delete),
        3 => Just(Key::Enter),
        12 => select(&[
            Key::Home, Key::End, Key::Up, Key::Down, Key::Left, Key::Right, Key::PageUp, Key::PageDown,
            Key::Left, Key::Right, Key::Up, Key::Down,
        ][..]),
        1 => Just(Key::F5),
    ]
    .boxed()
}

fn small_area() -> BoxedStrategy<AreaSpec> {
    let usual = (
        0..5u16,
        0..5u16,
        prop_oneof![3 => 2..9u16, 3 => 2..30u16],
        prop_oneof![2 => Just(1u16), 3 => 1..6u16, 1 => 1..10u16],
    );
    prop_oneof![299 => usual, 1 => big_area(2, 1)]
        .prop_map(|(l, t, w, h)| AreaSpec { l, t, w, h })
        .boxed()
}

fn field_case(tier: Tier) -> BoxedStrategy<FieldCase> {
    let fop = prop_oneof![
        400 => op(14).prop_map(FieldOp::Op),
        800 => (key(), prop::bool::weighted(0.35), prop::bool::weighted(0.05), 0..4u8).prop_map(|(k, s, o, r)| FieldOp::Key(k, s, o, r)),
        80 => input_text(10).prop_map(FieldOp::Paste),
        40 => Just(FieldOp::Copy),
        80 => Just(FieldOp::Cut),
        40 => Just(FieldOp::PageUp),
        40 => Just(FieldOp::PageDown),
        40 => prop::bool::weighted(0.6).prop_map(FieldOp::Focus),
        200 => (0..7u8, 0..32u16, 0..12u16).prop_map(|(k, x, y)| FieldOp::Mouse(k, x, y)),
        1 => (0..7u8, 0..400u16, 0..400u16).prop_map(|(k, x, y)| FieldOp::Mouse(k, x, y)),
        40 => Just(FieldOp::ScrollUp),
        40 => Just(FieldOp::ScrollDown),
        40 => small_area().prop_map(FieldOp::Area),
        40 => (0..5u16, 0..5u16, 2..20u16).prop_map(|(x, y, w)| FieldOp::ChangeArea(x, y, w)),
        40 => Just(FieldOp::Mono),
    ];
    (
        small_area(),
        prop::bool::weighted(0.15),
        input_text(60),
        0..3u8,
        style(),
        style(),
        vec(fop, 1..tier.pick(14, 40)),
    )
        .prop_map(|(area, password, text, new_line, normal, unfocused, ops)| FieldCase {
            area,
            password,
            text,
            new_line,
            normal,
            unfocused,
            ops,
        })
        .boxed()
}

fn code_of(k: Key) -> KeyCode {
    match k {
        Key::Backspace => KeyCode::Backspace,
        Key::Delete => KeyCode::Delete,
        Key::Char(c) => KeyCode::Char(c),
        Key::Enter => KeyCode::Enter,
        Key::Home => KeyCode::Home,
        Key::End => KeyCode::End,
        Key::Up => KeyCode::Up,
        Key::Down => KeyCode::Down,
        Key::Left => KeyCode::Left,
        Key::Right => KeyCode::Right,
        Key::PageUp => KeyCode::PageUp,
        Key::PageDown => KeyCode::PageDown,
        Key::F5 => KeyCode::F(5),
    }
}

struct Driver {
    field: InputField,
    m: Flat,
    area: AreaSpec,
    password: bool,
    focused: bool,
    new_line: u8,
    /// whether the cursor must be visible
    vis: bool,
}

impl Driver {
    fn new(case: &FieldCase) -> Result<Self, String> {
        let mut field = InputField::new(case.area.area());
        field.password_mode = case.password;
        match case.new_line {
            1 => field.new_line_on(InputField::ALT_ENTER),
            2 => field.new_line_on(InputField::ENTER),
            _ => {}
        }
        field.set_normal_style(case.normal.compound());
        field.set_unfocused_style(case.unfocused.compound());
        field.insert_str(&case.text);
        let mut m = Flat::new();
        m.insert(&case.text);
        let mut d = Driver {
            field,
            m,
            area: case.area,
            password: case.password,
            focused: true,
            new_line: case.new_line,
            vis: true,
        };
        d.check(true, "initial insertion")?;
        Ok(d)
    }
    /// check the window moved by a line when there's content on this side, and only then
    fn check_wheel(&self, before: Pos, down: bool, moved: Option<bool>, what: &str) -> Result<(), String> {
        let lines = self.m.lines().len();
        let y = if !down {
            before.y.saturating_sub(1)
        } else if before.y + (self.area.h as usize) < lines {
            before.y + 1
        } else {
            before.y
        };
        let after = self.field.scroll();
        ensure_eq!((after.x, after.y), (before.x, y), "scroll after {what} ({lines} lines)");
        if let Some(moved) = moved {
            ensure_eq!(moved, y != before.y, "value returned by {what}");
        }
        Ok(())
    }
    fn check(&mut self, specified: bool, what: &str) -> Result<(), String> {
        check_content(&snap!(self.field.content(), &self.m), &mut self.m, specified, what)?;
        let s = self.m.string();
        ensure_eq!(self.field.get_content(), s, "get_content after {what}");
        ensure!(self.field.is_content(&s), "is_content is false after {what}");
        ensure_eq!(self.field.is_empty(), s.is_empty(), "is_empty after {what}");
        ensure_eq!(self.field.can_move_left(), self.m.cur > 0, "can_move_left after {what}");
        ensure_eq!(self.field.can_move_right(), self.m.cur < self.m.text.len(), "can_move_right after {what}");
        ensure_eq!(self.field.focused(), self.focused, "focus after {what}");
        ensure_eq!(*self.field.area(), self.area.area(), "area after {what}");
        ensure_eq!(self.field.copy_selection(), self.m.selected(), "copy_selection after {what}");
        Ok(())
    }
    /// effect of a key which goes to the field
    fn model_key(&mut self, k: Key, shift: bool) -> (bool, Told) {
        let h = i64::from(self.area.h);
        let m = &mut self.m;
        match k {
            Key::Backspace | Key::Delete => {
                if m.wide() {
                    m.del_selection();
                    return (true, Told::Exact(true));
                }
                m.tail = None;
                if k == Key::Backspace {
                    m.del_left();
                } else {
                    m.del_below();
                }
                (true, Told::Changed)
            }
            Key::Char(c) => {
                if m.wide() {
                    m.del_selection();
                }
                m.tail = None;
                m.insert(&c.to_string());
                (true, Told::Exact(true))
            }
            _ => {
                if shift {
                    m.tail = m.tail.or(Some(m.cur));
                } else {
                    m.tail = None;
                }
                match k {
                    Key::Home => m.cur = m.line().0,
                    Key::End => m.cur = m.line().1,
                    Key::Up => m.vertical(-1),
                    Key::Down => m.vertical(1),
                    Key::PageUp => m.vertical(-h),
                    Key::PageDown => m.vertical(h),
                    Key::Left => m.cur = m.cur.saturating_sub(1),
                    Key::Right => m.cur = (m.cur + 1).min(m.text.len()),
                    _ => return (false, Told::Exact(false)),
                }
                (true, Told::Changed)
            }
        }
    }
    fn step(&mut self, op: &FieldOp, info: &mut Info) -> Result<(), String> {
        let before = self.m.clone();
        let what = format!("{op:?} on {before:?}");
        let mut specified = true;
        let mut told = Told::Nothing;
        let mut got = None;
        // whether the operation lets the cursor out of the view
        let mut mouse = false;
        let mut always = false;
        match op {
            FieldOp::Op(op) => {
                let (sp, t) = model_op(&mut self.m, op);
                (specified, told) = (sp, t);
                got = apply_op!(self.field, op, put_char, self.field.get_content());
                always = got.is_none();
            }
            FieldOp::Key(k, shift, other, route) => {
                let (k, shift) = match k {
                    // shift is part of the char
                    Key::Char(c) => (*k, c.is_uppercase()),
                    k => (*k, *shift),
                };
                let mut modifiers = if shift { KeyModifiers::SHIFT } else { KeyModifiers::NONE };
                let alt_enter = k == Key::Enter && *other;
                if *other {
                    modifiers = if alt_enter { KeyModifiers::ALT } else { modifiers | KeyModifiers::CONTROL };
                }
                let ev = KeyEvent::new(code_of(k), modifiers);
                let direct = *route == 3 && modifiers.is_empty();
                let r = match route {
                    0 => self.field.apply_key_event(ev),
                    1 => self.field.apply_event(&Event::Key(ev), false),
                    2 => self.field.apply_timed_event(&TimedEvent::new(Event::Key(ev))),
                    _ if direct => self.field.apply_keycode_event(code_of(k), false),
                    _ => self.field.apply_key_combination(ev),
                };
                got = Some(r);
                let new_line = alt_enter && self.new_line == 1
                    || k == Key::Enter && modifiers.is_empty() && self.new_line == 2;
                if !self.focused && !direct {
                    told = Told::Exact(false);
                } else if new_line && !direct {
                    info.hit(self.m.wide(), "selection replaced with a newline");
                    if self.m.wide() {
                        self.m.del_selection();
                    }
                    self.m.tail = None;
                    self.m.insert("\n");
                    told = Told::Exact(true);
                } else if *other {
                    told = Told::Exact(false);
                } else {
                    info.hit(
                        self.m.wide() && matches!(k, Key::Char(_) | Key::Backspace | Key::Delete),
                        "selection replaced with a key",
                    );
                    (specified, told) = self.model_key(k, shift);
                }
            }
            FieldOp::Paste(s) => {
                if self.m.wide() {
                    self.m.del_selection();
                }
                self.m.tail = None;
                self.m.insert(s);
                self.field.replace_selection(s);
                always = true;
            }
            FieldOp::Copy => {
                let s = self.field.copy_selection();
                ensure_eq!(s, self.m.selected(), "copied string by {what}");
            }
            FieldOp::Cut => {
                let expected = self.m.selected();
                specified = self.m.wide();
                self.m.del_selection();
                ensure_eq!(self.field.cut_selection(), expected, "cut string by {what}");
                always = true;
            }
            FieldOp::PageUp => {
                self.m.vertical(-i64::from(self.area.h));
                got = Some(self.field.page_up());
                told = Told::Changed;
            }
            FieldOp::PageDown => {
                self.m.vertical(i64::from(self.area.h));
                got = Some(self.field.page_down());
                told = Told::Changed;
            }
            FieldOp::Focus(b) => {
                self.field.set_focus(*b);
                always = *b && !self.focused;
                self.focused = *b;
            }
            FieldOp::Mouse(kind, x, y) => {
                // mostly in the area
                let (x, y) = (x % (self.area.w + 2), y % (self.area.h + 2));
                let (x, y) = ((self.area.l + x).saturating_sub(1), (self.area.t + y).saturating_sub(1));
                let inside = self.area.area().contains(x, y);
                let left = MouseButton::Left;
                let k = match kind {
                    0 | 1 => MouseEventKind::Down(left),
                    2 => MouseEventKind::Drag(left),
                    3 => MouseEventKind::Up(left),
                    4 => MouseEventKind::ScrollDown,
                    5 => MouseEventKind::ScrollUp,
                    _ => MouseEventKind::Moved,
                };
                let double = *kind == 3;
                let click = *kind == 6;
                let shift = *kind == 1;
                let scroll = pos!(self.field.scroll());
                let r = if click {
                    self.field.apply_click_event(x, y)
                } else {
                    let me = MouseEvent {
                        kind: k,
                        column: x,
                        row: y,
                        modifiers: if shift { KeyModifiers::SHIFT } else { KeyModifiers::NONE },
                    };
                    if shift {
                        let mut te = TimedEvent::new(Event::Mouse(me));
                        te.double_click = double;
                        self.field.apply_timed_event(&te)
                    } else {
                        self.field.apply_event(&Event::Mouse(me), double)
                    }
                };
                ensure_eq!(r, inside, "value returned by {what}");
                if inside && self.focused {
                    let py = (scroll.y + (y - self.area.t) as usize).min(self.m.lines().len() - 1);
                    let col = scroll.x + (x - self.area.l) as usize;
                    let at = if self.password {
                        let (s, e) = self.m.line_at(py);
                        (s + col).min(e)
                    } else {
                        self.m.at_col(py, col)
                    };
                    match kind {
                        6 => self.m.cur = at,
                        0 | 1 => {
                            if shift {
                                self.m.tail = self.m.tail.or(Some(self.m.cur));
                            } else {
                                self.m.tail = None;
                            }
                            self.m.cur = at;
                        }
                        2 => {
                            self.m.tail = self.m.tail.or(Some(self.m.cur));
                            self.m.cur = at;
                        }
                        3 => {
                            self.m.cur = at;
                            self.m.select_word();
                            info.class(true, "double click");
                        }
                        4 | 5 => self.check_wheel(scroll, *kind == 4, None, &what)?,
                        _ => {}
                    }
                    info.class(*kind == 2, "drag");
                } else if inside && (*kind <= 1 || click) {
                    self.focused = true;
                }
                mouse = true;
            }
            FieldOp::Mono => {
                self.field.set_mono_line();
                self.new_line = 0;
            }
            FieldOp::ScrollUp | FieldOp::ScrollDown => {
                let down = matches!(op, FieldOp::ScrollDown);
                let scroll = pos!(self.field.scroll());
                let moved = if down { self.field.scroll_down() } else { self.field.scroll_up() };
                self.check_wheel(scroll, down, Some(moved), &what)?;
                info.class(moved, "scrolled by a line");
                mouse = true;
            }
            FieldOp::Area(a) => {
                self.field.set_area(a.area());
                always = *a != self.area;
                self.area = *a;
            }
            FieldOp::ChangeArea(x, y, w) => {
                self.field.change_area(*x, *y, *w);
                let a = AreaSpec { l: *x, t: *y, w: *w, h: self.area.h };
                always = a != self.area;
                self.area = a;
            }
        }
        check_told(got, told, &before, &self.m, &what)?;
        self.check(specified, &what)?;
        let changed = before.text != self.m.text || before.cur != self.m.cur;
        if mouse || !self.focused {
            self.vis = false;
        } else if changed || always {
            self.vis = true;
        }
        info.hit(self.m.wide() && self.m.selected().contains('\n'), "selection on several lines");
        info.class(self.m.wide(), "selection");
        info.class(self.m.lines().len() > self.area.h as usize, "higher than the area");
        Ok(())
    }
}

fn check_field(case: &FieldCase) -> CheckResult {
    let mut info = Info::new();
    let mut d = Driver::new(case)?;
    for op in &case.ops {
        d.step(op, &mut info)?;
    }
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

// -------------------------------------------------- C15: selection

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SelCase {
    pub text: String,
    pub cursor: (usize, usize),
    /// shifted keys
    pub keys: Vec<Key>,
    pub paste: String,
}

fn sel_case(tier: Tier) -> BoxedStrategy<SelCase> {
    let nav = || {
        select(
            &[Key::Home, Key::End, Key::Up, Key::Down, Key::Left, Key::Right, Key::PageUp, Key::PageDown, Key::Right][..],
        )
    };
    (
        input_text(tier.pick(40, 120)),
        (0..40usize, 0..8usize),
        vec(nav(), 0..8),
        input_text(12),
    )
        .prop_map(|(text, cursor, keys, paste)| SelCase { text, cursor, keys, paste })
        .boxed()
}

fn check_sel(case: &SelCase) -> CheckResult {
    let mut info = Info::new();
    let build = || -> InputField {
        let mut f = InputField::new(Area::new(2, 2, 20, 4));
        f.insert_str(&case.text);
        f.move_to_start();
        for _ in 0..case.cursor.1 {
            f.move_down();
        }
        for _ in 0..case.cursor.0 {
            f.move_right();
        }
        for k in &case.keys {
            f.apply_key_event(KeyEvent::new(code_of(*k), KeyModifiers::SHIFT));
        }
        f
    };
    let all = |f: &InputField| -> (Vec<char>, Pos) { (f.get_content().chars().collect(), pos!(f.content().cursor_pos())) };
    let flat = |f: &InputField| {
        let (text, pos) = all(f);
        let mut m = Flat { text, cur: 0, tail: None };
        m.cur = m.idx_of(pos);
        let r = f.content().selection();
        if f.content().has_selection() {
            let (min, max) = (pos!(r.min), pos!(r.max));
            m.tail = Some(m.idx_of(if min == pos { max } else { min }));
        }
        m
    };
    let mut f = build();
    let m = flat(&f);
    let expected = m.selected();
    // copying
    ensure_eq!(f.copy_selection(), expected, "copied string");
    ensure_eq!(flat(&f), m, "state after copy");
    // cutting removes exactly what it gives
    let mut after = m.clone();
    after.del_selection();
    ensure_eq!(f.cut_selection(), expected, "cut string");
    ensure_eq!(f.get_content(), after.string(), "content after having cut {expected:?} in {:?}", m.string());
    ensure_eq!(pos!(f.content().cursor_pos()), after.pos_of(after.cur), "cursor after cut");
    ensure!(!f.content().has_wide_selection(), "selection still there after cut");
    // pasting it back
    f.replace_selection(&expected);
    ensure_eq!(f.get_content(), m.string(), "content after cut and paste");
    let end = m.selection().end;
    if m.wide() {
        ensure_eq!(pos!(f.content().cursor_pos()), m.pos_of(end), "cursor after cut and paste");
    }
    ensure!(!f.content().has_wide_selection(), "selection after paste");
    // pasting on the selection
    let mut f = build();
    let mut after = m.clone();
    if after.wide() {
        after.del_selection();
    }
    after.insert(&case.paste);
    f.replace_selection(&case.paste);
    ensure_eq!(f.get_content(), after.string(), "content after paste of {:?} on {expected:?} in {:?}", case.paste, m.string());
    ensure_eq!(pos!(f.content().cursor_pos()), after.pos_of(after.cur), "cursor after paste");
    ensure!(!f.content().has_wide_selection(), "selection after paste");
    // keys on the selection
    for k in [Key::Backspace, Key::Delete, Key::Char('x')] {
        let mut f = build();
        if !m.wide() {
            break;
        }
        let mut after = m.clone();
        after.del_selection();
        if k == Key::Char('x') {
            after.insert("x");
        }
        f.apply_key_event(KeyEvent::new(code_of(k), KeyModifiers::NONE));
        ensure_eq!(f.get_content(), after.string(), "content after {k:?} on {expected:?} in {:?}", m.string());
        ensure_eq!(pos!(f.content().cursor_pos()), after.pos_of(after.cur), "cursor after {k:?}");
        ensure!(!f.content().has_wide_selection(), "selection after {k:?}");
        // it isn't selected
        f.apply_key_event(KeyEvent::new(KeyCode::Char('y'), KeyModifiers::NONE));
        after.insert("y");
        ensure_eq!(f.get_content(), after.string(), "content after {k:?} then y");
    }
    info.hit(m.wide(), "wide selection");
    info.class(expected.contains('\n'), "on several lines");
    info.class(m.wide() && m.tail < Some(m.cur), "forward");
    Ok(info)
}

// -------------------------------------------------- C16: display

/// a displayed cell: content, whether it's in the cursor style (None if not specified)
type Cell = (String, Option<bool>);

/// what's expected for a line: the cells, the one of the cursor, and the ones in which
/// shown chars start
struct ExpectedRow {
    cells: Vec<Cell>,
    cursor: Option<usize>,
    /// where the cursor may be shown when it's at the end of a line whose end is hidden
    hidden_cursor: Option<usize>,
    starts: Vec<(usize, usize)>,
}

/// column x of the screen shows the column x + scroll of the line
fn expected_row(
    chars: &[char],
    scroll: usize,
    width: usize,
    selected: &dyn Fn(usize) -> bool,
    cursor: Option<usize>,
) -> ExpectedRow {
    let blank: Cell = (" ".to_string(), Some(false));
    let mut row = ExpectedRow { cells: vec![blank; width], cursor: None, hidden_cursor: None, starts: Vec::new() };
    // the first column hides what's before
    let min = if scroll > 0 && width > 4 {
        row.cells[0].0 = "…".to_string();
        1
    } else {
        0
    };
    let total: usize = chars.iter().map(|&c| width_of(c)).sum();
    // the last shown char of a line which continues is an ellipsis
    let all = total <= scroll + width;
    let max = if all { width } else { width - 1 };
    let mut col = 0;
    let mut cut = None;
    for (i, &c) in chars.iter().enumerate() {
        let w = width_of(c);
        let (start, end) = (col, col + w);
        col = end;
        if end <= scroll + min {
            continue;
        }
        if start < scroll + min {
            // half of the char is hidden
            for x in min..(end - scroll).min(width) {
                row.cells[x] = (" ".to_string(), None);
            }
            continue;
        }
        let x = start - scroll;
        if end - scroll > max {
            cut = Some((i, x));
            break;
        }
        row.starts.push((x, i));
        if cursor == Some(i) {
            row.cursor = Some(x);
        }
        for k in x..x + w {
            row.cells[k].1 = Some(selected(i));
        }
        if c != '\t' {
            row.cells[x].0 = c.to_string();
            if w > 1 {
                row.cells[x + 1].0 = String::new();
            }
        }
    }
    if let Some((i, x)) = cut {
        if x < width {
            row.cells[x] = ("…".to_string(), Some(selected(i)));
            if cursor == Some(i) {
                row.cursor = Some(x);
            }
        }
    } else if cursor == Some(chars.len()) && col >= scroll + min && col - scroll < width {
        row.cursor = Some(col - scroll);
        row.cells[col - scroll].1 = Some(true);
    } else if cursor == Some(chars.len()) && col < scroll + min && min < width {
        row.hidden_cursor = Some(min);
    }
    row
}

/// check the display, and return the places where chars are shown, with their positions
fn check_display(d: &Driver, case: &FieldCase, info: &mut Info) -> Result<Vec<((u16, u16), (usize, usize))>, String> {
    let mut shown = Vec::new();
    let a = d.area;
    let mut out = Vec::new();
    let told = d.field.display_on(&mut out).map_err(|e| e.to_string())?;
    let mut grid = a.screen();
    grid.feed_bytes(&out)?;
    let (l, t, w, h) = (a.l as usize, a.t as usize, a.w as usize, a.h as usize);
    grid.check_exactly(l, t, w, h)?;
    ensure_eq!(grid.overwrites, 0, "number of cells written several times");
    let lines = d.m.lines();
    let scroll = d.field.scroll();
    ensure!(
        scroll.y + h <= lines.len().max(h),
        "scrolled past the end: {scroll:?} with {} lines in {h} rows",
        lines.len()
    );
    let bar = compute_scrollbar(scroll.y, lines.len(), a.h, a.t);
    let width = if bar.is_some() { w - 1 } else { w };
    let normal = if d.focused { case.normal.st() } else { case.unfocused.st() };
    let cursor_st = normal.over(St { at: 1 << 7, ..St::default() });
    let sel = d.m.selection();
    let mut cursor_pos = None;
    for j in 0..h {
        let got = grid_row(&grid, l, t + j, width);
        let text: String = got.iter().map(|c| &*c.0).collect();
        let Some(&(s, e)) = lines.get(scroll.y + j) else {
            ensure!(
                got.iter().all(|c| c.0 == " " && c.1 == normal),
                "row {j}, after the content, isn't blank: {text:?}"
            );
            continue;
        };
        let chars: Vec<char> = if d.password {
            vec!['*'; e - s]
        } else {
            d.m.text[s..e].to_vec()
        };
        let cursor = (d.focused && s <= d.m.cur && d.m.cur <= e).then(|| d.m.cur - s);
        let selected = |i: usize| d.focused && (sel.contains(&(s + i)) || cursor == Some(i));
        let mut expected = expected_row(&chars, scroll.x, width, &selected, cursor);
        if let Some(x) = expected.hidden_cursor {
            // the end of the line, where the cursor is, is at the left of what's visible:
            // the cursor may be shown on the side, as long as it's told
            if told == Some((a.l + x as u16, a.t + j as u16)) {
                expected.cells[x].1 = Some(true);
                expected.cursor = Some(x);
            }
        }
        if let Some(x) = expected.cursor {
            cursor_pos = Some((a.l + x as u16, a.t + j as u16));
        }
        shown.extend(
            expected
                .starts
                .iter()
                .map(|&(x, i)| ((a.l + x as u16, a.t + j as u16), (i, scroll.y + j))),
        );
        for (x, (cell, got)) in expected.cells.iter().zip(&got).enumerate() {
            ensure!(
                cell.0 == got.0,
                "row {j} shows {text:?} with {:?} instead of {:?} in column {x} (scroll {scroll:?})",
                got.0,
                cell.0
            );
            let ok = match cell.1 {
                Some(true) => got.1 == cursor_st,
                Some(false) => got.1 == normal,
                None => got.1 == normal || d.focused && got.1 == cursor_st,
            };
            ensure!(ok, "column {x} of row {j} {text:?} is in style {:?}, selected: {:?}", got.1, cell.1);
        }
    }
    if let Some(bar) = bar {
        let model = Model::of_skin(get_default_skin());
        let bg = if d.focused { case.normal.st().bg } else { None };
        for j in 0..a.h {
            let y = a.t + j;
            let mut sc = if bar.0 <= y && y <= bar.1 { model.thumb } else { model.track };
            if bg.is_some() {
                sc.st.bg = bg;
            }
            let cell = grid.cell(l + w - 1, y as usize);
            ensure!(
                cell.s == Some(sc.c.to_string()) && cell.st == sc.st,
                "scrollbar cell {cell:?} at row {j} instead of {sc:?}"
            );
        }
        info.class(true, "with scrollbar");
    }
    ensure_eq!(told, cursor_pos, "returned cursor position (scroll {scroll:?}, cursor {:?})", d.m.pos_of(d.m.cur));
    let narrow = d.m.text.iter().all(|&c| c == '\n' || width_of(c) == 1);
    if d.vis && (width >= 4 || width >= 2 && (narrow || d.password)) {
        ensure!(
            told.is_some(),
            "the cursor {:?} isn't visible: scroll {scroll:?} in {width} x {h}, content {:?}",
            d.m.pos_of(d.m.cur),
            d.m.string()
        );
        if let (Some((x, y)), true) = (told, width >= 5 && (narrow || d.password)) {
            ensure!(
                grid.cell(x as usize, y as usize).s.as_deref() != Some("…") || d.m.text.contains(&'…'),
                "the char under the cursor {:?} isn't visible: scroll {scroll:?} in {width} x {h}, content {:?}",
                d.m.pos_of(d.m.cur),
                d.m.string()
            );
        }
        info.hit(scroll.x > 0, "scrolled right");
        info.hit(scroll.y > 0, "scrolled down");
    }
    Ok(shown)
}

fn display_case(tier: Tier) -> BoxedStrategy<FieldCase> {
    // no zero width chars
    fn clean(s: &mut String) {
        s.retain(|c| c == '\n' || width_of(c) > 0);
    }
    field_case(tier)
        .prop_map(|mut c| {
            clean(&mut c.text);
            for op in &mut c.ops {
                match op {
                    FieldOp::Op(Op::Char(c)) if width_of(*c) == 0 => *c = 'z',
                    FieldOp::Op(Op::Str(s)) | FieldOp::Op(Op::SetStr(s)) | FieldOp::Paste(s) => clean(s),
                    _ => {}
                }
            }
            c
        })
        .boxed()
}

fn check_display_case(case: &FieldCase) -> CheckResult {
    let mut info = Info::new();
    let mut d = Driver::new(case)?;
    let mut shown = check_display(&d, case, &mut info).map_err(|e| format!("{e} (initially)"))?;
    for op in &case.ops {
        let before = d.m.clone();
        d.step(op, &mut info)?;
        shown = check_display(&d, case, &mut info).map_err(|e| format!("{e} (after {op:?} on {before:?})"))?;
    }
    // clicking on a char puts the cursor on it
    if d.focused {
        for ((x, y), (px, py)) in shown {
            ensure!(d.field.apply_click_event(x, y), "click in the area not used");
            ensure_eq!(
                pos!(d.field.content().cursor_pos()),
                Pos { x: px, y: py },
                "cursor after a click on column {x}, line {y} where the char {px} of the line {py} is shown"
            );
            info.class(true, "click on a char");
        }
    }
    info.classes.sort();
    info.classes.dedup();
    Ok(info)
}

/// a content with many lines, or with a very long one
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BigFieldCase {
    pub nb_lines: usize,
    /// index and length of the long line
    pub long: (usize, usize),
    /// area, styles, operations (the text is the one of the start of the first line)
    pub case: FieldCase,
}

fn big_field_case(tier: Tier) -> BoxedStrategy<BigFieldCase> {
    (
        prop_oneof![
            2 => (prop_oneof![65_530..65_545usize, 66_000..67_000usize], 0..70usize),
            2 => (1..4usize, prop_oneof![65_530..65_545usize, 66_000..67_000usize]),
            4 => (100..1200usize, 0..1200usize),
        ],
        any::<prop::sample::Index>(),
        display_case(tier),
    )
        .prop_map(|((nb_lines, len), idx, mut case)| {
            if case.text.chars().count() > 200 {
                case.text.clear();
            }
            BigFieldCase { nb_lines, long: (idx.index(nb_lines), len), case }
        })
        .boxed()
}

fn check_big_field(case: &BigFieldCase) -> CheckResult {
    let mut text = case.case.text.clone();
    for i in 0..case.nb_lines {
        text.push('\n');
        text.push_str(&i.to_string());
        if i == case.long.0 {
            text.extend((0..case.long.1).map(|i| (b'a' + (i % 26) as u8) as char));
        }
    }
    let mut info = check_display_case(&FieldCase { text, ..case.case.clone() })?;
    info.class(case.nb_lines > 65_535, "more than 65535 lines");
    info.class(case.long.1 > 65_535, "more than 65535 chars in a line");
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C14",
            rule: "a selection covers several lines, or is removed or replaced",
            assumptions: &["direct edits of a content having a selection may leave any valid selection"],
            max_threads: 8,
            parts: vec![
                part("content", 200_000, 3_000_000, content_case, check_content_case),
                part("field", 200_000, 6_000_000, field_case, check_field),
            ],
        },
        Property {
            id: "C15",
            rule: "the selection is more than the char under the cursor",
            assumptions: &["the position of the cursor is part of the selection, an end of line being its newline"],
            max_threads: 8,
            parts: vec![part("clipboard", 900_000, 4_000_000, sel_case, check_sel)],
        },
        Property {
            id: "C16",
            rule: "the content is scrolled with a visible cursor, or there's a selection on several lines or replaced",
            assumptions: &[
                "no char of null width",
                "at least 2 columns (4 if there are wide chars) and 1 row, scrollbar excluded",
                "mouse and scroll events may leave the cursor out of the view",
            ],
            max_threads: 8,
            parts: vec![
                part("field", 100_000, 1_500_000, display_case, check_display_case),
                part("big", 160, 3_000, big_field_case, check_big_field),
            ],
        },
    ]
}
