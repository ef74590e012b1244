//! Independent observation of what is written to a terminal: an ANSI
//! interpreter producing styled rows, and a small terminal emulator.

use {
    termimad::crossterm::style::{
        Attribute,
        Color,
        ContentStyle,
    },
    unicode_width::UnicodeWidthChar,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Col {
    Idx(u8),
    Rgb(u8, u8, u8),
}

/// The graphic rendition of a cell
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default)]
pub struct St {
    pub fg: Option<Col>,
    pub bg: Option<Col>,
    pub at: u32,
}

impl std::fmt::Debug for St {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{:?}/{:?}/{:x}>", self.fg, self.bg, self.at)
    }
}

const ATTRS: &[(Attribute, u32)] = &[
    (Attribute::Bold, 1),
    (Attribute::Dim, 2),
    (Attribute::Italic, 3),
    (Attribute::Underlined, 4),
    (Attribute::SlowBlink, 5),
    (Attribute::RapidBlink, 6),
    (Attribute::Reverse, 7),
    (Attribute::Hidden, 8),
    (Attribute::CrossedOut, 9),
    (Attribute::Fraktur, 20),
    (Attribute::Framed, 21),
    (Attribute::Encircled, 22),
    (Attribute::OverLined, 23),
];

pub fn color_of(c: Color) -> Option<Col> {
    Some(match c {
        Color::Reset => return None,
        Color::Black => Col::Idx(0),
        Color::DarkRed => Col::Idx(1),
        Color::DarkGreen => Col::Idx(2),
        Color::DarkYellow => Col::Idx(3),
        Color::DarkBlue => Col::Idx(4),
        Color::DarkMagenta => Col::Idx(5),
        Color::DarkCyan => Col::Idx(6),
        Color::Grey => Col::Idx(7),
        Color::DarkGrey => Col::Idx(8),
        Color::Red => Col::Idx(9),
        Color::Green => Col::Idx(10),
        Color::Yellow => Col::Idx(11),
        Color::Blue => Col::Idx(12),
        Color::Magenta => Col::Idx(13),
        Color::Cyan => Col::Idx(14),
        Color::White => Col::Idx(15),
        Color::AnsiValue(v) => Col::Idx(v),
        Color::Rgb { r, g, b } => Col::Rgb(r, g, b),
    })
}

impl St {
    pub fn of(cs: &ContentStyle) -> St {
        let mut at = 0;
        for (a, bit) in ATTRS {
            if cs.attributes.has(*a) {
                at |= 1 << bit;
            }
        }
        St {
            fg: cs.foreground_color.and_then(color_of),
            bg: cs.background_color.and_then(color_of),
            at,
        }
    }
    /// `other` laid over `self`
    pub fn over(self, other: St) -> St {
        St {
            fg: other.fg.or(self.fg),
            bg: other.bg.or(self.bg),
            at: self.at | other.at,
        }
    }
    fn sgr(&mut self, params: &str) -> Result<(), String> {
        let ps: Vec<&str> = params.split(';').collect();
        let mut i = 0;
        while i < ps.len() {
            let p = ps[i];
            let n: u32 = if p.is_empty() { 0 } else { p.parse().map_err(|_| format!("sgr {params:?}"))? };
            match n {
                0 => *self = St::default(),
                1..=9 => self.at |= 1 << n,
                20 => self.at |= 1 << 20,
                21 => self.at &= !(1 << 1),
                22 => self.at &= !(1 << 1 | 1 << 2),
                23 => self.at &= !(1 << 3),
                24 => self.at &= !(1 << 4),
                25 => self.at &= !(1 << 5 | 1 << 6),
                27 => self.at &= !(1 << 7),
                28 => self.at &= !(1 << 8),
                29 => self.at &= !(1 << 9),
                30..=37 => self.fg = Some(Col::Idx((n - 30) as u8)),
                90..=97 => self.fg = Some(Col::Idx((n - 90 + 8) as u8)),
                40..=47 => self.bg = Some(Col::Idx((n - 40) as u8)),
                100..=107 => self.bg = Some(Col::Idx((n - 100 + 8) as u8)),
                39 => self.fg = None,
                49 => self.bg = None,
                51 => self.at |= 1 << 21,
                52 => self.at |= 1 << 22,
                53 => self.at |= 1 << 23,
                54 => self.at &= !(1 << 21 | 1 << 22),
                55 => self.at &= !(1 << 23),
                38 | 48 | 58 => {
                    let num = |k: usize| -> Result<u8, String> {
                        ps.get(k)
                            .and_then(|s| s.parse().ok())
                            .ok_or_else(|| format!("sgr {params:?}"))
                    };
                    let col = match num(i + 1)? {
                        5 => {
                            let c = Col::Idx(num(i + 2)?);
                            i += 2;
                            c
                        }
                        2 => {
                            let c = Col::Rgb(num(i + 2)?, num(i + 3)?, num(i + 4)?);
                            i += 4;
                            c
                        }
                        _ => return Err(format!("sgr {params:?}")),
                    };
                    match n {
                        38 => self.fg = Some(col),
                        48 => self.bg = Some(col),
                        _ => {}
                    }
                }
                59 => {}
                _ => return Err(format!("unknown sgr {params:?}")),
            }
            i += 1;
        }
        Ok(())
    }
}

pub fn char_width(c: char) -> usize {
    UnicodeWidthChar::width(c).unwrap_or(0)
}

/// a styled char in a row
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Sc {
    pub c: char,
    pub w: usize,
    pub st: St,
}

impl std::fmt::Debug for Sc {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}{:?}", self.c, self.st)
    }
}

pub type Row = Vec<Sc>;

pub fn row_width(r: &[Sc]) -> usize {
    r.iter().map(|s| s.w).sum()
}
pub fn row_text(r: &[Sc]) -> String {
    r.iter().map(|s| s.c).collect()
}

enum Tok<'s> {
    Char(char),
    Newline,
    Sgr(&'s str),
    Csi(&'s str, char),
}

fn tokens(s: &str) -> Result<Vec<Tok<'_>>, String> {
    let mut toks = Vec::new();
    let mut it = s.char_indices().peekable();
    while let Some((_, c)) = it.next() {
        match c {
            '\u{1b}' => {
                match it.next() {
                    Some((_, '[')) => {}
                    o => return Err(format!("unexpected escape {o:?}")),
                }
                let start = it.peek().map(|p| p.0).unwrap_or(s.len());
                loop {
                    match it.next() {
                        Some((idx, f)) if ('\u{40}'..='\u{7e}').contains(&f) => {
                            if f == 'm' {
                                toks.push(Tok::Sgr(&s[start..idx]));
                            } else {
                                toks.push(Tok::Csi(&s[start..idx], f));
                            }
                            break;
                        }
                        Some(_) => {}
                        None => return Err("unterminated escape sequence".to_string()),
                    }
                }
            }
            '\n' => toks.push(Tok::Newline),
            c => toks.push(Tok::Char(c)),
        }
    }
    Ok(toks)
}

/// Interpret a string made only of printable characters, newlines, and style
/// changes. Each row must be ended by a newline, except perhaps the last one.
pub fn rows(s: &str) -> Result<Vec<Row>, String> {
    let mut rows = Vec::new();
    let mut row = Row::new();
    let mut st = St::default();
    for tok in tokens(s)? {
        match tok {
            Tok::Char(c) => row.push(Sc { c, w: char_width(c), st }),
            Tok::Newline => rows.push(std::mem::take(&mut row)),
            Tok::Sgr(p) => st.sgr(p)?,
            Tok::Csi(p, f) => return Err(format!("unexpected control sequence {p:?}{f}")),
        }
    }
    if !row.is_empty() {
        rows.push(row);
    }
    if st != St::default() {
        return Err("the style isn't reset at the end".to_string());
    }
    Ok(rows)
}

/// interpret a string which must not contain any newline
pub fn single_row(s: &str) -> Result<Row, String> {
    let mut rs = rows(s)?;
    match rs.len() {
        0 => Ok(Row::new()),
        1 if !s.contains('\n') => Ok(rs.pop().unwrap()),
        _ => Err("unexpected newline".to_string()),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct GCell {
    /// None: never written. Some(""): right part of a wide char
    pub s: Option<String>,
    pub st: St,
}

/// A terminal, with cells never written being known
pub struct Grid {
    pub w: usize,
    pub h: usize,
    pub cells: Vec<GCell>,
    pub x: usize,
    pub y: usize,
    st: St,
    /// number of cells written more than once
    pub overwrites: usize,
}

impl Grid {
    pub fn new(w: usize, h: usize) -> Self {
        Grid {
            w,
            h,
            cells: vec![GCell { s: None, st: St::default() }; w * h],
            x: 0,
            y: 0,
            st: St::default(),
            overwrites: 0,
        }
    }
    pub fn cell(&self, x: usize, y: usize) -> &GCell {
        &self.cells[y * self.w + x]
    }
    pub fn written(&self, x: usize, y: usize) -> bool {
        self.cell(x, y).s.is_some()
    }
    fn put(&mut self, x: usize, y: usize, s: String) -> Result<(), String> {
        if x >= self.w || y >= self.h {
            return Err(format!("write of {s:?} outside of the terminal at {x},{y}"));
        }
        let st = self.st;
        let cell = &mut self.cells[y * self.w + x];
        if cell.s.is_some() {
            self.overwrites += 1;
        }
        *cell = GCell { s: Some(s), st };
        Ok(())
    }
    pub fn feed_bytes(&mut self, b: &[u8]) -> Result<(), String> {
        let s = std::str::from_utf8(b).map_err(|e| format!("invalid utf8 output: {e}"))?;
        self.feed(s)
    }
    pub fn feed(&mut self, s: &str) -> Result<(), String> {
        for tok in tokens(s)? {
            match tok {
                Tok::Char(c) if c.is_control() => return Err(format!("raw control char {c:?} written")),
                Tok::Char(c) => {
                    let w = char_width(c);
                    if w == 0 {
                        // combined with the previous cell
                        let mut x = self.x;
                        while x > 0 {
                            x -= 1;
                            let (gw, y) = (self.w, self.y);
                            if let Some(cell) = self.cells.get_mut(y * gw + x) {
                                if let Some(s) = cell.s.as_mut() {
                                    if !s.is_empty() {
                                        s.push(c);
                                        break;
                                    }
                                }
                            }
                        }
                    } else {
                        for i in 0..w {
                            let s = if i == 0 { c.to_string() } else { String::new() };
                            self.put(self.x + i, self.y, s)?;
                        }
                        self.x += w;
                    }
                }
                Tok::Newline => return Err("newline written in an area".to_string()),
                Tok::Sgr(p) => self.st.sgr(p)?,
                Tok::Csi(p, 'H') => {
                    let mut ps = p.split(';').map(|n| n.parse::<usize>().unwrap_or(1));
                    self.y = ps.next().unwrap_or(1) - 1;
                    self.x = ps.next().unwrap_or(1) - 1;
                }
                Tok::Csi(p, 'K') if p.is_empty() || p == "0" => {
                    for x in self.x..self.w {
                        self.put(x, self.y, " ".to_string())?;
                    }
                }
                Tok::Csi(p, 'G') => {
                    self.x = p.parse::<usize>().unwrap_or(1) - 1;
                }
                Tok::Csi(p, f) => return Err(format!("unexpected control sequence {p:?}{f}")),
            }
        }
        Ok(())
    }
    pub fn row_text(&self, x: usize, y: usize, w: usize) -> String {
        (x..x + w)
            .map(|x| self.cell(x, y).s.as_deref().unwrap_or("\u{fffd}").to_string())
            .collect()
    }
    /// the final graphic rendition must be the default one
    pub fn is_reset(&self) -> bool {
        self.st == St::default()
    }
    /// check that exactly the given rect has been written
    pub fn check_exactly(&self, l: usize, t: usize, w: usize, h: usize) -> Result<(), String> {
        for y in 0..self.h {
            for x in 0..self.w {
                let inside = x >= l && x < l + w && y >= t && y < t + h;
                let written = self.written(x, y);
                if written && !inside {
                    return Err(format!("cell {x},{y} written outside of the area {l},{t} {w}x{h}"));
                }
                if !written && inside {
                    return Err(format!("cell {x},{y} not written in the area {l},{t} {w}x{h}"));
                }
            }
        }
        Ok(())
    }
    pub fn check_confined(&self, l: usize, t: usize, w: usize, h: usize) -> Result<(), String> {
        for y in 0..self.h {
            for x in 0..self.w {
                let inside = x >= l && x < l + w && y >= t && y < t + h;
                if self.written(x, y) && !inside {
                    return Err(format!("cell {x},{y} written outside of the area {l},{t} {w}x{h}"));
                }
            }
        }
        Ok(())
    }
}
