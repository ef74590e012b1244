//! Generators (all random choices go through proptest, so that they shrink).

use {
    crate::engine::Tier,
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        crossterm::style::{
            Attribute,
            Attributes,
            Color,
        },
        minimad::Alignment,
        *,
    },
};

// ---------------------------------------------------------------- text

const ASCII: &[char] = &[
    'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's',
    't', 'u', 'v', 'w', 'x', 'y', 'z', 'A', 'B', 'M', 'Z', '0', '1', '2', '9', '.', ',', ';', ':',
    '!', '?', '(', ')', '[', ']', '{', '}', '/', '_', '=', '+', '%', '&', '"', '\'', '<', '@', '^',
];
const LATIN: &[char] = &['é', 'è', 'ç', 'ñ', 'ü', 'Ø', 'ß', 'α', 'β', 'λ', 'Ω', 'ж', 'Я', '«', '»', '→', '°'];
const WIDE: &[char] = &[
    '一', '曰', '道', '概', '要', '日', '本', 'か', 'な', 'カ', '한', '글', '，', '。', '！', '😀', '🚀', '🐄',
];
const ZERO: &[char] = &['\u{301}', '\u{308}', '\u{327}', '\u{360}', '\u{200b}'];
const SPECIAL: &[char] = &['*', '`', '~', '|', '#', '>', '-', '\\', '$', '-'];

/// a non blank char, one or two columns wide or 0
pub fn word_char() -> BoxedStrategy<char> {
    prop_oneof![
        14 => select(ASCII),
        3 => prop_oneof![15 => select(LATIN), 1 => Just('…')],
        3 => select(WIDE),
        1 => select(ZERO),
    ]
    .boxed()
}

/// a non blank char of width 1
pub fn narrow_char() -> BoxedStrategy<char> {
    prop_oneof![5 => select(ASCII), 1 => select(LATIN)].boxed()
}

fn to_string(v: Vec<char>) -> String {
    v.into_iter().collect()
}

pub fn word(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        600 => vec(select(&ASCII[..36]), 1..=8.min(max)).prop_map(to_string),
        300 => vec(word_char(), 1..=8.min(max)).prop_map(to_string),
        100 => vec(word_char(), 1..=max).prop_map(to_string),
        100 => vec(select(WIDE), 1..=6.min(max)).prop_map(to_string),
        1 => if max < 30 { Just("x".repeat(max)).boxed() } else { vec(word_char(), 100..=700).prop_map(to_string).boxed() },
    ]
    .boxed()
}

pub fn narrow_word(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        6 => vec(select(&ASCII[..36]), 1..=8.min(max)).prop_map(to_string),
        1 => vec(narrow_char(), 1..=max).prop_map(to_string),
    ]
    .boxed()
}

pub fn blanks() -> BoxedStrategy<String> {
    prop_oneof![
        12 => Just(" ".to_string()),
        2 => vec(Just(' '), 2..6).prop_map(to_string),
        1 => vec(Just(' '), 6..16).prop_map(to_string),
        1 => vec(select(&['\u{3000}', '\u{a0}', ' '][..]), 1..4).prop_map(to_string),
    ]
    .boxed()
}

/// words separated by blanks, maybe with leading or trailing ones
pub fn sentence(max_words: usize) -> BoxedStrategy<String> {
    (
        prop::bool::weighted(0.15),
        if max_words < 6 {
            // no huge words or sentences in table cells: deciding their wrapping is too long
            vec((word(29), blanks()), 0..=max_words).boxed()
        } else {
            prop_oneof![
                150 => vec((word(30), blanks()), 0..=max_words),
                1 => vec((word(30), blanks()), 30..=200),
            ].boxed()
        },
        prop::bool::weighted(0.7),
    )
        .prop_map(|(lead, words, trim)| {
            let mut s = String::new();
            if lead {
                s.push(' ');
            }
            let n = words.len();
            for (i, (w, b)) in words.into_iter().enumerate() {
                s.push_str(&w);
                if i + 1 < n || !trim {
                    s.push_str(&b);
                }
            }
            s
        })
        .boxed()
}

pub fn narrow_sentence(max_words: usize) -> BoxedStrategy<String> {
    vec(narrow_word(20), 0..=max_words)
        .prop_map(|words| words.join(" "))
        .boxed()
}

/// a piece of text with style
#[derive(Debug, Clone)]
pub struct Span {
    pub text: String,
    pub italic: bool,
    pub bold: bool,
    pub strike: bool,
    pub code: bool,
}

pub fn span() -> BoxedStrategy<Span> {
    span_of(6)
}

fn span_of(max_words: usize) -> BoxedStrategy<Span> {
    (sentence(max_words), 0..24u8)
        .prop_map(|(text, k)| Span {
            text,
            italic: matches!(k, 1 | 2 | 6 | 7 | 9 | 11),
            bold: matches!(k, 3 | 4 | 6 | 8 | 9 | 11),
            strike: matches!(k, 5 | 7 | 8 | 9),
            code: matches!(k, 10 | 11 | 12 | 13 | 14),
        })
        .boxed()
}

pub fn span_md(s: &Span) -> String {
    let mut md = String::new();
    let mut close = String::new();
    if s.bold {
        md.push_str("**");
        close.insert_str(0, "**");
    }
    if s.strike {
        md.push_str("~~");
        close.insert_str(0, "~~");
    }
    if s.italic {
        md.push('*');
        close.insert(0, '*');
    }
    if s.code {
        md.push('`');
        close.insert(0, '`');
    }
    md.push_str(&s.text);
    md.push_str(&close);
    md
}

/// text with markdown syntax, on one line
pub fn inline_md(max_spans: usize) -> BoxedStrategy<String> {
    prop_oneof![
        8 => vec(
            (span(), prop_oneof![3 => Just(" ".to_string()), 2 => Just(String::new()), 1 => Just("  ".to_string())]),
            0..=max_spans,
        ).prop_map(|spans| {
            let mut s = String::new();
            for (sp, sep) in &spans {
                s.push_str(&span_md(sp));
                s.push_str(sep);
            }
            s
        }),
        2 => sentence(12),
        // noise: unbalanced markers, escapes...
        2 => vec(
            prop_oneof![
                5 => word(12),
                3 => blanks(),
                4 => select(SPECIAL).prop_map(|c| c.to_string()),
                1 => Just("**".to_string()),
                1 => Just("~~".to_string()),
                1 => Just("***".to_string()),
            ],
            0..=12,
        ).prop_map(|v| v.concat()),
    ]
    .boxed()
}

/// a single line which isn't a part of a table, and not a fence
pub fn line_md() -> BoxedStrategy<String> {
    (
        prop_oneof![
            6 => Just(String::new()),
            5 => select(&["* ", " * ", "  * ", "   * "][..]).prop_map(String::from),
            3 => Just("> ".to_string()),
            4 => (1..=8usize).prop_map(|n| format!("{} ", "#".repeat(n))),
            3 => Just("    ".to_string()),
        ],
        inline_md(6),
    )
        .prop_map(|(p, s)| {
            let l = format!("{p}{s}");
            if l.starts_with('|') || l.starts_with("```") {
                format!("x{l}")
            } else {
                l
            }
        })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TableSpec {
    pub lines: Vec<TLine>,
}
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum TLine {
    /// cells
    Row(Vec<String>),
    /// alignments: 0 unspecified, 1 left, 2 center, 3 right
    Rule(Vec<u8>),
}

impl TableSpec {
    pub fn md(&self) -> String {
        let mut lines = Vec::new();
        for l in &self.lines {
            let mut s = String::from("|");
            match l {
                TLine::Row(cells) => {
                    for c in cells {
                        s.push_str(c);
                        s.push('|');
                    }
                }
                TLine::Rule(al) => {
                    for a in al {
                        s.push_str(match a {
                            1 => ":--",
                            2 => ":-:",
                            3 => "--:",
                            _ => "---",
                        });
                        s.push('|');
                    }
                }
            }
            lines.push(s);
        }
        lines.join("\n")
    }
}

pub fn cell_md(narrow: bool) -> BoxedStrategy<String> {
    let text = if narrow {
        prop_oneof![2 => narrow_word(12), 2 => narrow_sentence(6)].boxed()
    } else {
        prop_oneof![2 => word(12), 3 => sentence(5), 2 => vec(span_of(5), 1..3).prop_map(|v| v.iter().map(span_md).collect::<Vec<_>>().join(" "))].boxed()
    };
    prop_oneof![
        2 => Just(String::new()),
        1 => Just(" ".to_string()),
        1 => Just("-".to_string()),
        14 => text.prop_map(|s| s.replace('|', "/")),
    ]
    .boxed()
}

pub fn table(tier: Tier, narrow: bool) -> BoxedStrategy<TableSpec> {
    let max_cols = tier.pick(7usize, 12);
    let max_rows = tier.pick(7usize, 14);
    // number of columns, and usual and maximal numbers of rows
    prop_oneof![
        900 => (1..=max_cols).prop_map(move |nc| (nc, max_rows, max_rows * 3)),
        98 => (max_cols..=tier.pick(14, 24)).prop_map(move |nc| (nc, max_rows, max_rows * 3)),
        1 => (25..=90usize).prop_map(|nc| (nc, 2, 3)),
        1 => (1..=2usize).prop_map(|nc| (nc, 40, 120)),
    ]
        .prop_flat_map(move |(nc, usual, max)| {
            few(
                prop_oneof![
                    5 => vec(cell_md(narrow), nc).prop_map(TLine::Row),
                    2 => vec(cell_md(narrow), 1..=nc + 1).prop_map(TLine::Row),
                    2 => vec(0..4u8, nc).prop_map(TLine::Rule),
                    1 => vec(0..4u8, 1..=nc + 1).prop_map(TLine::Rule),
                ]
                .boxed(),
                1,
                usual,
                max,
            )
        })
        .prop_map(|lines| TableSpec { lines })
        .boxed()
}

pub fn code_block(fenced: bool) -> BoxedStrategy<String> {
    few(
        prop_oneof![
            1 => Just(String::new()),
            5 => (0..6usize, sentence(6)).prop_map(|(n, s)| format!("{}{}", " ".repeat(n), s)),
            1 => inline_md(4),
        ]
        .boxed(),
        1,
        5,
        20,
    )
    .prop_map(move |lines| {
        let lines: Vec<String> = lines
            .into_iter()
            .map(|l| if l.starts_with("```") { format!("_{l}") } else { l })
            .collect();
        if fenced {
            format!("```\n{}\n```", lines.join("\n"))
        } else {
            lines.iter().map(|l| format!("    {l}")).collect::<Vec<_>>().join("\n")
        }
    })
    .boxed()
}

/// usually `min` to `usual` items, sometimes more
pub fn few<T: std::fmt::Debug + Clone + 'static>(
    item: BoxedStrategy<T>,
    min: usize,
    usual: usize,
    max: usize,
) -> BoxedStrategy<Vec<T>> {
    prop_oneof![
        9 => vec(item.clone(), min..=usual),
        1 => vec(item, usual..=max),
    ]
    .boxed()
}

/// a block which is self-sufficient and ends without newline
pub fn block(tier: Tier) -> BoxedStrategy<String> {
    prop_oneof![
        10 => line_md(),
        1 => Just("---".to_string()),
        1 => Just("-----".to_string()),
        2 => Just(String::new()),
        3 => table(tier, false).prop_map(|t| t.md()),
        1 => code_block(true),
        1 => code_block(false),
    ]
    .boxed()
}

pub fn doc(tier: Tier, max_blocks: usize) -> BoxedStrategy<String> {
    prop_oneof![
        399 => few(block(tier), 0, max_blocks, max_blocks * 3).prop_map(|b| b.join("\n")),
        // long documents
        1 => (vec(block(tier), 1..=3), 20..=120usize).prop_map(|(b, n)| {
            let md = b.join("\n");
            vec![&md[..]; n.min(30_000 / (md.len() + 1)).max(1)].join("\n")
        }),
    ]
    .boxed()
}

/// text widths: mostly small ones
pub fn width(min: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        800 => min..=min + 9,
        1200 => min..=min + 40,
        160 => min..=min + 150,
        40 => min + 150..=min + 600,
        20 => select(&[127usize, 128, 254, 255, 256, 257, 511, 512, 999, 1000, 1001, 1024]),
        1 => select(&[4_096usize, 32_768, 65_535, 65_536, 65_600, 70_000]),
    ]
    .boxed()
}

// ---------------------------------------------------------------- skin

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum ColSpec {
    Named(u8),
    Ansi(u8),
    Rgb(u8, u8, u8),
    /// the default color of the terminal
    Reset,
}

pub const NAMED: [Color; 16] = [
    Color::Black,
    Color::DarkGrey,
    Color::Red,
    Color::DarkRed,
    Color::Green,
    Color::DarkGreen,
    Color::Yellow,
    Color::DarkYellow,
    Color::Blue,
    Color::DarkBlue,
    Color::Magenta,
    Color::DarkMagenta,
    Color::Cyan,
    Color::DarkCyan,
    Color::White,
    Color::Grey,
];

impl ColSpec {
    pub fn color(self) -> Color {
        match self {
            ColSpec::Named(i) => NAMED[i as usize % 16],
            ColSpec::Ansi(v) => Color::AnsiValue(v),
            ColSpec::Rgb(r, g, b) => Color::Rgb { r, g, b },
            ColSpec::Reset => Color::Reset,
        }
    }
}

pub fn col() -> BoxedStrategy<ColSpec> {
    prop_oneof![
        (0..16u8).prop_map(ColSpec::Named),
        any::<u8>().prop_map(ColSpec::Ansi),
        any::<(u8, u8, u8)>().prop_map(|(r, g, b)| ColSpec::Rgb(r, g, b)),
    ]
    .boxed()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default, Serialize, Deserialize)]
pub struct StyleSpec {
    pub fg: Option<ColSpec>,
    pub bg: Option<ColSpec>,
    pub attrs: u16,
}

impl StyleSpec {
    pub fn attributes(self) -> Attributes {
        let mut at = Attributes::default();
        for (i, a) in ATTRIBUTES_SPEC.iter().enumerate() {
            if self.attrs & (1 << i) != 0 {
                at.set(*a);
            }
        }
        at
    }
    pub fn compound(self) -> CompoundStyle {
        CompoundStyle::new(
            self.fg.map(ColSpec::color),
            self.bg.map(ColSpec::color),
            self.attributes(),
        )
    }
}

pub const ATTRIBUTES_SPEC: [Attribute; 10] = [
    Attribute::Bold,
    Attribute::Dim,
    Attribute::Italic,
    Attribute::Underlined,
    Attribute::Reverse,
    Attribute::CrossedOut,
    Attribute::Encircled,
    Attribute::OverLined,
    Attribute::SlowBlink,
    Attribute::RapidBlink,
];

pub fn style() -> BoxedStrategy<StyleSpec> {
    (
        prop::option::weighted(0.6, col()),
        prop::option::weighted(0.5, col()),
        prop_oneof![3 => Just(0u16), 3 => (0..10u16).prop_map(|i| 1 << i), 1 => 0..1024u16],
    )
        .prop_map(|(fg, bg, attrs)| StyleSpec { fg, bg, attrs })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct LineSpec {
    pub style: StyleSpec,
    pub align: u8,
    pub lm: usize,
    pub rm: usize,
}

pub fn align_of(a: u8) -> Alignment {
    match a {
        1 => Alignment::Left,
        2 => Alignment::Center,
        3 => Alignment::Right,
        _ => Alignment::Unspecified,
    }
}

impl LineSpec {
    pub fn line_style(&self) -> LineStyle {
        if (self.align, self.lm, self.rm) == (0, 0, 0) {
            // no margin and no alignment when made from a compound style
            return self.style.compound().into();
        }
        let mut ls = LineStyle::new(self.style.compound(), align_of(self.align));
        if self.lm > 0 {
            ls.left_margin = self.lm;
        }
        if self.rm > 0 {
            ls.right_margin = self.rm;
        }
        ls
    }
}

pub fn line_spec() -> BoxedStrategy<LineSpec> {
    let margin = || prop_oneof![5 => Just(0usize), 2 => 1..4usize, 1 => 0..12usize];
    (style(), prop_oneof![3 => Just(0u8), 4 => 1..4u8], margin(), margin())
        .prop_map(|(style, align, lm, rm)| LineSpec { style, align, lm, rm })
        .boxed()
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub struct CharSpec {
    pub style: StyleSpec,
    pub c: char,
}
impl CharSpec {
    pub fn styled(self) -> StyledChar {
        StyledChar::new(self.style.compound(), self.c)
    }
}

pub fn char_spec() -> BoxedStrategy<CharSpec> {
    (style(), select(&['•', '*', '-', '>', '▐', '―', '│', '·', '+', '◆', 'λ', '='][..]))
        .prop_map(|(style, c)| CharSpec { style, c })
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SkinSpec {
    Preset(u8),
    Custom(Box<CustomSkin>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct CustomSkin {
    pub paragraph: LineSpec,
    pub code_block: LineSpec,
    pub table: LineSpec,
    pub headers: Vec<LineSpec>,
    pub bold: StyleSpec,
    pub italic: StyleSpec,
    pub strikeout: StyleSpec,
    pub inline_code: StyleSpec,
    pub ellipsis: StyleSpec,
    pub bullet: CharSpec,
    pub quote: CharSpec,
    pub rule: CharSpec,
    pub track: CharSpec,
    pub thumb: CharSpec,
    pub border: u8,
    pub block_indent: bool,
}

pub fn skin() -> BoxedStrategy<SkinSpec> {
    let custom = (
        (line_spec(), line_spec(), line_spec()),
        vec(line_spec(), 8),
        (style(), style(), style(), style(), style()),
        (char_spec(), char_spec(), char_spec(), char_spec(), char_spec()),
        0..3u8,
        any::<bool>(),
    )
        .prop_map(|(l, headers, s, c, border, block_indent)| {
            SkinSpec::Custom(Box::new(CustomSkin {
                paragraph: l.0,
                code_block: l.1,
                table: l.2,
                headers,
                bold: s.0,
                italic: s.1,
                strikeout: s.2,
                inline_code: s.3,
                ellipsis: s.4,
                bullet: c.0,
                quote: c.1,
                rule: c.2,
                track: c.3,
                thumb: c.4,
                border,
                block_indent,
            }))
        });
    prop_oneof![
        1 => (0..4u8).prop_map(SkinSpec::Preset),
        4 => custom,
    ]
    .boxed()
}

impl SkinSpec {
    pub fn build(&self) -> MadSkin {
        match self {
            SkinSpec::Preset(0) => MadSkin::default(),
            SkinSpec::Preset(1) => MadSkin::default_dark(),
            SkinSpec::Preset(2) => MadSkin::default_light(),
            SkinSpec::Preset(_) => MadSkin::no_style(),
            SkinSpec::Custom(c) => {
                let mut skin = MadSkin::no_style();
                skin.paragraph = c.paragraph.line_style();
                skin.code_block = c.code_block.line_style();
                skin.table = c.table.line_style();
                for (i, h) in c.headers.iter().enumerate().take(skin.headers.len()) {
                    skin.headers[i] = h.line_style();
                }
                skin.bold = c.bold.compound();
                skin.italic = c.italic.compound();
                skin.strikeout = c.strikeout.compound();
                skin.inline_code = c.inline_code.compound();
                skin.ellipsis = c.ellipsis.compound();
                skin.bullet = c.bullet.styled();
                skin.quote_mark = c.quote.styled();
                skin.horizontal_rule = c.rule.styled();
                skin.scrollbar.track = c.track.styled();
                skin.scrollbar.thumb = c.thumb.styled();
                skin.table_border_chars = match c.border % 3 {
                    0 => STANDARD_TABLE_BORDER_CHARS,
                    1 => ASCII_TABLE_BORDER_CHARS,
                    _ => ROUNDED_TABLE_BORDER_CHARS,
                };
                skin.list_items_indentation_mode = if c.block_indent {
                    ListItemsIndentationMode::Block
                } else {
                    ListItemsIndentationMode::FirstLineOnly
                };
                skin
            }
        }
    }
}

/// any string: used by robustness checks
pub fn wild_string(max: usize) -> BoxedStrategy<String> {
    let c = prop_oneof![
        6 => select(ASCII),
        3 => select(SPECIAL),
        2 => Just(' '),
        1 => Just('\n'),
        1 => Just('\t'),
        2 => select(WIDE),
        2 => select(ZERO),
        1 => select(&['\u{fe0f}', '\u{200d}', '\u{1f3fd}', '\u{1f1eb}', '\u{0}', '\u{8}', '\u{1b}', '\r', '\u{7f}', '\u{ad}', '…', '\u{2028}', '\u{644}', '\u{627}', '☀', '❤', '1', '\u{20e3}'][..]),
        1 => any::<char>(),
    ];
    vec(c, 0..=max).prop_map(to_string).boxed()
}

/// chars displayed as one, whose width (2) isn't the sum of the widths of their chars
pub const SEQUENCES: &[&str] = &[
    "\u{26a0}\u{fe0f}",
    "\u{2764}\u{fe0f}",
    "1\u{fe0f}\u{20e3}",
    "\u{1f469}\u{200d}\u{1f52c}",
    "\u{1f44d}\u{1f3fd}",
    "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}",
];
