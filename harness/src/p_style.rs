//! Styles: parsing and writing of style strings, serialization of skins,
//! recoloring, no style and ascii skins

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        term::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        crossterm::style::{
            Attribute,
            Attributes,
            Color,
        },
        *,
    },
};

fn st_of(cs: &CompoundStyle) -> St {
    St::of(&cs.object_style)
}

// ------------------------------------------------ C18: style strings

fn style_char() -> BoxedStrategy<char> {
    prop_oneof![
        4 => select(&['•', '*', '-', '>', '▐', '―', '│', '·', '+', '◆', 'λ', '=', '#', ',', '.', '"', '\\', '\'', '{', '|'][..]),
        2 => (b'0'..=b'9').prop_map(|b| b as char),
        2 => (b'a'..=b'z').prop_map(|b| b as char),
        1 => (b'A'..=b'Z').prop_map(|b| b as char),
        1 => any::<char>().prop_filter("blank", |c| !c.is_whitespace()),
    ]
    .prop_filter("parenthesis", |c| *c != '(' && *c != ')')
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct WriteCase {
    pub line: LineSpec,
    pub c: char,
}

fn write_case(_tier: Tier) -> BoxedStrategy<WriteCase> {
    let margin = || {
        prop_oneof![4 => Just(0usize), 3 => 0..30usize, 1 => 0..=65535usize, 1 => select(&[255usize, 256, 65534, 65535, 65536, 65537, 131_072, 1_000_000][..])]
    };
    // the default color of the terminal is sometimes explicitly set
    let style = (style(), 0..40u8).prop_map(|(mut s, k)| {
        match k {
            0 => s.fg = Some(ColSpec::Reset),
            1 => s.bg = Some(ColSpec::Reset),
            _ => {}
        }
        s
    });
    (style, 0..4u8, margin(), margin(), style_char())
        .prop_map(|(style, align, lm, rm, c)| WriteCase { line: LineSpec { style, align, lm, rm }, c })
        .boxed()
}

fn check_write(case: &WriteCase) -> CheckResult {
    let mut info = Info::new();
    let spec = case.line.style;
    // compound style
    let s = spec.compound().to_style_tokens_string();
    let back = parse_compound_style(&s).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(st_of(&back), spec.st(), "compound style read from {s:?}");
    // line style
    let s = case.line.line_style().to_style_tokens_string();
    let back = parse_line_style(&s).map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(st_of(&back.compound_style), spec.st(), "style of the line style read from {s:?}");
    ensure_eq!(back.align, align_of(case.line.align), "align read from {s:?}");
    ensure_eq!(
        (back.left_margin, back.right_margin),
        // margins are limited by what can be written
        (case.line.lm.min(65535), case.line.rm.min(65535)),
        "margins read from {s:?}"
    );
    // styled char
    let sc = StyledChar::new(spec.compound(), case.c);
    let s = sc.to_style_tokens_string();
    let back = parse_styled_char(&s, '\u{1}').map_err(|e| format!("{s:?}: {e}"))?;
    ensure_eq!(back.nude_char(), case.c, "char read from {s:?}");
    ensure_eq!(st_of(back.compound_style()), spec.st(), "style of the char read from {s:?}");
    let shown = single_row(&back.to_string());
    if let Ok(row) = shown {
        if char_width(case.c) > 0 {
            ensure!(row.iter().all(|c| c.st == spec.st()), "{back:?} displayed as {row:?}");
        }
    }
    // parts of styles, alone
    use std::fmt;
    struct Shown<T>(T, fn(&mut fmt::Formatter<'_>, T) -> fmt::Result);
    impl<T: Copy> fmt::Display for Shown<T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            self.1(f, self.0)
        }
    }
    let align = align_of(case.line.align);
    let s = Shown(align, write_align).to_string();
    if align == Alignment::Unspecified {
        ensure_eq!(s, "", "unspecified alignment");
    } else {
        ensure_eq!(parse_align(&s).map_err(|e| format!("{s:?}: {e}"))?, align, "align read from {s:?}");
    }
    let cs = spec.compound();
    for color in [cs.get_fg(), cs.get_bg()].into_iter().flatten() {
        let s = Shown(color, write_color).to_string();
        if color == Color::Reset {
            let token = parse_style_token(&s).map_err(|e| format!("{s:?}: {e}"))?;
            ensure!(matches!(token, StyleToken::None), "no color read as {token:?}");
            continue;
        }
        let back = parse_color(&s).map_err(|e| format!("{s:?}: {e}"))?;
        ensure_eq!(color_of(back), color_of(color), "color read from {s:?}");
    }
    for attr in crokey::crossterm::style::Attribute::iterator().filter(|a| cs.object_style.attributes.has(*a)) {
        let s = Shown(attr, write_attribute).to_string();
        let back = parse_attribute(&s).map_err(|e| format!("{s:?}: {e}"))?;
        ensure_eq!(back, attr, "attribute read from {s:?}");
    }
    // the ways to write tokens are the same
    let mut tokens = Vec::new();
    case.line.line_style().push_style_tokens(&mut tokens);
    let mut out: Vec<u8> = Vec::new();
    write_style_tokens(&mut out, &tokens).map_err(|e| e.to_string())?;
    let written = String::from_utf8(out).map_err(|e| e.to_string())?;
    let back = parse_line_style(&written).map_err(|e| format!("{written:?}: {e}"))?;
    ensure_eq!(
        back,
        parse_line_style(&style_tokens_to_string(&tokens)).map_err(|e| e.to_string())?,
        "style read from {written:?}"
    );
    info.hit(spec.fg.is_some() || spec.bg.is_some(), "colors");
    info.hit(spec.attrs != 0, "attributes");
    info.hit(spec.bg.is_some() && spec.fg.is_none(), "background only");
    info.class(case.line.lm > 255, "big margin");
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum TokSpec {
    Named(u8),
    Gray(u8, u8),
    Ansi(u8),
    Rgb(u8, u8, u8, u8),
    Hex(u8, u8, u8),
    ShortHex(u8, u8, u8),
    NoColor,
    Attr(u8, u8),
    Align(u8),
    Dim(u16),
    Char(char),
}

const NAMES: &[(&str, Color)] = &[
    ("blue", Color::Blue),
    ("cyan", Color::Cyan),
    ("darkblue", Color::DarkBlue),
    ("darkcyan", Color::DarkCyan),
    ("darkgreen", Color::DarkGreen),
    ("darkmagenta", Color::DarkMagenta),
    ("darkred", Color::DarkRed),
    ("green", Color::Green),
    ("grey", Color::Grey),
    ("darkgrey", Color::DarkGrey),
    ("magenta", Color::Magenta),
    ("red", Color::Red),
    ("yellow", Color::Yellow),
    ("darkyellow", Color::DarkYellow),
    ("black", Color::AnsiValue(16)),
    ("white", Color::AnsiValue(231)),
];

const ATTR_NAMES: &[(Attribute, &[&str])] = &[
    (Attribute::Bold, &["bold"]),
    (Attribute::CrossedOut, &["crossedout", "crossed-out", "crossed_out", "strikeout"]),
    (Attribute::Dim, &["dim"]),
    (Attribute::Italic, &["italic"]),
    (Attribute::Underlined, &["underlined", "under-lined", "under_lined"]),
    (Attribute::OverLined, &["overlined", "over-lined", "over_lined"]),
    (Attribute::Reverse, &["reverse"]),
    (Attribute::Encircled, &["encircled"]),
    (Attribute::SlowBlink, &["slowblink", "slow-blink", "slow_blink"]),
    (Attribute::RapidBlink, &["rapidblink", "rapid-blink", "rapid_blink"]),
];

impl TokSpec {
    fn token(&self) -> StyleToken {
        match self {
            TokSpec::Named(i) => StyleToken::Color(NAMES[*i as usize % NAMES.len()].1),
            TokSpec::Gray(_, l) => StyleToken::Color(Color::AnsiValue(232 + l)),
            TokSpec::Ansi(n) => StyleToken::Color(Color::AnsiValue(*n)),
            TokSpec::Rgb(r, g, b, _) | TokSpec::Hex(r, g, b) => {
                StyleToken::Color(Color::Rgb { r: *r, g: *g, b: *b })
            }
            TokSpec::ShortHex(r, g, b) => StyleToken::Color(Color::Rgb { r: r * 17, g: g * 17, b: b * 17 }),
            TokSpec::NoColor => StyleToken::None,
            TokSpec::Attr(i, _) => StyleToken::Attribute(ATTR_NAMES[*i as usize % ATTR_NAMES.len()].0),
            TokSpec::Align(a) => StyleToken::Align(align_of(a % 3 + 1)),
            TokSpec::Dim(n) => StyleToken::Dimension(*n),
            TokSpec::Char(c) => StyleToken::Char(*c),
        }
    }
    fn text(&self, case: u8) -> String {
        let s = match self {
            TokSpec::Named(i) => NAMES[*i as usize % NAMES.len()].0.to_string(),
            TokSpec::Gray(v, l) => {
                let name = ["gray", "grey", "grayscale", "greyscale"][*v as usize % 4];
                format!("{name}({l})")
            }
            TokSpec::Ansi(n) => format!("ansi({n})"),
            TokSpec::Rgb(r, g, b, sp) => {
                let sp = ["", " ", "  "][*sp as usize % 3];
                format!("rgb({r},{sp}{g},{sp}{b})")
            }
            TokSpec::Hex(r, g, b) => format!("#{r:02x}{g:02x}{b:02x}"),
            TokSpec::ShortHex(r, g, b) => format!("#{r:x}{g:x}{b:x}"),
            TokSpec::NoColor => "none".to_string(),
            TokSpec::Attr(i, v) => {
                let names = ATTR_NAMES[*i as usize % ATTR_NAMES.len()].1;
                names[*v as usize % names.len()].to_string()
            }
            TokSpec::Align(a) => ["left", "center", "right"][*a as usize % 3].to_string(),
            TokSpec::Dim(n) => n.to_string(),
            TokSpec::Char(c) => return c.to_string(),
        };
        match case % 4 {
            0 | 1 => s,
            2 => s.to_uppercase(),
            _ => {
                let mut cs = s.chars();
                cs.next().map_or(String::new(), |c| c.to_uppercase().collect::<String>() + cs.as_str())
            }
        }
    }
}

fn tok() -> BoxedStrategy<TokSpec> {
    prop_oneof![
        4 => (0..16u8).prop_map(TokSpec::Named),
        2 => (0..4u8, 0..24u8).prop_map(|(v, l)| TokSpec::Gray(v, l)),
        2 => any::<u8>().prop_map(TokSpec::Ansi),
        2 => any::<(u8, u8, u8, u8)>().prop_map(|(r, g, b, s)| TokSpec::Rgb(r, g, b, s)),
        2 => any::<(u8, u8, u8)>().prop_map(|(r, g, b)| TokSpec::Hex(r, g, b)),
        1 => (0..16u8, 0..16u8, 0..16u8).prop_map(|(r, g, b)| TokSpec::ShortHex(r, g, b)),
        2 => Just(TokSpec::NoColor),
        5 => (0..10u8, 0..4u8).prop_map(|(i, v)| TokSpec::Attr(i, v)),
        2 => (0..3u8).prop_map(TokSpec::Align),
        2 => prop_oneof![0..20u16, any::<u16>()].prop_map(TokSpec::Dim),
        2 => style_char().prop_filter("digit", |c| !c.is_ascii_digit()).prop_map(TokSpec::Char),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ParseCase {
    /// token, letter case, following blank
    pub toks: Vec<(TokSpec, u8, u8)>,
    pub lead: u8,
    pub default_char: char,
}

const BLANKS: [&str; 4] = [" ", "  ", "\t", " \n"];

fn parse_case(tier: Tier) -> BoxedStrategy<ParseCase> {
    (vec((tok(), 0..4u8, 0..4u8), 0..tier.pick(8, 16)), 0..6u8, style_char())
        .prop_map(|(toks, lead, default_char)| ParseCase { toks, lead, default_char })
        .boxed()
}

fn string_of(toks: &[(TokSpec, u8, u8)], lead: u8) -> String {
    let mut s = String::new();
    if lead < 4 {
        s.push_str(BLANKS[lead as usize]);
    }
    for (i, (t, case, blank)) in toks.iter().enumerate() {
        s.push_str(&t.text(*case));
        if i + 1 < toks.len() || lead % 2 == 0 {
            s.push_str(BLANKS[*blank as usize % 4]);
        }
    }
    s
}

fn style_of_tokens(tokens: &[StyleToken]) -> (St, Alignment, usize, usize, Option<char>) {
    let mut cs = StCols::default();
    let mut align = Alignment::Unspecified;
    let mut dims: Vec<u16> = Vec::new();
    let mut c = None;
    let mut at = Attributes::default();
    for t in tokens {
        match t {
            StyleToken::Color(col) => cs.push(Some(*col)),
            StyleToken::None => cs.push(None),
            StyleToken::Attribute(a) => at.set(*a),
            StyleToken::Align(a) => align = *a,
            StyleToken::Dimension(n) => dims.push(*n),
            StyleToken::Char(ch) => c = c.or(Some(*ch)),
        }
    }
    let st = st_of(&CompoundStyle::new(cs.fg.flatten(), cs.bg, at));
    let lm = dims.first().copied().unwrap_or(0) as usize;
    // only the last right margin counts
    let rm = dims.get(1..).and_then(|d| d.last()).copied().unwrap_or(0) as usize;
    (st, align, lm, rm, c)
}
#[derive(Default)]
struct StCols {
    fg: Option<Option<Color>>,
    bg: Option<Color>,
}
impl StCols {
    fn push(&mut self, c: Option<Color>) {
        if self.fg.is_none() {
            self.fg = Some(c);
        } else if c.is_some() {
            self.bg = c;
        }
    }
}

fn same_token(a: &StyleToken, b: &StyleToken) -> bool {
    match (a, b) {
        (StyleToken::Color(a), StyleToken::Color(b)) => color_of(*a) == color_of(*b),
        _ => a == b,
    }
}
fn same_tokens(a: &[StyleToken], b: &[StyleToken]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same_token(a, b))
}

fn check_parse(case: &ParseCase) -> CheckResult {
    let mut info = Info::new();
    let s = string_of(&case.toks, case.lead);
    let expected: Vec<StyleToken> = case.toks.iter().map(|t| t.0.token()).collect();
    let got = parse_style_tokens(&s).map_err(|e| format!("{s:?}: {e}"))?;
    ensure!(same_tokens(&got, &expected), "{s:?} read as {got:?} instead of {expected:?}");
    for (t, case, _) in &case.toks {
        let s = t.text(*case);
        let single = parse_style_token(&s).map_err(|e| format!("{s:?}: {e}"))?;
        ensure!(same_token(&single, &t.token()), "token {s:?} read as {single:?}");
        if let StyleToken::Color(c) = t.token() {
            let got = parse_color(&s).map_err(|e| format!("{s:?}: {e}"))?;
            ensure_eq!(color_of(got), color_of(c), "color {s:?}");
        }
    }
    // at most one background and two margins, otherwise the string has no
    // defined meaning
    let nb_cols = expected.iter().filter(|t| matches!(t, StyleToken::Color(_) | StyleToken::None)).count();
    let nb_dims = expected.iter().filter(|t| matches!(t, StyleToken::Dimension(_))).count();
    let nb_aligns = expected.iter().filter(|t| matches!(t, StyleToken::Align(_))).count();
    let nb_chars = expected.iter().filter(|t| matches!(t, StyleToken::Char(_))).count();
    let (st, align, lm, rm, c) = style_of_tokens(&expected);
    if nb_cols <= 2 {
        let cs = parse_compound_style(&s).map_err(|e| format!("{s:?}: {e}"))?;
        ensure_eq!(st_of(&cs), st, "compound style from {s:?}");
        if nb_aligns <= 1 && nb_dims <= 2 {
            let ls = parse_line_style(&s).map_err(|e| format!("{s:?}: {e}"))?;
            ensure_eq!(st_of(&ls.compound_style), st, "style of the line style from {s:?}");
            ensure_eq!((ls.align, ls.left_margin, ls.right_margin), (align, lm, rm), "line style from {s:?}");
            info.hit(nb_dims > 0 || nb_aligns > 0, "line style");
        }
        if nb_chars <= 1 && nb_dims == 0 {
            let sc = parse_styled_char(&s, case.default_char).map_err(|e| format!("{s:?}: {e}"))?;
            ensure_eq!(sc.nude_char(), c.unwrap_or(case.default_char), "char from {s:?}");
            ensure_eq!(st_of(sc.compound_style()), st, "style of the char from {s:?}");
            info.hit(nb_chars > 0, "styled char");
        }
        info.hit(nb_cols == 2, "two colors");
    }
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct InvalidCase {
    pub before: Vec<(TokSpec, u8, u8)>,
    pub bad: String,
    pub after: Vec<(TokSpec, u8, u8)>,
}

fn invalid_case(_tier: Tier) -> BoxedStrategy<InvalidCase> {
    let bad = prop_oneof![
        3 => vec(select(&['z', 'q', 'x', 'w', 'v', 'p', 'j', 'f', 'Z'][..]), 2..9).prop_map(|v| v.into_iter().collect::<String>()),
        3 => (0..200usize, select(&["", "no", "un", "z-", "x", "é"][..]), select(&["", "ed", "ness", "x", "-", ",", ",bold"][..]), 0..4u8)
            .prop_filter("valid", |(_, a, b, _)| !a.is_empty() || !b.is_empty())
            .prop_map(|(i, before, after, case)| {
                // a keyword in a bigger word
                let attrs = ATTR_NAMES.iter().flat_map(|a| a.1.iter().copied());
                let words: Vec<&str> = NAMES
                    .iter()
                    .map(|n| n.0)
                    .chain(attrs)
                    .chain(["none", "left", "center", "right"])
                    .collect();
                let w = words[i % words.len()];
                let w = if case == 0 { w.to_uppercase() } else { w.to_string() };
                format!("{before}{w}{after}")
            }),
        2 => (65536..10_000_000u32).prop_map(|n| n.to_string()),
        2 => (24..=255u16, 0..4usize).prop_map(|(n, v)| format!("{}({n})", ["gray", "grey", "GRAY", "greyscale"][v])),
        1 => (256..9999u16).prop_map(|n| format!("ansi({n})")),
        1 => (256..9999u16, 0..3usize).prop_map(|(n, i)| {
            let mut v = ["1".to_string(), "20".to_string(), "255".to_string()];
            v[i] = n.to_string();
            format!("rgb({})", v.join(","))
        }),
        1 => select(&["rgb(1,2)", "rgb(1,2,3,4)", "#12", "#1", "#gggggg", "#1234567", "ansi(x)", "grey(x)", "hsl(1,2,3)", "lightblue", "reddish", "infrared", "-5"][..]).prop_map(|s| s.to_string()),
    ];
    (
        vec((tok(), 0..4u8, 0..4u8), 0..3),
        bad,
        vec((tok(), 0..4u8, 0..4u8), 0..3),
    )
        .prop_map(|(before, bad, after)| InvalidCase { before, bad, after })
        .boxed()
}

fn check_invalid(case: &InvalidCase) -> CheckResult {
    let mut info = Info::new();
    let s = format!("{} {} {}", string_of(&case.before, 4), case.bad, string_of(&case.after, 4));
    let too_gray = case
        .bad
        .to_lowercase()
        .strip_prefix("gr")
        .and_then(|s| s.split_once('('))
        .and_then(|(_, n)| n.strip_suffix(')').and_then(|n| n.parse::<u8>().ok()));
    match parse_style_tokens(&s) {
        Ok(tokens) => return Err(format!("{s:?} read as {tokens:?}")),
        Err(ParseStyleTokenError::Unrecognized(t)) => {
            ensure_eq!(t, case.bad, "faulty token told for {s:?}");
            ensure!(too_gray.is_none(), "too high gray level not told for {s:?}");
        }
        Err(ParseStyleTokenError::InvalidColor(ParseColorError::InvalidGreyLevel { level })) => {
            ensure_eq!(Some(level), too_gray, "level told for {s:?}");
            info.class(true, "invalid gray level");
        }
        Err(e) => return Err(format!("unexpected error {e:?} for {s:?}")),
    }
    ensure!(parse_compound_style(&s).is_err(), "compound style read from {s:?}");
    ensure!(parse_line_style(&s).is_err(), "line style read from {s:?}");
    ensure!(parse_styled_char(&s, '*').is_err(), "styled char read from {s:?}");
    info.hit(true, "rejected");
    Ok(info)
}

fn wild_case(_tier: Tier) -> BoxedStrategy<String> {
    vec(
        prop_oneof![
            3 => (tok(), 0..4u8).prop_map(|(t, c)| t.text(c)),
            2 => select(&[" ", "  ", "(", ")", "\t", "#", ",", "none", "rgb(", "gray(", "é", "\u{a0}"][..]).prop_map(|s| s.to_string()),
            1 => wild_string(6),
        ],
        0..8,
    )
    .prop_map(|v| v.concat())
    .boxed()
}

fn check_wild(s: &String) -> CheckResult {
    let mut info = Info::new();
    let _ = parse_color(s);
    let _ = parse_attribute(s);
    let _ = parse_align(s);
    let _ = parse_line_style(s);
    let _ = parse_styled_char(s, '*');
    let _ = parse_style_token(s);
    if let Ok(tokens) = parse_style_tokens(s) {
        let written = style_tokens_to_string(&tokens);
        let back = parse_style_tokens(&written).map_err(|e| format!("{s:?} read as {tokens:?}, written {written:?}: {e}"))?;
        ensure!(
            same_tokens(&back, &tokens),
            "{s:?} read as {tokens:?}, written {written:?}, read as {back:?}"
        );
        info.hit(!tokens.is_empty(), "valid");
    }
    Ok(info)
}

// ------------------------------------------------ C19: skin serialization

type Sig = Vec<(String, String)>;

fn line_sig(ls: &LineStyle) -> String {
    format!("{:?} {:?} {} {}", st_of(&ls.compound_style), ls.align, ls.left_margin, ls.right_margin)
}
fn char_sig(sc: &StyledChar) -> String {
    let shown = match single_row(&sc.to_string()) {
        Ok(row) => format!("{row:?}"),
        Err(e) => e,
    };
    format!("{:?} {:?} {shown}", sc.nude_char(), st_of(sc.compound_style()))
}
/// all the parts of a skin
fn skin_sig(skin: &MadSkin) -> Sig {
    let mut v: Sig = vec![
        ("paragraph".into(), line_sig(&skin.paragraph)),
        ("code_block".into(), line_sig(&skin.code_block)),
        ("table".into(), line_sig(&skin.table)),
        ("bold".into(), format!("{:?}", st_of(&skin.bold))),
        ("italic".into(), format!("{:?}", st_of(&skin.italic))),
        ("strikeout".into(), format!("{:?}", st_of(&skin.strikeout))),
        ("inline_code".into(), format!("{:?}", st_of(&skin.inline_code))),
        ("ellipsis".into(), format!("{:?}", st_of(&skin.ellipsis))),
        ("bullet".into(), char_sig(&skin.bullet)),
        ("quote".into(), char_sig(&skin.quote_mark)),
        ("horizontal_rule".into(), char_sig(&skin.horizontal_rule)),
        ("scrollbar track".into(), char_sig(&skin.scrollbar.track)),
        ("scrollbar thumb".into(), char_sig(&skin.scrollbar.thumb)),
        ("table_border_chars".into(), format!("{:?}", skin.table_border_chars)),
        ("list_items_indentation_mode".into(), format!("{:?}", skin.list_items_indentation_mode)),
    ];
    for (i, h) in skin.headers.iter().enumerate() {
        v.push((format!("header {}", i + 1), line_sig(h)));
    }
    v
}
fn same_sig(got: &Sig, expected: &Sig, what: &str) -> Result<(), String> {
    for (g, e) in got.iter().zip(expected) {
        ensure_eq!(g, e, "{what}");
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SkinCase {
    pub skin: SkinSpec,
    pub chars: Vec<char>,
    /// bits: same char, same background, same attributes, same foreground,
    /// no background, no attribute
    pub scrollbar: u8,
    /// parts whose foreground, or else background, is the default one of the terminal
    #[serde(default)]
    pub resets: Vec<(u8, bool)>,
}

fn skin_case(_tier: Tier) -> BoxedStrategy<SkinCase> {
    let scrollbar = prop_oneof![2 => Just(0u8), 2 => Just(0b110_001), 4 => 0..64u8, 2 => (0..32u8).prop_map(|b| 2 * b + 1)];
    let resets = prop_oneof![4 => Just(Vec::new()), 1 => vec((0..20u8, any::<bool>()), 1..4)];
    (skin(), vec(style_char(), 5), scrollbar, resets)
        .prop_map(|(mut skin, chars, scrollbar, resets)| {
            if let SkinSpec::Custom(c) = &mut skin {
                c.block_indent = true;
            }
            SkinCase { skin, chars, scrollbar, resets }
        })
        .boxed()
}

fn check_skin_roundtrip(case: &SkinCase) -> CheckResult {
    let mut info = Info::new();
    let mut skin = case.skin.build();
    if let (SkinSpec::Custom(_), &[a, b, c, d, e]) = (&case.skin, &case.chars[..]) {
        skin.bullet.set_char(a);
        skin.quote_mark.set_char(b);
        skin.horizontal_rule.set_char(c);
        skin.scrollbar.track.set_char(d);
        let bit = |i: u8| case.scrollbar >> i & 1 == 1;
        skin.scrollbar.thumb.set_char(if bit(0) { d } else { e });
        if case.scrollbar != 0 {
            let bar = &mut skin.scrollbar;
            let mut track = bar.track.compound_style().clone();
            let mut thumb = bar.thumb.compound_style().clone();
            if bit(1) {
                thumb.object_style.background_color = track.object_style.background_color;
            }
            if bit(2) {
                thumb.object_style.attributes = track.object_style.attributes;
            }
            if bit(3) {
                thumb.object_style.foreground_color = track.object_style.foreground_color;
            }
            for style in [&mut track, &mut thumb] {
                if bit(4) {
                    style.object_style.background_color = None;
                }
                if bit(5) {
                    style.object_style.attributes = Default::default();
                }
            }
            bar.track.set_compound_style(track);
            bar.thumb.set_compound_style(thumb);
        }
        for &(part, fg) in &case.resets {
            let mut styles = vec![
                &mut skin.paragraph.compound_style,
                &mut skin.code_block.compound_style,
                &mut skin.table.compound_style,
                &mut skin.bold,
                &mut skin.italic,
                &mut skin.strikeout,
                &mut skin.inline_code,
                &mut skin.ellipsis,
            ];
            styles.extend(skin.headers.iter_mut().map(|h| &mut h.compound_style));
            let nb = styles.len();
            let s = &mut styles[part as usize % nb];
            if fg {
                s.set_fg(Color::Reset);
            } else {
                s.set_bg(Color::Reset);
            }
            info.class(true, "default color of the terminal");
        }
        info.hit(true, "custom skin");
    }
    let json = serde_json::to_string(&skin).map_err(|e| e.to_string())?;
    let back: MadSkin = serde_json::from_str(&json).map_err(|e| format!("{e} in {json}"))?;
    same_sig(&skin_sig(&back), &skin_sig(&skin), &format!("after a round trip through {json}"))?;
    let json2 = serde_json::to_string(&back).map_err(|e| e.to_string())?;
    if case.resets.is_empty() {
        ensure_eq!(json2, json, "second serialization");
    }
    // the same through a dynamic value
    let value = serde_json::to_value(&skin).map_err(|e| e.to_string())?;
    let back: MadSkin = serde_json::from_value(value).map_err(|e| format!("{e} in {json}"))?;
    same_sig(&skin_sig(&back), &skin_sig(&skin), "after a round trip through a value")?;
    // and for the components
    let ls: LineStyle = serde_json::from_str(&serde_json::to_string(&skin.paragraph).map_err(|e| e.to_string())?)
        .map_err(|e| e.to_string())?;
    ensure_eq!(line_sig(&ls), line_sig(&skin.paragraph), "line style");
    let sc: StyledChar = serde_json::from_str(&serde_json::to_string(&skin.bullet).map_err(|e| e.to_string())?)
        .map_err(|e| e.to_string())?;
    ensure_eq!(char_sig(&sc), char_sig(&skin.bullet), "styled char");
    let cs: CompoundStyle = serde_json::from_str(&serde_json::to_string(&skin.bold).map_err(|e| e.to_string())?)
        .map_err(|e| e.to_string())?;
    ensure_eq!(st_of(&cs), st_of(&skin.bold), "compound style");
    info.class(json.contains("\"track\""), "rich scrollbar");
    info.class(!json.contains("\"track\""), "simple scrollbar");
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum SkinEntry {
    Compound(u8, bool, Vec<(TokSpec, u8, u8)>),
    Char(u8, u8, Vec<(TokSpec, u8, u8)>),
    Line(u8, bool, Vec<(TokSpec, u8, u8)>),
    AllHeaders(Vec<(TokSpec, u8, u8)>),
    Headers(Vec<Vec<(TokSpec, u8, u8)>>),
    Scrollbar(Vec<(TokSpec, u8, u8)>),
    RichScrollbar(Vec<(TokSpec, u8, u8)>, Vec<(TokSpec, u8, u8)>),
    Border(u8, bool),
}

/// at most two colors, one align, two dimensions (0 for a char) and one char
fn clean_toks(for_char: bool) -> BoxedStrategy<Vec<(TokSpec, u8, u8)>> {
    vec((tok(), 0..4u8, 0..3u8), 0..7)
        .prop_map(move |toks| {
            let mut counts = [0; 4];
            toks.into_iter()
                .filter(|(t, _, _)| {
                    let (i, max) = match t.token() {
                        StyleToken::Color(_) | StyleToken::None => (0, 2),
                        StyleToken::Align(_) => (1, 1),
                        StyleToken::Dimension(_) => (2, if for_char { 0 } else { 2 }),
                        StyleToken::Char(_) => (3, 1),
                        StyleToken::Attribute(_) => return true,
                    };
                    counts[i] += 1;
                    counts[i] <= max
                })
                .collect()
        })
        .boxed()
}

fn entries(_tier: Tier) -> BoxedStrategy<Vec<SkinEntry>> {
    vec(
        prop_oneof![
            4 => (0..5u8, any::<bool>(), clean_toks(false)).prop_map(|(k, d, t)| SkinEntry::Compound(k, d, t)),
            3 => (0..3u8, 0..3u8, clean_toks(true)).prop_map(|(k, d, t)| SkinEntry::Char(k, d, t)),
            3 => (0..3u8, any::<bool>(), clean_toks(false)).prop_map(|(k, d, t)| SkinEntry::Line(k, d, t)),
            1 => clean_toks(false).prop_map(SkinEntry::AllHeaders),
            1 => vec(clean_toks(false), 0..11).prop_map(SkinEntry::Headers),
            1 => clean_toks(true).prop_map(SkinEntry::Scrollbar),
            1 => (clean_toks(true), clean_toks(true)).prop_map(|(a, b)| SkinEntry::RichScrollbar(a, b)),
            1 => (0..4u8, any::<bool>()).prop_map(|(b, d)| SkinEntry::Border(b, d)),
        ],
        0..6,
    )
    .boxed()
}

impl SkinEntry {
    fn key(&self) -> &'static str {
        match self {
            SkinEntry::Compound(k, d, _) => match (k % 5, d) {
                (0, _) => "bold",
                (1, _) => "italic",
                (2, _) => "strikeout",
                (3, true) => "inline-code",
                (3, false) => "inline_code",
                _ => "ellipsis",
            },
            SkinEntry::Char(k, d, _) => match (k % 3, d % 3) {
                (0, _) => "bullet",
                (1, 0) => "quote_mark",
                (1, 1) => "quote",
                (1, _) => "quote-mark",
                (_, 0) => "horizontal_rule",
                (_, 1) => "horizontal-rule",
                _ => "rule",
            },
            SkinEntry::Line(k, d, _) => match (k % 3, d) {
                (0, _) => "paragraph",
                (1, true) => "code-block",
                (1, false) => "code_block",
                _ => "table",
            },
            SkinEntry::AllHeaders(_) | SkinEntry::Headers(_) => "headers",
            SkinEntry::Scrollbar(_) | SkinEntry::RichScrollbar(..) => "scrollbar",
            SkinEntry::Border(_, true) => "table-border-chars",
            SkinEntry::Border(_, false) => "table_border_chars",
        }
    }
    fn slot(&self) -> u8 {
        match self {
            SkinEntry::Compound(k, ..) => *k % 5,
            SkinEntry::Char(k, ..) => 10 + *k % 3,
            SkinEntry::Line(k, ..) => 20 + *k % 3,
            SkinEntry::AllHeaders(_) | SkinEntry::Headers(_) => 30,
            SkinEntry::Scrollbar(_) | SkinEntry::RichScrollbar(..) => 40,
            SkinEntry::Border(..) => 50,
        }
    }
    fn value(&self) -> serde_json::Value {
        use serde_json::json;
        match self {
            SkinEntry::Compound(_, _, t)
            | SkinEntry::Char(_, _, t)
            | SkinEntry::Line(_, _, t)
            | SkinEntry::AllHeaders(t)
            | SkinEntry::Scrollbar(t) => json!(string_of(t, 5)),
            SkinEntry::Headers(v) => json!(v.iter().map(|t| string_of(t, 5)).collect::<Vec<_>>()),
            SkinEntry::RichScrollbar(a, b) => json!({"track": string_of(a, 5), "thumb": string_of(b, 5)}),
            SkinEntry::Border(b, _) => json!(["standard", "ascii", "rounded", "unknown"][*b as usize % 4]),
        }
    }
}

fn tokens_of(t: &[(TokSpec, u8, u8)]) -> Vec<StyleToken> {
    t.iter().map(|t| t.0.token()).collect()
}
fn compound_of(tokens: &[StyleToken]) -> CompoundStyle {
    let mut cols = StCols::default();
    let mut cs = CompoundStyle::default();
    for t in tokens {
        match t {
            StyleToken::Color(c) => cols.push(Some(*c)),
            StyleToken::None => cols.push(None),
            StyleToken::Attribute(a) => cs.add_attr(*a),
            _ => {}
        }
    }
    CompoundStyle::new(cols.fg.flatten(), cols.bg, cs.attrs())
}
fn line_of(t: &[(TokSpec, u8, u8)]) -> LineStyle {
    let tokens = tokens_of(t);
    let (_, align, lm, rm, _) = style_of_tokens(&tokens);
    let mut ls = LineStyle::new(compound_of(&tokens), align);
    ls.left_margin = lm;
    ls.right_margin = rm;
    ls
}
fn char_of(t: &[(TokSpec, u8, u8)]) -> StyledChar {
    let tokens = tokens_of(t);
    let (.., c) = style_of_tokens(&tokens);
    StyledChar::new(compound_of(&tokens), c.unwrap_or('*'))
}

fn check_entries(case: &Vec<SkinEntry>) -> CheckResult {
    let mut info = Info::new();
    let mut slots = Vec::new();
    let mut parts = Vec::new();
    let mut expected = MadSkin::default();
    for e in case {
        if slots.contains(&e.slot()) {
            continue;
        }
        slots.push(e.slot());
        parts.push(format!("{}:{}", serde_json::json!(e.key()), e.value()));
        match e {
            SkinEntry::Compound(k, _, t) => {
                let cs = compound_of(&tokens_of(t));
                *[
                    &mut expected.bold,
                    &mut expected.italic,
                    &mut expected.strikeout,
                    &mut expected.inline_code,
                    &mut expected.ellipsis,
                ][*k as usize % 5] = cs;
            }
            SkinEntry::Char(k, _, t) => {
                *[&mut expected.bullet, &mut expected.quote_mark, &mut expected.horizontal_rule]
                    [*k as usize % 3] = char_of(t);
            }
            SkinEntry::Line(k, _, t) => {
                *[&mut expected.paragraph, &mut expected.code_block, &mut expected.table][*k as usize % 3] =
                    line_of(t);
            }
            SkinEntry::AllHeaders(t) => {
                let ls = line_of(t);
                for h in &mut expected.headers {
                    // added to the default style (whose margins are kept)
                    if let Some(fg) = ls.compound_style.get_fg() {
                        h.set_fg(fg);
                    }
                    if let Some(bg) = ls.compound_style.get_bg() {
                        h.set_bg(bg);
                    }
                    for a in ATTRIBUTES_SPEC {
                        if ls.compound_style.has_attr(a) {
                            h.add_attr(a);
                        }
                    }
                    if ls.align != Alignment::Unspecified {
                        h.align = ls.align;
                    }
                }
            }
            SkinEntry::Headers(v) => {
                for (h, t) in expected.headers.iter_mut().zip(v) {
                    *h = line_of(t);
                }
            }
            SkinEntry::Scrollbar(t) => {
                let sc = char_of(t);
                expected.scrollbar = ScrollBarStyle {
                    track: StyledChar::from_fg_char(sc.get_bg().unwrap_or(gray(5)), sc.nude_char()),
                    thumb: StyledChar::from_fg_char(sc.get_fg().unwrap_or(gray(21)), sc.nude_char()),
                };
            }
            SkinEntry::RichScrollbar(a, b) => {
                expected.scrollbar = ScrollBarStyle { track: char_of(a), thumb: char_of(b) };
            }
            SkinEntry::Border(b, _) => {
                expected.table_border_chars = match b % 4 {
                    1 => ASCII_TABLE_BORDER_CHARS,
                    2 => ROUNDED_TABLE_BORDER_CHARS,
                    _ => STANDARD_TABLE_BORDER_CHARS,
                };
            }
        }
    }
    let json = format!("{{{}}}", parts.join(","));
    let skin: MadSkin = serde_json::from_str(&json).map_err(|e| format!("{e} in {json}"))?;
    same_sig(&skin_sig(&skin), &skin_sig(&expected), &format!("skin read from {json}"))?;
    info.hit(slots.len() > 1, "several entries");
    Ok(info)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BadSkinCase {
    pub entries: Vec<SkinEntry>,
    /// the bad one
    pub entry: SkinEntry,
    pub rank: usize,
    pub bad: u8,
    pub place: usize,
}

fn bad_skin_case(tier: Tier) -> BoxedStrategy<BadSkinCase> {
    (entries(tier), entries(tier), 0..6usize, any::<u8>(), 0..8usize)
        .prop_filter_map("one entry", |(entries, mut one, rank, bad, place)| {
            Some(BadSkinCase { entries, entry: one.pop()?, rank, bad, place })
        })
        .boxed()
}

/// a bad entry makes the skin rejected, without panic
fn check_bad_skin(case: &BadSkinCase) -> CheckResult {
    use serde_json::json;
    let mut info = Info::new();
    let good = case.entry.value();
    // a wrong token anywhere in a style
    let spoil = |s: &str| {
        let bad = ["nocolor", "#1234567", "rgb(1,2)", "lefty", "ansi(x)", "ab"][case.bad as usize % 6];
        let mut tokens: Vec<&str> = s.split(' ').filter(|t| !t.is_empty()).collect();
        tokens.insert(case.place % (tokens.len() + 1), bad);
        tokens.join(" ")
    };
    let bad = match (&good, case.bad / 6 % 4) {
        (serde_json::Value::String(s), 0 | 1) if !matches!(case.entry, SkinEntry::Border(..)) => json!(spoil(s)),
        (serde_json::Value::Array(v), 0 | 1) if !v.is_empty() => {
            let mut v: Vec<serde_json::Value> = v.clone();
            let i = case.place % v.len();
            v[i] = json!(spoil(v[i].as_str().unwrap_or("")));
            json!(v)
        }
        (serde_json::Value::Object(o), 0..=2) => {
            let mut o = o.clone();
            match case.bad / 6 % 4 {
                0 => o["track"] = json!(spoil(o["track"].as_str().unwrap_or(""))),
                1 => o["thumb"] = json!(spoil(o["thumb"].as_str().unwrap_or(""))),
                _ => {
                    o.remove(if case.place % 2 == 0 { "track" } else { "thumb" });
                }
            }
            json!(o)
        }
        _ => match case.bad % 4 {
            0 => json!(case.place),
            1 => json!(null),
            2 => json!(true),
            _ => json!(1.5),
        },
    };
    let mut parts: Vec<String> =
        case.entries.iter().map(|e| format!("{}:{}", json!(e.key()), e.value())).collect();
    let good_parts = parts.clone();
    let rank = case.rank % (parts.len() + 1);
    parts.insert(rank, format!("{}:{bad}", json!(case.entry.key())));
    let json = format!("{{{}}}", parts.join(","));
    if let Ok(skin) = serde_json::from_str::<MadSkin>(&json) {
        return Err(format!("accepted: {json}, read as {skin:?}"));
    }
    // while it's the only bad one
    let json = format!("{{{}}}", good_parts.join(","));
    serde_json::from_str::<MadSkin>(&json).map_err(|e| format!("{e} in {json}"))?;
    // and what's cut is not a skin
    let mut end = json.len() * case.place / 8;
    while !json.is_char_boundary(end) {
        end -= 1;
    }
    ensure!(serde_json::from_str::<MadSkin>(&json[..end]).is_err(), "accepted: {:?}", &json[..end]);
    info.hit(!case.entries.is_empty(), "bad entry among good ones");
    Ok(info)
}

// ------------------------------------------------ C21: no style, ascii

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PlainCase {
    pub md: String,
    pub skin: SkinSpec,
    pub width: Option<usize>,
}

/// the skin with all styles (but no layout information) removed
fn plain_skin(skin: &MadSkin) -> MadSkin {
    fn strip(ls: &LineStyle) -> LineStyle {
        LineStyle {
            compound_style: CompoundStyle::default(),
            ..ls.clone()
        }
    }
    let mut plain = MadSkin::no_style();
    plain.paragraph = strip(&skin.paragraph);
    plain.code_block = strip(&skin.code_block);
    plain.table = strip(&skin.table);
    for (p, s) in plain.headers.iter_mut().zip(&skin.headers) {
        *p = strip(s);
    }
    plain.bullet.set_char(skin.bullet.nude_char());
    plain.quote_mark.set_char(skin.quote_mark.nude_char());
    plain.horizontal_rule.set_char(skin.horizontal_rule.nude_char());
    plain.table_border_chars = skin.table_border_chars;
    plain.list_items_indentation_mode = skin.list_items_indentation_mode;
    plain
}

fn plain_case(tier: Tier) -> BoxedStrategy<PlainCase> {
    (
        prop_oneof![3 => doc(tier, tier.pick(8, 20)), 1 => line_md()],
        skin(),
        prop::option::weighted(0.85, width(3)),
    )
        .prop_map(|(md, skin, width)| PlainCase { md, skin, width })
        .boxed()
}

fn check_no_style(case: &PlainCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let plain = plain_skin(&skin);
    let styled = skin.text(&case.md, case.width).to_string();
    for (skin, what) in [(&plain, "skin without style"), (&MadSkin::no_style(), "no_style")] {
        let s = skin.text(&case.md, case.width).to_string();
        ensure!(!s.contains('\u{1b}'), "escape sequence in the text with the {what}: {s:?}");
        let first_line = case.md.lines().next().unwrap_or("");
        let s = skin.inline(first_line).to_string();
        ensure!(!s.contains('\u{1b}') || first_line.contains('\u{1b}'), "escape sequence in the inline with the {what}: {s:?}");
        let mut out: Vec<u8> = Vec::new();
        skin.write_text_on(&mut out, &case.md).map_err(|e| e.to_string())?;
        ensure!(!out.contains(&0x1b), "escape sequence written by write_text_on with the {what}");
    }
    let unstyled = plain.text(&case.md, case.width).to_string();
    let texts = |s: &str| -> Result<Vec<String>, String> { Ok(rows(s)?.iter().map(|r| row_text(r)).collect()) };
    ensure_eq!(texts(&unstyled)?, texts(&styled)?, "text without the styles (width {:?})", case.width);
    info.hit(styled.contains('\u{1b}'), "text with styles");
    Ok(info)
}

fn ascii_of(skin: &MadSkin, c: char) -> Vec<char> {
    let t = skin.table_border_chars;
    let a = ASCII_TABLE_BORDER_CHARS;
    let mut v = vec![c];
    for (from, to) in [
        (t.horizontal, a.horizontal),
        (t.vertical, a.vertical),
        (t.top_left_corner, a.top_left_corner),
        (t.top_right_corner, a.top_right_corner),
        (t.bottom_right_corner, a.bottom_right_corner),
        (t.bottom_left_corner, a.bottom_left_corner),
        (t.top_junction, a.top_junction),
        (t.right_junction, a.right_junction),
        (t.bottom_junction, a.bottom_junction),
        (t.left_junction, a.left_junction),
        (t.cross, a.cross),
        (skin.bullet.nude_char(), '*'),
        (skin.quote_mark.nude_char(), '>'),
        (skin.horizontal_rule.nude_char(), '-'),
    ] {
        if from == c {
            v.push(to);
        }
    }
    v
}

fn check_ascii(case: &PlainCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let mut ascii = skin.clone();
    ascii.limit_to_ascii();
    let md: String = case.md.chars().map(|c| if c.is_ascii() { c } else { 'x' }).collect();
    let full = rows(&skin.text(&md, case.width).to_string())?;
    let limited_str = ascii.text(&md, case.width).to_string();
    ensure!(limited_str.is_ascii(), "not ascii: {limited_str:?} from {md:?} (width {:?})", case.width);
    let inline = ascii.inline(&md.replace('\n', " ")).to_string();
    ensure!(inline.is_ascii(), "not ascii: {inline:?}");
    let limited = rows(&limited_str)?;
    ensure_eq!(limited.len(), full.len(), "number of rows");
    let mut replaced = false;
    for (l, f) in limited.iter().zip(&full) {
        ensure_eq!(l.len(), f.len(), "length of row {:?} for {:?}", row_text(l), row_text(f));
        for (l, f) in l.iter().zip(f) {
            ensure!(
                l.st == f.st && ascii_of(&skin, f.c).contains(&l.c),
                "{f:?} replaced by {l:?} when limited to ascii (width {:?})", case.width
            );
            replaced |= l.c != f.c;
        }
    }
    info.hit(replaced, "chars replaced");
    Ok(info)
}

// ------------------------------------------------ C22: recoloring

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Recolor {
    Fg(ColSpec),
    Bg(ColSpec),
    HeadersFg(ColSpec),
    HeadersBg(ColSpec),
    GlobalBg(ColSpec),
    Blend(ColSpec, u16),
    Overwrite(StyleSpec, StyleSpec),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RecolorCase {
    pub skin: SkinSpec,
    #[serde(default)]
    pub specials: Vec<CharSpec>,
    pub ops: Vec<Recolor>,
    pub md: String,
    pub width: usize,
}

fn recolor_case(tier: Tier) -> BoxedStrategy<RecolorCase> {
    (
        skin(),
        vec(
            prop_oneof![
                3 => col().prop_map(Recolor::Fg),
                3 => col().prop_map(Recolor::Bg),
                2 => col().prop_map(Recolor::HeadersFg),
                2 => col().prop_map(Recolor::HeadersBg),
                2 => col().prop_map(Recolor::GlobalBg),
                4 => (col(), prop_oneof![0..=100u16, Just(0u16), Just(100u16)]).prop_map(|(c, w)| Recolor::Blend(c, w)),
                1 => (style(), style()).prop_map(|(a, b)| Recolor::Overwrite(a, b)),
            ],
            1..4,
        ),
        doc(tier, 4),
        width(8),
        prop_oneof![2 => Just(Vec::new()), 1 => vec(char_spec(), 1..4)],
    )
        .prop_map(|(skin, ops, md, width, specials)| RecolorCase { skin, specials, ops, md, width })
        .boxed()
}

const SPECIAL_KEYS: [&str; 3] = ["w", "W", "~"];

/// the named parts of a skin, with what's displayed, without the layout
fn part_styles(skin: &MadSkin) -> Vec<(String, St)> {
    let c = |sc: &StyledChar| {
        // what's really displayed
        single_row(&sc.to_string()).ok().and_then(|r| r.first().map(|c| c.st)).unwrap_or_default()
    };
    let mut v = vec![
        ("paragraph".to_string(), st_of(&skin.paragraph.compound_style)),
        ("code_block".to_string(), st_of(&skin.code_block.compound_style)),
        ("table".to_string(), st_of(&skin.table.compound_style)),
        ("bold".to_string(), st_of(&skin.bold)),
        ("italic".to_string(), st_of(&skin.italic)),
        ("strikeout".to_string(), st_of(&skin.strikeout)),
        ("inline_code".to_string(), st_of(&skin.inline_code)),
        ("ellipsis".to_string(), st_of(&skin.ellipsis)),
        ("bullet".to_string(), c(&skin.bullet)),
        ("quote".to_string(), c(&skin.quote_mark)),
        ("rule".to_string(), c(&skin.horizontal_rule)),
        ("track".to_string(), c(&skin.scrollbar.track)),
        ("thumb".to_string(), c(&skin.scrollbar.thumb)),
    ];
    for h in &skin.headers {
        v.push(("header".to_string(), st_of(&h.compound_style)));
    }
    for key in SPECIAL_KEYS {
        if let Some(sc) = skin.special_chars.get(&minimad::Compound::raw_str(key)) {
            v.push(("special".to_string(), c(sc)));
        }
    }
    v
}
/// everything which isn't a color
fn layout_sig(skin: &MadSkin) -> String {
    let ls = |l: &LineStyle| format!("{:?} {} {} {:?}", l.align, l.left_margin, l.right_margin, st_of(&l.compound_style).at);
    let sc = |s: &StyledChar| format!("{} {:?}", s.nude_char(), st_of(s.compound_style()).at);
    let mut s = format!(
        "{} {} {} {} {} {} {} {} {:?} {:?}",
        ls(&skin.paragraph), ls(&skin.code_block), ls(&skin.table), sc(&skin.bullet), sc(&skin.quote_mark),
        sc(&skin.horizontal_rule), sc(&skin.scrollbar.track), sc(&skin.scrollbar.thumb),
        skin.table_border_chars, skin.list_items_indentation_mode,
    );
    for h in &skin.headers {
        s.push_str(&ls(h));
    }
    for key in SPECIAL_KEYS {
        if let Some(c) = skin.special_chars.get(&minimad::Compound::raw_str(key)) {
            s.push_str(&sc(c));
        }
    }
    for c in [&skin.bold, &skin.italic, &skin.strikeout, &skin.inline_code, &skin.ellipsis] {
        s.push_str(&format!("{:?}", st_of(c).at));
    }
    s
}

fn near(a: Option<Col>, b: Color) -> bool {
    match (a, color_of(b)) {
        (Some(Col::Rgb(r, g, b)), Some(Col::Rgb(r2, g2, b2))) => {
            r.abs_diff(r2) <= 3 && g.abs_diff(g2) <= 3 && b.abs_diff(b2) <= 3
        }
        (a, b) => a == b,
    }
}
fn blended(c: Option<Col>, dest: Color, w: f32) -> Option<Color> {
    let src: coolor::Color = match c? {
        Col::Idx(i) => Color::AnsiValue(i).into(),
        Col::Rgb(r, g, b) => Color::Rgb { r, g, b }.into(),
    };
    let dest: coolor::Color = dest.into();
    Some(coolor::Color::blend(src, 1.0 - w, dest, w).into())
}

fn check_recolor(case: &RecolorCase) -> CheckResult {
    let mut info = Info::new();
    let mut skin = case.skin.build();
    for (key, cs) in SPECIAL_KEYS.iter().zip(&case.specials) {
        skin.special_chars.insert(minimad::Compound::raw_str(key), cs.styled());
    }
    info.class(!skin.special_chars.is_empty(), "special chars");
    for (step, op) in case.ops.iter().enumerate() {
        let before = part_styles(&skin);
        let layout = layout_sig(&skin);
        match op {
            Recolor::Fg(c) => skin.set_fg(c.color()),
            Recolor::Bg(c) => skin.set_bg(c.color()),
            Recolor::HeadersFg(c) => skin.set_headers_fg(c.color()),
            Recolor::HeadersBg(c) => skin.set_headers_bg(c.color()),
            Recolor::GlobalBg(c) => skin.set_global_bg(c.color()),
            Recolor::Blend(c, w) => skin.blend_with(c.color(), f32::from(*w) / 100.0),
            Recolor::Overwrite(a, b) => {
                let mut cs = a.compound();
                cs.overwrite_with(&b.compound());
                ensure_eq!(st_of(&cs), a.st().over(b.st()), "{a:?} overwritten with {b:?}");
            }
        }
        ensure_eq!(layout_sig(&skin), layout, "not color related part of the skin, changed by step {step} {op:?}");
        let after = part_styles(&skin);
        for ((name, was), (_, is)) in before.iter().zip(&after) {
            let name = name.as_str();
            let text = matches!(
                name,
                "paragraph" | "bold" | "italic" | "strikeout" | "header" | "bullet" | "quote" | "rule" | "ellipsis" | "special"
            );
            let expected = match op {
                Recolor::Fg(c) if text => St { fg: color_of(c.color()), ..*was },
                Recolor::Bg(c) if text || matches!(name, "table" | "track" | "thumb") => {
                    St { bg: color_of(c.color()), ..*was }
                }
                Recolor::HeadersFg(c) if name == "header" => St { fg: color_of(c.color()), ..*was },
                Recolor::HeadersBg(c) if name == "header" => St { bg: color_of(c.color()), ..*was },
                Recolor::GlobalBg(c) if matches!(name, "header" | "paragraph" | "rule") => {
                    St { bg: color_of(c.color()), ..*was }
                }
                Recolor::Blend(c, w) if *w > 0 && !matches!(name, "track" | "thumb" | "special") => {
                    let w = f32::from(*w) / 100.0;
                    for (is, was, what) in [(is.fg, was.fg, "foreground"), (is.bg, was.bg, "background")] {
                        match blended(was, c.color(), w) {
                            Some(e) => ensure!(
                                near(is, e),
                                "{what} of {name} is {is:?} instead of {e:?} when {was:?} is blended at step {step} {op:?}"
                            ),
                            None => ensure!(is.is_none(), "{what} of {name} became {is:?} at step {step} {op:?}"),
                        }
                    }
                    info.hit(was.bg.is_some(), "background blended");
                    continue;
                }
                // a weight of 0 lets the skin unchanged
                _ => *was,
            };
            ensure_eq!(*is, expected, "style of {name} after step {step} {op:?}");
        }
        info.hit(before != after, "skin changed");
    }
    // after set_bg, all what isn't code is on this background
    if let Some(Recolor::Bg(c)) = case.ops.last() {
        let mut skin = skin.clone();
        let code_bg = Color::Rgb { r: 1, g: 2, b: 3 };
        skin.code_block.set_bg(code_bg);
        skin.inline_code.set_bg(code_bg);
        let bg = color_of(c.color());
        let area = Area::new(0, 0, case.width as u16, 30);
        let text = skin.area_text(&case.md, &area);
        let view = TextView::from(&area, &text);
        let mut out: Vec<u8> = Vec::new();
        view.write_on(&mut out).map_err(|e| e.to_string())?;
        let mut grid = Grid::new(case.width.max(1) + 2, 32);
        if grid.feed_bytes(&out).is_ok() {
            for cell in grid.cells.iter().filter(|c| c.s.is_some()) {
                ensure!(
                    cell.st.bg == bg || cell.st.bg == color_of(code_bg),
                    "cell {cell:?} displayed without the background {bg:?} set with set_bg"
                );
            }
            info.class(true, "rendered on a background");
        }
    }
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C18",
            rule: "there are several tokens, or colors or attributes; or the string is rejected",
            assumptions: &[
                "attributes are the ones of termimad::ATTRIBUTES (when written)",
                "chars which can't be tokens (blanks, parentheses) are excluded (known findings)",
                "colors are compared by what they display: Black is ansi(0)",
                "no more than two colors, two margins, one alignment and one char when a meaning is checked",
            ],
            max_threads: 8,
            parts: vec![
                part("write", 200_000, 4_000_000, write_case, check_write),
                part("parse", 100_000, 2_000_000, parse_case, check_parse),
                part("invalid", 50_000, 1_000_000, invalid_case, check_invalid),
                part("wild", 200_000, 4_000_000, wild_case, check_wild),
            ],
        },
        Property {
            id: "C19",
            rule: "the skin isn't a predefined one, or the map has several entries",
            assumptions: &[
                "special chars and border chars which aren't predefined aren't serializable",
                "the indentation mode of list items isn't serialized (known finding)",
            ],
            max_threads: 8,
            parts: vec![
                part("roundtrip", 60_000, 400_000, skin_case, check_skin_roundtrip),
                part("entries", 120_000, 800_000, entries, check_entries),
                part("bad-entry", 60_000, 400_000, bad_skin_case, check_bad_skin),
            ],
        },
        Property {
            id: "C21",
            rule: "styles are removed, or chars are replaced",
            assumptions: &["texts and inlines only: the scrollbar of a view without style isn't made of ASCII"],
            max_threads: 8,
            parts: vec![
                part("no-style", 30_000, 1_000_000, plain_case, check_no_style),
                part("ascii", 30_000, 1_000_000, plain_case, check_ascii),
            ],
        },
        Property {
            id: "C22",
            rule: "the skin is changed",
            assumptions: &["the scrollbar isn't concerned by blending", "colors are blended with the coolor crate, with a tolerance of 3 per component"],
            max_threads: 8,
            parts: vec![part("recolor", 200_000, 1_000_000, recolor_case, check_recolor)],
        },
    ]
}
