//! What is printed: templates, printing functions, questions

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
        model::*,
        term::*,
        worker::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
        strategy::BoxedStrategy,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    termimad::{
        minimad::{
            Composite,
            Compound,
            OwningTemplateExpander,
            TextTemplate,
        },
        *,
    },
};

// ------------------------------------------------ C20: inline templates

/// a value to put in a template
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Val {
    Str(String),
    Char(char),
    Int(i64),
    Bool(bool),
}
impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::Str(s) => write!(f, "{s}"),
            Val::Char(c) => write!(f, "{c}"),
            Val::Int(i) => write!(f, "{i}"),
            Val::Bool(b) => write!(f, "{b}"),
        }
    }
}

fn value() -> BoxedStrategy<Val> {
    prop_oneof![
        3 => sentence(4).prop_map(Val::Str),
        2 => inline_md(3).prop_map(Val::Str),
        2 => vec(
            select(&["*", "**", "`", "~~", "$0", "$1", "${x}", " ", "a", "π", "日", "|", "# ", "> ", "* ", "\\", "é"][..]),
            0..8,
        ).prop_map(|v| Val::Str(v.concat())),
        1 => select(&['*', '`', '$', 'x', '日', ' ', '|'][..]).prop_map(Val::Char),
        1 => any::<i64>().prop_map(Val::Int),
        1 => any::<bool>().prop_map(Val::Bool),
    ]
    .prop_map(|v| {
        // the ellipsis has its own style, and these values are shown on one line
        let s = v.to_string();
        if s.contains('…') || s.chars().any(|c| c.is_control()) {
            Val::Str(s.chars().filter(|c| *c != '…' && !c.is_control()).collect())
        } else {
            v
        }
    })
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct InlineTplCase {
    pub skin: SkinSpec,
    pub template: u8,
    pub values: Vec<Val>,
}

fn inline_tpl_case(_tier: Tier) -> BoxedStrategy<InlineTplCase> {
    (skin(), 0..TEMPLATES.len() as u8, vec(value(), 10))
        .prop_map(|(skin, template, values)| InlineTplCase { skin, template, values })
        .boxed()
}

enum P {
    /// style letters, literal text
    L(&'static str, &'static str),
    /// style letters, argument
    A(&'static str, usize),
}
use P::*;

/// what the templates below are made of, and how many arguments they're given
static TEMPLATES: &[(&[P], usize)] = &[
    (&[A("b", 0), L("b", " formula:"), L("", " "), A("i", 1)], 2),
    (&[A("", 0)], 1),
    (&[L("", "["), A("", 0), L("", "] ")], 1),
    (&[L("", "["), A("b", 0), L("", "] ")], 1),
    (&[A("c", 0), L("", " "), A("s", 1), L("", " "), A("", 2), L("", " and "), A("bi", 0)], 3),
    (&[L("", "a"), A("", 1), L("", "b"), A("", 0), L("", "c")], 2),
    (&[A("", 9), L("", " "), A("", 0), L("", " "), A("b", 5), L("", " "), A("", 1), A("", 1)], 10),
    (&[L("", "no arg "), L("i", "x")], 0),
    (&[L("", "too few: "), A("", 0), L("", " "), L("b", "$1"), L("", " $2")], 1),
    (&[L("", "price: 3$ "), A("s", 0), L("", " $x $")], 3),
    (&[L("", "π "), A("i", 1), L("i", " 日本 "), A("i", 0), L("i", "é")], 2),
];

fn run_template(n: u8, skin: &MadSkin, v: &[Val]) -> Result<(Vec<u8>, String), String> {
    let mut w: Vec<u8> = Vec::new();
    macro_rules! both {
        ($md: literal $(, $i: expr)*) => {{
            mad_write_inline!(&mut w, skin, $md $(, v[$i])*).map_err(|e| e.to_string())?;
            capture(|| mad_print_inline!(skin, $md $(, v[$i])*))?.1
        }};
    }
    let printed = match n {
        0 => both!("**$0 formula:** *$1*", 0, 1),
        1 => both!("$0", 0),
        2 => both!("[$0] ", 0),
        3 => both!("[**$0**] ", 0),
        4 => both!("`$0` ~~$1~~ $2 and ***$0***", 0, 1, 2),
        5 => both!("a$1b$0c", 0, 1),
        6 => both!("$9 $0 **$5** $1$1", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9),
        7 => both!("no arg *x*"),
        8 => both!("too few: $0 **$1** $2", 0),
        9 => both!("price: 3$ ~~$0~~ $x $", 0, 1, 2),
        _ => both!("π *$1 日本 $0é*", 0, 1),
    };
    Ok((w, printed))
}

fn check_inline_tpl(case: &InlineTplCase) -> CheckResult {
    in_worker("inline-template", case)
}
pub fn inline_tpl_in_worker(case: &InlineTplCase, _tty: &Tty) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let model = Model::of(&case.skin, &skin);
    let n = case.template % TEMPLATES.len() as u8;
    let (pieces, args) = TEMPLATES[n as usize];
    let values: Vec<String> = case.values.iter().map(|v| v.to_string()).collect();
    let mut expected = vec![model.space(); model.para.lm];
    for p in pieces {
        let (flags, s) = match p {
            L(flags, s) => (*flags, s.to_string()),
            A(flags, i) if *i < args => (*flags, values[*i].clone()),
            A(flags, i) => (*flags, format!("${i}")),
        };
        let mut compound = Compound::raw_str(&s);
        compound.bold = flags.contains('b');
        compound.italic = flags.contains('i');
        compound.code = flags.contains('c');
        compound.strikeout = flags.contains('s');
        for s in model.src(CompositeKind::Paragraph, &[compound]) {
            expected.push(Sc { c: s.c, w: s.w, st: s.st });
        }
    }
    let (written, printed) = run_template(n, &skin, &case.values)?;
    let written = String::from_utf8(written).map_err(|e| e.to_string())?;
    let row = single_row(&written)?;
    ensure!(row == expected, "mad_write_inline wrote {row:?} instead of {expected:?} (template {n}, values {values:?})");
    let row = single_row(&printed)?;
    ensure!(row == expected, "mad_print_inline printed {row:?} instead of {expected:?} (template {n}, values {values:?})");
    info.hit(
        values.iter().take(args).any(|v| v.contains(['*', '`', '~', '$'])),
        "value with markdown",
    );
    info.hit(values.iter().take(args).any(|v| v.is_empty()), "empty value");
    info.class(args > 1, "several values");
    Ok(info)
}

// ------------------------------------------------ C20: text templates

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Fill {
    Set(u8, String),
    SetMd(u8, String),
    SetLines(u8, String),
    SetLinesMd(u8, String),
    Sub(Vec<(u8, String, bool)>),
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TextTplCase {
    pub skin: SkinSpec,
    /// lines of the template. `@0`..`@3` are the arguments
    pub lines: Vec<String>,
    /// lines of the sub-template, with arguments `@0`..`@3`
    pub sub: Vec<String>,
    pub fills: Vec<Fill>,
    pub default: Option<String>,
    pub cols: u16,
}

const NAMES: [&str; 4] = ["name", "some-value", "x", "arg_3"];

fn tpl_line() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (select(&["", "# ", "## ", "* ", "  * ", "> ", "    "][..]), vec(
            prop_oneof![
                3 => word(8),
                1 => Just("**bold**".to_string()),
                4 => (0..4u8).prop_map(|i| format!("@{i}")),
                2 => (0..4u8).prop_map(|i| format!("**@{i}**")),
                1 => (0..4u8).prop_map(|i| format!("*@{i}*")),
                1 => (0..4u8).prop_map(|i| format!("`@{i}`")),
            ], 1..6)).prop_map(|(p, v)| format!("{p}{}", v.join(" "))),
        1 => vec(prop_oneof![2 => word(6), 2 => (0..4u8).prop_map(|i| format!("@{i}"))], 1..4)
            .prop_map(|v| format!("|{}|", v.join("|"))),
        1 => Just("|:-:|-|".to_string()),
        1 => Just("-----".to_string()),
        1 => Just(String::new()),
    ]
    .boxed()
}

fn text_tpl_case(_tier: Tier) -> BoxedStrategy<TextTplCase> {
    let val = || {
        prop_oneof![
            4 => word(10),
            2 => sentence(6),
            2 => inline_md(3),
            1 => Just(String::new()),
        ]
        .prop_map(|s| s.replace(['\n', '\r'], " "))
    };
    let lines_val = || vec(val(), 0..4).prop_map(|v| v.join("\n"));
    let fill = prop_oneof![
        6 => (0..4u8, val()).prop_map(|(i, s)| Fill::Set(i, s)),
        2 => (0..4u8, val()).prop_map(|(i, s)| Fill::SetMd(i, s)),
        1 => (0..4u8, lines_val()).prop_map(|(i, s)| Fill::SetLines(i, s)),
        1 => (0..4u8, lines_val()).prop_map(|(i, s)| Fill::SetLinesMd(i, s)),
        3 => vec((0..4u8, val(), any::<bool>()), 0..4).prop_map(Fill::Sub),
    ];
    (
        skin(),
        vec(tpl_line(), 1..6),
        vec(tpl_line(), 0..4),
        vec(fill, 0..6),
        prop::option::weighted(0.3, word(5)),
        prop_oneof![3 => 20..120u16, 1 => 3..20u16, 1 => Just(400u16)],
    )
        .prop_flat_map(|(skin, lines, sub, fills, default, cols)| {
            let case = TextTplCase { skin, lines, sub, fills, default, cols };
            let plain = {
                let case = case.clone();
                vec((0..4u8, select(&["x", "word", "7", "a1", "longerValue"][..])), 0..5).prop_map(move |v| TextTplCase {
                    sub: Vec::new(),
                    fills: v.iter().map(|(i, s)| Fill::Set(*i, s.to_string())).collect(),
                    ..case.clone()
                })
            };
            prop_oneof![2 => Just(case), 1 => plain]
        })
        .boxed()
}

impl TextTplCase {
    fn md(&self) -> String {
        let arg = |s: &str| {
            let mut s = s.to_string();
            for (i, n) in NAMES.iter().enumerate() {
                s = s.replace(&format!("@{i}"), &format!("${{{n}}}"));
            }
            s
        };
        let mut md = String::new();
        for (i, l) in self.lines.iter().enumerate() {
            if i == self.lines.len() / 2 && !self.sub.is_empty() {
                md.push_str("${rows\n");
                for l in &self.sub {
                    md.push_str(&arg(l));
                    md.push('\n');
                }
                md.push_str("}\n");
            }
            md.push_str(&arg(l));
            md.push('\n');
        }
        md
    }
}

fn check_text_tpl(case: &TextTplCase) -> CheckResult {
    in_worker("text-template", case)
}
pub fn text_tpl_in_worker(case: &TextTplCase, tty: &Tty) -> CheckResult {
    let mut info = Info::new();
    tty.set_size(case.cols, 30)?;
    let skin = case.skin.build();
    let width = Some(case.cols as usize);
    let md = case.md();
    let template = TextTemplate::from(&*md);
    // non owning expander: printed the same as the text it's expanded to
    let fill = || {
        let mut e = template.expander();
        if let Some(d) = &case.default {
            e.set_all(d);
        }
        for f in &case.fills {
            match f {
                Fill::Set(i, s) => {
                    e.set(NAMES[*i as usize % 4], s);
                }
                Fill::SetMd(i, s) => {
                    e.set_md(NAMES[*i as usize % 4], s);
                }
                Fill::SetLines(i, s) => {
                    e.set_lines(NAMES[*i as usize % 4], s);
                }
                Fill::SetLinesMd(i, s) => {
                    e.set_lines_md(NAMES[*i as usize % 4], s);
                }
                Fill::Sub(v) => {
                    let sub = e.sub("rows");
                    for (i, s, md) in v {
                        if *md {
                            sub.set_md(NAMES[*i as usize % 4], s);
                        } else {
                            sub.set(NAMES[*i as usize % 4], s);
                        }
                    }
                }
            }
        }
        e
    };
    // the expansion itself isn't termimad's
    let Ok(text) = guarded(|| Ok(fill().expand())) else {
        info.class(true, "rejected by minimad");
        return Ok(info);
    };
    let expected = FmtText::from_text(&skin, text, width).to_string();
    let printed = capture(|| skin.print_expander(fill()))?.1;
    ensure_eq!(printed, expected, "print_expander of {md:?}");
    let mut e = OwningTemplateExpander::new();
    if let Some(d) = &case.default {
        e.set_default(d.as_str());
    }
    for f in &case.fills {
        match f {
            Fill::Set(i, s) => {
                e.set(NAMES[*i as usize % 4], s);
            }
            Fill::SetMd(i, s) => {
                e.set_md(NAMES[*i as usize % 4], s);
            }
            Fill::SetLines(i, s) => {
                e.set_lines(NAMES[*i as usize % 4], s);
            }
            Fill::SetLinesMd(i, s) => {
                e.set_lines_md(NAMES[*i as usize % 4], s);
            }
            Fill::Sub(v) => {
                let sub = e.sub("rows");
                for (i, s, md) in v {
                    if *md {
                        sub.set_md(NAMES[*i as usize % 4], s);
                    } else {
                        sub.set(NAMES[*i as usize % 4], s);
                    }
                }
            }
        }
    }
    let printed = capture(|| skin.print_owning_expander(&e, &template))?.1;
    ensure_eq!(printed, expected, "print_owning_expander of {md:?}");
    let printed = capture(|| skin.print_owning_expander_md(&e, md.as_str()))?.1;
    ensure_eq!(printed, expected, "print_owning_expander_md of {md:?}");
    info.hit(case.fills.iter().any(|f| matches!(f, Fill::Sub(_))) && !case.sub.is_empty(), "sub template");
    info.hit(md.contains("${") && case.fills.iter().any(|f| !matches!(f, Fill::Sub(_))), "filled");
    // with plain words as values, it's the rendering of the template with the
    // arguments textually replaced
    let plain = |s: &str| !s.is_empty() && s.chars().all(char::is_alphanumeric);
    let mut values: [Option<&str>; 4] = [None; 4];
    let mut comparable = case.sub.is_empty();
    for f in &case.fills {
        match f {
            Fill::Set(i, s) if plain(s) => values[*i as usize % 4] = Some(s),
            _ => comparable = false,
        }
    }
    if let Some(d) = &case.default {
        comparable &= plain(d);
    }
    // "$", "{" and "}" are no more special than a word
    comparable &= md.is_ascii();
    if comparable {
        // templates are cleaned of their useless lines and indentation
        let mut replaced = minimad::clean::lines(&md).iter().map(|l| format!("{l}\n")).collect::<String>();
        for (n, v) in NAMES.iter().zip(&values) {
            if let Some(v) = v.or(case.default.as_deref()) {
                replaced = replaced.replace(&format!("${{{n}}}"), v);
            }
        }
        // (blanks of wrapped lines may be cut another way)
        let width = Some(1000);
        let expanded = FmtText::from_text(&skin, fill().expand(), width).to_string();
        let textual = skin.text(&replaced, width).to_string();
        ensure_eq!(rows(&expanded)?, rows(&textual)?, "template {md:?} filled with words");
        info.hit(replaced != md, "textually compared");
    }
    Ok(info)
}

// ------------------------------------------------ C20: printing functions

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct PrintCase {
    pub skin: SkinSpec,
    pub md: String,
    pub inline: String,
    pub cols: u16,
    pub rows: u16,
    pub area: (u16, u16, u16, u16),
    pub scroll: u16,
}

fn print_case(tier: Tier) -> BoxedStrategy<PrintCase> {
    (
        skin(),
        doc(tier, tier.pick(5, 12)),
        inline_md(5),
        prop_oneof![6 => 3..150u16, 1 => 0..3u16, 1 => Just(1000u16)],
        prop_oneof![6 => 1..60u16, 1 => Just(0u16)],
        (0..20u16, 0..20u16, 0..60u16, 0..20u16),
        0..20u16,
    )
        .prop_map(|(skin, md, inline, cols, rows, area, scroll)| PrintCase { skin, md, inline, cols, rows, area, scroll })
        .boxed()
}

fn check_print(case: &PrintCase) -> CheckResult {
    in_worker("print", case)
}
/// run a function which must write on stdout, and flush it (there may be no end of
/// line in what's displayed: not flushed, it would not be seen)
fn displayed<T>(f: impl FnOnce() -> T) -> Result<(T, String), String> {
    let (r, s, complete) = capture_flushed(f)?;
    if complete {
        Ok((r, s))
    } else {
        Err(format!("not flushed, not all is displayed of {s:?}"))
    }
}

pub fn print_in_worker(case: &PrintCase, tty: &Tty) -> CheckResult {
    let mut info = Info::new();
    tty.set_size(case.cols, case.rows)?;
    ensure_eq!(terminal_size(), (case.cols, case.rows), "terminal_size");
    ensure_eq!(Area::full_screen(), Area::new(0, 0, case.cols, case.rows), "full_screen");
    let skin = case.skin.build();
    let width = Some(case.cols as usize);
    let md = case.md.as_str();
    let inline = case.inline.lines().next().unwrap_or("");
    let composite = || Composite::from_inline(inline);
    let written = |f: &dyn Fn(&mut Vec<u8>) -> Result<(), Error>| -> Result<String, String> {
        let mut w = Vec::new();
        f(&mut w).map_err(|e| e.to_string())?;
        String::from_utf8(w).map_err(|e| e.to_string())
    };
    let mut same = |what: &str, got: String, expected: &str| -> Result<(), String> {
        ensure!(got == expected, "{what} gives {got:?} instead of {expected:?}");
        info.hit(!expected.is_empty(), "something printed");
        Ok(())
    };
    // texts
    let text = skin.text(md, width).to_string();
    same("print_text", capture(|| skin.print_text(md))?.1, &text)?;
    let (r, s) = displayed(|| skin.write_text(md))?;
    r.map_err(|e| e.to_string())?;
    same("write_text", s, &text)?;
    same("write_text_on", written(&|w| skin.write_text_on(w, md))?, &text)?;
    same("term_text", skin.term_text(md).to_string(), &text)?;
    let def = MadSkin::default();
    let text = def.text(md, width).to_string();
    same("termimad::print_text", capture(|| termimad::print_text(md))?.1, &text)?;
    same("termimad::term_text", termimad::term_text(md).to_string(), &text)?;
    same("termimad::text", termimad::text(md).to_string(), &def.text(md, None).to_string())?;
    // inlines
    let expected = skin.inline(inline).to_string();
    same("print_inline", capture(|| skin.print_inline(inline))?.1, &expected)?;
    let (r, s) = displayed(|| skin.write_inline(inline))?;
    r.map_err(|e| e.to_string())?;
    same("write_inline", s, &expected)?;
    same("write_inline_on", written(&|w| skin.write_inline_on(w, inline))?, &expected)?;
    same("print_composite", capture(|| skin.print_composite(composite()))?.1, &expected)?;
    same("write_composite", written(&|w| skin.write_composite(w, composite()))?, &expected)?;
    let expected = def.inline(inline).to_string();
    same("termimad::inline", termimad::inline(inline).to_string(), &expected)?;
    same("termimad::print_inline", capture(|| termimad::print_inline(inline))?.1, &expected)?;
    // in an area
    let (left, top, w, h) = case.area;
    let area = Area::new(left, top, w, h);
    let expected = written(&|w| skin.write_in_area_on(w, md, &area))?;
    let (r, s) = displayed(|| skin.write_in_area(md, &area))?;
    r.map_err(|e| e.to_string())?;
    same("write_in_area", s, &expected)?;
    {
        let text = skin.area_text(md, &area);
        ensure_eq!(text.width, Some((w as usize).saturating_sub(1)), "width of the text of an area");
        let mut view = TextView::from(&area, &text);
        view.set_scroll(case.scroll as usize);
        let expected = written(&|w| view.write_on(w))?;
        let (r, s) = displayed(|| view.write())?;
        r.map_err(|e| e.to_string())?;
        same("TextView::write", s, &expected)?;
        let mut mad_view = MadView::from(md.to_string(), area.clone(), skin.clone());
        mad_view.try_scroll_lines(i32::from(case.scroll));
        let (r, s) = displayed(|| mad_view.write())?;
        r.map_err(|e| e.to_string())?;
        same("MadView::write", s, &expected)?;
        // without scrollbar nor scroll, it's write_in_area
        let mut view = TextView::from(&area, &text);
        view.show_scrollbar = false;
        same("write_in_area_on", written(&|w| view.write_on(w))?, &written(&|w| skin.write_in_area_on(w, md, &area))?)?;
    }
    // other views
    let mut field = InputField::new(Area::new(left, top, w.max(1), h.max(1)));
    field.set_str(md);
    let mut pos = None;
    let expected = {
        let mut w: Vec<u8> = Vec::new();
        pos = field.display_on(&mut w).map_err(|e| e.to_string())?.or(pos);
        String::from_utf8(w).map_err(|e| e.to_string())?
    };
    let (r, s) = displayed(|| field.display())?;
    ensure_eq!(r.map_err(|e| e.to_string())?, pos, "cursor position from display");
    same("InputField::display", s, &expected)?;
    let columns = vec![
        ListViewColumn::new("len", 3, 8, Box::new(|s: &String| ListViewCell::new(s.len().to_string(), &get_default_skin().table.compound_style))),
        ListViewColumn::new("line", 3, 40, Box::new(|s: &String| ListViewCell::new(s.clone(), &get_default_skin().paragraph.compound_style))),
    ];
    if w > 12 && h > 3 {
        let mut list = ListView::new(area.clone(), columns, &skin);
        for l in md.lines() {
            list.add_row(l.replace('\t', " "));
        }
        list.select_first_line();
        let expected = written(&|w| list.write_on(w))?;
        let (r, s) = displayed(|| list.write())?;
        r.map_err(|e| e.to_string())?;
        same("ListView::write", s, &expected)?;
    }
    info.class(w == 0 || h == 0, "empty area");
    info.class(case.cols < 3, "tiny terminal");
    Ok(info)
}

// ------------------------------------------------ C23: questions

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct AskCase {
    pub skin: SkinSpec,
    pub question: Option<String>,
    pub answers: Vec<(String, String)>,
    pub default: Option<String>,
    pub input: String,
    pub cols: u16,
}

fn ask_key() -> BoxedStrategy<String> {
    prop_oneof![
        6 => select(&["y", "n", "b", "oj", "2", "0", "-1", "yes", "é", "日", "Y", "*", "**", "`", "$0", "a b"][..]).prop_map(str::to_string),
        1 => (0..100i32).prop_map(|i| i.to_string()),
        1 => select(&["", " y", "y "][..]).prop_map(str::to_string),
        1 => word(5),
    ]
    .boxed()
}

fn ask_input(keys: Vec<String>) -> BoxedStrategy<String> {
    let key = if keys.is_empty() { Just("y".to_string()).boxed() } else { select(keys).boxed() };
    let line = prop_oneof![
        4 => key.clone(),
        1 => key.clone().prop_map(|k| k.to_uppercase()),
        1 => (key.clone(), select(&[" ", "  ", "\t", "\u{a0}", "\u{3000}"][..])).prop_map(|(k, b)| format!("{k}{b}")),
        1 => key.clone().prop_map(|k| format!(" {k}")),
        1 => (key.clone(), key).prop_map(|(a, b)| format!("{a}{b}")),
        3 => Just(String::new()),
        1 => Just("  ".to_string()),
        2 => word(6),
        1 => wild_string(8).prop_map(|s| s.replace(['\n', '\r'], "")),
    ];
    (
        vec((line, select(&["\n", "\n", "\n", "\r\n"][..])), 0..7),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(v, cut)| {
            let mut s: String = v.iter().map(|(l, e)| format!("{l}{e}")).collect();
            if cut {
                // no new line at the end
                s.truncate(s.trim_end_matches(['\n', '\r']).len());
            }
            s
        })
        .boxed()
}

fn ask_case(_tier: Tier) -> BoxedStrategy<AskCase> {
    (
        skin(),
        prop::option::weighted(0.9, prop_oneof![3 => line_md(), 1 => inline_md(4)]),
        vec((ask_key(), prop_oneof![4 => inline_md(3), 1 => Just(String::new()), 1 => line_md()]), 0..5),
        prop_oneof![2 => Just(None), 2 => any::<prop::sample::Index>().prop_map(|i| Some((i, None))), 1 => (any::<prop::sample::Index>(), ask_key()).prop_map(|(i, k)| Some((i, Some(k))))],
        prop_oneof![5 => 10..120u16, 1 => 3..10u16],
    )
        .prop_flat_map(|(skin, question, answers, default, cols)| {
            let default = match default {
                None => None,
                Some((_, Some(k))) => Some(k),
                Some((i, None)) if !answers.is_empty() => Some(i.get(&answers).0.clone()),
                _ => Some("d".to_string()),
            };
            let keys: Vec<String> = answers.iter().map(|a| a.0.clone()).chain(default.clone()).collect();
            ask_input(keys).prop_map(move |input| AskCase {
                skin: skin.clone(),
                question: question.clone(),
                answers: answers.clone(),
                default: default.clone(),
                input,
                cols,
            })
        })
        .boxed()
}

/// what's asked, without any answer
fn expected_question(case: &AskCase, skin: &MadSkin) -> Result<String, String> {
    let width = Some(case.cols as usize);
    let mut s = String::new();
    if let Some(q) = &case.question {
        s.push_str(&skin.text(q, width).to_string());
    }
    for (key, md) in &case.answers {
        let mut k = Compound::raw_str(key);
        k.bold = case.default.as_ref() == Some(key);
        let composite = Composite { compounds: vec![Compound::raw_str("["), k, Compound::raw_str("] ")], ..Composite::from_inline("") };
        let mut w: Vec<u8> = Vec::new();
        skin.write_composite(&mut w, composite).map_err(|e| e.to_string())?;
        s.push_str(std::str::from_utf8(&w).map_err(|e| e.to_string())?);
        s.push_str(&skin.text(md, width).to_string());
    }
    Ok(s)
}

/// the answer (None when there's none before the end of the input), the
/// complaints, and what's not read
fn expected_answer(case: &AskCase) -> (Option<String>, String, String) {
    let mut complaints = String::new();
    let mut input = case.input.as_str();
    loop {
        let len = input.find('\n').map_or(input.len(), |i| i + 1);
        let (line, rest) = input.split_at(len);
        input = rest;
        let line_trimmed = line.trim_end();
        if line_trimmed.is_empty() {
            if let Some(d) = &case.default {
                return (Some(d.clone()), complaints, rest.to_string());
            }
        }
        if case.answers.iter().any(|a| a.0 == line_trimmed) {
            return (Some(line_trimmed.to_string()), complaints, rest.to_string());
        }
        if line.is_empty() {
            return (None, complaints, String::new());
        }
        complaints.push_str(&format!("answer {line_trimmed:?} not understood\n"));
    }
}

fn check_ask(case: &AskCase) -> CheckResult {
    in_worker("ask", case)
}
pub fn ask_in_worker(case: &AskCase, tty: &Tty) -> CheckResult {
    let mut info = Info::new();
    tty.set_size(case.cols, 30)?;
    let skin = case.skin.build();
    let mut q = match &case.question {
        Some(md) => Question::new(md.as_str()),
        None => Question { md: None, answers: Vec::new(), default_answer: None },
    };
    for (key, md) in &case.answers {
        match key.parse::<i32>() {
            Ok(n) if n.to_string() == *key => q.add_answer(n, md.as_str()),
            _ => q.add_answer(key, md.as_str()),
        }
    }
    if let Some(d) = &case.default {
        q.set_default(d);
    }
    let exotic = case.default.as_ref().is_some_and(|d| case.answers.iter().all(|a| a.0 != *d));
    ensure_eq!(q.has_exotic_default(), exotic, "has_exotic_default");
    let shown = expected_question(case, &skin)?;
    let (expected, complaints, unread) = expected_answer(case);
    let ((answer, out), left) = with_stdin(&case.input, || capture(|| q.ask(&skin)))
        .and_then(|(r, left)| Ok((r?, left)))?;
    ensure!(
        out.starts_with(&shown),
        "displayed {out:?} instead of the question {shown:?}"
    );
    ensure_eq!(&out[shown.len()..], complaints.as_str(), "what's displayed for the input {:?}", case.input);
    match (answer, &expected) {
        (Ok(a), Some(e)) => ensure_eq!(a, *e, "answer for the input {:?}", case.input),
        (Err(_), None) => {}
        (Ok(a), None) => return Err(format!("answer {a:?} while the input {:?} contains none", case.input)),
        (Err(e), Some(a)) => return Err(format!("error {e} instead of the answer {a:?}")),
    }
    ensure_eq!(left, unread, "what's left unread of the input");
    // asking again gives the next answer, if any
    info.hit(!complaints.is_empty(), "wrong answer");
    info.hit(exotic, "exotic default");
    info.hit(expected.is_none(), "no answer");
    info.class(expected.is_some() && expected == case.default, "default answer");
    info.class(!unread.is_empty(), "unread input");
    if case.answers.is_empty() {
        return Ok(info);
    }
    // the macro runs the block of the first answer with this key
    let mut a = case.answers.clone();
    a.truncate(3);
    let case3 = AskCase { answers: a.clone(), ..case.clone() };
    let exotic = case3.default.as_ref().is_some_and(|d| a.iter().all(|a| a.0 != *d));
    let (expected, complaints, _) = expected_answer(&case3);
    let expected = if exotic { None } else { expected.and_then(|e| a.iter().position(|a| a.0 == e)) };
    let question = case.question.clone().unwrap_or_default();
    let run = || -> usize {
        let skin = &skin;
        match (&case3.default, a.len()) {
            (None, 1) => ask!(skin, question, { (a[0].0, a[0].1) => { 0 } }),
            (None, 2) => ask!(skin, question, { (a[0].0, a[0].1) => { 0 } (a[1].0, a[1].1) => { 1 } }),
            (None, _) => ask!(skin, question, { (a[0].0, a[0].1) => { 0 } (a[1].0, a[1].1) => { 1 } (a[2].0, a[2].1) => { 2 } }),
            (Some(d), 1) => ask!(skin, question, (d) { (a[0].0, a[0].1) => { 0 } }),
            (Some(d), 2) => ask!(skin, question, (d) { (a[0].0, a[0].1) => { 0 } (a[1].0, a[1].1) => { 1 } }),
            (Some(d), _) => ask!(skin, question, (d) { (a[0].0, a[0].1) => { 0 } (a[1].0, a[1].1) => { 1 } (a[2].0, a[2].1) => { 2 } }),
        }
    };
    let (r, _) = with_stdin(&case.input, || capture(run))?;
    match (r, expected) {
        (Ok((i, out)), Some(e)) => {
            ensure_eq!(i, e, "block run by ask! with the answers {a:?} and the input {:?}", case.input);
            ensure!(out.ends_with(&complaints), "ask! displayed {out:?}");
            info.hit(true, "macro");
        }
        (Err(_), None) => {} // panics because there's no answer or the default is exotic
        (Ok((i, _)), None) => return Err(format!("ask! ran the block {i} with the answers {a:?} and the input {:?}", case.input)),
        (Err(e), Some(i)) => return Err(format!("ask! didn't run the block {i}: {e}")),
    }
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            rule: "something is printed; for templates: a value contains markdown, or is empty, or a placeholder is filled",
            assumptions: &[
                "values have no line break nor control char, nor the ellipsis char (which has its own style)",
                "the expansion of text templates is done by minimad, a dependency; inline templates are among the ones of the harness (the macros take literals)",
                "the terminal is a pseudo terminal of the generated size",
            ],
            max_threads: 8,
            parts: vec![
                part("inline-template", 60_000, 600_000, inline_tpl_case, check_inline_tpl),
                part("text-template", 30_000, 400_000, text_tpl_case, check_text_tpl),
                part("print", 12_000, 200_000, print_case, check_print),
            ],
        },
        Property {
            id: "C23",
            rule: "there's a wrong answer, or no answer, or a default which isn't an answer, or the macro ran a block",
            assumptions: &["the input is valid UTF-8", "at the end of the input, the default is used, or an error is returned when there's none"],
            max_threads: 8,
            parts: vec![part("ask", 60_000, 600_000, ask_case, check_ask)],
        },
    ]
}
