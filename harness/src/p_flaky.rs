//! Outputs which fail, or accept only a part of what's written

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        gen::*,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        fmt::Display,
        io::{
            self,
            ErrorKind,
            Write,
        },
    },
    termimad::{
        crossterm::{
            style::Color,
            terminal::ClearType,
        },
        minimad::{
            Composite,
            OwningTemplateExpander,
            TextTemplate,
        },
        *,
    },
};

/// what the output does
#[derive(Debug, Clone, Copy, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// fails from the position given in the case
    Dead(u8),
    /// fails at the position, but only once
    Once(u8),
    /// accepts no byte from the position
    Full,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FlakyCase {
    pub op: u8,
    pub md: String,
    pub skin: SkinSpec,
    pub area: (u16, u16, u16, u16),
    pub style: StyleSpec,
    pub c: char,
    pub n: usize,
    pub scroll: usize,
    /// where (over 65536 for the end), and what
    pub faults: Vec<(u32, Fault)>,
    /// max bytes accepted by each call (cycled)
    pub chunks: Vec<usize>,
    /// a call is interrupted every n calls (0: never)
    pub interrupts: u8,
}

const KINDS: [ErrorKind; 5] = [
    ErrorKind::BrokenPipe,
    ErrorKind::Other,
    ErrorKind::PermissionDenied,
    ErrorKind::WouldBlock,
    ErrorKind::UnexpectedEof,
];

fn flaky_case(tier: Tier) -> BoxedStrategy<FlakyCase> {
    let fault = || {
        (
            prop_oneof![20 => 0..65536u32, 1 => Just(65536u32)],
            prop_oneof![
                2 => (0..5u8).prop_map(Fault::Dead),
                2 => (0..5u8).prop_map(Fault::Once),
                1 => Just(Fault::Full),
            ],
        )
    };
    (
        (
            any::<u8>(),
            prop_oneof![1 => line_md(), 2 => doc(tier, 4)],
            skin(),
            (0..6u16, 0..6u16, 4..40u16, prop_oneof![4 => 1..8u16, 1 => 1..20u16]),
            style(),
        ),
        (
            prop_oneof![2 => narrow_char(), 1 => word_char(), 1 => select(&['─', '│', ' ', '\t'][..])],
            prop_oneof![8 => 0..30usize, 1 => 0..2500usize],
            0..20usize,
            vec(fault(), 1..4),
            vec(prop_oneof![3 => 1..4usize, 1 => 1..30usize], 1..4),
            0..5u8,
        ),
    )
        .prop_map(|((op, md, skin, area, style), (c, n, scroll, faults, chunks, interrupts))| FlakyCase {
            op,
            md,
            skin,
            area,
            style,
            c,
            n,
            scroll,
            faults,
            chunks,
            interrupts,
        })
        .boxed()
}

pub struct Flaky {
    pub out: Vec<u8>,
    fault: Option<(usize, Fault)>,
    chunks: Vec<usize>,
    interrupts: usize,
    calls: usize,
    flushes: usize,
}
impl Flaky {
    fn sane() -> Self {
        Self { out: Vec::new(), fault: None, chunks: vec![usize::MAX], interrupts: 0, calls: 0, flushes: 0 }
    }
}
impl Write for Flaky {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.interrupts > 0 && self.calls % (self.interrupts + 1) == 0 {
            return Err(ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(self.chunks[self.calls % self.chunks.len()]);
        if let Some((pos, fault)) = self.fault {
            if self.out.len() >= pos && !buf.is_empty() {
                return match fault {
                    Fault::Dead(k) => Err(KINDS[k as usize].into()),
                    Fault::Once(k) => {
                        self.fault = None;
                        Err(KINDS[k as usize].into())
                    }
                    Fault::Full => Ok(0),
                };
            }
            n = n.min(pos - self.out.len());
        }
        self.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}

/// the kind of the IO error, if there's one
type Told = Result<(), Option<ErrorKind>>;

fn of_io(r: io::Result<()>) -> Told {
    r.map_err(|e| Some(e.kind()))
}
fn of<T>(r: Result<T, Error>) -> Told {
    match r {
        Ok(_) => Ok(()),
        Err(Error::IO(e)) => Err(Some(e.kind())),
        Err(_) => Err(None),
    }
}
fn shown(w: &mut Flaky, d: impl Display) -> Told {
    of_io(write!(w, "{d}"))
}

const NB_OPS: u8 = 36;

/// whether the output must not be flushed
fn op_is_without_flush(op: u8) -> bool {
    // both are documented so
    matches!(op % NB_OPS, 2 | 9)
}

fn do_op(case: &FlakyCase, skin: &MadSkin, w: &mut Flaky) -> Told {
    let md = case.md.as_str();
    let (l, t, width, h) = case.area;
    let area = Area::new(l, t, width, h);
    let width = width as usize;
    let line = md.lines().next().unwrap_or("");
    let cs = case.style.compound();
    let styled = StyledChar::new(cs.clone(), case.c);
    let composite = || Composite::from_inline(line);
    let field = |focused: bool| {
        let mut field = InputField::new(area.clone());
        field.set_str(md);
        field.set_focus(focused);
        for _ in 0..case.scroll {
            field.move_up();
        }
        field
    };
    match case.op % NB_OPS {
        0 => shown(w, skin.text(md, Some(width))),
        1 => shown(w, skin.text(md, None)),
        2 => of(skin.write_in_area_on(w, md, &area)),
        3 => of(skin.write_text_on(w, md)),
        4 => of(skin.write_inline_on(w, line)),
        5 => of(skin.write_composite(w, composite())),
        6 => {
            let align = align_of(case.n as u8 % 4);
            of(skin.write_composite_fill(w, composite(), width, align))
        }
        7 | 8 => {
            let text = skin.area_text(md, &area);
            let mut view = TextView::from(&area, &text);
            view.show_scrollbar = case.op % NB_OPS == 7;
            view.set_scroll(case.scroll);
            of(view.write_on(w))
        }
        9 => of(field(case.n % 2 == 0).display_on(w)),
        10 => {
            let mut view = MadView::from(md.to_string(), area.clone(), skin.clone());
            view.try_scroll_lines(case.scroll as i32);
            of(view.write_on(w))
        }
        11 | 12 => {
            let columns = vec![
                ListViewColumn::new("len", 3, 8, Box::new(|s: &String| ListViewCell::new(s.len().to_string(), &get_default_skin().bold))),
                ListViewColumn::new("line", 3, 40, Box::new(|s: &String| ListViewCell::new(s.clone(), &get_default_skin().italic))),
                ListViewColumn::new("line", 3, 40, Box::new(|s: &String| ListViewCell::new(s.clone(), &get_default_skin().italic))),
            ];
            let mut list = ListView::new(area.clone(), columns, skin);
            for l in md.lines() {
                list.add_row(l.chars().filter(|c| c.is_alphanumeric()).collect());
            }
            if case.op % NB_OPS == 11 {
                list.select_first_line();
            }
            list.try_scroll_lines(case.scroll as i32);
            of(list.write_on(w))
        }
        13 | 14 => {
            let mut rect = Rect::new(area.clone(), cs);
            rect.set_border_style(BORDER_STYLE_MIDDLE_ROUND_LINE);
            rect.set_fill(case.op % NB_OPS == 13);
            of(rect.draw(w))
        }
        15 => of(styled.queue(w)),
        16 => of(styled.queue_repeat(w, case.n)),
        17 => of(cs.queue(w, line)),
        18 => of(cs.queue_str(w, line)),
        19 => of(cs.queue_fg(w)),
        20 => of(cs.queue_bg(w)),
        21 => of(cs.clear(w, ClearType::UntilNewLine)),
        22 => of(Filling::from_char(case.c).queue_styled(w, &cs, case.n)),
        23 => of(Filling::from_char(case.c).queue_unstyled(w, case.n)),
        24 => of(fill_bg(w, case.n, Color::Red)),
        25 | 26 => {
            let sp = Spacing { width, align: align_of(case.n as u8 % 4) };
            if case.op % NB_OPS == 25 {
                of(sp.write_str(w, line, &cs))
            } else {
                of(sp.write_counted_str(w, line, line.chars().count(), &cs))
            }
        }
        27 | 28 => {
            let mut cw = CropWriter::new(w, width);
            let (filling, _) = crate::p_fit::filling(0);
            let styled = case.op % NB_OPS == 27;
            let mut step = |i: usize| {
                match (i, styled) {
                    (0, true) => cw.queue_char(&cs, case.c),
                    (0, false) => cw.queue_unstyled_char(case.c),
                    (1, true) => cw.queue_str(&cs, line),
                    (1, false) => cw.queue_unstyled_str(line),
                    (2, true) => cw.queue_g_string(&cs, line.to_string()),
                    (2, false) => cw.queue_unstyled_g_string(line.to_string()),
                    (3, true) => cw.repeat(&cs, filling, case.n),
                    (3, false) => cw.repeat_unstyled(filling, case.n),
                    (4, true) => cw.queue_char(&cs, '\t'),
                    (4, false) => cw.queue_unstyled_char('\t'),
                    (5, true) => cw.fill(&cs, filling),
                    (5, false) => cw.fill_unstyled(filling),
                    _ => cw.fill_with_space(&cs),
                }
            };
            let first = case.scroll;
            let mut r = Ok(());
            for i in 0..7 {
                r = step((first + i) % 7);
                if r.is_err() {
                    break;
                }
            }
            of(r)
        }
        29 => of_io(write_style_tokens(w, &styled_tokens(&cs))),
        30 => shown(w, &styled),
        31 => {
            let mut list = skin.clone();
            list.limit_to_ascii();
            shown(w, list.text(md, Some(width)))
        }
        32 => of(mad_write_inline!(w, skin, "**$0** is *$1*", line, case.n)),
        33 => {
            let template = TextTemplate::from("# ${title}\n|:-|:-|\n${rows\n|${a}|${b}\n}\n|-|-|\n");
            let mut e = OwningTemplateExpander::new();
            e.set("title", line);
            for (i, l) in md.lines().enumerate() {
                e.sub("rows").set("a", i).set("b", l.chars().filter(|c| c.is_alphanumeric()).collect::<String>());
            }
            shown(w, FmtText::from_text(skin, e.expand(&template), Some(width)))
        }
        34 => {
            let text = skin.text(md, Some(width));
            for line in &text.lines {
                shown(w, DisplayableLine::new(skin, line, Some(width + case.scroll)))?;
            }
            Ok(())
        }
        _ => {
            let bar = ProgressBar::new(case.scroll as f32 / 20.0, width);
            shown(w, bar)
        }
    }
}

fn styled_tokens(cs: &CompoundStyle) -> Vec<StyleToken> {
    let mut tokens = Vec::new();
    cs.push_style_tokens(&mut tokens);
    tokens
}

fn check_flaky(case: &FlakyCase) -> CheckResult {
    let mut info = Info::new();
    let skin = case.skin.build();
    let run = |w: &mut Flaky| do_op(case, &skin, w);
    let mut sane = Flaky::sane();
    let r = run(&mut sane);
    ensure!(r.is_ok(), "error {r:?} on an output which doesn't fail");
    let full = sane.out;
    ensure!(!op_is_without_flush(case.op) || sane.flushes == 0, "output flushed");
    let show = |b: &[u8]| String::from_utf8_lossy(b).to_string();
    // an output accepting only some bytes at a time
    let mut w = Flaky { chunks: case.chunks.clone(), interrupts: case.interrupts as usize, ..Flaky::sane() };
    let r = run(&mut w);
    ensure!(r.is_ok(), "error {r:?} when only a part of the bytes are accepted by each call");
    ensure_eq!(show(&w.out), show(&full), "written when only a part of the bytes are accepted by each call");
    for (index, fault) in &case.faults {
        let pos = (full.len() as u64 * u64::from(*index) / 65536) as usize;
        for parts in [false, true] {
            let mut w = Flaky { fault: Some((pos, *fault)), ..Flaky::sane() };
            if parts {
                w.chunks = case.chunks.clone();
            }
            let r = run(&mut w);
            if pos == full.len() {
                ensure!(r.is_ok(), "error {r:?} while the output failed only after the end");
                ensure_eq!(show(&w.out), show(&full), "written before the failure at the end");
                info.class(true, "failure after the end");
                continue;
            }
            let kind = match fault {
                Fault::Dead(k) | Fault::Once(k) => KINDS[*k as usize],
                Fault::Full => ErrorKind::WriteZero,
            };
            ensure_eq!(r, Err(Some(kind)), "result when the output fails ({fault:?}) after {pos} bytes over {}", full.len());
            ensure_eq!(
                show(&w.out),
                show(&full[..pos]),
                "written on an output which failed ({fault:?}) after {pos} bytes over {}", full.len()
            );
            info.hit(true, "failure");
            info.class(pos > 0, "failure after some bytes");
        }
    }
    // nothing is remembered of a failure
    let mut again = Flaky::sane();
    let r = run(&mut again);
    ensure!(r.is_ok() && again.out == full, "another output after a failure: {r:?}");
    Ok(info)
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C32",
        rule: "the output fails before the end of what should be written",
        assumptions: &["the output doesn't fail on flush", "functions writing on stdout are out of this check"],
        max_threads: 8,
        parts: vec![part("output", 60_000, 3_000_000, flaky_case, check_flaky)],
    }]
}
