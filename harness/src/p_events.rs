//! Tick beams and event sources

use {
    crate::{
        engine::*,
        ensure,
        ensure_eq,
        worker::*,
    },
    crokey::{
        Combiner,
        KeyCombination,
    },
    proptest::{
        collection::vec,
        prelude::*,
        sample::select,
        strategy::BoxedStrategy,
    },
    serde::{
        Deserialize,
        Serialize,
    },
    std::{
        cell::RefCell,
        io::Write,
        sync::atomic::Ordering,
        time::{
            Duration,
            Instant,
        },
    },
    termimad::{
        crossbeam::channel::{
            Receiver,
            RecvTimeoutError,
            TryRecvError,
        },
        crossterm::event::{
            Event,
            KeyCode,
            KeyEvent,
            KeyEventKind,
            KeyModifiers,
            ModifierKeyCode,
            MouseButton,
            MouseEvent,
            MouseEventKind,
        },
        EventSource,
        EventSourceOptions,
        TickBeamId,
        Ticker,
        TimedEvent,
    },
};

// ------------------------------------------------ C24: ticker

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum TickOp {
    Once { period: u32 },
    Several { period: u32, count: u8 },
    Infinite { period: u32 },
    /// never ticks before being stopped
    Far { count: u8 },
    /// a beam number
    Stop(u8),
    /// an id which was never given
    StopUnknown(u8),
    StopAll,
    /// µs
    Sleep(u16),
    /// wait for this number of ticks
    Receive(u8),
}

fn tick_case(tier: Tier) -> BoxedStrategy<Vec<TickOp>> {
    let period = || prop_oneof![3 => 0..3000u32, 1 => Just(0u32), 1 => Just(1000u32)];
    vec(
        prop_oneof![
            2 => period().prop_map(|period| TickOp::Once { period }),
            4 => (period(), 0..7u8).prop_map(|(period, count)| TickOp::Several { period, count }),
            2 => (500..3000u32).prop_map(|period| TickOp::Infinite { period }),
            1 => (0..4u8).prop_map(|count| TickOp::Far { count }),
            4 => (0..12u8).prop_map(TickOp::Stop),
            1 => (0..12u8).prop_map(TickOp::StopUnknown),
            1 => Just(TickOp::StopAll),
            4 => (0..3000u16).prop_map(TickOp::Sleep),
            2 => (0..5u8).prop_map(TickOp::Receive),
        ],
        1..tier.pick(14, 25),
    )
    .boxed()
}

struct Beam {
    id: TickBeamId,
    started: Instant,
    period: Duration,
    count: Option<usize>,
    received: usize,
    /// what can still be received at most, when stopped
    stopped_at: Option<usize>,
}

struct TickLog {
    rx: Receiver<u16>,
    beams: Vec<Beam>,
}
impl TickLog {
    fn note(&mut self, payload: u16) -> Result<(), String> {
        let now = Instant::now();
        let Some(b) = self.beams.get_mut(payload as usize) else {
            return Err(format!("tick with an unknown payload {payload}"));
        };
        b.received += 1;
        let k = b.received as u32;
        if let Some(n) = b.count {
            ensure!(b.received <= n, "more than {n} ticks for the beam {payload}");
        }
        ensure!(
            now.duration_since(b.started) >= b.period * k,
            "tick {k} of the beam {payload} received {:?} after its start, with a period of {:?}",
            now.duration_since(b.started), b.period
        );
        if let Some(max) = b.stopped_at {
            ensure!(b.received <= max, "the beam {payload} was stopped, but still ticks");
        }
        Ok(())
    }
    fn drain(&mut self) -> Result<(), String> {
        loop {
            match self.rx.try_recv() {
                Ok(p) => self.note(p)?,
                Err(TryRecvError::Empty) => return Ok(()),
                Err(e) => return Err(e.to_string()),
            }
        }
    }
    fn receive(&mut self, why: &str) -> Result<(), String> {
        match self.rx.recv_timeout(patience()) {
            Ok(p) => self.note(p),
            Err(e) => Err(format!("no tick ({e}) while waiting for {why}")),
        }
    }
    fn stopped(&mut self, i: usize) {
        let b = &mut self.beams[i];
        if b.stopped_at.is_none() {
            // a tick may have been on its way
            b.stopped_at = Some(b.received + 1);
        }
    }
}

fn check_ticks(ops: &Vec<TickOp>) -> CheckResult {
    let mut info = Info::new();
    let mut ticker: Ticker<u16> = Ticker::new();
    let mut log = TickLog { rx: ticker.tick_receiver.clone(), beams: Vec::new() };
    for op in ops {
        let n = log.beams.len() as u16;
        let started = Instant::now();
        let mut started_beam = |ticker: &mut Ticker<u16>, period: Duration, count: Option<usize>| {
            let id = match count {
                Some(1) if n % 2 == 0 => ticker.tick_once(n, period),
                Some(c) => ticker.tick_several_times(n, period, c),
                None => ticker.tick_infinitely(n, period),
            };
            log.beams.push(Beam { id, started, period, count, received: 0, stopped_at: None });
        };
        match op {
            TickOp::Once { period } => started_beam(&mut ticker, Duration::from_micros(u64::from(*period)), Some(1)),
            TickOp::Several { period, count } => {
                started_beam(&mut ticker, Duration::from_micros(u64::from(*period)), Some(*count as usize))
            }
            TickOp::Infinite { period } => started_beam(&mut ticker, Duration::from_micros(u64::from(*period).max(500)), None),
            TickOp::Far { count } => {
                let count = if *count == 0 { None } else { Some(*count as usize) };
                started_beam(&mut ticker, Duration::from_secs(86_400), count)
            }
            TickOp::Stop(i) => {
                if let Some(b) = log.beams.get(*i as usize) {
                    ticker.stop_beam(b.id);
                    log.drain()?;
                    log.stopped(*i as usize);
                    let b = &log.beams[*i as usize];
                    info.hit(b.count.is_none_or(|n| b.received < n), "beam stopped before its end");
                    info.class(b.count.is_some_and(|n| b.received == n), "ended beam stopped");
                    info.class(log.beams.len() > 1, "one beam stopped among several");
                }
            }
            TickOp::StopUnknown(i) => {
                let id = log.beams.iter().map(|b| b.id).max().unwrap_or(0) + 1 + *i as usize;
                ticker.stop_beam(id);
            }
            TickOp::StopAll => {
                ticker.stop_all_beams();
                log.drain()?;
                for i in 0..log.beams.len() {
                    log.stopped(i);
                }
                info.hit(!log.beams.is_empty(), "all beams stopped");
            }
            TickOp::Sleep(us) => {
                std::thread::sleep(Duration::from_micros(u64::from(*us)));
                log.drain()?;
            }
            TickOp::Receive(count) => {
                for _ in 0..*count {
                    let expected = log.beams.iter().any(|b| {
                        b.stopped_at.is_none()
                            && b.period.as_secs() < 60
                            && b.count.is_none_or(|n| b.received < n)
                    });
                    if expected {
                        log.receive("a tick of an active beam")?;
                    }
                }
            }
        }
        for (i, b) in log.beams.iter().enumerate() {
            for c in &log.beams[i + 1..] {
                ensure!(b.id != c.id, "same id {} for two beams", b.id);
            }
        }
    }
    // active beams are still active
    let targets: Vec<usize> = log
        .beams
        .iter()
        .map(|b| match (b.count, b.stopped_at, b.period.as_secs() < 60) {
            (Some(n), None, true) => n,
            (None, None, true) => b.received + 2,
            _ => 0,
        })
        .collect();
    while let Some(i) = (0..targets.len()).find(|&i| log.beams[i].received < targets[i]) {
        log.receive(&format!("{} ticks of the beam {i}, having got {}", targets[i], log.beams[i].received))?;
    }
    info.hit(targets.iter().any(|&t| t > 1), "several ticks");
    info.class(log.beams.len() > 2, "several beams");
    // on drop all is stopped
    drop(ticker);
    let mut i = 0;
    loop {
        match log.rx.try_recv() {
            Ok(p) => log.note(p)?,
            Err(_) => break,
        }
        i += 1;
        ensure!(i < 1_000_000, "endless ticks after the drop of the ticker");
    }
    for i in 0..log.beams.len() {
        log.stopped(i);
    }
    let start = Instant::now();
    loop {
        match log.rx.recv_timeout(patience().saturating_sub(start.elapsed())) {
            Ok(p) => log.note(p)?,
            Err(RecvTimeoutError::Disconnected) => break,
            Err(RecvTimeoutError::Timeout) => return Err("a beam is still active after the drop of its ticker".to_string()),
        }
    }
    Ok(info)
}

/// many ticks, many beams
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct ManyCase {
    /// counts of beams with a null period
    pub counts: Vec<u32>,
    /// number of one tick beams started after them
    pub burst: u16,
}

fn many_case(_tier: Tier) -> BoxedStrategy<ManyCase> {
    let count = prop_oneof![
        2 => 100..300u32,
        2 => 900..5_000u32,
        1 => 5_000..20_000u32,
        1 => 65_530..70_000u32,
    ];
    (vec(count, 1..3), prop_oneof![3 => 0..20u16, 1 => 250..300u16])
        .prop_map(|(counts, burst)| ManyCase { counts, burst })
        .boxed()
}

fn check_many(case: &ManyCase) -> CheckResult {
    let mut info = Info::new();
    let mut ticker: Ticker<u16> = Ticker::new();
    let mut log = TickLog { rx: ticker.tick_receiver.clone(), beams: Vec::new() };
    let mut beams = vec![(Duration::from_millis(2), None)];
    beams.extend(case.counts.iter().map(|c| (Duration::ZERO, Some(*c as usize))));
    beams.extend((0..case.burst).map(|_| (Duration::ZERO, Some(1))));
    for (n, (period, count)) in beams.into_iter().enumerate() {
        let started = Instant::now();
        let id = match count {
            Some(1) => ticker.tick_once(n as u16, period),
            Some(c) => ticker.tick_several_times(n as u16, period, c),
            None => ticker.tick_infinitely(n as u16, period),
        };
        ensure!(log.beams.iter().all(|b| b.id != id), "same id {id} for two beams");
        log.beams.push(Beam { id, started, period, count, received: 0, stopped_at: None });
    }
    for i in 1..log.beams.len() {
        while log.beams[i].count.is_some_and(|n| log.beams[i].received < n) {
            log.receive(&format!("the ticks of the beam {i}, having got {}", log.beams[i].received))?;
        }
    }
    // stopping beams which are ended has no effect on the other one
    for b in &log.beams[1..] {
        ticker.stop_beam(b.id);
    }
    let target = log.beams[0].received + 3;
    while log.beams[0].received < target {
        log.receive("ticks of the infinite beam")?;
    }
    ticker.stop_beam(log.beams[0].id);
    log.drain()?;
    log.stopped(0);
    std::thread::sleep(Duration::from_millis(6));
    log.drain()?;
    info.hit(case.counts.iter().any(|&c| c > 300), "more than 300 ticks");
    info.class(case.counts.iter().any(|&c| c > 65535), "more than 65535 ticks");
    info.class(case.burst > 250, "more than 250 beams");
    Ok(info)
}

/// many parallel beams, some of them being stopped
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct StopCase {
    /// periods in µs, and counts (None: infinite)
    pub beams: Vec<(u32, Option<u16>)>,
    /// indexes, in the order they're stopped (maybe more than once)
    pub stops: Vec<u8>,
    /// start one more beam before this stop
    pub late: Option<u8>,
}

fn stop_case(tier: Tier) -> BoxedStrategy<StopCase> {
    (2..tier.pick(9usize, 16))
        .prop_flat_map(move |n| {
            (
                vec((1_000..4_000u32, prop_oneof![3 => Just(None), 1 => (1..300u16).prop_map(Some)]), n),
                vec(0..n as u8 + 1, 1..2 * n),
                prop::option::of(0..n as u8),
            )
        })
        .prop_map(|(beams, stops, late)| StopCase { beams, stops, late })
        .boxed()
}

fn check_stops(case: &StopCase) -> CheckResult {
    let mut info = Info::new();
    let mut ticker: Ticker<u16> = Ticker::new();
    let mut log = TickLog { rx: ticker.tick_receiver.clone(), beams: Vec::new() };
    let start = |ticker: &mut Ticker<u16>, log: &mut TickLog, (period, count): (u32, Option<u16>)| {
        let n = log.beams.len() as u16;
        let period = Duration::from_micros(u64::from(period.max(1000)));
        let started = Instant::now();
        let count = count.map(usize::from);
        let id = match count {
            Some(c) => ticker.tick_several_times(n, period, c),
            None => ticker.tick_infinitely(n, period),
        };
        log.beams.push(Beam { id, started, period, count, received: 0, stopped_at: None });
    };
    for b in &case.beams {
        start(&mut ticker, &mut log, *b);
    }
    for (i, stop) in case.stops.iter().enumerate() {
        if case.late.map(usize::from) == Some(i) {
            start(&mut ticker, &mut log, (2_000, None));
        }
        if let Some(b) = log.beams.get(*stop as usize) {
            ticker.stop_beam(b.id);
            log.drain()?;
            log.stopped(*stop as usize);
        }
    }
    // the ones which are not stopped go on, the others are silent
    let mut left = 0;
    for i in 0..log.beams.len() {
        let b = &log.beams[i];
        if b.stopped_at.is_some() {
            continue;
        }
        left += 1;
        let target = b.count.unwrap_or(usize::MAX).min(b.received + 3);
        while log.beams[i].received < target {
            log.receive(&format!("{target} ticks of the beam {i}, having got {}", log.beams[i].received))?;
        }
    }
    std::thread::sleep(Duration::from_millis(9));
    log.drain()?;
    let stopped = log.beams.len() - left;
    info.hit(stopped > 1 && left > 0, "several beams stopped among others");
    info.class(left == 0, "all beams stopped");
    Ok(info)
}

// ------------------------------------------------ C25, C26: event source

/// something a terminal sends
#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Input {
    Char(char),
    AltChar(char),
    /// a to z
    Ctrl(u8),
    /// index in SPECIAL_KEYS
    Special(u8),
    /// function key and xterm modifiers (1 to 8)
    Function(u8, u8),
    /// xterm button code, x, y, released
    Mouse(u8, u16, u16, bool),
    /// as sent with the kitty protocol: index in KITTY_KEYS, modifiers (0 to 7),
    /// and kind (1: press, 2: repeat, 3: release)
    Kitty(u8, u8, u8),
    Focus(bool),
    Paste(u8),
    Resize(u16, u16),
    SeqStart,
    SeqEnd,
    /// wait, in ms
    Pause(u16),
}
use Input::*;

const SPECIAL_KEYS: &[(&str, KeyCode)] = &[
    ("\r", KeyCode::Enter),
    ("\t", KeyCode::Tab),
    ("\x7f", KeyCode::Backspace),
    ("\x1b[A", KeyCode::Up),
    ("\x1b[B", KeyCode::Down),
    ("\x1b[C", KeyCode::Right),
    ("\x1b[D", KeyCode::Left),
    ("\x1b[H", KeyCode::Home),
    ("\x1b[F", KeyCode::End),
    ("\x1b[5~", KeyCode::PageUp),
    ("\x1b[6~", KeyCode::PageDown),
    ("\x1b[2~", KeyCode::Insert),
    ("\x1b[3~", KeyCode::Delete),
    ("\x1bOP", KeyCode::F(1)),
    ("\x1b[15~", KeyCode::F(5)),
];
const KITTY_KEYS: &[(u32, KeyCode)] = &[
    ('a' as u32, KeyCode::Char('a')),
    ('b' as u32, KeyCode::Char('b')),
    ('é' as u32, KeyCode::Char('é')),
    (' ' as u32, KeyCode::Char(' ')),
    (13, KeyCode::Enter),
    (27, KeyCode::Esc),
    (57441, KeyCode::Modifier(ModifierKeyCode::LeftShift)),
    (57442, KeyCode::Modifier(ModifierKeyCode::LeftControl)),
    // the keys starting and ending escape sequences with just the alt modifier
    ('_' as u32, KeyCode::Char('_')),
    ('\\' as u32, KeyCode::Char('\\')),
];
/// the number of KITTY_KEYS without those of escape sequences
const NB_KITTY_KEYS: u8 = 8;
const PASTES: &[&str] = &["", "x", "some text", "two\nlines", "日本 é", "_\\"];

/// an event which is never discarded nor part of a sequence
const END: &str = "\x1b[200~end\x1b[201~";

impl Input {
    fn bytes(&self) -> String {
        match *self {
            Char(c) => c.to_string(),
            AltChar(c) => format!("\x1b{c}"),
            Ctrl(c) => ((c - b'a' + 1) as char).to_string(),
            Special(i) => SPECIAL_KEYS[i as usize % SPECIAL_KEYS.len()].0.to_string(),
            Function(n, m) => format!("\x1b[{};{m}~", FUNCTION_CODES[n as usize % FUNCTION_CODES.len()].0),
            Mouse(b, x, y, up) => format!("\x1b[<{b};{};{}{}", x + 1, y + 1, if up { 'm' } else { 'M' }),
            Kitty(k, m, kind) => format!("\x1b[{};{}:{kind}u", KITTY_KEYS[k as usize % KITTY_KEYS.len()].0, m + 1),
            Focus(true) => "\x1b[I".to_string(),
            Focus(false) => "\x1b[O".to_string(),
            Paste(i) => format!("\x1b[200~{}\x1b[201~", PASTES[i as usize % PASTES.len()]),
            SeqStart => "\x1b_".to_string(),
            SeqEnd => "\x1b\\".to_string(),
            Resize(..) | Pause(_) => String::new(),
        }
    }
    fn event(&self) -> Option<Event> {
        let key = |code, modifiers| Some(Event::Key(KeyEvent::new(code, modifiers)));
        let shift = |c: char| if c.is_uppercase() { KeyModifiers::SHIFT } else { KeyModifiers::NONE };
        match *self {
            Char(c) => key(KeyCode::Char(c), shift(c)),
            AltChar(c) => key(KeyCode::Char(c), shift(c) | KeyModifiers::ALT),
            Ctrl(c) => key(KeyCode::Char(c as char), KeyModifiers::CONTROL),
            Special(i) => key(SPECIAL_KEYS[i as usize % SPECIAL_KEYS.len()].1, KeyModifiers::NONE),
            Function(n, m) => {
                key(FUNCTION_CODES[n as usize % FUNCTION_CODES.len()].1, modifiers(m - 1))
            }
            Mouse(b, column, row, up) => {
                let button = match b & 3 {
                    0 => MouseButton::Left,
                    1 => MouseButton::Middle,
                    _ => MouseButton::Right,
                };
                let kind = match (b & 0b1110_0011, b & 3) {
                    (c, 3) if c & 0b0010_0000 != 0 => MouseEventKind::Moved,
                    (64, _) => MouseEventKind::ScrollUp,
                    (65, _) => MouseEventKind::ScrollDown,
                    (c, _) if c & 0b0010_0000 != 0 => MouseEventKind::Drag(button),
                    _ if up => MouseEventKind::Up(button),
                    _ => MouseEventKind::Down(button),
                };
                let mut modifiers = KeyModifiers::NONE;
                for (bit, modifier) in [(4, KeyModifiers::SHIFT), (8, KeyModifiers::ALT), (16, KeyModifiers::CONTROL)] {
                    if b & bit != 0 {
                        modifiers |= modifier;
                    }
                }
                Some(Event::Mouse(MouseEvent { kind, column, row, modifiers }))
            }
            Kitty(k, m, kind) => {
                let code = KITTY_KEYS[k as usize % KITTY_KEYS.len()].1;
                let mut mods = modifiers(m);
                match code {
                    KeyCode::Modifier(ModifierKeyCode::LeftShift) => mods |= KeyModifiers::SHIFT,
                    KeyCode::Modifier(ModifierKeyCode::LeftControl) => mods |= KeyModifiers::CONTROL,
                    _ => {}
                }
                let kind = match kind {
                    1 => KeyEventKind::Press,
                    2 => KeyEventKind::Repeat,
                    _ => KeyEventKind::Release,
                };
                Some(Event::Key(KeyEvent::new_with_kind(code, mods, kind)))
            }
            Focus(true) => Some(Event::FocusGained),
            Focus(false) => Some(Event::FocusLost),
            Paste(i) => Some(Event::Paste(PASTES[i as usize % PASTES.len()].to_string())),
            SeqStart => key(KeyCode::Char('_'), KeyModifiers::ALT),
            SeqEnd => key(KeyCode::Char('\\'), KeyModifiers::ALT),
            Resize(w, h) => Some(Event::Resize(w, h)),
            Pause(_) => None,
        }
    }
}

fn modifiers(mask: u8) -> KeyModifiers {
    let mut mods = KeyModifiers::NONE;
    for (bit, modifier) in [(1, KeyModifiers::SHIFT), (2, KeyModifiers::ALT), (4, KeyModifiers::CONTROL)] {
        if mask & bit != 0 {
            mods |= modifier;
        }
    }
    mods
}

const FUNCTION_CODES: &[(u8, KeyCode)] = &[
    (15, KeyCode::F(5)),
    (17, KeyCode::F(6)),
    (21, KeyCode::F(10)),
    (5, KeyCode::PageUp),
    (3, KeyCode::Delete),
];

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct SourceCase {
    /// discard mouse moves, drags, raw keys. None: default options
    pub options: Option<(bool, bool, bool)>,
    /// ask for keys to be combined: is it supported by the terminal, is a
    /// modifier mandatory
    #[serde(default)]
    pub combine: Option<(bool, bool)>,
    /// the inputs, and whether the previous events must have been received
    /// before it's sent
    pub inputs: Vec<(Input, bool)>,
    /// for some events, check that there's nothing new until unblocking
    pub holds: Vec<bool>,
    /// quit by dropping the source, and not with unblock(true)
    pub drop: bool,
    /// check the double_click flags
    pub clicks: bool,
}

fn key_input() -> BoxedStrategy<Input> {
    prop_oneof![
        4 => select(&['a', 'z', 'Z', 'É', 'é', '日', '0', ' ', '_', '\\', '/', '~', ';', 'G'][..]).prop_map(Char),
        2 => select(&['a', 'Z', '1', '/', 'é'][..]).prop_map(AltChar),
        2 => select(b"abcdefghjklnopqrstuvwxyz").prop_map(Ctrl),
        3 => (0..SPECIAL_KEYS.len() as u8).prop_map(Special),
        1 => (0..FUNCTION_CODES.len() as u8, 1..9u8).prop_map(|(n, m)| Function(n, m)),
    ]
    .boxed()
}
fn mouse_input() -> BoxedStrategy<Input> {
    let pos = || prop_oneof![3 => 0..3u16, 1 => 0..300u16];
    (
        prop_oneof![
            6 => Just(0u8),
            2 => 1..3u8,
            2 => 32..36u8,
            2 => 64..66u8,
        ],
        prop_oneof![5 => Just(0u8), 1 => select(&[4u8, 8, 16, 28][..])],
        pos(),
        pos(),
        any::<bool>(),
    )
        .prop_map(|(b, m, x, y, up)| Mouse(b | m, x, y, up && b < 3))
        .boxed()
}

/// the keys of escape sequences, with other modifiers
fn almost_seq() -> BoxedStrategy<Input> {
    (NB_KITTY_KEYS..NB_KITTY_KEYS + 2, select(&[0u8, 1, 3, 4, 5, 6, 7][..]))
        .prop_map(|(k, m)| Kitty(k, m, 1))
        .boxed()
}

fn source_case(tier: Tier) -> BoxedStrategy<SourceCase> {
    let input = prop_oneof![
        8 => key_input(),
        2 => (0..NB_KITTY_KEYS, prop_oneof![3 => Just(0u8), 1 => 0..8u8], 1..4u8).prop_map(|(k, m, kind)| Kitty(k, m, kind)),
        4 => mouse_input(),
        1 => any::<bool>().prop_map(Focus),
        1 => (0..PASTES.len() as u8).prop_map(Paste),
        1 => (1..300u16, 1..100u16).prop_map(|(w, h)| Resize(w, h)),
        3 => Just(SeqStart),
        3 => Just(SeqEnd),
        2 => almost_seq(),
    ];
    // what starts like an escape sequence, with other modifiers, or ends this way
    let almost = (almost_seq(), vec(select(&['a', 'Z', '7'][..]), 0..3), prop_oneof![Just(SeqEnd), almost_seq()])
        .prop_map(|(start, chars, end)| {
            let mut v: Vec<Input> = chars.into_iter().map(Char).collect();
            v.insert(0, start);
            v.push(end);
            v
        });
    let seq = vec(key_input().prop_filter("plain", |k| !matches!(k, AltChar(_) | Ctrl(_) | Function(..))), 0..6)
        .prop_map(|mut v| {
            v.insert(0, SeqStart);
            v.push(SeqEnd);
            v
        });
    // keys pressed together
    let chord = (vec(0..NB_KITTY_KEYS, 1..5), prop_oneof![Just(0u8), 0..8u8], any::<bool>()).prop_map(|(keys, m, repeat)| {
        let mut v: Vec<Input> = keys.iter().map(|k| Kitty(*k, m, 1)).collect();
        if repeat {
            v.push(Kitty(keys[0], m, 2));
        }
        v.extend(keys.iter().map(|k| Kitty(*k, m, 3)));
        v
    });
    // more than what's kept
    let many = vec(select(&['a', 'Z', '7'][..]), 9..13).prop_map(|v| {
        v.into_iter().flat_map(|c| [SeqStart, Char(c), SeqEnd]).collect::<Vec<_>>()
    });
    // a very long sequence, complete or not
    let long = (200..580usize, select(&['a', 'Z', '7'][..]), any::<bool>()).prop_map(|(n, c, complete)| {
        let mut v = vec![Char(c); n];
        v.insert(0, SeqStart);
        v.push(if complete { SeqEnd } else { Ctrl(b'a') });
        v
    });
    let chunk = prop_oneof![64 => vec(input, 1..4), 16 => seq, 8 => chord, 4 => almost, 4 => many, 1 => long];
    (
        prop::option::weighted(0.7, any::<(bool, bool, bool)>()),
        prop::option::weighted(0.25, (prop::bool::weighted(0.8), any::<bool>())),
        vec((chunk, prop::bool::weighted(0.3)), 0..tier.pick(14, 40)),
        vec(prop::bool::weighted(0.15), 8),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(options, combine, chunks, holds, drop)| SourceCase {
            options,
            combine,
            inputs: chunks
                .into_iter()
                .flat_map(|(c, sync)| c.into_iter().enumerate().map(move |(i, c)| (c, sync && i == 0)))
                .collect(),
            holds,
            drop,
            clicks: false,
        })
        .boxed()
}

/// the keys of the escape sequences which are complete, and the events which
/// are delivered, when this input is sent
struct SourceModel {
    seq: Option<Vec<KeyEvent>>,
    seqs: Vec<Vec<KeyEvent>>,
    discard_move: bool,
    discard_drag: bool,
    discard_raw: bool,
    combiner: Combiner,
}
type Delivered = (Event, Option<KeyCombination>);
impl SourceModel {
    fn apply(&mut self, event: &Event) -> Vec<Delivered> {
        let events = self.events(event);
        events
            .into_iter()
            .filter_map(|e| {
                let Event::Key(key) = &e else { return Some((e, None)) };
                let combination = self.combiner.transform(*key);
                if combination.is_none() && self.discard_raw {
                    return None;
                }
                Some((e, combination))
            })
            .collect()
    }
    fn events(&mut self, event: &Event) -> Vec<Event> {
        let start = KeyEvent::new(KeyCode::Char('_'), KeyModifiers::ALT);
        let end = KeyEvent::new(KeyCode::Char('\\'), KeyModifiers::ALT);
        let mut out = Vec::new();
        if let Some(mut keys) = self.seq.take() {
            if let Event::Key(key) = event {
                if *key == end {
                    keys.push(*key);
                    self.seqs.push(keys);
                    return out;
                }
                if (key.modifiers & (KeyModifiers::ALT | KeyModifiers::CONTROL)).is_empty() {
                    keys.push(*key);
                    self.seq = Some(keys);
                    return out;
                }
            }
            // not an escape sequence: all is delivered
            out.extend(keys.into_iter().map(Event::Key));
        } else if *event == Event::Key(start) {
            self.seq = Some(vec![start]);
            return out;
        }
        let discarded = match event {
            Event::Mouse(m) => match m.kind {
                MouseEventKind::Moved => self.discard_move,
                MouseEventKind::Drag(_) => self.discard_drag,
                _ => false,
            },
            _ => false,
        };
        if !discarded {
            out.push(event.clone());
        }
        out
    }
}

fn check_source(case: &SourceCase) -> CheckResult {
    // a very slow computer may cut an escape sequence between its bytes, which
    // makes it something else: a failure must be repeated
    let mut first = None;
    let mut failures = 0;
    for _ in 0..3 {
        match in_worker("source", case) {
            Ok(info) if failures == 0 => return Ok(info),
            Ok(_) => {}
            Err(e) => {
                failures += 1;
                if failures == 2 {
                    return Err(first.unwrap_or(e));
                }
                first = Some(e);
            }
        }
    }
    Ok(Info::new())
}

pub fn source_in_worker(case: &SourceCase, tty: &Tty) -> CheckResult {
    let info = RefCell::new(Info::new());
    tty.set_size(80, 24)?;
    let before = tty.settings()?;
    ensure!(!tty.is_raw()?, "the terminal is raw before the creation of the source");
    let defaults = EventSourceOptions::default();
    let (discard_move, discard_drag, discard_raw) = case.options.unwrap_or((true, false, true));
    let kitty = case.combine.is_some_and(|c| c.0);
    KITTY.store(kitty, Ordering::SeqCst);
    let source = match (case.options, case.combine) {
        (None, None) => EventSource::new(),
        (None, Some((_, mandate))) => EventSource::with_options(EventSourceOptions {
            combine_keys: true,
            mandate_modifier_for_multiple_keys: mandate,
            ..defaults
        }),
        (Some((m, d, r)), combine) => EventSource::with_options(EventSourceOptions {
            combine_keys: combine.is_some(),
            mandate_modifier_for_multiple_keys: combine.is_none_or(|c| c.1),
            discard_mouse_move: m,
            discard_mouse_drag: d,
            discard_raw_key_events: r,
        }),
    }
    .map_err(|e| e.to_string())?;
    let mut combiner = Combiner::default();
    if kitty {
        combiner.set_keyboard_enhancement_flags_externally_managed();
        combiner.enable_combining().map_err(|e| e.to_string())?;
    }
    combiner.set_mandate_modifier_for_multiple_keys(case.combine.is_none_or(|c| c.1));
    ensure!(tty.is_raw()?, "the terminal isn't in raw mode with an event source");
    ensure_eq!(source.supports_multi_key_combinations(), kitty, "supports_multi_key_combinations");
    let flags = |n: i32, when: &str| {
        // the terminal needs some time to receive it
        let start = Instant::now();
        while KITTY_FLAGS.load(Ordering::SeqCst) != n {
            ensure!(start.elapsed() < patience(), "{} keyboard flags {when}", KITTY_FLAGS.load(Ordering::SeqCst));
            std::thread::sleep(Duration::from_millis(1));
        }
        Ok(())
    };
    flags(i32::from(kitty), "on start")?;
    let rx = source.receiver();
    let rx_seqs = source.escape_sequence_receiver();
    let count = source.shared_event_count();
    ensure_eq!(count.load(Ordering::SeqCst), 0, "initial event count");
    let mut model = SourceModel { seq: None, seqs: Vec::new(), discard_move, discard_drag, discard_raw, combiner };
    let mut received: Vec<TimedEvent> = Vec::new();
    let mut last_up: Option<(Instant, u16, u16)> = None;
    let begin = Instant::now();
    let mut first = true;

    // receive the events up to now expected
    let mut receive = |expected: &mut Vec<Delivered>| -> Result<(), String> {
        let nb = expected.len();
        for (i, (e, combination)) in expected.drain(..).enumerate() {
            if !first {
                source.unblock(false);
            }
            first = false;
            let te = rx
                .recv_timeout(patience())
                .map_err(|err| format!("{err} instead of {e:?} after {received:?}"))?;
            ensure!(te.event == e, "received {:?} instead of {e:?} after {received:?}", te.event);
            let n = received.len() + 1;
            ensure_eq!(count.load(Ordering::SeqCst), n, "shared event count at event {n}");
            ensure_eq!(te.key_combination, combination, "key combination of {e:?}");
            if case.holds[n % case.holds.len()] {
                std::thread::sleep(Duration::from_millis(2));
                ensure!(rx.is_empty(), "event emitted before unblocking, after {e:?}");
                ensure_eq!(count.load(Ordering::SeqCst), n, "shared event count before unblocking");
                info.borrow_mut().hit(i + 1 < nb, "blocked with events to come");
            }
            if let Some(prev) = received.last() {
                ensure!(te.time >= prev.time, "times not in order");
            }
            ensure!(te.time >= begin && te.time <= Instant::now(), "wrong time of {e:?}");
            let mut double = false;
            if let Event::Mouse(MouseEvent { kind, column, row, .. }) = e {
                let left = matches!(kind, MouseEventKind::Down(MouseButton::Left) | MouseEventKind::Up(MouseButton::Left));
                if left {
                    if let Some((time, x, y)) = last_up {
                        double = (x, y) == (column, row) && te.time - time < Duration::from_millis(700);
                        info.borrow_mut().class(case.clicks && (x, y) == (column, row) && !double, "click too late for a double click");
                    }
                }
                if kind == MouseEventKind::Up(MouseButton::Left) {
                    last_up = Some((te.time, column, row));
                }
            }
            if case.clicks {
                ensure_eq!(te.double_click, double, "double_click flag of {e:?} after {received:?}");
                let click = match e {
                    Event::Mouse(MouseEvent {
                        kind: MouseEventKind::Up(MouseButton::Left),
                        column,
                        row,
                        modifiers: KeyModifiers::NONE,
                    }) if !double => Some((column, row)),
                    _ => None,
                };
                ensure_eq!(te.as_click(), click, "as_click of {te:?}");
                info.borrow_mut().hit(double, "double click");
            }
            if let Event::Key(k) = e {
                ensure!(te.is_key(k), "{te:?} isn't the key {k:?}");
                if let Some(c) = te.key_combination {
                    ensure!(te.is_key(c), "{te:?} isn't the combination {c}");
                }
                let other = KeyEvent::new(KeyCode::F(11), k.modifiers);
                ensure!(!te.is_key(other), "{te:?} is the key {other:?}");
            } else {
                ensure!(!te.is_key(KeyEvent::new(KeyCode::Enter, KeyModifiers::NONE)), "{te:?} is a key");
            }
            received.push(te);
        }
        Ok(())
    };

    let mut master = &tty.master;
    let mut expected: Vec<Delivered> = Vec::new();
    let mut send = |s: &str| master.write_all(s.as_bytes()).map_err(|e| e.to_string());
    let mut size = (80, 24);
    let mut pending = 0;
    // the size is restored for the next case
    let restore = (Resize(80, 24), false);
    for (input, sync) in case.inputs.iter().chain([&restore]) {
        match input {
            Pause(ms) => {
                receive(&mut expected)?;
                std::thread::sleep(Duration::from_millis(u64::from(*ms)));
                continue;
            }
            Resize(w, h) => {
                if (*w, *h) == size {
                    continue;
                }
                size = (*w, *h);
                // resizing isn't sent with the keys: previous ones must have been received
                send(END)?;
                expected.extend(model.apply(&end_event()));
                receive(&mut expected)?;
                // the source is now listening
                expected.push((Event::Resize(*w, *h), None));
                tty.set_size(*w, *h)?;
                receive(&mut expected)?;
                continue;
            }
            _ => {}
        }
        if *sync {
            receive(&mut expected)?;
        }
        let Some(event) = input.event() else { continue };
        // crossterm reads at most 1024 bytes when it's told that some are
        // available, and the other ones wait for the next input
        if pending > 300 && model.seq.is_none() {
            send(END)?;
            expected.extend(model.apply(&end_event()));
            receive(&mut expected)?;
            pending = 0;
        }
        pending += input.bytes().len();
        send(&input.bytes())?;
        let seqs = model.seqs.len();
        let delivered = model.apply(&event);
        info.borrow_mut().hit(
            delivered.is_empty() && matches!(event, Event::Key(_)) && model.seq.is_none() && model.seqs.len() == seqs,
            "raw key discarded",
        );
        for (e, combination) in &delivered {
            if let Event::Key(k) = e {
                info.borrow_mut().hit(
                    combination.is_some_and(|c| c != KeyCombination::from(*k)),
                    "combination of keys",
                );
                info.borrow_mut().class(combination.is_none(), "raw key");
            }
        }
        if delivered.len() > 1 {
            info.borrow_mut().hit(true, "keys of an incomplete sequence delivered");
        }
        info.borrow_mut().hit(model.seqs.len() > seqs, "escape sequence");
        info.borrow_mut().hit(delivered.is_empty() && matches!(event, Event::Mouse(_)), "discarded");
        expected.extend(delivered);
    }
    send(END)?;
    expected.extend(model.apply(&end_event()));
    receive(&mut expected)?;
    info.borrow_mut().class(received.len() > 5, "more than 5 events");
    // escape sequences: at most 10 are kept
    let mut seqs = Vec::new();
    while let Ok(seq) = rx_seqs.try_recv() {
        let text: String = seq
            .keys
            .iter()
            .filter_map(|k| match k.code {
                KeyCode::Char(c) if (k.modifiers & !KeyModifiers::SHIFT).is_empty() => Some(c),
                _ => None,
            })
            .collect();
        ensure_eq!(seq.to_string(), text, "display of an escape sequence");
        seqs.push(seq.keys);
    }
    info.borrow_mut().class(model.seqs.len() > 10, "too many sequences");
    model.seqs.truncate(10);
    ensure_eq!(seqs, model.seqs, "escape sequences received");
    // end
    let mut source = Some(source);
    if case.drop {
        source = None;
    } else if let Some(source) = &source {
        source.unblock(true);
    }
    match rx.recv_timeout(patience()) {
        Err(RecvTimeoutError::Disconnected) => {}
        Ok(e) => return Err(format!("event {e:?} received after the end")),
        Err(e) => return Err(format!("{e}: the source doesn't end")),
    }
    if source.is_some() {
        ensure!(tty.is_raw()?, "the terminal isn't in raw mode while the source isn't dropped");
        drop(source);
    }
    flags(0, "on end")?;
    ensure_eq!(tty.settings()?, before, "terminal settings after the drop of the source");
    Ok(info.into_inner())
}

fn end_event() -> Event {
    Event::Paste("end".to_string())
}

fn click_case(tier: Tier) -> BoxedStrategy<SourceCase> {
    let click = || {
        (0..2u16, 0..2u16, prop_oneof![6 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8), 1 => Just(4u8)])
            .prop_map(|(x, y, b)| vec![Mouse(b, x, y, false), Mouse(b, x, y, true)])
    };
    let chunk = prop_oneof![
        10 => click(),
        2 => mouse_input().prop_map(|i| vec![i]),
        1 => key_input().prop_map(|i| vec![i]),
        1 => (0..2u16).prop_map(|x| vec![Mouse(0, x, 0, true)]),
        1 => (0..20u16).prop_map(|ms| vec![Pause(ms)]),
    ];
    let long = prop_oneof![1 => Just(690u16), 2 => Just(705u16), 2 => Just(750u16)];
    (
        vec((chunk, any::<bool>()), 1..tier.pick(12, 25)),
        prop::option::weighted(0.04, (any::<prop::sample::Index>(), long)),
        prop::option::weighted(0.5, any::<(bool, bool, bool)>()),
        any::<bool>(),
    )
        .prop_map(|(chunks, long, options, drop)| {
            let mut inputs: Vec<(Input, bool)> = chunks
                .into_iter()
                .flat_map(|(c, sync)| c.into_iter().map(move |c| (c, sync)))
                .collect();
            if let Some((i, ms)) = long {
                // a pause before a click at the same place
                let i = i.index(inputs.len());
                let tail = [Mouse(0, 1, 1, false), Mouse(0, 1, 1, true)];
                let mut added: Vec<(Input, bool)> = tail.iter().map(|i| (*i, false)).collect();
                added.push((Pause(ms), false));
                added.extend(tail.iter().map(|i| (*i, false)));
                inputs.splice(i..i, added);
            }
            SourceCase { options, combine: None, inputs, holds: vec![false], drop, clicks: true }
        })
        .boxed()
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C24",
            rule: "a beam gives several ticks, or is stopped before its end, or several beams are stopped among others",
            assumptions: &[
                "real threads and clock: schedules aren't controlled; a tick being sent while its beam is stopped may still be received",
                "a missing tick is noticed after 25 s",
                "periods of 0 to 3 ms, infinite beams of at least 0.5 ms, and beams whose period is never reached",
            ],
            max_threads: 8,
            parts: vec![
                part("beams", 2_500, 80_000, tick_case, check_ticks),
                part("stops", 900, 30_000, stop_case, check_stops),
                part("many", 160, 3_000, many_case, check_many),
            ],
        },
        Property {
            id: "C25",
            rule: "a raw key is discarded, or keys are combined, or keys of an incomplete sequence are delivered, or an escape sequence or a discarded event is sent, or events wait for unblocking",
            assumptions: &[
                "the terminal is a pseudo terminal, its inputs being among those crossterm decodes; lone ESC and more than 1024 bytes pending at once are excluded, crossterm not handling them reliably (their decoding depends on timing)",
                "the combination of keys is done by crokey, a dependency, also used by the model; the pseudo terminal answers as one having the kitty protocol",
                "a failing case is reported when it fails at least twice in three runs",
            ],
            max_threads: 8,
            parts: vec![part("source", 6_000, 150_000, source_case, check_source)],
        },
        Property {
            id: "C26",
            rule: "there's a double click",
            assumptions: &[
                "the time of events is the one given in the event",
                "a failing case is reported when it fails at least twice in three runs",
            ],
            max_threads: 8,
            parts: vec![part("clicks", 4_000, 60_000, click_case, check_source)],
        },
    ]
}
