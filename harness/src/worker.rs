//! Checks which need their own stdin, stdout, and terminal run in worker
//! processes: each one is a session leader whose controlling terminal is a
//! pseudo terminal it also holds the master of.

use {
    crate::engine::*,
    serde::{
        de::DeserializeOwned,
        Serialize,
    },
    serde_json::{
        json,
        Value,
    },
    std::{
        cell::RefCell,
        fs::File,
        io::{
            BufRead,
            BufReader,
            Read,
            Seek,
            SeekFrom,
            Write,
        },
        os::fd::{
            AsRawFd,
            FromRawFd,
        },
        process::{
            Child,
            ChildStdin,
            ChildStdout,
            Command,
            Stdio,
        },
        sync::atomic::{
            AtomicBool,
            AtomicI32,
            Ordering,
        },
        time::{
            Duration,
            Instant,
        },
    },
};

/// a case whose worker doesn't answer after this time is a hang
fn timeout() -> Duration {
    patience() + Duration::from_secs(15)
}
/// what a captured output can't exceed
const MAX_OUTPUT: u64 = 16 << 20;

struct Worker {
    child: Child,
    to: ChildStdin,
    from: ChildStdout,
}

impl Drop for Worker {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static WORKER: RefCell<Option<Worker>> = const { RefCell::new(None) };
}

impl Worker {
    fn new() -> Result<Self, String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?;
        let mut cmd = Command::new(exe);
        cmd.arg("worker");
        Self::start(cmd)
    }
    fn start(mut cmd: Command) -> Result<Self, String> {
        use std::os::unix::process::CommandExt;
        cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
        unsafe {
            cmd.pre_exec(|| {
                libc::setsid();
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            })
        };
        let mut child = cmd.spawn().map_err(|e| format!("can't start a worker: {e}"))?;
        let to = child.stdin.take().ok_or("no stdin")?;
        let from = child.stdout.take().ok_or("no stdout")?;
        Ok(Worker { child, to, from })
    }
    fn read_line(&mut self) -> Result<String, String> {
        let start = Instant::now();
        let mut line: Vec<u8> = Vec::new();
        let mut buf = vec![0u8; 65536];
        loop {
            let left = timeout().saturating_sub(start.elapsed());
            if left.is_zero() {
                return Err(format!("no answer after {:?}: hang or endless output", timeout()));
            }
            let mut pfd = libc::pollfd { fd: self.from.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let r = unsafe { libc::poll(&mut pfd, 1, left.as_millis().min(500) as i32) };
            if r <= 0 {
                continue;
            }
            match self.from.read(&mut buf) {
                Ok(0) => {
                    let status = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
                    return Err(format!("the process died ({status})"));
                }
                Ok(n) => {
                    line.extend_from_slice(&buf[..n]);
                    if line.last() == Some(&b'\n') {
                        return String::from_utf8(line).map_err(|e| e.to_string());
                    }
                }
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(e) => return Err(e.to_string()),
            }
        }
    }
}

/// check a case in the worker of this thread
pub fn in_worker<C: Serialize>(what: &str, case: &C) -> CheckResult {
    WORKER.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            *w = Some(Worker::new()?);
        }
        let worker = w.as_mut().unwrap();
        let mut line = json!({ "what": what, "case": case, "patience": patience().as_millis() as u64 }).to_string();
        line.push('\n');
        let answer = worker
            .to
            .write_all(line.as_bytes())
            .map_err(|e| format!("worker: {e}"))
            .and_then(|()| worker.read_line());
        let answer = match answer {
            Ok(a) => a,
            Err(e) => {
                *w = None;
                return Err(e);
            }
        };
        let v: Value = serde_json::from_str(&answer).map_err(|e| format!("{e} in {answer:?}"))?;
        if let Some(e) = v["error"].as_str() {
            // the state of this process can't be trusted anymore
            *w = None;
            return Err(e.to_string());
        }
        let mut info = Info::new();
        info.nontrivial = v["nontrivial"] == true;
        for c in v["classes"].as_array().into_iter().flatten() {
            info.classes.push(intern(c.as_str().unwrap_or("")));
        }
        Ok(info)
    })
}

/// what the program compiled without the optional features answers
pub fn plain_answer(req: &crate::plain::Req) -> Result<Vec<(String, String)>, String> {
    thread_local! {
        static PLAIN: RefCell<Option<Worker>> = const { RefCell::new(None) };
    }
    PLAIN.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let exe = std::env::current_exe().map_err(|e| e.to_string())?.with_file_name("vp-plain");
            if !exe.exists() {
                return Err("the crate doesn't compile without its default features".to_string());
            }
            *w = Some(Worker::start(Command::new(exe))?);
        }
        let worker = w.as_mut().unwrap();
        let mut line = serde_json::to_string(req).map_err(|e| e.to_string())?;
        line.push('\n');
        let answer = worker
            .to
            .write_all(line.as_bytes())
            .map_err(|e| format!("plain worker: {e}"))
            .and_then(|()| worker.read_line());
        match answer {
            Ok(a) => serde_json::from_str(&a).map_err(|e| format!("{e} in {a:?}"))?,
            Err(e) => {
                *w = None;
                Err(e)
            }
        }
    })
}

fn intern(s: &str) -> &'static str {
    use std::{
        collections::HashSet,
        sync::Mutex,
    };
    static NAMES: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut names = NAMES.lock().unwrap();
    let names = names.get_or_insert_with(HashSet::new);
    if let Some(n) = names.get(s) {
        return n;
    }
    let n: &'static str = Box::leak(s.to_string().into_boxed_str());
    names.insert(n);
    n
}

// ------------------------------------------------ in the worker

pub struct Tty {
    pub master: File,
    pub slave: File,
}

impl Tty {
    fn open() -> Result<Self, String> {
        unsafe {
            let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if master < 0 || libc::grantpt(master) < 0 || libc::unlockpt(master) < 0 {
                return Err("can't open a pseudo terminal".to_string());
            }
            let mut name = [0 as libc::c_char; 256];
            if libc::ptsname_r(master, name.as_mut_ptr(), name.len()) != 0 {
                return Err("no name for the pseudo terminal".to_string());
            }
            // as a session leader, this makes it the controlling terminal
            let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_CLOEXEC);
            if slave < 0 {
                return Err("can't open the slave of the pseudo terminal".to_string());
            }
            libc::ioctl(slave, libc::TIOCSCTTY, 0);
            Ok(Tty { master: File::from_raw_fd(master), slave: File::from_raw_fd(slave) })
        }
    }
    pub fn set_size(&self, cols: u16, rows: u16) -> Result<(), String> {
        let mut ws: libc::winsize = unsafe { std::mem::zeroed() };
        let r = unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::TIOCGWINSZ, &mut ws) };
        if r == 0 && (ws.ws_col, ws.ws_row) == (cols, rows) {
            return Ok(());
        }
        let ws = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        let r = unsafe { libc::ioctl(self.slave.as_raw_fd(), libc::TIOCSWINSZ, &ws) };
        if r < 0 {
            return Err("can't set the size of the terminal".to_string());
        }
        Ok(())
    }
    /// the terminal settings, as something comparable
    pub fn settings(&self) -> Result<Vec<u64>, String> {
        unsafe {
            let mut t: libc::termios = std::mem::zeroed();
            if libc::tcgetattr(self.slave.as_raw_fd(), &mut t) < 0 {
                return Err("tcgetattr".to_string());
            }
            let mut v = vec![u64::from(t.c_iflag), u64::from(t.c_oflag), u64::from(t.c_cflag), u64::from(t.c_lflag)];
            v.extend(t.c_cc.iter().map(|&c| u64::from(c)));
            Ok(v)
        }
    }
    /// is the terminal neither echoing nor waiting for lines
    pub fn is_raw(&self) -> Result<bool, String> {
        let v = self.settings()?;
        Ok(v[3] & u64::from(libc::ICANON | libc::ECHO | libc::ISIG) == 0)
    }
}

fn memfd() -> Result<File, String> {
    let fd = unsafe { libc::memfd_create(c"vp".as_ptr(), libc::MFD_CLOEXEC) };
    if fd < 0 {
        return Err("memfd_create".to_string());
    }
    Ok(unsafe { File::from_raw_fd(fd) })
}

/// run the function and return what it prints on stdout
pub fn capture<T>(f: impl FnOnce() -> T) -> Result<(T, String), String> {
    capture_flushed(f).map(|(r, out, _)| (r, out))
}

/// same, also telling whether everything was already out when the function returned
pub fn capture_flushed<T>(f: impl FnOnce() -> T) -> Result<(T, String, bool), String> {
    let mut file = memfd()?;
    std::io::stdout().flush().map_err(|e| e.to_string())?;
    let old = unsafe { libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 3) };
    if old < 0 || unsafe { libc::dup2(file.as_raw_fd(), 1) } < 0 {
        return Err("dup".to_string());
    }
    let r = guarded(|| Ok(f()));
    let already_out = file.metadata().map(|m| m.len());
    let flushed = std::io::stdout().flush();
    unsafe {
        libc::dup2(old, 1);
        libc::close(old);
    }
    flushed.map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    file.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
    file.read_to_end(&mut out).map_err(|e| e.to_string())?;
    let complete = already_out.map_err(|e| e.to_string())? == out.len() as u64;
    let out = String::from_utf8(out).map_err(|e| format!("output not utf8: {e}"))?;
    Ok((r?, out, complete))
}

/// run the function with this text as stdin. Also return what it didn't read
pub fn with_stdin<T>(input: &str, f: impl FnOnce() -> T) -> Result<(T, String), String> {
    let mut file = memfd()?;
    file.write_all(input.as_bytes()).map_err(|e| e.to_string())?;
    file.seek(SeekFrom::Start(0)).map_err(|e| e.to_string())?;
    let old = unsafe { libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 3) };
    if old < 0 || unsafe { libc::dup2(file.as_raw_fd(), 0) } < 0 {
        return Err("dup".to_string());
    }
    let r = guarded(|| Ok(f()));
    let mut left = String::new();
    let read = std::io::stdin().lock().read_to_string(&mut left);
    unsafe {
        libc::dup2(old, 0);
        libc::close(old);
    }
    read.map_err(|e| e.to_string())?;
    Ok((r?, left))
}

fn check_as<C: DeserializeOwned>(
    case: Value,
    tty: &Tty,
    check: fn(&C, &Tty) -> CheckResult,
) -> CheckResult {
    let case: C = serde_json::from_value(case).map_err(|e| e.to_string())?;
    guarded(|| check(&case, tty))
}

fn dispatch(what: &str, case: Value, tty: &Tty) -> CheckResult {
    match what {
        "inline-template" => check_as(case, tty, crate::p_print::inline_tpl_in_worker),
        "text-template" => check_as(case, tty, crate::p_print::text_tpl_in_worker),
        "print" => check_as(case, tty, crate::p_print::print_in_worker),
        "source" => check_as(case, tty, crate::p_events::source_in_worker),
        "ask" => check_as(case, tty, crate::p_print::ask_in_worker),
        _ => Err(format!("unknown check {what}")),
    }
}

/// does the terminal support the kitty keyboard protocol
pub static KITTY: AtomicBool = AtomicBool::new(false);
/// how many times keyboard flags were pushed, and not popped
pub static KITTY_FLAGS: AtomicI32 = AtomicI32::new(0);

/// do what a terminal does on receiving (complete) escape sequences
fn answer_queries(seen: &mut Vec<u8>, m: &mut File) {
    while let Some(i) = seen.windows(2).position(|w| w == b"\x1b[") {
        let Some(end) = seen[i + 2..].iter().position(|b| (0x40..0x7f).contains(b)) else {
            seen.drain(..i);
            return;
        };
        let seq: Vec<u8> = seen.drain(..i + 2 + end + 1).skip(i + 2).collect();
        match seq.as_slice() {
            b"?u" if KITTY.load(Ordering::SeqCst) => {
                let _ = m.write_all(b"\x1b[?0u");
            }
            b"c" => {
                let _ = m.write_all(b"\x1b[?62;c");
            }
            [b'>', .., b'u'] => {
                KITTY_FLAGS.fetch_add(1, Ordering::SeqCst);
            }
            [b'<', .., b'u'] => {
                KITTY_FLAGS.fetch_sub(1, Ordering::SeqCst);
            }
            _ => {}
        }
    }
    let keep = seen.len() - usize::from(seen.last() == Some(&0x1b));
    seen.drain(..keep);
}

pub fn serve() -> i32 {
    let limit = libc::rlimit { rlim_cur: MAX_OUTPUT, rlim_max: MAX_OUTPUT };
    let (requests, mut answers) = unsafe {
        libc::setrlimit(libc::RLIMIT_FSIZE, &limit);
        let i = libc::fcntl(0, libc::F_DUPFD_CLOEXEC, 10);
        let o = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 10);
        if i < 0 || o < 0 {
            return 2;
        }
        (File::from_raw_fd(i), File::from_raw_fd(o))
    };
    let tty = match Tty::open() {
        Ok(t) => t,
        Err(e) => {
            let _ = answers.write_all(format!("{}\n", json!({ "error": e })).as_bytes());
            return 2;
        }
    };
    unsafe {
        // the standard input and output are the terminal, when not redirected
        libc::dup2(tty.slave.as_raw_fd(), 0);
        libc::dup2(tty.slave.as_raw_fd(), 1);
    }
    // what's sent to the terminal is dropped
    if let Ok(mut m) = tty.master.try_clone() {
        std::thread::spawn(move || {
            let mut buf = [0u8; 4096];
            let mut seen: Vec<u8> = Vec::new();
            while let Ok(n) = m.read(&mut buf) {
                if n == 0 {
                    break;
                }
                seen.extend_from_slice(&buf[..n]);
                answer_queries(&mut seen, &mut m);
            }
        });
    }
    for line in BufReader::new(requests).lines() {
        let Ok(line) = line else { break };
        let r = serde_json::from_str::<Value>(&line)
            .map_err(|e| e.to_string())
            .and_then(|v| {
                PATIENCE_MS.store(v["patience"].as_u64().unwrap_or(0), Ordering::SeqCst);
                dispatch(v["what"].as_str().unwrap_or(""), v["case"].clone(), &tty)
            });
        let answer = match r {
            Ok(info) => json!({ "nontrivial": info.nontrivial, "classes": info.classes }),
            Err(e) => json!({ "error": e }),
        };
        if answers.write_all(format!("{answer}\n").as_bytes()).is_err() {
            break;
        }
    }
    0
}
