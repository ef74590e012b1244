//! The checks run in a child process, so that a hang, a memory exhaustion, a
//! stack overflow or an abort of the tested code is a reported violation, with
//! the guilty case, and not a check without answer.

use {
    crate::engine::verif_dir,
    serde_json::{
        json,
        Value,
    },
    std::{
        cell::Cell,
        fs::File,
        io::Read,
        os::fd::{
            AsRawFd,
            FromRawFd,
        },
        os::unix::fs::FileExt,
        os::unix::process::ExitStatusExt,
        process::{
            Child,
            Command,
            ExitStatus,
        },
        sync::{
            atomic::{
                AtomicU64,
                Ordering,
            },
            OnceLock,
        },
        time::{
            Duration,
            Instant,
        },
    },
};

const SLOTS: usize = 64;
const SLOT_SIZE: u64 = 4 << 20;
/// a case taking so much time is a hang (most of them take less than a ms)
const HANG: u64 = 60_000;
const MAX_RSS: u64 = 8 << 30;
const STUCK: i32 = 77;
const SLOT_VAR: &str = "VP_SLOT_FD";

static SLOT_FILE: OnceLock<Option<File>> = OnceLock::new();
static STARTS: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static EPOCH: OnceLock<Instant> = OnceLock::new();

thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(SLOTS) };
}

fn now() -> u64 {
    EPOCH.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

fn slot_file() -> Option<&'static File> {
    SLOT_FILE
        .get_or_init(|| {
            let fd = std::env::var(SLOT_VAR).ok()?.parse::<i32>().ok()?;
            // safety: the fd is inherited for this purpose
            Some(unsafe { File::from_raw_fd(fd) })
        })
        .as_ref()
}

pub fn set_slot(slot: usize) {
    SLOT.with(|s| s.set(slot.min(SLOTS)));
}

/// note that the current thread starts checking this case
pub fn enter(part: &str, json: &str) {
    let slot = SLOT.with(|s| s.get());
    if slot == SLOTS {
        return;
    }
    STARTS[slot].store(now(), Ordering::SeqCst);
    if let Some(file) = slot_file() {
        let content = format!("{:>12} {:>12} {part}\n{json}", part.len() + 1 + json.len(), now());
        if content.len() < SLOT_SIZE as usize {
            let _ = file.write_at(content.as_bytes(), slot as u64 * SLOT_SIZE);
        }
    }
}

pub fn leave() {
    let slot = SLOT.with(|s| s.get());
    if slot < SLOTS {
        STARTS[slot].store(0, Ordering::SeqCst);
        if let Some(file) = slot_file() {
            let _ = file.write_at(&[0], slot as u64 * SLOT_SIZE);
        }
    }
}

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1).and_then(|s| s.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4096
}

/// exit when a case hangs, too much memory is used, or after this number of seconds
pub fn watch(limit: u64) {
    now();
    std::thread::spawn(move || {
        let start = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(100));
            if rss() > MAX_RSS {
                eprintln!("too much memory used");
                std::process::exit(STUCK);
            }
            let t = now();
            for s in &STARTS {
                let s = s.load(Ordering::SeqCst);
                if s > 0 && t.saturating_sub(s) > HANG {
                    eprintln!("a case doesn't end");
                    std::process::exit(STUCK);
                }
            }
            if start.elapsed().as_secs() > limit {
                eprintln!("ERROR: no answer after {limit} s (inconclusive)");
                std::process::exit(3);
            }
        }
    });
}

fn wait(child: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let start = Instant::now();
    loop {
        match child.try_wait() {
            Ok(Some(status)) => return Some(status),
            Ok(None) if start.elapsed() > limit => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(5)),
            Err(_) => return None,
        }
    }
}

fn die_with_parent() -> std::io::Result<()> {
    unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
    Ok(())
}

pub fn run(id: &str) -> i32 {
    use std::os::unix::process::CommandExt;
    let fd = unsafe { libc::memfd_create(c"vp-slots".as_ptr(), 0) };
    if fd < 0 {
        eprintln!("ERROR: memfd_create failed");
        return 2;
    }
    let slots = unsafe { File::from_raw_fd(fd) };
    let exe = match std::env::current_exe() {
        Ok(exe) => exe,
        Err(e) => {
            eprintln!("ERROR {e}");
            return 2;
        }
    };
    let mut cmd = Command::new(&exe);
    cmd.args(["run-inner", id]).env(SLOT_VAR, slots.as_raw_fd().to_string());
    unsafe { cmd.pre_exec(die_with_parent) };
    let status = match cmd.status() {
        Ok(s) => s,
        Err(e) => {
            eprintln!("ERROR {e}");
            return 2;
        }
    };
    match status.code() {
        Some(STUCK) | None => {}
        // 101: a panic out of any case, thus in the harness
        Some(c) => return c,
    }
    // find the guilty case among the ones which were running
    let mut cases: Vec<(u64, String, Value)> = Vec::new();
    for slot in 0..SLOTS as u64 {
        let mut head = [0u8; 26];
        if slots.read_exact_at(&mut head, slot * SLOT_SIZE).is_err() || head[0] == 0 {
            continue;
        }
        let head = String::from_utf8_lossy(&head).to_string();
        let mut nums = head.split_whitespace().map(|s| s.parse::<u64>().unwrap_or(0));
        let (Some(len), Some(start)) = (nums.next(), nums.next()) else {
            continue;
        };
        let mut content = vec![0u8; len as usize];
        if len > SLOT_SIZE || slots.read_exact_at(&mut content, slot * SLOT_SIZE + 26).is_err() {
            continue;
        }
        let content = String::from_utf8_lossy(&content).to_string();
        if let Some((part, json)) = content.split_once('\n') {
            if let Ok(v) = serde_json::from_str(json) {
                cases.push((start, part.to_string(), v));
            }
        }
    }
    cases.sort_by_key(|c| c.0);
    let out_dir = verif_dir().join("out").join("replay");
    let _ = std::fs::create_dir_all(&out_dir);
    for (_, part, case) in cases {
        let path = out_dir.join(format!("{id}-{part}.json"));
        let v = json!({
            "property": id,
            "part": part,
            "case": case,
            "message": "the check of this case doesn't end normally (hang, memory exhaustion, or abort)",
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
        let mut cmd = Command::new(&exe);
        cmd.arg("replay").arg(&path).stdout(std::process::Stdio::piped());
        unsafe { cmd.pre_exec(die_with_parent) };
        let Ok(mut child) = cmd.spawn() else { continue };
        let status = wait(&mut child, Duration::from_secs(60));
        let guilty = match status {
            None => Some("it doesn't end".to_string()),
            Some(s) if s.code() == Some(STUCK) => Some("it uses too much memory or time".to_string()),
            Some(s) if s.code() == Some(1) => {
                let mut out = String::new();
                if let Some(mut o) = child.stdout.take() {
                    let _ = o.read_to_string(&mut out);
                }
                Some(out.lines().next().unwrap_or("").to_string())
            }
            Some(s) => s.signal().map(|s| format!("it's killed by the signal {s}")),
        };
        if let Some(why) = guilty {
            println!("--- {id} / {part}: {why}");
            println!("    case: {case}");
            println!("VIOLATION property={id} replay={}", path.display());
            return 1;
        }
        let _ = std::fs::remove_file(&path);
    }
    eprintln!("ERROR: the check was interrupted ({status}), and no case explains it");
    2
}
