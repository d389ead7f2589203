//! One page: a process of its own, forked from a state in which gearley-wasm was never called.

use std::ffi::c_int;
use std::fmt;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd};
use std::sync::Mutex;

#[derive(Clone, Debug, PartialEq)]
pub enum Call {
    Parse { input: String, grammar: String, mode: String },
    Grammars,
    Examples(String),
    /// The page takes what the log holds.
    Logs,
    /// Somebody else on the page logs.
    Stranger(u32),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Answer {
    Text(String),
    Panicked,
}

impl Answer {
    pub fn short(&self) -> String {
        match self {
            Answer::Text(s) => {
                // Enough to tell two texts apart.
                let h = s.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                format!("{} bytes {h:016x} {:?}", s.len(), s.chars().take(40).collect::<String>())
            }
            Answer::Panicked => "a panic".into(),
        }
    }
}

/// Who has installed a logger before the first call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Logger {
    None,
    /// Somebody whose logger shows nothing here.
    Deaf,
    /// The simulator, which writes every record down.
    Records,
}

#[derive(Default, Debug)]
pub struct Page {
    pub answers: Vec<Answer>,
    pub records: Vec<String>,
}

#[derive(Debug)]
pub struct Lost {
    pub done: usize,
    status: c_int,
}

impl fmt::Display for Lost {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "the page ended (status {:#x})", self.status)
    }
}

extern "C" {
    fn fork() -> c_int;
    fn pipe(fds: *mut c_int) -> c_int;
    fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    fn _exit(code: c_int) -> !;
    fn prctl(what: c_int, arg: u64, a: u64, b: u64, c: u64) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn close(fd: c_int) -> c_int;
}

static RECORDS: Mutex<Vec<String>> = Mutex::new(vec![]);

struct Recorder;
static RECORDER: Recorder = Recorder;

impl log::Log for Recorder {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let s = r.args().to_string();
        if let Ok(mut v) = RECORDS.lock() {
            v.push(s);
        }
    }
    fn flush(&self) {}
}

struct Deaf;
static DEAF: Deaf = Deaf;

impl log::Log for Deaf {
    fn enabled(&self, _: &log::Metadata) -> bool {
        false
    }
    fn log(&self, _: &log::Record) {}
    fn flush(&self) {}
}

/// Whether the loader (a stand-in) takes a text.
pub fn loads(text: &str, advanced: bool) -> bool {
    use cfg_load::{CfgLoadAdvancedExt, CfgLoadExt};
    if advanced {
        cfg::Cfg::load_advanced(text).is_ok()
    } else {
        cfg::Cfg::load(text).is_ok()
    }
}

fn perform(c: &Call) -> Answer {
    let r = std::panic::catch_unwind(|| match c {
        Call::Parse { input, grammar, mode } => gearley_wasm::parse(input, grammar, mode),
        Call::Grammars => gearley_wasm::getGrammars().join("\x1f"),
        Call::Examples(id) => gearley_wasm::getExamples(id.clone()).join("\x1f"),
        Call::Logs => gearley_wasm::get_logs(),
        Call::Stranger(n) => {
            for i in 0..*n {
                log::warn!("a stranger's record {i}");
            }
            String::new()
        }
    });
    match r {
        Ok(s) => Answer::Text(s),
        Err(_) => Answer::Panicked,
    }
}

fn put(f: &mut File, tag: u8, s: &str) {
    let _ = f.write_all(&[tag]);
    let _ = f.write_all(&(s.len() as u64).to_le_bytes());
    let _ = f.write_all(s.as_bytes());
}

/// Performs the calls on a fresh page.
pub fn on_page(calls: &[Call], logger: Logger) -> Result<Page, Lost> {
    unsafe {
        let mut fds = [0; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            // The page goes with the simulator.
            prctl(1, 9, 0, 0, 0);
            close(fds[0]);
            if let Ok(null) = File::options().write(true).open("/dev/null") {
                dup2(null.as_raw_fd(), 1);
                dup2(null.as_raw_fd(), 2);
            }
            let mut f = File::from_raw_fd(fds[1]);
            match logger {
                Logger::None => {}
                Logger::Deaf => log::set_logger(&DEAF).expect("the first logger"),
                Logger::Records => {
                    log::set_logger(&RECORDER).expect("the first logger");
                    log::set_max_level(log::LevelFilter::Trace);
                }
            }
            for c in calls {
                match perform(c) {
                    Answer::Text(s) => put(&mut f, b't', &s),
                    Answer::Panicked => put(&mut f, b'p', ""),
                }
            }
            if let Ok(v) = RECORDS.lock() {
                for r in v.iter() {
                    put(&mut f, b'r', r);
                }
            }
            put(&mut f, b'e', "");
            _exit(0);
        }
        close(fds[1]);
        let mut f = File::from_raw_fd(fds[0]);
        let mut all = vec![];
        let _ = f.read_to_end(&mut all);
        let mut status = 0;
        waitpid(pid, &mut status, 0);
        let mut page = Page::default();
        let mut rest = &all[..];
        while rest.len() >= 9 {
            let n = u64::from_le_bytes(rest[1..9].try_into().unwrap()) as usize;
            if rest.len() < 9 + n {
                break;
            }
            let s = String::from_utf8_lossy(&rest[9..9 + n]).into_owned();
            match rest[0] {
                b't' => page.answers.push(Answer::Text(s)),
                b'p' => page.answers.push(Answer::Panicked),
                b'r' => page.records.push(s),
                _ => return Ok(page),
            }
            rest = &rest[9 + n..];
        }
        Err(Lost { done: page.answers.len(), status })
    }
}
