use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, panic_any, AssertUnwindSafe};

/// xoshiro256**, seeded by splitmix64.
#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn below(&mut self, n: u32) -> u32 {
        ((self.next() >> 32).wrapping_mul(n as u64) >> 32) as u32
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Stable name of what is broken; minimisation keeps it fixed.
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Violation>;

pub fn violation<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Violation { class: class.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! fail {
    ($class:expr, $($t:tt)*) => { return $crate::violation($class, format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($t:tt)*) => { if !$cond { return $crate::violation($class, format!($($t)*)); } };
}

#[macro_export]
macro_rules! ev {
    ($ctx:expr, $($t:tt)*) => { $ctx.event(format_args!($($t)*)) };
}

/// Payload of a panic injected by the simulator.
pub struct Injected(pub &'static str);

pub fn inject(kind: &'static str) -> ! {
    panic_any(Injected(kind))
}

pub enum Outcome<T> {
    Done(T),
    Injected(&'static str),
    Panicked(String),
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub(crate) fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        if info.payload().is::<Injected>() {
            return;
        }
        let text = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{text} at {loc}")));
    }));
}

/// Runs code under test, catching injected and genuine panics.
pub fn guard<T>(f: impl FnOnce() -> T) -> Outcome<T> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Outcome::Done(v),
        Err(payload) => match payload.downcast::<Injected>() {
            Ok(inj) => Outcome::Injected(inj.0),
            Err(_) => Outcome::Panicked(
                LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()),
            ),
        },
    }
}

/// Runs code under test that must not panic.
pub fn no_panic<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match guard(f) {
        Outcome::Done(v) => Ok(v),
        Outcome::Injected(k) => violation(format!("escaped-injected-{k}"), format!("{what}: injected failure escaped")),
        Outcome::Panicked(m) => violation(format!("panic in {what}"), m),
    }
}

pub struct Ctx {
    tape: Vec<u32>,
    pos: usize,
    rng: Option<Rng>,
    sink: Option<std::fs::File>,
    spans: Vec<(u32, u32)>,
    hash: u64,
    buf: String,
    trace: Option<Vec<String>>,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    /// Simulated steps (operations of the system under test).
    pub steps: u64,
    /// Set by a scenario when the run got somewhere (see each property's rule).
    pub nontrivial: bool,
}

impl Ctx {
    pub fn search(seed: u64) -> Self {
        Self::make(vec![], Some(Rng::new(seed)))
    }
    pub fn replay(tape: Vec<u32>) -> Self {
        Self::make(tape, None)
    }
    fn make(tape: Vec<u32>, rng: Option<Rng>) -> Self {
        Ctx {
            tape,
            pos: 0,
            rng,
            sink: None,
            spans: vec![],
            hash: 0xcbf2_9ce4_8422_2325,
            buf: String::new(),
            trace: None,
            faults: BTreeMap::new(),
            probes: BTreeMap::new(),
            steps: 0,
            nontrivial: false,
        }
    }
    pub fn with_trace(mut self) -> Self {
        self.trace = Some(vec![]);
        self
    }
    pub fn with_sink(mut self, f: std::fs::File) -> Self {
        self.sink = Some(f);
        self
    }
    pub fn tracing(&self) -> bool {
        self.trace.is_some()
    }
    pub fn take_trace(&mut self) -> Vec<String> {
        self.trace.take().unwrap_or_default()
    }
    pub fn hash(&self) -> u64 {
        self.hash
    }
    pub fn tape(&self) -> &[u32] {
        &self.tape[..self.pos.min(self.tape.len())]
    }
    pub fn spans(&self) -> &[(u32, u32)] {
        &self.spans
    }

    // --- choices ---

    /// A choice in 0..n. 0 is the simplest choice.
    pub fn below(&mut self, n: u32) -> u32 {
        let n = n.max(1);
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos].min(n - 1)
        } else if let Some(rng) = &mut self.rng {
            let v = rng.below(n);
            self.tape.push(v);
            v
        } else {
            // Exhausted tape: simplest choice, not recorded.
            return 0;
        };
        self.tape[self.pos] = v;
        self.pos += 1;
        if let Some(f) = &mut self.sink {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    }
    pub fn range(&mut self, lo: u32, hi: u32) -> u32 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; a zero on the tape means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        if num == 0 {
            return false;
        }
        self.below(den) >= den.saturating_sub(num)
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        let i = self.below(items.len() as u32) as usize;
        &items[i]
    }
    /// Index drawn with the given weights.
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, &w) in weights.iter().enumerate() {
            if v < w {
                return i;
            }
            v -= w;
        }
        0
    }
    /// A full-range 32-bit choice.
    pub fn any_u32(&mut self) -> u32 {
        self.below(u32::MAX)
    }
    /// Mixes small and huge values.
    pub fn spread_u32(&mut self) -> u32 {
        match self.below(6) {
            0 => self.below(8),
            1 => self.below(300),
            2 => 250 + self.below(12),
            3 => 65530 + self.below(12),
            4 => (1 << 24) - 6 + self.below(12),
            _ => u32::MAX - self.below(6),
        }
    }
    /// Fisher-Yates permutation; the zero tape gives the identity.
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        let n = v.len();
        for i in 0..n.saturating_sub(1) {
            let j = i + self.below((n - i) as u32) as usize;
            v.swap(i, j);
        }
    }
    pub fn span_start(&self) -> usize {
        self.pos
    }
    pub fn span_end(&mut self, start: usize) {
        if self.pos > start {
            self.spans.push((start as u32, self.pos as u32));
        }
    }

    // --- records ---

    /// Decides whether a fault fires here and counts it if it does.
    pub fn fault(&mut self, kind: &'static str, num: u32, den: u32) -> bool {
        let fired = self.chance(num, den);
        if fired {
            self.fired(kind);
        }
        fired
    }
    pub fn fired(&mut self, kind: &'static str) {
        *self.faults.entry(kind).or_insert(0) += 1;
    }
    pub fn probe(&mut self, name: &'static str) {
        *self.probes.entry(name).or_insert(0) += 1;
    }
    pub fn event(&mut self, args: std::fmt::Arguments) {
        self.buf.clear();
        let _ = self.buf.write_fmt(args);
        for &b in self.buf.as_bytes() {
            self.hash = (self.hash ^ b as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.hash = (self.hash ^ 10).wrapping_mul(0x0000_0100_0000_01B3);
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                t.push(self.buf.clone());
            }
        }
    }
    /// A line for the trace that is not part of the hash of the run.
    pub fn note(&mut self, args: std::fmt::Arguments) {
        if let Some(t) = &mut self.trace {
            if t.len() < 20_000 {
                t.push(args.to_string());
            }
        }
    }
    pub fn step(&mut self) {
        self.steps += 1;
    }
}

/// Runs a scenario, turning an escaped panic into a violation.
pub fn run_scenario(scenario: fn(&mut Ctx) -> R, ctx: &mut Ctx) -> R {
    let r = match guard(|| scenario(ctx)) {
        Outcome::Done(r) => r,
        Outcome::Injected(k) => violation(format!("escaped-injected-{k}"), "injected failure escaped to the top"),
        Outcome::Panicked(m) => {
            let loc = m.rsplit(" at ").next().unwrap_or("").to_string();
            violation(format!("panic at {loc}"), m)
        }
    };
    match &r {
        Ok(()) => ev!(ctx, "verdict ok"),
        Err(v) => ev!(ctx, "verdict VIOLATION {}: {}", v.class, v.msg),
    }
    r
}
