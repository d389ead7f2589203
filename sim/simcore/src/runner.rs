use crate::ctx::*;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File};
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// One property's simulation.
pub struct Prop {
    pub id: &'static str,
    pub scenario: fn(&mut Ctx) -> R,
    /// How cases are made and what makes one non-trivial.
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stubs: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    /// What a simulated step is.
    pub step_unit: &'static str,
    pub quick_secs: u64,
    pub thorough_secs: u64,
    /// Runs are cut off here even if time is left (0: no limit).
    pub quick_max_runs: u64,
    /// Fault kinds and probes that must have been hit at least once in a batch (else harness error).
    pub must_hit: &'static [&'static str],
}

const HANG_SECS: u64 = 40;
/// How long a batch may go on after its time for conditions that it has not met.
const OVERTIME_MS: u64 = 150_000;
const MEM_KB: u64 = 3_500_000;
const MAX_HASHES: usize = 3_000_000;
const TRACE_LINES_IN_REPLAY: usize = 400;

/// Text for the terminal: control characters and replacement characters are escaped, so that the output stays plain text.
fn plain(s: &str) -> String {
    let mut out = String::with_capacity(s.len());
    for c in s.chars() {
        if c == '\n' || c == '\t' || !c.is_control() && c != '\u{fffd}' {
            out.push(c);
        } else {
            out.extend(c.escape_default());
        }
    }
    out
}

fn run_seed(seed: u64, id: &str, run: u64) -> u64 {
    let mut s = seed ^ 0x5EED_0000_0000_0000;
    for b in id.bytes() {
        s = s.wrapping_mul(0x100_0000_01B3) ^ b as u64;
    }
    let a = splitmix(&mut s);
    let mut t = a ^ run.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut t)
}

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

pub fn main(props: &[Prop]) {
    let args: Vec<String> = std::env::args().collect();
    install_hook();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(props, &args),
        Some("worker") => worker(props, &args),
        Some("exec") => exec_server(props, &args),
        Some("replay") => replay(props, &args),
        Some("hashes") => hashes(props, &args),
        Some("trace") => trace(props, &args),
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: check|replay|hashes|trace|list ...");
            2
        }
    };
    std::process::exit(code);
}

fn find<'a>(props: &'a [Prop], args: &[String]) -> &'a Prop {
    let id = args.get(2).map(|s| s.as_str()).unwrap_or("");
    match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    }
}

// ---------------------------------------------------------------- worker

struct Known(Vec<(String, String)>);

impl Known {
    /// Lines `KNOWN-FINDING: property=<id> class=<violation class> :: <text>`.
    fn load(path: Option<&str>, id: &str) -> Known {
        let mut v = vec![];
        if let Some(Ok(text)) = path.map(fs::read_to_string) {
            for line in text.lines() {
                if let Some(rest) = line.strip_prefix(&format!("KNOWN-FINDING: property={id} class=")) {
                    if let Some((class, text)) = rest.split_once(" :: ") {
                        v.push((class.trim().to_string(), text.trim().to_string()));
                    }
                }
            }
        }
        Known(v)
    }
    fn has(&self, class: &str) -> bool {
        self.0.iter().any(|(c, _)| c == class)
    }
}

fn all_bits(n: usize) -> u64 {
    (1u64 << n) - 1
}

/// Required conditions that some worker has met.
fn all_hits(dir: &Path, workers: u64) -> u64 {
    (0..workers)
        .filter_map(|w| fs::read_to_string(dir.join(format!("hits-{w}"))).ok()?.trim().parse::<u64>().ok())
        .fold(0, |a, b| a | b)
}

fn worker(props: &[Prop], args: &[String]) -> i32 {
    let prop = find(props, args);
    let seed: u64 = arg(args, "--seed").unwrap().parse().unwrap();
    let start: u64 = arg(args, "--start").unwrap().parse().unwrap();
    let stride: u64 = arg(args, "--stride").unwrap().parse().unwrap();
    let max_runs: u64 = arg(args, "--max-runs").unwrap().parse().unwrap();
    let millis: u64 = arg(args, "--millis").unwrap().parse().unwrap();
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let known = Known::load(arg(args, "--known").as_deref(), prop.id);
    let progress = File::create(dir.join(format!("progress-{start}"))).unwrap();
    let begin = Instant::now();
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut steps = 0u64;
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut known_hits = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut run = start;
    let mut found: Option<(u64, Violation)> = None;
    let mut samples = vec![];
    let mut hit = 0u64;
    let mut looked = Instant::now();
    loop {
        let late = (begin.elapsed().as_millis() as u64).saturating_sub(millis);
        if max_runs > 0 && run >= max_runs {
            break;
        }
        if late > 0 || begin.elapsed().as_millis() as u64 == millis {
            // On a slow machine a batch goes on until every required condition was met by some worker.
            if max_runs > 0 || late > OVERTIME_MS {
                break;
            }
            if late < 100 || looked.elapsed().as_millis() > 100 {
                looked = Instant::now();
                if all_hits(&dir, stride) | hit == all_bits(prop.must_hit.len()) {
                    break;
                }
            }
        }
        let _ = progress.write_all_at(&(run + 1).to_le_bytes(), 0);
        let mut ctx = Ctx::search(run_seed(seed, prop.id, run));
        let want_sample = samples.len() < 2 && start < 2 && runs > 2;
        if want_sample {
            ctx = ctx.with_trace();
        }
        let r = run_scenario(prop.scenario, &mut ctx);
        runs += 1;
        steps += ctx.steps;
        for (k, v) in &ctx.faults {
            *faults.entry(k).or_insert(0) += v;
        }
        for (k, v) in &ctx.probes {
            *probes.entry(k).or_insert(0) += v;
        }
        if hit != all_bits(prop.must_hit.len()) {
            let mut now = hit;
            for (i, m) in prop.must_hit.iter().enumerate() {
                if ctx.faults.contains_key(m) || ctx.probes.contains_key(m) {
                    now |= 1 << i;
                }
            }
            if now != hit {
                hit = now;
                let _ = fs::write(dir.join(format!("hits-{start}")), hit.to_string());
            }
        }
        if ctx.nontrivial {
            nontrivial += 1;
            if hashes.len() < MAX_HASHES {
                hashes.insert(ctx.hash());
            }
            if want_sample {
                let t = ctx.take_trace();
                let text: Vec<String> = t.into_iter().take(40).collect();
                samples.push(format!("run {run}: {}", text.join(" | ")));
            }
        }
        if let Err(v) = r {
            if known.has(&v.class) {
                known_hits += 1;
            } else {
                found = Some((run, v));
                break;
            }
        }
        run += stride;
    }
    let mut out = String::new();
    out.push_str(&format!("runs {runs}\nsteps {steps}\nnontrivial {nontrivial}\nknown {known_hits}\n"));
    for (k, v) in faults {
        out.push_str(&format!("fault {v} {k}\n"));
    }
    for (k, v) in probes {
        out.push_str(&format!("probe {v} {k}\n"));
    }
    for s in samples {
        out.push_str(&format!("sample {}\n", s.replace('\n', " / ")));
    }
    if let Some((run, v)) = found {
        out.push_str(&format!("violation {run} {} :: {}\n", v.class.replace('\n', " "), v.msg.replace('\n', " / ")));
    }
    let mut hb = Vec::with_capacity(hashes.len() * 8);
    for h in hashes {
        hb.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(dir.join(format!("hashes-{start}")), hb).unwrap();
    let tmp = dir.join(format!("result-{start}.tmp"));
    fs::write(&tmp, out).unwrap();
    fs::rename(tmp, dir.join(format!("result-{start}"))).unwrap();
    0
}

// ---------------------------------------------------------------- exec server (minimisation, replay)

#[derive(Clone, Debug, PartialEq)]
struct RunResult {
    class: String,
    msg: String,
    hash: u64,
    tape: Vec<u32>,
    spans: Vec<(u32, u32)>,
    trace: Vec<String>,
    ok: bool,
}

fn exec_server(props: &[Prop], args: &[String]) -> i32 {
    let prop = find(props, args);
    let sock = arg(args, "--sock").unwrap();
    let stream = UnixStream::connect(sock).unwrap();
    let mut reader = BufReader::new(stream.try_clone().unwrap());
    let mut writer = stream;
    let mut line = String::new();
    loop {
        line.clear();
        if reader.read_line(&mut line).unwrap_or(0) == 0 {
            return 0;
        }
        let mut it = line.split_whitespace();
        let mode = it.next().unwrap();
        let mut ctx = match mode {
            "gen" => {
                let seed: u64 = it.next().unwrap().parse().unwrap();
                let run: u64 = it.next().unwrap().parse().unwrap();
                let sink = File::create(it.next().unwrap()).unwrap();
                Ctx::search(run_seed(seed, prop.id, run)).with_sink(sink)
            }
            "tape" | "trace" => {
                let tape: Vec<u32> = it.map(|s| s.parse().unwrap()).collect();
                let c = Ctx::replay(tape);
                if mode == "trace" {
                    c.with_trace()
                } else {
                    c
                }
            }
            _ => return 3,
        };
        let r = run_scenario(prop.scenario, &mut ctx);
        let mut out = String::new();
        match &r {
            Ok(()) => out.push_str("ok\n\n"),
            Err(v) => out.push_str(&format!("{}\n{}\n", v.class.replace('\n', " "), v.msg.replace('\n', " / "))),
        }
        out.push_str(&format!("{}\n", ctx.hash()));
        let tape: Vec<String> = ctx.tape().iter().map(|v| v.to_string()).collect();
        out.push_str(&tape.join(" "));
        out.push('\n');
        let spans: Vec<String> = ctx.spans().iter().map(|(a, b)| format!("{a} {b}")).collect();
        out.push_str(&spans.join(" "));
        out.push('\n');
        let trace = ctx.take_trace();
        out.push_str(&format!("{}\n", trace.len()));
        for t in trace {
            out.push_str(&t.replace('\n', " / "));
            out.push('\n');
        }
        if writer.write_all(out.as_bytes()).is_err() {
            return 0;
        }
    }
}

struct Exec {
    prop: &'static str,
    exe: PathBuf,
    dir: PathBuf,
    child: Option<(Child, BufReader<UnixStream>)>,
    n: u32,
    hang: Duration,
    /// Every tape in a process of its own.
    fresh: bool,
}

/// Some runs go to a second build of the same harness, without debug assertions and overflow checks:
/// what users ship. Which runs is decided by the run number alone.
struct Builds {
    checked: PathBuf,
    ship: Option<PathBuf>,
}

impl Builds {
    fn new(args: &[String]) -> Self {
        Builds { checked: std::env::current_exe().unwrap(), ship: arg(args, "--ship").map(PathBuf::from).filter(|p| p.is_file()) }
    }
    fn is_ship(&self, run: u64, workers: u64) -> bool {
        self.ship.is_some() && run % workers % 4 == 3
    }
    fn of(&self, ship: bool) -> &Path {
        match &self.ship {
            Some(p) if ship => p,
            _ => &self.checked,
        }
    }
}

fn spawn(exe: &Path, args: &[String]) -> Child {
    Command::new("bash")
        .arg("-c")
        .arg(format!("ulimit -v {MEM_KB}; ulimit -c 0; exec \"$0\" \"$@\""))
        .arg(exe)
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn")
}

impl Exec {
    fn new(prop: &'static str, exe: &Path, dir: &Path) -> Self {
        Exec { prop, exe: exe.to_path_buf(), dir: dir.to_path_buf(), child: None, n: 0, hang: Duration::from_secs(HANG_SECS), fresh: false }
    }
    fn start(&mut self) {
        if self.child.is_some() {
            return;
        }
        self.n += 1;
        let sock = self.dir.join(format!("sock-{}-{}", std::process::id(), self.n));
        let _ = fs::remove_file(&sock);
        let listener = UnixListener::bind(&sock).unwrap();
        let child = spawn(&self.exe, &["exec".into(), self.prop.into(), "--sock".into(), sock.display().to_string()]);
        let (stream, _) = listener.accept().unwrap();
        stream.set_read_timeout(Some(self.hang)).unwrap();
        self.child = Some((child, BufReader::new(stream)));
        let _ = fs::remove_file(&sock);
    }
    fn kill(&mut self) -> String {
        if let Some((mut child, _)) = self.child.take() {
            std::thread::sleep(Duration::from_millis(5));
            match child.try_wait() {
                Ok(Some(st)) => {
                    if let Some(sig) = st.signal() {
                        return format!("crash signal {sig}");
                    }
                    return format!("exit code {}", st.code().unwrap_or(-1));
                }
                _ => {
                    let _ = child.kill();
                    let _ = child.wait();
                }
            }
        }
        "hang".to_string()
    }
    fn wait_dead(&mut self) {
        if let Some((child, _)) = &mut self.child {
            for _ in 0..400 {
                if let Ok(Some(_)) = child.try_wait() {
                    return;
                }
                std::thread::sleep(Duration::from_millis(5));
            }
        }
    }
    fn request(&mut self, req: &str) -> Result<RunResult, String> {
        self.start();
        let (_, reader) = self.child.as_mut().unwrap();
        let ok = reader.get_mut().write_all(req.as_bytes()).is_ok();
        let mut read = || -> std::io::Result<RunResult> {
            if !ok {
                return Err(std::io::ErrorKind::BrokenPipe.into());
            }
            let mut line = || -> std::io::Result<String> {
                let mut s = String::new();
                if reader.read_line(&mut s)? == 0 {
                    return Err(std::io::ErrorKind::UnexpectedEof.into());
                }
                if s.ends_with('\n') {
                    s.pop();
                }
                Ok(s)
            };
            let class = line()?;
            let msg = line()?;
            let hash = line()?.parse().unwrap();
            let tape = line()?.split_whitespace().map(|v| v.parse().unwrap()).collect();
            let sp: Vec<u32> = line()?.split_whitespace().map(|v| v.parse().unwrap()).collect();
            let n: usize = line()?.parse().unwrap();
            let mut trace = vec![];
            for _ in 0..n {
                trace.push(line()?);
            }
            Ok(RunResult {
                ok: class == "ok",
                class,
                msg,
                hash,
                tape,
                spans: sp.chunks(2).map(|c| (c[0], c[1])).collect(),
                trace,
            })
        };
        match read() {
            Ok(r) => Ok(r),
            Err(e) => {
                let timed_out = matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut);
                if !timed_out {
                    self.wait_dead();
                }
                Err(self.kill())
            }
        }
    }
    fn tape(&mut self, tape: &[u32], trace: bool) -> RunResult {
        let mut req = String::from(if trace { "trace" } else { "tape" });
        for v in tape {
            req.push(' ');
            req.push_str(&v.to_string());
        }
        req.push('\n');
        if self.fresh {
            self.kill();
        }
        match self.request(&req) {
            Ok(r) => r,
            Err(class) => RunResult {
                msg: format!("the process running the simulation died: {class}"),
                class,
                hash: 0,
                tape: tape.to_vec(),
                spans: vec![],
                trace: vec![],
                ok: false,
            },
        }
    }
    fn gen(&mut self, seed: u64, run: u64) -> RunResult {
        let sink = self.dir.join("sink");
        match self.request(&format!("gen {seed} {run} {}\n", sink.display())) {
            Ok(r) => r,
            Err(class) => {
                let bytes = fs::read(&sink).unwrap_or_default();
                let tape = bytes.chunks_exact(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
                RunResult {
                    msg: format!("the process running the simulation died: {class}"),
                    class,
                    hash: 0,
                    tape,
                    spans: vec![],
                    trace: vec![],
                    ok: false,
                }
            }
        }
    }
}

impl Exec {
    /// Runs the listed runs one after another in a new process, up to the first one that fails.
    fn history(&mut self, seed: u64, runs: &[u64]) -> Option<(usize, RunResult)> {
        self.kill();
        let mut found = None;
        for (i, &run) in runs.iter().enumerate() {
            let r = self.gen(seed, run);
            if !r.ok {
                found = Some((i, r));
                break;
            }
        }
        self.kill();
        found
    }

    /// A run that fails only in a process that made other runs before: which of them it takes.
    fn carried_over(&mut self, seed: u64, run: u64, stride: u64) -> Option<(Vec<u64>, RunResult)> {
        let begin = Instant::now();
        let mut len = 1;
        let (mut list, mut res) = loop {
            let first = run % stride;
            let from = if run - first > len * stride { run - len * stride } else { first };
            let runs: Vec<u64> = (from..=run).step_by(stride as usize).collect();
            if let Some((i, r)) = self.history(seed, &runs) {
                break (runs[..=i].to_vec(), r);
            }
            if from == first || begin.elapsed().as_secs() > 150 {
                return None;
            }
            len *= 4;
        };
        // Leave out what is not needed.
        let begin = Instant::now();
        let mut chunk = list.len().div_ceil(2);
        while chunk > 0 {
            let mut i = 0;
            while i < list.len() - 1 && begin.elapsed().as_secs() < 60 {
                let end = (i + chunk).min(list.len() - 1);
                let cand: Vec<u64> = list[..i].iter().chain(&list[end..]).copied().collect();
                match self.history(seed, &cand) {
                    Some((at, r)) if r.class == res.class => {
                        list = cand[..=at].to_vec();
                        res = r;
                    }
                    _ => i = end,
                }
            }
            chunk /= 2;
        }
        Some((list, res))
    }
}

fn better(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return a.len() < b.len();
    }
    a < b
}

fn minimise(exec: &mut Exec, first: RunResult, budget: Duration) -> (RunResult, u64) {
    let begin = Instant::now();
    let class = first.class.clone();
    let mut best = first;
    let mut tried = 0u64;
    if class == "hang" {
        // Every candidate would take the whole time-out.
        exec.hang = Duration::from_secs(10);
    }
    let mut attempt = |cand: Vec<u32>, best: &mut RunResult, tried: &mut u64| -> bool {
        if begin.elapsed() > budget || *tried > 20_000 {
            return false;
        }
        *tried += 1;
        let r = exec.tape(&cand, false);
        if r.class == class && better(&r.tape, &best.tape) {
            *best = r;
            true
        } else {
            false
        }
    };
    let spent = || begin.elapsed() > budget;
    'all: loop {
        let before = best.tape.clone();
        // Whole operations first.
        let mut i = 0;
        loop {
            let mut spans = best.spans.clone();
            spans.sort_by_key(|&(a, b)| (std::cmp::Reverse(b - a), a));
            if i >= spans.len() {
                break;
            }
            if spent() {
                break 'all;
            }
            let (a, b) = spans[i];
            let mut cand = best.tape.clone();
            if (b as usize) <= cand.len() {
                cand.drain(a as usize..b as usize);
                if attempt(cand, &mut best, &mut tried) {
                    continue;
                }
            }
            i += 1;
        }
        // Chunks.
        for size in [64usize, 32, 16, 8, 5, 4, 3, 2, 1] {
            let mut i = best.tape.len();
            while i > 0 {
                if spent() {
                    break 'all;
                }
                i = i.min(best.tape.len());
                if i >= size {
                    let mut cand = best.tape.clone();
                    cand.drain(i - size..i);
                    attempt(cand, &mut best, &mut tried);
                }
                i = i.saturating_sub(1.max(size / 2));
            }
        }
        // Values.
        let mut i = 0;
        while i < best.tape.len() && !spent() {
            let v = best.tape[i];
            let mut cands = vec![];
            if v > 0 {
                cands.push(0);
                cands.push(v / 2);
                cands.push(v - 1);
            }
            for c in cands {
                if i < best.tape.len() && c < best.tape[i] {
                    let mut cand = best.tape.clone();
                    cand[i] = c;
                    attempt(cand, &mut best, &mut tried);
                }
            }
            i += 1;
        }
        if best.tape == before || begin.elapsed() > budget {
            break;
        }
    }
    (best, tried)
}

// ---------------------------------------------------------------- json

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn js_list<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|s| js(s.as_ref())).collect::<Vec<_>>().join(", "))
}

fn js_map(m: &BTreeMap<String, u64>) -> String {
    format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {v}", js(k))).collect::<Vec<_>>().join(", "))
}

// ---------------------------------------------------------------- check

fn check(props: &[Prop], args: &[String]) -> i32 {
    let prop = find(props, args);
    let seed: u64 = arg(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = arg(args, "--tier").unwrap_or("quick".into());
    let evidence = PathBuf::from(arg(args, "--evidence").unwrap());
    let replays = PathBuf::from(arg(args, "--replays").unwrap());
    let known_path = arg(args, "--known");
    let workers: u64 = arg(args, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8);
    let secs = arg(args, "--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" {
        prop.thorough_secs
    } else {
        prop.quick_secs
    });
    let max_runs = if tier == "thorough" { 0 } else { prop.quick_max_runs };
    let known = Known::load(known_path.as_deref(), prop.id);
    let builds = Builds::new(args);
    let begin = Instant::now();
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    println!("property {} tier {tier} VERIF_SEED={seed} workers {workers} budget {secs}s", prop.id);

    struct W {
        start: u64,
        child: Child,
        last: u64,
        since: Instant,
        done: bool,
    }
    let mut ws: Vec<W> = (0..workers)
        .map(|start| {
            let mut a: Vec<String> = vec!["worker".into(), prop.id.into()];
            for (k, v) in [
                ("--seed", seed.to_string()),
                ("--start", start.to_string()),
                ("--stride", workers.to_string()),
                ("--max-runs", max_runs.to_string()),
                ("--millis", (secs * 1000).to_string()),
                ("--dir", dir.display().to_string()),
            ] {
                a.push(k.into());
                a.push(v);
            }
            if let Some(k) = &known_path {
                a.push("--known".into());
                a.push(k.clone());
            }
            W { start, child: spawn(builds.of(builds.is_ship(start, workers)), &a), last: 0, since: Instant::now(), done: false }
        })
        .collect();

    let mut found: Vec<(u64, String)> = vec![];
    let mut harness_error = None;
    let result = |start: u64| fs::read_to_string(dir.join(format!("result-{start}"))).ok();
    loop {
        let mut all = true;
        for w in ws.iter_mut().filter(|w| !w.done) {
            let mut buf = [0u8; 8];
            let cur = File::open(dir.join(format!("progress-{}", w.start)))
                .and_then(|f| f.read_exact_at(&mut buf, 0))
                .map(|_| u64::from_le_bytes(buf))
                .unwrap_or(0);
            if cur != w.last {
                w.last = cur;
                w.since = Instant::now();
            }
            match w.child.try_wait() {
                Ok(Some(status)) => {
                    w.done = true;
                    match result(w.start) {
                        Some(text) => {
                            for l in text.lines() {
                                if let Some(rest) = l.strip_prefix("violation ") {
                                    let (run, what) = rest.split_once(' ').unwrap();
                                    found.push((run.parse().unwrap(), what.to_string()));
                                }
                            }
                        }
                        None if w.last == 0 => harness_error = Some(format!("worker {} died before its first run: {status}", w.start)),
                        None => found.push((w.last - 1, format!("process died: {status}"))),
                    }
                }
                _ => {
                    all = false;
                    if w.since.elapsed().as_secs() > HANG_SECS && w.last > 0 {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        found.push((w.last - 1, format!("hang: no progress in {HANG_SECS} s")));
                    }
                }
            }
        }
        if all {
            break;
        }
        if !found.is_empty() {
            // Give the others a moment to report a lower run number, then stop.
            std::thread::sleep(Duration::from_millis(200));
            for w in ws.iter_mut().filter(|w| !w.done) {
                let _ = w.child.kill();
                let _ = w.child.wait();
                w.done = true;
                if let Some(text) = result(w.start) {
                    for l in text.lines() {
                        if let Some(rest) = l.strip_prefix("violation ") {
                            let (run, what) = rest.split_once(' ').unwrap();
                            found.push((run.parse().unwrap(), what.to_string()));
                        }
                    }
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    let search_s = begin.elapsed().as_secs_f64();

    // Merge.
    let (mut runs, mut steps, mut nontrivial, mut known_hits) = (0u64, 0u64, 0u64, 0u64);
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    for w in &ws {
        if let Some(text) = result(w.start) {
            for l in text.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "runs" => runs += v.parse::<u64>().unwrap(),
                    "steps" => steps += v.parse::<u64>().unwrap(),
                    "nontrivial" => nontrivial += v.parse::<u64>().unwrap(),
                    "known" => known_hits += v.parse::<u64>().unwrap(),
                    "fault" => {
                        let (n, name) = v.split_once(' ').unwrap();
                        *faults.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                    }
                    "probe" => {
                        let (n, name) = v.split_once(' ').unwrap();
                        *probes.entry(name.to_string()).or_insert(0) += n.parse::<u64>().unwrap();
                    }
                    "sample" => samples.push(v.to_string()),
                    _ => {}
                }
            }
            if let Ok(mut f) = File::open(dir.join(format!("hashes-{}", w.start))) {
                let mut b = vec![];
                let _ = f.read_to_end(&mut b);
                for c in b.chunks_exact(8) {
                    hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
            }
        }
    }
    samples.truncate(4);
    if samples.is_empty() {
        samples.push("(no sampled run finished in this batch)".into());
    }

    let mut violation_line = None;
    found.sort();
    found.dedup();
    let mut unconfirmed = None;
    for (run, what) in found.iter().take(3) {
        let run = *run;
        let ship = builds.is_ship(run, workers);
        let exe = builds.of(ship);
        let mut exec = Exec::new(prop.id, exe, &dir);
        // (the run, runs before it in the same process, candidates tried)
        let mut confirmed: Option<(RunResult, Vec<u64>, u64)> = None;
        let first = exec.gen(seed, run);
        if !first.ok && first.tape.len() > 500_000 {
            // Too long for a tape; the seed and the number of the run repeat it just as well.
            confirmed = Some((RunResult { tape: vec![], trace: vec![], ..first }, vec![run], 0));
        } else if !first.ok {
            let budget = Duration::from_secs(if first.class == "hang" { 100 } else { 60 });
            let (mut best, mut tried) = minimise(&mut exec, first.clone(), budget);
            exec.kill();
            // The tape must fail on its own, not because of what the candidates before it left behind.
            if best.class != "hang" && exec.tape(&best.tape, false).class != best.class {
                exec.fresh = true;
                exec.kill();
                let (b, t) = minimise(&mut exec, first, budget);
                best = b;
                tried += t;
            }
            confirmed = Some((best, vec![], tried));
        } else {
            exec.kill();
            // In a process of its own the run does not fail: either it takes what earlier runs left behind in
            // the process, or the code under test is itself nondeterministic, or the machine interfered.
            if let Some((list, r)) = exec.carried_over(seed, run, workers) {
                confirmed = Some((r, list, 0));
            } else if let Some(r) = (0..5).map(|_| exec.gen(seed, run)).find(|r| !r.ok) {
                confirmed = Some((r, vec![], 0));
            }
        }
        exec.kill();
        let Some((best, history, tried)) = confirmed else {
            unconfirmed = Some(format!("run {run} failed ({what}) but does not reproduce"));
            continue;
        };
        let mut fresh = Exec::new(prop.id, exe, &dir);
        let traced = if history.is_empty() {
            fresh.tape(&best.tape, true)
        } else {
            fresh.history(seed, &history).map(|(_, r)| r).unwrap_or(best.clone())
        };
        fresh.kill();
        let stable = traced.class == best.class && (traced.hash == best.hash || best.hash == 0);
        fs::create_dir_all(&replays).unwrap();
        let path = replays.join(format!("{}-seed{}-run{}.json", prop.id, seed, run));
        let tape: Vec<String> = best.tape.iter().map(|v| v.to_string()).collect();
        let trace = if traced.trace.is_empty() { best.trace.clone() } else { traced.trace.clone() };
        let trace: Vec<String> = trace.into_iter().take(TRACE_LINES_IN_REPLAY).collect();
        let past: Vec<String> = history.iter().map(|r| r.to_string()).collect();
        let build = if ship { "ship" } else { "checked" };
        let text = format!(
            "{{\n\"property\": {},\n\"seed\": {seed},\n\"run\": {run},\n\"build\": \"{build}\",\n\"class\": {},\n\"message\": {},\n\"hash\": \"{}\",\n\"reproduced_in_fresh_process\": {stable},\n\"candidates_tried\": {tried},\n\"history\": [{}],\n\"tape\": [{}],\n\"trace\": {}\n}}\n",
            js(prop.id), js(&best.class), js(&best.msg), best.hash, past.join(","), tape.join(","), js_list(&trace)
        );
        fs::write(&path, text).unwrap();
        println!("first seen: run {run} ({build} build): {}", plain(&what));
        if history.is_empty() {
            println!("minimised to {} choices ({tried} candidates): {}: {}", best.tape.len(), best.class, plain(&best.msg));
        } else {
            let why = if past.len() > 1 { "needs what earlier runs left behind in the process" } else { "not minimised" };
            println!("{why}; runs {}: {}: {}", past.join(" "), best.class, plain(&best.msg));
        }
        for t in traced.trace.iter().take(60) {
            println!("  {}", plain(t));
        }
        violation_line = Some(format!("VIOLATION property={} replay={}", prop.id, path.display()));
        break;
    }
    if violation_line.is_none() && unconfirmed.is_some() {
        harness_error = unconfirmed;
    }

    if violation_line.is_none() && harness_error.is_none() {
        for m in prop.must_hit {
            if !faults.contains_key(*m) && !probes.contains_key(*m) {
                harness_error = Some(format!("required condition '{m}' was never hit in this batch ({runs} runs)"));
            }
        }
        if runs == 0 {
            harness_error = Some("no run finished".into());
        }
    }

    let wall = begin.elapsed().as_secs_f64();
    let distinct = hashes.len() as u64;
    let cov = format!(
        "{{\n  \"evaluations\": {runs},\n  \"distinct_nontrivial\": {distinct},\n  \"nontrivial_runs\": {nontrivial},\n  \"rule\": {},\n  \"samples\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_steps\": {steps},\n  \"step_unit\": {},\n  \"simulated_time\": \"the code has no clock; simulated time is the step count\",\n  \"faults_injected\": {},\n  \"conditions_hit\": {},\n  \"distinct_measure\": \"64-bit hash of the whole event log (operations, faults, observations) of a non-trivial run\",\n  \"real_components\": {},\n  \"stub_components\": {},\n  \"known_finding_hits\": {known_hits},\n  \"workers\": {workers},\n  \"workers_on_the_build_without_debug_assertions\": {},\n  \"search_s\": {:.1}\n }}",
        js(prop.rule), js_list(&samples), (runs as f64 / search_s * 3600.0) as u64, js(prop.step_unit),
        js_map(&faults), js_map(&probes), js_list(prop.real), js_list(prop.stubs), (0..workers).filter(|&w| builds.is_ship(w, workers)).count(), search_s
    );
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {seed},\n \"level\": \"exploration\",\n \"coverage\": {cov},\n \"assumptions\": {},\n \"wall_s\": {wall:.1},\n \"violations\": {}\n}}\n",
        js(prop.id), js(if tier == "thorough" { "thorough" } else { "quick" }), js_list(prop.assumptions), violation_line.is_some() as u32
    );
    if let Some(parent) = evidence.parent() {
        let _ = fs::create_dir_all(parent);
    }
    fs::write(&evidence, ev).unwrap();
    let _ = fs::remove_dir_all(&dir);
    println!("runs {runs} (non-trivial {nontrivial}, distinct {distinct}), steps {steps}, {:.1} s", wall);
    println!("faults {}", js_map(&faults));
    println!("conditions {}", js_map(&probes));
    for (class, text) in &known.0 {
        println!("KNOWN-FINDING: property={} {text} [{class}]", prop.id);
    }
    if let Some(l) = violation_line {
        println!("{l}");
        return 1;
    }
    if let Some(e) = harness_error {
        eprintln!("HARNESS ERROR: {}", plain(&e));
        println!("HARNESS ERROR: {}", plain(&e));
        return 3;
    }
    0
}

// ---------------------------------------------------------------- replay and determinism tools

fn replay(props: &[Prop], args: &[String]) -> i32 {
    let text = fs::read_to_string(&args[2]).unwrap();
    let field = |name: &str| -> String {
        let key = format!("\"{name}\": \"");
        let i = text.find(&key).map(|i| i + key.len()).unwrap();
        let rest = &text[i..];
        let mut end = 0;
        let b = rest.as_bytes();
        while b[end] != b'"' || (end > 0 && b[end - 1] == b'\\') {
            end += 1;
        }
        rest[..end].replace("\\\"", "\"").replace("\\\\", "\\")
    };
    let id = field("property");
    let class = field("class");
    let hash = field("hash");
    let i = text.find("\"tape\": [").unwrap() + 9;
    let j = text[i..].find(']').unwrap() + i;
    let tape: Vec<u32> = text[i..j].split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    let prop = find(props, &["".into(), "".into(), id.clone()]);
    let dir = std::env::temp_dir().join(format!("sim-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let builds = Builds::new(args);
    let ship = field("build") == "ship";
    if ship && builds.ship.is_none() {
        println!("note: recorded with the build without debug assertions, replayed with the other one");
    }
    let mut exec = Exec::new(prop.id, builds.of(ship), &dir);
    let i = text.find("\"history\": [").unwrap() + 12;
    let j = text[i..].find(']').unwrap() + i;
    let history: Vec<u64> = text[i..j].split(',').filter(|s| !s.trim().is_empty()).map(|s| s.trim().parse().unwrap()).collect();
    let r = if history.is_empty() {
        exec.tape(&tape, true)
    } else {
        let i = text.find("\"seed\": ").unwrap() + 8;
        let j = text[i..].find(',').unwrap() + i;
        let seed: u64 = text[i..j].parse().unwrap();
        match exec.history(seed, &history) {
            Some((_, r)) => r,
            None => exec.gen(seed, *history.last().unwrap()),
        }
    };
    exec.kill();
    let _ = fs::remove_dir_all(&dir);
    for t in &r.trace {
        println!("  {}", plain(t));
    }
    if r.ok {
        println!("replay of {} does not fail", args[2]);
        return 0;
    }
    println!("class {} (recorded {class}); hash {} (recorded {hash}); {}", r.class, r.hash, plain(&r.msg));
    println!("VIOLATION property={id} replay={}", args[2]);
    1
}

/// Prints one hash per run, for determinism diffs.
fn hashes(props: &[Prop], args: &[String]) -> i32 {
    let prop = find(props, args);
    let seed: u64 = args[3].parse().unwrap();
    let n: u64 = args[4].parse().unwrap();
    let out = args.get(5).cloned();
    let mut text = String::new();
    for run in 0..n {
        let mut ctx = Ctx::search(run_seed(seed, prop.id, run));
        let r = run_scenario(prop.scenario, &mut ctx);
        text.push_str(&format!("{run} {:016x} {}\n", ctx.hash(), if r.is_ok() { "ok" } else { "VIOLATION" }));
    }
    match out {
        Some(p) => fs::write(p, text).unwrap(),
        None => print!("{text}"),
    }
    0
}

fn trace(props: &[Prop], args: &[String]) -> i32 {
    let prop = find(props, args);
    let seed: u64 = args[3].parse().unwrap();
    let run: u64 = args[4].parse().unwrap();
    let mut ctx = Ctx::search(run_seed(seed, prop.id, run)).with_trace();
    let r = run_scenario(prop.scenario, &mut ctx);
    for t in ctx.take_trace() {
        eprintln!("{t}");
    }
    eprintln!("faults {:?} probes {:?} steps {} nontrivial {}", ctx.faults, ctx.probes, ctx.steps, ctx.nontrivial);
    eprintln!("{r:?}");
    0
}
