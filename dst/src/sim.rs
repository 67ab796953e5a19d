//! One simulated process: start it under libsim.so, read back what happened.
use crate::util::mix;
use serde_json::{Map, Value};
use std::fs;
use std::io::Read;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const CNT: &[&str] = &[
    "atomic", "futex_wait", "futex_wake", "yield", "sleep", "malloc", "io", "thread_create", "thread_join", "thread_exit",
    "clock_read", "entropy_read", "preemption", "forced_switch", "timer_jump",
    "spurious_wakeup", "thread_stall", "clock_jump", "eintr", "short_read", "short_write", "read_error", "write_error",
    "disk_full", "open_error", "fsync_error", "rename_error", "allocation_failure", "thread_spawn_failure", "kill_at_step", "kill_at_io", "power_loss",
    "lost_page", "lost_metadata", "futex_eintr", "memory_cap", "close_error", "wall_clock_set",
];
pub const FIRST_FAULT: usize = 15;
pub const LAST_FAULT: usize = 37;
pub fn cnt_idx(n: &str) -> usize {
    CNT.iter().position(|x| *x == n).unwrap()
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Dec {
    pub key: u64,
    pub kind: u32,
    pub a: u32,
    pub b: u64,
}
impl Dec {
    pub fn bytes(&self) -> [u8; 24] {
        let mut o = [0u8; 24];
        o[..8].copy_from_slice(&self.key.to_le_bytes());
        o[8..12].copy_from_slice(&self.kind.to_le_bytes());
        o[12..16].copy_from_slice(&self.a.to_le_bytes());
        o[16..].copy_from_slice(&self.b.to_le_bytes());
        o
    }
}
const NCNT: usize = 64;
const MAXDEC: usize = 1 << 17;
const MAXLOG: usize = 8192;
const HDR: usize = (12 + NCNT + 5 + 8) * 8;
pub const SHM_SIZE: usize = HDR + MAXDEC * 24 + MAXLOG * 96;

#[derive(Clone, Debug, Default)]
pub struct LogLine {
    pub step: u64,
    pub now: u64,
    pub thread: u64,
    pub at: usize,
    /// steps taken so far by threads 0 to 7
    pub taken: Vec<u64>,
}
#[derive(Clone, Debug, Default)]
pub struct Run {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub steps: u64,
    pub now: u64,
    pub hash: u64,
    pub io_ops: u64,
    pub mallocs: u64,
    pub creates: u64,
    pub threads: u64,
    pub outcome: u64,
    pub cnt: Vec<u64>,
    pub io_first_write: u64,
    pub first_wopen_step: u64,
    pub last_read_step: u64,
    pub last_create_step: u64,
    pub last_setup_mallocs: u64,
    pub first_wopen_mallocs: u64,
    pub mem_peak: u64,
    pub mal_sites: u64,
    pub decs: Vec<Dec>,
    pub overflow: bool,
    pub log: Vec<LogLine>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}
impl Run {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// killed or cut off by the simulator itself
    pub fn crashed(&self) -> bool {
        self.outcome == 4 && self.code == Some(96)
    }
    /// Some(what) if the process can never finish
    pub fn hung(&self) -> Option<String> {
        if self.timed_out {
            Some("no progress (wall-clock limit)".into())
        } else if self.outcome == 2 {
            Some(format!("deadlock: no thread can run after {} steps", self.steps))
        } else if self.outcome == 3 {
            Some(format!("no end after {} steps", self.steps))
        } else {
            None
        }
    }
    pub fn fault(&self, n: &str) -> u64 {
        self.cnt[cnt_idx(n)]
    }
    pub fn err_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn panic_line(&self) -> String {
        let t = self.err_text();
        let mut it = t.lines();
        while let Some(l) = it.next() {
            if l.contains("panicked at") {
                return format!("{} {}", l, it.next().unwrap_or(""));
            }
        }
        t.lines().last().unwrap_or("").to_string()
    }
    pub fn status(&self) -> String {
        if let Some(h) = self.hung() {
            return h;
        }
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
}

pub type Cfg = Map<String, Value>;
pub fn cfg_u(c: &Cfg, k: &str, d: u64) -> u64 {
    c.get(k).and_then(|v| v.as_u64()).unwrap_or(d)
}

/// Kills processes past their wall-clock deadline.
static WATCH: Mutex<Vec<(i32, Instant, u64)>> = Mutex::new(vec![]);
pub fn start_watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(200));
        let now = Instant::now();
        for (pid, t, _) in WATCH.lock().unwrap().iter() {
            if now > *t {
                unsafe { libc::kill(*pid, libc::SIGKILL) };
            }
        }
    });
}

pub struct Spec<'a> {
    pub prog: &'a Path,
    pub args: Vec<String>,
    pub env: Vec<(String, String)>,
    pub wall: u64,
}

pub struct Place {
    pub root: PathBuf,
    pub disk: PathBuf,
    pub lib: PathBuf,
}

pub fn exec(place: &Place, spec: &Spec, cfg: &Cfg, seed: u64, script: Option<&[Dec]>) -> Result<Run, String> {
    let shm = place.root.join("shm");
    let scr = place.root.join("script");
    let (po, pe) = (place.root.join("out"), place.root.join("err"));
    let mut sim = format!("seed={seed}");
    let mut threads = 4;
    for (k, v) in cfg {
        if k == "threads" {
            threads = v.as_u64().unwrap_or(4);
        } else if k != "seed" && k != "fixseed" {
            if let Some(n) = v.as_u64() {
                sim += &format!(",{k}={n}");
            }
        }
    }
    let mut c = Command::new(spec.prog);
    c.args(&spec.args).current_dir(&place.disk).env_clear();
    c.env("LD_PRELOAD", &place.lib).env("SIM", &sim).env("SIM_SHM", &shm).env("RAYON_NUM_THREADS", threads.to_string());
    c.env("PATH", "/usr/bin:/bin").env("HOME", "/nonexistent").env("LC_ALL", "C.UTF-8");
    for (k, v) in &spec.env {
        c.env(k, v);
    }
    if let Some(s) = script {
        let mut b = Vec::with_capacity(s.len() * 24 + 24);
        let mut s = s.to_vec();
        s.sort_by_key(|d| (d.kind, d.key));
        for d in &s {
            b.extend_from_slice(&d.bytes());
        }
        if s.is_empty() {
            // an entry that matches nothing: scripted, all defaults
            b.extend_from_slice(&Dec { key: u64::MAX, kind: 99, a: 0, b: 0 }.bytes());
        }
        fs::write(&scr, b).map_err(|e| format!("script: {e}"))?;
        c.env("SIM_SCRIPT", &scr);
    }
    // locks on the stack are told apart by address: however long the paths are,
    // the stack starts at the same place
    let os = |s: &std::ffi::OsStr| s.len() + 1;
    let len: usize = 2 * os(c.get_program()) + c.get_args().map(os).sum::<usize>() + c.get_envs().map(|(k, v)| os(k) + v.map_or(0, os)).sum::<usize>();
    let ptrs = 8 * (c.get_args().count() + c.get_envs().count()) + if script.is_some() { 0 } else { 8 };
    let pad = 65536usize.saturating_sub(len + ptrs);
    c.env("PAD", "x".repeat(pad));
    let fo = fs::File::create(&po).map_err(|e| format!("stdout: {e}"))?;
    let fe = fs::File::create(&pe).map_err(|e| format!("stderr: {e}"))?;
    c.stdin(Stdio::null()).stdout(fo).stderr(fe);
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000);
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            let lim = libc::rlimit { rlim_cur: 256 << 20, rlim_max: 256 << 20 };
            libc::setrlimit(libc::RLIMIT_FSIZE, &lim);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| format!("spawn {}: {e}", spec.prog.display()))?;
    let pid = ch.id() as i32;
    let key = mix(pid as u64 ^ seed);
    let start = Instant::now();
    let deadline = start + Duration::from_secs(spec.wall);
    WATCH.lock().unwrap().push((pid, deadline, key));
    let st = ch.wait();
    WATCH.lock().unwrap().retain(|x| !(x.0 == pid && x.2 == key));
    let st = st.map_err(|e| e.to_string())?;
    let mut r = Run { code: st.code(), signal: st.signal(), ..Default::default() };
    if st.signal() == Some(libc::SIGKILL) && start.elapsed() >= Duration::from_secs(spec.wall) {
        r.timed_out = true;
    }
    r.stdout = fs::read(&po).map_err(|e| e.to_string())?;
    r.stderr = fs::read(&pe).map_err(|e| e.to_string())?;
    if r.code == Some(95) {
        return Err("simulator set-up failed".into());
    }
    let mut f = fs::File::open(&shm).map_err(|e| format!("shm: {e}"))?;
    let mut h = vec![0u8; HDR];
    f.read_exact(&mut h).map_err(|e| format!("shm: {e}"))?;
    let u = |i: usize| u64::from_le_bytes(h[i * 8..i * 8 + 8].try_into().unwrap());
    if u(0) != 0x51a151a1 {
        return Err("simulator did not start".into());
    }
    r.steps = u(2);
    r.now = u(3);
    r.hash = u(4);
    r.io_ops = u(5);
    r.mallocs = u(6);
    r.creates = u(7);
    r.threads = u(8);
    r.outcome = u(9);
    r.mem_peak = u(11);
    r.cnt = (0..CNT.len()).map(|i| u(12 + i)).collect();
    let t = 12 + NCNT;
    let ndec = (u(t + 1) as usize).min(MAXDEC);
    r.overflow = u(t + 2) != 0;
    r.io_first_write = u(t + 3);
    r.first_wopen_step = u(t + 5);
    r.last_read_step = u(t + 6);
    r.last_create_step = u(t + 7);
    r.last_setup_mallocs = u(t + 8);
    r.first_wopen_mallocs = u(t + 9);
    r.mal_sites = u(t + 11);
    let nlog = (u(t + 10) as usize).min(MAXLOG);
    if r.outcome == 0 || r.timed_out {
        // ended without the simulator (abort): fold what is known into the hash
        r.hash = mix(r.hash ^ u(t + 1) ^ r.mallocs);
    }
    let mut d = vec![0u8; ndec * 24];
    f.read_exact(&mut d).map_err(|e| format!("shm: {e}"))?;
    r.decs = d
        .chunks(24)
        .map(|c| Dec {
            key: u64::from_le_bytes(c[..8].try_into().unwrap()),
            kind: u32::from_le_bytes(c[8..12].try_into().unwrap()),
            a: u32::from_le_bytes(c[12..16].try_into().unwrap()),
            b: u64::from_le_bytes(c[16..].try_into().unwrap()),
        })
        .collect();
    if nlog > 0 {
        use std::io::Seek;
        f.seek(std::io::SeekFrom::Start((HDR + MAXDEC * 24) as u64)).map_err(|e| e.to_string())?;
        let mut l = vec![0u8; nlog * 96];
        f.read_exact(&mut l).map_err(|e| format!("shm: {e}"))?;
        let g = |c: &[u8], i: usize| u64::from_le_bytes(c[i * 8..i * 8 + 8].try_into().unwrap());
        r.log = l.chunks(96).map(|c| LogLine { step: g(c, 0), now: g(c, 1), thread: g(c, 2), at: g(c, 3) as usize, taken: (4..12).map(|i| g(c, i)).collect() }).collect();
    }
    Ok(r)
}
