//! One simulated process: a real command under the shim, its plan and what
//! it did.
use std::ffi::CString;
use std::fs::File;
use std::io::{Seek, SeekFrom, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};

use dst::Json;

extern "C" {
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn personality(p: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn alarm(s: u32) -> u32;
    fn pipe(fds: *mut i32) -> i32;
}

const NAMES: [&str; 17] = [
    "text", "mallocs", "malloc_fails", "randoms", "clocks", "reads", "read_soft", "read_hard", "read_bytes",
    "read_eof", "delays", "writes", "write_soft", "write_hard", "err_soft", "err_hard", "ticks",
];
const LOGSIZE: usize = 65536;

pub struct Os {
    input: File,
    out: File,
    err: File,
    log: File,
    shim: String,
    dir: String,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Exit {
    Code(i32),
    Signal(i32),
}

#[derive(Clone, Debug)]
pub struct Ran {
    pub exit: Exit,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub head: Vec<u64>,
    pub env: Vec<String>,
}

impl Ran {
    pub fn n(&self, name: &str) -> u64 {
        self.head[NAMES.iter().position(|n| *n == name).unwrap()]
    }
    pub fn ok(&self) -> bool {
        self.exit == Exit::Code(0)
    }
    /// Diagnostics without thread numbers.
    pub fn said(&self) -> String {
        let s = String::from_utf8_lossy(&self.err).into_owned();
        if !s.contains("thread '") {
            return s;
        }
        let mut o = String::new();
        let mut digits = false;
        for c in s.chars() {
            if c.is_ascii_digit() {
                if !digits {
                    o.push('#');
                }
                digits = true;
            } else {
                digits = false;
                o.push(c);
            }
        }
        o
    }
    pub fn show(&self) -> String {
        let cut = |b: &[u8]| {
            let s = String::from_utf8_lossy(b);
            let t: String = s.chars().take(160).collect();
            format!("{:?}{}", t, if t.len() < s.len() { format!("... {} bytes", b.len()) } else { String::new() })
        };
        format!("{:?}, output {}, diagnostic {}", self.exit, cut(&self.out), cut(&self.err))
    }
}

fn memfd(cloexec: bool) -> File {
    let n = CString::new("sim").unwrap();
    let fd = unsafe { memfd_create(n.as_ptr() as *const i8, u32::from(cloexec)) };
    assert!(fd >= 0, "memfd_create");
    unsafe { File::from_raw_fd(fd) }
}

/// What the plan becomes once the sizes of the fault-free run are known.
#[derive(Clone, Debug, Default)]
pub struct Sizes {
    pub out: u64,
    pub writes: u64,
    pub mallocs: u64,
    pub input: u64,
}

fn part(whole: u64, j: &Json) -> u64 {
    let x = whole as i64 * j.at("pm").int() / 1000 + j.at("off").int();
    x.max(0) as u64
}

fn list(j: &Json) -> String {
    let f = |x: &Json| match x.int() {
        n if n < 0 => format!("e{}", -n),
        n if n >= 1 << 40 => format!("d{}", n - (1 << 40)),
        n => n.to_string(),
    };
    j.arr().iter().map(f).collect::<Vec<_>>().join(",")
}

pub fn orders(plan: &Json, z: &Sizes) -> String {
    let mut s = String::new();
    let mut put = |k: &str, v: String| s.push_str(&format!("{}={};", k, v));
    if !plan.at("in").arr().is_empty() {
        put("in", list(plan.at("in")));
    }
    if plan.get("inmax").is_some() {
        put("inmax", plan.at("inmax").int().to_string());
    }
    let mut out = plan.at("out").clone();
    if let Some(w) = plan.get("wfault") {
        let k = part(z.writes, w) as usize;
        let mut v = out.arr().to_vec();
        v.resize(k.min(4000), Json::Int(1 << 30));
        for _ in 0..w.at("times").int().max(1) {
            v.push(Json::Int(w.at("act").int()));
        }
        out = Json::Arr(v);
    }
    if !out.arr().is_empty() {
        put("out", list(&out));
    }
    if plan.get("outmax").is_some() {
        put("outmax", plan.at("outmax").int().to_string());
    }
    if !plan.at("err").arr().is_empty() {
        put("err", list(plan.at("err")));
    }
    if let Some(c) = plan.get("cap") {
        put("cap", part(z.out, c).to_string());
        put("caperr", c.at("errno").int().to_string());
    }
    if let Some(c) = plan.get("rcap") {
        put("rcap", part(z.input, c).to_string());
        put("rcaperr", c.at("errno").int().to_string());
    }
    if let Some(c) = plan.get("mfail") {
        put("fail", part(z.mallocs, c).to_string());
        put("sticky", c.at("sticky").int().to_string());
    }
    for k in &["rnd", "pad", "padseed", "fill", "clk", "pid"] {
        if plan.get(k).is_some() {
            put(k, plan.at(k).int().to_string());
        }
    }
    s
}

impl Os {
    pub fn new(shim: String) -> Os {
        let dir = std::env::temp_dir().to_string_lossy().into_owned();
        Os { input: memfd(true), out: memfd(true), err: memfd(true), log: memfd(false), shim, dir }
    }

    pub fn run(&mut self, bin: &str, bytes: &[u8], plan: &Json, z: &Sizes) -> Ran {
        let reset = |f: &mut File, n: u64| {
            f.set_len(0).unwrap();
            f.set_len(n).unwrap();
            f.seek(SeekFrom::Start(0)).unwrap();
        };
        reset(&mut self.out, 0);
        reset(&mut self.err, 0);
        reset(&mut self.log, LOGSIZE as u64);
        let stdin = if plan.at("pipe").bool() && bytes.len() < 60_000 {
            let mut p = [0_i32; 2];
            assert_eq!(unsafe { pipe(p.as_mut_ptr()) }, 0);
            let (r, mut w) = unsafe { (File::from_raw_fd(p[0]), File::from_raw_fd(p[1])) };
            w.write_all(bytes).unwrap();
            r
        } else {
            reset(&mut self.input, 0);
            self.input.write_all(bytes).unwrap();
            self.input.seek(SeekFrom::Start(0)).unwrap();
            self.input.try_clone().unwrap()
        };
        let mut c = Command::new(bin);
        c.env_clear();
        for e in plan.at("env").arr() {
            c.env(e.arr()[0].str(), e.arr()[1].str());
        }
        c.env("LD_PRELOAD", &self.shim);
        c.env("CHOMPSIM", format!("{}log={};", orders(plan, z), self.log.as_raw_fd()));
        c.current_dir(if plan.at("cwd").str().is_empty() { &self.dir } else { plan.at("cwd").str() });
        c.stdin(Stdio::from(stdin));
        c.stdout(Stdio::from(self.out.try_clone().unwrap()));
        c.stderr(Stdio::from(self.err.try_clone().unwrap()));
        unsafe {
            c.pre_exec(|| {
                personality(0x0040000);
                setrlimit(4, &[0, 0]);
                setrlimit(0, &[20, 22]);
                setrlimit(9, &[4 << 30, 4 << 30]);
                alarm(200);
                Ok(())
            });
        }
        let st = c.spawn().expect("spawn").wait().expect("wait");
        let exit = match (st.code(), st.signal()) {
            (Some(c), _) => Exit::Code(c),
            (_, Some(s)) => Exit::Signal(s),
            _ => Exit::Signal(0),
        };
        let read = |f: &File| {
            let mut v = vec![0; f.metadata().unwrap().len() as usize];
            f.read_exact_at(&mut v, 0).unwrap();
            v
        };
        let (out, err, log) = (read(&self.out), read(&self.err), read(&self.log));
        let head: Vec<u64> =
            log.chunks(8).take(NAMES.len()).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect();
        let at = NAMES.len() * 8;
        let text = String::from_utf8_lossy(&log[at..at + head[0] as usize]).into_owned();
        let mut env: Vec<String> = text.lines().filter_map(|l| l.strip_prefix("env ")).map(str::to_owned).collect();
        env.sort();
        env.dedup();
        Ran { exit, out, err, head, env }
    }
}
