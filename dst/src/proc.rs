//! Starts the instrumented program on the simulated machine and speaks the world protocol with it.
use crate::case::Sim;
use std::io::{BufReader, Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::net::UnixStream;
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};

extern "C" {
    fn personality(p: u64) -> i32;
    fn sched_setaffinity(pid: i32, n: usize, mask: *const u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
    fn getrlimit(r: i32, l: *mut [u64; 2]) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32;
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn lseek(fd: i32, off: i64, wh: i32) -> i64;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn close(fd: i32) -> i32;
}

pub fn raise_fds() {
    let mut l = [0u64; 2];
    unsafe {
        getrlimit(7, &mut l);
        l[0] = l[1].min(65_536);
        setrlimit(7, &l);
    }
}

pub enum Msg {
    Connect(u64, u64),
    Data(u64, Vec<u8>),
    Close(u64),
    Shut(u64),
    Step(u64, u64),
    Exit(u64, Vec<u64>, Vec<u8>),
    Log(u64, Vec<u8>),
    Listen,
    /// Threads, descriptors, bytes.
    Sample(Vec<u64>),
    Gone,
    Stuck,
}

struct MemFd(RawFd);
impl MemFd {
    fn new() -> Self {
        let fd = unsafe { memfd_create(b"s\0".as_ptr(), 1) };
        assert!(fd >= 0, "memfd");
        let hi = unsafe { fcntl(fd, 1030, 200) };
        unsafe { close(fd) };
        MemFd(hi)
    }
    fn write(&self, b: &[u8]) {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(self.0) });
        f.write_all(b).unwrap();
        unsafe { lseek(self.0, 0, 0) };
    }
    fn read(&self) -> Vec<u8> {
        let mut f = std::mem::ManuallyDrop::new(unsafe { std::fs::File::from_raw_fd(self.0) });
        unsafe { lseek(self.0, 0, 0) };
        let mut v = vec![];
        f.read_to_end(&mut v).unwrap();
        v
    }
}
impl Drop for MemFd {
    fn drop(&mut self) {
        unsafe { close(self.0) };
    }
}

pub struct Proc {
    child: Child,
    rd: BufReader<UnixStream>,
    wr: UnixStream,
    rec: Option<MemFd>,
    _rep: Option<MemFd>,
}

pub struct Opts<'a> {
    pub exe: &'a str,
    pub core: usize,
    pub record: bool,
    pub replay: Option<&'a [u8]>,
    pub start: u64,
    pub skew: i64,
    pub conn0: u64,
    pub incarnation: u64,
    pub args: Vec<String>,
    /// Exact accounting of memory.
    pub exact: bool,
}

/// Settings of the program's log level; the first leaves it alone.
pub const LEVELS: [&str; 8] = ["", "trace", "debug", "off", "error", "warn,hyper=trace,juno=debug", "nonsense=???", "juno_axum=trace,[span{x=1}]=debug"];
impl Proc {
    pub fn start(sim: &Sim, o: &Opts) -> Proc {
        let (a, b) = UnixStream::pair().unwrap();
        let cfg = format!(
            "ncpu={},tick={},bbns={},policy={},pswitch={},bbmean={},pjump={},jumpmax={},pspur={},peintr={},maxev={},happy={},sndbuf={},pctdepth={},pctlen={},sseed={},hseed={},mseed={},rtbase={},maxdec={},maxbb={},start={},skew={},conn0={}",
            sim.ncpu, sim.tick, sim.bbns, sim.policy, sim.pswitch, sim.bbmean, sim.pjump, sim.jumpmax, sim.pspur, sim.peintr,
            sim.maxev, sim.happy, sim.sndbuf, sim.pctdepth, sim.pctlen,
            sim.sseed.wrapping_add(o.incarnation), sim.hseed.wrapping_add(o.incarnation), sim.mseed.wrapping_add(o.incarnation),
            sim.rtbase, sim.maxdec, sim.maxbb, o.start, o.skew as u64, o.conn0
        );
        // The environment has the same size in every run, so that addresses on the stack are the same.
        let cfg = format!("{cfg},{}", "x".repeat(900 - cfg.len()));
        let rec = o.record.then(MemFd::new);
        let rep = o.replay.map(|b| {
            let m = MemFd::new();
            m.write(b);
            m
        });
        let flag = |k: &str, on: bool, fd: u32| if on { (format!("SIM_{k}"), format!("/proc/self/fd/{fd}")) } else { (format!("SIX_{k}"), "/proc/self/fd/xxx".into()) };
        let r1 = flag("RECORD", rec.is_some(), 101);
        let r2 = flag("REPLAY", rep.is_some(), 102);
        // How much the program is asked to log; padded as well.
        let level = LEVELS[sim.log as usize % LEVELS.len()];
        let rl = (if level.is_empty() { "RUST_LOX" } else { "RUST_LOG" }, level);
        let pad = "x".repeat(60 - level.len());
        let mut c = Command::new(o.exe);
        c.args(&o.args);
        c.env_clear()
            .env("SIM_FD", "100")
            .env("SIM_CFG", cfg)
            .env(rl.0, rl.1)
            .env("SIM_PAD", pad)
            .env(r1.0, r1.1)
            .env(r2.0, r2.1)
            .env("MALLOC_ARENA_MAX", "1")
            .env("LD_PRELOAD", crate::paths::libsim())
            .env("SSL_CERT_FILE", "/dev/null")
            .env("TOKIO_WORKER_THREADS", format!("{:02}", sim.ncpu))
            .env("RAYON_NUM_THREADS", format!("{:02}", if sim.rayon == 0 { sim.ncpu } else { sim.rayon }))
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(if std::env::var_os("DST_DEBUG").is_some() { Stdio::inherit() } else { Stdio::null() })
            .current_dir("/");
        if o.exact {
            c.env("GLIBC_TUNABLES", "glibc.malloc.tcache_count=0:glibc.malloc.mxfast=0");
        }
        let (bfd, recfd, repfd, core) = (b.as_raw_fd(), rec.as_ref().map(|m| m.0), rep.as_ref().map(|m| m.0), o.core);
        unsafe {
            c.pre_exec(move || {
                prctl(1, 9, 0, 0, 0);
                personality(0x0040000);
                let m = [1u64 << (core % 64); 1];
                sched_setaffinity(0, 8, m.as_ptr());
                // Memory: a runaway program ends before the sandbox does.
                let l = [6u64 << 30, 6u64 << 30];
                setrlimit(9, &l);
                if dup2(bfd, 100) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                if let Some(f) = recfd {
                    dup2(f, 101);
                }
                if let Some(f) = repfd {
                    dup2(f, 102);
                }
                Ok(())
            });
        }
        let child = c.spawn().unwrap_or_else(|e| panic!("cannot start {}: {e}", o.exe));
        drop(b);
        a.set_read_timeout(Some(std::time::Duration::from_secs(120))).unwrap();
        let wr = a.try_clone().unwrap();
        Proc { child, rd: BufReader::with_capacity(1 << 16, a), wr, rec, _rep: rep }
    }
    fn u(&mut self) -> std::io::Result<u64> {
        let mut b = [0; 8];
        self.rd.read_exact(&mut b)?;
        Ok(u64::from_le_bytes(b))
    }
    fn bytes(&mut self) -> std::io::Result<Vec<u8>> {
        let n = self.u()? as usize;
        let mut v = vec![0; n];
        self.rd.read_exact(&mut v)?;
        Ok(v)
    }
    fn next0(&mut self) -> std::io::Result<Msg> {
        let (t, a, b) = (self.u()?, self.u()?, self.u()?);
        Ok(match t {
            1 => Msg::Connect(a, b),
            2 => Msg::Data(a, self.bytes()?),
            3 => Msg::Close(a),
            4 => Msg::Shut(a),
            5 => Msg::Step(a, b),
            6 => {
                let s = self.bytes()?;
                let m = self.bytes()?;
                Msg::Exit(a, s.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect(), m)
            }
            8 => Msg::Log(a, self.bytes()?),
            9 => Msg::Listen,
            10 => Msg::Sample(self.bytes()?.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()),
            o => panic!("message {o}"),
        })
    }
    pub fn next(&mut self) -> Msg {
        match self.next0() {
            Ok(m) => m,
            Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => Msg::Stuck,
            Err(_) => Msg::Gone,
        }
    }
    pub fn send(&mut self, b: &[u8]) {
        let _ = self.wr.write_all(b);
    }
    /// Ends the program; the recorded schedule and how it ended.
    pub fn end(mut self) -> (Option<Vec<u8>>, Option<i32>) {
        let _ = self.wr.shutdown(std::net::Shutdown::Both);
        let mut st = None;
        for _ in 0..200 {
            if let Ok(Some(s)) = self.child.try_wait() {
                st = s.code();
                return (self.rec.as_ref().map(|r| r.read()), st);
            }
            std::thread::sleep(std::time::Duration::from_millis(1));
        }
        let _ = self.child.kill();
        let _ = self.child.wait();
        (self.rec.as_ref().map(|r| r.read()), st)
    }
}
