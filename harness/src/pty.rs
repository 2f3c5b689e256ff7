//! A pseudo-terminal with a child process of this binary on it, and two pipes to talk to it.
use crate::core::R;
use crate::props::p09_canvas::Term;
use std::collections::BTreeSet;
use std::os::fd::RawFd;
use std::os::unix::process::CommandExt;
use std::time::{Duration, Instant};

pub struct Pty { pub master: RawFd, slave: RawFd, from_child: RawFd, to_child: RawFd, pub child: std::process::Child, pub out: Vec<u8>, line: Vec<u8>, pub termios0: Vec<u8> }
fn termios(fd: RawFd) -> Vec<u8> {
    unsafe { let mut t: libc::termios = std::mem::zeroed(); libc::tcgetattr(fd, &mut t); format!("i{:o} o{:o} c{:o} l{:o}", t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag).into_bytes() }
}
fn winsize(fd: RawFd, w: u16, h: u16) { unsafe { let ws = libc::winsize { ws_row: h, ws_col: w, ws_xpixel: 0, ws_ypixel: 0 }; libc::ioctl(fd, libc::TIOCSWINSZ, &ws); } }

impl Pty {
    pub fn spawn(args: &[String], w: u16, h: u16) -> Result<Pty, String> {
        unsafe {
            let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if master < 0 || libc::grantpt(master) != 0 || libc::unlockpt(master) != 0 { return Err("harness: no pseudo-terminal".into()); }
            let mut name = [0 as libc::c_char; 128];
            if libc::ptsname_r(master, name.as_mut_ptr(), 128) != 0 { return Err("harness: ptsname".into()); }
            let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
            if slave < 0 { return Err("harness: cannot open the pseudo-terminal".into()); }
            winsize(master, w, h);
            let (mut a, mut b) = ([0; 2], [0; 2]);
            if libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) != 0 || libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) != 0 { return Err("harness: pipe".into()); }
            let (rd, wr) = (b[0], a[1]);
            let mut c = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?);
            c.arg("app").args(args).env_remove("NO_COLOR").env("TERM", "xterm-256color").env("RUST_BACKTRACE", "0");
            c.pre_exec(move || {
                libc::setsid();
                // keep the pipe ends out of the way of the numbers they are moved to
                let (rd2, wr2, s2) = (libc::fcntl(rd, libc::F_DUPFD, 20), libc::fcntl(wr, libc::F_DUPFD, 20), libc::fcntl(slave, libc::F_DUPFD, 20));
                libc::dup2(s2, 0);
                libc::dup2(s2, 1);
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                libc::dup2(n, 2);
                libc::ioctl(0, libc::TIOCSCTTY, 0);
                libc::dup2(rd2, 3);
                libc::dup2(wr2, 4);
                for f in 5..64 { libc::close(f); }
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
            let termios0 = termios(slave);
            let child = c.spawn().map_err(|e| format!("harness: spawn: {e}"))?;
            libc::close(a[1]);
            libc::close(b[0]);
            for f in [master, a[0]] { libc::fcntl(f, libc::F_SETFL, libc::O_NONBLOCK); }
            Ok(Pty { master, slave, from_child: a[0], to_child: b[1], child, out: vec![], line: vec![], termios0 })
        }
    }
    /// move what the child wrote into `out` and `line`; waits up to `ms` for something
    pub fn pump(&mut self, ms: i32) -> bool {
        unsafe {
            let mut p = [libc::pollfd { fd: self.master, events: libc::POLLIN, revents: 0 }, libc::pollfd { fd: self.from_child, events: libc::POLLIN, revents: 0 }];
            libc::poll(p.as_mut_ptr(), 2, ms);
            let mut any = false;
            let mut b = [0u8; 16384];
            for (f, to) in [(self.master, &mut self.out), (self.from_child, &mut self.line)] {
                loop { let k = libc::read(f, b.as_mut_ptr() as *mut _, b.len()); if k <= 0 { break; } to.extend_from_slice(&b[..k as usize]); any = true; }
            }
            any
        }
    }
    pub fn send(&mut self, bytes: &[u8]) { unsafe { let mut at = 0; while at < bytes.len() { let k = libc::write(self.master, bytes[at..].as_ptr() as *const _, bytes.len() - at); if k <= 0 { self.pump(5); if self.child.try_wait().map(|s| s.is_some()).unwrap_or(true) { return; } continue; } at += k as usize; } } }
    pub fn ack(&mut self) { unsafe { libc::write(self.to_child, b"k".as_ptr() as *const _, 1); } }
    /// a line the child wrote on the pipe, if one is complete
    pub fn take_line(&mut self) -> Option<String> {
        let i = self.line.iter().position(|&b| b == b'\n')?;
        let l: Vec<u8> = self.line.drain(..=i).collect();
        Some(String::from_utf8_lossy(&l[..i]).into_owned())
    }
    /// the terminal output up to the child's marker `n`
    pub fn take_output(&mut self, n: u64, limit: Duration) -> Option<Vec<u8>> {
        let mark = format!("\x1b]sync{n}\x07").into_bytes();
        let t = Instant::now();
        loop {
            if let Some(i) = self.out.windows(mark.len()).position(|w| w == mark) { let mut v: Vec<u8> = self.out.drain(..i + mark.len()).collect(); v.truncate(i); return Some(v); }
            if t.elapsed() > limit { return None; }
            self.pump(20);
        }
    }
    pub fn wait_line(&mut self, limit: Duration) -> Option<String> {
        let t = Instant::now();
        loop {
            if let Some(l) = self.take_line() { return Some(l); }
            if t.elapsed() > limit { return None; }
            if !self.pump(20) && self.child.try_wait().map(|s| s.is_some()).unwrap_or(true) { self.pump(0); return self.take_line(); }
        }
    }
    /// wait for the child to end; Some(exit code or -signal)
    pub fn wait_exit(&mut self, limit: Duration) -> Option<i32> {
        use std::os::unix::process::ExitStatusExt;
        let t = Instant::now();
        loop {
            self.pump(5);
            if let Ok(Some(s)) = self.child.try_wait() { self.pump(20); self.pump(20); return Some(s.code().unwrap_or_else(|| -s.signal().unwrap_or(0))); }
            if t.elapsed() > limit { return None; }
        }
    }
    /// Resize through the slave side: through the master the kernel signals the child before the new size can be read
    pub fn resize(&self, w: u16, h: u16) { winsize(self.slave, w, h); }
    pub fn winch(&self) { unsafe { libc::kill(self.child.id() as i32, libc::SIGWINCH); } }
    /// wait for the application to take the terminal over (before that, input would be echoed)
    pub fn started(&mut self, limit: Duration) { let t = Instant::now(); while !self.out.windows(8).any(|w| w == b"\x1b[?1049h") && t.elapsed() < limit && !self.ended() { self.pump(20); } }
    pub fn ended(&mut self) -> bool { self.child.try_wait().map(|s| s.is_some()).unwrap_or(true) }
    pub fn termios_now(&self) -> Vec<u8> { termios(self.slave) }
}
impl Drop for Pty {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); unsafe { for f in [self.master, self.slave, self.from_child, self.to_child] { libc::close(f); } } }
}

/// terminal screen plus private modes
pub struct Tty { pub term: Term, pub modes: BTreeSet<u32>, pub seen: BTreeSet<u32> }
impl Tty {
    pub fn new(w: usize, h: usize) -> Tty { Tty { term: Term::new(w, h), modes: [25].into(), seen: BTreeSet::new() } }
    pub fn feed(&mut self, b: &[u8]) -> R {
        let mut rest = b;
        while let Some(i) = rest.windows(3).position(|w| w == b"\x1b[?") {
            self.term.feed(&rest[..i])?;
            let t = &rest[i + 3..];
            let Some(e) = t.iter().position(|c| !(c.is_ascii_digit() || *c == b';')) else { return Err("truncated private mode sequence".into()) };
            for n in std::str::from_utf8(&t[..e]).unwrap().split(';').filter_map(|x| x.parse::<u32>().ok()) {
                match t[e] { b'h' => { self.modes.insert(n); self.seen.insert(n); } b'l' => { self.modes.remove(&n); self.seen.insert(n); } k => return Err(format!("unexpected private sequence {}", k as char)) }
            }
            rest = &t[e + 1..];
        }
        self.term.feed(rest)
    }
}
