//! Runs this binary again as a child on a pseudo terminal and watches what is on its screen.
use crate::term::{TCell, Term};
use std::collections::BTreeSet;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::process::CommandExt;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// The file descriptors a child finds: lines to post and lines it reports.
pub const CTL: RawFd = 3;
pub const LOG: RawFd = 4;

/// How long something may take that has to happen.
pub const PATIENCE: Duration = Duration::from_secs(25);

pub struct Session {
    master: File,
    slave: File,
    ctl: Option<File>,
    log: File,
    pub child: Child,
    pub term: Term,
    pub modes: BTreeSet<u32>,
    main: Option<Term>,
    rest: Vec<u8>,
    log_rest: Vec<u8>,
    /// Lines the child reported.
    pub said: Vec<String>,
    pub bells: usize,
    /// Anything else than letters and positions, in order: mode changes.
    pub raw: Vec<u8>,
    pub bad: Option<String>,
    sent: Option<Instant>,
    /// The line modes before the child started.
    pub initial: Modes,
}

fn check(r: i32) -> i32 {
    assert!(r >= 0, "system call failed: {}", std::io::Error::last_os_error());
    r
}

fn pipe() -> (File, File) {
    let mut fds = [0; 2];
    unsafe {
        check(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC));
        (File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]))
    }
}

pub type Modes = (u32, u32, u32, u32, Vec<u8>);

fn line_modes(slave: &File) -> Modes {
    unsafe {
        let mut t: libc::termios = std::mem::zeroed();
        check(libc::tcgetattr(slave.as_raw_fd(), &mut t));
        (t.c_iflag, t.c_oflag, t.c_cflag, t.c_lflag, t.c_cc.to_vec())
    }
}

impl Session {
    /// Starts the child with these arguments. `tune` may change the modes of the terminal before.
    pub fn start(args: &[String], cols: u16, rows: u16, tune: impl FnOnce(&mut libc::termios)) -> Session {
        unsafe {
            let m = check(libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC));
            let master = File::from_raw_fd(m);
            check(libc::grantpt(m));
            check(libc::unlockpt(m));
            let mut name = [0 as libc::c_char; 128];
            check(libc::ptsname_r(m, name.as_mut_ptr(), name.len()));
            let slave = File::from_raw_fd(check(libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC)));
            let mut t: libc::termios = std::mem::zeroed();
            check(libc::tcgetattr(slave.as_raw_fd(), &mut t));
            tune(&mut t);
            check(libc::tcsetattr(slave.as_raw_fd(), libc::TCSANOW, &t));
            let initial = line_modes(&slave);
            let size = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
            check(libc::ioctl(m, libc::TIOCSWINSZ, &size));
            let (ctl_r, ctl_w) = pipe();
            let (log_r, log_w) = pipe();
            let mut cmd = Command::new(std::env::current_exe().unwrap());
            cmd.args(args).env_remove("NO_COLOR").env("TERM", "xterm-256color").env("COLORTERM", "truecolor");
            cmd.stdin(Stdio::from(slave.try_clone().unwrap())).stdout(Stdio::from(slave.try_clone().unwrap()));
            cmd.stderr(if std::env::var_os("MC_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() });
            // Out of the way of the places they are moved to
            let (cr, lw) = (check(libc::fcntl(ctl_r.as_raw_fd(), libc::F_DUPFD_CLOEXEC, 100)), check(libc::fcntl(log_w.as_raw_fd(), libc::F_DUPFD_CLOEXEC, 100)));
            cmd.pre_exec(move || {
                libc::setsid();
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                if libc::ioctl(0, libc::TIOCSCTTY, 0) < 0 || libc::dup2(cr, CTL) < 0 || libc::dup2(lw, LOG) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                Ok(())
            });
            let child = cmd.spawn().expect("child");
            libc::close(cr);
            libc::close(lw);
            for f in [&master, &log_r] {
                let fl = check(libc::fcntl(f.as_raw_fd(), libc::F_GETFL));
                check(libc::fcntl(f.as_raw_fd(), libc::F_SETFL, fl | libc::O_NONBLOCK));
            }
            let mut main = Term::dirty(cols as usize, rows as usize);
            main.feed(b"\x1b[0m\x1b[1;1H$ app").unwrap();
            Session { master, slave, ctl: Some(ctl_w), log: log_r, child, term: main, modes: BTreeSet::new(), main: None, rest: vec![], log_rest: vec![], said: vec![], bells: 0, raw: vec![], bad: None, sent: None, initial }
        }
    }

    /// The line discipline as it is now.
    pub fn line_modes(&self) -> Modes {
        line_modes(&self.slave)
    }

    pub fn send(&mut self, bytes: &[u8]) {
        let mut b = bytes;
        let end = Instant::now() + PATIENCE;
        self.sent = Some(Instant::now());
        while !b.is_empty() && Instant::now() < end {
            match self.master.write(b) {
                Ok(n) => b = &b[n..],
                Err(_) => self.pump(1),
            }
        }
    }

    /// Bytes the app has not read yet.
    pub fn unread(&self) -> i32 {
        let mut n = 0i32;
        unsafe { check(libc::ioctl(self.slave.as_raw_fd(), libc::FIONREAD, &mut n)) };
        n
    }

    pub fn post(&mut self, line: &str) {
        let _ = self.ctl.as_mut().unwrap().write_all(format!("{line}\n").as_bytes());
    }

    pub fn resize(&mut self, cols: u16, rows: u16) {
        if (self.term.cols, self.term.rows) == (cols as usize, rows as usize) {
            return;
        }
        // crossterm may lose a resize that it learns of together with a key, and it takes the
        // kernel a moment to hand over what was sent.
        if let Some(t) = self.sent.take() {
            self.wait(PATIENCE, |_| t.elapsed() > Duration::from_millis(40));
        }
        self.wait(PATIENCE, |s| s.unread() == 0);
        self.term = Term::dirty(cols as usize, rows as usize);
        let size = libc::winsize { ws_row: rows, ws_col: cols, ws_xpixel: 0, ws_ypixel: 0 };
        unsafe { check(libc::ioctl(self.master.as_raw_fd(), libc::TIOCSWINSZ, &size)) };
    }

    /// Takes over what has arrived, waiting for up to `ms` for something.
    pub fn pump(&mut self, ms: i32) {
        let mut p = [libc::pollfd { fd: self.master.as_raw_fd(), events: libc::POLLIN, revents: 0 }, libc::pollfd { fd: self.log.as_raw_fd(), events: libc::POLLIN, revents: 0 }];
        unsafe { libc::poll(p.as_mut_ptr(), 2, ms) };
        if p[1].revents & libc::POLLHUP != 0 && p[1].revents & libc::POLLIN == 0 && p[0].revents & libc::POLLIN == 0 {
            // The child is gone: don't spin.
            std::thread::sleep(Duration::from_millis(1));
        }
        let mut buf = [0u8; 65536];
        while let Ok(n) = self.master.read(&mut buf) {
            if n == 0 {
                break;
            }
            self.rest.extend_from_slice(&buf[..n]);
        }
        self.digest();
        while let Ok(n) = self.log.read(&mut buf) {
            if n == 0 {
                break;
            }
            self.log_rest.extend_from_slice(&buf[..n]);
        }
        while let Some(e) = self.log_rest.iter().position(|b| *b == b'\n') {
            let l: Vec<u8> = self.log_rest.drain(..=e).collect();
            self.said.push(String::from_utf8_lossy(&l[..e]).into_owned());
        }
    }

    fn digest(&mut self) {
        let mut at = 0;
        let data = std::mem::take(&mut self.rest);
        while at < data.len() {
            let d = &data[at..];
            if d[0] == 0x07 {
                self.bells += 1;
                at += 1;
            } else if d[0] == 0x1b {
                if d.len() < 2 {
                    break;
                }
                if d[1] != b'[' {
                    self.fail(format!("unexpected escape {:?}", String::from_utf8_lossy(&d[..d.len().min(8)])));
                    at += 2;
                    continue;
                }
                let Some(e) = d[2..].iter().position(|b| (0x40..0x7f).contains(b)) else { break };
                let seq = &d[..e + 3];
                if seq[2] == b'?' {
                    self.private(std::str::from_utf8(&seq[3..e + 2]).unwrap_or(""), seq[e + 2]);
                    self.raw.extend_from_slice(seq);
                } else if let Err(x) = self.term.feed(seq) {
                    self.fail(x);
                }
                at += seq.len();
            } else {
                let e = d.iter().position(|b| *b == 0x1b || *b == 7);
                let text = &d[..e.unwrap_or(d.len())];
                // A character may have arrived in part.
                let ok = match std::str::from_utf8(text) {
                    Ok(_) => text.len(),
                    Err(x) if e.is_none() => x.valid_up_to(),
                    Err(_) => {
                        self.fail("output is not UTF-8".into());
                        at += text.len();
                        continue;
                    }
                };
                if let Err(x) = self.term.feed(&text[..ok]) {
                    self.fail(x);
                }
                at += ok;
                if ok < text.len() {
                    break;
                }
            }
        }
        self.rest = data[at..].to_vec();
    }

    fn fail(&mut self, s: String) {
        self.bad.get_or_insert(s);
    }

    fn private(&mut self, params: &str, end: u8) {
        for p in params.split(';') {
            let n: u32 = p.parse().unwrap_or(0);
            match end {
                b'h' => {
                    self.modes.insert(n);
                    if n == 1049 && self.main.is_none() {
                        self.main = Some(self.term.clone());
                        let (c, r) = (self.term.cols, self.term.rows);
                        self.term = Term::dirty(c, r);
                    }
                }
                b'l' => {
                    // A cursor that is not hidden is in no set.
                    if n == 25 {
                        self.modes.insert(u32::MAX);
                        continue;
                    }
                    self.modes.remove(&n);
                    if n == 1049 {
                        if let Some(m) = self.main.take() {
                            self.term = m;
                        }
                    }
                }
                c => self.fail(format!("unexpected control sequence ESC[?{params}{}", c as char)),
            }
            if n == 25 && end == b'h' {
                self.modes.remove(&25);
                self.modes.remove(&u32::MAX);
            }
        }
    }

    pub fn wait(&mut self, limit: Duration, mut f: impl FnMut(&mut Session) -> bool) -> bool {
        let end = Instant::now() + limit;
        loop {
            self.pump(0);
            if f(self) {
                return true;
            }
            if Instant::now() >= end {
                return false;
            }
            self.pump(5);
        }
    }

    /// The exit code once the child has ended.
    pub fn ended(&mut self, limit: Duration) -> Option<Option<i32>> {
        let mut code = None;
        self.wait(limit, |s| match s.child.try_wait() {
            Ok(Some(st)) => {
                code = Some(st.code());
                true
            }
            _ => false,
        });
        self.pump(0);
        code
    }

    pub fn row(&self, y: usize) -> String {
        self.term.cells[y * self.term.cols..(y + 1) * self.term.cols].iter().map(|c| c.text.as_str()).collect()
    }

    pub fn text(&self) -> String {
        (0..self.term.rows).map(|y| self.row(y)).collect::<Vec<_>>().join("\n")
    }
}

impl Drop for Session {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The cells of a canvas as a terminal shows them.
pub fn cells_of(c: &textual::Canvas, cols: usize, rows: usize) -> Vec<TCell> {
    use crate::term::Look;
    use crossterm::style::Color;
    let rgb = |c: Option<Color>| match c {
        Some(Color::Rgb { r, g, b }) => Some((r, g, b)),
        None | Some(Color::Reset) => None,
        other => panic!("colour {other:?}"),
    };
    (0..cols * rows)
        .map(|i| {
            let k = c.cell_at(i);
            let a = &k.attrs;
            TCell {
                text: if k.continuation { String::new() } else { k.symbol.clone() },
                w: if k.continuation { 0 } else { k.width.max(1) },
                look: Look { fg: rgb(k.fg), bg: rgb(k.bg), attrs: [a.bold, a.dim, a.italic, a.underline, a.strike, a.reverse] },
            }
        })
        .collect()
}

/// The first difference between two screens, in words.
pub fn difference(have: &Term, want: &[TCell]) -> Option<String> {
    if have.cells.len() != want.len() {
        return Some("the sizes differ".into());
    }
    let i = (0..want.len()).find(|i| have.cells[*i] != want[*i])?;
    let (x, y) = (i % have.cols, i / have.cols);
    let row = |c: &[TCell]| c[y * have.cols..(y + 1) * have.cols].iter().map(|c| c.text.as_str()).collect::<String>();
    Some(format!("column {x} of row {y} shows {:?}, not {:?}; the row is {:?}, not {:?}", have.cells[i], want[i], row(&have.cells), row(want)))
}
