//! FTP servers under observation (spawned as unprivileged processes) and a strict synchronous client.
use crate::cli::*;
use std::io::{Read, Write};
use std::net::{IpAddr, Ipv4Addr, Shutdown, SocketAddr, TcpListener, TcpStream};
use std::os::fd::AsRawFd;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU32, Ordering};
use std::time::{Duration, Instant};

static NEXT: AtomicU32 = AtomicU32::new(1);
pub const WAIT: Duration = Duration::from_secs(30);

/// Every server gets its own loopback address, so ports never collide.
pub fn fresh_addr() -> SocketAddr {
  let n = NEXT.fetch_add(1, Ordering::Relaxed);
  let pid = std::process::id();
  SocketAddr::new(IpAddr::V4(Ipv4Addr::new(127, 1 + (pid % 250) as u8, (n / 250) as u8, 1 + (n % 250) as u8)), 2000 + ((pid / 250) % 8000) as u16)
}

fn ftpd_exe() -> &'static PathBuf {
  static T: OnceLock<PathBuf> = OnceLock::new();
  T.get_or_init(|| {
    let p = tools().0.parent().unwrap().join("vmon");
    std::fs::copy("/proc/self/exe", &p).expect("copy self");
    std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
    p
  })
}

/// Body of the `vmon ftpd` sub process: the real embedftp server without callback.
pub fn ftpd_main(args: &[String]) -> i32 {
  #[derive(Clone)]
  struct Plain;
  impl embedftp::config::FtpCallback for Plain {}
  let addr: SocketAddr = args[0].parse().expect("addr");
  let users = args[3..]
    .iter()
    .map(|u| {
      let (n, p) = u.split_once(':').expect("user:pass");
      embedftp::config::User { name: n.into(), password: p.into() }
    })
    .collect();
  let cfg = embedftp::config::Config { server_port: addr.port(), server_addr: addr.ip(), users, anonymous: args[2] == "1", greeting: "Welcome".into() };
  let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap();
  let h = rt.handle().clone();
  match rt.block_on(embedftp::server::serve(h, PathBuf::from(&args[1]), cfg, Plain)) {
    Ok(()) => 0,
    Err(e) => {
      eprintln!("serve: {e}");
      9
    }
  }
}

pub struct Server {
  child: Child,
  pub addr: SocketAddr,
}
impl Drop for Server {
  fn drop(&mut self) {
    let _ = self.child.kill();
    let _ = self.child.wait();
  }
}
impl Server {
  fn up(mut c: Command, addr: SocketAddr, s: &Scratch) -> Result<Server, String> {
    let err = std::fs::File::create(s.aux.join("server.err")).unwrap();
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(err);
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    let t0 = Instant::now();
    loop {
      if let Ok(st) = TcpStream::connect_timeout(&addr, Duration::from_millis(500)) {
        drop(st);
        return Ok(Server { child, addr });
      }
      if let Ok(Some(st)) = child.try_wait() {
        return Err(format!("server exited: {st} {}", std::fs::read_to_string(s.aux.join("server.err")).unwrap_or_default()));
      }
      if t0.elapsed() > Duration::from_secs(30) {
        let _ = child.kill();
        let _ = child.wait();
        return Err("server does not accept connections".into());
      }
      std::thread::sleep(Duration::from_millis(3));
    }
  }
  pub fn alive(&mut self) -> bool {
    matches!(self.child.try_wait(), Ok(None))
  }
  /// Plain embedftp server
  pub fn plain(s: &Scratch, root: &Path, cwd: &Path, anon: bool, users: &[(String, String)]) -> Result<Server, String> {
    let addr = fresh_addr();
    let mut c = Command::new(ftpd_exe());
    c.env_clear().env("PATH", "/usr/bin:/bin").arg("ftpd").arg(addr.to_string()).arg(root).arg(if anon { "1" } else { "0" });
    for (n, p) in users {
      c.arg(format!("{n}:{p}"));
    }
    c.current_dir(cwd);
    unsafe {
      c.pre_exec(|| {
        let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &z);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        libc::setgroups(0, std::ptr::null());
        if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
          return Err(std::io::Error::last_os_error());
        }
        Ok(())
      });
    }
    Server::up(c, addr, s)
  }
  /// The real `dnglab ftpserver`
  pub fn dnglab(s: &Scratch, root: &Path, o: &Opt, extra: &[&str]) -> Result<Server, String> {
    let addr = fresh_addr();
    std::fs::write(s.aux.join("events"), b"").unwrap();
    std::fs::set_permissions(s.aux.join("events"), std::fs::Permissions::from_mode(0o666)).unwrap();
    let mut c = command(s, &Opt { drop_priv: true, ..o.clone() });
    c.arg("ftpserver").arg("--port").arg(addr.port().to_string()).arg("--listen").arg(addr.ip().to_string()).args(extra).arg(root);
    Server::up(c, addr, s)
  }
}

#[derive(Debug, Clone, PartialEq)]
pub struct Reply {
  pub code: u32,
  pub text: Vec<u8>,
}
impl Reply {
  pub fn ok(&self) -> bool {
    (200..300).contains(&self.code)
  }
  pub fn prelim(&self) -> bool {
    (100..200).contains(&self.code)
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
  Pasv,
  Epsv,
  Port,
}

pub enum Data {
  Stream(TcpStream),
  Listener(TcpListener),
}
impl Data {
  pub fn open(self) -> Result<TcpStream, String> {
    let s = match self {
      Data::Stream(s) => s,
      Data::Listener(l) => {
        l.set_nonblocking(true).unwrap();
        let t0 = Instant::now();
        loop {
          match l.accept() {
            Ok((s, _)) => {
              s.set_nonblocking(false).unwrap();
              break s;
            }
            Err(_) if t0.elapsed() < WAIT => std::thread::sleep(Duration::from_millis(1)),
            Err(e) => return Err(format!("no active data connection: {e}")),
          }
        }
      }
    };
    let _ = s.set_read_timeout(Some(WAIT));
    let _ = s.set_write_timeout(Some(WAIT));
    Ok(s)
  }
}

pub fn reset(s: TcpStream) {
  let l = libc::linger { l_onoff: 1, l_linger: 0 };
  unsafe {
    libc::setsockopt(s.as_raw_fd(), libc::SOL_SOCKET, libc::SO_LINGER, &l as *const _ as *const libc::c_void, std::mem::size_of::<libc::linger>() as u32);
  }
  drop(s);
}

pub struct Ftp {
  pub s: TcpStream,
  buf: Vec<u8>,
  pub addr: SocketAddr,
  pub log: Vec<String>,
}

/// Outcome of a transfer: replies and received bytes
#[derive(Debug)]
pub struct Transfer {
  pub prelim: bool,
  pub fin: Reply,
  pub data: Vec<u8>,
}

impl Ftp {
  pub fn connect(addr: SocketAddr) -> Result<Ftp, String> {
    let s = TcpStream::connect_timeout(&addr, WAIT).map_err(|e| format!("connect: {e}"))?;
    s.set_read_timeout(Some(WAIT)).unwrap();
    s.set_write_timeout(Some(WAIT)).unwrap();
    let _ = s.set_nodelay(true);
    let mut f = Ftp { s, buf: vec![], addr, log: vec![] };
    let r = f.reply()?;
    if r.code != 220 {
      return Err(format!("greeting {r:?}"));
    }
    Ok(f)
  }
  pub fn login(addr: SocketAddr, user: &str, pass: &str) -> Result<Ftp, String> {
    let mut f = Ftp::connect(addr)?;
    let r = f.cmd(&format!("USER {user}"))?;
    let r = if r.code == 331 { f.cmd(&format!("PASS {pass}"))? } else { r };
    if r.code != 230 {
      return Err(format!("login refused: {r:?}"));
    }
    Ok(f)
  }
  pub fn tail(&self) -> String {
    let n = self.log.len();
    self.log[n.saturating_sub(24)..].join(" | ")
  }
  fn line(&mut self) -> Result<Vec<u8>, String> {
    loop {
      if let Some(p) = self.buf.windows(2).position(|w| w == b"\r\n") {
        let l = self.buf[..p].to_vec();
        self.buf.drain(..p + 2);
        return Ok(l);
      }
      // the server does not disable Nagle's algorithm: acknowledge at once
      let one: libc::c_int = 1;
      unsafe {
        libc::setsockopt(self.s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &one as *const _ as *const libc::c_void, 4);
      }
      let mut b = [0u8; 4096];
      match self.s.read(&mut b) {
        Ok(0) => return Err("eof".into()),
        Ok(n) => self.buf.extend_from_slice(&b[..n]),
        Err(e) if matches!(e.kind(), std::io::ErrorKind::WouldBlock | std::io::ErrorKind::TimedOut) => return Err("timeout".into()),
        Err(e) => return Err(format!("eof ({e})")),
      }
    }
  }
  /// Read one reply (single or multi line), checking its syntax.
  pub fn reply(&mut self) -> Result<Reply, String> {
    let l = self.line()?;
    let code = l
      .get(..3)
      .filter(|c| c.iter().all(|b| b.is_ascii_digit()))
      .and_then(|c| std::str::from_utf8(c).ok()?.parse::<u32>().ok())
      .filter(|c| (100..600).contains(c))
      .ok_or_else(|| format!("malformed reply line {:?}", String::from_utf8_lossy(&l)))?;
    let mut text = l.get(4..).unwrap_or_default().to_vec();
    match l.get(3) {
      None | Some(b' ') => (),
      Some(b'-') => loop {
        let m = self.line()?;
        let last = m.starts_with(&l[..3]) && matches!(m.get(3), None | Some(b' '));
        text.push(b'\n');
        text.extend_from_slice(&m);
        if last {
          break;
        }
      },
      _ => return Err(format!("malformed reply line {:?}", String::from_utf8_lossy(&l))),
    }
    self.log.push(format!("< {code} {}", String::from_utf8_lossy(&text[..text.len().min(60)])));
    Ok(Reply { code, text })
  }
  pub fn send_raw(&mut self, b: &[u8]) -> Result<(), String> {
    self.log.push(format!("> {:?}", String::from_utf8_lossy(&b[..b.len().min(120)])));
    self.s.write_all(b).map_err(|e| format!("eof ({e})"))
  }
  pub fn cmd(&mut self, c: &str) -> Result<Reply, String> {
    self.send_raw(format!("{c}\r\n").as_bytes())?;
    self.reply()
  }
  /// The next reply must be the one of this command: detects missing and surplus replies.
  pub fn fence(&mut self) -> Result<(), String> {
    let r = self.cmd("SYST")?;
    if r.code != 215 { Err(format!("out of step: SYST answered with {r:?}")) } else { Ok(()) }
  }
  pub fn eof(&mut self) -> Result<(), String> {
    match self.line() {
      Err(e) if e.starts_with("eof") => Ok(()),
      Err(e) => Err(e),
      Ok(l) => Err(format!("unexpected line {:?}", String::from_utf8_lossy(&l))),
    }
  }
  pub fn data_addr(r: &Reply) -> Option<u16> {
    let t = String::from_utf8_lossy(&r.text).into_owned();
    let o = t.find('(')?;
    let inner = &t[o + 1..o + t[o..].find(')')?];
    if r.code == 227 {
      let v: Vec<u32> = inner.split(',').map(|x| x.trim().parse().ok()).collect::<Option<_>>()?;
      (v.len() == 6 && v.iter().all(|x| *x < 256)).then(|| (v[4] * 256 + v[5]) as u16)
    } else {
      inner.strip_prefix("|||")?.strip_suffix('|')?.parse().ok()
    }
  }
  /// Err(Ok(reply)): refused, Err(Err(..)): broken session
  pub fn mode(&mut self, m: Mode) -> Result<Data, Result<Reply, String>> {
    match m {
      Mode::Pasv | Mode::Epsv => {
        let r = self.cmd(if m == Mode::Pasv { "PASV" } else { "EPSV" }).map_err(Err)?;
        if r.code != if m == Mode::Pasv { 227 } else { 229 } {
          return Err(Ok(r));
        }
        let port = Ftp::data_addr(&r).ok_or_else(|| Err(format!("malformed passive reply {r:?}")))?;
        let a = SocketAddr::new(self.addr.ip(), port);
        TcpStream::connect_timeout(&a, WAIT).map(Data::Stream).map_err(|e| Err(format!("passive connect {a}: {e}")))
      }
      Mode::Port => {
        let ip = self.s.local_addr().unwrap().ip();
        let l = TcpListener::bind((ip, 0)).map_err(|e| Err(e.to_string()))?;
        let p = l.local_addr().unwrap().port();
        let r = self.cmd(&format!("PORT {},{},{}", ip.to_string().replace('.', ","), p >> 8, p & 255)).map_err(Err)?;
        if r.ok() { Ok(Data::Listener(l)) } else { Err(Ok(r)) }
      }
    }
  }
  /// Download style command (RETR, LIST, NLST) over an established data channel
  pub fn get(&mut self, c: &str, d: Data) -> Result<Transfer, String> {
    let r = self.cmd(c)?;
    if !r.prelim() {
      return Ok(Transfer { prelim: false, fin: r, data: vec![] });
    }
    let mut s = d.open()?;
    let mut data = vec![];
    s.read_to_end(&mut data).map_err(|e| format!("data: {e}"))?;
    drop(s);
    let fin = self.reply()?;
    Ok(Transfer { prelim: true, fin, data })
  }
  pub fn put(&mut self, c: &str, d: Data, data: &[u8], chunk: usize) -> Result<Transfer, String> {
    let r = self.cmd(c)?;
    if !r.prelim() {
      return Ok(Transfer { prelim: false, fin: r, data: vec![] });
    }
    let mut s = d.open()?;
    for c in data.chunks(chunk.max(1)) {
      if let Err(e) = s.write_all(c) {
        self.log.push(format!("upload broke: {e}"));
        break;
      }
    }
    let _ = s.shutdown(Shutdown::Write);
    let fin = self.reply()?;
    drop(s);
    Ok(Transfer { prelim: true, fin, data: vec![] })
  }
}
