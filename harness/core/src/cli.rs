//! Driving the dnglab binary as a subprocess inside a scratch directory: event log, fault injection, snapshots.
use crate::ctx::hash_bytes;
use crate::gen_dng::{Pix, Src};
use crate::refdng::{Samples, decode_raw};
use crate::reftiff::Tiff;
use crate::util::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::{MetadataExt, PermissionsExt, symlink};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static N: AtomicU64 = AtomicU64::new(0);

/// Private directory below /tmp, removed on drop. `dir` is the observed area, `aux` holds logs.
pub struct Scratch {
  pub base: PathBuf,
  pub dir: PathBuf,
  pub aux: PathBuf,
}
impl Scratch {
  pub fn new() -> Self {
    let base = std::env::temp_dir().join(format!("vmon-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
    let dir = base.join("a/b/c/d/box");
    let aux = base.join("aux");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::create_dir_all(&aux).unwrap();
    for p in [&base, &aux] {
      std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777)).unwrap();
    }
    let base = base.canonicalize().unwrap();
    Self { dir: base.join("a/b/c/d/box"), aux: base.join("aux"), base }
  }
  pub fn put(&self, rel: &str, data: &[u8]) -> PathBuf {
    let p = self.dir.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::fs::write(&p, data).unwrap();
    p
  }
  pub fn mkdir(&self, rel: &str) -> PathBuf {
    let p = self.dir.join(rel);
    std::fs::create_dir_all(&p).unwrap();
    p
  }
  pub fn link(&self, target: &Path, rel: &str) {
    let p = self.dir.join(rel);
    std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    symlink(target, p).unwrap();
  }
  /// hand the whole observed area to an unprivileged user
  pub fn give_away(&self) {
    fn rec(p: &Path) {
      let _ = std::os::unix::fs::lchown(p, Some(65534), Some(65534));
      if let Ok(md) = p.symlink_metadata() {
        if md.is_dir() {
          for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            rec(&e.path());
          }
        }
      }
    }
    rec(&self.base);
  }
}
impl Drop for Scratch {
  fn drop(&mut self) {
    if std::env::var("VMON_KEEP").is_ok() {
      eprintln!("kept {}", self.base.display());
      return;
    }
    if self.base.starts_with(std::env::temp_dir()) && self.base.file_name().is_some_and(|n| n.to_string_lossy().starts_with("vmon-")) {
      fn unlock(p: &Path) {
        if p.symlink_metadata().map(|m| m.is_dir()).unwrap_or(false) {
          let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o777));
          for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
            unlock(&e.path());
          }
        }
      }
      unlock(&self.base);
      let _ = std::fs::remove_dir_all(&self.base);
    }
  }
}

fn build_dir() -> PathBuf {
  PathBuf::from(std::env::var("BUILD").unwrap_or("/verif/build".into()))
}

/// Copy of the binary and the shim that an unprivileged user can read.
pub fn tools() -> &'static (PathBuf, PathBuf) {
  static T: OnceLock<(PathBuf, PathBuf)> = OnceLock::new();
  T.get_or_init(|| {
    let d = std::env::temp_dir().join(format!("vmon-{}-bin", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).unwrap();
    let bin = d.join("dnglab");
    let shim = d.join("shim.so");
    std::fs::copy(build_dir().join("cli/debug/dnglab"), &bin).expect("dnglab binary");
    std::fs::copy(build_dir().join("shim.so"), &shim).expect("shim");
    for f in [&bin, &shim] {
      std::fs::set_permissions(f, std::fs::Permissions::from_mode(0o755)).unwrap();
    }
    (bin, shim)
  })
}

pub fn cleanup() {
  let d = std::env::temp_dir().join(format!("vmon-{}-bin", std::process::id()));
  let _ = std::fs::remove_dir_all(d);
}

#[derive(Clone, Debug, Default)]
pub struct Opt {
  pub fault: Option<String>,
  pub delay: Option<String>,
  pub fsize: Option<u64>,
  pub cwd: Option<PathBuf>,
  pub env: Vec<(String, String)>,
  pub drop_priv: bool,
  pub timeout: Option<Duration>,
}

#[derive(Clone, Debug)]
pub struct Event {
  pub op: String,
  pub path: PathBuf,
  pub path2: String,
  pub rc: i64,
}

#[derive(Debug)]
pub struct Run {
  pub code: Option<i32>,
  pub signal: Option<i32>,
  pub timed_out: bool,
  pub stdout: Vec<u8>,
  pub stderr: String,
  pub log: Vec<Event>,
  pub wall: Duration,
}
impl Run {
  pub fn ok(&self) -> bool {
    self.code == Some(0)
  }
  pub fn brief(&self) -> String {
    format!("exit={:?} signal={:?} stderr={:?}", self.code, self.signal, self.stderr.chars().take(400).collect::<String>())
  }
}

pub fn command(s: &Scratch, o: &Opt) -> Command {
  let (bin, shim) = tools();
  let mut c = Command::new(bin);
  c.env_clear().env("PATH", "/usr/bin:/bin").env("HOME", &s.aux).env("TZ", "UTC0").env("RUST_BACKTRACE", "0").env("TMPDIR", &s.aux);
  c.env("LD_PRELOAD", shim).env("VSHIM_ROOT", &s.base.join("a")).env("VSHIM_LOG", s.aux.join("events"));
  if let Some(f) = &o.fault {
    c.env("VSHIM_FAULT", f);
  }
  if let Some(f) = &o.delay {
    c.env("VSHIM_DELAY", f);
  }
  for (k, v) in &o.env {
    c.env(k, v);
  }
  c.current_dir(o.cwd.as_ref().unwrap_or(&s.dir));
  let fsize = o.fsize;
  let dropp = o.drop_priv;
  unsafe {
    c.pre_exec(move || {
      if let Some(n) = fsize {
        let l = libc::rlimit { rlim_cur: n, rlim_max: n };
        if libc::setrlimit(libc::RLIMIT_FSIZE, &l) != 0 {
          return Err(std::io::Error::last_os_error());
        }
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
      }
      let z = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
      libc::setrlimit(libc::RLIMIT_CORE, &z);
      libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
      if dropp {
        libc::setgroups(0, std::ptr::null());
        if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
          return Err(std::io::Error::last_os_error());
        }
      }
      Ok(())
    });
  }
  c
}

pub fn wait_timeout(ch: &mut Child, t: Duration) -> Option<std::process::ExitStatus> {
  let t0 = Instant::now();
  loop {
    if let Ok(Some(st)) = ch.try_wait() {
      return Some(st);
    }
    if t0.elapsed() > t {
      let _ = ch.kill();
      let _ = ch.wait();
      return None;
    }
    std::thread::sleep(Duration::from_millis(2));
  }
}

pub fn run(s: &Scratch, args: &[OsString], o: &Opt) -> Run {
  let _ = std::fs::remove_file(s.aux.join("events"));
  std::fs::write(s.aux.join("events"), b"").unwrap();
  std::fs::set_permissions(s.aux.join("events"), std::fs::Permissions::from_mode(0o666)).unwrap();
  let mut c = command(s, o);
  c.args(args).stdin(Stdio::null());
  // pipes: a file size limit must not hit the diagnostics
  c.stdout(Stdio::piped()).stderr(Stdio::piped());
  let t0 = Instant::now();
  let mut ch = c.spawn().expect("spawn dnglab");
  let (mut po, mut pe) = (ch.stdout.take().unwrap(), ch.stderr.take().unwrap());
  let to = std::thread::spawn(move || {
    let mut v = Vec::new();
    let _ = po.read_to_end(&mut v);
    v
  });
  let te = std::thread::spawn(move || {
    let mut v = Vec::new();
    let _ = pe.read_to_end(&mut v);
    v
  });
  let st = wait_timeout(&mut ch, o.timeout.unwrap_or(Duration::from_secs(60)));
  Run {
    code: st.and_then(|s| s.code()),
    signal: st.and_then(|s| s.signal()),
    timed_out: st.is_none(),
    stdout: to.join().unwrap(),
    stderr: String::from_utf8_lossy(&te.join().unwrap()).into_owned(),
    log: events(s),
    wall: t0.elapsed(),
  }
}

pub fn events(s: &Scratch) -> Vec<Event> {
  String::from_utf8_lossy(&std::fs::read(s.aux.join("events")).unwrap_or_default())
    .lines()
    .filter_map(|l| {
      let f: Vec<&str> = l.split('\t').collect();
      Some(Event {
        op: f.first()?.to_string(),
        path: PathBuf::from(f.get(1)?),
        path2: f.get(2)?.to_string(),
        rc: f.get(3)?.parse().ok()?,
      })
    })
    .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
  pub kind: char,
  pub len: u64,
  pub hash: u64,
  pub mtime: (i64, i64),
  pub mode: u32,
  pub ino: u64,
  pub target: String,
}

pub type Snap = BTreeMap<String, Node>;

/// Everything below a directory, with contents, times and identity.
pub fn snap(dir: &Path) -> Snap {
  fn rec(base: &Path, p: &Path, m: &mut Snap) {
    let Ok(rd) = std::fs::read_dir(p) else { return };
    for e in rd.flatten() {
      let path = e.path();
      let Ok(md) = path.symlink_metadata() else { continue };
      let rel = path.strip_prefix(base).unwrap().to_string_lossy().into_owned();
      let ft = md.file_type();
      let (kind, hash, target) = if ft.is_symlink() {
        ('l', 0, std::fs::read_link(&path).map(|t| t.to_string_lossy().into_owned()).unwrap_or_default())
      } else if ft.is_dir() {
        ('d', 0, String::new())
      } else {
        ('f', hash_bytes(&std::fs::read(&path).unwrap_or_default()), String::new())
      };
      m.insert(
        rel,
        Node {
          kind,
          len: if kind == 'f' { md.len() } else { 0 },
          hash,
          mtime: if kind == 'f' { (md.mtime(), md.mtime_nsec()) } else { (0, 0) },
          mode: md.mode(),
          ino: md.ino(),
          target,
        },
      );
      if kind == 'd' {
        rec(base, &path, m);
      }
    }
  }
  let mut m = Snap::new();
  rec(dir, dir, &mut m);
  m
}

/// Difference between two snapshots: (changed, removed, added)
pub fn delta(a: &Snap, b: &Snap) -> (Vec<String>, Vec<String>, Vec<String>) {
  let mut ch = vec![];
  let mut rm = vec![];
  let mut ad = vec![];
  for (k, v) in a {
    match b.get(k) {
      None => rm.push(k.clone()),
      Some(w) if w != v => ch.push(k.clone()),
      _ => (),
    }
  }
  for k in b.keys() {
    if !a.contains_key(k) {
      ad.push(k.clone());
    }
  }
  (ch, rm, ad)
}

/// Does a DNG hold exactly the samples of a generated source (read by the independent decoder)?
pub fn same_pixels(out: &[u8], s: &Src) -> Result<(), String> {
  let t = Tiff::parse(out)?;
  let d = t.raw_dir().ok_or("no raw IFD")?;
  let dec = decode_raw(out, &t, d)?;
  if (dec.w, dec.h, dec.cpp) != (s.w, s.h, s.cpp) {
    return Err(format!("dimensions {}x{}x{} instead of {}x{}x{}", dec.w, dec.h, dec.cpp, s.w, s.h, s.cpp));
  }
  let row = s.w * s.cpp;
  match (&s.pix, &dec.samples) {
    (Pix::U(a), Samples::U(b)) => diff_u16(a, b, row),
    (Pix::F(a), Samples::F(b)) => diff_u32(a, b, row),
    _ => Some("sample format changed".into()),
  }
  .map_or(Ok(()), Err)
}

/// Embedded original of a DNG: (name, unpacked bytes)
pub fn embedded(out: &[u8]) -> Result<Option<(String, Vec<u8>)>, String> {
  let t = Tiff::parse(out)?;
  let root = t.dirs.first().ok_or("no IFD")?;
  let Some(e) = root.get(50828) else { return Ok(None) };
  let name = root.get(50827).and_then(|e| e.str()).ok_or("no OriginalRawFileName")?;
  Ok(Some((name, crate::p04::ref_unpack(&e.data)?)))
}

pub fn args(v: &[&str]) -> Vec<OsString> {
  v.iter().map(OsString::from).collect()
}
