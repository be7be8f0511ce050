//! C20 containment, C21 authentication, C22 file system semantics, C23 reply discipline, C24 auto conversion of the FTP server.
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, hash_bytes, hash_str};
use crate::ftp::*;
use crate::p15::small_src;
use crate::rng::Rng;
use crate::util::*;
use serde_json::json;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::{Read, Write};
use std::net::{Shutdown, SocketAddr};
use std::path::{Path, PathBuf};
use std::time::Duration;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn any_mode(r: &mut Rng) -> Mode {
  *r.pick(&[Mode::Pasv, Mode::Epsv, Mode::Port])
}

fn contains(h: &[u8], n: &[u8]) -> bool {
  h.windows(n.len()).any(|w| w == n)
}

// ---------------------------------------------------------------- C20

fn hostile_path(r: &mut Rng, s: &Scratch, links: bool) -> String {
  let base = s.dir.to_string_lossy().into_owned();
  let mut names = vec!["f1.txt", "d1", "d1/d2", "new", "n2.txt", "canary", "secret", "root2", "root", "d1/f2", "newdir", "innew"];
  if links {
    names.extend(["esc", "abs", "fsec", "dang", "dang2", "up", "self", "loop", "d1/esc2", "inlink", "pfx", "absup", "esc", "up", "fsec", "dang"]);
  }
  match r.range(0, 20) {
    0 => return r.pick(&["/", "..", ".", "/..", "../..", "/../..", "//", "", "./.", "/.", "d1/..", "/d1/../..", "d1/../../root", "..//", "/../root"]).to_string(),
    1 => return format!("{base}/canary/secret"),
    2 => return format!("/{base}/canary"),
    3 => return format!("{}{}/canary/secret", "../".repeat(r.range(1, 12)), base.trim_start_matches('/')),
    4 => return format!("{base}/root/{}", r.pick(&names)),
    5 => return "/etc/passwd".into(),
    6 => return format!("{}etc/passwd", "../".repeat(r.range(4, 14))),
    _ => (),
  }
  let mut p = String::new();
  if r.chance(1, 3) {
    p.push_str(r.pick(&["/", "//", "/./", "/../"]));
  }
  let n = r.range(1, 5);
  for k in 0..n {
    if k > 0 {
      p.push_str(r.pick(&["/", "/", "/", "//", "/./"]));
    }
    if r.chance(2, 5) {
      p.push_str("..");
    } else {
      p.push_str(r.pick(&names));
    }
  }
  if r.chance(1, 10) {
    p.push('/');
  }
  p
}

fn c20_layout(s: &Scratch, secret: &str, links: bool) {
  s.put(&format!("canary/secret"), format!("{secret} one").as_bytes());
  s.put(&format!("canary/{secret}.txt"), format!("{secret} two").as_bytes());
  s.put("canary/sub/inner", secret.as_bytes());
  s.put(&format!("root2/{secret}"), secret.as_bytes());
  s.put("root2/f1.txt", secret.as_bytes());
  s.put("../secret", secret.as_bytes());
  s.put("root/f1.txt", b"inside one");
  s.put("root/d1/f2", b"inside two");
  s.put("root/d1/d2/f3", b"inside three");
  if links {
    let c = s.dir.join("canary");
    s.link(Path::new("../canary"), "root/esc");
    s.link(&c, "root/abs");
    s.link(Path::new("../canary/secret"), "root/fsec");
    s.link(Path::new("../canary/planted"), "root/dang");
    s.link(Path::new("../nowhere/planted"), "root/dang2");
    s.link(Path::new(".."), "root/up");
    s.link(&s.dir, "root/absup");
    s.link(Path::new("."), "root/self");
    s.link(Path::new("loop2"), "root/loop");
    s.link(Path::new("loop"), "root/loop2");
    s.link(Path::new("../../canary"), "root/d1/esc2");
    s.link(Path::new("d1"), "root/inlink");
    s.link(Path::new("../root2"), "root/pfx");
    // auto conversion targets
    s.link(Path::new("../canary/secret"), "root/vic.dng");
    s.link(Path::new("../canary/planted.dng"), "root/gone.dng");
    s.link(&s.dir.join("root2/f1.txt"), "root/d1/vic2.dng");
  }
}

fn outside(s: &Scratch) -> Snap {
  let area = s.base.join("a");
  let root = s.dir.join("root").strip_prefix(&area).unwrap().to_string_lossy().into_owned();
  let mut m = snap(&area);
  // directory identity of the root itself counts as outside
  m.retain(|k, _| !k.starts_with(&format!("{root}/")));
  m
}

fn c20_case(ctx: &Ctx, r: &mut Rng, real: bool) -> Verdict {
  let s = Scratch::new();
  let secret = format!("HUSH{:016x}", r.u64());
  let links = r.chance(4, 5);
  c20_layout(&s, &secret, links);
  let raw = real.then(|| small_src(r).bytes);
  s.link(&s.dir.join("root"), "lroot");
  s.give_away();
  let before = outside(&s);
  let root_arg = match r.range(0, 5) {
    0 => PathBuf::from("root"),
    1 => PathBuf::from("./root/"),
    2 => s.dir.join("lroot"),
    3 => s.dir.join("root/../root"),
    _ => s.dir.join("root"),
  };
  let users = vec![("u".to_string(), String::new())];
  let srv = if real {
    Server::dnglab(&s, &root_arg, &Opt { cwd: Some(s.dir.clone()), ..Default::default() }, &["--keep-original", if r.bool() { "true" } else { "false" }])
  } else {
    Server::plain(&s, &root_arg, &s.dir, false, &users)
  };
  let mut srv = match srv {
    Ok(s) => s,
    Err(e) => return bad("ftp: server does not start", e),
  };
  let user = if real { "anonymous" } else { "u" };
  let mut f = match Ftp::login(srv.addr, user, "x") {
    Ok(f) => f,
    Err(e) => return bad("ftp: cannot log in", e),
  };
  let mut fp = 0u64;
  let mut seen: Vec<u8> = vec![];
  let mut denied = 0;
  let mut granted = 0;
  let mut all: Vec<String> = vec![];
  macro_rules! t {
    ($e:expr) => {
      match $e {
        Ok(x) => x,
        Err(e) => return bad("ftp: session broke on hostile path", format!("{e} root={} {}", root_arg.display(), f.tail())),
      }
    };
  }
  let nops = if real { 14 } else { 40 };
  for _ in 0..nops {
    let p = hostile_path(r, &s, links);
    let verb = *r.pick(&["CWD", "CWD", "LIST", "NLST", "RETR", "RETR", "STOR", "STOR", "MKD", "RMD", "DELE", "CDUP", "PWD"]);
    let code = match verb {
      "CDUP" | "PWD" => t!(f.cmd(verb)).code,
      "LIST" | "NLST" | "RETR" | "STOR" => {
        let d = match f.mode(any_mode(r)) {
          Ok(d) => d,
          Err(e) => return bad("ftp: no data channel", format!("{e:?} {}", f.tail())),
        };
        let line = if verb == "NLST" && r.bool() {
          format!("NLST {}", r.pick(&["*", "*/*", "../*", "esc/*", "[.][.]/*", "*/*/*", "up/*/*", "./*", "abs/secret", ".*/*", "?sc/*", "self/esc/*", "d1/../../canary/*", "pfx/*"]))
        } else if verb == "STOR" && real && r.chance(2, 3) {
          let stem = r.pick(&["vic", "gone", "d1/vic2", "esc/x", "n", "d1/esc2/y"]);
          format!("STOR {stem}.{}", r.pick(&["CR3", "dng", "NEF"]))
        } else if matches!(verb, "LIST" | "NLST") && r.chance(1, 4) {
          verb.to_string()
        } else {
          format!("{verb} {p}")
        };
        if verb == "STOR" {
          let body = match &raw {
            Some(b) if r.chance(2, 3) => b.clone(),
            _ => format!("EVIL{}", r.u64()).into_bytes(),
          };
          let t = t!(f.put(&line, d, &body, 4096));
          t.fin.code
        } else {
          let t = t!(f.get(&line, d));
          seen.extend_from_slice(&t.data);
          t.fin.code
        }
      }
      _ => t!(f.cmd(&format!("{verb} {p}"))).code,
    };
    if code < 400 {
      granted += 1;
    } else {
      denied += 1;
    }
    fp = fp.rotate_left(5) ^ hash_str(verb) ^ code as u64;
    all.append(&mut f.log);
    f.log = all.clone();
    all.clear();
    if contains(&seen, secret.as_bytes()) || contains(&seen, b"root:x:0:0") {
      return bad("ftp: content from outside the root disclosed", f.tail());
    }
  }
  let full = f.log.join(" | ");
  if full.contains(&secret) {
    return bad("ftp: names from outside the root disclosed", f.tail());
  }
  t!(f.fence());
  // inside, everything still works
  let name = format!("/ok-{:x}.bin", r.u32());
  let body = { let n = r.range(1, 5000); r.bytes(n) };
  t!(f.cmd("CWD /"));
  for put in [true, false] {
    let d = match f.mode(any_mode(r)) {
      Ok(d) => d,
      Err(e) => return bad("ftp: no data channel", format!("{e:?} {}", f.tail())),
    };
    if put {
      let t = t!(f.put(&format!("STOR {name}"), d, &body, 1000));
      if !t.fin.ok() {
        return bad("ftp: legitimate upload refused", format!("root={} {}", root_arg.display(), f.tail()));
      }
    } else {
      let t = t!(f.get(&format!("RETR {name}"), d));
      if t.data != body {
        return bad("ftp: legitimate download differs", format!("root={} {}", root_arg.display(), f.tail()));
      }
    }
  }
  let alive = srv.alive();
  drop(srv);
  let after = outside(&s);
  let (ch, rm, ad) = delta(&before, &after);
  if !(ch.is_empty() && rm.is_empty() && ad.is_empty()) {
    return bad("ftp: entries outside the root altered", format!("changed={ch:?} removed={rm:?} added={ad:?} log={full}"));
  }
  if std::fs::read(s.dir.join("root").join(&name[1..])).ok().as_deref() != Some(&body) {
    return bad("ftp: upload is not below the root", format!("root={} {}", root_arg.display(), f.tail()));
  }
  if !alive {
    return bad("ftp: server died", full);
  }
  ctx.count("commands", nops as u64);
  ctx.count("denied", denied);
  ctx.count("granted", granted);
  Verdict::Held(fp)
}

pub fn run20(ctx: Ctx) -> i32 {
  let n = ctx.n(1500, 40000);
  ctx.cases("plain", n, |r, _| c20_case(&ctx, r, false));
  let n = ctx.n(60, 1500);
  ctx.cases("convert", n, |r, _| c20_case(&ctx, r, true));
  cleanup();
  ctx.finish(
    "exploration",
    "one case = one server, 14-40 commands with hostile paths (dot-dot, absolute, glob, links leaving the root, dangling links, roots given relative/through links); fingerprint = verb/reply-code sequence",
    &["links inside the root are created by the harness (FTP clients cannot create links)", "the server runs as an unprivileged user owning only the scratch directory"],
  )
}

// ---------------------------------------------------------------- C21

fn c21_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  s.mkdir("root");
  let secret = format!("HUSH{:016x}", r.u64());
  for k in 0..40 {
    s.put(&format!("root/keep-{k}"), secret.as_bytes());
    s.mkdir(&format!("root/kd-{k}"));
  }
  let mut users: Vec<(String, String)> = vec![];
  if r.chance(4, 5) {
    users.push(("alice".into(), r.pick(&["pw1", "p w", "Ünï", " lead", "x"]).to_string()));
  }
  if r.chance(1, 2) {
    users.push(("bob".into(), String::new()));
  }
  if r.chance(1, 2) {
    users.push(("carol".into(), "pw2".into()));
  }
  if r.chance(1, 2) {
    users.push(("anonymous".into(), "guest@x".into()));
  }
  if r.chance(1, 6) {
    users.push(("alice".into(), "other".into()));
  }
  for i in (1..users.len()).rev() {
    users.swap(i, r.range(0, i));
  }
  let anon = r.chance(2, 5);
  s.give_away();
  let mut srv = match Server::plain(&s, &s.dir.join("root"), &s.dir, anon, &users) {
    Ok(s) => s,
    Err(e) => return bad("ftp: server does not start", e),
  };
  let known = |u: &str| (anon && u == "anonymous") || users.iter().any(|x| x.0 == u);
  let valid = |u: &str, p: &str| (anon && u == "anonymous") || users.iter().any(|x| x.0 == u && x.1 == p);
  let free = |u: &str| (anon && u == "anonymous") || users.iter().any(|x| x.0 == u && x.1.is_empty());
  let mut f = match Ftp::connect(srv.addr) {
    Ok(f) => f,
    Err(e) => return bad("ftp: connect", e),
  };
  let cfg = format!("users={users:?} anonymous={anon}");
  macro_rules! t {
    ($e:expr) => {
      match $e {
        Ok(x) => x,
        Err(e) => return bad("ftp: session broke during login", format!("{e} {cfg} {}", f.tail())),
      }
    };
  }
  // may: privileged commands are allowed, must: they have to be accepted
  let (mut may, mut must) = (false, false);
  let mut pending: Option<String> = None;
  let mut strict_pending = false;
  let mut made: Vec<String> = vec![];
  let mut gone: Vec<usize> = vec![];
  let mut fp = 0u64;
  let (mut authed, mut refused) = (0, 0);
  for k in 0..36usize {
    match r.range(0, 9) {
      0..=2 => {
        let u = match r.range(0, 9) {
          0 => "nobody".to_string(),
          1 => r.pick(&["", "ALICE", "alice ", "alic", "bo", "bobb", "Anonymous", "root", "*"]).to_string(),
          2 => "anonymous".into(),
          _ if !users.is_empty() => r.pick(&users).0.clone(),
          _ => "alice".into(),
        };
        let rep = t!(f.cmd(&format!("USER {u}")));
        fp = fp.rotate_left(3) ^ rep.code as u64;
        match rep.code {
          230 => {
            if !free(&u) {
              return bad("ftp: login without password", format!("{cfg} {}", f.tail()));
            }
            may = true;
            must = true;
            pending = None;
            authed += 1;
          }
          331 => {
            if !known(&u) {
              // announcing a password for an unknown user is harmless as long as none works
              ctx.count("331_unknown", 1);
            }
            pending = Some(u);
            strict_pending = true;
            may = false;
            must = false;
          }
          c if c >= 400 => {
            if known(&u) {
              return bad("ftp: known user refused", format!("{cfg} {}", f.tail()));
            }
            must = false;
            strict_pending = false;
          }
          _ => return bad("ftp: odd reply to USER", format!("{rep:?} {cfg} {}", f.tail())),
        }
      }
      3..=4 => {
        let cand = pending.clone();
        let p = match (r.range(0, 9), &cand) {
          (0, _) => String::new(),
          (1, _) => "guest@x".into(),
          (2, _) => r.pick(&["pw", "pw11", "PW1", "pw2", "pw1 ", "*", "x"]).to_string(),
          (3, _) if !users.is_empty() => r.pick(&users).1.clone(),
          (_, Some(u)) => users.iter().filter(|x| x.0 == *u).map(|x| x.1.clone()).next().unwrap_or("zz".into()),
          _ => "pw1".into(),
        };
        let rep = t!(f.cmd(&format!("PASS {p}")));
        fp = fp.rotate_left(3) ^ rep.code as u64;
        match (&pending, rep.ok()) {
          (Some(u), true) => {
            if !valid(u, &p) {
              return bad("ftp: wrong password accepted", format!("user={u:?} pass={p:?} {cfg} {}", f.tail()));
            }
            pending = None;
            may = true;
            must = true;
            authed += 1;
          }
          (Some(u), false) => {
            if valid(u, &p) && strict_pending {
              return bad("ftp: correct password refused", format!("user={u:?} pass={p:?} {cfg} {}", f.tail()));
            }
            strict_pending = false;
          }
          (None, true) => {
            if !may {
              return bad("ftp: PASS without USER accepted", format!("{cfg} {}", f.tail()));
            }
          }
          (None, false) => (),
        }
      }
      5 => {
        let c = *r.pick(&["SYST", "NOOP", "FEAT", "TYPE I", "TYPE A", "AUTH TLS", "XYZZY", "USER", "PASS", "PORT 1,2,3", "\u{0}"]);
        t!(f.cmd(c));
      }
      _ => {
        let verb = *r.pick(&["STOR", "STOR", "MKD", "DELE", "RMD", "RETR", "LIST", "NLST", "CWD", "PWD", "PASV", "EPSV", "PORT 127,0,0,1,200,1", "CDUP"]);
        if !may {
          let arg = match verb {
            "STOR" | "MKD" => format!("{verb} evil-{k}"),
            "DELE" | "RETR" => format!("{verb} keep-{k}"),
            "RMD" => format!("{verb} kd-{k}"),
            "CWD" => format!("{verb} kd-{k}"),
            v => v.to_string(),
          };
          let rep = t!(f.cmd(&arg));
          refused += 1;
          if rep.code < 400 {
            return bad("ftp: command accepted before login", format!("{arg}: {rep:?} {cfg} {}", f.tail()));
          }
          if contains(&rep.text, secret.as_bytes()) {
            return bad("ftp: data disclosed before login", format!("{cfg} {}", f.tail()));
          }
        } else if must {
          let ok = match verb {
            "STOR" | "RETR" | "LIST" | "NLST" => match f.mode(any_mode(r)) {
              Ok(d) => {
                if r.chance(1, 5) {
                  // a data channel opened while logged in must not be usable afterwards
                  let u = users.iter().find(|x| !x.1.is_empty() && !(anon && x.0 == "anonymous")).map(|x| x.0.clone());
                  if let Some(u) = u {
                    if users.iter().any(|x| x.0 == u && x.1.is_empty()) {
                      continue;
                    }
                    let rep = t!(f.cmd(&format!("USER {u}")));
                    if rep.code != 331 {
                      return bad("ftp: login without password", format!("{cfg} {}", f.tail()));
                    }
                    may = false;
                    must = false;
                    pending = Some(u);
                    strict_pending = true;
                    let line = if verb == "STOR" { format!("STOR evil-{k}") } else { format!("{verb} keep-{k}") };
                    let rep = t!(f.cmd(&line));
                    if rep.code < 400 {
                      return bad("ftp: command accepted before login", format!("{line}: {rep:?} {cfg} {}", f.tail()));
                    }
                    if let Data::Stream(mut st) = d {
                      // nothing may ever arrive here: the server may close it or keep it open
                      st.set_read_timeout(Some(Duration::from_millis(5))).unwrap();
                      let mut b = [0u8; 64];
                      if matches!(st.read(&mut b), Ok(n) if n > 0) {
                        return bad("ftp: data disclosed before login", format!("{cfg} {}", f.tail()));
                      }
                    }
                    refused += 1;
                    continue;
                  }
                }
                if verb == "STOR" {
                  let t = t!(f.put(&format!("STOR good-{k}"), d, b"good", 4));
                  if t.fin.ok() {
                    made.push(format!("good-{k}"));
                  }
                  t.fin.ok()
                } else if verb == "RETR" {
                  let k = (0..40).find(|k| !gone.contains(k)).unwrap();
                  let t = t!(f.get(&format!("RETR /keep-{k}"), d));
                  t.data == secret.as_bytes()
                } else {
                  t!(f.get(verb, d)).fin.ok()
                }
              }
              Err(Ok(rep)) => return bad("ftp: refused after login", format!("{rep:?} {cfg} {}", f.tail())),
              Err(Err(e)) => return bad("ftp: session broke during login", format!("{e} {cfg} {}", f.tail())),
            },
            "DELE" if !gone.contains(&k) => {
              gone.push(k);
              t!(f.cmd(&format!("DELE /keep-{k}"))).ok()
            }
            "MKD" => {
              made.push(format!("good-{k}"));
              t!(f.cmd(&format!("MKD good-{k}"))).ok()
            }
            "PWD" | "CDUP" => t!(f.cmd(verb)).ok(),
            _ => t!(f.cmd("PWD")).ok(),
          };
          if !ok {
            return bad("ftp: refused after login", format!("{verb} {cfg} {}", f.tail()));
          }
        }
      }
    }
  }
  t!(f.fence());
  // a second session is not authenticated by the first
  let mut g = match Ftp::connect(srv.addr) {
    Ok(g) => g,
    Err(e) => return bad("ftp: connect", e),
  };
  for c in ["DELE keep-39", "MKD evil-x", "PASV", "RETR keep-39"] {
    match g.cmd(c) {
      Ok(rep) if rep.code >= 400 => (),
      o => return bad("ftp: command accepted before login", format!("fresh session {c}: {o:?} {cfg}")),
    }
  }
  // liveness of every account
  for (u, p) in &users {
    if let Err(e) = Ftp::login(srv.addr, u, p) {
      return bad("ftp: correct password refused", format!("{u:?} {p:?} {e} {cfg}"));
    }
  }
  if anon {
    if let Err(e) = Ftp::login(srv.addr, "anonymous", "whatever") {
      return bad("ftp: anonymous refused", format!("{e} {cfg}"));
    }
  }
  let alive = srv.alive();
  drop(srv);
  if !alive {
    return bad("ftp: server died", f.tail());
  }
  let tree = snap(&s.dir.join("root"));
  for k in 0..40 {
    if !tree.contains_key(&format!("kd-{k}")) || tree.contains_key(&format!("keep-{k}")) == gone.contains(&k) {
      return bad("ftp: effect without login", format!("entry {k} {cfg} {}", f.log.join(" | ")));
    }
  }
  if let Some(e) = tree.keys().find(|k| k.starts_with("evil")) {
    return bad("ftp: effect without login", format!("{e} {cfg} {}", f.log.join(" | ")));
  }
  if let Some(m) = made.iter().find(|m| !tree.contains_key(*m)) {
    return bad("ftp: accepted command without effect", format!("{m} {cfg} {}", f.log.join(" | ")));
  }
  ctx.count("logins", authed);
  ctx.count("refused_privileged", refused);
  Verdict::Held(fp)
}

pub fn run21(ctx: Ctx) -> i32 {
  let n = ctx.n(1200, 30000);
  ctx.cases("login", n, |r, _| c21_case(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one case = one server configuration (user table, anonymous on/off) and 36 login/privileged/neutral commands checked against an authentication state machine; fingerprint = reply codes of the login commands",
    &["passwords are compared as the text after 'PASS '", "state after a refused USER or PASS is only checked for safety (nothing unlocked), not for liveness"],
  )
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, PartialEq)]
enum N {
  D,
  F(Vec<u8>),
}

#[derive(Clone)]
struct Model {
  t: BTreeMap<Vec<String>, N>,
  cwd: Vec<String>,
}

impl Model {
  fn node(&self, p: &[String]) -> Option<&N> {
    if p.is_empty() { Some(&N::D) } else { self.t.get(p) }
  }
  fn full(&self, arg: &str) -> Vec<String> {
    let mut v = if arg.starts_with('/') { vec![] } else { self.cwd.clone() };
    v.extend(arg.split('/').filter(|c| !c.is_empty() && *c != ".").map(String::from));
    v
  }
  fn walk(&self, c: &[String]) -> Option<Vec<String>> {
    let mut cur: Vec<String> = vec![];
    for x in c {
      if self.node(&cur) != Some(&N::D) {
        return None;
      }
      if x == ".." {
        cur.pop()?;
      } else {
        cur.push(x.clone());
        self.node(&cur)?;
      }
    }
    Some(cur)
  }
  /// existing entry or None
  fn resolve(&self, arg: &str) -> Option<Vec<String>> {
    self.walk(&self.full(arg))
  }
  /// (existing parent directory) + name
  fn entry(&self, arg: &str) -> Option<Vec<String>> {
    let f = self.full(arg);
    let (name, parent) = f.split_last()?;
    if name == ".." {
      return None;
    }
    let mut p = self.walk(parent)?;
    if self.node(&p) != Some(&N::D) {
      return None;
    }
    p.push(name.clone());
    Some(p)
  }
  fn children(&self, d: &[String]) -> Vec<(String, &N)> {
    self.t.iter().filter(|(k, _)| k.len() == d.len() + 1 && k.starts_with(d)).map(|(k, v)| (k.last().unwrap().clone(), v)).collect()
  }
}

fn wild(p: &[char], s: &[char]) -> bool {
  match p.split_first() {
    None => s.is_empty(),
    Some(('*', rest)) => (0..=s.len()).any(|k| wild(rest, &s[k..])),
    Some(('?', rest)) => !s.is_empty() && wild(rest, &s[1..]),
    Some((c, rest)) => s.first() == Some(c) && wild(rest, &s[1..]),
  }
}

fn civil(secs: i64) -> (i64, u32, u32) {
  // (year, month, day) of a unix time
  let z = secs.div_euclid(86400) + 719468;
  let era = z.div_euclid(146097);
  let doe = z.rem_euclid(146097);
  let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
  let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
  let mp = (5 * doy + 2) / 153;
  let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
  let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
  (yoe + era * 400 + (m <= 2) as i64, m, d)
}

const NAMES: &[&str] = &["a", "b.txt", "Ünï", "two words", "[x]", "st*r", "q?m", "a.b.c", ".hid", "-l", "x", "UP", "up", "{k}", "trail ", " lead", "C:\\x", "100%", "\"q\"", "IMG_1.CR3"];

fn model_name(r: &mut Rng) -> String {
  if r.chance(1, 60) {
    return "n".repeat(300);
  }
  r.pick(NAMES).to_string()
}

fn model_path(r: &mut Rng, m: &Model, base: &[String], dots: bool) -> String {
  // mostly paths of existing entries, relative or absolute
  let keys: Vec<&Vec<String>> = m.t.keys().filter(|k| k.starts_with(base)).collect();
  let mut comps: Vec<String> = vec![];
  let mut abs = r.chance(1, 3);
  if !keys.is_empty() && r.chance(3, 4) {
    let k = (*r.pick(&keys)).clone();
    if !abs && k.starts_with(&m.cwd) && k.len() > m.cwd.len() {
      comps = k[m.cwd.len()..].to_vec();
    } else {
      abs = true;
      comps = k;
    }
    if r.chance(1, 4) {
      comps.push(model_name(r));
    }
  } else {
    if abs {
      comps.extend(base.iter().cloned());
    }
    for _ in 0..r.range(1, 2) {
      comps.push(model_name(r));
    }
  }
  if dots && r.chance(1, 6) {
    let at = r.range(0, comps.len());
    comps.insert(at, "..".into());
  }
  if dots && r.chance(1, 10) {
    let at = r.range(0, comps.len());
    comps.insert(at, "x".into());
    comps.insert(at + 1, "..".into());
  }
  let mut p = String::new();
  if abs {
    p.push('/');
  }
  for (k, c) in comps.iter().enumerate() {
    if k > 0 {
      p.push_str(if r.chance(1, 12) { r.pick(&["//", "/./"]) } else { "/" });
    }
    p.push_str(c);
  }
  p
}

fn dir_lines(data: &[u8]) -> Option<Vec<String>> {
  let t = std::str::from_utf8(data).ok()?;
  if t.is_empty() {
    return Some(vec![]);
  }
  let t = t.strip_suffix("\r\n")?;
  Some(t.split("\r\n").map(String::from).collect())
}

const MON: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// (is_dir, size, name, (month, day, hour, minute))
fn parse_list(l: &str) -> Option<(bool, u64, String, (u32, u32, u32, u32))> {
  let f: Vec<&str> = l.splitn(9, ' ').collect();
  if f.len() != 9 || f[0].len() != 10 {
    return None;
  }
  let dir = match &f[0][..1] {
    "d" => true,
    "-" => false,
    _ => return None,
  };
  if !f[0][1..].chars().all(|c| "rwx-".contains(c)) {
    return None;
  }
  let (h, mi) = f[7].split_once(':')?;
  let name = if dir { f[8].strip_suffix('/').unwrap_or(f[8]) } else { f[8] };
  Some((dir, f[4].parse().ok()?, name.to_string(), (MON.iter().position(|m| *m == f[5])? as u32 + 1, f[6].parse().ok()?, h.parse().ok()?, mi.parse().ok()?)))
}

fn disk_tree(root: &Path) -> BTreeMap<Vec<String>, N> {
  fn rec(p: &Path, k: Vec<String>, m: &mut BTreeMap<Vec<String>, N>) {
    for e in std::fs::read_dir(p).into_iter().flatten().flatten() {
      let mut k2 = k.clone();
      k2.push(e.file_name().to_string_lossy().into_owned());
      let md = e.path().symlink_metadata().unwrap();
      if md.is_dir() {
        m.insert(k2.clone(), N::D);
        rec(&e.path(), k2, m);
      } else {
        m.insert(k2, N::F(std::fs::read(e.path()).unwrap_or_default()));
      }
    }
  }
  let mut m = BTreeMap::new();
  rec(root, vec![], &mut m);
  m
}

struct Sess<'a> {
  f: Ftp,
  m: Model,
  root: &'a Path,
  base: Vec<String>,
  held: Option<u16>,
  fp: u64,
  ops: u64,
  bytes: u64,
}

impl Sess<'_> {
  fn data(&mut self, r: &mut Rng) -> Result<Data, (String, String)> {
    self.f.mode(any_mode(r)).map_err(|e| ("ftp: no data channel".to_string(), format!("{e:?} {}", self.f.tail())))
  }
  fn expect(&mut self, what: &str, want: bool, rep: &Reply) -> Result<(), (String, String)> {
    self.fp = self.fp.rotate_left(5) ^ hash_str(what.split(' ').next().unwrap()) ^ rep.code as u64;
    if want != rep.ok() {
      let sig = format!("ftp model: {} {}", what.split(' ').next().unwrap(), if want { "failed" } else { "succeeded unexpectedly" });
      return Err((sig, format!("{what}: {rep:?} cwd={:?} {}", self.m.cwd, self.f.tail())));
    }
    if !want && rep.code < 400 {
      return Err(("ftp model: odd reply".into(), format!("{what}: {rep:?} {}", self.f.tail())));
    }
    Ok(())
  }
  fn broke(&self, e: String) -> (String, String) {
    ("ftp: session broke".into(), format!("{e} {}", self.f.tail()))
  }
  fn step(&mut self, r: &mut Rng, dots: bool) -> Result<(), (String, String)> {
    let verb = *r.pick(&["STOR", "STOR", "STOR", "RETR", "RETR", "LIST", "LIST", "NLST", "MKD", "MKD", "RMD", "DELE", "CWD", "CWD", "CDUP", "PWD", "ABORT", "TYPE", "REIN"]);
    let p = model_path(r, &self.m, &self.base, dots);
    // confine parallel sessions to their own directory
    let f = self.m.full(&p);
    if !f.starts_with(&self.base) || (f.len() == self.base.len() && matches!(verb, "RMD" | "STOR" | "MKD") && !self.base.is_empty()) {
      return Ok(());
    }
    self.ops += 1;
    let m = self.m.clone();
    match verb {
      "TYPE" => {
        let rep = self.f.cmd(r.pick(&["TYPE I", "TYPE A", "TYPE A N"])).map_err(|e| self.broke(e))?;
        self.expect("TYPE", true, &rep)?;
      }
      "REIN" => {
        // changing the user keeps session usable
        let rep = self.f.cmd("NOOP").map_err(|e| self.broke(e))?;
        self.expect("NOOP", true, &rep)?;
      }
      "PWD" => {
        let rep = self.f.cmd("PWD").map_err(|e| self.broke(e))?;
        self.expect("PWD", true, &rep)?;
        let want = format!("\"/{}\"", m.cwd.join("/"));
        let got = String::from_utf8_lossy(&rep.text).into_owned();
        if !got.starts_with(&want) {
          return Err(("ftp model: PWD wrong".into(), format!("{got:?} instead of {want:?} {}", self.f.tail())));
        }
      }
      "CDUP" => {
        if m.cwd.len() <= self.base.len() && !self.base.is_empty() {
          return Ok(());
        }
        let rep = self.f.cmd("CDUP").map_err(|e| self.broke(e))?;
        self.expect("CDUP", true, &rep)?;
        self.m.cwd.pop();
      }
      "CWD" => {
        let rep = self.f.cmd(&format!("CWD {p}")).map_err(|e| self.broke(e))?;
        let t = m.resolve(&p).filter(|t| m.node(t) == Some(&N::D));
        self.expect(&format!("CWD {p}"), t.is_some(), &rep)?;
        if let Some(t) = t {
          self.m.cwd = t;
        }
      }
      "MKD" => {
        let rep = self.f.cmd(&format!("MKD {p}")).map_err(|e| self.broke(e))?;
        let t = m.entry(&p).filter(|t| m.node(t).is_none() && t.last().unwrap().len() < 256);
        self.expect(&format!("MKD {p}"), t.is_some(), &rep)?;
        if let Some(t) = t {
          self.m.t.insert(t, N::D);
        }
      }
      "RMD" => {
        let rep = self.f.cmd(&format!("RMD {p}")).map_err(|e| self.broke(e))?;
        let t = m.entry(&p).filter(|t| m.node(t) == Some(&N::D));
        self.expect(&format!("RMD {p}"), t.is_some(), &rep)?;
        if let Some(t) = t {
          self.m.t.retain(|k, _| !k.starts_with(&t));
        }
      }
      "DELE" => {
        let rep = self.f.cmd(&format!("DELE {p}")).map_err(|e| self.broke(e))?;
        let t = m.entry(&p).filter(|t| matches!(m.node(t), Some(N::F(_))));
        self.expect(&format!("DELE {p}"), t.is_some(), &rep)?;
        if let Some(t) = t {
          self.m.t.remove(&t);
        }
      }
      "STOR" => {
        let n = match r.range(0, 19) {
          0 => 0,
          1 => 1,
          2 => r.range(100_000, 600_000),
          3 => 65536,
          _ => r.range(2, 5000),
        };
        let mut body = r.bytes(n);
        if r.chance(1, 4) {
          for b in body.iter_mut() {
            *b = b"\r\n\0aZ"[*b as usize % 5];
          }
        }
        let d = self.data(r)?;
        let chunk = *r.pick(&[1usize, 7, 1000, 8192, 1 << 20]);
        let chunk = if n > 10_000 { chunk.max(1000) } else { chunk };
        let t = self.f.put(&format!("STOR {p}"), d, &body, chunk).map_err(|e| self.broke(e))?;
        let dest = if p.split('/').any(|c| c == "..") { None } else { m.entry(&p) };
        let dest = dest.filter(|t| m.node(t) != Some(&N::D) && t.last().unwrap().len() < 256);
        self.expect(&format!("STOR {p}"), dest.is_some(), &t.fin)?;
        self.bytes += n as u64;
        if let Some(t) = dest {
          self.m.t.insert(t, N::F(body));
        }
      }
      "ABORT" => {
        // broken upload: connection reset in the middle
        let n = r.range(0, 40_000);
        let body = r.bytes(n);
        let d = self.data(r)?;
        let rep = self.f.cmd(&format!("STOR {p}")).map_err(|e| self.broke(e))?;
        if rep.prelim() {
          let mut st = d.open().map_err(|e| self.broke(e))?;
          let _ = st.write_all(&body);
          if r.bool() {
            std::thread::sleep(Duration::from_millis(r.range(0, 5) as u64));
          }
          reset(st);
          let rep = self.f.reply().map_err(|e| self.broke(e))?;
          self.expect("ABORT", false, &rep)?;
        } else if rep.code < 400 {
          return Err(("ftp model: odd reply".into(), self.f.tail()));
        }
      }
      "RETR" => {
        let d = self.data(r)?;
        let t = self.f.get(&format!("RETR {p}"), d).map_err(|e| self.broke(e))?;
        let src = m.resolve(&p).and_then(|t| match m.node(&t) {
          Some(N::F(b)) => Some(b.clone()),
          _ => None,
        });
        self.expect(&format!("RETR {p}"), src.is_some(), &t.fin)?;
        self.bytes += t.data.len() as u64;
        if let Some(b) = src {
          if b != t.data {
            return Err(("ftp model: download differs".into(), format!("{p}: {} bytes instead of {} {}", t.data.len(), b.len(), self.f.tail())));
          }
        } else if !t.data.is_empty() {
          return Err(("ftp model: data of a failed download".into(), self.f.tail()));
        }
      }
      "LIST" => {
        let arg = r.chance(2, 3);
        let d = self.data(r)?;
        let t = self.f.get(&if arg { format!("LIST {p}") } else { "LIST".into() }, d).map_err(|e| self.broke(e))?;
        let dir = if arg { m.resolve(&p) } else { m.resolve("") };
        self.expect(&format!("LIST {p}"), dir.is_some(), &t.fin)?;
        let Some(dir) = dir else { return Ok(()) };
        let want: Vec<(String, N)> = match m.node(&dir) {
          Some(N::D) => m.children(&dir).into_iter().map(|(n, v)| (n, v.clone())).collect(),
          Some(n) => vec![(dir.last().unwrap().clone(), n.clone())],
          None => vec![],
        };
        let parent = if m.node(&dir) == Some(&N::D) { dir.clone() } else { dir[..dir.len() - 1].to_vec() };
        let got = dir_lines(&t.data).and_then(|l| l.iter().map(|l| parse_list(l)).collect::<Option<Vec<_>>>());
        let Some(mut got) = got else {
          return Err(("ftp model: listing not parsable".into(), format!("{:?} {}", String::from_utf8_lossy(&t.data), self.f.tail())));
        };
        got.sort_by(|a, b| a.2.cmp(&b.2));
        let same = got.len() == want.len()
          && got.iter().zip(&want).all(|(g, w)| {
            let mt = self.root.join(parent.join("/")).join(&w.0).metadata().ok();
            use std::os::unix::fs::MetadataExt;
            let time_ok = mt.is_none_or(|md| {
              let (_, mo, d) = civil(md.mtime());
              let sec = md.mtime().rem_euclid(86400) as u32;
              g.3 == (mo, d, sec / 3600, sec / 60 % 60)
            });
            g.2 == w.0
              && match &w.1 {
                N::D => g.0,
                N::F(b) => !g.0 && g.1 == b.len() as u64 && time_ok,
              }
          });
        if !same {
          return Err(("ftp model: LIST wrong".into(), format!("got {got:?} instead of {:?} {}", want.iter().map(|w| &w.0).collect::<Vec<_>>(), self.f.tail())));
        }
      }
      _ => {
        let d = self.data(r)?;
        let here = m.walk(&m.cwd).filter(|d| m.node(d) == Some(&N::D));
        let pat = match r.range(0, 5) {
          0 | 1 => None,
          2 => Some(r.pick(&["*", "a*", "*.txt", "?", "*.*", "??", "*x*", "U*"]).to_string()),
          _ => Some(model_name(r)).filter(|n| !n.contains(['[', '*', '?', '{'])),
        };
        let t = self.f.get(&pat.as_ref().map_or("NLST".into(), |p| format!("NLST {p}")), d).map_err(|e| self.broke(e))?;
        self.expect("NLST", here.is_some(), &t.fin)?;
        let Some(here) = here else { return Ok(()) };
        let pc: Vec<char> = pat.clone().unwrap_or("*".into()).chars().collect();
        let want: Vec<String> = m
          .children(&here)
          .into_iter()
          .filter(|(n, _)| wild(&pc, &n.chars().collect::<Vec<_>>()))
          .map(|(n, v)| if *v == N::D { format!("{n}/") } else { n })
          .collect();
        let mut got = dir_lines(&t.data).unwrap_or(vec!["?".into()]);
        got.sort();
        let mut want2 = want.clone();
        want2.sort();
        // directories may be listed with or without the trailing slash
        let strip = |v: &[String]| v.iter().map(|s| s.trim_end_matches('/').to_string()).collect::<Vec<_>>();
        let (mut a, mut b) = (strip(&got), strip(&want2));
        a.sort();
        b.sort();
        if a != b {
          return Err(("ftp model: NLST wrong".into(), format!("{pat:?} got {got:?} instead of {want2:?} {}", self.f.tail())));
        }
      }
    }
    Ok(())
  }
}

fn c22_case(ctx: &Ctx, r: &mut Rng, par: usize) -> Verdict {
  let s = Scratch::new();
  s.mkdir("root");
  for k in 0..par {
    s.put(&format!("root/s{k}/start"), &[k as u8; 10]);
  }
  if par == 1 {
    s.put("root/s0/a/b.txt", b"hello");
    s.put("root/x/UP/y", b"");
  }
  s.give_away();
  let root = s.dir.join("root");
  let init = disk_tree(&root);
  let mut srv = match Server::plain(&s, &root, &s.dir, false, &[("u".into(), "p".into())]) {
    Ok(s) => s,
    Err(e) => return bad("ftp: server does not start", e),
  };
  let steps = if par == 1 { 70 } else { 40 };
  let seeds: Vec<u64> = (0..par).map(|_| r.u64()).collect();
  let addr = srv.addr;
  let one = |k: usize| -> Result<(Model, u64, u64, u64), (String, String)> {
    let mut r = Rng::new(seeds[k]);
    let r = &mut r;
    let f = Ftp::login(addr, "u", "p").map_err(|e| ("ftp: cannot log in".to_string(), e))?;
    let base: Vec<String> = if par == 1 { vec![] } else { vec![format!("s{k}")] };
    let m = Model { t: init.iter().filter(|(p, _)| par == 1 || p.starts_with(&base)).map(|(a, b)| (a.clone(), b.clone())).collect(), cwd: vec![] };
    let mut z = Sess { f, m, root: &root, base, held: None, fp: 0, ops: 0, bytes: 0 };
    if par > 1 {
      let rep = z.f.cmd(&format!("CWD s{k}")).map_err(|e| z.broke(e))?;
      z.expect("CWD", true, &rep)?;
      z.m.cwd = z.base.clone();
    }
    for _ in 0..steps {
      z.step(r, par == 1)?;
    }
    z.f.fence().map_err(|e| ("ftp: replies out of step".to_string(), format!("{e} {}", z.f.tail())))?;
    let rep = z.f.cmd("QUIT").map_err(|e| z.broke(e))?;
    if rep.code != 221 {
      return Err(("ftp: QUIT".into(), format!("{rep:?}")));
    }
    let _ = z.held;
    Ok((z.m, z.fp, z.ops, z.bytes))
  };
  let res: Vec<Result<_, (String, String)>> = if par == 1 {
    vec![one(0)]
  } else {
    std::thread::scope(|sc| {
      let one = &one;
      let h: Vec<_> = (0..par).map(|k| sc.spawn(move || one(k))).collect();
      h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(("harness".into(), "thread panicked".into())))).collect()
    })
  };
  let alive = srv.alive();
  drop(srv);
  let mut want: BTreeMap<Vec<String>, N> = BTreeMap::new();
  let mut fp = 0u64;
  for x in res {
    match x {
      Err((a, b)) => return bad(&a, b),
      Ok((m, p, ops, bytes)) => {
        want.extend(m.t);
        fp = fp.rotate_left(9) ^ p;
        ctx.count("operations", ops);
        ctx.count("bytes_transferred", bytes);
      }
    }
  }
  if !alive {
    return bad("ftp: server died", String::new());
  }
  let got = disk_tree(&root);
  if got != want {
    let only: Vec<_> = got.keys().filter(|k| !want.contains_key(*k)).take(5).collect();
    let miss: Vec<_> = want.keys().filter(|k| !got.contains_key(*k)).take(5).collect();
    let diff: Vec<_> = want.iter().filter(|(k, v)| got.get(*k).is_some_and(|g| g != *v)).map(|(k, _)| k).take(5).collect();
    return bad("ftp model: final tree differs", format!("surplus={only:?} missing={miss:?} differing={diff:?}"));
  }
  Verdict::Held(fp)
}

pub fn run22(ctx: Ctx) -> i32 {
  let n = ctx.n(1600, 40000);
  ctx.cases("model", n, |r, _| c22_case(&ctx, r, 1));
  let n = ctx.n(120, 3000);
  ctx.cases_t("parallel", n, 2, |r, _| {
    let p = r.range(2, 6);
    c22_case(&ctx, r, p)
  });
  cleanup();
  ctx.finish(
    "exploration",
    "one case = one or 2-6 concurrent sessions of 40-70 operations, each reply, listing and download compared with a model file system, final tree equal to the model; fingerprint = operation/reply sequence",
    &["concurrent sessions work in disjoint directories; concurrent writers of one file are not specified", "RMD removes a directory recursively, as implemented", "listing flags (LIST -la) are not supported by the server"],
  )
}

// ---------------------------------------------------------------- C23

/// Allowed final reply classes per verb (logged in or not).
fn legal(verb: &str, code: u32) -> bool {
  let set: &[u32] = match verb {
    "SYST" => &[215],
    "NOOP" => &[200],
    "FEAT" => &[211, 202, 502],
    "PWD" => &[257, 550, 530],
    "CWD" => &[250, 550, 530, 500, 501],
    "CDUP" => &[200, 250, 550, 530],
    "MKD" => &[257, 550, 530, 500, 501],
    "RMD" | "DELE" => &[250, 450, 550, 530, 500, 501],
    "TYPE" => &[200, 500, 501, 504, 530],
    "USER" => &[230, 331, 332, 530, 500, 501],
    "PASS" => &[230, 202, 332, 530, 500, 501, 503],
    "PORT" => &[200, 500, 501, 530],
    "PASV" => &[227, 530, 500, 501, 502],
    "EPSV" => &[229, 200, 530, 500, 501, 522, 502],
    "AUTH" => &[502, 504, 500, 534, 431],
    "LIST" | "NLST" => &[226, 250, 425, 426, 451, 450, 500, 501, 550, 530, 503],
    "RETR" => &[226, 250, 425, 426, 451, 450, 500, 501, 550, 530, 503],
    "STOR" => &[226, 250, 425, 426, 451, 450, 452, 532, 552, 553, 500, 501, 550, 530, 503],
    _ => &[500, 501, 502, 503, 504, 530, 202],
  };
  set.contains(&code)
}

fn c23_line(r: &mut Rng) -> (String, Vec<u8>) {
  let verb = *r.pick(&[
    "SYST", "NOOP", "FEAT", "PWD", "CWD", "CDUP", "MKD", "RMD", "DELE", "TYPE", "USER", "PASS", "PORT", "PASV", "EPSV", "AUTH", "LIST", "NLST", "RETR", "STOR", "LIST", "STOR", "PASV", "XYZZY", "REST", "SIZE", "HELP", "",
  ]);
  let mut arg: Vec<u8> = match verb {
    "USER" => r.pick(&["u", "u", "u", "nobody", "", "\u{1}"]).as_bytes().to_vec(),
    "PASS" => r.pick(&["p", "p", "p", "wrong", ""]).as_bytes().to_vec(),
    "TYPE" => r.pick(&["I", "A", "A N", "E", "", "L 8", "\u{7f}"]).as_bytes().to_vec(),
    "PORT" => r.pick(&["127,0,0,1,0,80", "1,2,3", "127,0,0,1,4,1", "a,b,c,d,e,f", "256,0,0,1,99,1", "127,0,0,1,300,5", ",,,,,", "", "1,2,3,4,5,6,7", "-1,0,0,0,9,9"]).as_bytes().to_vec(),
    "EPSV" => r.pick(&["", "1", "2", "ALL", "all", "x"]).as_bytes().to_vec(),
    "CWD" => r.pick(&["d", "/", "..", "nope", "", "d/d"]).as_bytes().to_vec(),
    "MKD" | "RMD" | "STOR" | "DELE" | "RETR" | "LIST" | "NLST" => r.pick(&["f", "d", "new", "nope/x", "", "/f", "..", "a\nb", "x\0y", "[", "***", "\"", "d/", "ä", "f f"]).as_bytes().to_vec(),
    _ => vec![],
  };
  if r.chance(1, 12) {
    let n = r.range(0, 30);
    arg = r.bytes(n);
  }
  if r.chance(1, 40) {
    let n = r.range(300, 9000);
    arg = vec![b'A' + r.u8() % 26; n];
  }
  let mut v = verb.to_string();
  if r.chance(1, 4) {
    v = v.to_lowercase();
  }
  let mut l: Vec<u8> = v.into_bytes();
  if !arg.is_empty() || r.chance(1, 5) {
    l.push(b' ');
    l.extend(arg);
  }
  if r.chance(1, 30) {
    let n = r.range(0, 40);
    l = r.bytes(n);
  }
  // the line must not contain CR or end up as QUIT
  for i in 0..l.len() {
    if l[i] == b'\r' || (i + 1 < l.len() && &l[i..i + 2] == b"\r\n") {
      l[i] = b'.';
    }
  }
  // a lone CR is legal inside a line, but not in front of the terminator
  let verb_seen: Vec<u8> = l.split(|b| *b == b' ').next().unwrap_or_default().to_ascii_uppercase();
  let vs = String::from_utf8(verb_seen).unwrap_or("?".into());
  if vs == "QUIT" {
    return ("NOOP".into(), b"NOOP".to_vec());
  }
  (vs, l)
}

fn c23_case(ctx: &Ctx, r: &mut Rng, real: bool) -> Verdict {
  let s = Scratch::new();
  s.put("root/f", b"content");
  s.put("root/d/f", b"content");
  s.give_away();
  let root = s.dir.join("root");
  let srv = if real {
    Server::dnglab(&s, &root, &Opt::default(), &[])
  } else {
    Server::plain(&s, &root, &s.dir, false, &[("u".into(), "p".into())])
  };
  let mut srv = match srv {
    Ok(s) => s,
    Err(e) => return bad("ftp: server does not start", e),
  };
  let n = r.range(10, 45);
  let mut lines: Vec<(String, Vec<u8>)> = vec![];
  if r.chance(4, 5) {
    lines.push(("USER".into(), if real { b"USER anonymous".to_vec() } else { b"USER u".to_vec() }));
    lines.push(("PASS".into(), b"PASS p".to_vec()));
  }
  for _ in 0..n {
    lines.push(c23_line(r));
  }
  lines.push(("QUIT".into(), b"QUIT".to_vec()));
  let mut stream: Vec<u8> = vec![];
  for l in &lines {
    stream.extend_from_slice(&l.1);
    stream.extend_from_slice(b"\r\n");
  }
  let mut f = match Ftp::connect(srv.addr) {
    Ok(f) => f,
    Err(e) => return bad("ftp: connect", e),
  };
  let mut w = f.s.try_clone().unwrap();
  let style = r.range(0, 3);
  let mut wr = r.clone();
  let total = lines.len();
  let (tx, rx) = std::sync::mpsc::channel::<()>();
  let ends: Vec<usize> = {
    let mut v = vec![];
    let mut p = 0;
    for l in &lines {
      p += l.1.len() + 2;
      v.push(p);
    }
    v
  };
  let wt = std::thread::spawn(move || {
    let r = &mut wr;
    match style {
      // everything at once
      0 => {
        let _ = w.write_all(&stream);
      }
      // byte fragments regardless of line borders
      1 => {
        let mut p = 0;
        while p < stream.len() {
          let n = r.range(1, 9).min(stream.len() - p);
          if w.write_all(&stream[p..p + n]).is_err() {
            return;
          }
          p += n;
          if r.chance(1, 20) {
            std::thread::sleep(Duration::from_micros(300));
          }
        }
      }
      // strictly one line per reply
      2 => {
        let mut p = 0;
        for e in ends {
          if w.write_all(&stream[p..e]).is_err() {
            return;
          }
          p = e;
          if rx.recv().is_err() {
            return;
          }
        }
      }
      // split exactly between CR and LF
      _ => {
        let mut p = 0;
        for e in ends {
          if w.write_all(&stream[p..e - 1]).is_err() {
            return;
          }
          p = e - 1;
          std::thread::sleep(Duration::from_micros(200));
        }
        let _ = w.write_all(&stream[p..]);
      }
    }
  });
  let mut helpers = vec![];
  let mut fp = 0u64;
  let mut k = 0;
  let mut prelim = 0;
  let mut err: Option<(String, String)> = None;
  let srv_ip = srv.addr.ip();
  while k < total {
    let rep = match f.reply() {
      Ok(r) => r,
      Err(e) => {
        let sig = if e.starts_with("eof") {
          "ftp reply: session closed without QUIT"
        } else if e == "timeout" {
          "ftp reply: missing reply"
        } else {
          "ftp reply: malformed"
        };
        err = Some((sig.into(), e));
        break;
      }
    };
    let verb = lines[k].0.as_str();
    if rep.prelim() {
      prelim += 1;
      if prelim > 1 || !matches!(verb, "LIST" | "NLST" | "RETR" | "STOR") {
        err = Some(("ftp reply: surplus preliminary reply".into(), format!("{rep:?}")));
        break;
      }
      continue;
    }
    if !legal(verb, rep.code) && !(verb == "QUIT" && rep.code == 221) {
      err = Some(("ftp reply: does not belong to the command".into(), format!("{rep:?}")));
      break;
    }
    fp = fp.rotate_left(5) ^ hash_str(verb) ^ rep.code as u64 ^ prelim;
    prelim = 0;
    if rep.code == 227 || rep.code == 229 {
      let Some(port) = Ftp::data_addr(&rep) else {
        err = Some(("ftp reply: malformed".into(), format!("{rep:?}")));
        break;
      };
      let how = r.range(0, 4);
      match std::net::TcpStream::connect_timeout(&SocketAddr::new(srv_ip, port), WAIT) {
        Err(e) => {
          err = Some(("ftp: no data channel".into(), e.to_string()));
          break;
        }
        Ok(mut st) => helpers.push(std::thread::spawn(move || match how {
          0 => reset(st),
          1 => drop(st),
          _ => {
            let _ = st.set_read_timeout(Some(WAIT));
            let _ = st.write_all(b"uploaded");
            let _ = st.shutdown(Shutdown::Write);
            let mut v = vec![];
            let _ = st.read_to_end(&mut v);
          }
        })),
      }
    }
    k += 1;
    let _ = tx.send(());
  }
  drop(tx);
  if err.is_none() {
    if let Err(e) = f.eof() {
      err = Some(("ftp reply: connection not closed after QUIT".into(), e));
    }
  }
  if let Some((sig, e)) = err {
    let around: Vec<String> = lines[k.saturating_sub(4)..(k + 2).min(total)].iter().map(|l| String::from_utf8_lossy(&l.1[..l.1.len().min(80)]).into_owned()).collect();
    let _ = f.s.shutdown(Shutdown::Both);
    drop(srv);
    let _ = wt.join();
    return bad(&sig, format!("{e} at line {k}/{total}, style {style}, lines around {around:?}: {}", f.tail()));
  }
  let _ = wt.join();
  // the server itself goes on
  let user = if real { "anonymous" } else { "u" };
  if !srv.alive() || Ftp::login(srv.addr, user, "p").is_err() {
    return bad("ftp: server died", f.tail());
  }
  drop(srv);
  for h in helpers {
    let _ = h.join();
  }
  ctx.count("command_lines", total as u64);
  Verdict::Held(fp)
}

pub fn run23(ctx: Ctx) -> i32 {
  let n = ctx.n(3000, 60000);
  ctx.cases("replies", n, |r, _| c23_case(&ctx, r, false));
  let n = ctx.n(60, 1500);
  ctx.cases("dnglab", n, |r, _| c23_case(&ctx, r, true));
  cleanup();
  ctx.finish(
    "exploration",
    "one case = one session of 10-47 command lines (valid, malformed, random bytes, over-long) sent pipelined, fragmented, or split inside CRLF; monitor counts and types replies per line; fingerprint = verb/reply sequence",
    &["after PASV/EPSV the client opens the data connection (the server waits for it)", "bytes after QUIT are not sent"],
  )
}

// ---------------------------------------------------------------- C24

fn c24_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  s.mkdir("root/sub");
  s.mkdir("ref");
  let keep = r.bool();
  let emb = r.bool();
  let pre = r.bool();
  let comp = if r.bool() { "lossless" } else { "uncompressed" };
  let crop = *r.pick(&["best", "activearea", "none"]);
  let faulty = r.chance(1, 3);
  let mut o = Opt::default();
  if faulty {
    o.fault = Some(match r.range(0, 3) {
      0 => format!("create:{}:{}", r.range(1, 5), r.pick(&[13, 28, 30])),
      1 => format!("write:{}:{}", r.range(1, 12), r.pick(&[28, 5])),
      _ => format!("write:{}:28:sticky", r.range(1, 12)),
    });
  }
  let b = |x: bool| if x { "true" } else { "false" };
  let flags: Vec<&str> = vec!["--embed-raw", b(emb), "--dng-preview", b(pre), "--dng-thumbnail", b(pre), "-c", comp, "--crop", crop];
  let mut ex = flags.clone();
  ex.extend(["--keep-original", b(keep)]);
  // plan uploads
  struct Up {
    rel: String,
    body: Vec<u8>,
    kind: u8, // 0 convertible raw, 1 damaged raw, 2 other, 3 unknown
    want: Option<Vec<u8>>,
    twin: bool,
  }
  let n = r.range(1, 5);
  let mut ups: Vec<Up> = vec![];
  let stems = ["IMG_1", "b c", "Ünï", "x.y", "last", "-f"];
  for k in 0..n {
    let src = small_src(r);
    let d = if r.chance(1, 3) { "sub/" } else { "" };
    let (ext, body, kind) = match r.range(0, 9) {
      0..=5 => (*r.pick(&["CR3", "nef", "DNG", "dng", "Raf", "ARW", "cr2"]), src.bytes.clone(), 0),
      6 => {
        let (x, h, _) = crate::p16::damage(r, &src.bytes);
        (*r.pick(&["CR3", "NEF", "orf"]), x, if matches!(h, crate::p16::Health::Bad) { 1 } else { 3 })
      }
      7 => (*r.pick(&["CR3", "NEF"]), crate::p16::panicking(r), 1),
      _ => {
        let n = r.range(0, 3000);
        (*r.pick(&["jpg", "txt", "JPG", "xmp", "cr3x", "bak"]), r.bytes(n), 2)
      }
    };
    let rel = format!("{d}{}.{ext}", stems[k]);
    ups.push(Up { rel, body, kind, want: None, twin: false });
  }
  // reference: the convert command with the same switches decides what is convertible
  for u in ups.iter_mut().filter(|u| u.kind != 2) {
    let name = Path::new(&u.rel).file_name().unwrap().to_str().unwrap().to_string();
    let i = s.put(&format!("ref/{name}"), &u.body);
    let outp = s.dir.join("ref/result/out.dng");
    s.mkdir("ref/result");
    let mut a: Vec<OsString> = vec!["convert".into(), "-f".into()];
    a.extend(flags.iter().map(OsString::from));
    a.push(i.into());
    a.push(outp.clone().into());
    let run = run(&s, &a, &Opt::default());
    if u.kind == 0 && !run.ok() {
      return Verdict::Skip("reference conversion failed");
    }
    u.kind = if run.ok() { 0 } else { 1 };
    u.want = if run.ok() { std::fs::read(&outp).ok() } else { None };
    u.twin = name.ends_with(".dng");
  }
  // something already there
  let stale = r.chance(1, 3);
  if stale {
    let d = Path::new(&ups[0].rel).with_extension("dng");
    s.put(&format!("root/{}", d.display()), b"stale");
  }
  s.put("root/other.txt", b"keep me");
  s.give_away();
  let root = s.dir.join("root");
  let mut srv = match Server::dnglab(&s, &root, &o, &ex) {
    Ok(s) => s,
    Err(e) => return bad("ftp: server does not start", e),
  };
  let par = r.bool();
  let addr = srv.addr;
  let modes: Vec<(Mode, usize)> = ups.iter().map(|_| (any_mode(r), *r.pick(&[997usize, 8192, 1 << 20]))).collect();
  let send = |u: &Up, m: (Mode, usize), f: &mut Ftp| -> Result<Reply, (String, String)> {
    let d = f.mode(m.0).map_err(|e| ("ftp: no data channel".to_string(), format!("{e:?} {}", f.tail())))?;
    let t = f.put(&format!("STOR {}", u.rel), d, &u.body, m.1).map_err(|e| ("ftp: session broke".to_string(), format!("{e} {}", f.tail())))?;
    f.fence().map_err(|e| ("ftp: replies out of step".to_string(), format!("{e} {}", f.tail())))?;
    Ok(t.fin)
  };
  let login = || Ftp::login(addr, "anonymous", "x").map_err(|e| ("ftp: cannot log in".to_string(), e));
  let res: Vec<Result<Reply, (String, String)>> = if par {
    std::thread::scope(|sc| {
      let (send, login) = (&send, &login);
      let h: Vec<_> = ups.iter().zip(&modes).map(|(u, m)| sc.spawn(move || send(u, *m, &mut login()?))).collect();
      h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(("harness".into(), "thread panicked".into())))).collect()
    })
  } else {
    match login() {
      Err(e) => vec![Err(e)],
      Ok(mut f) => ups.iter().zip(&modes).map(|(u, m)| send(u, *m, &mut f)).collect(),
    }
  };
  let alive = srv.alive();
  drop(srv);
  let desc = format!(
    "keep={keep} flags={flags:?} fault={:?} par={par} stale={stale} uploads={:?} replies={:?}",
    o.fault,
    ups.iter().map(|u| (&u.rel, u.kind, u.body.len())).collect::<Vec<_>>(),
    res
  );
  if !alive {
    return bad("ftp convert: server died", desc);
  }
  let fired = events(&s).iter().any(|e| e.op == "fault");
  let tree = disk_tree(&root);
  let key = |rel: &str| -> Vec<String> { rel.split('/').map(String::from).collect() };
  let mut legit: Vec<Vec<String>> = vec![key("sub"), key("other.txt")];
  if tree.get(&key("other.txt")) != Some(&N::F(b"keep me".to_vec())) {
    return bad("ftp convert: unrelated file altered", desc);
  }
  let mut fp = hash_str(&format!("{keep}{emb}{pre}{comp}{crop}{par}{stale}{fired}"));
  for (u, x) in ups.iter().zip(&res) {
    let rep = match x {
      Ok(r) => r,
      Err((a, b)) => return bad(a, format!("{b} {desc}")),
    };
    let dng_rel = Path::new(&u.rel).with_extension("dng").to_string_lossy().into_owned();
    let orig = tree.get(&key(&u.rel));
    let dng = tree.get(&key(&dng_rel));
    legit.push(key(&u.rel));
    legit.push(key(&dng_rel));
    fp = fp.rotate_left(7) ^ u.kind as u64 ^ rep.code as u64;
    if !rep.ok() && !fired && u.kind != 1 {
      return bad("ftp convert: upload refused", format!("{}: {rep:?} {desc}", u.rel));
    }
    if rep.ok() && u.kind == 1 {
      return bad("ftp convert: failed conversion reported as success", format!("{}: {rep:?} {desc}", u.rel));
    }
    match u.kind {
      2 => {
        if rep.ok() && orig != Some(&N::F(u.body.clone())) {
          return bad("ftp convert: plain file altered", format!("{} {desc}", u.rel));
        }
        let st = stale && u.rel == ups[0].rel;
        if dng.is_some() != st || (st && dng != Some(&N::F(b"stale".to_vec()))) {
          return bad("ftp convert: DNG for an unsupported file", format!("{} {desc}", u.rel));
        }
      }
      0 if rep.ok() => {
        if u.twin {
          // name.dng uploaded: the converted file and the original share the name
          let same = match (dng, &u.want) {
            (Some(N::F(d)), _) if keep => *d == u.body,
            (Some(N::F(d)), Some(w)) => canon_diff(d, w).is_none(),
            _ => false,
          };
          if !same {
            return bad("ftp convert: .dng upload lost", format!("{} {desc}", u.rel));
          }
        } else {
          match (dng, &u.want) {
            (Some(N::F(d)), Some(w)) => {
              if let Some(e) = canon_diff(d, w) {
                return bad("ftp convert: DNG differs from convert", format!("{}: {e} {desc}", u.rel));
              }
            }
            _ => return bad("ftp convert: DNG missing", format!("{} {desc}", u.rel)),
          }
          if keep && orig != Some(&N::F(u.body.clone())) {
            return bad("ftp convert: original not kept", format!("{} {desc}", u.rel));
          }
          if !keep && orig.is_some() {
            return bad("ftp convert: original stored although not wanted", format!("{} {desc}", u.rel));
          }
        }
        ctx.count("converted", 1);
      }
      _ => {
        // failed: no DNG fragment may stay behind (a fault while storing the original is not a conversion failure)
        let complete = dng.is_some() && dng.map(|d| matches!((d, &u.want), (N::F(b), Some(w)) if canon_diff(b, w).is_none())).unwrap_or(false);
        let stale_kept = dng == Some(&N::F(b"stale".to_vec()));
        if dng.is_some() && !complete && !stale_kept && !u.twin {
          return bad("ftp convert: partial DNG left behind", format!("{} {desc}", u.rel));
        }
        ctx.count("failed_conversions", 1);
      }
    }
  }
  if stale {
    legit.push(key(&Path::new(&ups[0].rel).with_extension("dng").to_string_lossy()));
  }
  if let Some(k) = tree.keys().find(|k| !legit.contains(k)) {
    return bad("ftp convert: unexpected file", format!("{k:?} {desc}"));
  }
  Verdict::Held(fp)
}

pub fn run24(ctx: Ctx) -> i32 {
  let n = ctx.n(110, 3000);
  ctx.cases("autoconvert", n, |r, _| c24_case(&ctx, r));
  cleanup();
  let _ = (json!(null), hash_bytes(b""));
  ctx.finish(
    "fault_enumeration",
    "one case = one dnglab ftpserver with random conversion switches, 1-5 sequential or concurrent uploads (raw, damaged raw, panicking raw, other files), optional I/O fault; stored files compared with the output of `dnglab convert`; fingerprint = switches and reply codes",
    &["uploads of one case use distinct stems (FOO.CR3 and FOO.NEF share FOO.dng by design)", "a DNG of the same name that existed before may be lost when a conversion fails"],
  )
}
