//! C15-C19: behaviour of the command line jobs on the file system.
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, hash_bytes, hash_str};
use crate::gen_dng::{Pix, Src, SrcOpt, gen_src};
use crate::gen_img::Photo;
use crate::reftiff::{BO, Tiff, WDir};
use crate::rng::Rng;
use crate::util::*;
use rawler::dng::convert::ConvertParams;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::path::{Path, PathBuf};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

pub fn small_src(r: &mut Rng) -> Src {
  let opt = SrcOpt {
    photos: vec![Photo::Bayer, Photo::Bayer, Photo::Mono, Photo::Linear3],
    big: false,
    min_dim: 2,
    ..Default::default()
  };
  gen_src(r, &opt)
}

/// Source that process-raw can develop
pub fn dev_src(r: &mut Rng) -> Src {
  let opt = SrcOpt {
    photos: vec![Photo::Bayer],
    big: false,
    min_dim: 24,
    ..Default::default()
  };
  gen_src(r, &opt)
}

fn with_embedded(r: &mut Rng, s: &Src, name: &str) -> Option<(Vec<u8>, Vec<u8>)> {
  // the embedded "original" may be anything: embed the source itself
  let p = ConvertParams {
    embedded: true,
    preview: false,
    thumbnail: r.bool(),
    software: "vmon".into(),
    ..Default::default()
  };
  convert(&s.bytes, name, &p).ok().map(|d| (d, s.bytes.clone()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cmd {
  Convert,
  Process,
  Extract,
  Make,
}

impl Cmd {
  fn name(self) -> &'static str {
    match self {
      Cmd::Convert => "convert",
      Cmd::Process => "process-raw",
      Cmd::Extract => "extract",
      Cmd::Make => "makedng",
    }
  }
}

const STEMS: &[&str] = &["IMG_0001", "DSC 2", "Ünï", "a.b", "x", "img_0001", "-dash", "IMG_0001_1"];
const EXTS: &[&str] = &["DNG", "dng", "CR3", "nef", "ARW", "Raf", "RW2"];

/// Mutating operations the binary performed on `p` and that succeeded.
fn touched(run: &Run, p: &Path) -> Option<String> {
  run
    .log
    .iter()
    .find(|e| {
      let hit = e.path == p || (e.op == "rename" && Path::new(&e.path2) == p);
      hit && e.rc >= 0 && matches!(e.op.as_str(), "truncate_open" | "write_open" | "create_excl" | "unlink" | "unlinkat" | "rename" | "ftruncate" | "futimens")
    })
    .map(|e| format!("{} {}", e.op, e.path.display()))
}

fn stem_of(rel: &str) -> String {
  Path::new(rel).file_stem().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default()
}

// ------------------------------------------------------------------------------------------- C15

fn c15_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let cmd = *r.pick(&[Cmd::Convert, Cmd::Convert, Cmd::Process, Cmd::Extract, Cmd::Make]);
  let same_dir = r.chance(1, 4);
  let out_rel = if same_dir { "in" } else { "out" };
  s.mkdir("in");
  s.mkdir("out");
  let canary = s.put("canary/secret", &r.bytes(300));
  let dirmode = cmd != Cmd::Make && r.chance(1, 2);
  let n = if dirmode { r.range(1, 3) } else { 1 };
  let mut inputs: Vec<(String, String)> = vec![]; // (rel, target name)
  for _ in 0..n {
    let src = if cmd == Cmd::Process { dev_src(r) } else { small_src(r) };
    let stem = *r.pick(STEMS);
    let ext = if cmd == Cmd::Extract { *r.pick(&["DNG", "dng"]) } else { *r.pick(EXTS) };
    let rel = format!("in/{stem}.{ext}");
    if inputs.iter().any(|i| i.0 == rel) {
      continue;
    }
    let (bytes, target) = match cmd {
      Cmd::Extract => {
        // sometimes the embedded name equals the container's name
        let name = if r.chance(1, 4) { format!("{stem}.{ext}") } else { format!("{stem}.{}", r.pick(&["CR3", "NEF"])) };
        match with_embedded(r, &src, &name) {
          Some((d, _)) => (d, name),
          None => return Verdict::Skip("cannot build container"),
        }
      }
      Cmd::Process => (src.bytes, format!("{stem}.tif")),
      _ => (src.bytes, format!("{stem}.dng")),
    };
    s.put(&rel, &bytes);
    inputs.push((rel, target));
  }
  // an explicit output file name
  let explicit = !dirmode && r.chance(1, 2);
  let exp_name = match cmd {
    Cmd::Process => "chosen.tif",
    _ => "chosen.dng",
  };
  let single_target = if explicit || cmd == Cmd::Make {
    if r.chance(1, 4) { inputs[0].0.rsplit('/').next().unwrap().to_string() } else { exp_name.to_string() }
  } else {
    inputs[0].1.clone()
  };
  let norm = |t: &str| -> String {
    // convert and process-raw force their extension
    match cmd {
      Cmd::Convert => {
        if t.to_lowercase().ends_with(".dng") { format!("{}.dng", &t[..t.len() - 4]) } else { Path::new(t).with_extension("dng").to_string_lossy().into_owned() }
      }
      Cmd::Process => Path::new(t).with_extension("tif").to_string_lossy().into_owned(),
      _ => t.to_string(),
    }
  };
  let targets: BTreeSet<String> = if dirmode { inputs.iter().map(|i| i.1.clone()).collect() } else { [norm(&single_target)].into() };
  // existing entries at target positions
  let mut pre_kind = String::new();
  for t in &targets {
    let rel = format!("{out_rel}/{t}");
    if s.dir.join(&rel).symlink_metadata().is_ok() || r.chance(1, 4) {
      continue;
    }
    let victim = s.dir.join(&r.pick(&inputs).0);
    let k = r.range(0, 7);
    pre_kind.push_str(&k.to_string());
    match k {
      0..=2 => {
        let nb = r.range(0, 5000);
        s.put(&rel, &r.bytes(nb));
      }
      3 => s.link(&canary, &rel),
      4 => s.link(&victim, &rel),
      5 => {
        let _ = std::fs::hard_link(&victim, s.dir.join(&rel));
      }
      6 => s.link(&s.dir.join("canary/nowhere"), &rel),
      _ => {
        s.put(&format!("{rel}/keep"), b"inner");
      }
    }
  }
  for k in 0..r.range(0, 2) {
    s.put(&format!("{out_rel}/other{k}.{}", if same_dir { "txt" } else { "dng" }), b"unrelated");
  }
  let over = r.bool();
  let mut a: Vec<OsString> = vec![cmd.name().into()];
  let in_arg = if dirmode { s.dir.join("in") } else { s.dir.join(&inputs[0].0) };
  let out_arg = if dirmode || (!explicit && cmd != Cmd::Make) { s.dir.join(out_rel) } else { s.dir.join(out_rel).join(&single_target) };
  if over {
    a.push("-f".into());
  }
  if cmd == Cmd::Convert {
    a.extend(args(&["-c", if r.bool() { "lossless" } else { "uncompressed" }, "--embed-raw", if r.bool() { "true" } else { "false" }]));
  }
  let rel_paths = r.chance(1, 4);
  let shorten = |p: &Path| -> OsString { if rel_paths { format!("./{}", p.strip_prefix(&s.dir).unwrap().display()).into() } else { p.into() } };
  if cmd == Cmd::Make {
    a.extend(["-o".into(), shorten(&out_arg), "-i".into(), shorten(&in_arg)]);
  } else {
    a.push(shorten(&in_arg));
    a.push(shorten(&out_arg));
  }
  let before = snap(&s.dir);
  let o = Opt {
    fault: if r.chance(1, 6) { Some(format!("write:{}:28:sticky", r.range(1, 4))) } else { None },
    drop_priv: false,
    ..Default::default()
  };
  let pre: Vec<bool> = targets.iter().map(|t| s.dir.join(out_rel).join(t).exists()).collect();
  let pre_dir = targets.iter().any(|t| s.dir.join(out_rel).join(t).is_dir());
  let run = run(&s, &a, &o);
  let after = snap(&s.dir);
  let desc = format!("{:?} inputs={inputs:?} out={out_rel} targets={targets:?} pre={pre_kind} override={over} fault={:?} args={a:?}: {}", cmd, o.fault, run.brief());
  if run.timed_out {
    return bad("hang", desc);
  }
  let (ch, rm, ad) = delta(&before, &after);
  for (rel, _) in &inputs {
    // an explicit --override of a target that happens to be another job's source
    let base = rel.rsplit('/').next().unwrap();
    let by_other = inputs.iter().any(|(orel, ot)| orel != rel && (ot == base || is_suffixed(ot, base)));
    if over && dirmode && same_dir && by_other {
      ctx.count("source-overridden-by-other", 1);
      continue;
    }
    if ch.contains(rel) || rm.contains(rel) {
      return bad(&format!("{}: source modified", cmd.name()), format!("source {rel} was {}: {desc}", if rm.contains(rel) { "removed" } else { "changed" }));
    }
    if let Some(t) = touched(&run, &s.dir.join(rel)) {
      return bad(&format!("{}: source touched", cmd.name()), format!("{t}: {desc}"));
    }
  }
  for rel in ch.iter().chain(rm.iter()) {
    if rel.starts_with("canary") {
      return bad(&format!("{}: file outside the target modified", cmd.name()), format!("{rel}: {desc}"));
    }
    if before[rel].kind == 'd' {
      if rm.contains(rel) {
        return bad(&format!("{}: directory removed", cmd.name()), format!("{rel}: {desc}"));
      }
      continue;
    }
    if !over {
      return bad(&format!("{}: existing file clobbered", cmd.name()), format!("{rel} {}: {desc}", if rm.contains(rel) { "removed" } else { "changed" }));
    }
    let name = rel.strip_prefix(&format!("{out_rel}/")).unwrap_or(rel);
    let base = Path::new(name).file_name().unwrap().to_string_lossy().into_owned();
    let ok = targets.iter().any(|t| *t == base || is_suffixed(t, &base));
    if !ok {
      return bad(&format!("{}: unrelated file modified", cmd.name()), format!("{rel}: {desc}"));
    }
  }
  if !over {
    for (k, v) in &before {
      if v.kind != 'd' {
        if let Some(t) = touched(&run, &s.dir.join(k)) {
          return bad(&format!("{}: existing file touched", cmd.name()), format!("{t}: {desc}"));
        }
      }
    }
  }
  for rel in &ad {
    let base = Path::new(rel).file_name().unwrap().to_string_lossy().into_owned();
    let inside = rel.starts_with(&format!("{out_rel}/"));
    let names: Vec<String> = targets.iter().cloned().chain(inputs.iter().map(|i| norm(i.0.rsplit('/').next().unwrap()))).chain(inputs.iter().map(|i| i.1.clone())).collect();
    let ok = inside && names.iter().any(|t| *t == base || is_suffixed(t, &base));
    if !ok {
      return bad(&format!("{}: stray file", cmd.name()), format!("{rel}: {desc}"));
    }
  }
  let source_is_target = targets.iter().any(|t| inputs.iter().any(|i| i.0 == format!("{out_rel}/{t}")));
  if !over && !dirmode && pre[0] && !pre_dir && run.code != Some(6) {
    return bad(&format!("{}: existing target not reported", cmd.name()), format!("exit code is not AlreadyExists: {desc}"));
  }
  if !over && dirmode && cmd != Cmd::Extract && run.ok() && pre.iter().any(|p| *p) && !pre_dir {
    return bad(&format!("{}: existing target not reported", cmd.name()), format!("exit code 0: {desc}"));
  }
  if over && !dirmode && o.fault.is_none() && !pre_dir && !source_is_target && !run.ok() && !pre_kind.contains(['3', '4', '5', '6']) {
    return bad(&format!("{}: override refused", cmd.name()), desc);
  }
  ctx.count(&format!("{}.{}", cmd.name(), if over { "override" } else { "keep" }), 1);
  ctx.count(&format!("exit.{:?}", run.code), 1);
  ctx.count("events.logged", run.log.len() as u64);
  if source_is_target {
    ctx.count("source-is-target", 1);
  }
  ctx.sample(json!({"stage": "clobber", "case": desc.chars().take(500).collect::<String>()}));
  Verdict::Held(hash_str(&desc))
}

/// `base` is `t` with a disambiguation suffix: stem_k.ext
fn is_suffixed(t: &str, base: &str) -> bool {
  let (ts, te) = (Path::new(t).file_stem().unwrap().to_string_lossy().into_owned(), Path::new(t).extension().map(|e| e.to_string_lossy().into_owned()));
  let (bs, be) = (Path::new(base).file_stem().unwrap().to_string_lossy().into_owned(), Path::new(base).extension().map(|e| e.to_string_lossy().into_owned()));
  te == be && bs.strip_prefix(&format!("{ts}_")).is_some_and(|k| !k.is_empty() && k.bytes().all(|c| c.is_ascii_digit()))
}

/// Two processes write different sources to one target at the same time.
fn c15_race(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let cmd = *r.pick(&[Cmd::Convert, Cmd::Process, Cmd::Extract, Cmd::Make]);
  s.mkdir("out");
  let mut want: Vec<Src> = vec![];
  for k in 0..2 {
    let src = if cmd == Cmd::Process { dev_src(r) } else { small_src(r) };
    let bytes = if cmd == Cmd::Extract {
      match with_embedded(r, &src, "SAME.CR3") {
        Some(d) => d.0,
        None => return Verdict::Skip("cannot build container"),
      }
    } else {
      src.bytes.clone()
    };
    s.put(&format!("in{k}/SAME.dng"), &bytes);
    want.push(src);
  }
  let target = match cmd {
    Cmd::Process => "out/SAME.tif",
    Cmd::Extract => "out/SAME.CR3",
    _ => "out/SAME.dng",
  };
  let s2 = [Scratch::new(), Scratch::new()];
  let mut ch = vec![];
  for k in 0..2usize {
    let d = r.range(0, 30) * 1000;
    let o = Opt {
      delay: Some(format!("create:{d}")),
      ..Default::default()
    };
    let mut c = command(&s, &o);
    c.env("VSHIM_LOG", s2[k].aux.join("events")).stdin(std::process::Stdio::null());
    c.stdout(std::process::Stdio::null()).stderr(std::fs::File::create(s2[k].aux.join("err")).unwrap());
    let inp = s.dir.join(format!("in{k}/SAME.dng"));
    match cmd {
      Cmd::Make => c.arg("makedng").arg("-o").arg(s.dir.join(target)).arg("-i").arg(&inp),
      _ => c.arg(cmd.name()).arg(&inp).arg(s.dir.join("out")),
    };
    ch.push(c.spawn().expect("spawn"));
    std::thread::sleep(Duration::from_micros(r.range(0, 4000) as u64));
  }
  let codes: Vec<Option<i32>> = ch.iter_mut().map(|c| wait_timeout(c, Duration::from_secs(60)).and_then(|s| s.code())).collect();
  let errs: Vec<String> = (0..2).map(|k| std::fs::read_to_string(s2[k].aux.join("err")).unwrap_or_default()).collect();
  let desc = format!("{:?} racing for {target}: exits {codes:?} stderr={errs:?}", cmd);
  let ok = codes.iter().filter(|c| **c == Some(0)).count();
  if ok != 1 {
    return bad(&format!("{}: race", cmd.name()), format!("{ok} of 2 runs report success: {desc}"));
  }
  let win = codes.iter().position(|c| *c == Some(0)).unwrap();
  let out = std::fs::read(s.dir.join(target)).unwrap_or_default();
  let e = match cmd {
    Cmd::Convert | Cmd::Make => same_pixels(&out, &want[win]).err(),
    Cmd::Extract => (out != want[win].bytes).then(|| "extracted bytes are not the winner's".to_string()),
    Cmd::Process => match Tiff::parse(&out) {
      Ok(t) if t.problems.is_empty() => None,
      Ok(t) => Some(t.problems.join(";")),
      Err(e) => Some(e),
    },
  };
  if let Some(e) = e {
    return bad(&format!("{}: race content", cmd.name()), format!("{e}: {desc}"));
  }
  ctx.count(&format!("race.{}", cmd.name()), 1);
  ctx.count(&format!("race.winner.{win}"), 1);
  Verdict::Held(hash_str(&desc) ^ hash_bytes(&out))
}

pub fn run15(ctx: Ctx) -> i32 {
  let n = ctx.n(700, 8000);
  ctx.cases("clobber", n, |r, _| c15_case(&ctx, r));
  let n = ctx.n(100, 1500);
  ctx.cases_t("race", n, 3, |r, _| c15_race(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one evaluation = one run of the dnglab binary in a private directory; contents, times and identity of every file before and after are compared and every mutating system call is logged; distinct = different scenario and outcome",
    &["processes run as root inside a scratch directory; effects of a crash in the middle of --override are not judged"],
  )
}
