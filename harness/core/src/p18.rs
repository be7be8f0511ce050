//! C18 (extract stays inside the output directory), C19 (keep-mtime).
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, hash_str};
use crate::gen_dng::{SrcOpt, gen_src};
use crate::gen_img::Photo;
use crate::p15::{dev_src, small_src};
use crate::reftiff::{BO, Tiff, WDir};
use crate::rng::Rng;
use crate::util::*;
use rawler::dng::convert::ConvertParams;
use serde_json::json;
use std::ffi::OsString;
use std::path::Path;
use std::time::{Duration, SystemTime, UNIX_EPOCH};

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

/// What a unix path parser considers the last component, None if there is none.
fn last_component(name: &str) -> Option<String> {
  let parts: Vec<&str> = name.split('/').filter(|p| !p.is_empty() && *p != ".").collect();
  match parts.last() {
    Some(&"..") | None => None,
    Some(p) => Some(p.to_string()),
  }
}

fn hostile_name(r: &mut Rng, s: &Scratch) -> String {
  let plain = *r.pick(&["IMG_1.CR3", "a b.NEF", "Ünï.RAF", "x", ".hidden", "-f", "..x", "x..", "a\\b.CR2", "..\\..\\w.CR2", "C:\\x.NEF", "new\nline.ARW", "*?[a].ORF", "IMG_1.CR3 "]);
  let up = |n: usize| "../".repeat(n);
  match r.range(0, 13) {
    0..=3 => plain.to_string(),
    4 => format!("{}{plain}", up(r.range(1, 8))),
    5 => format!("{}canary/{plain}", up(1)),
    6 => format!("{}/canary/{plain}", s.dir.display()),
    7 => format!("/{plain}"),
    8 => format!("{plain}/{}{plain}", up(r.range(1, 4))),
    9 => format!("sub/{plain}"),
    10 => format!("./{plain}"),
    11 => r.pick(&["..", ".", "/", "../", "../..", "//", "/..", "x/.."]).to_string(),
    12 => format!("{}{}/{plain}", up(1), "out/sub"),
    _ => format!("esc/{plain}"),
  }
}

fn c18_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  s.put("canary/secret", &r.bytes(100));
  s.put("canary/IMG_1.CR3", b"precious");
  s.put("../IMG_1.CR3", b"precious");
  s.put("../../x", b"precious");
  s.mkdir("in");
  s.mkdir("out");
  if r.bool() {
    s.mkdir("out/sub");
  }
  if r.chance(1, 3) {
    s.link(&s.dir.join("canary"), "out/esc");
  }
  let dirmode = r.chance(2, 3);
  let n = if dirmode { r.range(1, 4) } else { 1 };
  struct In {
    rel: String,
    name: String,
    orig: Vec<u8>,
    good: bool,
  }
  let mut ins: Vec<In> = vec![];
  let blank_first = r.bool();
  for k in 0..n {
    let src = small_src(r);
    let mut name = hostile_name(r, &s);
    if k > 0 && r.chance(1, 4) {
      name = ins[r.range(0, ins.len() - 1)].name.clone();
    }
    let p = ConvertParams { embedded: true, preview: false, thumbnail: blank_first, software: "vmon".into(), ..Default::default() };
    let Ok(mut dng) = convert(&src.bytes, &name, &p) else { return Verdict::Skip("cannot build container") };
    let orig = src.bytes.clone();
    let mut good = true;
    if r.chance(1, 5) {
      let t = Tiff::parse(&dng).unwrap();
      if let Some(e) = t.dirs[0].get(50828) {
        let (o, l) = (e.off, e.data.len());
        for i in 0..l.min(200) {
          dng[o + l - 1 - i] ^= 0x3c;
        }
        good = false;
      }
    }
    let d = if dirmode && r.chance(1, 3) { "sub/" } else { "" };
    let rel = format!("{d}D{k}.{}", r.pick(&["dng", "DNG"]));
    s.put(&format!("in/{rel}"), &dng);
    ins.push(In { rel, name, orig, good });
  }
  let rec = dirmode && r.chance(2, 3);
  let over = r.bool();
  let explicit = !dirmode && r.chance(1, 3);
  let mut a: Vec<OsString> = vec!["extract".into()];
  if over {
    a.push("-f".into());
  }
  if rec {
    a.push("-r".into());
  }
  a.push(if dirmode { s.dir.join("in") } else { s.dir.join("in").join(&ins[0].rel) }.into());
  a.push(if explicit { s.dir.join("out/chosen.bin") } else { s.dir.join("out") }.into());
  s.give_away();
  let area = s.base.join("a");
  let before = snap(&area);
  let run = run(&s, &a, &Opt { drop_priv: true, ..Default::default() });
  let after = snap(&area);
  let (ch, rm, ad) = delta(&before, &after);
  let desc = format!("rec={rec} over={over} explicit={explicit} inputs={:?} {}", ins.iter().map(|i| (&i.rel, &i.name, i.good)).collect::<Vec<_>>(), run.brief());
  if run.timed_out || run.signal.is_some() || run.code == Some(101) {
    return bad("extract: died", desc);
  }
  let out = s.dir.join("out").strip_prefix(&area).unwrap().to_string_lossy().into_owned() + "/";
  for f in ch.iter().chain(rm.iter()) {
    if before[f].kind != 'd' || rm.contains(f) {
      return bad("extract: other entry altered", format!("{f}: {desc}"));
    }
  }
  let todo: Vec<&In> = ins.iter().filter(|i| rec || !i.rel.contains('/')).collect();
  let mut produced = 0;
  for f in &ad {
    let Some(rel) = f.strip_prefix(&out) else {
      return bad("extract: wrote outside the output directory", format!("{f}: {desc}"));
    };
    if after[f].kind == 'd' {
      if todo.iter().any(|i| i.rel.starts_with(&format!("{rel}/"))) {
        continue;
      }
      return bad("extract: unexpected directory", format!("{f}: {desc}"));
    }
    produced += 1;
    let data = std::fs::read(area.join(f)).unwrap_or_default();
    let ok = todo.iter().any(|i| {
      let d = i.rel.rsplit_once('/').map(|(d, _)| format!("{d}/")).unwrap_or_default();
      let want = if explicit { Some("chosen.bin".to_string()) } else { last_component(&i.name).map(|c| format!("{d}{c}")) };
      i.good && want.as_deref() == Some(rel) && i.orig == data
    });
    if !ok {
      return bad("extract: unexpected output", format!("{rel}: {desc}"));
    }
  }
  // every sound container with a usable, unclaimed name must be extracted
  let mut fail = 0;
  for i in &todo {
    let d = i.rel.rsplit_once('/').map(|(d, _)| format!("{d}/")).unwrap_or_default();
    let want = if explicit { last_component(&i.name).map(|_| "chosen.bin".to_string()) } else { last_component(&i.name).map(|c| format!("{d}{c}")) };
    let Some(w) = want else {
      fail += 1;
      continue;
    };
    let rivals = todo.iter().filter(|j| j.rel != i.rel && last_component(&j.name) == last_component(&i.name)).count();
    if !i.good {
      fail += 1;
      continue;
    }
    let there = ad.contains(&format!("{out}{w}"));
    if rivals == 0 && !there {
      // existing entry (the link or directory of the layout)
      if before.contains_key(&format!("{out}{w}")) {
        fail += 1;
        continue;
      }
      return bad("extract: sound file not extracted", format!("{}: {desc}", i.rel));
    }
    if rivals > 0 {
      fail += 1; // at least one of them fails, only the upper bound is used
    }
  }
  if run.ok() && (fail > 0 && produced < todo.len()) {
    return bad("extract: failure not reported", desc);
  }
  if !run.ok() && produced == todo.len() {
    return bad("extract: failure reported without reason", desc);
  }
  ctx.count("files.extracted", produced as u64);
  ctx.count("names.hostile", todo.iter().filter(|i| last_component(&i.name).as_deref() != Some(i.name.as_str())).count() as u64);
  ctx.count("events.logged", run.log.len() as u64);
  ctx.sample(json!({"case": desc.chars().take(400).collect::<String>()}));
  Verdict::Held(hash_str(&desc))
}

pub fn run18(ctx: Ctx) -> i32 {
  let n = ctx.n(700, 8000);
  ctx.cases("extract", n, |r, _| c18_case(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one evaluation = one extract run (as an unprivileged user inside a scratch tree with writable surroundings) over 1-4 DNGs with hostile OriginalRawFileName values; distinct = different names, layouts and outcomes",
    &["unix path rules; no concurrent change of the tree by others"],
  )
}

// ------------------------------------------------------------------------------------------- C19

fn epoch(y: i64, m: i64, d: i64, h: i64, mi: i64, s: i64) -> i64 {
  // days from civil (proleptic Gregorian)
  let yy = if m <= 2 { y - 1 } else { y };
  let era = yy.div_euclid(400);
  let yoe = yy - era * 400;
  let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
  let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  (era * 146097 + doe - 719468) * 86400 + h * 3600 + mi * 60 + s
}

fn c19_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  s.mkdir("out");
  let be = r.bool();
  let bo = BO(be);
  let mut root = vec![];
  let mut exif = WDir::default();
  // date
  let dim = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
  let y = if r.chance(1, 8) { *r.pick(&[1903i64, 1950, 1969, 2038, 2100]) } else { r.range(1970, 2037) as i64 };
  let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
  let m = r.range(1, 12) as i64;
  let d = r.range(1, dim[m as usize - 1] + (m == 2 && leap) as usize) as i64;
  let (h, mi, sec) = (r.range(0, 23) as i64, r.range(0, 59) as i64, r.range(0, 59) as i64);
  let kind = r.range(0, 9);
  let (text, local) = match kind {
    0..=6 => (Some(format!("{y:04}:{m:02}:{d:02} {h:02}:{mi:02}:{sec:02}")), Some(epoch(y, m, d, h, mi, sec))),
    7 => (Some(r.pick(&["0000:00:00 00:00:00", "    :  :     :  :  ", "garbage", "2020:13:01 00:00:00", "2021:02:29 10:00:00", "2020-01-01 00:00:00", ""]).to_string()), None),
    _ => (None, None),
  };
  if let Some(t) = &text {
    root.push(bo.ascii(306, t));
  }
  // decoys that must not be used
  if r.bool() {
    exif.put(bo.ascii(0x9003, "1999:09:09 09:09:09"));
    exif.put(bo.ascii(0x9004, "1998:08:08 08:08:08"));
  }
  let mut off: Option<i64> = None;
  let tzo = r.range(0, 5);
  match tzo {
    0 => {
      let v = r.range(0, 28) as i64 - 14;
      let first = r.range(0, 20) as i16 - 10;
      let b = |x: i16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
      let data = [b(first), b(v as i16)].concat();
      exif.put(crate::reftiff::WEnt { tag: 0x882A, typ: 8, count: 2, data });
      off = Some(v * 3600);
      if r.bool() {
        exif.put(bo.ascii(0x9010, "+13:00"));
      }
    }
    1 | 2 => {
      let neg = r.bool();
      let (oh, om) = (r.range(0, 14) as i64, *r.pick(&[0i64, 30, 45]));
      exif.put(bo.ascii(0x9010, &format!("{}{oh:02}:{om:02}", if neg { '-' } else { '+' })));
      off = Some((oh * 3600 + om * 60) * if neg { -1 } else { 1 });
      if r.bool() {
        exif.put(bo.ascii(0x9011, "+01:00"));
      }
    }
    3 => {
      exif.put(bo.ascii(0x9010, "   :  "));
    }
    _ => {}
  }
  let (tz, tzsec) = *r.pick(&[("UTC0", 0i64), ("AAA5", -5 * 3600), ("BBB-5:30", 5 * 3600 + 1800), ("CCC-12", 12 * 3600)]);
  let process = r.chance(1, 3);
  let opt = SrcOpt {
    photos: vec![Photo::Bayer],
    big: false,
    min_dim: if process { 24 } else { 2 },
    be: Some(be),
    extra_root: root,
    exif: Some(exif),
    ..Default::default()
  };
  let src = gen_src(r, &opt);
  let inp = s.put("in/I.DNG", &src.bytes);
  let smt = UNIX_EPOCH + Duration::new(r.range(100_000_000, 1_700_000_000) as u64, r.range(0, 999_999_999) as u32);
  std::fs::File::options().write(true).open(&inp).unwrap().set_modified(smt).unwrap();
  let keep = r.chance(4, 5);
  let mut a = args(&[if process { "process-raw" } else { "convert" }]);
  if keep {
    a.extend(args(&["--keep-mtime", "true"]));
  } else if r.bool() {
    a.extend(args(&["--keep-mtime", "false"]));
  }
  let dirmode = r.chance(1, 3);
  let out = s.dir.join(if process { "out/I.tif" } else { "out/I.dng" });
  if dirmode {
    a.push(s.dir.join("in").into());
    a.push(s.dir.join("out").into());
  } else {
    a.push(inp.clone().into());
    a.push(out.clone().into());
  }
  let mut o = Opt::default();
  o.env.push(("TZ".into(), tz.into()));
  let t0 = SystemTime::now();
  let run = run(&s, &a, &o);
  let desc = format!("date={text:?} kind={kind} tz-tags={tzo} offset={off:?} TZ={tz} keep={keep} args={a:?}: {}", run.brief());
  if !run.ok() {
    return bad("keep-mtime: conversion failed", desc);
  }
  let Ok(got) = out.metadata().and_then(|m| m.modified()) else { return bad("keep-mtime: no output", desc) };
  if inp.metadata().unwrap().modified().unwrap() != smt {
    return bad("keep-mtime: source time changed", desc);
  }
  let rel = |t: SystemTime| t.duration_since(UNIX_EPOCH).map(|d| d.as_nanos() as i128).unwrap_or_else(|e| -(e.duration().as_nanos() as i128));
  if keep {
    let want = match local {
      Some(l) => (l - off.unwrap_or(tzsec)) as i128 * 1_000_000_000,
      None => rel(smt),
    };
    if rel(got) != want {
      return bad(&format!("keep-mtime: wrong time ({})", if local.is_some() { "image date" } else { "file time" }), format!("mtime {} expected {}: {desc}", rel(got), want));
    }
    ctx.count(if local.is_some() { "time.from-image" } else { "time.from-file" }, 1);
  } else {
    let age = rel(got) - rel(t0);
    if age < -2_000_000_000 {
      return bad("keep-mtime: time kept without the option", format!("mtime {} start {}: {desc}", rel(got), rel(t0)));
    }
    ctx.count("time.now", 1);
  }
  ctx.sample(json!({"case": desc}));
  Verdict::Held(hash_str(&desc))
}

pub fn run19(ctx: Ctx) -> i32 {
  let n = ctx.n(700, 8000);
  ctx.cases("mtime", n, |r, _| c19_case(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one evaluation = one convert or process-raw run; the output's modification time is compared with an independently computed instant; distinct = different dates, offset tags, TZ and options",
    &["the file system stores nanosecond times", "local time zones with daylight saving are not sampled"],
  )
}
