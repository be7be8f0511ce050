//! C16: a failed job leaves nothing behind and is reported. C17: batches are complete and collision free.
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, hash_bytes, hash_str};
use crate::gen_dng::{Src, SrcOpt, gen_src};
use crate::gen_img::Photo;
use crate::p15::{dev_src, small_src};
use crate::reftiff::Tiff;
use crate::rng::Rng;
use crate::util::*;
use rawler::dng::convert::ConvertParams;
use rawler::imgop::develop::{RawProcessingParams, process_raw_image};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::OsString;
use std::path::Path;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Health {
  Good,
  Bad,     // can never succeed
  Unknown, // damaged, may or may not decode
}

/// Damaged variants of a valid file.
pub fn damage(r: &mut Rng, good: &[u8]) -> (Vec<u8>, Health, &'static str) {
  let mut b = good.to_vec();
  match r.range(0, 6) {
    0 => (vec![], Health::Bad, "empty"),
    1 => {
      let n = r.range(1, 3000);
      (r.bytes(n), Health::Bad, "garbage")
    }
    2 => (b"II*\0\x08\0\0\0".to_vec(), Health::Bad, "header only"),
    3 => {
      let n = r.range(9, b.len() - 1);
      b.truncate(n);
      (b, Health::Unknown, "truncated")
    }
    4 => {
      for _ in 0..r.range(1, 40) {
        let i = r.range(8, b.len() - 1);
        b[i] = r.u8();
      }
      (b, Health::Unknown, "random bytes")
    }
    5 => {
      let n = b.len() / 2;
      for x in b[n..].iter_mut() {
        *x = 0;
      }
      (b, Health::Unknown, "zeroed tail")
    }
    _ => {
      let n = r.range(1, 8.min(b.len()));
      b.truncate(n);
      (b, Health::Bad, "stub")
    }
  }
}

/// A file that makes the decoder panic: linearization table on a one pixel wide image.
pub fn panicking(r: &mut Rng) -> Vec<u8> {
  let opt = SrcOpt {
    photos: vec![Photo::Bayer],
    big: false,
    bits: vec![8],
    min_dim: 2,
    be: Some(false),
    ..Default::default()
  };
  let s = gen_src(r, &opt);
  let mut b = s.bytes.clone();
  // ImageWidth = 0xFFFFFFF0 style absurdities are rejected; an impossible active area is not
  if let Ok(t) = Tiff::parse(&s.bytes) {
    if let Some(e) = t.raw_dir().and_then(|d| d.get(50829)) {
      let n = e.data.len();
      b[e.off..e.off + n].fill(0x77);
    }
  }
  b
}

fn parse_summary(stderr: &str, word: &str) -> Option<(usize, usize, Vec<String>)> {
  let l = stderr.lines().find(|l| l.starts_with(word) && l.contains(" files"))?;
  let frac = l[word.len()..].trim().split(' ').next()?;
  let (a, b) = frac.split_once('/')?;
  let failed = stderr.lines().filter(|l| l.starts_with("   /") || l.starts_with("   .")).map(|l| l.trim().to_string()).collect();
  Some((a.parse().ok()?, b.parse().ok()?, failed))
}

fn check_dng(out: &[u8], src: Option<&Src>, bytes: &[u8], name: &str, emb: bool) -> Result<(), String> {
  let t = Tiff::parse(out)?;
  if !t.problems.is_empty() {
    return Err(t.problems.join("; "));
  }
  if let Some(s) = src {
    same_pixels(out, s)?;
  }
  match (emb, embedded(out)?) {
    (true, Some((n, b))) => {
      if b != bytes {
        return Err("embedded original differs".into());
      }
      if n != name {
        return Err(format!("embedded name {n:?}"));
      }
    }
    (false, None) => (),
    (a, b) => return Err(format!("embedding {a} but found {}", b.is_some())),
  }
  Ok(())
}

/// Image data of a developed TIFF
fn tif_image(out: &[u8]) -> Result<(u32, u32, u32, u64), String> {
  let t = Tiff::parse(out)?;
  if !t.problems.is_empty() {
    return Err(t.problems.join("; "));
  }
  let d = t.all_dirs().into_iter().find(|d| d.u(254).unwrap_or(0) == 0 && d.get(273).is_some()).ok_or("no image")?;
  let offs = d.get(273).unwrap().uints();
  let lens = d.get(279).ok_or("no byte counts")?.uints();
  let mut data = vec![];
  for (o, l) in offs.iter().zip(lens) {
    data.extend_from_slice(out.get(*o as usize..*o as usize + l as usize).ok_or("strip outside the file")?);
  }
  Ok((d.u(256).unwrap_or(0), d.u(257).unwrap_or(0), d.u(277).unwrap_or(0), hash_bytes(&data)))
}

fn develop_ref(dir: &Path, name: &str, bytes: &[u8]) -> Result<(u32, u32, u32, u64), String> {
  let p = dir.join(name);
  std::fs::write(&p, bytes).map_err(|e| e.to_string())?;
  let mut out = std::io::Cursor::new(vec![]);
  let prm = RawProcessingParams {
    crop: rawler::dng::CropMode::Best,
    thumbnail: true,
    artist: None,
    software: "x".into(),
    index: 0,
    keep_mtime: false,
  };
  let r = process_raw_image(&p, &mut out, &prm).map_err(|e| format!("{e:?}"));
  let _ = std::fs::remove_file(&p);
  r?;
  tif_image(&out.into_inner())
}

fn c16_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let cmd = *r.pick(&["convert", "convert", "process-raw", "extract", "makedng"]);
  s.mkdir("in");
  s.mkdir("out");
  let n = if cmd == "makedng" { 1 } else { r.range(1, 4) };
  let faulty = r.chance(3, 5);
  struct In {
    rel: String,
    bytes: Vec<u8>,
    src: Src,
    orig: Vec<u8>,
    h: Health,
    what: &'static str,
    out: String,
  }
  let mut ins: Vec<In> = vec![];
  for k in 0..n {
    let src = if cmd == "process-raw" { dev_src(r) } else { small_src(r) };
    let ext = if cmd == "extract" { "dng" } else { *r.pick(&["dng", "NEF", "cr3"]) };
    let rel = format!("in/F{k}.{ext}");
    let (mut bytes, orig, out) = if cmd == "extract" {
      let p = ConvertParams { embedded: true, preview: false, thumbnail: false, software: "v".into(), ..Default::default() };
      match convert(&src.bytes, &format!("F{k}.NEF"), &p) {
        Ok(d) => (d, src.bytes.clone(), format!("out/F{k}.NEF")),
        Err(_) => return Verdict::Skip("cannot build container"),
      }
    } else {
      (src.bytes.clone(), src.bytes.clone(), format!("out/F{k}.{}", if cmd == "process-raw" { "tif" } else { "dng" }))
    };
    let (mut h, mut what) = (Health::Good, "good");
    if r.chance(if faulty { 1 } else { 2 }, 4) {
      if cmd == "extract" && r.bool() {
        // damaged payload, intact container
        let t = Tiff::parse(&bytes).unwrap();
        let e = t.dirs[0].get(50828).unwrap();
        let (o, l) = (e.off, e.data.len());
        let mut w = "tampered payload";
        match r.range(0, 2) {
          0 => {
            let i = o + r.range(0, l - 1);
            bytes[i] ^= 1 << r.range(0, 7);
          }
          1 => {
            let d = t.dirs[0].get(50829 + 144).map(|e| e.off); // OriginalRawFileDigest 50973
            if let Some(d) = d {
              bytes[d + r.range(0, 15)] ^= 0x40;
              w = "tampered digest";
            } else {
              bytes[o + 1] ^= 1;
            }
          }
          _ => {
            for i in 0..l.min(300) {
              bytes[o + l - 1 - i] ^= 0x5a;
            }
          }
        }
        (h, what) = (Health::Bad, w);
      } else if cmd != "extract" && r.chance(1, 5) {
        bytes = panicking(r);
        (h, what) = (Health::Unknown, "absurd area");
      } else {
        let (b, hh, w) = damage(r, &bytes);
        bytes = b;
        (h, what) = (hh, w);
      }
    }
    s.put(&rel, &bytes);
    ins.push(In { rel, bytes, src, orig, h, what, out });
  }
  let single = n == 1 && (cmd == "makedng" || r.bool());
  let keep = (cmd == "convert" || cmd == "process-raw") && r.chance(1, 3);
  let emb = r.bool();
  let mut a: Vec<OsString> = vec![cmd.into()];
  if cmd == "convert" {
    a.extend(args(&["--embed-raw", if emb { "true" } else { "false" }, "-c", if r.bool() { "lossless" } else { "uncompressed" }]));
    if r.bool() {
      a.extend(args(&["--dng-thumbnail", "false"]));
    }
    a.extend(args(&["-j", *r.pick(&["0", "1", "4"])]));
  }
  if keep {
    a.extend(args(&["--keep-mtime", "true"]));
  }
  let all = (cmd == "convert" || cmd == "process-raw") && r.chance(1, 5);
  if all {
    a.extend(args(&["--image-index", "all"]));
  }
  if cmd == "makedng" {
    a.push("-o".into());
    a.push(s.dir.join(&ins[0].out).into());
    a.push("-i".into());
    a.push(s.dir.join(&ins[0].rel).into());
  } else {
    a.push(if single { s.dir.join(&ins[0].rel) } else { s.dir.join("in") }.into());
    a.push(s.dir.join("out").into());
  }
  let mut o = Opt::default();
  let mut fdesc = "none".to_string();
  if faulty {
    match r.range(0, 6) {
      0..=2 => o.fault = Some(format!("write:{}:{}{}", r.range(1, 14), r.pick(&[28, 5, 27]), if r.bool() { ":sticky" } else { "" })),
      3 => o.fsize = Some(*r.pick(&[0u64, 1, 8, 100, 1000, 4096, 8192, 9000, 20000, 65536])),
      4 => o.fault = Some(format!("create:{}:{}", r.range(1, n + 1), r.pick(&[13, 24, 28, 30]))),
      5 if keep => o.fault = Some(format!("futimens:{}:{}", r.range(1, n), r.pick(&[1, 5, 30]))),
      _ => {
        o.fault = Some("write:1:28:sticky".into());
      }
    }
    fdesc = format!("{:?}/{:?}", o.fault, o.fsize);
  }
  o.env.push(("RAYON_NUM_THREADS".into(), r.range(1, 4).to_string()));
  let before = snap(&s.dir);
  let run = run(&s, &a, &o);
  let after = snap(&s.dir);
  let (ch, rm, ad) = delta(&before, &after);
  let desc = format!(
    "{cmd} inputs={:?} fault={fdesc} args={a:?}: {}",
    ins.iter().map(|i| (i.rel.as_str(), i.what)).collect::<Vec<_>>(),
    run.brief()
  );
  if run.timed_out {
    return bad(&format!("{cmd}: hang"), desc);
  }
  let fired = run.log.iter().any(|e| e.op == "fault") || o.fsize.is_some();
  if !rm.is_empty() || ch.iter().any(|c| before[c].kind != 'd') {
    return bad(&format!("{cmd}: other files altered"), format!("{ch:?} {rm:?}: {desc}"));
  }
  let files: BTreeSet<&String> = ad.iter().filter(|f| after[*f].kind != 'd').collect();
  let mut complete = 0;
  let mut failed: BTreeSet<String> = BTreeSet::new();
  for i in &ins {
    let present = files.contains(&i.out);
    if !present {
      if i.h == Health::Good && !fired {
        return bad(&format!("{cmd}: good input not converted"), format!("{}: {desc}", i.rel));
      }
      failed.insert(i.rel.clone());
      continue;
    }
    complete += 1;
    // some payload bits (zlib header level, padding) do not matter for the content
    let harmless = i.what == "tampered payload" && std::fs::read(s.dir.join(&i.out)).is_ok_and(|o| o == i.orig);
    if i.h == Health::Bad && !harmless {
      return bad(&format!("{cmd}: output for an undecodable input"), format!("{} ({}): {desc}", i.out, i.what));
    }
    let out = std::fs::read(s.dir.join(&i.out)).unwrap_or_default();
    let src = (i.h == Health::Good).then_some(&i.src);
    let name = i.rel.rsplit('/').next().unwrap();
    let res = match cmd {
      "convert" => check_dng(&out, src, &i.bytes, name, emb),
      "makedng" => check_dng(&out, src, &i.bytes, name, false),
      "extract" => {
        if i.h != Health::Good || out == i.orig {
          // a damaged container that still verifies must yield the verified bytes
          if out == i.orig || i.h == Health::Unknown { Ok(()) } else { Err("wrong content".into()) }
        } else {
          Err(format!("extracted {} bytes differ from the original {}", out.len(), i.orig.len()))
        }
      }
      _ => tif_image(&out).and_then(|got| if i.h == Health::Good { develop_ref(&s.aux, name, &i.bytes).and_then(|w| if w == got { Ok(()) } else { Err(format!("image {got:?} expected {w:?}")) }) } else { Ok(()) }),
    };
    if let Err(e) = res {
      return bad(&format!("{cmd}: incomplete output left"), format!("{}: {e}: {desc}", i.out));
    }
  }
  let extra: Vec<&&String> = files.iter().filter(|f| !ins.iter().any(|i| i.out == ***f)).collect();
  if !extra.is_empty() {
    return bad(&format!("{cmd}: stray file"), format!("{extra:?}: {desc}"));
  }
  // reporting
  if run.ok() != failed.is_empty() {
    return bad(&format!("{cmd}: exit code"), format!("{complete} of {} outputs complete: {desc}", ins.len()));
  }
  if run.signal.is_some() || run.code == Some(101) || run.code.is_none() {
    return bad(&format!("{cmd}: process died"), desc);
  }
  if cmd != "makedng" {
    let word = match cmd {
      "convert" => "Converted",
      "extract" => "Extracted",
      _ => "Processed",
    };
    match parse_summary(&run.stderr, word) {
      Some((x, y, list)) => {
        let got: BTreeSet<String> = list.iter().map(|p| Path::new(p).strip_prefix(&s.dir).unwrap_or(Path::new(p)).to_string_lossy().into_owned()).collect();
        if (x, y) != (complete, ins.len()) || got != failed {
          return bad(&format!("{cmd}: summary"), format!("reported {x}/{y} {got:?}, observed {complete}/{} failed {failed:?}: {desc}", ins.len()));
        }
      }
      // errors before the first job started (single input): nothing written
      None if single && !run.ok() => (),
      None => return bad(&format!("{cmd}: summary"), format!("no summary line: {desc}")),
    }
  }
  ctx.count(&format!("{cmd}.{}", if run.ok() { "success" } else { "failure" }), 1);
  ctx.count(if fired { "fault.fired" } else { "fault.none" }, 1);
  ctx.count("outputs.complete", complete as u64);
  ctx.count("outputs.absent", failed.len() as u64);
  for i in &ins {
    ctx.count(&format!("input.{}", i.what), 1);
  }
  ctx.sample(json!({"case": desc.chars().take(400).collect::<String>()}));
  Verdict::Held(hash_str(&format!("{cmd} {fdesc} {:?} {:?} {:?}", run.code, ins.iter().map(|i| i.what).collect::<Vec<_>>(), failed)) ^ hash_bytes(run.stderr.as_bytes()))
}

pub fn run16(ctx: Ctx) -> i32 {
  let n = ctx.n(900, 12000);
  ctx.cases("faults", n, |r, _| c16_case(&ctx, r));
  cleanup();
  ctx.finish(
    "fault_enumeration",
    "one evaluation = one run of dnglab over a set of good and damaged inputs with at most one injected I/O fault; every output file is read back completely and compared with exit code and summary; distinct = different faults, inputs and outcomes",
    &["the process itself is not killed; the state after a kill or power loss is not judged", "an unlink that fails cannot be compensated and is not injected"],
  )
}

// ------------------------------------------------------------------------------------------- C17

fn c17_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let cmd = *r.pick(&["convert", "convert", "process-raw"]);
  let oext = if cmd == "convert" { "dng" } else { "tif" };
  s.mkdir("in");
  let same = r.chance(1, 6);
  if !same {
    s.mkdir("out");
  }
  let out_rel = if same { "in" } else { "out" };
  let rec = r.chance(2, 3);
  let n = r.range(2, 7);
  let dirs = ["", "", "sub/", "sub/deep er/", "Sub/"];
  let stems: Vec<&str> = {
    let all = ["FOO", "FOO_1", "foo", "FOO_1_1", "B.a", "Zoë", "q w"];
    let k = r.range(1, 4);
    (0..k).map(|_| *r.pick(&all)).collect()
  };
  struct In {
    rel: String,
    bytes: Vec<u8>,
    src: Src,
    good: bool,
  }
  let mut ins: Vec<In> = vec![];
  for _ in 0..n {
    let d = *r.pick(&dirs);
    let ext = *r.pick(&["CR3", "NEF", "nef", "ARW", "RAF", "orf", "Rw2", "dng", "DNG"]);
    if same && ext.eq_ignore_ascii_case("dng") {
      continue;
    }
    let rel = format!("{d}{}.{ext}", r.pick(&stems));
    if ins.iter().any(|i| i.rel == rel) {
      continue;
    }
    let src = if cmd == "convert" { small_src(r) } else { dev_src(r) };
    let (bytes, good) = if r.chance(1, 6) {
      let mut k = damage(r, &src.bytes);
      while k.1 != Health::Bad {
        k = damage(r, &src.bytes);
      }
      (k.0, false)
    } else {
      (src.bytes.clone(), true)
    };
    s.put(&format!("in/{rel}"), &bytes);
    ins.push(In { rel, bytes, src, good });
  }
  // things that must be ignored
  s.put("in/readme.txt", b"hello");
  s.put("in/noext", b"hello");
  s.put("in/pic.jpg", &r.bytes(50));
  if r.chance(1, 3) {
    s.put("in/dir.CR3/inner.txt", b"x");
  }
  if r.chance(1, 4) {
    let outside = s.put("elsewhere/L.NEF", b"");
    let src = if cmd == "convert" { small_src(r) } else { dev_src(r) };
    std::fs::write(&outside, &src.bytes).unwrap();
    s.link(&outside, "in/LINK.NEF");
    ins.push(In { rel: "LINK.NEF".into(), bytes: src.bytes.clone(), src, good: true });
  }
  let emb = cmd == "convert" && r.chance(3, 4);
  let mut a: Vec<OsString> = vec![cmd.into()];
  let jobs = *r.pick(&["0", "1", "2", "3", "16"]);
  if cmd == "convert" {
    a.extend(args(&["-j", jobs, "--embed-raw", if emb { "true" } else { "false" }, "--dng-preview", "false"]));
    if r.chance(1, 4) {
      a.extend(args(&["-c", "uncompressed"]));
    }
  }
  if r.chance(1, 4) {
    a.extend(args(&["--image-index", "all"]));
  }
  if r.chance(1, 4) {
    a.push("-f".into());
  }
  if rec {
    a.push("-r".into());
  }
  a.push(s.dir.join("in").into());
  a.push(s.dir.join(out_rel).into());
  let mut o = Opt::default();
  o.env.push(("RAYON_NUM_THREADS".into(), r.range(1, 6).to_string()));
  if r.chance(1, 3) {
    o.delay = Some(format!("{}:{}", r.pick(&["create", "write", "mkdir"]), r.range(50, 2500)));
  }
  let before = snap(&s.dir);
  let run = run(&s, &a, &o);
  let after = snap(&s.dir);
  let (ch, rm, ad) = delta(&before, &after);
  let desc = format!("{cmd} rec={rec} same={same} inputs={:?} args={a:?} delay={:?}: {}", ins.iter().map(|i| (i.rel.as_str(), i.good)).collect::<Vec<_>>(), o.delay, run.brief());
  if run.timed_out {
    return bad(&format!("{cmd}: hang"), desc);
  }
  if !rm.is_empty() || ch.iter().any(|c| before[c].kind != 'd') {
    return bad(&format!("{cmd}: other files altered"), format!("{ch:?} {rm:?}: {desc}"));
  }
  let todo: Vec<&In> = ins.iter().filter(|i| rec || !i.rel.contains('/')).collect();
  let mut outs: BTreeMap<String, Vec<u8>> = BTreeMap::new();
  for f in &ad {
    if after[f].kind == 'd' {
      continue;
    }
    let Some(rel) = f.strip_prefix(&format!("{out_rel}/")) else {
      return bad(&format!("{cmd}: stray file"), format!("{f}: {desc}"));
    };
    outs.insert(rel.to_string(), std::fs::read(s.dir.join(f)).unwrap_or_default());
  }
  let mut left: BTreeSet<String> = outs.keys().cloned().collect();
  for i in todo.iter().filter(|i| i.good) {
    let (d, f) = i.rel.rsplit_once('/').map(|(a, b)| (format!("{a}/"), b)).unwrap_or((String::new(), i.rel.as_str()));
    let stem = f.rsplit_once('.').unwrap().0;
    // names this source may get
    let want = if cmd == "process-raw" { Some(develop_ref(&s.aux, f, &i.bytes)) } else { None };
    let fits = |k: &String| -> bool {
      let Some(n) = k.strip_prefix(&d).and_then(|n| n.strip_suffix(&format!(".{oext}"))) else { return false };
      if n.contains('/') {
        return false;
      }
      n == stem || n.strip_prefix(&format!("{stem}_")).is_some_and(|x| x.parse::<u32>().is_ok_and(|v| v > 0 && v.to_string() == x))
    };
    let hit = left.iter().find(|k| {
      fits(k)
        && match &want {
          None => check_dng(&outs[*k], Some(&i.src), &i.bytes, f, emb).is_ok(),
          Some(Ok(w)) => tif_image(&outs[*k]).as_ref() == Ok(w),
          Some(Err(_)) => false,
        }
    });
    match hit.cloned() {
      Some(k) => {
        // a source whose stem nobody shares keeps its plain name
        let unique = todo.iter().filter(|j| j.rel.rsplit_once('.').unwrap().0 == format!("{d}{stem}")).count() == 1
          && !todo.iter().any(|j| {
            let js = j.rel.rsplit_once('.').unwrap().0;
            format!("{d}{stem}").strip_prefix(&format!("{js}_")).is_some_and(|x| x.bytes().all(|c| c.is_ascii_digit() || c == b'_'))
          });
        if unique && k != format!("{d}{stem}.{oext}") {
          return bad(&format!("{cmd}: unexpected output name"), format!("{} -> {k}: {desc}", i.rel));
        }
        left.remove(&k);
      }
      None => {
        return bad(
          &format!("{cmd}: input without its own output"),
          format!("{} (outputs {:?}, unmatched {left:?}, reference {want:?}): {desc}", i.rel, outs.keys().collect::<Vec<_>>()),
        );
      }
    }
  }
  if !left.is_empty() {
    return bad(&format!("{cmd}: surplus output"), format!("{left:?}: {desc}"));
  }
  let bads: BTreeSet<String> = todo.iter().filter(|i| !i.good).map(|i| format!("in/{}", i.rel)).collect();
  if run.ok() != bads.is_empty() {
    return bad(&format!("{cmd}: exit code"), desc);
  }
  match parse_summary(&run.stderr, if cmd == "convert" { "Converted" } else { "Processed" }) {
    Some((x, y, list)) => {
      let got: BTreeSet<String> = list.iter().map(|p| Path::new(p).strip_prefix(&s.dir).unwrap_or(Path::new(p)).to_string_lossy().into_owned()).collect();
      if (x, y) != (todo.len() - bads.len(), todo.len()) || got != bads {
        return bad(&format!("{cmd}: summary"), format!("reported {x}/{y} {got:?} expected failures {bads:?}: {desc}"));
      }
    }
    None => return bad(&format!("{cmd}: summary"), format!("no summary line: {desc}")),
  }
  ctx.count(&format!("{cmd}.batches"), 1);
  ctx.count("outputs.matched", outs.len() as u64);
  ctx.count("inputs.bad", bads.len() as u64);
  ctx.count(&format!("jobs.{jobs}"), 1);
  let coll = todo.iter().map(|i| i.rel.rsplit_once('.').unwrap().0.to_string()).collect::<BTreeSet<_>>().len();
  ctx.count("colliding.inputs", (todo.len() - coll) as u64);
  ctx.sample(json!({"case": desc.chars().take(400).collect::<String>(), "outputs": outs.keys().collect::<Vec<_>>()}));
  Verdict::Held(hash_str(&format!("{cmd} {:?}", outs.keys().collect::<Vec<_>>())) ^ hash_str(jobs))
}

pub fn run17(ctx: Ctx) -> i32 {
  let n = ctx.n(500, 6000);
  ctx.cases("batch", n, |r, _| c17_case(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one evaluation = one batch run over a generated directory tree with name collisions and bad files; every output is attributed to its source by content; distinct = different set of outputs and job count",
    &["file systems are case sensitive", "the order in which colliding sources receive the plain name follows the directory order and is not judged"],
  )
}
