//! C10: the result of a command depends on its input and options only, not on the number of worker
//! threads, the timing, hash seeds, locale, working directory or what else runs at the same time.
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, guard, hash_bytes, hash_str};
use crate::gen_dng::{Src, SrcOpt, gen_src};
use crate::gen_img::Photo;
use crate::p15::{dev_src, small_src};
use crate::rng::Rng;
use crate::util::*;
use rawler::decoders::RawDecodeParams;
use rawler::imgop::develop::{ProcessingStep, RawDevelop};
use rawler::rawsource::RawSource;
use serde_json::Value;
use std::ffi::OsString;
use std::sync::{Arc, Barrier, Mutex};

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn pool(n: usize) -> rayon::ThreadPool {
  rayon::ThreadPoolBuilder::new().num_threads(n).build().expect("pool")
}

fn src(r: &mut Rng, min: usize, dev: bool) -> Src {
  let opt = SrcOpt {
    photos: if dev { vec![Photo::Bayer, Photo::Bayer, Photo::XTrans] } else { SrcOpt::default().photos },
    big: r.chance(2, 3),
    min_dim: min,
    ..Default::default()
  };
  gen_src(r, &opt)
}

/// Background load inside the same pool: the schedule of the observed work changes
fn noise(p: &rayon::ThreadPool, seed: u64, stop: Arc<std::sync::atomic::AtomicBool>) {
  for k in 0..2 {
    let stop = stop.clone();
    p.spawn(move || {
      let mut x = seed | 1;
      let t0 = std::time::Instant::now();
      while !stop.load(std::sync::atomic::Ordering::Relaxed) && t0.elapsed().as_millis() < 40 {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(k);
        if x >> 60 == 0 {
          std::thread::yield_now();
        }
      }
    });
  }
}

fn convert_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = src(r, 1, false);
  let mut p = params(r);
  p.preview = r.chance(1, 3);
  let name = "in.dng";
  let one = match guard(|| pool(1).install(|| convert(&s.bytes, name, &p))) {
    Ok(Ok(v)) => v,
    Ok(Err(_)) => return Verdict::Skip("not convertible"),
    Err(_) => return Verdict::Skip("panics"),
  };
  if let Err(e) = canon(&one) {
    return bad("malformed", e);
  }
  let mut n_same_bytes = 0;
  let rounds = 3;
  for k in 0..rounds {
    let threads = *r.pick(&[2usize, 3, 4, 7, 8, 13]);
    let pl = pool(threads);
    let stop = Arc::new(std::sync::atomic::AtomicBool::new(false));
    if r.bool() {
      noise(&pl, r.u64(), stop.clone());
    }
    let out = guard(|| pl.install(|| convert(&s.bytes, name, &p)));
    stop.store(true, std::sync::atomic::Ordering::Relaxed);
    match out {
      Ok(Ok(v)) => {
        ctx.count("conversions_compared", 1);
        ctx.count(&format!("threads_{threads}"), 1);
        if v == one {
          n_same_bytes += 1;
        }
        if let Some(d) = canon_diff(&one, &v) {
          return bad("convert-differs", format!("1 thread against {threads} threads (round {k}): {d}; {p:?} {}", s.desc));
        }
        if v.len() != one.len() {
          return bad("length-differs", format!("{} bytes with 1 thread, {} with {threads}; {}", one.len(), v.len(), s.desc));
        }
      }
      Ok(Err(e)) => return bad("convert-fails", format!("succeeds with 1 thread, fails with {threads}: {e}")),
      Err(e) => return bad("convert-panics", format!("succeeds with 1 thread, panics with {threads}: {e}")),
    }
  }
  ctx.count("byte_identical_outputs", n_same_bytes);
  Verdict::Held(hash_bytes(&one))
}

fn fb(v: &rawler::imgop::develop::Intermediate) -> (usize, usize, Vec<u32>) {
  use rawler::imgop::develop::Intermediate::*;
  match v {
    Monochrome(p) => (p.width, p.height, p.data.iter().map(|x| x.to_bits()).collect()),
    ThreeColor(p) => (p.width, p.height, p.data.iter().flatten().map(|x| x.to_bits()).collect()),
    FourColor(p) => (p.width, p.height, p.data.iter().flatten().map(|x| x.to_bits()).collect()),
  }
}

fn develop_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = src(r, 24, true);
  let mut d = RawDevelop::default();
  if r.chance(1, 3) {
    d.steps = vec![ProcessingStep::Rescale, ProcessingStep::Demosaic];
  }
  let run = |n: usize| -> Result<Result<(usize, usize, Vec<u32>), String>, String> {
    guard(|| {
      pool(n).install(|| {
        let img = decode(&s.bytes)?;
        d.develop_intermediate(&img).map(|v| fb(&v)).map_err(|e| format!("{e:?}"))
      })
    })
  };
  let one = match run(1) {
    Ok(Ok(v)) => v,
    Ok(Err(_)) => return Verdict::Skip("not developable"),
    Err(_) => return Verdict::Skip("panics"),
  };
  for _ in 0..3 {
    let n = *r.pick(&[2usize, 3, 5, 8, 16]);
    match run(n) {
      Ok(Ok(v)) => {
        ctx.count("developments_compared", 1);
        if (v.0, v.1) != (one.0, one.1) {
          return bad("size", format!("{}x{} with 1 thread, {}x{} with {n}", one.0, one.1, v.0, v.1));
        }
        if let Some(d) = diff_u32(&one.2, &v.2, one.0) {
          return bad("develop-differs", format!("1 thread against {n}: {d}; {}", s.desc));
        }
      }
      Ok(Err(e)) => return bad("develop-fails", format!("succeeds with 1 thread, fails with {n}: {e}")),
      Err(e) => return bad("develop-panics", format!("succeeds with 1 thread, panics with {n}: {e}")),
    }
  }
  Verdict::Held(one.2.iter().fold(0, |a, b| a ^ (*b as u64)).wrapping_add(one.2.len() as u64))
}

/// Different files converted at the same time in one process: nothing leaks from one job to another.
fn together_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let n = r.range(2, 5);
  let mut jobs = vec![];
  for k in 0..n {
    let s = src(r, 1, false);
    let p = params(r);
    let name = format!("f{k}.dng");
    let Ok(Ok(alone)) = guard(|| pool(2).install(|| convert(&s.bytes, &name, &p))) else { continue };
    jobs.push((s, p, name, alone));
  }
  if jobs.len() < 2 {
    return Verdict::Skip("not enough jobs");
  }
  // sometimes the same input and decoder caches are shared
  let b = Barrier::new(jobs.len());
  let res: Mutex<Vec<(usize, Result<Result<Vec<u8>, String>, String>)>> = Mutex::new(vec![]);
  let shared = if r.bool() { Some(pool(r.range(1, 4))) } else { None };
  std::thread::scope(|t| {
    for (k, (s, p, name, _)) in jobs.iter().enumerate() {
      let (b, res, shared) = (&b, &res, &shared);
      t.spawn(move || {
        b.wait();
        let o = guard(|| match shared {
          Some(pl) => pl.install(|| convert(&s.bytes, name, p)),
          None => convert(&s.bytes, name, p),
        });
        res.lock().unwrap().push((k, o));
      });
    }
  });
  let mut order = 0u64;
  for (k, o) in res.into_inner().unwrap() {
    order = order * 7 + k as u64;
    match o {
      Ok(Ok(v)) => {
        ctx.count("concurrent_conversions", 1);
        if let Some(d) = canon_diff(&jobs[k].3, &v) {
          return bad("concurrent-differs", format!("job {k} of {}: {d}; {}", jobs.len(), jobs[k].0.desc));
        }
      }
      Ok(Err(e)) => return bad("concurrent-fails", e),
      Err(e) => return bad("concurrent-panics", e),
    }
  }
  Verdict::Held(order ^ hash_bytes(&jobs[0].3))
}

/// Repeated and interleaved use of one decoder object gives the same answers every time.
fn decoder_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = src(r, 1, false);
  let source = RawSource::new_from_slice(&s.bytes);
  let out = guard(|| -> Result<Vec<(String, u64)>, String> {
    let dec = rawler::get_decoder(&source).map_err(|e| format!("{e:?}"))?;
    let p = RawDecodeParams::default();
    let mut seen = vec![];
    for _ in 0..r.range(4, 9) {
      let k = r.range(0, 5);
      let (name, h) = match k {
        0 | 1 => {
          let dummy = k == 1;
          let i = dec.raw_image(&source, &p, dummy).map_err(|e| format!("{e:?}"))?;
          let mut mats: Vec<_> = i.color_matrix.iter().map(|(k, v)| format!("{k:?}={v:?}")).collect();
          mats.sort();
          let px = if dummy { 0 } else { ints(&i.data).map(crate::ctx::hash_u16).unwrap_or_default() };
          let h = px
            ^ hash_str(&format!(
              "{} {} {} {:?} {:?} {:?} {:?} {:?} {mats:?} {:?}",
              i.width,
              i.height,
              i.cpp,
              i.active_area,
              i.crop_area,
              i.wb_coeffs.map(|x| x.to_bits()),
              if dummy { None } else { Some(&i.blacklevel) },
              if dummy { None } else { Some(&i.whitelevel) },
              i.orientation
            ));
          (if dummy { "dummy" } else { "image" }, h)
        }
        2 => ("meta", hash_str(&format!("{:?}", dec.raw_metadata(&source, &p).map_err(|e| format!("{e:?}"))?))),
        3 => ("full", dec.full_image(&source, &p).map_err(|e| format!("{e:?}"))?.map(|i| hash_bytes(i.as_bytes())).unwrap_or(1)),
        4 => ("preview", dec.preview_image(&source, &p).map_err(|e| format!("{e:?}"))?.map(|i| hash_bytes(i.as_bytes())).unwrap_or(1)),
        _ => ("thumb", dec.thumbnail_image(&source, &p).map_err(|e| format!("{e:?}"))?.map(|i| hash_bytes(i.as_bytes())).unwrap_or(1)),
      };
      seen.push((name.to_string(), h));
    }
    Ok(seen)
  });
  let seen = match out {
    Ok(Ok(v)) => v,
    Ok(Err(_)) => return Verdict::Skip("not decodable"),
    Err(_) => return Verdict::Skip("panics"),
  };
  let mut fp = 0;
  for (i, (n, h)) in seen.iter().enumerate() {
    fp = fp * 31 + h;
    if let Some((j, (_, h0))) = seen[..i].iter().enumerate().find(|(_, x)| x.0 == *n) {
      ctx.count("decoder_calls_repeated", 1);
      if h0 != h {
        let calls: Vec<&str> = seen[..=i].iter().map(|x| x.0.as_str()).collect();
        return bad("decoder-state", format!("answer {j} and {i} for '{n}' differ in the call sequence {calls:?}; {}", s.desc));
      }
    }
  }
  Verdict::Held(fp)
}

/// The environment a run must not depend on.
fn environment(r: &mut Rng, s: &Scratch) -> Opt {
  let mut o = Opt::default();
  if r.chance(3, 4) {
    o.env.push(("RAYON_NUM_THREADS".into(), r.pick(&[1, 2, 3, 5, 8, 32]).to_string()));
  }
  if r.bool() {
    o.env.push(("LANG".into(), r.pick(&["C", "de_DE.UTF-8", "tr_TR.UTF-8", "C.UTF-8", "xx"]).to_string()));
    o.env.push(("LC_ALL".into(), r.pick(&["C", "de_DE.UTF-8", "C.UTF-8"]).to_string()));
  }
  if r.bool() {
    o.env.push(("RUST_LOG".into(), r.pick(&["debug", "trace", "off"]).to_string()));
  }
  if r.chance(1, 3) {
    o.env.push(("HOME".into(), "/nonexistent".into()));
  }
  if r.chance(1, 3) {
    o.delay = Some("write:200".into());
  }
  if r.bool() {
    o.cwd = Some(s.mkdir("elsewhere"));
  }
  o
}

fn cli_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  s.mkdir("in");
  let kind = r.range(0, 4);
  let mut n = 1;
  let mut base: Vec<OsString>;
  let mut stdout_only = false;
  match kind {
    0 | 1 => {
      n = r.range(1, 4);
      for k in 0..n {
        let src = small_src(r);
        s.put(&format!("in/IMG_{k}.{}", r.pick(&["DNG", "nef", "CR3"])), &src.bytes);
      }
      base = args(&["convert"]);
      base.extend(args(&["-c", if r.bool() { "lossless" } else { "uncompressed" }]));
      base.extend(args(&["--ljpeg92-predictor", &r.range(1, 7).to_string()]));
      base.extend(args(&["--embed-raw", if r.bool() { "true" } else { "false" }]));
      base.extend(args(&["--dng-preview", if r.bool() { "true" } else { "false" }]));
    }
    2 => {
      n = r.range(1, 3);
      for k in 0..n {
        let src = dev_src(r);
        s.put(&format!("in/IMG_{k}.{}", r.pick(&["DNG", "nef", "CR3"])), &src.bytes);
      }
      base = args(&["process-raw"]);
    }
    _ => {
      let src = if r.bool() { small_src(r) } else { dev_src(r) };
      s.put("in/IMG_0.DNG", &src.bytes);
      base = args(&["analyze"]);
      let f = *r.pick(&["--raw-pixel", "--full-pixel", "--preview-pixel", "--thumbnail-pixel", "--raw-checksum", "--srgb", "--meta", "--structure", "--full-checksum"]);
      base.extend(args(&[f]));
      if r.bool() {
        base.extend(args(&[if r.bool() { "--json" } else { "--yaml" }]));
      }
      base.push(s.dir.join("in/IMG_0.DNG").into());
      stdout_only = true;
    }
  }
  let mut first: Option<(Option<i32>, Vec<(String, Vec<u8>)>, Vec<u8>)> = None;
  let runs = 3;
  for k in 0..runs {
    let o = if k == 0 { Opt::default() } else { environment(r, &s) };
    let rel = k > 0 && r.bool();
    let mut a = base.clone();
    let out = format!("out{k}");
    if !stdout_only {
      s.mkdir(&out);
      if rel && o.cwd.is_some() {
        a.push("../in".into());
        a.push(format!("../{out}").into());
      } else if rel {
        a.push("./in".into());
        a.push(out.clone().into());
      } else {
        a.push(s.dir.join("in").into());
        a.push(s.dir.join(&out).into());
      }
    }
    let run = crate::cli::run(&s, &a, &o);
    if run.timed_out {
      return bad("hang", format!("{base:?} with {o:?} did not end"));
    }
    ctx.count("cli_runs", 1);
    let mut files = vec![];
    if !stdout_only {
      let mut v: Vec<_> = std::fs::read_dir(s.dir.join(&out)).unwrap().flatten().map(|e| e.path()).collect();
      v.sort();
      for f in v {
        files.push((f.file_name().unwrap().to_string_lossy().into_owned(), std::fs::read(&f).unwrap_or_default()));
      }
    }
    let so = if stdout_only { run.stdout.clone() } else { vec![] };
    match &first {
      None => first = Some((run.code, files, so)),
      Some((code, f0, o0)) => {
        if run.code != *code {
          return bad("exit-code", format!("{a:?} ended with {code:?} first, then with {:?} under {o:?}: {}", run.code, run.brief()));
        }
        let n0: Vec<&String> = f0.iter().map(|x| &x.0).collect();
        let n1: Vec<&String> = files.iter().map(|x| &x.0).collect();
        if n0 != n1 {
          return bad("file-names", format!("{n0:?} first, {n1:?} under {o:?}"));
        }
        for (x, y) in f0.iter().zip(&files) {
          ctx.count("cli_files_compared", 1);
          if x.1 != y.1 {
            if let Some(d) = canon_diff(&x.1, &y.1) {
              return bad("file-content", format!("{} differs under {o:?}: {d}", x.0));
            }
          }
        }
        if stdout_only {
          ctx.count("cli_outputs_compared", 1);
          // the order of JSON object members has no meaning
          let same = *o0 == so
            || match (serde_json::from_slice::<Value>(o0), serde_json::from_slice::<Value>(&so)) {
              (Ok(a), Ok(b)) => a == b,
              _ => {
                let lines = |v: &[u8]| {
                  let mut l: Vec<String> = String::from_utf8_lossy(v).lines().map(|x| x.to_string()).collect();
                  l.sort();
                  l
                };
                base.iter().any(|x| x == "--yaml") && lines(o0) == lines(&so)
              }
            };
          if !same {
            return bad("stdout", format!("{base:?}: {} and {} bytes under {o:?}", o0.len(), so.len()));
          }
        }
      }
    }
  }
  let (c, f, o) = first.unwrap();
  if c != Some(0) {
    ctx.count("cli_failing_commands", 1);
  }
  Verdict::Held(hash_bytes(&o) ^ f.iter().fold(n as u64, |a, x| a.wrapping_mul(31) ^ x.1.len() as u64))
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases_t("convert", ctx.n(150, 4000), 4, |r, _| convert_case(&ctx, r));
  ctx.cases_t("develop", ctx.n(60, 2000), 4, |r, _| develop_case(&ctx, r));
  ctx.cases_t("together", ctx.n(60, 1500), 2, |r, _| together_case(&ctx, r));
  ctx.cases("decoder", ctx.n(200, 6000), |r, _| decoder_case(&ctx, r));
  ctx.cases("cli", ctx.n(120, 3000), |r, _| cli_case(&ctx, r));
  crate::cli::cleanup();
  ctx.finish(
    "exploration",
    "the executions of one command on one input (other numbers of worker threads, other load, other environment, other call history, other jobs at the same time) end alike and produce the same content; Software and DateTime tags and the order of JSON members are exempt",
    &["the schedules are those the operating system and rayon produce under varied pool sizes and load"],
  )
}
