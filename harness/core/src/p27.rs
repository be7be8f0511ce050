//! C27: camera raw files decode to the image and the description they store, for every frame.
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, guard, hash_bytes, hash_u16};
use crate::gen_cr3::{Cr3, gen_cr3};
use crate::p08::{check_dirs, same};
use crate::refdng::{Samples, decode_raw};
use crate::reftiff::{BO, Tiff};
use crate::rng::Rng;
use crate::util::*;
use image::DynamicImage;
use rawler::RawImage;
use rawler::decoders::{Decoder, RawDecodeParams};
use rawler::imgop::Rect;
use rawler::rawsource::RawSource;
use serde_json::json;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn rect(r: &Option<Rect>) -> Option<[usize; 4]> {
  r.as_ref().map(|r| [r.p.x, r.p.y, r.p.x + r.d.w, r.p.y + r.d.h])
}

fn check_frame(c: &Cr3, k: usize, img: &RawImage) -> Result<(), (&'static str, String)> {
  let f = &c.frames[k];
  if (img.width, img.height, img.cpp) != (c.w, c.h, 1) {
    return Err(("cr3-dim", format!("{}x{}x{}", img.width, img.height, img.cpp)));
  }
  let Some(px) = ints(&img.data) else { return Err(("cr3-type", "not integer".into())) };
  if let Some(d) = diff_u16(px, &f.cfa, c.w) {
    let other = c.frames.iter().position(|g| g.cfa == px);
    return Err(("cr3-samples", format!("{d} (equals frame {other:?})")));
  }
  let wb: [f32; 3] = match &f.color {
    Some((w, _, _)) if !c.light => {
      let g = w[1] as f32;
      [w[0] as f32 / g, (1.0 + w[2] as f32 / g) / 2.0, w[3] as f32 / g]
    }
    _ => [1.0; 3],
  };
  if !wb.iter().zip(&img.wb_coeffs).all(|(a, b)| (a - b).abs() <= 1e-5 * a.abs().max(1.0)) || !img.wb_coeffs[3].is_nan() {
    return Err(("cr3-wb", format!("{:?} expected {wb:?}", img.wb_coeffs)));
  }
  if let Some((_, black, white)) = &f.color {
    let got: Vec<f64> = img.blacklevel.levels.iter().map(|r| r.n as f64 / r.d as f64).collect();
    if got != black.iter().map(|x| *x as f64).collect::<Vec<_>>() || (img.blacklevel.width, img.blacklevel.height) != (2, 2) {
      return Err(("cr3-black", format!("{:?} expected {black:?}", img.blacklevel)));
    }
    if img.whitelevel.0 != [*white as u32] {
      return Err(("cr3-white", format!("{:?} expected {white}", img.whitelevel)));
    }
  }
  if rect(&img.crop_area) != Some(c.crop) {
    return Err(("cr3-crop", format!("{:?} expected {:?}", img.crop_area, c.crop)));
  }
  if rect(&img.active_area) != Some(c.active) {
    return Err(("cr3-active", format!("{:?} expected {:?}", img.active_area, c.active)));
  }
  if img.clean_make != "Canon" || img.clean_model != c.clean_model {
    return Err(("cr3-camera", format!("{} {}", img.clean_make, img.clean_model)));
  }
  Ok(())
}

fn check_dng(c: &Cr3, k: usize, out: &[u8]) -> Result<u64, (String, String)> {
  let e = |s: &str, d: String| (s.to_string(), d);
  let t = Tiff::parse(out).map_err(|x| e("cr3-dng-unparsable", x))?;
  let raw = t.raw_dir().ok_or_else(|| e("cr3-dng-noraw", String::new()))?;
  let d = decode_raw(out, &t, raw).map_err(|x| e("cr3-dng-raw", x))?;
  if (d.w, d.h) != (c.w, c.h) {
    return Err(e("cr3-dng-dim", format!("{}x{}", d.w, d.h)));
  }
  match &d.samples {
    Samples::U(v) => {
      if let Some(x) = diff_u16(v, &c.frames[k].cfa, c.w) {
        return Err(e("cr3-dng-samples", x));
      }
    }
    _ => return Err(e("cr3-dng-type", "float".into())),
  }
  let root = &t.dirs[0];
  let mut n = check_dirs(&c.meta, c.be, root)?;
  for x in &c.meta.root {
    if x.tag == 306 {
      continue;
    }
    n += 1;
    same(x, c.be, root.get(x.tag)).map_err(|d| (format!("cr3-root-tag-{}", x.tag), d))?;
  }
  let id = root.get(50781).map(|e| e.data.clone());
  if id != c.unique.map(|u| u.to_vec()) && c.unique.is_some() {
    return Err(e("cr3-unique-id", format!("{id:?} expected {:?}", c.unique)));
  }
  let xmp = root.get(700).map(|e| e.data.clone());
  if xmp != c.xpacket {
    return Err(e("cr3-xmp", format!("{:?} bytes expected {:?}", xmp.map(|x| x.len()), c.xpacket.as_ref().map(|x| x.len()))));
  }
  if root.get(271).and_then(|e| e.str()).as_deref() != Some("Canon") || root.get(272).and_then(|e| e.str()).as_deref() != Some(c.clean_model) {
    return Err(e("cr3-make-model", format!("{:?} {:?}", root.get(271).and_then(|e| e.str()), root.get(272).and_then(|e| e.str()))));
  }
  Ok(n + 4)
}

fn cr3_case(ctx: &Ctx, r: &mut Rng, case: u64) -> Verdict {
  let Some(c) = gen_cr3(r, 9) else { return Verdict::Skip("frames need different tile tables") };
  let src = RawSource::new_from_slice(&c.bytes);
  let dec = match guard(|| rawler::get_decoder(&src)) {
    Err(p) => return bad("cr3-panic", format!("{p} ({})", c.desc)),
    Ok(Err(e)) => return bad("cr3-open", format!("{e:?} ({})", c.desc)),
    Ok(Ok(d)) => d,
  };
  let dec: &dyn Decoder = dec.as_ref();
  match dec.raw_image_count() {
    Ok(n) if n == c.frames.len() => (),
    x => return bad("cr3-count", format!("{x:?} expected {} ({})", c.frames.len(), c.desc)),
  }
  let mut h = 0u64;
  // the frames in any order, some of them twice, through one decoder
  let mut order: Vec<usize> = (0..c.frames.len()).collect();
  for i in (1..order.len()).rev() {
    let j = r.range(0, i);
    order.swap(i, j);
  }
  order.push(r.range(0, c.frames.len() - 1));
  for k in order {
    let p = RawDecodeParams { image_index: k };
    let img = match guard(|| dec.raw_image(&src, &p, false)) {
      Err(x) => return bad("cr3-panic", format!("frame {k}: {x} ({})", c.desc)),
      Ok(Err(x)) => return bad("cr3-error", format!("frame {k}: {x:?} ({})", c.desc)),
      Ok(Ok(i)) => i,
    };
    if let Err((s, d)) = check_frame(&c, k, &img) {
      return bad(s, format!("frame {k}: {d} ({})", c.desc));
    }
    ctx.count("CR3 frames", 1);
    h ^= hash_u16(ints(&img.data).unwrap()).rotate_left(k as u32);
    // what is known without decoding is the same
    if r.chance(1, 4) {
      match guard(|| dec.raw_image(&src, &p, true)) {
        Ok(Ok(d)) if (d.width, d.height, d.crop_area, d.active_area) == (img.width, img.height, img.crop_area, img.active_area) && d.whitelevel.0 == img.whitelevel.0 => (),
        x => return bad("cr3-dummy", format!("frame {k}: {:?} ({})", x.map(|y| y.is_ok()), c.desc)),
      }
    }
  }
  // no frame beyond the last one
  let p = RawDecodeParams { image_index: c.frames.len() + r.range(0, 3) };
  match guard(|| dec.raw_image(&src, &p, false).is_ok()) {
    Ok(false) => (),
    x => return bad("cr3-beyond", format!("frame {}: {x:?} ({})", p.image_index, c.desc)),
  }
  let p0 = RawDecodeParams { image_index: 0 };
  match guard(|| dec.preview_image(&src, &p0)) {
    Err(x) => return bad("cr3-panic", format!("preview: {x} ({})", c.desc)),
    Ok(Err(x)) => return bad("cr3-preview", format!("{x:?} ({})", c.desc)),
    Ok(Ok(None)) if c.preview.is_none() => (),
    Ok(Ok(Some(DynamicImage::ImageRgb8(i)))) if c.preview.as_ref().is_some_and(|p| {
      p.dimensions() == i.dimensions() && p.as_raw().iter().zip(i.as_raw()).all(|(a, b)| a.abs_diff(*b) < 40)
    }) => (),
    Ok(Ok(x)) => return bad("cr3-preview", format!("{:?} expected {:?} ({})", x.map(|i| (i.width(), i.height())), c.preview.as_ref().map(|p| p.dimensions()), c.desc)),
  }
  // as DNG
  if r.chance(1, 2) {
    let k = r.range(0, c.frames.len() - 1);
    let mut p = params(r);
    p.index = k;
    p.embedded = false;
    let out = match guard(|| convert(&c.bytes, "a.cr3", &p)) {
      Err(x) => return bad("cr3-convert-panic", format!("{x} ({})", c.desc)),
      Ok(Err(x)) => return bad("cr3-convert", format!("{x} ({})", c.desc)),
      Ok(Ok(o)) => o,
    };
    match check_dng(&c, k, &out) {
      Ok(n) => ctx.count("CR3 items compared in the DNG", n),
      Err((s, d)) => return bad(&s, format!("frame {k} as DNG: {d} ({})", c.desc)),
    }
    ctx.count("CR3 conversions", 1);
  }
  ctx.count("CR3 files", 1);
  ctx.max("CR3 frames per file", c.frames.len() as u64);
  ctx.max("CR3 chunks per track", c.chunks as u64);
  if case % 61 == 0 {
    ctx.sample(json!({"cr3": c.desc}));
  }
  Verdict::Held(h ^ hash_bytes(&c.bytes[..64]))
}

/// `--image-index`: every frame of the container becomes its own output
fn cli_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let Some(c) = gen_cr3(r, 5) else { return Verdict::Skip("frames need different tile tables") };
  let n = c.frames.len();
  let s = Scratch::new();
  s.put("in/burst.cr3", &c.bytes);
  s.mkdir("out");
  let mode = r.range(0, 3);
  let k = r.range(0, n - 1);
  let mut a = vec!["convert".to_string()];
  match mode {
    0 => a.extend(["--image-index".into(), "all".into()]),
    1 => a.extend(["--image-index".into(), k.to_string()]),
    2 => a.extend(["--image-index".into(), (n + k).to_string()]),
    _ => (),
  }
  let abs = |p: &str| s.dir.join(p).to_string_lossy().into_owned();
  a.push(abs("in"));
  a.push(abs("out"));
  let before = snap(&s.dir);
  let v: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
  let run = crate::cli::run(&s, &args(&v), &Opt::default());
  let (changed, removed, added) = delta(&before, &snap(&s.dir));
  let what = format!("{} ({}): {}", a[1..a.len() - 2].join(" "), c.desc, run.brief());
  if !removed.is_empty() || changed.iter().any(|x| x.contains("in/")) {
    return bad("cr3-cli-source", format!("{changed:?} {removed:?} {what}"));
  }
  let want: Vec<(String, usize)> = match mode {
    0 if n > 1 => (0..n).map(|i| (format!("out/burst_{i:04}.dng"), i)).collect(),
    0 => vec![("out/burst.dng".into(), 0)],
    1 => vec![("out/burst.dng".into(), k)],
    2 => vec![],
    _ => vec![("out/burst.dng".into(), 0)],
  };
  if run.ok() == want.is_empty() {
    return bad("cr3-cli-status", what);
  }
  let mut got = added.clone();
  got.sort();
  let mut names: Vec<String> = want.iter().map(|x| x.0.clone()).collect();
  names.sort();
  if got != names {
    return bad("cr3-cli-outputs", format!("{got:?} expected {names:?} {what}"));
  }
  let mut h = 0;
  for (p, i) in &want {
    let Ok(out) = std::fs::read(s.dir.join(p)) else { return bad("cr3-cli-outputs", what) };
    if let Err((sig, d)) = check_dng(&c, *i, &out) {
      return bad(&sig, format!("{p}: {d} {what}"));
    }
    h ^= hash_bytes(&out[..8]) ^ hash_u16(&c.frames[*i].cfa);
    ctx.count("CR3 frames written by the command line tool", 1);
  }
  ctx.count(&format!("image-index {}", ["all", "valid", "out of range", "absent"][mode]), 1);
  Verdict::Held(h)
}

pub fn run(ctx: Ctx) -> i32 {
  let _ = BO(false);
  ctx.cases("cr3", ctx.n(500, 12_000), |r, case| cr3_case(&ctx, r, case));
  ctx.cases("cli", ctx.n(40, 800), |r, _| cli_case(&ctx, r));
  crate::cli::cleanup();
  ctx.finish("sampled", "every frame, level, area, colour, preview and metadata item equals what the generator stored", &[])
}
