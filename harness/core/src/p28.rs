//! C28: raw files of the formats built on TIFF or on a small header decode to the image and the description they store.
use crate::ctx::{Ctx, Verdict, guard, hash_bytes, hash_u16};
use crate::gen_files::{FileCase, KINDS, gen_file};
use crate::p08::{check_dirs, same};
use crate::refdng::{Samples, decode_raw};
use crate::reftiff::Tiff;
use crate::rng::Rng;
use crate::util::*;
use image::DynamicImage;
use rawler::decoders::{Decoder, RawDecodeParams};
use rawler::imgop::Rect;
use rawler::rawimage::RawPhotometricInterpretation;
use rawler::rawsource::RawSource;
use rawler::{RawImage, RawImageData};
use serde_json::json;

fn bad(sig: String, d: String) -> Verdict {
  Verdict::Bad(sig, d)
}

fn rect(r: &Option<Rect>) -> Option<[usize; 4]> {
  r.as_ref().map(|r| [r.p.x, r.p.y, r.p.x + r.d.w, r.p.y + r.d.h])
}

/// Black level of the 2x2 (or single) positions: the camera description counts first, then what the
/// file says, then what the masked parts of the sensor show.
fn black(f: &FileCase) -> Vec<f64> {
  let c = f.cam;
  if let Some((b, _)) = f.levels {
    return vec![b; 4];
  }
  if let Some(b) = c.black {
    return vec![b as f64; 4];
  }
  if let Some(b) = f.black.as_ref().filter(|_| !c.hint("invalid_blacklevel")) {
    return if b.len() == 1 { vec![b[0]; 4] } else { b.clone() };
  }
  if f.cpp == 1 && (c.ah.is_some() || c.av.is_some()) {
    let a = c.active.map(|b| crate::gen_files::borders(b, f.w, f.h)).unwrap_or([0, 0, f.w, f.h]);
    let (mut s, mut n) = ([0f64; 4], [0f64; 4]);
    let mut add = |x0: usize, y0: usize, x1: usize, y1: usize| {
      for y in y0..y1 {
        for x in x0..x1 {
          let k = (y & 1) * 2 + (x & 1);
          s[k] += f.px[y * f.w + x] as f64;
          n[k] += 1.0;
        }
      }
    };
    if let Some([o, l]) = c.ah {
      add(a[0], o, a[2], o + l);
    }
    if let Some([o, l]) = c.av {
      add(o, a[1], o + l, a[3]);
    }
    return (0..4).map(|k| s[k] / n[k]).collect();
  }
  vec![0.0; 4]
}

fn white(f: &FileCase) -> Option<u32> {
  f.levels.map(|l| l.1).or(f.cam.white.map(|w| w << f.white_shift)).or(f.white)
}

fn eq_wb(a: f32, b: f32) -> bool {
  (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= 1e-5 * b.abs()
}

fn check_image(f: &FileCase, img: &RawImage) -> Result<(), (String, String)> {
  let e = |s: &str, d: String| Err((format!("{}-{s}", f.kind), d));
  if (img.width, img.height, img.cpp) != (f.w, f.h, f.cpp) {
    return e("dim", format!("{}x{}x{} expected {}x{}x{}", img.width, img.height, img.cpp, f.w, f.h, f.cpp));
  }
  let Some(px) = ints(&img.data) else { return e("type", "not integer".into()) };
  if let Some(d) = diff_u16(px, &f.px, f.w * f.cpp) {
    return e("samples", d);
  }
  if !img.wb_coeffs.iter().zip(&f.wb).all(|(a, b)| eq_wb(*a, *b)) {
    return e("wb", format!("{:?} expected {:?}", img.wb_coeffs, f.wb));
  }
  let b = &img.blacklevel;
  let want = black(f);
  if b.levels.len() != b.width * b.height * b.cpp {
    return e("black", format!("{b:?}"));
  }
  for k in 0..4 {
    let l = &b.levels[((k / 2 % b.height) * b.width + k % 2 % b.width) * b.cpp];
    let v = l.n as f64 / l.d as f64;
    if !((v - want[k]).abs() <= 1e-3 * (1.0 + want[k].abs())) {
      return e("black", format!("{b:?} expected {want:?}"));
    }
  }
  if let Some(w) = white(f) {
    if !img.whitelevel.0.iter().all(|x| *x == w) || img.whitelevel.0.is_empty() {
      return e("white", format!("{:?} expected {w}", img.whitelevel));
    }
  }
  if rect(&img.crop_area) != f.crop {
    return e("crop", format!("{:?} expected {:?}", img.crop_area, f.crop));
  }
  if rect(&img.active_area) != f.active {
    return e("active", format!("{:?} expected {:?}", img.active_area, f.active));
  }
  if (img.make.trim_end(), img.model.trim_end()) != (&f.cam.make, &f.cam.model) || (&img.clean_make, &img.clean_model) != (&f.cam.clean_make, &f.cam.clean_model) {
    return e("camera", format!("{} {} {} {}", img.make, img.model, img.clean_make, img.clean_model));
  }
  match &img.photometric {
    RawPhotometricInterpretation::Cfa(c) if !f.cfa.is_empty() && f.cpp == 1 && c.cfa.name == f.cfa => Ok(()),
    RawPhotometricInterpretation::LinearRaw if f.cfa.is_empty() || f.cpp == 3 => Ok(()),
    p => e("cfa", format!("{p:?} expected {}", f.cfa)),
  }
}

fn check_dng(f: &FileCase, out: &[u8]) -> Result<u64, (String, String)> {
  let e = |s: &str, d: String| (format!("{}-{s}", f.kind), d);
  let t = Tiff::parse(out).map_err(|x| e("dng-unparsable", x))?;
  let raw = t.raw_dir().ok_or_else(|| e("dng-noraw", String::new()))?;
  let d = decode_raw(out, &t, raw).map_err(|x| e("dng-raw", x))?;
  if (d.w, d.h) != (f.w, f.h) {
    return Err(e("dng-dim", format!("{}x{}", d.w, d.h)));
  }
  match &d.samples {
    Samples::U(v) => {
      if let Some(x) = diff_u16(v, &f.px, f.w * f.cpp) {
        return Err(e("dng-samples", x));
      }
    }
    _ => return Err(e("dng-type", "float".into())),
  }
  let root = &t.dirs[0];
  let mut n = check_dirs(&f.meta, f.be, root).map_err(|(s, d)| e(&s, d))?;
  for x in &f.meta.root {
    if x.tag == 306 {
      continue;
    }
    n += 1;
    same(x, f.be, root.get(x.tag)).map_err(|d| e(&format!("root-tag-{}", x.tag), d))?;
  }
  if let Some(x) = &f.xmp {
    n += 1;
    if root.get(700).map(|e| &e.data) != Some(x) {
      return Err(e("xmp", format!("{:?} bytes expected {}", root.get(700).map(|e| e.data.len()), x.len())));
    }
  }
  let s = |t: u16| root.get(t).and_then(|e| e.str());
  if s(271).as_deref() != Some(&f.cam.clean_make) || s(272).as_deref() != Some(&f.cam.clean_model) {
    return Err(e("make-model", format!("{:?} {:?}", s(271), s(272))));
  }
  Ok(n + 3)
}

fn case(ctx: &Ctx, r: &mut Rng, kind: usize) -> Verdict {
  let k = KINDS[kind].0;
  let Some(f) = gen_file(r, kind) else { return Verdict::Skip("no such image") };
  if let Ok(d) = std::env::var("VMON_DUMP") {
    std::fs::write(format!("{d}/{k}.{}", f.ext), &f.bytes).unwrap();
  }
  let src = RawSource::new_from_slice(&f.bytes).with_path(format!("a.{}", f.ext));
  let dec = match guard(|| rawler::get_decoder(&src)) {
    Err(p) => return bad(format!("{k}-open-panic"), format!("{p} ({})", f.desc)),
    Ok(Err(e)) => return bad(format!("{k}-open"), format!("{e:?} ({})", f.desc)),
    Ok(Ok(d)) => d,
  };
  let dec: &dyn Decoder = dec.as_ref();
  match dec.raw_image_count() {
    Ok(1) => (),
    x => return bad(format!("{k}-count"), format!("{x:?} ({})", f.desc)),
  }
  let p = RawDecodeParams { image_index: 0 };
  let img = match guard(|| dec.raw_image(&src, &p, false)) {
    Err(x) => return bad(format!("{k}-panic"), format!("{x} ({})", f.desc)),
    Ok(Err(x)) => return bad(format!("{k}-error"), format!("{x:?} ({})", f.desc)),
    Ok(Ok(i)) => i,
  };
  if let Err((s, d)) = check_image(&f, &img) {
    return bad(s, format!("{d} ({})", f.desc));
  }
  if r.chance(1, 4) {
    match guard(|| dec.raw_image(&src, &p, true)) {
      Ok(Ok(d)) if (d.width, d.height, d.cpp, d.crop_area, d.active_area) == (img.width, img.height, img.cpp, img.crop_area, img.active_area) && d.whitelevel.0 == img.whitelevel.0 => (),
      x => return bad(format!("{k}-dummy"), format!("{:?} ({})", x.map(|y| y.map(|d| (d.width, d.height, d.crop_area, d.active_area, d.whitelevel))), f.desc)),
    }
  }
  if let Some(want) = &f.preview {
    match guard(|| dec.preview_image(&src, &p)) {
      Ok(Ok(Some(i))) if { let i = i.to_rgb8(); want.dimensions() == i.dimensions() && want.as_raw().iter().zip(i.as_raw()).all(|(a, b)| a.abs_diff(*b) < 40) } => ctx.count("previews compared", 1),
      Ok(x) => return bad(format!("{k}-preview"), format!("{:?} expected {:?} ({})", x.map(|i| i.map(|i: DynamicImage| (i.width(), i.height()))), want.dimensions(), f.desc)),
      Err(x) => return bad(format!("{k}-preview-panic"), format!("{x} ({})", f.desc)),
    }
  }
  if f.cam.matrix && r.chance(1, 3) {
    let mut p = params(r);
    p.index = 0;
    p.embedded = false;
    let out = match guard(|| convert(&f.bytes, &format!("a.{}", f.ext), &p)) {
      Err(x) => return bad(format!("{k}-convert-panic"), format!("{x} ({})", f.desc)),
      Ok(Err(x)) => return bad(format!("{k}-convert"), format!("{x} ({})", f.desc)),
      Ok(Ok(o)) => o,
    };
    match check_dng(&f, &out) {
      Ok(n) => ctx.count("items compared in the DNG", n),
      Err((s, d)) => return bad(s, format!("as DNG: {d} ({})", f.desc)),
    }
    ctx.count(&format!("{k} conversions"), 1);
  }
  ctx.count(&format!("{k} files"), 1);
  ctx.count("samples compared", f.px.len() as u64);
  if r.chance(1, 61) {
    ctx.sample(json!({"file": f.desc}));
  }
  let _ = RawImageData::Integer;
  Verdict::Held(hash_u16(&f.px) ^ hash_bytes(&f.bytes[f.bytes.len() / 2..]))
}

pub fn run(ctx: Ctx) -> i32 {
  let only = std::env::var("VMON_KIND").ok();
  for (i, (k, _)) in KINDS.iter().enumerate() {
    if only.as_ref().is_some_and(|o| o != k) {
      continue;
    }
    ctx.cases(k, if **k == *"NKD" { ctx.n(30, 300) } else { ctx.n(600, 12000) }, |r, _| case(&ctx, r, i));
  }
  ctx.finish("sampled", "samples, levels, areas, white balance, colour layout, camera names, preview and metadata equal what the generator stored", &[])
}

