//! C13 (demosaicing) and C14 (development) against the interval reference.
use crate::ctx::{Ctx, Verdict, hash_bytes, hash_u16};
use crate::gen_img::{BAYER, XTRANS, rect_in};
use crate::refdev::*;
use crate::reftiff::Tiff;
use crate::rng::Rng;
use crate::util::*;
use rawler::cfa::PlaneColor;
use rawler::decoders::Camera;
use rawler::dng::{CropMode, DngCompression};
use rawler::formats::tiff::Rational;
use rawler::imgop::develop::{Intermediate, ProcessingStep, RawDevelop, RawProcessingParams, process_raw_image};
use rawler::imgop::sensor::Demosaic;
use rawler::imgop::sensor::bayer::bilinear::Bilinear4Channel;
use rawler::imgop::sensor::bayer::ppg::PPGDemosaic;
use rawler::imgop::sensor::bayer::superpixel::{Superpixel3Channel, Superpixel4Channel};
use rawler::imgop::sensor::xtrans::bilinear::XTransBilinearDemosaic;
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::pixarray::{Color2D, PixF32};
use rawler::rawimage::{BlackLevel, CFAConfig, RawPhotometricInterpretation, WhiteLevel};
use rawler::{CFA, RawImage, RawImageData};
use serde_json::json;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

/// mosaic content in 0..1.5, by character
fn content(r: &mut Rng, w: usize, h: usize, pat: &Pat) -> (Vec<f32>, usize) {
  let kind = r.range(0, 7);
  let lv: Vec<f32> = (0..4).map(|_| r.f32()).collect();
  let (ax, ay, b) = (r.f32() - 0.5, r.f32() - 0.5, r.f32());
  let cell = r.range(1, 9);
  let phase = r.range(0, 3);
  let mut v = Vec::with_capacity(w * h);
  for y in 0..h {
    for x in 0..w {
      let c = pat.at(x, y);
      v.push(match kind {
        0 => r.f32() * 1.2,
        1 => lv[c],
        2 => (lv[c] + ax * x as f32 / 16.0 + ay * y as f32 / 16.0).abs(),
        3 => {
          if (x * 3 + y * 2) / cell % 2 == 0 {
            lv[c]
          } else {
            lv[(c + 1) % 4] * b
          }
        }
        4 => (r.u16() % 4096) as f32 / 4096.0,
        5 => {
          // edges in a random direction
          if ax * x as f32 + ay * y as f32 > b * 4.0 { 0.9 * lv[c] + 0.1 } else { 0.05 * lv[c] }
        }
        6 => {
          // single bright photosites on black
          if r.chance(1, 23) { 1.0 } else { 0.0 }
        }
        _ => {
          if (x / cell + y / cell + phase) % 2 == 0 {
            lv[c] + 0.1 * r.f32()
          } else {
            b + 0.1 * r.f32()
          }
        }
      });
    }
  }
  (v, kind)
}

fn dims(r: &mut Rng, min: usize) -> (usize, usize) {
  let d = |r: &mut Rng| match r.range(0, 5) {
    0 => r.range(min, min + 9),
    1 | 2 => r.range(min.max(6), 40),
    3 => r.range(20, 90),
    4 => *r.pick(&[6, 7, 8, 15, 16, 17, 31, 32, 33, 64, 65]),
    _ => r.range(7, 16),
  };
  (d(r).max(min), d(r).max(min))
}

fn img_of(v: &[f32], w: usize, h: usize) -> Img {
  Img { w, h, n: 1, v: v.iter().map(|x| I::pt(*x as f64)).collect() }
}

fn compare<const N: usize>(ctx: &Ctx, got: &Color2D<f32, N>, want: &Img) -> Option<String> {
  if (got.width, got.height) != (want.w, want.h) {
    return Some(format!("dimension {}x{} instead of {}x{}", got.width, got.height, want.w, want.h));
  }
  let mut tight = 0;
  for y in 0..want.h {
    for x in 0..want.w {
      for c in 0..N {
        let (g, i) = (got.data[y * want.w + x][c], want.at(x, y, c));
        if !i.has(g) {
          return Some(format!("pixel {x},{y} channel {c}: {g}, expected {:.7}..{:.7}", i.lo, i.hi));
        }
        if i.width() < 1e-3 {
          tight += 1;
        }
      }
    }
  }
  ctx.count("values.compared", (want.w * want.h * N) as u64);
  ctx.count("values.unique-result", tight);
  None
}

fn roi_of(r: &mut Rng, w: usize, h: usize, min: usize) -> Rect {
  let full = Rect::new(Point::zero(), Dim2::new(w, h));
  for _ in 0..20 {
    let x = rect_in(r, full);
    if x.d.w >= min && x.d.h >= min && r.chance(3, 4) {
      return x;
    }
  }
  full
}

fn bayer_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let p = *r.pick(&BAYER);
  let pat = Pat::new(p, "RGB");
  let (w, h) = dims(r, 1);
  let (v, kind) = content(r, w, h, &pat);
  let roi = roi_of(r, w, h, 1);
  let desc = format!("{p} {w}x{h} content={kind} roi={roi:?}");
  let src = PixF32::new_with(v.clone(), w, h);
  let out = PPGDemosaic::new().demosaic(&src, &CFA::new(p), &PlaneColor::default(), roi);
  if let Some(e) = compare(ctx, &out, &ppg(&img_of(&v, w, h), &pat, roi)) {
    return bad("ppg", format!("{desc}: {e}"));
  }
  ctx.count(&format!("ppg.{p}.origin{}{}", roi.p.x % 2, roi.p.y % 2), 1);
  ctx.sample(json!({"stage": "bayer", "case": desc}));
  Verdict::Held(hash_f(out.data.as_flattened()))
}

fn hash_f(v: &[f32]) -> u64 {
  v.iter().fold(11, |a, b| (a ^ b.to_bits() as u64).wrapping_mul(0x100000001b3))
}

fn four_pat(r: &mut Rng) -> (String, &'static str) {
  let planes = *r.pick(&["RGBE", "RGEB", "GMCY", "CYGM"]);
  let mut c: Vec<char> = planes.chars().collect();
  for i in (1..4).rev() {
    c.swap(i, r.range(0, i));
  }
  (c.into_iter().collect(), planes)
}

fn four_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let (p, planes) = four_pat(r);
  let pat = Pat::new(&p, planes);
  let (w, h) = dims(r, 2);
  let (v, kind) = content(r, w, h, &pat);
  let roi = roi_of(r, w, h, 2);
  let desc = format!("{p} planes {planes} {w}x{h} content={kind} roi={roi:?}");
  let src = PixF32::new_with(v.clone(), w, h);
  let out = Bilinear4Channel::new().demosaic(&src, &CFA::new(&p), &PlaneColor::new(planes), roi);
  let raw = img_of(&v, w, h);
  if let Some(e) = compare(ctx, &out, &window_avg(&raw, &pat, roi, 1, 4, true, |_, _| true)) {
    return bad("bilinear4", format!("{desc}: {e}"));
  }
  let sp = Superpixel4Channel::new().demosaic(&src, &CFA::new(&p), &PlaneColor::new(planes), roi);
  if let Some(e) = compare(ctx, &sp, &superpixel(&raw, &pat, roi, 4)) {
    return bad("superpixel4", format!("{desc}: {e}"));
  }
  ctx.count("four-colour", 1);
  Verdict::Held(hash_f(out.data.as_flattened()))
}

/// one pixel per complete 2x2 cell: mean of the cell's photosites of each plane
fn superpixel(raw: &Img, pat: &Pat, roi: Rect, n: usize) -> Img {
  let mut o = Img::new(roi.d.w / 2, roi.d.h / 2, n);
  for y in 0..o.h {
    for x in 0..o.w {
      for c in 0..n {
        let (mut s, mut k) = (I::pt(0.0), 0);
        for (dx, dy) in [(0, 0), (1, 0), (0, 1), (1, 1)] {
          let (sx, sy) = (roi.p.x + 2 * x + dx, roi.p.y + 2 * y + dy);
          if pat.at(sx, sy) == c {
            s = s.add(raw.at(sx, sy, 0));
            k += 1;
          }
        }
        o.set(x, y, c, s.scale(1.0 / k as f64));
      }
    }
  }
  o
}

fn super3_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let p = *r.pick(&BAYER);
  let pat = Pat::new(p, "RGB");
  let (w, h) = dims(r, 2);
  let (v, kind) = content(r, w, h, &pat);
  let roi = roi_of(r, w, h, 2);
  let src = PixF32::new_with(v.clone(), w, h);
  let out = Superpixel3Channel::new().demosaic(&src, &CFA::new(p), &PlaneColor::default(), roi);
  if let Some(e) = compare(ctx, &out, &superpixel(&img_of(&v, w, h), &pat, roi, 3)) {
    return bad("superpixel3", format!("{p} {w}x{h} content={kind} roi={roi:?}: {e}"));
  }
  Verdict::Held(hash_f(out.data.as_flattened()))
}

fn xtrans_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let p = *r.pick(&XTRANS);
  let pat = Pat::new(p, "RGB");
  let (w, h) = dims(r, 1);
  let (v, kind) = content(r, w, h, &pat);
  let roi = roi_of(r, w, h, 1);
  let desc = format!("{p} {w}x{h} content={kind} roi={roi:?}");
  let src = PixF32::new_with(v.clone(), w, h);
  let out = XTransBilinearDemosaic::new().demosaic(&src, &CFA::new(p), &PlaneColor::default(), roi);
  if let Some(e) = compare(ctx, &out, &window_avg(&img_of(&v, w, h), &pat, roi, 2, 3, false, |_, _| true)) {
    return bad("xtrans-bilinear", format!("{desc}: {e}"));
  }
  ctx.count(&format!("xtrans.origin{}{}", roi.p.x % 6, roi.p.y % 6), 1);
  Verdict::Held(hash_f(out.data.as_flattened()))
}

pub fn run13(ctx: Ctx) -> i32 {
  ctx.cases("bayer", ctx.n(16000, 80000), |r, _| bayer_case(&ctx, r));
  ctx.cases("four", ctx.n(6000, 25000), |r, _| four_case(&ctx, r));
  ctx.cases("super3", ctx.n(4000, 15000), |r, _| super3_case(&ctx, r));
  ctx.cases("xtrans", ctx.n(6000, 25000), |r, _| xtrans_case(&ctx, r));
  ctx.finish(
    "exploration",
    "one evaluation = one demosaic call of the real code; every output value must lie in the interval an independent reference of the algorithm computes (interval arithmetic over single precision rounding and undecidable gradient comparisons); distinct = distinct outputs",
    &["finite, non-negative samples", "four colour and superpixel demosaicing need at least 2x2 pixels", "the Markesteijn demosaicer, which no command uses, is not covered"],
  )
}

// ---------------------------------------------------------------- C14

#[derive(Clone)]
pub struct Case {
  pub img: RawImage,
  desc: String,
  pat: Option<Pat>,
  planes: usize,
  /// black level per plane and position
  black: Vec<f64>,
  bw: usize,
  bh: usize,
  white: Vec<f64>,
}

fn matrix(r: &mut Rng, n: usize) -> Vec<f32> {
  // camera-like: xyz -> cam, close to a sRGB-ish sensor with moderate cross talk
  const XYZ2RGB: [[f64; 3]; 3] = [[3.2404542, -1.5371385, -0.4985314], [-0.9692660, 1.8760108, 0.0415560], [0.0556434, -0.2040259, 1.0572252]];
  let mut out = vec![];
  for i in 0..n {
    let mut mix = [0.0; 3];
    for j in 0..3 {
      mix[j] = 0.35 * r.f32() as f64 + if j == i % 3 { 0.8 } else { 0.0 };
      if i == 3 {
        mix[j] = 0.2 + 0.8 * r.f32() as f64;
      }
    }
    let gain = 0.3 + r.f32() as f64;
    for j in 0..3 {
      let v: f64 = (0..3).map(|k| mix[k] * XYZ2RGB[k][j]).sum::<f64>() * gain;
      out.push(((v * 10000.0).round() / 10000.0) as f32);
    }
  }
  out
}

pub fn gen_case(r: &mut Rng, fuji: bool, file: bool) -> Case {
  let kind = if fuji { 0 } else { *r.pick(&[0, 0, 0, 1, 1, 2, 3, 4, 5, 5]) };
  let mut cam = Camera::new();
  cam.make = "Vmon".into();
  cam.model = format!("D{}", r.range(0, 99));
  cam.clean_make = cam.make.clone();
  cam.clean_model = cam.model.clone();
  let (mut pat, mut planes, mut cpp) = (None, 1, 1);
  let photometric = match kind {
    0 => {
      let p = *r.pick(&BAYER);
      pat = Some(Pat::new(p, "RGB"));
      planes = 3;
      cam.cfa = CFA::new(p);
      RawPhotometricInterpretation::Cfa(CFAConfig::new(&cam.cfa, &cam.plane_color))
    }
    1 => {
      let p = *r.pick(&XTRANS);
      pat = Some(Pat::new(p, "RGB"));
      planes = 3;
      cam.cfa = CFA::new(p);
      RawPhotometricInterpretation::Cfa(CFAConfig::new(&cam.cfa, &cam.plane_color))
    }
    2 => {
      let (p, pl) = if file { ("RGEB".to_string(), "RGBE") } else { four_pat(r) };
      pat = Some(Pat::new(&p, pl));
      planes = 4;
      cam.cfa = CFA::new(&p);
      cam.plane_color = PlaneColor::new(pl);
      RawPhotometricInterpretation::Cfa(CFAConfig::new(&cam.cfa, &cam.plane_color))
    }
    3 => RawPhotometricInterpretation::BlackIsZero,
    4 => RawPhotometricInterpretation::LinearRaw,
    _ => {
      cpp = if file || r.chance(3, 4) { 3 } else { 4 };
      planes = cpp;
      RawPhotometricInterpretation::LinearRaw
    }
  };
  let (w, h) = dims(r, if kind == 2 { 2 } else { 1 });
  let bps = *r.pick(&[16usize, 14, 12, 10, 8]);
  cam.real_bps = bps;
  let max = (1u32 << bps) - 1;
  let white: Vec<u32> = if cpp > 1 && r.bool() {
    (0..cpp).map(|_| r.range(max as usize / 2 + 1, max as usize) as u32).collect()
  } else {
    vec![r.range(max as usize / 2 + 1, max as usize) as u32; cpp]
  };
  let (bw, bh) = match kind {
    0 | 2 => *r.pick(&[(1, 1), (2, 2), (2, 1), (1, 2)]),
    1 => *r.pick(&[(1, 1), (2, 2), (6, 6), (2, 1), (1, 2), (3, 1)]),
    _ => *r.pick(&[(1, 1), (1, 1), (2, 2), (1, 2), (2, 1), (3, 2)]),
  };
  let den = *r.pick(&[1u32, 1, 4, 256]);
  let bmax = max as usize / 4;
  let levels: Vec<Rational> = (0..bw * bh * cpp).map(|_| Rational::new(r.range(0, bmax * den as usize) as u32, den)).collect();
  let dpat = pat.clone().unwrap_or(Pat { w: 1, h: 1, p: vec![0] });
  let (c, ckind) = content(r, w * cpp, h, &dpat);
  // exposure: some images reach beyond the white level
  let gain = *r.pick(&[0.6f32, 0.9, 1.0, 1.6]) * white[0] as f32;
  let s: Vec<u16> = c.iter().map(|v| (v * gain + bmax as f32 * 0.5).clamp(0.0, max as f32) as u16).collect();
  let float = !file && r.chance(1, 6);
  let data = if float { RawImageData::Float(s.iter().map(|x| *x as f32 + 0.25).collect()) } else { RawImageData::Integer(s) };
  let ills = [
    vec![Illuminant::D65],
    vec![Illuminant::A, Illuminant::D65],
    vec![Illuminant::A],
    vec![Illuminant::D50],
    vec![Illuminant::D55],
    vec![Illuminant::D75],
    vec![],
    vec![Illuminant::B],
    vec![Illuminant::C],
  ];
  let ill = if planes == 4 { ills[r.range(0, 1)].clone() } else { r.pick(&ills).clone() };
  for i in &ill {
    cam.color_matrix.insert(*i, matrix(r, planes.max(3)));
  }
  let wb = if r.chance(1, 6) {
    [f32::NAN; 4]
  } else {
    [0.6 + 2.0 * r.f32(), 1.0, 0.6 + 2.0 * r.f32(), if planes == 4 { 0.6 + r.f32() } else { f32::NAN }]
  };
  let black = BlackLevel::new(&levels, bw, bh, cpp);
  let mut img = RawImage::new_with_data(cam, data, w * cpp, h, cpp, wb, photometric, Some(black), Some(WhiteLevel::new(white.clone())), false);
  let full = Rect::new(Point::zero(), Dim2::new(w, h));
  let minr = if kind == 2 { 2 } else { 1 };
  if !fuji && r.chance(3, 4) {
    let aa = roi_of(r, w, h, minr);
    img.active_area = Some(aa);
    if r.chance(3, 4) {
      img.crop_area = Some(rect_in(r, aa));
    }
  } else if !fuji && r.chance(1, 3) {
    img.crop_area = Some(rect_in(r, full));
  }
  if fuji {
    img.fuji_rotation_width = Some(r.range(1, (w / 2).max(1)));
    if r.bool() {
      img.camera.hints.push("fuji_rotate_90cw".into());
    }
  }
  let desc = format!(
    "kind={kind} {w}x{h}x{cpp} bps={bps} content={ckind} float={float} black={bw}x{bh}/{den} white={white:?} ill={ill:?} wb={wb:?} active={:?} crop={:?} fuji={:?} cfa={}",
    img.active_area, img.crop_area, img.fuji_rotation_width, img.camera.cfa
  );
  Case {
    black: levels.iter().map(|l| l.n as f64 / l.d as f64).collect(),
    bw,
    bh,
    white: white.iter().map(|v| *v as f64).collect(),
    img,
    desc,
    pat,
    planes,
  }
}

fn white_point(i: Illuminant) -> [f64; 3] {
  match i {
    Illuminant::A => [1.09850, 1.0, 0.35585],
    Illuminant::B => [0.99072, 1.0, 0.85223],
    Illuminant::C => [0.98074, 1.0, 1.18232],
    Illuminant::D50 => [0.96422, 1.0, 0.82521],
    Illuminant::D55 => [0.95682, 1.0, 0.92149],
    Illuminant::D75 => [0.94972, 1.0, 1.22638],
    _ => [0.95047, 1.0, 1.08883],
  }
}

/// Expected result and which pixels are decidable
fn expected(c: &Case, steps: &[ProcessingStep]) -> (Img, Option<Vec<bool>>) {
  let has = |s: ProcessingStep| steps.contains(&s);
  let im = &c.img;
  let (w, h, cpp) = (im.width, im.height, im.cpp);
  let mut raw = Img::new(w, h, cpp);
  let sample = |i: usize| match &im.data {
    RawImageData::Integer(v) => v[i] as f64,
    RawImageData::Float(v) => v[i] as f64,
  };
  for y in 0..h {
    for x in 0..w {
      for k in 0..cpp {
        let s = sample((y * w + x) * cpp + k);
        raw.set(
          x,
          y,
          k,
          if has(ProcessingStep::Rescale) {
            scaled(s, c.black[((y % c.bh) * c.bw + x % c.bw) * cpp + k], c.white[k])
          } else {
            I::pt(s)
          },
        );
      }
    }
  }
  let mut cur = raw;
  let mut sure = None;
  let mut active = has(ProcessingStep::CropActiveArea);
  if let (Some(pat), true) = (&c.pat, has(ProcessingStep::Demosaic)) {
    let roi = if active { im.active_area.unwrap_or(cur.full()) } else { cur.full() };
    cur = if c.planes == 4 {
      window_avg(&cur, pat, roi, 1, 4, true, |_, _| true)
    } else if pat.w == 2 {
      ppg(&cur, pat, roi)
    } else {
      window_avg(&cur, pat, roi, 2, 3, false, |_, _| true)
    };
    if let (Some(t), true) = (im.fuji_rotation_width, has(ProcessingStep::FujiRotate)) {
      let src = if im.camera.hints.iter().any(|h| h == "fuji_rotate_90cw") { rotate90(&cur) } else { cur };
      let (o, s) = rotate45(&src, t);
      cur = o;
      sure = Some(s);
    }
  } else {
    active = false;
  }
  if has(ProcessingStep::Calibrate) && cur.n > 1 {
    let first = [Illuminant::D65, Illuminant::A, Illuminant::B, Illuminant::C, Illuminant::D50, Illuminant::D55, Illuminant::D75]
      .into_iter()
      .find_map(|i| im.color_matrix.get(&i).map(|m| (i, m.clone())));
    let mut m: Vec<[f64; 3]> = match &first {
      Some((_, m)) => m.chunks(3).map(|r| [r[0] as f64, r[1] as f64, r[2] as f64]).collect(),
      None => vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]],
    };
    if let Some((i, _)) = first {
      if i != Illuminant::D65 {
        // the matrix applies to colours under its own illuminant
        let a = bradford(white_point(Illuminant::D65), white_point(i));
        m = m.iter().map(|r| [0, 1, 2].map(|j| (0..3).map(|k| r[k] * a[k][j]).sum())).collect();
      }
    }
    let (m, cond) = cam2rgb(&m);
    let big = m.iter().flatten().fold(0.0f64, |a, b| a.max(b.abs()));
    let e = big * cond.max(1.0) * 2e-6;
    let wb = if !has(ProcessingStep::WhiteBalance) || im.wb_coeffs[0].is_nan() { [1.0; 4] } else { im.wb_coeffs };
    let mut o = Img::new(cur.w, cur.h, 3);
    for y in 0..cur.h {
      for x in 0..cur.w {
        let p: Vec<I> = (0..cur.n).map(|k| cur.at(x, y, k).scale(wb[k] as f64)).collect();
        let rgb: Vec<I> = (0..3)
          .map(|i| (0..cur.n).map(|k| p[k].mul(I { lo: m[i][k] - e, hi: m[i][k] + e })).reduce(|a, b| a.add(b)).unwrap())
          .collect();
        for (k, v) in highlights(&rgb).into_iter().enumerate() {
          o.set(x, y, k, v);
        }
      }
    }
    cur = o;
  }
  if has(ProcessingStep::CropDefault) {
    if let Some(mut a) = im.crop_area.or(im.active_area) {
      if active {
        if let Some(m) = im.active_area {
          a = Rect::new(Point::new(a.p.x - m.p.x, a.p.y - m.p.y), a.d);
        }
      }
      cur = cur.crop(a);
    }
  }
  if has(ProcessingStep::SRgb) {
    cur.v.iter_mut().for_each(|v| *v = gamma(*v));
  }
  (cur, sure)
}

fn develop_case(ctx: &Ctx, r: &mut Rng, fuji: bool) -> Verdict {
  let c = gen_case(r, fuji, false);
  let all = RawDevelop::default().steps;
  let steps: Vec<ProcessingStep> = if fuji || r.bool() {
    all
  } else {
    let keep: Vec<bool> = all.iter().map(|_| r.chance(4, 5)).collect();
    all.into_iter().zip(keep).filter(|(_, k)| *k).map(|(s, _)| s).collect()
  };
  let desc = format!("{} steps={steps:?}", c.desc);
  let (want, sure) = expected(&c, &steps);
  let got = match (RawDevelop { steps: steps.clone() }).develop_intermediate(&c.img) {
    Ok(g) => g,
    Err(e) => return bad("develop-error", format!("{desc}: {e}")),
  };
  let (flat, n): (Vec<f32>, usize) = match &got {
    Intermediate::Monochrome(p) => (p.data.clone(), 1),
    Intermediate::ThreeColor(p) => (p.data.as_flattened().to_vec(), 3),
    Intermediate::FourColor(p) => (p.data.as_flattened().to_vec(), 4),
  };
  let d = got.dim();
  if (d.w, d.h, n) != (want.w, want.h, want.n) {
    return bad("dims", format!("{desc}: result {}x{}x{n}, expected {}x{}x{}", d.w, d.h, want.w, want.h, want.n));
  }
  let mut tight = 0;
  for (i, (g, v)) in flat.iter().zip(&want.v).enumerate() {
    if sure.as_ref().is_some_and(|s| !s[i / n]) {
      continue;
    }
    if !v.has(*g) {
      return bad("value", format!("{desc}: pixel {},{} channel {}: {g}, expected {:.6}..{:.6}", i / n % d.w, i / n / d.w, i % n, v.lo, v.hi));
    }
    if v.width() < 2e-3 {
      tight += 1;
    }
  }
  ctx.count("values.compared", flat.len() as u64);
  ctx.count("values.unique-result", tight);
  ctx.count(&format!("develop.planes{}{}", c.planes, if fuji { ".rotated" } else { "" }), 1);
  ctx.sample(json!({"stage": "develop", "case": desc}));
  Verdict::Held(hash_f(&flat))
}

/// image of a developed TIFF: width, height, channels, 16 bit samples
fn tif_pixels(buf: &[u8], t: &Tiff) -> Result<(usize, usize, usize, Vec<u16>), String> {
  let d = t.all_dirs().into_iter().find(|d| d.get(273).is_some()).ok_or("no image")?;
  let (w, h, n) = (d.u(256).ok_or("w")? as usize, d.u(257).ok_or("h")? as usize, d.u(277).ok_or("spp")? as usize);
  if d.u(259) != Some(5) || d.get(258).map(|b| b.uints().iter().all(|x| *x == 16)) != Some(true) {
    return Err("not a 16 bit LZW image".into());
  }
  let mut px = vec![];
  for (o, l) in d.get(273).unwrap().uints().iter().zip(d.get(279).ok_or("no byte counts")?.uints()) {
    let raw = crate::p06::lzw(buf.get(*o as usize..*o as usize + l as usize).ok_or("strip outside the file")?)?;
    px.extend(raw.chunks_exact(2).map(|b| if t.be { u16::from_be_bytes([b[0], b[1]]) } else { u16::from_le_bytes([b[0], b[1]]) }));
  }
  if px.len() != w * h * n {
    return Err(format!("{} samples for {w}x{h}x{n}", px.len()));
  }
  Ok((w, h, n, px))
}

/// whole process: DNG file in, TIFF file out
fn file_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let c = gen_case(r, false, true);
  let mode = *r.pick(&crop_modes());
  let comp = if r.bool() { DngCompression::Uncompressed } else { DngCompression::Lossless };
  let bytes = match write_dng(&c.img, CropMode::None, comp, 1, r.bool()) {
    Ok(b) => b,
    Err(e) => return bad("writer-error", format!("{}: {e}", c.desc)),
  };
  let mut c2 = c.clone();
  // CropMode::None writes neither area; put them in by writing the DNG with the areas wanted
  let bytes = if r.chance(2, 3) {
    match write_dng(&c.img, CropMode::Best, comp, 1, true) {
      Ok(b) => b,
      Err(e) => return bad("writer-error", format!("{}: {e}", c.desc)),
    }
  } else {
    bytes
  };
  let own = match decode(&bytes) {
    Ok(i) => i,
    Err(e) => return bad("decode", format!("{}: {e}", c.desc)),
  };
  let desc = format!("{} mode={mode:?} file: active={:?} crop={:?}", c.desc, own.active_area, own.crop_area);
  // areas and white balance come from the file (C03 judges them); samples and levels from the case
  c2.img.active_area = own.active_area;
  c2.img.crop_area = own.crop_area;
  c2.img.wb_coeffs = own.wb_coeffs;
  c2.img.color_matrix = own.color_matrix.clone();
  let mut steps = RawDevelop::default().steps;
  match mode {
    CropMode::Best => {}
    CropMode::ActiveArea => c2.img.crop_area = None,
    CropMode::None => steps.retain(|s| !matches!(s, ProcessingStep::CropActiveArea | ProcessingStep::CropDefault)),
  }
  let dir = std::env::temp_dir().join(format!("vmon-c14-{}-{:016x}", std::process::id(), r.u64()));
  if std::fs::create_dir(&dir).is_err() {
    return Verdict::Skip("scratch");
  }
  let src = dir.join("a.dng");
  let res = std::fs::write(&src, &bytes).map_err(|e| e.to_string()).and_then(|_| {
    let mut out = std::io::Cursor::new(vec![]);
    let p = RawProcessingParams { crop: mode, ..Default::default() };
    crate::ctx::guard(|| process_raw_image(&src, &mut out, &p).map_err(|e| e.to_string())).and_then(|x| x)?;
    Ok(out.into_inner())
  });
  let _ = std::fs::remove_dir_all(&dir);
  let tif = match res {
    Ok(t) => t,
    Err(e) => return bad("process-error", format!("{desc}: {e}")),
  };
  let t = match Tiff::parse(&tif) {
    Ok(t) => t,
    Err(e) => return bad("tiff", format!("{desc}: {e}")),
  };
  let (w, h, n, px) = match tif_pixels(&tif, &t) {
    Ok(x) => x,
    Err(e) => return bad("tiff-pixels", format!("{desc}: {e}")),
  };
  let (want, _) = expected(&c2, &steps);
  if (w, h, n) != (want.w, want.h, want.n) {
    return bad("dims", format!("{desc}: {w}x{h}x{n}, expected {}x{}x{}", want.w, want.h, want.n));
  }
  for (i, (g, v)) in px.iter().zip(&want.v).enumerate() {
    let q = |v: f64| (v * 65535.0).clamp(0.0, 65535.0);
    if (*g as f64) < q(v.lo).floor() - 1.0 || (*g as f64) > q(v.hi).ceil() + 1.0 {
      return bad(
        "value16",
        format!("{desc}: pixel {},{} channel {}: {g}, expected {:.1}..{:.1}", i / n % w, i / n / w, i % n, q(v.lo), q(v.hi)),
      );
    }
  }
  ctx.count("values16.compared", px.len() as u64);
  ctx.count(&format!("file.{mode:?}"), 1);
  ctx.sample(json!({"stage": "file", "case": desc}));
  Verdict::Held(hash_u16(&px) ^ hash_bytes(desc.as_bytes()))
}

pub fn run14(ctx: Ctx) -> i32 {
  ctx.cases("develop", ctx.n(4000, 80000), |r, _| develop_case(&ctx, r, false));
  ctx.cases("rotated", ctx.n(300, 5000), |r, _| develop_case(&ctx, r, true));
  ctx.cases("file", ctx.n(1500, 30000), |r, _| file_case(&ctx, r));
  ctx.finish(
    "exploration",
    "one evaluation = one raw image developed by the real code; every value must lie in the interval an independent reference pipeline computes (scaling, demosaic, rotation, areas, white balance, matrix, highlights, gamma, 16 bit); distinct = distinct outputs",
    &["colour matrices are camera-like (well conditioned)", "black below white level", "four plane images carry a D65 matrix"],
  )
}
