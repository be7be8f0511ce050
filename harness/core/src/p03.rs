//! C03: geometry, colour and level tags of a written DNG describe the decoded image photosite by photosite,
//! and reading them back restores the same description.
use crate::ctx::{Ctx, Verdict, hash_bytes};
use crate::gen_dng::{Src, SrcOpt, gen_src};
use crate::gen_img::{GenOpt, Photo, raw_image};
use crate::reftiff::{Dir, Tiff};
use crate::rng::Rng;
use crate::util::*;
use rawler::RawImage;
use rawler::dng::{CropMode, DngCompression};
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::rawimage::RawPhotometricInterpretation;
use serde_json::json;

/// Ground truth about an image, independent of where it came from.
pub struct Truth {
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  /// 1, 32803, 34892
  pub photometric: u32,
  /// colour at absolute (x, y)
  pub cfa: Option<(usize, usize, Vec<u8>)>, // (w, h, pattern at (0,0))
  pub black: (usize, usize, Vec<f64>), // (w, h, levels incl. cpp, at (0,0))
  pub white: Vec<u32>,
  pub active: Option<Rect>,
  pub crop: Option<Rect>,
  pub neutral: Option<Vec<f64>>,
  pub matrices: Vec<(u16, Vec<f64>)>,
  pub masked: Option<Vec<u32>>,
  pub orientation: Option<u16>,
  pub make: String,
  pub model: String,
}

fn lvl(b: &(usize, usize, Vec<f64>), cpp: usize, x: usize, y: usize, k: usize) -> f64 {
  b.2[((y % b.1) * b.0 + x % b.0) * cpp + k]
}

pub fn truth_from_image(img: &RawImage) -> Truth {
  let (photometric, cfa) = match &img.photometric {
    RawPhotometricInterpretation::BlackIsZero => (1, None),
    RawPhotometricInterpretation::LinearRaw => (34892, None),
    RawPhotometricInterpretation::Cfa(c) => (
      32803,
      Some((
        c.cfa.width,
        c.cfa.height,
        (0..c.cfa.width * c.cfa.height).map(|i| c.cfa.color_at(i / c.cfa.width, i % c.cfa.width) as u8).collect::<Vec<u8>>(),
      )),
    ),
  };
  let color = img.cpp > 1 || cfa.is_some();
  let planes = match (&cfa, img.cpp) {
    (Some((_, _, p)), _) => {
      let mut u = p.clone();
      u.sort();
      u.dedup();
      if u.len() == 4 { 4 } else { 3 }
    }
    (None, n) => n,
  };
  Truth {
    w: img.width,
    h: img.height,
    cpp: img.cpp,
    photometric,
    cfa,
    black: (img.blacklevel.width, img.blacklevel.height, img.blacklevel.levels.iter().map(|r| r.n as f64 / r.d as f64).collect()),
    white: img.whitelevel.0.clone(),
    active: img.active_area,
    crop: img.crop_area,
    neutral: (color && !img.wb_coeffs[0].is_nan()).then(|| (0..planes).map(|i| 1.0 / img.wb_coeffs[i] as f64).collect()),
    matrices: if color {
      img.color_matrix.iter().map(|(i, m)| (u16::from(*i), m.iter().map(|x| *x as f64).collect())).collect()
    } else {
      vec![]
    },
    masked: Some(
      img
        .blackareas
        .iter()
        .flat_map(|a| [a.p.y as u32, a.p.x as u32, (a.p.y + a.d.h) as u32, (a.p.x + a.d.w) as u32])
        .collect(),
    ),
    orientation: None,
    make: img.clean_make.clone(),
    model: img.clean_model.clone(),
  }
}

pub fn truth_from_src(s: &Src) -> Truth {
  let aa = s.aa.unwrap_or([0, 0, s.h as u32, s.w as u32]);
  let (top, left) = (aa[0] as usize, aa[1] as usize);
  // patterns in the file are relative to the active area; move them to (0, 0)
  let at0 = |pw: usize, ph: usize, n: usize, get: &dyn Fn(usize) -> f64| -> Vec<f64> {
    let mut v = vec![];
    for y in 0..ph {
      for x in 0..pw {
        let (ry, rx) = ((y + ph * 100 - top) % ph, (x + pw * 100 - left) % pw);
        for k in 0..n {
          v.push(get((ry * pw + rx) * n + k));
        }
      }
    }
    v
  };
  let cfa = (s.cfa.0 > 0).then(|| {
    let (ph, pw) = (s.cfa.0, s.cfa.1);
    (pw, ph, at0(pw, ph, 1, &|i| s.cfa.2[i] as f64).into_iter().map(|x| x as u8).collect())
  });
  let (br, bc) = (s.black.0, s.black.1);
  Truth {
    w: s.w,
    h: s.h,
    cpp: s.cpp,
    photometric: match s.photo {
      Photo::Mono => 1,
      Photo::Linear1 | Photo::Linear3 => 34892,
      _ => 32803,
    },
    cfa,
    black: (bc, br, at0(bc, br, s.cpp, &|i| s.black.2[i].0 as f64 / s.black.2[i].1 as f64)),
    white: s.white.clone(),
    active: s.aa.map(|a| Rect::new(Point::new(a[1] as usize, a[0] as usize), Dim2::new((a[3] - a[1]) as usize, (a[2] - a[0]) as usize))),
    crop: s
      .crop
      .map(|(o, z)| Rect::new(Point::new(left + o[0] as usize, top + o[1] as usize), Dim2::new(z[0] as usize, z[1] as usize))),
    neutral: (!s.neutral.is_empty()).then(|| s.neutral.iter().map(|x| x.0 as f64 / x.1 as f64).collect()),
    matrices: s.matrices.iter().map(|(i, m)| (*i, m.iter().map(|x| x.0 as f64 / x.1 as f64).collect())).collect(),
    masked: None,
    orientation: Some(s.orientation),
    make: s.make.clone(),
    model: s.model.clone(),
  }
}

type R = Result<(), (String, String)>;
fn fail<T>(sig: &str, d: String) -> Result<T, (String, String)> {
  Err((sig.to_string(), d))
}

fn rect_s(r: Rect) -> [usize; 4] {
  [r.p.x, r.p.y, r.d.w, r.d.h]
}

/// Judge the tags of a DNG written from an image with ground truth `t`.
pub fn judge_file(t: &Truth, crop: CropMode, tiff: &Tiff, d: &Dir) -> R {
  let root = &tiff.dirs[0];
  let full = Rect::new(Point::zero(), Dim2::new(t.w, t.h));
  let (ea, ec) = match crop {
    CropMode::Best => (t.active.unwrap_or(full), Some(t.crop.unwrap_or(t.active.unwrap_or(full)))),
    CropMode::ActiveArea => (t.active.unwrap_or(full), Some(t.active.unwrap_or(full))),
    CropMode::None => (full, None),
  };
  let area = d.get(50829).map(|e| e.uints());
  let aa = match area {
    Some(a) if a.len() == 4 && a[0] < a[2] && a[1] < a[3] => {
      Rect::new(Point::new(a[1] as usize, a[0] as usize), Dim2::new((a[3] - a[1]) as usize, (a[2] - a[0]) as usize))
    }
    None => full,
    Some(a) => return fail("active-area", format!("malformed ActiveArea {a:?}")),
  };
  if rect_s(aa) != rect_s(ea) {
    return fail("active-area", format!("ActiveArea describes {:?}, image has {:?}", rect_s(aa), rect_s(ea)));
  }
  let got_crop = match (d.get(50719), d.get(50720)) {
    (Some(o), Some(s)) => {
      let (o, s) = (o.nums(), s.nums());
      if o.len() != 2 || s.len() != 2 {
        return fail("crop", format!("DefaultCrop counts {}/{}", o.len(), s.len()));
      }
      Some([aa.p.x as f64 + o[0], aa.p.y as f64 + o[1], s[0], s[1]])
    }
    (None, None) => None,
    _ => return fail("crop", "only one of DefaultCropOrigin/Size".into()),
  };
  match (got_crop, ec) {
    (Some(g), Some(e)) => {
      if g != rect_s(e).map(|x| x as f64) {
        return fail("crop", format!("default crop describes {g:?}, expected {:?}", rect_s(e)));
      }
    }
    (None, None) => {}
    (None, Some(e)) => {
      // absent tags mean the whole active area
      if rect_s(e) != rect_s(aa) {
        return fail("crop", format!("no default crop, expected {:?}", rect_s(e)));
      }
    }
    (Some(g), None) => {
      if g != rect_s(full).map(|x| x as f64) {
        return fail("crop", format!("default crop {g:?} although crop mode none was asked for"));
      }
    }
  }
  if d.u(262) != Some(t.photometric) {
    return fail("photometric", format!("PhotometricInterpretation {:?}, expected {}", d.u(262), t.photometric));
  }
  if d.u(277) != Some(t.cpp as u32) {
    return fail("spp", format!("SamplesPerPixel {:?}, expected {}", d.u(277), t.cpp));
  }
  let (rows, cols) = (t.h.min(14), t.w.min(14));
  let (rows, cols) = (rows.min(ea.d.h), cols.min(ea.d.w));
  if let Some((pw, ph, pat)) = &t.cfa {
    let dim = d.get(33421).map(|e| e.uints()).unwrap_or_default();
    let fpat = d.get(33422).map(|e| e.uints()).unwrap_or_default();
    if dim.len() != 2 || dim[0] == 0 || dim[1] == 0 || fpat.len() as u32 != dim[0] * dim[1] {
      return fail("cfa", format!("CFARepeatPatternDim {dim:?} / CFAPattern of {} values", fpat.len()));
    }
    let (fr, fc) = (dim[0] as usize, dim[1] as usize);
    for y in 0..rows {
      for x in 0..cols {
        let (ax, ay) = (ea.p.x + x, ea.p.y + y);
        let want = pat[(ay % ph) * pw + ax % pw] as u32;
        let got = fpat[(y % fr) * fc + x % fc];
        if want != got {
          return fail("cfa", format!("photosite ({ax},{ay}) has colour {want}, the file says {got} (ActiveArea {:?}, dim {dim:?}, pattern {fpat:?})", rect_s(ea)));
        }
      }
    }
    let planes = d.get(50710).map(|e| e.uints()).unwrap_or(vec![0, 1, 2]);
    for c in pat {
      if !planes.contains(&(*c as u32)) {
        return fail("cfa-planes", format!("colour {c} is not in CFAPlaneColor {planes:?}"));
      }
    }
    if d.u(50711).unwrap_or(1) != 1 {
      return fail("cfa-layout", format!("CFALayout {:?}", d.u(50711)));
    }
  } else if d.get(33422).is_some() {
    return fail("cfa", "CFAPattern on a non CFA image".into());
  }
  // levels
  let dim = d.get(50713).map(|e| e.uints()).unwrap_or(vec![1, 1]);
  if dim.len() != 2 || dim[0] == 0 || dim[1] == 0 {
    return fail("black", format!("BlackLevelRepeatDim {dim:?}"));
  }
  let (fr, fc) = (dim[0] as usize, dim[1] as usize);
  let bl = d.get(50714).map(|e| e.nums()).unwrap_or(vec![0.0; fr * fc * t.cpp]);
  if bl.len() != fr * fc * t.cpp {
    return fail("black", format!("BlackLevel has {} values for {dim:?} x {} samples", bl.len(), t.cpp));
  }
  for y in 0..rows {
    for x in 0..cols {
      for k in 0..t.cpp {
        let want = lvl(&t.black, t.cpp, ea.p.x + x, ea.p.y + y, k);
        let got = bl[((y % fr) * fc + x % fc) * t.cpp + k];
        if want != got {
          return fail("black", format!("photosite ({},{}) plane {k}: black level {want}, the file says {got}", ea.p.x + x, ea.p.y + y));
        }
      }
    }
  }
  let wl = d.get(50717).map(|e| e.uints());
  let want_w = t.white.clone();
  match wl {
    Some(w) => {
      if w != want_w {
        return fail("white", format!("WhiteLevel {w:?}, expected {want_w:?}"));
      }
    }
    None => return fail("white", "no WhiteLevel".into()),
  }
  if let Some(m) = &t.masked {
    let got = d.get(50830).map(|e| e.uints()).unwrap_or_default();
    if &got != m {
      return fail("masked", format!("MaskedAreas {got:?}, expected {m:?}"));
    }
  }
  // colour
  let got = root.get(50728).map(|e| e.nums());
  match (&t.neutral, &got) {
    (Some(want), Some(got)) => {
      if want.len() != got.len() {
        return fail("neutral", format!("AsShotNeutral has {} values, expected {}", got.len(), want.len()));
      }
      for (w, g) in want.iter().zip(got) {
        if (w - g).abs() > 2e-5 + 2e-6 * w.abs() {
          return fail("neutral", format!("AsShotNeutral {got:?}, expected {want:?}"));
        }
      }
    }
    (None, None) => {}
    _ => return fail("neutral", format!("AsShotNeutral {got:?}, expected {:?}", t.neutral)),
  }
  judge_matrices(t, root)?;
  let s = |tag: u16| root.get(tag).and_then(|e| e.str()).unwrap_or_default();
  if s(271) != t.make || s(272) != t.model {
    return fail("names", format!("Make/Model '{}'/'{}', expected '{}'/'{}'", s(271), s(272), t.make, t.model));
  }
  if s(50708) != format!("{} {}", t.make, t.model) {
    return fail("names", format!("UniqueCameraModel '{}'", s(50708)));
  }
  if let Some(o) = t.orientation {
    if root.u(274) != Some(o as u32) {
      return fail("orientation", format!("Orientation {:?}, expected {o}", root.u(274)));
    }
  }
  Ok(())
}

fn judge_matrices(t: &Truth, root: &Dir) -> R {
  let mut got: Vec<(u16, Vec<f64>)> = vec![];
  for i in 0..3u16 {
    let mt = [50721u16, 50722, 52531][i as usize];
    let ct = [50778u16, 50779, 52529][i as usize];
    if let Some(m) = root.get(mt) {
      got.push((root.u(ct).unwrap_or(0) as u16, m.nums()));
      if i > 0 && got.len() < 2 {
        return fail("matrix", "ColorMatrix2 without ColorMatrix1".into());
      }
    } else if root.get(ct).is_some() {
      return fail("matrix", format!("CalibrationIlluminant{} without matrix", i + 1));
    }
  }
  for (ill, m) in &got {
    match t.matrices.iter().find(|x| x.0 == *ill) {
      None => return fail("matrix", format!("file has a matrix for illuminant {ill}, image has {:?}", t.matrices.iter().map(|x| x.0).collect::<Vec<_>>())),
      Some((_, w)) => {
        if w.len() != m.len() || w.iter().zip(m).any(|(a, b)| (a - b).abs() > 1.01e-4) {
          return fail("matrix", format!("illuminant {ill}: matrix {m:?}, expected {w:?}"));
        }
      }
    }
  }
  let want = t.matrices.len().min(2);
  // A and D65/D50 must both survive; other single illuminants must survive too
  if t.matrices.len() <= 1 && got.len() != want {
    return fail("matrix", format!("{} matrices written, image has {}", got.len(), t.matrices.len()));
  }
  if t.matrices.len() == 2 && t.matrices.iter().any(|m| m.0 == 17) && t.matrices.iter().any(|m| m.0 == 21 || m.0 == 23) && got.len() != 2 {
    return fail("matrix", format!("only {} of 2 matrices written", got.len()));
  }
  if got.len() == 2 && got[0].0 == got[1].0 {
    return fail("matrix", "the same illuminant twice".into());
  }
  Ok(())
}

/// Judge an image read by rawler from a file with ground truth `t`.
pub fn judge_image(t: &Truth, img: &RawImage, area_exact: bool) -> R {
  if (img.width, img.height, img.cpp) != (t.w, t.h, t.cpp) {
    return fail("read-dims", format!("{}x{}x{}", img.width, img.height, img.cpp));
  }
  let full = Rect::new(Point::zero(), Dim2::new(t.w, t.h));
  let (ga, wa) = (img.active_area.unwrap_or(full), t.active.unwrap_or(full));
  if rect_s(ga) != rect_s(wa) {
    return fail("read-active", format!("active area {:?}, expected {:?}", rect_s(ga), rect_s(wa)));
  }
  let (gc, wc) = (img.crop_area.unwrap_or(ga), t.crop.unwrap_or(wa));
  if rect_s(gc) != rect_s(wc) {
    return fail("read-crop", format!("crop {:?}, expected {:?}", rect_s(gc), rect_s(wc)));
  }
  let _ = area_exact;
  match (&img.photometric, t.photometric) {
    (RawPhotometricInterpretation::BlackIsZero, 1) | (RawPhotometricInterpretation::LinearRaw, 34892) => {}
    (RawPhotometricInterpretation::Cfa(c), 32803) => {
      let (pw, ph, pat) = t.cfa.as_ref().unwrap();
      for y in 0..t.h.min(14) {
        for x in 0..t.w.min(14) {
          let want = pat[(y % ph) * pw + x % pw] as usize;
          if c.cfa.color_at(y, x) != want || img.camera.cfa.color_at(y, x) != want {
            return fail("read-cfa", format!("photosite ({x},{y}) read as colour {}, expected {want} ({})", c.cfa.color_at(y, x), c.cfa));
          }
        }
      }
    }
    _ => return fail("read-photometric", format!("{:?}", t.photometric)),
  }
  let b = &img.blacklevel;
  if b.levels.len() != b.width * b.height * b.cpp || b.cpp != t.cpp {
    return fail("read-black", format!("black level dims {}x{}x{} with {} values", b.width, b.height, b.cpp, b.levels.len()));
  }
  for y in 0..t.h.min(14) {
    for x in 0..t.w.min(14) {
      for k in 0..t.cpp {
        let r = b.levels[((y % b.height) * b.width + x % b.width) * b.cpp + k];
        let got = r.n as f64 / r.d as f64;
        let want = lvl(&t.black, t.cpp, x, y, k);
        if got != want {
          return fail("read-black", format!("photosite ({x},{y}) plane {k}: black level {got}, expected {want}"));
        }
      }
    }
  }
  if img.whitelevel.0 != t.white {
    return fail("read-white", format!("white level {:?}, expected {:?}", img.whitelevel.0, t.white));
  }
  if let Some(n) = &t.neutral {
    for (i, w) in n.iter().enumerate() {
      let got = img.wb_coeffs[i] as f64;
      if !(got * w > 0.9995 && got * w < 1.0005) {
        return fail("read-wb", format!("wb coefficients {:?}, neutral is {n:?}", img.wb_coeffs));
      }
    }
  }
  for (ill, m) in &t.matrices {
    let Ok(i) = Illuminant::try_from(*ill) else { continue };
    match img.color_matrix.get(&i) {
      None => return fail("read-matrix", format!("no matrix for illuminant {ill}")),
      Some(g) => {
        if g.len() != m.len() || g.iter().zip(m).any(|(a, b)| (*a as f64 - b).abs() > 1.02e-4) {
          return fail("read-matrix", format!("illuminant {ill}: {g:?}, expected {m:?}"));
        }
      }
    }
  }
  if img.color_matrix.len() != t.matrices.len() {
    return fail("read-matrix", format!("{} matrices read, file has {}", img.color_matrix.len(), t.matrices.len()));
  }
  if let Some(o) = t.orientation {
    if img.orientation.to_u16() != o {
      return fail("read-orientation", format!("orientation {}, expected {o}", img.orientation.to_u16()));
    }
  }
  if img.clean_make != t.make || img.clean_model != t.model {
    return fail("read-names", format!("{}/{}", img.clean_make, img.clean_model));
  }
  Ok(())
}

fn bad(e: (String, String), desc: &str) -> Verdict {
  Verdict::Bad(e.0, format!("{desc}: {}", e.1))
}

fn writer_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let (mut img, desc) = raw_image(r, &GenOpt { big: false, ..Default::default() });
  // other illuminants than A / D65
  if !img.color_matrix.is_empty() && r.chance(1, 3) {
    let n = img.color_matrix.values().next().unwrap().len();
    let set: &[Illuminant] = *r.pick(&[&[Illuminant::D50][..], &[Illuminant::A, Illuminant::D50], &[Illuminant::D55], &[Illuminant::Flash], &[Illuminant::B]]);
    img.color_matrix.clear();
    for i in set {
      img.color_matrix.insert(*i, (0..n).map(|_| (r.range(0, 30000) as f32 - 15000.0) / 10000.0).collect());
    }
  }
  let crop = *r.pick(&crop_modes());
  let comp = if r.bool() { DngCompression::Uncompressed } else { DngCompression::Lossless };
  let pred = r.range(1, 7) as u8;
  let on_root = r.bool();
  let desc = format!("{desc} crop={crop:?} comp={comp:?} root={on_root}");
  let t = truth_from_image(&img);
  let bytes = match write_dng(&img, crop, comp, pred, on_root) {
    Ok(b) => b,
    Err(e) => return Verdict::Bad("writer-error".into(), format!("{desc}: {e}")),
  };
  let tiff = match Tiff::parse(&bytes) {
    Ok(t) => t,
    Err(e) => return Verdict::Bad("unparsable".into(), format!("{desc}: {e}")),
  };
  let Some(d) = tiff.raw_dir() else { return Verdict::Bad("no-raw-ifd".into(), desc) };
  if let Err(e) = judge_file(&t, crop, &tiff, d) {
    return bad(e, &desc);
  }
  ctx.count("photosites.judged", (t.w.min(14) * t.h.min(14)) as u64);
  // read back
  let back = match decode(&bytes) {
    Ok(i) => i,
    Err(e) => return Verdict::Bad("own-decoder-rejects".into(), format!("{desc}: {e}")),
  };
  let mut t2 = t;
  match crop {
    CropMode::None => {
      t2.active = None;
      t2.crop = None;
    }
    CropMode::ActiveArea => t2.crop = t2.active,
    CropMode::Best => {}
  }
  if let Err(e) = judge_image(&t2, &back, false) {
    return bad(e, &desc);
  }
  ctx.sample(json!({"stage": "writer", "case": desc}));
  Verdict::Held(hash_bytes(desc.as_bytes()) ^ hash_bytes(&bytes))
}

fn convert_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = gen_src(r, &SrcOpt { big: false, ..Default::default() });
  let t = truth_from_src(&s);
  let desc = s.desc.clone();
  let img = match decode(&s.bytes) {
    Ok(i) => i,
    Err(e) => return Verdict::Bad("source-rejected".into(), format!("{desc}: {e}")),
  };
  if let Err(e) = judge_image(&t, &img, true) {
    return bad(e, &desc);
  }
  let p = params(r);
  let desc = format!("{desc} -> {:?} {:?} emb={} thumb={} prev={}", p.compression, p.crop, p.embedded, p.thumbnail, p.preview);
  let out = match convert(&s.bytes, "x.dng", &p) {
    Ok(o) => o,
    Err(e) => return Verdict::Bad("convert-error".into(), format!("{desc}: {e}")),
  };
  let tiff = match Tiff::parse(&out) {
    Ok(t) => t,
    Err(e) => return Verdict::Bad("unparsable".into(), format!("{desc}: {e}")),
  };
  let Some(d) = tiff.raw_dir() else { return Verdict::Bad("no-raw-ifd".into(), desc) };
  if let Err(e) = judge_file(&t, p.crop, &tiff, d) {
    return bad(e, &desc);
  }
  ctx.count("photosites.judged", (t.w.min(14) * t.h.min(14)) as u64);
  ctx.sample(json!({"stage": "convert", "case": desc}));
  Verdict::Held(hash_bytes(desc.as_bytes()))
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases("writer", ctx.n(6000, 90000), |r, _| writer_case(&ctx, r));
  ctx.cases("convert", ctx.n(5000, 70000), |r, _| convert_case(&ctx, r));
  ctx.finish(
    "exploration",
    "one evaluation = one image written/converted to DNG whose geometry, CFA phase, black/white level, neutral, colour matrix and naming tags are resolved photosite by photosite by an independent DNG reader and compared with the ground truth, then read back by rawler",
    &["dimensions below 65536", "neutral compared to 2e-5, matrices to 1e-4 (stored precision)", "up to two colour matrices"],
  )
}
