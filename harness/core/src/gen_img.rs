//! Generators for synthetic raw images.
use crate::rng::Rng;
use rawler::CFA;
use rawler::cfa::PlaneColor;
use rawler::decoders::Camera;
use rawler::formats::tiff::Rational;
use rawler::imgop::xyz::Illuminant;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::rawimage::{BlackLevel, CFAConfig, RawPhotometricInterpretation, WhiteLevel};
use rawler::{RawImage, RawImageData};

pub const XTRANS: [&str; 4] = [
  "RBGBRGGGRGGBGGBGGRBRGRBGGGBGGRGGRGGB",
  "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG",
  "GBGGRGRGRBGBGBGGRGGRGGBGBGBRGRGRGGBG",
  "GRBGBRBGGRGGRGGBGGGBRGRBRGGBGGBGGRGG",
];
pub const BAYER: [&str; 4] = ["RGGB", "BGGR", "GRBG", "GBRG"];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Photo {
  Bayer,
  XTrans,
  Rgbe,
  Mono,
  Linear1,
  Linear3,
}

pub fn dim(r: &mut Rng, big: bool) -> usize {
  match r.range(0, 9) {
    0 => r.range(1, 4),
    1 | 2 => r.range(5, 40),
    3 => *r.pick(&[8, 16, 255, 256, 257, 254, 258, 99, 100, 101, 102]),
    4 | 5 | 6 => r.range(41, 200),
    7 => *r.pick(&[511, 512, 513, 514]),
    _ => {
      if big {
        r.range(200, 700)
      } else {
        r.range(20, 120)
      }
    }
  }
}

/// Sample data of a given character, all values < 2^bps
pub fn samples(r: &mut Rng, w: usize, h: usize, bps: u32) -> Vec<u16> {
  let max = ((1u32 << bps) - 1) as u16;
  let n = w * h;
  let kind = r.range(0, 9);
  let mut v = Vec::with_capacity(n);
  match kind {
    0 => v.extend((0..n).map(|_| r.u16() & max)),
    1 => {
      let c = r.u16() & max;
      v.extend(std::iter::repeat_n(c, n));
    }
    2 => v.extend((0..n).map(|_| if r.bool() { max } else { 0 })),
    3 => {
      // smooth gradient with noise
      let (ax, ay) = (r.range(0, 40) as i64, r.range(0, 40) as i64);
      let noise = r.range(1, 30) as i64;
      let base = r.range(0, max as usize) as i64;
      for y in 0..h {
        for x in 0..w {
          let s = base + ax * x as i64 + ay * y as i64 + (r.u64() % noise as u64) as i64;
          v.push((s.rem_euclid(max as i64 + 1)) as u16);
        }
      }
    }
    4 => {
      // mostly black, sparse hot pixels
      v.extend((0..n).map(|_| if r.chance(1, 40) { max - (r.u16() % 3).min(max) } else { r.u16() % 3 & max }));
    }
    5 => {
      // differences of exactly +-2^(bps-1)
      let half = ((1u32 << (bps - 1)) as u16).min(max);
      v.extend((0..n).map(|i| if (i + i / w.max(1)) % 2 == 0 { 0 } else { half }));
    }
    6 => {
      // vertical / horizontal stripes of two arbitrary levels
      let (a, b) = (r.u16() & max, r.u16() & max);
      let hor = r.bool();
      v.extend((0..n).map(|i| if (if hor { i / w.max(1) } else { i % w.max(1) }) % 2 == 0 { a } else { b }));
    }
    7 => {
      // position coded: every sample identifies its coordinate
      for y in 0..h {
        for x in 0..w {
          v.push(((x * 31 + y * 1009 + 7) as u32 & max as u32) as u16);
        }
      }
    }
    8 => {
      // bayer-like scene: per phase level + noise
      let lv: Vec<u16> = (0..4).map(|_| r.u16() & max).collect();
      for y in 0..h {
        for x in 0..w {
          let s = lv[(y % 2) * 2 + x % 2] as u32 + r.u32() % 64;
          v.push((s & max as u32) as u16);
        }
      }
    }
    _ => {
      // runs of constant value with abrupt changes
      let mut cur = 0;
      for _ in 0..n {
        if r.chance(1, 17) {
          cur = r.u16() & max;
        }
        v.push(cur);
      }
    }
  }
  v
}

#[derive(Clone)]
pub struct GenOpt {
  pub big: bool,
  pub min_bps: usize,
  pub float: bool,
  pub photos: Vec<Photo>,
  /// also 2x8 and 12x12 patterns
  pub wide_cfa: bool,
}

impl Default for GenOpt {
  fn default() -> Self {
    Self {
      big: true,
      min_bps: 8,
      float: false,
      wide_cfa: false,
      photos: vec![Photo::Bayer, Photo::Bayer, Photo::XTrans, Photo::Rgbe, Photo::Mono, Photo::Linear1, Photo::Linear3],
    }
  }
}

pub fn rect_in(r: &mut Rng, outer: Rect) -> Rect {
  let x0 = r.range(0, (outer.d.w - 1).min(23));
  let y0 = r.range(0, (outer.d.h - 1).min(23));
  let w = r.range(1, outer.d.w - x0);
  let h = r.range(1, outer.d.h - y0);
  let (w, h) = if r.bool() { (outer.d.w - x0, outer.d.h - y0) } else { (w, h) };
  Rect::new(Point::new(outer.p.x + x0, outer.p.y + y0), Dim2::new(w, h))
}

pub fn gen_cfa(r: &mut Rng, photo: Photo) -> CFA {
  match photo {
    Photo::Bayer => CFA::new(*r.pick(&BAYER)),
    Photo::XTrans => CFA::new(*r.pick(&XTRANS)),
    Photo::Rgbe => CFA::new("RGEB"),
    _ => CFA::default(),
  }
}

pub fn raw_image(r: &mut Rng, o: &GenOpt) -> (RawImage, String) {
  let photo = *r.pick(&o.photos);
  let cpp = if photo == Photo::Linear3 { 3 } else { 1 };
  let (w, h) = (dim(r, o.big), dim(r, o.big));
  let bps = *r.pick(&[16usize, 16, 14, 12, 10, 15, 13, 11, 8, 9]);
  let bps = bps.max(o.min_bps);
  let mut cam = Camera::new();
  cam.make = "Vmon".into();
  cam.model = format!("M{}", r.range(0, 99));
  cam.clean_make = cam.make.clone();
  cam.clean_model = cam.model.clone();
  cam.real_bps = bps;
  cam.cfa = gen_cfa(r, photo);
  if o.wide_cfa && photo == Photo::Bayer && r.chance(1, 6) {
    // oddball patterns: 2 wide x 8 high, 12x12
    let n = if r.bool() { 16 } else { 144 };
    let mut p: String = (0..n).map(|_| *r.pick(&['R', 'G', 'B'])).collect();
    p.replace_range(0..3, "RGB");
    cam.cfa = CFA::new(&p);
  }
  let photometric = match photo {
    Photo::Bayer | Photo::XTrans | Photo::Rgbe => {
      if photo == Photo::Rgbe {
        cam.plane_color = PlaneColor::new("RGBE");
      }
      RawPhotometricInterpretation::Cfa(CFAConfig::new(&cam.cfa, &cam.plane_color))
    }
    Photo::Mono => RawPhotometricInterpretation::BlackIsZero,
    Photo::Linear1 | Photo::Linear3 => RawPhotometricInterpretation::LinearRaw,
  };
  let nill = r.range(0, 2);
  for ill in [Illuminant::A, Illuminant::D65].iter().take(nill) {
    let n = if photo == Photo::Rgbe { 12 } else { 9 };
    cam.color_matrix.insert(*ill, (0..n).map(|_| (r.range(0, 30000) as f32 - 15000.0) / 10000.0).collect());
  }
  let s = samples(r, w * cpp, h, bps as u32);
  let data = if o.float {
    RawImageData::Float(s.iter().map(|x| *x as f32 * 0.37 + 0.001 * (x % 7) as f32).collect())
  } else {
    RawImageData::Integer(s)
  };
  let (bw, bh) = match photo {
    Photo::Bayer => *r.pick(&[(1, 1), (2, 2), (2, 2), (2, 1), (1, 2)]),
    Photo::XTrans => *r.pick(&[(1, 1), (6, 6), (2, 2)]),
    Photo::Rgbe => *r.pick(&[(1, 1), (2, 2)]),
    _ => *r.pick(&[(1, 1), (1, 1), (2, 2)]),
  };
  let n = bw * bh * cpp;
  let levels: Vec<Rational> = if r.chance(1, 3) {
    (0..n).map(|_| Rational::new(r.range(0, 4000) as u32, *r.pick(&[1u32, 2, 4, 100]))).collect()
  } else if r.chance(1, 6) {
    (0..n).map(|_| Rational::new(r.range(65000, 70000) as u32, 1)).collect()
  } else {
    (0..n).map(|_| Rational::new(r.range(0, 1023) as u32, 1)).collect()
  };
  let black = BlackLevel::new(&levels, bw, bh, cpp);
  let white = if r.chance(1, 8) {
    WhiteLevel::new((0..cpp).map(|_| r.range(65536, 200000) as u32).collect::<Vec<u32>>())
  } else {
    WhiteLevel::new((0..cpp).map(|_| r.range(1 << (bps - 1), (1 << bps) - 1) as u32).collect::<Vec<u32>>())
  };
  let wb = if r.chance(1, 8) {
    [f32::NAN; 4]
  } else {
    [0.5 + 3.0 * r.f32(), 1.0, 0.5 + 3.0 * r.f32(), 0.5 + r.f32()]
  };
  let mut img = RawImage::new_with_data(cam, data, w * cpp, h, cpp, wb, photometric, Some(black), Some(white), false);
  let full = Rect::new(Point::zero(), Dim2::new(w, h));
  if r.chance(3, 4) {
    let aa = rect_in(r, full);
    img.active_area = Some(aa);
    if r.chance(3, 4) {
      img.crop_area = Some(rect_in(r, aa));
    }
  } else if r.chance(1, 2) {
    img.crop_area = Some(rect_in(r, full));
  }
  if r.chance(1, 4) && cpp == 1 {
    img.blackareas = vec![rect_in(r, full)];
  }
  img.orientation = rawler::Orientation::from_u16(r.range(1, 8) as u16);
  let desc = format!(
    "{photo:?} {w}x{h} cpp={cpp} bps={bps} float={} active={:?} crop={:?} black={bw}x{bh} ill={nill}",
    o.float, img.active_area, img.crop_area
  );
  (img, desc)
}
