//! C08: shooting metadata and DNG specific tags survive conversion and development.
use crate::ctx::{Ctx, Verdict, hash_bytes};
use crate::gen_dng::{SrcOpt, gen_src};
use crate::gen_img::{GenOpt, Photo, raw_image};
use crate::reftiff::{BO, Dir, Ent, Tiff, WDir, WEnt, type_size};
use crate::rng::Rng;
use crate::util::*;
use rawler::decoders::{RawDecodeParams, RawMetadata};
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DNG_VERSION_V1_4, DngCompression, DngPhotometricConversion};
use rawler::exif::{Exif, ExifGPS};
use rawler::formats::tiff::{Rational, SRational};
use rawler::imgop::develop::{ProcessingStep, RawDevelop};
use rawler::rawsource::RawSource;
use serde_json::json;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
  A,          // text
  Date,       // 20 byte date
  R(usize),   // rationals
  SR(usize),  // signed rationals
  S(usize),   // shorts
  SS,         // signed shorts, 1-2
  L(usize),   // longs
  B(usize),   // bytes
  Bn,         // bytes, any number
  U,          // undefined, any number
  F,          // floats, any number
  D,          // doubles, any number
}

pub const EXIF: &[(u16, K)] = &[
  (0x829a, K::R(1)),
  (0x829d, K::R(1)),
  (0x8822, K::S(1)),
  (0x8827, K::S(1)),
  (0x882a, K::SS),
  (0x8830, K::S(1)),
  (0x8832, K::L(1)),
  (0x8833, K::L(1)),
  (0x9003, K::Date),
  (0x9004, K::Date),
  (0x9010, K::A),
  (0x9011, K::A),
  (0x9012, K::A),
  (0x9201, K::SR(1)),
  (0x9202, K::R(1)),
  (0x9203, K::SR(1)),
  (0x9204, K::SR(1)),
  (0x9205, K::R(1)),
  (0x9206, K::R(1)),
  (0x9207, K::S(1)),
  (0x9208, K::S(1)),
  (0x9209, K::S(1)),
  (0x920a, K::R(1)),
  (0x920b, K::R(1)),
  (0x9211, K::L(1)),
  (0x9290, K::A),
  (0x9291, K::A),
  (0x9292, K::A),
  (0xa001, K::S(1)),
  (0xa402, K::S(1)),
  (0xa403, K::S(1)),
  (0xa406, K::S(1)),
  (0xa40c, K::S(1)),
  (0xa430, K::A),
  (0xa431, K::A),
  (0xa435, K::A),
];

const GPS: &[(u16, K)] = &[
  (0, K::B(4)),
  (1, K::A),
  (2, K::R(3)),
  (3, K::A),
  (4, K::R(3)),
  (5, K::B(1)),
  (6, K::R(1)),
  (7, K::R(3)),
  (8, K::A),
  (9, K::A),
  (10, K::A),
  (11, K::R(1)),
  (12, K::A),
  (13, K::R(1)),
  (14, K::A),
  (15, K::R(1)),
  (16, K::A),
  (17, K::R(1)),
  (18, K::A),
  (19, K::A),
  (20, K::R(3)),
  (21, K::A),
  (22, K::R(3)),
  (23, K::A),
  (24, K::R(1)),
  (25, K::A),
  (26, K::R(1)),
  (27, K::U),
  (28, K::U),
  (29, K::A),
  (30, K::S(1)),
  (31, K::R(1)),
];

const DNGROOT: &[(u16, K)] = &[
  (50941, K::L(1)),  // ProfileEmbedPolicy
  (50937, K::L(3)),  // ProfileHueSatMapDims
  (51107, K::L(1)),  // ProfileHueSatMapEncoding
  (50981, K::L(3)),  // ProfileLookTableDims
  (50982, K::F),     // ProfileLookTableData
  (51108, K::L(1)),  // ProfileLookTableEncoding
  (50936, K::A),     // ProfileName
  (50942, K::A),     // ProfileCopyright
  (50940, K::F),     // ProfileToneCurve
  (50740, K::Bn),    // DNGPrivateData
  (50741, K::S(1)),  // MakerNoteSafety
  (50727, K::R(3)),  // AnalogBalance
  (50730, K::SR(1)), // BaselineExposure
  (50731, K::R(1)),  // BaselineNoise
  (50732, K::R(1)),  // BaselineSharpness
  (50734, K::R(1)),  // LinearResponseLimit
  (50735, K::A),     // CameraSerialNumber
  (50831, K::U),     // AsShotICCProfile
  (50832, K::SR(9)), // AsShotPreProfileMatrix
  (50833, K::U),     // CurrentICCProfile
  (50834, K::SR(9)), // CurrentPreProfileMatrix
  (50934, K::A),     // AsShotProfileName
  (51110, K::L(1)),  // DefaultBlackRender
  (51109, K::SR(1)), // BaselineExposureOffset
  (51177, K::S(1)),  // DepthFormat
  (51178, K::R(1)),
  (51179, K::R(1)),
  (51180, K::S(1)),
  (51181, K::S(1)),
  (52543, K::U),     // RGBTables
  (51043, K::Bn),    // TimeCodes
  (51044, K::SR(1)), // FrameRate
  (51058, K::R(1)),  // TStop
];

const DNGRAW: &[(u16, K)] = &[
  (51008, K::U),
  (51009, K::U),
  (51022, K::U),
  (51041, K::D),
  (50733, K::L(1)),
  (50737, K::R(1)),
  (50738, K::R(1)),
  (50935, K::R(1)),
  (52525, K::U),
];

fn text(r: &mut Rng) -> String {
  let n = *r.pick(&[0usize, 1, 2, 3, 4, 5, 7, 12, 31, 60, 300]);
  let uni = r.chance(1, 6);
  let s: String = (0..n)
    .map(|_| if uni && r.chance(1, 3) { *r.pick(&['ä', 'ß', '€', '日', '☃']) } else { r.range(33, 126) as u8 as char })
    .collect();
  // inner blanks only: outer ones may be trimmed
  let mut c: Vec<char> = s.chars().collect();
  if c.len() > 4 && r.bool() {
    let k = r.range(1, c.len() - 2);
    c[k] = ' ';
  }
  c.into_iter().collect()
}

fn u32v(r: &mut Rng) -> u32 {
  match r.range(0, 5) {
    0 => 0,
    1 => u32::MAX,
    2 => 1 << 31,
    3 => r.range(0, 300) as u32,
    4 => r.range(0, 70000) as u32,
    _ => r.u32(),
  }
}

fn date(r: &mut Rng) -> String {
  format!(
    "{:04}:{:02}:{:02} {:02}:{:02}:{:02}",
    r.range(1985, 2037),
    r.range(1, 12),
    r.range(1, 28),
    r.range(0, 23),
    r.range(0, 59),
    r.range(0, 59)
  )
}

fn value(r: &mut Rng, bo: BO, tag: u16, k: K) -> WEnt {
  let many = |r: &mut Rng| match r.range(0, 4) {
    0 => r.range(1, 4),
    1 => r.range(1, 9),
    4 => r.range(200, 3000),
    _ => r.range(5, 80),
  };
  let e4 = |x: u32| if bo.0 { x.to_be_bytes() } else { x.to_le_bytes() };
  let e8 = |x: u64| if bo.0 { x.to_be_bytes() } else { x.to_le_bytes() };
  match k {
    K::A => bo.ascii(tag, &text(r)),
    K::Date => bo.ascii(tag, &date(r)),
    K::R(n) => bo.rats(tag, &(0..n).map(|_| (u32v(r), u32v(r))).collect::<Vec<_>>()),
    K::SR(n) => bo.srats(tag, &(0..n).map(|_| (u32v(r) as i32, u32v(r) as i32)).collect::<Vec<_>>()),
    K::S(n) => bo.u16s(tag, &(0..n).map(|_| u32v(r) as u16).collect::<Vec<_>>()),
    K::SS => {
      let n = r.range(1, 2);
      let mut e = bo.u16s(tag, &(0..n).map(|_| (r.range(0, 24) as i16 - 12) as u16).collect::<Vec<_>>());
      e.typ = 8;
      e
    }
    K::L(n) => bo.u32s(tag, &(0..n).map(|_| u32v(r)).collect::<Vec<_>>()),
    K::B(n) => bo.bytes(tag, &r.bytes(n)),
    K::Bn => {
      let n = many(r);
      bo.bytes(tag, &r.bytes(n))
    }
    K::U => {
      let n = many(r);
      bo.undef(tag, &r.bytes(n))
    }
    K::F => {
      let n = many(r);
      WEnt { tag, typ: 11, count: n as u32, data: (0..n).flat_map(|_| e4((r.f32() * 8.0 - 4.0).to_bits())).collect() }
    }
    K::D => {
      let n = many(r);
      WEnt { tag, typ: 12, count: n as u32, data: (0..n).flat_map(|_| e8((r.f32() as f64 * 1e-3 - 1e-5).to_bits())).collect() }
    }
  }
}

/// canonical content: (type, count, big endian bytes); texts are reduced to the trimmed string
pub fn canon(typ: u16, count: u32, data: &[u8], be: bool) -> (u16, u32, Vec<u8>) {
  if typ == 2 {
    let end = data.iter().position(|b| *b == 0).unwrap_or(data.len());
    let s = String::from_utf8_lossy(&data[..end]).trim().to_string();
    return (2, s.len() as u32 + 1, s.into_bytes());
  }
  let sz = match typ {
    5 | 10 => 4,
    t => type_size(t).unwrap_or(1),
  };
  let mut d = data.to_vec();
  if !be {
    for c in d.chunks_mut(sz) {
      c.reverse();
    }
  }
  (typ, count, d)
}

pub fn same(want: &WEnt, be: bool, got: Option<&Ent>) -> Result<(), String> {
  let Some(g) = got else { return Err("missing".into()) };
  let a = canon(want.typ, want.count, &want.data, be);
  let b = canon(g.typ, g.count, &g.data, g.be);
  if a == b {
    return Ok(());
  }
  let cut = |x: &[u8]| x.iter().take(40).copied().collect::<Vec<_>>();
  Err(format!("source type {} count {} {:?}, output type {} count {} {:?}", a.0, a.1, cut(&a.2), b.0, b.1, cut(&b.2)))
}

pub struct Meta {
  pub root: Vec<WEnt>,
  pub raw: Vec<WEnt>,
  pub exif: Option<WDir>,
  pub gps: Option<WDir>,
}

pub fn gen_meta(r: &mut Rng, be: bool) -> Meta {
  let bo = BO(be);
  let p = *r.pick(&[1u64, 3, 6, 10]);
  let mut pick = |r: &mut Rng, t: &[(u16, K)]| -> Vec<WEnt> {
    let mut v = vec![];
    for (tag, k) in t {
      if r.chance(p, 10) {
        v.push(value(r, bo, *tag, *k));
      }
    }
    v
  };
  let mut root = pick(r, DNGROOT);
  for t in [33432u16, 315] {
    if r.bool() {
      root.push(bo.ascii(t, &text(r)));
    }
  }
  if r.bool() {
    root.push(bo.ascii(306, &date(r)));
  }
  let raw = pick(r, DNGRAW);
  let dir = |v: Vec<WEnt>| {
    (!v.is_empty()).then(|| {
      let mut d = WDir::default();
      for e in v {
        d.put(e);
      }
      d
    })
  };
  let exif = dir(pick(r, EXIF));
  let gps = dir(pick(r, GPS));
  Meta { root, raw, exif, gps }
}

fn sub<'a>(d: &'a Dir, tag: u16) -> Option<&'a Dir> {
  d.subs.get(&tag).and_then(|v| v.first())
}

pub fn check_dirs(m: &Meta, be: bool, root: &Dir) -> Result<u64, (String, String)> {
  let mut n = 0;
  for (what, ptr, src) in [("exif", 0x8769u16, &m.exif), ("gps", 0x8825, &m.gps)] {
    if let Some(src) = src {
      let out = sub(root, ptr);
      for e in &src.ents {
        n += 1;
        if let Err(x) = same(e, be, out.and_then(|d| d.get(e.tag))) {
          return Err((format!("{what}-tag-{:#06x}", e.tag), format!("{what} tag {:#06x}: {x}", e.tag)));
        }
      }
      // nothing made up
      let known: &[(u16, K)] = if what == "exif" { EXIF } else { GPS };
      if let Some(d) = out {
        for (t, _) in known {
          if d.get(*t).is_some() && !src.ents.iter().any(|e| e.tag == *t) {
            return Err((format!("{what}-extra-{t:#06x}"), format!("{what} tag {t:#06x} appears in the output but not in the source")));
          }
        }
      }
    } else if what == "gps" && sub(root, ptr).is_some() {
      return Err(("gps-made-up".into(), "output has a GPS IFD, source has none".into()));
    }
  }
  Ok(n)
}

pub fn setup(r: &mut Rng) -> (Meta, crate::gen_dng::Src) {
  let be = r.bool();
  let m = gen_meta(r, be);
  let src = gen_src(
    r,
    &SrcOpt {
      big: false,
      be: Some(be),
      extra_root: m.root.clone(),
      extra_raw: m.raw.clone(),
      exif: m.exif.clone(),
      gps: m.gps.clone(),
      ..Default::default()
    },
  );
  (m, src)
}

fn convert_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let (m, src) = setup(r);
  let mut p = params(r);
  p.preview = false;
  if r.chance(1, 3) {
    p.artist = Some(text(r));
  }
  p.software = if r.bool() { "DNGLab".into() } else { text(r) };
  let t0 = std::time::SystemTime::now();
  let out = match convert(&src.bytes, "in.dng", &p) {
    Ok(o) => o,
    Err(e) => return Verdict::Bad("convert-error".into(), format!("{e} ({})", src.desc)),
  };
  let t = match Tiff::parse(&out) {
    Ok(t) => t,
    Err(e) => return Verdict::Bad("unparsable".into(), e),
  };
  let root = &t.dirs[0];
  let bad = |s: String, d: String| Verdict::Bad(s, format!("{d} (thumb={} {})", p.thumbnail, src.desc));
  let mut n = match check_dirs(&m, src.be, root) {
    Ok(n) => n,
    Err((s, d)) => return bad(s, d),
  };
  for e in &m.root {
    let want = match e.tag {
      306 => continue,
      315 if p.artist.is_some() => BO(src.be).ascii(315, p.artist.as_deref().unwrap()),
      _ => e.clone(),
    };
    n += 1;
    if let Err(x) = same(&want, src.be, root.get(e.tag)) {
      return bad(format!("root-tag-{}", e.tag), format!("root tag {}: {x}", e.tag));
    }
  }
  if let Some(a) = &p.artist {
    if root.get(315).and_then(|e| e.str()).as_deref() != Some(a.as_str()) {
      return bad("artist-override".into(), format!("artist {:?} expected {a:?}", root.get(315).and_then(|e| e.str())));
    }
  } else if root.get(315).is_some() && !m.root.iter().any(|e| e.tag == 315) {
    return bad("artist-made-up".into(), "no artist in the source".into());
  }
  if root.get(305).and_then(|e| e.str()).as_deref() != Some(p.software.as_str()) {
    return bad("software".into(), format!("{:?} expected {:?}", root.get(305).and_then(|e| e.str()), p.software));
  }
  if root.u(274) != Some(src.orientation as u32) {
    return bad("orientation".into(), format!("{:?} expected {}", root.u(274), src.orientation));
  }
  let Some(raw) = t.raw_dir() else { return bad("no-raw".into(), "no raw IFD".into()) };
  for e in &m.raw {
    n += 1;
    if let Err(x) = same(e, src.be, raw.get(e.tag)) {
      return bad(format!("raw-tag-{}", e.tag), format!("raw IFD tag {}: {x}", e.tag));
    }
  }
  // DNG DateTime is the conversion time
  let dt = root.get(306).and_then(|e| e.str()).unwrap_or_default();
  let ok = chrono::NaiveDateTime::parse_from_str(&dt, "%Y:%m:%d %H:%M:%S").ok().map(|d| {
    let lo: chrono::DateTime<chrono::Local> = t0.into();
    let hi = chrono::Local::now();
    let (lo, hi) = (lo.naive_local(), hi.naive_local());
    d + chrono::Duration::seconds(2) >= lo && d <= hi + chrono::Duration::seconds(2)
  });
  if ok != Some(true) {
    return bad("modify-date".into(), format!("DateTime {dt:?} is not the time of conversion"));
  }
  ctx.count("tags_compared", n);
  ctx.sample(json!({"stage": "convert", "tags": n, "src": src.desc}));
  Verdict::Held(hash_bytes(&src.bytes))
}

fn develop_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let (m, src) = setup(r);
  let rs = RawSource::new_from_slice(&src.bytes);
  let dp = RawDecodeParams::default();
  let dec = match rawler::get_decoder(&rs) {
    Ok(d) => d,
    Err(e) => return Verdict::Bad("decoder".into(), format!("{e:?}")),
  };
  let (img, md) = match (dec.raw_image(&rs, &dp, false), dec.raw_metadata(&rs, &dp)) {
    (Ok(i), Ok(m)) => (i, m),
    (a, b) => return Verdict::Bad("decode".into(), format!("{:?} {:?}", a.err(), b.err())),
  };
  let mut buf = Cursor::new(vec![]);
  let dev = RawDevelop { steps: vec![ProcessingStep::CropActiveArea] };
  if let Err(e) = dev.develop(&img, &md, &mut buf) {
    return Verdict::Bad("develop".into(), format!("{e:?} ({})", src.desc));
  }
  let out = buf.into_inner();
  let t = match Tiff::parse(&out) {
    Ok(t) => t,
    Err(e) => return Verdict::Bad("unparsable".into(), e),
  };
  let root = &t.dirs[0];
  let n = match check_dirs(&m, src.be, root) {
    Ok(n) => n,
    Err((s, d)) => return Verdict::Bad(format!("tiff-{s}"), format!("developed TIFF: {d} ({})", src.desc)),
  };
  for e in m.root.iter().filter(|e| [306, 315, 33432].contains(&e.tag)) {
    if let Err(x) = same(e, src.be, root.get(e.tag)) {
      return Verdict::Bad(format!("tiff-root-{}", e.tag), format!("developed TIFF: root tag {}: {x} ({})", e.tag, src.desc));
    }
  }
  if root.u(274) != Some(src.orientation as u32) {
    return Verdict::Bad("tiff-orientation".into(), format!("{:?} expected {} ({})", root.u(274), src.orientation, src.desc));
  }
  for (tag, want) in [(271u16, &src.make), (272, &src.model)] {
    if root.get(tag).and_then(|e| e.str()).as_ref() != Some(want) {
      return Verdict::Bad("tiff-camera".into(), format!("tag {tag}: {:?} expected {want:?}", root.get(tag).and_then(|e| e.str())));
    }
  }
  ctx.count("tags_compared", n);
  Verdict::Held(hash_bytes(&src.bytes))
}

/// metadata as camera decoders hand it over (incl. lens and unique id), written by DngWriter
fn writer_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  fn o<T>(r: &mut Rng, p: u64, f: impl FnOnce(&mut Rng) -> T) -> Option<T> {
    if r.chance(p, 10) { Some(f(r)) } else { None }
  }
  let rat = |r: &mut Rng| Rational { n: u32v(r), d: u32v(r) };
  let srat = |r: &mut Rng| SRational { n: u32v(r) as i32, d: u32v(r) as i32 };
  let p = *r.pick(&[1u64, 5, 9, 10]);
  let mut want: Vec<(u8, u16, WEnt)> = vec![]; // (0 root, 1 exif, 2 gps)
  let bo = BO(true);
  let wr = |v: &[Rational]| v.iter().map(|x| (x.n, x.d)).collect::<Vec<_>>();
  let mut e = Exif::default();
  macro_rules! f {
    ($fld:ident, $place:expr, $tag:expr, $gen:expr, $enc:expr) => {
      e.$fld = o(r, p, $gen);
      if let Some(v) = &e.$fld {
        want.push(($place, $tag, $enc(v)));
      }
    };
  }
  let sh = |t: u16| move |v: &u16| bo.u16s(t, &[*v]);
  let lo = |t: u16| move |v: &u32| bo.u32s(t, &[*v]);
  let ra = |t: u16| move |v: &Rational| bo.rats(t, &[(v.n, v.d)]);
  let sr = |t: u16| move |v: &SRational| bo.srats(t, &[(v.n, v.d)]);
  let st = |t: u16| move |v: &String| bo.ascii(t, v);
  f!(orientation, 0, 274, |r: &mut Rng| r.range(1, 8) as u16, sh(274));
  f!(copyright, 0, 33432, text, st(33432));
  f!(artist, 0, 315, text, st(315));
  f!(modify_date, 0, 306, date, st(306));
  f!(lens_spec, 1, 0xa432, |r: &mut Rng| [rat(r), rat(r), rat(r), rat(r)], |v: &[Rational; 4]| bo.rats(0xa432, &wr(v)));
  f!(exposure_time, 1, 0x829a, rat, ra(0x829a));
  f!(fnumber, 1, 0x829d, rat, ra(0x829d));
  f!(aperture_value, 1, 0x9202, rat, ra(0x9202));
  f!(brightness_value, 1, 0x9203, srat, sr(0x9203));
  f!(iso_speed_ratings, 1, 0x8827, |r: &mut Rng| r.u16(), sh(0x8827));
  f!(iso_speed, 1, 0x8833, u32v, lo(0x8833));
  f!(recommended_exposure_index, 1, 0x8832, u32v, lo(0x8832));
  f!(sensitivity_type, 1, 0x8830, |r: &mut Rng| r.u16(), sh(0x8830));
  f!(exposure_bias, 1, 0x9204, srat, sr(0x9204));
  f!(date_time_original, 1, 0x9003, date, st(0x9003));
  f!(create_date, 1, 0x9004, date, st(0x9004));
  f!(exposure_program, 1, 0x8822, |r: &mut Rng| r.u16(), sh(0x8822));
  f!(timezone_offset, 1, 0x882a, |r: &mut Rng| vec![r.range(0, 20) as i16 - 10; r.range(1, 2)], |v: &Vec<i16>| {
    let mut w = bo.u16s(0x882a, &v.iter().map(|x| *x as u16).collect::<Vec<_>>());
    w.typ = 8;
    w
  });
  f!(offset_time, 1, 0x9010, text, st(0x9010));
  f!(offset_time_original, 1, 0x9011, text, st(0x9011));
  f!(offset_time_digitized, 1, 0x9012, text, st(0x9012));
  f!(sub_sec_time, 1, 0x9290, text, st(0x9290));
  f!(sub_sec_time_original, 1, 0x9291, text, st(0x9291));
  f!(sub_sec_time_digitized, 1, 0x9292, text, st(0x9292));
  f!(shutter_speed_value, 1, 0x9201, srat, sr(0x9201));
  f!(max_aperture_value, 1, 0x9205, rat, ra(0x9205));
  f!(subject_distance, 1, 0x9206, rat, ra(0x9206));
  f!(metering_mode, 1, 0x9207, |r: &mut Rng| r.u16(), sh(0x9207));
  f!(light_source, 1, 0x9208, |r: &mut Rng| r.u16(), sh(0x9208));
  f!(flash, 1, 0x9209, |r: &mut Rng| r.u16(), sh(0x9209));
  f!(focal_length, 1, 0x920a, rat, ra(0x920a));
  f!(image_number, 1, 0x9211, u32v, lo(0x9211));
  f!(color_space, 1, 0xa001, |r: &mut Rng| r.u16(), sh(0xa001));
  f!(flash_energy, 1, 0x920b, rat, ra(0x920b));
  f!(exposure_mode, 1, 0xa402, |r: &mut Rng| r.u16(), sh(0xa402));
  f!(white_balance, 1, 0xa403, |r: &mut Rng| r.u16(), sh(0xa403));
  f!(scene_capture_type, 1, 0xa406, |r: &mut Rng| r.u16(), sh(0xa406));
  f!(subject_distance_range, 1, 0xa40c, |r: &mut Rng| r.u16(), sh(0xa40c));
  f!(owner_name, 1, 0xa430, text, st(0xa430));
  f!(serial_number, 1, 0xa431, text, st(0xa431));
  f!(lens_serial_number, 1, 0xa435, text, st(0xa435));
  f!(lens_make, 1, 0xa433, text, st(0xa433));
  f!(lens_model, 1, 0xa434, text, st(0xa434));
  f!(user_comment, 1, 0x9286, text, st(0x9286));
  if let Some(l) = &e.lens_spec {
    want.push((0, 50736, bo.rats(50736, &wr(l))));
  }
  let mut g = ExifGPS::default();
  macro_rules! gp {
    ($fld:ident, $tag:expr, $gen:expr, $enc:expr) => {
      g.$fld = o(r, p, $gen);
      if let Some(v) = &g.$fld {
        want.push((2, $tag, $enc(v)));
      }
    };
  }
  let r3 = |r: &mut Rng| [rat(r), rat(r), rat(r)];
  let e3 = |t: u16| move |v: &[Rational; 3]| bo.rats(t, &[(v[0].n, v[0].d), (v[1].n, v[1].d), (v[2].n, v[2].d)]);
  let has_gps = r.chance(3, 4);
  let first_gps = want.len();
  gp!(gps_version_id, 0, |r: &mut Rng| [r.u8(), r.u8(), r.u8(), r.u8()], |v: &[u8; 4]| bo.bytes(0, v));
  gp!(gps_latitude_ref, 1, text, st(1));
  gp!(gps_latitude, 2, r3, e3(2));
  gp!(gps_longitude_ref, 3, text, st(3));
  gp!(gps_longitude, 4, r3, e3(4));
  gp!(gps_altitude_ref, 5, |r: &mut Rng| r.u8(), |v: &u8| bo.bytes(5, &[*v]));
  gp!(gps_altitude, 6, rat, ra(6));
  gp!(gps_timestamp, 7, r3, e3(7));
  gp!(gps_satellites, 8, text, st(8));
  gp!(gps_status, 9, text, st(9));
  gp!(gps_measure_mode, 10, text, st(10));
  gp!(gps_dop, 11, rat, ra(11));
  gp!(gps_speed_ref, 12, text, st(12));
  gp!(gps_speed, 13, rat, ra(13));
  gp!(gps_track_ref, 14, text, st(14));
  gp!(gps_track, 15, rat, ra(15));
  gp!(gps_img_direction_ref, 16, text, st(16));
  gp!(gps_img_direction, 17, rat, ra(17));
  gp!(gps_map_datum, 18, text, st(18));
  gp!(gps_dest_latitude_ref, 19, text, st(19));
  gp!(gps_dest_latitude, 20, r3, e3(20));
  gp!(gps_dest_longitude_ref, 21, text, st(21));
  gp!(gps_dest_longitude, 22, r3, e3(22));
  gp!(gps_dest_bearing_ref, 23, text, st(23));
  gp!(gps_dest_bearing, 24, rat, ra(24));
  gp!(gps_dest_distance_ref, 25, text, st(25));
  gp!(gps_dest_distance, 26, rat, ra(26));
  let und = |r: &mut Rng| {
    let n = r.range(1, 40);
    r.bytes(n)
  };
  gp!(gps_processing_method, 27, und, |v: &Vec<u8>| bo.undef(27, v));
  gp!(gps_area_information, 28, und, |v: &Vec<u8>| bo.undef(28, v));
  gp!(gps_date_stamp, 29, text, st(29));
  gp!(gps_differential, 30, |r: &mut Rng| r.u16(), sh(30));
  gp!(gps_h_positioning_error, 31, rat, ra(31));
  if has_gps {
    e.gps = Some(g);
  } else {
    want.truncate(first_gps);
  }
  let uid = o(r, p, |r| ((r.u64() as u128) << 64) | r.u64() as u128);
  if let Some(u) = uid {
    want.push((0, 50781, bo.bytes(50781, &u.to_le_bytes())));
  }
  let (img, desc) = raw_image(r, &GenOpt { big: false, photos: vec![Photo::Bayer, Photo::Linear3], ..Default::default() });
  let md = RawMetadata { exif: e, model: img.model.clone(), make: img.make.clone(), lens: None, unique_image_id: uid, rating: None };
  let mut buf = Cursor::new(vec![]);
  let on_root = r.bool();
  let xp = o(r, 5, und);
  let res = (|| -> Result<(), String> {
    let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
    let mut raw = if on_root { dng.subframe_on_root(0) } else { dng.subframe(0) };
    raw.raw_image(&img, CropMode::Best, DngCompression::Uncompressed, DngPhotometricConversion::Original, 1).map_err(|e| e.to_string())?;
    raw.finalize().map_err(|e| e.to_string())?;
    dng.load_base_tags(&img).map_err(|e| e.to_string())?;
    dng.load_metadata(&md).map_err(|e| e.to_string())?;
    if let Some(x) = &xp {
      dng.xpacket(x).map_err(|e| e.to_string())?;
    }
    dng.close().map_err(|e| e.to_string())
  })();
  if let Err(e) = res {
    return Verdict::Bad("write".into(), format!("{e} ({desc})"));
  }
  let out = buf.into_inner();
  let t = match Tiff::parse(&out) {
    Ok(t) => t,
    Err(e) => return Verdict::Bad("unparsable".into(), e),
  };
  let root = &t.dirs[0];
  let (ex, gps) = (sub(root, 0x8769), sub(root, 0x8825));
  for (place, tag, w) in &want {
    let got = match place {
      0 => root.get(*tag),
      1 => ex.and_then(|d| d.get(*tag)),
      _ => gps.and_then(|d| d.get(*tag)),
    };
    if let Err(x) = same(w, true, got) {
      return Verdict::Bad(format!("meta-{place}-{tag:#06x}"), format!("metadata field for tag {tag:#06x} (dir {place}): {x}"));
    }
  }
  for (place, d) in [(1u8, ex), (2, gps)] {
    for e in d.map(|d| d.ents.values().collect::<Vec<_>>()).unwrap_or_default() {
      if !want.iter().any(|w| w.0 == place && w.1 == e.tag) && !(place == 1 && e.tag == 0x9000) {
        return Verdict::Bad(format!("meta-extra-{place}-{:#06x}", e.tag), format!("tag {:#06x} written but not set", e.tag));
      }
    }
  }
  match (&xp, root.get(700)) {
    (Some(x), Some(g)) if g.data == *x => {}
    (None, None) => {}
    (x, g) => return Verdict::Bad("xpacket".into(), format!("{:?} vs {:?}", x.as_ref().map(|x| x.len()), g.map(|g| g.data.len()))),
  }
  // reading the file back restores the same metadata
  let rs = RawSource::new_from_slice(&out);
  match rawler::get_decoder(&rs).and_then(|d| d.raw_metadata(&rs, &RawDecodeParams::default())) {
    Ok(m2) => {
      let (mut a, mut b) = (md.exif.clone(), m2.exif);
      // the lens fields come from lens databases, not from the EXIF directory
      for x in [&mut a, &mut b] {
        x.lens_spec = None;
        x.lens_make = None;
        x.lens_model = None;
        if x.gps == Some(ExifGPS::default()) {
          x.gps = None;
        }
      }
      if a != b {
        let (a, b) = (serde_json::to_value(&a).unwrap_or_default(), serde_json::to_value(&b).unwrap_or_default());
        let mut d = vec![];
        if let (Some(x), Some(y)) = (a.as_object(), b.as_object()) {
          for (k, v) in x {
            if y.get(k) != Some(v) {
              d.push(format!("{k}: {v} -> {:?}", y.get(k)));
            }
          }
        }
        return Verdict::Bad("reread".into(), format!("metadata differs after reading back: {}", d.join("; ").chars().take(400).collect::<String>()));
      }
    }
    Err(e) => return Verdict::Bad("reread-error".into(), format!("{e:?}")),
  }
  ctx.count("tags_compared", want.len() as u64);
  Verdict::Held(hash_bytes(&out))
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases("convert", ctx.n(2500, 40000), |r, _| convert_case(&ctx, r));
  ctx.cases("develop", ctx.n(1200, 15000), |r, _| develop_case(&ctx, r));
  ctx.cases("writer", ctx.n(1500, 20000), |r, _| writer_case(&ctx, r));
  ctx.finish(
    "exploration",
    "one evaluation converts or develops one generated source (or writes one metadata record) and compares every EXIF, GPS, root and raw IFD tag of the listed set by type, count and content with an independent parser; distinct counts distinct sources",
    &[
      "the compared set is the tag list of the property; outer white space of texts is not compared",
      "lens tags of DNG sources, XMP of DNG sources and UNDEFINED user comments are outside the set (see DESIGN.md)",
    ],
  )
}
