//! C11 (memory safety) and C12 (data race freedom): workloads run inside worker processes built with
//! AddressSanitizer or ThreadSanitizer; this file holds the workloads and the supervisor.
use crate::ctx::{Ctx, Verdict, guard, hash_bytes, hash_str, hash_u16};
use crate::gen_dng::{Src, SrcOpt, gen_src};
use crate::gen_img::{BAYER, Photo, XTRANS, rect_in, samples};
use crate::reftiff::Tiff;
use crate::rng::{Rng, splitmix};
use crate::util::*;
use rawler::cfa::PlaneColor;
use rawler::decoders::RawDecodeParams;
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::imgop::develop::RawDevelop;
use rawler::imgop::sensor::Demosaic;
use rawler::imgop::sensor::bayer::bilinear::Bilinear4Channel;
use rawler::imgop::sensor::bayer::ppg::PPGDemosaic;
use rawler::imgop::sensor::bayer::superpixel::{Superpixel3Channel, Superpixel4Channel};
use rawler::imgop::sensor::xtrans::bilinear::XTransBilinearDemosaic;
use rawler::imgop::{Dim2, Point, Rect};
use rawler::ljpeg92::LjpegCompressor;
use rawler::pixarray::PixF32;
use rawler::rawsource::RawSource;
use rawler::{CFA, RawImageData};
use serde_json::json;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

/// Result of one workload case: (fingerprint, operations that ended with a result, with an error, with a panic)
#[derive(Default)]
pub struct Tally {
  fp: u64,
  ok: u32,
  err: u32,
  panic: u32,
}
impl Tally {
  fn add<T>(&mut self, what: &str, f: impl FnOnce() -> Result<T, String>, fp: impl FnOnce(&T) -> u64) -> Option<T> {
    match guard(f) {
      Ok(Ok(v)) => {
        self.ok += 1;
        self.fp = self.fp.rotate_left(5) ^ fp(&v);
        Some(v)
      }
      Ok(Err(e)) => {
        self.err += 1;
        self.fp = self.fp.rotate_left(5) ^ hash_str(&e.chars().filter(|c| !c.is_ascii_digit()).collect::<String>());
        None
      }
      Err(e) => {
        self.panic += 1;
        self.fp = self.fp.rotate_left(5) ^ hash_str(&e.rsplit('[').next().unwrap_or_default()) ^ hash_str(what);
        None
      }
    }
  }
}

fn damage_bytes(r: &mut Rng, b: &mut Vec<u8>, from: usize) {
  if b.len() <= from {
    return;
  }
  match r.range(0, 6) {
    0 => {}
    1 => {
      let n = r.range(from, b.len());
      b.truncate(n);
    }
    2 => {
      for _ in 0..r.range(1, 4) {
        let i = r.range(from, b.len() - 1);
        b[i] ^= 1 << r.range(0, 7);
      }
    }
    3 => {
      for _ in 0..r.range(1, 60) {
        let i = r.range(from, b.len() - 1);
        b[i] = r.u8();
      }
    }
    4 => {
      let i = r.range(from, b.len() - 1);
      let n = r.range(1, 64).min(b.len() - i);
      let v = *r.pick(&[0u8, 0xff, 0x80, 0x7f]);
      b[i..i + n].fill(v);
    }
    5 => {
      let i = r.range(from, b.len() - 1);
      let n = r.range(1, 200).min(b.len() - i);
      b.drain(i..i + n);
    }
    _ => {
      let i = r.range(from, b.len() - 1);
      let n = r.range(1, 200);
      let x = r.bytes(n);
      let t = b.split_off(i);
      b.extend(x);
      b.extend(t);
    }
  }
}

/// Everything a user can make the library do with one file.
pub fn exercise(t: &mut Tally, bytes: &[u8], r: &mut Rng) {
  let src = RawSource::new_from_slice(bytes);
  let p = RawDecodeParams { image_index: if r.chance(1, 8) { r.range(0, 3) } else { 0 } };
  let e = |x: &dyn std::fmt::Debug| format!("{x:?}");
  let Some(dec) = t.add("decoder", || rawler::get_decoder(&src).map_err(|x| e(&x)), |_| 1) else { return };
  t.add("count", || dec.raw_image_count().map_err(|x| e(&x)), |n| *n as u64);
  t.add("meta", || dec.raw_metadata(&src, &p).map_err(|x| e(&x)), |m| hash_str(&format!("{m:?}")));
  t.add("xpacket", || dec.xpacket(&src, &p).map_err(|x| e(&x)), |m| m.as_ref().map(|v| hash_bytes(v)).unwrap_or(3));
  t.add("dummy", || dec.raw_image(&src, &p, true).map_err(|x| e(&x)), |i| (i.width * 31 + i.height) as u64);
  let img = t.add("image", || dec.raw_image(&src, &p, false).map_err(|x| e(&x)), |i| match &i.data {
    RawImageData::Integer(v) => hash_u16(v),
    RawImageData::Float(v) => v.iter().fold(7, |a, x| a ^ x.to_bits() as u64),
  });
  t.add("full", || dec.full_image(&src, &p).map_err(|x| e(&x)), |i| i.as_ref().map(|i| hash_bytes(i.as_bytes())).unwrap_or(1));
  t.add("preview", || dec.preview_image(&src, &p).map_err(|x| e(&x)), |i| i.as_ref().map(|i| hash_bytes(i.as_bytes())).unwrap_or(1));
  t.add("thumb", || dec.thumbnail_image(&src, &p).map_err(|x| e(&x)), |i| i.as_ref().map(|i| hash_bytes(i.as_bytes())).unwrap_or(1));
  if let Some(img) = img {
    if img.width * img.height <= 4_000_000 {
      t.add(
        "develop",
        || RawDevelop::default().develop_intermediate(&img).map_err(|x| e(&x)),
        |d| {
          use rawler::imgop::develop::Intermediate::*;
          match d {
            Monochrome(p) => p.data.iter().fold(7, |a, x| a ^ x.to_bits() as u64),
            ThreeColor(p) => p.data.iter().flatten().fold(7, |a, x| a ^ x.to_bits() as u64),
            FourColor(p) => p.data.iter().flatten().fold(7, |a, x| a ^ x.to_bits() as u64),
          }
        },
      );
      let cp = params(r);
      t.add("convert", || convert(bytes, "h.dng", &cp), |v| hash_bytes(v));
    }
  }
}

fn codec_case(r: &mut Rng, case: u64) -> Tally {
  let mut t = Tally::default();
  let id = (Ctx::idx(case) % 55) as u16;
  let mut b;
  let (mut w, mut h);
  match crate::p09::make(r, if [28, 32, 33, 34, 35, 47].contains(&id) { 48 } else { id }) {
    Some(c) => {
      w = c.w;
      h = c.h;
      b = c.payload;
    }
    None => {
      w = r.range(1, 64);
      h = r.range(1, 64);
      let n = r.range(0, 9000);
      b = r.bytes(n);
    }
  }
  if r.chance(2, 5) {
    w = r.range(0, 64);
    h = r.range(0, 64);
  }
  for _ in 0..r.range(0, 3) {
    damage_bytes(r, &mut b, 0);
  }
  let mut f = vec![];
  f.extend(id.to_le_bytes());
  f.extend((w as u16).to_le_bytes());
  f.extend((h as u16).to_le_bytes());
  f.extend(b);
  t.add("codec", || rawler::decode_unwrapped(&RawSource::new_from_slice(&f)).map_err(|e| e.to_string()), |d| match d {
    RawImageData::Integer(v) => hash_u16(v),
    RawImageData::Float(v) => v.len() as u64,
  });
  t.fp ^= (id as u64) << 48;
  t
}

fn crx_case(r: &mut Rng) -> Tally {
  let mut t = Tally::default();
  let s = crate::refcrx::spec(r);
  let pl = crate::refcrx::planes(r, &s);
  let Some(mut o) = crate::refcrx::build(r, &s, &pl) else { return t };
  for _ in 0..r.range(0, 2) {
    damage_bytes(r, &mut o.data, 0);
  }
  if r.chance(1, 3) {
    let i = r.range(0, o.cmp1.len() - 1);
    o.cmp1[i] = r.u8();
  }
  t.add(
    "crx",
    || {
      use rawler::formats::bmff::{BoxHeader, ReadBox, ext_cr3::cmp1::Cmp1Box};
      let mut b = ((o.cmp1.len() + 8) as u32).to_be_bytes().to_vec();
      b.extend(b"CMP1");
      b.extend(&o.cmp1);
      let mut c = std::io::Cursor::new(&b);
      let h = BoxHeader::parse(&mut c).map_err(|e| format!("{e:?}"))?;
      let cmp1 = Cmp1Box::read_box(&mut c, h).map_err(|e| format!("{e:?}"))?;
      if cmp1.f_width as u64 * cmp1.f_height as u64 > 4_000_000 {
        return Err("too big".into());
      }
      rawler::decompressors::crx::decompress_crx_image(&o.data, &cmp1).map_err(|e| format!("{e:?}"))
    },
    |v| hash_u16(v),
  );
  t
}

fn ljpeg_case(r: &mut Rng) -> Tally {
  let mut t = Tally::default();
  let comps = r.range(1, 4);
  let bits = r.range(2, 16) as u32;
  let pred = r.range(1, 7) as u8;
  let (w, h) = (r.range(1, 40), r.range(1, 30));
  let img = samples(r, w * comps, h, bits);
  if r.chance(1, 3) {
    // encoder with arguments that do not fit together
    let (ew, eh, ec) = (r.range(0, w + 2), r.range(0, h + 2), r.range(0, 5));
    let pad = r.range(0, 5);
    let (eb, ep) = (r.range(0, 17) as u8, r.range(0, 8) as u8);
    let pt = r.range(0, 3) as u8;
    t.add("encode", || LjpegCompressor::new(&img, ew, eh, ec, eb, ep, pt, pad).and_then(|e| e.encode()).map_err(|e| e.to_string()), |v| hash_bytes(v));
    return t;
  }
  let Ok(Ok(mut enc)) = guard(|| LjpegCompressor::new(&img, w, h, comps, bits as u8, pred, 0, 0).and_then(|e| e.encode())) else { return t };
  for _ in 0..r.range(0, 3) {
    damage_bytes(r, &mut enc, 0);
  }
  if r.chance(1, 3) {
    // frame header fields: precision, height, width, components, sampling factors
    if let Some(p) = enc.windows(2).position(|x| x == [0xff, 0xc3]) {
      let i = (p + r.range(4, 16)).min(enc.len() - 1);
      enc[i] = *r.pick(&[0, 1, 2, 3, 4, 5, 0x11, 0x12, 0x21, 0x22, 0xff, 16]);
    }
  }
  let x = r.range(0, 8);
  let strip = r.range(0, 200);
  let (ow, oh) = (r.range(0, 170), r.range(0, 40));
  let mut out = vec![0u16; r.range(0, 8000)];
  let (csfix, bug) = (r.chance(1, 4), r.chance(1, 4));
  let kind = r.range(0, 6);
  t.add(
    "ljpeg",
    || {
      let d = LjpegDecompressor::new_full(&enc, bug, csfix)?;
      match kind {
        0 | 1 => d.decode(&mut out, x, strip, ow, oh, false)?,
        2 => d.decode_sony(&mut out, x, strip, ow, oh, false)?,
        _ => {
          d.decode_leaf(ow, oh)?;
        }
      }
      Ok(hash_u16(&out))
    },
    |v| *v,
  );
  t
}

fn demosaic_case(r: &mut Rng, hostile: bool) -> Tally {
  let mut t = Tally::default();
  let d = |r: &mut Rng| match r.range(0, 3) {
    0 => r.range(1, 8),
    1 => r.range(4, 20),
    _ => r.range(1, 80),
  };
  let (w, h) = (d(r), d(r));
  let v: Vec<f32> = (0..w * h).map(|_| r.f32()).collect();
  let src = PixF32::new_with(v, w, h);
  let roi = if hostile && r.chance(1, 2) {
    Rect::new(Point::new(r.range(0, w + 3), r.range(0, h + 3)), Dim2::new(r.range(0, w + 5), r.range(0, h + 5)))
  } else {
    rect_in(r, Rect::new(Point::zero(), Dim2::new(w, h)))
  };
  let kind = r.range(0, 4);
  let p = *r.pick(&BAYER);
  let x = *r.pick(&XTRANS);
  let f3 = |v: &rawler::pixarray::Color2D<f32, 3>| v.data.iter().flatten().fold(v.width as u64, |a, b| (a ^ b.to_bits() as u64).wrapping_mul(31));
  let f4 = |v: &rawler::pixarray::Color2D<f32, 4>| v.data.iter().flatten().fold(v.width as u64, |a, b| (a ^ b.to_bits() as u64).wrapping_mul(31));
  match kind {
    0 => {
      t.add("ppg", || Ok(PPGDemosaic::new().demosaic(&src, &CFA::new(p), &PlaneColor::default(), roi)), f3);
    }
    1 => {
      t.add("super3", || Ok(Superpixel3Channel::new().demosaic(&src, &CFA::new(p), &PlaneColor::default(), roi)), f3);
    }
    2 => {
      t.add("four", || Ok(Bilinear4Channel::new().demosaic(&src, &CFA::new("RGEB"), &PlaneColor::new("RGBE"), roi)), f4);
    }
    3 => {
      t.add("super4", || Ok(Superpixel4Channel::new().demosaic(&src, &CFA::new("RGEB"), &PlaneColor::new("RGBE"), roi)), f4);
    }
    _ => {
      t.add("xtrans", || Ok(XTransBilinearDemosaic::new().demosaic(&src, &CFA::new(x), &PlaneColor::default(), roi)), f3);
    }
  }
  t
}

fn any_src(r: &mut Rng) -> Src {
  let opt = SrcOpt {
    float: r.chance(1, 4),
    big: r.chance(1, 4),
    min_dim: if r.bool() { 1 } else { 16 },
    ..Default::default()
  };
  gen_src(r, &opt)
}

/// Change values of directory entries: the file stays a TIFF, its content becomes hostile.
pub fn tweak_tags(r: &mut Rng, b: &mut Vec<u8>) {
  tweak_some(r, b, |_| true)
}

pub fn tweak_some(r: &mut Rng, b: &mut Vec<u8>, want: impl Fn(u16) -> bool) {
  let Ok(t) = Tiff::parse(b) else { return };
  let mut ents: Vec<(u16, u16, usize, usize)> = vec![];
  for d in t.all_dirs() {
    for (tag, e) in &d.ents {
      if want(*tag) {
        ents.push((*tag, e.typ, e.off, e.data.len()));
      }
    }
  }
  let be = t.be;
  for _ in 0..r.range(1, 3) {
    if ents.is_empty() {
      return;
    }
    let (_, typ, off, len) = ents[r.range(0, ents.len() - 1)];
    if len == 0 || off + len > b.len() {
      continue;
    }
    let w = crate::reftiff::type_size(typ).unwrap_or(1).min(4);
    let n = len / w;
    let i = off + r.range(0, n.max(1) - 1) * w;
    let small = r.range(0, 9) as u32;
    let old = (0..w).fold(0u32, |a, k| if be { a << 8 | b[i + k] as u32 } else { a | (b[i + k] as u32) << (8 * k) });
    let delta = r.range(1, 3) as u32;
    let rnd = r.u32();
    let v = *r.pick(&[
      0,
      1,
      small,
      old.wrapping_add(delta),
      old.wrapping_sub(delta),
      old.wrapping_mul(2),
      old / 2,
      0xff,
      0xffff,
      0x7fff,
      0x8000,
      0xffff_ffff,
      0x7fff_ffff,
      rnd & 0xffff,
      rnd & 0x3ff,
    ]);
    for k in 0..w {
      b[i + k] = if be { (v >> (8 * (w - 1 - k))) as u8 } else { (v >> (8 * k)) as u8 };
    }
  }
}

fn dngfile_case(r: &mut Rng) -> Tally {
  let mut t = Tally::default();
  let s = any_src(r);
  let mut b = s.bytes;
  if r.chance(1, 3) {
    let mut p = params(r);
    p.preview = r.chance(1, 2);
    if let Ok(Ok(d)) = guard(|| convert(&b, "x.dng", &p)) {
      b = d;
    }
  }
  if r.chance(9, 10) {
    tweak_tags(r, &mut b);
  }
  if r.chance(1, 3) {
    damage_bytes(r, &mut b, 8);
  }
  exercise(&mut t, &b, r);
  t
}

/// Geometry that does not fit: areas, dimensions, patterns and layout of files that can be developed
fn areas_case(r: &mut Rng) -> Tally {
  let mut t = Tally::default();
  let c = crate::p13::gen_case(r, false, true);
  let comp = if r.bool() { rawler::dng::DngCompression::Uncompressed } else { rawler::dng::DngCompression::Lossless };
  let crop = *r.pick(&crop_modes());
  let root = r.bool();
  let Ok(Ok(mut b)) = guard(|| write_dng(&c.img, crop, comp, 1, root)) else { return t };
  let tags: &[u16] = *r.pick(&[
    &[50829u16][..],
    &[50829, 50719, 50720],
    &[50719, 50720],
    &[256, 257, 50829],
    &[256, 257, 278, 322, 323, 277],
    &[33421, 33422, 50710, 262, 277],
    &[50713, 50714, 50717, 258, 277],
  ]);
  tweak_some(r, &mut b, |t| tags.contains(&t));
  exercise(&mut t, &b, r);
  t
}

fn in_pool<T: Send>(n: usize, f: impl FnOnce() -> T + Send) -> T {
  rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap().install(f)
}

fn race_case(stage: &str, r: &mut Rng, case: u64) -> Tally {
  let mut t = Tally::default();
  let n = r.range(2, 8);
  match stage {
    "r-codec" => {
      let id = (Ctx::idx(case) % 53) as u16;
      let Some(c) = crate::p09::make(r, if [28, 32, 33, 34, 35, 47].contains(&id) { 48 } else { id }) else { return t };
      let mut f = vec![];
      f.extend(id.to_le_bytes());
      f.extend((c.w as u16).to_le_bytes());
      f.extend((c.h as u16).to_le_bytes());
      f.extend(&c.payload);
      f.extend([0u8; 64]);
      t.add("codec", || in_pool(n, || rawler::decode_unwrapped(&RawSource::new_from_slice(&f)).map_err(|e| e.to_string())), |d| match d {
        RawImageData::Integer(v) => hash_u16(v),
        RawImageData::Float(v) => v.len() as u64,
      });
      t.fp ^= (id as u64) << 48;
      t
    }
    "r-crx" => {
      let mut q = Rng::new(r.u64());
      t = in_pool(n, move || crx_case(&mut q));
      t
    }
    "r-demosaic" => {
      let mut q = Rng::new(r.u64());
      t = in_pool(n, move || demosaic_case(&mut q, false));
      t
    }
    "r-file" => {
      // whole conversions, developments and decoder calls; some with several jobs at once
      let jobs: Vec<(Vec<u8>, u64)> = (0..r.range(1, 3)).map(|_| (any_src(r).bytes, r.u64())).collect();
      let pool = rayon::ThreadPoolBuilder::new().num_threads(n).build().unwrap();
      let out: Mutex<Vec<(usize, Tally)>> = Mutex::new(vec![]);
      std::thread::scope(|sc| {
        for (k, (b, seed)) in jobs.iter().enumerate() {
          let (pool, out) = (&pool, &out);
          sc.spawn(move || {
            let mut t = Tally::default();
            let mut q = Rng::new(*seed);
            let b = b.clone();
            let t2 = pool.install(move || {
              exercise(&mut t, &b, &mut q);
              t
            });
            out.lock().unwrap().push((k, t2));
          });
        }
      });
      let mut v = out.into_inner().unwrap();
      v.sort_by_key(|x| x.0);
      for (_, x) in v {
        t.ok += x.ok;
        t.err += x.err;
        t.panic += x.panic;
        t.fp = t.fp.rotate_left(9) ^ x.fp;
      }
      t
    }
    _ => {
      // embedding: parallel block compressor, reading back
      let len = r.range(0, 6 * 65536);
      let data = if r.bool() { r.bytes(len) } else { vec![r.u8(); len] };
      t.add(
        "embed",
        || {
          let c = rawler::dng::original::OriginalCompressed::compress(&mut std::io::Cursor::new(&data)).map_err(|e| e.to_string())?;
          let mut buf = std::io::Cursor::new(vec![]);
          c.write_to_stream(&mut buf).map_err(|e| e.to_string())?;
          Ok(buf.into_inner())
        },
        |v| hash_bytes(v),
      );
      t
    }
  }
}

fn workload(stage: &str, r: &mut Rng, case: u64) -> Tally {
  match stage {
    "codec" => codec_case(r, case),
    "crx" => crx_case(r),
    "ljpeg" => ljpeg_case(r),
    "demosaic" => demosaic_case(r, true),
    "dngfile" => dngfile_case(r),
    "areas" => areas_case(r),
    _ => race_case(stage, r, case),
  }
}

fn case_id(seed: u64, stage: &str, i: usize) -> u64 {
  let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_str(stage) ^ ((i as u64) << 1);
  (splitmix(&mut x) & !0xffff_ffff) | (i as u64 & 0xffff_ffff)
}

/// vmon worker <stage> <seed> <first> <step> <end> [case]
pub fn worker_main(a: &[String]) -> i32 {
  let stage = a[0].clone();
  let n = |i: usize| a[i].parse::<u64>().unwrap();
  let (seed, first, step, end) = (n(1), n(2) as usize, n(3) as usize, n(4) as usize);
  let only = a.get(5).and_then(|c| c.parse::<u64>().ok());
  let h = std::thread::Builder::new()
    .stack_size(64 << 20)
    .spawn(move || {
      let out = std::io::stdout();
      let run = |case: u64| {
        let mut o = out.lock();
        let _ = writeln!(o, "> {case}");
        let _ = o.flush();
        drop(o);
        let t = workload(&stage, &mut Rng::new(case), case);
        let mut o = out.lock();
        let _ = writeln!(o, "< {case} {} {} {} {}", t.fp, t.ok, t.err, t.panic);
        let _ = o.flush();
      };
      if let Some(c) = only {
        run(c);
      } else {
        let mut i = first;
        while i < end {
          run(case_id(seed, &stage, i));
          i += step;
        }
      }
    })
    .unwrap();
  let _ = h.join();
  0
}

struct Dead {
  case: u64,
  stderr: String,
  hang: bool,
}

fn worker(san: &str, args: &[String], per_case: Duration, sink: &mut dyn FnMut(u64, u64, [u64; 3])) -> Option<Dead> {
  let bin = PathBuf::from(format!("/verif/build/{san}/x86_64-unknown-linux-gnu/debug/vmon"));
  let mut c = Command::new(&bin);
  c.arg("worker").args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
  c.env("ASAN_OPTIONS", "halt_on_error=1:exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=300:hard_rss_limit_mb=3000:handle_abort=0:quarantine_size_mb=16");
  c.env("TSAN_OPTIONS", "halt_on_error=1:exitcode=86:report_thread_leaks=0:history_size=4:second_deadlock_stack=1:suppressions=/verif/tools/tsan.supp");
  if san == "asan" {
    c.env("RAYON_NUM_THREADS", "2");
  }
  c.env("RUST_BACKTRACE", "0").env("ASAN_SYMBOLIZER_PATH", "/usr/bin/llvm-symbolizer").env("TSAN_SYMBOLIZER_PATH", "/usr/bin/llvm-symbolizer");
  let mut ch = c.spawn().expect("sanitizer build of the monitor");
  let out = ch.stdout.take().unwrap();
  let mut err = ch.stderr.take().unwrap();
  let te = std::thread::spawn(move || {
    let mut v = vec![];
    let _ = err.read_to_end(&mut v);
    String::from_utf8_lossy(&v).into_owned()
  });
  let (tx, rx) = std::sync::mpsc::channel::<String>();
  let to = std::thread::spawn(move || {
    for l in BufReader::new(out).lines().map_while(Result::ok) {
      if tx.send(l).is_err() {
        break;
      }
    }
  });
  let mut cur = None;
  let mut hang = false;
  let mut t0 = Instant::now();
  loop {
    match rx.recv_timeout(Duration::from_millis(200)) {
      Ok(l) => {
        let f: Vec<&str> = l.split(' ').collect();
        if f[0] == ">" {
          cur = f.get(1).and_then(|x| x.parse::<u64>().ok());
          t0 = Instant::now();
        } else if f[0] == "<" && f.len() == 6 {
          let v: Vec<u64> = f[1..].iter().map(|x| x.parse().unwrap_or(0)).collect();
          sink(v[0], v[1], [v[2], v[3], v[4]]);
          cur = None;
        }
      }
      Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
        if cur.is_some() && t0.elapsed() > per_case {
          hang = true;
          let _ = ch.kill();
          break;
        }
      }
      Err(_) => break,
    }
  }
  let _ = ch.wait();
  drop(rx);
  let _ = to.join();
  let stderr = te.join().unwrap_or_default();
  cur.map(|case| Dead { case, stderr, hang })
}

/// What a dead worker means. None: not a memory or race error (resources, stack limit, abort)
fn judge(stderr: &str) -> Option<(String, String)> {
  let pos = stderr.find("ERROR: AddressSanitizer").or_else(|| stderr.find("WARNING: ThreadSanitizer"))?;
  let rep = &stderr[pos..];
  let head = rep.lines().next().unwrap_or_default();
  let kind: String = head.split(": ").nth(2).unwrap_or_default().split([' ', ',']).next().unwrap_or_default().into();
  let kind = if head.contains("ThreadSanitizer") { head.split(": ").nth(2).unwrap_or("race").split(" (").next().unwrap_or("race").replace(' ', "-") } else { kind };
  if ["stack-overflow", "allocation-size-too-big", "out-of-memory", "calloc-overflow", "requested"].iter().any(|k| head.contains(k)) || head.contains("hard rss") {
    return None;
  }
  if head.contains("ThreadSanitizer") {
    // accesses made by the scheduler itself (fence based algorithms, not modelled by ThreadSanitizer)
    let lib = |l: &&str| l.contains("/rustlib/") || l.contains("<null>");
    for part in rep.split("\n\n").take(2) {
      let first = part.lines().filter(|l| l.trim_start().starts_with('#')).find(|l| !lib(l)).unwrap_or_default();
      if ["/rayon-core-", "/crossbeam-"].iter().any(|k| first.contains(k)) {
        return None;
      }
    }
  }
  // first frame inside the repository
  let frame = rep
    .lines()
    .filter(|l| l.trim_start().starts_with('#'))
    .find(|l| l.contains("/repo/") || l.contains("rawler::") || l.contains("embedftp::"))
    .unwrap_or_else(|| rep.lines().find(|l| l.trim_start().starts_with('#')).unwrap_or(""));
  let func = frame.split(" in ").nth(1).or_else(|| frame.split_whitespace().nth(1).map(|_| frame)).unwrap_or("").split(" /").next().unwrap_or("").trim().to_string();
  let short: String = func.chars().take(120).collect();
  Some((format!("{kind}: {short}"), rep.chars().take(3500).collect()))
}

fn supervise(ctx: &Ctx, san: &str, stage: &str, n: usize, procs: usize) {
  let per_case = Duration::from_secs(if san == "tsan" { 60 } else { 5 });
  if let Some((s, c)) = &ctx.replay_case {
    if s == stage {
      let a: Vec<String> = [stage, "0", "0", "1", "0"].iter().map(|x| x.to_string()).chain([c.to_string()]).collect();
      let d = worker(san, &a, per_case, &mut |case, fp, _| ctx.report(stage, case, Verdict::Held(fp)));
      if let Some(d) = d {
        if let Some((sig, det)) = judge(&d.stderr) {
          ctx.report(stage, d.case, bad(&sig, det));
        }
      }
    }
    return;
  }
  std::thread::scope(|sc| {
    for p in 0..procs {
      sc.spawn(move || {
        let mut first = p;
        while first < n && !ctx.stopped() {
          let a: Vec<String> = [stage.to_string(), ctx.seed.to_string(), first.to_string(), procs.to_string(), n.to_string()].into();
          let mut done = None;
          let d = worker(san, &a, per_case, &mut |case, fp, c| {
            done = Some(case);
            ctx.count("operations: result", c[0]);
            ctx.count("operations: error", c[1]);
            ctx.count("operations: panic (not judged here)", c[2]);
            ctx.report(stage, case, Verdict::Held(fp));
          });
          let Some(d) = d else {
            if done.map(|c| Ctx::idx(c) + procs < n).unwrap_or(true) {
              // died between cases or never started
              ctx.report(stage, first as u64, Verdict::Skip("worker ended early"));
              if done.is_none() {
                break;
              }
              first = Ctx::idx(done.unwrap()) + procs;
              continue;
            }
            break;
          };
          first = Ctx::idx(d.case) + procs;
          if let Some((sig, det)) = judge(&d.stderr) {
            ctx.report(stage, d.case, bad(&sig, det));
          } else if d.hang {
            ctx.report(stage, d.case, Verdict::Skip("case took too long"));
          } else if d.stderr.contains("stack overflow") || d.stderr.contains("stack-overflow") {
            ctx.report(stage, d.case, Verdict::Skip("stack limit"));
          } else if d.stderr.contains("memory allocation of") || d.stderr.contains("rss limit") || d.stderr.contains("AddressSanitizer") {
            ctx.report(stage, d.case, Verdict::Skip("memory limit"));
          } else {
            ctx.sample(json!({"aborted": stage, "case": format!("{:#x}", d.case), "stderr": d.stderr.chars().take(300).collect::<String>()}));
            ctx.report(stage, d.case, Verdict::Skip("aborted"));
          }
        }
      });
    }
  });
}

pub fn run11(ctx: Ctx) -> i32 {
  supervise(&ctx, "asan", "codec", ctx.n(4000, 150_000), 8);
  supervise(&ctx, "asan", "crx", ctx.n(800, 20_000), 8);
  supervise(&ctx, "asan", "ljpeg", ctx.n(4000, 100_000), 8);
  supervise(&ctx, "asan", "demosaic", ctx.n(4000, 60_000), 8);
  supervise(&ctx, "asan", "areas", ctx.n(1000, 60_000), 8);
  supervise(&ctx, "asan", "dngfile", ctx.n(400, 60_000), 8);
  ctx.finish(
    "exploration",
    "one evaluation = one workload case in a process instrumented with AddressSanitizer (standard library included): every load, store and free of the executed code is checked; panics, errors and resource limits are outcomes, not violations; distinct = distinct results",
    &["reads of uninitialised memory are not observed (the crates contain no uninitialised buffers in safe reach)", "inputs that exceed the memory, stack or time limit of a case are counted as skipped"],
  )
}

pub fn run12(ctx: Ctx) -> i32 {
  supervise(&ctx, "tsan", "r-codec", ctx.n(400, 10_000), 6);
  supervise(&ctx, "tsan", "r-crx", ctx.n(100, 3000), 6);
  supervise(&ctx, "tsan", "r-demosaic", ctx.n(400, 10_000), 6);
  supervise(&ctx, "tsan", "r-embed", ctx.n(100, 2000), 6);
  supervise(&ctx, "tsan", "r-file", ctx.n(300, 8000), 6);
  ctx.finish(
    "exploration",
    "one evaluation = one workload case in a process instrumented with ThreadSanitizer (standard library and dependencies included) on pools of 2-8 threads: every pair of conflicting accesses of the executed code not ordered by synchronisation is reported; distinct = distinct results",
    &["happens-before detection covers the accesses of the executed schedules"],
  )
}
