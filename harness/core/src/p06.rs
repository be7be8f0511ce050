//! C06: every TIFF/DNG file written is structurally well formed.
use crate::ctx::{Ctx, Verdict, hash_bytes};
use crate::gen_dng::{SrcOpt, gen_src};
use crate::gen_img::{GenOpt, Photo, raw_image};
use crate::reftiff::{BO, Dir, Tiff, WDir, WEnt};
use crate::rng::Rng;
use crate::util::*;
use image::{DynamicImage, RgbImage};
use rawler::RawImage;
use rawler::decoders::RawMetadata;
use rawler::dng::convert::ConvertParams;
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DNG_VERSION_V1_4, DngCompression, DngPhotometricConversion};
use rawler::imgop::develop::{ProcessingStep, RawDevelop};
use serde_json::json;
use std::io::{Cursor, Seek, SeekFrom, Write};

type R<T> = Result<T, (String, String)>;
fn fail<T>(sig: &str, d: impl Into<String>) -> R<T> {
  Err((sig.into(), d.into()))
}

/// (tag, allowed types, required count or 0)
const TABLE: &[(u16, &[u16], u32)] = &[
  (254, &[4], 1),
  (256, &[3, 4], 1),
  (257, &[3, 4], 1),
  (258, &[3], 0),
  (259, &[3], 1),
  (262, &[3], 1),
  (271, &[2], 0),
  (272, &[2], 0),
  (273, &[3, 4], 0),
  (274, &[3], 1),
  (277, &[3], 1),
  (278, &[3, 4], 1),
  (279, &[3, 4], 0),
  (284, &[3], 1),
  (305, &[2], 0),
  (306, &[2], 20),
  (315, &[2], 0),
  (317, &[3], 1),
  (322, &[3, 4], 1),
  (323, &[3, 4], 1),
  (324, &[4], 0),
  (325, &[3, 4], 0),
  (330, &[4, 13], 0),
  (339, &[3], 0),
  (700, &[1, 7], 0),
  (33421, &[3], 2),
  (33422, &[1], 0),
  (34665, &[4, 13], 1),
  (34853, &[4, 13], 1),
  (36864, &[7], 4),
  (50706, &[1], 4),
  (50707, &[1], 4),
  (50708, &[2], 0),
  (50710, &[1], 0),
  (50711, &[3], 1),
  (50713, &[3], 2),
  (50714, &[3, 4, 5], 0),
  (50717, &[3, 4], 0),
  (50718, &[5], 2),
  (50719, &[3, 4, 5], 2),
  (50720, &[3, 4, 5], 2),
  (50721, &[10], 0),
  (50722, &[10], 0),
  (50728, &[3, 5], 0),
  (50778, &[3], 1),
  (50779, &[3], 1),
  (50780, &[5], 1),
  (50781, &[1], 16),
  (50827, &[2, 1], 0),
  (50828, &[7], 0),
  (50829, &[3, 4], 4),
  (50830, &[3, 4], 0),
  (50970, &[4], 1),
  (50973, &[1], 16),
];

/// Independent TIFF LZW decoder (MSB first, early change)
pub fn lzw(src: &[u8]) -> Result<Vec<u8>, String> {
  let mut out: Vec<u8> = vec![];
  let (mut acc, mut nb, mut pos) = (0u32, 0u32, 0usize);
  let mut table: Vec<(u32, u8, u32)> = vec![]; // prefix, last, length
  let mut width = 9;
  let mut prev: Option<u32> = None;
  let mut eoi = false;
  fn expand(table: &[(u32, u8, u32)], mut c: u32, out: &mut Vec<u8>) -> u8 {
    let start = out.len();
    while c >= 258 {
      let (p, l, _) = table[c as usize - 258];
      out.push(l);
      c = p;
    }
    out.push(c as u8);
    out[start..].reverse();
    out[start]
  }
  loop {
    while nb < width {
      let Some(b) = src.get(pos) else { break };
      acc = (acc << 8) | *b as u32;
      nb += 8;
      pos += 1;
    }
    if nb < width {
      break;
    }
    let code = (acc >> (nb - width)) & ((1 << width) - 1);
    nb -= width;
    acc &= (1 << nb) - 1;
    if code == 256 {
      table.clear();
      width = 9;
      prev = None;
      continue;
    }
    if code == 257 {
      eoi = true;
      break;
    }
    match prev {
      None => {
        if code > 255 {
          return Err(format!("first code {code}"));
        }
        out.push(code as u8);
      }
      Some(p) => {
        let next = 258 + table.len() as u32;
        if code > next {
          return Err(format!("code {code} beyond table {next}"));
        }
        if code == next {
          let f = expand(&table, p, &mut out);
          out.push(f);
          table.push((p, f, 0));
        } else {
          let f = expand(&table, code, &mut out);
          table.push((p, f, 0));
        }
        let n = 258 + table.len() as u32 + 1;
        width = if n >= 2048 {
          12
        } else if n >= 1024 {
          11
        } else if n >= 512 {
          10
        } else {
          9
        };
        if table.len() > 4096 {
          return Err("table overflow".into());
        }
      }
    }
    prev = Some(code);
  }
  if !eoi {
    return Err("no end-of-information code".into());
  }
  Ok(out)
}

fn image_dir(bytes: &[u8], name: &str, d: &Dir) -> R<()> {
  for t in [256u16, 257, 258, 259, 262, 277] {
    if d.get(t).is_none() {
      return fail("image-tag-missing", format!("{name}: image directory lacks tag {t}"));
    }
  }
  let (w, h, spp) = (d.u(256).unwrap() as usize, d.u(257).unwrap() as usize, d.u(277).unwrap() as usize);
  let bits = d.get(258).unwrap().uints();
  if w == 0 || h == 0 || spp == 0 {
    return fail("image-empty", format!("{name}: {w}x{h}x{spp}"));
  }
  for t in [258u16, 339] {
    if let Some(e) = d.get(t) {
      if e.count as usize != spp {
        return fail("per-sample-count", format!("{name}: tag {t} has {} values for {spp} samples per pixel", e.count));
      }
    }
  }
  let comp = d.u(259).unwrap();
  let row = w * spp * bits[0] as usize / 8;
  if d.get(273).is_some() && d.get(324).is_some() {
    return fail("strips-and-tiles", format!("{name}: both strips and tiles"));
  }
  if let Some(o) = d.get(273) {
    let Some(rps) = d.u(278) else {
      return fail("image-tag-missing", format!("{name}: no RowsPerStrip"));
    };
    let rps = (rps as usize).min(h);
    if rps == 0 {
      return fail("strip-layout", format!("{name}: RowsPerStrip 0"));
    }
    let n = h.div_ceil(rps);
    if o.count as usize != n {
      return fail("strip-count", format!("{name}: {} strips for {h} rows with {rps} rows per strip", o.count));
    }
    let (offs, cnts) = (o.uints(), d.get(279).unwrap().uints());
    for i in 0..n {
      let rows = rps.min(h - i * rps);
      let want = rows * row;
      let data = &bytes[offs[i] as usize..offs[i] as usize + cnts[i] as usize];
      match comp {
        1 => {
          if data.len() != want {
            return fail("strip-size", format!("{name}: strip {i} holds {} bytes, {rows} rows need {want}", data.len()));
          }
        }
        5 => match lzw(data) {
          Ok(v) if v.len() == want => {}
          Ok(v) => return fail("strip-size", format!("{name}: LZW strip {i} expands to {} bytes, {rows} rows need {want}", v.len())),
          Err(e) => return fail("lzw", format!("{name}: strip {i}: {e}")),
        },
        7 => match image::load_from_memory_with_format(data, image::ImageFormat::Jpeg) {
          Ok(img) => {
            if img.width() as usize != w || img.height() as usize != h {
              return fail("jpeg-dims", format!("{name}: JPEG is {}x{}, directory says {w}x{h}", img.width(), img.height()));
            }
            if data[data.len() - 2..] != [0xff, 0xd9] {
              return fail("jpeg-length", format!("{name}: byte count does not end at the EOI marker"));
            }
          }
          Err(e) => return fail("jpeg", format!("{name}: {e}")),
        },
        c => return fail("compression", format!("{name}: compression {c} in strips")),
      }
    }
  } else {
    let (tw, th) = (d.u(322).unwrap_or(0) as usize, d.u(323).unwrap_or(0) as usize);
    if tw == 0 || th == 0 || tw % 16 != 0 || th % 16 != 0 {
      return fail("tile-dims", format!("{name}: tiles {tw}x{th}"));
    }
    let n = w.div_ceil(tw) * h.div_ceil(th);
    if d.get(324).unwrap().count as usize != n {
      return fail("tile-count", format!("{name}: {} tiles for {w}x{h} with {tw}x{th}", d.get(324).unwrap().count));
    }
    if comp != 7 {
      return fail("compression", format!("{name}: compression {comp} in tiles"));
    }
    let (offs, cnts) = (d.get(324).unwrap().uints(), d.get(325).unwrap().uints());
    for (o, c) in offs.iter().zip(&cnts) {
      let t = &bytes[*o as usize..(*o + *c) as usize];
      if t.len() < 4 || t[..2] != [0xff, 0xd8] || t[t.len() - 2..] != [0xff, 0xd9] {
        return fail("tile-extent", format!("{name}: tile at {o} does not span SOI..EOI"));
      }
    }
  }
  Ok(())
}

fn raw_dir(name: &str, d: &Dir) -> R<()> {
  let (w, h, spp) = (d.u(256).unwrap(), d.u(257).unwrap(), d.u(277).unwrap());
  if let Some(a) = d.get(50829).map(|e| e.uints()) {
    if !(a[0] < a[2] && a[1] < a[3] && a[2] <= h && a[3] <= w) {
      return fail("active-area", format!("{name}: {a:?} in {w}x{h}"));
    }
    if let (Some(o), Some(s)) = (d.get(50719), d.get(50720)) {
      let (o, s) = (o.nums(), s.nums());
      if o[0] + s[0] > (a[3] - a[1]) as f64 || o[1] + s[1] > (a[2] - a[0]) as f64 || s[0] < 1.0 || s[1] < 1.0 {
        return fail("default-crop", format!("{name}: crop {o:?}+{s:?} in active area {a:?}"));
      }
    }
  }
  if let Some(e) = d.get(50717) {
    if e.count != spp {
      return fail("whitelevel-count", format!("{name}: {} for {spp} samples", e.count));
    }
  }
  if let Some(e) = d.get(50714) {
    let dim = d.get(50713).map(|x| x.uints()).unwrap_or(vec![1, 1]);
    if e.count != dim[0] * dim[1] * spp {
      return fail("blacklevel-count", format!("{name}: {} for repeat {dim:?} and {spp} samples", e.count));
    }
  }
  match d.u(262) {
    Some(32803) => {
      let (Some(dim), Some(p)) = (d.get(33421), d.get(33422)) else {
        return fail("cfa-missing", name.to_string());
      };
      let dim = dim.uints();
      if p.count != dim[0] * dim[1] {
        return fail("cfa-count", format!("{name}: {} for {dim:?}", p.count));
      }
      if let Some(pc) = d.get(50710) {
        let pc = pc.uints();
        if p.uints().iter().any(|x| !pc.contains(x)) {
          return fail("cfa-plane-color", format!("{name}: pattern {:?} not in CFAPlaneColor {pc:?}", p.uints()));
        }
      }
    }
    Some(1) | Some(34892) => {}
    p => return fail("photometric", format!("{name}: {p:?}")),
  }
  if let Some(m) = d.get(50830) {
    if m.count % 4 != 0 {
      return fail("masked-areas", format!("{name}: {} values", m.count));
    }
  }
  Ok(())
}

fn typed(name: &str, d: &Dir) -> R<()> {
  for (tag, types, count) in TABLE {
    if let Some(e) = d.get(*tag) {
      if !types.contains(&e.typ) {
        return fail(&format!("tag-type-{tag}"), format!("{name}: tag {tag} has type {}, allowed {types:?}", e.typ));
      }
      if *count != 0 && e.count != *count {
        return fail(&format!("tag-count-{tag}"), format!("{name}: tag {tag} has count {}, required {count}", e.count));
      }
      if e.typ == 2 && e.data.last() != Some(&0) {
        return fail(&format!("tag-nul-{tag}"), format!("{name}: tag {tag} not NUL terminated"));
      }
    }
  }
  // rationals with a zero denominator
  for t in [50714u16, 50718, 50719, 50720, 50721, 50722, 50728, 50780] {
    if let Some(e) = d.get(t) {
      for i in 0..e.count as usize {
        if let Some((_, 0)) = e.rat(i) {
          return fail("zero-denominator", format!("{name}: tag {t}[{i}]"));
        }
      }
    }
  }
  Ok(())
}

pub fn judge(bytes: &[u8], dng: bool) -> R<Tiff> {
  let t = match Tiff::parse(bytes) {
    Ok(t) => t,
    Err(e) => return fail("unparsable", e),
  };
  if !t.problems.is_empty() {
    return fail("structure", t.problems.join("; "));
  }
  let o = t.overlaps();
  if !o.is_empty() {
    return fail("overlap", o.join("; "));
  }
  if t.dirs.len() != 1 {
    return fail("chain", format!("{} chained directories", t.dirs.len()));
  }
  let mut raws = 0;
  for (i, d) in t.all_dirs().into_iter().enumerate() {
    let name = format!("dir{i}@{}", d.offset);
    typed(&name, d)?;
    if d.get(273).is_some() || d.get(324).is_some() {
      image_dir(bytes, &name, d)?;
      if dng && d.u(254) == Some(0) {
        raws += 1;
        raw_dir(&name, d)?;
      }
    }
  }
  if dng {
    if raws != 1 {
      return fail("raw-count", format!("{raws} full resolution raw images"));
    }
    for tag in [50706u16, 50707, 50708, 271, 272] {
      if t.dirs[0].get(tag).is_none() {
        return fail("dng-tag-missing", format!("root tag {tag}"));
      }
    }
    let (v, b) = (t.dirs[0].get(50706).unwrap().uints(), t.dirs[0].get(50707).unwrap().uints());
    if b > v || v[0] != 1 {
      return fail("dng-version", format!("DNGVersion {v:?} backward {b:?}"));
    }
  }
  Ok(t)
}

fn verdict(v: R<Tiff>, bytes: &[u8], desc: &str, ctx: &Ctx, stage: &str) -> Verdict {
  match v {
    Ok(t) => {
      ctx.count("directories", t.all_dirs().len() as u64);
      ctx.count("extents", t.extents.len() as u64);
      ctx.sample(json!({"stage": stage, "desc": desc, "bytes": bytes.len(), "dirs": t.all_dirs().len(), "extents": t.extents.len()}));
      Verdict::Held(hash_bytes(bytes))
    }
    Err((s, d)) => Verdict::Bad(s, format!("{d} ({desc})")),
  }
}

fn dynimg(r: &mut Rng) -> DynamicImage {
  let (w, h) = match r.range(0, 5) {
    0 => (r.range(1, 4), r.range(1, 4)),
    1 => (r.range(1020, 1100), r.range(1, 900)),
    2 => (r.range(1, 20), r.range(700, 1200)),
    3 => (r.range(1025, 1500), r.range(1, 3)),
    _ => (r.range(1, 400), r.range(1, 400)),
  };
  let (w, h) = (w as u32, h as u32);
  match r.range(0, 3) {
    0 => DynamicImage::ImageLuma8(image::ImageBuffer::from_raw(w, h, r.bytes((w * h) as usize)).unwrap()),
    1 => DynamicImage::ImageRgb16(image::ImageBuffer::from_raw(w, h, (0..w * h * 3).map(|_| r.u16()).collect()).unwrap()),
    2 => DynamicImage::ImageLuma16(image::ImageBuffer::from_raw(w, h, (0..w * h).map(|_| r.u16()).collect()).unwrap()),
    _ => DynamicImage::ImageRgb8(RgbImage::from_raw(w, h, r.bytes((w * h * 3) as usize)).unwrap()),
  }
}

fn write_full<W: Write + Seek>(r: &mut Rng, img: &RawImage, out: W, at: u64) -> Result<String, String> {
  let mut dng = DngWriter::new(out, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
  if at > 0 {
    dng.dng.writer.seek(SeekFrom::Start(at)).map_err(|e| e.to_string())?;
  }
  let thumb = r.bool();
  let mut raw = if thumb { dng.subframe(0) } else { dng.subframe_on_root(0) };
  let comp = if r.bool() { DngCompression::Lossless } else { DngCompression::Uncompressed };
  let crop = *r.pick(&crop_modes());
  raw.raw_image(img, crop, comp, DngPhotometricConversion::Original, r.range(1, 7) as u8).map_err(|e| e.to_string())?;
  raw.finalize().map_err(|e| e.to_string())?;
  let preview = r.bool();
  let p = dynimg(r);
  if preview {
    let mut pv = dng.subframe(1);
    pv.preview(&p, 0.8).map_err(|e| e.to_string())?;
    pv.finalize().map_err(|e| e.to_string())?;
  }
  if thumb {
    dng.thumbnail(&p).map_err(|e| e.to_string())?;
  }
  if r.chance(1, 3) {
    let n = r.range(1, 3000);
    dng.xpacket(r.bytes(n)).map_err(|e| e.to_string())?;
  }
  dng.load_base_tags(img).map_err(|e| e.to_string())?;
  dng.close().map_err(|e| e.to_string())?;
  Ok(format!("{comp:?} {crop:?} thumb={thumb} preview={preview} pimg={}x{}", p.width(), p.height()))
}

fn writer_case(ctx: &Ctx, r: &mut Rng, wide: bool) -> Verdict {
  let float = !wide && r.chance(1, 4);
  let big = !wide && r.chance(1, 3);
  let (mut img, mut desc) = raw_image(r, &GenOpt { big, float, ..Default::default() });
  if wide {
    // dimensions that do not fit 16 bits
    let (w, h) = if r.bool() { (r.range(65530, 70000), r.range(1, 3)) } else { (r.range(1, 3), r.range(65530, 70000)) };
    let data: Vec<u16> = (0..w * h * img.cpp).map(|i| (i * 7919) as u16 >> 6).collect();
    img.data = rawler::RawImageData::Integer(data);
    img.width = w;
    img.height = h;
    img.active_area = None;
    img.crop_area = None;
    img.blackareas.clear();
    if r.bool() {
      let full = rawler::imgop::Rect::new(rawler::imgop::Point::zero(), rawler::imgop::Dim2::new(w, h));
      img.active_area = Some(crate::gen_img::rect_in(r, full));
      if r.bool() {
        img.crop_area = Some(crate::gen_img::rect_in(r, img.active_area.unwrap()));
      }
    }
    desc = format!("wide {w}x{h} aa={:?} crop={:?} {desc}", img.active_area, img.crop_area);
  }
  let mut buf = Cursor::new(vec![]);
  match write_full(r, &img, &mut buf, 0) {
    Ok(d) => desc = format!("{desc} {d}"),
    Err(e) => return Verdict::Bad("writer-error".into(), format!("{e} ({desc})")),
  }
  let bytes = buf.into_inner();
  let j = judge(&bytes, true);
  if wide {
    if let Ok(t) = &j {
      let d = t.raw_dir().unwrap();
      let a = d.get(50829).unwrap().uints();
      if (d.u(256), d.u(257)) != (Some(img.width as u32), Some(img.height as u32)) {
        return Verdict::Bad("wide-dims".into(), format!("{:?}x{:?} ({desc})", d.u(256), d.u(257)));
      }
      let full = desc.contains(" None thumb") || img.active_area.is_none();
      let want = if full {
        vec![0, 0, img.height as u32, img.width as u32]
      } else {
        let x = img.active_area.unwrap();
        vec![x.p.y as u32, x.p.x as u32, (x.p.y + x.d.h) as u32, (x.p.x + x.d.w) as u32]
      };
      if a != want {
        return Verdict::Bad("wide-active-area".into(), format!("{a:?}, expected {want:?} ({desc})"));
      }
    }
  }
  verdict(j, &bytes, &desc, ctx, if wide { "wide" } else { "writer" })
}

pub fn some_meta(r: &mut Rng, be: bool) -> (Vec<WEnt>, Option<WDir>, Option<WDir>) {
  let bo = BO(be);
  let mut root = vec![];
  let txt = |r: &mut Rng| -> String { (0..r.range(0, 40)).map(|_| r.range(32, 126) as u8 as char).collect() };
  if r.bool() {
    root.push(bo.ascii(315, &txt(r)));
  }
  if r.bool() {
    root.push(bo.ascii(33432, &txt(r)));
  }
  if r.bool() {
    let n = r.range(1, 500);
    root.push(bo.bytes(700, &r.bytes(n)));
  }
  let exif = r.bool().then(|| {
    let mut d = WDir::default();
    d.put(bo.rats(33434, &[(1, 1 + r.range(0, 8000) as u32)]));
    d.put(bo.ascii(36867, "2021:03:04 05:06:07"));
    if r.bool() {
      d.put(bo.ascii(42036, &txt(r)));
    }
    if r.bool() {
      d.put(bo.rats(42034, &[(24, 1), (70, 1), (28, 10), (28, 10)]));
    }
    d
  });
  let gps = r.bool().then(|| {
    let mut d = WDir::default();
    d.put(bo.bytes(0, &[2, 3, 0, 0]));
    d.put(bo.ascii(1, "N"));
    d.put(bo.rats(2, &[(51, 1), (30, 1), (r.range(0, 5999) as u32, 100)]));
    d
  });
  (root, exif, gps)
}

fn convert_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let be = r.bool();
  let (extra_root, exif, gps) = some_meta(r, be);
  let float = r.chance(1, 6);
  let big = r.chance(1, 4);
  let src = gen_src(
    r,
    &SrcOpt { big, be: Some(be), extra_root, exif, gps, float, bits: if float { vec![16, 32] } else { SrcOpt::default().bits }, ..Default::default() },
  );
  let mut p: ConvertParams = params(r);
  p.preview = r.chance(1, 2);
  if r.chance(1, 3) {
    p.artist = Some("A B".into());
  }
  let desc = format!("{} embed={} {:?} crop={:?} preview={} thumb={}", src.desc, p.embedded, p.compression, p.crop, p.preview, p.thumbnail);
  let out = match convert(&src.bytes, "in.dng", &p) {
    Ok(o) => o,
    Err(e) => return Verdict::Bad("convert-error".into(), format!("{e} ({desc})")),
  };
  let j = judge(&out, true);
  if let Ok(t) = &j {
    if t.dirs[0].get(305).is_none() || t.dirs[0].get(274).is_none() || t.dirs[0].get(306).is_none() {
      return Verdict::Bad("dng-tag-missing".into(), format!("Software/Orientation/DateTime ({desc})"));
    }
  }
  verdict(j, &out, &desc, ctx, "convert")
}

fn develop_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let wide = r.chance(1, 60);
  let big = r.chance(1, 4);
  let (mut img, mut desc) = raw_image(r, &GenOpt { big, photos: vec![Photo::Bayer, Photo::XTrans, Photo::Mono, Photo::Linear3, Photo::Rgbe], ..Default::default() });
  if wide && img.cpp == 1 {
    let (w, h) = (r.range(65530, 70000), r.range(8, 12));
    img.data = rawler::RawImageData::Integer((0..w * h).map(|i| (i * 7919) as u16 >> 6).collect());
    img.width = w;
    img.height = h;
    img.active_area = None;
    img.crop_area = None;
    desc = format!("wide {w}x{h} {desc}");
  }
  // levels the pipeline supports
  img.blacklevel = rawler::rawimage::BlackLevel::new(&vec![64u32; img.cpp], 1, 1, img.cpp);
  let steps = match r.range(0, 3) {
    0 => vec![ProcessingStep::Rescale, ProcessingStep::Demosaic, ProcessingStep::CropActiveArea],
    1 => vec![ProcessingStep::Rescale],
    2 => vec![ProcessingStep::Rescale, ProcessingStep::CropActiveArea],
    _ => vec![ProcessingStep::Rescale, ProcessingStep::Demosaic, ProcessingStep::CropActiveArea, ProcessingStep::WhiteBalance, ProcessingStep::Calibrate, ProcessingStep::CropDefault, ProcessingStep::SRgb],
  };
  let full = steps.len() == 7;
  if full {
    img.wb_coeffs = [2.0, 1.0, 1.5, 1.0];
    if img.color_matrix.is_empty() {
      return Verdict::Skip("no colour matrix for calibration");
    }
  }
  let dev = RawDevelop { steps };
  let mut buf = Cursor::new(vec![]);
  let md = RawMetadata { exif: Default::default(), model: img.model.clone(), make: img.make.clone(), lens: None, unique_image_id: None, rating: None };
  match crate::ctx::guard(|| dev.develop(&img, &md, &mut buf)) {
    Ok(Ok(())) => {}
    Ok(Err(e)) => return Verdict::Bad("develop-error".into(), format!("{e:?} ({desc})")),
    Err(_) if img.cpp == 1 && desc.contains("Rgbe") && img.active_area.map_or(img.width.min(img.height), |a| a.d.w.min(a.d.h)) < 2 =>
    {
      return Verdict::Skip("no four colour image is interpolated from a single row or column");
    }
    Err(_) if full => return Verdict::Skip("calibration of a random matrix"),
    Err(e) => return Verdict::Bad("develop-panic".into(), format!("{e} ({desc})")),
  }
  let bytes = buf.into_inner();
  let j = judge(&bytes, false);
  verdict(j, &bytes, &desc, ctx, "develop")
}

fn huge_case(ctx: &Ctx, r: &mut Rng, case: u64) -> Verdict {
  let (img, desc) = raw_image(r, &GenOpt { big: false, ..Default::default() });
  let dir = std::path::PathBuf::from(format!("/verif/build/tmp-{}", std::process::id()));
  let _ = std::fs::create_dir_all(&dir);
  let path = dir.join(format!("h{:x}", case));
  let Ok(mut f) = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path) else {
    return Verdict::Skip("no scratch file");
  };
  let lim = 1u64 << 32;
  let at = match r.range(0, 4) {
    0 => lim - r.range(1, 64) as u64 * 4,
    1 => lim - r.range(100, 5000) as u64 * 4,
    2 => lim + r.range(0, 4096) as u64,
    3 => (1u64 << 31) + r.range(0, 100) as u64,
    _ => lim - r.range(5000, 300000) as u64,
  };
  let before = r.clone();
  let res = write_full(r, &img, &mut f, at);
  let len = f.metadata().map(|m| m.len()).unwrap_or(0);
  // what the same file needs when it is not displaced
  let mut buf = Cursor::new(vec![]);
  let _ = write_full(&mut before.clone(), &img, &mut buf, 0);
  let need = buf.into_inner().len() as u64 + at;
  let v = match res {
    Ok(d) => {
      let map = unsafe { memmap2::Mmap::map(&f) };
      match map {
        Ok(m) => match judge(&m, true) {
          Ok(_) => {
            ctx.count("huge_ok", 1);
            Verdict::Held(at ^ len)
          }
          Err((s, e)) => Verdict::Bad(format!("huge-{s}"), format!("data starts at {at:#x}, file length {len:#x}: {e} ({desc} {d})")),
        },
        Err(_) => Verdict::Skip("mmap failed"),
      }
    }
    Err(e) if need + 64 < lim => {
      if e.contains("No space") || e.contains("os error") {
        Verdict::Skip("scratch filesystem limits")
      } else {
        Verdict::Bad("huge-rejected".into(), format!("file of {need:#x} bytes fits 4 GiB but was rejected: {e} ({desc})"))
      }
    }
    Err(_) => {
      ctx.count("huge_rejected", 1);
      Verdict::Held(at)
    }
  };
  drop(f);
  let _ = std::fs::remove_file(&path);
  let _ = std::fs::remove_dir(&dir);
  v
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases("writer", ctx.n(2500, 40000), |r, _| writer_case(&ctx, r, false));
  ctx.cases("wide", ctx.n(120, 1500), |r, _| writer_case(&ctx, r, true));
  ctx.cases("convert", ctx.n(2500, 40000), |r, _| convert_case(&ctx, r));
  ctx.cases("develop", ctx.n(1200, 20000), |r, _| develop_case(&ctx, r));
  ctx.cases("huge", ctx.n(150, 1500), |r, c| huge_case(&ctx, r, c));
  let _ = CropMode::None;
  ctx.finish(
    "exploration",
    "one evaluation writes one DNG or developed TIFF and judges the whole file with an independent parser: ascending tags, extents inside the file and disjoint, tag types and counts, strip/tile layout against the dimensions, decodable payloads; offsets around the 4 GiB limit use sparse files; distinct counts distinct outputs",
    &["the type table covers the tags the writer emits", "LJPEG tile payloads are judged by C01/C02"],
  )
}
