//! Camera raw files of the formats built on TIFF (or on a small header), written from the format descriptions.
use crate::gen_files2 as g2;
use crate::gen_img::samples;
use crate::p08::{Meta, gen_meta};
use crate::p09::{self, pack, pack_unit};
use crate::refljpeg;
use crate::reftiff::{BO, Payload, Tiff, TiffOut, WDir, WEnt};
use crate::rng::Rng;
use std::sync::OnceLock;

#[derive(Clone, Debug, Default)]
pub struct Cam {
  pub make: String,
  pub model: String,
  pub mode: String,
  pub clean_make: String,
  pub clean_model: String,
  pub white: Option<u32>,
  pub black: Option<u32>,
  pub ah: Option<[usize; 2]>,
  pub av: Option<[usize; 2]>,
  pub active: Option<[usize; 4]>,
  pub crop: Option<[usize; 4]>,
  pub cfa: String,
  pub bps: Option<usize>,
  pub real_bps: Option<usize>,
  pub raw: Option<[usize; 2]>,
  pub highres: Option<usize>,
  pub hints: Vec<String>,
  pub params: std::collections::BTreeMap<String, String>,
  pub matrix: bool,
  pub filesize: usize,
}

impl Cam {
  pub fn hint(&self, h: &str) -> bool {
    self.hints.iter().any(|x| x == h)
  }
  fn apply(&mut self, t: &toml::Table) {
    let s = |k: &str| t.get(k).and_then(|v| v.as_str()).map(|x| x.to_string());
    let n = |k: &str| t.get(k).and_then(|v| v.as_integer()).map(|x| x as usize);
    let arr = |k: &str| t.get(k).and_then(|v| v.as_array()).map(|v| v.iter().map(|x| x.as_integer().unwrap() as usize).collect::<Vec<_>>());
    for (k, f) in [("make", &mut self.make), ("model", &mut self.model), ("mode", &mut self.mode), ("clean_make", &mut self.clean_make), ("clean_model", &mut self.clean_model)] {
      if let Some(x) = s(k) {
        *f = x;
      }
    }
    self.cfa = s("color_pattern").unwrap_or(std::mem::take(&mut self.cfa));
    self.white = n("whitepoint").map(|x| x as u32).or(self.white);
    self.black = n("blackpoint").map(|x| x as u32).or(self.black);
    let two = |v: Vec<usize>| [v[0], v[1]];
    let four = |v: Vec<usize>| [v[0], v[1], v[2], v[3]];
    self.ah = arr("blackareah").map(two).or(self.ah);
    self.av = arr("blackareav").map(two).or(self.av);
    self.active = arr("active_area").map(four).or(self.active);
    self.crop = arr("crop_area").map(four).or(self.crop);
    self.bps = n("bps").or(self.bps);
    self.real_bps = n("real_bps").or(self.real_bps);
    if let (Some(w), Some(h)) = (n("raw_width"), n("raw_height")) {
      self.raw = Some([w, h]);
    }
    self.highres = n("highres_width").or(self.highres);
    self.filesize = n("filesize").unwrap_or(self.filesize);
    if let Some(h) = t.get("hints").and_then(|v| v.as_array()) {
      self.hints = h.iter().map(|x| x.as_str().unwrap().to_string()).collect();
    }
    if let Some(p) = t.get("params").and_then(|v| v.as_table()) {
      for (k, v) in p {
        self.params.insert(k.clone(), v.to_string());
      }
    }
    self.matrix |= t.get("color_matrix").is_some();
  }
}

/// The camera descriptions of the repository, keyed as the file names the camera
pub fn cams() -> &'static Vec<Cam> {
  static C: OnceLock<Vec<Cam>> = OnceLock::new();
  C.get_or_init(|| {
    let mut map = std::collections::BTreeMap::new();
    let mut files = vec![];
    let base = std::path::Path::new("/repo/rawler/data/cameras");
    for d in std::fs::read_dir(base).unwrap().flatten() {
      if d.path().is_dir() {
        files.extend(std::fs::read_dir(d.path()).unwrap().flatten().map(|f| f.path()));
      }
    }
    files.sort();
    for f in files.iter().filter(|f| f.extension().is_some_and(|e| e == "toml")) {
      let Ok(txt) = std::fs::read_to_string(f) else { continue };
      // the files are fragments of one list: tables are written as [cameras.x] and [[cameras.modes]]
      let Ok(doc) = format!("[[cameras]]\n{txt}").parse::<toml::Table>() else { continue };
      for t in doc["cameras"].as_array().unwrap() {
        let t = t.as_table().unwrap();
        let mut c = Cam::default();
        c.apply(t);
        let mut modes = vec![c.clone()];
        for m in t.get("modes").and_then(|v| v.as_array()).into_iter().flatten() {
          let mut k = c.clone();
          k.apply(m.as_table().unwrap());
          modes.push(k);
        }
        let mut names = vec![(c.model.clone(), c.clean_model.clone())];
        for a in t.get("model_aliases").and_then(|v| v.as_array()).into_iter().flatten() {
          names.push((a[0].as_str().unwrap().into(), a[1].as_str().unwrap().into()));
        }
        for (m, cm) in names {
          for k in &modes {
            let mut k = k.clone();
            k.model = m.clone();
            k.clean_model = cm.clone();
            map.insert((k.make.clone(), k.model.clone(), k.mode.clone()), k);
          }
        }
      }
    }
    map.into_values().collect()
  })
}

pub fn pick_cam(r: &mut Rng, f: impl Fn(&Cam) -> bool) -> &'static Cam {
  let v: Vec<&Cam> = cams().iter().filter(|c| f(c)).collect();
  assert!(!v.is_empty());
  v[r.range(0, v.len() - 1)]
}

/// A width and a height that hold the borders and the masked areas of the camera
pub fn dims(r: &mut Rng, c: &Cam, ux: usize, uy: usize, max: usize) -> Option<(usize, usize)> {
  let a = c.active.unwrap_or_default();
  let k = c.crop.unwrap_or_default();
  let mut mw = (a[0] + a[2]).max(k[0] + k[2]) + 1;
  let mut mh = (a[1] + a[3]).max(k[1] + k[3]) + 1;
  if let Some(x) = c.av {
    mw = mw.max(x[0] + x[1]);
    mh += 2;
  }
  if let Some(x) = c.ah {
    mh = mh.max(x[0] + x[1]);
    mw += 2;
  }
  let w = (mw + r.range(1, max)).div_ceil(ux) * ux;
  let h = (mh + r.range(1, max)).div_ceil(uy) * uy;
  (w <= 1400 && h <= 1400 && w * h <= 400_000).then_some((w, h))
}

pub struct FileCase {
  pub bytes: Vec<u8>,
  pub kind: &'static str,
  pub ext: &'static str,
  pub cam: &'static Cam,
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub px: Vec<u16>,
  pub wb: [f32; 4],
  /// black level stored in the file, laid out as the CFA
  pub black: Option<Vec<f64>>,
  /// white level stored in the file
  pub white: Option<u32>,
  /// the white level of the camera description is meant for fewer bits
  pub white_shift: u32,
  pub crop: Option<[usize; 4]>,
  pub active: Option<[usize; 4]>,
  pub cfa: String,
  pub meta: Meta,
  pub be: bool,
  /// levels that hold whatever the camera description says
  pub levels: Option<(f64, u32)>,
  pub preview: Option<image::RgbImage>,
  pub xmp: Option<Vec<u8>>,
  pub desc: String,
}

pub fn borders(b: [usize; 4], w: usize, h: usize) -> [usize; 4] {
  [b[0], b[1], w - b[2], h - b[3]]
}

/// Some rectangle inside another one
pub fn inside(r: &mut Rng, a: [usize; 4]) -> [usize; 4] {
  let (cw, ch) = (r.range(1, a[2] - a[0]), r.range(1, a[3] - a[1]));
  let (x, y) = (r.range(a[0], a[2] - cw), r.range(a[1], a[3] - ch));
  [x, y, x + cw, y + ch]
}

impl FileCase {
  pub fn new(kind: &'static str, ext: &'static str, cam: &'static Cam, w: usize, h: usize, px: Vec<u16>, meta: Meta, be: bool) -> Self {
    FileCase {
      bytes: vec![],
      kind,
      ext,
      cam,
      w,
      h,
      cpp: 1,
      px,
      wb: [f32::NAN; 4],
      black: None,
      white: None,
      white_shift: 0,
      crop: cam.crop.map(|b| borders(b, w, h)),
      active: cam.active.map(|b| borders(b, w, h)),
      cfa: cam.cfa.clone(),
      meta,
      be,
      levels: None,
      preview: None,
      xmp: None,
      desc: format!("{kind} {} {} {w}x{h} be={be}", cam.make, cam.model),
    }
  }
}

/* ---------- structures ---------- */

/// A directory with everything it refers to, for placement at `pos`; stored offsets are relative to `-base`
pub fn block(be: bool, d: &WDir, pos: usize, base: i64) -> Vec<u8> {
  let bo = BO(be);
  let mut ents = d.ents.clone();
  for (p, l) in &d.subs {
    ents.push(bo.u32s(*p, &vec![0; l.len()]));
  }
  ents.sort_by_key(|e| e.tag);
  let p16 = |v: u16| if be { v.to_be_bytes() } else { v.to_le_bytes() };
  let p32 = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
  let mut table = p16(ents.len() as u16).to_vec();
  let tl = 2 + ents.len() * 12 + 4;
  let mut rest: Vec<u8> = vec![];
  let at = |rest: &Vec<u8>| (pos + tl + rest.len()) as i64 + base;
  for e in &ents {
    let mut e = e.clone();
    if let Some((_, l)) = d.subs.iter().find(|s| s.0 == e.tag) {
      let mut offs = vec![];
      for s in l {
        if rest.len() % 2 == 1 {
          rest.push(0);
        }
        offs.push(at(&rest) as u32);
        let b = block(be, s, pos + tl + rest.len(), base);
        rest.extend(b);
      }
      e = bo.u32s(e.tag, &offs);
    }
    table.extend(p16(e.tag));
    table.extend(p16(e.typ));
    table.extend(p32(e.count));
    if e.data.len() <= 4 {
      let mut f = e.data.clone();
      f.resize(4, 0);
      table.extend(f);
    } else {
      if rest.len() % 2 == 1 {
        rest.push(0);
      }
      table.extend(p32(at(&rest) as u32));
      rest.extend(&e.data);
    }
  }
  table.extend(p32(0));
  table.extend(rest);
  table
}

/// Maker note: header, IFD, further bytes; `f(position in the file)` renders it
pub type Maker<'a> = &'a dyn Fn(usize) -> Vec<u8>;

pub fn maker_header(head: &[u8], be: bool, d: &WDir, relative: bool) -> impl Fn(usize) -> Vec<u8> {
  let (head, d) = (head.to_vec(), d.clone());
  move |at: usize| {
    let mut v = head.clone();
    let n = v.len();
    v.extend(block(be, &d, n, if relative { 0 } else { at as i64 }));
    v.resize(v.len().max(64), 0);
    v
  }
}

pub struct Asm {
  pub be: bool,
  pub root: WDir,
  pub raw: WDir,
  pub exif: WDir,
  pub gps: Option<WDir>,
  /// further directories listed before the raw one
  pub extra: Vec<WDir>,
  /// forms of offset tables, if not arbitrary
  pub style: Option<u32>,
}

impl Asm {
  pub fn new(r: &mut Rng, be: bool, cam: Option<&Cam>) -> (Asm, Meta) {
    let bo = BO(be);
    let mut meta = gen_meta(r, be);
    meta.root.retain(|e| matches!(e.tag, 33432 | 315 | 306));
    meta.raw.clear();
    let mut root = WDir::default();
    for e in &meta.root {
      root.put(e.clone());
    }
    if let Some(c) = cam {
      let pad = if r.chance(1, 4) { "  " } else { "" };
      root.put(bo.ascii(271, &format!("{}{pad}", c.make)));
      root.put(bo.ascii(272, &format!("{}{pad}", c.model)));
    }
    let exif = meta.exif.clone().unwrap_or_default();
    let gps = meta.gps.clone();
    (Asm { be, root, raw: WDir::default(), exif, gps, extra: vec![], style: None }, meta)
  }

  pub fn image(&mut self, w: usize, h: usize, bits: u16, compression: u32) {
    let bo = BO(self.be);
    let d = &mut self.raw;
    if compression > 65535 || (w + h) % 3 == 0 {
      d.put(bo.u32s(256, &[w as u32])).put(bo.u32s(257, &[h as u32]));
    } else {
      d.put(bo.u16s(256, &[w as u16])).put(bo.u16s(257, &[h as u16]));
    }
    d.put(bo.u16s(258, &[bits]));
    d.put(bo.u16s(259, &[compression as u16]));
    d.put(bo.u16s(262, &[32803]));
    d.put(bo.u16s(277, &[1]));
    d.put(bo.u16s(278, &[h as u16]));
    d.put(bo.u16s(0x828D, &[2, 2]));
    d.put(bo.bytes(0x828E, &[0, 1, 1, 2]));
  }

  /// place: 0 in the root directory, 1 sub directory, 2 next directory
  pub fn write(mut self, r: &mut Rng, place: usize, prefix: &[u8], maker: Option<Maker>) -> Vec<u8> {
    let bo = BO(self.be);
    let mut mark = vec![];
    if let Some(m) = maker {
      mark = r.bytes(m(0).len().max(16));
      self.exif.put(bo.undef(0x927C, &mark));
    }
    if !self.exif.ents.is_empty() {
      self.root.subs.push((0x8769, vec![self.exif]));
    }
    if let Some(g) = self.gps {
      self.root.subs.push((0x8825, vec![g]));
    }
    let mut roots = vec![];
    match place {
      0 => {
        for e in self.raw.ents {
          self.root.put(e);
        }
        self.root.payload = self.raw.payload;
        self.root.subs.extend(self.raw.subs);
        roots.push(self.root);
      }
      1 => {
        self.extra.push(self.raw);
        self.root.subs.push((330, self.extra));
        roots.push(self.root);
      }
      _ => {
        if !self.extra.is_empty() {
          self.root.subs.push((330, self.extra));
        }
        roots.push(self.root);
        roots.push(self.raw);
      }
    }
    let mut out = TiffOut::write_styled(self.be, 0, &roots, prefix, self.style);
    if let Some(m) = maker {
      let at = out.windows(mark.len()).position(|w| w == mark).unwrap();
      let body = m(at);
      out[at..at + body.len()].copy_from_slice(&body);
    }
    out
  }
}

/// One strip, or several contiguous ones
pub fn strips(r: &mut Rng, data: Vec<u8>) -> Payload {
  let mut chunks = vec![];
  if r.chance(1, 3) && data.len() > 64 {
    let n = (data.len() / r.range(2, 5) / 2 * 2).max(2);
    chunks.extend(data.chunks(n).map(|c| c.to_vec()));
  } else {
    chunks.push(data);
  }
  Payload { chunks, tiled: false }
}

pub fn thumb(r: &mut Rng, a: &mut Asm) {
  // an uncompressed thumbnail in the root directory
  let bo = BO(a.be);
  let (w, h) = (r.range(1, 9), r.range(1, 9));
  a.root.put(bo.u32s(256, &[w as u32])).put(bo.u32s(257, &[h as u32]));
  a.root.put(bo.u16s(258, &[8, 8, 8])).put(bo.u16s(259, &[1])).put(bo.u16s(262, &[2])).put(bo.u16s(277, &[3]));
  a.root.put(bo.u32s(254, &[1]));
  a.root.payload = Some(Payload { chunks: vec![r.bytes(w * h * 3)], tiled: false });
}

/* ---------- formats ---------- */

fn mef(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "Mamiya-OP Co.,Ltd." && c.mode.is_empty());
  let be = r.bool();
  let (w, h) = dims(r, cam, 2, 1, 48)?;
  let px = samples(r, w, h, 12);
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, 12, 1);
  let data = pack(r, 3, &px, w);
  a.raw.payload = Some(strips(r, data));
  let place = r.range(0, 2);
  if place > 0 && r.bool() {
    thumb(r, &mut a);
  }
  let mut f = FileCase::new("MEF", "mef", cam, w, h, px, meta, be);
  f.bytes = a.write(r, place, &[], None);
  Some(f)
}

fn erf(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "SEIKO EPSON CORP." && c.mode.is_empty());
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = dims(r, cam, 10, 1, 48)?;
  let px = samples(r, w, h, 12);
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, 12, 1);
  let data = pack(r, 8, &px, w);
  a.raw.payload = Some(strips(r, data));
  let place = r.range(0, 2);
  if place > 0 && r.bool() {
    thumb(r, &mut a);
  }
  let mut f = FileCase::new("ERF", "erf", cam, w, h, px, meta, be);
  let mut m = WDir::default();
  let mut wbd = r.bytes(256);
  let (red, blue) = (r.range(1, 65535) as u16, r.range(1, 65535) as u16);
  wbd[48..50].copy_from_slice(&red.to_be_bytes());
  wbd[50..52].copy_from_slice(&blue.to_be_bytes());
  m.put(bo.undef(0x0E80, &wbd));
  f.wb = [(red as f64 * 508.0 * 1.078 / 65536.0) as f32, 1.0, (blue as f64 * 382.0 * 1.173 / 65536.0) as f32, f32::NAN];
  if r.bool() {
    let b: Vec<u16> = (0..4).map(|_| r.u16() & 255).collect();
    m.put(bo.u16s(0x0401, &b));
    f.black = Some(b.iter().map(|x| *x as f64).collect());
  }
  let head: &[u8] = *r.pick(&[&b"EPSON\0\x01\0"[..], b""]);
  f.bytes = a.write(r, place, &[], Some(&maker_header(head, be, &m, false)));
  Some(f)
}

fn dcs(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "KODAK" && c.mode.is_empty());
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = dims(r, cam, 2, 1, 48)?;
  let top = *r.pick(&[4095u32, 16383, 65535]);
  let table = p09::curve(r, 256, top);
  let codes: Vec<u8> = samples(r, w, h, 8).iter().map(|x| *x as u8).collect();
  let cv = p09::Curve(table.clone());
  let mut px = vec![];
  for row in codes.chunks(w) {
    let mut rnd = u32::from_le_bytes(row[..4].try_into().ok()?);
    row.iter().for_each(|b| px.push(cv.get(*b as u16, &mut rnd)));
  }
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, 8, 1);
  a.raw.put(bo.u32s(254, &[0]));
  a.raw.payload = Some(strips(r, codes));
  let place = r.range(0, 2);
  if place > 0 && r.bool() {
    thumb(r, &mut a);
  }
  a.root.put(if r.bool() { bo.u16s(0x0123, &table) } else { bo.u32s(0x0123, &table.iter().map(|x| *x as u32).collect::<Vec<_>>()) });
  let mut f = FileCase::new("DCS", "dcs", cam, w, h, px, meta, be);
  f.bytes = a.write(r, place, &[], None);
  Some(f)
}

fn dcr(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "Kodak" && c.mode.is_empty() && c.model != "DCS560C");
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = dims(r, cam, 4, 1, 60)?;
  let v = samples(r, w, h, 10);
  let top = *r.pick(&[4095u32, 16383]);
  let table = p09::curve(r, 1024, top);
  let data = p09::kodak65000(&v, w)?;
  let cv = p09::Curve(table.clone());
  let mut rnd = 0;
  let px: Vec<u16> = v.iter().map(|x| cv.get(*x, &mut rnd)).collect();
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, 8, 65000);
  a.raw.payload = Some(strips(r, data));
  let place = r.range(0, 2);
  if place > 0 && r.bool() {
    thumb(r, &mut a);
  }
  let mut f = FileCase::new("DCR", "dcr", cam, w, h, px, meta, be);
  let mut k = WDir::default();
  k.put(if r.bool() { bo.u16s(0x090D, &table) } else { bo.u32s(0x090D, &table.iter().map(|x| *x as u32).collect::<Vec<_>>()) });
  if r.bool() {
    let n = r.range(46, 80);
    let mut b = r.bytes(n);
    for (i, slot) in f.wb.iter_mut().take(3).enumerate() {
      let v = r.range(1, 8000) as u16;
      b[40 + 2 * i..42 + 2 * i].copy_from_slice(&v.to_be_bytes());
      *slot = 2048.0 / v as f32;
    }
    k.put(bo.undef(0x03FD, &b));
  } else {
    let n = r.range(5, 45);
    k.put(bo.undef(0x03FD, &r.bytes(n)));
  }
  a.root.subs.push((0x8290, vec![k]));
  f.bytes = a.write(r, place, &[], None);
  Some(f)
}

fn kdc(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "EASTMAN KODAK COMPANY" && c.mode.is_empty() && c.raw.is_none());
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = (80 + 2 * r.range(1, 40), 70 + r.range(1, 40));
  let px = samples(r, w, h, 12);
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  let data = pack(r, 3, &px, w);
  let mut prefix = vec![];
  let (mut x, mut y) = (8u32, 0);
  if cam.hint("easyshare_offset_hack") {
    // what the file says only selects one of two places
    let far = r.bool();
    prefix = r.bytes(if far { 0x17000 } else { 0x15000 } - 8);
    (x, y) = if far { (0x15000 + r.range(0, 100) as u32, r.range(0, 100) as u32) } else { (r.range(8, 0x14000) as u32, r.range(0, 0xfff) as u32) };
  } else if r.bool() {
    let n = r.range(1, 300);
    prefix = r.bytes(n);
    let o = 8 + n as u32;
    y = r.range(0, o as usize) as u32;
    x = o - y;
  }
  prefix.extend(data);
  let mut offs: Vec<u32> = (0..r.range(13, 20)).map(|_| r.u32() >> 8).collect();
  offs[4] = x;
  offs[12] = y;
  let mut d = WDir::default();
  d.put(bo.u32s(0xFD00, &[w as u32 - 80])).put(bo.u32s(0xFD01, &[h as u32 - 70])).put(bo.u32s(0xFD04, &offs));
  a.raw = d;
  let mut f = FileCase::new("KDC", "kdc", cam, w, h, px, meta, be);
  if f.active.is_some_and(|a| a[0] >= a[2] || a[1] >= a[3]) {
    return None;
  }
  let mut m = WDir::default();
  let with = r.range(0, 2);
  match with {
    0 => {
      let v: Vec<(u32, u32)> = (0..3).map(|_| (r.range(1, 4000) as u32, r.range(1, 2000) as u32)).collect();
      for i in 0..3 {
        f.wb[i] = v[i].0 as f32 / v[i].1 as f32;
      }
      m.put(bo.rats(0xFA2A, &v));
    }
    1 => {
      let n = *r.pick(&[734usize, 1502, 1512, 2288]);
      let mut b = r.bytes(n);
      let (x, y) = (r.range(1, 2000) as u16, r.range(1, 2000) as u16);
      b[148..150].copy_from_slice(&x.to_be_bytes());
      b[150..152].copy_from_slice(&y.to_be_bytes());
      m.put(bo.undef(0x0F00, &b));
      f.wb = [x as f32 / 256.0, 1.0, y as f32 / 256.0, f32::NAN];
    }
    _ => (),
  }
  let mk = maker_header(b"", be, &m, false);
  let place = r.range(0, 2);
  f.bytes = a.write(r, place, &prefix, if with < 2 { Some(&mk) } else { None });
  Some(f)
}

fn ari(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "ARRI" && c.mode.is_empty());
  let (w, h) = dims(r, cam, 8, 1, 64)?;
  let px = samples(r, w, h, 12);
  let le = cam.hint("little-endian");
  let off = r.range(0xa98 / 4 + 1, 1200) * 4;
  let mut b = r.bytes(off);
  b[..4].copy_from_slice(b"ARRI");
  let put = |b: &mut Vec<u8>, o: usize, v: u32| b[o..o + 4].copy_from_slice(&v.to_le_bytes());
  put(&mut b, 8, off as u32);
  put(&mut b, 0x14, w as u32);
  put(&mut b, 0x18, h as u32);
  let mut m = [0u8; 30];
  m[..cam.model.len()].copy_from_slice(cam.model.as_bytes());
  b[668..698].copy_from_slice(&m);
  let wb: Vec<f32> = (0..3).map(|_| 0.3 + r.f32() * 3.0).collect();
  for i in 0..3 {
    put(&mut b, 100 + 4 * i, wb[i].to_bits());
  }
  let bo = BO(false);
  let (asa, exp, foc) = (r.range(50, 3200) as u32, r.range(1, 1_000_000) as u32, r.range(8000, 300_000) as u32);
  put(&mut b, 0x74, asa);
  put(&mut b, 0x18c, exp);
  put(&mut b, 0x37c, foc);
  for x in &mut b[0x398..0x398 + 32] {
    *x = 0;
  }
  b.extend(pack(r, if le { 11 } else { 6 }, &px, w));
  let mut e = WDir::default();
  e.put(bo.rats(0x829a, &[(exp, 1_000_000)])).put(bo.rats(0x920a, &[(foc, 1000)])).put(bo.u32s(0x8832, &[asa])).put(bo.u16s(0x8830, &[2]));
  let meta = Meta { root: vec![], raw: vec![], exif: Some(e), gps: None };
  let mut f = FileCase::new("ARI", "ari", cam, w, h, px, meta, false);
  f.wb = [wb[0], wb[1], wb[2], f32::NAN];
  f.bytes = b;
  Some(f)
}

fn mrw(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| (c.make.starts_with("Minolta") || c.make.starts_with("KONICA MINOLTA") || c.make.starts_with("Konica Minolta Camera")) && c.mode.is_empty());
  let (w, h) = dims(r, cam, 2, 1, 48)?;
  let px = samples(r, w, h, 12);
  let (a, meta) = Asm::new(r, true, Some(cam));
  let packed = r.bool();
  let data = pack(r, if packed { 3 } else { 13 }, &px, w);
  let mut f = FileCase::new("MRW", "mrw", cam, w, h, px, meta, true);
  let mut root = a.root;
  if !a.exif.ents.is_empty() {
    root.subs.push((0x8769, vec![a.exif]));
  }
  if let Some(g) = a.gps {
    root.subs.push((0x8825, vec![g]));
  }
  let wb: [u16; 4] = std::array::from_fn(|_| r.range(1, 2000) as u16);
  let v = wb.map(|x| x as f32);
  let o = if cam.hint("swapped_wb") { [v[2], v[0], v[0], v[1]] } else { v };
  f.wb = [o[0] / o[1], (1.0 + o[2] / o[1]) / 2.0, o[3] / o[1], f32::NAN];
  let mut prd = r.bytes(24);
  prd[8..10].copy_from_slice(&(h as u16).to_be_bytes());
  prd[10..12].copy_from_slice(&(w as u16).to_be_bytes());
  prd[16] = if packed { 12 } else { 16 };
  let mut wbg = r.bytes(12);
  for i in 0..4 {
    wbg[4 + 2 * i..6 + 2 * i].copy_from_slice(&wb[i].to_be_bytes());
  }
  let mut ttw = b"MM\0\x2a\0\0\0\x08".to_vec();
  ttw.extend(block(true, &root, 8, 0));
  let mut blocks: Vec<(&[u8; 4], Vec<u8>)> = vec![(b"\0PRD", prd), (b"\0TTW", ttw), (b"\0WBG", wbg)];
  for i in (1..3).rev() {
    blocks.swap(i, r.range(0, i));
  }
  if r.bool() {
    let n = r.range(16, 200);
    blocks.insert(r.range(0, 3), (b"\0RIF", r.bytes(n)));
  }
  let mut b = vec![];
  for (t, d) in blocks {
    b.extend(t);
    b.extend((d.len() as u32).to_be_bytes());
    b.extend(d);
  }
  // padding block so that every block is far enough from the image
  b.extend(b"\0PAD");
  b.extend(16u32.to_be_bytes());
  b.extend(r.bytes(16));
  let mut out = b"\0MRM".to_vec();
  out.extend((b.len() as u32).to_be_bytes());
  out.extend(b);
  out.extend(data);
  f.desc += if packed { " packed" } else { " unpacked" };
  f.bytes = out;
  Some(f)
}

fn tfr(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "Hasselblad" && c.mode.is_empty());
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = dims(r, cam, 2, 1, 60)?;
  let bits = if cam.hint("uncompressed") { 16 } else { r.range(10, 15) as u32 };
  let px = samples(r, w, h, bits);
  let data = if cam.hint("uncompressed") { pack(r, 18, &px, w) } else { refljpeg::encode_simple(&px, w / 2, h, 2, bits, *r.pick(&[1u8, 1, 1, 1])) };
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, bits as u16, 7);
  a.raw.payload = Some(strips(r, data));
  let mut f = FileCase::new("3FR", "3fr", cam, w, h, px, meta, be);
  let white = r.range(1000, 65535) as u16;
  a.raw.put(bo.u16s(50717, &[white]));
  f.white = Some(white as u32);
  if r.bool() {
    let b = r.u16() & 511;
    a.raw.put(bo.u16s(0xC61A, &[b]));
    f.black = Some(vec![b as f64]);
  }
  if r.bool() {
    let [x, y, x1, y1] = inside(r, f.active.unwrap_or([0, 0, w, h]));
    let (cw, ch) = (x1 - x, y1 - y);
    let (o, s) = ([x as u32, y as u32], [cw as u32, ch as u32]);
    if r.bool() {
      a.raw.put(bo.u32s(50719, &o)).put(bo.u32s(50720, &s));
    } else {
      a.raw.put(bo.rats(50719, &o.map(|v| (v, 1)))).put(bo.rats(50720, &s.map(|v| (v, 1))));
    }
    f.crop = Some([x, y, x + cw, y + ch]);
  }
  let n: Vec<(u32, u32)> = (0..3).map(|_| (r.range(100, 2000) as u32, r.range(100, 2000) as u32)).collect();
  a.root.put(bo.rats(50728, &n));
  f.wb = [n[0].1 as f32 / n[0].0 as f32, n[1].1 as f32 / n[1].0 as f32, n[2].1 as f32 / n[2].0 as f32, f32::NAN];
  if r.bool() {
    let x = format!("<x:xmpmeta>{}</x:xmpmeta>", r.u32()).into_bytes();
    a.root.put(bo.bytes(700, &x));
    f.xmp = Some(x);
  }
  let place = r.range(1, 2);
  {
    let (pw, ph) = (r.range(1, 9), r.range(1, 9));
    let p = r.bytes(pw * ph * 3);
    a.root.put(bo.u32s(254, &[1])).put(bo.u32s(256, &[pw as u32])).put(bo.u32s(257, &[ph as u32]));
    a.root.put(bo.u16s(258, &[8, 8, 8])).put(bo.u16s(259, &[1])).put(bo.u16s(262, &[2])).put(bo.u16s(277, &[3]));
    a.root.payload = Some(Payload { chunks: vec![p.clone()], tiled: false });
    f.preview = image::RgbImage::from_raw(pw as u32, ph as u32, p);
  }
  f.bytes = a.write(r, place, &[], None);
  Some(f)
}

fn mos(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "Leaf" && c.mode.is_empty());
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = dims(r, cam, 2, 1, 60)?;
  let (mut a, meta) = Asm::new(r, be, None);
  let raw = r.bool();
  let prec = *r.pick(&[14u32, 16]);
  let v = samples(r, w, h, prec);
  let data = if raw { pack(r, if be { 20 } else { 18 }, &v, w) } else { p09::mos(r, &v, w, h, prec) };
  let px = if !raw && cam.hint("interlaced") {
    let mut e = vec![0; w * h];
    for (row, line) in v.chunks(w).enumerate() {
      let o = if row & 1 == 1 { h - 1 - row / 2 } else { row / 2 };
      e[o * w..][..w].copy_from_slice(line);
    }
    e
  } else {
    v
  };
  a.image(w, h, 16, if raw { 1 } else { *r.pick(&[7, 99]) });
  a.raw.payload = Some(Payload { chunks: vec![data], tiled: true });
  a.raw.put(bo.u32s(322, &[w as u32])).put(bo.u32s(323, &[h as u32]));
  a.root.put(bo.ascii(305, "Camera Library"));
  let tail = *r.pick(&["", "(LI300001   )"]);
  let xmp = format!("<x:xmpmeta><tiff:Make>{}</tiff:Make>{}<tiff:Model>{}{tail}</tiff:Model></x:xmpmeta>", cam.make, r.u32(), cam.model);
  a.root.put(bo.bytes(700, xmp.as_bytes()));
  let mut f = FileCase::new("MOS", "mos", cam, w, h, px, meta, be);
  let n = r.range(20, 200);
  let mut m: Vec<u8> = r.bytes(n).iter().map(|b| b & 0x3f).collect();
  if r.bool() {
    let v: [u32; 4] = std::array::from_fn(|_| r.range(1, 4000) as u32);
    m.extend(b"NeutObj_neutrals");
    let k = m.len() + 28;
    m.resize(k, 0);
    m.extend(format!("{}\n{}\n{}\n{}\n\0", v[0], v[1], v[2], v[3]).as_bytes());
    m.resize(m.len() + 80, 0);
    let q = v.map(|x| x as f32);
    f.wb = [q[0] / q[1], q[0] / q[2], q[0] / q[3], f32::NAN];
  }
  a.root.put(bo.undef(0x8606, &m));
  let place = r.range(0, 2);
  f.desc += if raw { " raw" } else { " ljpeg" };
  f.bytes = a.write(r, place, &[], None);
  Some(f)
}

/// A JPEG of a smooth picture
pub fn jpeg(r: &mut Rng) -> (Vec<u8>, image::RgbImage) {
  let (w, h) = (8 * r.range(1, 6) as u32, 8 * r.range(1, 6) as u32);
  let c: [u32; 3] = std::array::from_fn(|_| r.range(0, 150) as u32);
  let img = image::RgbImage::from_fn(w, h, |x, y| image::Rgb([(c[0] + x) as u8, (c[1] + y) as u8, (c[2] + (x + y) / 2) as u8]));
  let mut v = vec![];
  image::codecs::jpeg::JpegEncoder::new_with_quality(&mut v, 98).encode_image(&img).unwrap();
  (v, img)
}

fn pef(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| (c.make.starts_with("PENTAX") || c.make == "RICOH IMAGING COMPANY, LTD.") && c.mode.is_empty());
  let be = r.bool();
  let bo = BO(be);
  let (w, h) = dims(r, cam, 2, 1, 48)?;
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  // the maker note may have its own byte order
  let head = r.range(0, 3);
  let mbe = match head {
    0 => be,
    _ => r.bool(),
  };
  let mo = BO(mbe);
  let mut m = WDir::default();
  let comp = *r.pick(&[1u32, 32773, 65535, 65535]);
  let (px, data) = match comp {
    1 => {
      let v = samples(r, w, h, 16);
      let d = pack(r, 20, &v, w);
      (v, d)
    }
    32773 => {
      let v = samples(r, w, h, 12);
      let d = pack(r, 3, &v, w);
      (v, d)
    }
    _ => {
      if r.bool() {
        let n = r.range(13, 15);
        let v = samples(r, w, h, n as u32 - 1);
        let (blob, tab) = p09::pef_table(r, n, be);
        m.put(mo.undef(0x0220, &blob));
        let d = p09::pef(&v, w, &tab)?;
        (v, d)
      } else {
        let v = samples(r, w, h, 12);
        let d = p09::pef(&v, w, &p09::by_symbol(&p09::PENTAX_BITS, &p09::PENTAX_VALS))?;
        (v, d)
      }
    }
  };
  a.image(w, h, 16, comp);
  a.raw.payload = Some(strips(r, data));
  let mut f = FileCase::new("PEF", "pef", cam, w, h, px, meta, be);
  if r.chance(4, 5) {
    let v: [u16; 4] = std::array::from_fn(|_| r.range(1, 60000) as u16);
    m.put(mo.u16s(0x0201, &v));
    let q = v.map(|x| x as f32);
    f.wb = [q[0] / q[1], (1.0 + q[2] / q[1]) / 2.0, q[3] / q[1], f32::NAN];
  }
  if r.chance(4, 5) {
    let v: [u16; 4] = std::array::from_fn(|_| r.u16() & 1023);
    m.put(mo.u16s(0x0200, &v));
    f.black = Some(if cam.cfa.is_empty() { vec![v[0] as f64] } else { v.iter().map(|x| *x as f64).collect() });
  }
  let mut prefix = vec![];
  let mut pos = 0;
  if r.bool() {
    let (j, img) = jpeg(r);
    let b: [u8; 4] = std::array::from_fn(|_| r.range(0, 3) as u8);
    let borders = r.bool();
    m.put(mo.u16s(0x0002, &[img.width() as u16, img.height() as u16]));
    m.put(mo.u32s(0x0003, &[j.len() as u32]));
    m.put(mo.u32s(0x0004, &[0xDEAD_0000]));
    if borders {
      m.put(mo.bytes(0x003e, &b));
      let (x, y) = (b[2] as u32, b[0] as u32);
      f.preview = Some(image::imageops::crop_imm(&img, x, y, img.width() - x - b[3] as u32, img.height() - y - b[1] as u32).to_image());
    } else {
      f.preview = Some(img);
    }
    let n = r.range(0, 30) * 2;
    prefix = r.bytes(n);
    pos = 8 + prefix.len();
    prefix.extend(j);
    if prefix.len() % 2 == 1 {
      prefix.push(0);
    }
  }
  let relative_preview = head == 3 && false;
  let _ = relative_preview;
  let mk = move |at: usize| {
    let mut m = m.clone();
    if let Some(e) = m.ents.iter_mut().find(|e| e.tag == 4) {
      *e = BO(mbe).u32s(4, &[pos as u32]);
    }
    match head {
      0 => maker_header(b"AOC\0", mbe, &m, false)(at),
      1 => maker_header(if mbe { b"AOC\0MM" } else { b"AOC\0II" }, mbe, &m, false)(at),
      _ => {
        let mut h = b"PENTAX \0".to_vec();
        h.extend(if mbe { b"MM" } else { b"II" });
        maker_header(&h, mbe, &m, true)(at)
      }
    }
  };
  f.desc += &format!(" compression {comp} head {head}");
  let place = r.range(0, 2);
  f.bytes = a.write(r, place, &prefix, Some(&mk));
  Some(f)
}

fn orf(r: &mut Rng) -> Option<FileCase> {
  let cam0 = pick_cam(r, |c| (c.make.starts_with("OLYMPUS") || c.make == "OM Digital Solutions") && c.mode.is_empty());
  let mut cam = cam0;
  let head = if r.chance(1, 4) { 16 } else if r.chance(1, 4) { 8 } else { 12 };
  let be = head != 16 && r.bool();
  let bo = BO(be);
  let has_ip = head != 8 && r.chance(4, 5);
  let (mut w, mut h) = dims(r, cam, 40, 4, 80)?;
  if let Some(hw) = cam0.highres {
    if r.bool() {
      w = (hw + r.range(0, 40)).div_ceil(40) * 40;
      h = h.min(120);
      cam = cams().iter().find(|c| c.make == cam0.make && c.model == cam0.model && c.mode == "highres")?;
      let (_, mh) = dims(r, cam, 2, 2, 1)?;
      h = h.max(mh);
    }
  }
  h = h.max(8);
  let bps = if has_ip && r.chance(1, 3) { 14 } else { 12 };
  let mode = r.range(0, 3);
  let mut wide = None;
  let (px, data) = match mode {
    0 => {
      let v = samples(r, w, h, 12);
      let d = pack(r, if be { 14 } else { 15 }, &v, w);
      (v, d)
    }
    1 => {
      let v = samples(r, w, h, 12);
      let d = pack(r, 7, &v, w);
      (v, d)
    }
    2 => {
      let v = samples(r, w, h, 12);
      let il = cam0.hint("interlaced");
      let d = pack(r, if il { 9 } else { 6 }, &v, w);
      wide = il.then_some(w * h * 3 / 2);
      (v, d)
    }
    _ => {
      let v = samples(r, w, h, 12);
      let mut d = r.bytes(if bps == 14 { 8 } else { 7 });
      d.extend(p09::orf(&v, w, h)?);
      if d.len() + 4 >= w * h * 3 / 2 {
        return None;
      }
      (v, d)
    }
  };
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, 16, 1);
  let n = data.len();
  a.raw.payload = Some(if wide.is_some() { Payload { chunks: vec![data], tiled: false } } else { strips(r, data) });
  let mut f = FileCase::new("ORF", "orf", cam, w, h, px, meta, be);
  f.cfa = cam0.cfa.clone();
  let mut m = WDir::default();
  let mut ip = WDir::default();
  let direct = !has_ip || r.bool();
  let (x, y) = (r.range(1, 2000) as u16, r.range(1, 2000) as u16);
  f.wb = [x as f32 / 256.0, 1.0, y as f32 / 256.0, f32::NAN];
  if direct {
    m.put(bo.u16s(0x1017, &[x, 256]));
    m.put(bo.u16s(0x1018, &[y, 256]));
  }
  if has_ip {
    // if the direct values are there, these are not the ones to use
    let (p, q) = if direct { (r.u16() | 1, r.u16() | 1) } else { (x, y) };
    ip.put(bo.u16s(0x0100, &[p, q]));
    let b: [u16; 4] = std::array::from_fn(|_| r.u16() & 511);
    ip.put(bo.u16s(0x0600, &b));
    f.black = Some(b.iter().map(|v| if bps == 14 { *v as f64 * 4.0 } else { *v as f64 }).collect());
    if bps == 14 || r.bool() {
      ip.put(bo.u16s(0x0611, &[bps as u16, 0]));
    }
    if r.bool() {
      let [cx, cy, x1, y1] = inside(r, f.active.unwrap_or([0, 0, w, h]));
      let (cw, ch) = (x1 - cx, y1 - cy);
      ip.put(bo.u16s(0x0612, &[cx as u16])).put(bo.u16s(0x0613, &[cy as u16]));
      ip.put(bo.u32s(0x0614, &[cw as u32])).put(bo.u32s(0x0615, &[ch as u32]));
      f.crop = Some([cx, cy, cx + cw, cy + ch]);
    }
    if bps == 14 {
      f.white_shift = 2;
    }
    m.put(bo.undef(0x2040, &[0]));
  }
  let mk = move |at: usize| {
    let hd: &[u8] = match head {
      8 => b"OLYMP\0\x01\0",
      12 => {
        if be {
          b"OLYMPUS\0MM\0\x03"
        } else {
          b"OLYMPUS\0II\x03\0"
        }
      }
      _ => b"OM SYSTEM\0\0\0II\x04\0",
    };
    let mut m = m.clone();
    let plain = maker_header(hd, be, &m, false)(at);
    // the processing directory follows; its place and its values count from the start of the maker note
    let start = plain.len().div_ceil(2) * 2;
    if let Some(e) = m.ents.iter_mut().find(|e| e.tag == 0x2040) {
      // type UNDEFINED, one value, yet the field holds a 32 bit offset
      e.data = if be { (start as u32).to_be_bytes() } else { (start as u32).to_le_bytes() }.to_vec();
    }
    let mut v = maker_header(hd, be, &m, false)(at);
    v.resize(start, 0);
    v.extend(block(be, &ip, start, 0));
    v.resize(v.len() + 32, 0);
    v
  };
  let place = if r.bool() { 0 } else { r.range(1, 2) };
  let mut out = a.write(r, place, &[], Some(&mk));
  if let Some(total) = wide {
    // the gap between the fields belongs to no strip
    let t = Tiff::parse(&out).ok()?;
    let e = t.all_dirs().into_iter().find(|d| d.get(273).is_some())?.get(279)?.clone();
    if e.count != 1 || e.uint(0)? as usize != n {
      return None;
    }
    if e.typ == 3 {
      out[e.off..e.off + 2].copy_from_slice(&if be { (total as u16).to_be_bytes() } else { (total as u16).to_le_bytes() });
    } else {
      out[e.off..e.off + 4].copy_from_slice(&if be { (total as u32).to_be_bytes() } else { (total as u32).to_le_bytes() });
    }
  }
  f.desc += &format!(" mode {mode} bps {bps} head {head} ip {has_ip} direct {direct}");
  f.bytes = out;
  Some(f)
}

fn srw(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "SAMSUNG" && c.mode.is_empty());
  let be = r.bool();
  let bo = BO(be);
  let kind = r.range(0, 5);
  let (w, h) = dims(r, cam, 16, 2, 64)?;
  let mut areas = None;
  let (px, data, comp, bits) = match kind {
    0 => {
      let bits = *r.pick(&[12u32, 14]);
      let v = samples(r, w, h, bits);
      let d = pack(r, if bits == 12 { 12 } else { 16 }, &v, w);
      (v, d, 32769, bits)
    }
    1 => {
      let v = samples(r, w, h, 12);
      let d = pack(r, if cam.hint("little_endian") { 11 } else { 3 }, &v, w);
      (v, d, 32770, 12)
    }
    2 => {
      let v = samples(r, w, h, 14);
      let d = pack(r, 16, &v, w);
      (v, d, 32770, 14)
    }
    3 => {
      let bps = r.range(8, 13) as u32;
      let v = samples(r, w, h, bps);
      let (o, d) = p09::srw1(r, &v, w, h)?;
      areas = Some(o.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
      (v, d, 32770, 12)
    }
    4 => {
      let v = samples(r, w, h, 12);
      let d = p09::srw2(&v, w, h)?;
      (v, d, 32772, 12)
    }
    _ => {
      let depth = *r.pick(&[12u32, 14]);
      let v = samples(r, w, h, depth);
      let (d, e, _) = p09::srw3(r, &v, w, h, depth);
      (e, d, 32773, depth)
    }
  };
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.image(w, h, bits as u16, comp);
  a.raw.payload = Some(strips(r, data));
  let mut prefix = vec![];
  if let Some(t) = areas {
    let n = r.range(0, 20) * 2;
    prefix = r.bytes(n);
    a.raw.put(bo.u32s(0xA010, &[8 + n as u32]));
    prefix.extend(t);
  }
  let mut f = FileCase::new("SRW", "srw", cam, w, h, px, meta, be);
  let lv: [u32; 4] = std::array::from_fn(|_| r.range(1000, 20000) as u32);
  let bl: [u32; 4] = std::array::from_fn(|_| r.range(0, 900) as u32);
  let mut m = WDir::default();
  m.put(bo.u32s(0xA021, &lv)).put(bo.u32s(0xA028, &bl));
  let q = |i: usize| (lv[i] as f32 - bl[i] as f32) / 4096.0;
  f.wb = [q(0), q(1), q(3), f32::NAN];
  f.black = Some(vec![0.0; 4]);
  // offsets in the maker note count from its directory
  let mk = move |at: usize| maker_header(b"", be, &m, true)(at);
  let place = r.range(0, 2);
  f.desc += &format!(" kind {kind} bits {bits}");
  f.bytes = a.write(r, place, &prefix, Some(&mk));
  Some(f)
}

pub const KINDS: [(&str, fn(&mut Rng) -> Option<FileCase>); 18] = [
  ("MEF", mef),
  ("ERF", erf),
  ("DCS", dcs),
  ("DCR", dcr),
  ("KDC", kdc),
  ("ARI", ari),
  ("MRW", mrw),
  ("3FR", tfr),
  ("MOS", mos),
  ("PEF", pef),
  ("ORF", orf),
  ("SRW", srw),
  ("ARW", g2::arw),
  ("SRF", g2::srf),
  ("NEF", g2::nef),
  ("RW2", g2::rw2),
  ("RW2v8", g2::rw2v8),
  ("NKD", g2::nkd),
];

pub fn gen_file(r: &mut Rng, kind: usize) -> Option<FileCase> {
  for _ in 0..20 {
    if let Some(f) = KINDS[kind].1(r) {
      return Some(f);
    }
  }
  None
}

#[allow(dead_code)]
fn keep(_: WEnt) -> usize {
  pack_unit(1)
}
