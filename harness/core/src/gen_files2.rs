//! Camera raw files, second part: Sony, Nikon, Panasonic and files known by their size.
use crate::gen_files::*;
use crate::gen_img::samples;
use crate::p08::Meta;
use crate::p09::{self, Curve, category, pack};
use crate::refljpeg;
use crate::reftiff::{BO, Payload, WDir};
use crate::rng::Rng;

include!("nef_tables.rs");

/// Relation of the channels as the decoders of several makers report it
fn norm(v: [f32; 4]) -> [f32; 4] {
  [v[0] / v[1], (1.0 + v[2] / v[1]) / 2.0, v[3] / v[1], f32::NAN]
}

/// Crop tags of the raw directory
fn dng_crop(r: &mut Rng, bo: BO, d: &mut WDir, within: [usize; 4]) -> [usize; 4] {
  let c = inside(r, within);
  let (o, s) = ([c[0] as u32, c[1] as u32], [(c[2] - c[0]) as u32, (c[3] - c[1]) as u32]);
  if r.bool() {
    d.put(bo.u32s(50719, &o)).put(bo.u32s(50720, &s));
  } else {
    d.put(bo.rats(50719, &o.map(|v| (v, 1)))).put(bo.rats(50720, &s.map(|v| (v, 1))));
  }
  c
}

/* ---------- Sony ---------- */

pub fn arw(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "SONY" && c.mode.is_empty() && c.model != "DSLR-A100" && c.model != "DSC-F828");
  let bo = BO(false);
  let (mut a, meta) = Asm::new(r, false, Some(cam));
  let mut kind = if r.chance(1, 12) { 7 } else { *r.pick(&[1u32, 1, 8, 8, 12, 100, 100]) };
  let mut bps = *r.pick(&[12u32, 14, 16]);
  if cam.model == "DSC-R1" {
    kind = 1;
    bps = 14;
  }
  if let (Some(b), 8 | 12) = (cam.bps, kind) {
    kind = b as u32;
  }
  let (w, h) = match kind {
    7 => {
      let (x, y) = *r.pick(&[(1, 1), (2, 1), (1, 2)]);
      (512 * x, 512 * y)
    }
    8 => dims(r, cam, 32, 1, 64)?,
    100 => dims(r, cam, 1, 2, 48).filter(|d| d.1 > 8)?,
    _ => dims(r, cam, 2, 1, 64)?,
  };
  if cam.active.is_some_and(|b| b[0] + b[2] >= w || b[1] + b[3] >= h) || cam.crop.is_some_and(|b| b[0] + b[2] >= w || b[1] + b[3] >= h) {
    return None;
  }
  let mut place = r.range(1, 2);
  let px;
  match kind {
    1 => {
      px = samples(r, w, h, if cam.model == "DSC-R1" { 14 } else { bps });
      let data = pack(r, if cam.model == "DSC-R1" { 17 } else { 18 }, &px, w);
      a.image(w, h, bps as u16, 1);
      a.raw.payload = Some(strips(r, data));
    }
    7 => {
      bps = *r.pick(&[12u32, 14, 16]);
      px = samples(r, w, h, bps);
      a.image(w, h, bps as u16, 7);
      a.raw.put(bo.u32s(322, &[512])).put(bo.u32s(323, &[512]));
      a.raw.put(bo.u32s(273, &[8])).put(bo.u32s(279, &[(w * h) as u32]));
      let mut chunks = vec![];
      for ty in 0..h / 512 {
        for tx in 0..w / 512 {
          let mut q = Vec::with_capacity(512 * 512);
          for y in 0..256 {
            for x in 0..256 {
              let at = |dx: usize, dy: usize| px[(ty * 512 + 2 * y + dy) * w + tx * 512 + 2 * x + dx];
              q.extend([at(0, 0), at(1, 0), at(0, 1), at(1, 1)]);
            }
          }
          chunks.push(refljpeg::encode_simple(&q, 256, 256, 4, bps, 1));
        }
      }
      a.raw.payload = Some(Payload { chunks, tiled: true });
    }
    8 => {
      let mut k: Vec<u16> = (0..4).map(|_| r.u16() & 0xfff).collect();
      k.sort();
      let mut t = vec![0u16; 4096];
      let lim = [0usize, k[0] as usize, k[1] as usize, k[2] as usize, k[3] as usize, 4095];
      for i in 1..4096usize {
        // slope doubles after every knee
        let s = (0..5).filter(|s| i > lim[*s]).max().unwrap();
        t[i] = t[i - 1] + (1 << s);
      }
      let (d, e) = p09::arw2(r, w, h, &Curve(t));
      a.image(w, h, if cam.bps.is_some() { 14 } else { 8 }, 32767);
      a.raw.put(bo.u16s(0x7010, &k.iter().map(|x| x << 2 | (r.u16() & 3)).collect::<Vec<_>>()));
      a.raw.payload = Some(Payload { chunks: vec![d], tiled: false });
      px = e;
    }
    12 => {
      px = samples(r, w, h, 12);
      let d = pack(r, 11, &px, w);
      a.image(w, h, if cam.bps.is_some() { 14 } else { 12 }, 32767);
      a.raw.payload = Some(Payload { chunks: vec![d], tiled: false });
    }
    _ => {
      px = samples(r, w, h, 12);
      let mut d = p09::arw1(&px, w, h);
      d.extend(r.bytes(8));
      a.image(w, h - 8, 12, 32767);
      if w * (h - 8) * cam.bps.unwrap_or(12) == d.len() * 8 {
        return None;
      }
      a.raw.payload = Some(Payload { chunks: vec![d], tiled: false });
    }
  }
  if kind != 7 && r.chance(1, 5) {
    place = 0;
  }
  let mut f = FileCase::new("ARW", "arw", cam, w, h, px, meta, false);
  if kind != 100 && r.chance(1, 3) {
    let (x, y) = (r.range(1, w), r.range(1, h));
    a.raw.put(bo.u32s(0x7038, &[x as u32, y as u32]));
    f.active = Some([0, 0, x, y]);
    f.crop = None;
  }
  if f.crop.is_none() && cam.crop.is_some() || r.chance(1, 2) {
    f.crop = Some(dng_crop(r, bo, &mut a.raw, f.active.unwrap_or([0, 0, w, h])));
  }
  // private area
  let mut sr2 = WDir::default();
  let lv: [u16; 4] = std::array::from_fn(|_| r.range(1, 4000) as u16);
  let v = lv.map(|x| x as f32);
  if r.bool() {
    sr2.put(bo.u16s(0x7303, &lv));
    f.wb = norm([v[1], v[0], v[3], v[2]]);
  } else {
    sr2.put(bo.u16s(0x7313, &lv));
    f.wb = norm(v);
  }
  let sh = if kind == 12 { 2 } else { 0 };
  let black = |r: &mut Rng, d: &mut WDir, tag: u16| {
    let b: Vec<u16> = (0..if r.bool() { 4 } else { 1 }).map(|_| r.u16() & 2047).collect();
    d.put(bo.u16s(tag, &b));
    b.iter().map(|x| (x >> sh) as f64).collect::<Vec<_>>()
  };
  if r.chance(2, 3) {
    f.black = Some(black(r, &mut sr2, 0x7300));
  }
  if r.chance(2, 3) {
    f.black = Some(black(r, &mut sr2, 0x7310));
  }
  if cam.white.is_none() || r.bool() {
    let wl = r.range(1000, 65535) as u16;
    sr2.put(bo.u16s(0x787f, &vec![wl; if r.bool() { 3 } else { 1 }]));
    f.white = Some((wl >> sh) as u32);
  }
  let key = r.u32();
  let off = 8 + 42 + r.range(0, 30);
  let mut plain = block(false, &sr2, 0, off as i64);
  let n = plain.len().div_ceil(4) * 4 + 4 * r.range(0, 9);
  plain.resize(n, 0);
  let mut private = WDir::default();
  private.put(bo.u32s(0x7200, &[off as u32])).put(bo.u32s(0x7201, &[n as u32])).put(bo.undef(0x7221, &key.to_le_bytes()));
  let mut prefix = block(false, &private, 8, 0);
  assert_eq!(prefix.len(), 42);
  prefix.extend(r.bytes(off - 50));
  prefix.extend(p09::sony_crypt(&plain, key));
  a.root.put(bo.bytes(50740, &8u32.to_le_bytes()));
  if r.chance(2, 3) {
    let (j, img) = jpeg(r);
    a.root.put(bo.u32s(0x201, &[8 + prefix.len() as u32])).put(bo.u32s(0x202, &[j.len() as u32]));
    prefix.extend(j);
    f.preview = Some(img);
  }
  let mut m = WDir::default();
  m.put(bo.u16s(0x2001, &[r.u16()])).put(bo.u32s(0xB020, &[r.u32()]));
  let head: &[u8] = *r.pick(&[&b"SONY DSC \0\0\0"[..], b""]);
  f.desc += &format!(" kind {kind} bps {bps}");
  f.bytes = a.write(r, place, &prefix, Some(&maker_header(head, false, &m, false)));
  Some(f)
}

pub fn srf(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.make == "SONY" && c.model == "DSC-F828");
  let bo = BO(false);
  let (w, h) = dims(r, cam, 2, 2, 64)?;
  let (mut a, meta) = Asm::new(r, false, Some(cam));
  let px = samples(r, w, h, 14);
  let d = &mut a.raw;
  d.put(bo.u32s(256, &[w as u32])).put(bo.u32s(257, &[h as u32]));
  let mut m = WDir::default();
  m.put(bo.u16s(0x2001, &[r.u16()])).put(bo.u32s(0xB020, &[r.u32()]));
  let place = r.range(0, 2);
  let mut f = FileCase::new("SRF", "srf", cam, w, h, px, meta, false);
  let mut b = a.write(r, place, &[], Some(&maker_header(b"SONY DSC \0\0\0", false, &m, false)));
  assert!(b.len() < 164600);
  let fill = r.u8();
  b.resize(862144, fill);
  let off = r.range(1, 255);
  b[200896] = off as u8;
  let first = r.u32();
  b[200896 + 4 * off..][..4].copy_from_slice(&first.to_be_bytes());
  let mut head = r.bytes(40);
  let key = r.u32();
  head[22..26].copy_from_slice(&key.to_le_bytes());
  b[164600..164640].copy_from_slice(&p09::sony_crypt(&head, first));
  let plain = pack(r, 20, &f.px, w);
  b.extend(p09::sony_crypt(&plain, key));
  f.bytes = b;
  Some(f)
}

/* ---------- Nikon ---------- */

/// Little endian bit stream
fn lsb(v: &[u16], bits: u32) -> Vec<u8> {
  let mut out = vec![];
  let (mut acc, mut n) = (0u64, 0);
  for s in v {
    acc |= (*s as u64) << n;
    n += bits;
    while n >= 8 {
      out.push(acc as u8);
      acc >>= 8;
      n -= 8;
    }
  }
  if n > 0 {
    out.push(acc as u8);
  }
  out
}

/// Tags of the maker note for the white balance
fn nikon_wb(r: &mut Rng, bo: BO, m: &mut WDir) -> [f32; 4] {
  let v: [u16; 4] = std::array::from_fn(|_| r.range(100, 2000) as u16);
  let q = v.map(|x| x as f32);
  let put = |b: &mut Vec<u8>, at: usize, x: u16| b[at..at + 2].copy_from_slice(&x.to_be_bytes());
  match r.range(0, 8) {
    0 => {
      let x: Vec<(u32, u32)> = (0..2).map(|_| (r.range(50, 900) as u32, r.range(50, 900) as u32)).collect();
      m.put(bo.rats(0x0c, &[x[0], x[1], (1, 1), (1, 1)]));
      norm([x[0].0 as f32 / x[0].1 as f32, 1.0, 1.0, x[1].0 as f32 / x[1].1 as f32])
    }
    1 => {
      let old = r.bool();
      let at = if old { 1556 } else { 56 };
      let mut b = r.bytes(1600);
      b[..4].copy_from_slice(b"NRW ");
      b[4..8].copy_from_slice(if old { b"0100" } else { b"0101" });
      for i in 0..4 {
        b[at + 4 * i..][..4].copy_from_slice(&(v[i] as u32).to_le_bytes());
      }
      m.put(bo.undef(0x14, &b));
      let g = q[1] + q[2];
      norm([q[0] * 4.0, g, g, q[3] * 4.0])
    }
    2 => {
      let mut b = r.bytes(1300);
      b[0] = b'x';
      put(&mut b, 1248, v[0]);
      put(&mut b, 1250, v[1]);
      m.put(bo.undef(0x14, &b));
      norm([q[0], 256.0, 256.0, q[1]])
    }
    k @ 3..=5 => {
      let (ver, at) = [(b"0100", [72, 76, 74]), (b"0102", [10, 12, 16]), (b"0103", [20, 22, 24])][k - 3];
      let mut b = r.bytes(100);
      b[..4].copy_from_slice(ver);
      for i in 0..3 {
        put(&mut b, at[i], v[i]);
      }
      m.put(bo.undef(0x97, &b));
      norm([q[0], q[1], q[1], q[2]])
    }
    k @ 6..=7 => {
      let old = k == 6;
      let mut b = r.bytes(600);
      b[..4].copy_from_slice(if old { b"0204" } else { b"0205" });
      let (start, at) = if old { (284, 6) } else { (4, 14) };
      for i in 0..4 {
        put(&mut b, start + at + 2 * i, v[i]);
      }
      let serial: u32 = r.u32() % 10_000_000;
      let count = r.u32();
      let ci = SERIAL[serial as usize & 255] as u32;
      let mut cj = KEYS[count.to_le_bytes().iter().fold(0, |a, b| a ^ *b) as usize] as u32;
      for (i, x) in b[start..start + 280].iter_mut().enumerate() {
        cj += ci * (0x60 + i as u32);
        *x ^= cj as u8;
      }
      m.put(bo.undef(0x97, &b));
      m.put(bo.ascii(0x1d, &format!("{serial}{}", *r.pick(&["", "\0\0\0"])))).put(bo.u32s(0xa7, &[count]));
      norm([q[0], q[1], q[2], q[3]])
    }
    _ => norm([1.0; 4]),
  }
}

pub fn nef(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| (c.make == "Nikon" || c.make.starts_with("NIKON")) && c.mode.ends_with("bit") && c.model != "NIKON D100");
  let bps: u32 = cam.mode.trim_end_matches("bit").parse().ok()?;
  let le = if cam.hint("little_endian") && r.chance(3, 4) { true } else { r.bool() };
  let be = !le;
  let bo = || BO(be);
  let (mut a, meta) = Asm::new(r, be, Some(cam));
  a.style = Some(0);
  let as_le = (le || cam.hint("little_endian")) && !cam.hint("big_endian");
  let (w, h) = dims(r, cam, 40, 2, 60)?;
  let w = if cam.hint("coolpixsplit") || cam.hint("msb32") || cam.hint("unpacked") { w } else { w - 4 * r.range(0, 4) };
  if cam.active.is_some_and(|b| b[0] + b[2] >= w) || cam.crop.is_some_and(|b| b[0] + b[2] >= w) {
    return None;
  }
  let mut m = WDir::default();
  let wb = if cam.hint("nowb") { [f32::NAN; 4] } else { nikon_wb(r, bo(), &mut m) };
  let mut nefc = *r.pick(&[2u16, 6, 7, 9]);
  let (mut cpp, mut comp, mut pad) = (1, 1, 0);
  let mut multi = true;
  let px;
  let mut data;
  let mut label = String::new();
  if cam.hint("coolpixsplit") {
    px = samples(r, w, h, 12);
    data = pack(r, 10, &px, w);
  } else if cam.hint("msb32") {
    px = samples(r, w, h, 12);
    data = pack(r, 6, &px, w);
  } else if cam.hint("unpacked") {
    px = samples(r, w, h, bps);
    data = pack(r, if as_le { 18 } else { 20 }, &px, w);
  } else if bps == 16 {
    cpp = 3;
    px = samples(r, w * 3, h, 16);
    data = pack(r, if le { 18 } else { 20 }, &px, w);
  } else {
    match r.range(0, 3) {
      0 => {
        px = samples(r, w, h, bps);
        if r.bool() && as_le && (bps == 12 || { nefc = 10; true }) {
          // rows may be longer than needed
          comp = *r.pick(&[1, 34713]);
          pad = if comp == 1 { 0 } else { r.range(0, 15) };
          multi = comp == 1;
          data = vec![];
          for row in px.chunks(w) {
            data.extend(lsb(row, bps));
            data.extend(r.bytes(pad));
          }
        } else {
          data = match (bps, as_le) {
            (14, true) => pack(r, 16, &px, w),
            (14, false) => pack(r, 17, &px, w),
            (_, true) => pack(r, 11, &px, w),
            _ => pack(r, 3, &px, w),
          };
        }
      }
      1 if w >= 14 && wb[0].is_finite() => {
        cpp = 3;
        comp = 34713;
        nefc = 8;
        multi = false;
        data = r.bytes(w * h * 3);
        px = p09::snef(&data, wb, w, h);
      }
      _ => {
        comp = 34713;
        nefc = *r.pick(&[1, 3, 4]);
        let v = samples(r, w, h, bps);
        let e = p09::nef(r, &v, w, h, be, bps);
        if e.exp.is_empty() {
          return None;
        }
        m.put(bo().undef(if r.bool() { 0x96 } else { 0x8c }, &e.meta));
        label = e.label;
        px = e.exp;
        data = e.data;
        data.extend(r.bytes(4));
        let need = (w * h * bps as usize).div_ceil(8);
        if data.len() == w * h * 3 || (data.len() >= need && (data.len() - need) % h == 0) {
          data.push(0);
        }
      }
    }
  }
  if cpp == 3 && comp == 1 && bps != 16 {
    return None;
  }
  a.image(w, h, bps as u16, comp);
  if cpp == 3 && bps == 16 {
    a.raw.ents.retain(|e| e.tag != 258 && e.tag != 0x828E && e.tag != 277);
    a.raw.put(bo().u16s(258, &[16, 16, 16]));
  }
  if r.bool() || bps == 16 {
    a.raw.put(bo().u32s(254, &[0]));
    if r.bool() {
      a.raw.ents.retain(|e| e.tag != 0x828E);
    }
  }
  if multi && r.chance(1, 3) && h >= 4 {
    // contiguous strips; only the total counts
    let rows = r.range(1, h - 1);
    let n = (data.len() / h * rows).div_ceil(2) * 2 + 2;
    a.raw.put(bo().u16s(278, &[rows as u16]));
    a.raw.payload = Some(Payload { chunks: data.chunks(n).map(|c| c.to_vec()).collect(), tiled: false });
    label += " strips";
  } else {
    a.raw.payload = Some(Payload { chunks: vec![data], tiled: false });
  }
  let mut f = FileCase::new("NEF", if cam.make == "NIKON" { "nrw" } else { "nef" }, cam, w, h, px, meta, be);
  f.cpp = cpp;
  if cpp == 3 {
    f.levels = Some((0.0, 65535));
  }
  if cam.white.is_none() && cpp == 1 {
    return None;
  }
  if bps != 16 && r.bool() {
    let b: [u16; 4] = std::array::from_fn(|_| r.u16() & 2047);
    m.put(bo().u16s(0x3d, &b));
    f.black = Some(b.iter().map(|x| if bps == 12 { x >> 2 } else { *x } as f64).collect());
  }
  if r.bool() {
    let c = inside(r, f.active.unwrap_or([0, 0, w, h]));
    m.put(bo().u16s(0x45, &[c[0] as u16, c[1] as u16, (c[2] - c[0]) as u16, (c[3] - c[1]) as u16]));
    f.crop = Some(c);
  }
  if r.bool() {
    m.put(bo().u16s(0x93, &[nefc]));
  } else {
    let n = r.range(12, 40);
    let mut z = r.bytes(n);
    z[10..12].copy_from_slice(&nefc.to_le_bytes());
    m.put(bo().undef(0x51, &z));
    if r.bool() {
      m.put(bo().u16s(0x93, &[r.u16()]));
    }
  }
  f.wb = wb;
  let mut prefix = vec![];
  let mut place = r.range(0, 2);
  let mut best = 0;
  for _ in 0..r.range(0, 2) {
    let (j, img) = jpeg(r);
    let mut d = WDir::default();
    d.put(bo().u32s(254, &[1])).put(bo().u16s(259, &[6]));
    d.put(bo().u32s(0x201, &[8 + prefix.len() as u32])).put(bo().u32s(0x202, &[j.len() as u32]));
    a.extra.push(d);
    if j.len() > best {
      best = j.len();
      f.preview = Some(img);
    } else if j.len() == best {
      return None;
    }
    prefix.extend(j);
    prefix.resize(prefix.len().div_ceil(2) * 2, 0);
  }
  if place == 0 && !a.extra.is_empty() {
    place = 1;
  }
  if place > 0 && r.bool() {
    thumb(r, &mut a);
  }
  f.desc += &format!(" {bps} bit comp {comp}/{nefc} pad {pad} {label}");
  let md = m;
  let mk = move |_: usize| {
    let mut v = b"Nikon\0\x02\x10\0\0".to_vec();
    v.extend(if be { b"MM\0\x2a\0\0\0\x08" } else { b"II\x2a\0\x08\0\0\0" });
    v.extend(block(be, &md, 8, 0));
    v
  };
  f.bytes = a.write(r, place, &prefix, Some(&mk));
  Some(f)
}

/* ---------- Panasonic ---------- */

fn pana_v5(r: &mut Rng, v: &[u16], bps: u32) -> Vec<u8> {
  let n = if bps == 12 { 10 } else { 9 };
  let mut s = vec![];
  for p in v.chunks(n) {
    let mut b = lsb(p, bps);
    b.resize(16, 0);
    let k = r.u8();
    b[15] |= if bps == 12 { k } else { k & 0xc0 };
    s.extend(b);
  }
  let full = s.len().div_ceil(0x4000) * 0x4000;
  s.resize(full, 0);
  // the last 0x2008.. bytes of every block come first
  s.chunks(0x4000)
    .flat_map(|b| {
      let at = 0x4000 - 0x1ff8;
      [&b[at..], &b[..at]].concat()
    })
    .collect()
}

/// Reference decoder for blocks of 14 (12 bit) or 11 (14 bit) samples
fn pana_v6(block: &[u8], bps: u32) -> Vec<u16> {
  // big endian fields: the block is read from its last byte
  let rev: Vec<u8> = block.iter().rev().copied().collect();
  let mut pos = 0;
  let mut get = |n: usize| {
    let mut v = 0u32;
    for _ in 0..n {
      v = v << 1 | (rev[pos / 8] as u32 >> (7 - pos % 8)) & 1;
      pos += 1;
    }
    v
  };
  let (px, big, small, base0, lim) = if bps == 12 { (14, 12, 8, 0x80u32, 0x800u32) } else { (11, 14, 10, 0x200, 0x2000) };
  let mut fields = vec![get(big), get(big)];
  let groups = if bps == 12 { 4 } else { 3 };
  for _ in 0..groups {
    fields.push(get(2));
    fields.extend([get(small), get(small), get(small)]);
  }
  let mut it = fields.into_iter();
  let (mut first, mut last) = ([0u32; 2], [0u32; 2]);
  let (mut mul, mut base) = (0u32, 0u32);
  let mut out = vec![];
  for i in 0..px {
    if i % 3 == 2 {
      let mut b = it.next().unwrap();
      if b == 3 {
        b = 4;
      }
      base = base0 << b;
      mul = 1 << b;
    }
    let mut e = it.next().unwrap();
    let c = i % 2;
    if first[c] != 0 {
      e *= mul;
      if base < lim && last[c] > base {
        e += last[c] - base;
      }
      last[c] = e;
    } else {
      first[c] = e;
      if e != 0 {
        last[c] = e;
      } else {
        e = last[c];
      }
    }
    // an offset of 15 is taken off; what would be negative is black
    out.push(if e < 15 {
      0
    } else if bps == 12 && e - 15 > 0x3fff {
      0xfff
    } else {
      (e - 15) as u16
    });
  }
  out
}

struct PanaShell {
  a: Asm,
  f: FileCase,
}

/// Everything of a Panasonic file but the image data
fn pana_shell(r: &mut Rng, kind: &'static str, ux: usize, uy: usize, max: usize) -> Option<PanaShell> {
  let cam = pick_cam(r, |c| (c.make == "Panasonic" || c.make.starts_with("LEICA")) && c.mode.contains(':') && c.white.is_some());
  let (w, h) = (0..200).find_map(|_| {
    let (w, h) = dims(r, cam, ux, uy, max)?;
    let q = w * 100 / h;
    let m = if q < 125 {
      "1:1"
    } else if q < 145 {
      "4:3"
    } else if q < 165 {
      "3:2"
    } else {
      "16:9"
    };
    (m == cam.mode).then_some((w, h))
  })?;
  let bo = BO(false);
  let (mut a, mut meta) = Asm::new(r, false, Some(cam));
  let d = &mut a.root;
  if r.bool() {
    d.put(bo.u16s(2, &[w as u16])).put(bo.u16s(3, &[h as u16]));
  } else {
    d.put(bo.u32s(2, &[w as u32])).put(bo.u32s(3, &[h as u32]));
  }
  d.put(bo.u16s(11, &[34316]));
  let iso = r.range(50, 6400) as u16;
  d.put(bo.u16s(0x17, &[iso]));
  let zero = |m: &Meta| ![34855, 34867, 34866].iter().any(|t| m.exif.as_ref().is_some_and(|e| e.ents.iter().any(|x| x.tag == *t && x.data.iter().any(|b| *b != 0))));
  if zero(&meta) {
    // the only place that tells the sensitivity
    let e = meta.exif.get_or_insert_with(WDir::default);
    e.ents.retain(|x| x.tag != 34855);
    e.put(bo.u16s(34855, &[iso]));
  }
  let mut f = FileCase::new(kind, "rw2", cam, w, h, vec![], meta, false);
  let v: [u16; 3] = std::array::from_fn(|_| r.range(1, 2000) as u16);
  let q = v.map(|x| x as f32);
  let which = r.range(0, 2);
  if which != 1 {
    a.root.put(bo.u16s(0x24, &[v[0]])).put(bo.u16s(0x25, &[v[1]])).put(bo.u16s(0x26, &[v[2]]));
    f.wb = norm([q[0], q[1], q[1], q[2]]);
  }
  if which != 0 {
    let x: [u16; 2] = std::array::from_fn(|_| r.range(1, 2000) as u16);
    a.root.put(bo.u16s(0x11, &[x[0]])).put(bo.u16s(0x12, &[x[1]]));
    f.wb = norm([x[0] as f32, 256.0, 256.0, x[1] as f32]);
  }
  if r.chance(2, 3) {
    let k = r.range(1, 4);
    a.root.put(bo.u16s(9, &[k as u16]));
    f.cfa = ["RGGB", "GRBG", "GBRG", "BGGR"][k - 1].into();
  }
  if r.chance(2, 3) {
    let b: [u16; 3] = std::array::from_fn(|_| r.u16() & 1023);
    a.root.put(bo.u16s(0x1c, &[b[0]])).put(bo.u16s(0x1d, &[b[1]])).put(bo.u16s(0x1e, &[b[2]]));
    let b = b.map(|x| x as f64);
    f.black = Some(vec![b[0], b[1], b[1], b[2]]);
  }
  let rect = |d: &mut WDir, t: [u16; 4], c: [usize; 4]| {
    for i in 0..4 {
      d.put(bo.u16s(t[i], &[c[i] as u16]));
    }
  };
  let borders = r.bool();
  if borders {
    let c = inside(r, [0, 0, w, h]);
    rect(&mut a.root, [5, 4, 7, 6], c);
    f.active = Some(c);
    f.crop = Some(c);
  }
  if r.bool() {
    let c = inside(r, f.active.unwrap_or([0, 0, w, h]));
    rect(&mut a.root, [0x30, 0x2f, 0x32, 0x31], c);
    if !borders {
      f.crop = Some(c);
    }
  }
  if r.chance(2, 3) {
    let (j, img) = jpeg(r);
    a.root.put(bo.undef(0x2e, &j));
    f.preview = Some(img);
  }
  Some(PanaShell { a, f })
}

/// Put the data at the end of the file, or before the directories
fn pana_place(r: &mut Rng, a: Asm, tag: u16, data: &[u8]) -> Vec<u8> {
  let mut a = a;
  let bo = BO(false);
  let mark = r.u32() | 0x8000_0001;
  let front = tag == 0x118 && r.bool();
  let mut prefix = vec![];
  if front {
    let n = r.range(0, 99);
    prefix = r.bytes(n);
    a.root.put(bo.u32s(tag, &[8 + prefix.len() as u32]));
    prefix.extend(data);
  } else {
    a.root.put(bo.u32s(tag, &[mark]));
  }
  if tag == 0x118 && r.bool() {
    a.root.put(bo.u32s(273, &[u32::MAX]));
  }
  let mut b = a.write(r, 0, &prefix, None);
  b[2] = 85;
  if !front {
    let at = b.windows(4).position(|w| w == mark.to_le_bytes()).unwrap();
    let n = r.range(0, 60);
    b.extend(r.bytes(n));
    let o = b.len() as u32;
    b[at..at + 4].copy_from_slice(&o.to_le_bytes());
    b.extend(data);
  }
  b
}

pub fn rw2(r: &mut Rng) -> Option<FileCase> {
  let bo = BO(false);
  let fmt = *r.pick(&[0u32, 1, 3, 4, 4, 5, 6, 6, 7]);
  let bps = if fmt >= 5 { *r.pick(&[12u32, 14]) } else { 12 };
  let unit = match (fmt, bps) {
    (1, _) => 10,
    (3 | 4, _) => 14,
    (5 | 7, 12) => 10,
    (5 | 7, _) => 9,
    (6, 12) => 14,
    (6, _) => 11,
    _ => 2,
  };
  let max = if fmt < 5 && r.bool() { 220 } else { 70 };
  let PanaShell { mut a, mut f } = pana_shell(r, "RW2", unit, 1, max)?;
  let (w, h) = (f.w, f.h);
  a.root.put(bo.u16s(10, &[bps as u16]));
  a.root.put(bo.u16s(0x2d, &[if fmt >= 3 { fmt as u16 } else { r.u16() & 7 }]));
  let mut tag = 0x118;
  let data;
  match fmt {
    0 => {
      f.px = samples(r, w, h, 12);
      data = pack(r, 15, &f.px, w);
      tag = 273;
    }
    1 => {
      f.px = samples(r, w, h, 12);
      data = pack(r, 7, &f.px, w);
      if data.len() >= w * h * 2 {
        return None;
      }
      tag = 273;
    }
    3 | 4 => {
      // blocks of 16 KiB hold 14336 samples
      let n = (w * h).div_ceil(14336);
      let mut d = vec![];
      let split = r.bool();
      for _ in 0..n {
        let mut b: [u8; 0x4000] = [0; 0x4000];
        let low = r.bool();
        r.bytes(0x4000).iter().zip(&mut b).for_each(|(x, y)| *y = if low { x & r.u8() } else { *x });
        f.px.extend(p09::pana4(&b, 14, 1024));
        if split {
          b.rotate_right(0x4000 - 0x2008);
        }
        d.extend(b);
      }
      f.px.truncate(w * h);
      if !split {
        tag = 273;
        if d.len() >= w * h * 3 / 2 {
          // this place would announce another layout
          return None;
        }
      }
      data = d;
    }
    5 => {
      f.px = samples(r, w, h, bps);
      data = pana_v5(r, &f.px, bps);
    }
    6 => {
      let dark = r.range(0, 3);
      data = (0..w * h / unit * 16).map(|_| match dark {
        0 => r.u8() & r.u8() & r.u8() & r.u8(),
        1 => r.u8() & r.u8(),
        _ => r.u8(),
      }).collect::<Vec<u8>>();
      f.px = data.chunks(16).flat_map(|b| pana_v6(b, bps)).collect();
    }
    _ => {
      f.px = samples(r, w, h, bps);
      data = f
        .px
        .chunks(unit)
        .flat_map(|p| {
          let mut b = lsb(p, bps);
          b.resize(16, 0);
          b
        })
        .collect();
    }
  }
  f.desc += &format!(" format {fmt} {bps} bit");
  f.bytes = pana_place(r, a, tag, &data);
  Some(f)
}

pub fn rw2v8(r: &mut Rng) -> Option<FileCase> {
  let bo = BO(false);
  let PanaShell { mut a, mut f } = pana_shell(r, "RW2v8", 2, 2, 90)?;
  let (w, h) = (f.w, f.h);
  let bits = *r.pick(&[12u32, 14, 16]);
  a.root.put(bo.u16s(10, &[bits as u16])).put(bo.u16s(0x2d, &[8]));
  let v = samples(r, w, h, bits);
  // prefix code for 17 categories
  let len = p09::random_lengths(r, 17);
  let mut order: Vec<usize> = (0..17).collect();
  order.sort_by_key(|i| len[*i]);
  let mut code = [(0u32, 0u32); 17];
  let (mut c, mut l) = (0u32, 0);
  for i in order {
    c <<= len[i] - l;
    l = len[i];
    code[i] = (c, l);
    c += 1;
  }
  // grid of strips with even sizes
  let cut = |r: &mut Rng, n: usize, parts: usize| {
    let mut v: Vec<usize> = (1..parts).map(|_| 2 * r.range(1, (n / 2).max(2) - 1)).collect();
    v.retain(|x| *x < n);
    v.extend([0, n]);
    v.sort();
    v.dedup();
    v
  };
  let (nx, ny) = (r.range(1, 3), r.range(1, 3));
  let (cx, cy) = (cut(r, w, nx), cut(r, h, ny));
  let (nx, ny) = (cx.len() - 1, cy.len() - 1);
  let init: [u16; 4] = std::array::from_fn(|_| (r.u32() & ((1 << bits) - 1)) as u16);
  let mut prefix = vec![];
  let (mut off, mut line, mut size, mut ws, mut hs) = (vec![], vec![], vec![], vec![], vec![]);
  for y in 0..ny {
    for x in 0..nx {
      let (sw, sh) = (cx[x + 1] - cx[x], cy[y + 1] - cy[y]);
      let mut b = p09::Bits::default();
      let mut start = init;
      for row in (0..sh).step_by(2) {
        let mut base = start;
        for col in (0..sw).step_by(2) {
          let at = |dx: usize, dy: usize| v[(cy[y] + row + dy) * w + cx[x] + col + dx];
          let q = [at(0, 0), at(1, 0), at(0, 1), at(1, 1)];
          for i in [0, 2, 1, 3] {
            let (n, extra) = category(q[i] as i32 - base[i] as i32);
            b.put(code[n as usize].0, code[n as usize].1);
            if n > 0 {
              b.put(extra, n);
            }
          }
          base = q;
          if col == 0 {
            start = q;
          }
        }
      }
      let mut s: Vec<u8> = b.msb().iter().map(|x| x.reverse_bits()).collect();
      let n = s.len().div_ceil(4) * 4 + 4;
      s.resize(n, r.u8());
      off.push(8 + prefix.len() as u32);
      line.push((cx[x] as u16, cy[y] as u16));
      size.push(n as u32 * 8);
      ws.push(sw as u16);
      hs.push(sh as u16);
      prefix.extend(s);
    }
  }
  let list16 = |v: &[u16]| {
    let n = v.len() as u16;
    [n].iter().chain(v).flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()
  };
  let list32 = |v: &[u32]| {
    let mut b = (v.len() as u16).to_le_bytes().to_vec();
    v.iter().for_each(|x| b.extend(x.to_le_bytes()));
    b
  };
  let clip = ((1u32 << bits) - 1) as u16;
  let (mut point, mut slope) = ([65536u32; 6], [0u32; 6]);
  f.px = v.clone();
  if r.bool() {
    // piecewise tone curve; every piece continues where the one before ended
    let mut starts: Vec<u32> = (0..5).map(|_| r.range(1, clip as usize) as u32).collect();
    starts.sort();
    starts.dedup();
    if starts.len() < 5 {
      return None;
    }
    starts.insert(0, 0);
    let mut out = 0u32;
    let mut table = vec![0u32; clip as usize + 1];
    for i in 0..6 {
      let code = *r.pick(&[0u32, 0, 1, 2, 3, 17, 18]);
      // the shift to the left by one is code 17 and so on
      point[i] = 65536 | code;
      slope[i] = out << 16 | starts[i];
      let end = if i < 5 { starts[i + 1] } else { clip as u32 + 1 };
      let f = |t: u32| match code {
        0 => t,
        17 | 18 => t << (code & 15),
        k => (t + (1 << (k - 1))) >> k,
      };
      for x in starts[i]..end {
        table[x as usize] = out + f(x - starts[i]);
      }
      out += f(end - starts[i]);
      if out > 65535 {
        return None;
      }
    }
    f.px.iter_mut().for_each(|x| *x = (table[*x as usize]).min(clip as u32) as u16);
    f.desc += " curve";
  }
  let u = |r: &mut Rng| r.u32() & 0xffff;
  let d = &mut a.root;
  d.put(bo.u32s(0x37, &[u(r)])).put(bo.u32s(0x64, &[u(r)]));
  d.put(bo.undef(0x39, &list32(&point))).put(bo.undef(0x3a, &list32(&slope)));
  d.put(bo.u16s(0x3b, &[clip]));
  for i in 0..4 {
    d.put(bo.u16s(0x3c + i as u16, &[init[i]]));
  }
  let mut t = 17u16.to_le_bytes().to_vec();
  for (c, l) in code {
    t.extend((l as u16).to_le_bytes());
    t.extend((c as u16).to_le_bytes());
  }
  d.put(bo.undef(0x40, &t));
  d.put(bo.undef(0x41, &list16(&[0; 17])));
  d.put(bo.u16s(0x42, &[nx as u16])).put(bo.u16s(0x43, &[ny as u16]));
  d.put(bo.undef(0x44, &list32(&off)));
  d.put(bo.undef(0x45, &{
    let mut b = (line.len() as u16).to_le_bytes().to_vec();
    line.iter().for_each(|(c, r)| {
      b.extend(c.to_le_bytes());
      b.extend(r.to_le_bytes());
    });
    b
  }));
  d.put(bo.undef(0x46, &list32(&size))).put(bo.undef(0x47, &list16(&ws))).put(bo.undef(0x48, &list16(&hs)));
  d.put(bo.u32s(0x118, &[8]));
  f.desc += &format!(" {nx}x{ny} strips {bits} bit");
  let mut b = a.write(r, 0, &prefix, None);
  b[2] = 85;
  f.bytes = b;
  Some(f)
}

/* ---------- files known by their size ---------- */

pub fn nkd(r: &mut Rng) -> Option<FileCase> {
  let cam = pick_cam(r, |c| c.filesize > 0 && c.raw.is_some() && cams().iter().filter(|o| o.filesize == c.filesize).count() == 1);
  let [w, h] = cam.raw?;
  let bits = cam.filesize * 8 / w / h;
  if !cam.hint("12le_16bitaligned") && bits != 10 && bits != 12 {
    return None;
  }
  let (id, n) = if cam.hint("12le_16bitaligned") { (5, 12) } else if bits == 10 { (1, 10) } else { (4, 12) };
  // a tile of samples repeated over the frame
  let t = samples(r, 64, 61, n);
  let s = r.range(1, 50);
  let px: Vec<u16> = (0..w * h).map(|i| t[(i % w * s + i / w * 7 + i / w / 61) % t.len()]).collect();
  let mut data = pack(r, id, &px, w);
  if data.len() > cam.filesize {
    return None;
  }
  data.resize(cam.filesize, 0xA5);
  let meta = Meta { root: vec![], raw: vec![], exif: None, gps: None };
  let mut f = FileCase::new("NKD", "crw", cam, w, h, px, meta, false);
  f.bytes = data;
  Some(f)
}

