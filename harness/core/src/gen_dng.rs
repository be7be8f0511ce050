//! Generator of well-formed source DNG files with known ground truth, written with the independent
//! reference TIFF writer. Covers both byte orders, strips/tiles, packed depths, LJPEG, gaps.
use crate::gen_img::{self, Photo};
use crate::refljpeg;
use crate::reftiff::{BO, Payload, TiffOut, WDir, WEnt, pack_msb};
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub enum Pix {
  U(Vec<u16>),
  F(Vec<u32>), // f32 bits as seen after widening
}

#[derive(Clone, Debug)]
pub struct Src {
  pub bytes: Vec<u8>,
  pub be: bool,
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub bits: u32,
  pub photo: Photo,
  pub pix: Pix,
  pub comp: u16,
  pub tiled: bool,
  pub aa: Option<[u32; 4]>, // top,left,bottom,right
  pub crop: Option<([u32; 2], [u32; 2])>,
  pub cfa: (usize, usize, Vec<u8>), // rows, cols, pattern relative to active area
  pub black: (usize, usize, Vec<(u32, u32)>), // rows, cols, levels relative to active area
  pub white: Vec<u32>,
  pub neutral: Vec<(u32, u32)>,
  pub matrices: Vec<(u16, Vec<(i32, i32)>)>,
  pub orientation: u16,
  pub make: String,
  pub model: String,
  pub desc: String,
}

#[derive(Clone)]
pub struct SrcOpt {
  pub photos: Vec<Photo>,
  pub big: bool,
  pub float: bool,
  pub bits: Vec<u32>,
  pub extra_root: Vec<WEnt>,
  pub extra_raw: Vec<WEnt>,
  pub exif: Option<WDir>,
  pub gps: Option<WDir>,
  pub be: Option<bool>,
  pub min_dim: usize,
}

impl Default for SrcOpt {
  fn default() -> Self {
    Self {
      photos: vec![Photo::Bayer, Photo::Bayer, Photo::XTrans, Photo::Mono, Photo::Linear1, Photo::Linear3],
      big: true,
      float: false,
      bits: vec![8, 10, 12, 14, 16, 16, 11, 13, 15],
      extra_root: vec![],
      extra_raw: vec![],
      exif: None,
      gps: None,
      be: None,
      min_dim: 1,
    }
  }
}

pub fn f16_to_f32_bits(h: u16) -> u32 {
  let s = ((h >> 15) as u32) << 31;
  let e = ((h >> 10) & 31) as i32;
  let m = (h & 0x3ff) as u32;
  if e == 31 {
    return s | 0x7f80_0000 | (m << 13);
  }
  if e == 0 {
    let v = m as f32 * 2f32.powi(-24);
    return s | v.to_bits();
  }
  s | (((e - 15 + 127) as u32) << 23) | (m << 13)
}

pub fn f24_to_f32_bits(v: u32) -> u32 {
  let s = (v >> 23) << 31;
  let e = ((v >> 16) & 127) as i32;
  let m = v & 0xffff;
  if e == 127 {
    return s | 0x7f80_0000 | (m << 7);
  }
  if e == 0 {
    let f = m as f64 * 2f64.powi(-62 - 16);
    return s | (f as f32).to_bits();
  }
  s | (((e - 63 + 127) as u32) << 23) | (m << 7)
}

fn float_raw(r: &mut Rng, bits: u32, n: usize) -> Vec<u32> {
  (0..n)
    .map(|_| {
      let special = r.chance(1, 12);
      match bits {
        16 => {
          let mut v = r.u16();
          if special {
            v = *r.pick(&[0u16, 0x8000, 1, 0x3ff, 0x400, 0x3c00, 0x7bff, 0x7c00, 0xfc00, 0x83ff]);
          }
          if (v >> 10) & 31 == 31 && v & 0x3ff != 0 {
            v &= 0xfc00; // no NaN payload comparisons
          }
          v as u32
        }
        24 => {
          let mut v = r.u32() & 0xff_ffff;
          if special {
            v = *r.pick(&[0u32, 0x80_0000, 1, 0xffff, 0x1_0000, 0x3f_0000, 0x7e_ffff, 0x7f_0000, 0xff_0000]);
          }
          if (v >> 16) & 127 == 127 {
            v &= 0xff_0000;
          }
          v
        }
        _ => {
          if special {
            *r.pick(&[0u32, 0x8000_0000, 1, 0x7f_ffff, 0x3f80_0000, 0x7f7f_ffff, 0x7f80_0000])
          } else {
            (r.f32() * 4.0 - 1.0).to_bits()
          }
        }
      }
    })
    .collect()
}

fn widen(bits: u32, v: u32) -> u32 {
  match bits {
    16 => f16_to_f32_bits(v as u16),
    24 => f24_to_f32_bits(v),
    _ => v,
  }
}

fn fbytes(be: bool, bits: u32, v: u32) -> Vec<u8> {
  let n = bits as usize / 8;
  if be { v.to_be_bytes()[4 - n..].to_vec() } else { v.to_le_bytes()[..n].to_vec() }
}

/// DNG float predictor encode of one chunk (rows of `row` samples), zlib compressed
fn deflate_chunk(raw: &[u32], row: usize, bits: u32, cpp: usize, predictor: u16) -> Vec<u8> {
  let nb = bits as usize / 8;
  let factor = cpp * match predictor {
    3 => 1,
    34894 => 2,
    _ => 4,
  };
  let mut out = vec![];
  for line in raw.chunks(row) {
    let mut b = vec![0u8; row * nb];
    for (i, v) in line.iter().enumerate() {
      let be = &v.to_be_bytes()[4 - nb..];
      for k in 0..nb {
        b[i + k * row] = be[k];
      }
    }
    for i in (factor..b.len()).rev() {
      b[i] = b[i].wrapping_sub(b[i - factor]);
    }
    out.extend(b);
  }
  let mut e = libflate::zlib::Encoder::new(Vec::new()).unwrap();
  std::io::Write::write_all(&mut e, &out).unwrap();
  e.finish().into_result().unwrap()
}

fn chunk_samples<T: Copy>(pix: &[T], w: usize, h: usize, cpp: usize, cw: usize, ch: usize, tiled: bool, pad: impl Fn(usize) -> T) -> Vec<Vec<T>> {
  let mut out = vec![];
  for ty in 0..h.div_ceil(ch) {
    for tx in 0..w.div_ceil(cw) {
      let rows = if tiled { ch } else { ch.min(h - ty * ch) };
      let mut v = Vec::with_capacity(rows * cw * cpp);
      for r in 0..rows {
        for c in 0..cw {
          for k in 0..cpp {
            let (x, y) = (tx * cw + c, ty * ch + r);
            v.push(if x < w && y < h { pix[(y * w + x) * cpp + k] } else { pad(x + y) });
          }
        }
      }
      out.push(v);
    }
  }
  out
}

pub fn gen_src(r: &mut Rng, o: &SrcOpt) -> Src {
  let photo = *r.pick(&o.photos);
  let cpp = if photo == Photo::Linear3 { 3 } else { 1 };
  let be = o.be.unwrap_or_else(|| r.bool());
  let bo = BO(be);
  let mut bits = if o.float { *r.pick(&[16u32, 24, 32]) } else { *r.pick(&o.bits) };
  let (mut w, mut h) = (gen_img::dim(r, o.big).max(o.min_dim), gen_img::dim(r, o.big).max(o.min_dim));
  let comp: u16 = if o.float {
    *r.pick(&[1u16, 8])
  } else if r.chance(1, 3) && !(photo == Photo::Mono && bits == 8) {
    // (DNG: 8 bit BlackIsZero with compression 7 is lossy JPEG)
    7
  } else {
    1
  };
  let tiled = comp == 8 || r.chance(2, 5);
  // packed rows are byte padded in DNG; only widths whose rows fill whole bytes are generated
  // (see assumptions), i.e. multiples of 8 samples for sub-byte depths
  if comp == 1 && !o.float && bits % 8 != 0 {
    w = w.div_ceil(8) * 8;
  }
  let (cw, ch) = if tiled {
    (*r.pick(&[16usize, 32, 48, 64, 128, 256]), *r.pick(&[16usize, 32, 64, 112, 256]))
  } else {
    (w, if r.bool() { h } else { r.range(1, h) })
  };
  let _ = &mut h;
  let _ = &mut bits;
  let n = w * h * cpp;
  let mut ljpred = 0;
  let (pix, chunks): (Pix, Vec<Vec<u8>>) = if o.float {
    let raw = float_raw(r, bits, n);
    let pix = Pix::F(raw.iter().map(|v| widen(bits, *v)).collect());
    let cs = chunk_samples(&raw, w, h, cpp, cw, ch, tiled, |_| 0);
    let chunks = if comp == 8 {
      let pred = *r.pick(&[3u16, 34894, 34895]);
      ljpred = pred;
      cs.iter().map(|c| deflate_chunk(c, cw * cpp, bits, cpp, pred)).collect()
    } else {
      cs.iter().map(|c| c.iter().flat_map(|v| fbytes(be, bits, *v)).collect()).collect()
    };
    (pix, chunks)
  } else {
    let s = gen_img::samples(r, w * cpp, h, bits);
    let max = ((1u32 << bits) - 1) as u16;
    let cs = chunk_samples(&s, w, h, cpp, cw, ch, tiled, |k| (k as u16).wrapping_mul(37) & max);
    let chunks = cs
      .iter()
      .map(|c| {
        if comp == 7 {
          let pred = r.range(1, 7) as u8;
          ljpred = pred as u16;
          let row = cw * cpp;
          let rows = c.len() / row;
          let comps = if cpp == 3 {
            3
          } else if row % 2 == 0 && r.bool() {
            2
          } else {
            1
          };
          refljpeg::encode_simple(c, row / comps, rows, comps, bits, pred)
        } else if bits == 16 {
          c.iter().flat_map(|v| if be { v.to_be_bytes() } else { v.to_le_bytes() }).collect()
        } else {
          pack_msb(c, cw * cpp, bits)
        }
      })
      .collect();
    (Pix::U(s), chunks)
  };
  let gap = if r.chance(1, 3) { r.range(1, 9) * 2 } else { 0 };

  let mut raw = WDir::default();
  let u = |r: &mut Rng, tag: u16, v: &[u32]| -> WEnt {
    if v.iter().all(|x| *x <= 65535) && r.bool() {
      bo.u16s(tag, &v.iter().map(|x| *x as u16).collect::<Vec<_>>())
    } else {
      bo.u32s(tag, v)
    }
  };
  raw.put(bo.u32s(254, &[0]));
  raw.put(u(r, 256, &[w as u32]));
  raw.put(u(r, 257, &[h as u32]));
  raw.put(bo.u16s(258, &vec![bits as u16; cpp]));
  raw.put(bo.u16s(259, &[comp]));
  if comp == 8 {
    raw.put(bo.u16s(317, &[ljpred]));
  }
  raw.put(bo.u16s(262, &[match photo {
    Photo::Mono => 1u16,
    Photo::Linear1 | Photo::Linear3 => 34892,
    _ => 32803,
  }]));
  raw.put(bo.u16s(277, &[cpp as u16]));
  raw.put(bo.u16s(284, &[1]));
  if o.float || r.bool() {
    raw.put(bo.u16s(339, &vec![if o.float { 3 } else { 1 }; cpp]));
  }
  if tiled {
    raw.put(u(r, 322, &[cw as u32]));
    raw.put(u(r, 323, &[ch as u32]));
  } else {
    raw.put(u(r, 278, &[ch as u32]));
  }
  raw.payload = Some(Payload { chunks, tiled });
  let aa = if r.chance(3, 4) {
    let top = r.range(0, (h - 1).min(13));
    let left = r.range(0, (w - 1).min(13));
    let bottom = if r.bool() { h } else { r.range(top + 1, h) };
    let right = if r.bool() { w } else { r.range(left + 1, w) };
    Some([top as u32, left as u32, bottom as u32, right as u32])
  } else {
    None
  };
  if let Some(a) = &aa {
    raw.put(u(r, 50829, a));
  }
  let aar = aa.unwrap_or([0, 0, h as u32, w as u32]);
  let (aw, ah) = ((aar[3] - aar[1]) as usize, (aar[2] - aar[0]) as usize);
  let crop = if r.chance(3, 4) {
    let x = r.range(0, (aw - 1).min(9)) as u32;
    let y = r.range(0, (ah - 1).min(9)) as u32;
    let cw = r.range(1, aw - x as usize) as u32;
    let chh = r.range(1, ah - y as usize) as u32;
    Some(([x, y], [cw, chh]))
  } else {
    None
  };
  if let Some((o, s)) = &crop {
    if r.chance(1, 4) {
      raw.put(bo.rats(50719, &[(o[0], 1), (o[1], 1)]));
      raw.put(bo.rats(50720, &[(s[0], 1), (s[1], 1)]));
    } else {
      raw.put(u(r, 50719, o));
      raw.put(u(r, 50720, s));
    }
  }
  let cfa = match photo {
    Photo::Bayer => (2, 2, r.pick(&[vec![0u8, 1, 1, 2], vec![2, 1, 1, 0], vec![1, 0, 2, 1], vec![1, 2, 0, 1]]).clone()),
    Photo::XTrans => {
      let s = *r.pick(&gen_img::XTRANS);
      (
        6,
        6,
        s.bytes()
          .map(|c| match c {
            b'R' => 0,
            b'G' => 1,
            _ => 2,
          })
          .collect(),
      )
    }
    _ => (0, 0, vec![]),
  };
  if cfa.0 > 0 {
    raw.put(bo.u16s(33421, &[cfa.0 as u16, cfa.1 as u16]));
    raw.put(bo.bytes(33422, &cfa.2));
    raw.put(bo.bytes(50710, &[0, 1, 2]));
    raw.put(bo.u16s(50711, &[1]));
  }
  let (br, bc) = match photo {
    Photo::Bayer => *r.pick(&[(1usize, 1usize), (2, 2), (2, 2), (1, 2), (2, 1)]),
    Photo::XTrans => *r.pick(&[(1, 1), (6, 6)]),
    _ => (1, 1),
  };
  let nb = br * bc * cpp;
  let ratb = r.chance(1, 3);
  let levels: Vec<(u32, u32)> = (0..nb)
    .map(|_| if ratb { (r.range(0, 4000) as u32, *r.pick(&[1, 2, 4, 256])) } else { (r.range(0, 200) as u32, 1) })
    .collect();
  let has_black = r.chance(7, 8);
  let black = if has_black {
    raw.put(bo.u16s(50713, &[br as u16, bc as u16]));
    if ratb {
      raw.put(bo.rats(50714, &levels));
    } else {
      raw.put(u(r, 50714, &levels.iter().map(|x| x.0).collect::<Vec<_>>()));
    }
    (br, bc, levels)
  } else {
    (1, 1, vec![(0, 1); cpp])
  };
  let white: Vec<u32> = (0..cpp).map(|_| r.range(1 << (bits.min(16) - 1), (1 << bits.min(16)) - 1) as u32).collect();
  raw.put(u(r, 50717, &white));
  for e in &o.extra_raw {
    raw.put(e.clone());
  }

  let mut root = WDir::default();
  let make = format!("Vmon{}", r.range(0, 9));
  let model = format!("Synth {}", r.range(0, 999));
  root.put(bo.ascii(271, &make));
  root.put(bo.ascii(272, &model));
  root.put(bo.bytes(50706, &[1, 4, 0, 0]));
  root.put(bo.bytes(50707, &[1, 1, 0, 0]));
  root.put(bo.ascii(50708, &format!("{make} {model}")));
  let orientation = r.range(1, 8) as u16;
  root.put(bo.u16s(274, &[orientation]));
  let mono = matches!(photo, Photo::Mono | Photo::Linear1);
  let neutral: Vec<(u32, u32)> = if mono {
    vec![]
  } else {
    (0..3).map(|i| if i == 1 { (1, 1) } else { (r.range(200_000, 999_999) as u32, 1_000_000) }).collect()
  };
  if !neutral.is_empty() {
    root.put(bo.rats(50728, &neutral));
  }
  let mut matrices = vec![];
  if !mono {
    let ills: &[u16] = *r.pick(&[&[17u16, 21][..], &[21], &[17], &[21, 17]]);
    for (i, ill) in ills.iter().enumerate() {
      let m: Vec<(i32, i32)> = (0..9).map(|_| (r.range(0, 30000) as i32 - 15000, 10000)).collect();
      root.put(bo.srats(50721 + i as u16, &m));
      root.put(bo.u16s(50778 + i as u16, &[*ill]));
      matrices.push((*ill, m));
    }
  }
  for e in &o.extra_root {
    root.put(e.clone());
  }
  if let Some(e) = &o.exif {
    root.subs.push((0x8769, vec![e.clone()]));
  }
  if let Some(e) = &o.gps {
    root.subs.push((0x8825, vec![e.clone()]));
  }
  let on_root = r.chance(1, 3);
  if on_root {
    for e in raw.ents {
      root.put(e);
    }
    root.payload = raw.payload;
  } else {
    // small RGB thumbnail in the root
    if r.bool() {
      let (tw, th) = (r.range(1, 12), r.range(1, 12));
      root.put(bo.u32s(254, &[1]));
      root.put(bo.u32s(256, &[tw as u32]));
      root.put(bo.u32s(257, &[th as u32]));
      root.put(bo.u16s(258, &[8, 8, 8]));
      root.put(bo.u16s(259, &[1]));
      root.put(bo.u16s(262, &[2]));
      root.put(bo.u16s(277, &[3]));
      root.put(bo.u32s(278, &[th as u32]));
      root.payload = Some(Payload { chunks: vec![r.bytes(tw * th * 3)], tiled: false });
    }
    root.subs.push((0x014A, vec![raw]));
  }
  let bytes = TiffOut::write(be, gap, &[root]);
  let desc = format!(
    "src {photo:?} {w}x{h} cpp={cpp} bits={bits} be={be} comp={comp} tiled={tiled}({cw}x{ch}) gap={gap} float={} root={on_root} aa={aa:?} crop={crop:?}",
    o.float
  );
  Src {
    bytes,
    be,
    w,
    h,
    cpp,
    bits,
    photo,
    pix,
    comp,
    tiled,
    aa,
    crop,
    cfa,
    black,
    white,
    neutral,
    matrices,
    orientation,
    make,
    model,
    desc,
  }
}
