//! Writer for Canon CR3/CRM containers (ISO BMFF with CRX compressed frames), from the published format notes.
use crate::p08::{Meta, gen_meta};
use crate::reftiff::{BO, TiffOut, WDir};
use crate::rng::Rng;

pub struct Frame {
  pub cfa: Vec<u16>,
  /// R, G1, G2, B multipliers, black levels, white level of the frame, if stored
  pub color: Option<([u16; 4], [u16; 4], u16)>,
}

pub struct Cr3 {
  pub bytes: Vec<u8>,
  pub frames: Vec<Frame>,
  pub w: usize,
  pub h: usize,
  pub bits: u32,
  /// left, top, right, bottom (exclusive)
  pub crop: [usize; 4],
  pub active: [usize; 4],
  pub model: &'static str,
  pub clean_model: &'static str,
  /// WB is already applied in the stored data
  pub light: bool,
  pub meta: Meta,
  pub be: bool,
  pub gps2: bool,
  pub unique: Option<[u8; 16]>,
  pub xpacket: Option<Vec<u8>>,
  pub preview: Option<image::RgbImage>,
  pub chunks: usize,
  pub desc: String,
}

fn bx(typ: &[u8; 4], payload: &[u8]) -> Vec<u8> {
  let mut v = ((payload.len() + 8) as u32).to_be_bytes().to_vec();
  v.extend(typ);
  v.extend(payload);
  v
}
/// box with 64 bit size
fn bx64(typ: &[u8; 4], payload: &[u8]) -> Vec<u8> {
  let mut v = 1u32.to_be_bytes().to_vec();
  v.extend(typ);
  v.extend(((payload.len() + 16) as u64).to_be_bytes());
  v.extend(payload);
  v
}
fn full(typ: &[u8; 4], payload: &[u8]) -> Vec<u8> {
  let mut p = vec![0u8; 4];
  p.extend(payload);
  bx(typ, &p)
}
fn uuid(id: &[u8; 16], payload: &[u8]) -> Vec<u8> {
  let mut p = id.to_vec();
  p.extend(payload);
  bx(b"uuid", &p)
}
fn b32(v: &[u32]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
fn b16(v: &[u16]) -> Vec<u8> {
  v.iter().flat_map(|x| x.to_be_bytes()).collect()
}
/// a box no reader of this format has to know
fn stranger(r: &mut Rng) -> Vec<u8> {
  let t = *r.pick(&[b"vmon", b"abcd", b"skip", b"edts", b"udta"]);
  let n = r.range(0, 40);
  if r.chance(1, 5) { bx64(t, &r.bytes(n)) } else { bx(t, &r.bytes(n)) }
}

/// sample table of one track; samples are placed in the media data chunk by chunk
struct Track {
  sizes: Vec<u32>,
  /// first sample of each chunk
  chunk_len: Vec<usize>,
  /// position of each chunk inside the media data
  at: Vec<u64>,
}

impl Track {
  fn place(r: &mut Rng, samples: &[Vec<u8>], plan: &mut Vec<(usize, usize, Vec<u8>)>, id: usize) -> Track {
    let mut chunk_len = vec![];
    let mut left = samples.len();
    let mut run = 1;
    while left > 0 {
      if chunk_len.is_empty() || r.chance(1, 3) {
        run = *r.pick(&[1usize, 1, 2, 3, 5]);
      }
      let n = run.min(left);
      chunk_len.push(n);
      left -= n;
    }
    let mut i = 0;
    for (c, n) in chunk_len.iter().enumerate() {
      plan.push((id, c, samples[i..i + n].concat()));
      i += n;
    }
    Track {
      sizes: samples.iter().map(|s| s.len() as u32).collect(),
      at: vec![0; chunk_len.len()],
      chunk_len,
    }
  }

  fn stbl(&self, r: &mut Rng, stsd: &[u8], base: u64, odd: bool) -> Vec<u8> {
    let n = self.sizes.len() as u32;
    let mut stsc = vec![];
    let mut last = 0;
    let mut cnt = 0;
    for (i, l) in self.chunk_len.iter().enumerate() {
      if *l != last {
        stsc.extend([i as u32 + 1, *l as u32, 1]);
        cnt += 1;
        last = *l;
      }
    }
    let mut sc = vec![cnt];
    sc.extend(stsc);
    let same = self.sizes.iter().all(|s| *s == self.sizes[0]);
    let stsz = if same && r.bool() {
      full(b"stsz", &b32(&[self.sizes[0], n]))
    } else {
      let mut v = vec![0, n];
      v.extend(&self.sizes);
      full(b"stsz", &b32(&v))
    };
    let mut co = b32(&[self.at.len() as u32]);
    for a in &self.at {
      co.extend((base + a).to_be_bytes());
    }
    let mut boxes = vec![full(b"stts", &b32(&[1, n, 1])), full(b"stsc", &b32(&sc)), stsz, full(b"co64", &co)];
    if odd {
      let k = r.range(0, boxes.len());
      boxes.insert(k, stranger(r));
    }
    let mut sd = b32(&[1]);
    sd.extend(stsd);
    let mut v = full(b"stsd", &sd);
    v.extend(boxes.concat());
    bx(b"stbl", &v)
  }
}

fn trak(r: &mut Rng, stbl: Vec<u8>, meta: bool, odd: bool) -> Vec<u8> {
  let n = r.range(0, 60);
  let tkhd = full(b"tkhd", &r.bytes(80));
  let mdhd = if r.bool() {
    full(b"mdhd", &b32(&[1, 2, 3, 4, 5]))
  } else {
    let mut p = vec![1u8, 0, 0, 0];
    p.extend(b32(&[0, 1, 0, 2, 3, 0, 4, 5]));
    bx(b"mdhd", &p)
  };
  let hdlr = full(b"hdlr", &r.bytes(8 + n));
  let mut minf = vec![];
  if !meta {
    minf.extend(full(b"vmhd", &[0; 8]));
  } else {
    minf.extend(full(b"nmhd", &[]));
  }
  minf.extend(bx(b"dinf", &full(b"dref", &[0, 0, 0, 1])));
  minf.extend(stbl);
  let mut mdia = mdhd;
  mdia.extend(hdlr);
  if odd {
    mdia.extend(stranger(r));
  }
  mdia.extend(bx(b"minf", &minf));
  let mut t = tkhd;
  if odd && r.bool() {
    t.extend(stranger(r));
  }
  t.extend(bx(b"mdia", &mdia));
  bx(b"trak", &t)
}

fn craw(r: &mut Rng, w: usize, h: usize, inner: &[Vec<u8>]) -> Vec<u8> {
  let mut v = vec![0u8; 6];
  v.extend([0, 1]);
  v.extend(r.bytes(16));
  v.extend(b16(&[w as u16, h as u16, 72, 0, 72, 0]));
  v.extend([0; 6]);
  v.extend([0; 32]);
  v.extend(b16(&[24, 0xFFFF, 3, 0]));
  for b in inner {
    v.extend(b);
  }
  bx(b"CRAW", &v)
}

const XUUID: [u8; 16] = [0xbe, 0x7a, 0xcf, 0xcb, 0x97, 0xa9, 0x42, 0xe8, 0x9c, 0x71, 0x99, 0x94, 0x91, 0xe3, 0xaf, 0xac];
const CANON: [u8; 16] = [0x85, 0xc0, 0xb6, 0x87, 0x82, 0x0f, 0x11, 0xe0, 0x81, 0x11, 0xf4, 0xce, 0x46, 0x2b, 0x6a, 0x48];
const PREVIEW: [u8; 16] = [0xea, 0xf4, 0x2b, 0x5e, 0x1c, 0x98, 0x4b, 0x88, 0xb9, 0xfb, 0xb7, 0xdc, 0x40, 0x6e, 0x4d, 0x16];

/// (version, white balance, black level, specular white level): positions in the colour data
const COLOR: &[(u16, usize, usize, usize)] = &[
  (16, 0x47, 0x149, 0x31d),
  (17, 0x47, 0x149, 0x31d),
  (18, 0x47, 0x149, 0x31d),
  (19, 0x47, 0x149, 0x31d),
  (32, 0x55, 0x157, 0x32b),
  (33, 0x55, 0x157, 0x32b),
  (34, 0x69, 0x16b, 0x281),
  (48, 0x69, 0x16b, 0x282),
  (64, 0x69, 0x17f, 0x295),
  (65, 0x69, 0x17f, 0x295),
  (66, 0x69, 0x17f, 0x295),
];

fn record(typ: u16, payload: &[u8]) -> Vec<u8> {
  let mut v = ((payload.len() + 12) as u32).to_le_bytes().to_vec();
  v.extend(typ.to_le_bytes());
  v.extend([0, 0, 0, 1, 0xff, 0xff]);
  v.extend(payload);
  v
}
fn block(tag: u16, tiff: &[u8]) -> Vec<u8> {
  let mut v = ((tiff.len() + 8) as u32).to_le_bytes().to_vec();
  v.extend(tag.to_le_bytes());
  v.extend([0, 0]);
  v.extend(tiff);
  v
}

/// Only small geometries are generated, `max` bounds the number of frames.
pub fn gen_cr3(r: &mut Rng, max: usize) -> Option<Cr3> {
  let movie = r.chance(1, 3);
  let (model, clean_model) = if movie {
    *r.pick(&[("Canon EOS R5", "EOS R5"), ("Canon EOS R5 C", "EOS R5 C"), ("Canon EOS-1D X Mark III", "EOS-1D X Mark III")])
  } else {
    *r.pick(&[("Canon EOS R6", "EOS R6"), ("Canon EOS R5", "EOS R5"), ("Canon EOS RP", "EOS RP"), ("Canon EOS R", "EOS R"), ("Canon EOS R7", "EOS R7")])
  };
  let quality: u16 = if movie { *r.pick(&[130, 131]) } else { *r.pick(&[4, 7]) };
  let n = if r.chance(1, 3) { 1 } else { r.range(1, max) };
  let spec = crate::refcrx::spec(r);
  let (w, h) = (spec.w, spec.h);
  let mut frames = vec![];
  let mut raw_samples = vec![];
  let mut ctmd_samples = vec![];
  let mut cmp1: Option<Vec<u8>> = None;
  let version = *r.pick(COLOR);
  for _ in 0..n {
    let planes = crate::refcrx::planes(r, &spec);
    let o = crate::refcrx::build(r, &spec, &planes)?;
    // The size of the tile headers is common to all frames
    if cmp1.as_ref().is_some_and(|c| *c != o.cmp1) {
      return None;
    }
    cmp1 = Some(o.cmp1);
    raw_samples.push(o.data);
    let color = r.chance(9, 10).then(|| {
      let wb = [r.range(200, 4000) as u16, *r.pick(&[1024u16, 1024, 1000]), r.range(1000, 1040) as u16, r.range(200, 4000) as u16];
      let black = std::array::from_fn(|_| r.range(0, 600) as u16);
      (wb, black, r.range(1000, 16383) as u16)
    });
    // colour data of the frame
    let mut rec = record(1, &r.bytes(8));
    let mut rec4 = b16(&[]);
    rec4.extend((r.range(8, 800) as u16).to_le_bytes());
    rec4.extend(1u16.to_le_bytes());
    rec4.extend([0; 4]);
    rec.extend(record(4, &rec4));
    let mut rec5 = vec![];
    for x in [r.range(10, 320) as u16, 10, 1, r.range(1, 8000) as u16] {
      rec5.extend(x.to_le_bytes());
    }
    rec5.extend((r.range(100, 25600) as u32).to_le_bytes());
    rec5.extend([0; 16]);
    rec.extend(record(5, &rec5));
    let le = BO(false);
    let mut dir7 = WDir::default();
    dir7.put(le.u16s(0x8827, &[100]));
    let t7 = TiffOut::write(false, 0, &[dir7]);
    rec.extend(record(7, &[block(0x8769, &t7), block(0x927c, &t7)].concat()));
    let mut dir8 = WDir::default();
    dir8.put(le.u16s(0x4010, &[1, 2, 3]));
    if let Some((wb, black, white)) = &color {
      let mut d: Vec<u16> = (0..0x600).map(|_| r.u16()).collect();
      d[0] = version.0;
      d[version.1..version.1 + 4].copy_from_slice(wb);
      d[version.2..version.2 + 4].copy_from_slice(black);
      d[version.3] = *white;
      dir8.put(le.u16s(0x4001, &d));
    }
    rec.extend(record(8, &block(0x927c, &TiffOut::write(false, 0, &[dir8]))));
    if r.bool() {
      rec.extend(record(9, &block(0x927c, &t7)));
    }
    ctmd_samples.push(rec);
    frames.push(Frame { cfa: o.cfa, color });
  }
  let cmp1 = cmp1?;

  // sensor areas
  let big = r.chance(3, 4);
  let crop_l = r.range(0, w / 4);
  let crop_t = r.range(0, h / 4);
  let crop_r = r.range(crop_l + w / 2, w - 1).min(w - 1);
  let crop_b = r.range(crop_t + h / 2, h - 1).min(h - 1);
  let (mut active, crop) = ([crop_l, crop_t, crop_r, crop_b], [crop_l, crop_t, crop_r, crop_b]);
  let mut iad = b16(&[w as u16, h as u16, 1, if big { 2 } else { 0 }, 1, 0]);
  if big {
    // last column and row of the crop are included, those of the active area are not
    iad.extend(b16(&[crop_l as u16, crop_t as u16, crop_r as u16 - 1, crop_b as u16 - 1]));
    iad.extend(b16(&[0, 0, r.range(1, 9) as u16, r.range(1, 9) as u16]));
    iad.extend(b16(&[0, 0, r.range(1, 9) as u16, r.range(1, 9) as u16]));
    active = [r.range(0, crop_l), r.range(0, crop_t), r.range(crop_r, w), r.range(crop_b, h)];
    // a few files state areas that exceed the image
    let (er, eb) = (active[2] == w && r.bool(), active[3] == h && r.bool());
    iad.extend(b16(&[active[0] as u16, active[1] as u16, (active[2] + 1) as u16 + er as u16 * 3, (active[3] + 1) as u16 + eb as u16 * 2]));
  } else {
    iad.extend(b16(&[crop_l as u16, crop_t as u16, crop_r as u16 - 1, crop_b as u16 - 1]));
    iad.extend(b16(&[0, 0, w as u16, h as u16]));
  }
  let cdi1 = full(b"CDI1", &full(b"IAD1", &iad));

  // preview
  let (pw, ph) = (r.range(8, 40), r.range(8, 40));
  let pre = image::RgbImage::from_fn(pw as u32, ph as u32, |x, y| image::Rgb([(x * 6) as u8, (y * 6) as u8, 90]));
  let mut jpeg = std::io::Cursor::new(vec![]);
  image::DynamicImage::ImageRgb8(pre.clone()).write_to(&mut jpeg, image::ImageFormat::Jpeg).ok()?;
  let mut jpeg = jpeg.into_inner();
  let preview = r.chance(4, 5);
  if !preview {
    jpeg = r.bytes(300); // HEVC data
  }

  // descriptions
  let be = r.chance(1, 8);
  let bo = BO(be);
  let mut meta = gen_meta(r, be);
  meta.root.retain(|e| matches!(e.tag, 33432 | 315 | 306));
  meta.raw.clear();
  let mut gps2 = false;
  let mut gps_dir = meta.gps.clone().unwrap_or_default();
  if let Some(g) = &mut meta.gps {
    // Canon stores only two rationals for these
    if r.bool() {
      gps2 = true;
      for e in g.ents.iter_mut().filter(|e| matches!(e.tag, 2 | 4 | 7)) {
        e.data.truncate(16);
        let e2 = gps_dir.ents.iter_mut().find(|x| x.tag == e.tag).unwrap();
        e2.data.truncate(16);
        e2.count = 2;
        e.data.extend(if be { [0u32.to_be_bytes(), 1u32.to_be_bytes()] } else { [0u32.to_le_bytes(), 1u32.to_le_bytes()] }.concat());
      }
    }
  }
  if gps_dir.ents.is_empty() {
    gps_dir.put(bo.bytes(0, &[2, 3, 0, 0]));
    meta.gps = Some(gps_dir.clone());
  }
  let mut d1 = WDir::default();
  d1.put(bo.ascii(271, "Canon"));
  d1.put(bo.ascii(272, model));
  for e in &meta.root {
    d1.put(e.clone());
  }
  let mut d2 = meta.exif.clone().unwrap_or_default();
  if d2.ents.is_empty() {
    d2.put(bo.u16s(0x8827, &[800]));
    meta.exif = Some(d2.clone());
  }
  let _ = &mut d2;
  let unique: Option<[u8; 16]> = r.chance(3, 4).then(|| std::array::from_fn(|_| r.u8()));
  let mut d3 = WDir::default();
  let mut cs: Vec<u16> = (0..r.range(40, 60)).map(|_| r.range(0, 9) as u16).collect();
  cs[3] = quality;
  d3.put(bo.u16s(1, &cs));
  d3.put(bo.u16s(0x93, &vec![0; 70]));
  if let Some(u) = &unique {
    d3.put(bo.bytes(0x28, u));
  }
  if r.bool() {
    d3.put(bo.u32s(0x4026, &[0; 20]));
  }
  let tiff = |r: &mut Rng, d: WDir| TiffOut::write(be, r.range(0, 1) * 2, &[d]);
  let (c1, c2, c3, c4) = (tiff(r, d1), tiff(r, d2), tiff(r, d3), tiff(r, gps_dir));

  // tracks: the JPEG preview, optionally a small raw image, the raw frames, the timed metadata
  let mut plan: Vec<(usize, usize, Vec<u8>)> = vec![];
  let small = r.chance(2, 3);
  let mut order: Vec<usize> = vec![2, 3]; // 0 preview 1 small 2 raw 3 metadata
  if small {
    order.push(1);
  }
  for i in (1..order.len()).rev() {
    let j = r.range(0, i);
    order.swap(i, j);
  }
  order.insert(0, 0);
  let mut tracks: Vec<Option<Track>> = vec![None, None, None, None];
  tracks[0] = Some(Track::place(r, &[jpeg], &mut plan, 0));
  if small {
    let junk: Vec<Vec<u8>> = (0..n).map(|_| r.bytes(40)).collect();
    tracks[1] = Some(Track::place(r, &junk, &mut plan, 1));
  }
  tracks[2] = Some(Track::place(r, &raw_samples, &mut plan, 2));
  tracks[3] = Some(Track::place(r, &ctmd_samples, &mut plan, 3));
  let chunks = tracks[2].as_ref().unwrap().chunk_len.len();
  for i in (1..plan.len()).rev() {
    if r.bool() {
      let j = r.range(0, i);
      plan.swap(i, j);
    }
  }
  let mut mdat = vec![];
  for (t, c, data) in &plan {
    if r.chance(1, 4) {
      let k = r.range(1, 33);
      mdat.extend(r.bytes(k));
    }
    tracks[*t].as_mut().unwrap().at[*c] = mdat.len() as u64;
    mdat.extend(data);
  }

  let xpacket = r.bool().then(|| {
    let body = format!("<?xpacket begin='' id='W5M0'?><x:xmpmeta xmlns:x='adobe:ns:meta/'>{}</x:xmpmeta><?xpacket end='w'?>", r.range(0, 1 << 30));
    body.into_bytes()
  });
  let odd = r.chance(1, 3);
  let first = r.chance(1, 5); // media data before the description
  let seed = r.u64();
  let moov = |base: u64| -> Vec<u8> {
    let r = &mut Rng::new(seed);
    let mut cctp = b32(&[0, 0, order.len() as u32]);
    let mut traks = vec![];
    for (i, t) in order.iter().enumerate() {
      let typ: u64 = [2, 1, 0, 3][*t];
      let mut c = typ.to_be_bytes().to_vec();
      c.extend(b32(&[0, i as u32 + 1]));
      cctp.extend(bx(b"CCDT", &c));
      let tr = tracks[*t].as_ref().unwrap();
      let stsd = match t {
        0 => craw(r, pw, ph, &[if preview { full(b"JPEG", &[]) } else { bx(b"HEVC", &[7; 20]) }, bx(b"free", &[0; 5])]),
        1 => craw(r, 1624, 1080, &[bx(b"CMP1", &cmp1), cdi1.clone()]),
        2 => {
          if r.bool() {
            craw(r, w, h, &[bx(b"CMP1", &cmp1), cdi1.clone(), bx(b"free", &[0; 3])])
          } else {
            craw(r, w, h, &[cdi1.clone(), bx(b"CMP1", &cmp1)])
          }
        }
        _ => {
          let mut v = vec![0u8; 6];
          v.extend([0, 1]);
          v.extend(b32(&[2]));
          v.extend([0, 0, 0, 4, 0, 0, 0, 20, 0, 0, 0, 5, 0, 0, 0, 40]);
          bx(b"CTMD", &v)
        }
      };
      let stbl = tr.stbl(r, &stsd, base, odd);
      traks.push(trak(r, stbl, *t == 3, odd));
    }
    let mut desc = bx(b"CNCV", b"CanonCR3_001/01.10.00/00.00.00");
    desc.extend(bx(b"CCTP", &cctp));
    desc.extend(bx(b"CTBO", &b32(&[0])));
    if odd {
      desc.extend(bx(b"free", &[0; 9]));
    }
    for (t, d) in [(b"CMT1", &c1), (b"CMT2", &c2), (b"CMT3", &c3), (b"CMT4", &c4)] {
      desc.extend(bx(t, d));
    }
    desc.extend(full(b"THMB", &[0; 40]));
    let desc = uuid(&CANON, &desc);
    let mvhd = full(b"mvhd", &[0; 96]);
    let mut v = vec![];
    match r.range(0, 2) {
      0 => {
        v.extend(desc);
        v.extend(mvhd);
        v.extend(traks.concat());
      }
      1 => {
        v.extend(mvhd);
        v.extend(desc);
        v.extend(traks.concat());
      }
      _ => {
        v.extend(mvhd);
        v.extend(traks.concat());
        v.extend(desc);
      }
    }
    if odd {
      let mut all = uuid(&std::array::from_fn(|i| i as u8 ^ 0x5A), &r.bytes(24));
      if r.bool() {
        all.extend(stranger(r));
      }
      if r.bool() {
        v.extend(all);
      } else {
        all.extend(&v);
        v = all;
      }
    }
    bx(b"moov", &v)
  };
  let mut bytes = bx(b"ftyp", b"crx \0\0\0\x01crx isom");
  let wide = r.chance(1, 2);
  let head = if wide { 16 } else { 8 };
  let mut tail = vec![];
  if let Some(x) = &xpacket {
    tail.extend(uuid(&XUUID, x));
  }
  if r.bool() {
    tail.extend(uuid(&PREVIEW, &r.bytes(60)));
  }
  let pad = |r: &mut Rng, v: &mut Vec<u8>| {
    if r.chance(1, 4) {
      v.extend(bx(b"free", &r.bytes(12)));
    }
  };
  let mbox = if wide { bx64(b"mdat", &mdat) } else { bx(b"mdat", &mdat) };
  if first {
    let base = bytes.len() as u64 + head;
    bytes.extend(&mbox);
    bytes.extend(moov(base));
    bytes.extend(&tail);
  } else {
    let len = moov(0).len();
    let mut t2 = tail.clone();
    pad(r, &mut t2);
    let base = (bytes.len() + len + t2.len()) as u64 + head;
    bytes.extend(moov(base));
    bytes.extend(&t2);
    bytes.extend(&mbox);
  }
  let desc = format!(
    "{model} quality {quality} {n} frames {w}x{h} tiles {}x{} levels {} chunks {chunks} order {order:?} colour version {} first={first} odd={odd} be={be} big={big}",
    spec.tw, spec.th, spec.levels, version.0
  );
  Some(Cr3 {
    bytes,
    frames,
    w,
    h,
    bits: spec.bits,
    crop,
    active,
    model,
    clean_model,
    light: quality == 130,
    meta,
    be,
    gps2,
    unique,
    xpacket,
    preview: preview.then_some(pre),
    chunks,
    desc,
  })
}
