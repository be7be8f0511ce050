//! C09: camera sensor encodings decode to exactly the samples a reference encoder stored.
use crate::ctx::{Ctx, Verdict, guard, hash_u16};
use crate::gen_img::samples;
use crate::refljpeg;
use crate::rng::Rng;
use crate::util::diff_u16;
use rawler::RawImageData;
use rawler::rawsource::RawSource;
use serde_json::json;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

/* ---------- reference bit writers ---------- */

/// Plain list of bits, most significant first.
#[derive(Default, Clone)]
pub struct Bits(pub Vec<bool>);

impl Bits {
  pub fn put(&mut self, v: u32, n: u32) {
    for i in (0..n).rev() {
      self.0.push((v >> i) & 1 == 1);
    }
  }
  /// bytes, first bit is the MSB of the first byte
  pub fn msb(&self) -> Vec<u8> {
    let mut out = vec![0u8; self.0.len().div_ceil(8)];
    for (i, b) in self.0.iter().enumerate() {
      if *b {
        out[i / 8] |= 0x80 >> (i % 8);
      }
    }
    out
  }
  /// as `msb`, with the bytes of every n-byte word reversed
  pub fn msb_words(&self, n: usize) -> Vec<u8> {
    let mut b = self.msb();
    while b.len() % n != 0 {
      b.push(0);
    }
    for w in b.chunks_mut(n) {
      w.reverse();
    }
    b
  }
  /// as `msb` with a zero byte after every 0xff
  pub fn stuffed(&self) -> Vec<u8> {
    let mut out = vec![];
    for b in self.msb() {
      out.push(b);
      if b == 0xff {
        out.push(0);
      }
    }
    out
  }
}

/// Bits packed starting at the least significant bit of the first byte.
#[derive(Default)]
struct Lsb(Vec<bool>);

impl Lsb {
  fn put(&mut self, v: u32, n: u32) {
    for i in 0..n {
      self.0.push((v >> i) & 1 == 1);
    }
  }
  fn bytes(&self) -> Vec<u8> {
    let mut out = vec![0u8; self.0.len().div_ceil(8)];
    for (i, b) in self.0.iter().enumerate() {
      if *b {
        out[i / 8] |= 1 << (i % 8);
      }
    }
    out
  }
}

/// JPEG magnitude category coding of a difference: (category, extra bits)
pub fn category(d: i32) -> (u32, u32) {
  let a = d.unsigned_abs();
  let n = 32 - a.leading_zeros();
  if d >= 0 { (n, d as u32) } else { (n, (d + (1 << n) - 1) as u32) }
}

/// Canonical codes of a DHT style table: (symbol index order) -> (code, length)
pub fn canon(bits: &[u8]) -> Vec<(u32, u32)> {
  let mut code = 0u32;
  let mut out = vec![];
  for (l, n) in bits.iter().enumerate() {
    for _ in 0..*n {
      out.push((code, l as u32 + 1));
      code += 1;
    }
    code <<= 1;
  }
  out
}

/* ---------- linearisation with the RawSpeed dither ---------- */

pub struct Curve(pub Vec<u16>);

impl Curve {
  pub fn get(&self, v: u16, rnd: &mut u32) -> u16 {
    let t = &self.0;
    let i = v as usize;
    let c = t[i];
    let lo = if i > 0 { t[i - 1] } else { c };
    let hi = if i + 1 < t.len() { t[i + 1] } else { c };
    let delta = (hi - lo) as u32;
    let base = if c == 0 { 0 } else { c as u32 - (delta + 2) / 4 };
    let p = base + ((delta * (*rnd & 2047) + 1024) >> 12);
    *rnd = 15700 * (*rnd & 65535) + (*rnd >> 16);
    p as u16
  }
}

/// Monotone table with bounded steps (so that the dither never leaves 16 bit).
pub fn curve(r: &mut Rng, n: usize, max: u32) -> Vec<u16> {
  let mut v = Vec::with_capacity(n);
  let mut cur = 0u32;
  let step = (max / n as u32).max(1);
  for _ in 0..n {
    v.push(cur.min(max) as u16);
    cur += r.u32() % (2 * step + 1);
  }
  v
}

/* ---------- packed layouts ---------- */

fn rows<'a>(v: &'a [u16], w: usize) -> std::slice::Chunks<'a, u16> {
  v.chunks(w)
}

/// Build (width, height, payload, expected) for one layout id.
fn packed(r: &mut Rng, id: u16) -> (usize, usize, Vec<u8>, Vec<u16>) {
  let unit = pack_unit(id);
  let w = unit * r.range(1, 64 / unit);
  let h = r.range(1, 64);
  let bps = match id {
    1 | 2 => 10,
    16 | 17 => 14,
    18..=20 => 16,
    _ => 12,
  };
  let v = samples(r, w, h, bps);
  let out = pack(r, id, &v, w);
  (w, h, out, v)
}

/// The width of a row is a multiple of this
pub fn pack_unit(id: u16) -> usize {
  match id {
    1 => 8,
    2 => 4,
    4 => 4,
    6 => 8,
    7 | 8 => 10,
    3 | 5 | 9 | 10 | 11 => 2,
    _ => 1,
  }
}

/// The samples in packed layout `id`
pub fn pack(r: &mut Rng, id: u16, v: &[u16], w: usize) -> Vec<u8> {
  let mut out = vec![];
  let be12 = |row: &[u16]| {
    let mut b = Bits::default();
    row.iter().for_each(|s| b.put(*s as u32, 12));
    b.msb()
  };
  match id {
    1 | 2 => {
      let mut b = Bits::default();
      v.iter().for_each(|s| b.put(*s as u32, 10));
      out = if id == 1 { b.msb_words(2) } else { b.msb() };
    }
    3 => out = be12(v),
    4 | 6 => {
      let mut b = Bits::default();
      v.iter().for_each(|s| b.put(*s as u32, 12));
      out = b.msb_words(if id == 4 { 2 } else { 4 });
    }
    5 => {
      for row in rows(v, w) {
        let mut b = be12(row);
        if b.len() % 2 == 1 {
          b.push(r.u8());
        }
        out.extend(b);
      }
    }
    7 | 8 => {
      for row in rows(v, w) {
        for g in row.chunks(10) {
          let mut b = Lsb::default();
          if id == 7 {
            g.iter().for_each(|s| b.put(*s as u32, 12));
            out.extend(b.bytes());
          } else {
            out.extend(be12(g));
          }
          out.push(r.u8());
        }
      }
    }
    9 | 10 => {
      let f = |par: usize| rows(v, w).skip(par).step_by(2).flat_map(|x| be12(x)).collect::<Vec<u8>>();
      out = f(0);
      if id == 9 {
        // the second field starts on the next 2 KiB boundary (always at least one byte further)
        let pos = (out.len() / 2048 + 1) * 2048;
        while out.len() < pos {
          out.push(r.u8());
        }
      }
      out.extend(f(1));
    }
    11 => {
      let mut b = Lsb::default();
      v.iter().for_each(|s| b.put(*s as u32, 12));
      out = b.bytes();
    }
    // unpacked words; the unused bits carry noise
    12 => v.iter().for_each(|s| out.extend((s | (r.u16() & 0xf) << 12).to_le_bytes())),
    13 => v.iter().for_each(|s| out.extend((s | (r.u16() & 0xf) << 12).to_be_bytes())),
    14 => v.iter().for_each(|s| out.extend((s << 4 | (r.u16() & 0xf)).to_be_bytes())),
    15 => v.iter().for_each(|s| out.extend((s << 4 | (r.u16() & 0xf)).to_le_bytes())),
    16 => v.iter().for_each(|s| out.extend((s | (r.u16() & 3) << 14).to_le_bytes())),
    17 => v.iter().for_each(|s| out.extend((s | (r.u16() & 3) << 14).to_be_bytes())),
    18 => v.iter().for_each(|s| out.extend(s.to_le_bytes())),
    19 => {
      for row in rows(v, w) {
        row.iter().for_each(|s| out.extend(s.to_le_bytes()));
        out.extend(r.bytes(w * 2));
      }
    }
    20 => v.iter().for_each(|s| out.extend(s.to_be_bytes())),
    _ => unreachable!(),
  }
  out
}

/* ---------- compressed formats ---------- */

/// Sony A100: right to left columns, even rows of a column before its odd rows (even heights only).
pub fn arw1(v: &[u16], w: usize, h: usize) -> Vec<u8> {
  let mut b = Bits::default();
  let mut sum = 0i32;
  for x in 0..w {
    let col = w - 1 - x;
    for row in (0..h).step_by(2).chain((1..h).step_by(2)) {
      let d = v[row * w + col] as i32 - sum;
      sum += d;
      let (n, extra) = category(d);
      match n {
        0 => b.put(0b011, 3),
        1 => b.put(3, 2),
        2 => b.put(2, 2),
        3 => b.put(0b010, 3),
        n => {
          b.put(0, 2);
          b.put(0, n - 4);
          b.put(1, 1);
        }
      }
      b.put(extra, n);
    }
  }
  b.msb()
}

pub fn arw2(r: &mut Rng, w: usize, h: usize, curve: &Curve) -> (Vec<u8>, Vec<u16>) {
  let mut data = vec![];
  let mut codes = vec![0u16; w * h];
  for row in 0..h {
    for blk in 0..w / 32 {
      for j in 0..2 {
        let (a, b) = (r.u32() & 0x7ff, r.u32() & 0x7ff);
        let (max, min) = match r.range(0, 3) {
          0 => (a, a),
          1 => {
            let m = a.min(0x7ff - 130);
            (m + r.u32() % 130, m)
          }
          _ => (a.max(b), a.min(b)),
        };
        let imax = r.range(0, 15);
        let imin = (imax + r.range(1, 15)) % 16;
        // shift so that 7 bits span the range
        let mut sh = 0;
        while (0x80u32 << sh) <= max - min {
          sh += 1;
        }
        let mut l = Lsb::default();
        l.put(max, 11);
        l.put(min, 11);
        l.put(imax as u32, 4);
        l.put(imin as u32, 4);
        for i in 0..16 {
          let v = if i == imax {
            max
          } else if i == imin {
            min
          } else {
            let q = if r.bool() { r.u32() & 0x7f } else { (r.u32() % (max - min + 1)) >> sh };
            l.put(q, 7);
            (min + (q << sh)).min(0x7ff)
          };
          codes[row * w + blk * 32 + i * 2 + j] = (v << 1) as u16;
        }
        let mut b = l.bytes();
        assert_eq!(b.len(), 16);
        data.append(&mut b);
      }
    }
  }
  let mut exp = vec![0u16; w * h];
  for row in 0..h {
    let mut rnd = data[row * w] as u32 | (data[row * w + 1] as u32) << 8;
    // dither runs in decode order: even pixels of a block first
    for blk in 0..w / 32 {
      for j in 0..2 {
        for i in 0..16 {
          let p = row * w + blk * 32 + i * 2 + j;
          exp[p] = curve.get(codes[p], &mut rnd);
        }
      }
    }
  }
  (data, exp)
}

pub fn sony_crypt(data: &[u8], key: u32) -> Vec<u8> {
  let mut pad = [0u32; 128];
  let mut k = key;
  for p in pad.iter_mut().take(4) {
    k = k.wrapping_mul(48828125).wrapping_add(1);
    *p = k;
  }
  pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
  for p in 4..127 {
    pad[p] = (pad[p - 4] ^ pad[p - 2]) << 1 | (pad[p - 3] ^ pad[p - 1]) >> 31;
  }
  // the key stream is big endian
  for p in pad.iter_mut().take(127) {
    *p = p.swap_bytes();
  }
  let mut out = vec![];
  for (i, w) in data.chunks_exact(4).enumerate() {
    let p = i + 127;
    pad[p & 127] = pad[(p + 1) & 127] ^ pad[(p + 65) & 127];
    let x = u32::from_le_bytes(w.try_into().unwrap()) ^ pad[p & 127];
    out.extend(x.to_le_bytes());
  }
  out
}

/// Olympus 12/14 bit predictive coding. None when a sample cannot be represented.
pub fn orf(v: &[u16], w: usize, h: usize) -> Option<Vec<u8>> {
  let mut b = Bits::default();
  let px = |row: usize, col: usize| v[row * w + col] as i32;
  for row in 0..h {
    let mut carry = [[0i32; 3]; 2];
    for col in 0..w {
      let c = &mut carry[col & 1];
      let i = if c[2] < 3 { 2 } else { 0 };
      let mut nbits = 2 + i;
      while (c[0] as u16 as i32) >> (nbits + i) != 0 {
        nbits += 1;
      }
      let nbits = nbits.min(16);
      let pred = match (row < 2, col < 2) {
        (true, true) => 0,
        (true, false) => px(row, col - 2),
        (false, true) => px(row - 2, col),
        _ => {
          let (l, n, nw) = (px(row, col - 2), px(row - 2, col), px(row - 2, col - 2));
          let (a, u) = (l - nw, n - nw);
          if (a < 0 && u > 0) || (a > 0 && u < 0) {
            if a.abs() > 32 || u.abs() > 32 { l + n - nw } else { (l + n) >> 1 }
          } else if a.abs() > u.abs() {
            l
          } else {
            n
          }
        }
      };
      let d = px(row, col) - pred;
      let low = d & 3;
      let diff = d >> 2;
      let t = diff - c[1];
      let sign = if t < 0 { -1 } else { 0 };
      let mag = t ^ sign;
      let high = mag >> nbits;
      b.put((sign & 1) as u32, 1);
      b.put(low as u32, 2);
      if high < 12 {
        b.put(0, high as u32);
        b.put(1, 1);
      } else {
        b.put(0, 12);
        if nbits >= 16 || high >= 1 << (15 - nbits) {
          return None;
        }
        b.put((high as u32) << 1, 16 - nbits as u32);
      }
      b.put((mag & ((1 << nbits) - 1)) as u32, nbits as u32);
      c[0] = mag;
      c[1] = (diff * 3 + c[1]) >> 5;
      c[2] = if mag > 16 { 0 } else { c[2] + 1 };
    }
  }
  Some(b.msb())
}

/// Bits needed for a two's complement value
fn twos(d: i32) -> u32 {
  if d == 0 {
    0
  } else if d > 0 {
    33 - (d as u32).leading_zeros()
  } else {
    33 - (!(d) as u32).leading_zeros()
  }
}

/// Samsung generation 1 (16 pixel groups with up/left prediction); (row offsets, data)
pub fn srw1(r: &mut Rng, v: &[u16], w: usize, h: usize) -> Option<(Vec<u32>, Vec<u8>)> {
  // the stored mosaic has the two off-diagonal samples of each 2x2 block exchanged
  let mut s = v.to_vec();
  for row in (0..h).step_by(2) {
    for col in (0..w).step_by(2) {
      s.swap(row * w + col + 1, (row + 1) * w + col);
    }
  }
  let px = |row: usize, col: usize| s[row * w + col] as i32;
  let mut offs = vec![];
  let mut data = vec![];
  for row in 0..h {
    offs.push(data.len() as u32);
    let mut len = [if row < 2 { 7u32 } else { 4 }; 4];
    let mut b = Bits::default();
    for col in (0..w).step_by(16) {
      let mut diffs = |up: bool| -> [[i32; 4]; 4] {
        let mut d = [[0i32; 4]; 4];
        for c in 0..16 {
          let p = match (up, c % 2) {
            (true, 0) => {
              if row >= 1 {
                px(row - 1, col + c)
              } else {
                return [[1 << 20; 4]; 4];
              }
            }
            (true, _) => {
              if row >= 2 {
                px(row - 2, col + c)
              } else {
                return [[1 << 20; 4]; 4];
              }
            }
            (false, 0) => {
              if col == 0 {
                128
              } else {
                px(row, col - 2)
              }
            }
            (false, _) => {
              if col == 0 {
                128
              } else {
                px(row, col - 1)
              }
            }
          };
          let g = (c % 2) * 2 + c / 8;
          d[g][(c % 8) / 2] = px(row, col + c) - p;
        }
        d
      };
      let mut up = row >= 2 && r.bool();
      let mut d = diffs(up);
      let need = |d: &[[i32; 4]; 4]| d.iter().map(|g| g.iter().map(|x| twos(*x)).max().unwrap()).collect::<Vec<u32>>();
      let mut n = need(&d);
      if n.iter().any(|x| *x > 15) && row >= 2 {
        up = !up;
        d = diffs(up);
        n = need(&d);
      }
      if n.iter().any(|x| *x > 15) {
        return None;
      }
      b.put(up as u32, 1);
      let mut ops = vec![];
      let mut vals = vec![];
      for i in 0..4 {
        // sometimes spend more bits than needed
        let want = if r.chance(1, 6) { n[i].max(len[i]) } else { n[i] };
        let op = if want == len[i] && r.chance(7, 8) {
          0
        } else if want == len[i] + 1 && r.chance(7, 8) {
          1
        } else if want + 1 == len[i] && r.chance(7, 8) {
          2
        } else {
          3
        };
        ops.push(op);
        if op == 3 {
          vals.push(want);
        }
        len[i] = want;
      }
      // all four operations first, then the explicit lengths
      ops.iter().for_each(|o| b.put(*o, 2));
      vals.iter().for_each(|x| b.put(*x, 4));
      for g in 0..4 {
        for x in d[g] {
          b.put(x as u32 & ((1u64 << len[g]) - 1) as u32, len[g]);
        }
      }
    }
    data.extend(b.msb_words(4));
  }
  Some((offs, data))
}

pub fn srw2(v: &[u16], w: usize, h: usize) -> Option<Vec<u8>> {
  // code lengths per magnitude category in code order
  let order: [(u32, u32); 14] = [
    (3, 4),
    (3, 7),
    (2, 6),
    (2, 5),
    (4, 3),
    (6, 0),
    (7, 9),
    (8, 10),
    (9, 11),
    (10, 12),
    (10, 13),
    (5, 1),
    (4, 8),
    (4, 2),
  ];
  let mut tab = [(0u32, 0u32); 14];
  let mut pos = 0u32;
  for (l, cat) in order {
    tab[cat as usize] = (pos >> (10 - l), l);
    pos += 1 << (10 - l);
  }
  let mut b = Bits::default();
  let mut vp = [[0i32; 2]; 2];
  let mut hp = [0i32; 2];
  for row in 0..h {
    for col in 0..w {
      let x = v[row * w + col] as i32;
      let d = if col < 2 { x - vp[row & 1][col] } else { x - hp[col & 1] };
      if col < 2 {
        vp[row & 1][col] = x;
      }
      hp[col & 1] = x;
      let (n, extra) = category(d);
      if n > 13 {
        return None;
      }
      b.put(tab[n as usize].0, tab[n as usize].1);
      b.put(extra, n);
    }
  }
  Some(b.msb())
}

/// Samsung NX1 coding. Chooses reference modes and lengths at random; returns data and the decoded image.
pub fn srw3(r: &mut Rng, src: &[u16], w: usize, h: usize, depth: u32) -> (Vec<u8>, Vec<u16>, u32) {
  let opt = r.u32() & 7;
  let init = r.u32() & ((1 << depth) - 1);
  let mut hd = Bits::default();
  hd.put(r.u32() & 0xffff, 16);
  hd.put(r.u32() & 15, 4);
  hd.put(depth - 1, 4);
  hd.put(r.u32() & 15, 4);
  hd.put(r.u32() & 15, 4);
  hd.put(w as u32, 16);
  hd.put(h as u32, 16);
  hd.put(w as u32, 16);
  hd.put(0, 4);
  hd.put(opt, 4);
  for _ in 0..3 {
    hd.put(r.u32() & 255, 8);
  }
  hd.put(0, 2);
  hd.put(init, 14);
  let mut data = hd.msb_words(4);
  assert_eq!(data.len(), 16);
  let max = (1i32 << depth) - 1;
  let mut out = vec![0u16; w * h];
  for row in 0..h {
    while data.len() % 16 != 0 {
      data.push(r.u8());
    }
    let mut b = Bits::default();
    let mut motion = 7usize;
    let mut scale = 0i32;
    let ini = if row < 2 { 7u32 } else { 4 };
    let mut hist = [[ini; 2]; 3];
    for col in (0..w).step_by(16) {
      if opt & 4 == 0 && col % 64 == 0 {
        let (code, ns) = match r.range(0, 9) {
          0 => (3, r.range(0, 3) as i32),
          1 if scale >= 2 => (1, scale - 2),
          2 if scale < 4 => (2, scale + 2),
          _ => (0, scale),
        };
        b.put(code, 2);
        if code == 3 {
          b.put(ns as u32, 12);
        }
        scale = ns;
      }
      // reference mode; keep the referenced columns inside the row
      let legal = |m: usize| {
        if m == 7 {
          return true;
        }
        if row < 2 {
          return false;
        }
        let off = [-4i64, -2, -2, 0, 0, 2, 4][m];
        let avg = [0i64, 0, 1, 0, 1, 0, 0][m];
        let lo = col as i64 + off - 1;
        let hi = col as i64 + 16 + off + 2 * avg;
        lo >= 0 && hi < w as i64
      };
      let m = if opt & 2 != 0 {
        let m = if r.bool() && legal(3) { 3 } else { 7 };
        b.put((m == 3) as u32, 1);
        m
      } else {
        let mut m = if r.bool() { motion } else { r.range(0, 7) };
        if !legal(m) {
          m = 7;
        }
        if m == motion && r.chance(3, 4) {
          b.put(1, 1);
        } else {
          b.put(0, 1);
          b.put(m as u32, 3);
        }
        m
      };
      motion = m;
      let at = |rr: usize, cc: i64| out[rr * w + cc as usize] as i32;
      let mut pred = [0i32; 16];
      for (i, p) in pred.iter_mut().enumerate() {
        *p = if m == 7 {
          if col == 0 { init as i32 } else { at(row, (col - 2 + (i & 1)) as i64) }
        } else {
          let off = [-4i64, -2, -2, 0, 0, 2, 4][m];
          let avg = m == 2 || m == 4;
          let x = (col + i) as i64 + off;
          let (rr, cc) = if (row + i) & 1 == 1 {
            (row - 2, x)
          } else if i & 1 == 1 {
            (row - 1, x - 1)
          } else {
            (row - 1, x + 1)
          };
          if avg { (at(rr, cc) + at(rr, cc + 2) + 1) >> 1 } else { at(rr, cc) }
        };
      }
      // pixel positions in transmission order
      let pos: Vec<usize> = (0..16)
        .map(|i| if row % 2 == 1 { (i & 7) * 2 + 1 - (i >> 3) } else { (i & 7) * 2 + (i >> 3) })
        .collect();
      let mut q = [0i32; 16];
      for i in 0..16 {
        let want = src[row * w + col + pos[i]] as i32 - pred[pos[i]];
        let lim = (1 << depth) - 1;
        q[i] = (want - scale).div_euclid(scale * 2 + 1).clamp(-lim, lim);
      }
      let mut len = [0u32; 4];
      for g in 0..4 {
        len[g] = (0..4).map(|i| twos(q[g * 4 + i])).max().unwrap();
      }
      let skip = opt & 1 == 0 && (len.iter().all(|l| *l == 0)) && r.chance(7, 8);
      if opt & 1 == 0 {
        b.put(skip as u32, 1);
      }
      if !skip {
        let mut flags = vec![];
        let mut lits = vec![];
        for g in 0..4 {
          let color = if row % 2 == 1 { g >> 1 } else { ((g >> 1) + 2) % 3 };
          let h0 = hist[color][0];
          let f = if len[g] == h0 && r.chance(9, 10) {
            0
          } else if len[g] == h0 + 1 {
            1
          } else if len[g] + 1 == h0 {
            2
          } else {
            3
          };
          flags.push(f);
          if f == 3 {
            lits.push(len[g]);
          }
          hist[color][0] = hist[color][1];
          hist[color][1] = len[g];
        }
        flags.iter().for_each(|f| b.put(*f, 2));
        lits.iter().for_each(|l| b.put(*l, 4));
      }
      for i in 0..16 {
        let l = len[i / 4];
        b.put(q[i] as u32 & ((1u64 << l) - 1) as u32, l);
        let x = pred[pos[i]] + q[i] * (scale * 2 + 1) + scale;
        out[row * w + col + pos[i]] = x.clamp(0, max) as u16;
      }
    }
    // the decoder measures a row in whole bytes of the 32 bit word stream
    data.extend(b.msb_words(4));
  }
  (data, out, opt)
}

/// Panasonic 14 pixel blocks: reference decoder over arbitrary block bytes (layout as in the camera: the bits of a
/// 16 KiB buffer are consumed from its end, 16 byte groups ascending).
pub fn pana4(buf: &[u8; 0x4000], w: usize, h: usize) -> Vec<u16> {
  let mut vbits: u32 = 0x4000 * 8;
  let mut get = |n: u32| -> u32 {
    let mut v = 0;
    for _ in 0..n {
      vbits -= 1;
      let byte = (vbits >> 3) ^ 0x3ff0;
      v = v << 1 | (buf[byte as usize] as u32 >> (vbits & 7)) & 1;
    }
    v
  };
  let mut out = vec![];
  for _ in 0..w * h / 14 {
    let (mut pred, mut nonz) = ([0i32; 2], [0i32; 2]);
    let mut sh = 0;
    for i in 0..14 {
      let c = i & 1;
      if i % 3 == 2 {
        sh = 4 >> (3 - get(2));
      }
      if nonz[c] != 0 {
        let j = get(8) as i32;
        if j != 0 {
          pred[c] -= 0x80 << sh;
          if pred[c] < 0 || sh == 4 {
            pred[c] &= !(-1 << sh);
          }
          pred[c] += j << sh;
        }
      } else {
        nonz[c] = get(8) as i32;
        if nonz[c] != 0 || i > 11 {
          pred[c] = nonz[c] << 4 | get(4) as i32;
        }
      }
      out.push(pred[c] as u16);
    }
  }
  out
}

pub fn kodak65000(v: &[u16], w: usize) -> Option<Vec<u8>> {
  let mut out = vec![];
  for row in rows(v, w) {
    for seg in row.chunks(256) {
      let mut pred = [0i32; 2];
      let mut ds = vec![];
      for (i, x) in seg.iter().enumerate() {
        let d = *x as i32 - pred[i & 1];
        pred[i & 1] = *x as i32;
        ds.push(category(d));
      }
      if ds.iter().any(|(n, _)| *n > 15) {
        return None;
      }
      for p in ds.chunks(2) {
        out.push((p[0].0 | p[1].0 << 4) as u8);
      }
      let mut l = Lsb::default();
      ds.iter().for_each(|(n, x)| l.put(*x, *n));
      // read as little endian pairs of big endian words: one leading word when the segment is 4 mod 8
      let mut bits = if seg.len() & 7 == 4 { 16 } else { 0 };
      let mut loaded = bits;
      for (n, _) in &ds {
        if bits < *n {
          bits += 32;
          loaded += 32;
        }
        bits -= n;
      }
      let mut bytes = l.bytes();
      bytes.resize(loaded as usize / 8, 0);
      for p in bytes.chunks(2) {
        out.push(p[1]);
        out.push(p[0]);
      }
    }
  }
  Some(out)
}

pub const PENTAX_BITS: [u8; 16] = [0, 2, 3, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0];
pub const PENTAX_VALS: [u8; 13] = [3, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];

/// symbol -> (code, len)
pub fn by_symbol(bits: &[u8], vals: &[u8]) -> Vec<Option<(u32, u32)>> {
  let mut m = vec![None; 256];
  for (c, v) in canon(bits).into_iter().zip(vals) {
    if m[*v as usize].is_none() {
      m[*v as usize] = Some(c);
    }
  }
  m
}

/// left/up predicted pairs as used by Pentax and Nikon
fn pair_diffs(v: &[u16], w: usize, up: &mut [[i32; 2]; 2]) -> Vec<i32> {
  let mut out = vec![];
  for (row, line) in rows(v, w).enumerate() {
    let mut left = up[row & 1];
    for (col, x) in line.iter().enumerate() {
      let x = *x as i32;
      out.push(x - left[col & 1]);
      left[col & 1] = x;
      if col < 2 {
        up[row & 1][col] = x;
      }
    }
  }
  out
}

pub fn pef(v: &[u16], w: usize, tab: &[Option<(u32, u32)>]) -> Option<Vec<u8>> {
  let mut b = Bits::default();
  for d in pair_diffs(v, w, &mut [[0; 2]; 2]) {
    let (n, extra) = category(d);
    let (c, l) = tab.get(n as usize).copied().flatten()?;
    b.put(c, l);
    b.put(extra, n);
  }
  Some(b.msb())
}

/// A random complete canonical code over `n` symbols with lengths <= 12: per symbol length
/// A stored Pentax code table: blob and the codes by symbol
pub fn pef_table(r: &mut Rng, n: usize, be: bool) -> (Vec<u8>, Vec<Option<(u32, u32)>>) {
  let lens = random_lengths(r, n);
  // canonical codes: by (length, anything) - order inside a length is free
  let mut idx: Vec<usize> = (0..n).collect();
  for i in (1..n).rev() {
    idx.swap(i, r.range(0, i));
  }
  idx.sort_by_key(|i| lens[*i]);
  let mut bits = [0u8; 16];
  idx.iter().for_each(|i| bits[lens[*i] as usize - 1] += 1);
  let mut tab = vec![None; 256];
  for (k, cl) in canon(&bits).into_iter().enumerate() {
    tab[idx[k]] = Some(cl);
  }
  let w16 = |x: u16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
  let mut m = vec![];
  m.extend(w16((n as u16).wrapping_sub(12) & 0xf));
  m.extend(r.bytes(12));
  for i in 0..n {
    let (code, l) = tab[i].unwrap();
    m.extend(w16((code << (12 - l)) as u16));
  }
  for i in 0..n {
    m.push(lens[i] as u8);
  }
  m.resize(64, 0);
  (m, tab)
}

pub fn random_lengths(r: &mut Rng, n: usize) -> Vec<u32> {
  // split leaves until there are n of them
  let mut leaves = vec![0u32];
  while leaves.len() < n {
    let cand: Vec<usize> = (0..leaves.len()).filter(|i| leaves[*i] < 12).collect();
    let i = *r.pick(&cand);
    leaves[i] += 1;
    let l = leaves[i];
    leaves.push(l);
  }
  for i in (1..n).rev() {
    let j = r.range(0, i);
    leaves.swap(i, j);
  }
  leaves
}

const CRW_FIRST: [(&[u8], &[u8]); 3] = [
  (&[0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0x04, 0x03, 0x05, 0x06, 0x02, 0x07, 0x01, 0x08, 0x09, 0x00, 0x0a, 0x0b, 0xff]),
  (&[0, 2, 2, 3, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0], &[0x03, 0x02, 0x04, 0x01, 0x05, 0x00, 0x06, 0x07, 0x09, 0x08, 0x0a, 0x0b, 0xff]),
  (&[0, 0, 6, 3, 1, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0], &[0x06, 0x05, 0x07, 0x04, 0x08, 0x03, 0x09, 0x02, 0x00, 0x0a, 0x01, 0x0b, 0xff]),
];

include!("crw_tables.rs");

pub fn crw(v: &[u16], w: usize, table: usize) -> Option<Vec<u8>> {
  let first = by_symbol(CRW_FIRST[table].0, CRW_FIRST[table].1);
  let second = by_symbol(&CRW_SECOND[table][..16], &CRW_SECOND[table][16..]);
  let mut b = Bits::default();
  let mut base = [512i32; 2];
  let mut carry = 0;
  for (blk, px) in v.chunks(64).enumerate() {
    let mut d = [0i32; 64];
    for (i, x) in px.iter().enumerate() {
      if (blk * 64 + i) % w == 0 {
        base = [512; 2];
      }
      d[i] = *x as i32 - base[i & 1];
      base[i & 1] = *x as i32;
    }
    let first_d = d[0];
    d[0] -= carry;
    carry = first_d;
    let (n, extra) = category(d[0]);
    if n > 11 {
      return None;
    }
    let (c, l) = first[n as usize]?;
    b.put(c, l);
    b.put(extra, n);
    let last = (1..64).rev().find(|i| d[*i] != 0).unwrap_or(0);
    let mut run = 0u32;
    for x in &d[1..=last] {
      if *x == 0 {
        run += 1;
        continue;
      }
      while run > 15 {
        let (c, l) = second[0xf0]?;
        b.put(c, l);
        run -= 16;
      }
      let (n, extra) = category(*x);
      if n > 10 {
        return None;
      }
      let (c, l) = second[(run << 4 | n) as usize]?;
      b.put(c, l);
      b.put(extra, n);
      run = 0;
    }
    if last < 63 {
      let (c, l) = second[0]?;
      b.put(c, l);
    }
  }
  Some(b.stuffed())
}

/// Leaf: 8 row strips of 2 interleaved components, separated by restart markers.
pub fn mos(r: &mut Rng, v: &[u16], w: usize, h: usize, prec: u32) -> Vec<u8> {
  let mut out = vec![0xff, 0xd8];
  let seg = |m: u8, body: Vec<u8>| {
    let mut s = vec![0xff, m];
    s.extend(((body.len() + 2) as u16).to_be_bytes());
    s.extend(body);
    s
  };
  // two tables over categories 0..=16
  let tabs: Vec<(Vec<u8>, Vec<u8>)> = (0..2)
    .map(|_| {
      let mut lens = random_lengths(r, 18);
      // the all-ones code is reserved: drop one of the longest symbols
      let m = *lens.iter().max().unwrap();
      let i = lens.iter().position(|l| *l == m).unwrap();
      lens.swap(i, 17);
      let lens = &lens[..17];
      let mut bits = vec![0u8; 16];
      let mut vals = vec![];
      for l in 1..=16u32 {
        for (s, sl) in lens.iter().enumerate() {
          if *sl == l {
            bits[l as usize - 1] += 1;
            vals.push(s as u8);
          }
        }
      }
      (bits, vals)
    })
    .collect();
  for (i, (b, vals)) in tabs.iter().enumerate() {
    let mut body = vec![i as u8];
    body.extend(b);
    body.extend(vals);
    out.extend(seg(0xc4, body));
  }
  let mut sof = vec![prec as u8];
  sof.extend((h as u16).to_be_bytes());
  sof.extend(((w / 2) as u16).to_be_bytes());
  sof.extend([2, 0, 0x11, 0, 1, 0x11, 0]);
  out.extend(seg(0xc3, sof));
  // scan header with component selectors as broken as some backs write them
  out.extend(seg(0xda, vec![2, r.u8(), 0x00, r.u8(), 0x10, 1, 0, 0]));
  let syms: Vec<_> = tabs.iter().map(|(b, v)| by_symbol(b, v)).collect();
  for (s, strip) in v.chunks(8 * w).enumerate() {
    if s > 0 {
      out.extend([0xff, 0xd0 + ((s - 1) % 8) as u8]);
    }
    let mut b = Bits::default();
    for (i, x) in strip.iter().enumerate() {
      let (row, col) = (i / w, i % w);
      let p = if row == 0 && col < 2 {
        1u16 << (prec - 1)
      } else if col < 2 {
        strip[i - w]
      } else {
        strip[i - 2]
      };
      let d = x.wrapping_sub(p) as i16 as i32;
      let t = &syms[col & 1];
      if d == -32768 {
        let (c, l) = t[16].unwrap();
        b.put(c, l);
        b.put(r.u32() & 0xffff, 16);
      } else {
        let (n, extra) = category(d);
        let (c, l) = t[n as usize].unwrap();
        b.put(c, l);
        b.put(extra, n);
      }
    }
    // pad with ones as JPEG demands
    while b.0.len() % 8 != 0 {
      b.put(1, 1);
    }
    out.extend(b.stuffed());
  }
  out.extend([0xff, 0xd9]);
  out
}

/// Nikon Huffman trees as (bits, [(length, shift)])
pub const NEF: [(&[u8], &[(u8, u8)]); 6] = [
  (
    &[0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[(5, 0), (4, 0), (3, 0), (6, 0), (2, 0), (7, 0), (1, 0), (0, 0), (8, 0), (9, 0), (11, 0), (10, 0), (12, 0)],
  ),
  (
    &[0, 1, 5, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[(9, 3), (10, 5), (8, 3), (7, 2), (6, 1), (5, 0), (4, 0), (3, 0), (2, 0), (1, 0), (0, 0), (11, 0), (12, 0)],
  ),
  (
    &[0, 1, 4, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0],
    &[(5, 0), (4, 0), (6, 0), (3, 0), (7, 0), (2, 0), (8, 0), (1, 0), (9, 0), (0, 0), (10, 0), (11, 0), (12, 0)],
  ),
  (
    &[0, 1, 4, 3, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0, 0],
    &[(5, 0), (6, 0), (4, 0), (7, 0), (8, 0), (3, 0), (9, 0), (2, 0), (1, 0), (0, 0), (10, 0), (11, 0), (12, 0), (13, 0), (14, 0)],
  ),
  (
    &[0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0, 0, 0],
    &[(8, 0), (12, 5), (11, 4), (10, 3), (9, 2), (7, 0), (6, 0), (5, 0), (4, 0), (3, 0), (2, 0), (1, 0), (0, 0), (13, 0), (14, 0)],
  ),
  (
    &[0, 1, 4, 2, 2, 3, 1, 2, 0, 0, 0, 0, 0, 0, 0, 0],
    &[(7, 0), (6, 0), (8, 0), (5, 0), (9, 0), (4, 0), (10, 0), (3, 0), (11, 0), (12, 0), (2, 0), (0, 0), (1, 0), (13, 0), (14, 0)],
  ),
];

pub struct NefEnc {
  pub meta: Vec<u8>,
  pub data: Vec<u8>,
  pub exp: Vec<u16>,
  pub label: String,
}

/// Encode `v` (target samples, `bps` bits) for a Nikon body; lossy modes quantise, `exp` is what must come out.
pub fn nef(r: &mut Rng, v: &[u16], w: usize, h: usize, be: bool, bps: u32) -> NefEnc {
  let w16 = |m: &mut Vec<u8>, x: u16| m.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() });
  let mode = r.range(0, 4);
  // (v0, v1)
  let (v0, v1) = match mode {
    0 => (70u8, 48u8),
    1 => (68, 32),
    2 => (68, 64),
    3 => (68, 16),
    _ => (73, 88),
  };
  let real = if (v0, v1) == (68, 64) { bps - 2 } else { bps };
  let mut sel = if v0 == 70 { 2 } else { 0 } + if bps == 14 { 3 } else { 0 };
  let mut meta = vec![v0, v1];
  if v0 == 73 {
    meta.extend(r.bytes(2110));
  }
  let lim = 1i32 << real;
  let mut up = [[0i32; 2]; 2];
  // stored in the order: first predictor of both row parities, then the second
  let init: [u16; 4] = std::array::from_fn(|_| r.u16() & (lim - 1) as u16);
  init.iter().for_each(|x| w16(&mut meta, *x));
  up[0] = [init[0] as i32, init[2] as i32];
  up[1] = [init[1] as i32, init[3] as i32];
  let mut points: Vec<u16>;
  let mut split = 0;
  match mode {
    0 => {
      w16(&mut meta, 0);
      points = (0..lim).map(|x| x as u16).collect();
    }
    1 | 2 => {
      let csize = *r.pick(&[17usize, 33, 65, 129, 257]);
      let step = lim as usize / (csize - 1);
      let nodes = curve(r, csize, (lim - 1) as u32);
      w16(&mut meta, csize as u16);
      nodes.iter().for_each(|x| w16(&mut meta, *x));
      points = (0..lim as usize)
        .map(|i| {
          let (a, f) = (i / step, i % step);
          (((step - f) * nodes[a] as usize + f * nodes[a + 1] as usize) / step) as u16
        })
        .collect();
      if r.bool() {
        split = r.range(1, h + 2);
      }
    }
    _ => {
      let csize = lim as usize;
      // real cameras store a curve shorter than the code range; every code that occurs is below its size
      let csize = if mode == 3 { csize } else { csize };
      points = curve(r, csize, (lim - 1) as u32);
      // the decoder keeps at most 4096 metadata bytes in this wrapping, so store what fits
      let room = (4096 - meta.len() - 2) / 2;
      if csize > room {
        points.truncate(room);
      }
      w16(&mut meta, points.len() as u16);
      points.iter().for_each(|x| w16(&mut meta, *x));
    }
  }
  meta.resize(4096, 0);
  let sp = if be { (split as u16).to_be_bytes() } else { (split as u16).to_le_bytes() };
  if mode == 1 || mode == 2 {
    meta[562] = sp[0];
    meta[563] = sp[1];
  }
  let top = points.len() as i32 - 1;
  let mut b = Bits::default();
  let mut codes = vec![];
  for row in 0..h {
    if split > 0 && row == split {
      sel += 1;
    }
    let (bits, vals) = NEF[sel];
    let cs = canon(bits);
    let mut left = up[row & 1];
    for col in 0..w {
      let want = (v[row * w + col] as i32).min(top);
      let d = want - left[col & 1];
      // best symbol: all representable differences of a symbol (len, shift)
      let mut best: Option<(i32, u32, u32, usize)> = None;
      for (i, (len, sh)) in vals.iter().enumerate() {
        let (len, sh) = (*len as u32, *sh as u32);
        let (n, val) = if sh == 0 {
          let (n, x) = category(d);
          if n != len {
            continue;
          }
          (n, Some((d, x)))
        } else {
          // len - sh bits are stored; the value is ((bits*2+1) << sh) >> 1, minus 2^len when the top bit is clear
          let raw = len - sh;
          let mut pick = None;
          for x in 0..1u32 << raw {
            let mut y = (((x << 1) + 1) << sh >> 1) as i32;
            if y & (1 << (len - 1)) == 0 {
              y -= 1 << len;
            }
            let nv = left[col & 1] + y;
            if nv < 0 || nv > top {
              continue;
            }
            if pick.map(|(p, _): (i32, u32)| (p - d).abs() > (y - d).abs()).unwrap_or(true) {
              pick = Some((y, x));
            }
          }
          (raw, pick)
        };
        if let Some((y, x)) = val {
          if best.map(|b| (b.0 - d).abs() > (y - d).abs()).unwrap_or(true) || r.chance(1, 50) && sh > 0 {
            best = Some((y, n, x, i));
          }
        }
      }
      let (y, n, x, i) = match best {
        Some(b) => b,
        None => {
          // category not in the tree: send no change instead
          let i = vals.iter().position(|(l, s)| *l == 0 && *s == 0).unwrap();
          (0, 0, 0, i)
        }
      };
      b.put(cs[i].0, cs[i].1);
      b.put(x, n);
      left[col & 1] += y;
      if col < 2 {
        up[row & 1][col] = left[col & 1];
      }
      codes.push(left[col & 1]);
    }
  }
  // initial predictors may exceed a short curve
  let mut data = b.msb();
  data.resize(data.len().max(4) + 8, 0);
  let mut rnd = (data[0] as u32) << 16 | (data[1] as u32) << 8 | data[2] as u32;
  let cv = Curve(points);
  let mut exp = vec![];
  for c in codes {
    let c = c.clamp(0, lim - 1);
    if c > top {
      return NefEnc {
        meta: vec![],
        data: vec![],
        exp: vec![],
        label: String::new(),
      };
    }
    exp.push(cv.get(c as u16, &mut rnd));
  }
  NefEnc {
    meta,
    data,
    exp,
    label: format!("nef v{v0}.{v1} {bps}bit split {split}"),
  }
}

pub fn snef(data: &[u8], coeffs: [f32; 4], w: usize, h: usize) -> Vec<u16> {
  let inv_r = (1024.0 / coeffs[0]) as i32;
  let inv_b = (1024.0 / coeffs[2]) as i32;
  let cl = |v: i32, b: u32| v.clamp(0, (1 << b) - 1) as u16;
  let curve = Curve(
    (0..4096)
      .map(|i| {
        let v = i as f32 / 4095.0;
        let x = if v <= 0.04045 { v / 12.92 } else { ((v + 0.055f32) / (1.0f32 + 0.055)).powf(2.4) };
        cl((x * 65535.0 * 4.0) as i32, 16)
      })
      .collect(),
  );
  let mut out = vec![];
  for row in 0..h {
    let inb = &data[row * w * 3..];
    let mut rnd = u32::from_be_bytes(inb[..4].try_into().unwrap());
    for p in inb[..w * 3].chunks(6) {
      let g: Vec<u16> = p.iter().map(|x| *x as u16).collect();
      let ys = [(g[0] | (g[1] & 15) << 8) as f32, (g[1] >> 4 | g[2] << 4) as f32];
      let cb = (g[3] | (g[4] & 15) << 8) as f32 - 2048.0;
      let cr = (g[4] >> 4 | g[5] << 4) as f32 - 2048.0;
      for y in ys {
        let rr = curve.get(cl((y + 1.370705 * cr) as i32, 12), &mut rnd);
        let gg = curve.get(cl((y - 0.337633 * cb - 0.698001 * cr) as i32, 12), &mut rnd);
        let bb = curve.get(cl((y + 1.732446 * cb) as i32, 12), &mut rnd);
        out.push(cl((inv_r * rr as i32 + 512) >> 10, 15));
        out.push(gg);
        out.push(cl((inv_b * bb as i32 + 512) >> 10, 15));
      }
    }
  }
  out
}

/* ---------- driver ---------- */

pub struct Case {
  pub w: usize,
  pub h: usize,
  pub payload: Vec<u8>,
  pub exp: Vec<u16>,
  pub label: String,
}

pub fn make(r: &mut Rng, id: u16) -> Option<Case> {
  let even = |r: &mut Rng| r.range(1, 32) * 2;
  let c = |w, h, payload, exp, label: &str| {
    Some(Case {
      w,
      h,
      payload,
      exp,
      label: label.into(),
    })
  };
  match id {
    0 => {
      let (w, h) = (r.range(4, 64), r.range(1, 64));
      let t = curve(r, 256, 65535);
      let data = samples(r, w, h, 8);
      let mut p: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
      let bytes: Vec<u8> = data.iter().map(|x| *x as u8).collect();
      let cv = Curve(t);
      let mut exp = vec![];
      for row in bytes.chunks(w) {
        let mut rnd = u32::from_le_bytes(row[..4].try_into().unwrap());
        row.iter().for_each(|b| exp.push(cv.get(*b as u16, &mut rnd)));
      }
      p.extend(bytes);
      c(w, h, p, exp, "8 bit table")
    }
    1..=20 => {
      let (w, h, p, e) = packed(r, id);
      c(w, h, p, e, &format!("packed layout {id}"))
    }
    21 => {
      let (w, h) = (r.range(1, 64), even(r));
      let v = samples(r, w, h, 12);
      let p = arw1(&v, w, h);
      c(w, h, p, v, "ARW1")
    }
    22 => {
      let (w, h) = (32 * r.range(1, 2), r.range(1, 64));
      let mut k: Vec<u16> = (0..4).map(|_| r.u16() & 0xfff).collect();
      k.sort();
      let mut t = vec![0u16; 4096];
      let lim = [0usize, k[0] as usize, k[1] as usize, k[2] as usize, k[3] as usize, 4095];
      for i in 1..4096usize {
        // slope doubles after every knee
        let s = (0..5).filter(|s| i > lim[*s]).max().unwrap();
        t[i] = t[i - 1] + (1 << s);
      }
      let mut p: Vec<u8> = k.iter().flat_map(|x| (*x | (r.u16() & 0xf) << 12).to_le_bytes()).collect();
      let (d, e) = arw2(r, w, h, &Curve(t));
      p.extend(d);
      c(w, h, p, e, "ARW2")
    }
    23 => {
      let (w, h) = (2 * r.range(1, 25), r.range(1, 48));
      let v = samples(r, w, h, 16);
      let mut plain: Vec<u8> = v.iter().flat_map(|x| x.to_be_bytes()).collect();
      while plain.len() % 4 != 0 {
        plain.push(0);
      }
      let key = r.u32();
      let mut p = key.to_le_bytes().to_vec();
      p.extend((plain.len() as u16).to_le_bytes());
      p.extend(r.bytes(4));
      p.extend(sony_crypt(&plain, key));
      c(w, h, p, v, "SRF encryption")
    }
    24 => {
      let (w, h) = (even(r), r.range(1, 64));
      let v = samples(r, w, h, 12);
      let mut p = r.bytes(1);
      p.extend(orf(&v, w, h)?);
      c(w, h, p, v, "ORF")
    }
    25 => {
      let (w, h) = (16 * r.range(1, 4), even(r));
      let bps = r.range(8, 13) as u32;
      let v = samples(r, w, h, bps);
      let (o, d) = srw1(r, &v, w, h)?;
      let mut p: Vec<u8> = o.iter().flat_map(|x| x.to_le_bytes()).collect();
      p.extend(d);
      c(w, h, p, v, "SRW1")
    }
    26 => {
      let (w, h) = (r.range(2, 64), r.range(1, 64));
      let v = samples(r, w, h, 12);
      let p = srw2(&v, w, h)?;
      c(w, h, p, v, "SRW2")
    }
    27 => {
      let (w, h) = (16 * r.range(1, 4), r.range(1, 64));
      let depth = if r.bool() { 12 } else { 14 };
      let v = samples(r, w, h, depth);
      let (p, e, opt) = srw3(r, &v, w, h, depth);
      c(w, h, p, e, &format!("SRW3 opt {opt}"))
    }
    29 | 30 => {
      let (w, h) = (14 * r.range(1, 4), r.range(1, 64));
      let mut b = [0u8; 0x4000];
      let sparse = r.bool();
      for x in b.iter_mut() {
        *x = if sparse && r.chance(2, 3) { 0 } else { r.u8() };
      }
      let e = pana4(&b, w, h);
      let mut p = b.to_vec();
      if id == 30 {
        p.rotate_right(0x4000 - 0x2008);
      }
      c(w, h, p, e, "Panasonic V4")
    }
    31 => {
      let (w, h) = (if r.bool() { 4 * r.range(1, 16) } else { 8 * r.range(1, 8) }, r.range(1, 64));
      let v = samples(r, w, h, 10);
      let t = curve(r, 1024, 16383);
      let mut p: Vec<u8> = t.iter().flat_map(|x| x.to_le_bytes()).collect();
      p.extend(kodak65000(&v, w)?);
      let cv = Curve(t);
      let mut rnd = 0;
      let e = v.iter().map(|x| cv.get(*x, &mut rnd)).collect();
      c(w, h, p, e, "Kodak 65000")
    }
    36 => {
      let (w, h) = (even(r), r.range(1, 64));
      let v = samples(r, w, h, 12);
      let p = pef(&v, w, &by_symbol(&PENTAX_BITS, &PENTAX_VALS))?;
      c(w, h, p, v, "PEF default table")
    }
    37 | 38 => {
      let (w, h) = (even(r), r.range(1, 64));
      let n = r.range(13, 15);
      let bps = n as u32 - 1;
      let v = samples(r, w, h, bps);
      let (mut m, tab) = pef_table(r, n, id == 38);
      m.extend(pef(&v, w, &tab)?);
      c(w, h, m, v, "PEF stored table")
    }
    39..=44 => {
      let low = id >= 42;
      let (w, h) = (even(r), 32 * r.range(1, 2));
      let v = samples(r, w, h, if low { 12 } else { 10 });
      let hi: Vec<u16> = if low { v.iter().map(|x| x >> 2).collect() } else { v.clone() };
      let data = crw(&hi, w, (id as usize - 39) % 3)?;
      // payload offsets count from the start of the file: 6 byte wrapping header
      let mut p = r.bytes(20);
      if low {
        for q in v.chunks(4) {
          p.push((q[0] & 3 | (q[1] & 3) << 2 | (q[2] & 3) << 4 | (q[3] & 3) << 6) as u8);
        }
      }
      let off = 540 + if low { w * h / 4 } else { 0 };
      while p.len() + 6 < off {
        p.push(r.u8());
      }
      p.extend(data);
      c(w, h, p, v, "CRW")
    }
    45 | 46 => {
      let (w, h) = (even(r), r.range(1, 64));
      let prec = *r.pick(&[14u32, 16]);
      let v = samples(r, w, h, prec);
      let p = mos(r, &v, w, h, prec);
      let e = if id == 45 {
        v
      } else {
        let mut e = vec![0; w * h];
        for (row, line) in rows(&v, w).enumerate() {
          let o = if row & 1 == 1 { h - 1 - row / 2 } else { row / 2 };
          e[o * w..][..w].copy_from_slice(line);
        }
        e
      };
      c(w, h, p, e, "Leaf")
    }
    48..=51 => {
      let (w, h) = (even(r), r.range(1, 64));
      let bps = if id % 2 == 0 { 12 } else { 14 };
      let v = samples(r, w, h, bps);
      let e = nef(r, &v, w, h, id >= 50, bps);
      if e.exp.is_empty() {
        return None;
      }
      let mut p = e.meta;
      p.extend(e.data);
      c(w, h, p, e.exp, &e.label)
    }
    52 => {
      let (w, h) = (2 * r.range(1, 32), r.range(1, 64));
      let data = r.bytes(w * h * 3 + 8);
      let co = [0.5 + r.f32() * 2.0, 1.0, 0.5 + r.f32() * 2.0, 1.0];
      let mut p: Vec<u8> = co.iter().flat_map(|x| x.to_le_bytes()).collect();
      let e = snef(&data, co, w, h);
      p.extend(data);
      c(w, h, p, e, "NEF small")
    }
    _ => None,
  }
}

pub fn run(ctx: Ctx) -> i32 {
  let ids: Vec<u16> = (0..=52).filter(|i| ![28, 32, 33, 34, 35, 47].contains(i)).collect();
  ctx.cases("codec", ctx.n(9000, 300_000), |r, case| {
    let id = ids[Ctx::idx(case) % ids.len()];
    let Some(c) = make(r, id) else { return Verdict::Skip("not representable in this format".into()) };
    let mut file = vec![];
    file.extend(id.to_le_bytes());
    file.extend((c.w as u16).to_le_bytes());
    file.extend((c.h as u16).to_le_bytes());
    file.extend(&c.payload);
    // reading ahead past the payload is legitimate
    file.extend([0u8; 64]);
    let got = guard(|| rawler::decode_unwrapped(&RawSource::new_from_slice(&file)));
    let what = format!("{} {}x{}", c.label, c.w, c.h);
    let got = match got {
      Err(p) => return bad(&format!("codec{id}-panic"), format!("{what}: {p}")),
      Ok(Err(e)) => return bad(&format!("codec{id}-error"), format!("{what}: {e:?}")),
      Ok(Ok(RawImageData::Integer(v))) => v,
      Ok(Ok(_)) => return bad(&format!("codec{id}-type"), what),
    };
    ctx.count(&format!("codec:{}", c.label.split(' ').take(2).collect::<Vec<_>>().join(" ")), 1);
    ctx.count("samples compared", got.len() as u64);
    if let Some(d) = diff_u16(&got, &c.exp, c.w) {
      return bad(&format!("codec{id}-samples"), format!("{what}: {d}"));
    }
    if case % 97 == 0 {
      ctx.sample(json!({"codec": what, "bytes": c.payload.len()}));
    }
    Verdict::Held(hash_u16(&got) ^ id as u64)
  });
  let _ = refljpeg::canonical;
  ctx.cases("crx", ctx.n(2500, 60_000), |r, case| {
    let s = crate::refcrx::spec(r);
    let pl = crate::refcrx::planes(r, &s);
    let Some(o) = crate::refcrx::build(r, &s, &pl) else { return Verdict::Skip("not representable in this format".into()) };
    let what = format!("CRX {s:?}");
    let tag = format!("crx{}-l{}-{}", s.enc, s.levels.min(1), if s.h > s.th { "rows" } else { "one" });
    let got = guard(|| -> Result<Vec<u16>, String> {
      use rawler::formats::bmff::{BoxHeader, ReadBox, ext_cr3::cmp1::Cmp1Box};
      let mut b = ((o.cmp1.len() + 8) as u32).to_be_bytes().to_vec();
      b.extend(b"CMP1");
      b.extend(&o.cmp1);
      let mut c = std::io::Cursor::new(&b);
      let h = BoxHeader::parse(&mut c).map_err(|e| format!("{e:?}"))?;
      let cmp1 = Cmp1Box::read_box(&mut c, h).map_err(|e| format!("{e:?}"))?;
      rawler::decompressors::crx::decompress_crx_image(&o.data, &cmp1).map_err(|e| format!("{e:?}"))
    });
    let got = match got {
      Err(p) => return bad(&format!("{tag}-panic"), format!("{what}: {p}")),
      Ok(Err(e)) => return bad(&format!("{tag}-error"), format!("{what}: {e}")),
      Ok(Ok(v)) => v,
    };
    ctx.count(&format!("crx: {} levels, version {}", s.levels, if s.v2 { 2 } else { 1 }), 1);
    ctx.count(&format!("crx: {}", if s.round > 0 { "rounded" } else if s.partial { "predicted" } else { "unpredicted" }), 1);
    if s.w > s.tw || s.h > s.th {
      ctx.count("crx: tiled images", 1);
    }
    ctx.count("crx: escaped codes", o.escapes);
    ctx.count("crx: runs", o.runs);
    ctx.count("samples compared", got.len() as u64);
    if let Some(d) = diff_u16(&got, &o.cfa, s.w) {
      return bad(&format!("{tag}-samples"), format!("{what}: {d}"));
    }
    if case % 97 == 0 {
      ctx.sample(json!({"codec": what, "bytes": o.data.len()}));
    }
    Verdict::Held(hash_u16(&got))
  });
  ctx.finish("sampled", "every decoded sample equals the sample the reference encoder stored", &[])
}
