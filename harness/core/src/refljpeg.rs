//! Independent ITU-T T.81 lossless (process 14, SOF3) codec used as oracle.

/// Decoded frame: samples interleaved by component, row-major.
#[derive(Debug)]
pub struct Frame {
  pub width: usize,
  pub height: usize,
  pub comps: usize,
  pub precision: u32,
  pub predictor: u8,
  pub pt: u32,
  pub samples: Vec<u16>,
  /// number of codes per code length, per table
  pub code_lens: Vec<[u8; 17]>,
  pub saw_diff_16: bool,
  pub trailing: usize,
}

#[derive(Clone)]
struct Huff {
  /// per length: (mincode, maxcode, valptr)
  min: [i32; 17],
  max: [i32; 17],
  ptr: [usize; 17],
  vals: Vec<u8>,
  bits: [u8; 17],
}

impl Huff {
  fn new(bits: [u8; 17], vals: Vec<u8>) -> Result<Huff, String> {
    let mut code: i32 = 0;
    let mut k = 0;
    let mut h = Huff {
      min: [0; 17],
      max: [-1; 17],
      ptr: [0; 17],
      vals,
      bits,
    };
    for l in 1..=16 {
      if bits[l] > 0 {
        h.ptr[l] = k;
        h.min[l] = code;
        code += bits[l] as i32;
        k += bits[l] as usize;
        h.max[l] = code - 1;
        if code > (1 << l) {
          return Err(format!("Huffman table oversubscribed at length {l}"));
        }
        if code == (1 << l) {
          return Err(format!("Huffman table uses the all-ones code of length {l}"));
        }
      }
      code <<= 1;
    }
    if k != h.vals.len() {
      return Err("Huffman value count mismatch".into());
    }
    let mut seen = [false; 256];
    for v in &h.vals {
      if seen[*v as usize] {
        return Err(format!("Huffman symbol {v} appears twice"));
      }
      seen[*v as usize] = true;
      if *v > 16 {
        return Err(format!("Huffman symbol {v} > 16"));
      }
    }
    Ok(h)
  }
}

struct BitR<'a> {
  b: &'a [u8],
  p: usize,
  acc: u32,
  n: u32,
}

impl<'a> BitR<'a> {
  fn bit(&mut self) -> Result<u32, String> {
    if self.n == 0 {
      let v = *self.b.get(self.p).ok_or("entropy data exhausted")?;
      self.p += 1;
      if v == 0xFF {
        match self.b.get(self.p) {
          Some(0) => self.p += 1,
          Some(m) => return Err(format!("marker FF{m:02X} inside entropy coded data")),
          None => return Err("stream ends in 0xFF".into()),
        }
      }
      self.acc = v as u32;
      self.n = 8;
    }
    self.n -= 1;
    Ok((self.acc >> self.n) & 1)
  }
  fn bits(&mut self, n: u32) -> Result<u32, String> {
    let mut v = 0;
    for _ in 0..n {
      v = (v << 1) | self.bit()?;
    }
    Ok(v)
  }
}

pub fn decode(src: &[u8]) -> Result<Frame, String> {
  let mut p = 0;
  let g16 = |p: usize| -> Result<usize, String> { Ok(((*src.get(p).ok_or("eof")? as usize) << 8) | *src.get(p + 1).ok_or("eof")? as usize) };
  if src.get(0..2) != Some(&[0xFF, 0xD8]) {
    return Err("no SOI".into());
  }
  p += 2;
  let mut tables: [Option<Huff>; 4] = [None, None, None, None];
  let mut sof: Option<(u32, usize, usize, Vec<(u8, u8)>)> = None;
  loop {
    if *src.get(p).ok_or("eof")? != 0xFF {
      return Err(format!("expected marker at {p}"));
    }
    let m = *src.get(p + 1).ok_or("eof")?;
    let len = g16(p + 2)?;
    let body = src.get(p + 4..p + 2 + len).ok_or("segment beyond end")?;
    match m {
      0xC4 => {
        let mut q = 0;
        while q < body.len() {
          let (tc, th) = (body[q] >> 4, body[q] & 15);
          if tc != 0 || th > 3 {
            return Err("bad DHT class/id".into());
          }
          let mut bits = [0u8; 17];
          bits[1..].copy_from_slice(body.get(q + 1..q + 17).ok_or("short DHT")?);
          let n: usize = bits.iter().map(|x| *x as usize).sum();
          let vals = body.get(q + 17..q + 17 + n).ok_or("short DHT values")?.to_vec();
          tables[th as usize] = Some(Huff::new(bits, vals)?);
          q += 17 + n;
        }
      }
      0xC3 => {
        let n = body[5] as usize;
        if body.len() != 6 + 3 * n {
          return Err("SOF length".into());
        }
        let comps = (0..n).map(|i| (body[6 + 3 * i], body[7 + 3 * i])).collect();
        sof = Some((
          body[0] as u32,
          ((body[1] as usize) << 8) | body[2] as usize,
          ((body[3] as usize) << 8) | body[4] as usize,
          comps,
        ));
      }
      0xDA => {
        let (precision, height, width, comps) = sof.clone().ok_or("SOS before SOF")?;
        if !(2..=16).contains(&precision) {
          return Err("precision".into());
        }
        let n = body[0] as usize;
        if n != comps.len() || body.len() != 1 + 2 * n + 3 {
          return Err("SOS component count".into());
        }
        let mut tb: Vec<Huff> = vec![];
        for (i, c) in comps.iter().enumerate() {
          if body[1 + 2 * i] != c.0 {
            return Err(format!("SOS component selector {} != SOF id {}", body[1 + 2 * i], c.0));
          }
          if c.1 != 0x11 {
            return Err("subsampled components".into());
          }
          let t = (body[2 + 2 * i] >> 4) as usize;
          tb.push(tables.get(t).cloned().flatten().ok_or("undefined huffman table")?);
        }
        let predictor = body[1 + 2 * n];
        let pt = (body[3 + 2 * n] & 15) as u32;
        if !(1..=7).contains(&predictor) {
          return Err(format!("predictor {predictor}"));
        }
        if width == 0 || height == 0 {
          return Err("zero dims".into());
        }
        let mut br = BitR {
          b: src,
          p: p + 2 + len,
          acc: 0,
          n: 0,
        };
        let row = width * n;
        let mut s = vec![0u16; row * height];
        let mut saw16 = false;
        for y in 0..height {
          for x in 0..width {
            for c in 0..n {
              let h = &tb[c];
              let mut code: i32 = 0;
              let mut l = 0;
              let sym = loop {
                code = (code << 1) | br.bit().map_err(|e| format!("{e} at y={y} x={x}"))? as i32;
                l += 1;
                if l > 16 {
                  return Err(format!("invalid huffman code at y={y} x={x}"));
                }
                if h.bits[l] > 0 && code <= h.max[l] && code >= h.min[l] {
                  break h.vals[h.ptr[l] + (code - h.min[l]) as usize];
                }
              };
              let diff: i32 = match sym {
                0 => 0,
                16 => {
                  saw16 = true;
                  32768
                }
                t => {
                  let v = br.bits(t as u32)? as i32;
                  if v < (1 << (t - 1)) { v - (1 << t) + 1 } else { v }
                }
              };
              let i = y * row + x * n + c;
              let pred: i32 = if y == 0 && x == 0 {
                1 << (precision - pt - 1)
              } else if y == 0 {
                s[i - n] as i32
              } else if x == 0 {
                s[i - row] as i32
              } else {
                let (ra, rb, rc) = (s[i - n] as i32, s[i - row] as i32, s[i - row - n] as i32);
                match predictor {
                  1 => ra,
                  2 => rb,
                  3 => rc,
                  4 => ra + rb - rc,
                  5 => ra + ((rb - rc) >> 1),
                  6 => rb + ((ra - rc) >> 1),
                  _ => (ra + rb) >> 1,
                }
              };
              s[i] = (pred + diff) as u16; // modulo 2^16
            }
          }
        }
        let mut q = br.p;
        // remaining pad bits of the last byte must be followed by EOI
        while q + 1 < src.len() && !(src[q] == 0xFF && src[q + 1] == 0xD9) {
          q += 1;
        }
        if src.get(q..q + 2) != Some(&[0xFF, 0xD9]) {
          return Err("missing EOI".into());
        }
        let skipped = q - br.p;
        if skipped > 0 {
          return Err(format!("{skipped} unexpected bytes between scan data and EOI"));
        }
        if pt > 0 {
          for v in s.iter_mut() {
            *v <<= pt;
          }
        }
        return Ok(Frame {
          width,
          height,
          comps: n,
          precision,
          predictor,
          pt,
          samples: s,
          code_lens: tb.iter().map(|t| t.bits).collect(),
          saw_diff_16: saw16,
          trailing: src.len() - (q + 2),
        });
      }
      0xD9 => return Err("EOI before SOS".into()),
      0xE0..=0xEF | 0xFE => {}
      _ => return Err(format!("unexpected marker FF{m:02X}")),
    }
    p += 2 + len;
  }
}

/// Encoder: `samples` interleaved. `tables` gives for each component the table id, `lens` per table
/// the code length (1..=16) of each symbol 0..=16 (0 = unused); lengths must satisfy Kraft with room
/// for the reserved all-ones code.
pub struct EncSpec<'a> {
  pub width: usize,
  pub height: usize,
  pub comps: usize,
  pub precision: u32,
  pub predictor: u8,
  pub pt: u32,
  pub samples: &'a [u16],
  pub comp_table: Vec<usize>,
  pub lens: Vec<[u8; 17]>,
  pub split_dht: bool,
  pub app_segment: Option<Vec<u8>>,
  pub first_comp_id: u8,
}

pub fn canonical(lens: &[u8; 17]) -> ([u8; 17], Vec<u8>, [(u32, u8); 17]) {
  let mut bits = [0u8; 17];
  let mut order: Vec<(u8, u8)> = (0..17u8).filter(|s| lens[*s as usize] > 0).map(|s| (lens[s as usize], s)).collect();
  order.sort();
  let mut codes = [(0u32, 0u8); 17];
  let mut code = 0u32;
  let mut prev = 0u8;
  for (l, s) in &order {
    code <<= l - prev;
    prev = *l;
    codes[*s as usize] = (code, *l);
    code += 1;
    bits[*l as usize] += 1;
  }
  (bits, order.iter().map(|x| x.1).collect(), codes)
}

pub fn encode(e: &EncSpec) -> Vec<u8> {
  let mut out = vec![0xFF, 0xD8];
  if let Some(a) = &e.app_segment {
    out.extend_from_slice(&[0xFF, 0xE4]);
    out.extend_from_slice(&((a.len() + 2) as u16).to_be_bytes());
    out.extend_from_slice(a);
  }
  let sof = |out: &mut Vec<u8>| {
    out.extend_from_slice(&[0xFF, 0xC3]);
    out.extend_from_slice(&((8 + 3 * e.comps) as u16).to_be_bytes());
    out.push(e.precision as u8);
    out.extend_from_slice(&(e.height as u16).to_be_bytes());
    out.extend_from_slice(&(e.width as u16).to_be_bytes());
    out.push(e.comps as u8);
    for c in 0..e.comps {
      out.extend_from_slice(&[e.first_comp_id + c as u8, 0x11, 0]);
    }
  };
  let tabs: Vec<_> = e.lens.iter().map(canonical).collect();
  if e.split_dht {
    sof(&mut out);
    for (i, (bits, vals, _)) in tabs.iter().enumerate() {
      out.extend_from_slice(&[0xFF, 0xC4]);
      out.extend_from_slice(&((2 + 17 + vals.len()) as u16).to_be_bytes());
      out.push(i as u8);
      out.extend_from_slice(&bits[1..]);
      out.extend_from_slice(vals);
    }
  } else {
    out.extend_from_slice(&[0xFF, 0xC4]);
    let n: usize = tabs.iter().map(|t| 17 + t.1.len()).sum();
    out.extend_from_slice(&((2 + n) as u16).to_be_bytes());
    for (i, (bits, vals, _)) in tabs.iter().enumerate() {
      out.push(i as u8);
      out.extend_from_slice(&bits[1..]);
      out.extend_from_slice(vals);
    }
    sof(&mut out);
  }
  out.extend_from_slice(&[0xFF, 0xDA]);
  out.extend_from_slice(&((6 + 2 * e.comps) as u16).to_be_bytes());
  out.push(e.comps as u8);
  for c in 0..e.comps {
    out.extend_from_slice(&[e.first_comp_id + c as u8, (e.comp_table[c] as u8) << 4]);
  }
  out.extend_from_slice(&[e.predictor, 0, e.pt as u8]);

  let mut acc: u64 = 0;
  let mut n = 0u32;
  let mut put = |out: &mut Vec<u8>, v: u32, l: u32| {
    acc = (acc << l) | (v as u64 & ((1u64 << l) - 1));
    n += l;
    while n >= 8 {
      let b = (acc >> (n - 8)) as u8;
      out.push(b);
      if b == 0xFF {
        out.push(0);
      }
      n -= 8;
    }
    acc &= (1 << n) - 1;
    n
  };
  let row = e.width * e.comps;
  let s: Vec<u16> = e.samples.iter().map(|x| x >> e.pt).collect();
  let mut left = 0;
  for y in 0..e.height {
    for x in 0..e.width {
      for c in 0..e.comps {
        let i = y * row + x * e.comps + c;
        let pred: i32 = if y == 0 && x == 0 {
          1 << (e.precision - e.pt - 1)
        } else if y == 0 {
          s[i - e.comps] as i32
        } else if x == 0 {
          s[i - row] as i32
        } else {
          let (ra, rb, rc) = (s[i - e.comps] as i32, s[i - row] as i32, s[i - row - e.comps] as i32);
          match e.predictor {
            1 => ra,
            2 => rb,
            3 => rc,
            4 => ra + rb - rc,
            5 => ra + ((rb - rc) >> 1),
            6 => rb + ((ra - rc) >> 1),
            _ => (ra + rb) >> 1,
          }
        };
        let mut d = (s[i] as i32).wrapping_sub(pred) as u16 as i16 as i32;
        let t = if d == -32768 { 16 } else { 32 - d.unsigned_abs().leading_zeros() };
        let (code, l) = tabs[e.comp_table[c]].2[t as usize];
        assert!(l > 0, "symbol without code");
        put(&mut out, code, l as u32);
        if t > 0 && t < 16 {
          if d < 0 {
            d -= 1;
          }
          left = put(&mut out, d as u32 & ((1 << t) - 1), t);
        } else {
          left = put(&mut out, 0, 0);
        }
      }
    }
  }
  if left > 0 {
    put(&mut out, (1 << (8 - left)) - 1, 8 - left);
  }
  out.extend_from_slice(&[0xFF, 0xD9]);
  out
}

/// Encode with one flat Huffman table shared by all components.
pub fn encode_simple(samples: &[u16], width: usize, height: usize, comps: usize, precision: u32, predictor: u8) -> Vec<u8> {
  encode(&EncSpec {
    width,
    height,
    comps,
    precision,
    predictor,
    pt: 0,
    samples,
    comp_table: vec![0; comps],
    lens: vec![[5; 17]],
    split_dht: false,
    app_segment: None,
    first_comp_id: 0,
  })
}
