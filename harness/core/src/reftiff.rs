//! Independent TIFF/DNG structure parser and writer used as oracle. Written from the TIFF 6.0 /
//! DNG specification; shares no code with rawler.
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Ent {
  pub tag: u16,
  pub typ: u16,
  pub count: u32,
  /// raw value bytes in file byte order
  pub data: Vec<u8>,
  /// file offset of the value bytes (inside the entry for embedded values)
  pub off: usize,
  pub be: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Dir {
  pub offset: usize,
  pub ents: BTreeMap<u16, Ent>,
  pub next: u32,
  /// child dirs by pointer tag
  pub subs: BTreeMap<u16, Vec<Dir>>,
}

#[derive(Clone, Debug)]
pub struct Tiff {
  pub be: bool,
  pub dirs: Vec<Dir>,
  /// (start, end, what)
  pub extents: Vec<(usize, usize, String)>,
  pub problems: Vec<String>,
}

pub fn type_size(t: u16) -> Option<usize> {
  Some(match t {
    1 | 2 | 6 | 7 => 1,
    3 | 8 => 2,
    4 | 9 | 11 | 13 => 4,
    5 | 10 | 12 => 8,
    _ => return None,
  })
}

impl Ent {
  fn u16at(&self, i: usize) -> u16 {
    let b = [self.data[i], self.data[i + 1]];
    if self.be { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
  }
  fn u32at(&self, i: usize) -> u32 {
    let b = [self.data[i], self.data[i + 1], self.data[i + 2], self.data[i + 3]];
    if self.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
  }
  pub fn uint(&self, i: usize) -> Option<u32> {
    if i >= self.count as usize {
      return None;
    }
    Some(match self.typ {
      1 | 6 | 7 | 2 => self.data[i] as u32,
      3 | 8 => self.u16at(i * 2) as u32,
      4 | 9 | 13 => self.u32at(i * 4),
      _ => return None,
    })
  }
  pub fn uints(&self) -> Vec<u32> {
    (0..self.count as usize).filter_map(|i| self.uint(i)).collect()
  }
  /// Numeric value as f64 (rationals resolved)
  pub fn num(&self, i: usize) -> Option<f64> {
    if i >= self.count as usize {
      return None;
    }
    Some(match self.typ {
      1 | 2 | 7 => self.data[i] as f64,
      6 => self.data[i] as i8 as f64,
      3 => self.u16at(i * 2) as f64,
      8 => self.u16at(i * 2) as i16 as f64,
      4 | 13 => self.u32at(i * 4) as f64,
      9 => self.u32at(i * 4) as i32 as f64,
      5 => self.u32at(i * 8) as f64 / self.u32at(i * 8 + 4) as f64,
      10 => self.u32at(i * 8) as i32 as f64 / self.u32at(i * 8 + 4) as i32 as f64,
      11 => f32::from_bits(self.u32at(i * 4)) as f64,
      12 => {
        let mut b = [0u8; 8];
        b.copy_from_slice(&self.data[i * 8..i * 8 + 8]);
        if self.be { f64::from_be_bytes(b) } else { f64::from_le_bytes(b) }
      }
      _ => return None,
    })
  }
  pub fn nums(&self) -> Vec<f64> {
    (0..self.count as usize).filter_map(|i| self.num(i)).collect()
  }
  pub fn rat(&self, i: usize) -> Option<(u32, u32)> {
    (i < self.count as usize && (self.typ == 5 || self.typ == 10)).then(|| (self.u32at(i * 8), self.u32at(i * 8 + 4)))
  }
  pub fn str(&self) -> Option<String> {
    if self.typ != 2 {
      return None;
    }
    let end = self.data.iter().position(|b| *b == 0).unwrap_or(self.data.len());
    Some(String::from_utf8_lossy(&self.data[..end]).to_string())
  }
}

impl Dir {
  pub fn get(&self, tag: u16) -> Option<&Ent> {
    self.ents.get(&tag)
  }
  pub fn u(&self, tag: u16) -> Option<u32> {
    self.get(tag).and_then(|e| e.uint(0))
  }
}

fn r16(b: &[u8], o: usize, be: bool) -> Option<u16> {
  let x = b.get(o..o + 2)?;
  Some(if be { u16::from_be_bytes([x[0], x[1]]) } else { u16::from_le_bytes([x[0], x[1]]) })
}
fn r32(b: &[u8], o: usize, be: bool) -> Option<u32> {
  let x = b.get(o..o + 4)?;
  Some(if be {
    u32::from_be_bytes([x[0], x[1], x[2], x[3]])
  } else {
    u32::from_le_bytes([x[0], x[1], x[2], x[3]])
  })
}

impl Tiff {
  pub fn parse(buf: &[u8]) -> Result<Tiff, String> {
    let be = match buf.get(0..2) {
      Some(b"II") => false,
      Some(b"MM") => true,
      _ => return Err("bad byte order mark".into()),
    };
    if r16(buf, 2, be) != Some(42) {
      return Err("bad magic".into());
    }
    let mut t = Tiff {
      be,
      dirs: vec![],
      extents: vec![(0, 8, "header".into())],
      problems: vec![],
    };
    let mut off = r32(buf, 4, be).ok_or("short header")?;
    let mut n = 0;
    while off != 0 {
      let d = t.dir(buf, off as usize, &format!("IFD{n}"), 0)?;
      off = d.next;
      t.dirs.push(d);
      n += 1;
      if n > 64 {
        return Err("IFD chain too long or cyclic".into());
      }
    }
    if t.dirs.is_empty() {
      return Err("no IFD".into());
    }
    Ok(t)
  }

  fn dir(&mut self, buf: &[u8], off: usize, name: &str, depth: usize) -> Result<Dir, String> {
    if depth > 8 {
      return Err(format!("{name}: sub-IFD nesting too deep"));
    }
    if off % 2 != 0 {
      self.problems.push(format!("{name}: IFD offset {off} is not word aligned"));
    }
    let n = r16(buf, off, self.be).ok_or(format!("{name}: IFD offset {off} beyond EOF ({})", buf.len()))? as usize;
    let end = off + 2 + n * 12 + 4;
    if end > buf.len() {
      return Err(format!("{name}: IFD table [{off}..{end}) beyond EOF ({})", buf.len()));
    }
    if n == 0 {
      self.problems.push(format!("{name}: empty IFD"));
    }
    self.extents.push((off, end, format!("{name}.table")));
    let mut d = Dir {
      offset: off,
      ..Default::default()
    };
    let mut last: i32 = -1;
    for i in 0..n {
      let p = off + 2 + i * 12;
      let tag = r16(buf, p, self.be).unwrap();
      let typ = r16(buf, p + 2, self.be).unwrap();
      let count = r32(buf, p + 4, self.be).unwrap();
      if (tag as i32) <= last {
        self.problems.push(format!("{name}: tag {tag:#06x} out of ascending order (previous {last:#06x})"));
      }
      last = tag as i32;
      let Some(ts) = type_size(typ) else {
        self.problems.push(format!("{name}: tag {tag:#06x} has unknown type {typ}"));
        continue;
      };
      if count == 0 {
        self.problems.push(format!("{name}: tag {tag:#06x} has count 0"));
      }
      let len = ts * count as usize;
      let (data, voff) = if len <= 4 {
        (buf[p + 8..p + 8 + len].to_vec(), p + 8)
      } else {
        let vo = r32(buf, p + 8, self.be).unwrap() as usize;
        if vo + len > buf.len() {
          return Err(format!("{name}: tag {tag:#06x} value [{vo}..{}) beyond EOF ({})", vo + len, buf.len()));
        }
        if vo % 2 != 0 {
          self.problems.push(format!("{name}: tag {tag:#06x} value offset {vo} not word aligned"));
        }
        self.extents.push((vo, vo + len, format!("{name}.tag{tag:#06x}")));
        (buf[vo..vo + len].to_vec(), vo)
      };
      let e = Ent {
        tag,
        typ,
        count,
        data,
        off: voff,
        be: self.be,
      };
      if typ == 2 && !e.data.is_empty() && *e.data.last().unwrap() != 0 {
        self.problems.push(format!("{name}: ASCII tag {tag:#06x} is not NUL terminated"));
      }
      d.ents.insert(tag, e);
    }
    d.next = r32(buf, off + 2 + n * 12, self.be).unwrap();
    for ptr in [0x014Au16, 0x8769, 0x8825, 0xA005] {
      if let Some(e) = d.ents.get(&ptr).cloned() {
        if e.typ == 4 || e.typ == 13 {
          for (k, o) in e.uints().iter().enumerate() {
            let sub = self.dir(buf, *o as usize, &format!("{name}/{ptr:#06x}[{k}]"), depth + 1)?;
            d.subs.entry(ptr).or_default().push(sub);
          }
        } else {
          self.problems.push(format!("{name}: IFD pointer {ptr:#06x} has type {}", e.typ));
        }
      }
    }
    // image data extents
    for (ot, ct) in [(273u16, 279u16), (324, 325)] {
      match (d.get(ot), d.get(ct)) {
        (Some(o), Some(c)) => {
          let (o, c) = (o.uints(), c.uints());
          if o.len() != c.len() {
            self.problems.push(format!("{name}: offsets ({}) and byte counts ({}) differ in length", o.len(), c.len()));
          }
          let mut v = vec![];
          for (k, (o, c)) in o.iter().zip(c.iter()).enumerate() {
            let (s, e) = (*o as usize, *o as usize + *c as usize);
            if e > buf.len() {
              return Err(format!("{name}: image chunk {k} [{s}..{e}) beyond EOF ({})", buf.len()));
            }
            v.push((s, e, format!("{name}.chunk{k}")));
          }
          self.extents.extend(v);
        }
        (None, None) => {}
        _ => self.problems.push(format!("{name}: only one of tags {ot}/{ct} present")),
      }
    }
    Ok(d)
  }

  /// Overlapping extents (structural corruption)
  pub fn overlaps(&self) -> Vec<String> {
    let mut e = self.extents.clone();
    e.retain(|x| x.1 > x.0);
    e.sort();
    let mut out = vec![];
    let mut hi: Option<(usize, usize, String)> = None;
    for x in e {
      if let Some(h) = &hi {
        if x.0 < h.1 {
          out.push(format!("{} [{}..{}) overlaps {} [{}..{})", x.2, x.0, x.1, h.2, h.0, h.1));
        }
      }
      if hi.as_ref().map(|h| x.1 > h.1).unwrap_or(true) {
        hi = Some(x);
      }
    }
    out
  }

  pub fn all_dirs(&self) -> Vec<&Dir> {
    fn rec<'a>(d: &'a Dir, out: &mut Vec<&'a Dir>) {
      out.push(d);
      for s in d.subs.values().flatten() {
        rec(s, out);
      }
    }
    let mut out = vec![];
    for d in &self.dirs {
      rec(d, &mut out);
    }
    out
  }

  /// The main raw IFD of a DNG: NewSubFileType == 0 with image data
  pub fn raw_dir(&self) -> Option<&Dir> {
    self
      .all_dirs()
      .into_iter()
      .find(|d| d.u(254) == Some(0) && (d.get(273).is_some() || d.get(324).is_some()))
  }
}

// ---------------------------------------------------------------------------------------------
// Writer

#[derive(Clone, Debug)]
pub struct WEnt {
  pub tag: u16,
  pub typ: u16,
  pub count: u32,
  pub data: Vec<u8>,
}

/// Byte order aware value builder
#[derive(Clone, Copy)]
pub struct BO(pub bool);
impl BO {
  pub fn u16s(&self, tag: u16, v: &[u16]) -> WEnt {
    let data = v.iter().flat_map(|x| if self.0 { x.to_be_bytes() } else { x.to_le_bytes() }).collect();
    WEnt { tag, typ: 3, count: v.len() as u32, data }
  }
  pub fn u32s(&self, tag: u16, v: &[u32]) -> WEnt {
    let data = v.iter().flat_map(|x| if self.0 { x.to_be_bytes() } else { x.to_le_bytes() }).collect();
    WEnt { tag, typ: 4, count: v.len() as u32, data }
  }
  pub fn rats(&self, tag: u16, v: &[(u32, u32)]) -> WEnt {
    let data = v
      .iter()
      .flat_map(|(n, d)| [*n, *d])
      .flat_map(|x| if self.0 { x.to_be_bytes() } else { x.to_le_bytes() })
      .collect();
    WEnt { tag, typ: 5, count: v.len() as u32, data }
  }
  pub fn srats(&self, tag: u16, v: &[(i32, i32)]) -> WEnt {
    let mut e = self.rats(tag, &v.iter().map(|x| (x.0 as u32, x.1 as u32)).collect::<Vec<_>>());
    e.typ = 10;
    e
  }
  pub fn bytes(&self, tag: u16, v: &[u8]) -> WEnt {
    WEnt { tag, typ: 1, count: v.len() as u32, data: v.to_vec() }
  }
  pub fn undef(&self, tag: u16, v: &[u8]) -> WEnt {
    WEnt { tag, typ: 7, count: v.len() as u32, data: v.to_vec() }
  }
  pub fn ascii(&self, tag: u16, s: &str) -> WEnt {
    let mut data = s.as_bytes().to_vec();
    data.push(0);
    WEnt { tag, typ: 2, count: data.len() as u32, data }
  }
}

/// Image payload attached to a directory: emitted as strips or tiles
#[derive(Clone, Debug)]
pub struct Payload {
  pub chunks: Vec<Vec<u8>>,
  pub tiled: bool,
}

#[derive(Clone, Debug, Default)]
pub struct WDir {
  pub ents: Vec<WEnt>,
  pub payload: Option<Payload>,
  /// (pointer tag, children)
  pub subs: Vec<(u16, Vec<WDir>)>,
}

impl WDir {
  pub fn put(&mut self, e: WEnt) -> &mut Self {
    self.ents.retain(|x| x.tag != e.tag);
    self.ents.push(e);
    self
  }
}

pub struct TiffOut {
  pub be: bool,
  pub buf: Vec<u8>,
  /// extra gap bytes between chunks (non-contiguous strips)
  pub gap: usize,
  /// permitted type variants: bit 0 = IFD type for pointers, bit 1 = SHORT byte counts, bit 2 = SHORT strip offsets
  pub style: u32,
}

/// Deterministic choice of the type variants from the content
fn style(roots: &[WDir]) -> u32 {
  fn sum(d: &WDir, mut h: u32) -> u32 {
    for e in &d.ents {
      for b in &e.data {
        h = (h ^ *b as u32).wrapping_mul(0x0100_0193);
      }
    }
    for (_, l) in &d.subs {
      for s in l {
        h = sum(s, h);
      }
    }
    h
  }
  let h = roots.iter().fold(0x811C_9DC5, |h, d| sum(d, h));
  (h >> 16) ^ (h >> 7)
}

impl TiffOut {
  fn p32(&mut self, v: u32) {
    let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
    self.buf.extend_from_slice(&b);
  }
  fn p16(&mut self, v: u16) {
    let b = if self.be { v.to_be_bytes() } else { v.to_le_bytes() };
    self.buf.extend_from_slice(&b);
  }
  fn align(&mut self) {
    while self.buf.len() % 2 != 0 {
      self.buf.push(0);
    }
  }
  fn dir(&mut self, d: &WDir, next: u32) -> u32 {
    let bo = BO(self.be);
    let mut ents = d.ents.clone();
    for (ptr, list) in &d.subs {
      let offs: Vec<u32> = list.iter().map(|s| self.dir(s, 0)).collect();
      ents.retain(|e| e.tag != *ptr);
      let mut e = bo.u32s(*ptr, &offs);
      if self.style & 1 != 0 {
        e.typ = 13;
      }
      ents.push(e);
    }
    if let Some(p) = &d.payload {
      let mut offs = vec![];
      let mut cnts = vec![];
      for c in &p.chunks {
        self.align();
        offs.push(self.buf.len() as u32);
        cnts.push(c.len() as u32);
        self.buf.extend_from_slice(c);
        for _ in 0..self.gap {
          self.buf.push(0xA5);
        }
      }
      let (ot, ct) = if p.tiled { (324, 325) } else { (273, 279) };
      ents.retain(|e| e.tag != ot && e.tag != ct);
      let table = |tag: u16, v: &[u32], short: bool| {
        if short && v.iter().all(|x| *x <= 65535) {
          bo.u16s(tag, &v.iter().map(|x| *x as u16).collect::<Vec<_>>())
        } else {
          bo.u32s(tag, v)
        }
      };
      ents.push(table(ot, &offs, self.style & 4 != 0 && !p.tiled));
      ents.push(table(ct, &cnts, self.style & 2 != 0));
    }
    ents.sort_by_key(|e| e.tag);
    let mut fields = vec![];
    for e in &ents {
      let mut f = [0u8; 4];
      if e.data.len() <= 4 {
        f[..e.data.len()].copy_from_slice(&e.data);
      } else {
        self.align();
        let o = self.buf.len() as u32;
        self.buf.extend_from_slice(&e.data);
        f = if self.be { o.to_be_bytes() } else { o.to_le_bytes() };
      }
      fields.push(f);
    }
    self.align();
    let off = self.buf.len() as u32;
    self.p16(ents.len() as u16);
    for (e, f) in ents.iter().zip(fields) {
      self.p16(e.tag);
      self.p16(e.typ);
      self.p32(e.count);
      self.buf.extend_from_slice(&f);
    }
    self.p32(next);
    off
  }

  pub fn write(be: bool, gap: usize, roots: &[WDir]) -> Vec<u8> {
    Self::write_at(be, gap, roots, &[])
  }

  /// `prefix` bytes are placed after the 8 byte header
  pub fn write_at(be: bool, gap: usize, roots: &[WDir], prefix: &[u8]) -> Vec<u8> {
    Self::write_styled(be, gap, roots, prefix, None)
  }

  pub fn write_styled(be: bool, gap: usize, roots: &[WDir], prefix: &[u8], st: Option<u32>) -> Vec<u8> {
    let mut t = TiffOut { be, buf: vec![], gap, style: st.unwrap_or_else(|| style(roots)) };
    t.buf.extend_from_slice(if be { b"MM" } else { b"II" });
    t.p16(42);
    t.p32(0);
    t.buf.extend_from_slice(prefix);
    let mut next = 0;
    for d in roots.iter().rev() {
      next = t.dir(d, next);
    }
    let b = if be { next.to_be_bytes() } else { next.to_le_bytes() };
    t.buf[4..8].copy_from_slice(&b);
    t.buf
  }
}

/// Pack samples with `bits` per sample, MSB first, each row padded to a byte boundary.
pub fn pack_msb(samples: &[u16], row: usize, bits: u32) -> Vec<u8> {
  let mut out = vec![];
  for line in samples.chunks(row) {
    let mut acc: u64 = 0;
    let mut n = 0;
    for s in line {
      acc = (acc << bits) | (*s as u64 & ((1 << bits) - 1));
      n += bits;
      while n >= 8 {
        out.push((acc >> (n - 8)) as u8);
        n -= 8;
      }
      acc &= (1 << n) - 1;
    }
    if n > 0 {
      out.push((acc << (8 - n)) as u8);
    }
  }
  out
}
