//! C07: TIFF values survive writing and reading unchanged; one bad entry does not affect others.
use crate::ctx::{Ctx, Verdict, hash_bytes};
use crate::reftiff::{Dir, Ent, Tiff, TiffOut, WDir, WEnt, type_size};
use crate::rng::Rng;
use rawler::formats::tiff::reader::TiffReader;
use rawler::formats::tiff::{DirectoryWriter, GenericTiffReader, IFD, Rational, SRational, TiffAscii, TiffWriter, Value};
use serde_json::json;
use std::collections::BTreeMap;
use std::io::Cursor;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

/// Typed ground truth: every element as its bit pattern
#[derive(Clone, Debug, PartialEq)]
pub struct Val {
  typ: u16,
  el: Vec<u64>, // rationals: n << 32 | d
}

fn word(r: &mut Rng, bits: u32) -> u64 {
  let m = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
  (match r.range(0, 5) {
    0 => 0,
    1 => u64::MAX,
    2 => 1 << (bits - 1),
    3 => r.range(0, 300) as u64,
    4 => (1 << (bits - 1)) - 1,
    _ => r.u64(),
  }) & m
}

fn gen_val(r: &mut Rng, typ: u16) -> Val {
  let n = match r.range(0, 9) {
    0..=2 => 1,
    3..=4 => 2,
    5 => r.range(3, 5),
    6..=7 => r.range(1, 40),
    8 => r.range(1, 9),
    _ => r.range(1, 2000),
  };
  let el = (0..n)
    .map(|i| match typ {
      2 => {
        if i + 1 == n {
          0
        } else {
          r.range(32, 126) as u64
        }
      }
      1 | 6 | 7 => word(r, 8),
      3 | 8 => word(r, 16),
      4 | 9 => word(r, 32),
      5 | 10 => (word(r, 32) << 32) | word(r, 32),
      11 => {
        let f = match r.range(0, 3) {
          0 => r.range(0, 1000) as f32,
          1 => -1.5,
          2 => r.f32(),
          _ => f32::from_bits(word(r, 32) as u32 & 0xbfff_ffff),
        };
        f.to_bits() as u64
      }
      12 => (r.f32() as f64 * 1e3 - 500.0).to_bits(),
      _ => word(r, 8),
    })
    .collect();
  Val { typ, el }
}

fn to_value(v: &Val) -> Value {
  let e = &v.el;
  match v.typ {
    1 => Value::Byte(e.iter().map(|x| *x as u8).collect()),
    2 => Value::Ascii(TiffAscii::new(String::from_utf8(e[..e.len() - 1].iter().map(|x| *x as u8).collect()).unwrap())),
    3 => Value::Short(e.iter().map(|x| *x as u16).collect()),
    4 => Value::Long(e.iter().map(|x| *x as u32).collect()),
    5 => Value::Rational(e.iter().map(|x| Rational::new((*x >> 32) as u32, *x as u32)).collect()),
    6 => Value::SByte(e.iter().map(|x| *x as u8 as i8).collect()),
    7 => Value::Undefined(e.iter().map(|x| *x as u8).collect()),
    8 => Value::SShort(e.iter().map(|x| *x as u16 as i16).collect()),
    9 => Value::SLong(e.iter().map(|x| *x as u32 as i32).collect()),
    10 => Value::SRational(e.iter().map(|x| SRational::new((*x >> 32) as i32, *x as u32 as i32)).collect()),
    11 => Value::Float(e.iter().map(|x| f32::from_bits(*x as u32)).collect()),
    12 => Value::Double(e.iter().map(|x| f64::from_bits(*x)).collect()),
    t => Value::Unknown(t, e.iter().map(|x| *x as u8).collect()),
  }
}

fn from_value(v: &Value) -> Val {
  let (typ, el): (u16, Vec<u64>) = match v {
    Value::Byte(v) => (1, v.iter().map(|x| *x as u64).collect()),
    Value::Ascii(a) => {
      // judged by the string; trailing NUL implied
      let mut s: Vec<u64> = a.first().cloned().unwrap_or_default().bytes().map(|b| b as u64).collect();
      s.push(0);
      (2, s)
    }
    Value::Short(v) => (3, v.iter().map(|x| *x as u64).collect()),
    Value::Long(v) => (4, v.iter().map(|x| *x as u64).collect()),
    Value::Rational(v) => (5, v.iter().map(|x| ((x.n as u64) << 32) | x.d as u64).collect()),
    Value::SByte(v) => (6, v.iter().map(|x| *x as u8 as u64).collect()),
    Value::Undefined(v) => (7, v.iter().map(|x| *x as u64).collect()),
    Value::SShort(v) => (8, v.iter().map(|x| *x as u16 as u64).collect()),
    Value::SLong(v) => (9, v.iter().map(|x| *x as u32 as u64).collect()),
    Value::SRational(v) => (10, v.iter().map(|x| ((x.n as u32 as u64) << 32) | x.d as u32 as u64).collect()),
    Value::Float(v) => (11, v.iter().map(|x| x.to_bits() as u64).collect()),
    Value::Double(v) => (12, v.iter().map(|x| x.to_bits()).collect()),
    Value::Unknown(t, v) => (*t, v.iter().map(|x| *x as u64).collect()),
  };
  Val { typ, el }
}

fn enc(v: &Val, tag: u16, be: bool) -> WEnt {
  let mut d: Vec<u8> = vec![];
  let mut p = |x: u64, n: usize| {
    let b = x.to_be_bytes();
    let mut s = b[8 - n..].to_vec();
    if !be {
      s.reverse();
    }
    d.extend(s);
  };
  for x in &v.el {
    match v.typ {
      3 | 8 => p(*x, 2),
      4 | 9 | 11 => p(*x, 4),
      5 | 10 => {
        p(*x >> 32, 4);
        p(*x & 0xffff_ffff, 4);
      }
      12 => p(*x, 8),
      _ => p(*x, 1),
    }
  }
  WEnt { tag, typ: v.typ, count: v.el.len() as u32, data: d }
}

fn dec(e: &Ent) -> Val {
  let g = |i: usize, n: usize| -> u64 {
    let mut s = e.data[i..i + n].to_vec();
    if !e.be {
      s.reverse();
    }
    s.iter().fold(0u64, |a, b| (a << 8) | *b as u64)
  };
  let el = (0..e.count as usize)
    .map(|i| match e.typ {
      3 | 8 => g(i * 2, 2),
      4 | 9 | 11 => g(i * 4, 4),
      5 | 10 => (g(i * 8, 4) << 32) | g(i * 8 + 4, 4),
      12 => g(i * 8, 8),
      _ => g(i, 1),
    })
    .collect();
  Val { typ: e.typ, el }
}

const PTRS: [u16; 3] = [0x014A, 0x8769, 0x8825];
const RESERVED: [u16; 8] = [0x014A, 0x8769, 0x8825, 0x8773, 273, 279, 324, 325];

fn gen_tags(r: &mut Rng, n: usize) -> BTreeMap<u16, Val> {
  let mut m = BTreeMap::new();
  while m.len() < n {
    let t = match r.range(0, 3) {
      0 => r.range(0xC600, 0xC800) as u16,
      1 => r.range(0x100, 0x140) as u16,
      2 => r.range(0x8290, 0xA500) as u16,
      _ => r.u16(),
    };
    if RESERVED.contains(&t) || t == 0xA005 || t == 0x8773 {
      continue;
    }
    let typ = r.range(1, 12) as u16;
    m.insert(t, gen_val(r, typ));
  }
  m
}

// ---- writer side
fn write_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let be_host = cfg!(target_endian = "big");
  let mut truth: Vec<(String, BTreeMap<u16, Val>)> = vec![];
  let mut buf = Cursor::new(vec![]);
  let n = if r.chance(1, 12) { r.range(1, 300) } else { r.range(1, 25) };
  let root_tags = gen_tags(r, n);
  let res: Result<(), String> = (|| {
    let mut w = TiffWriter::new(&mut buf).map_err(|e| e.to_string())?;
    let mut root = w.new_directory();
    let mut payload = vec![];
    for _ in 0..r.range(0, 3) {
      let n = r.range(0, 37);
      let d = r.bytes(n);
      let off = w.write_data(&d).map_err(|e| e.to_string())?;
      payload.push((off, d));
    }
    for p in PTRS {
      if r.chance(1, 2) {
        let k = if p == 0x014A { r.range(1, 3) } else { 1 };
        let mut offs = vec![];
        for i in 0..k {
          let n = r.range(1, 8);
          let t = gen_tags(r, n);
          let mut d = w.new_directory();
          for (tag, v) in &t {
            d.add_untyped_tag(*tag, to_value(v));
          }
          offs.push(d.build(&mut w).map_err(|e| e.to_string())?);
          truth.push((format!("{p:#x}[{i}]"), t));
        }
        root.add_untyped_tag(p, Value::Long(offs));
      }
    }
    // replaced and removed tags
    let mut order: Vec<u16> = root_tags.keys().copied().collect();
    for i in (1..order.len()).rev() {
      order.swap(i, r.range(0, i));
    }
    for t in &order {
      if r.chance(1, 6) {
        let typ = r.range(1, 12) as u16;
        let v = gen_val(r, typ);
        root.add_untyped_tag(*t, to_value(&v));
      }
      root.add_untyped_tag(*t, to_value(&root_tags[t]));
    }
    if r.chance(1, 3) {
      // copy() must not override
      let mut other = BTreeMap::new();
      for t in order.iter().take(3) {
        other.insert(*t, to_value(&gen_val(r, 3)));
      }
      root.copy(other.iter());
    }
    check_root(&root, &root_tags)?;
    w.build(root).map_err(|e| e.to_string())?;
    Ok(())
  })();
  if let Err(e) = res {
    return bad("writer-error", e);
  }
  let bytes = buf.into_inner();
  let t = match Tiff::parse(&bytes) {
    Ok(t) => t,
    Err(e) => return bad("unparsable", e),
  };
  if t.be != be_host || !t.problems.is_empty() || !t.overlaps().is_empty() || t.dirs.len() != 1 {
    return bad("structure", format!("problems {:?} overlaps {:?} dirs {}", t.problems, t.overlaps(), t.dirs.len()));
  }
  let cmp = |name: &str, d: &Dir, truth: &BTreeMap<u16, Val>| -> Option<Verdict> {
    for (tag, v) in truth {
      match d.get(*tag) {
        None => return Some(bad("written-tag-lost", format!("{name} tag {tag:#06x} is missing"))),
        Some(e) => {
          let g = dec(e);
          if g != *v {
            return Some(bad(&format!("written-value-type{}", v.typ), format!("{name} tag {tag:#06x}: wrote {v:x?}, file holds {g:x?}")));
          }
        }
      }
    }
    let extra: Vec<_> = d.ents.keys().filter(|k| !truth.contains_key(k) && !PTRS.contains(k)).collect();
    if !extra.is_empty() {
      return Some(bad("written-extra-tags", format!("{name}: {extra:x?}")));
    }
    None
  };
  let root = &t.dirs[0];
  if let Some(v) = cmp("root", root, &root_tags) {
    return v;
  }
  for (name, tr) in &truth {
    let (p, i) = name.trim_end_matches(']').split_once('[').unwrap();
    let p = u16::from_str_radix(&p[2..], 16).unwrap();
    match root.subs.get(&p).and_then(|v| v.get(i.parse::<usize>().unwrap())) {
      None => return bad("sub-ifd-lost", name.clone()),
      Some(d) => {
        if let Some(v) = cmp(name, d, tr) {
          return v;
        }
      }
    }
  }
  // the tool's own reader sees the same
  match GenericTiffReader::new_with_buffer(&bytes, 0, 0, None) {
    Err(e) => return bad("own-reader-rejects", e.to_string()),
    Ok(f) => {
      if let Err((s, d)) = cmp_ifd("root", f.root_ifd(), &root_tags, None) {
        return Verdict::Bad(s, d);
      }
    }
  }
  ctx.count("values_written", root_tags.len() as u64 + truth.iter().map(|x| x.1.len() as u64).sum::<u64>());
  ctx.sample(json!({"stage": "write", "tags": root_tags.len(), "subs": truth.len(), "bytes": bytes.len()}));
  Verdict::Held(hash_bytes(&bytes))
}

fn check_root(root: &DirectoryWriter, tags: &BTreeMap<u16, Val>) -> Result<(), String> {
  for t in tags.keys() {
    if !root.contains(*t) {
      return Err(format!("contains({t}) is false after add"));
    }
  }
  Ok(())
}

// ---- reader side
#[derive(Clone, Debug, Default)]
struct TDir {
  tags: BTreeMap<u16, Val>,
  dead: Vec<u16>,
  subs: BTreeMap<u16, Vec<TDir>>,
}

fn gen_tdir(r: &mut Rng, depth: usize, faults: bool) -> TDir {
  let n = if r.chance(1, 15) { r.range(1, 400) } else { r.range(1, 20) };
  let tags = gen_tags(r, n);
  let mut subs = BTreeMap::new();
  if depth == 0 {
    for p in PTRS {
      if r.chance(1, 2) {
        let k = if p == 0x014A { r.range(1, 4) } else { 1 };
        subs.insert(p, (0..k).map(|_| gen_tdir(r, depth + 1, faults)).collect::<Vec<_>>());
      }
    }
  }
  let mut dead = vec![];
  if faults {
    let keys: Vec<u16> = tags.keys().copied().collect();
    let mut run = 0;
    for k in keys {
      if run < 3 && r.chance(1, 4) {
        dead.push(k);
        run += 1;
      } else {
        run = 0;
      }
    }
    // keep at least one live entry
    if dead.len() == tags.len() {
      dead.pop();
    }
  }
  TDir { tags, dead, subs }
}

fn to_wdir(r: &mut Rng, d: &TDir, be: bool) -> WDir {
  let mut w = WDir::default();
  for (t, v) in &d.tags {
    if d.dead.contains(t) {
      // value outside of the file: out-of-range offset with plausible count. Written as 8 data bytes that the
      // post-processing step (patch_dead) turns into a bad offset.
      w.ents.push(WEnt { tag: *t, typ: *r.pick(&[1u16, 2, 3, 4, 5, 7, 10, 12]), count: 0xDEAD, data: vec![] });
    } else {
      w.ents.push(enc(v, *t, be));
    }
  }
  for (p, list) in &d.subs {
    w.subs.push((*p, list.iter().map(|s| to_wdir(r, s, be)).collect()));
  }
  w
}

fn cmp_ifd(name: &str, ifd: &IFD, tags: &BTreeMap<u16, Val>, dead: Option<&Vec<u16>>) -> Result<(), (String, String)> {
  for (tag, v) in tags {
    if dead.map(|d| d.contains(tag)).unwrap_or(false) {
      if let Some(e) = ifd.get_entry(*tag) {
        return Err(("dead-entry-invented".into(), format!("{name} tag {tag:#06x} lies outside of the file but was read as {:?}", e.value)));
      }
      continue;
    }
    let Some(e) = ifd.get_entry(*tag) else {
      return Err(("read-tag-lost".into(), format!("{name} tag {tag:#06x} was not read; expected type {}", v.typ)));
    };
    let g = from_value(&e.value);
    let want = if v.typ == 2 {
      // up to the first NUL
      let n = v.el.iter().position(|x| *x == 0).unwrap_or(v.el.len());
      let mut s = v.el[..n].to_vec();
      s.push(0);
      Val { typ: 2, el: s }
    } else {
      v.clone()
    };
    if g != want {
      return Err((format!("read-value-type{}", v.typ), format!("{name} tag {tag:#06x}: file holds {v:x?}, reader returned {g:x?}")));
    }
    accessors(name, *tag, v, &e.value)?;
  }
  for k in ifd.entries().keys() {
    if !tags.contains_key(k) && !PTRS.contains(k) {
      return Err(("read-extra-tag".into(), format!("{name} tag {k:#06x}")));
    }
  }
  Ok(())
}

/// Numeric accessors return the stored number, or an error when it is not representable.
fn accessors(name: &str, tag: u16, v: &Val, val: &Value) -> Result<(), (String, String)> {
  for (i, x) in v.el.iter().enumerate().take(6) {
    let int: Option<i64> = match v.typ {
      1 => Some(*x as i64),
      3 => Some(*x as i64),
      4 => Some(*x as i64),
      6 => Some(*x as u8 as i8 as i64),
      8 => Some(*x as u16 as i16 as i64),
      9 => Some(*x as u32 as i32 as i64),
      _ => None,
    };
    if let Some(n) = int {
      let checks: [(&str, Option<i64>, bool); 6] = [
        ("u8", val.get_u8(i).ok().flatten().map(|x| x as i64), (0..=255).contains(&n)),
        ("u16", val.get_u16(i).ok().flatten().map(|x| x as i64), (0..=65535).contains(&n)),
        ("u32", val.get_u32(i).ok().flatten().map(|x| x as i64), (0..=0xffff_ffff).contains(&n)),
        ("i16", val.get_i16(i).ok().flatten().map(|x| x as i64), (-32768..=32767).contains(&n)),
        ("i32", val.get_i32(i).ok().flatten().map(|x| x as i64), (i32::MIN as i64..=i32::MAX as i64).contains(&n)),
        ("usize", val.get_usize(i).ok().flatten().map(|x| x as i64), n >= 0),
      ];
      for (k, got, fits) in checks {
        if got != fits.then_some(n) {
          return Err((format!("accessor-{k}"), format!("{name} tag {tag:#06x}[{i}] = {n} (type {}): get_{k} returned {got:?}", v.typ)));
        }
      }
    }
    let f: Option<f64> = match v.typ {
      1 | 3 | 4 | 6 | 8 | 9 => int.map(|n| n as f64),
      5 if *x & 0xffff_ffff != 0 => Some((*x >> 32) as f64 / (*x & 0xffff_ffff) as f64),
      10 if *x & 0xffff_ffff != 0 => Some((*x >> 32) as u32 as i32 as f64 / (*x & 0xffff_ffff) as u32 as i32 as f64),
      11 => Some(f32::from_bits(*x as u32) as f64),
      12 => Some(f64::from_bits(*x)),
      _ => None,
    };
    if let Some(f) = f {
      let g = val.get_f32(i).ok().flatten().map(|x| x as f64);
      let ok = g.map(|g| (g - f).abs() <= f.abs() * 1e-6 || g == f).unwrap_or(false);
      if !ok {
        return Err(("accessor-f32".into(), format!("{name} tag {tag:#06x}[{i}] = {f} (type {}): get_f32 returned {g:?}", v.typ)));
      }
    }
  }
  if val.get_u32(v.el.len()).ok().flatten().is_some() {
    return Err(("accessor-out-of-range".into(), format!("{name} tag {tag:#06x}: index {} of {} elements returned a value", v.el.len(), v.el.len())));
  }
  Ok(())
}

fn cmp_tdir(name: &str, ifd: &IFD, t: &TDir) -> Result<u64, (String, String)> {
  cmp_ifd(name, ifd, &t.tags, Some(&t.dead))?;
  let mut n = t.tags.len() as u64;
  for (p, list) in &t.subs {
    let got = ifd.get_sub_ifd_all(*p).map(|v| v.len()).unwrap_or(0);
    if got != list.len() {
      return Err(("sub-ifd-count".into(), format!("{name} pointer {p:#06x}: {} sub-IFDs in file, {got} read", list.len())));
    }
    for (i, s) in list.iter().enumerate() {
      n += cmp_tdir(&format!("{name}/{p:#06x}[{i}]"), &ifd.get_sub_ifd_all(*p).unwrap()[i], s)?;
    }
  }
  for p in ifd.sub_ifds().keys() {
    if !t.subs.contains_key(p) {
      return Err(("sub-ifd-extra".into(), format!("{name} pointer {p:#06x}")));
    }
  }
  Ok(n)
}

/// Replace the count/offset of entries marked dead by an out-of-file value
fn patch_dead(r: &mut Rng, bytes: &mut [u8], off: usize, be: bool, limit: u32) {
  let g16 = |b: &[u8], o: usize| if be { u16::from_be_bytes([b[o], b[o + 1]]) } else { u16::from_le_bytes([b[o], b[o + 1]]) };
  let g32 = |b: &[u8], o: usize| {
    let x = [b[o], b[o + 1], b[o + 2], b[o + 3]];
    if be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) }
  };
  let n = g16(bytes, off) as usize;
  for i in 0..n {
    let p = off + 2 + i * 12;
    let (tag, typ, count) = (g16(bytes, p), g16(bytes, p + 2), g32(bytes, p + 4));
    if count == 0xDEAD {
      let c = r.range(5, 40) as u32;
      let o: u32 = match r.range(0, 2) {
        0 => limit + r.range(0, 100000) as u32,
        1 => limit - r.range(0, 4) as u32,
        _ => 0x7fff_0000 - r.range(0, 1000) as u32,
      };
      let (cb, ob) = if be { (c.to_be_bytes(), o.to_be_bytes()) } else { (c.to_le_bytes(), o.to_le_bytes()) };
      bytes[p + 4..p + 8].copy_from_slice(&cb);
      bytes[p + 8..p + 12].copy_from_slice(&ob);
    } else if PTRS.contains(&tag) {
      let len = type_size(typ).unwrap() * count as usize;
      for k in 0..count as usize {
        let src = if len <= 4 { p + 8 } else { g32(bytes, p + 8) as usize + 4 * k };
        let so = g32(bytes, src) as usize;
        patch_dead(r, bytes, so, be, limit);
      }
    }
  }
  let next = g32(bytes, off + 2 + n * 12) as usize;
  if next != 0 {
    patch_dead(r, bytes, next, be, limit);
  }
}

fn read_case(ctx: &Ctx, r: &mut Rng, faults: bool) -> Verdict {
  let be = r.bool();
  let nroots = if r.chance(1, 3) { r.range(2, 6) } else { 1 };
  let roots: Vec<TDir> = (0..nroots).map(|_| gen_tdir(r, 0, faults)).collect();
  let w: Vec<WDir> = roots.iter().map(|d| to_wdir(r, d, be)).collect();
  // correction: offsets in the file are displaced by `corr`
  let corr_mode = if faults { 0 } else { r.range(0, 3) };
  let pad = r.range(1, 200) * 2;
  let mut bytes = TiffOut::write_at(be, 0, &w, &vec![0x5A; if corr_mode == 1 { pad } else { 0 }]);
  let corr: i32 = match corr_mode {
    1 => {
      bytes.drain(8..8 + pad);
      -(pad as i32)
    }
    2 => {
      let mut b = bytes[..8].to_vec();
      b.extend(vec![0x5A; pad]);
      b.extend(&bytes[8..]);
      bytes = b;
      pad as i32
    }
    _ => 0,
  };
  if faults {
    let first = if be { u32::from_be_bytes(bytes[4..8].try_into().unwrap()) } else { u32::from_le_bytes(bytes[4..8].try_into().unwrap()) };
    let lim = bytes.len() as u32;
    patch_dead(r, &mut bytes, first as usize, be, lim);
  }
  let base = if r.chance(1, 3) { r.range(1, 500) as u32 } else { 0 };
  let mut file = r.bytes(base as usize);
  file.extend(&bytes);
  let desc = format!("be={be} roots={nroots} base={base} corr={corr} faults={faults} len={}", file.len());
  let f = match GenericTiffReader::new_with_buffer(&file, base, corr, None) {
    Ok(f) => f,
    Err(e) => return bad("reader-error", format!("{e} ({desc})")),
  };
  if f.chains().len() != nroots {
    return bad("chain-length", format!("{} IFDs in chain, {} read ({desc})", nroots, f.chains().len()));
  }
  if f.little_endian() == be {
    return bad("byte-order", desc);
  }
  let mut n = 0;
  for (i, t) in roots.iter().enumerate() {
    match cmp_tdir(&format!("IFD{i}"), &f.chains()[i], t) {
      Ok(k) => n += k,
      Err((s, d)) => return Verdict::Bad(s, format!("{d} ({desc})")),
    }
  }
  // get_entry returns the first IFD of the chain holding the tag
  for (tag, _) in roots.iter().flat_map(|t| t.tags.iter()).take(20) {
    let want = roots.iter().position(|t| t.tags.contains_key(tag) && !t.dead.contains(tag));
    let got = f.get_entry(*tag);
    match (want, got) {
      (None, None) => {}
      (Some(i), Some(e)) => {
        if Some(e) != f.chains()[i].get_entry(*tag) {
          // NaN never equals itself
          if !matches!(e.value, Value::Float(_) | Value::Double(_)) {
            return bad("get-entry-wrong-ifd", format!("tag {tag:#06x} ({desc})"));
          }
        }
      }
      (w, g) => return bad("get-entry", format!("tag {tag:#06x}: expected in {w:?}, got {} ({desc})", g.is_some())),
    }
  }
  // raw access to the stored bytes
  {
    let (i, t) = roots.iter().enumerate().next().unwrap();
    for (tag, v) in t.tags.iter().take(10) {
      if t.dead.contains(tag) || v.typ == 2 {
        continue;
      }
      let want = enc(v, *tag, be).data;
      match f.chains()[i].get_entry_raw(*tag, &mut Cursor::new(&file)) {
        Ok(Some(e)) if e.data == want => {}
        Ok(x) => return bad("raw-entry", format!("tag {tag:#06x}: raw bytes differ: {:x?} vs {want:x?} ({desc})", x.map(|x| x.data))),
        Err(e) => return bad("raw-entry", format!("tag {tag:#06x}: {e} ({desc})")),
      }
    }
  }
  // IFD::new_root_with_correction (embedded TIFFs) sees the same chain
  if nroots <= 6 {
    match IFD::new_root_with_correction(&mut Cursor::new(&file), 0, base, corr, 10, &PTRS) {
      Err(e) => return bad("new-root-error", format!("{e} ({desc})")),
      Ok(root) => {
        if root.chain.len() + 1 != nroots {
          return bad("new-root-chain", format!("{} IFDs, expected {nroots} ({desc})", root.chain.len() + 1));
        }
        for (i, t) in roots.iter().enumerate() {
          let ifd = if i == 0 { &root } else { &root.chain[i - 1] };
          if let Err((s, d)) = cmp_tdir(&format!("root-IFD{i}"), ifd, t) {
            return Verdict::Bad(format!("new-root-{s}"), format!("{d} ({desc})"));
          }
        }
      }
    }
  }
  ctx.count("values_read", n);
  ctx.count(if be { "big_endian" } else { "little_endian" }, 1);
  ctx.count(&format!("corr_sign_{}", corr.signum()), 1);
  ctx.count("dead_entries", roots.iter().map(|t| t.dead.len() as u64).sum());
  ctx.sample(json!({"stage": "read", "desc": desc, "values": n}));
  Verdict::Held(hash_bytes(&file))
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases("write", ctx.n(8000, 150000), |r, _| write_case(&ctx, r));
  ctx.cases("read", ctx.n(8000, 150000), |r, _| read_case(&ctx, r, false));
  ctx.cases("bad-entries", ctx.n(8000, 150000), |r, _| read_case(&ctx, r, true));
  ctx.finish(
    "exploration",
    "one evaluation writes a random directory tree with the tool and reads it with an independent parser, or the reverse (both byte orders, base offset, correction, chains, sub-IFDs, out-of-file entries); every value compared bit for bit; distinct counts distinct files",
    &["ASCII values are judged up to their first NUL (the reader keeps the first string)", "at most three consecutive unreadable entries"],
  )
}
