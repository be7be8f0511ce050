//! C04: embedded original is restored byte for byte; C05: altered embedded originals are never accepted.
use crate::ctx::{Ctx, Verdict, hash_bytes};
use crate::gen_dng::{SrcOpt, gen_src};
use crate::reftiff::Tiff;
use crate::rng::Rng;
use crate::util::*;
use rawler::dng::original::OriginalCompressed;
use serde_json::json;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

const BLK: usize = 65536;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn be32(b: &[u8], o: usize) -> Result<u32, String> {
  b.get(o..o + 4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]])).ok_or(format!("fork data truncated at {o}"))
}

/// Independent reading of OriginalRawFileData by the DNG specification.
pub fn ref_unpack(blob: &[u8]) -> Result<Vec<u8>, String> {
  let n = be32(blob, 0)? as usize;
  let blocks = n.div_ceil(BLK);
  let mut idx = vec![];
  for i in 0..=blocks {
    idx.push(be32(blob, 4 + 4 * i)? as usize);
  }
  let mut out = Vec::with_capacity(n);
  if idx[0] != 4 + 4 * (blocks + 1) {
    return Err(format!("first block offset {} should follow the index ({})", idx[0], 4 + 4 * (blocks + 1)));
  }
  for i in 0..blocks {
    let src = blob.get(idx[i]..idx[i + 1]).ok_or(format!("block {i} [{}..{}) out of range", idx[i], idx[i + 1]))?;
    let mut dec = libflate::zlib::Decoder::new(src).map_err(|e| format!("block {i}: {e}"))?;
    let mut v = vec![];
    dec.read_to_end(&mut v).map_err(|e| format!("block {i}: {e}"))?;
    let want = BLK.min(n - i * BLK);
    if v.len() != want {
      return Err(format!("block {i} holds {} bytes, expected {want}", v.len()));
    }
    out.extend(v);
  }
  // the seven remaining forks must be present and empty
  let mut p = idx[blocks];
  for f in 1..8 {
    let z = be32(blob, p)?;
    if z != 0 {
      return Err(format!("fork {f} has unexpected size {z}"));
    }
    p += 4;
  }
  if p != blob.len() {
    return Err(format!("{} trailing bytes", blob.len() - p));
  }
  Ok(out)
}

/// Independent writer with varying compression of the blocks
fn ref_pack(r: &mut Rng, data: &[u8]) -> Vec<u8> {
  let blocks: Vec<Vec<u8>> = data
    .chunks(BLK)
    .map(|c| {
      let opt = libflate::zlib::EncodeOptions::new();
      let opt = match r.range(0, 2) {
        0 => opt.no_compression(),
        1 => opt.fixed_huffman_codes(),
        _ => opt,
      };
      let mut e = libflate::zlib::Encoder::with_options(Vec::new(), opt).unwrap();
      e.write_all(c).unwrap();
      e.finish().into_result().unwrap()
    })
    .collect();
  let mut out = (data.len() as u32).to_be_bytes().to_vec();
  let mut p = 4 + 4 * (blocks.len() as u32 + 1);
  out.extend(p.to_be_bytes());
  for b in &blocks {
    p += b.len() as u32;
    out.extend(p.to_be_bytes());
  }
  for b in &blocks {
    out.extend(b);
  }
  out.extend([0u8; 28]);
  out
}

fn content(r: &mut Rng, n: usize) -> Vec<u8> {
  match r.range(0, 4) {
    0 => r.bytes(n),
    1 => vec![r.u8(); n],
    2 => (0..n).map(|i| (i / 3 % 251) as u8).collect(),
    3 => {
      let mut v = vec![0u8; n];
      for _ in 0..r.range(0, 50) {
        if n > 0 {
          let i = r.range(0, n - 1);
          v[i] = r.u8();
        }
      }
      v
    }
    _ => {
      // block-position coded: reordering or duplicating blocks is visible
      (0..n).map(|i| ((i / BLK) as u8).wrapping_mul(17) ^ (i % 253) as u8).collect()
    }
  }
}

fn size(r: &mut Rng, max_blocks: usize) -> usize {
  match r.range(0, 7) {
    0 => r.range(0, 3),
    1 => r.range(1, 5000),
    2 => BLK * r.range(1, max_blocks),
    3 => BLK * r.range(1, max_blocks) - 1,
    4 => BLK * r.range(1, max_blocks) + 1,
    5 => r.range(1, BLK),
    _ => r.range(0, max_blocks * BLK),
  }
}

/// Reader that delivers short reads
struct Drip<R> {
  inner: R,
  rng: Rng,
}
impl<R: Read> Read for Drip<R> {
  fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
    if buf.is_empty() {
      return Ok(0);
    }
    if self.rng.chance(1, 10) {
      return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "EINTR"));
    }
    let n = self.rng.range(1, buf.len().min(9000));
    self.inner.read(&mut buf[..n])
  }
}
impl<R: Seek> Seek for Drip<R> {
  fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
    self.inner.seek(p)
  }
}

fn blob_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let n = size(r, if ctx.thorough() { 40 } else { 12 });
  let data = content(r, n);
  let skip = if r.chance(1, 3) { r.range(1, 2000) } else { 0 };
  let mut file = r.bytes(skip);
  file.extend(&data);
  let desc = format!("{n} bytes, stream starts at {skip}");
  let mut src = Drip { inner: Cursor::new(file), rng: Rng::new(r.u64()) };
  src.seek(SeekFrom::Start(skip as u64)).unwrap();
  let oc = match OriginalCompressed::compress(&mut src) {
    Ok(o) => o,
    Err(e) => return bad("compress-error", format!("{desc}: {e}")),
  };
  let md5: [u8; 16] = md5::compute(&data).into();
  if oc.digest() != Some(md5) {
    return bad("digest", format!("{desc}: digest is not the MD5 of the file"));
  }
  let mut blob = vec![];
  if let Err(e) = oc.write_to_stream(&mut blob) {
    return bad("write-error", format!("{desc}: {e}"));
  }
  match ref_unpack(&blob) {
    Err(e) => return bad("ref-unpack", format!("{desc}: independent reader: {e}")),
    Ok(d) => {
      if d != data {
        return bad("content", format!("{desc}: independent reader restores different bytes"));
      }
    }
  }
  // own reader, also of blobs written by someone else, at an arbitrary stream position
  for (what, blob) in [("own", blob), ("foreign", ref_pack(r, &data))] {
    let pad = r.range(0, 100);
    let mut f = r.bytes(pad);
    f.extend(&blob);
    let mut c = Drip { inner: Cursor::new(f), rng: Rng::new(r.u64()) };
    c.seek(SeekFrom::Start(pad as u64)).unwrap();
    let o2 = match OriginalCompressed::new(&mut c, Some(md5)) {
      Ok(o) => o,
      Err(e) => return bad("own-read", format!("{desc} {what}: {e}")),
    };
    for verify in [true, false] {
      let mut out = vec![];
      match o2.decompress(&mut out, verify) {
        Err(e) => return bad("own-decompress", format!("{desc} {what} verify={verify}: {e}")),
        Ok(k) => {
          if out != data {
            return bad("own-content", format!("{desc} {what}: restored {} bytes differ from the original", out.len()));
          }
          if k != data.len() {
            return bad("own-size", format!("{desc} {what}: reported {k} bytes for {}", data.len()));
          }
        }
      }
    }
  }
  ctx.count("blocks", n.div_ceil(BLK) as u64);
  ctx.sample(json!({"stage": "blob", "case": desc}));
  Verdict::Held(hash_bytes(&data) ^ skip as u64)
}

fn convert_case(ctx: &Ctx, r: &mut Rng, via_file: bool) -> Verdict {
  let big = r.chance(1, 4);
  let s = gen_src(r, &SrcOpt { big, ..Default::default() });
  let mut src = s.bytes.clone();
  // trailing bytes after the TIFF structure belong to the file too
  if r.bool() {
    let n = size(r, 4);
    let b = content(r, n);
    src.extend(b);
  }
  let mut p = params(r);
  p.embedded = r.chance(5, 6);
  let name = *r.pick(&["IMG_0001.CR2", "a.dng", "foto \u{e4}\u{fc}.NEF", "x y z.ARW", "\u{5199}\u{771f}.dng"]);
  let desc = format!("{} name={name} emb={} file={via_file}", s.desc, p.embedded);
  let out = if via_file {
    let dir = std::env::temp_dir().join(format!("vmon-c04-{}-{:x}", std::process::id(), r.u64()));
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(name);
    std::fs::write(&path, &src).unwrap();
    let mut o = Cursor::new(vec![]);
    let res = rawler::dng::convert::convert_raw_file(&path, &mut o, &p);
    let after = std::fs::read(&path);
    let _ = std::fs::remove_dir_all(&dir);
    if after.ok().as_deref() != Some(&src[..]) {
      return bad("source-changed", format!("{desc}: the source file was modified"));
    }
    match res {
      Ok(_) => o.into_inner(),
      Err(e) => return bad("convert-error", format!("{desc}: {e:?}")),
    }
  } else {
    match convert(&src, name, &p) {
      Ok(o) => o,
      Err(e) => return bad("convert-error", format!("{desc}: {e}")),
    }
  };
  let t = match Tiff::parse(&out) {
    Ok(t) => t,
    Err(e) => return bad("unparsable", format!("{desc}: {e}")),
  };
  let root = &t.dirs[0];
  let (fd, fname, fdig) = (root.get(50828), root.get(50827), root.get(50973));
  if !p.embedded {
    if fd.is_some() || fdig.is_some() {
      return bad("not-asked", format!("{desc}: original embedded although not requested"));
    }
    return Verdict::Held(hash_bytes(desc.as_bytes()));
  }
  let (Some(fd), Some(fname), Some(fdig)) = (fd, fname, fdig) else {
    return bad("missing", format!("{desc}: embedded original, name or digest tag missing"));
  };
  let got_name = String::from_utf8_lossy(&fname.data).trim_end_matches('\0').to_string();
  if got_name != name {
    return bad("name", format!("{desc}: stored name '{got_name}'"));
  }
  match ref_unpack(&fd.data) {
    Err(e) => return bad("ref-unpack", format!("{desc}: {e}")),
    Ok(d) => {
      if d != src {
        return bad("content", format!("{desc}: embedded file differs from the source ({} vs {} bytes)", d.len(), src.len()));
      }
    }
  }
  let md5: [u8; 16] = md5::compute(&src).into();
  if fdig.data != md5 {
    return bad("digest", format!("{desc}: OriginalRawFileDigest {:x?}", fdig.data));
  }
  let o2 = OriginalCompressed::new(&mut Cursor::new(&fd.data), Some(md5));
  let mut back = vec![];
  match o2.and_then(|o| o.decompress(&mut back, true)) {
    Ok(_) if back == src => {}
    Ok(_) => return bad("own-content", format!("{desc}: own extraction differs")),
    Err(e) => return bad("own-decompress", format!("{desc}: {e}")),
  }
  ctx.count("embedded.bytes", src.len() as u64);
  Verdict::Held(hash_bytes(&src))
}

pub fn run04(ctx: Ctx) -> i32 {
  ctx.cases("blob", ctx.n(1200, 12000), |r, _| blob_case(&ctx, r));
  ctx.cases("convert", ctx.n(1200, 14000), |r, _| convert_case(&ctx, r, false));
  ctx.cases("convert-file", ctx.n(500, 6000), |r, _| convert_case(&ctx, r, true));
  ctx.finish(
    "exploration",
    "one evaluation = one file embedded by the real code, unpacked by an independent reader of the DNG fork format and by rawler, all bytes and the MD5 compared; distinct = distinct file contents",
    &["libflate's inflater is trusted by the independent reader", "files below 4 GiB"],
  )
}

// ------------------------------------------------------------------------------------------------
// C05

fn tamper(r: &mut Rng, blob: &mut Vec<u8>, digest: &mut Option<[u8; 16]>, n: usize) -> String {
  let blocks = n.div_ceil(BLK);
  let hdr = 4 + 4 * (blocks + 1);
  let idx = |b: &[u8], i: usize| be32(b, 4 + 4 * i).unwrap() as usize;
  match r.range(0, 9) {
    0 if blob.len() > hdr + 28 => {
      let i = r.range(hdr, blob.len() - 29);
      let bit = 1 << r.range(0, 7);
      blob[i] ^= bit;
      format!("bit {bit:#x} of block byte {i} flipped")
    }
    1 => {
      let i = r.range(0, hdr - 1);
      let bit = 1 << r.range(0, 7);
      blob[i] ^= bit;
      format!("bit {bit:#x} of header byte {i} flipped")
    }
    2 => {
      let mut d = digest.unwrap();
      d[r.range(0, 15)] ^= 1 << r.range(0, 7);
      *digest = Some(d);
      "digest bit flipped".into()
    }
    3 => {
      *digest = None;
      "digest missing".into()
    }
    4 => {
      let k = r.range(0, blob.len() - 1);
      blob.truncate(k);
      format!("truncated to {k}")
    }
    5 if blocks >= 2 => {
      // exchange two blocks: content permuted, sizes consistent
      let mut parts: Vec<Vec<u8>> = (0..blocks).map(|i| blob[idx(blob, i)..idx(blob, i + 1)].to_vec()).collect();
      let (a, b) = (r.range(0, blocks - 1), r.range(0, blocks - 1));
      parts.swap(a, b);
      rebuild(blob, n, &parts);
      format!("blocks {a} and {b} exchanged")
    }
    6 if blocks >= 2 => {
      let mut parts: Vec<Vec<u8>> = (0..blocks).map(|i| blob[idx(blob, i)..idx(blob, i + 1)].to_vec()).collect();
      let k = r.range(0, blocks - 1);
      parts.remove(k);
      let m = n.saturating_sub(BLK).max((parts.len() - 1) * BLK + 1);
      rebuild(blob, m, &parts);
      format!("block {k} dropped, size {m}")
    }
    7 => {
      let m = if r.bool() { n.saturating_sub(r.range(1, 3)) } else { n + r.range(1, 3) };
      blob[0..4].copy_from_slice(&(m as u32).to_be_bytes());
      format!("size field {m}")
    }
    8 if blocks >= 1 => {
      // a block replaced by a valid stream of other content
      let mut parts: Vec<Vec<u8>> = (0..blocks).map(|i| blob[idx(blob, i)..idx(blob, i + 1)].to_vec()).collect();
      let k = r.range(0, blocks - 1);
      let m = r.range(0, BLK);
      let b = r.bytes(m);
      let mut e = libflate::zlib::Encoder::new(Vec::new()).unwrap();
      e.write_all(&b).unwrap();
      parts[k] = e.finish().into_result().unwrap();
      rebuild(blob, n, &parts);
      format!("block {k} replaced by {m} other bytes")
    }
    _ => {
      let i = r.range(0, blob.len() - 1);
      blob[i] = blob[i].wrapping_add(r.range(1, 255) as u8);
      format!("byte {i} changed")
    }
  }
}

fn rebuild(blob: &mut Vec<u8>, n: usize, parts: &[Vec<u8>]) {
  let mut out = (n as u32).to_be_bytes().to_vec();
  let mut p = 4 + 4 * (parts.len() as u32 + 1);
  out.extend(p.to_be_bytes());
  for b in parts {
    p += b.len() as u32;
    out.extend(p.to_be_bytes());
  }
  for b in parts {
    out.extend(b);
  }
  out.extend([0u8; 28]);
  *blob = out;
}

fn tamper_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let n = size(r, 5);
  let data = content(r, n);
  let md5: [u8; 16] = md5::compute(&data).into();
  let mut blob = if r.bool() {
    ref_pack(r, &data)
  } else {
    let oc = OriginalCompressed::compress(&mut Cursor::new(&data)).unwrap();
    let mut b = vec![];
    oc.write_to_stream(&mut b).unwrap();
    b
  };
  let mut digest = Some(md5);
  let what = tamper(r, &mut blob, &mut digest, n);
  let desc = format!("{n} bytes, {what}");
  // header damage may announce gigabytes; such inputs are out of scope of this monitor
  if blob.len() >= 4 {
    let m = be32(&blob, 0).unwrap() as usize;
    let blocks = m.div_ceil(BLK);
    for i in 0..=blocks.min(200) {
      if let Ok(x) = be32(&blob, 4 + 4 * i) {
        if x as usize > blob.len() + (64 << 20) {
          return Verdict::Skip("offsets beyond 64 MiB");
        }
      }
    }
  }
  let oc = match OriginalCompressed::new(&mut Cursor::new(&blob), digest) {
    Ok(o) => o,
    Err(_) => {
      ctx.count("rejected.structure", 1);
      return Verdict::Held(hash_bytes(desc.as_bytes()));
    }
  };
  let mut out = vec![];
  match oc.decompress(&mut out, true) {
    Ok(_) => {
      let d: [u8; 16] = md5::compute(&out).into();
      if out != data {
        return bad("accepted-wrong-content", format!("{desc}: extraction with verification succeeded but yields {} other bytes", out.len()));
      }
      if Some(d) != digest {
        return bad("accepted-wrong-digest", format!("{desc}: extraction with verification succeeded although the digest does not match"));
      }
      ctx.count("harmless", 1);
    }
    Err(_) => ctx.count("rejected.content", 1),
  }
  // without verification undamaged blocks still come out, and a digest mismatch alone is no error
  if what.starts_with("digest") {
    let mut out = vec![];
    match oc.decompress(&mut out, false) {
      Ok(_) if out == data => {}
      Ok(_) => return bad("skip-checks-content", format!("{desc}: content differs without verification")),
      Err(e) => return bad("skip-checks-error", format!("{desc}: extraction fails although checks are disabled: {e}")),
    }
    ctx.count("skip-checks", 1);
  }
  ctx.sample(json!({"case": desc}));
  Verdict::Held(hash_bytes(desc.as_bytes()))
}

pub fn run05(ctx: Ctx) -> i32 {
  ctx.cases("tamper", ctx.n(5000, 60000), |r, _| tamper_case(&ctx, r));
  ctx.finish(
    "fault_enumeration",
    "one evaluation = one embedded original altered in one way (bit flips, exchanged, dropped, replaced blocks, size, index, digest, truncation) and extracted with verification; the oracle accepts only an error or the exact original content with matching digest",
    &["MD5 collisions are not constructed"],
  )
}
