//! Thin helpers around the code under test.
use crate::rng::Rng;
use rawler::dng::convert::ConvertParams;
use rawler::dng::writer::DngWriter;
use rawler::dng::{CropMode, DNG_VERSION_V1_4, DngCompression, DngPhotometricConversion};
use rawler::rawsource::RawSource;
use rawler::{RawImage, RawImageData};
use std::io::Cursor;

pub fn write_dng(img: &RawImage, crop: CropMode, comp: DngCompression, predictor: u8, on_root: bool) -> Result<Vec<u8>, String> {
  let mut buf = Cursor::new(Vec::new());
  let mut dng = DngWriter::new(&mut buf, DNG_VERSION_V1_4).map_err(|e| e.to_string())?;
  let mut raw = if on_root { dng.subframe_on_root(0) } else { dng.subframe(0) };
  raw
    .raw_image(img, crop, comp, DngPhotometricConversion::Original, predictor)
    .map_err(|e| e.to_string())?;
  raw.finalize().map_err(|e| e.to_string())?;
  dng.load_base_tags(img).map_err(|e| e.to_string())?;
  dng.close().map_err(|e| e.to_string())?;
  Ok(buf.into_inner())
}

pub fn decode(bytes: &[u8]) -> Result<RawImage, String> {
  let src = RawSource::new_from_slice(bytes);
  rawler::decode(&src, &rawler::decoders::RawDecodeParams::default()).map_err(|e| format!("{e:?}"))
}

pub fn convert(bytes: &[u8], name: &str, p: &ConvertParams) -> Result<Vec<u8>, String> {
  let src = RawSource::new_from_slice(bytes);
  let mut out = Cursor::new(Vec::new());
  rawler::dng::convert::convert_raw_source(&src, &mut out, name, p).map_err(|e| format!("{e:?}"))?;
  Ok(out.into_inner())
}

pub fn crop_modes() -> [CropMode; 3] {
  [CropMode::Best, CropMode::ActiveArea, CropMode::None]
}

pub fn params(r: &mut Rng) -> ConvertParams {
  ConvertParams {
    embedded: r.bool(),
    compression: if r.bool() { DngCompression::Lossless } else { DngCompression::Uncompressed },
    photometric_conversion: DngPhotometricConversion::Original,
    apply_scaling: false,
    crop: *r.pick(&crop_modes()),
    predictor: r.range(1, 7) as u8,
    preview: r.chance(1, 4),
    thumbnail: r.chance(1, 2),
    artist: None,
    software: "vmon".into(),
    index: 0,
    keep_mtime: false,
  }
}

pub fn diff_u16(a: &[u16], b: &[u16], row: usize) -> Option<String> {
  if a.len() != b.len() {
    return Some(format!("sample count {} != {}", a.len(), b.len()));
  }
  let bad: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
  bad.first().map(|i| {
    format!(
      "{} of {} samples differ, first at row {} col {}: expected {} got {}",
      bad.len(),
      a.len(),
      i / row.max(1),
      i % row.max(1),
      a[*i],
      b[*i]
    )
  })
}

pub fn diff_u32(a: &[u32], b: &[u32], row: usize) -> Option<String> {
  if a.len() != b.len() {
    return Some(format!("sample count {} != {}", a.len(), b.len()));
  }
  let bad: Vec<usize> = (0..a.len()).filter(|i| a[*i] != b[*i]).collect();
  bad.first().map(|i| {
    format!(
      "{} of {} samples differ, first at row {} col {}: expected {:#x} got {:#x}",
      bad.len(),
      a.len(),
      i / row.max(1),
      i % row.max(1),
      a[*i],
      b[*i]
    )
  })
}

pub fn fbits(d: &RawImageData) -> Option<Vec<u32>> {
  match d {
    RawImageData::Float(v) => Some(v.iter().map(|x| x.to_bits()).collect()),
    _ => None,
  }
}

pub fn ints(d: &RawImageData) -> Option<&[u16]> {
  match d {
    RawImageData::Integer(v) => Some(v),
    _ => None,
  }
}

/// Order- and offset-independent view of a TIFF/DNG: every tag of every directory plus a hash of the
/// image data. Software and DateTime (tool name, time of conversion) are left out.
pub fn canon(buf: &[u8]) -> Result<std::collections::BTreeMap<String, u64>, String> {
  use crate::ctx::hash_bytes;
  use crate::reftiff::{Dir, Tiff};
  fn rec(buf: &[u8], path: String, d: &Dir, m: &mut std::collections::BTreeMap<String, u64>) -> Result<(), String> {
    for (t, e) in &d.ents {
      if matches!(t, 305 | 306 | 273 | 324 | 330 | 34665 | 34853) {
        continue;
      }
      m.insert(format!("{path}/{t}"), hash_bytes(&e.data) ^ ((e.typ as u64) << 32 | e.count as u64));
    }
    for (o, c) in [(273, 279), (324, 325)] {
      if let (Some(o), Some(c)) = (d.get(o), d.get(c)) {
        for (k, (o, c)) in o.uints().iter().zip(c.uints()).enumerate() {
          let b = buf.get(*o as usize..*o as usize + c as usize).ok_or("image data outside the file")?;
          m.insert(format!("{path}/data{k}"), hash_bytes(b));
        }
      }
    }
    for (t, v) in &d.subs {
      for (k, s) in v.iter().enumerate() {
        rec(buf, format!("{path}/{t}[{k}]"), s, m)?;
      }
    }
    Ok(())
  }
  let t = Tiff::parse(buf)?;
  if !t.problems.is_empty() {
    return Err(t.problems.join("; "));
  }
  let mut m = Default::default();
  for (k, d) in t.dirs.iter().enumerate() {
    rec(buf, format!("IFD{k}"), d, &mut m)?;
  }
  Ok(m)
}

/// Difference of two files in the `canon` view.
pub fn canon_diff(a: &[u8], b: &[u8]) -> Option<String> {
  match (canon(a), canon(b)) {
    (Ok(x), Ok(y)) => {
      if x == y {
        return None;
      }
      let d: Vec<&String> = x.iter().filter(|(k, v)| y.get(*k) != Some(*v)).map(|(k, _)| k).chain(y.keys().filter(|k| !x.contains_key(*k))).take(8).collect();
      Some(format!("differences at {d:?}"))
    }
    (Err(e), _) | (_, Err(e)) => Some(e),
  }
}
