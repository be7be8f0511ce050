//! Reference interpretation of a DNG raw IFD (samples and photometric tags) by the DNG spec.
use crate::refljpeg;
use crate::reftiff::{Dir, Tiff};

#[derive(Debug, Clone, PartialEq)]
pub enum Samples {
  U(Vec<u16>),
  F(Vec<u32>), // f32 bit patterns
}

pub struct RawDec {
  pub w: usize,
  pub h: usize,
  pub cpp: usize,
  pub bps: u32,
  pub samples: Samples,
  pub saw_diff_16: bool,
}

fn unpack(src: &[u8], n: usize, bits: u32, be: bool) -> Result<Vec<u16>, String> {
  match bits {
    16 => {
      if src.len() < n * 2 {
        return Err(format!("short 16 bit row: {} < {}", src.len(), n * 2));
      }
      Ok(
        (0..n)
          .map(|i| {
            let b = [src[2 * i], src[2 * i + 1]];
            if be { u16::from_be_bytes(b) } else { u16::from_le_bytes(b) }
          })
          .collect(),
      )
    }
    _ => {
      let mut out = vec![];
      let mut pos = 0usize;
      for _ in 0..n {
        let mut v = 0u16;
        for _ in 0..bits {
          let byte = *src.get(pos / 8).ok_or("short packed row")?;
          v = (v << 1) | ((byte >> (7 - pos % 8)) & 1) as u16;
          pos += 1;
        }
        out.push(v);
      }
      Ok(out)
    }
  }
}

pub fn decode_raw(buf: &[u8], t: &Tiff, d: &Dir) -> Result<RawDec, String> {
  let w = d.u(256).ok_or("no width")? as usize;
  let h = d.u(257).ok_or("no height")? as usize;
  let cpp = d.u(277).unwrap_or(1) as usize;
  let bits = d.get(258).ok_or("no BitsPerSample")?.uints();
  if bits.len() != cpp {
    return Err(format!("BitsPerSample count {} != SamplesPerPixel {}", bits.len(), cpp));
  }
  if bits.iter().any(|b| *b != bits[0]) {
    return Err("mixed BitsPerSample".into());
  }
  let bps = bits[0];
  let comp = d.u(259).ok_or("no Compression")?;
  let fmt = match d.get(339) {
    Some(e) => {
      if e.count as usize != cpp {
        return Err(format!("SampleFormat count {} != {}", e.count, cpp));
      }
      e.uint(0).unwrap_or(1)
    }
    None => 1,
  };
  if d.u(284).unwrap_or(1) != 1 {
    return Err("planar".into());
  }
  let tiled = d.get(324).is_some();
  let (cw, ch, offs, cnts) = if tiled {
    (
      d.u(322).ok_or("no TileWidth")? as usize,
      d.u(323).ok_or("no TileLength")? as usize,
      d.get(324).unwrap().uints(),
      d.get(325).ok_or("no TileByteCounts")?.uints(),
    )
  } else {
    (
      w,
      // RowsPerStrip is a single value by TIFF 6; rawler writes one per strip, the first counts
      (d.u(278).unwrap_or(h as u32) as usize).min(h.max(1)),
      d.get(273).ok_or("no StripOffsets")?.uints(),
      d.get(279).ok_or("no StripByteCounts")?.uints(),
    )
  };
  if cw == 0 || ch == 0 {
    return Err("zero chunk dims".into());
  }
  let (across, down) = (w.div_ceil(cw), h.div_ceil(ch));
  if offs.len() != across * down || cnts.len() != offs.len() {
    return Err(format!("expected {}x{} chunks, file has {} offsets / {} counts", across, down, offs.len(), cnts.len()));
  }
  let mut out_u = vec![0u16; if fmt == 3 { 0 } else { w * h * cpp }];
  let mut out_f = vec![0u32; if fmt == 3 { w * h * cpp } else { 0 }];
  let mut saw16 = false;
  for ty in 0..down {
    for tx in 0..across {
      let k = ty * across + tx;
      let src = buf.get(offs[k] as usize..offs[k] as usize + cnts[k] as usize).ok_or("chunk beyond EOF")?;
      let rows = if tiled { ch } else { ch.min(h - ty * ch) };
      let row_samples = cw * cpp;
      let lin: Vec<u32> = match (comp, fmt) {
        (1, 1) => {
          let rb = (row_samples * bps as usize).div_ceil(8);
          if src.len() != rb * rows {
            return Err(format!("chunk {k}: {} bytes, expected {} ({} rows of {} bytes)", src.len(), rb * rows, rows, rb));
          }
          let mut v = vec![];
          for r in 0..rows {
            v.extend(unpack(&src[r * rb..(r + 1) * rb], row_samples, bps, t.be)?.into_iter().map(|x| x as u32));
          }
          v
        }
        (1, 3) if bps == 32 => {
          if src.len() != row_samples * rows * 4 {
            return Err(format!("chunk {k}: {} bytes, expected {}", src.len(), row_samples * rows * 4));
          }
          src
            .chunks(4)
            .map(|c| {
              let b = [c[0], c[1], c[2], c[3]];
              if t.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) }
            })
            .collect()
        }
        (7, 1) => {
          if bps == 8 && matches!(d.u(262), Some(1) | Some(6)) {
            return Err("8 bit BlackIsZero/YCbCr with compression 7 must be baseline DCT (DNG)".into());
          }
          let f = refljpeg::decode(src).map_err(|e| format!("chunk {k}: ljpeg: {e}"))?;
          if f.samples.len() != row_samples * rows {
            return Err(format!("chunk {k}: ljpeg has {} samples, expected {}", f.samples.len(), row_samples * rows));
          }
          if f.precision != bps {
            return Err(format!("chunk {k}: ljpeg precision {} != BitsPerSample {}", f.precision, bps));
          }
          saw16 |= f.saw_diff_16;
          f.samples.into_iter().map(|x| x as u32).collect()
        }
        x => return Err(format!("unsupported compression/format {x:?}")),
      };
      for r in 0..rows {
        let y = ty * ch + r;
        if y >= h {
          break;
        }
        let x0 = tx * cw;
        let n = cw.min(w - x0) * cpp;
        for i in 0..n {
          let v = lin[r * row_samples + i];
          if fmt == 3 {
            out_f[y * w * cpp + x0 * cpp + i] = v;
          } else {
            out_u[y * w * cpp + x0 * cpp + i] = v as u16;
          }
        }
      }
    }
  }
  Ok(RawDec {
    w,
    h,
    cpp,
    bps,
    samples: if fmt == 3 { Samples::F(out_f) } else { Samples::U(out_u) },
    saw_diff_16: saw16,
  })
}
