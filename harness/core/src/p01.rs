//! C01: converting/writing a raw image to DNG preserves every sensor sample.
use crate::ctx::{Ctx, Verdict, hash_bytes, hash_u16};
use crate::gen_dng::{Pix, SrcOpt, gen_src};
use crate::gen_img::{GenOpt, raw_image};
use crate::refdng::{Samples, decode_raw};
use crate::reftiff::Tiff;
use crate::rng::Rng;
use crate::util::*;
use rawler::RawImageData;
use rawler::dng::DngCompression;
use serde_json::json;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn writer_case(ctx: &Ctx, r: &mut Rng, float: bool) -> Verdict {
  let opt = GenOpt {
    float,
    ..Default::default()
  };
  let (img, desc) = raw_image(r, &opt);
  let crop = *r.pick(&crop_modes());
  let comp = if float || r.bool() { DngCompression::Uncompressed } else { DngCompression::Lossless };
  let predictor = r.range(1, 7) as u8;
  let on_root = r.bool();
  let desc = format!("{desc} crop={crop:?} comp={comp:?} pred={predictor} root={on_root}");
  let bytes = match write_dng(&img, crop, comp, predictor, on_root) {
    Ok(b) => b,
    Err(e) => return bad("writer-error", format!("{desc}: writer failed: {e}")),
  };
  let t = match Tiff::parse(&bytes) {
    Ok(t) => t,
    Err(e) => return bad("unparsable", format!("{desc}: {e}")),
  };
  let Some(d) = t.raw_dir() else { return bad("no-raw-ifd", desc) };
  let dec = match decode_raw(&bytes, &t, d) {
    Ok(d) => d,
    Err(e) => return bad("ref-decode", format!("{desc}: independent decoder rejects raw data: {e}")),
  };
  if (dec.w, dec.h, dec.cpp) != (img.width, img.height, img.cpp) {
    return bad("dims", format!("{desc}: file says {}x{}x{}", dec.w, dec.h, dec.cpp));
  }
  let row = img.width * img.cpp;
  match (&img.data, &dec.samples) {
    (RawImageData::Integer(a), Samples::U(b)) => {
      if let Some(e) = diff_u16(a, b, row) {
        return bad("pixels", format!("{desc}: {e}"));
      }
    }
    (RawImageData::Float(_), Samples::F(b)) => {
      if let Some(e) = diff_u32(&fbits(&img.data).unwrap(), b, row) {
        return bad("pixels-float", format!("{desc}: {e}"));
      }
    }
    _ => return bad("sample-format", desc),
  }
  ctx.count("samples.compared.ref", (row * img.height) as u64);
  if dec.saw_diff_16 {
    ctx.count("ljpeg.diff16.seen", 1);
  }
  // the tool's own reader must agree
  match decode(&bytes) {
    Err(e) => return bad("own-decoder-rejects", format!("{desc}: {e}")),
    Ok(img2) => {
      if (img2.width, img2.height, img2.cpp) != (img.width, img.height, img.cpp) {
        return bad("own-dims", format!("{desc}: own reader says {}x{}x{}", img2.width, img2.height, img2.cpp));
      }
      let e = match (&img.data, &img2.data) {
        (RawImageData::Integer(a), RawImageData::Integer(b)) => diff_u16(a, b, row),
        (RawImageData::Float(_), RawImageData::Float(_)) => diff_u32(&fbits(&img.data).unwrap(), &fbits(&img2.data).unwrap(), row),
        _ => Some("sample type changed".into()),
      };
      if let Some(e) = e {
        return bad("own-pixels", format!("{desc}: own reader: {e}"));
      }
      ctx.count("samples.compared.own", (row * img.height) as u64);
    }
  }
  ctx.sample(json!({"stage": "writer", "case": desc, "dng_bytes": bytes.len()}));
  Verdict::Held(hash_bytes(&bytes))
}

fn convert_case(ctx: &Ctx, r: &mut Rng, float: bool) -> Verdict {
  let opt = SrcOpt {
    float,
    ..Default::default()
  };
  let s = gen_src(r, &opt);
  let mut p = params(r);
  if float {
    p.compression = DngCompression::Uncompressed;
  }
  let desc = format!("{} -> {:?} crop={:?} pred={} emb={} thumb={} prev={}", s.desc, p.compression, p.crop, p.predictor, p.embedded, p.thumbnail, p.preview);
  let row = s.w * s.cpp;
  let own = match decode(&s.bytes) {
    Ok(i) => i,
    Err(e) => return bad("source-rejected", format!("{desc}: {e}")),
  };
  let e = match (&s.pix, &own.data) {
    (Pix::U(a), RawImageData::Integer(b)) => diff_u16(a, b, row),
    (Pix::F(a), RawImageData::Float(_)) => diff_u32(a, &fbits(&own.data).unwrap(), row),
    _ => Some("sample type changed".into()),
  };
  if let Some(e) = e {
    return bad("source-decode", format!("{desc}: decoding the source: {e}"));
  }
  let out = match convert(&s.bytes, "src.dng", &p) {
    Ok(o) => o,
    Err(e) => return bad("convert-error", format!("{desc}: {e}")),
  };
  let t = match Tiff::parse(&out) {
    Ok(t) => t,
    Err(e) => return bad("unparsable", format!("{desc}: {e}")),
  };
  let Some(d) = t.raw_dir() else { return bad("no-raw-ifd", desc) };
  let dec = match decode_raw(&out, &t, d) {
    Ok(d) => d,
    Err(e) => return bad("ref-decode", format!("{desc}: independent decoder rejects raw data: {e}")),
  };
  if (dec.w, dec.h, dec.cpp) != (s.w, s.h, s.cpp) {
    return bad("dims", format!("{desc}: file says {}x{}x{}", dec.w, dec.h, dec.cpp));
  }
  let e = match (&s.pix, &dec.samples) {
    (Pix::U(a), Samples::U(b)) => diff_u16(a, b, row),
    (Pix::F(a), Samples::F(b)) => diff_u32(a, b, row),
    _ => Some("sample format changed".into()),
  };
  if let Some(e) = e {
    return bad("pixels", format!("{desc}: {e}"));
  }
  match decode(&out) {
    Err(e) => return bad("own-decoder-rejects", format!("{desc}: {e}")),
    Ok(img2) => {
      let e = match (&s.pix, &img2.data) {
        (Pix::U(a), RawImageData::Integer(b)) => diff_u16(a, b, row),
        (Pix::F(a), RawImageData::Float(_)) => diff_u32(a, &fbits(&img2.data).unwrap(), row),
        _ => Some("sample type changed".into()),
      };
      if let Some(e) = e {
        return bad("own-pixels", format!("{desc}: own reader: {e}"));
      }
    }
  }
  ctx.count("samples.compared.convert", (row * s.h) as u64);
  ctx.count(&format!("convert.src.comp{}.{}", s.comp, if s.tiled { "tiles" } else { "strips" }), 1);
  ctx.sample(json!({"stage": "convert", "case": desc}));
  Verdict::Held(match &s.pix {
    Pix::U(v) => hash_u16(v),
    Pix::F(v) => v.iter().fold(7, |a, b| (a ^ *b as u64).wrapping_mul(0x100000001b3)),
  } ^ hash_bytes(desc.as_bytes()))
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases("writer", ctx.n(5000, 60000), |r, _| writer_case(&ctx, r, false));
  ctx.cases("writer-float", ctx.n(900, 9000), |r, _| writer_case(&ctx, r, true));
  ctx.cases("convert", ctx.n(4000, 45000), |r, _| convert_case(&ctx, r, false));
  ctx.cases("convert-float", ctx.n(900, 9000), |r, _| convert_case(&ctx, r, true));
  ctx.finish(
    "exploration",
    "one evaluation = one raw image written/converted to DNG by the real code and every stored sample re-read by an independent TIFF+LJPEG-92 decoder (and by rawler itself); distinct = distinct output byte strings / (source, parameters)",
    &["samples are within the declared bit depth", "sub-byte packed source rows fill whole bytes", "float data is checked for uncompressed output (LJPEG cannot hold floats)"],
  )
}
