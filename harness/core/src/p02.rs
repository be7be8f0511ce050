//! C02: lossless JPEG codec agrees with ITU-T T.81 process 14 in both directions.
use crate::ctx::{Ctx, Verdict, hash_bytes};
use crate::gen_img::samples;
use crate::refljpeg::{self, EncSpec};
use crate::rng::Rng;
use crate::util::diff_u16;
use rawler::decompressors::ljpeg::LjpegDecompressor;
use rawler::ljpeg92::LjpegCompressor;
use serde_json::json;

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn d(r: &mut Rng, max: usize) -> usize {
  match r.range(0, 5) {
    0 => r.range(1, 3),
    1 => r.range(1, 12),
    2 => r.range(1, max),
    _ => r.range(4, 64.min(max)),
  }
}

/// Values whose difference histogram forces very skewed (deep) Huffman trees.
fn skewed(r: &mut Rng, n: usize, bits: u32) -> Vec<u16> {
  // fibonacci-like category counts: category k occurs ~1/2^k of the time
  let mask = ((1u32 << bits) - 1) as u16;
  let mut v = Vec::with_capacity(n);
  let mut cur = 0u16;
  for _ in 0..n {
    let mut cat = 0;
    while cat < bits && r.bool() {
      cat += 1;
    }
    if cat > 0 {
      let m = (1u32 << (cat - 1)) | (r.u32() & ((1u32 << (cat - 1)) - 1));
      cur = if r.bool() { cur.wrapping_add(m as u16) } else { cur.wrapping_sub(m as u16) };
    }
    v.push(cur & mask);
  }
  v
}

/// One component whose difference categories occur with Fibonacci-like counts, which drives the
/// optimal code to (and past) the 16 bit length limit. Laid out as a single row, so that every
/// predictor degenerates to the left neighbour.
fn fibonacci(r: &mut Rng, bits: u32) -> Vec<u16> {
  let mut cats: Vec<u32> = (0..=bits.min(16)).collect();
  for i in (1..cats.len()).rev() {
    let j = r.range(0, i);
    cats.swap(i, j);
  }
  let (mut a, mut b) = (1usize, 1usize + r.range(0, 1));
  let mut diffs: Vec<u16> = vec![];
  for c in cats {
    for _ in 0..a {
      diffs.push(match c {
        0 => 0,
        16 => 0x8000,
        c => {
          let m = ((1u32 << (c - 1)) | (r.u32() & ((1u32 << (c - 1)) - 1))) as u16;
          if r.bool() { m } else { m.wrapping_neg() }
        }
      });
    }
    (a, b) = (b, a + b);
  }
  for i in (1..diffs.len()).rev() {
    let j = r.range(0, i);
    diffs.swap(i, j);
  }
  let mut cur = 1u16 << (bits - 1);
  diffs
    .into_iter()
    .map(|d| {
      cur = cur.wrapping_add(d);
      cur
    })
    .collect()
}

fn fib_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let img = fibonacci(r, 16);
  let pred = r.range(1, 7) as u8;
  let w = img.len();
  let desc = format!("fibonacci {w}x1 pred={pred}");
  let enc = match LjpegCompressor::new(&img, w, 1, 1, 16, pred, 0, 0).and_then(|e| e.encode()) {
    Ok(e) => e,
    Err(e) => return bad("encode-error", format!("{desc}: {e}")),
  };
  let f = match refljpeg::decode(&enc) {
    Ok(f) => f,
    Err(e) => return bad("enc-malformed", format!("{desc}: reference decoder: {e}")),
  };
  if let Some(e) = diff_u16(&img, &f.samples, w) {
    return bad("enc-pixels", format!("{desc}: reference decoder: {e}"));
  }
  let maxlen = f.code_lens.iter().filter_map(|b| (1..=16usize).rev().find(|l| b[*l] > 0)).max().unwrap_or(0) as u64;
  ctx.max("enc.max_code_len", maxlen);
  ctx.count(&format!("fib.max_code_len.{maxlen}"), 1);
  match own_decode(&enc, w, 1) {
    Ok(o) if o == img => {}
    Ok(_) => return bad("own-decode-pixels", desc),
    Err(e) => return bad("own-decode-error", format!("{desc}: {e}")),
  }
  Verdict::Held(hash_bytes(&enc))
}

fn content(r: &mut Rng, w: usize, h: usize, bits: u32) -> Vec<u16> {
  if r.chance(1, 5) { skewed(r, w * h, bits) } else { samples(r, w, h, bits) }
}

fn own_decode(bytes: &[u8], w: usize, h: usize) -> Result<Vec<u16>, String> {
  let dec = LjpegDecompressor::new(bytes)?;
  if dec.width() != w || dec.height() != h {
    return Err(format!("decoder reports {}x{}, expected {w}x{h}", dec.width(), dec.height()));
  }
  let mut out = vec![0u16; w * h];
  dec.decode(&mut out, 0, w, w, h, false)?;
  Ok(out)
}

fn enc_case(ctx: &Ctx, r: &mut Rng, deep: bool) -> Verdict {
  let comps = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
  let bits = *r.pick(&[16u32, 16, 14, 12, 10, 8, 2, 3, 5, 9, 11, 13, 15]);
  let pred = r.range(1, 7) as u8;
  let (w, h) = if deep { (r.range(200, 500), r.range(200, 400)) } else { (d(r, 300), d(r, 200)) };
  let pad = if r.chance(1, 3) { r.range(1, 9) } else { 0 };
  let stride = (w + pad) * comps;
  let img = if deep { skewed(r, stride * h, bits) } else { content(r, stride, h, bits) };
  let desc = format!("{w}x{h}x{comps} bits={bits} pred={pred} pad={pad}");
  let enc = match LjpegCompressor::new(&img, w, h, comps, bits as u8, pred, 0, pad).and_then(|e| e.encode()) {
    Ok(e) => e,
    Err(e) => return bad("encode-error", format!("{desc}: {e}")),
  };
  let f = match refljpeg::decode(&enc) {
    Ok(f) => f,
    Err(e) => return bad("enc-malformed", format!("{desc}: reference decoder: {e}")),
  };
  if (f.width, f.height, f.comps, f.precision, f.predictor, f.pt) != (w, h, comps, bits, pred, 0) {
    return bad(
      "enc-header",
      format!("{desc}: header says {}x{}x{} P={} pred={} pt={}", f.width, f.height, f.comps, f.precision, f.predictor, f.pt),
    );
  }
  let want: Vec<u16> = (0..h).flat_map(|y| img[y * stride..y * stride + w * comps].to_vec()).collect();
  if let Some(e) = diff_u16(&want, &f.samples, w * comps) {
    return bad("enc-pixels", format!("{desc}: reference decoder: {e}"));
  }
  if f.saw_diff_16 {
    ctx.count("enc.ssss16", 1);
  }
  let maxlen = f.code_lens.iter().filter_map(|b| (1..=16usize).rev().find(|l| b[*l] > 0)).max().unwrap_or(0) as u64;
  ctx.max("enc.max_code_len", maxlen);
  ctx.count("enc.samples", want.len() as u64);
  {
    match own_decode(&enc, w * comps, h) {
      Err(e) => return bad("own-decode-error", format!("{desc}: {e}")),
      Ok(o) => {
        if let Some(e) = diff_u16(&want, &o, w * comps) {
          return bad("own-decode-pixels", format!("{desc}: own decoder: {e}"));
        }
        ctx.count("own.samples", want.len() as u64);
      }
    }
  }
  ctx.sample(json!({"stage": "encode", "case": desc, "bytes": enc.len(), "max_code_len": maxlen}));
  Verdict::Held(hash_bytes(&enc))
}

/// Random complete-minus-one prefix code over the 17 symbols.
fn rand_lens(r: &mut Rng, long: bool) -> [u8; 17] {
  // split leaves; start with one leaf of length 1 reserved side for all-ones
  let mut leaves: Vec<u8> = vec![1, 1];
  while leaves.len() < 18 {
    let i = if long && r.chance(3, 4) { (0..leaves.len()).max_by_key(|i| if leaves[*i] < 16 { leaves[*i] } else { 0 }).unwrap() } else { r.range(0, leaves.len() - 1) };
    if leaves[i] >= 16 {
      continue;
    }
    let l = leaves.swap_remove(i);
    leaves.push(l + 1);
    leaves.push(l + 1);
  }
  // one of the longest leaves is the reserved all-ones code
  leaves.sort();
  leaves.pop();
  let mut lens = [0u8; 17];
  for l in lens.iter_mut() {
    let i = r.range(0, leaves.len() - 1);
    *l = leaves.swap_remove(i);
  }
  lens
}

fn dec_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let comps = *r.pick(&[1usize, 1, 2, 2, 3, 4]);
  let bits = r.range(2, 16) as u32;
  let pred = r.range(1, 7) as u8;
  let (w, h) = (d(r, 200), d(r, 120));
  let img = content(r, w * comps, h, bits);
  let ntab = r.range(1, 4);
  let long = r.bool();
  let spec = EncSpec {
    width: w,
    height: h,
    comps,
    precision: bits,
    predictor: pred,
    pt: 0,
    samples: &img,
    comp_table: (0..comps).map(|_| r.range(0, ntab - 1)).collect(),
    lens: (0..ntab).map(|_| rand_lens(r, long)).collect(),
    split_dht: r.bool(),
    app_segment: r.chance(1, 4).then(|| r.bytes(20).into_iter().map(|b| b & 0x7f).collect()),
    first_comp_id: r.range(0, 2) as u8,
  };
  let bytes = refljpeg::encode(&spec);
  // the reference pair must agree with itself before it judges anything
  match refljpeg::decode(&bytes) {
    Ok(f) if f.samples == img => {}
    _ => return Verdict::Skip("reference self-check failed"),
  }
  let desc = format!("{w}x{h}x{comps} bits={bits} pred={pred} tabs={ntab} sel={:?} long={long}", spec.comp_table);
  let row = w * comps;
  // whole frame
  match own_decode(&bytes, row, h) {
    Err(e) => return bad("dec-error", format!("{desc}: {e}")),
    Ok(o) => {
      if let Some(e) = diff_u16(&img, &o, row) {
        return bad("dec-pixels", format!("{desc}: {e}"));
      }
    }
  }
  // trailing garbage after EOI must not matter
  let mut tail = bytes.clone();
  tail.extend(r.bytes(16));
  match own_decode(&tail, row, h) {
    Ok(o) if o == img => {}
    Ok(_) => return bad("dec-tail-pixels", desc),
    Err(e) => return bad("dec-tail", format!("{desc}: {e}")),
  }
  // into a sub-rectangle of a bigger buffer; the rest must stay untouched
  let x = r.range(0, 9);
  let strip = x + row + r.range(0, 7);
  let mut out = vec![0xA5A5u16; strip * h];
  let dec = match LjpegDecompressor::new(&bytes) {
    Ok(d) => d,
    Err(e) => return bad("dec-error", format!("{desc}: {e}")),
  };
  let oh = r.range(1, h);
  let ow = if pred == 1 && r.chance(1, 3) { r.range(1, w) } else { w };
  if let Err(e) = dec.decode(&mut out, x, strip, ow * comps, oh, false) {
    return bad("dec-strip-error", format!("{desc}: {e}"));
  }
  for y in 0..h {
    for c in 0..strip {
      let want = if y < oh && c >= x && c < x + ow * comps { img[y * row + c - x] } else { 0xA5A5 };
      if out[y * strip + c] != want {
        return bad("dec-strip", format!("{desc}: x={x} strip={strip} out={ow}x{oh}: row {y} col {c} expected {want} got {}", out[y * strip + c]));
      }
    }
  }
  ctx.count("dec.samples", (row * h) as u64);
  ctx.max("dec.max_code_len", spec.lens.iter().flatten().copied().max().unwrap_or(0) as u64);
  ctx.sample(json!({"stage": "decode", "case": desc, "bytes": bytes.len()}));
  Verdict::Held(hash_bytes(&bytes))
}

pub fn run(ctx: Ctx) -> i32 {
  ctx.cases("encode", ctx.n(4000, 60000), |r, _| enc_case(&ctx, r, false));
  ctx.cases("encode-deep", ctx.n(40, 400), |r, _| enc_case(&ctx, r, true));
  ctx.cases("encode-fib", ctx.n(300, 3000), |r, _| fib_case(&ctx, r));
  ctx.cases("decode", ctx.n(4000, 60000), |r, _| dec_case(&ctx, r));
  ctx.finish(
    "exploration",
    "one evaluation = one frame coded by one implementation and decoded by the other (own encoder -> T.81 reference decoder and own decoder; reference encoder with random Huffman tables -> own decoder, whole frame and sub-rectangle); every sample compared; distinct = distinct bitstreams",
    &["point transform 0", "no restart intervals", "frames wider than the output only with predictor 1"],
  )
}
