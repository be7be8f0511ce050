//! C25: analyze reports what the file holds. C26: makedng assembles a DNG from mapped inputs.
use crate::cli::*;
use crate::ctx::{Ctx, Verdict, hash_bytes, hash_str};
use crate::gen_dng::{Pix, Src, SrcOpt, gen_src};
use crate::gen_img::Photo;
use crate::p08;
use crate::p15::dev_src;
use crate::p16::damage;
use crate::refdng::{Samples, decode_raw};
use crate::reftiff::{BO, Dir, Tiff, WDir};
use crate::rng::Rng;
use crate::util::*;
use image::{DynamicImage, ImageBuffer, ImageFormat};
use rawler::dng::convert::ConvertParams;
use serde_json::{Value, json};
use std::ffi::OsString;
use std::io::Cursor;
use std::path::{Path, PathBuf};

fn bad(sig: &str, d: String) -> Verdict {
  Verdict::Bad(sig.into(), d)
}

fn rat(v: &Value) -> Option<f64> {
  match v {
    Value::Number(n) => n.as_f64(),
    Value::String(s) => {
      let (a, b) = s.split_once('/')?;
      Some(a.parse::<f64>().ok()? / b.parse::<f64>().ok()?)
    }
    Value::Array(a) if a.len() == 2 => Some(a[0].as_f64()? / a[1].as_f64()?),
    Value::Object(o) => Some(o.get("n")?.as_f64()? / o.get("d")?.as_f64()?),
    _ => None,
  }
}

fn netpbm(b: &[u8]) -> Result<(String, usize, usize, u32, &[u8]), String> {
  // header fields separated by white space, one white space before the data
  let mut f = vec![];
  let mut i = 0;
  while f.len() < 4 {
    let s = i;
    while i < b.len() && !b[i].is_ascii_whitespace() {
      i += 1;
    }
    if i >= b.len() || i == s {
      return Err("bad netpbm header".into());
    }
    f.push(String::from_utf8_lossy(&b[s..i]).into_owned());
    i += 1;
  }
  let n = |s: &str| s.parse::<usize>().map_err(|_| format!("bad header field {s:?}"));
  Ok((f[0].clone(), n(&f[1])?, n(&f[2])?, n(&f[3])? as u32, &b[i..]))
}

fn be16(b: &[u8]) -> Vec<u16> {
  b.chunks_exact(2).map(|c| u16::from_be_bytes([c[0], c[1]])).collect()
}

fn le_bytes(p: &Pix) -> Vec<u8> {
  match p {
    Pix::U(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
    Pix::F(v) => v.iter().flat_map(|x| x.to_le_bytes()).collect(),
  }
}

/// (samples, width, height) of the RGB image of a directory, uncompressed strips
fn rgb_strip(buf: &[u8], d: &Dir) -> Option<(u32, u32, Vec<u8>)> {
  let (o, c) = (d.get(273)?.uints(), d.get(279)?.uints());
  let mut v = vec![];
  for (o, c) in o.iter().zip(c) {
    v.extend_from_slice(buf.get(*o as usize..*o as usize + c as usize)?);
  }
  Some((d.u(256)?, d.u(257)?, v))
}

fn close_u8(a: &[u8], b: &[u8], tol: i32) -> Option<String> {
  if a.len() != b.len() {
    return Some(format!("{} bytes instead of {}", a.len(), b.len()));
  }
  a.iter().zip(b).position(|(x, y)| (*x as i32 - *y as i32).abs() > tol).map(|i| format!("byte {i}: {} expected {}", a[i], b[i]))
}

// ------------------------------------------------------------------------------------------- C25

fn analyze(s: &Scratch, f: &Path, flags: &[&str], threads: Option<u32>) -> Run {
  let mut a = args(&["analyze"]);
  a.extend(args(flags));
  a.push(f.into());
  let o = Opt { env: threads.map(|t| vec![("RAYON_NUM_THREADS".to_string(), t.to_string())]).unwrap_or_default(), ..Default::default() };
  run(s, &a, &o)
}

fn any_src(r: &mut Rng) -> Src {
  let float = r.chance(1, 4);
  let big = r.chance(1, 8);
  gen_src(
    r,
    &SrcOpt {
      photos: if float { vec![Photo::Bayer, Photo::Mono, Photo::Linear3] } else { SrcOpt::default().photos },
      float,
      big,
      min_dim: 2,
      ..Default::default()
    },
  )
}

fn c25_pixels(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let src = any_src(r);
  let f = s.put(&format!("in/{}", r.pick(&["a.dng", "b.CR3", "c d.nef", "ü.RAF"])), &src.bytes);
  let before = snap(&s.dir);
  let fail = |sig: &str, d: String| bad(sig, format!("{d} ({})", src.desc));
  // checksum
  let run = analyze(&s, &f, &["--raw-checksum"], None);
  let want = format!("{:x}\n", md5::compute(le_bytes(&src.pix)));
  if !run.ok() || run.stdout != want.as_bytes() {
    return fail("raw-checksum", format!("{:?} expected {want:?} {}", String::from_utf8_lossy(&run.stdout), run.brief()));
  }
  // pixels
  let run = analyze(&s, &f, &["--raw-pixel"], None);
  if !run.ok() {
    return fail("raw-pixel", run.brief());
  }
  let (magic, w, h, max, data) = match netpbm(&run.stdout) {
    Ok(x) => x,
    Err(e) => return fail("raw-pixel-header", e),
  };
  if (magic.as_str(), w, h, max) != (if src.cpp == 3 { "P6" } else { "P5" }, src.w, src.h, 65535) || data.len() != src.w * src.h * src.cpp * 2 {
    return fail("raw-pixel-header", format!("{magic} {w} {h} {max}, {} bytes of data", data.len()));
  }
  let got = be16(data);
  match &src.pix {
    Pix::U(v) => {
      if let Some(d) = diff_u16(v, &got, src.w * src.cpp) {
        return fail("raw-pixel", d);
      }
      ctx.count("integer_dumps", 1);
    }
    Pix::F(v) => {
      // scaled between black and white
      if src.black.0 * src.black.1 == 1 || (src.black.0 == 2 && src.black.1 == 2) {
        let (at, al) = src.aa.map(|a| (a[0] as usize, a[1] as usize)).unwrap_or((0, 0));
        for (i, g) in got.iter().enumerate() {
          let (c, x, y) = (i % src.cpp, i / src.cpp % src.w, i / src.cpp / src.w);
          let (br, bc) = (src.black.0, src.black.1);
          let (by, bx) = ((y + br * 100 - at) % br, (x + bc * 100 - al) % bc);
          let (n, d) = src.black.2[(by * bc + bx) * src.cpp + c];
          let b = n as f64 / d as f64;
          let wl = src.white[c] as f64;
          let p = f32::from_bits(v[i]) as f64;
          let e = (p - b) / (wl - b) * 65535.0;
          if !e.is_finite() || wl - b < 1.0 {
            continue;
          }
          let e = e.clamp(0.0, 65535.0);
          if (*g as f64 - e).abs() > 1.5 + e * 1e-6 {
            return fail("float-dump", format!("sample {i} ({x},{y},{c}) value {p} black {b} white {wl}: {g} expected {e:.2}"));
          }
        }
        ctx.count("float_dumps", 1);
      }
    }
  }
  let d = delta(&before, &snap(&s.dir));
  if d != Default::default() {
    return fail("side-effect", format!("{d:?}"));
  }
  ctx.count("samples", (src.w * src.h * src.cpp) as u64);
  ctx.sample(json!({"stage": "pixels", "src": src.desc}));
  Verdict::Held(hash_bytes(&src.bytes))
}

fn c25_meta(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let (m, src) = p08::setup(r);
  let name = *r.pick(&["a.dng", "b.CR3", "c d.nef", "ünï.RAF", "quote\".dng", "new\nline.dng"]);
  let f = s.put(&format!("in/{name}"), &src.bytes);
  let fail = |sig: &str, d: String| bad(sig, format!("{d} ({})", src.desc));
  let structure = r.chance(1, 3);
  let flag = if structure { "--structure" } else { "--meta" };
  let j = analyze(&s, &f, &if r.bool() { vec![flag, "--json"] } else { vec![flag] }, None);
  let y = analyze(&s, &f, &[flag, "--yaml"], None);
  if !j.ok() || !y.ok() {
    return fail("meta-fails", format!("json {} yaml {}", j.brief(), y.brief()));
  }
  let jv: Value = match serde_json::from_slice(&j.stdout) {
    Ok(v) => v,
    Err(e) => return fail("invalid-json", format!("{e}")),
  };
  match serde_yaml::from_slice::<Value>(&y.stdout) {
    Ok(v) => {
      if let Some(p) = differ(&jv, &v, String::new()) {
        return fail("json-yaml", format!("JSON and YAML differ at {p}"));
      }
    }
    Err(e) => return fail("invalid-yaml", format!("{e}")),
  }
  let file = &jv["file"];
  if file["fileName"] != json!(name) || file["fileSize"] != json!(src.bytes.len()) || file["digest"] != json!(format!("{:x}", md5::compute(&src.bytes))) {
    return fail("file-info", format!("{file}"));
  }
  if structure {
    // every tag of the root directory is listed with its type and count
    let text = jv["data"].to_string();
    for t in [271u16, 272, 50706, 50708] {
      if !text.contains(&t.to_string()) {
        return fail("structure", format!("tag {t} missing"));
      }
    }
    if !text.contains(&src.make) || !text.contains(&src.model) {
      return fail("structure", "make or model missing".into());
    }
    ctx.count("structures", 1);
    return Verdict::Held(hash_bytes(&j.stdout));
  }
  let p = &jv["data"]["metadata"]["rawParams"];
  if p["rawWidth"] != json!(src.w) || p["rawHeight"] != json!(src.h) || p["bitDepth"] != json!(src.bits) {
    return fail("dimensions", format!("{p}"));
  }
  let rect = |v: &Value| -> Option<[u64; 4]> {
    let (p, d) = (v.get("p")?, v.get("d")?);
    Some([p["x"].as_u64()?, p["y"].as_u64()?, d["w"].as_u64()?, d["h"].as_u64()?])
  };
  let aa = src.aa.unwrap_or([0, 0, src.h as u32, src.w as u32]).map(u64::from);
  if let Some(g) = rect(&p["activeArea"]) {
    if g != [aa[1], aa[0], aa[3] - aa[1], aa[2] - aa[0]] {
      return fail("active-area", format!("{g:?}"));
    }
  } else if src.aa.is_some() {
    return fail("active-area", format!("missing: {}", p["activeArea"]));
  }
  if let Some((o, z)) = &src.crop {
    let w = [o[0] as u64 + aa[1], o[1] as u64 + aa[0], z[0] as u64, z[1] as u64];
    if rect(&p["cropArea"]) != Some(w) {
      return fail("crop-area", format!("{} expected {w:?}", p["cropArea"]));
    }
  }
  let wl: Vec<u64> = p["whitelevels"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
  if wl != src.white.iter().map(|x| *x as u64).collect::<Vec<_>>() {
    return fail("white", format!("{} expected {:?}", p["whitelevels"], src.white));
  }
  let (br, bc) = (src.black.0, src.black.1);
  let b = &p["blacklevels"];
  let bl: Vec<Option<f64>> = b["levels"].as_array().map(|a| a.iter().map(rat).collect()).unwrap_or_default();
  let (at, al) = (aa[0] as usize, aa[1] as usize);
  let mut want = vec![];
  for y in 0..br {
    for x in 0..bc {
      let (yy, xx) = ((y + br * 100 - at) % br, (x + bc * 100 - al) % bc);
      for c in 0..src.cpp {
        let (n, d) = src.black.2[(yy * bc + xx) * src.cpp + c];
        want.push(n as f64 / d as f64);
      }
    }
  }
  let zero = want.iter().all(|x| *x == 0.0) && bl.iter().all(|x| *x == Some(0.0)) && !bl.is_empty();
  if !zero && (bl.len() != want.len() || bl.iter().zip(&want).any(|(a, b)| a.is_none_or(|a| (a - b).abs() > 1e-6)) || b["width"] != json!(bc) || b["height"] != json!(br)) {
    return fail("black", format!("{b} expected {want:?} ({br}x{bc})"));
  }
  for (i, (n, d)) in src.neutral.iter().enumerate() {
    let w = *d as f64 / *n as f64;
    if p["wbCoeffs"][i].as_f64().is_none_or(|g| (g - w).abs() > 1e-5 * w) {
      return fail("wb", format!("{} coefficient {i} expected {w}", p["wbCoeffs"]));
    }
  }
  let md = &jv["data"]["metadata"]["rawMetadata"];
  if md["make"] != json!(src.make) || md["model"] != json!(src.model) {
    return fail("make-model", format!("{} {}", md["make"], md["model"]));
  }
  // a few shooting data fields by name
  let mut n = 0;
  if let Some(ex) = &m.exif {
    for (tag, key) in [(0x829au16, "exposure_time"), (0x829d, "fnumber"), (0x920a, "focal_length")] {
      if let Some(e) = ex.ents.iter().find(|e| e.tag == tag) {
        let u = |o: usize| if src.be { u32::from_be_bytes(e.data[o..o + 4].try_into().unwrap()) } else { u32::from_le_bytes(e.data[o..o + 4].try_into().unwrap()) };
        let (a, b) = (u(0), u(4));
        let g = &md["exif"][key];
        let ok = match g {
          Value::String(s) => *s == format!("{a}/{b}"),
          Value::Array(v) => v.len() == 2 && v[0] == json!(a) && v[1] == json!(b),
          Value::Object(o) => o.get("n") == Some(&json!(a)) && o.get("d") == Some(&json!(b)),
          _ => false,
        };
        if !ok {
          return fail("exif-field", format!("{key} is {g} expected {a}/{b}"));
        }
        n += 1;
      }
    }
    for (tag, key) in [(0x9003u16, "date_time_original"), (0xa431, "serial_number"), (0x9291, "sub_sec_time_original")] {
      if let Some(e) = ex.ents.iter().find(|e| e.tag == tag) {
        let w = String::from_utf8_lossy(&e.data).trim_end_matches('\0').trim().to_string();
        if md["exif"][key].as_str().map(|s| s.trim()) != Some(w.as_str()) {
          return fail("exif-field", format!("{key} is {} expected {w:?}", md["exif"][key]));
        }
        n += 1;
      }
    }
  }
  ctx.count("exif_fields", n);
  ctx.sample(json!({"stage": "meta", "src": src.desc, "name": name}));
  Verdict::Held(hash_bytes(&j.stdout))
}

/// First path at which two documents differ (numbers compared with a relative tolerance of 1e-6)
fn differ(a: &Value, b: &Value, p: String) -> Option<String> {
  match (a, b) {
    (Value::Object(x), Value::Object(y)) => {
      if x.len() != y.len() {
        return Some(format!("{p} ({} vs {} keys)", x.len(), y.len()));
      }
      x.iter().find_map(|(k, v)| match y.get(k) {
        Some(w) => differ(v, w, format!("{p}/{k}")),
        None => Some(format!("{p}/{k} missing")),
      })
    }
    (Value::Array(x), Value::Array(y)) => {
      if x.len() != y.len() {
        return Some(p);
      }
      x.iter().zip(y).enumerate().find_map(|(i, (v, w))| differ(v, w, format!("{p}/{i}")))
    }
    (Value::Number(x), Value::Number(y)) => {
      let (x, y) = (x.as_f64()?, y.as_f64()?);
      ((x - y).abs() > 1e-6 * x.abs().max(y.abs())).then_some(p)
    }
    _ => (a != b).then(|| format!("{p}: {a} vs {b}")),
  }
}

fn c25_images(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let src = dev_src(r);
  let preview = r.bool();
  let thumbnail = r.bool();
  let p = ConvertParams { embedded: false, preview, thumbnail, software: "vmon".into(), ..Default::default() };
  // the converted file has preview and thumbnail from the developed image
  let bytes = if preview || thumbnail {
    match convert(&src.bytes, "x.dng", &p) {
      Ok(b) => b,
      Err(_) => return Verdict::Skip("not convertible"),
    }
  } else {
    src.bytes.clone()
  };
  let f = s.put("in/a.dng", &bytes);
  let fail = |sig: &str, d: String| bad(sig, format!("{d} (preview={preview} thumbnail={thumbnail} {})", src.desc));
  let t = match Tiff::parse(&bytes) {
    Ok(t) => t,
    Err(e) => return fail("unparsable", e),
  };
  // srgb: identical for any number of threads and equal to process-raw
  let a = analyze(&s, &f, &["--srgb"], Some(1));
  let b = analyze(&s, &f, &["--srgb"], Some(r.range(2, 9) as u32));
  if !a.ok() || !b.ok() {
    return fail("srgb", format!("{} / {}", a.brief(), b.brief()));
  }
  if a.stdout != b.stdout {
    return fail("srgb-nondeterministic", "output depends on the number of threads".into());
  }
  let (magic, w, h, max, data) = match netpbm(&a.stdout) {
    Ok(x) => x,
    Err(e) => return fail("srgb-header", e),
  };
  if magic != "P6" || max != 65535 || data.len() != w * h * 6 {
    return fail("srgb-header", format!("{magic} {w} {h} {max} {}", data.len()));
  }
  let srgb = be16(data);
  s.mkdir("out");
  let pr = run(&s, &[OsString::from("process-raw"), f.clone().into(), s.dir.join("out/o.tif").into()], &Opt::default());
  if !pr.ok() {
    return fail("process-raw", pr.brief());
  }
  let tif = std::fs::read(s.dir.join("out/o.tif")).unwrap_or_default();
  match image::load_from_memory_with_format(&tif, ImageFormat::Tiff) {
    Ok(DynamicImage::ImageRgb16(i)) => {
      if (i.width() as usize, i.height() as usize) != (w, h) || i.as_raw() != &srgb {
        return fail("srgb-vs-process-raw", format!("{w}x{h} vs {}x{}, samples equal: {}", i.width(), i.height(), i.as_raw() == &srgb));
      }
    }
    Ok(i) => return fail("process-raw-tiff", format!("{:?}", i.color())),
    Err(e) => return fail("process-raw-tiff", e.to_string()),
  }
  // thumbnail
  let run_px = |flag: &str| -> Result<(usize, usize, Vec<u8>), String> {
    let x = analyze(&s, &f, &[flag], None);
    if !x.ok() {
      return Err(x.brief());
    }
    let (m, w, h, max, d) = netpbm(&x.stdout)?;
    if m != "P6" || max != 255 || d.len() != w * h * 3 {
      return Err(format!("header {m} {w} {h} {max} with {} bytes", d.len()));
    }
    Ok((w, h, d.to_vec()))
  };
  let full8: Vec<u8> = srgb.iter().map(|v| ((*v as u32 * 255 + 32767) / 65535) as u8).collect();
  let th_img = run_px("--thumbnail-pixel");
  let pv_img = run_px("--preview-pixel");
  let fl_img = run_px("--full-pixel");
  for (n, x) in [("thumbnail", &th_img), ("preview", &pv_img), ("full", &fl_img)] {
    if let Err(e) = x {
      return fail(&format!("{n}-pixel"), e.clone());
    }
  }
  let (th_img, pv_img, fl_img) = (th_img.unwrap(), pv_img.unwrap(), fl_img.unwrap());
  // a DNG has no separate full image: the developed one
  if (fl_img.0, fl_img.1) != (w, h) {
    return fail("full-pixel", format!("{}x{} expected {w}x{h}", fl_img.0, fl_img.1));
  }
  if let Some(d) = close_u8(&fl_img.2, &full8, 1) {
    return fail("full-pixel", d);
  }
  let root = &t.dirs[0];
  if root.u(254) == Some(1) {
    let Some((tw, th, d)) = rgb_strip(&bytes, root) else { return fail("thumb-ref", "no thumbnail strip".into()) };
    if (tw as usize, th as usize) != (th_img.0, th_img.1) || d != th_img.2 {
      return fail("thumbnail-pixel", format!("{}x{} expected {tw}x{th}, equal: {}", th_img.0, th_img.1, d == th_img.2));
    }
    let c = analyze(&s, &f, &["--thumbnail-checksum"], None);
    if c.stdout != format!("{:x}\n", md5::compute(&d)).as_bytes() {
      return fail("thumbnail-checksum", c.brief());
    }
    ctx.count("thumbnails", 1);
  } else if th_img.2 != pv_img.2 {
    return fail("thumbnail-fallback", "no thumbnail in the file, output differs from the preview".into());
  }
  let pd = root.subs.get(&330).and_then(|v| v.iter().find(|d| d.u(254) == Some(1)));
  if let Some(pd) = pd {
    let Some((pw, ph, jpg)) = rgb_strip(&bytes, pd) else { return fail("preview-ref", "no preview strip".into()) };
    match image::load_from_memory_with_format(&jpg, ImageFormat::Jpeg) {
      Ok(i) => {
        if (pw as usize, ph as usize) != (pv_img.0, pv_img.1) {
          return fail("preview-pixel", format!("{}x{} expected {pw}x{ph}", pv_img.0, pv_img.1));
        }
        if let Some(d) = close_u8(&pv_img.2, i.to_rgb8().as_raw(), 4) {
          return fail("preview-pixel", d);
        }
      }
      Err(e) => return fail("preview-ref", e.to_string()),
    }
    let c = analyze(&s, &f, &["--preview-checksum"], None);
    if c.stdout != format!("{:x}\n", md5::compute(&pv_img.2)).as_bytes() {
      return fail("preview-checksum", c.brief());
    }
    ctx.count("previews", 1);
  } else if pv_img.2 != fl_img.2 {
    return fail("preview-fallback", "no preview in the file, output differs from the full image".into());
  }
  Verdict::Held(hash_bytes(&a.stdout))
}

fn c25_errors(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let src = dev_src(r);
  let (b, health, what) = damage(r, &src.bytes);
  let f = if what == "empty" && r.bool() { s.dir.join("missing.dng") } else { s.put("a.dng", &b) };
  let modes = [
    "--raw-pixel", "--full-pixel", "--preview-pixel", "--thumbnail-pixel", "--raw-checksum", "--full-checksum", "--preview-checksum", "--thumbnail-checksum", "--srgb", "--meta", "--structure",
  ];
  let m = *r.pick(&modes);
  let before = snap(&s.dir);
  let x = analyze(&s, &f, &[m], None);
  if x.timed_out {
    return bad("hang", format!("{m} on {what}"));
  }
  if x.signal.is_some() {
    return bad("crash", format!("{m} on {what}: {}", x.brief()));
  }
  let d = delta(&before, &snap(&s.dir));
  if d != Default::default() {
    return bad("side-effect", format!("{d:?}"));
  }
  if health == crate::p16::Health::Bad && x.ok() {
    return bad("garbage-accepted", format!("{m} on {what} exits 0"));
  }
  if !x.ok() && !x.stdout.is_empty() {
    return bad("partial-output", format!("{m} on {what}: {} bytes on stdout although {}", x.stdout.len(), x.brief()));
  }
  if x.ok() && x.stdout.is_empty() {
    return bad("no-output", format!("{m} on {what}"));
  }
  ctx.count(if x.ok() { "damaged_ok" } else { "damaged_error" }, 1);
  Verdict::Held(hash_str(&format!("{m}{what}{:?}", x.code)))
}

pub fn run25(ctx: Ctx) -> i32 {
  ctx.cases("pixels", ctx.n(160, 4000), |r, _| c25_pixels(&ctx, r));
  ctx.cases("meta", ctx.n(160, 4000), |r, _| c25_meta(&ctx, r));
  ctx.cases("images", ctx.n(50, 1200), |r, _| c25_images(&ctx, r));
  ctx.cases("errors", ctx.n(150, 3000), |r, _| c25_errors(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one case = one generated file: raw dump and checksum against the reference samples, metadata against the reference tags, JSON against YAML, preview/thumbnail/sRGB images against an independent reading of the file and against process-raw, error behaviour on damaged files",
    &["DNG sources only (no camera files are available)", "JPEG decoders may differ by 4 levels", "float images with a black pattern other than 1x1/2x2 are only checked for their format"],
  )
}

// ------------------------------------------------------------------------------------------- C26

/// Colour image in a container format
#[derive(Clone)]
struct Pic {
  w: usize,
  h: usize,
  bits: u32,
  px: Vec<u16>,
}

fn gen_pic(r: &mut Rng, bits: u32, wmax: usize) -> Pic {
  let (w, h) = (r.range(1, wmax), r.range(1, 60));
  Pic { w, h, bits, px: crate::gen_img::samples(r, w * 3, h, bits) }
}

fn encode_pic(p: &Pic, f: ImageFormat) -> Vec<u8> {
  let img = if p.bits == 8 {
    DynamicImage::ImageRgb8(ImageBuffer::from_raw(p.w as u32, p.h as u32, p.px.iter().map(|x| *x as u8).collect()).unwrap())
  } else {
    DynamicImage::ImageRgb16(ImageBuffer::from_raw(p.w as u32, p.h as u32, p.px.clone()).unwrap())
  };
  let mut c = Cursor::new(vec![]);
  img.write_to(&mut c, f).unwrap();
  c.into_inner()
}

/// JPEG with application segments put right after SOI
fn jpeg_with(r: &mut Rng, p: &Pic, exif: Option<&WDir>, be: bool, xmp: Option<&[u8]>) -> (Vec<u8>, String) {
  let base = encode_pic(p, ImageFormat::Jpeg);
  let seg = |m: u8, d: &[u8]| -> Vec<u8> {
    let mut v = vec![0xFF, m];
    v.extend(((d.len() + 2) as u16).to_be_bytes());
    v.extend_from_slice(d);
    v
  };
  // split the encoder's own APP0 off
  let mut rest = &base[2..];
  let mut app0 = vec![];
  if rest[..2] == [0xFF, 0xE0] {
    let n = 2 + u16::from_be_bytes([rest[2], rest[3]]) as usize;
    app0 = rest[..n].to_vec();
    rest = &rest[n..];
  }
  let mut desc = String::new();
  let mut segs: Vec<Vec<u8>> = vec![];
  if let Some(e) = exif {
    let mut root = WDir::default();
    root.put(BO(be).ascii(271, "JMake"));
    root.subs.push((0x8769, vec![e.clone()]));
    let mut d = b"Exif\0\0".to_vec();
    d.extend(crate::reftiff::TiffOut::write(be, 0, &[root]));
    segs.push(seg(0xE1, &d));
  }
  if let Some(x) = xmp {
    let mut d = b"http://ns.adobe.com/xap/1.0/\0".to_vec();
    d.extend_from_slice(x);
    segs.push(seg(0xE1, &d));
  }
  // unrelated segments
  if r.chance(1, 3) {
    let mut d = b"ICC_PROFILE\0\x01\x01".to_vec();
    let nb = r.range(0, 400);
    d.extend(r.bytes(nb));
    segs.push(seg(0xE2, &d));
    desc.push_str("icc ");
  }
  if r.chance(1, 3) {
    let nb = r.range(0, 100);
    segs.push(seg(0xFE, &r.bytes(nb)));
    desc.push_str("com ");
  }
  if r.chance(1, 4) {
    // foreign APP1
    let nb = r.range(0, 40);
    segs.push(seg(0xE1, &r.bytes(nb)));
    desc.push_str("foreign-app1 ");
  }
  for i in (1..segs.len()).rev() {
    segs.swap(i, r.range(0, i));
  }
  let mut v = vec![0xFF, 0xD8];
  // is_jfif/is_exif: the first segment is APP0 or APP1
  let lead_app1 = segs.first().is_some_and(|s| s[1] == 0xE1) && r.bool();
  if !lead_app1 {
    let mut a = app0;
    if a.is_empty() || r.chance(1, 3) {
      // with a small thumbnail
      let (tw, th) = if r.bool() { (0, 0) } else { (r.range(0, 30), r.range(0, 30)) };
      let mut d = b"JFIF\0\x01\x02\x01\x00\x48\x00\x48".to_vec();
      d.extend([tw as u8, th as u8]);
      d.extend(r.bytes(3 * tw * th));
      a = seg(0xE0, &d);
      desc.push_str(&format!("jfif-thumb {tw}x{th} "));
    }
    v.extend(a);
    if r.chance(1, 5) {
      let mut d = b"JFXX\0\x10".to_vec();
      let nb = r.range(0, 60);
      d.extend(r.bytes(nb));
      v.extend(seg(0xE0, &d));
      desc.push_str("jfxx ");
    }
  }
  for s in segs {
    v.extend(s);
  }
  v.extend_from_slice(rest);
  (v, desc)
}

fn dec4(r: &mut Rng, lo: i32, hi: i32) -> (String, f64) {
  // decimal with at most four fractional digits
  let k = r.range(0, (hi - lo) as usize) as i32 + lo;
  let s = format!("{}{}.{:04}", if k < 0 { "-" } else { "" }, k.abs() / 10000, k.abs() % 10000);
  (s, k as f64 / 10000.0)
}

fn named_table(n: &str) -> Option<Vec<f64>> {
  let (bits, f) = n.split_once('_')?;
  let max = if bits == "8bit" { 255u32 } else { 65535 };
  let (curve, inv) = match f.strip_suffix("_invert") {
    Some(c) => (c, true),
    None => (f, false),
  };
  Some(
    (0..=max)
      .map(|i| {
        let v = i as f64 / max as f64;
        let o = match (curve, inv) {
          ("sRGB", false) => {
            if v <= 0.0031308 {
              v * 12.92
            } else {
              1.055 * v.powf(1.0 / 2.4) - 0.055
            }
          }
          ("sRGB", true) => {
            if v <= 0.04045 {
              v / 12.92
            } else {
              ((v + 0.055) / 1.055).powf(2.4)
            }
          }
          (g, inv) => {
            let g: f64 = g.trim_start_matches("gamma").parse().unwrap_or(1.0);
            v.powf(if inv { g } else { 1.0 / g })
          }
        };
        o * 65535.0
      })
      .collect(),
  )
}

const TABLES: &[&str] = &[
  "8bit_sRGB", "8bit_sRGB_invert", "16bit_sRGB", "16bit_sRGB_invert", "8bit_gamma1.8", "8bit_gamma1.8_invert", "8bit_gamma2.0", "8bit_gamma2.0_invert", "8bit_gamma2.2", "8bit_gamma2.2_invert",
  "8bit_gamma2.4", "8bit_gamma2.4_invert", "16bit_gamma1.8", "16bit_gamma1.8_invert", "16bit_gamma2.0", "16bit_gamma2.0_invert", "16bit_gamma2.2", "16bit_gamma2.2_invert", "16bit_gamma2.4",
  "16bit_gamma2.4_invert",
];

const ILLUM: &[(&str, u32)] = &[("Unknown", 0), ("A", 17), ("B", 18), ("C", 19), ("D50", 23), ("D55", 20), ("D65", 21), ("D75", 22)];

enum RawIn {
  Dng(Src),
  Pic(Pic),
}

fn c26_case(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let mut desc = String::new();
  // ---- inputs
  let mut files: Vec<PathBuf> = vec![];
  let mut maps: Vec<(usize, &str)> = vec![];
  let mut raw: Option<RawIn> = None;
  let mut pv: Option<Pic> = None; // preview input
  let mut th: Option<Pic> = None;
  let mut exif: Option<(WDir, bool)> = None;
  let mut dngmeta: Option<(p08::Meta, bool, u16)> = None;
  let mut xmp: Option<Vec<u8>> = None;
  let add = |files: &mut Vec<PathBuf>, name: &str, b: &[u8]| -> usize {
    let p = s.put(&format!("in/{}{name}", files.len()), b);
    files.push(p);
    files.len() - 1
  };
  if r.chance(9, 10) {
    if r.bool() {
      let be = r.bool();
      let m = p08::gen_meta(r, be);
      let src = gen_src(
        r,
        &SrcOpt { big: false, be: Some(be), extra_root: m.root.clone(), exif: m.exif.clone(), gps: m.gps.clone(), min_dim: 2, ..Default::default() },
      );
      let k = add(&mut files, r.pick(&["r.dng", "r.CR2", "r.NEF"]), &src.bytes);
      maps.push((k, "raw"));
      if r.bool() {
        maps.push((k, "exif"));
        dngmeta = Some((m, be, src.orientation));
      }
      desc.push_str(&src.desc);
      raw = Some(RawIn::Dng(src));
    } else {
      let (f, n) = *r.pick(&[(ImageFormat::Png, "r.png"), (ImageFormat::Tiff, "r.tif"), (ImageFormat::Png, "r.PNG"), (ImageFormat::Pnm, "r.ppm")]);
      let bits = if f == ImageFormat::Pnm || r.bool() { 8 } else { 16 };
      let p = gen_pic(r, bits, 80);
      let k = add(&mut files, n, &encode_pic(&p, f));
      maps.push((k, "raw"));
      desc.push_str(&format!("{n} {}x{} {bits} bit ", p.w, p.h));
      raw = Some(RawIn::Pic(p));
    }
  }
  if r.bool() {
    let wmax = if r.chance(1, 4) { 1500 } else { 200 };
    let p = gen_pic(r, 8, wmax);
    let (f, n) = *r.pick(&[(ImageFormat::Png, "p.png"), (ImageFormat::Tiff, "p.tiff")]);
    let k = add(&mut files, n, &encode_pic(&p, f));
    maps.push((k, "preview"));
    if r.bool() {
      maps.push((k, "thumbnail"));
      th = Some(p.clone());
    }
    pv = Some(p);
  }
  if th.is_none() && r.chance(1, 3) {
    let p = gen_pic(r, 8, 400);
    let k = add(&mut files, "t.png", &encode_pic(&p, ImageFormat::Png));
    maps.push((k, "thumbnail"));
    th = Some(p);
  }
  if r.chance(2, 3) {
    let be = r.bool();
    let e = if dngmeta.is_none() && r.chance(2, 3) { p08::gen_meta(r, be).exif } else { None };
    let x = r.chance(2, 3).then(|| {
      let n = r.range(1, 3000);
      r.bytes(n)
    });
    let p = gen_pic(r, 8, 60);
    let (b, d) = jpeg_with(r, &p, e.as_ref(), be, x.as_deref());
    let k = add(&mut files, r.pick(&["m.jpg", "m.JPEG", "m.bin"]), &b);
    if dngmeta.is_none() {
      maps.push((k, "exif"));
      exif = e.map(|e| (e, be));
    }
    maps.push((k, "xmp"));
    xmp = x;
    desc.push_str(&format!(" jpeg[{d}]"));
  }
  if files.is_empty() {
    return Verdict::Skip("no input");
  }
  for i in (1..maps.len()).rev() {
    maps.swap(i, r.range(0, i));
  }
  // ---- options
  let out = s.dir.join("out.dng");
  let mut a: Vec<OsString> = args(&["makedng", "-o"]);
  a.push(out.clone().into());
  a.push("-i".into());
  a.extend(files.iter().map(|f| f.clone().into()));
  let too_far = r.chance(1, 25);
  a.push("--map".into());
  for (k, u) in &maps {
    a.push(format!("{k}:{u}").into());
  }
  if too_far {
    a.push(format!("{}:xmp", files.len()).into());
  }
  let mut opt = |k: &str, v: String| a.push(format!("--{k}={v}").into());
  let txt = |r: &mut Rng| -> String { format!("{}{}", r.pick(&["Äb", "x y", "Foo", "日"]), r.range(0, 999)) };
  let mut texts: Vec<(u16, String)> = vec![];
  for (t, k) in [(315u16, "artist"), (271, "make"), (272, "model"), (50708, "unique-camera-model")] {
    if r.bool() {
      let v = txt(r);
      opt(k, v.clone());
      texts.push((t, v));
    }
  }
  let mut colref = 0;
  if r.bool() {
    colref = r.range(0, 1) as u32;
    opt("colorimetric-reference", ["scene", "output"][colref as usize].into());
  }
  let ver = r.range(0, 6);
  let explicit_ver = r.bool();
  let ver = if explicit_ver { ver } else { 4 };
  if explicit_ver {
    opt("dng-backward-version", format!("1.{ver}"));
  }
  let mut mats: Vec<(usize, Vec<f64>, u32)> = vec![];
  for i in 1..=3 {
    if r.chance(1, 2) {
      let (ill, code) = *r.pick(ILLUM);
      opt(&format!("illuminant{i}"), ill.into());
      let named: &[(&str, [f64; 9])] = &[
        ("XYZ_sRGB_D65", [3.2404542, -1.5371385, -0.4985314, -0.9692660, 1.8760108, 0.0415560, 0.0556434, -0.2040259, 1.0572252]),
        ("XYZ_sRGB_D50", [3.1338561, -1.6168667, -0.4906146, -0.9787684, 1.9161415, 0.0334540, 0.0719453, -0.2289914, 1.4052427]),
        ("XYZ_AdobeRGB_D65", [2.0413690, -0.5649464, -0.3446944, -0.9692660, 1.8760108, 0.0415560, 0.0134474, -0.1183897, 1.0154096]),
        ("XYZ_AdobeRGB_D50", [1.9624274, -0.6105343, -0.3413404, -0.9787684, 1.9161415, 0.0334540, 0.0286869, -0.1406752, 1.3487655]),
      ];
      if r.chance(1, 4) {
        let (n, m) = r.pick(named);
        opt(&format!("matrix{i}"), n.to_string());
        mats.push((i, m.to_vec(), code));
      } else {
        let v: Vec<(String, f64)> = (0..9).map(|_| dec4(r, -25000, 25000)).collect();
        let sep = if r.bool() { "," } else { ", " };
        opt(&format!("matrix{i}"), v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(sep));
        mats.push((i, v.iter().map(|x| x.1).collect(), code));
      }
    }
  }
  let mut wb: Option<Vec<f64>> = None;
  let mut wxy: Option<Vec<f64>> = None;
  match r.range(0, 3) {
    0 => {
      let v: Vec<(String, f64)> = (0..3).map(|_| dec4(r, 1, 30000)).collect();
      opt("wb", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","));
      wb = Some(v.iter().map(|x| x.1).collect());
    }
    1 => {
      let v = match r.range(0, 2) {
        0 => {
          opt("white-xy", "D50".into());
          vec![0.34567, 0.35850]
        }
        1 => {
          opt("white-xy", "D65".into());
          vec![0.31271, 0.32902]
        }
        _ => {
          let v: Vec<(String, f64)> = (0..2).map(|_| dec4(r, 1, 9999)).collect();
          opt("white-xy", v.iter().map(|x| x.0.clone()).collect::<Vec<_>>().join(","));
          v.iter().map(|x| x.1).collect()
        }
      };
      wxy = Some(v);
    }
    _ => (),
  }
  let mut lin: Option<Vec<f64>> = None;
  let mut lin_custom = false;
  if r.chance(1, 3) {
    if r.bool() {
      let n = r.pick(TABLES);
      opt("linearization", n.to_string());
      lin = named_table(n);
    } else {
      let v: Vec<u16> = (0..r.range(2, 256)).map(|_| r.u16()).collect();
      opt("linearization", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
      lin = Some(v.iter().map(|x| *x as f64).collect());
      lin_custom = true;
    }
  }
  let x = run(&s, &a, &Opt::default());
  let desc = format!("{desc} args {:?}", a.iter().skip(3).map(|x| x.to_string_lossy().replace(s.dir.to_str().unwrap(), "")).collect::<Vec<_>>().join(" ").chars().take(900).collect::<String>());
  let fail = |sig: &str, d: String| bad(sig, format!("{d} ({desc})"));
  if too_far {
    if x.ok() || out.symlink_metadata().is_ok() {
      return fail("bad-map-index", format!("map index beyond the inputs: {} output exists: {}", x.brief(), out.exists()));
    }
    ctx.count("bad_maps", 1);
    return Verdict::Held(hash_str(&desc));
  }
  if !x.ok() {
    return fail("fails", x.brief());
  }
  let b = std::fs::read(&out).unwrap_or_default();
  let t = match Tiff::parse(&b) {
    Ok(t) if t.problems.is_empty() => t,
    Ok(t) => return fail("malformed", t.problems.join("; ")),
    Err(e) => return fail("unparsable", e),
  };
  let ov = t.overlaps();
  if !ov.is_empty() {
    return fail("overlap", ov.join("; "));
  }
  let root = &t.dirs[0];
  // ---- raw image
  let rd = t.raw_dir();
  match (&raw, rd) {
    (Some(RawIn::Dng(src)), Some(d)) => {
      if let Pix::U(_) = src.pix {
        if let Err(e) = same_pixels(&b, src) {
          return fail("raw-samples", e);
        }
      }
      if d.get(50712).is_some() {
        return fail("lin-on-raw", "linearization table put on a decoded raw image".into());
      }
    }
    (Some(RawIn::Pic(p)), Some(d)) => {
      let dec = match decode_raw(&b, &t, d) {
        Ok(x) => x,
        Err(e) => return fail("raw-undecodable", e),
      };
      let Samples::U(v) = &dec.samples else { return fail("raw-format", "float samples".into()) };
      if (dec.w, dec.h, dec.cpp) != (p.w, p.h, 3) {
        return fail("raw-dims", format!("{}x{}x{}", dec.w, dec.h, dec.cpp));
      }
      if let Some(e) = diff_u16(&p.px, v, p.w * 3) {
        return fail("raw-samples", e);
      }
      if d.u(262) != Some(34892) {
        return fail("photometric", format!("{:?}", d.u(262)));
      }
      let wl = if lin.is_some() || p.bits == 16 { 65535 } else { 255 };
      if d.get(50717).map(|e| e.uints()) != Some(vec![wl; 3]) || d.get(50714).is_none_or(|e| e.nums().iter().any(|x| *x != 0.0)) {
        return fail("levels", format!("white {:?} black {:?}", d.get(50717).map(|e| e.uints()), d.get(50714).map(|e| e.nums())));
      }
      match (&lin, d.get(50712).map(|e| e.nums())) {
        (None, None) => (),
        (Some(w), Some(g)) => {
          let tol = if lin_custom { 0.0 } else { 6.0 };
          if w.len() != g.len() || w.iter().zip(&g).any(|(a, b)| (a - b).abs() > tol) {
            let k = w.iter().zip(&g).position(|(a, b)| (a - b).abs() > tol);
            return fail("linearization", format!("{} entries expected {}, first difference {:?}", g.len(), w.len(), k.map(|k| (k, w[k], g[k]))));
          }
          ctx.count("linearization_tables", 1);
        }
        (w, g) => return fail("linearization", format!("requested {} present {}", w.is_some(), g.is_some())),
      }
    }
    (None, None) => (),
    (w, g) => return fail("raw-presence", format!("requested {} present {}", w.is_some(), g.is_some())),
  }
  // ---- preview
  let pd = root.subs.get(&330).and_then(|v| v.iter().find(|d| d.u(254) == Some(1)));
  match (&pv, pd) {
    (Some(p), Some(d)) => {
      let Some((w, h, jpg)) = rgb_strip(&b, d) else { return fail("preview", "no data".into()) };
      let (ew, eh) = if p.w > 1024 { (1024, (p.h as f64 * 1024.0 / p.w as f64).round().max(1.0) as u32) } else { (p.w as u32, p.h as u32) };
      if w != ew || h.abs_diff(eh) > 1 {
        return fail("preview-dims", format!("{w}x{h} expected {ew}x{eh}"));
      }
      match image::load_from_memory_with_format(&jpg, ImageFormat::Jpeg) {
        Ok(i) => {
          if (i.width(), i.height()) != (w, h) {
            return fail("preview-jpeg", format!("JPEG {}x{}", i.width(), i.height()));
          }
          if p.w <= 1024 {
            // mean colour survives the compression
            let m = |v: &mut dyn Iterator<Item = u8>| -> [f64; 3] {
              let mut s = [0.0; 3];
              let mut n = 0usize;
              for x in v {
                s[n % 3] += x as f64;
                n += 1;
              }
              s.map(|x| x * 3.0 / n as f64)
            };
            let a = m(&mut p.px.iter().map(|x| *x as u8));
            let c = m(&mut i.to_rgb8().into_raw().into_iter());
            let tol = if p.w * p.h < 64 { 80.0 } else { 40.0 };
            if a.iter().zip(c).any(|(x, y)| (x - y).abs() > tol) {
              return fail("preview-content", format!("mean colour {c:?} expected {a:?}"));
            }
          }
        }
        Err(e) => return fail("preview-jpeg", e.to_string()),
      }
      ctx.count("previews", 1);
    }
    (None, None) => (),
    (w, g) => return fail("preview-presence", format!("requested {} present {}", w.is_some(), g.is_some())),
  }
  // ---- thumbnail
  match (&th, root.u(254) == Some(1)) {
    (Some(p), true) => {
      let Some((w, h, d)) = rgb_strip(&b, root) else { return fail("thumbnail", "no data".into()) };
      if w > 240 || h > 120 || (w < 240 && h < 120 && !(w == 1 || h == 1)) || d.len() != (w * h * 3) as usize {
        return fail("thumbnail-dims", format!("{w}x{h} for {}x{}", p.w, p.h));
      }
      // nearest neighbour: every colour comes from the source
      let set: std::collections::HashSet<[u8; 3]> = p.px.chunks_exact(3).map(|c| [c[0] as u8, c[1] as u8, c[2] as u8]).collect();
      if d.chunks_exact(3).any(|c| !set.contains(c)) {
        return fail("thumbnail-content", "colour that the source does not have".into());
      }
      ctx.count("thumbnails", 1);
    }
    (None, false) => (),
    (w, g) => return fail("thumbnail-presence", format!("requested {} present {g}", w.is_some())),
  }
  // ---- metadata
  let ex = root.subs.get(&0x8769).and_then(|v| v.first());
  let mut n = 0;
  if let Some((m, be, _)) = &dngmeta {
    match p08::check_dirs(m, *be, root) {
      Ok(k) => n += k,
      Err((sg, d)) => return fail(&format!("meta-{sg}"), d),
    }
  } else {
    for (tag, _) in p08::EXIF {
      let want = exif.as_ref().and_then(|(d, be)| d.ents.iter().find(|e| e.tag == *tag).map(|e| (e, *be)));
      let got = ex.and_then(|d| d.get(*tag));
      match (want, got) {
        (Some((w, be)), g) => {
          n += 1;
          if let Err(e) = p08::same(w, be, g) {
            return fail(&format!("exif-{tag:#06x}"), format!("tag {tag:#06x}: {e}"));
          }
        }
        (None, Some(_)) => return fail("exif-made-up", format!("tag {tag:#06x}")),
        _ => (),
      }
    }
  }
  ctx.count("exif_tags", n);
  match (&xmp, root.get(700)) {
    (Some(w), Some(g)) => {
      if *w != g.data {
        return fail("xmp", format!("{} bytes expected {}", g.data.len(), w.len()));
      }
      ctx.count("xmp", 1);
    }
    (None, None) => (),
    (w, g) => return fail("xmp-presence", format!("requested {} present {}", w.is_some(), g.is_some())),
  }
  // ---- options
  for (tag, v) in &texts {
    if root.get(*tag).and_then(|e| e.str()).as_deref() != Some(v.as_str()) {
      return fail(&format!("text-{tag}"), format!("tag {tag} is {:?} expected {v:?}", root.get(*tag).and_then(|e| e.str())));
    }
  }
  if root.u(50879) != Some(colref) {
    return fail("colorimetric", format!("{:?} expected {colref}", root.u(50879)));
  }
  if root.get(50707).map(|e| e.data.clone()) != Some(vec![1, ver as u8, 0, 0]) {
    return fail("backward-version", format!("{:?} expected 1.{ver}", root.get(50707).map(|e| e.data.clone())));
  }
  let same_nums = |tag: u16, want: &[f64]| -> Option<String> {
    let g = root.get(tag).map(|e| e.nums()).unwrap_or_default();
    (g.len() != want.len() || g.iter().zip(want).any(|(a, b)| (a - b).abs() > 0.5001e-4)).then(|| format!("tag {tag} is {g:?} expected {want:?}"))
  };
  for (i, m, ill) in &mats {
    let (mt, it) = [(50721, 50778), (50722, 50779), (52531, 52529)][i - 1];
    if *i == 3 && ver < 6 {
      if root.get(mt).is_some() {
        return fail("matrix3", "third matrix in a file readable by DNG < 1.6".into());
      }
      continue;
    }
    if let Some(e) = same_nums(mt, m) {
      return fail("matrix", e);
    }
    if root.u(it) != Some(*ill) {
      return fail("illuminant", format!("tag {it} is {:?} expected {ill}", root.u(it)));
    }
  }
  if let Some(w) = &wb {
    if let Some(e) = same_nums(50728, w) {
      return fail("wb", e);
    }
    if root.get(50729).is_some() {
      return fail("wb-xy", "both AsShotNeutral and AsShotWhiteXY".into());
    }
  }
  if let Some(w) = &wxy {
    if let Some(e) = same_nums(50729, w) {
      return fail("white-xy", e);
    }
    if root.get(50728).is_some() {
      return fail("wb-xy", "both AsShotNeutral and AsShotWhiteXY".into());
    }
  }
  ctx.sample(json!({"stage": "makedng", "case": desc}));
  Verdict::Held(hash_bytes(&b))
}

/// default map: one input serves everything
fn c26_default(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let be = r.bool();
  let m = p08::gen_meta(r, be);
  let src = gen_src(r, &SrcOpt { big: false, be: Some(be), extra_root: m.root.clone(), exif: m.exif.clone(), gps: m.gps.clone(), min_dim: 24, photos: vec![Photo::Bayer], ..Default::default() });
  let f = s.put("in.dng", &src.bytes);
  let out = s.dir.join("o.dng");
  let x = run(&s, &["makedng".into(), "-o".into(), out.clone().into(), "-i".into(), f.into()], &Opt::default());
  let fail = |sig: &str, d: String| bad(sig, format!("{d} ({})", src.desc));
  if !x.ok() {
    return fail("default-fails", x.brief());
  }
  let b = std::fs::read(&out).unwrap_or_default();
  let t = match Tiff::parse(&b) {
    Ok(t) if t.problems.is_empty() => t,
    Ok(t) => return fail("malformed", t.problems.join("; ")),
    Err(e) => return fail("unparsable", e),
  };
  if let Err(e) = same_pixels(&b, &src) {
    return fail("raw-samples", e);
  }
  if let Err((sg, d)) = p08::check_dirs(&m, be, &t.dirs[0]) {
    return fail(&format!("meta-{sg}"), d);
  }
  ctx.count("default_maps", 1);
  Verdict::Held(hash_bytes(&b))
}

/// damaged or unsupported inputs
fn c26_errors(ctx: &Ctx, r: &mut Rng) -> Verdict {
  let s = Scratch::new();
  let (name, bytes, must_fail): (&str, Vec<u8>, bool) = match r.range(0, 3) {
    0 => {
      // not an RGB image
      let (w, h) = (r.range(1, 20) as u32, r.range(1, 20) as u32);
      let img = match r.range(0, 2) {
        0 => DynamicImage::new_luma8(w, h),
        1 => DynamicImage::new_luma16(w, h),
        _ => DynamicImage::new_rgba8(w, h),
      };
      let mut c = Cursor::new(vec![]);
      img.write_to(&mut c, ImageFormat::Png).unwrap();
      ("g.png", c.into_inner(), true)
    }
    1 => {
      let p = gen_pic(r, 8, 40);
      let mut b = encode_pic(&p, ImageFormat::Png);
      let n = r.range(0, b.len() - 13);
      b.truncate(n);
      ("t.png", b, true)
    }
    2 => {
      let p = gen_pic(r, 8, 40);
      let be = r.bool();
      let e = p08::gen_meta(r, be).exif;
      let (mut b, _) = jpeg_with(r, &p, e.as_ref(), be, None);
      if r.bool() {
        let n = r.range(2, b.len() - 1);
        b.truncate(n);
      } else {
        for _ in 0..r.range(1, 30) {
          let k = r.range(4, b.len().min(600) - 1);
          b[k] = r.u8();
        }
      }
      ("d.jpg", b, false)
    }
    _ => {
      let n = r.range(0, 500);
      ("x.bin", r.bytes(n), true)
    }
  };
  let f = s.put(name, &bytes);
  let out = s.dir.join("o.dng");
  let usage: &[&str] = if must_fail { &["raw"] } else { &["exif", "xmp"] };
  let mut a: Vec<OsString> = vec!["makedng".into(), "-o".into(), out.clone().into(), "-i".into(), f.into(), "--map".into()];
  a.extend(usage.iter().map(|u| format!("0:{u}").into()));
  let x = run(&s, &a, &Opt { timeout: Some(std::time::Duration::from_secs(20)), ..Default::default() });
  let fail = |sig: &str, d: String| {
    let keep = format!("{}", bytes.iter().take(700).map(|b| format!("{b:02x}")).collect::<String>());
    bad(sig, format!("{d} ({name} {keep})"))
  };
  if x.timed_out {
    return fail("hang", "does not terminate".into());
  }
  if must_fail && x.ok() {
    return fail("garbage-accepted", "exit 0".into());
  }
  if !x.ok() && out.symlink_metadata().is_ok() {
    return fail("left-over", format!("output left behind: {}", x.brief()));
  }
  if x.ok() {
    let b = std::fs::read(&out).unwrap_or_default();
    match Tiff::parse(&b) {
      Ok(t) if t.problems.is_empty() => (),
      Ok(t) => return fail("malformed", t.problems.join("; ")),
      Err(e) => return fail("unparsable", e),
    }
  }
  ctx.count(if x.ok() { "damaged_ok" } else { "damaged_error" }, 1);
  Verdict::Held(hash_bytes(&bytes))
}

pub fn run26(ctx: Ctx) -> i32 {
  ctx.cases("assemble", ctx.n(900, 20000), |r, _| c26_case(&ctx, r));
  ctx.cases("default", ctx.n(80, 1500), |r, _| c26_default(&ctx, r));
  ctx.cases("errors", ctx.n(200, 5000), |r, _| c26_errors(&ctx, r));
  cleanup();
  ctx.finish(
    "exploration",
    "one case = one makedng run with generated inputs (DNG, PNG, TIFF, PNM, JPEG with Exif/XMP segments), random usage maps and options; the result is read by the independent parser and compared with every input and option",
    &["of a JPEG only the photo tags of the Exif IFD and the first XMP packet are transferred", "sRGB/gamma tables may differ by 6/65535 from the exact curve (32 bit arithmetic)"],
  )
}
