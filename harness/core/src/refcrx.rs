//! Reference encoder for Canon's CRX codec (JPEG-LS style line coding, 5/3 wavelet, QP tables),
//! with an independent reconstruction model of what any CRX decoder has to output.
use crate::rng::Rng;

pub struct Bits {
  pub b: Vec<u8>,
  n: u32,
}
impl Bits {
  fn new() -> Self {
    Bits { b: vec![], n: 0 }
  }
  fn bit(&mut self, v: u32) {
    if self.n % 8 == 0 {
      self.b.push(0);
    }
    if v & 1 == 1 {
      *self.b.last_mut().unwrap() |= 0x80 >> (self.n % 8);
    }
    self.n += 1;
  }
  fn bits(&mut self, v: u32, n: u32) {
    for i in (0..n).rev() {
      self.bit(v >> i);
    }
  }
}

const J: [u32; 32] = [0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 9, 10, 11, 12, 13, 14, 15];

struct Coder {
  o: Bits,
  k: u32,
  s: usize,
  escapes: u64,
  runs: u64,
}

fn next_k(k: u32, code: u32, max: u32) -> u32 {
  let mut n = k as i64;
  n -= (code < (1 << k >> 1)) as i64;
  n += (code >> k > 2) as i64 + (code >> k > 5) as i64;
  if max > 0 { (n as u32).min(max) } else { n as u32 }
}
fn zig(v: i32) -> u32 {
  if v >= 0 { 2 * v as u32 } else { (-2 * v - 1) as u32 }
}
fn med(a: i32, b: i32, c: i32) -> i32 {
  let (lo, hi) = (a.min(b), a.max(b));
  (a + b - c).clamp(lo, hi)
}

impl Coder {
  fn rice(&mut self, v: u32, esc: u32, esc_bits: u32) {
    let q = v >> self.k;
    if q >= esc {
      assert!(v < 1 << esc_bits, "not representable");
      self.escapes += 1;
      for _ in 0..esc {
        self.o.bit(0);
      }
      self.o.bit(1);
      self.o.bits(v, esc_bits);
    } else {
      for _ in 0..q {
        self.o.bit(0);
      }
      self.o.bit(1);
      self.o.bits(v, self.k);
    }
  }
  /// code a value and adapt k
  fn val(&mut self, v: u32, max: u32) {
    self.rice(v, 41, 21);
    self.k = next_k(self.k, v, max);
  }
  /// code a run of n (1..=rem) equal symbols, the leading 1 flag included
  fn run(&mut self, n: u32, rem: u32) {
    self.runs += 1;
    self.o.bit(1);
    let mut c = 1;
    while c != rem {
      let step = 1 << J[self.s];
      if c + step <= n || n == rem {
        self.o.bit(1);
        c += step;
        if c > rem {
          return;
        }
        self.s = (self.s + 1).min(31);
      } else {
        self.o.bit(0);
        self.o.bits(n - c, J[self.s]);
        self.s = self.s.saturating_sub(1);
        return;
      }
    }
  }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
  NoRef,
  Med,
  Rounded(i32),
}

/// Encode one band; returns the stream and the values a decoder reconstructs.
pub fn band(v: &[i32], w: usize, h: usize, mode: Mode, stat: &mut [u64; 2]) -> (Vec<u8>, Vec<i32>) {
  let mut c = Coder { o: Bits::new(), k: 0, s: 0, escapes: 0, runs: 0 };
  let mut rec = vec![0i32; w * h];
  let mut lk = vec![0u32; w + 2];
  // c b d / a x with one guard on both sides
  let mut prev = vec![0i32; w + 2];
  for y in 0..h {
    let src = &v[y * w..][..w];
    let mut cur = vec![0i32; w + 2];
    let top = y == 0;
    match mode {
      Mode::NoRef => {
        let mut i = 0;
        cur[1..=w].copy_from_slice(src);
        while w - i > 1 {
          let quiet = cur[i] == 0 && (top || prev[i + 1] == 0 && prev[i + 2] == 0);
          let adapt = |c: &mut Coder, lk: &[u32], i: usize, code: u32| {
            if top {
              c.val(code, 15);
            } else {
              c.val(code, 0);
              if lk[i + 1] as i64 - c.k as i64 <= 1 {
                c.k = c.k.min(15);
              } else {
                c.k += 1;
              }
            }
          };
          if !quiet {
            adapt(&mut c, &lk, i, zig(src[i]));
          } else {
            let n = src[i..].iter().take_while(|x| **x == 0).count();
            if n > 0 {
              c.run(n as u32, (w - i) as u32);
              lk[i..i + n].fill(0);
              i += n;
              if i == w {
                break;
              }
            } else {
              c.o.bit(0);
            }
            if w - i == 1 {
              c.val(zig(src[i]) - 1, 15);
              lk[i] = c.k;
              i += 1;
              break;
            }
            adapt(&mut c, &lk, i, zig(src[i]) - 1);
          }
          lk[i] = c.k;
          i += 1;
        }
        if w - i == 1 {
          c.val(zig(src[i]), 15);
          lk[i] = c.k;
        }
      }
      Mode::Med => {
        let mut i = 0;
        cur[1..=w].copy_from_slice(src);
        if top {
          while w - i > 1 {
            let mut p = cur[i];
            if p == 0 {
              let n = src[i..].iter().take_while(|x| **x == 0).count();
              if n > 0 {
                c.run(n as u32, (w - i) as u32);
                i += n;
                if i == w {
                  break;
                }
              } else {
                c.o.bit(0);
              }
              p = 0;
            }
            c.val(zig(src[i] - p), 15);
            i += 1;
          }
          if w - i == 1 {
            c.val(zig(src[i] - cur[i]), 15);
          }
        } else {
          cur[0] = prev[1];
          while w - i > 1 {
            let (a, b, cc, d) = (cur[i], prev[i + 1], prev[i], prev[i + 2]);
            let mut p = med(a, b, cc);
            if a == b && a == d {
              let n = src[i..].iter().take_while(|x| **x == a).count();
              if n > 0 {
                c.run(n as u32, (w - i) as u32);
                i += n;
                if i == w {
                  break;
                }
              } else {
                c.o.bit(0);
              }
              p = prev[i + 1];
            }
            let code = zig(src[i] - p);
            c.rice(code, 41, 21);
            let est = if w - i > 1 { (code + 2 * (prev[i + 2] - prev[i + 1]).unsigned_abs()) >> 1 } else { code };
            c.k = next_k(c.k, est, 15);
            i += 1;
          }
          if w - i == 1 {
            c.val(zig(src[i] - med(cur[i], prev[i + 1], prev[i])), 15);
          }
        }
        cur[w + 1] = cur[w] + 1;
      }
      Mode::Rounded(m) => {
        let rb = match m {
          1 => 1,
          2 => 2,
          _ => 3,
        };
        // nearest reachable code and its value
        let q = |t: i32, p: i32| -> (i32, i32) {
          let d = t - p;
          if d >= 0 {
            let k = (d + m) / (2 * m);
            (k, p + 2 * m * k)
          } else {
            let k = (-d - 1 + m) / (2 * m);
            if k == 0 { (0, p) } else { (-k, p - 2 * m * k - 1) }
          }
        };
        let mut i = 0;
        if top {
          while w - i > 1 {
            let mut p = cur[i];
            if p.abs() <= m {
              let n = src[i..].iter().take_while(|x| (**x - p).abs() <= m).count();
              if n > 0 {
                c.run(n as u32, (w - i) as u32);
                for _ in 0..n {
                  cur[i + 1] = p;
                  i += 1;
                }
                if i == w {
                  break;
                }
              } else {
                c.o.bit(0);
              }
              p = 0;
            }
            let (code, x) = q(src[i], p);
            c.val(zig(code), 15);
            cur[i + 1] = x;
            i += 1;
          }
          if w - i == 1 {
            // the last symbol of the first line has no prediction
            let (code, x) = q(src[i], 0);
            c.val(zig(code), 15);
            cur[i + 1] = x;
          }
        } else {
          prev[0] = prev[1];
          cur[0] = prev[1];
          let sym = |c: &mut Coder, cur: &mut [i32], i: usize, med_p: bool, ahead: bool| {
            let (a, b, cc, d) = (cur[i], prev[i + 1], prev[i], prev[i + 2]);
            let (code, x) = q(src[i], if med_p { med(a, b, cc) } else { b });
            cur[i + 1] = x;
            let z = zig(code);
            c.rice(z, 41, 21);
            let est = if ahead {
              let g = if d > b { (d - b + m - 1) >> rb } else { (b - d + m) >> rb };
              (z + 2 * g as u32) >> 1
            } else {
              z
            };
            c.k = next_k(c.k, est, 15);
          };
          let mut reached = false;
          while w - i > 1 {
            let (a, b, cc, d) = (cur[i], prev[i + 1], prev[i], prev[i + 2]);
            if (d - b).abs() > m {
              sym(&mut c, &mut cur, i, true, true);
              reached = true;
            } else if reached || (cc - a).abs() > m {
              sym(&mut c, &mut cur, i, true, true);
              reached = false;
            } else {
              let n = src[i..].iter().take_while(|x| (**x - a).abs() <= m).count();
              if n > 0 {
                c.run(n as u32, (w - i) as u32);
                for _ in 0..n {
                  cur[i + 1] = a;
                  i += 1;
                }
              } else {
                c.o.bit(0);
              }
              if w - i > 1 {
                sym(&mut c, &mut cur, i, false, true);
                reached = (prev[i + 2] - prev[i + 1]).abs() > m;
              } else if w - i == 1 {
                sym(&mut c, &mut cur, i, false, false);
              } else {
                break;
              }
            }
            i += 1;
          }
          if w - i == 1 {
            sym(&mut c, &mut cur, i, true, false);
          }
        }
        cur[w + 1] = cur[w] + 1;
      }
    }
    rec[y * w..][..w].copy_from_slice(&cur[1..=w]);
    prev = cur;
  }
  stat[0] += c.escapes;
  stat[1] += c.runs;
  (c.o.b, rec)
}

#[derive(Clone)]
pub struct Im {
  pub w: usize,
  pub h: usize,
  pub v: Vec<i32>,
}
impl Im {
  fn new(w: usize, h: usize) -> Im {
    Im { w, h, v: vec![0; w * h] }
  }
  fn t(&self) -> Im {
    let mut o = Im::new(self.h, self.w);
    for y in 0..self.h {
      for x in 0..self.w {
        o.v[x * self.h + y] = self.v[y * self.w + x];
      }
    }
    o
  }
  fn window(&self, x: isize, y: isize, w: usize, h: usize) -> Im {
    let mut o = Im::new(w, h);
    for j in 0..h {
      for i in 0..w {
        o.v[j * w + i] = self.v[(y + j as isize) as usize * self.w + (x + i as isize) as usize];
      }
    }
    o
  }
}

fn fwd1(x: &[i32]) -> (Vec<i32>, Vec<i32>) {
  let n = x.len();
  let (nl, nh) = ((n + 1) / 2, n / 2);
  let h: Vec<i32> = (0..nh).map(|k| x[2 * k + 1] - ((x[2 * k] + x.get(2 * k + 2).copied().unwrap_or(x[2 * k])) >> 1)).collect();
  let hh = |k: isize| h[(k.max(0) as usize).min(nh - 1)];
  let l = (0..nl).map(|k| if nh == 0 { x[0] } else { x[2 * k] + ((hh(k as isize - 1) + hh(k as isize) + 2) >> 2) }).collect();
  (l, h)
}

/// Inverse lifting of `n` samples; `left`: h starts one coefficient before the first sample.
fn inv1(l: &[i32], h: &[i32], left: bool, n: usize) -> Vec<i32> {
  let hh = |k: isize| {
    let k = k + left as isize;
    h[(k.max(0) as usize).min(h.len() - 1)]
  };
  let ev = |k: usize| l[k] - ((hh(k as isize - 1) + hh(k as isize) + 2) >> 2);
  (0..n)
    .map(|i| {
      if i % 2 == 0 {
        ev(i / 2)
      } else {
        let a = ev(i / 2);
        let b = if i / 2 + 1 < l.len() { ev(i / 2 + 1) } else { a };
        hh((i / 2) as isize) + ((a + b) >> 1)
      }
    })
    .collect()
}

fn fwd_rows(im: &Im) -> (Im, Im) {
  let (nl, nh) = ((im.w + 1) / 2, im.w / 2);
  let (mut a, mut b) = (Im::new(nl, im.h), Im::new(nh, im.h));
  for y in 0..im.h {
    let (l, h) = fwd1(&im.v[y * im.w..][..im.w]);
    a.v[y * nl..][..nl].copy_from_slice(&l);
    b.v[y * nh..][..nh].copy_from_slice(&h);
  }
  (a, b)
}
fn inv_rows(l: &Im, h: &Im, left: bool, n: usize) -> Im {
  let mut o = Im::new(n, l.h);
  for y in 0..l.h {
    let r = inv1(&l.v[y * l.w..][..l.w], &h.v[y * h.w..][..h.w], left, n);
    o.v[y * n..][..n].copy_from_slice(&r);
  }
  o
}
/// (LL, HL, LH, HH): vertical first, so that the inverse goes horizontal first
fn fwd2(im: &Im) -> [Im; 4] {
  let (lv, hv) = fwd_rows(&im.t());
  let (ll, hl) = fwd_rows(&lv.t());
  let (lh, hh) = fwd_rows(&hv.t());
  [ll, hl, lh, hh]
}
fn inv2(b: &[&Im; 4], left: bool, top: bool, w: usize, h: usize) -> Im {
  let l = inv_rows(b[0], b[1], left, w);
  let hi = inv_rows(b[2], b[3], left, w);
  inv_rows(&l.t(), &hi.t(), top, h).t()
}

#[derive(Clone, Debug)]
pub struct Spec {
  pub w: usize,
  pub h: usize,
  pub tw: usize,
  pub th: usize,
  pub bits: u32,
  pub enc: u8,
  pub levels: usize,
  pub v2: bool,
  pub partial: bool,
  pub round: u32,
  pub lossless: bool,
  /// padded tile headers
  pub pad: bool,
}

pub struct Out {
  pub cmp1: Vec<u8>,
  pub data: Vec<u8>,
  pub cfa: Vec<u16>,
  pub escapes: u64,
  pub runs: u64,
  /// planes the decoder reconstructs equal the source planes
  pub exact: bool,
}

const QT: [u32; 6] = [0x28, 0x2D, 0x33, 0x39, 0x40, 0x48];
fn q_lookup(q: u32) -> u32 {
  if q / 6 >= 6 { QT[q as usize % 6] << (q / 6 - 6) } else { QT[q as usize % 6] >> (6 - q / 6) }
}

/// QP table coding of one tile
fn qp_stream(qp: &[i32], w: usize, h: usize) -> Vec<u8> {
  let mut c = Coder { o: Bits::new(), k: 0, s: 0, escapes: 0, runs: 0 };
  let mut prev = vec![0i32; w + 2];
  for y in 0..h {
    let mut cur = vec![0i32; w + 2];
    if y > 0 {
      cur[0] = prev[1];
    }
    for x in 0..w {
      let t = qp[y * w + x] - 4;
      let (a, b, cc, d) = (cur[x], prev[x + 1], prev[x], prev[x + 2]);
      let p = if y == 0 {
        a
      } else {
        let (dh, dv) = (b - cc, cc - a);
        match ((dv < 0) != (dh < 0), (a < b) != (dh < 0)) {
          (false, _) => a + dh,
          (true, false) => a,
          (true, true) => b,
        }
      };
      let z = zig(t - p);
      c.rice(z, 23, 8);
      let est = if y > 0 && x + 1 < w { (z + 2 * (d - b).unsigned_abs()) >> 1 } else { z };
      c.k = next_k(c.k, est, 7);
      cur[x + 1] = t;
    }
    cur[w + 1] = cur[w] + 1;
    prev = cur;
  }
  c.o.b
}

fn pad8(v: &mut Vec<u8>, r: &mut Rng, extra: bool) -> usize {
  let n = v.len();
  if n == 0 {
    v.push(0);
  }
  while v.len() % 8 != 0 {
    v.push(if extra { r.u8() } else { 0 });
  }
  if extra && r.chance(1, 4) {
    v.extend(r.bytes(8));
  }
  v.len() - n
}

pub fn build(r: &mut Rng, s: &Spec, planes: &[Im; 4]) -> Option<Out> {
  let (cols, rows) = (s.w.div_ceil(s.tw), s.h.div_ceil(s.th));
  let (pw, ph) = (s.w / 2, s.h / 2);
  // band pyramid of whole planes: pyr[plane][depth] = [LL,HL,LH,HH], depth 0 finest
  let pyr: Vec<Vec<[Im; 4]>> = planes
    .iter()
    .map(|p| {
      let mut v: Vec<[Im; 4]> = vec![];
      for d in 0..s.levels {
        let b = fwd2(if d == 0 { p } else { &v[d - 1][0] });
        v.push(b);
      }
      v
    })
    .collect();
  let mut stat = [0u64; 2];
  let (mut hdr, mut data) = (vec![], vec![]);
  let mut rec: Vec<Im> = (0..4).map(|_| Im::new(pw, ph)).collect();
  let mm: u16 = if s.v2 { 0x10 } else { 0 };
  for t in 0..cols * rows {
    let (tc, tr) = (t % cols, t / cols);
    let (left, right, top, bottom) = (tc > 0, tc + 1 < cols, tr > 0, tr + 1 < rows);
    let tw = if right { s.tw } else { s.w - s.tw * (cols - 1) } / 2;
    let th = if bottom { s.th } else { s.h - s.th * (rows - 1) } / 2;
    let (x0, y0) = (tc * s.tw / 2, tr * s.th / 2);
    // geometry per depth: (L width, H width, L height, H height), each with its overlap
    let mut geo = vec![];
    let (mut bw, mut bh) = (tw, th);
    for _ in 0..s.levels {
      let (ow, oh) = (bw & 1, bh & 1);
      bw = (bw + 1) / 2;
      bh = (bh + 1) / 2;
      geo.push((bw + right as usize, bw - ow + left as usize + right as usize, bh + bottom as usize, bh - oh + top as usize + bottom as usize));
    }
    let has_qp = s.v2 && s.levels > 0;
    let (qw, qh) = (tw.div_ceil(8), th.div_ceil(2));
    let mut steps: Vec<(usize, Vec<u32>)> = vec![]; // by level 1..=3
    let mut qp_bytes = vec![];
    let mut qp_extra = 0;
    if has_qp {
      let hi = if s.lossless { 4 } else { *r.pick(&[4, 12, 30, 44]) };
      let base = r.range(4.min(hi), hi) as i32;
      let mut qp = vec![0i32; qw * qh];
      let mut cur = base;
      for q in qp.iter_mut() {
        if !s.lossless && r.chance(1, 4) {
          cur = (cur + r.range(0, 8) as i32 - 4).clamp(0, 50);
        }
        *q = if s.lossless { 4 } else { cur };
      }
      qp_bytes = qp_stream(&qp, qw, qh);
      let n = qp_bytes.len();
      // size and alignment rest
      qp_extra = (8 - n % 8) % 8;
      qp_bytes.extend(r.bytes(qp_extra));
      for level in 1..=s.levels {
        let f = 1 << (level - 1);
        let n = th.div_ceil(1 << level);
        let mut tab = vec![];
        for y in 0..n {
          for x in 0..qw {
            let sum: i32 = (0..f).map(|j| qp[(f * y + j).min(qh - 1) * qw + x]).sum();
            tab.push(q_lookup((sum / f as i32) as u32));
          }
        }
        steps.push((n, tab));
      }
    }
    let mut plane_hdr = vec![];
    let mut plane_data = vec![];
    for p in 0..4 {
      let mut bands: Vec<(Im, usize, (bool, bool), Im)> = vec![]; // source, level, (h high, v high), rec
      if s.levels == 0 {
        let im = planes[p].window(x0 as isize, y0 as isize, tw, th);
        bands.push((im.clone(), 0, (false, false), im));
      } else {
        for d in (0..s.levels).rev() {
          let g = geo[d];
          let (sx, sy) = ((x0 >> (d + 1)) as isize, (y0 >> (d + 1)) as isize);
          let b = &pyr[p][d];
          let (lx, ly) = (sx - left as isize, sy - top as isize);
          if d == s.levels - 1 {
            bands.push((b[0].window(sx, sy, g.0, g.2), d + 1, (false, false), Im::new(0, 0)));
          }
          bands.push((b[1].window(lx, sy, g.1, g.2), d + 1, (true, false), Im::new(0, 0)));
          bands.push((b[2].window(sx, ly, g.0, g.3), d + 1, (false, true), Im::new(0, 0)));
          bands.push((b[3].window(lx, ly, g.1, g.3), d + 1, (true, true), Im::new(0, 0)));
        }
      }
      let mut band_hdr = vec![];
      let mut band_data = vec![];
      for (id, b) in bands.iter_mut().enumerate() {
        let (w, h) = (b.0.w, b.0.h);
        let mode = match (id == 0 && s.partial, s.round) {
          (false, _) => Mode::NoRef,
          (true, 0) => Mode::Med,
          (true, n) => Mode::Rounded(1 << (n - 1)),
        };
        // quantiser of every coefficient
        let (mut q_param, mut q_base, mut q_mul) = (4u32, 0i32, 0u16);
        let mut st = vec![1i32; w * h];
        if s.levels > 0 {
          if !s.v2 {
            if !s.lossless {
              q_param = if id == 0 { *r.pick(&[4, 4, 5, 10]) } else { r.range(4, 42) as u32 };
            }
            st.fill(q_lookup(q_param) as i32);
          } else {
            if s.lossless {
              q_base = r.range(0, 1) as i32;
            } else {
              q_mul = r.range(0, if id == 0 { 8 } else { 24 }) as u16;
              q_base = r.range(0, 8) as i32 - 4;
            }
            let (n, tab) = &steps[b.1 - 1];
            // overlap coefficients use the tile's own outermost step
            let (cs, ce) = if b.2.0 { (left as usize, right as usize) } else { (0, right as usize) };
            let (rs, re) = if b.2.1 { (top as usize, bottom as usize) } else { (0, bottom as usize) };
            for y in 0..h {
              let yy = y.saturating_sub(rs).min(h - rs - re - 1).min(n - 1);
              for x in 0..w {
                let xx = x.saturating_sub(cs).min(w - cs - ce - 1) >> (3 - b.1);
                st[y * w + x] = (q_base + ((tab[yy * qw + xx] * q_mul as u32) >> 3) as i32).clamp(1, 0x168000);
              }
            }
          }
        }
        let codes: Vec<i32> = b.0.v.iter().zip(&st).map(|(v, q)| if *q == 1 { *v } else { (v + v.signum() * (q / 2)) / q }).collect();
        let empty = s.levels > 0 && codes.iter().all(|x| *x == 0) && r.chance(1, 3);
        let (mut bytes, got) = if empty { (vec![], codes.clone()) } else { band(&codes, w, h, mode, &mut stat) };
        b.3 = Im { w, h, v: got.iter().zip(&st).map(|(a, q)| a * q).collect() };
        let unused = pad8(&mut bytes, r, true);
        let cnt = id as u32 & 0xf;
        band_hdr.extend((0xff03u16 + mm).to_be_bytes());
        band_hdr.extend((if s.v2 { 16u16 } else { 8 }).to_be_bytes());
        band_hdr.extend((bytes.len() as u32).to_be_bytes());
        if s.v2 {
          band_hdr.extend(((cnt << 12) as u16).to_be_bytes());
          band_hdr.extend(q_mul.to_be_bytes());
          band_hdr.extend(q_base.to_be_bytes());
          band_hdr.extend((unused as u16).to_be_bytes());
          band_hdr.extend([0, 0]);
        } else {
          band_hdr.extend((cnt << 28 | q_param << 19 | unused as u32).to_be_bytes());
        }
        band_data.extend(bytes);
      }
      // reconstruct
      let mut cur = bands[0].3.clone();
      for (i, d) in (0..s.levels).rev().enumerate() {
        let (w, h) = if d == 0 { (tw, th) } else { (geo[d - 1].0, geo[d - 1].2) };
        let b = [&cur, &bands[3 * i + 1].3, &bands[3 * i + 2].3, &bands[3 * i + 3].3];
        cur = inv2(&b, left, top, w, h);
      }
      for y in 0..th {
        rec[p].v[(y0 + y) * pw + x0..][..tw].copy_from_slice(&cur.v[y * tw..][..tw]);
      }
      plane_hdr.extend((0xff02u16 + mm).to_be_bytes());
      plane_hdr.extend(8u16.to_be_bytes());
      plane_hdr.extend((band_data.len() as u32).to_be_bytes());
      plane_hdr.extend(((p as u32) << 28 | (s.partial as u32) << 27 | s.round << 25).to_be_bytes());
      plane_hdr.extend(band_hdr);
      plane_data.extend(band_data);
    }
    hdr.extend((0xff01u16 + mm).to_be_bytes());
    hdr.extend((if has_qp { 16u16 } else { 8 }).to_be_bytes());
    hdr.extend(((plane_data.len() + qp_bytes.len()) as u32).to_be_bytes());
    hdr.extend(((t as u32 & 0xf) << 16 | if has_qp { 0x4000 } else { 0 }).to_be_bytes());
    if has_qp {
      hdr.extend(((qp_bytes.len() - qp_extra) as u32).to_be_bytes());
      hdr.extend((qp_extra as u16).to_be_bytes());
      hdr.extend([0, 0]);
    }
    hdr.extend(plane_hdr);
    data.extend(qp_bytes);
    data.extend(plane_data);
  }
  if s.pad || hdr.len() % 4 != 0 {
    hdr.extend([0u8; 8]);
    while hdr.len() % 8 != 0 {
      hdr.push(0);
    }
  }
  // planes to CFA
  let max = (1i64 << s.bits) - 1;
  let med = 1i64 << (s.bits - 1);
  let mut cfa = vec![0u16; s.w * s.h];
  for y in 0..ph {
    for x in 0..pw {
      let p: Vec<i64> = rec.iter().map(|m| m.v[y * pw + x] as i64).collect();
      let o = if s.enc == 0 {
        [p[0] + med, p[1] + med, p[2] + med, p[3] + med]
      } else {
        let base = (med + p[0]) * 1024;
        // the median is added before scaling
        let base = base.min(i64::MAX);
        let g = base - 168 * p[1] - 585 * p[3];
        // green sum, rounded to an even number away from zero symmetrically
        let gr = g.signum() * (((g.abs() + 512) / 512) & !1);
        let d = |a: i64| a.div_euclid(1024);
        [d(base + 1510 * p[3] + 512), (p[2] + gr + 1).div_euclid(2), (gr - p[2] + 1).div_euclid(2), d(base + 1927 * p[1] + 512)]
      };
      for (i, v) in o.iter().enumerate() {
        cfa[(2 * y + i / 2) * s.w + 2 * x + i % 2] = (*v).clamp(0, max) as u16;
      }
    }
  }
  let exact = rec.iter().zip(planes).all(|(a, b)| a.v == b.v);
  if s.lossless && !exact && s.round == 0 {
    panic!("reference CRX model does not invert itself: {s:?}");
  }
  let mut cmp1 = vec![];
  cmp1.extend((-1i16).to_be_bytes());
  cmp1.extend(0x30u16.to_be_bytes());
  cmp1.extend((if s.v2 { 0x200u16 } else { 0x100 }).to_be_bytes());
  cmp1.extend(0u16.to_be_bytes());
  for v in [s.w, s.h, s.tw, s.th] {
    cmp1.extend((v as u32).to_be_bytes());
  }
  cmp1.push(s.bits as u8);
  cmp1.push(0x40);
  cmp1.push(s.enc << 4 | s.levels as u8);
  cmp1.push(((cols > 1) as u8) << 7 | (rows > 1) as u8);
  cmp1.extend((hdr.len() as u32).to_be_bytes());
  cmp1.extend(0u32.to_be_bytes());
  cmp1.extend([0u8; 16]);
  let mut all = hdr;
  all.extend(data);
  Some(Out { cmp1, data: all, cfa, escapes: stat[0], runs: stat[1], exact })
}

/// A random legal geometry and mode.
pub fn spec(r: &mut Rng) -> Spec {
  let levels = *r.pick(&[0usize, 0, 1, 2, 3, 3]);
  let multi_c = r.chance(1, 2);
  let multi_r = r.chance(1, 3);
  let unit = 2usize << levels;
  let dim = |r: &mut Rng, multi: bool| -> (usize, usize) {
    if !multi {
      let n = 2 * r.range(11, 70);
      return (n, n + if r.chance(1, 3) { 2 * r.range(0, 20) } else { 0 });
    }
    let t = (r.range(22, 90).div_ceil(unit)) * unit;
    let n = r.range(2, 3);
    let last = (2 * r.range(11, t.max(24) / 2)).min(t);
    (t * (n - 1) + last, t)
  };
  let (w, tw) = dim(r, multi_c);
  let (h, th) = dim(r, multi_r);
  let partial = r.chance(3, 4);
  Spec {
    w,
    h,
    tw,
    th,
    bits: r.range(10, 16) as u32,
    enc: *r.pick(&[0, 0, 0, 3]),
    levels,
    v2: r.bool(),
    partial,
    round: if partial && r.chance(1, 4) { r.range(1, 3) as u32 } else { 0 },
    lossless: levels == 0 || r.chance(1, 3),
    pad: r.bool(),
  }
}

pub fn planes(r: &mut Rng, s: &Spec) -> [Im; 4] {
  let (pw, ph) = (s.w / 2, s.h / 2);
  let half = 1i32 << (s.bits - 1);
  let style = r.range(0, 5);
  std::array::from_fn(|_| {
    let mut im = Im::new(pw, ph);
    let base = r.range(0, 2 * half as usize - 1) as i32 - half;
    let (gx, gy) = (r.range(0, 40) as i32 - 20, r.range(0, 40) as i32 - 20);
    for y in 0..ph {
      let mut flat = if style == 3 { 0 } else { base };
      for x in 0..pw {
        let v = match style {
          0 => base + gx * x as i32 + gy * y as i32 + r.range(0, 15) as i32,
          1 => r.range(0, 2 * half as usize - 1) as i32 - half,
          2 | 3 => {
            if r.chance(1, 12) {
              flat = if r.bool() { 0 } else { r.range(0, 2 * half as usize - 1) as i32 - half };
            }
            flat
          }
          4 => {
            if r.chance(1, 30) { *r.pick(&[-half, half - 1]) } else { r.range(0, 6) as i32 - 3 }
          }
          _ => ((x as i32 / 5 + y as i32 / 7) % 3 - 1) * (half / 3),
        };
        im.v[y * pw + x] = v.clamp(-half, half - 1);
      }
    }
    im
  })
}
