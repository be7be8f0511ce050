//! Independent reference of demosaicing and development, in interval arithmetic:
//! every value is the range of results that a correct single precision implementation may
//! produce (rounding, undecidable comparisons), so the comparison needs no ad hoc tolerance.
use rawler::imgop::{Dim2, Point, Rect};

#[derive(Clone, Copy, Debug)]
pub struct I {
  pub lo: f64,
  pub hi: f64,
}

const R: f64 = 3e-7;

fn widen(lo: f64, hi: f64, mag: f64) -> I {
  let e = mag.abs() * R + 1e-12;
  I { lo: lo - e, hi: hi + e }
}

impl I {
  pub fn pt(v: f64) -> I {
    I { lo: v, hi: v }
  }
  pub fn near(v: f64) -> I {
    widen(v, v, v)
  }
  pub fn mag(self) -> f64 {
    self.lo.abs().max(self.hi.abs())
  }
  pub fn add(self, o: I) -> I {
    widen(self.lo + o.lo, self.hi + o.hi, self.mag().max(o.mag()))
  }
  pub fn sub(self, o: I) -> I {
    widen(self.lo - o.hi, self.hi - o.lo, self.mag().max(o.mag()))
  }
  pub fn mul(self, o: I) -> I {
    let p = [self.lo * o.lo, self.lo * o.hi, self.hi * o.lo, self.hi * o.hi];
    let (l, h) = (p.iter().cloned().fold(f64::MAX, f64::min), p.iter().cloned().fold(f64::MIN, f64::max));
    widen(l, h, l.abs().max(h.abs()))
  }
  pub fn scale(self, k: f64) -> I {
    self.mul(I::pt(k))
  }
  pub fn abs(self) -> I {
    if self.lo >= 0.0 {
      self
    } else if self.hi <= 0.0 {
      I { lo: -self.hi, hi: -self.lo }
    } else {
      I { lo: 0.0, hi: self.hi.max(-self.lo) }
    }
  }
  pub fn hull(self, o: I) -> I {
    I { lo: self.lo.min(o.lo), hi: self.hi.max(o.hi) }
  }
  pub fn mono(self, f: impl Fn(f64) -> f64) -> I {
    I { lo: f(self.lo), hi: f(self.hi) }
  }
  pub fn has(self, v: f32) -> bool {
    let v = v as f64;
    let e = v.abs() * R + 1e-9;
    v >= self.lo - e && v <= self.hi + e
  }
  pub fn width(self) -> f64 {
    self.hi - self.lo
  }
}

/// Image of n channels; channel value None = never set (zero in the implementation).
#[derive(Clone)]
pub struct Img {
  pub w: usize,
  pub h: usize,
  pub n: usize,
  pub v: Vec<I>,
}

impl Img {
  pub fn new(w: usize, h: usize, n: usize) -> Img {
    Img { w, h, n, v: vec![I::pt(0.0); w * h * n] }
  }
  pub fn at(&self, x: usize, y: usize, c: usize) -> I {
    self.v[(y * self.w + x) * self.n + c]
  }
  pub fn set(&mut self, x: usize, y: usize, c: usize, v: I) {
    let n = self.n;
    self.v[(y * self.w + x) * n + c] = v;
  }
  pub fn crop(&self, r: Rect) -> Img {
    let mut o = Img::new(r.d.w, r.d.h, self.n);
    for y in 0..r.d.h {
      for x in 0..r.d.w {
        for c in 0..self.n {
          o.set(x, y, c, self.at(r.p.x + x, r.p.y + y, c));
        }
      }
    }
    o
  }
  pub fn full(&self) -> Rect {
    Rect::new(Point::new(0, 0), Dim2::new(self.w, self.h))
  }
}

/// Colour filter pattern: plane of each photosite, by full sensor coordinates
#[derive(Clone)]
pub struct Pat {
  pub w: usize,
  pub h: usize,
  pub p: Vec<usize>,
}

impl Pat {
  /// pattern string of a square/2 wide pattern and the plane order
  pub fn new(s: &str, planes: &str) -> Pat {
    let w = match s.len() {
      4 => 2,
      36 => 6,
      16 => 2,
      _ => 12,
    };
    Pat { w, h: s.len() / w, p: s.chars().map(|c| planes.find(c).unwrap()).collect() }
  }
  pub fn at(&self, x: usize, y: usize) -> usize {
    self.p[(y % self.h) * self.w + x % self.w]
  }
}

/// Average of the samples of each colour in a square window clipped at the borders; zero if none.
pub fn window_avg(raw: &Img, pat: &Pat, roi: Rect, rad: usize, n: usize, keep: bool, only: impl Fn(usize, usize) -> bool) -> Img {
  let mut o = Img::new(roi.d.w, roi.d.h, n);
  for y in 0..roi.d.h {
    for x in 0..roi.d.w {
      if !only(x, y) {
        continue;
      }
      for c in 0..n {
        if keep && pat.at(roi.p.x + x, roi.p.y + y) == c {
          o.set(x, y, c, raw.at(roi.p.x + x, roi.p.y + y, 0));
          continue;
        }
        let (mut s, mut k) = (I::pt(0.0), 0);
        for yy in y.saturating_sub(rad)..=(y + rad).min(roi.d.h - 1) {
          for xx in x.saturating_sub(rad)..=(x + rad).min(roi.d.w - 1) {
            if pat.at(roi.p.x + xx, roi.p.y + yy) == c {
              s = s.add(raw.at(roi.p.x + xx, roi.p.y + yy, 0));
              k += 1;
            }
          }
        }
        if k > 0 {
          o.set(x, y, c, s.scale(1.0 / k as f64));
        }
      }
    }
  }
  o
}

fn hue(l1: I, l2: I, l3: I, v1: I, v3: I) -> I {
  let lin = || {
    // (l2-l1)/(l3-l1), within 0..1
    let d = l3.sub(l1);
    let n = l2.sub(l1);
    let r = if d.lo > 0.0 || d.hi < 0.0 {
      let q = [n.lo / d.lo, n.lo / d.hi, n.hi / d.lo, n.hi / d.hi];
      widen(
        q.iter().cloned().fold(f64::MAX, f64::min).max(0.0),
        q.iter().cloned().fold(f64::MIN, f64::max).min(1.0),
        1.0,
      )
    } else {
      widen(0.0, 1.0, 1.0)
    };
    v1.add(v3.sub(v1).mul(r))
  };
  let mid = || v1.add(v3).scale(0.5).add(l2.scale(2.0).sub(l1).sub(l3).scale(0.25));
  let up = l1.hi < l2.lo && l2.hi < l3.lo;
  let down = l1.lo > l2.hi && l2.lo > l3.hi;
  if up || down {
    return lin();
  }
  let never_up = l1.lo >= l2.hi || l2.lo >= l3.hi;
  let never_down = l1.hi <= l2.lo || l2.hi <= l3.lo;
  if never_up && never_down {
    return mid();
  }
  lin().hull(mid())
}

/// Patterned pixel grouping (Chuan-kai Lin); the outer three pixels are averaged from their 3x3 window.
/// Planes: 0 red, 1 green, 2 blue.
pub fn ppg(raw: &Img, pat: &Pat, roi: Rect) -> Img {
  let (w, h) = (roi.d.w, roi.d.h);
  let inner = |x: usize, y: usize| x >= 3 && y >= 3 && x + 3 < w && y + 3 < h;
  let mut o = window_avg(raw, pat, roi, 1, 3, true, |x, y| !inner(x, y));
  let col = |x: usize, y: usize| pat.at(roi.p.x + x, roi.p.y + y);
  let m = |x: usize, y: usize| raw.at(roi.p.x + x, roi.p.y + y, 0);
  if w < 7 || h < 7 {
    return o;
  }
  for y in 3..h - 3 {
    for x in 3..w - 3 {
      o.set(x, y, col(x, y), m(x, y));
      if col(x, y) == 1 {
        continue;
      }
      // green: direction of the smallest gradient
      let c = m(x, y);
      let g = |dx: i64, dy: i64| m((x as i64 + dx) as usize, (y as i64 + dy) as usize);
      let cand: Vec<(I, I)> = [(0i64, -1i64), (1, 0), (-1, 0), (0, 1)]
        .iter()
        .map(|&(dx, dy)| {
          let (near, opp, far) = (g(dx, dy), g(-dx, -dy), g(2 * dx, 2 * dy));
          let grad = c.sub(far).abs().scale(2.0).add(near.sub(opp).abs());
          let val = near.scale(3.0).add(opp).add(c).sub(far).scale(0.25);
          (grad, val)
        })
        .collect();
      let min_hi = cand.iter().map(|k| k.0.hi).fold(f64::MAX, f64::min);
      let v = cand.iter().filter(|k| k.0.lo <= min_hi).map(|k| k.1).reduce(|a, b| a.hull(b)).unwrap();
      o.set(x, y, 1, v);
    }
  }
  let g0 = o.clone();
  let green = |x: usize, y: usize| g0.at(x, y, 1);
  for y in 3..h - 3 {
    for x in 3..w - 3 {
      if col(x, y) == 1 {
        let g = green(x, y);
        o.set(x, y, col(x + 1, y), hue(green(x - 1, y), g, green(x + 1, y), m(x - 1, y), m(x + 1, y)));
        o.set(x, y, col(x, y + 1), hue(green(x, y - 1), g, green(x, y + 1), m(x, y - 1), m(x, y + 1)));
      } else {
        let (c, g) = (m(x, y), green(x, y));
        let diag = |dx: i64| -> (I, I) {
          let p = |k: i64| ((x as i64 + k * dx) as usize, (y as i64 - k) as usize);
          let (a, b, a2, b2) = (p(1), p(-1), p(2), p(-2));
          let (ya, yb) = (m(a.0, a.1), m(b.0, b.1));
          let (ga, gb) = (green(a.0, a.1), green(b.0, b.1));
          let grad = ya
            .sub(yb)
            .abs()
            .add(m(a2.0, a2.1).sub(c).abs())
            .add(c.sub(m(b2.0, b2.1)).abs())
            .add(ga.sub(g).abs())
            .add(g.sub(gb).abs());
          (grad, hue(ga, g, gb, ya, yb))
        };
        let (ne, nw) = (diag(1), diag(-1));
        let v = if ne.0.hi < nw.0.lo {
          ne.1
        } else if nw.0.hi < ne.0.lo {
          nw.1
        } else {
          ne.1.hull(nw.1)
        };
        o.set(x, y, 2 - col(x, y), v);
      }
    }
  }
  o
}

/// Black/white scaling of a sensor sample: levels repeat over the image from its origin.
pub fn scaled(v: f64, black: f64, white: f64) -> I {
  let d = v - black;
  if d <= 0.0 {
    return I::pt(0.0);
  }
  let e = (v.abs().max(black.abs())) * 2e-7;
  let (n, m) = (I { lo: (d - e).max(0.0), hi: d + e }, white - black);
  let em = white.abs().max(black.abs()) * 2e-7;
  widen(n.lo / (m + em), n.hi / (m - em).max(1e-9), n.hi / m)
}

pub type M3 = [[f64; 3]; 3];

pub fn inv3(m: &M3) -> M3 {
  let c = |a: usize, b: usize, d: usize, e: usize| m[a][b] * m[d][e] - m[a][e] * m[d][b];
  let det = m[0][0] * c(1, 1, 2, 2) - m[0][1] * c(1, 0, 2, 2) + m[0][2] * c(1, 0, 2, 1);
  let mut r = [[0.0; 3]; 3];
  for i in 0..3 {
    for j in 0..3 {
      let (r0, r1) = ((j + 1) % 3, (j + 2) % 3);
      let (c0, c1) = ((i + 1) % 3, (i + 2) % 3);
      r[i][j] = (m[r0][c0] * m[r1][c1] - m[r0][c1] * m[r1][c0]) / det;
    }
  }
  r
}

pub fn mul3(a: &M3, b: &M3) -> M3 {
  let mut r = [[0.0; 3]; 3];
  for i in 0..3 {
    for j in 0..3 {
      r[i][j] = (0..3).map(|k| a[i][k] * b[k][j]).sum();
    }
  }
  r
}

/// linear sRGB -> XYZ (D65), IEC 61966-2-1 primaries
pub const SRGB: M3 = [
  [0.4124564, 0.3575761, 0.1804375],
  [0.2126729, 0.7151522, 0.0721750],
  [0.0193339, 0.1191920, 0.9503041],
];

const BRAD: M3 = [[0.8951, 0.2664, -0.1614], [-0.7502, 1.7135, 0.0367], [0.0389, -0.0685, 1.0296]];

/// Bradford transform taking XYZ under white point a to XYZ under white point b
pub fn bradford(a: [f64; 3], b: [f64; 3]) -> M3 {
  let lms = |w: [f64; 3]| [0, 1, 2].map(|i| (0..3).map(|k| BRAD[i][k] * w[k]).sum::<f64>());
  let (la, lb) = (lms(a), lms(b));
  let mut d = [[0.0; 3]; 3];
  for i in 0..3 {
    d[i][i] = lb[i] / la[i];
  }
  mul3(&inv3(&BRAD), &mul3(&d, &BRAD))
}

/// Camera (n planes) -> linear sRGB: white of the camera (1,..,1) maps to white.
/// Returns the matrix and an estimate of its condition (largest absolute entry products).
pub fn cam2rgb(xyz2cam: &[[f64; 3]]) -> (Vec<Vec<f64>>, f64) {
  let n = xyz2cam.len();
  let mut a: Vec<[f64; 3]> = xyz2cam.iter().map(|r| [0, 1, 2].map(|j| (0..3).map(|k| r[k] * SRGB[k][j]).sum())).collect();
  for row in a.iter_mut() {
    let s: f64 = row.iter().sum();
    if s != 0.0 {
      row.iter_mut().for_each(|v| *v /= s);
    }
  }
  let mut ata = [[0.0; 3]; 3];
  for i in 0..3 {
    for j in 0..3 {
      ata[i][j] = (0..n).map(|k| a[k][i] * a[k][j]).sum();
    }
  }
  let inv = inv3(&ata);
  let m: Vec<Vec<f64>> = (0..3).map(|i| (0..n).map(|j| (0..3).map(|k| inv[i][k] * a[j][k]).sum()).collect()).collect();
  let big = |it: &mut dyn Iterator<Item = f64>| it.map(f64::abs).fold(0.0, f64::max);
  let cond = big(&mut ata.iter().flatten().cloned()) * big(&mut inv.iter().flatten().cloned());
  (m, cond)
}

/// Highlights: a pixel with a component above 1 becomes the mean of the pixel scaled to maximum 1
/// and its normalised euclidean norm; negative components are zero.
pub fn highlights(p: &[I]) -> Vec<I> {
  let p: Vec<I> = p.iter().map(|v| v.mono(|x| x.max(0.0))).collect();
  let max = p.iter().cloned().reduce(|a, b| I { lo: a.lo.max(b.lo), hi: a.hi.max(b.hi) }).unwrap();
  if max.hi <= 1.0 {
    return p;
  }
  let clipped: Vec<I> = {
    let m = I { lo: max.lo.max(1.0), hi: max.hi };
    let sq = |f: &dyn Fn(I) -> f64| (p.iter().map(|v| f(*v).powi(2)).sum::<f64>() / p.len() as f64).sqrt();
    let (el, eh) = (sq(&|v: I| v.lo), sq(&|v: I| v.hi));
    p.iter()
      .map(|v| {
        let c = (v.lo / m.hi, (v.hi / m.lo).min(1.0));
        let (lo, hi) = ((c.0 + el) / 2.0, (c.1 + eh) / 2.0);
        widen(lo, hi, hi * 4.0)
      })
      .collect()
  };
  if max.lo > 1.0 { clipped } else { p.iter().zip(&clipped).map(|(a, b)| a.hull(*b)).collect() }
}

pub fn gamma(v: I) -> I {
  let f = |v: f64| if v <= 0.0031308 { v * 12.92 } else { 1.055 * v.powf(1.0 / 2.4) - 0.055 };
  let r = v.mono(f);
  I { lo: r.lo - 1.5e-5, hi: r.hi + 1.5e-5 }
}

/// 45 degree clockwise rotation of a Super CCD image, cropped to the inscribed rectangle
pub fn rotate45(src: &Img, t: usize) -> (Img, Vec<bool>) {
  let k = std::f64::consts::FRAC_1_SQRT_2;
  let (a, b) = ((t as f64 * 2f64.sqrt()) as usize, ((src.w as f64 - t as f64) * 2f64.sqrt()) as usize);
  let (w, h) = (a.max(b), a.min(b));
  let mut o = Img::new(w, h, src.n);
  let mut sure = vec![true; w * h];
  for y in 0..h {
    for x in 0..w {
      let (dx, dy) = (x as f64 - w as f64 / 2.0, y as f64 - h as f64 / 2.0);
      let (sx, sy) = ((dx + dy) * k + src.w as f64 / 2.0, (dy - dx) * k + src.h as f64 / 2.0);
      let near = |v: f64| (v - v.round()).abs() < 1e-6 || (v - v.floor() - 0.5).abs() < 1e-6;
      let edge = |v: f64, m: usize| v < 1.0 || v > m as f64 - 2.0;
      if (near(sx) && edge(sx, src.w)) || (near(sy) && edge(sy, src.h)) {
        sure[y * w + x] = false;
        continue;
      }
      let (rx, ry) = (sx.round(), sy.round());
      if rx < 0.0 || ry < 0.0 || rx >= src.w as f64 || ry >= src.h as f64 {
        continue;
      }
      let (x0, y0) = (sx.floor(), sy.floor());
      for c in 0..src.n {
        let v = if x0 < 0.0 || y0 < 0.0 || x0 + 1.0 >= src.w as f64 || y0 + 1.0 >= src.h as f64 {
          src.at(rx as usize, ry as usize, c)
        } else {
          let (fx, fy) = (sx - x0, sy - y0);
          let (xi, yi) = (x0 as usize, y0 as usize);
          src
            .at(xi, yi, c)
            .scale((1.0 - fx) * (1.0 - fy))
            .add(src.at(xi + 1, yi, c).scale(fx * (1.0 - fy)))
            .add(src.at(xi, yi + 1, c).scale((1.0 - fx) * fy))
            .add(src.at(xi + 1, yi + 1, c).scale(fx * fy))
        };
        let e = v.mag() * 1e-6;
        o.set(x, y, c, I { lo: v.lo - e, hi: v.hi + e });
      }
    }
  }
  (o, sure)
}

/// 90 degree clockwise rotation
pub fn rotate90(src: &Img) -> Img {
  let mut o = Img::new(src.h, src.w, src.n);
  for y in 0..src.h {
    for x in 0..src.w {
      for c in 0..src.n {
        o.set(src.h - 1 - y, x, c, src.at(x, y, c));
      }
    }
  }
  o
}
