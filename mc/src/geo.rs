//! Exact integer geometry (the reference models) and conversions to the crate's vector types.
#![allow(dead_code)]
use vector_traits::num_traits::{FromPrimitive, ToPrimitive};
use vector_traits::{GenericVector2, GenericVector3, HasXY, HasXYZ};

pub type P = (i64, i64);
pub type P3 = (i64, i64, i64);

pub fn sc<S: FromPrimitive>(v: f64) -> S {
    S::from_f64(v).expect("scalar")
}
pub fn f<S: ToPrimitive>(v: S) -> f64 {
    v.to_f64().expect("scalar")
}
thread_local! {
    /// Every length is multiplied with this factor on the way to the code under test, and divided by it
    /// on the way back: (for 64 bit scalars, for 32 bit scalars). Powers of two or so short that nothing is rounded.
    static SCALE: std::cell::Cell<(f64, f64)> = const { std::cell::Cell::new((1.0, 1.0)) };
}
pub fn with_scale<R>(exp: (i32, i32), body: impl FnOnce() -> R) -> R {
    with_factor((2f64.powi(exp.0), 2f64.powi(exp.1)), body)
}
/// Factors with many digits: small integers times the factor are exact, but not as a shorter number
pub fn in_many_digits<R>(body: impl FnOnce() -> R) -> R {
    with_factor((1.0 + 2f64.powi(-40), 1.0 + 2f64.powi(-12)), body)
}
fn with_factor<R>(factor: (f64, f64), body: impl FnOnce() -> R) -> R {
    struct Reset((f64, f64));
    impl Drop for Reset {
        fn drop(&mut self) {
            SCALE.set(self.0)
        }
    }
    let _r = Reset(SCALE.replace(factor));
    body()
}
/// the factor for scalars of this type
pub fn factor<S>() -> f64 {
    let (a, b) = SCALE.get();
    if std::mem::size_of::<S>() == 4 {
        b
    } else {
        a
    }
}
/// a length (tolerance, step) in the current scale
pub fn len<S: FromPrimitive>(v: f64) -> S {
    sc(v * factor::<S>())
}
pub fn unlen<S: ToPrimitive>(v: S) -> f64 {
    f(v) / factor::<S>()
}
/// a squared length back in units
pub fn unlen2<S: ToPrimitive>(v: S) -> f64 {
    f(v) / factor::<S>() / factor::<S>()
}
thread_local! {
    /// The sign of the zeros: (a pattern of 5 bits, the zeros made so far). The n-th zero coordinate is
    /// negative when bit n mod 5 of the pattern is set. It makes no difference to any value.
    static ZEROS: std::cell::Cell<(u8, u8)> = const { std::cell::Cell::new((0, 0)) };
}
pub fn with_zero_pattern<R>(pattern: u8, body: impl FnOnce() -> R) -> R {
    struct Reset((u8, u8));
    impl Drop for Reset {
        fn drop(&mut self) {
            ZEROS.set(self.0)
        }
    }
    let _r = Reset(ZEROS.replace((pattern, 0)));
    body()
}
fn zero(v: f64) -> f64 {
    if v == 0.0 {
        let (pattern, n) = ZEROS.get();
        if pattern != 0 {
            ZEROS.set((pattern, (n + 1) % 5));
            if pattern >> n & 1 != 0 {
                return -0.0;
            }
        }
    }
    v
}
pub fn v2<T: HasXY>(x: f64, y: f64) -> T {
    T::new_2d(len(zero(x)), len(zero(y)))
}
pub fn v3<T: HasXYZ>(x: f64, y: f64, z: f64) -> T {
    T::new_3d(len(zero(x)), len(zero(y)), len(zero(z)))
}
pub fn m2<T: GenericVector2>(p: P) -> T {
    v2(p.0 as f64, p.1 as f64)
}
pub fn m3<T: GenericVector3>(p: P3) -> T {
    v3(p.0 as f64, p.1 as f64, p.2 as f64)
}
pub fn ms2<T: GenericVector2>(p: &[P]) -> Vec<T> {
    p.iter().map(|p| m2(*p)).collect()
}
pub fn ms3<T: GenericVector3>(p: &[P3]) -> Vec<T> {
    p.iter().map(|p| m3(*p)).collect()
}
pub fn un2<T: HasXY>(v: T) -> (f64, f64) {
    (unlen(v.x()), unlen(v.y()))
}
pub fn un3<T: HasXYZ>(v: T) -> (f64, f64, f64) {
    (unlen(v.x()), unlen(v.y()), unlen(v.z()))
}
/// back to an integer point; None when a coordinate is not an integer
pub fn int2<T: HasXY>(v: T) -> Option<P> {
    let (x, y) = un2(v);
    if x.fract() == 0.0 && y.fract() == 0.0 {
        Some((x as i64, y as i64))
    } else {
        None
    }
}
pub fn int3<T: HasXYZ>(v: T) -> Option<P3> {
    let (x, y, z) = un3(v);
    if x.fract() == 0.0 && y.fract() == 0.0 && z.fract() == 0.0 {
        Some((x as i64, y as i64, z as i64))
    } else {
        None
    }
}
pub fn ints2<T: HasXY>(v: &[T]) -> Option<Vec<P>> {
    v.iter().map(|p| int2(*p)).collect()
}

pub fn cross(a: P, b: P, c: P) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn dot(a: P, b: P) -> i64 {
    a.0 * b.0 + a.1 * b.1
}
pub fn sub(a: P, b: P) -> P {
    (a.0 - b.0, a.1 - b.1)
}
pub fn d2(a: P, b: P) -> i64 {
    let d = sub(a, b);
    dot(d, d)
}

/// The strictly convex hull, counter clockwise, starting at the lowest x (then lowest y), not closed.
pub fn hull(pts: &[P]) -> Vec<P> {
    let mut p = pts.to_vec();
    p.sort();
    p.dedup();
    if p.len() <= 2 {
        return p;
    }
    let mut lower: Vec<P> = Vec::new();
    for &q in &p {
        while lower.len() >= 2 && cross(lower[lower.len() - 2], lower[lower.len() - 1], q) <= 0 {
            lower.pop();
        }
        lower.push(q);
    }
    let mut upper: Vec<P> = Vec::new();
    for &q in p.iter().rev() {
        while upper.len() >= 2 && cross(upper[upper.len() - 2], upper[upper.len() - 1], q) <= 0 {
            upper.pop();
        }
        upper.push(q);
    }
    lower.pop();
    upper.pop();
    lower.extend(upper);
    lower
}

/// rotates a cycle so that its smallest point is first
pub fn rotate_min(c: &[P]) -> Vec<P> {
    if c.is_empty() {
        return vec![];
    }
    let k = (0..c.len()).min_by_key(|i| c[*i]).unwrap();
    c[k..].iter().chain(c[..k].iter()).copied().collect()
}

/// point on closed segment a-b
pub fn on_segment(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0
        && p.0 >= a.0.min(b.0)
        && p.0 <= a.0.max(b.0)
        && p.1 >= a.1.min(b.1)
        && p.1 <= a.1.max(b.1)
}

// ---------------------------------------------------------------- enumeration helpers

pub fn ipow(b: u64, e: u32) -> u64 {
    b.pow(e)
}
/// number of sequences over an alphabet of `a` symbols with lengths lo..=hi
pub fn seq_count(a: u64, lo: u32, hi: u32) -> u64 {
    (lo..=hi).map(|n| a.pow(n)).sum()
}
/// decodes sequence number i (shorter first)
pub fn seq_decode(mut i: u64, a: u64, lo: u32, hi: u32) -> Vec<u64> {
    for n in lo..=hi {
        let c = a.pow(n);
        if i < c {
            let mut v = Vec::with_capacity(n as usize);
            for _ in 0..n {
                v.push(i % a);
                i /= a;
            }
            v.reverse();
            return v;
        }
        i -= c;
    }
    panic!("out of range")
}
/// a point of a w x h grid
pub fn grid(i: u64, w: u64) -> P {
    ((i % w) as i64, (i / w) as i64)
}
pub fn grid_seq(i: u64, w: u64, h: u64, lo: u32, hi: u32) -> Vec<P> {
    seq_decode(i, w * h, lo, hi).into_iter().map(|s| grid(s, w)).collect()
}

/// C(n,k)
pub fn binom(n: u64, k: u64) -> u64 {
    if k > n {
        return 0;
    }
    let mut r = 1u64;
    for i in 0..k {
        r = r * (n - i) / (i + 1);
    }
    r
}
/// the i-th k-subset of 0..n in lexicographic order
pub fn subset(mut i: u64, n: u64, k: u64) -> Vec<u64> {
    let mut v = Vec::new();
    let mut lo = 0;
    let mut k = k;
    while k > 0 {
        let c = binom(n - lo - 1, k - 1);
        if i < c {
            v.push(lo);
            k -= 1;
        } else {
            i -= c;
        }
        lo += 1;
    }
    v
}
/// the i-th permutation of v
pub fn permute<T: Clone>(mut i: u64, v: &[T]) -> Vec<T> {
    let mut pool = v.to_vec();
    let mut out = Vec::new();
    while !pool.is_empty() {
        let n = pool.len() as u64;
        out.push(pool.remove((i % n) as usize));
        i /= n;
    }
    out
}
pub fn fact(n: u64) -> u64 {
    (1..=n).product()
}

/// Runs the body once per 2D vector type of the crate's back ends.
#[macro_export]
macro_rules! for_2d {
    ($t:ident, $name:ident, $body:block) => {{
        { type $t = vector_traits::glam::DVec2; #[allow(unused)] let $name = "glam::DVec2"; $body }
        { type $t = vector_traits::glam::Vec2; #[allow(unused)] let $name = "glam::Vec2"; $body }
        { type $t = vector_traits::Vec2A; #[allow(unused)] let $name = "Vec2A"; $body }
        { type $t = vector_traits::cgmath::Vector2<f64>; #[allow(unused)] let $name = "cgmath::Vector2<f64>"; $body }
        { type $t = vector_traits::cgmath::Vector2<f32>; #[allow(unused)] let $name = "cgmath::Vector2<f32>"; $body }
    }};
}
#[macro_export]
macro_rules! for_3d {
    ($t:ident, $name:ident, $body:block) => {{
        { type $t = vector_traits::glam::DVec3; #[allow(unused)] let $name = "glam::DVec3"; $body }
        { type $t = vector_traits::glam::Vec3; #[allow(unused)] let $name = "glam::Vec3"; $body }
        { type $t = vector_traits::glam::Vec3A; #[allow(unused)] let $name = "glam::Vec3A"; $body }
        { type $t = vector_traits::cgmath::Vector3<f64>; #[allow(unused)] let $name = "cgmath::Vector3<f64>"; $body }
        { type $t = vector_traits::cgmath::Vector3<f32>; #[allow(unused)] let $name = "cgmath::Vector3<f32>"; $body }
    }};
}

/// All subsets of the points, of size lo..=hi, that are in strictly convex position, as CCW cycles.
pub fn convex_polygons(pts: &[P], lo: usize, hi: usize) -> Vec<Vec<P>> {
    fn rec(pts: &[P], from: usize, cur: &mut Vec<P>, lo: usize, hi: usize, out: &mut Vec<Vec<P>>) {
        if cur.len() >= lo {
            out.push(hull(cur));
        }
        if cur.len() == hi {
            return;
        }
        for i in from..pts.len() {
            cur.push(pts[i]);
            // convex position is hereditary
            if cur.len() < 3 || hull(cur).len() == cur.len() {
                rec(pts, i + 1, cur, lo, hi, out);
            }
            cur.pop();
        }
    }
    let mut out = Vec::new();
    rec(pts, 0, &mut Vec::new(), lo, hi, &mut out);
    out.retain(|h| h.len() >= 3 || lo < 3);
    out.sort_by_key(|h| (h.len(), h.clone()));
    out
}

pub fn grid_points(w: i64, h: i64) -> Vec<P> {
    (0..h).flat_map(|y| (0..w).map(move |x| (x, y))).collect()
}

/// A strictly convex lattice polygon with n >= 3 corners (edges are distinct primitive directions
/// sorted by angle), CCW.
pub fn lattice_polygon(n: usize) -> Vec<P> {
    // primitive directions in the first quadrant, by size
    let mut prim: Vec<P> = Vec::new();
    for x in 1..60i64 {
        for y in 0..60i64 {
            let (mut a, mut b) = (x, y);
            while b != 0 {
                (a, b) = (b, a % b);
            }
            if a == 1 {
                prim.push((x, y));
            }
        }
    }
    prim.sort_by_key(|p| (p.0 * p.0 + p.1 * p.1, p.1));
    let mut dirs: Vec<P> = Vec::new();
    let mut k = 0;
    // take directions four at a time (rotations by 90 degrees), so that they sum to zero
    while dirs.len() < n {
        let (x, y) = prim[k];
        dirs.extend([(x, y), (-y, x), (-x, -y), (y, -x)]);
        k += 1;
    }
    let upper = |p: &P| p.1 > 0 || (p.1 == 0 && p.0 > 0);
    dirs.sort_by(|a, b| upper(b).cmp(&upper(a)).then_with(|| 0.cmp(&(a.0 * b.1 - a.1 * b.0))));
    let mut v = vec![(0, 0)];
    for d in &dirs {
        let l = *v.last().unwrap();
        v.push((l.0 + d.0, l.1 + d.1));
    }
    v.pop();
    // drop corners evenly until n are left: still in convex position
    let m = v.len();
    let keep: Vec<P> = (0..n).map(|i| v[i * m / n]).collect();
    let minx = keep.iter().map(|p| p.0).min().unwrap();
    let miny = keep.iter().map(|p| p.1).min().unwrap();
    let keep: Vec<P> = keep.iter().map(|p| (p.0 - minx, p.1 - miny)).collect();
    let h = hull(&keep);
    assert_eq!(h.len(), n);
    h
}

pub fn rotate<T: Clone>(v: &[T], k: usize) -> Vec<T> {
    v[k..].iter().chain(v[..k].iter()).cloned().collect()
}

pub fn close<T: Clone>(v: &[T]) -> Vec<T> {
    let mut r = v.to_vec();
    if r.len() > 1 {
        r.push(r[0].clone());
    }
    r
}

/// An affine map of the plane, applied to every point of a case.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Map(pub [i64; 6]);
impl Map {
    pub fn on(&self, p: P) -> P {
        let m = &self.0;
        (m[0] * p.0 + m[1] * p.1 + m[4], m[2] * p.0 + m[3] * p.1 + m[5])
    }
    pub fn all(&self, p: &[P]) -> Vec<P> {
        p.iter().map(|p| self.on(*p)).collect()
    }
}
/// placements of a small grid in the plane: identity, around the origin, all negative, far away and
/// scaled, sheared, mirrored, very flat, very tall. All coordinates stay exact in f32.
pub const MAPS: [Map; 10] = [
    Map([1, 0, 0, 1, 0, 0]),
    Map([1, 0, 0, 1, -1, -1]),
    Map([2, 0, 0, 2, -9, -9]),
    Map([10, 0, 0, 10, 500, -500]),
    Map([1, 2, 0, 1, -3, 0]),
    Map([-1, 0, 0, 1, 0, 0]),
    Map([0, 1, 1, 0, 5, -7]),
    Map([100, 0, 0, 1, -100, 0]),
    Map([1, 0, 0, 100, 0, -100]),
    Map([3, -1, 1, 2, 0, -4]),
];
/// The same and two more, so far from the origin that products of coordinates are rounded in 32 bit
/// (differences of coordinates, and their products, are not).
pub const FAR_MAPS: [Map; 12] = [
    MAPS[0],
    MAPS[1],
    MAPS[2],
    MAPS[3],
    MAPS[4],
    MAPS[5],
    MAPS[6],
    MAPS[7],
    MAPS[8],
    MAPS[9],
    Map([1, 0, 0, 1, 262144, -262141]),
    Map([0, 2, 1, 0, -3, 131072]),
];

// ---------------------------------------------------------------- exact segment intersection

/// What two closed segments have in common: nothing, one rational point, or a segment.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Common {
    Nothing,
    /// (x, y) / den, den > 0, in lowest terms
    Point(i64, i64, i64),
    /// lower and higher end (by x, then y)
    Overlap(P, P),
}

/// Points on, next to and between the sides of a box that is n long and 1 high, in one of 4 positions:
/// segments between them are nearly parallel, nearly touch and nearly overlap.
pub fn flat_points(n: i64, turn: u64) -> Vec<P> {
    let h = n / 2;
    [(0, 0), (n, 0), (n, 1), (0, 1), (h, 0), (h, 1), (h + 1, 1), (h, -1), (-1, 0), (n + 1, 0), (n + 1, 1), (1, 0), (n - 1, 1)]
        .iter()
        .map(|&(x, y)| [(x, y), (y, x), (-x, y - 1), (x + y, x - y)][turn as usize])
        .collect()
}

pub fn gcd(a: i64, b: i64) -> i64 {
    let (mut a, mut b) = (a.abs(), b.abs());
    while b != 0 {
        (a, b) = (b, a % b);
    }
    a
}

pub fn rational(x: i64, y: i64, den: i64) -> Common {
    let s = den.signum();
    let g = gcd(gcd(x, y), den).max(1) * s;
    Common::Point(x / g, y / g, den / g)
}

pub fn common(a: P, b: P, c: P, d: P) -> Common {
    let (r, s) = (sub(b, a), sub(d, c));
    let den = r.0 * s.1 - r.1 * s.0;
    if den == 0 {
        // parallel, or one is a point
        if a == b {
            return if on_segment(c, d, a) { rational(a.0, a.1, 1) } else { Common::Nothing };
        }
        if c == d {
            return if on_segment(a, b, c) { rational(c.0, c.1, 1) } else { Common::Nothing };
        }
        if cross(a, b, c) != 0 {
            return Common::Nothing;
        }
        let lo = a.min(b).max(c.min(d));
        let hi = a.max(b).min(c.max(d));
        return match lo.cmp(&hi) {
            std::cmp::Ordering::Less => Common::Overlap(lo, hi),
            std::cmp::Ordering::Equal => rational(lo.0, lo.1, 1),
            _ => Common::Nothing,
        };
    }
    let q = sub(c, a);
    let mut t = q.0 * s.1 - q.1 * s.0;
    let mut u = q.0 * r.1 - q.1 * r.0;
    let mut n = den;
    if n < 0 {
        (t, u, n) = (-t, -u, -n);
    }
    if t < 0 || u < 0 || t > n || u > n {
        return Common::Nothing;
    }
    let g = gcd(t, n).max(1);
    let (t, n) = (t / g, n / g);
    rational(a.0 * n + r.0 * t, a.1 * n + r.1 * t, n)
}

/// the same rational point?
pub fn is_at(x: f64, y: f64, c: (i64, i64, i64), tol: f64) -> bool {
    let (px, py) = (c.0 as f64 / c.2 as f64, c.1 as f64 / c.2 as f64);
    (x - px).abs() <= tol && (y - py).abs() <= tol
}

/// an absolute tolerance for results computed from coordinates up to `m` with this scalar type
pub fn tol<S: vector_traits::approx::AbsDiffEq>(m: i64) -> f64
where
    S::Epsilon: ToPrimitive,
{
    f(S::default_epsilon()) * 64.0 * (m.max(1) as f64)
}
pub fn max_abs(p: &[P]) -> i64 {
    p.iter().map(|p| p.0.abs().max(p.1.abs())).max().unwrap_or(0)
}

/// A grid whose points have coordinates that can't be represented: they are rounded, and collinear points
/// of the grid are only nearly collinear. 108 of them: step, direction and position.
#[derive(Clone, Copy, Debug)]
pub struct RoundedGrid {
    pub step: u64,
    pub dir: u64,
    pub at: u64,
}
impl RoundedGrid {
    pub fn nth(i: u64) -> Self {
        RoundedGrid { step: i % 6, dir: i / 6 % 6, at: i / 36 % 3 }
    }
    /// the greatest coordinate of the grid from (0, 0) to (2, 2)
    pub fn unit(&self) -> f64 {
        [(0, 0), (2, 0), (0, 2), (2, 2)].map(|p| self.on(p)).iter().fold(0.0, |m, p| m.max(p.0.abs()).max(p.1.abs()))
    }
    /// the least distance of the grid points next to the origin in x and y
    pub fn spacing(&self) -> f64 {
        let o = self.on((0, 0));
        [(1, 0), (0, 1)].map(|p| self.on(p)).iter().fold(f64::MAX, |m, p| m.min((p.0 - o.0).hypot(p.1 - o.1)))
    }
    pub fn on(&self, p: P) -> (f64, f64) {
        let k = [0.1, 0.01, 1.0 / 3.0, 0.7, 0.037, 12.3][self.step as usize];
        let (x, y) = (p.0 as f64, p.1 as f64);
        let (x, y) = match self.dir {
            0 => (x, y),
            1 => (0.6 * x - 0.8 * y, 0.8 * x + 0.6 * y),
            2 => (x + 0.3717 * y, y),
            3 => (x, 0.3717 * x - y),
            4 => (-0.28 * x - 0.96 * y, 0.96 * x - 0.28 * y),
            _ => (0.3 * y, 0.1 * x),
        };
        let o = [(0.0, 0.0), (17.3, -4.1), (-1000.1, 333.3)][self.at as usize];
        (x * k + o.0, y * k + o.1)
    }
}
