//! C26: the text of lines and boxes.
use crate::ensure;
use crate::fw::{fam, fam_list, Family, Local, Prop, Tier};
use linestring::linestring_2d::{Aabb2, Intersection, Line2};
use linestring::linestring_3d::Line3;
use std::fmt::Debug;
use crate::geo::{v2, v3};
use vector_traits::glam::{DVec2, DVec3, Vec2, Vec3, Vec3A};
use vector_traits::{cgmath, GenericVector2, GenericVector3, HasXY, Vec2A};

/// the coordinate groups of a text: `(1.0,2.0)-(3.0,4.0)`
fn groups(s: &str) -> Vec<Vec<&str>> {
    let mut out = Vec::new();
    let mut rest = s;
    while let Some(a) = rest.find('(') {
        let Some(b) = rest[a..].find(')') else { break };
        out.push(rest[a + 1..a + b].split(',').map(|t| t.trim()).collect());
        rest = &rest[a + b + 1..];
    }
    out
}

trait Bits: std::str::FromStr + Copy + Debug {
    fn bits(self) -> u64;
    fn finite(self) -> bool;
}
impl Bits for f64 {
    fn bits(self) -> u64 {
        self.to_bits()
    }
    fn finite(self) -> bool {
        self.is_finite()
    }
}
impl Bits for f32 {
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
    fn finite(self) -> bool {
        self.is_finite()
    }
}

/// `text` has `n` numbers per point, and they are exactly `want`
fn reads_back<F: Bits>(what: &str, text: &str, n: usize, want: &[F], st: &mut Local) {
    st.calls += 1;
    let g = groups(text);
    ensure!(
        st,
        g.len() * n == want.len() && g.iter().all(|g| g.len() == n),
        "{what}: the text {text:?} does not have {} points of {n} numbers",
        want.len() / n
    );
    for (t, w) in g.iter().flatten().zip(want) {
        match t.parse::<F>() {
            Ok(v) => ensure!(st, v.bits() == w.bits(), "{what}: {w:?} is printed as {t:?} in {text:?}"),
            Err(_) => st.fail(format!("{what}: {t:?} in {text:?} is no number")),
        }
        ensure!(st, t.contains('.'), "{what}: {t:?} in {text:?} has no decimal point");
        if st.failed() {
            return;
        }
    }
}

fn texts<T2: GenericVector2, T3: GenericVector3>(n: &str, v: &[f64; 6], st: &mut Local)
where
    T2::Scalar: Bits,
    T3::Scalar: Bits,
{
    let k = v.map(crate::geo::sc::<T2::Scalar>);
    let l = Line2::<T2> { start: v2(v[0], v[1]), end: v2(v[2], v[3]) };
    reads_back(n, &format!("{l:?}"), 2, &k[..4], st);
    let o = Intersection::Overlap(l);
    reads_back(n, &format!("{o:?}"), 2, &k[..4], st);
    let b = Aabb2::<T2>::with_points(&[l.start, l.end]);
    if let Some((lo, hi)) = b.min_max() {
        let w = [lo.x(), lo.y(), hi.x(), hi.y()];
        reads_back(n, &format!("{b:?}"), 2, &w, st);
    }
    let l = Line3::<T3> { start: v3(v[0], v[1], v[2]), end: v3(v[3], v[4], v[5]) };
    reads_back(n, &format!("{l:?}"), 3, &v.map(crate::geo::sc::<T3::Scalar>), st);
}
fn texts64(v: &[f64; 6], st: &mut Local) {
    texts::<DVec2, DVec3>("f64", v, st)
}
fn texts32(v: &[f32; 6], st: &mut Local) {
    texts::<Vec2, Vec3>("f32", &v.map(f64::from), st)
}
fn texts_other(v: &[f64; 6], st: &mut Local) {
    texts::<cgmath::Vector2<f64>, cgmath::Vector3<f64>>("cgmath f64", v, st);
    // values that a 32 bit number has
    let v = v.map(|x| x as f32).map(|x| if x.is_finite() { f64::from(x) } else { 0.75 });
    texts::<cgmath::Vector2<f32>, cgmath::Vector3<f32>>("cgmath f32", &v, st);
    texts::<Vec2A, Vec3A>("Vec2A, Vec3A", &v, st);
}

/// mantissas with structure: single bits, runs of ones from both ends, alternating bits
fn mantissas(bits: u32) -> Vec<u64> {
    let all = (1u64 << bits) - 1;
    let mut v = vec![0, all, all / 3, all / 5, 0x5_4321 & all];
    for i in 0..bits {
        v.push(1 << i);
        v.push(all >> i);
        v.push(all & !(all >> i));
    }
    v.sort();
    v.dedup();
    v
}

fn c26(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "a coordinate has a fraction";
    let set: Vec<f64> = vec![0.0, -0.0, 1.0, -1.0, 0.5, -12.25, 1e15, 0.1];
    let n = set.len() as u64;
    let depth = 6;
    v.push(fam(
        format!("every line and box with coordinates from {set:?}"),
        rule,
        n.pow(depth),
        move |i| {
            let mut i = i;
            let mut a = [0.0; 6];
            for x in a.iter_mut() {
                *x = set[(i % n) as usize];
                i /= n;
            }
            a
        },
        |a: &[f64; 6], st| {
            if a.iter().any(|x| x.fract() != 0.0) {
                st.nontrivial += 1;
            }
            st.state(&a.map(f64::to_bits));
            texts64(a, st);
            texts32(&a.map(|x| x as f32), st);
            texts_other(a, st);
        },
    ));
    // every exponent
    let m64: Vec<u64> = mantissas(52).into_iter().step_by(t.pick(4, 1)).collect();
    let m64 = std::sync::Arc::new(m64);
    let k = m64.len() as u64;
    v.push(fam(
        format!("64 bit values: every sign and exponent with {k} mantissas"),
        rule,
        2 * 2047 * k,
        move |i| f64::from_bits((i % 2) << 63 | (i / 2 % 2047) << 52 | m64[(i / 4094) as usize]),
        |x: &f64, st| {
            debug_assert!(x.finite());
            if x.fract() != 0.0 {
                st.nontrivial += 1;
            }
            st.state(&x.to_bits());
            let v = [*x, 1.5, -*x, 2.0, *x / 3.0, 0.0].map(|x| if x.is_finite() { x } else { 7.0 });
            texts64(&v, st);
            texts_other(&v, st);
        },
    ));
    // decimal numbers as people write them, and whole numbers of any size
    v.push(fam(
        "decimal fractions: every number of up to 4 digits with the decimal point moved by -22 to 22 places, and whole numbers next to powers of two",
        rule,
        10_000 * 45 / t.pick(5, 1) + 63 * 5,
        move |i| {
            let n = 10_000 * 45 / t.pick(5, 1);
            if i < n {
                let (k, e) = (i / 45 * t.pick(5, 1), i as i64 % 45 - 22);
                format!("{k}e{e}").parse::<f64>().unwrap()
            } else {
                let i = i - n;
                (2f64.powi((i / 5) as i32 + 1)) + i as f64 % 5.0 - 2.0
            }
        },
        |x: &f64, st| {
            if x.fract() != 0.0 {
                st.nontrivial += 1;
            }
            st.state(&x.to_bits());
            let v = [*x, -*x, *x + 1.0, 0.5 - *x, 3.0 * *x, 0.1];
            texts64(&v, st);
            texts32(&v.map(|x| x as f32), st);
        },
    ));
    // 32 bit values, six neighbours per line
    let step = t.pick(6 * 2999u64, 6);
    v.push(fam(
        if step == 6 { "every finite 32 bit value".to_string() } else { "32 bit values: groups of six neighbours at even distances over all bit patterns".to_string() },
        rule,
        (1u64 << 32).div_ceil(step),
        move |i| {
            let mut a = [0f32; 6];
            for (j, x) in a.iter_mut().enumerate() {
                *x = f32::from_bits((i * step + j as u64).min(u32::MAX as u64) as u32);
                if !x.finite() {
                    *x = 1.0;
                }
            }
            a
        },
        |a: &[f32; 6], st| {
            if a.iter().any(|x| x.fract() != 0.0) {
                st.nontrivial += 1;
            }
            texts32(a, st);
        },
    ));
    v.push(fam_list("empty boxes", "always", vec![()], |_, st| {
        st.nontrivial += 1;
        let e = format!("{:?}", Aabb2::<DVec2>::default());
        ensure!(st, groups(&e).is_empty() && !e.is_empty(), "the text of an empty box is {e:?}");
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        families: c26,
        bounds: "all combinations of 8 values in 6 coordinates, every exponent and sign of a 64 bit float with over 100 mantissas, decimal fractions of up to 4 digits, whole numbers next to powers of two, 32 bit values at even distances (thorough: every one of them), the first two for every vector type",
        assumptions: &["finite coordinates"],
    }]
}
