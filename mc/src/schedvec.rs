//! A vector type whose operations are scheduling points of the explorer. The code under test is
//! generic over the vector type, so with this type its threads are preempted *inside* the closures
//! they run, between any two vector operations.
use rayon_core::mc::point;
use std::ops::{Add, AddAssign, Div, Index, Mul, Neg, Sub};
use vector_traits::{Approx, GenericVector2, GenericVector3, HasXY, HasXYZ};

#[derive(Clone, Copy, Debug)]
pub struct S2(pub [f64; 2]);
#[derive(Clone, Copy, Debug)]
pub struct S3(pub [f64; 3]);

macro_rules! common {
    ($t:ident, $n:expr) => {
        impl PartialEq for $t {
            fn eq(&self, o: &Self) -> bool {
                point();
                self.0 == o.0
            }
        }
        impl AddAssign for $t {
            fn add_assign(&mut self, o: Self) {
                for i in 0..$n {
                    self.0[i] += o.0[i];
                }
            }
        }
        impl Neg for $t {
            type Output = Self;
            fn neg(self) -> Self {
                $t(self.0.map(|v| -v))
            }
        }
        impl Add for $t {
            type Output = Self;
            fn add(mut self, o: Self) -> Self {
                self += o;
                self
            }
        }
        impl Sub for $t {
            type Output = Self;
            fn sub(self, o: Self) -> Self {
                self + (-o)
            }
        }
        impl Mul<f64> for $t {
            type Output = Self;
            fn mul(self, s: f64) -> Self {
                $t(self.0.map(|v| v * s))
            }
        }
        impl Div<f64> for $t {
            type Output = Self;
            fn div(self, s: f64) -> Self {
                $t(self.0.map(|v| v / s))
            }
        }
        impl Index<usize> for $t {
            type Output = f64;
            fn index(&self, i: usize) -> &f64 {
                &self.0[i]
            }
        }
        impl HasXY for $t {
            type Scalar = f64;
            fn new_2d(x: f64, y: f64) -> Self {
                let mut v = [0.0; $n];
                v[0] = x;
                v[1] = y;
                $t(v)
            }
            fn x(self) -> f64 {
                point();
                self.0[0]
            }
            fn x_mut(&mut self) -> &mut f64 {
                &mut self.0[0]
            }
            fn set_x(&mut self, v: f64) {
                self.0[0] = v
            }
            fn y(self) -> f64 {
                self.0[1]
            }
            fn y_mut(&mut self) -> &mut f64 {
                &mut self.0[1]
            }
            fn set_y(&mut self, v: f64) {
                self.0[1] = v
            }
        }
        impl Approx for $t {
            fn is_ulps_eq(self, o: Self, e: f64, u: u32) -> bool {
                use vector_traits::approx::UlpsEq;
                (0..$n).all(|i| self.0[i].ulps_eq(&o.0[i], e, u))
            }
            fn is_abs_diff_eq(self, o: Self, e: f64) -> bool {
                use vector_traits::approx::AbsDiffEq;
                (0..$n).all(|i| self.0[i].abs_diff_eq(&o.0[i], e))
            }
        }
        impl $t {
            fn dotp(self, o: Self) -> f64 {
                point();
                (0..$n).map(|i| self.0[i] * o.0[i]).sum()
            }
        }
    };
}
common!(S2, 2);
common!(S3, 3);

impl HasXYZ for S3 {
    fn new_3d(x: f64, y: f64, z: f64) -> Self {
        S3([x, y, z])
    }
    fn z(self) -> f64 {
        self.0[2]
    }
    fn z_mut(&mut self) -> &mut f64 {
        &mut self.0[2]
    }
    fn set_z(&mut self, v: f64) {
        self.0[2] = v
    }
}

impl GenericVector2 for S2 {
    type Vector3 = S3;
    fn to_3d(self, z: f64) -> S3 {
        S3([self.0[0], self.0[1], z])
    }
    fn magnitude(self) -> f64 {
        self.dotp(self).sqrt()
    }
    fn magnitude_sq(self) -> f64 {
        self.dotp(self)
    }
    fn dot(self, o: Self) -> f64 {
        self.dotp(o)
    }
    fn perp_dot(self, o: Self) -> f64 {
        point();
        self.0[0] * o.0[1] - self.0[1] * o.0[0]
    }
    fn distance(self, o: Self) -> f64 {
        (self - o).magnitude()
    }
    fn distance_sq(self, o: Self) -> f64 {
        (self - o).magnitude_sq()
    }
    fn normalize(self) -> Self {
        self / self.magnitude()
    }
    fn safe_normalize(self) -> Option<Self> {
        let l = self.magnitude();
        (l != 0.0).then(|| self / l)
    }
}

impl GenericVector3 for S3 {
    type Vector2 = S2;
    fn to_2d(&self) -> S2 {
        S2([self.0[0], self.0[1]])
    }
    fn magnitude(self) -> f64 {
        self.dotp(self).sqrt()
    }
    fn magnitude_sq(self) -> f64 {
        self.dotp(self)
    }
    fn dot(self, o: Self) -> f64 {
        self.dotp(o)
    }
    fn cross(self, o: Self) -> Self {
        let (a, b) = (self.0, o.0);
        S3([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    }
    fn distance(self, o: Self) -> f64 {
        (self - o).magnitude()
    }
    fn distance_sq(self, o: Self) -> f64 {
        (self - o).magnitude_sq()
    }
    fn normalize(self) -> Self {
        self / self.magnitude()
    }
    fn safe_normalize(self) -> Option<Self> {
        let l = self.magnitude();
        (l != 0.0).then(|| self / l)
    }
}
