//! C05 Limit ranges are ordered, inclusive, and clamp agrees with validity
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn new<T: RealField + SubsetOf<f64>>(a: T, b: T) {
    may_panic(!(a <= b));
    let r = Range::new(a, b);
    same(&r.min, &a, "lower bound kept");
    same(&r.max, &b, "upper bound kept");
}

pub fn from_inclusive<T: RealField + SubsetOf<f64>>(a: T, b: T) {
    may_panic(!(a <= b));
    let r: Range<T> = (a..=b).into();
    same(&r.min, &a, "lower bound kept");
    same(&r.max, &b, "upper bound kept");
}

pub fn valid<T: RealField + SubsetOf<f64>>(r: Range<T>, x: T) {
    assume(r.min <= r.max);
    same(&r.is_valid(x), &(r.min <= x && x <= r.max), "valid exactly between the bounds");
}

pub fn clamp<T: RealField + SubsetOf<f64>>(r: Range<T>, x: T) {
    assume(r.min <= r.max);
    assume(r.min == r.min && r.max == r.max && x == x);
    let y = r.clamp(x);
    same(&y, &nearest(&Some(r.clone()), x), "clamped value");
    if r.is_valid(x) {
        same(&y, &x, "a valid value is not changed");
    }
    must(r.is_valid(y), "the clamped value is valid");
}
