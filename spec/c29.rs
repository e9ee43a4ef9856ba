//! C29 The reference null-space function is the weighted offset from the reference
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn reference<T: RealField + SubsetOf<f64>>(r: Vec<T>, w: Vec<T>, q: &[T]) {
    may_panic(r.len() != w.len());
    let rs = r.clone();
    let ws = w.clone();
    let f = create_reference_positions_nullspace_function(r, w);
    let got = f(q);
    same(&got.len(), &rs.len(), "one value per joint");
    for i in 0..rs.len() {
        same(&got[i], &(ws[i] * (q[i] - rs[i])), "weight times offset from the reference");
    }
    let again = f(q);
    same(&again, &got, "the function has no memory");
}
