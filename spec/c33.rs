//! C33: the texts of the errors
use crate::*;
use crate::kcommon::*;
use nalgebra as na;

pub fn out_of_limit<'a>(name: String, x: f64, hi: f64, lo: f64, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let e = Error::OutOfLimitError { joint_name: name.clone(), position: x, max_limit: hi, min_limit: lo };
    let r = std::fmt::Display::fmt(&e, f);
    let _ = w.write_fmt(format_args!("joint: {} is out of limit: {}, limit = {} <=> {}", name, x, hi, lo));
    same(&*f, &*w, "joint, position and limits, the maximum first");
    must(r.is_ok(), "printing succeeds");
}

pub fn fixed<'a>(name: String, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::SetToFixedError { joint_name: name.clone() }, f);
    let _ = w.write_fmt(format_args!("joint {} is fixed joint but the position is set", name));
    same(&*f, &*w, "the fixed joint");
    must(r.is_ok(), "printing succeeds");
}

pub fn size<'a>(input: usize, required: usize, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::SizeMismatchError { input, required }, f);
    let _ = w.write_fmt(format_args!("size mismatch input = {}, required = {}", input, required));
    same(&*f, &*w, "the given and the required size");
    must(r.is_ok(), "printing succeeds");
}

pub fn mimic<'a>(a: String, b: String, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::MimicError { from: a.clone(), to: b.clone() }, f);
    let _ = w.write_fmt(format_args!("mimic error from {} to {}", a, b));
    same(&*f, &*w, "master and follower");
    must(r.is_ok(), "printing succeeds");
}

pub fn not_converged<'a>(n: usize, p: na::Vector3<f64>, q: na::Vector3<f64>, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::NotConvergedError { num_tried: n, position_diff: p, rotation_diff: q }, f);
    let _ = w.write_fmt(format_args!("ik solve not converged tried {} times, position diff = {}, rotation diff = {}", n, p, q));
    same(&*f, &*w, "tries and what is left");
    must(r.is_ok(), "printing succeeds");
}

pub fn inverse<'a>(f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::InverseMatrixError, f);
    let _ = w.write_fmt(format_args!("inverse matrix error"));
    same(&*f, &*w, "singular");
    must(r.is_ok(), "printing succeeds");
}

pub fn precondition<'a>(dof: usize, necessary: usize, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::PreconditionError { dof, necessary_dof: necessary }, f);
    let _ = w.write_fmt(format_args!("ik precondition error: input Dof={}, must be greater than {}", dof, necessary));
    same(&*f, &*w, "degrees of freedom given and necessary");
    must(r.is_ok(), "printing succeeds");
}

pub fn no_joint<'a>(name: String, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let r = std::fmt::Display::fmt(&Error::InvalidJointNameError { joint_name: name.clone() }, f);
    let _ = w.write_fmt(format_args!("There is no valid joint named {}", name));
    same(&*f, &*w, "the name that no joint has");
    must(r.is_ok(), "printing succeeds");
}

/// a copy says the same
pub fn copy<'a>(name: String, x: f64, hi: f64, lo: f64, n: usize, p: na::Vector3<f64>, q: na::Vector3<f64>, k: usize, f: &mut std::fmt::Formatter<'a>, w: &mut std::fmt::Formatter<'a>) {
    let e = match k {
        0 => Error::OutOfLimitError { joint_name: name, position: x, max_limit: hi, min_limit: lo },
        1 => Error::SetToFixedError { joint_name: name },
        2 => Error::NotConvergedError { num_tried: n, position_diff: p, rotation_diff: q },
        _ => Error::InvalidJointNameError { joint_name: name },
    };
    let c = e.clone();
    let _ = std::fmt::Display::fmt(&e, f);
    let _ = std::fmt::Display::fmt(&c, w);
    same(&*f, &*w, "the copy of an error");
}
