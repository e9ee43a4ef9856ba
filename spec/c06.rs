//! C06 Mimic joints follow their master
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

/// ns[0] is the master, the others are its followers in this order
pub fn followers<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: &[Mimic<T>]) {
    for i in 1..ns.len() {
        ns[i].set_mimic_parent(&ns[0], m[i - 1].clone());
    }
    let before = snaps(ns);
    let mut want = checked(&before[0].name, &before[0].joint_type, &before[0].limits, x);
    let mut n = 0;
    if want.is_ok() {
        n = 1;
        for i in 1..ns.len() {
            if want.is_ok() {
                let y = x * m[i - 1].multiplier + m[i - 1].origin;
                let b = &before[i];
                want = checked(&b.name, &b.joint_type, &b.limits, y);
                if want.is_ok() {
                    n = i + 1;
                }
            }
        }
    }
    let got = ns[0].set_joint_position(x);
    same(&got, &want, "answer of the request");
    for i in 0..ns.len() {
        same_snap_but_position(&snap(&ns[i]), &before[i]);
        if want.is_ok() {
            let y = if i == 0 { x } else { x * m[i - 1].multiplier + m[i - 1].origin };
            same(&ns[i].joint_position(), &Some(y), "position of master and followers");
        } else if i >= n {
            same(&ns[i].joint_position(), &before[i].position, "a refused joint keeps its position");
        }
    }
}

/// ns[1] follows ns[0]
pub fn direct<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m);
    let before = snaps(ns);
    let wt = ns[1].world_transform();
    let got = ns[1].set_joint_position(x);
    same(&got, &Ok(()), "setting a follower directly succeeds");
    unchanged(ns, &before);
    same(&ns[1].world_transform(), &wt, "and changes nothing");
}

/// ns[1] is listed as a follower of ns[0] but has no parameters
pub fn no_parameters<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T) {
    let before = snaps(ns);
    let ok = checked(&before[0].name, &before[0].joint_type, &before[0].limits, x);
    let got = ns[0].set_joint_position(x);
    if ok.is_ok() {
        let want = Err(Error::MimicError { from: before[0].name.clone(), to: before[1].name.clone() });
        same(&got, &want, "the error names both joints");
    } else {
        same(&got, &ok, "answer of the request");
    }
    same(&ns[1].joint_position(), &before[1].position, "the follower stays");
}

pub fn parameters<T: RealField + SubsetOf<f64>>(a: T, b: T, x: T) {
    let m = Mimic::new(a, b);
    same(&m.multiplier, &a, "multiplier kept");
    same(&m.origin, &b, "offset kept");
    same(&m.mimic_position(x), &(x * a + b), "followed position");
}

/// the chain interfaces that move joints: followers have to be moved with their master
pub fn chain_checked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let chain = Chain::from_nodes(ns.to_vec());
    let r = chain.set_joint_positions(&[x, x]);
    same(&r, &Ok(()), "answer of the request");
    same(&ns[0].joint_position(), &Some(x), "master set");
    same(&ns[1].joint_position(), &Some(x * m.multiplier + m.origin), "follower set through its master");
}

pub fn node_clamped<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    ns[0].set_joint_position_clamped(x);
    same(&ns[1].joint_position(), &Some(x * m.multiplier + m.origin), "clamped set: follower set through its master");
}

pub fn node_unchecked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    ns[0].set_joint_position_unchecked(x);
    same(&ns[1].joint_position(), &Some(x * m.multiplier + m.origin), "unchecked set: follower set through its master");
}

pub fn chain_clamped<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let chain = Chain::from_nodes(ns.to_vec());
    chain.set_joint_positions_clamped(&[x, x]);
    same(&ns[1].joint_position(), &Some(x * m.multiplier + m.origin), "clamped set: follower set through its master");
}

pub fn chain_unchecked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let chain = Chain::from_nodes(ns.to_vec());
    chain.set_joint_positions_unchecked(&[x, x]);
    same(&ns[1].joint_position(), &Some(x * m.multiplier + m.origin), "unchecked set: follower set through its master");
}

fn as_before_or<T: RealField>(got: Option<T>, before: Option<T>, want: T) -> bool {
    match (got, before) {
        (Some(g), Some(b)) => (!(g < b) && !(b < g)) || (!(g < want) && !(want < g)),
        _ => false,
    }
}

/// what the recorded findings do not cover: a follower that is not moved with its master is not moved at all
pub fn node_stays<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, m: Mimic<T>, clamped: bool) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let b = ns[1].joint_position();
    if clamped {
        ns[0].set_joint_position_clamped(x);
    } else {
        ns[0].set_joint_position_unchecked(x);
    }
    must(as_before_or(ns[1].joint_position(), b, x * m.multiplier + m.origin), "a follower follows or stays");
}

/// likewise: it gets the position given for it in the vector
pub fn chain_stays<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, y: T, m: Mimic<T>, clamped: bool) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let chain = Chain::from_nodes(ns.to_vec());
    if clamped {
        chain.set_joint_positions_clamped(&[x, y]);
    } else {
        chain.set_joint_positions_unchecked(&[x, y]);
    }
    must(as_before_or(ns[1].joint_position(), Some(y), x * m.multiplier + m.origin), "a follower follows or takes its own element");
}
