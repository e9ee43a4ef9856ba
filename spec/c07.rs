//! C07 Degrees of freedom, position vectors and joint iteration agree
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn movables<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) -> Vec<Node<T>> {
    let mut out = Vec::new();
    for n in ns {
        let m = movable(&n.joint().joint_type);
        if m {
            out.push(n.clone());
        }
    }
    out
}

pub fn dof<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let mut want = 0;
    for n in ns {
        if movable(&n.joint().joint_type) {
            want += 1;
        }
    }
    same(&chain.dof(), &want, "degrees of freedom");
    same(&chain.iter_joints().count(), &want, "number of iterated joints");
}

pub fn read<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    reads(&chain, ns);
}

pub fn read_used<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    stirred(ns, x, v, o, &l);
    reads(&chain, ns);
}

fn reads<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let m = movables(ns);
    same(&chain.dof(), &m.len(), "degrees of freedom");
    let got = chain.joint_positions();
    same(&got.len(), &m.len(), "one position per movable joint");
    for i in 0..m.len() {
        same(&Some(got[i]), &m[i].joint_position(), "position of joint i");
    }
    let names: Vec<String> = chain.iter_joints().map(|j| j.name.clone()).collect();
    let origins: Vec<na::Isometry3<T>> = chain.iter_joints().map(|j| *j.origin()).collect();
    same(&names.len(), &m.len(), "number of iterated joints");
    for i in 0..m.len() {
        same(&names[i], &m[i].joint().name, "joint i of the iteration");
        same(&origins[i], &m[i].origin(), "joint i of the iteration");
    }
    let all: Vec<Node<T>> = chain.iter().cloned().collect();
    same(&all.len(), &ns.len(), "iteration over nodes");
    for i in 0..ns.len() {
        must(all[i] == ns[i], "iteration over nodes in chain order");
    }
    unchanged(ns, &before);
}

/// v has as many elements as the chain has movable joints
pub fn set_checked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    sets(&chain, ns, v);
}

/// a second request after another one
pub fn set_used<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T], w: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    let _ = chain.set_joint_positions(w);
    chain.set_joint_positions_unchecked(w);
    sets(&chain, ns, v);
}

fn sets<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>], v: &[T]) {
    let m = movables(ns);
    let others = snaps(ns);
    let before = snaps(&m);
    let mut want: Result<(), Error> = Ok(());
    let mut n = m.len();
    for i in 0..m.len() {
        if want.is_ok() {
            want = checked(&before[i].name, &before[i].joint_type, &before[i].limits, v[i]);
            if want.is_err() {
                n = i;
            }
        }
    }
    let got = chain.set_joint_positions(v);
    same(&got, &want, "answer of the request");
    for i in 0..m.len() {
        let p = m[i].joint_position();
        if i < n {
            same(&p, &Some(v[i]), "element i belongs to joint i");
        } else {
            same(&p, &before[i].position, "joints from the first error on are not touched");
        }
    }
    for i in 0..ns.len() {
        same_snap_but_position(&snap(&ns[i]), &others[i]);
    }
}

/// v has another length
pub fn wrong_length<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let before = snaps(ns);
    let wt: Vec<Option<na::Isometry3<T>>> = ns.iter().map(|n| n.world_transform()).collect();
    let got = chain.set_joint_positions(v);
    let want = Err(Error::SizeMismatchError { input: v.len(), required: chain.dof() });
    same(&got, &want, "refused with both lengths");
    unchanged(ns, &before);
    for i in 0..ns.len() {
        same(&ns[i].world_transform(), &wt[i], "no joint touched");
    }
}

pub fn set_clamped<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let m = movables(ns);
    let others = snaps(ns);
    let before = snaps(&m);
    for i in 0..m.len() {
        proper(&before[i].limits, v[i]);
    }
    chain.set_joint_positions_clamped(v);
    for i in 0..m.len() {
        same(&m[i].joint_position(), &Some(nearest(&before[i].limits, v[i])), "element i, clamped, belongs to joint i");
    }
    for i in 0..ns.len() {
        same_snap_but_position(&snap(&ns[i]), &others[i]);
    }
}

pub fn set_unchecked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let m = movables(ns);
    let others = snaps(ns);
    chain.set_joint_positions_unchecked(v);
    for i in 0..m.len() {
        same(&m[i].joint_position(), &Some(v[i]), "element i belongs to joint i");
    }
    for i in 0..ns.len() {
        same_snap_but_position(&snap(&ns[i]), &others[i]);
    }
}

/// reading after setting gives the vector back
pub fn round_trip<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    if chain.set_joint_positions(v).is_ok() {
        let got = chain.joint_positions();
        same(&got.len(), &v.len(), "as many positions as were set");
        for i in 0..v.len() {
            same(&got[i], &v[i], "position read back");
        }
    }
}

/// the same request again, after the joints have been moved one by one
pub fn set_back<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], v: &[T], w: &[T]) {
    let chain = Chain::from_nodes(ns.to_vec());
    let m = movables(ns);
    for round in 0..3 {
        for again in 0..2 {
            for i in 0..m.len() {
                m[i].set_joint_position_unchecked(w[i]);
                proper(&m[i].joint().limits, v[i]);
            }
            let got = match round {
                0 => chain.set_joint_positions(v),
                1 => {
                    chain.set_joint_positions_clamped(v);
                    Ok(())
                }
                _ => {
                    chain.set_joint_positions_unchecked(v);
                    Ok(())
                }
            };
            if got.is_ok() {
                for i in 0..m.len() {
                    let want = if round == 1 { nearest(&m[i].joint().limits, v[i]) } else { v[i] };
                    same(&m[i].joint_position(), &Some(want), "element i belongs to joint i");
                    same(&chain.joint_positions()[i], &want, "position of joint i");
                }
            } else {
                must(again == 0 || round == 0, "a request that was fine is fine again");
            }
        }
    }
}
