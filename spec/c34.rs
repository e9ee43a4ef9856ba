//! C34 Requests of several threads act one after the other
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

/// the position that a joint has is one of two numbers
fn one_of<T: RealField + SubsetOf<f64>>(n: &Node<T>, x: T, y: T, label: &str) -> T {
    assume(x == x);
    assume(y == y);
    let p = n.joint_position().unwrap();
    must(p == x || p == y, label);
    p
}

fn follow<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], m: &[Mimic<T>]) {
    for i in 1..ns.len() {
        ns[i].set_mimic_parent(&ns[0], m[i - 1].clone());
    }
}

fn followers_agree<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], m: &[Mimic<T>], p: T) {
    for i in 1..ns.len() {
        same(
            &ns[i].joint_position(),
            &Some(p * m[i - 1].multiplier + m[i - 1].origin),
            "a follower is where the last request of its master has put it",
        );
    }
}

/// ns[0] is moved by two threads, the others follow it
pub fn one_master<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, x: T, y: T, m: &[Mimic<T>]) {
    follow(ns, m);
    let n = ns[0].clone();
    meanwhile(k, || {
        same(&n.set_joint_position(y), &Ok(()), "answer of the other thread's request");
    });
    let got = ns[0].set_joint_position(x);
    if came() {
        same(&got, &Ok(()), "answer of the request");
        let p = one_of(&ns[0], x, y, "the position of one of the requests");
        followers_agree(ns, m, p);
    }
}

/// the follower is asked as well
pub fn follower_asked<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, x: T, y: T, m: &[Mimic<T>]) {
    follow(ns, m);
    let n = ns[1].clone();
    meanwhile(k, || {
        same(&n.set_joint_position(y), &Ok(()), "answer of the other thread's request");
    });
    let got = ns[0].set_joint_position(x);
    if came() {
        same(&got, &Ok(()), "answer of the request");
        same(&ns[0].joint_position(), &Some(x), "position of the master");
        followers_agree(ns, m, x);
    }
}

/// all of a chain is moved, and its master by another thread
pub fn chain_and_master<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, v: &[T], y: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[0].clone();
    meanwhile(k, || {
        same(&n.set_joint_position(y), &Ok(()), "answer of the other thread's request");
    });
    let got = c.set_joint_positions(v);
    if came() {
        same(&got, &Ok(()), "answer of the request");
        let p = one_of(&ns[0], v[0], y, "the position of one of the requests");
        followers_agree(&ns[0..2], &[m], p);
        for i in 2..ns.len() {
            same(&ns[i].joint_position(), &Some(v[i]), "the other joints");
        }
    }
}

/// the other thread moves all of the chain
pub fn master_and_chain<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, v: &[T], y: T, m: Mimic<T>) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    let c = Chain::from_nodes(ns.to_vec());
    meanwhile(k, || {
        same(&c.set_joint_positions(v), &Ok(()), "answer of the other thread's request");
    });
    let got = ns[0].set_joint_position(y);
    if came() {
        same(&got, &Ok(()), "answer of the request");
        let p = one_of(&ns[0], v[0], y, "the position of one of the requests");
        followers_agree(&ns[0..2], &[m], p);
        for i in 2..ns.len() {
            same(&ns[i].joint_position(), &Some(v[i]), "the other joints");
        }
    }
}

/// ns[1] gets ns[0] as its master while that is moved
pub fn new_follower<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, x: T, z: T, m: Mimic<T>) {
    let before = ns[1].joint_position().unwrap();
    let n = ns[0].clone();
    meanwhile(k, || {
        same(&n.set_joint_position(x), &Ok(()), "answer of the other thread's request");
    });
    ns[1].set_mimic_parent(&ns[0], m.clone());
    if came() {
        same(&ns[0].joint_position(), &Some(x), "position of the master");
        one_of(&ns[1], before, x * m.multiplier + m.origin, "the follower stays or follows");
        same(&ns[1].mimic_parent(), &Some(ns[0].clone()), "the master is known");
        same(&ns[0].set_joint_position(z), &Ok(()), "the next request");
        followers_agree(ns, &[m], z);
    }
}

/// ns[2] changes its master from ns[0] to ns[1] while ns[who] is moved
pub fn other_master<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, who: usize, x: T, y: T, z: T, m: Mimic<T>, m2: Mimic<T>) {
    ns[2].set_mimic_parent(&ns[0], m.clone());
    let before = ns[2].joint_position().unwrap();
    let n = ns[who].clone();
    meanwhile(k, || {
        same(&n.set_joint_position(x), &Ok(()), "answer of the other thread's request");
    });
    ns[2].set_mimic_parent(&ns[1], m2.clone());
    if came() {
        let w = if who == 0 { &m } else { &m2 };
        if who == 2 {
            one_of(&ns[2], before, before, "a follower is not moved by itself");
        } else {
            one_of(&ns[2], before, x * w.multiplier + w.origin, "the follower stays or follows");
        }
        same(&ns[2].mimic_parent(), &Some(ns[1].clone()), "the new master is known");
        same(&ns[1].set_joint_position(z), &Ok(()), "the next request to the new master");
        same(&ns[0].set_joint_position(y), &Ok(()), "the next request to the old master");
        same(&ns[2].joint_position(), &Some(z * m2.multiplier + m2.origin), "only the new master moves it");
    }
}

/// nothing panics because ns[i] is moved meanwhile
pub fn reads<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, x: T, f: &mut std::fmt::Formatter<'_>) {
    let c = Chain::from_nodes(ns.to_vec());
    let s = SerialChain::new_unchecked(Chain::from_nodes(ns.to_vec()));
    let n = ns[i].clone();
    meanwhile(k, || {
        let _ = n.set_joint_position(x);
        n.set_joint_position_clamped(x);
        n.set_link(None);
    });
    let ps = c.joint_positions();
    same(&ps.len(), &c.dof(), "one position per joint");
    let _ = s.end_transform();
    let _ = c.find("a");
    let mut names = Vec::new();
    for l in c.iter_links() {
        names.push(l.name.clone());
    }
    must(names.len() <= ns.len(), "links of the chain");
    let _ = jacobian(&s);
    let _ = std::fmt::Display::fmt(&c, f);
    let _ = came();
}

pub fn copies<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, x: T) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    meanwhile(k, || {
        let _ = n.set_joint_position(x);
        n.set_link(None);
    });
    let d = c.clone();
    if came() {
        same(&d.dof(), &c.dof(), "degrees of freedom");
    }
}

/// updates while ns[i] is moved
pub fn update_poses<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, x: T) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    meanwhile(k, || {
        n.set_joint_position_unchecked(x);
    });
    let got = c.update_transforms();
    let _ = came();
    same(&got.len(), &ns.len(), "a pose for every node");
}

pub fn update_speeds<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, x: T) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    meanwhile(k, || {
        n.set_joint_position_unchecked(x);
    });
    let got = c.update_velocities();
    let _ = came();
    same(&got.len(), &ns.len(), "a velocity for every node");
}

pub fn update_parts<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, x: T) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    meanwhile(k, || {
        n.set_joint_position_unchecked(x);
    });
    c.update_link_transforms();
    let _ = came();
}

pub fn update_centre<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, x: T) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    meanwhile(k, || {
        n.set_joint_position_unchecked(x);
    });
    let _ = center_of_mass(&c);
    let _ = came();
}

/// nothing panics because ns[i] gets the parent ns[j], or none, meanwhile
pub fn rewired<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, j: usize, f: &mut std::fmt::Formatter<'_>) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    let p = ns[j].clone();
    meanwhile(k, || {
        if let Some(old) = n.parent() {
            n.remove_parent(&old);
        }
        if p != n {
            n.set_parent(&p);
        }
    });
    let last = &ns[ns.len() - 1];
    let mut seen = Vec::new();
    for x in last.iter_ancestors() {
        must(!seen.contains(&x), "an ancestor is visited once");
        seen.push(x);
    }
    let mut below = 0;
    for x in ns[0].iter_descendants() {
        must(x == x, "a node");
        below += 1;
    }
    must(below >= 1, "the node itself");
    let _ = last.parent();
    let _ = last.children().len();
    let _ = std::fmt::Display::fmt(&c, f);
    let _ = came();
}

pub fn rewired_made<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, j: usize) {
    let n = ns[i].clone();
    let p = ns[j].clone();
    meanwhile(k, || {
        if let Some(old) = n.parent() {
            n.remove_parent(&old);
        }
        if p != n {
            n.set_parent(&p);
        }
    });
    let all = Chain::from_root(ns[0].clone());
    let way = Chain::from_end(&ns[ns.len() - 1]);
    let s = SerialChain::from_end(&ns[ns.len() - 1]);
    let _ = came();
    must(all.iter().count() >= 1 && way.iter().count() >= 1, "a chain of at least the given node");
    same(&s.dof(), &s.joint_positions().len(), "positions");
}

pub fn rewired_copy<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, i: usize, j: usize) {
    let c = Chain::from_nodes(ns.to_vec());
    let n = ns[i].clone();
    let p = ns[j].clone();
    meanwhile(k, || {
        if let Some(old) = n.parent() {
            n.remove_parent(&old);
        }
        if p != n {
            n.set_parent(&p);
        }
    });
    let d = c.clone();
    let _ = came();
    same(&d.dof(), &c.dof(), "degrees of freedom");
}

/// two joints get a master at the same time
pub fn two_followers<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize, x: T, m: &[Mimic<T>]) {
    let n = ns[2].clone();
    let p = ns[0].clone();
    let m2 = m[1].clone();
    meanwhile(k, || {
        n.set_mimic_parent(&p, m2.clone());
    });
    ns[1].set_mimic_parent(&ns[0], m[0].clone());
    if came() {
        same(&ns[0].set_joint_position(x), &Ok(()), "the next request");
        followers_agree(ns, m, x);
    }
}

/// two joints get a parent at the same time
pub fn two_children<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], k: usize) {
    let n = ns[2].clone();
    let p = ns[0].clone();
    meanwhile(k, || {
        n.set_parent(&p);
    });
    ns[1].set_parent(&ns[0]);
    if came() {
        same(&ns[1].parent(), &Some(ns[0].clone()), "parent");
        same(&ns[2].parent(), &Some(ns[0].clone()), "parent");
        let cs = ns[0].children().clone();
        same(&cs.len(), &2, "both are children");
        must(cs.contains(&ns[1]) && cs.contains(&ns[2]), "both are children");
    }
}
