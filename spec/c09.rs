//! C09 Parent and child relations are always two-sided
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn count<T: RealField + SubsetOf<f64>>(p: &Node<T>, c: &Node<T>) -> usize {
    let mut k = 0;
    for x in p.children().iter() {
        if *x == *c {
            k += 1;
        }
    }
    k
}

fn counts<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) -> Vec<Vec<usize>> {
    ns.iter().map(|p| ns.iter().map(|c| count(p, c)).collect()).collect()
}

/// parents and children of all nodes, after the parent of ns[c] became p
fn relation<T: RealField + SubsetOf<f64>>(
    ns: &[Node<T>],
    before: &[Snap<T>],
    cb: &[Vec<usize>],
    c: usize,
    p: Option<usize>,
) {
    for i in 0..ns.len() {
        let s = snap(&ns[i]);
        if i == c {
            same(&s.parent, &p.map(|k| ns[k].clone()), "reported parent");
        } else {
            same(&s.parent, &before[i].parent, "other parents kept");
        }
        let mut n = 0;
        for j in 0..ns.len() {
            let want = if j == c { if p == Some(i) { 1 } else { 0 } } else { cb[i][j] };
            same(&count(&ns[i], &ns[j]), &want, "children agree with parents");
            n += want;
        }
        same(&s.children.len(), &n, "no other children");
        let others = |l: &Vec<Node<T>>| l.iter().filter(|x| **x != ns[c]).cloned().collect::<Vec<_>>();
        same(&others(&s.children), &others(&before[i].children), "the other children keep their order");
        same(&s.mimic_parent, &before[i].mimic_parent, "mimic relation kept");
        same(&s.name, &before[i].name, "joint name kept");
        same(&s.joint_type, &before[i].joint_type, "joint type kept");
        same(&s.limits, &before[i].limits, "limits kept");
        same(&s.origin, &before[i].origin, "origin kept");
        same(&s.position, &before[i].position, "position kept");
        same(&s.velocity, &before[i].velocity, "velocity kept");
        same(&s.link, &before[i].link, "link kept");
        same(&ns[i].is_root(), &s.parent.is_none(), "root exactly without parent");
        same(&ns[i].is_end(), &(n == 0), "end exactly without children");
    }
}

pub fn set_parent<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], c: usize, p: usize) {
    let before = snaps(ns);
    let cb = counts(ns);
    ns[c].set_parent(&ns[p]);
    relation(ns, &before, &cb, c, Some(p));
}

pub fn set_parent_twice<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], c: usize, p: usize, q: usize) {
    let before = snaps(ns);
    let cb = counts(ns);
    ns[c].set_parent(&ns[p]);
    ns[c].set_parent(&ns[q]);
    relation(ns, &before, &cb, c, Some(q));
}

pub fn remove_parent<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], c: usize, p: usize) {
    let before = snaps(ns);
    let cb = counts(ns);
    let was = match &before[c].parent {
        Some(q) => *q == ns[p],
        None => false,
    };
    ns[c].remove_parent(&ns[p]);
    if was {
        relation(ns, &before, &cb, c, None);
    } else {
        unchanged(ns, &before);
    }
}

pub fn set_then_remove<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], c: usize, p: usize) {
    let before = snaps(ns);
    let cb = counts(ns);
    ns[c].set_parent(&ns[p]);
    ns[c].remove_parent(&ns[p]);
    relation(ns, &before, &cb, c, None);
}

pub fn roots_and_ends<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    for n in ns {
        same(&n.is_root(), &n.parent().is_none(), "root exactly without parent");
        same(&n.is_end(), &(n.children().len() == 0), "end exactly without children");
    }
}

pub fn connect2<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let before = snaps(ns);
    let a = ns[0].clone();
    let b = ns[1].clone();
    crate::connect![a => b];
    let cb = vec![vec![0, 0], vec![0, 0]];
    relation(ns, &before, &cb, 1, Some(0));
}

pub fn connect4<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    crate::connect![ns[0] => ns[1] => ns[2] => ns[3]];
    for i in 0..4 {
        let p = ns[i].parent();
        let want = if i == 0 { None } else { Some(ns[i - 1].clone()) };
        same(&p, &want, "each node is linked to the one before it");
        same(&ns[i].children().len(), &(if i == 3 { 0 } else { 1 }), "one child each");
    }
    for i in 1..4 {
        must(ns[i - 1].children()[0] == ns[i], "each node is the child of the one before it");
    }
}

/// a follower moved to another master follows only the new one, with the new parameters
pub fn mimic<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], m: Mimic<T>, m2: Mimic<T>, x: T, y: T) {
    let before = snaps(ns);
    ns[2].set_mimic_parent(&ns[0], m.clone());
    same(&ns[2].mimic_parent(), &Some(ns[0].clone()), "reported mimic parent");
    ns[2].set_mimic_parent(&ns[1], m2.clone());
    same(&ns[2].mimic_parent(), &Some(ns[1].clone()), "reported mimic parent");
    for i in 0..3 {
        let s = snap(&ns[i]);
        same(&s.parent, &before[i].parent, "parent kept");
        same(&s.children, &before[i].children, "children kept");
        same(&s.position, &before[i].position, "position kept");
    }
    same(&ns[0].set_joint_position(x), &Ok(()), "the old master has no follower");
    same(&ns[0].joint_position(), &Some(x), "the old master moves");
    same(&ns[2].joint_position(), &before[2].position, "the old master does not move the joint");
    same(&ns[1].set_joint_position(y), &Ok(()), "the new master");
    same(&ns[2].joint_position(), &Some(y * m2.multiplier + m2.origin), "the new master moves the joint");
}

/// the same master again, with other parameters
pub fn mimic_again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], m: Mimic<T>, m2: Mimic<T>, y: T) {
    ns[1].set_mimic_parent(&ns[0], m.clone());
    ns[1].set_mimic_parent(&ns[0], m2.clone());
    same(&ns[1].mimic_parent(), &Some(ns[0].clone()), "reported mimic parent");
    same(&ns[0].set_joint_position(y), &Ok(()), "the master");
    same(&ns[1].joint_position(), &Some(y * m2.multiplier + m2.origin), "the parameters given last");
}
