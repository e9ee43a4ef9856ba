//! C08 Chains contain exactly the requested nodes, parents first
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn index_of<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], n: &Node<T>) -> Option<usize> {
    for i in 0..ns.len() {
        if ns[i] == *n {
            return Some(i);
        }
    }
    None
}

fn below<T: RealField + SubsetOf<f64>>(n: &Node<T>, root: &Node<T>) -> bool {
    let mut cur = Some(n.clone());
    while let Some(c) = cur {
        if c == *root {
            return true;
        }
        cur = c.parent();
    }
    false
}

/// `got` holds exactly root and its descendants, each once and after its parent
fn subtree<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], root: &Node<T>, got: &[Node<T>]) {
    let mut want = 0;
    for n in ns {
        if below(n, root) {
            want += 1;
            must(index_of(got, n).is_some(), "every descendant is there");
        }
    }
    same(&got.len(), &want, "nothing else, and nothing twice");
    for i in 0..got.len() {
        if got[i] != *root {
            let p = got[i].parent().unwrap();
            must(index_of(&got[..i], &p).is_some(), "parents first");
        }
    }
    must(got[0] == *root, "the root first");
}

fn up<T: RealField + SubsetOf<f64>>(n: &Node<T>) -> Vec<Node<T>> {
    let mut out = vec![n.clone()];
    let mut cur = n.parent();
    while let Some(c) = cur {
        cur = c.parent();
        out.push(c);
    }
    out
}

fn same_list<T: RealField + SubsetOf<f64>>(a: &[Node<T>], b: &[Node<T>], l: &str) {
    same(&a.len(), &b.len(), l);
    for i in 0..b.len() {
        must(a[i] == b[i], l);
    }
}

pub fn from_root<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize) {
    let before = snaps(ns);
    let chain = Chain::from_root(ns[at].clone());
    let got: Vec<Node<T>> = chain.iter().cloned().collect();
    subtree(ns, &ns[at], &got);
    unchanged(ns, &before);
}

pub fn descendants<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize) {
    let got: Vec<Node<T>> = ns[at].iter_descendants().collect();
    subtree(ns, &ns[at], &got);
}

pub fn ancestors<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize) {
    let got: Vec<Node<T>> = ns[at].iter_ancestors().collect();
    same_list(&got, &up(&ns[at]), "from the node up to its root");
}

pub fn from_end<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize) {
    let before = snaps(ns);
    let chain = Chain::from_end(&ns[at]);
    let got: Vec<Node<T>> = chain.iter().cloned().collect();
    let mut want = up(&ns[at]);
    want.reverse();
    same_list(&got, &want, "from the root down to the end");
    unchanged(ns, &before);
}

pub fn from_end_to_root<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], at: usize, to: usize) {
    let before = snaps(ns);
    let chain = Chain::from_end_to_root(&ns[at], &ns[to]);
    let got: Vec<Node<T>> = chain.iter().cloned().collect();
    let mut want = Vec::new();
    let mut done = false;
    for n in up(&ns[at]) {
        if !done {
            done = n == ns[to];
            want.push(n);
        }
    }
    want.reverse();
    same_list(&got, &want, "from the given root down to the end");
    unchanged(ns, &before);
}

pub fn from_nodes<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let before = snaps(ns);
    let chain = Chain::from_nodes(ns.to_vec());
    let got: Vec<Node<T>> = chain.iter().cloned().collect();
    same_list(&got, ns, "exactly the given nodes");
    unchanged(ns, &before);
}

pub fn find<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], name: &str) {
    let chain = Chain::from_nodes(ns.to_vec());
    finds(&chain, ns, name);
}

pub fn find_again<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], name: &str, other: &str) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    let _ = chain.find(other).is_some();
    finds(&chain, ns, name);
}

fn finds<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>], name: &str) {
    let before = snaps(ns);
    let mut want: Option<Node<T>> = None;
    for n in ns {
        if want.is_none() && n.joint().name == name {
            want = Some(n.clone());
        }
    }
    let got = chain.find(name).cloned();
    same(&got.is_some(), &want.is_some(), "found exactly when there is one");
    if let Some(w) = want {
        must(got.unwrap() == w, "the first node with that name");
    }
    unchanged(ns, &before);
}

pub fn links<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let chain = Chain::from_nodes(ns.to_vec());
    linked(&chain, ns);
}

/// a chain that is in use, and a link that came later
pub fn links_used<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], x: T, v: T, o: na::Isometry3<T>, l: Option<Link<T>>) {
    let chain = Chain::from_nodes(ns.to_vec());
    exercised(&chain);
    stirred(ns, x, v, o, &l);
    linked(&chain, ns);
}

fn linked<T: RealField + SubsetOf<f64>>(chain: &Chain<T>, ns: &[Node<T>]) {
    let before = snaps(ns);
    let got: Vec<Link<T>> = chain.iter_links().map(|l| l.clone()).collect();
    let mut want: Vec<Link<T>> = Vec::new();
    for n in ns {
        if let Some(l) = n.link().clone() {
            want.push(l);
        }
    }
    same(&got.len(), &want.len(), "as many links as nodes with a link");
    for i in 0..want.len() {
        same(&got[i], &want[i], "links in chain order");
    }
    unchanged(ns, &before);
}
