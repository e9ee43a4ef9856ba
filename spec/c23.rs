//! C23 URDF robots become the tree that the file describes
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

/// (name, parent link, child link, mimicked joint or "")
type Row = (&'static str, &'static str, &'static str, &'static str);

fn robot(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], t: &[Row], names: &[&str]) -> urdf_rs::Robot {
    let mut joints = Vec::new();
    for i in 0..t.len() {
        let mut j = js[i].clone();
        j.name = t[i].0.to_string();
        j.parent = urdf_rs::LinkName { link: t[i].1.to_string() };
        j.child = urdf_rs::LinkName { link: t[i].2.to_string() };
        j.mimic = if t[i].3 == "" {
            None
        } else {
            let m = j.mimic.clone().unwrap_or_default();
            Some(urdf_rs::Mimic { joint: t[i].3.to_string(), multiplier: m.multiplier, offset: m.offset })
        };
        joints.push(j);
    }
    let mut links = Vec::new();
    for i in 0..names.len() {
        let mut l = ls[i].clone();
        l.name = names[i].to_string();
        links.push(l);
    }
    urdf_rs::Robot { name: "robot".to_string(), links, joints, materials: vec![] }
}

/// ordered limits, as every loadable joint has
fn wellformed(js: &[urdf_rs::Joint]) {
    for j in js {
        assume(j.limit.lower <= j.limit.upper);
    }
}

fn described<T: RealField + SubsetOf<f64>>(r: &urdf_rs::Robot, chain: &Chain<T>) {
    let nodes: Vec<Node<T>> = chain.iter().cloned().collect();
    same(&nodes.len(), &(r.joints.len() + 1), "one node per joint and one root node");
    let root = nodes[0].clone();
    let s = snap(&root);
    same(&s.name, &"root".to_string(), "name of the root node");
    same(&s.joint_type, &JointType::Fixed, "the root node is fixed");
    same(&s.parent, &None, "the root node has no parent");
    same(&s.origin, &na::Isometry3::identity(), "the root node has no offset");
    let mut rootlink = None;
    for l in &r.links {
        let mut child = false;
        for j in &r.joints {
            if j.child.link == l.name {
                child = true;
            }
        }
        if !child {
            rootlink = Some(Link::from(l.clone()));
        }
    }
    same(&s.link, &rootlink, "link of the root node");
    let mut found = 0;
    for j in &r.joints {
        for n in &nodes {
            let s = snap(n);
            if s.name == j.name {
                found += 1;
                let want: Joint<T> = j.into();
                same(&s.joint_type, &want.joint_type, "type of the joint");
                same(&s.limits, &want.limits, "limits of the joint");
                same(&s.origin, want.origin(), "origin of the joint");
                let mut parent = root.clone();
                for p in &r.joints {
                    if p.child.link == j.parent.link {
                        for m in &nodes {
                            if m.joint().name == p.name {
                                parent = m.clone();
                            }
                        }
                    }
                }
                same(&s.parent, &Some(parent.clone()), "parent of the joint's node");
                let mut times = 0;
                for c in parent.children().iter() {
                    if *c == *n {
                        times += 1;
                    }
                }
                same(&times, &1, "once among the children of its parent");
                let mut link = None;
                for l in &r.links {
                    if l.name == j.child.link {
                        link = Some(Link::from(l.clone()));
                    }
                }
                same(&s.link, &link, "link of the joint's node");
                let mut master = None;
                if let Some(m) = &j.mimic {
                    for x in &nodes {
                        if x.joint().name == m.joint {
                            master = Some(x.clone());
                        }
                    }
                }
                same(&s.mimic_parent, &master, "the joint that is mimicked");
            }
        }
    }
    same(&found, &r.joints.len(), "a node for every joint");
}

fn check<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], t: &[Row], names: &[&str]) {
    wellformed(js);
    let r = robot(js, ls, t, names);
    described::<T>(&r, &Chain::from(&r));
}

pub fn single<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(js, ls, &[("j", "base", "tip", "")], &["base", "tip"]);
}

pub fn owned<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    wellformed(js);
    let r = robot(js, ls, &[("a", "base", "l1", ""), ("b", "l1", "l2", "")], &["base", "l1", "l2"]);
    described::<T>(&r, &Chain::from(r.clone()));
}

pub fn empty<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(js, ls, &[], &["base"]);
}

pub fn line<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[("a", "base", "l1", ""), ("b", "l1", "l2", ""), ("c", "l2", "l3", "")],
        &["base", "l1", "l2", "l3"],
    );
}

/// children before parents, links in another order
pub fn backwards<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[("c", "l2", "l3", ""), ("b", "l1", "l2", ""), ("a", "base", "l1", "")],
        &["l3", "l1", "base", "l2"],
    );
}

pub fn branches<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[
            ("left", "base", "l1", ""),
            ("left2", "l1", "l2", ""),
            ("right", "base", "r1", ""),
            ("right2", "r1", "r2", ""),
            ("right3", "r1", "r3", ""),
        ],
        &["base", "l1", "l2", "r1", "r2", "r3"],
    );
}

/// names of joints and links overlap
pub fn overlap<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[("base", "a", "b", ""), ("b", "b", "c", ""), ("c", "b", "base", "")],
        &["a", "b", "c", "base"],
    );
}

pub fn mimics<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[("a", "base", "l1", "b"), ("b", "base", "l2", ""), ("c", "l2", "l3", "b"), ("d", "l3", "l4", "")],
        &["base", "l1", "l2", "l3", "l4"],
    );
}

/// a joint that mimics another one can be mimicked itself
pub fn mimic_line<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[("a", "base", "l1", ""), ("b", "l1", "l2", "a"), ("c", "l2", "l3", "b"), ("d", "base", "l4", "c")],
        &["base", "l1", "l2", "l3", "l4"],
    );
}

pub fn mimic_line_backwards<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(
        js,
        ls,
        &[("d", "base", "l4", "c"), ("c", "l2", "l3", "b"), ("b", "l1", "l2", "a"), ("a", "base", "l1", "")],
        &["base", "l1", "l2", "l3", "l4"],
    );
}

/// a link that the file does not list
pub fn missing_link<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    check::<T>(js, ls, &[("a", "world", "base", ""), ("b", "base", "l2", "")], &["base", "l2"]);
}

/// a mimic element gives the relation its parameters
pub fn mimic_parameters<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], x: T, a: Option<f64>, b: Option<f64>) {
    let mut r = robot(js, ls, &[("a", "base", "l1", ""), ("b", "base", "l2", "a")], &["base", "l1", "l2"]);
    for j in r.joints.iter_mut() {
        j.joint_type = urdf_rs::JointType::Continuous;
        j.limit.lower = 0.0;
        j.limit.upper = 0.0;
    }
    r.joints[1].mimic = Some(urdf_rs::Mimic { joint: "a".to_string(), multiplier: a, offset: b });
    let chain: Chain<T> = Chain::from(&r);
    let master = chain.find("a").unwrap();
    let follower = chain.find("b").unwrap();
    let got = master.set_joint_position(x);
    same(&got, &Ok(()), "answer of the request");
    let k: T = na::convert(match a {
        Some(a) => a,
        None => 1.0,
    });
    let o: T = na::convert(match b {
        Some(b) => b,
        None => 0.0,
    });
    same(&master.joint_position(), &Some(x), "position of the master");
    same(&follower.joint_position(), &Some(x * k + o), "position of the follower");
}

/// all names unknown, but different from each other
pub fn any_names<T: RealField + SubsetOf<f64>>(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link]) {
    wellformed(js);
    for i in 0..js.len() {
        assume(js[i].name != "root");
        for k in 0..i {
            assume(js[i].name != js[k].name);
            assume(js[i].child.link != js[k].child.link);
        }
        assume(js[i].mimic.is_none());
    }
    for i in 0..js.len() {
        assume(js[i].parent.link == ls[i].name);
        assume(js[i].child.link == ls[i + 1].name);
    }
    for i in 0..ls.len() {
        for k in 0..i {
            assume(ls[i].name != ls[k].name);
        }
    }
    let r = urdf_rs::Robot { name: "robot".to_string(), links: ls.to_vec(), joints: js.to_vec(), materials: vec![] };
    described::<T>(&r, &Chain::from(&r));
}

pub fn from_file<T: RealField + SubsetOf<f64>>(path: &str) {
    let r = urdf_rs::utils::read_urdf_or_xacro(path);
    if let Ok(r) = &r {
        assume(r.joints[0].limit.lower <= r.joints[0].limit.upper);
    }
    let got: Result<Chain<T>, urdf_rs::UrdfError> = Chain::from_urdf_file(path);
    match (&got, &r) {
        (Err(e), Err(w)) => same(e, w, "error of the reader"),
        (Ok(c), Ok(r)) => described(r, c),
        _ => never("success and failure agree with the reader"),
    }
}
