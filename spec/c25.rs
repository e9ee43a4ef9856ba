//! C25 The maps between link and joint names are right
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn expect_joint(r: &urdf_rs::Robot, link: &str) -> Option<String> {
    let mut listed = false;
    for j in &r.joints {
        if j.child.link == link {
            return Some(j.name.clone());
        }
    }
    for l in &r.links {
        if l.name == link {
            listed = true;
        }
    }
    if listed {
        Some("root".to_string())
    } else {
        None
    }
}

fn expect_link(r: &urdf_rs::Robot, joint: &str) -> Option<String> {
    for j in &r.joints {
        if j.name == joint {
            return Some(j.child.link.clone());
        }
    }
    if joint == "root" {
        for l in &r.links {
            let mut child = false;
            for j in &r.joints {
                if j.child.link == l.name {
                    child = true;
                }
            }
            if !child {
                return Some(l.name.clone());
            }
        }
    }
    None
}

fn check(r: &urdf_rs::Robot, q: &str) {
    let a = crate::urdf::link_to_joint_map(r);
    let b = crate::urdf::joint_to_link_map(r);
    same(&a.get(q).cloned(), &expect_joint(r, q), "joint of a link");
    same(&b.get(q).cloned(), &expect_link(r, q), "link of a joint");
}

fn robot(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], t: &[(&str, &str, &str)], names: &[&str]) -> urdf_rs::Robot {
    let mut joints = Vec::new();
    for i in 0..t.len() {
        let mut j = js[i].clone();
        j.name = t[i].0.to_string();
        j.parent = urdf_rs::LinkName { link: t[i].1.to_string() };
        j.child = urdf_rs::LinkName { link: t[i].2.to_string() };
        joints.push(j);
    }
    let mut links = Vec::new();
    for i in 0..names.len() {
        let mut l = ls[i].clone();
        l.name = names[i].to_string();
        links.push(l);
    }
    urdf_rs::Robot { name: "robot".to_string(), links, joints, materials: vec![] }
}

pub fn tree(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], q: &str) {
    check(
        &robot(
            js,
            ls,
            &[("left", "base", "l1"), ("left2", "l1", "l2"), ("right", "base", "r1"), ("right2", "r1", "r2")],
            &["base", "l1", "l2", "r1", "r2"],
        ),
        q,
    );
}

pub fn backwards(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], q: &str) {
    check(
        &robot(js, ls, &[("c", "l2", "l3"), ("b", "l1", "l2"), ("a", "base", "l1")], &["l3", "l1", "base", "l2"]),
        q,
    );
}

pub fn overlap(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], q: &str) {
    check(
        &robot(js, ls, &[("base", "a", "b"), ("b", "b", "c"), ("c", "b", "base")], &["c", "b", "base", "a"]),
        q,
    );
}

pub fn no_joints(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], q: &str) {
    check(&robot(js, ls, &[], &["base"]), q);
}

/// all names unknown, but different from each other
pub fn any_names(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], q: &str) {
    for i in 0..js.len() {
        assume(js[i].name != "root");
        for k in 0..i {
            assume(js[i].name != js[k].name);
            assume(js[i].child.link != js[k].child.link);
        }
        assume(js[i].child.link == ls[i + 1].name);
    }
    for i in 0..ls.len() {
        for k in 0..i {
            assume(ls[i].name != ls[k].name);
        }
    }
    check(&urdf_rs::Robot { name: "robot".to_string(), links: ls.to_vec(), joints: js.to_vec(), materials: vec![] }, q);
}

/// links that hang on no joint: each of them belongs to the root
pub fn several(js: &[urdf_rs::Joint], ls: &[urdf_rs::Link], q: &str) {
    for i in 0..js.len() {
        assume(js[i].name != "root");
        for k in 0..i {
            assume(js[i].name != js[k].name);
            assume(js[i].child.link != js[k].child.link);
        }
    }
    for i in 0..ls.len() {
        for k in 0..i {
            assume(ls[i].name != ls[k].name);
        }
    }
    let r = urdf_rs::Robot { name: "robot".to_string(), links: ls.to_vec(), joints: js.to_vec(), materials: vec![] };
    let a = crate::urdf::link_to_joint_map(&r);
    same(&a.get(q).cloned(), &expect_joint(&r, q), "joint of a link");
    if q != "root" {
        let b = crate::urdf::joint_to_link_map(&r);
        same(&b.get(q).cloned(), &expect_link(&r, q), "link of a joint");
    }
}
