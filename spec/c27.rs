//! C27 Builders, constructors and plain accessors keep what they are given
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

pub fn joint_new<T: RealField + SubsetOf<f64>>(name: &str, jt: JointType<T>) {
    let j = Joint::new(name, jt.clone());
    same(&j.name, &name.to_string(), "name kept");
    same(&j.joint_type, &jt, "type kept");
    same(&j.limits, &None, "unlimited");
    same(j.origin(), &na::Isometry3::identity(), "identity origin");
    same(&j.is_movable(), &movable(&jt), "movable unless fixed");
    if movable(&jt) {
        same(&j.joint_position(), &Some(T::zero()), "position zero");
        same(&j.joint_velocity(), &Some(T::zero()), "velocity zero");
    } else {
        same(&j.joint_position(), &None, "a fixed joint has no position");
        same(&j.joint_velocity(), &None, "a fixed joint has no velocity");
    }
    same(&j.world_transform(), &None, "no pose yet");
    same(&j.world_velocity().is_none(), &true, "no velocity yet");
}

/// what a builder has been given, and what it reports
fn built<T: RealField + SubsetOf<f64>>(
    b: NodeBuilder<T>,
    name: &str,
    jt: &JointType<T>,
    l: &Option<crate::joint::Range<T>>,
    o: &na::Isometry3<T>,
) {
    let j = b.clone().finalize();
    same(&j.name, &name.to_string(), "name");
    same(&j.joint_type, jt, "type");
    same(&j.limits, l, "limits");
    same(j.origin(), o, "origin");
    same(&j.world_transform(), &None, "no pose yet");
    if movable(jt) {
        same(&j.joint_position(), &Some(T::zero()), "position zero");
        same(&j.joint_velocity(), &Some(T::zero()), "velocity zero");
    }
    let n = b.into_node();
    let s = snap(&n);
    same(&s.name, &name.to_string(), "node: name");
    same(&s.joint_type, jt, "node: type");
    same(&s.limits, l, "node: limits");
    same(&s.origin, o, "node: origin");
    same(&n.origin(), o, "node: origin read directly");
    same(&s.parent, &None, "node: no parent");
    same(&s.mimic_parent, &None, "node: no mimic parent");
    same(&s.children, &Vec::new(), "node: no children");
    same(&s.link, &None, "node: no link");
    must(n.is_root(), "node: a root");
    must(n.is_end(), "node: an end");
    same(&n.joint_position(), &s.position, "node: position read directly");
    same(&n.world_transform(), &None, "node: no pose yet");
}

pub fn builder_default<T: RealField + SubsetOf<f64>>() {
    let id = na::Isometry3::identity();
    built::<T>(NodeBuilder::new(), "", &JointType::Fixed, &None, &id);
    built::<T>(NodeBuilder::default(), "", &JointType::Fixed, &None, &id);
}

pub fn builder_one<T: RealField + SubsetOf<f64>>(name: &str, jt: JointType<T>, l: Option<crate::joint::Range<T>>, o: na::Isometry3<T>) {
    let id = na::Isometry3::identity();
    built(NodeBuilder::<T>::new().name(name), name, &JointType::Fixed, &None, &id);
    built(NodeBuilder::<T>::new().joint_type(jt.clone()), "", &jt, &None, &id);
    built(NodeBuilder::<T>::new().limits(l.clone()), "", &JointType::Fixed, &l, &id);
    built(NodeBuilder::<T>::new().origin(o), "", &JointType::Fixed, &None, &o);
    built(
        NodeBuilder::<T>::new().translation(o.translation),
        "",
        &JointType::Fixed,
        &None,
        &na::Isometry3::from_parts(o.translation, na::UnitQuaternion::identity()),
    );
    built(
        NodeBuilder::<T>::new().rotation(o.rotation),
        "",
        &JointType::Fixed,
        &None,
        &na::Isometry3::from_parts(na::Translation3::new(T::zero(), T::zero(), T::zero()), o.rotation),
    );
}

pub fn builder_all<T: RealField + SubsetOf<f64>>(name: &str, jt: JointType<T>, l: Option<crate::joint::Range<T>>, o: na::Isometry3<T>, p: na::Isometry3<T>) {
    built(
        NodeBuilder::<T>::new().name(name).joint_type(jt.clone()).limits(l.clone()).origin(o),
        name,
        &jt,
        &l,
        &o,
    );
    built(
        NodeBuilder::<T>::new().origin(p).limits(l.clone()).translation(o.translation).joint_type(jt.clone()).rotation(o.rotation).name(name),
        name,
        &jt,
        &l,
        &o,
    );
    built(
        NodeBuilder::<T>::new().rotation(p.rotation).translation(o.translation).limits(l.clone()).name("other").name(name),
        name,
        &JointType::Fixed,
        &l,
        &na::Isometry3::from_parts(o.translation, p.rotation),
    );
    built(
        NodeBuilder::<T>::new().limits(l.clone()).limits(None).origin(p).translation(o.translation),
        "",
        &JointType::Fixed,
        &None,
        &na::Isometry3::from_parts(o.translation, p.rotation),
    );
}

pub fn node_from_joint<T: RealField + SubsetOf<f64>>(j: Joint<T>) {
    let k = j.clone();
    let wt = j.world_transform();
    let wv = j.world_velocity();
    for n in vec![Node::new(j), Node::from(k.clone())] {
        let s = snap(&n);
        same(&s.name, &k.name, "name");
        same(&s.joint_type, &k.joint_type, "type");
        same(&s.limits, &k.limits, "limits");
        same(&s.origin, k.origin(), "origin");
        same(&s.position, &k.joint_position(), "position");
        same(&s.velocity, &k.joint_velocity(), "velocity");
        same(&n.joint_position(), &k.joint_position(), "position read directly");
        same(&n.world_transform(), &wt, "pose");
        same(&n.world_velocity(), &wv, "world velocity");
        same(&n.joint().world_transform(), &wt, "pose of the joint");
        same(&s.parent, &None, "no parent");
        same(&s.mimic_parent, &None, "no mimic parent");
        same(&s.children, &Vec::new(), "no children");
        same(&s.link, &None, "no link");
        must(n.is_root(), "a root");
        must(n.is_end(), "an end");
    }
}

/// accessors of a node read that node and its joint
pub fn node_accessors<T: RealField + SubsetOf<f64>>(ns: &[Node<T>]) {
    let before = snaps(ns);
    for (n, b) in ns.iter().zip(before.iter()) {
        let j = n.joint().clone();
        same(&n.joint_position(), &j.joint_position(), "position");
        same(&n.origin(), j.origin(), "origin");
        same(&n.world_transform(), &j.world_transform(), "pose");
        same(&n.world_velocity(), &j.world_velocity(), "world velocity");
        same(&j.is_movable(), &movable(&b.joint_type), "movable unless fixed");
        same(&n.is_root(), &b.parent.is_none(), "root");
        same(&n.is_end(), &b.children.is_empty(), "end");
        must(n.clone() == *n, "a clone of a node is the same node");
    }
    unchanged(ns, &before);
}

pub fn node_setters<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], o: na::Isometry3<T>, l: Option<Link<T>>, m: Option<Link<T>>) {
    let before = snaps(ns);
    ns[0].set_origin(o);
    let s = snap(&ns[0]);
    same(&s.origin, &o, "origin stored");
    same(&ns[0].origin(), &o, "origin read directly");
    same_static(&s, &before[0]);
    same(&s.position, &before[0].position, "position kept");
    same(&s.velocity, &before[0].velocity, "velocity kept");
    same(&s.link, &before[0].link, "link kept");
    ns[0].set_link(l.clone());
    let s2 = snap(&ns[0]);
    same_snap_but_link(&s2, &s);
    same(&s2.link, &l, "link stored");
    ns[0].set_link(m.clone());
    same(&snap(&ns[0]).link, &m, "link replaced");
    for i in 1..ns.len() {
        same_snap(&snap(&ns[i]), &before[i]);
    }
}

pub fn chain_origin<T: RealField + SubsetOf<f64>>(ns: &[Node<T>], o: na::Isometry3<T>) {
    let before = snaps(ns);
    let chain = Chain::from_nodes(ns.to_vec());
    same(&chain.origin(), &before[0].origin, "the origin of a chain is that of its first node");
    chain.set_origin(o);
    same(&chain.origin(), &o, "origin stored");
    same(&ns[0].origin(), &o, "origin of the first node");
    let s = snap(&ns[0]);
    same_static(&s, &before[0]);
    same(&s.position, &before[0].position, "position kept");
    same(&s.velocity, &before[0].velocity, "velocity kept");
    same(&s.link, &before[0].link, "link kept");
    for i in 1..ns.len() {
        same_snap(&snap(&ns[i]), &before[i]);
    }
}

fn same_link<T: RealField>(l: &Link<T>, name: &str, i: &Inertial<T>, v: &[Visual<T>], c: &[Collision<T>]) {
    same(&l.name, &name.to_string(), "name");
    same(&l.inertial, i, "inertial");
    same(&l.visuals, &v.to_vec(), "visuals in order");
    same(&l.collisions, &c.to_vec(), "collisions in order");
}

pub fn link_default<T: RealField + SubsetOf<f64>>() {
    let none = Inertial::new(na::Isometry3::identity(), T::zero(), na::Matrix3::identity());
    same_link::<T>(&Link::default(), "", &none, &[], &[]);
    same_link::<T>(&LinkBuilder::new().finalize(), "", &none, &[], &[]);
    same_link::<T>(&LinkBuilder::default().finalize(), "", &none, &[], &[]);
    same(&none.mass, &T::zero(), "zero mass");
}

pub fn link_builder<T: RealField + SubsetOf<f64>>(name: &str, i: Inertial<T>, v: &[Visual<T>], c: &[Collision<T>]) {
    let none = Inertial::new(na::Isometry3::identity(), T::zero(), na::Matrix3::identity());
    same_link(&LinkBuilder::new().name(name).finalize(), name, &none, &[], &[]);
    same_link(&LinkBuilder::new().inertial(i.clone()).finalize(), "", &i, &[], &[]);
    same_link(&LinkBuilder::new().add_visual(v[0].clone()).finalize(), "", &none, &v[0..1], &[]);
    same_link(&LinkBuilder::new().add_collision(c[0].clone()).finalize(), "", &none, &[], &c[0..1]);
    let mut b = LinkBuilder::new();
    for x in v {
        b = b.add_visual(x.clone());
    }
    b = b.name("other").inertial(i.clone());
    for x in c {
        b = b.add_collision(x.clone());
    }
    same_link(&b.name(name).finalize(), name, &i, v, c);
    let b = LinkBuilder::new()
        .add_collision(c[0].clone())
        .add_visual(v[0].clone())
        .add_collision(c[1].clone())
        .inertial(i.clone())
        .add_visual(v[1].clone())
        .name(name);
    same_link(&b.finalize(), name, &i, &v[0..2], &c[0..2]);
}

pub fn inertial<T: RealField + SubsetOf<f64>>(o: na::Isometry3<T>, m: T, i: na::Matrix3<T>) {
    let p = Inertial::new(o, m, i);
    same(p.origin(), &o, "origin");
    same(&p.mass, &m, "mass");
    same(&p.inertia, &i, "inertia");
    same(p.world_transform(), &None, "no pose yet");
    let p = Inertial::from_mass(m);
    same(p.origin(), &na::Isometry3::identity(), "identity origin");
    same(&p.mass, &m, "mass");
    same(&p.inertia, &na::Matrix3::identity(), "identity inertia");
    same(p.world_transform(), &None, "no pose yet");
}

pub fn parts<T: RealField + SubsetOf<f64>>(name: String, o: na::Isometry3<T>, g: Geometry<T>, m: Material<T>) {
    let p = Visual::new(name.clone(), o, g.clone(), m.clone());
    same(&p.name, &name, "name");
    same(p.origin(), &o, "origin");
    same(&p.geometry, &g, "geometry");
    same(&p.material, &m, "material");
    same(p.world_transform(), &None, "no pose yet");
    let p = Collision::new(name.clone(), o, g.clone());
    same(&p.name, &name, "name");
    same(p.origin(), &o, "origin");
    same(&p.geometry, &g, "geometry");
    same(p.world_transform(), &None, "no pose yet");
}

pub fn mimic<T: RealField + SubsetOf<f64>>(a: T, b: T, x: T) {
    let m = Mimic::new(a, b);
    same(&m.multiplier, &a, "multiplier");
    same(&m.origin, &b, "offset");
    same(&m.mimic_position(x), &(x * a + b), "followed position");
}

pub fn velocity<T: RealField + SubsetOf<f64>>(t: na::Vector3<T>, r: na::Vector3<T>) {
    let v = Velocity::from_parts(t, r);
    same(&v.translation, &t, "translation");
    same(&v.rotation, &r, "rotation");
    let zero = na::Vector3::new(T::zero(), T::zero(), T::zero());
    for v in vec![Velocity::<T>::new(), Velocity::<T>::zero(), Velocity::<T>::default()] {
        same(&v.translation, &zero, "at rest");
        same(&v.rotation, &zero, "at rest");
    }
}

pub fn solver<T: RealField + SubsetOf<f64>>(d: T, a: T, m: T, n: usize) {
    let s = JacobianIkSolver::new(d, a, m, n);
    same(&s.allowable_target_distance, &d, "distance");
    same(&s.allowable_target_angle, &a, "angle");
    same(&s.jacobian_multiplier, &m, "multiplier");
    same(&s.num_max_try, &n, "number of tries");
    let s = JacobianIkSolver::<T>::default();
    same(&s.allowable_target_distance, &na::convert(0.001), "default distance");
    same(&s.allowable_target_angle, &na::convert(0.005), "default angle");
    same(&s.jacobian_multiplier, &na::convert(0.5), "default multiplier");
    same(&s.num_max_try, &10, "default number of tries");
}

pub fn defaults<T: RealField + SubsetOf<f64> + Default>() {
    let m = Material::<T>::default();
    same(&m.name, &String::new(), "no material name");
    same(&m.texture.filename, &String::new(), "no texture");
    same(&m.color.r, &T::zero(), "no colour");
    same(&m.color.g, &T::zero(), "no colour");
    same(&m.color.b, &T::zero(), "no colour");
    same(&m.color.a, &T::zero(), "no colour");
    let t = Texture::default();
    same(&t.filename, &String::new(), "no texture file");
}
