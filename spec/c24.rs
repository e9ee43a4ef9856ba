//! C24 URDF link data is kept: inertia, shapes, materials, poses
use crate::joint::*;
use crate::kcommon::*;
use crate::link::*;
use crate::*;
use nalgebra as na;
use simba::scalar::SubsetOf;

fn pose<T: RealField>(p: &urdf_rs::Pose) -> na::Isometry3<T> {
    let q: na::UnitQuaternion<T> = na::convert(na::UnitQuaternion::from_euler_angles(p.rpy[0], p.rpy[1], p.rpy[2]));
    na::Isometry3::from_parts(
        na::Translation3::new(na::convert(p.xyz[0]), na::convert(p.xyz[1]), na::convert(p.xyz[2])),
        q,
    )
}

fn shape<T: RealField>(g: &Geometry<T>, u: &urdf_rs::Geometry) {
    match (g, u) {
        (Geometry::Box { depth, width, height }, urdf_rs::Geometry::Box { size }) => {
            same(depth, &na::convert(size[0]), "depth of a box");
            same(width, &na::convert(size[1]), "width of a box");
            same(height, &na::convert(size[2]), "height of a box");
        }
        (Geometry::Cylinder { radius, length }, urdf_rs::Geometry::Cylinder { radius: r, length: l }) => {
            same(radius, &na::convert(*r), "radius of a cylinder");
            same(length, &na::convert(*l), "length of a cylinder");
        }
        (Geometry::Capsule { radius, length }, urdf_rs::Geometry::Capsule { radius: r, length: l }) => {
            same(radius, &na::convert(*r), "radius of a capsule");
            same(length, &na::convert(*l), "length of a capsule");
        }
        (Geometry::Sphere { radius }, urdf_rs::Geometry::Sphere { radius: r }) => {
            same(radius, &na::convert(*r), "radius of a sphere");
        }
        (Geometry::Mesh { filename, scale }, urdf_rs::Geometry::Mesh { filename: f, scale: s }) => {
            same(filename, f, "file of a mesh");
            let want: na::Vector3<T> = match s {
                Some(s) => na::Vector3::new(na::convert(s[0]), na::convert(s[1]), na::convert(s[2])),
                None => na::Vector3::new(na::convert(1.0), na::convert(1.0), na::convert(1.0)),
            };
            same(scale, &want, "scale of a mesh, 1 by default");
        }
        _ => never("another kind of shape"),
    }
}

fn stuff<T: RealField>(m: &Material<T>, u: &Option<urdf_rs::Material>) {
    let mut name = String::new();
    let mut rgba = [0.0, 0.0, 0.0, 0.0];
    let mut file = String::new();
    if let Some(u) = u {
        name = u.name.clone();
        if let Some(c) = &u.color {
            rgba = c.rgba;
        }
        if let Some(t) = &u.texture {
            file = t.filename.clone();
        }
    }
    same(&m.name, &name, "material name");
    same(&m.color.r, &na::convert(rgba[0]), "red");
    same(&m.color.g, &na::convert(rgba[1]), "green");
    same(&m.color.b, &na::convert(rgba[2]), "blue");
    same(&m.color.a, &na::convert(rgba[3]), "alpha");
    same(&m.texture.filename, &file, "texture file");
}

fn named(name: &String, u: &Option<String>) {
    match u {
        Some(u) => same(name, u, "name of a part"),
        None => same(name, &String::new(), "no name"),
    }
}

fn mass<T: RealField>(i: &Inertial<T>, u: &urdf_rs::Inertial) {
    same(&i.mass, &na::convert(u.mass.value), "mass");
    same(i.origin(), &pose(&u.origin), "origin of the inertial");
    let n = &u.inertia;
    let want = [[n.ixx, n.ixy, n.ixz], [n.ixy, n.iyy, n.iyz], [n.ixz, n.iyz, n.izz]];
    for r in 0..3 {
        for c in 0..3 {
            same(&i.inertia[(r, c)], &na::convert(want[r][c]), "symmetric inertia");
        }
    }
    same(i.world_transform(), &None, "no pose yet");
}

pub fn geometry<T: RealField>(u: urdf_rs::Geometry) {
    let g: Geometry<T> = u.clone().into();
    shape(&g, &u);
}

pub fn material<T: RealField>(u: urdf_rs::Material, c: urdf_rs::Color, t: urdf_rs::Texture) {
    let m: Material<T> = u.clone().into();
    stuff(&m, &Some(u));
    let k: Color<T> = (&c).into();
    same(&k.r, &na::convert(c.rgba[0]), "red");
    same(&k.g, &na::convert(c.rgba[1]), "green");
    same(&k.b, &na::convert(c.rgba[2]), "blue");
    same(&k.a, &na::convert(c.rgba[3]), "alpha");
    let l: Color<T> = c.clone().into();
    same(&l.r, &k.r, "red");
    same(&l.g, &k.g, "green");
    same(&l.b, &k.b, "blue");
    same(&l.a, &k.a, "alpha");
    let x: Texture = t.clone().into();
    same(&x.filename, &t.filename, "texture file");
}

pub fn inertial<T: RealField>(u: urdf_rs::Inertial) {
    let i: Inertial<T> = u.clone().into();
    mass(&i, &u);
}

pub fn visual<T: RealField>(u: urdf_rs::Visual) {
    let v: Visual<T> = u.clone().into();
    named(&v.name, &u.name);
    same(v.origin(), &pose(&u.origin), "origin of a visual");
    shape(&v.geometry, &u.geometry);
    stuff(&v.material, &u.material);
    same(v.world_transform(), &None, "no pose yet");
}

pub fn collision<T: RealField>(u: urdf_rs::Collision) {
    let v: Collision<T> = u.clone().into();
    named(&v.name, &u.name);
    same(v.origin(), &pose(&u.origin), "origin of a collision");
    shape(&v.geometry, &u.geometry);
    same(v.world_transform(), &None, "no pose yet");
}

pub fn link<T: RealField>(name: String, i: urdf_rs::Inertial, vs: Vec<urdf_rs::Visual>, cs: Vec<urdf_rs::Collision>) {
    let u = urdf_rs::Link {
        name: name.clone(),
        inertial: i.clone(),
        visual: vs.clone(),
        collision: cs.clone(),
    };
    let l: Link<T> = u.into();
    same(&l.name, &name, "name of the link");
    mass(&l.inertial, &i);
    same(&l.visuals.len(), &vs.len(), "all visuals");
    for k in 0..vs.len() {
        named(&l.visuals[k].name, &vs[k].name);
        same(l.visuals[k].origin(), &pose(&vs[k].origin), "origin of a visual");
        shape(&l.visuals[k].geometry, &vs[k].geometry);
        stuff(&l.visuals[k].material, &vs[k].material);
    }
    same(&l.collisions.len(), &cs.len(), "all collisions");
    for k in 0..cs.len() {
        named(&l.collisions[k].name, &cs[k].name);
        same(l.collisions[k].origin(), &pose(&cs[k].origin), "origin of a collision");
        shape(&l.collisions[k].geometry, &cs[k].geometry);
    }
}
