From 8b4f756c8d70d0c5c3611cdaa5cd4cf433dca891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 01/20] fix: update_velocities locks a joint it has already
 locked

---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 31f1d70..0a7fa2e 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -399,7 +399,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
-                let velocity = match node.joint().joint_type {
+                // Do not keep the guard of the joint while it is locked again below
+                let joint_type = node.joint().joint_type;
+                let velocity = match joint_type {
                     JointType::Fixed => parent_velocity,
                     JointType::Rotational { axis } => {
                         let parent = node.parent().expect("parent must exist");
-- 
2.43.0


From d13ea6ef6feade0aeae5849e784962bf178f28f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 02/20] fix: update_velocities uses the offset from the parent
 joint for all joint types

---
 src/chain.rs | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0a7fa2e..01c12d8 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -399,36 +399,26 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
                 let parent_velocity = node
                     .parent_world_velocity()
                     .expect("velocity cache must exist");
+                let world_transform = node.world_transform().expect("cache must exist");
+                // Velocity of the origin of this node as a point fixed to the parent
+                let translation = parent_velocity.translation
+                    + parent_velocity.rotation.cross(
+                        &(world_transform.translation.vector - parent_transform.translation.vector),
+                    );
                 // Do not keep the guard of the joint while it is locked again below
                 let joint_type = node.joint().joint_type;
                 let velocity = match joint_type {
-                    JointType::Fixed => parent_velocity,
-                    JointType::Rotational { axis } => {
-                        let parent = node.parent().expect("parent must exist");
-                        let parent_vel = parent.joint().origin().translation.vector;
-                        Velocity::from_parts(
-                            parent_velocity.translation
-                                + parent_velocity.rotation.cross(
-                                    &(parent_transform.rotation.to_rotation_matrix() * parent_vel),
-                                ),
-                            parent_velocity.rotation
-                                + node
-                                    .world_transform()
-                                    .expect("cache must exist")
-                                    .rotation
-                                    .to_rotation_matrix()
-                                    * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        )
-                    }
+                    JointType::Fixed => Velocity::from_parts(translation, parent_velocity.rotation),
+                    JointType::Rotational { axis } => Velocity::from_parts(
+                        translation,
+                        parent_velocity.rotation
+                            + world_transform.rotation.to_rotation_matrix()
+                                * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
+                    ),
                     JointType::Linear { axis } => Velocity::from_parts(
-                        parent_velocity.translation
-                            + node
-                                .world_transform()
-                                .expect("cache must exist")
-                                .rotation
-                                .to_rotation_matrix()
+                        translation
+                            + world_transform.rotation.to_rotation_matrix()
                                 * (axis.into_inner() * node.joint().joint_velocity().unwrap()),
-                        // TODO: Is this true??
                         parent_velocity.rotation,
                     ),
                 };
-- 
2.43.0


From e94826ae32c5f3151c4cda146b4a1a67030e859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:00 +0000
Subject: [PATCH 03/20] fix: keep the order of the nodes and of the children
 when a Chain is cloned

---
 src/chain.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 01c12d8..0318504 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -465,7 +465,7 @@ where
         }
         assert!(self.nodes[0].is_root());
         // Clone everything
-        let mut new_nodes = self
+        let new_nodes = self
             .nodes
             .iter()
             .map(|n| {
@@ -476,10 +476,12 @@ where
             .collect::<Vec<_>>();
         // Connect to new nodes
         for i in 0..new_nodes.len() {
-            if let Some(p) = self.nodes[i].parent() {
-                // get index of p
-                let parent_index = self.nodes.iter().position(|x| *x == p).unwrap();
-                new_nodes[i].set_parent(&new_nodes[parent_index]);
+            // keep the order of the children
+            for c in self.nodes[i].children().iter() {
+                // get index of c
+                if let Some(child_index) = self.nodes.iter().position(|x| x == c) {
+                    new_nodes[child_index].set_parent(&new_nodes[i]);
+                }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
                 let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
@@ -492,7 +494,7 @@ where
         //
         // first node must be root
         assert!(new_nodes[0].is_root());
-        Chain::from_root(new_nodes.remove(0))
+        Chain::from_nodes(new_nodes)
     }
 }
 
-- 
2.43.0


From 577d36effa1b16c2e41cef1d404a11af764753d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 04/20] fix: clone of a Chain panics if a mimic parent is out
 of the chain

---
 src/chain.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 0318504..520048d 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -484,11 +484,13 @@ where
                 }
             }
             if let Some(m) = self.nodes[i].mimic_parent() {
-                let parent_index = self.nodes.iter().position(|x| *x == m).unwrap();
-                new_nodes[i].set_mimic_parent(
-                    &new_nodes[parent_index],
-                    self.nodes[i].lock().mimic.clone().unwrap(),
-                );
+                // The mimic parent may be out of this chain
+                if let Some(parent_index) = self.nodes.iter().position(|x| *x == m) {
+                    new_nodes[i].set_mimic_parent(
+                        &new_nodes[parent_index],
+                        self.nodes[i].lock().mimic.clone().unwrap(),
+                    );
+                }
             }
         }
         //
-- 
2.43.0


From d48ac7ce0e7dbf0741cd81eb0846b25746239a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 05/20] fix: do not move ignored joints in the non-redundant
 case of inverse kinematics

---
 src/ik.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index d658dc5..9e61af0 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -271,14 +271,11 @@ where
             }
         } else {
             // normal inverse matrix
-            self.add_positions_with_multiplier(
-                &orig_positions,
-                jacobi
-                    .lu()
-                    .solve(&err)
-                    .ok_or(Error::InverseMatrixError)?
-                    .as_slice(),
-            )
+            let mut d_q = jacobi.lu().solve(&err).ok_or(Error::InverseMatrixError)?;
+            for joint_index in ignored_joint_indices {
+                d_q = d_q.insert_row(*joint_index, T::zero());
+            }
+            self.add_positions_with_multiplier(&orig_positions, d_q.as_slice())
         };
         arm.set_joint_positions_clamped(&positions_vec);
         Ok(calc_pose_diff_with_constraints(
-- 
2.43.0


From 1f7ec492d2c8cc7b9e37dd00c21c6e1af9273be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 06/20] fix: inverse kinematics panics if ignored joint names
 are duplicated or too many

---
 src/ik.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 9e61af0..7dc1941 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -294,13 +294,6 @@ where
         let operational_space = define_operational_space(constraints);
         let required_dof = operational_space.iter().filter(|x| **x).count();
         let orig_positions = arm.joint_positions();
-        let available_dof = arm.dof() - constraints.ignored_joint_names.len();
-        if available_dof < required_dof {
-            return Err(Error::PreconditionError {
-                dof: available_dof,
-                necessary_dof: required_dof,
-            });
-        }
         let mut ignored_joint_indices = Vec::new();
         for joint_name in &constraints.ignored_joint_names {
             // Try to get joint index
@@ -316,6 +309,14 @@ where
             }
         }
         ignored_joint_indices.sort_unstable();
+        ignored_joint_indices.dedup();
+        let available_dof = arm.dof() - ignored_joint_indices.len();
+        if available_dof < required_dof {
+            return Err(Error::PreconditionError {
+                dof: available_dof,
+                necessary_dof: required_dof,
+            });
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From 19ab9c204159dc3eeb14a4baee8a5b34ac503ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 07/20] fix: inverse kinematics panics if no coordinate is
 constrained

---
 src/ik.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ik.rs b/src/ik.rs
index 7dc1941..218e8dc 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -317,6 +317,10 @@ where
                 necessary_dof: required_dof,
             });
         }
+        if required_dof == 0 {
+            // There is nothing to reach
+            return Ok(());
+        }
         let mut last_target_distance = None;
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
-- 
2.43.0


From d787406b6ce6101487d48a84982f67b2c0bc2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 08/20] fix: inverse kinematics panics if num_max_try is zero

---
 src/ik.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index 218e8dc..b5c27f8 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -321,7 +321,10 @@ where
             // There is nothing to reach
             return Ok(());
         }
-        let mut last_target_distance = None;
+        let mut last_target_distance = target_diff_to_len_rot_diff(
+            &calc_pose_diff_with_constraints(target_pose, &arm.end_transform(), operational_space),
+            operational_space,
+        );
         for _ in 0..self.num_max_try {
             let target_diff = self.solve_one_loop_with_constraints(
                 arm,
@@ -337,13 +340,13 @@ where
                 arm.set_joint_positions_clamped(&non_checked_positions);
                 return Ok(());
             }
-            last_target_distance = Some((len_diff, rot_diff));
+            last_target_distance = (len_diff, rot_diff);
         }
         arm.set_joint_positions(&orig_positions)?;
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
-            position_diff: na::try_convert(last_target_distance.unwrap().0).unwrap_or_default(),
-            rotation_diff: na::try_convert(last_target_distance.unwrap().1).unwrap_or_default(),
+            position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
+            rotation_diff: na::try_convert(last_target_distance.1).unwrap_or_default(),
         })
     }
 }
-- 
2.43.0


From 8510ec0ca9474e250e7f72ecd4c6d5836c4225db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 09/20] fix: restore all joint positions as they were if
 inverse kinematics fails

---
 src/ik.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ik.rs b/src/ik.rs
index b5c27f8..fc528db 100644
--- a/src/ik.rs
+++ b/src/ik.rs
@@ -342,7 +342,7 @@ where
             }
             last_target_distance = (len_diff, rot_diff);
         }
-        arm.set_joint_positions(&orig_positions)?;
+        arm.set_joint_positions_unchecked(&orig_positions);
         Err(Error::NotConvergedError {
             num_tried: self.num_max_try,
             position_diff: na::try_convert(last_target_distance.0).unwrap_or_default(),
@@ -468,7 +468,7 @@ where
         let orig_positions = arm.joint_positions();
         let re = self.solve_with_constraints_internal(arm, target_pose, constraints);
         if re.is_err() {
-            arm.set_joint_positions(&orig_positions)?;
+            arm.set_joint_positions_unchecked(&orig_positions);
         };
         re
     }
-- 
2.43.0


From 9ec3417693b556c7574443f6b56eceaa110836f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:02 +0000
Subject: [PATCH 10/20] fix: jacobian mixes two coordinate frames if the arm
 does not start from the root

---
 src/funcs.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/funcs.rs b/src/funcs.rs
index bf03a58..722bdbc 100644
--- a/src/funcs.rs
+++ b/src/funcs.rs
@@ -1,6 +1,6 @@
 use super::chain::*;
 use super::joint::*;
-use na::{DMatrix, RealField, Vector3};
+use na::{DMatrix, Isometry3, RealField, Vector3};
 use nalgebra as na;
 use simba::scalar::SubsetOf;
 
@@ -11,24 +11,26 @@ where
 {
     let dof = arm.dof();
     let t_n = arm.end_transform();
-    arm.update_transforms();
     let p_n = t_n.translation;
+    // Same coordinates as `end_transform()`, not the world if the arm does not start from the root
+    let mut t_i = Isometry3::identity();
     let jacobi_vec = arm
-        .iter_joints()
-        .map(|joint| {
-            let t_i = joint.world_transform().unwrap();
+        .iter()
+        .filter_map(|node| {
+            let joint = node.joint();
+            t_i *= joint.local_transform();
             match joint.joint_type {
                 JointType::Linear { axis } => {
                     let p_i = t_i.rotation * axis;
-                    [p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()]
+                    Some([p_i[0], p_i[1], p_i[2], na::zero(), na::zero(), na::zero()])
                 }
                 JointType::Rotational { axis } => {
                     let p_i = t_i.translation;
                     let a_i = t_i.rotation * axis;
                     let dp_i = a_i.cross(&(p_n.vector - p_i.vector));
-                    [dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]]
+                    Some([dp_i[0], dp_i[1], dp_i[2], a_i[0], a_i[1], a_i[2]])
                 }
-                JointType::Fixed => panic!("impossible, bug of jacobian"),
+                JointType::Fixed => None,
             }
         })
         .collect::<Vec<_>>();
-- 
2.43.0


From 52f0d70fbfafbc74f32e870c2d6a9bb28b5f86bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 11/20] fix: update_link_transforms ignores the position of the
 joint of the link

---
 src/chain.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index 520048d..d5033db 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -432,17 +432,17 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     pub fn update_link_transforms(&self) {
         self.update_transforms();
         self.iter().for_each(|node| {
-            let parent_transform = node.parent_world_transform().expect("cache must exist");
+            let world_transform = node.world_transform().expect("cache must exist");
             let mut node_mut = node.lock();
             if let Some(ref mut link) = node_mut.link {
-                let inertial_trans = parent_transform * link.inertial.origin();
+                let inertial_trans = world_transform * link.inertial.origin();
                 link.inertial.set_world_transform(inertial_trans);
                 for c in &mut link.collisions {
-                    let c_trans = parent_transform * c.origin();
+                    let c_trans = world_transform * c.origin();
                     c.set_world_transform(c_trans);
                 }
                 for v in &mut link.visuals {
-                    let v_trans = parent_transform * v.origin();
+                    let v_trans = world_transform * v.origin();
                     v.set_world_transform(v_trans);
                 }
             }
-- 
2.43.0


From 8d7d74ec5bad918fba7bbc99d28d4831453b6930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 12/20] fix: set_parent leaves the node in the children of the
 old parent

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index b2b62c2..25d7321 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -105,6 +105,9 @@ where
 
     /// Set parent and child relations at same time
     pub fn set_parent(&self, parent: &Node<T>) {
+        if let Some(old_parent) = self.parent() {
+            self.remove_parent(&old_parent);
+        }
         self.lock().parent = Some(Arc::downgrade(&parent.0));
         parent.0.lock().unwrap().children.push(self.clone());
     }
-- 
2.43.0


From 3beced27dd136082ab088be47f7291f5363e2397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:03 +0000
Subject: [PATCH 13/20] fix: remove_parent breaks the relation with another
 parent

---
 src/node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/node.rs b/src/node.rs
index 25d7321..cf29f7f 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -114,6 +114,9 @@ where
 
     /// Remove parent and child relations at same time
     pub fn remove_parent(&self, parent: &Node<T>) {
+        if self.parent().as_ref() != Some(parent) {
+            return;
+        }
         self.lock().parent = None;
         parent.0.lock().unwrap().children.retain(|x| *x != *self);
     }
-- 
2.43.0


From 1cd0cb28da2b4a872a7d84afc8cb528342b51fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 14/20] fix: MimicError can not be returned because of a
 deadlock

---
 src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index cf29f7f..bb551d0 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -220,8 +220,8 @@ where
                     .joint
                     .set_joint_position(m.mimic_position(position))?,
                 None => {
-                    let from = self.joint().name.to_owned();
-                    let to = child.joint().name.to_owned();
+                    let from = node.joint.name.to_owned();
+                    let to = child_node.joint.name.to_owned();
                     return Err(Error::MimicError { from, to });
                 }
             };
-- 
2.43.0


From 6f952e1fe0c2af47dcf0b762166fd650cb1c5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 15/20] fix: set_mimic_parent leaves the node in the mimic
 children of the old parent

---
 src/node.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/node.rs b/src/node.rs
index bb551d0..b6e817e 100644
--- a/src/node.rs
+++ b/src/node.rs
@@ -323,9 +323,15 @@ where
     }
 
     pub fn set_mimic_parent(&self, parent: &Node<T>, mimic: Mimic<T>) {
-        self.lock().mimic_parent = Some(Arc::downgrade(&parent.0));
+        if let Some(old_parent) = self.mimic_parent() {
+            old_parent.lock().mimic_children.retain(|x| *x != *self);
+        }
+        {
+            let mut node = self.lock();
+            node.mimic_parent = Some(Arc::downgrade(&parent.0));
+            node.mimic = Some(mimic);
+        }
         parent.lock().mimic_children.push(self.clone());
-        self.lock().mimic = Some(mimic);
     }
 
     pub fn set_link(&self, link: Option<Link<T>>) {
-- 
2.43.0


From 43931c0d23065cd3de5fd9ef64841d164200bd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 16/20] fix: do not panic for an empty chain

---
 src/chain.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index d5033db..894a571 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -107,7 +107,10 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
 
 impl<T: RealField + SubsetOf<f64>> Display for Chain<T> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-        self.fmt_with_indent_level(self.iter().next().unwrap(), 0, f)
+        match self.iter().next() {
+            Some(root) => self.fmt_with_indent_level(root, 0, f),
+            None => Ok(()),
+        }
     }
 }
 
@@ -543,7 +546,7 @@ where
     pub fn try_new(inner: Chain<T>) -> Option<Self> {
         {
             let num = inner.iter().count();
-            for node in inner.iter().take(num - 1) {
+            for node in inner.iter().take(num.saturating_sub(1)) {
                 if node.children().len() != 1 {
                     return None;
                 }
-- 
2.43.0


From de1ad884e8f265589c06d2257b8b1495ceacfd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:04 +0000
Subject: [PATCH 17/20] fix: Display of Chain keeps a node locked while it
 locks the children

---
 src/chain.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chain.rs b/src/chain.rs
index 894a571..e7f1cc0 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -98,7 +98,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
         if self.nodes.iter().any(|joint| joint == node) {
             writeln!(f, "{}{}", "    ".repeat(level), node)?;
         }
-        for c in node.children().iter() {
+        // Do not lock `node` while its descendants are locked
+        let children = node.children().clone();
+        for c in children.iter() {
             self.fmt_with_indent_level(c, level + 1, f)?
         }
         Ok(())
-- 
2.43.0


From 190610390d370cfd46715740ea2108ba43a550ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 18/20] fix: set_origin keeps the velocity of the old origin

---
 src/joint/joint.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/joint/joint.rs b/src/joint/joint.rs
index ba6d487..b300605 100644
--- a/src/joint/joint.rs
+++ b/src/joint/joint.rs
@@ -181,6 +181,7 @@ where
     pub fn set_origin(&mut self, origin: Isometry3<T>) {
         self.origin = origin;
         self.world_transform_cache.replace(None);
+        self.world_velocity_cache.replace(None);
     }
 
     pub fn set_joint_velocity(&mut self, velocity: T) -> Result<(), Error> {
-- 
2.43.0


From 1b4167e697ab091ec92fa918ed0a6fc0bbf69b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 19/20] fix: iter_links unlocks the node between the check and
 the use of the link

---
 src/chain.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chain.rs b/src/chain.rs
index e7f1cc0..22b11d2 100644
--- a/src/chain.rs
+++ b/src/chain.rs
@@ -283,8 +283,9 @@ impl<T: RealField + SubsetOf<f64>> Chain<T> {
     /// Iterate for links
     pub fn iter_links(&self) -> impl Iterator<Item = LinkRefGuard<'_, T>> {
         self.nodes.iter().filter_map(|node| {
-            if node.link().is_some() {
-                Some(LinkRefGuard { guard: node.lock() })
+            let guard = node.lock();
+            if guard.link.is_some() {
+                Some(LinkRefGuard { guard })
             } else {
                 None
             }
-- 
2.43.0


From f52d8ccbaf14446f8f784db7f106c3c92f812ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 20/20] fix: joint_to_link_map maps the root joint to the last
 link

---
 src/urdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/urdf.rs b/src/urdf.rs
index ff3a32d..cada6f3 100644
--- a/src/urdf.rs
+++ b/src/urdf.rs
@@ -375,7 +375,7 @@ pub fn joint_to_link_map(urdf_robot: &urdf_rs::Robot) -> HashMap<String, String>
         map.insert(j.name.to_owned(), j.child.link.to_owned());
     }
     for l in &urdf_robot.links {
-        if map.get(&l.name).is_none() {
+        if urdf_robot.joints.iter().all(|j| j.child.link != l.name) {
             map.insert(ROOT_JOINT_NAME.to_owned(), l.name.to_owned());
         }
     }
-- 
2.43.0

