#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place where the property texts live)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],observe_at=observe,hook_needed=None)))
IN=["inputs"]
p("C01","Forward kinematics composes parent pose and local transform",
 "Updating the transforms of a chain gives every node, in the chain's order, the pose 'pose of its parent (identity when it has none) composed with the node's own local transform', and the returned list and the pose stored in each node are the same. The end transform of a serial chain is the composition, from base to tip, of the local transforms of all its nodes, fixed ones included. Nothing else (positions, origins, links, tree structure) is changed by either.",
 IN,"every tree shape, joint type mix, joint position, origin and chain constructor",
 "The tests compute a handful of poses of one URDF robot and 3 to 5 hand-built joints; an error in a term that is zero or symmetric in those robots (rotated origins, branches, fixed joints in the middle) stays unseen.",
 ["src/chain.rs","src/node.rs","src/joint/joint.rs"],[("Chain::update_transforms","src/chain.rs"),("SerialChain::end_transform","src/chain.rs"),("Node::parent_world_transform","src/node.rs")],
 ["Chain::update_transforms return value","Node::world_transform","SerialChain::end_transform"],[("world transform cache","last computed world pose of a joint","src/joint/joint.rs")])
p("C02","Local transform of a joint follows its type, axis, position and origin",
 "The local transform of a joint is its origin followed by its own motion: nothing for a fixed joint, the rotation by the joint position about the joint axis for a rotational joint, and the translation by the joint position along the joint axis for a linear joint. It reads only the origin, type, axis and position and changes nothing.",
 IN,"every joint type, axis, origin and position","Tests use axis-aligned joints with pure translations as origins, for which wrong composition orders give the same numbers.",
 ["src/joint/joint.rs"],[("Joint::local_transform","src/joint/joint.rs")],["Joint::local_transform"])
p("C03","A checked set is accepted exactly when movable and within limits",
 "Setting a joint position (or velocity) of a fixed joint is refused with the error that names the joint; setting a position outside the limits, including a NaN when there are limits, is refused with the error that carries the joint's name, the requested position and the upper and lower limit; every other position and every velocity is accepted and read back exactly. A refused request leaves the joint exactly as it was, and an accepted one changes nothing but that position or velocity (and cached results). Position and velocity of a fixed joint read as absent.",
 IN,"every joint type, limit, position (NaN and infinities included) and prior state","The tests set a few in-range and out-of-range values; boundary values, NaN, the error payload and the state after a refusal are not covered.",
 ["src/joint/joint.rs","src/node.rs"],[("Joint::set_joint_position / set_joint_velocity","src/joint/joint.rs"),("Node::set_joint_position","src/node.rs")],["Result of set_joint_position","joint_position","joint_velocity"])
p("C04","A clamped set stores the nearest allowed position and never fails",
 "Setting a clamped position stores the requested position when the joint has no limits or it lies within them, the lower limit when it is below and the upper limit when it is above; it does nothing to a fixed joint. The unchecked set stores exactly what it is given. Neither touches anything else of the joint than its position (and cached results).",
 IN,"every joint type, limit and requested position","The doc tests clamp two values on one symmetric range.",
 ["src/joint/joint.rs","src/node.rs"],[("Joint::set_joint_position_clamped / _unchecked","src/joint/joint.rs")],["joint_position"])
p("C05","Limit ranges are ordered, inclusive, and clamp agrees with validity",
 "A limit range can only be constructed with its lower bound not above its upper bound (the constructor panics otherwise, also for NaN), and keeps both bounds as given, also when converted from a standard inclusive range. A value is valid exactly when it lies between the bounds, bounds included; NaN is never valid. Clamping returns a valid value unchanged, the lower bound for smaller and the upper bound for larger values.",
 IN,"every pair of bounds and every value, NaN and infinities included","Doc tests try three values on one range.",
 ["src/joint/range.rs"],[("Range::new, is_valid, clamp, From<RangeInclusive>","src/joint/range.rs")],["Range::is_valid","Range::clamp","Range::min/max"])
p("C06","Mimic joints follow their master",
 "When the position of a joint that others mimic is set, every joint that directly mimics it is set, with its own limits checked, to its own multiplier times that position plus its own offset; an error of a follower is returned. Setting a joint that mimics another one directly through the checked interface succeeds and changes nothing. A follower without mimic parameters is reported as an error naming both joints.",
 ["inputs","histories"],"every set of mimic relations, multiplier, offset, limit and requested position","One test with one master and one follower.",
 ["src/node.rs","src/joint/mimic.rs"],[("Node::set_joint_position","src/node.rs"),("Mimic::mimic_position","src/joint/mimic.rs")],["joint_position of the followers","Result of set_joint_position"],
 [("mimic children","followers of a joint","src/node.rs")])
p("C07","Degrees of freedom, position vectors and joint iteration agree",
 "The degrees of freedom of a chain are the number of its non-fixed joints; reading positions, iterating joints and all ways of setting positions use exactly these joints, in the chain's order, element i of a vector belonging to joint i. A checked set of a vector of the wrong length is refused with both lengths before any joint is touched, and one of the right length sets every joint in order and stops at the first error, which it returns.",
 IN,"every chain (branches, fixed joints anywhere, mimics) and every vector","Tests read and write vectors of a few robots with distinct joints; ordering with interleaved fixed joints, size errors and the position of the first error are not covered.",
 ["src/chain.rs"],[("Chain::from_nodes, dof, joint_positions, iter_joints, set_joint_positions*","src/chain.rs")],["Chain::dof","Chain::joint_positions","Chain::set_joint_positions*"])
p("C08","Chains contain exactly the requested nodes, parents first",
 "A chain built from a root holds that node and all its descendants, each once and after its parent; one built from an end holds that node and all its ancestors from the root down; one built from an end and a root holds only the ancestors from that root down to the end. Iteration over ancestors goes from the node up to its root and over descendants starts at the node itself. Looking a joint up by name returns the first node in chain order whose joint has exactly that name, or nothing; iteration over links yields exactly the nodes that have a link.",
 IN,"every tree and every start node","Tests use chains of one robot and a few hand-built trees.",
 ["src/chain.rs","src/iterator.rs","src/node.rs"],[("Chain::from_root, from_end, from_end_to_root, find, iter, iter_links","src/chain.rs"),("Ancestors::next, Descendants::next","src/iterator.rs")],["Chain::iter","Chain::find"])
p("C09","Parent and child relations are always two-sided",
 "After a parent is set, the node reports that parent and is in that parent's children exactly once, and no longer in those of a previous parent; after it is removed, neither side refers to the other, and removing a node that is not the parent changes nothing. The other children of a node keep their order. The same holds for a mimic relation, whose parameters are set together with it. A node is a root exactly when it has no parent, an end exactly when it has no children, and the connect macro links each node to the one before it.",
 ["histories","inputs"],"every sequence of set and remove operations on any nodes","Tests only link fresh nodes once; re-parenting and removal are never tested.",
 ["src/node.rs"],[("Node::set_parent, remove_parent, set_mimic_parent, parent, children, is_root, is_end","src/node.rs")],["Node::parent","Node::children","Node::is_root","Node::is_end"])
p("C10","Cloning a chain gives a faithful, independent copy",
 "The clone of a chain has the same nodes in the same order, with equal joints and links and with the parent, child-order and mimic relations of the original mapped to the copies. It shares no node with the original, and the original is left unchanged. A relation to a node outside the chain is dropped.",
 IN,"every chain starting at a root, with branches and mimics, in every state","One test clones one robot and moves it; sibling order, mimic relations and outside references are not covered.",
 ["src/chain.rs"],[("Clone for Chain, Clone for SerialChain","src/chain.rs")],["Chain::clone"])
p("C11","A successful inverse kinematics result really reaches the target",
 "When the solver returns success for at least one constrained coordinate, the difference between the target and the pose that the arm's joints now produce, restricted to the constrained coordinates, was computed after the last move and is below the distance tolerance for position and below the angle tolerance for rotation. The joints it moved are within their limits. The plain solve is the constrained one with every coordinate constrained and no joint ignored.",
 IN,"every arm, target, constraint set, tolerance and iteration count","Tests check that a few reachable targets are reached; they cannot tell whether success is reported for unreached ones.",
 ["src/ik.rs"],[("JacobianIkSolver::solve, solve_with_constraints","src/ik.rs")],["Result of solve*","arm.end_transform()"])
p("C12","A failed inverse kinematics leaves the arm as it was",
 "Whenever the solver returns an error, whatever its reason, every joint of the arm has exactly the position it had before the call, also when a position was outside its limits, and the error is the one of the failed solution, not one of the restoration.",
 IN,"every arm, state, target and failure reason","One test looks at one failure.",
 ["src/ik.rs"],[("JacobianIkSolver::solve_with_constraints","src/ik.rs")],["joint_positions after Err"])
p("C13","Inverse kinematics uses exactly the constrained coordinates and free joints",
 "Each of the six constraint flags switches exactly its own coordinate (x, y, z position and x, y, z rotation) of the error and of the Jacobian on or off. A joint whose name is listed as ignored keeps its position (brought within its limits if it was outside), and the remaining joints are moved by the step computed for them, wherever the ignored ones are in the arm. The step is the multiplier times the solution of the linear system: inverse when there are exactly as many free joints as constrained coordinates, pseudo-inverse plus null-space projection of the optional sub-task when there are more.",
 IN,"all 64 flag combinations, every set and position of ignored joints, every arm","Tests use three flag combinations and one arm without ignored joints.",
 ["src/ik.rs","src/funcs.rs"],[("Constraints, the error and Jacobian row selection, and ignored columns","src/ik.rs")],["joint_positions after solve_with_constraints"])
p("C14","Inverse kinematics reports bad requests as errors and always ends",
 "Too few free joints, an unknown ignored joint name, a singular system and a target that is not reached within the allowed number of tries are returned as the corresponding error with the offending name, counts or remaining differences. Duplicated or too many ignored names, zero tries and no constrained coordinate are handled without a panic, and at most the allowed number of tries is made.",
 IN,"every constraint set, ignored list, number of tries and arm","No test gives a bad request.",
 ["src/ik.rs"],[("JacobianIkSolver::solve_with_constraints","src/ik.rs")],["Result of solve_with_constraints"])
p("C15","The Jacobian's columns are the end velocity per joint velocity",
 "The Jacobian of an arm has six rows and one column per movable joint, in joint order, expressed in the same frame as the end transform: for a rotational joint the axis crossed with the offset from the joint to the end, followed by the axis; for a linear joint the axis followed by zeros; axis and position taken after all joints up to and including that one.",
 IN,"every serial arm and joint state, including arms that start below the root","Tested only indirectly, through convergence on one arm.",
 ["src/funcs.rs"],[("jacobian","src/funcs.rs")],["jacobian() return value"])
p("C16","The centre of mass is the mass-weighted mean of link centres",
 "The centre of mass of a chain is the sum over the nodes that have a link of link mass times the link's inertial position carried into the world by that node's current pose, divided by the sum of those masses. Poses are recomputed from the current joint positions first.",
 IN,"every chain, pose, mass and inertial origin","One test with two links in one plane.",
 ["src/funcs.rs"],[("center_of_mass","src/funcs.rs")],["center_of_mass() return value"])
p("C17","Link parts are placed by their own joint's current pose",
 "Updating the link transforms first recomputes the poses and then gives the inertial part, every collision and every visual of every link the pose of its own node composed with that part's own origin. Nothing else of the links is changed.",
 IN,"every chain, joint state, number of visuals and collisions","No test calls it.",
 ["src/chain.rs","src/link.rs"],[("Chain::update_link_transforms","src/chain.rs")],["Inertial/Visual/Collision::world_transform"])
p("C18","World velocities follow rigid-body kinematics",
 "Updating the velocities gives every node, in chain order, the angular velocity of its parent plus, for a rotational joint, the joint velocity about its axis in the world, and the linear velocity of its parent plus the parent's angular velocity crossed with the offset between the two plus, for a linear joint, the joint velocity along its axis in the world. A node without parent starts from rest, and the returned list and the stored velocities are the same.",
 IN,"every tree, joint type and state","No test calls it.",
 ["src/chain.rs"],[("Chain::update_velocities","src/chain.rs")],["Chain::update_velocities return value","Node::world_velocity"])
p("C19","No operation can deadlock",
 "No operation of the library locks a node that it has already locked, and no two operations lock nodes in orders that could block each other, whatever threads call them on shared nodes. No lock outlives an operation unless it is handed out as a guard to the caller.",
 ["schedules","inputs"],"every interleaving of library calls from any number of threads that hold no guard themselves","Single-threaded tests on a few robots; most operations with a lock hazard (velocities, printing, mimic errors) are never run.",
 ["src/node.rs","src/chain.rs"],[("Node::lock and the guard types","src/node.rs")],["every public function returns"])
p("C20","Joint state can only be changed through the checked interfaces",
 "Nodes and chains are usable from several threads, and the library contains no unsafe code. A user who holds nodes, chains or guards can read everything but can change position, velocity, origin, limits, type and name of a joint in a tree, the tree relations and links only through the setters: no public function hands out mutable access to, or ownership of, what is behind a node's lock, and positions, origins and cached poses are not public fields.",
 ["programs","schedules"],"every program that compiles against the library","Tests cannot quantify over programs.",
 ["src/node.rs","src/joint/joint.rs","src/link.rs","src/chain.rs"],[("visibility and guard types","src/node.rs")],["public API"])
p("C21","Cached poses and velocities are never stale for their own joint",
 "Whenever an operation changes a joint's position its cached world pose and velocity are dropped, a changed velocity drops the cached velocity, and a changed origin drops both; the same holds for the cached pose of an inertial, visual or collision whose origin is changed. A read then reports that there is no value until the next update, which recomputes it; a cached value is only ever written by an update.",
 ["histories","inputs"],"every sequence of setters, updates and reads","Tests always update before they read.",
 ["src/joint/joint.rs","src/link.rs"],[("cache resets in the setters","src/joint/joint.rs, src/link.rs")],["world_transform","world_velocity"])
p("C22","URDF joints keep name, type, axis, limits and origin",
 "A joint loaded from URDF has the same name; revolute and continuous joints are rotational, prismatic ones linear, all others fixed; the axis is the normalized given axis; the origin is the given translation and the rotation of the given roll, pitch and yaw; the limits are the given lower and upper limit, or none when both are equal. A mimic takes the given multiplier and offset, 1 and 0 by default.",
 IN,"every URDF joint element","One sample file with axis-aligned revolute joints.",
 ["src/urdf.rs"],[("From<&urdf_rs::Joint> for Joint, From<&urdf_rs::Mimic> for Mimic","src/urdf.rs")],["Joint fields"])
p("C23","URDF robots become the tree that the file describes",
 "Loading a robot creates one node per joint in addition to one fixed root node; the parent of a joint's node is the node of the joint whose child link is its parent link, or the root node when there is none; every link is attached to the node of the joint whose child it is, or to the root node when it is no joint's child. Every mimic element relates its joint to the joint it names, also when that joint mimics another one, and a file that cannot be read is returned as the reader's error.",
 IN,"every well-formed URDF robot, with joints and links in any order","One sample file, of which only counts and two names are checked.",
 ["src/urdf.rs"],[("From<&urdf_rs::Robot> for Chain, Chain::from_urdf_file","src/urdf.rs")],["Chain::iter","Node::parent","Node::link"])
p("C24","URDF link data is kept: inertia, shapes, materials, poses",
 "A link loaded from URDF keeps its name, all visuals and collisions in order, its mass, its inertial origin and the symmetric inertia matrix of the six given numbers. Every shape keeps its kind and dimensions (mesh scale 1 by default), every material its name, colour channels and texture file, every origin its translation and rotation from roll, pitch and yaw; absent names, materials, colours and textures become the empty defaults.",
 IN,"every URDF link element","The link data of a loaded robot is never looked at.",
 ["src/urdf.rs","src/link.rs"],[("From conversions of Link, Inertial, Visual, Collision, Geometry, Material, Color, Texture","src/urdf.rs")],["Link fields"])
p("C25","The maps between link and joint names are right",
 "The map from links to joints sends every joint's child link to that joint's name and every other link to the name of the root joint. The map from joints to links sends every joint to its child link and the root joint to the link that is no joint's child.",
 IN,"every URDF robot, with joints and links in any order","A doc test looks up two names in one of the maps.",
 ["src/urdf.rs"],[("link_to_joint_map, joint_to_link_map","src/urdf.rs")],["returned maps"])
p("C26","Constraints read from a file default to fully constrained",
 "By default all six coordinates are constrained and no joint is ignored. When constraints are deserialized, each of the six flags that is missing is taken as constrained and a missing list of ignored joints as empty, the same as the default, whatever way the format names or orders the fields. Serialized constraints carry every field, under the name it is read by, as it is.",
 ["inputs","configurations"],"every subset of missing fields, with the serialization feature on","The tests never build with that feature.",
 ["src/ik.rs"],[("Constraints, Default and serde attributes","src/ik.rs")],["Constraints::default","Deserialize for Constraints"])
p("C27","Builders, constructors and plain accessors keep what they are given",
 "What is given to a builder or constructor of a node, joint, link, inertial, visual, collision, mimic, velocity or solver is what the built value reports, setting one attribute leaves all others alone, and what is not given has its documented default: a fixed, unlimited joint with an empty name and identity origin, position and velocity zero, zero mass, no visuals and no collisions. Adding visuals or collisions keeps those already there, in order. Accessors return the attribute they are named after.",
 IN,"every sequence of builder calls and every attribute value","Tests build a few nodes with some of the attributes and rarely read them back.",
 ["src/node.rs","src/joint/joint.rs","src/link.rs","src/joint/velocity.rs","src/ik.rs"],[("NodeBuilder, LinkBuilder, Joint::new, Inertial/Visual/Collision::new","src/node.rs, src/link.rs")],["fields and accessors"])
p("C28","A serial chain really is serial",
 "Converting a chain into a serial chain fails if any of its nodes but the last does not have exactly one child, and otherwise keeps the chain unchanged; an empty chain is accepted. A serial chain built from an end (and root) holds the same nodes as the chain built from them, unwrapping gives the chain back, and every chain operation on it is that of the wrapped chain.",
 IN,"every chain","Two doc tests: one node, and a root with two children.",
 ["src/chain.rs"],[("SerialChain::try_new, from_end, from_end_to_root, unwrap, Deref","src/chain.rs")],["SerialChain::try_new"])
p("C29","The reference null-space function is the weighted offset from the reference",
 "The utility null-space function returns, for each joint, the weight of that joint times the difference between its given position and its reference position; creating it with a different number of weights and references panics. Setting a null-space function makes the solver use exactly that function for redundant arms, and clearing it makes it use none.",
 IN,"every vector of references, weights and positions","One test with two joints.",
 ["src/ik.rs"],[("create_reference_positions_nullspace_function, set_nullspace_function, clear_nullspace_function","src/ik.rs")],["returned function","solver state"])
p("C30","Inverse kinematics converges for reachable targets",
 "For a target that the arm can reach from nearby, repeated solver steps approach it and the solver succeeds within its default number of tries.",
 IN,"every arm and reachable target","Depends on numerical convergence for infinitely many arms and targets.",
 ["src/ik.rs"],[("JacobianIkSolver","src/ik.rs")],["Result of solve"])
p("C31","Numerical accuracy of poses, Jacobians and velocities",
 "Computed poses, Jacobians, centres of mass and velocities differ from the exact mathematical values by no more than accumulated rounding, for single and double precision.",
 IN,"every arm, state and scalar type","Tests compare a few numbers to 3 or 4 digits.",
 ["src/chain.rs","src/funcs.rs"],[("floating point evaluation","src/joint/joint.rs")],["returned numbers"])
p("C32","Printing shows every joint of a chain once, below its parent",
 "The text of a joint is its name and the mark of its kind, for a movable joint with the direction of its axis (+X to -Z, nothing for an oblique axis). The text of a node is that of its joint and, when it has a link, ' => /link name/'. The text of a chain has one line for each of its nodes reachable from its first node, parents before their children and siblings in child order, indented by four spaces for each level below the first node, and is empty for an empty chain; that of a serial chain is that of its chain. Printing changes nothing.",
 IN,"every tree, joint type, axis, name and link, and chains that hold only a part of a tree","The tests print one robot to standard output and look at nothing.",
 ["src/chain.rs","src/node.rs","src/joint/joint.rs","src/joint/joint_type.rs"],[("Display for Chain, SerialChain, Node, Joint, JointType","src/chain.rs, src/node.rs, src/joint/")],["Display output"])
p("C33","The text of an error names what went wrong, with the values of the error",
 "Each error prints the message that belongs to its kind with its own values in their places: 'joint: NAME is out of limit: POSITION, limit = MAX <=> MIN'; 'joint NAME is fixed joint but the position is set'; 'size mismatch input = INPUT, required = REQUIRED'; 'mimic error from FROM to TO'; 'ik solve not converged tried N times, position diff = P, rotation diff = R'; 'inverse matrix error'; 'ik precondition error: input Dof=DOF, must be greater than NECESSARY'; 'There is no valid joint named NAME'. Printing succeeds, and the copy of an error prints the same text.",
 IN,"every error value","No test looks at the text of an error.",
 ["src/errors.rs"],[("Error","src/errors.rs")],["Display output of Error"])
p("C34","Requests of several threads act one after the other",
 "When another thread makes a complete request while an operation runs, at any moment at which the operation holds no lock: (1) after two concurrent requests to move a joint, or a joint and a chain that contains it, the joint and every joint that mimics it are where one and the same request puts them, followers exactly at multiplier * master + origin, and neither request answers an error that it would not have answered alone; (2) a joint that is given another master while it, its old or its new master is moved ends up following the new master and only that; (3) printing, walking and querying a robot, looking at its links, copying it, and computing poses, velocities, link transforms and the centre of mass never panic because another thread changes a position or a link meanwhile.",
 ["schedules","inputs"],"every moment at which an operation holds no lock, every position and mimic parameter, on the robots listed","No test uses a robot from several threads, and a schedule cannot be asked for.",
 ["src/node.rs","src/chain.rs","src/joint/joint.rs","src/funcs.rs"],[("Node::set_joint_position","src/node.rs"),("Node::set_mimic_parent","src/node.rs"),("Chain::set_joint_positions","src/chain.rs"),("Chain::update_transforms","src/chain.rs")],["positions of master and followers after concurrent requests","panics"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
ids=[x['id'] for x in P]; assert len(set(ids))==len(ids)
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
