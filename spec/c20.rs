//! C20: nodes and chains are usable from several threads; nothing a user holds can be written through
use crate::kcommon::*;
use crate::*;

use std::marker::PhantomData;

/// whether a type has a property, without a compile error if not: the inherent method exists only if the bound holds
pub struct Probe<A: ?Sized>(pub PhantomData<A>);

pub trait Without {
    fn shared(&self) -> bool {
        false
    }
    fn writable(&self) -> bool {
        false
    }
}
impl<A: ?Sized> Without for Probe<A> {}

pub struct Share<A: ?Sized>(pub PhantomData<A>);
impl<A: ?Sized> Without for Share<A> {}
impl<A: ?Sized + Send + Sync> Share<A> {
    pub fn shared(&self) -> bool {
        true
    }
}

pub struct Write<A: ?Sized>(pub PhantomData<A>);
impl<A: ?Sized> Without for Write<A> {}
impl<A: ?Sized + std::ops::DerefMut> Write<A> {
    pub fn writable(&self) -> bool {
        true
    }
}

pub fn threads() {
    must(Share::<Node<f64>>(PhantomData).shared(), "nodes can be shared");
    must(Share::<Node<f32>>(PhantomData).shared(), "nodes can be shared");
    must(Share::<Chain<f64>>(PhantomData).shared(), "chains can be shared");
    must(Share::<Chain<f32>>(PhantomData).shared(), "chains can be shared");
    must(Share::<SerialChain<f64>>(PhantomData).shared(), "serial chains can be shared");
    must(Share::<JacobianIkSolver<f64>>(PhantomData).shared(), "solvers can be shared");
    must(Share::<Link<f64>>(PhantomData).shared(), "links can be shared");
    must(Share::<Constraints>(PhantomData).shared(), "constraints can be shared");
    must(Share::<Error>(PhantomData).shared(), "errors can be shared");
    must(Share::<crate::joint::Mimic<f64>>(PhantomData).shared(), "mimic parameters can be shared");
}

pub fn guards() {
    must(!Write::<crate::node::JointRefGuard<'_, f64>>(PhantomData).writable(), "a joint guard only reads");
    must(!Write::<crate::node::ChildrenRefGuard<'_, f64>>(PhantomData).writable(), "a children guard only reads");
    must(!Write::<crate::node::OptionLinkRefGuard<'_, f64>>(PhantomData).writable(), "a link guard only reads");
    must(!Write::<Node<f64>>(PhantomData).writable(), "a node cannot be written through");
    must(!Write::<Chain<f64>>(PhantomData).writable(), "a chain cannot be written through");
}
