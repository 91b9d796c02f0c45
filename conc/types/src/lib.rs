//! component types of the concurrent harnesses: Copy, so that they can be in groups
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct A(pub u32);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct B(pub u32);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct C(pub u32);
/// a component owning memory, never in a group
#[derive(Debug)]
pub struct H(pub Box<u32>);
/// registered nowhere
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct U(pub u32);
