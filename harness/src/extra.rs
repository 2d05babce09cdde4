//! What an extended specification says. The shipped specification is extended by nothing; for C31, tools/specgen.py
//! writes another version of this file next to the specification it stands for.
use crate::p::comps::{EnT, Ops};
use crate::p::extend::Group;

pub fn comps() -> Vec<Ops> {
    vec![]
}
pub fn enums() -> Vec<EnT> {
    vec![]
}
pub fn groups() -> Vec<Group> {
    vec![]
}
