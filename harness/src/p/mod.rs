//! The properties.

use crate::ctx::Prop;

pub mod api;
pub mod comps;
pub mod conn;
pub mod cost;
pub mod extend;
pub mod faults;
pub mod frames;
pub mod hostile;
pub mod inputs;
pub mod misc;
pub mod msgs;
pub mod same;
pub mod show;
pub mod steady;
pub mod subj;
pub mod text;
pub mod values;

pub fn all() -> Vec<Prop> {
    vec![values::C01, values::C02, comps::C03, values::C04, values::C05, comps::C06, comps::C07, comps::C20, frames::C11, frames::C12, frames::C13, frames::C14, frames::C26, hostile::C08, hostile::C09, hostile::C10, hostile::C23, hostile::C24, msgs::C15, msgs::C16, msgs::C17, text::C18, text::C19, misc::C21, misc::C22, misc::C25, api::C27, same::C28, faults::C29, conn::C30, extend::C31, show::C32, cost::C33, steady::C34]
}
