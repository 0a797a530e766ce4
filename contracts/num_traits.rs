use vstd::prelude::*;
verus! {
pub trait Zero {}
pub trait NumCast {}
pub trait Float {}
}
