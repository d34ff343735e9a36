#![allow(unused, non_snake_case, non_upper_case_globals)]
use vstd::prelude::*;
pub mod stubs;
pub mod keys;
pub mod lex;
pub mod tree;
pub mod text;
pub mod model {
    pub use crate::schema;
}
