//! What the library is specified to compute, written from /verif/properties.jsonl.
//!
//! Nothing here is ever executed: the crate is type-checked, its compiler IR is
//! extracted exactly like that of /repo, and both are summarised to value graphs
//! which are then compared function by function.  Paths, types and fields follow
//! the library; bodies are written as directly from the property statements as the
//! language allows, not copied from the library.
//!
//! Suffixes: `f__altN` is a further accepted form of `f`; `f__known` describes a
//! recorded known finding (see known_findings.txt).
#![allow(dead_code, unused_imports, non_snake_case)]
pub mod elements {
    pub mod bounding_box;
    pub mod edge;
    pub mod polyline;
    pub mod triangle;
    pub mod vertex;
}
pub mod properties;
pub mod planar;
