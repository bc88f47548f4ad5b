//! The checks of rdftk_io, and readers and generators for others.

pub mod dice;
pub mod dot;
pub mod json;
pub mod lines;
pub mod options;
pub mod rdfxml;
pub mod refnt;
pub mod robust;
pub mod turtle;
pub mod xml;
