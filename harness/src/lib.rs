//! Conformance harness for aoc-parse.
//!
//! * `val`: uniform representation of everything a parser can return;
//! * `dynp`: builds real library parsers from an abstract grammar at run time,
//!   with a recording wrapper at every node;
//! * `report`: runs a parser on a text and writes the outcome down.
pub mod driver;
pub mod dynp;
pub mod history;
pub mod report;
pub mod surface;
pub mod val;
