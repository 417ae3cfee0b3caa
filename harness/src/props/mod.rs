pub mod abbr;
pub mod cli;
pub mod compose;
pub mod core;
pub mod delims;
pub mod dims;
pub mod envelope;
pub mod equations;
pub mod fonts;
pub mod layout;
pub mod leaves;
pub mod macros;
pub mod python;
pub mod spacing;
pub mod structure;
pub mod symbols;
pub mod tables;
pub mod text;

use crate::engine::{Fail, Prop, fail};
use crate::xml::{self, El};
use math_core::*;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(core::props());
    v.extend(envelope::props());
    v.extend(equations::props());
    v.extend(macros::props());
    v.extend(layout::props());
    v.extend(fonts::props());
    v.extend(dims::props());
    v.extend(text::props());
    v.extend(cli::props());
    v.extend(symbols::props());
    v.extend(spacing::props());
    v.extend(structure::props());
    v.extend(leaves::props());
    v.extend(compose::props());
    v.extend(delims::props());
    v.extend(abbr::props());
    v.extend(tables::props());
    v.extend(python::props());
    v
}

pub type Res = Result<(), Fail>;

pub fn dshow(d: MathDisplay) -> &'static str {
    match d {
        MathDisplay::Block => "block",
        MathDisplay::Inline => "inline",
    }
}

/// Successful conversion or the error message, comparable.
pub fn outcome(r: &Result<ConvertResult, Box<LatexError>>) -> Result<String, String> {
    match r {
        Ok(c) => Ok(format!(
            "{}\u{1}{}{}",
            c.mathml,
            c.warnings.has_undefined_references(),
            c.warnings.has_unknown_commands()
        )),
        Err(e) => Err(format!("{:?} {}", e.0, e.error_message())),
    }
}

pub fn parse(m: &str) -> Result<El, Fail> {
    match xml::parse(m) {
        Ok(e) => Ok(e),
        Err(e) => fail(
            format!("not well-formed: {}", crate::engine::norm(e.split(" at byte").next().unwrap())),
            format!("{e}\nin {m}"),
        ),
    }
}
