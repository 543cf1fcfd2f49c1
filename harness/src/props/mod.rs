//! One check per property of /verif/properties.jsonl.
use crate::runner::Prop;
pub mod cli;
pub mod errors;
pub mod gram;
pub mod lang;
pub mod machines;
pub mod meta;
pub mod notation;
pub mod pieces;
pub mod size;
pub mod stream;
pub mod structs;

pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(lang::props());
    v.extend(errors::props());
    v.extend(gram::props());
    v.extend(machines::props());
    v.extend(notation::props());
    v.extend(structs::props());
    v.extend(stream::props());
    v.extend(cli::props());
    v.extend(size::props());
    v.extend(meta::props());
    v.extend(pieces::props());
    v.sort_by_key(|p| p.id);
    v
}
