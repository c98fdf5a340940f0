use crate::runner::Prop;

mod clock;
mod common;
mod descs;
mod extra;
mod io;
mod sections;
mod tables;
mod text;
mod tool;
mod utils;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(sections::props());
    v.extend(tables::props());
    v.extend(descs::props());
    v.extend(text::props());
    v.extend(io::props());
    v.extend(clock::props());
    v.extend(utils::props());
    v.extend(extra::props());
    v.extend(tool::props());
    v.sort_by_key(|p| p.id);
    v
}
