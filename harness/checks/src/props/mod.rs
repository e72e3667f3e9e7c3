use crate::fw::Property;

pub mod features;
pub mod macros;
pub mod parse;
pub mod text;
pub mod render;
pub mod edit;
pub mod generate;

pub fn all() -> Vec<Property> {
    let mut v = vec![];
    v.extend(parse::properties());
    v.extend(text::properties());
    v.extend(render::properties());
    v.extend(edit::properties());
    v.extend(generate::properties());
    v
}

type Special = fn(u64, bool) -> i32;
/// Checks that build other programs.
pub fn special(id: &str) -> Option<Special> {
    match id {
        "C23" => Some(macros::check),
        "C24" => Some(features::check),
        _ => None,
    }
}
pub fn special_replay(id: &str) -> Option<fn(&serde_json::Value) -> i32> {
    match id {
        "C23" => Some(macros::replay),
        "C24" => Some(features::replay),
        _ => None,
    }
}
/// Everything the special checks can build ahead of time.
pub fn prebuild() -> i32 {
    if let Err(e) = macros::build() {
        eprintln!("{e}");
        return 2;
    }
    match features::build() {
        Ok(()) => 0,
        Err((_, m)) => {
            eprintln!("{m}");
            2
        }
    }
}
