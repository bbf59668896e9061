//! Exploration of the rtf application: its line editor and its shell, compiled from /repo/rtf/src.
mod c28;
mod c29;
#[allow(dead_code)]
#[path = "../../mc/src/engine.rs"]
mod engine;
mod screen;
#[allow(dead_code, unused_imports, unused)]
#[path = "/repo/rtf/src/main.rs"]
mod shell;
#[allow(dead_code)]
#[path = "/repo/rtf/src/term.rs"]
mod term;
#[allow(dead_code)]
#[path = "../../mc/src/vmx.rs"]
mod vmx;

use engine::Property;

fn property(id: &str, t: bool) -> Option<Property> {
    Some(match id {
        "C28" => c28::property(t),
        "C29" => c29::property(t),
        _ => return None,
    })
}

fn main() {
    engine::set_remote();
    std::process::exit(engine::main(property));
}
