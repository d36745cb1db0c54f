//! Runs chunks in the real Lua 5.1 interpreter and writes down what they do (see `observer.lua`).
//!
//! reallua STIMULI OBSERVATIONS

use mlua::{Function, Lua};

fn main() {
    let arguments: Vec<String> = std::env::args().collect();
    // The library functions that open files and load byte code are needed; the chunks only see what the observer gives them.
    let lua = unsafe { Lua::unsafe_new() };
    let observer: Function = lua.load(include_str!("observer.lua")).into_function().unwrap();
    observer.call::<_, ()>((arguments[1].as_str(), arguments[2].as_str())).unwrap();
}
