//! Harnesses: each `h_*` function states a property over arbitrary inputs. `ksym` executes them
//! symbolically together with the code of /repo; with the `native` feature the same functions
//! replay one concrete assignment against the real build.
#![allow(dead_code)]
#[macro_use]
mod sym;
#[cfg(feature = "native")]
mod native;
mod app;
mod defs;
mod edit;
mod file8;
mod oracle;
mod sheet;
mod text;
mod tokens;
mod util;

#[cfg(feature = "native")]
fn main() {
    let n = std::env::args().nth(1).expect("entry");
    for t in [edit::TABLE, file8::TABLE, tokens::TABLE, text::TABLE, app::TABLE] {
        for (k, f) in t {
            if *k == n {
                f();
                println!("DONE");
                return;
            }
        }
    }
    println!("unknown entry");
    std::process::exit(30);
}
#[cfg(not(feature = "native"))]
fn main() {}
