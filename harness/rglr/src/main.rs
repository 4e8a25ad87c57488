//! Executes generated Rust parsers (written by harness/gen from /repo's current generators) on arbitrary token strings.
use drive::{Case, Out, Rec};
include!(concat!(env!("LAPEX_GEN_DIR"), "/all.rs"));

sym::entries! { h_parse(mode, strlen), h_edit(sentences, max, less) }

fn h_parse(mode: u64, strlen: u64) { drive::parse(CASES, mode, strlen) }
fn h_edit(sentences: u64, max: u64, less: u64) { drive::edit(CASES, sentences, max, less) }
