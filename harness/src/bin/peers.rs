// C26: the peer book, against an independent model of it.
#![feature(trait_alias)]
#![allow(dead_code, unused_imports, macro_expanded_macro_exports_accessed_by_absolute_paths)]
include!(concat!(env!("OUT_DIR"), "/peers.rs"));

#[path = "../gen.rs"]
mod gen;
#[path = "../vxh.rs"]
mod vxh;

fn main() {
    peer_manager::vxprobe::main()
}
