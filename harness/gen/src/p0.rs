#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main0.rs"));
