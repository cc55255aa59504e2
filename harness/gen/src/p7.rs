#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main7.rs"));
