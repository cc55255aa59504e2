#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main2.rs"));
