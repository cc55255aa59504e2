#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main6.rs"));
