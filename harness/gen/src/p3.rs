#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main3.rs"));
