#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main4.rs"));
