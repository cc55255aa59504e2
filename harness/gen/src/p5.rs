#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main5.rs"));
