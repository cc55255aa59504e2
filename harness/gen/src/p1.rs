#![allow(warnings)]
include!(concat!(env!("GEN_DIR"), "/main1.rs"));
