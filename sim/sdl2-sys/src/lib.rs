#![allow(non_upper_case_globals, non_camel_case_types, non_snake_case, improper_ctypes, dead_code, clashing_extern_declarations)]
#![no_std]
include!("sdl_bindings.rs");
