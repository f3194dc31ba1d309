// Harnesses over the real `z-core` sources (module of the shadow crate).
pub mod abi;
pub mod attest;
pub mod ffg;
pub mod misc;
pub mod sup;
pub mod verify;
pub mod reader;
pub mod io;
