//! Model of the zkVM guest environment: one input frame, one journal.
pub mod guest {
    pub mod env {
        pub static mut FRAME: Vec<u8> = Vec::new();
        pub static mut JOURNAL: Vec<u8> = Vec::new();
        pub fn log(_: &str) {}
        #[allow(static_mut_refs)]
        pub fn read_frame() -> Vec<u8> { unsafe { std::mem::take(&mut FRAME) } }
        #[allow(static_mut_refs)]
        pub fn commit_slice(s: &[u8]) { unsafe { JOURNAL.extend_from_slice(s) } }
    }
}
