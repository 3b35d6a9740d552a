pub mod big;
pub mod case;
pub mod elem;
pub mod machine;
pub mod mem;
pub mod wide;
pub mod ord;
pub mod rangemap;
pub mod rle;
pub mod rope;
pub mod sorted;
pub mod stats;
pub mod suite;
