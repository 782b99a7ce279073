pub use sha2_real::*;
