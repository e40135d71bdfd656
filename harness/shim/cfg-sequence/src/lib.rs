pub use cfg::sequence::*;
