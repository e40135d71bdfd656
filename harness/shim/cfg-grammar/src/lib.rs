pub use cfg::*;
