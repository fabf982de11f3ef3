pub mod leaf;
pub mod model;
pub mod domain;
pub mod report;
pub mod codec;
#[cfg(not(feature = "lean"))]
pub mod show;
#[cfg(not(feature = "lean"))]
pub mod enums;
pub use leaf::{Leaf, Prim, V, MARK};
pub use codec::Case;
pub use packed_struct;
