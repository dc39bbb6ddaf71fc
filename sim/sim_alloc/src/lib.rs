//! `alloc` as seen by the library under simulation: everything real except Arc/Rc.
#![no_std]
extern crate alloc as real_alloc;
pub use real_alloc::*;
pub mod sync {
    pub use real_alloc::sync::*;
    pub use simrt::arc::{Arc, Weak};
}
pub mod rc {
    pub use real_alloc::rc::*;
    pub use simrt::rc::{Rc, Weak};
}
