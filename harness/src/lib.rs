pub mod core;
pub mod exact;
pub mod net;
pub mod table;
pub mod faults;
