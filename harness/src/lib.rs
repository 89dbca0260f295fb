pub mod engine;
pub mod gen_;
pub mod lz;
pub mod model;
pub mod props;
pub mod refdeflate;
pub mod sha512;
pub mod watch;
pub mod zlibx;
pub use gen_ as r#gen;
