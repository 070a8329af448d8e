pub mod args;
pub mod config;
pub mod layout;
pub mod prune;
pub mod logs;
pub mod observer;
pub mod par;
pub mod pool;
pub mod profile;
pub mod py;
pub mod replay;
pub mod rng;
pub mod rows;
pub mod s3;
pub mod session;
pub mod writer;
