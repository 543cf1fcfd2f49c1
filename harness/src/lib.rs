pub mod build;
pub mod choices;
pub mod grammar;
pub mod props;
pub mod reader;
pub mod refll;
pub mod render;
pub mod runner;
pub mod sut;
pub mod vm;
