pub mod behave;
pub mod bytes;
pub mod dynde;
pub mod edit;
pub mod engine;
pub mod gen;
pub mod props;
pub mod record;
pub mod reference;
pub mod runner;
