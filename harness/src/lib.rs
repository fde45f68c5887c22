pub mod engine;
pub mod driver;
pub mod dy;
pub mod gen;
pub mod lang;
pub mod model;
pub mod progen;
pub mod parse;
pub mod scen;
pub mod checks;
