fn main() { std::process::exit(dyonverif::driver::main()) }
