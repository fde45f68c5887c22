use std::sync::Arc;
use dyon::*;
fn main() {
    let f = std::env::args().nth(1).unwrap();
    let src = if f == "-e" { std::env::args().nth(2).unwrap() } else { std::fs::read_to_string(&f).unwrap() };
    let mut m = Module::new();
    if let Err(e) = load_str("main.dyon", Arc::new(src), &mut m) { println!("LOADERR {}", e); return; }
    let m = Arc::new(m);
    let mut rt = Runtime::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt.run(&m)));
    match r { Err(_) => println!("PANIC"), Ok(Err(e)) => println!("RUNERR {}", e), Ok(Ok(())) => {} }
    println!("stack {} local {} call {}", rt.stack.len(), rt.local_stack.len(), rt.call_stack.len());
}
