//! `uw HARNESS MORE VALUE..`: runs one harness on given values.
#![allow(unexpected_cfgs)]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    uw::native::set(a[3..].iter().map(|x| x.parse().unwrap()).collect(), a[2].parse().unwrap());
    std::panic::set_hook(Box::new(|_| {}));
    let f = uw::find(&a[1]).expect("no such harness");
    uw::native::start();
    f();
    println!("done");
}
