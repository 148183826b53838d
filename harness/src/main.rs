mod engine;
mod face;
mod legacy;
mod obs;
mod ops;
mod world;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    std::process::exit(engine::main(&a[1..]));
}
