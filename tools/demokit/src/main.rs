mod enc;
mod fx;
mod kit;
mod mocks;
mod vm;
mod world;
mod demo;
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    demo::run();
    println!("held");
}
