fn main() {
    ndharness::runner::main();
}
