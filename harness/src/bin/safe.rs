#[global_allocator]
static ALLOC: harness::safety::Balanced = harness::safety::Balanced;

fn main() {
    let args = harness::runner::args();
    harness::runner::finish(&args, &harness::safety::campaigns());
}
