use mcsched::deferred::Deferred;

fn main() {
    engine::runner::main(&Deferred { id: "C03", reuse: false })
}
