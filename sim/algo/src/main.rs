#[global_allocator]
static A: simrt::heap::SimAlloc = simrt::heap::SimAlloc;

fn main() {
    simchk::main(simchk::Domain { name: "algo", exec: algo_ops::exec, build: simchk::algo::build, props: simchk::algo::props, novel: simchk::algo::novel, trivial: "fibonacci_fast_u 3", alone: |s| s.to_string() })
}
