mod du;
mod elem;
mod h;
mod run;
mod sym;

#[global_allocator]
static A: symcore::alloc::Poison = symcore::alloc::Poison;

fn main() { std::process::exit(run::main()) }
