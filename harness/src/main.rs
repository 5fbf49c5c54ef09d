mod access;
mod cases;
mod catalog;
mod city;
mod columns;
mod explore;
mod lz4;
mod props;
mod report;
mod rtypes;
mod sched;
mod server;
mod slots;
mod threads;
mod util;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::process::exit(report::main(&args));
}
