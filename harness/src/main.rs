use hudi_verif::replay::*;

#[global_allocator]
static ALLOC: hudi_verif::logs::Watch = hudi_verif::logs::Watch;

fn main() {
    let (cmd, c) = Cli::parse();
    match cmd.as_str() {
        "args" => hudi_verif::pool::main(&c, hudi_verif::args::run),
        "config" => hudi_verif::pool::main(&c, hudi_verif::config::run),
        "layout" => hudi_verif::pool::main(&c, hudi_verif::layout::run),
        "logs" => hudi_verif::logs::main(&c),
        "session" => hudi_verif::pool::main(&c, hudi_verif::session::run),
        "prune" => hudi_verif::pool::main(&c, hudi_verif::prune::run),
        "replay" => main_replay(&c, None),
        x => {
            eprintln!("unknown command {x:?}");
            std::process::exit(2)
        }
    }
}
