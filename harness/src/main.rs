mod alloc;
mod ast;
mod checks;
mod conv;
mod enc;
mod engine;
mod r#gen;
mod mutate;
mod ops;
mod readers;
mod refdec;
mod subject;
mod tape;
mod world;

use engine::Check;

fn find(id: &str) -> Option<&'static Check> {
    checks::all().iter().copied().find(|c| c.id == id)
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let args: Vec<&str> = args.iter().map(String::as_str).collect();
    let code = match args[..] {
        ["check", id] => find(id).map_or(2, engine::check),
        ["child", id] => find(id).map_or(2, engine::child),
        ["one", id, file] => find(id).map_or(2, |c| engine::run_one(c, file)),
        ["replay", path] => engine::replay(path, find),
        ["list"] => {
            for c in checks::all() {
                println!("{}", c.id);
            }
            0
        }
        ["serve"] => checks::serve(),
        ["probe", what, arg] => checks::probe(what, arg),
        _ => {
            eprintln!("usage: wv check <id> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
