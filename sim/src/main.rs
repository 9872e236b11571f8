#![allow(clippy::type_complexity)]
mod conc;
mod driver;
mod fresh;
mod gen;
mod machine;
mod pir;
mod params;
mod plan;
mod pvw;
mod refm;
mod refuse;
mod rt;
mod run;
mod sampler;
mod world;

#[global_allocator]
static A: rt::SimAlloc = rt::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("one") => {
            rt::init();
            let mut s = String::new();
            std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).expect("stdin");
            match plan::Plan::parse(&s) {
                Ok(p) => run::one(&p, args.iter().any(|a| a == "-v")),
                Err(e) => {
                    eprintln!("bad plan: {e}");
                    3
                }
            }
        }
        _ => driver::main(&args),
    };
    std::process::exit(code);
}
