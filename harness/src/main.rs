mod alloc;
mod fgd;
mod geom;
mod hull;
mod mapdoc;
mod props;
mod runner;
mod scene;
mod sut;
mod tri;
mod wadgen;

use runner::{DynProp, WorkerArgs};

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = props::all();
    let find = |id: &str| -> &dyn DynProp {
        all.iter()
            .find(|p| p.id() == id)
            .unwrap_or_else(|| panic!("no such property {id}"))
            .as_ref()
    };
    sut::init();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &all {
                println!("{}", p.id());
            }
            0
        }
        Some("check") => {
            let thorough = args.iter().any(|a| a == "--thorough")
                || std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
            runner::supervise(find(&args[2]), thorough)
        }
        Some(mode @ ("worker" | "isolate")) => {
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            let a = WorkerArgs {
                seed: n(3),
                shard: n(4),
                shards: n(5),
                cases: n(6),
                thorough: args[7] == "1",
                dir: (&args[8]).into(),
                index: args.get(9).map_or(0, |s| s.parse().unwrap()),
            };
            sut::limit_memory();
            if mode == "worker" {
                find(&args[2]).worker(&a);
            } else {
                find(&args[2]).isolate(&a);
            }
            0
        }
        Some("replay") => runner::replay(find(&args[2]), args[3].as_ref()),
        Some("bench") => {
            let n = args.get(3).map_or(200, |s| s.parse().unwrap());
            let seed = args.get(4).map_or(1, |s| s.parse().unwrap());
            find(&args[2]).bench(n, seed);
            0
        }
        Some("dump") => props::meta::dump(&args[2..]),
        _ => {
            eprintln!("usage: qv list | check ID [--thorough] | replay ID FILE | bench ID [N] [SEED]");
            2
        }
    };
    sut::cleanup();
    std::process::exit(code);
}
