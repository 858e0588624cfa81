#[macro_use]
mod say;
mod accounts;
pub mod engine;
mod helpers;
mod histories;
mod inst;
mod lifecycle;
mod load;
mod raw;
mod world;
pub use inst::{Entry, Table};
pub use ic0::mock::Mode;
pub use helpers::depositor_init;
pub use iface::wire::enc;
pub use world::{Find, Stats};

/// The program, to be linked with the ledger's entry points.
pub fn main(t: Table) {
    inst::register(t);
    let (id, replay, o) = arguments();
    let code = match &replay {
        None => run(&id, &o),
        Some(f) => replay_one(&id, f, &o),
    };
    // Canister threads that trapped are parked for good.
    std::process::exit(code);
}
/// The same for a single property that needs no canister.
pub fn main_of<C>(p: engine::Prop<C>)
where
    C: Clone + std::fmt::Debug + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static,
{
    let (id, replay, o) = arguments();
    assert_eq!(id, p.id, "no check for it");
    std::process::exit(match &replay {
        None => engine::drive(p, &o),
        Some(f) => engine::replay(p, f.as_ref(), o.any),
    })
}

// sim ID [--replay FILE] [--secs N] [--workers N] [--any] [--root DIR]
fn arguments() -> (String, Option<String>, engine::Opts) {
    say::quiet();
    let mut args = std::env::args().skip(1);
    let id = args.next().expect("which property?");
    let mut o = engine::Opts {
        root: "/verif".into(),
        tier: std::env::var("VERIF_TIER").ok().filter(|t| !t.is_empty()).unwrap_or_else(|| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        secs: None,
        cases: None,
        workers: std::thread::available_parallelism().map_or(8, |n| n.get()),
        any: false,
        shrink: true,
    };
    let mut replay = None;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => replay = args.next(),
            "--secs" => o.secs = args.next().and_then(|x| x.parse().ok()),
            "--cases" => o.cases = args.next().and_then(|x| x.parse().ok()),
            "--workers" => o.workers = args.next().and_then(|x| x.parse().ok()).unwrap(),
            "--tier" => o.tier = args.next().unwrap(),
            "--root" => o.root = args.next().unwrap().into(),
            "--any" => o.any = true,
            "--no-shrink" => o.shrink = false,
            x => panic!("unknown argument {x}"),
        }
    }
    (id, replay, o)
}

fn run(id: &str, o: &engine::Opts) -> i32 {
    match id {
        "C22" => return engine::drive(accounts::prop(), o),
        "C24" => return engine::drive(lifecycle::prop(), o),
        "C27" => return engine::drive(helpers::depositor(), o),
        "C28" => return engine::drive(helpers::cmc(), o),
        "C29" => return engine::drive(load::prop(), o),
        _ => {}
    }
    if let Some(p) = histories::prop(id) {
        return engine::drive(p, o);
    }
    eprintln!("no check for {id}");
    2
}
fn replay_one(id: &str, f: &str, o: &engine::Opts) -> i32 {
    match id {
        "C22" => return engine::replay(accounts::prop(), f.as_ref(), o.any),
        "C24" => return engine::replay(lifecycle::prop(), f.as_ref(), o.any),
        "C27" => return engine::replay(helpers::depositor(), f.as_ref(), o.any),
        "C28" => return engine::replay(helpers::cmc(), f.as_ref(), o.any),
        "C29" => return engine::replay(load::prop(), f.as_ref(), o.any),
        _ => {}
    }
    if let Some(p) = histories::prop(id) {
        return engine::replay(p, f.as_ref(), o.any);
    }
    eprintln!("no check for {id}");
    2
}
