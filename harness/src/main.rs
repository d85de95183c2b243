mod alloc;
mod checks;
mod cmp;
mod corpus;
mod gen_ev;
mod gen_yaml;
mod input;
mod model;
mod refl;
mod rng;
mod runner;
mod sut;
mod vast;
mod workload;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map_or("", |s| s.as_str());
    let find = |id: &str| checks::all().into_iter().find(|c| c.id() == id).unwrap_or_else(|| panic!("no such check: {id}"));
    let code = match cmd {
        "check" => runner::check(&*find(&a[2])),
        "worker" => runner::worker(
            &*find(&a[2]),
            a[3].as_ref(),
            a[4].parse().unwrap(),
            a[5].parse().unwrap(),
            a[6].parse().unwrap(),
            a[7].parse().unwrap(),
        ),
        "one" => runner::one(&*find(&a[2]), a[3].as_ref(), a[4].parse().unwrap()),
        "replay" => runner::replay(&*find(&a[2]), &a[3]),
        "fixed" => runner::fixed(&*find(&a[2])),
        "list" => {
            for c in checks::all() {
                println!("{}", c.id());
            }
            0
        }
        _ => {
            eprintln!("usage: vmon check ID | replay ID FILE | list");
            2
        }
    };
    std::process::exit(code);
}
