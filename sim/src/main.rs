mod collide;
mod driver;
mod keys;
mod props;
mod run;
mod work;
#[global_allocator]
static A: run::Alloc = run::Alloc;
fn main() {
    simos::interpose::anchor();
    run::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = props.iter().find(|p| p.id == a[2]).expect("unknown property");
            driver::check(p, a.get(3).map(|s| s.as_str()).unwrap_or("quick"))
        }
        Some("replay") => driver::replay(&props, &a[2]),
        Some("one") => driver::one(props.iter().find(|p| p.id == a[2]).expect("unknown property"), a[3].parse().unwrap(), "quick"),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mpqsim check <property> quick|thorough | replay <file> | one <property> <run>");
            2
        }
    };
    std::process::exit(code);
}
