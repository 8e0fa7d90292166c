mod driver;
mod img;
mod json;
mod props;
mod qr;
mod sc_decode;
mod sc_image;
mod sc_life;

#[global_allocator]
static A: simrt::TrackAlloc = simrt::TrackAlloc;

fn main() {
    driver::install_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rest = if a.is_empty() { &[] } else { &a[1..] };
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => driver::check(rest),
        Some("worker") => {
            driver::worker(rest);
            0
        }
        Some("exec") => {
            driver::exec(rest);
            0
        }
        Some("replay") => driver::replay(rest),
        Some("determinism") => driver::determinism(rest),
        _ => {
            eprintln!("usage: sim check ID | replay FILE | determinism ID|all [runs]");
            2
        }
    };
    std::process::exit(code)
}
