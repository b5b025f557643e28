//! replay HARNESS HEXFILE: runs a harness natively on a counterexample.
//! Exit 101: the violation reproduces. 0: it does not. 40: an assumption
//! does not hold.
//!
//! replay --sample HARNESS SEED N: runs it on N pseudo random inputs.
#[cfg(not(kani))]
fn main() {
    use vharness::sym;
    let args: Vec<String> = std::env::args().collect();
    let find = |name: &str| {
        vharness::registry()
            .into_iter()
            .find(|(n, _)| *n == name)
            .expect("harness")
            .1
    };
    if args[1] == "--sample" {
        let f = find(&args[2]);
        let n: u64 = args[4].parse().unwrap();
        let mut seed: u64 = args[3].parse::<u64>().unwrap() | 1;
        std::panic::set_hook(Box::new(|i| {
            if !i.payload().is::<sym::Unmet>() {
                eprintln!("{i}");
            }
        }));
        let mut met = 0;
        for i in 0..n {
            seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            sym::load_random(seed ^ i, (i % 4) as u8);
            match std::panic::catch_unwind(f) {
                Ok(_) => met += 1,
                Err(e) if e.is::<sym::Unmet>() => {}
                Err(_) => {
                    eprintln!("disagreement on sample {i}");
                    std::process::exit(101);
                }
            }
        }
        println!("SAMPLED {met} of {n}");
        return;
    }
    let name = &args[1];
    let hex = std::fs::read_to_string(&args[2]).expect("counterexample file");
    let bytes: Vec<u8> = hex
        .split_whitespace()
        .map(|b| u8::from_str_radix(b, 16).expect("hex"))
        .collect();
    let f = find(name);
    sym::load(bytes);
    if let Err(e) = std::panic::catch_unwind(f) {
        std::process::exit(if e.is::<sym::Unmet>() { 40 } else { 101 });
    }
}
#[cfg(kani)]
fn main() {}
