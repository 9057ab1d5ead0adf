//! Replays a solver-produced input natively: `replay --list` or `replay HARNESS FILE`, where
//! each line of FILE is one draw as hexadecimal bytes.  Exit 0: the harness body ran through.
//! A panic (101) or signal: the input breaks the property on the real build.  77/78: the input
//! does not fit the harness.
use fixed_map_harness as h;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let all = h::all();
    if args[1] == "--list" {
        for (n, _) in all {
            println!("{}", n.split_once("::").unwrap().1);
        }
        return;
    }
    let text = std::fs::read_to_string(&args[2]).expect("input file");
    let vals: Vec<Vec<u8>> = text
        .lines()
        .filter(|l| !l.starts_with('#') && !l.trim().is_empty())
        .map(|l| {
            let l = l.trim();
            (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).expect("hex")).collect()
        })
        .collect();
    let f = all
        .iter()
        .find(|(n, _)| n.split_once("::").unwrap().1 == args[1])
        .unwrap_or_else(|| {
            eprintln!("replay: no such harness");
            std::process::exit(79)
        })
        .1;
    h::nd::load(vals);
    f();
    println!("REPLAY-COMPLETED ends={} unread={}", h::nd::dones(), h::nd::left());
}
