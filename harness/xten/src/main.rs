mod asm;
mod objects;
mod rng;
mod script;
use std::io::Write;

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut r = rng::Rng(seed);
    match a[1].as_str() {
        "forms" => {
            let n: usize = a[3].parse().unwrap();
            asm::forms(&mut out, &mut r, n);
        }
        "forms-llrl" => {
            asm::LLRL.store(true, std::sync::atomic::Ordering::Relaxed);
            asm::forms(&mut out, &mut r, a[3].parse().unwrap());
        }
        "memories-llrl" => {
            asm::LLRL.store(true, std::sync::atomic::Ordering::Relaxed);
            asm::memories(&mut out, &mut r);
        }
        "memories" => asm::memories(&mut out, &mut r),
        "labels" => asm::labels(&mut out, &mut r, a[3].parse().unwrap()),
        "jit" => objects::jit(&mut out, seed, a[3].parse().unwrap()),
        "elf" => objects::elf(&a[3], seed),
        "writer" => script::writer(&mut out),
        "worlds" => script::worlds(&a[3], seed, a[4].parse().unwrap()),
        "elf-script" => script::elf_script(&a[3], seed),
        _ => panic!("?"),
    }
    out.flush().unwrap();
}
