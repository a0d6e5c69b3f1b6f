// The same commands as the driver written in llrl, for the library written in Rust; and worlds as commands for that driver.
use crate::asm::{G64, XMM};
use crate::objects::world;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xten::asm::*;

fn blob(b: &[u8]) -> String {
    if b.is_empty() { "-".into() } else { b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".") }
}

fn loc(l: &Location) -> String {
    format!("{} {}", match l.section { LocationSection::Text => 0, LocationSection::Data => 1, LocationSection::Rodata => 2, LocationSection::Bss => 3 }, l.pos)
}

pub fn dump(o: &Object) -> String {
    let mut s = format!("object {} {} {} {} {} {}", blob(&o.text), blob(&o.data), blob(&o.rodata), o.bss, o.symbols.len(), o.relocs.len());
    for y in &o.symbols {
        s += &match &y.binding {
            Binding::Local(l) => format!("\nsymbol {} 0 {}", y.name, loc(l)),
            Binding::Global(Some(l)) => format!("\nsymbol {} 1 {}", y.name, loc(l)),
            Binding::Global(None) => format!("\nsymbol {} 2 0 0", y.name),
        };
    }
    for r in &o.relocs {
        let t = match &r.target {
            RelocTarget::Symbol(n) => format!("s {}", n),
            RelocTarget::Section(x) => format!("c {}", match x { LocationSection::Text => 0, LocationSection::Data => 1, LocationSection::Rodata => 2, LocationSection::Bss => 3 }),
        };
        s += &format!("\nreloc {} {} {} {}", loc(&r.location), t, r.addend, match r.ty { RelocType::PcRel8 => 0, RelocType::PcRel32 => 1, RelocType::PcRelToAddressTable32 => 2, RelocType::Abs64 => 3 });
    }
    s
}

macro_rules! jcc {
    ($w:ident, $k:expr, $l:expr; $($m:ident)*) => {{
        let mut i = 0;
        $( if i == $k { $w.$m($l).unwrap(); } i += 1; )*
        let _ = i;
    }};
}

fn inst(w: &mut Writer, kind: usize, l: Label, n: i64) {
    let g = G64[(n & 15) as usize].0;
    let x = XMM[(n & 15) as usize].0;
    match kind {
        0..=30 => jcc!(w, kind, l; ja jae jb jbe jc je jg jge jl jle jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz jmpq),
        31..=61 => jcc!(w, kind - 31, Short(l); ja jae jb jbe jc je jg jge jl jle jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz jmpq),
        62 => w.callq(l).unwrap(),
        63 => w.callq(AddressTable(l)).unwrap(),
        64 => w.jmpq(AddressTable(l)).unwrap(),
        65 => w.movq(l, g).unwrap(),
        66 => w.movq(l, x).unwrap(),
        67 => w.movq(l, n as i32).unwrap(),
        68 => w.movq(g, l).unwrap(),
        69 => w.movq(x, l).unwrap(),
        70 => w.movq(g, AddressTable(l)).unwrap(),
        71 => w.movq(x, AddressTable(l)).unwrap(),
        _ => w.leaq(g, l).unwrap(),
    }
}

#[allow(unused_mut)]
macro_rules! section {
    ($w:expr, $s:expr, $x:ident => $e:expr) => {
        match $s {
            0 => { let mut $x = $w.text(); $e }
            1 => { let mut $x = $w.data(); $e }
            2 => { let mut $x = $w.rodata(); $e }
            3 => { let mut $x = $w.bss(); $e }
            _ => { let $x = &mut $w; $e }
        }
    };
}

/// reads commands, prints what each program produces
pub fn writer(out: &mut impl Write) {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    for prog in s.split("new\n").skip(1) {
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut res = String::new();
            let mut w = Writer::new();
            let mut labels: Vec<Label> = vec![];
            for line in prog.lines() {
                let t: Vec<&str> = line.split(' ').collect();
                let n = |i: usize| t[i].parse::<i64>().unwrap();
                match t[0] {
                    "issue" => labels.push(w.issue_label()),
                    "get" => labels.push(w.get_label(t[1])),
                    "def" => { let l = labels[n(2) as usize]; let p = section!(w, n(1), x => x.define(l, n(3) != 0)); res += &format!("at {}\n", loc(&p)); }
                    "alloc" => section!(w, n(1), x => x.allocate(n(2) as u64).unwrap()),
                    "align" => section!(w, n(1), x => x.align(n(2) as u64).unwrap()),
                    "loc" => { let p = section!(w, n(1), x => x.location()); res += &format!("at {}\n", loc(&p)); }
                    "bytes" => {
                        let b: Vec<u8> = if t[2] == "-" { vec![] } else { t[2].split('.').map(|x| x.parse().unwrap()).collect() };
                        match n(1) { 0 => w.text().write_all(&b).unwrap(), 1 => w.data().write_all(&b).unwrap(), 2 => w.rodata().write_all(&b).unwrap(), _ => w.write_all(&b).unwrap() }
                    }
                    "use" => {
                        let l = labels[n(3) as usize];
                        let ty = [RelocType::PcRel8, RelocType::PcRel32, RelocType::PcRelToAddressTable32, RelocType::Abs64][n(5) as usize];
                        match n(1) {
                            0 => w.text().use_relative(n(2), l, n(4), ty),
                            1 => w.data().use_relative(n(2), l, n(4), ty),
                            2 => w.rodata().use_relative(n(2), l, n(4), ty),
                            _ => w.use_relative(n(2), l, n(4), ty),
                        }
                    }
                    "inst" => inst(&mut w, n(1) as usize, labels[n(2) as usize], n(3)),
                    "produce" => {
                        match std::mem::replace(&mut w, Writer::new()).produce() {
                            Ok(o) => res += &dump(&o),
                            Err(_) => res += "refused",
                        }
                    }
                    x => unreachable!("{}", x),
                }
            }
            res
        }));
        writeln!(out, "new\n{}", r.unwrap_or_else(|_| "refused".into())).unwrap();
    }
}

/// DIR/script: commands for the llrl loader, DIR/expect: what it must print; DIR/o*.o of the llrl ELF writer are requested too
pub fn worlds(dir: &str, seed: u64, n: u64) {
    let mut sc = String::new();
    let mut ex = String::new();
    for s in seed..seed + n {
        let w = world(s, false);
        sc += "engine\n";
        ex += &format!("engine {}\n", s);
        for (i, o) in w.objs.iter().enumerate() {
            sc += &dump(o);
            sc += "\nadd\n";
            ex += &format!("ok object {}\n", i);
        }
        for (f, v) in &w.expect {
            sc += &format!("call {}\n", f);
            ex += &format!("{} {}\n", v, f);
        }
        for (f, a) in &w.aligned {
            sc += &format!("mod {} {}\n", f, a);
            ex += &format!("0 {} mod {}\n", f, a);
        }
        for (f, ws) in &w.data {
            for (i, v) in ws.iter().enumerate().take(30) {
                sc += &format!("word {} {}\n", f, 8 * i);
                ex += &format!("{} {}+{}\n", v, f, 8 * i);
            }
        }
        // errors that must be reported
        let g: Vec<&Symbol> = w.objs.iter().flat_map(|o| o.symbols.iter()).filter(|y| matches!(y.binding, Binding::Global(Some(_)))).collect();
        if let Some(y) = g.get(s as usize % g.len().max(1)) {
            let mut wr = Writer::new();
            let l = wr.get_label(&y.name);
            wr.data().define(l, true);
            wr.data().write_all(&[0; 8]).unwrap();
            sc += &dump(&wr.produce().unwrap());
            sc += "\nadd\n";
            ex += &format!("duplicate {}\n", y.name);
        }
        let miss = format!("missing{}", s);
        let mut wr = Writer::new();
        let l = wr.get_label(&miss);
        match s % 4 {
            0 => wr.callq(l).unwrap(),
            1 => wr.callq(AddressTable(l)).unwrap(),
            2 => wr.leaq(Rax, l).unwrap(),
            _ => { wr.data().write_all(&[0; 8]).unwrap(); wr.data().use_relative(-8, l, 0, RelocType::Abs64); }
        }
        sc += &dump(&wr.produce().unwrap());
        sc += "\nadd\n";
        ex += &format!("undefined {}\n", miss);
        sc += "engine\n";
        ex += &format!("engine far {}\n", s);
        let far = 0x7000_0000_0000u64 + ((s & 0xff) << 33);
        sc += &format!("register far {}\n", far);
        let mut wr = Writer::new();
        let l = wr.get_label("far");
        let f = wr.get_label("f");
        wr.define(f, true);
        match s % 3 {
            0 => { wr.leaq(Rax, l).unwrap(); }
            1 => { wr.jmpq(Short(l)).unwrap(); }
            _ => { wr.movq(Rax, AddressTable(l)).unwrap(); }
        }
        wr.retq().unwrap();
        sc += &dump(&wr.produce().unwrap());
        sc += "\nadd\n";
        if s % 3 == 2 {
            sc += "call f\n";
            ex += &format!("ok far\n{} far\n", far);
        } else {
            ex += "range\n";
        }
    }
    sc += "end\n";
    std::fs::write(format!("{}/script", dir), sc).unwrap();
    std::fs::write(format!("{}/expect", dir), ex).unwrap();
}

/// commands that have the llrl library write the objects of one world as ELF files into DIR/l
pub fn elf_script(dir: &str, seed: u64) {
    let w = world(seed, seed % 3 != 0);
    let mut sc = String::new();
    for (i, o) in w.objs.iter().enumerate() {
        sc += &format!("{}\nelf {}/l/o{}.o\n", dump(o), dir, i);
    }
    sc += "end\n";
    std::fs::write(format!("{}/script", dir), sc).unwrap();
}
