// Random programs of several objects: every definition carries a tag no other has, every reference is
// a function returning what it reaches. Loaded by the JIT here; written as ELF for the system linker.
use crate::rng::Rng;
use std::collections::BTreeMap;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xten::asm::*;
use xten::jit::{Engine, Error};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sec { Text, Data, Rodata, Bss }

#[derive(Clone, Debug)]
struct Def {
    obj: usize,
    name: Option<String>, // unnamed: only within its object
    global: bool,
    sec: Sec,
    words: Vec<u64>, // content (Text: the value returned)
    align: u64,
    label: Option<Label>,
}

pub struct World {
    pub objs: Vec<Object>,
    /// function -> value it must return
    pub expect: Vec<(String, u64)>,
    /// function -> the address it returns is a multiple of this
    pub aligned: Vec<(String, u64)>,
    /// global data readable from C: name, words
    pub data: Vec<(String, Vec<u64>)>,
    pub stats: BTreeMap<String, usize>,
}

fn tag(r: &mut Rng, k: &mut u64) -> u64 {
    *k += 1;
    (*k << 40) | (r.next() & 0xff_ffff_ffff)
}

fn pad(w: &mut Writer, sec: Sec, n: u64) {
    for _ in 0..n {
        match sec {
            Sec::Text => w.text().allocate(1).unwrap(),
            Sec::Data => w.data().write_all(&[0x5a]).unwrap(),
            Sec::Rodata => w.rodata().write_all(&[0xa5]).unwrap(),
            Sec::Bss => w.bss().allocate(1).unwrap(),
        }
    }
}

/// forward: references may also go to objects loaded later (only the system linker can do that)
pub fn world(seed: u64, forward: bool) -> World {
    let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x77);
    let r = &mut r;
    let mut k = 0u64;
    // now and then enough of it to need further pages for code, data and the address table
    let many = seed % 41 == 0;
    let n = if many { 12 + r.below(24) } else { 1 + r.below(5) };
    let big = r.below(4) == 0;
    let mut defs: Vec<Def> = Vec::new();
    let mut stats: BTreeMap<String, usize> = BTreeMap::new();
    for o in 0..n {
        for i in 0..2 + r.below(6) {
            let sec = [Sec::Text, Sec::Data, Sec::Rodata, Sec::Bss][r.below(4)];
            let kind = r.below(5);
            let (name, global) = match kind {
                0 | 1 => (Some(format!("g{}_{}", o, i)), true),
                // the same local name in every object
                2 => (Some(format!("local{}", i)), false),
                // a local name that is some other object's global one
                3 => {
                    let other = r.below(n);
                    if other != o {
                        (Some(format!("g{}_{}", other, i)), false)
                    } else {
                        (Some(format!("l{}_{}", o, i)), false)
                    }
                }
                _ => (None, false),
            };
            let words = match sec {
                Sec::Text => vec![tag(r, &mut k)],
                Sec::Bss => vec![0; 1 + r.below(if big { 700 } else { 6 })],
                _ => (0..1 + r.below(if big { 700 } else { 6 })).map(|_| tag(r, &mut k)).collect(),
            };
            defs.push(Def { obj: o, name, global, sec, words, align: [1, 2, 4, 8, 16][r.below(5)], label: None });
        }
    }
    let mut w = World { objs: vec![], expect: vec![], aligned: vec![], data: vec![], stats: BTreeMap::new() };
    for d in defs.iter() {
        if d.global && d.sec != Sec::Text && d.sec != Sec::Bss {
            w.data.push((d.name.clone().unwrap(), d.words.clone()));
        }
    }
    let mut t = 0;
    for o in 0..n {
        let mut wr = Writer::new();
        // a name used as a local one here cannot be used for another object's
        let locals: Vec<String> =
            defs.iter().filter(|d| d.obj == o && !d.global).filter_map(|d| d.name.clone()).collect();
        for d in defs.iter_mut() {
            d.label = if d.obj == o {
                Some(match &d.name {
                    Some(n) => wr.get_label(n),
                    None => wr.issue_label(),
                })
            } else if d.global && (forward || d.obj < o) && !locals.contains(d.name.as_ref().unwrap()) {
                None // got when it is used
            } else {
                None
            };
        }
        let targets: Vec<usize> = (0..defs.len())
            .filter(|&i| {
                let d = &defs[i];
                d.obj == o || d.global && (forward || d.obj < o) && !locals.contains(d.name.as_ref().unwrap())
            })
            .collect();
        // references and definitions in random order: forward and backward ones occur
        let nrefs = if many { 60 } else { 4 + r.below(20) };
        let mut todo: Vec<Option<usize>> = targets.iter().filter(|&&i| defs[i].obj == o).map(|&i| Some(i)).collect();
        for _ in 0..nrefs {
            todo.push(None);
        }
        for i in (1..todo.len()).rev() {
            let j = r.below(i + 1);
            todo.swap(i, j);
        }
        for item in todo {
            let e = r.below(9) as u64;
            match item {
                Some(i) => {
                    let d = defs[i].clone();
                    pad(&mut wr, d.sec, e);
                    let l = d.label.unwrap();
                    macro_rules! start {
                        ($s:expr) => {{
                            if d.align > 1 { $s.align(d.align).unwrap(); }
                            $s.define(l, d.global);
                        }};
                    }
                    match d.sec {
                        Sec::Text => {
                            start!(wr.text());
                            wr.movq(Rax, d.words[0] as i64).unwrap();
                            wr.retq().unwrap();
                        }
                        Sec::Data => {
                            start!(wr.data());
                            for x in &d.words { wr.data().write_all(&x.to_le_bytes()).unwrap(); }
                        }
                        Sec::Rodata => {
                            start!(wr.rodata());
                            for x in &d.words { wr.rodata().write_all(&x.to_le_bytes()).unwrap(); }
                        }
                        Sec::Bss => {
                            start!(wr.bss());
                            wr.bss().allocate(8 * d.words.len() as u64).unwrap();
                        }
                    }
                }
                None => {
                    let i = targets[r.below(targets.len())];
                    let d = defs[i].clone();
                    let l = match d.label {
                        Some(l) => l,
                        None => wr.get_label(d.name.as_ref().unwrap()),
                    };
                    let f = format!("t{}", t);
                    t += 1;
                    // pointer cells used by the function, placed first
                    let at = r.below(d.words.len());
                    let mut how = r.below(8);
                    let same = d.obj == o;
                    if d.sec == Sec::Text && matches!(how, 0 | 4) { how = 1; }
                    let mut cell = None;
                    if how == 2 || how == 3 || how == 7 {
                        let c = wr.issue_label();
                        let in_ro = r.below(2) == 0;
                        let add = if d.sec == Sec::Text { 0 } else { 8 * at as i64 };
                        macro_rules! put {
                            ($s:expr) => {{
                                $s.align(8).unwrap();
                                $s.define(c, false);
                                if how == 7 {
                                    // target - cell, 32 bits
                                    $s.write_all(&[0xee; 4]).unwrap();
                                    $s.use_relative(-4, l, add, RelocType::PcRel32);
                                } else {
                                    $s.write_all(&[0xee; 8]).unwrap();
                                    $s.use_relative(-8, l, add, RelocType::Abs64);
                                }
                            }};
                        }
                        if in_ro { put!(wr.rodata()) } else { put!(wr.data()) }
                        cell = Some(c);
                    }
                    pad(&mut wr, Sec::Text, e);
                    let fl = wr.get_label(&f);
                    wr.define(fl, true);
                    let skip = r.below(3) == 0;
                    if skip {
                        // jump over poison, short or near
                        let a = wr.issue_label();
                        if r.below(2) == 0 { wr.jmpq(Short(a)).unwrap(); pad(&mut wr, Sec::Text, r.below(100) as u64); }
                        else { wr.jmpq(a).unwrap(); wr.ud2().unwrap(); pad(&mut wr, Sec::Text, r.below(300) as u64); }
                        wr.ud2().unwrap();
                        wr.define(a, false);
                    }
                    let mut name = "";
                    if d.sec == Sec::Text {
                        wr.subq(Rsp, 8i8).unwrap();
                        match how {
                            1 => { wr.callq(l).unwrap(); name = "call"; }
                            2 | 3 => { wr.movq(Rcx, cell.unwrap()).unwrap(); wr.callq(Rcx).unwrap(); name = "call-abs64"; }
                            5 if d.name.is_some() => { wr.callq(AddressTable(l)).unwrap(); name = "call-table"; }
                            6 if d.name.is_some() => { wr.movq(Rcx, AddressTable(l)).unwrap(); wr.callq(Rcx).unwrap(); name = "load-table"; }
                            7 => {
                                wr.leaq(Rcx, cell.unwrap()).unwrap();
                                wr.movslq(Rax, memory(Rcx)).unwrap();
                                wr.addq(Rcx, Rax).unwrap();
                                wr.callq(Rcx).unwrap();
                                name = "call-rel32-cell";
                            }
                            _ => { wr.leaq(Rcx, l).unwrap(); wr.callq(Rcx).unwrap(); name = "lea-call"; }
                        }
                        wr.addq(Rsp, 8i8).unwrap();
                        if how == 5 && d.name.is_some() && r.below(2) == 0 {
                            wr.xorl(Eax, Eax).unwrap();
                            wr.jmpq(AddressTable(l)).unwrap();
                            name = "jmp-table";
                        } else if how == 1 && r.below(2) == 0 {
                            wr.xorl(Eax, Eax).unwrap();
                            wr.jmpq(l).unwrap();
                            name = "jmp";
                        } else if how == 4 || how == 0 {
                            wr.testq(Rax, Rax).unwrap();
                            wr.je(l).unwrap();
                            wr.retq().unwrap();
                        } else {
                            wr.retq().unwrap();
                        }
                        w.expect.push((f, d.words[0]));
                    } else {
                        let add = 8 * at as i64;
                        match how {
                            0 | 1 => {
                                // first word by symbol, others by addend
                                if at == 0 { wr.movq(Rax, l).unwrap(); name = "mov"; }
                                else {
                                    wr.movq(Rax, memory(Rip + 0i32)).unwrap();
                                    wr.use_relative(-4, l, add - 4, RelocType::PcRel32);
                                    name = "mov-addend";
                                }
                            }
                            2 | 3 => {
                                wr.movq(Rcx, cell.unwrap()).unwrap();
                                wr.movq(Rax, memory(Rcx)).unwrap();
                                name = "abs64";
                            }
                            5 | 6 if d.name.is_some() => {
                                wr.movq(Rcx, AddressTable(l)).unwrap();
                                wr.movq(Rax, memory(Rcx + add as i32)).unwrap();
                                name = "table";
                            }
                            7 => {
                                wr.leaq(Rcx, cell.unwrap()).unwrap();
                                wr.movslq(Rax, memory(Rcx)).unwrap();
                                wr.movq(Rax, memory(Rcx + Rax)).unwrap();
                                name = "rel32-cell";
                            }
                            _ => {
                                wr.leaq(Rcx, l).unwrap();
                                wr.movq(Rax, memory(Rcx + add as i32)).unwrap();
                                name = "lea";
                            }
                        }
                        if d.sec == Sec::Bss && r.below(2) == 0 {
                            // count visits: reads are of zero-initialised memory, then it is written and put back
                            wr.leaq(Rcx, l).unwrap();
                            wr.movq(Rdx, -1i32).unwrap();
                            wr.movq(memory(Rcx + add as i32), Rdx).unwrap();
                            wr.movq(Rsi, memory(Rcx + add as i32)).unwrap();
                            wr.xorl(Edx, Edx).unwrap();
                            wr.movq(memory(Rcx + add as i32), Rdx).unwrap();
                            wr.addq(Rsi, 1i8).unwrap();
                            wr.addq(Rax, Rsi).unwrap();
                        }
                        wr.retq().unwrap();
                        w.expect.push((f, d.words[at]));
                        if r.below(3) == 0 && d.align > 1 {
                            let f = format!("t{}", t);
                            t += 1;
                            let fl = wr.get_label(&f);
                            wr.define(fl, true);
                            wr.leaq(Rax, l).unwrap();
                            wr.retq().unwrap();
                            w.aligned.push((f, d.align));
                        }
                    }
                    *stats.entry(format!("{} {:?} {}", name, d.sec, if same { if d.global { "own-global" } else if d.name.is_some() { "own-local" } else { "unnamed" } } else { "other" })).or_default() += 1;
                }
            }
        }
        w.objs.push(wr.produce().unwrap());
    }
    w.stats = stats;
    w
}

fn protections() -> Vec<(usize, usize, String)> {
    let s = std::fs::read_to_string("/proc/self/maps").unwrap();
    s.lines()
        .filter_map(|l| {
            let mut it = l.split(' ');
            let (a, b) = it.next()?.split_once('-')?;
            Some((usize::from_str_radix(a, 16).ok()?, usize::from_str_radix(b, 16).ok()?, it.next()?.to_string()))
        })
        .collect()
}

pub fn jit(out: &mut impl Write, seed: u64, n: u64) {
    let mut total: BTreeMap<String, usize> = BTreeMap::new();
    let mut calls = 0usize;
    for s in seed..seed + n {
        writeln!(out, "WORLD {}", s).unwrap();
        out.flush().unwrap();
        let w = match catch_unwind(|| world(s, false)) {
            Ok(w) => w,
            Err(_) => { writeln!(out, "BAD {} the objects could not be produced (panic)", s).unwrap(); continue; }
        };
        let mut e: Engine = Engine::new(xten::jit::symbol_resolver::none);
        let mut ok = true;
        for (i, o) in w.objs.iter().enumerate() {
            let res = catch_unwind(AssertUnwindSafe(|| e.add_object(o)));
            match res {
                Ok(Ok(())) => {}
                Ok(Err(err)) => { writeln!(out, "BAD {} object {} is refused: {}", s, i, err).unwrap(); ok = false; break; }
                Err(_) => { writeln!(out, "BAD {} object {}: panic while loading", s, i).unwrap(); ok = false; break; }
            }
            // what was loaded so far keeps working while more is loaded
            for (f, v) in w.expect.iter() {
                let Some(p) = e.get(f) else { continue };
                let g = unsafe { std::mem::transmute::<_, extern "C" fn() -> u64>(p) };
                let got = g();
                calls += 1;
                if got != *v {
                    writeln!(out, "BAD {} {} after object {}: returned {:#x}, its target is {:#x}", s, f, i, got, v).unwrap();
                    ok = false;
                }
            }
        }
        if !ok { continue; }
        for (f, v) in w.expect.iter() {
            if e.get(f).is_none() { writeln!(out, "BAD {} {} is not found, expected {:#x}", s, f, v).unwrap(); }
        }
        for (f, a) in w.aligned.iter() {
            match e.get(f) {
                None => writeln!(out, "BAD {} {} is not found", s, f).unwrap(),
                Some(p) => {
                    let g = unsafe { std::mem::transmute::<_, extern "C" fn() -> u64>(p) };
                    if g() % a != 0 { writeln!(out, "BAD {} {}: {:#x} is not aligned to {}", s, f, g(), a).unwrap(); }
                }
            }
        }
        for (f, ws) in w.data.iter() {
            match e.get(f) {
                None => writeln!(out, "BAD {} {} is not found", s, f).unwrap(),
                Some(p) => for (i, v) in ws.iter().enumerate() {
                    let got = unsafe { std::ptr::read_unaligned((p as *const u64).wrapping_add(i)) };
                    if got != *v { writeln!(out, "BAD {} {}[{}] is {:#x}, should be {:#x}", s, f, i, got, v).unwrap(); }
                }
            }
        }
        if s % 16 == 0 {
            let maps = protections();
            for (f, _) in w.expect.iter() {
                let a = e.get(f).unwrap() as usize;
                let m = maps.iter().find(|m| m.0 <= a && a < m.1).unwrap();
                if m.2.as_bytes()[1] == b'w' || m.2.as_bytes()[2] != b'x' {
                    writeln!(out, "BAD {} code of {} is mapped {}", s, f, m.2).unwrap();
                }
            }
        }
        // reporting: a second definition of a global symbol, a use of a missing one
        let g: Vec<&Symbol> = w.objs.iter().flat_map(|o| o.symbols.iter()).filter(|y| matches!(y.binding, Binding::Global(Some(_)))).collect();
        if let Some(y) = g.get(s as usize % g.len().max(1)) {
            let mut wr = Writer::new();
            let l = wr.get_label(&y.name);
            wr.data().define(l, true);
            wr.data().write_all(&[0; 8]).unwrap();
            let res = e.add_object(&wr.produce().unwrap());
            if !matches!(&res, Err(Error::DuplicateSymbol(n)) if *n == y.name) {
                writeln!(out, "BAD {} second definition of {}: {:?}", s, y.name, res).unwrap();
            }
        }
        let miss = format!("missing{}", s);
        let mut wr = Writer::new();
        let l = wr.get_label(&miss);
        match s % 4 {
            0 => wr.callq(l).unwrap(),
            1 => wr.callq(AddressTable(l)).unwrap(),
            2 => wr.leaq(Rax, l).unwrap(),
            _ => { wr.data().write_all(&[0; 8]).unwrap(); wr.data().use_relative(-8, l, 0, RelocType::Abs64); }
        }
        let res = e.add_object(&wr.produce().unwrap());
        if !matches!(&res, Err(Error::UndefinedSymbol(n)) if *n == miss) {
            writeln!(out, "BAD {} use of the missing {}: {:?}", s, miss, res).unwrap();
        }
        // a target too far for the relocation is reported, not truncated
        let mut e2: Engine = Engine::new(xten::jit::symbol_resolver::none);
        let far = (0x7000_0000_0000u64 + ((s & 0xff) << 33)) as *const u8;
        e2.register("far", far).unwrap();
        let mut wr = Writer::new();
        let l = wr.get_label("far");
        let f = wr.get_label("f");
        wr.define(f, true);
        match s % 3 {
            0 => { wr.leaq(Rax, l).unwrap(); }
            1 => { wr.jmpq(Short(l)).unwrap(); }
            _ => { wr.movq(Rax, AddressTable(l)).unwrap(); }
        }
        wr.retq().unwrap();
        let res = e2.add_object(&wr.produce().unwrap());
        if s % 3 == 2 {
            match (&res, e2.get("f")) {
                (Ok(()), Some(p)) => {
                    let g = unsafe { std::mem::transmute::<_, extern "C" fn() -> u64>(p) };
                    if g() != far as u64 { writeln!(out, "BAD {} address table entry of far: {:#x}", s, g()).unwrap(); }
                }
                _ => writeln!(out, "BAD {} far through the address table: {:?}", s, res).unwrap(),
            }
        } else if !matches!(&res, Err(Error::OffsetOutOfRange(..))) {
            writeln!(out, "BAD {} reference out of range: {:?}", s, res).unwrap();
        }
        for (k, v) in w.stats { *total.entry(k).or_default() += v; }
    }
    for (k, v) in total { writeln!(out, "STAT\t{}\t{}", k, v).unwrap(); }
    writeln!(out, "CALLS\t{}", calls).unwrap();
    writeln!(out, "DONE").unwrap();
}

/// objects of one world as ELF files + a C driver
pub fn elf(dir: &str, seed: u64) {
    let w = world(seed, seed % 3 != 0);
    let mut c = String::from("#include <stdio.h>\n#include <stdint.h>\nint bad;\n");
    for (f, _) in w.expect.iter() { c += &format!("uint64_t {}(void);\n", f); }
    for (f, _) in w.aligned.iter() { c += &format!("uint64_t {}(void);\n", f); }
    for (f, _) in w.data.iter() { c += &format!("extern char {}[];\n", f); }
    c += "static void ck(const char*n, uint64_t got, uint64_t want){ if(got!=want){bad=1;printf(\"%s: %#lx, should be %#lx\\n\",n,got,want);} }\nint main(void){\nuint64_t v;\n";
    for round in 0..2 {
        for (f, v) in w.expect.iter() { c += &format!("ck(\"{}\",{}(),{}ull);\n", f, f, v); }
        if round == 0 {
            for (f, a) in w.aligned.iter() { c += &format!("ck(\"{} alignment\",{}()%{},0);\n", f, f, a); }
            for (f, ws) in w.data.iter() {
                for (i, v) in ws.iter().enumerate().take(40) { c += &format!("__builtin_memcpy(&v,{}+{},8);ck(\"{}[{}]\",v,{}ull);\n", f, 8 * i, f, i, v); }
            }
        }
    }
    c += &format!("printf(\"ran {}\\n\");return bad;}}\n", 2 * w.expect.len() + w.aligned.len());
    std::fs::write(format!("{}/main.c", dir), c).unwrap();
    for (i, o) in w.objs.into_iter().enumerate() {
        xten::elf::write_relocatable_object(std::path::Path::new(&format!("{}/o{}.o", dir, i)), o).unwrap();
    }
    let mut s = String::new();
    for (k, v) in w.stats { s += &format!("{}\t{}\n", k, v); }
    std::fs::write(format!("{}/stats", dir), s).unwrap();
}
