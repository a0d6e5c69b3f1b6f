// Random operands for every instruction form; prints what was asked for (AT&T text) and the bytes written.
use crate::rng::Rng;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use xten::asm::*;

/// operands are spelled for the assembler library written in llrl
pub static LLRL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn llrl() -> bool {
    LLRL.load(std::sync::atomic::Ordering::Relaxed)
}

pub trait Op: Copy {
    fn gen(r: &mut Rng, i: usize) -> Self;
    fn text(&self) -> String {
        if llrl() { self.lisp() } else { self.att() }
    }
    fn att(&self) -> String;
    fn lisp(&self) -> String;
}

pub const G64: [(Gpr64, &str); 16] = [
    (Rax, "rax"), (Rcx, "rcx"), (Rdx, "rdx"), (Rbx, "rbx"), (Rsp, "rsp"), (Rbp, "rbp"), (Rsi, "rsi"), (Rdi, "rdi"),
    (R8, "r8"), (R9, "r9"), (R10, "r10"), (R11, "r11"), (R12, "r12"), (R13, "r13"), (R14, "r14"), (R15, "r15"),
];
const G32: [(Gpr32, &str); 16] = [
    (Eax, "eax"), (Ecx, "ecx"), (Edx, "edx"), (Ebx, "ebx"), (Esp, "esp"), (Ebp, "ebp"), (Esi, "esi"), (Edi, "edi"),
    (R8D, "r8d"), (R9D, "r9d"), (R10D, "r10d"), (R11D, "r11d"), (R12D, "r12d"), (R13D, "r13d"), (R14D, "r14d"), (R15D, "r15d"),
];
const G16: [(Gpr16, &str); 16] = [
    (Ax, "ax"), (Cx, "cx"), (Dx, "dx"), (Bx, "bx"), (Sp, "sp"), (Bp, "bp"), (Si, "si"), (Di, "di"),
    (R8W, "r8w"), (R9W, "r9w"), (R10W, "r10w"), (R11W, "r11w"), (R12W, "r12w"), (R13W, "r13w"), (R14W, "r14w"), (R15W, "r15w"),
];
const G8: [(Gpr8, &str); 20] = [
    (Al, "al"), (Cl, "cl"), (Dl, "dl"), (Bl, "bl"), (Ah, "ah"), (Ch, "ch"), (Dh, "dh"), (Bh, "bh"),
    (Spl, "spl"), (Bpl, "bpl"), (Sil, "sil"), (Dil, "dil"),
    (R8B, "r8b"), (R9B, "r9b"), (R10B, "r10b"), (R11B, "r11b"), (R12B, "r12b"), (R13B, "r13b"), (R14B, "r14b"), (R15B, "r15b"),
];
pub const XMM: [(Xmm, u8); 16] = [
    (Xmm0, 0), (Xmm1, 1), (Xmm2, 2), (Xmm3, 3), (Xmm4, 4), (Xmm5, 5), (Xmm6, 6), (Xmm7, 7),
    (Xmm8, 8), (Xmm9, 9), (Xmm10, 10), (Xmm11, 11), (Xmm12, 12), (Xmm13, 13), (Xmm14, 14), (Xmm15, 15),
];

macro_rules! reg_op {
    ($t:ty, $tab:ident) => {
        impl Op for $t {
            fn gen(r: &mut Rng, i: usize) -> Self {
                if i < $tab.len() { $tab[i].0 } else { $tab[r.below($tab.len())].0 }
            }
            fn att(&self) -> String {
                format!("%{}", $tab.iter().find(|(g, _)| g == self).unwrap().1)
            }
            fn lisp(&self) -> String {
                self.att()[1..].to_string()
            }
        }
    };
}
reg_op!(Gpr64, G64);
reg_op!(Gpr32, G32);
reg_op!(Gpr16, G16);
reg_op!(Gpr8, G8);
impl Op for Xmm {
    fn gen(r: &mut Rng, i: usize) -> Self {
        if i < 16 { XMM[i].0 } else { XMM[r.below(16)].0 }
    }
    fn att(&self) -> String {
        format!("%xmm{}", XMM.iter().find(|(g, _)| g == self).unwrap().1)
    }
    fn lisp(&self) -> String {
        self.att()[1..].to_string()
    }
}

macro_rules! imm_op {
    ($t:ty, $edges:expr) => {
        impl Op for $t {
            fn gen(r: &mut Rng, _: usize) -> Self {
                let e: &[$t] = &$edges;
                if r.below(3) == 0 { e[r.below(e.len())] } else if r.below(2) == 0 { (r.next() as i8) as $t } else { r.next() as $t }
            }
            fn att(&self) -> String {
                format!("${}", self)
            }
            fn lisp(&self) -> String {
                format!("{} {{{}}}", self, stringify!($t).to_uppercase())
            }
        }
    };
}
imm_op!(i8, [0, 1, -1, 127, -128, 5, 0x40, 7]);
imm_op!(i16, [0, 1, -1, 127, -128, 128, -129, 255, 256, i16::MAX, i16::MIN]);
imm_op!(i32, [0, 1, -1, 127, -128, 128, -129, 255, 256, 32767, 32768, 65535, 65536, i32::MAX, i32::MIN]);
imm_op!(i64, [0, 1, -1, 127, -128, 128, 255, i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, i64::MIN]);

macro_rules! fixed_op {
    ($t:ident, $s:expr) => {
        impl Op for $t {
            fn gen(_: &mut Rng, _: usize) -> Self { $t }
            fn att(&self) -> String { $s.to_string() }
            fn lisp(&self) -> String { format!("|:{}", &$s[1..]) }
        }
    };
}
fixed_op!(_Al, "%al");
fixed_op!(_Ax, "%ax");
fixed_op!(_Eax, "%eax");
fixed_op!(_Rax, "%rax");
fixed_op!(_Cl, "%cl");
fixed_op!(_Dx, "%dx");
fixed_op!(_Xmm0, "%xmm0");
fixed_op!(_1, "$1");
fixed_op!(_3, "$3");

/// A memory operand together with what it should mean.
#[derive(Clone, Copy)]
pub struct Mem {
    pub m: Memory,
    base: Option<Gpr64>,
    rip: bool,
    idx: Option<(Gpr64, u8)>,
    disp: Option<i32>,
    src: (usize, i64, i64),
}

fn g64name(g: Gpr64) -> &'static str {
    G64.iter().find(|(x, _)| *x == g).unwrap().1
}

impl Mem {
    pub const SHAPES: usize = 13;
    pub fn build(r: &mut Rng, shape: usize, base: Gpr64, index: Gpr64, scale: u8) -> Mem {
        let d8 = i8::gen(r, 99);
        let d32 = i32::gen(r, 99);
        let abs = d32 & i32::MAX;
        let none = Mem { m: memory(Rax), base: None, rip: false, idx: None, disp: None, src: (shape, if matches!(shape, 1 | 4) { d8 as i64 } else { d32 as i64 }, 0) };
        match shape {
            0 => Mem { m: memory(base), base: Some(base), ..none },
            1 => Mem { m: memory(base + d8), base: Some(base), disp: Some(d8 as i32), ..none },
            2 => Mem { m: memory(base + d32), base: Some(base), disp: Some(d32), ..none },
            3 => Mem { m: memory(base + index * scale), base: Some(base), idx: Some((index, scale)), ..none },
            4 => Mem { m: memory(base + index * scale + d8), base: Some(base), idx: Some((index, scale)), disp: Some(d8 as i32), ..none },
            5 => Mem { m: memory(base + d32 + index * scale), base: Some(base), idx: Some((index, scale)), disp: Some(d32), ..none },
            6 => Mem { m: memory(d32 + index * scale), idx: Some((index, scale)), disp: Some(d32), ..none },
            7 => Mem { m: memory(abs), disp: Some(abs), src: (7, abs as i64, 0), ..none },
            8 => Mem { m: memory(Rip), rip: true, disp: Some(0), ..none },
            9 => Mem { m: memory(Rip + d32), rip: true, disp: Some(d32), ..none },
            10 => {
                let d = d8 >> 1;
                let e = i8::gen(r, 99) >> 1;
                Mem { m: memory(base + d - e), base: Some(base), disp: Some(d as i32 - e as i32), src: (10, d as i64, -(e as i64)), ..none }
            }
            11 => {
                let d = d32 >> 1;
                let e = i32::gen(r, 99) >> 1;
                Mem { m: memory(base - d + index * scale + e), base: Some(base), idx: Some((index, scale)), disp: Some(e - d), src: (11, -(d as i64), e as i64), ..none }
            }
            _ => Mem { m: memory(base + index), base: Some(base), idx: Some((index, 1)), ..none },
        }
    }
}

impl Op for Mem {
    fn gen(r: &mut Rng, i: usize) -> Self {
        let shape = if i < Mem::SHAPES { i } else { r.below(Mem::SHAPES) };
        let base = G64[r.below(16)].0;
        let mut index = G64[r.below(16)].0;
        if index == Rsp {
            index = R12;
        }
        let scale = [1, 2, 4, 8][r.below(4)];
        Mem::build(r, shape, base, index, scale)
    }
    fn att(&self) -> String {
        let d = self.disp.map_or(String::new(), |d| d.to_string());
        if self.rip {
            return format!("{}(%rip)", d);
        }
        match (self.base, self.idx) {
            (None, None) => d,
            (Some(b), None) => format!("{}(%{})", d, g64name(b)),
            (Some(b), Some((i, s))) => format!("{}(%{},%{},{})", d, g64name(b), g64name(i), s),
            (None, Some((i, s))) => format!("{}(,%{},{})", d, g64name(i), s),
        }
    }    fn lisp(&self) -> String {
        let (shape, d, e) = self.src;
        let b = self.base.map_or("", g64name);
        let (i, k) = self.idx.map_or(("", 1), |(i, k)| (g64name(i), k));
        match shape {
            0 => format!("(memory {})", b),
            1 => format!("(memory (+. {} {} {{I8}}))", b, d),
            2 => format!("(memory (+. {} {} {{I32}}))", b, d),
            3 => format!("(memory (+. {} (*. {} {})))", b, i, k),
            4 => format!("(memory (+. {} (*. {} {}) {} {{I8}}))", b, i, k, d),
            5 => format!("(memory (+. {} {} {{I32}} (*. {} {})))", b, d, i, k),
            6 => format!("(memory (+. {} {{I32}} (*. {} {})))", d, i, k),
            7 => format!("(memory {} {{I32}})", d),
            8 => "(memory rip)".to_string(),
            9 => format!("(memory (+. rip {} {{I32}}))", d),
            10 => format!("(memory (+. {} {} {{I8}} {} {{I8}}))", b, d, e),
            11 => format!("(memory (+. {} {} {{I32}} (*. {} {}) {} {{I32}}))", b, d, i, k, e),
            _ => format!("(memory (+. {} {}))", b, i),
        }
    }
}

trait Low {
    type T;
    fn low(self) -> Self::T;
}
macro_rules! low_id { ($($t:ty)*) => { $(impl Low for $t { type T = $t; fn low(self) -> $t { self } })* } }
low_id!(Gpr64 Gpr32 Gpr16 Gpr8 Xmm i8 i16 i32 i64 _Al _Ax _Eax _Rax _Cl _Dx _Xmm0 _1 _3);
impl Low for Mem {
    type T = Memory;
    fn low(self) -> Memory { self.m }
}

fn emit(out: &mut impl Write, name: &str, ops: &[String], f: impl FnOnce(&mut Vec<u8>) -> std::io::Result<()>) {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut b = Vec::new();
        f(&mut b).unwrap();
        b
    }));
    let hex = match r {
        Ok(b) => b.iter().map(|x| format!("{:02x}", x)).collect::<String>(),
        Err(_) => "PANIC".to_string(),
    };
    writeln!(out, "{}\t{}\t{}", name, ops.join("|"), hex).unwrap();
}

type Memory_ = Mem;

macro_rules! form {
    ($o:ident, $r:ident, $n:ident, $I:ident) => { emit($o, stringify!($I), &[], |w| inst::$I().write_inst(w)); };
    ($o:ident, $r:ident, $n:ident, $I:ident, $A:ident) => {
        for i in 0..$n {
            let a = <$A as Op>::gen($r, i);
            emit($o, stringify!($I $A), &[a.text()], |w| inst::$I(a.low()).write_inst(w));
        }
    };
    ($o:ident, $r:ident, $n:ident, $I:ident, $A:ident, $B:ident) => {
        for i in 0..$n {
            let a = <$A as Op>::gen($r, i);
            let b = <$B as Op>::gen($r, if i % 2 == 0 { i / 2 } else { 99 });
            emit($o, stringify!($I $A $B), &[a.text(), b.text()], |w| inst::$I(a.low(), b.low()).write_inst(w));
        }
    };
    ($o:ident, $r:ident, $n:ident, $I:ident, $A:ident, $B:ident, $C:ident) => {
        for i in 0..$n {
            let a = <$A as Op>::gen($r, i);
            let b = <$B as Op>::gen($r, if i % 2 == 0 { i / 2 } else { 99 });
            let c = <$C as Op>::gen($r, 99);
            emit($o, stringify!($I $A $B $C), &[a.text(), b.text(), c.text()], |w| inst::$I(a.low(), b.low(), c.low()).write_inst(w));
        }
    };
}

include!("forms.rs");

/// every base x index x scale x shape with one instruction
pub fn memories(out: &mut impl Write, r: &mut Rng) {
    for shape in 0..Mem::SHAPES {
        for (b, _) in G64 {
            for (x, _) in G64 {
                if x == Rsp {
                    continue;
                }
                for s in [1, 2, 4, 8] {
                    let uses_index = matches!(shape, 3..=6 | 11 | 12);
                    if !uses_index && (x != Rax || s != 1) {
                        continue;
                    }
                    let m = Mem::build(r, shape, b, x, s);
                    let g = G64[r.below(16)].0;
                    emit(out, "Movq Gpr64 Memory_", &[g.text(), m.text()], |w| inst::Movq(g, m.m).write_inst(w));
                }
            }
        }
    }
    // the register halves of a 64-bit register are the right ones
    for (g, n) in G64 {
        let t = |s: &str| if llrl() { s.to_string() } else { format!("%{}", s) };
        let i = G64.iter().position(|(x, _)| *x == g).unwrap();
        let b = if i < 4 { G8[i].1 } else { G8[i + 4].1 };
        emit(out, "Movq Gpr64 Gpr64", &[t(n), t(n)], |w| inst::Movq(g.q(), g.q()).write_inst(w));
        emit(out, "Movl Gpr32 Gpr32", &[t(G32[i].1), t(G32[i].1)], |w| inst::Movl(g.l(), g.l()).write_inst(w));
        emit(out, "Movw Gpr16 Gpr16", &[t(G16[i].1), t(G16[i].1)], |w| inst::Movw(g.w(), g.w()).write_inst(w));
        emit(out, "Movb Gpr8 Gpr8", &[t(b), t(b)], |w| inst::Movb(g.b(), g.b()).write_inst(w));
    }
    // every pair of 8-bit registers (REX required, refused, or free)
    for (a, _) in G8 {
        for (b, _) in G8 {
            emit(out, "Movb Gpr8 Gpr8", &[a.text(), b.text()], |w| inst::Movb(a, b).write_inst(w));
        }
    }
}

macro_rules! jumps {
    ($w:ident, $k:expr, $l:expr, $short:expr; $($m:ident)*) => {{
        let names = [$(stringify!($m)),*];
        let k = $k % names.len();
        let mut i = 0;
        $( if i == k { if $short { $w.$m(Short($l)).unwrap() } else { $w.$m($l).unwrap() } } i += 1; )*
        let _ = i;
        names[k]
    }};
}

/// Instructions that name labels, before and after the label, near and short: position, length, what was asked for.
pub fn labels(out: &mut impl Write, r: &mut Rng, n: usize) {
    let mut base = 0u64;
    for _ in 0..n {
        let mut w = Writer::new();
        let count = 4 + r.below(24);
        let labels: Vec<Label> = (0..count).map(|i| if i % 2 == 0 { w.issue_label() } else { w.get_label(&format!("n{}", i)) }).collect();
        let mut pos = vec![0u64; count];
        let mut order: Vec<usize> = (0..count).collect();
        for i in (1..count).rev() {
            let j = r.below(i + 1);
            order.swap(i, j);
        }
        let mut refs: Vec<(u64, u64, String, usize, bool)> = Vec::new();
        let mut shorts: Vec<(usize, u64)> = Vec::new(); // label to define within reach of a short jump
        for (step, &d) in order.iter().enumerate() {
            for _ in 0..1 + r.below(5) {
                let p = w.location().pos;
                let defined = &order[..step];
                let back = !defined.is_empty() && r.below(2) == 0;
                let t = if back { defined[r.below(defined.len())] } else { order[step + r.below(count - step)] };
                let kind = r.below(8);
                let short = if kind < 4 {
                    if back { (pos[t] as i64 - (p as i64 + 2)) >= -128 } else { t == d && r.below(2) == 0 }
                } else { false };
                let short = short && r.below(4) != 0;
                let l = labels[t];
                let mut rip = false;
                let text = match kind {
                    4 => { w.callq(l).unwrap(); "callq".to_string() }
                    5 => { let g = G64[r.below(16)]; w.leaq(g.0, l).unwrap(); rip = true; format!("leaq @, %{}", g.1) }
                    6 => { let g = G64[r.below(16)]; w.movq(g.0, l).unwrap(); rip = true; format!("movq @, %{}", g.1) }
                    7 => match r.below(5) {
                        3 => { let v = i32::gen(r, 99); w.movq(l, v).unwrap(); rip = true; format!("movq ${}, @", v) }
                        0 => { let g = G64[r.below(16)]; w.movq(l, g.0).unwrap(); rip = true; format!("movq %{}, @", g.1) }
                        1 => { let g = XMM[r.below(16)]; w.movq(l, g.0).unwrap(); rip = true; format!("movq %xmm{}, @", g.1) }
                        2 => { let g = XMM[r.below(16)]; w.movq(g.0, l).unwrap(); rip = true; format!("movq @, %xmm{}", g.1) }
                        _ => { w.jmpq(l).unwrap(); "jmp".to_string() }
                    },
                    _ => {
                        let k = r.below(31);
                        let s = jumps!(w, k, l, short; ja jae jb jbe jc je jg jge jl jle jna jnae jnb jnbe jnc jne jng jnge jnl jnle jno jnp jns jnz jo jp jpe jpo js jz jmpq);
                        (if s == "jmpq" { "jmp" } else { s }).to_string()
                    }
                };
                let q = w.location().pos;
                refs.push((p, q - p, text, t, rip));
                if short && !back { shorts.push((d, q)); }
                let limit = shorts.iter().filter(|s| s.0 == d).map(|s| (s.1 + 127).saturating_sub(q)).min();
                let fill = if r.below(4) == 0 { r.below(140) } else { r.below(12) } as u64;
                let fill = match limit { Some(m) => if r.below(3) == 0 { m } else { fill.min(m) }, None => fill };
                // what follows must still be in reach
                let fill = if limit.is_some() { fill.min(limit.unwrap().saturating_sub(0)) } else { fill };
                w.allocate(fill).unwrap();
                if limit.is_some() { break; }
            }
            pos[d] = w.location().pos;
            w.define(labels[d], d % 3 == 0);
        }
        w.nop().unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| w.produce().unwrap()));
        match res {
            Err(_) => writeln!(out, "B\t{}\tPANIC", base).unwrap(),
            Ok(o) => {
                writeln!(out, "B\t{}\t{}", base, o.text.iter().map(|x| format!("{:02x}", x)).collect::<String>()).unwrap();
                if !o.relocs.is_empty() { writeln!(out, "R\t{}\t{:?}", base, o.relocs).unwrap(); }
                for (p, len, text, t, rip) in refs {
                    let full = if rip { text.replace('@', &format!("{}(%rip)", pos[t] as i64 - (p + len) as i64)) } else { format!("{} .{:+}", text, pos[t] as i64 - p as i64) };
                    writeln!(out, "I\t{}\t{}\t{}", base + p, len, full).unwrap();
                }
                base += (o.text.len() as u64 + 64) / 16 * 16;
            }
        }
    }
}
