// One line per instruction form of the assembler (the library interface, taken down once).
fn forms0(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Adcb, Gpr8, Gpr8);
    form!(o, r, n, Adcb, Gpr8, Memory_);
    form!(o, r, n, Adcb, Memory_, Gpr8);
    form!(o, r, n, Adcb, Gpr8, i8);
    form!(o, r, n, Adcb, Memory_, i8);
    form!(o, r, n, Adcb, _Al, i8);
    form!(o, r, n, Adcl, Gpr32, Gpr32);
    form!(o, r, n, Adcl, Gpr32, Memory_);
    form!(o, r, n, Adcl, Memory_, Gpr32);
    form!(o, r, n, Adcl, Gpr32, i8);
    form!(o, r, n, Adcl, Memory_, i8);
    form!(o, r, n, Adcl, Gpr32, i32);
    form!(o, r, n, Adcl, Memory_, i32);
    form!(o, r, n, Adcl, _Eax, i32);
    form!(o, r, n, Adcq, Gpr64, Gpr64);
    form!(o, r, n, Adcq, Gpr64, Memory_);
    form!(o, r, n, Adcq, Memory_, Gpr64);
    form!(o, r, n, Adcq, Gpr64, i8);
    form!(o, r, n, Adcq, Memory_, i8);
    form!(o, r, n, Adcq, Gpr64, i32);
    form!(o, r, n, Adcq, Memory_, i32);
    form!(o, r, n, Adcq, _Rax, i32);
    form!(o, r, n, Adcw, Gpr16, Gpr16);
    form!(o, r, n, Adcw, Gpr16, Memory_);
    form!(o, r, n, Adcw, Memory_, Gpr16);
    form!(o, r, n, Adcw, Gpr16, i8);
    form!(o, r, n, Adcw, Memory_, i8);
    form!(o, r, n, Adcw, Gpr16, i16);
    form!(o, r, n, Adcw, Memory_, i16);
    form!(o, r, n, Adcw, _Ax, i16);
    form!(o, r, n, Addb, Gpr8, Gpr8);
    form!(o, r, n, Addb, Gpr8, Memory_);
    form!(o, r, n, Addb, Memory_, Gpr8);
    form!(o, r, n, Addb, Gpr8, i8);
    form!(o, r, n, Addb, Memory_, i8);
    form!(o, r, n, Addb, _Al, i8);
    form!(o, r, n, Addl, Gpr32, Gpr32);
    form!(o, r, n, Addl, Gpr32, Memory_);
    form!(o, r, n, Addl, Memory_, Gpr32);
    form!(o, r, n, Addl, Gpr32, i8);
    form!(o, r, n, Addl, Memory_, i8);
    form!(o, r, n, Addl, Gpr32, i32);
    form!(o, r, n, Addl, Memory_, i32);
    form!(o, r, n, Addl, _Eax, i32);
    form!(o, r, n, Addpd, Xmm, Xmm);
    form!(o, r, n, Addpd, Xmm, Memory_);
    form!(o, r, n, Addps, Xmm, Xmm);
    form!(o, r, n, Addps, Xmm, Memory_);
    form!(o, r, n, Addq, Gpr64, Gpr64);
    form!(o, r, n, Addq, Gpr64, Memory_);
    form!(o, r, n, Addq, Memory_, Gpr64);
    form!(o, r, n, Addq, Gpr64, i8);
    form!(o, r, n, Addq, Memory_, i8);
    form!(o, r, n, Addq, Gpr64, i32);
    form!(o, r, n, Addq, Memory_, i32);
    form!(o, r, n, Addq, _Rax, i32);
    form!(o, r, n, Addsd, Xmm, Xmm);
    form!(o, r, n, Addsd, Xmm, Memory_);
    form!(o, r, n, Addss, Xmm, Xmm);
    form!(o, r, n, Addss, Xmm, Memory_);
}
fn forms1(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Addw, Gpr16, Gpr16);
    form!(o, r, n, Addw, Gpr16, Memory_);
    form!(o, r, n, Addw, Memory_, Gpr16);
    form!(o, r, n, Addw, Gpr16, i8);
    form!(o, r, n, Addw, Memory_, i8);
    form!(o, r, n, Addw, Gpr16, i16);
    form!(o, r, n, Addw, Memory_, i16);
    form!(o, r, n, Addw, _Ax, i16);
    form!(o, r, n, Andb, Gpr8, Gpr8);
    form!(o, r, n, Andb, Gpr8, Memory_);
    form!(o, r, n, Andb, Memory_, Gpr8);
    form!(o, r, n, Andb, Gpr8, i8);
    form!(o, r, n, Andb, Memory_, i8);
    form!(o, r, n, Andb, _Al, i8);
    form!(o, r, n, Andl, Gpr32, Gpr32);
    form!(o, r, n, Andl, Gpr32, Memory_);
    form!(o, r, n, Andl, Memory_, Gpr32);
    form!(o, r, n, Andl, Gpr32, i8);
    form!(o, r, n, Andl, Memory_, i8);
    form!(o, r, n, Andl, Gpr32, i32);
    form!(o, r, n, Andl, Memory_, i32);
    form!(o, r, n, Andl, _Eax, i32);
    form!(o, r, n, Andnpd, Xmm, Xmm);
    form!(o, r, n, Andnpd, Xmm, Memory_);
    form!(o, r, n, Andnps, Xmm, Xmm);
    form!(o, r, n, Andnps, Xmm, Memory_);
    form!(o, r, n, Andpd, Xmm, Xmm);
    form!(o, r, n, Andpd, Xmm, Memory_);
    form!(o, r, n, Andps, Xmm, Xmm);
    form!(o, r, n, Andps, Xmm, Memory_);
    form!(o, r, n, Andq, Gpr64, Gpr64);
    form!(o, r, n, Andq, Gpr64, Memory_);
    form!(o, r, n, Andq, Memory_, Gpr64);
    form!(o, r, n, Andq, Gpr64, i8);
    form!(o, r, n, Andq, Memory_, i8);
    form!(o, r, n, Andq, Gpr64, i32);
    form!(o, r, n, Andq, Memory_, i32);
    form!(o, r, n, Andq, _Rax, i32);
    form!(o, r, n, Andw, Gpr16, Gpr16);
    form!(o, r, n, Andw, Gpr16, Memory_);
    form!(o, r, n, Andw, Memory_, Gpr16);
    form!(o, r, n, Andw, Gpr16, i8);
    form!(o, r, n, Andw, Memory_, i8);
    form!(o, r, n, Andw, Gpr16, i16);
    form!(o, r, n, Andw, Memory_, i16);
    form!(o, r, n, Andw, _Ax, i16);
    form!(o, r, n, Blendpd, Xmm, Xmm, i8);
    form!(o, r, n, Blendpd, Xmm, Memory_, i8);
    form!(o, r, n, Blendps, Xmm, Xmm, i8);
    form!(o, r, n, Blendps, Xmm, Memory_, i8);
    form!(o, r, n, Blendvpd, Xmm, Xmm, _Xmm0);
    form!(o, r, n, Blendvpd, Xmm, Memory_, _Xmm0);
    form!(o, r, n, Blendvps, Xmm, Xmm, _Xmm0);
    form!(o, r, n, Blendvps, Xmm, Memory_, _Xmm0);
    form!(o, r, n, Bsfl, Gpr32, Gpr32);
    form!(o, r, n, Bsfl, Gpr32, Memory_);
    form!(o, r, n, Bsfq, Gpr64, Gpr64);
    form!(o, r, n, Bsfq, Gpr64, Memory_);
    form!(o, r, n, Bsfw, Gpr16, Gpr16);
    form!(o, r, n, Bsfw, Gpr16, Memory_);
}
fn forms2(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Bsrl, Gpr32, Gpr32);
    form!(o, r, n, Bsrl, Gpr32, Memory_);
    form!(o, r, n, Bsrq, Gpr64, Gpr64);
    form!(o, r, n, Bsrq, Gpr64, Memory_);
    form!(o, r, n, Bsrw, Gpr16, Gpr16);
    form!(o, r, n, Bsrw, Gpr16, Memory_);
    form!(o, r, n, Bswap, Gpr32);
    form!(o, r, n, Bswap, Gpr64);
    form!(o, r, n, Btcl, Gpr32, Gpr32);
    form!(o, r, n, Btcl, Memory_, Gpr32);
    form!(o, r, n, Btcl, Gpr32, i8);
    form!(o, r, n, Btcl, Memory_, i8);
    form!(o, r, n, Btcq, Gpr64, Gpr64);
    form!(o, r, n, Btcq, Memory_, Gpr64);
    form!(o, r, n, Btcq, Gpr64, i8);
    form!(o, r, n, Btcq, Memory_, i8);
    form!(o, r, n, Btcw, Gpr16, Gpr16);
    form!(o, r, n, Btcw, Memory_, Gpr16);
    form!(o, r, n, Btcw, Gpr16, i8);
    form!(o, r, n, Btcw, Memory_, i8);
    form!(o, r, n, Btl, Gpr32, Gpr32);
    form!(o, r, n, Btl, Memory_, Gpr32);
    form!(o, r, n, Btl, Gpr32, i8);
    form!(o, r, n, Btl, Memory_, i8);
    form!(o, r, n, Btq, Gpr64, Gpr64);
    form!(o, r, n, Btq, Memory_, Gpr64);
    form!(o, r, n, Btq, Gpr64, i8);
    form!(o, r, n, Btq, Memory_, i8);
    form!(o, r, n, Btrl, Gpr32, Gpr32);
    form!(o, r, n, Btrl, Memory_, Gpr32);
    form!(o, r, n, Btrl, Gpr32, i8);
    form!(o, r, n, Btrl, Memory_, i8);
    form!(o, r, n, Btrq, Gpr64, Gpr64);
    form!(o, r, n, Btrq, Memory_, Gpr64);
    form!(o, r, n, Btrq, Gpr64, i8);
    form!(o, r, n, Btrq, Memory_, i8);
    form!(o, r, n, Btrw, Gpr16, Gpr16);
    form!(o, r, n, Btrw, Memory_, Gpr16);
    form!(o, r, n, Btrw, Gpr16, i8);
    form!(o, r, n, Btrw, Memory_, i8);
    form!(o, r, n, Btsl, Gpr32, Gpr32);
    form!(o, r, n, Btsl, Memory_, Gpr32);
    form!(o, r, n, Btsl, Gpr32, i8);
    form!(o, r, n, Btsl, Memory_, i8);
    form!(o, r, n, Btsq, Gpr64, Gpr64);
    form!(o, r, n, Btsq, Memory_, Gpr64);
    form!(o, r, n, Btsq, Gpr64, i8);
    form!(o, r, n, Btsq, Memory_, i8);
    form!(o, r, n, Btsw, Gpr16, Gpr16);
    form!(o, r, n, Btsw, Memory_, Gpr16);
    form!(o, r, n, Btsw, Gpr16, i8);
    form!(o, r, n, Btsw, Memory_, i8);
    form!(o, r, n, Btw, Gpr16, Gpr16);
    form!(o, r, n, Btw, Memory_, Gpr16);
    form!(o, r, n, Btw, Gpr16, i8);
    form!(o, r, n, Btw, Memory_, i8);
    form!(o, r, n, Callq, i32);
    form!(o, r, n, Callq, Gpr64);
    form!(o, r, n, Callq, Memory_);
    form!(o, r, n, Cbtw);
}
fn forms3(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Clc);
    form!(o, r, n, Cld);
    form!(o, r, n, Cli);
    form!(o, r, n, Cltd);
    form!(o, r, n, Cltq);
    form!(o, r, n, Clts);
    form!(o, r, n, Cmc);
    form!(o, r, n, Cmpb, Gpr8, Gpr8);
    form!(o, r, n, Cmpb, Gpr8, Memory_);
    form!(o, r, n, Cmpb, Memory_, Gpr8);
    form!(o, r, n, Cmpb, Gpr8, i8);
    form!(o, r, n, Cmpb, Memory_, i8);
    form!(o, r, n, Cmpb, _Al, i8);
    form!(o, r, n, Cmpl, Gpr32, Gpr32);
    form!(o, r, n, Cmpl, Gpr32, Memory_);
    form!(o, r, n, Cmpl, Memory_, Gpr32);
    form!(o, r, n, Cmpl, Gpr32, i8);
    form!(o, r, n, Cmpl, Memory_, i8);
    form!(o, r, n, Cmpl, Gpr32, i32);
    form!(o, r, n, Cmpl, Memory_, i32);
    form!(o, r, n, Cmpl, _Eax, i32);
    form!(o, r, n, Cmppd, Xmm, Xmm, i8);
    form!(o, r, n, Cmppd, Xmm, Memory_, i8);
    form!(o, r, n, Cmpps, Xmm, Xmm, i8);
    form!(o, r, n, Cmpps, Xmm, Memory_, i8);
    form!(o, r, n, Cmpq, Gpr64, Gpr64);
    form!(o, r, n, Cmpq, Gpr64, Memory_);
    form!(o, r, n, Cmpq, Memory_, Gpr64);
    form!(o, r, n, Cmpq, Gpr64, i8);
    form!(o, r, n, Cmpq, Memory_, i8);
    form!(o, r, n, Cmpq, Gpr64, i32);
    form!(o, r, n, Cmpq, Memory_, i32);
    form!(o, r, n, Cmpq, _Rax, i32);
    form!(o, r, n, Cmpsd, Xmm, Xmm, i8);
    form!(o, r, n, Cmpsd, Xmm, Memory_, i8);
    form!(o, r, n, Cmpsl);
    form!(o, r, n, Cmpss, Xmm, Xmm, i8);
    form!(o, r, n, Cmpss, Xmm, Memory_, i8);
    form!(o, r, n, Cmpw, Gpr16, Gpr16);
    form!(o, r, n, Cmpw, Gpr16, Memory_);
    form!(o, r, n, Cmpw, Memory_, Gpr16);
    form!(o, r, n, Cmpw, Gpr16, i8);
    form!(o, r, n, Cmpw, Memory_, i8);
    form!(o, r, n, Cmpw, Gpr16, i16);
    form!(o, r, n, Cmpw, Memory_, i16);
    form!(o, r, n, Cmpw, _Ax, i16);
    form!(o, r, n, Cmpxchgb, Gpr8, Gpr8);
    form!(o, r, n, Cmpxchgb, Memory_, Gpr8);
    form!(o, r, n, Cmpxchgl, Gpr32, Gpr32);
    form!(o, r, n, Cmpxchgl, Memory_, Gpr32);
    form!(o, r, n, Cmpxchgq, Gpr64, Gpr64);
    form!(o, r, n, Cmpxchgq, Memory_, Gpr64);
    form!(o, r, n, Cmpxchgw, Gpr16, Gpr16);
    form!(o, r, n, Cmpxchgw, Memory_, Gpr16);
    form!(o, r, n, Comisd, Xmm, Xmm);
    form!(o, r, n, Comisd, Xmm, Memory_);
    form!(o, r, n, Comiss, Xmm, Xmm);
    form!(o, r, n, Comiss, Xmm, Memory_);
    form!(o, r, n, Cpuid);
    form!(o, r, n, Cqto);
}
fn forms4(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Crc32b, Gpr32, Gpr8);
    form!(o, r, n, Crc32b, Gpr32, Memory_);
    form!(o, r, n, Crc32b, Gpr64, Gpr8);
    form!(o, r, n, Crc32b, Gpr64, Memory_);
    form!(o, r, n, Crc32l, Gpr32, Gpr32);
    form!(o, r, n, Crc32l, Gpr32, Memory_);
    form!(o, r, n, Crc32q, Gpr64, Gpr64);
    form!(o, r, n, Crc32q, Gpr64, Memory_);
    form!(o, r, n, Crc32w, Gpr32, Gpr16);
    form!(o, r, n, Crc32w, Gpr32, Memory_);
    form!(o, r, n, Cvtdq2pd, Xmm, Xmm);
    form!(o, r, n, Cvtdq2pd, Xmm, Memory_);
    form!(o, r, n, Cvtdq2ps, Xmm, Xmm);
    form!(o, r, n, Cvtdq2ps, Xmm, Memory_);
    form!(o, r, n, Cvtpd2dq, Xmm, Xmm);
    form!(o, r, n, Cvtpd2dq, Xmm, Memory_);
    form!(o, r, n, Cvtpd2ps, Xmm, Xmm);
    form!(o, r, n, Cvtpd2ps, Xmm, Memory_);
    form!(o, r, n, Cvtps2dq, Xmm, Xmm);
    form!(o, r, n, Cvtps2dq, Xmm, Memory_);
    form!(o, r, n, Cvtps2pd, Xmm, Xmm);
    form!(o, r, n, Cvtps2pd, Xmm, Memory_);
    form!(o, r, n, Cvtsd2si, Gpr32, Xmm);
    form!(o, r, n, Cvtsd2si, Gpr32, Memory_);
    form!(o, r, n, Cvtsd2si, Gpr64, Xmm);
    form!(o, r, n, Cvtsd2si, Gpr64, Memory_);
    form!(o, r, n, Cvtsd2ss, Xmm, Xmm);
    form!(o, r, n, Cvtsd2ss, Xmm, Memory_);
    form!(o, r, n, Cvtsi2sdl, Xmm, Gpr32);
    form!(o, r, n, Cvtsi2sdl, Xmm, Memory_);
    form!(o, r, n, Cvtsi2sdq, Xmm, Gpr64);
    form!(o, r, n, Cvtsi2sdq, Xmm, Memory_);
    form!(o, r, n, Cvtsi2ssl, Xmm, Gpr32);
    form!(o, r, n, Cvtsi2ssl, Xmm, Memory_);
    form!(o, r, n, Cvtsi2ssq, Xmm, Gpr64);
    form!(o, r, n, Cvtsi2ssq, Xmm, Memory_);
    form!(o, r, n, Cvtss2sd, Xmm, Xmm);
    form!(o, r, n, Cvtss2sd, Xmm, Memory_);
    form!(o, r, n, Cvtss2si, Gpr32, Xmm);
    form!(o, r, n, Cvtss2si, Gpr32, Memory_);
    form!(o, r, n, Cvtss2si, Gpr64, Xmm);
    form!(o, r, n, Cvtss2si, Gpr64, Memory_);
    form!(o, r, n, Cvttpd2dq, Xmm, Xmm);
    form!(o, r, n, Cvttpd2dq, Xmm, Memory_);
    form!(o, r, n, Cvttps2dq, Xmm, Xmm);
    form!(o, r, n, Cvttps2dq, Xmm, Memory_);
    form!(o, r, n, Cvttsd2si, Gpr32, Xmm);
    form!(o, r, n, Cvttsd2si, Gpr32, Memory_);
    form!(o, r, n, Cvttsd2si, Gpr64, Xmm);
    form!(o, r, n, Cvttsd2si, Gpr64, Memory_);
    form!(o, r, n, Cvttss2si, Gpr32, Xmm);
    form!(o, r, n, Cvttss2si, Gpr32, Memory_);
    form!(o, r, n, Cvttss2si, Gpr64, Xmm);
    form!(o, r, n, Cvttss2si, Gpr64, Memory_);
    form!(o, r, n, Cwtd);
    form!(o, r, n, Cwtl);
    form!(o, r, n, Decb, Gpr8);
    form!(o, r, n, Decb, Memory_);
    form!(o, r, n, Decl, Gpr32);
    form!(o, r, n, Decl, Memory_);
}
fn forms5(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Decq, Gpr64);
    form!(o, r, n, Decq, Memory_);
    form!(o, r, n, Decw, Gpr16);
    form!(o, r, n, Decw, Memory_);
    form!(o, r, n, Divb, Gpr8);
    form!(o, r, n, Divb, Memory_);
    form!(o, r, n, Divl, Gpr32);
    form!(o, r, n, Divl, Memory_);
    form!(o, r, n, Divpd, Xmm, Xmm);
    form!(o, r, n, Divpd, Xmm, Memory_);
    form!(o, r, n, Divps, Xmm, Xmm);
    form!(o, r, n, Divps, Xmm, Memory_);
    form!(o, r, n, Divq, Gpr64);
    form!(o, r, n, Divq, Memory_);
    form!(o, r, n, Divsd, Xmm, Xmm);
    form!(o, r, n, Divsd, Xmm, Memory_);
    form!(o, r, n, Divss, Xmm, Xmm);
    form!(o, r, n, Divss, Xmm, Memory_);
    form!(o, r, n, Divw, Gpr16);
    form!(o, r, n, Divw, Memory_);
    form!(o, r, n, Dppd, Xmm, Xmm, i8);
    form!(o, r, n, Dppd, Xmm, Memory_, i8);
    form!(o, r, n, Dpps, Xmm, Xmm, i8);
    form!(o, r, n, Dpps, Xmm, Memory_, i8);
    form!(o, r, n, Emms);
    form!(o, r, n, Extractps, Gpr64, Xmm, i8);
    form!(o, r, n, Extractps, Memory_, Xmm, i8);
    form!(o, r, n, Hlt);
    form!(o, r, n, Idivb, Gpr8);
    form!(o, r, n, Idivb, Memory_);
    form!(o, r, n, Idivl, Gpr32);
    form!(o, r, n, Idivl, Memory_);
    form!(o, r, n, Idivq, Gpr64);
    form!(o, r, n, Idivq, Memory_);
    form!(o, r, n, Idivw, Gpr16);
    form!(o, r, n, Idivw, Memory_);
    form!(o, r, n, Imulb, Gpr8);
    form!(o, r, n, Imulb, Memory_);
    form!(o, r, n, Imull, Gpr32, Gpr32, i8);
    form!(o, r, n, Imull, Gpr32, Memory_, i8);
    form!(o, r, n, Imull, Gpr32, Gpr32, i32);
    form!(o, r, n, Imull, Gpr32, Memory_, i32);
    form!(o, r, n, Imull1, Gpr32);
    form!(o, r, n, Imull1, Memory_);
    form!(o, r, n, Imull2, Gpr32, Gpr32);
    form!(o, r, n, Imull2, Gpr32, Memory_);
    form!(o, r, n, Imulq, Gpr64, Gpr64, i8);
    form!(o, r, n, Imulq, Gpr64, Memory_, i8);
    form!(o, r, n, Imulq, Gpr64, Gpr64, i32);
    form!(o, r, n, Imulq, Gpr64, Memory_, i32);
    form!(o, r, n, Imulq1, Gpr64);
    form!(o, r, n, Imulq1, Memory_);
    form!(o, r, n, Imulq2, Gpr64, Gpr64);
    form!(o, r, n, Imulq2, Gpr64, Memory_);
    form!(o, r, n, Imulw, Gpr16, Gpr16, i8);
    form!(o, r, n, Imulw, Gpr16, Memory_, i8);
    form!(o, r, n, Imulw, Gpr16, Gpr16, i16);
    form!(o, r, n, Imulw, Gpr16, Memory_, i16);
    form!(o, r, n, Imulw1, Gpr16);
    form!(o, r, n, Imulw1, Memory_);
}
fn forms6(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Imulw2, Gpr16, Gpr16);
    form!(o, r, n, Imulw2, Gpr16, Memory_);
    form!(o, r, n, Inb, _Al, i8);
    form!(o, r, n, Inb, _Al, _Dx);
    form!(o, r, n, Incb, Gpr8);
    form!(o, r, n, Incb, Memory_);
    form!(o, r, n, Incl, Gpr32);
    form!(o, r, n, Incl, Memory_);
    form!(o, r, n, Incq, Gpr64);
    form!(o, r, n, Incq, Memory_);
    form!(o, r, n, Incw, Gpr16);
    form!(o, r, n, Incw, Memory_);
    form!(o, r, n, Inl, _Eax, i8);
    form!(o, r, n, Inl, _Eax, _Dx);
    form!(o, r, n, Insertps, Xmm, Xmm, i8);
    form!(o, r, n, Insertps, Xmm, Memory_, i8);
    form!(o, r, n, Int, i8);
    form!(o, r, n, Int, _3);
    form!(o, r, n, Invd);
    form!(o, r, n, Invlpg, Memory_);
    form!(o, r, n, Inw, _Ax, i8);
    form!(o, r, n, Inw, _Ax, _Dx);
    form!(o, r, n, Iretl);
    form!(o, r, n, Iretq);
    form!(o, r, n, Iretw);
    form!(o, r, n, Ja, i8);
    form!(o, r, n, Ja, i32);
    form!(o, r, n, Jae, i8);
    form!(o, r, n, Jae, i32);
    form!(o, r, n, Jb, i8);
    form!(o, r, n, Jb, i32);
    form!(o, r, n, Jbe, i8);
    form!(o, r, n, Jbe, i32);
    form!(o, r, n, Jc, i8);
    form!(o, r, n, Jc, i32);
    form!(o, r, n, Je, i8);
    form!(o, r, n, Je, i32);
    form!(o, r, n, Jecxz, i8);
    form!(o, r, n, Jg, i8);
    form!(o, r, n, Jg, i32);
    form!(o, r, n, Jge, i8);
    form!(o, r, n, Jge, i32);
    form!(o, r, n, Jl, i8);
    form!(o, r, n, Jl, i32);
    form!(o, r, n, Jle, i8);
    form!(o, r, n, Jle, i32);
    form!(o, r, n, Jmpq, i8);
    form!(o, r, n, Jmpq, i32);
    form!(o, r, n, Jmpq, Gpr64);
    form!(o, r, n, Jmpq, Memory_);
    form!(o, r, n, Jna, i8);
    form!(o, r, n, Jna, i32);
    form!(o, r, n, Jnae, i8);
    form!(o, r, n, Jnae, i32);
    form!(o, r, n, Jnb, i8);
    form!(o, r, n, Jnb, i32);
    form!(o, r, n, Jnbe, i8);
    form!(o, r, n, Jnbe, i32);
    form!(o, r, n, Jnc, i8);
    form!(o, r, n, Jnc, i32);
}
fn forms7(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Jne, i8);
    form!(o, r, n, Jne, i32);
    form!(o, r, n, Jng, i8);
    form!(o, r, n, Jng, i32);
    form!(o, r, n, Jnge, i8);
    form!(o, r, n, Jnge, i32);
    form!(o, r, n, Jnl, i8);
    form!(o, r, n, Jnl, i32);
    form!(o, r, n, Jnle, i8);
    form!(o, r, n, Jnle, i32);
    form!(o, r, n, Jno, i8);
    form!(o, r, n, Jno, i32);
    form!(o, r, n, Jnp, i8);
    form!(o, r, n, Jnp, i32);
    form!(o, r, n, Jns, i8);
    form!(o, r, n, Jns, i32);
    form!(o, r, n, Jnz, i8);
    form!(o, r, n, Jnz, i32);
    form!(o, r, n, Jo, i8);
    form!(o, r, n, Jo, i32);
    form!(o, r, n, Jp, i8);
    form!(o, r, n, Jp, i32);
    form!(o, r, n, Jpe, i8);
    form!(o, r, n, Jpe, i32);
    form!(o, r, n, Jpo, i8);
    form!(o, r, n, Jpo, i32);
    form!(o, r, n, Jrcxz, i8);
    form!(o, r, n, Js, i8);
    form!(o, r, n, Js, i32);
    form!(o, r, n, Jz, i8);
    form!(o, r, n, Jz, i32);
    form!(o, r, n, Ldmxcsr, Memory_);
    form!(o, r, n, Leal, Gpr32, Memory_);
    form!(o, r, n, Leaq, Gpr64, Memory_);
    form!(o, r, n, Leaveq);
    form!(o, r, n, Leavew);
    form!(o, r, n, Leaw, Gpr16, Memory_);
    form!(o, r, n, Lfence);
    form!(o, r, n, Lmsw, Gpr16);
    form!(o, r, n, Lmsw, Memory_);
    form!(o, r, n, Lock);
    form!(o, r, n, Maskmovdqu, Xmm, Xmm);
    form!(o, r, n, Maxpd, Xmm, Xmm);
    form!(o, r, n, Maxpd, Xmm, Memory_);
    form!(o, r, n, Maxps, Xmm, Xmm);
    form!(o, r, n, Maxps, Xmm, Memory_);
    form!(o, r, n, Maxsd, Xmm, Xmm);
    form!(o, r, n, Maxsd, Xmm, Memory_);
    form!(o, r, n, Maxss, Xmm, Xmm);
    form!(o, r, n, Maxss, Xmm, Memory_);
    form!(o, r, n, Mfence);
    form!(o, r, n, Minpd, Xmm, Xmm);
    form!(o, r, n, Minpd, Xmm, Memory_);
    form!(o, r, n, Minps, Xmm, Xmm);
    form!(o, r, n, Minps, Xmm, Memory_);
    form!(o, r, n, Minsd, Xmm, Xmm);
    form!(o, r, n, Minsd, Xmm, Memory_);
    form!(o, r, n, Minss, Xmm, Xmm);
    form!(o, r, n, Minss, Xmm, Memory_);
    form!(o, r, n, Movapd, Xmm, Xmm);
}
fn forms8(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Movapd, Xmm, Memory_);
    form!(o, r, n, Movapd, Memory_, Xmm);
    form!(o, r, n, Movaps, Xmm, Xmm);
    form!(o, r, n, Movaps, Xmm, Memory_);
    form!(o, r, n, Movaps, Memory_, Xmm);
    form!(o, r, n, Movb, Gpr8, i8);
    form!(o, r, n, Movb, Gpr8, Gpr8);
    form!(o, r, n, Movb, Gpr8, Memory_);
    form!(o, r, n, Movb, Memory_, Gpr8);
    form!(o, r, n, Movb, Memory_, i8);
    form!(o, r, n, Movd, Gpr32, Xmm);
    form!(o, r, n, Movd, Memory_, Xmm);
    form!(o, r, n, Movd, Xmm, Gpr32);
    form!(o, r, n, Movd, Xmm, Memory_);
    form!(o, r, n, Movdqa, Xmm, Xmm);
    form!(o, r, n, Movdqa, Xmm, Memory_);
    form!(o, r, n, Movdqa, Memory_, Xmm);
    form!(o, r, n, Movdqu, Xmm, Xmm);
    form!(o, r, n, Movdqu, Xmm, Memory_);
    form!(o, r, n, Movdqu, Memory_, Xmm);
    form!(o, r, n, Movhlps, Xmm, Xmm);
    form!(o, r, n, Movhpd, Memory_, Xmm);
    form!(o, r, n, Movhpd, Xmm, Memory_);
    form!(o, r, n, Movhps, Memory_, Xmm);
    form!(o, r, n, Movhps, Xmm, Memory_);
    form!(o, r, n, Movl, Gpr32, i32);
    form!(o, r, n, Movl, Gpr32, Gpr32);
    form!(o, r, n, Movl, Gpr32, Memory_);
    form!(o, r, n, Movl, Memory_, Gpr32);
    form!(o, r, n, Movl, Memory_, i32);
    form!(o, r, n, Movlhps, Xmm, Xmm);
    form!(o, r, n, Movlpd, Memory_, Xmm);
    form!(o, r, n, Movlpd, Xmm, Memory_);
    form!(o, r, n, Movlps, Memory_, Xmm);
    form!(o, r, n, Movlps, Xmm, Memory_);
    form!(o, r, n, Movmskpd, Gpr64, Xmm);
    form!(o, r, n, Movmskps, Gpr64, Xmm);
    form!(o, r, n, Movntdq, Memory_, Xmm);
    form!(o, r, n, Movntdqa, Xmm, Memory_);
    form!(o, r, n, Movnti, Memory_, Gpr32);
    form!(o, r, n, Movnti, Memory_, Gpr64);
    form!(o, r, n, Movntpd, Memory_, Xmm);
    form!(o, r, n, Movntps, Memory_, Xmm);
    form!(o, r, n, Movq, Gpr64, i64);
    form!(o, r, n, Movq, Gpr64, Gpr64);
    form!(o, r, n, Movq, Gpr64, Memory_);
    form!(o, r, n, Movq, Memory_, Gpr64);
    form!(o, r, n, Movq, Gpr64, i32);
    form!(o, r, n, Movq, Memory_, i32);
    form!(o, r, n, Movq, Gpr64, Xmm);
    form!(o, r, n, Movq, Memory_, Xmm);
    form!(o, r, n, Movq, Xmm, Gpr64);
    form!(o, r, n, Movq, Xmm, Memory_);
    form!(o, r, n, Movq, Xmm, Xmm);
    form!(o, r, n, Movsbl, Gpr32, Gpr8);
    form!(o, r, n, Movsbl, Gpr32, Memory_);
    form!(o, r, n, Movsbq, Gpr64, Gpr8);
    form!(o, r, n, Movsbq, Gpr64, Memory_);
    form!(o, r, n, Movsbw, Gpr16, Gpr8);
    form!(o, r, n, Movsbw, Gpr16, Memory_);
}
fn forms9(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Movsd, Xmm, Xmm);
    form!(o, r, n, Movsd, Xmm, Memory_);
    form!(o, r, n, Movsd, Memory_, Xmm);
    form!(o, r, n, Movsl);
    form!(o, r, n, Movslq, Gpr64, Gpr32);
    form!(o, r, n, Movslq, Gpr64, Memory_);
    form!(o, r, n, Movss, Xmm, Xmm);
    form!(o, r, n, Movss, Xmm, Memory_);
    form!(o, r, n, Movss, Memory_, Xmm);
    form!(o, r, n, Movswl, Gpr32, Gpr16);
    form!(o, r, n, Movswl, Gpr32, Memory_);
    form!(o, r, n, Movswq, Gpr64, Gpr16);
    form!(o, r, n, Movswq, Gpr64, Memory_);
    form!(o, r, n, Movupd, Xmm, Xmm);
    form!(o, r, n, Movupd, Xmm, Memory_);
    form!(o, r, n, Movupd, Memory_, Xmm);
    form!(o, r, n, Movups, Xmm, Xmm);
    form!(o, r, n, Movups, Xmm, Memory_);
    form!(o, r, n, Movups, Memory_, Xmm);
    form!(o, r, n, Movw, Gpr16, i16);
    form!(o, r, n, Movw, Gpr16, Gpr16);
    form!(o, r, n, Movw, Gpr16, Memory_);
    form!(o, r, n, Movw, Memory_, Gpr16);
    form!(o, r, n, Movw, Memory_, i16);
    form!(o, r, n, Movzbl, Gpr32, Gpr8);
    form!(o, r, n, Movzbl, Gpr32, Memory_);
    form!(o, r, n, Movzbq, Gpr64, Gpr8);
    form!(o, r, n, Movzbq, Gpr64, Memory_);
    form!(o, r, n, Movzbw, Gpr16, Gpr8);
    form!(o, r, n, Movzbw, Gpr16, Memory_);
    form!(o, r, n, Movzwl, Gpr32, Gpr16);
    form!(o, r, n, Movzwl, Gpr32, Memory_);
    form!(o, r, n, Movzwq, Gpr64, Gpr16);
    form!(o, r, n, Movzwq, Gpr64, Memory_);
    form!(o, r, n, Mpsadbw, Xmm, Xmm, i8);
    form!(o, r, n, Mpsadbw, Xmm, Memory_, i8);
    form!(o, r, n, Mulb, Gpr8);
    form!(o, r, n, Mulb, Memory_);
    form!(o, r, n, Mull, Gpr32);
    form!(o, r, n, Mull, Memory_);
    form!(o, r, n, Mulpd, Xmm, Xmm);
    form!(o, r, n, Mulpd, Xmm, Memory_);
    form!(o, r, n, Mulps, Xmm, Xmm);
    form!(o, r, n, Mulps, Xmm, Memory_);
    form!(o, r, n, Mulq, Gpr64);
    form!(o, r, n, Mulq, Memory_);
    form!(o, r, n, Mulsd, Xmm, Xmm);
    form!(o, r, n, Mulsd, Xmm, Memory_);
    form!(o, r, n, Mulss, Xmm, Xmm);
    form!(o, r, n, Mulss, Xmm, Memory_);
    form!(o, r, n, Mulw, Gpr16);
    form!(o, r, n, Mulw, Memory_);
    form!(o, r, n, Negb, Gpr8);
    form!(o, r, n, Negb, Memory_);
    form!(o, r, n, Negl, Gpr32);
    form!(o, r, n, Negl, Memory_);
    form!(o, r, n, Negq, Gpr64);
    form!(o, r, n, Negq, Memory_);
    form!(o, r, n, Negw, Gpr16);
    form!(o, r, n, Negw, Memory_);
}
fn forms10(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Nop);
    form!(o, r, n, Notb, Gpr8);
    form!(o, r, n, Notb, Memory_);
    form!(o, r, n, Notl, Gpr32);
    form!(o, r, n, Notl, Memory_);
    form!(o, r, n, Notq, Gpr64);
    form!(o, r, n, Notq, Memory_);
    form!(o, r, n, Notw, Gpr16);
    form!(o, r, n, Notw, Memory_);
    form!(o, r, n, Orb, Gpr8, Gpr8);
    form!(o, r, n, Orb, Gpr8, Memory_);
    form!(o, r, n, Orb, Memory_, Gpr8);
    form!(o, r, n, Orb, Gpr8, i8);
    form!(o, r, n, Orb, Memory_, i8);
    form!(o, r, n, Orb, _Al, i8);
    form!(o, r, n, Orl, Gpr32, Gpr32);
    form!(o, r, n, Orl, Gpr32, Memory_);
    form!(o, r, n, Orl, Memory_, Gpr32);
    form!(o, r, n, Orl, Gpr32, i8);
    form!(o, r, n, Orl, Memory_, i8);
    form!(o, r, n, Orl, Gpr32, i32);
    form!(o, r, n, Orl, Memory_, i32);
    form!(o, r, n, Orl, _Eax, i32);
    form!(o, r, n, Orpd, Xmm, Xmm);
    form!(o, r, n, Orpd, Xmm, Memory_);
    form!(o, r, n, Orps, Xmm, Xmm);
    form!(o, r, n, Orps, Xmm, Memory_);
    form!(o, r, n, Orq, Gpr64, Gpr64);
    form!(o, r, n, Orq, Gpr64, Memory_);
    form!(o, r, n, Orq, Memory_, Gpr64);
    form!(o, r, n, Orq, Gpr64, i8);
    form!(o, r, n, Orq, Memory_, i8);
    form!(o, r, n, Orq, Gpr64, i32);
    form!(o, r, n, Orq, Memory_, i32);
    form!(o, r, n, Orq, _Rax, i32);
    form!(o, r, n, Orw, Gpr16, Gpr16);
    form!(o, r, n, Orw, Gpr16, Memory_);
    form!(o, r, n, Orw, Memory_, Gpr16);
    form!(o, r, n, Orw, Gpr16, i8);
    form!(o, r, n, Orw, Memory_, i8);
    form!(o, r, n, Orw, Gpr16, i16);
    form!(o, r, n, Orw, Memory_, i16);
    form!(o, r, n, Orw, _Ax, i16);
    form!(o, r, n, Outb, i8, _Al);
    form!(o, r, n, Outb, _Dx, _Al);
    form!(o, r, n, Outl, i8, _Eax);
    form!(o, r, n, Outl, _Dx, _Eax);
    form!(o, r, n, Outw, i8, _Ax);
    form!(o, r, n, Outw, _Dx, _Ax);
    form!(o, r, n, Packssdw, Xmm, Xmm);
    form!(o, r, n, Packssdw, Xmm, Memory_);
    form!(o, r, n, Packsswb, Xmm, Xmm);
    form!(o, r, n, Packsswb, Xmm, Memory_);
    form!(o, r, n, Packusdw, Xmm, Xmm);
    form!(o, r, n, Packusdw, Xmm, Memory_);
    form!(o, r, n, Packuswb, Xmm, Xmm);
    form!(o, r, n, Packuswb, Xmm, Memory_);
    form!(o, r, n, Paddb, Xmm, Xmm);
    form!(o, r, n, Paddb, Xmm, Memory_);
    form!(o, r, n, Paddd, Xmm, Xmm);
}
fn forms11(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Paddd, Xmm, Memory_);
    form!(o, r, n, Paddq, Xmm, Xmm);
    form!(o, r, n, Paddq, Xmm, Memory_);
    form!(o, r, n, Paddsb, Xmm, Xmm);
    form!(o, r, n, Paddsb, Xmm, Memory_);
    form!(o, r, n, Paddsw, Xmm, Xmm);
    form!(o, r, n, Paddsw, Xmm, Memory_);
    form!(o, r, n, Paddusb, Xmm, Xmm);
    form!(o, r, n, Paddusb, Xmm, Memory_);
    form!(o, r, n, Paddusw, Xmm, Xmm);
    form!(o, r, n, Paddusw, Xmm, Memory_);
    form!(o, r, n, Paddw, Xmm, Xmm);
    form!(o, r, n, Paddw, Xmm, Memory_);
    form!(o, r, n, Pand, Xmm, Xmm);
    form!(o, r, n, Pand, Xmm, Memory_);
    form!(o, r, n, Pandn, Xmm, Xmm);
    form!(o, r, n, Pandn, Xmm, Memory_);
    form!(o, r, n, Pause);
    form!(o, r, n, Pavgb, Xmm, Xmm);
    form!(o, r, n, Pavgb, Xmm, Memory_);
    form!(o, r, n, Pavgw, Xmm, Xmm);
    form!(o, r, n, Pavgw, Xmm, Memory_);
    form!(o, r, n, Pblendvb, Xmm, Xmm, _Xmm0);
    form!(o, r, n, Pblendvb, Xmm, Memory_, _Xmm0);
    form!(o, r, n, Pblendw, Xmm, Xmm, i8);
    form!(o, r, n, Pblendw, Xmm, Memory_, i8);
    form!(o, r, n, Pcmpeqb, Xmm, Xmm);
    form!(o, r, n, Pcmpeqb, Xmm, Memory_);
    form!(o, r, n, Pcmpeqd, Xmm, Xmm);
    form!(o, r, n, Pcmpeqd, Xmm, Memory_);
    form!(o, r, n, Pcmpeqq, Xmm, Xmm);
    form!(o, r, n, Pcmpeqq, Xmm, Memory_);
    form!(o, r, n, Pcmpeqw, Xmm, Xmm);
    form!(o, r, n, Pcmpeqw, Xmm, Memory_);
    form!(o, r, n, Pcmpestri, Xmm, Xmm, i8);
    form!(o, r, n, Pcmpestri, Xmm, Memory_, i8);
    form!(o, r, n, Pcmpestrm, Xmm, Xmm, i8);
    form!(o, r, n, Pcmpestrm, Xmm, Memory_, i8);
    form!(o, r, n, Pcmpgtb, Xmm, Xmm);
    form!(o, r, n, Pcmpgtb, Xmm, Memory_);
    form!(o, r, n, Pcmpgtd, Xmm, Xmm);
    form!(o, r, n, Pcmpgtd, Xmm, Memory_);
    form!(o, r, n, Pcmpgtq, Xmm, Xmm);
    form!(o, r, n, Pcmpgtq, Xmm, Memory_);
    form!(o, r, n, Pcmpgtw, Xmm, Xmm);
    form!(o, r, n, Pcmpgtw, Xmm, Memory_);
    form!(o, r, n, Pcmpistri, Xmm, Xmm, i8);
    form!(o, r, n, Pcmpistri, Xmm, Memory_, i8);
    form!(o, r, n, Pcmpistrm, Xmm, Xmm, i8);
    form!(o, r, n, Pcmpistrm, Xmm, Memory_, i8);
    form!(o, r, n, Pextrb, Gpr64, Xmm, i8);
    form!(o, r, n, Pextrb, Memory_, Xmm, i8);
    form!(o, r, n, Pextrd, Gpr32, Xmm, i8);
    form!(o, r, n, Pextrd, Memory_, Xmm, i8);
    form!(o, r, n, Pextrq, Gpr64, Xmm, i8);
    form!(o, r, n, Pextrq, Memory_, Xmm, i8);
    form!(o, r, n, Pextrw, Gpr64, Xmm, i8);
    form!(o, r, n, Pextrw, Memory_, Xmm, i8);
    form!(o, r, n, Phminposuw, Xmm, Xmm);
    form!(o, r, n, Phminposuw, Xmm, Memory_);
}
fn forms12(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Pinsrb, Xmm, Gpr32, i8);
    form!(o, r, n, Pinsrb, Xmm, Memory_, i8);
    form!(o, r, n, Pinsrd, Xmm, Gpr32, i8);
    form!(o, r, n, Pinsrd, Xmm, Memory_, i8);
    form!(o, r, n, Pinsrw, Xmm, Gpr32, i8);
    form!(o, r, n, Pinsrw, Xmm, Memory_, i8);
    form!(o, r, n, Pmaddwd, Xmm, Xmm);
    form!(o, r, n, Pmaddwd, Xmm, Memory_);
    form!(o, r, n, Pmaxsb, Xmm, Xmm);
    form!(o, r, n, Pmaxsb, Xmm, Memory_);
    form!(o, r, n, Pmaxsd, Xmm, Xmm);
    form!(o, r, n, Pmaxsd, Xmm, Memory_);
    form!(o, r, n, Pmaxsw, Xmm, Xmm);
    form!(o, r, n, Pmaxsw, Xmm, Memory_);
    form!(o, r, n, Pmaxub, Xmm, Xmm);
    form!(o, r, n, Pmaxub, Xmm, Memory_);
    form!(o, r, n, Pmaxud, Xmm, Xmm);
    form!(o, r, n, Pmaxud, Xmm, Memory_);
    form!(o, r, n, Pmaxuw, Xmm, Xmm);
    form!(o, r, n, Pmaxuw, Xmm, Memory_);
    form!(o, r, n, Pminsb, Xmm, Xmm);
    form!(o, r, n, Pminsb, Xmm, Memory_);
    form!(o, r, n, Pminsd, Xmm, Xmm);
    form!(o, r, n, Pminsd, Xmm, Memory_);
    form!(o, r, n, Pminsw, Xmm, Xmm);
    form!(o, r, n, Pminsw, Xmm, Memory_);
    form!(o, r, n, Pminub, Xmm, Xmm);
    form!(o, r, n, Pminub, Xmm, Memory_);
    form!(o, r, n, Pminud, Xmm, Xmm);
    form!(o, r, n, Pminud, Xmm, Memory_);
    form!(o, r, n, Pminuw, Xmm, Xmm);
    form!(o, r, n, Pminuw, Xmm, Memory_);
    form!(o, r, n, Pmovmskb, Gpr64, Xmm);
    form!(o, r, n, Pmovsxbd, Xmm, Xmm);
    form!(o, r, n, Pmovsxbd, Xmm, Memory_);
    form!(o, r, n, Pmovsxbq, Xmm, Xmm);
    form!(o, r, n, Pmovsxbq, Xmm, Memory_);
    form!(o, r, n, Pmovsxbw, Xmm, Xmm);
    form!(o, r, n, Pmovsxbw, Xmm, Memory_);
    form!(o, r, n, Pmovsxdq, Xmm, Xmm);
    form!(o, r, n, Pmovsxdq, Xmm, Memory_);
    form!(o, r, n, Pmovsxwd, Xmm, Xmm);
    form!(o, r, n, Pmovsxwd, Xmm, Memory_);
    form!(o, r, n, Pmovsxwq, Xmm, Xmm);
    form!(o, r, n, Pmovsxwq, Xmm, Memory_);
    form!(o, r, n, Pmovzxbd, Xmm, Xmm);
    form!(o, r, n, Pmovzxbd, Xmm, Memory_);
    form!(o, r, n, Pmovzxbq, Xmm, Xmm);
    form!(o, r, n, Pmovzxbq, Xmm, Memory_);
    form!(o, r, n, Pmovzxbw, Xmm, Xmm);
    form!(o, r, n, Pmovzxbw, Xmm, Memory_);
    form!(o, r, n, Pmovzxdq, Xmm, Xmm);
    form!(o, r, n, Pmovzxdq, Xmm, Memory_);
    form!(o, r, n, Pmovzxwd, Xmm, Xmm);
    form!(o, r, n, Pmovzxwd, Xmm, Memory_);
    form!(o, r, n, Pmovzxwq, Xmm, Xmm);
    form!(o, r, n, Pmovzxwq, Xmm, Memory_);
    form!(o, r, n, Pmuldq, Xmm, Xmm);
    form!(o, r, n, Pmuldq, Xmm, Memory_);
    form!(o, r, n, Pmulhuw, Xmm, Xmm);
}
fn forms13(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Pmulhuw, Xmm, Memory_);
    form!(o, r, n, Pmulhw, Xmm, Xmm);
    form!(o, r, n, Pmulhw, Xmm, Memory_);
    form!(o, r, n, Pmulld, Xmm, Xmm);
    form!(o, r, n, Pmulld, Xmm, Memory_);
    form!(o, r, n, Pmullw, Xmm, Xmm);
    form!(o, r, n, Pmullw, Xmm, Memory_);
    form!(o, r, n, Pmuludq, Xmm, Xmm);
    form!(o, r, n, Pmuludq, Xmm, Memory_);
    form!(o, r, n, Popcntl, Gpr32, Gpr32);
    form!(o, r, n, Popcntl, Gpr32, Memory_);
    form!(o, r, n, Popcntq, Gpr64, Gpr64);
    form!(o, r, n, Popcntq, Gpr64, Memory_);
    form!(o, r, n, Popcntw, Gpr16, Gpr16);
    form!(o, r, n, Popcntw, Gpr16, Memory_);
    form!(o, r, n, Popfq);
    form!(o, r, n, Popfw);
    form!(o, r, n, Popq, Gpr64);
    form!(o, r, n, Popq, Memory_);
    form!(o, r, n, Popw, Gpr16);
    form!(o, r, n, Popw, Memory_);
    form!(o, r, n, Por, Xmm, Xmm);
    form!(o, r, n, Por, Xmm, Memory_);
    form!(o, r, n, Psadbw, Xmm, Xmm);
    form!(o, r, n, Psadbw, Xmm, Memory_);
    form!(o, r, n, Pshufd, Xmm, Xmm, i8);
    form!(o, r, n, Pshufd, Xmm, Memory_, i8);
    form!(o, r, n, Pshufhw, Xmm, Xmm, i8);
    form!(o, r, n, Pshufhw, Xmm, Memory_, i8);
    form!(o, r, n, Pshuflw, Xmm, Xmm, i8);
    form!(o, r, n, Pshuflw, Xmm, Memory_, i8);
    form!(o, r, n, Pslld, Xmm, i8);
    form!(o, r, n, Pslld, Xmm, Xmm);
    form!(o, r, n, Pslld, Xmm, Memory_);
    form!(o, r, n, Pslldq, Xmm, i8);
    form!(o, r, n, Psllq, Xmm, i8);
    form!(o, r, n, Psllq, Xmm, Xmm);
    form!(o, r, n, Psllq, Xmm, Memory_);
    form!(o, r, n, Psllw, Xmm, i8);
    form!(o, r, n, Psllw, Xmm, Xmm);
    form!(o, r, n, Psllw, Xmm, Memory_);
    form!(o, r, n, Psrad, Xmm, i8);
    form!(o, r, n, Psrad, Xmm, Xmm);
    form!(o, r, n, Psrad, Xmm, Memory_);
    form!(o, r, n, Psraw, Xmm, i8);
    form!(o, r, n, Psraw, Xmm, Xmm);
    form!(o, r, n, Psraw, Xmm, Memory_);
    form!(o, r, n, Psrld, Xmm, i8);
    form!(o, r, n, Psrld, Xmm, Xmm);
    form!(o, r, n, Psrld, Xmm, Memory_);
    form!(o, r, n, Psrldq, Xmm, i8);
    form!(o, r, n, Psrlq, Xmm, i8);
    form!(o, r, n, Psrlq, Xmm, Xmm);
    form!(o, r, n, Psrlq, Xmm, Memory_);
    form!(o, r, n, Psrlw, Xmm, i8);
    form!(o, r, n, Psrlw, Xmm, Xmm);
    form!(o, r, n, Psrlw, Xmm, Memory_);
    form!(o, r, n, Psubb, Xmm, Xmm);
    form!(o, r, n, Psubb, Xmm, Memory_);
    form!(o, r, n, Psubd, Xmm, Xmm);
}
fn forms14(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Psubd, Xmm, Memory_);
    form!(o, r, n, Psubq, Xmm, Xmm);
    form!(o, r, n, Psubq, Xmm, Memory_);
    form!(o, r, n, Psubsb, Xmm, Xmm);
    form!(o, r, n, Psubsb, Xmm, Memory_);
    form!(o, r, n, Psubsw, Xmm, Xmm);
    form!(o, r, n, Psubsw, Xmm, Memory_);
    form!(o, r, n, Psubusb, Xmm, Xmm);
    form!(o, r, n, Psubusb, Xmm, Memory_);
    form!(o, r, n, Psubusw, Xmm, Xmm);
    form!(o, r, n, Psubusw, Xmm, Memory_);
    form!(o, r, n, Psubw, Xmm, Xmm);
    form!(o, r, n, Psubw, Xmm, Memory_);
    form!(o, r, n, Ptest, Xmm, Xmm);
    form!(o, r, n, Ptest, Xmm, Memory_);
    form!(o, r, n, Punpckhbw, Xmm, Xmm);
    form!(o, r, n, Punpckhbw, Xmm, Memory_);
    form!(o, r, n, Punpckhdq, Xmm, Xmm);
    form!(o, r, n, Punpckhdq, Xmm, Memory_);
    form!(o, r, n, Punpckhqdq, Xmm, Xmm);
    form!(o, r, n, Punpckhqdq, Xmm, Memory_);
    form!(o, r, n, Punpckhwd, Xmm, Xmm);
    form!(o, r, n, Punpckhwd, Xmm, Memory_);
    form!(o, r, n, Punpcklbw, Xmm, Xmm);
    form!(o, r, n, Punpcklbw, Xmm, Memory_);
    form!(o, r, n, Punpckldq, Xmm, Xmm);
    form!(o, r, n, Punpckldq, Xmm, Memory_);
    form!(o, r, n, Punpcklqdq, Xmm, Xmm);
    form!(o, r, n, Punpcklqdq, Xmm, Memory_);
    form!(o, r, n, Punpcklwd, Xmm, Xmm);
    form!(o, r, n, Punpcklwd, Xmm, Memory_);
    form!(o, r, n, Pushfq);
    form!(o, r, n, Pushfw);
    form!(o, r, n, Pushq, Gpr64);
    form!(o, r, n, Pushq, i8);
    form!(o, r, n, Pushq, i16);
    form!(o, r, n, Pushq, i32);
    form!(o, r, n, Pushq, Memory_);
    form!(o, r, n, Pushw, Gpr16);
    form!(o, r, n, Pushw, Memory_);
    form!(o, r, n, Pxor, Xmm, Xmm);
    form!(o, r, n, Pxor, Xmm, Memory_);
    form!(o, r, n, Rclb, Gpr8, i8);
    form!(o, r, n, Rclb, Memory_, i8);
    form!(o, r, n, Rclb, Gpr8, _1);
    form!(o, r, n, Rclb, Memory_, _1);
    form!(o, r, n, Rclb, Gpr8, _Cl);
    form!(o, r, n, Rclb, Memory_, _Cl);
    form!(o, r, n, Rcll, Gpr32, i8);
    form!(o, r, n, Rcll, Memory_, i8);
    form!(o, r, n, Rcll, Gpr32, _1);
    form!(o, r, n, Rcll, Memory_, _1);
    form!(o, r, n, Rcll, Gpr32, _Cl);
    form!(o, r, n, Rcll, Memory_, _Cl);
    form!(o, r, n, Rclq, Gpr64, i8);
    form!(o, r, n, Rclq, Memory_, i8);
    form!(o, r, n, Rclq, Gpr64, _1);
    form!(o, r, n, Rclq, Memory_, _1);
    form!(o, r, n, Rclq, Gpr64, _Cl);
    form!(o, r, n, Rclq, Memory_, _Cl);
}
fn forms15(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Rclw, Gpr16, i8);
    form!(o, r, n, Rclw, Memory_, i8);
    form!(o, r, n, Rclw, Gpr16, _1);
    form!(o, r, n, Rclw, Memory_, _1);
    form!(o, r, n, Rclw, Gpr16, _Cl);
    form!(o, r, n, Rclw, Memory_, _Cl);
    form!(o, r, n, Rcpps, Xmm, Xmm);
    form!(o, r, n, Rcpps, Xmm, Memory_);
    form!(o, r, n, Rcpss, Xmm, Xmm);
    form!(o, r, n, Rcpss, Xmm, Memory_);
    form!(o, r, n, Rcrb, Gpr8, i8);
    form!(o, r, n, Rcrb, Memory_, i8);
    form!(o, r, n, Rcrb, Gpr8, _1);
    form!(o, r, n, Rcrb, Memory_, _1);
    form!(o, r, n, Rcrb, Gpr8, _Cl);
    form!(o, r, n, Rcrb, Memory_, _Cl);
    form!(o, r, n, Rcrl, Gpr32, i8);
    form!(o, r, n, Rcrl, Memory_, i8);
    form!(o, r, n, Rcrl, Gpr32, _1);
    form!(o, r, n, Rcrl, Memory_, _1);
    form!(o, r, n, Rcrl, Gpr32, _Cl);
    form!(o, r, n, Rcrl, Memory_, _Cl);
    form!(o, r, n, Rcrq, Gpr64, i8);
    form!(o, r, n, Rcrq, Memory_, i8);
    form!(o, r, n, Rcrq, Gpr64, _1);
    form!(o, r, n, Rcrq, Memory_, _1);
    form!(o, r, n, Rcrq, Gpr64, _Cl);
    form!(o, r, n, Rcrq, Memory_, _Cl);
    form!(o, r, n, Rcrw, Gpr16, i8);
    form!(o, r, n, Rcrw, Memory_, i8);
    form!(o, r, n, Rcrw, Gpr16, _1);
    form!(o, r, n, Rcrw, Memory_, _1);
    form!(o, r, n, Rcrw, Gpr16, _Cl);
    form!(o, r, n, Rcrw, Memory_, _Cl);
    form!(o, r, n, Retq);
    form!(o, r, n, Retq1, i16);
    form!(o, r, n, Rolb, Gpr8, i8);
    form!(o, r, n, Rolb, Memory_, i8);
    form!(o, r, n, Rolb, Gpr8, _1);
    form!(o, r, n, Rolb, Memory_, _1);
    form!(o, r, n, Rolb, Gpr8, _Cl);
    form!(o, r, n, Rolb, Memory_, _Cl);
    form!(o, r, n, Roll, Gpr32, i8);
    form!(o, r, n, Roll, Memory_, i8);
    form!(o, r, n, Roll, Gpr32, _1);
    form!(o, r, n, Roll, Memory_, _1);
    form!(o, r, n, Roll, Gpr32, _Cl);
    form!(o, r, n, Roll, Memory_, _Cl);
    form!(o, r, n, Rolq, Gpr64, i8);
    form!(o, r, n, Rolq, Memory_, i8);
    form!(o, r, n, Rolq, Gpr64, _1);
    form!(o, r, n, Rolq, Memory_, _1);
    form!(o, r, n, Rolq, Gpr64, _Cl);
    form!(o, r, n, Rolq, Memory_, _Cl);
    form!(o, r, n, Rolw, Gpr16, i8);
    form!(o, r, n, Rolw, Memory_, i8);
    form!(o, r, n, Rolw, Gpr16, _1);
    form!(o, r, n, Rolw, Memory_, _1);
    form!(o, r, n, Rolw, Gpr16, _Cl);
    form!(o, r, n, Rolw, Memory_, _Cl);
}
fn forms16(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Rorb, Gpr8, i8);
    form!(o, r, n, Rorb, Memory_, i8);
    form!(o, r, n, Rorb, Gpr8, _1);
    form!(o, r, n, Rorb, Memory_, _1);
    form!(o, r, n, Rorb, Gpr8, _Cl);
    form!(o, r, n, Rorb, Memory_, _Cl);
    form!(o, r, n, Rorl, Gpr32, i8);
    form!(o, r, n, Rorl, Memory_, i8);
    form!(o, r, n, Rorl, Gpr32, _1);
    form!(o, r, n, Rorl, Memory_, _1);
    form!(o, r, n, Rorl, Gpr32, _Cl);
    form!(o, r, n, Rorl, Memory_, _Cl);
    form!(o, r, n, Rorq, Gpr64, i8);
    form!(o, r, n, Rorq, Memory_, i8);
    form!(o, r, n, Rorq, Gpr64, _1);
    form!(o, r, n, Rorq, Memory_, _1);
    form!(o, r, n, Rorq, Gpr64, _Cl);
    form!(o, r, n, Rorq, Memory_, _Cl);
    form!(o, r, n, Rorw, Gpr16, i8);
    form!(o, r, n, Rorw, Memory_, i8);
    form!(o, r, n, Rorw, Gpr16, _1);
    form!(o, r, n, Rorw, Memory_, _1);
    form!(o, r, n, Rorw, Gpr16, _Cl);
    form!(o, r, n, Rorw, Memory_, _Cl);
    form!(o, r, n, Roundpd, Xmm, Xmm, i8);
    form!(o, r, n, Roundpd, Xmm, Memory_, i8);
    form!(o, r, n, Roundps, Xmm, Xmm, i8);
    form!(o, r, n, Roundps, Xmm, Memory_, i8);
    form!(o, r, n, Roundsd, Xmm, Xmm, i8);
    form!(o, r, n, Roundsd, Xmm, Memory_, i8);
    form!(o, r, n, Roundss, Xmm, Xmm, i8);
    form!(o, r, n, Roundss, Xmm, Memory_, i8);
    form!(o, r, n, Rsqrtps, Xmm, Xmm);
    form!(o, r, n, Rsqrtps, Xmm, Memory_);
    form!(o, r, n, Rsqrtss, Xmm, Xmm);
    form!(o, r, n, Rsqrtss, Xmm, Memory_);
    form!(o, r, n, Salb, Gpr8, i8);
    form!(o, r, n, Salb, Memory_, i8);
    form!(o, r, n, Salb, Gpr8, _1);
    form!(o, r, n, Salb, Memory_, _1);
    form!(o, r, n, Salb, Gpr8, _Cl);
    form!(o, r, n, Salb, Memory_, _Cl);
    form!(o, r, n, Sall, Gpr32, i8);
    form!(o, r, n, Sall, Memory_, i8);
    form!(o, r, n, Sall, Gpr32, _1);
    form!(o, r, n, Sall, Memory_, _1);
    form!(o, r, n, Sall, Gpr32, _Cl);
    form!(o, r, n, Sall, Memory_, _Cl);
    form!(o, r, n, Salq, Gpr64, i8);
    form!(o, r, n, Salq, Memory_, i8);
    form!(o, r, n, Salq, Gpr64, _1);
    form!(o, r, n, Salq, Memory_, _1);
    form!(o, r, n, Salq, Gpr64, _Cl);
    form!(o, r, n, Salq, Memory_, _Cl);
    form!(o, r, n, Salw, Gpr16, i8);
    form!(o, r, n, Salw, Memory_, i8);
    form!(o, r, n, Salw, Gpr16, _1);
    form!(o, r, n, Salw, Memory_, _1);
    form!(o, r, n, Salw, Gpr16, _Cl);
    form!(o, r, n, Salw, Memory_, _Cl);
}
fn forms17(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Sarb, Gpr8, i8);
    form!(o, r, n, Sarb, Memory_, i8);
    form!(o, r, n, Sarb, Gpr8, _1);
    form!(o, r, n, Sarb, Memory_, _1);
    form!(o, r, n, Sarb, Gpr8, _Cl);
    form!(o, r, n, Sarb, Memory_, _Cl);
    form!(o, r, n, Sarl, Gpr32, i8);
    form!(o, r, n, Sarl, Memory_, i8);
    form!(o, r, n, Sarl, Gpr32, _1);
    form!(o, r, n, Sarl, Memory_, _1);
    form!(o, r, n, Sarl, Gpr32, _Cl);
    form!(o, r, n, Sarl, Memory_, _Cl);
    form!(o, r, n, Sarq, Gpr64, i8);
    form!(o, r, n, Sarq, Memory_, i8);
    form!(o, r, n, Sarq, Gpr64, _1);
    form!(o, r, n, Sarq, Memory_, _1);
    form!(o, r, n, Sarq, Gpr64, _Cl);
    form!(o, r, n, Sarq, Memory_, _Cl);
    form!(o, r, n, Sarw, Gpr16, i8);
    form!(o, r, n, Sarw, Memory_, i8);
    form!(o, r, n, Sarw, Gpr16, _1);
    form!(o, r, n, Sarw, Memory_, _1);
    form!(o, r, n, Sarw, Gpr16, _Cl);
    form!(o, r, n, Sarw, Memory_, _Cl);
    form!(o, r, n, Sbbb, Gpr8, Gpr8);
    form!(o, r, n, Sbbb, Gpr8, Memory_);
    form!(o, r, n, Sbbb, Memory_, Gpr8);
    form!(o, r, n, Sbbb, Gpr8, i8);
    form!(o, r, n, Sbbb, Memory_, i8);
    form!(o, r, n, Sbbb, _Al, i8);
    form!(o, r, n, Sbbl, Gpr32, Gpr32);
    form!(o, r, n, Sbbl, Gpr32, Memory_);
    form!(o, r, n, Sbbl, Memory_, Gpr32);
    form!(o, r, n, Sbbl, Gpr32, i8);
    form!(o, r, n, Sbbl, Memory_, i8);
    form!(o, r, n, Sbbl, Gpr32, i32);
    form!(o, r, n, Sbbl, Memory_, i32);
    form!(o, r, n, Sbbl, _Eax, i32);
    form!(o, r, n, Sbbq, Gpr64, Gpr64);
    form!(o, r, n, Sbbq, Gpr64, Memory_);
    form!(o, r, n, Sbbq, Memory_, Gpr64);
    form!(o, r, n, Sbbq, Gpr64, i8);
    form!(o, r, n, Sbbq, Memory_, i8);
    form!(o, r, n, Sbbq, Gpr64, i32);
    form!(o, r, n, Sbbq, Memory_, i32);
    form!(o, r, n, Sbbq, _Rax, i32);
    form!(o, r, n, Sbbw, Gpr16, Gpr16);
    form!(o, r, n, Sbbw, Gpr16, Memory_);
    form!(o, r, n, Sbbw, Memory_, Gpr16);
    form!(o, r, n, Sbbw, Gpr16, i8);
    form!(o, r, n, Sbbw, Memory_, i8);
    form!(o, r, n, Sbbw, Gpr16, i16);
    form!(o, r, n, Sbbw, Memory_, i16);
    form!(o, r, n, Sbbw, _Ax, i16);
    form!(o, r, n, Seta, Gpr8);
    form!(o, r, n, Seta, Memory_);
    form!(o, r, n, Setae, Gpr8);
    form!(o, r, n, Setae, Memory_);
    form!(o, r, n, Setb, Gpr8);
    form!(o, r, n, Setb, Memory_);
}
fn forms18(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Setbe, Gpr8);
    form!(o, r, n, Setbe, Memory_);
    form!(o, r, n, Setc, Gpr8);
    form!(o, r, n, Setc, Memory_);
    form!(o, r, n, Sete, Gpr8);
    form!(o, r, n, Sete, Memory_);
    form!(o, r, n, Setg, Gpr8);
    form!(o, r, n, Setg, Memory_);
    form!(o, r, n, Setge, Gpr8);
    form!(o, r, n, Setge, Memory_);
    form!(o, r, n, Setl, Gpr8);
    form!(o, r, n, Setl, Memory_);
    form!(o, r, n, Setle, Gpr8);
    form!(o, r, n, Setle, Memory_);
    form!(o, r, n, Setna, Gpr8);
    form!(o, r, n, Setna, Memory_);
    form!(o, r, n, Setnae, Gpr8);
    form!(o, r, n, Setnae, Memory_);
    form!(o, r, n, Setnb, Gpr8);
    form!(o, r, n, Setnb, Memory_);
    form!(o, r, n, Setnbe, Gpr8);
    form!(o, r, n, Setnbe, Memory_);
    form!(o, r, n, Setnc, Gpr8);
    form!(o, r, n, Setnc, Memory_);
    form!(o, r, n, Setne, Gpr8);
    form!(o, r, n, Setne, Memory_);
    form!(o, r, n, Setng, Gpr8);
    form!(o, r, n, Setng, Memory_);
    form!(o, r, n, Setnge, Gpr8);
    form!(o, r, n, Setnge, Memory_);
    form!(o, r, n, Setnl, Gpr8);
    form!(o, r, n, Setnl, Memory_);
    form!(o, r, n, Setnle, Gpr8);
    form!(o, r, n, Setnle, Memory_);
    form!(o, r, n, Setno, Gpr8);
    form!(o, r, n, Setno, Memory_);
    form!(o, r, n, Setnp, Gpr8);
    form!(o, r, n, Setnp, Memory_);
    form!(o, r, n, Setns, Gpr8);
    form!(o, r, n, Setns, Memory_);
    form!(o, r, n, Setnz, Gpr8);
    form!(o, r, n, Setnz, Memory_);
    form!(o, r, n, Seto, Gpr8);
    form!(o, r, n, Seto, Memory_);
    form!(o, r, n, Setp, Gpr8);
    form!(o, r, n, Setp, Memory_);
    form!(o, r, n, Setpe, Gpr8);
    form!(o, r, n, Setpe, Memory_);
    form!(o, r, n, Setpo, Gpr8);
    form!(o, r, n, Setpo, Memory_);
    form!(o, r, n, Sets, Gpr8);
    form!(o, r, n, Sets, Memory_);
    form!(o, r, n, Setz, Gpr8);
    form!(o, r, n, Setz, Memory_);
    form!(o, r, n, Sfence);
    form!(o, r, n, Sgdt, Memory_);
    form!(o, r, n, Shlb, Gpr8, i8);
    form!(o, r, n, Shlb, Memory_, i8);
    form!(o, r, n, Shlb, Gpr8, _1);
    form!(o, r, n, Shlb, Memory_, _1);
}
fn forms19(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Shlb, Gpr8, _Cl);
    form!(o, r, n, Shlb, Memory_, _Cl);
    form!(o, r, n, Shldl, Gpr32, Gpr32, i8);
    form!(o, r, n, Shldl, Memory_, Gpr32, i8);
    form!(o, r, n, Shldl, Gpr32, Gpr32, _Cl);
    form!(o, r, n, Shldl, Memory_, Gpr32, _Cl);
    form!(o, r, n, Shldq, Gpr64, Gpr64, i8);
    form!(o, r, n, Shldq, Memory_, Gpr64, i8);
    form!(o, r, n, Shldq, Gpr64, Gpr64, _Cl);
    form!(o, r, n, Shldq, Memory_, Gpr64, _Cl);
    form!(o, r, n, Shldw, Gpr16, Gpr16, i8);
    form!(o, r, n, Shldw, Memory_, Gpr16, i8);
    form!(o, r, n, Shldw, Gpr16, Gpr16, _Cl);
    form!(o, r, n, Shldw, Memory_, Gpr16, _Cl);
    form!(o, r, n, Shll, Gpr32, i8);
    form!(o, r, n, Shll, Memory_, i8);
    form!(o, r, n, Shll, Gpr32, _1);
    form!(o, r, n, Shll, Memory_, _1);
    form!(o, r, n, Shll, Gpr32, _Cl);
    form!(o, r, n, Shll, Memory_, _Cl);
    form!(o, r, n, Shlq, Gpr64, i8);
    form!(o, r, n, Shlq, Memory_, i8);
    form!(o, r, n, Shlq, Gpr64, _1);
    form!(o, r, n, Shlq, Memory_, _1);
    form!(o, r, n, Shlq, Gpr64, _Cl);
    form!(o, r, n, Shlq, Memory_, _Cl);
    form!(o, r, n, Shlw, Gpr16, i8);
    form!(o, r, n, Shlw, Memory_, i8);
    form!(o, r, n, Shlw, Gpr16, _1);
    form!(o, r, n, Shlw, Memory_, _1);
    form!(o, r, n, Shlw, Gpr16, _Cl);
    form!(o, r, n, Shlw, Memory_, _Cl);
    form!(o, r, n, Shrb, Gpr8, i8);
    form!(o, r, n, Shrb, Memory_, i8);
    form!(o, r, n, Shrb, Gpr8, _1);
    form!(o, r, n, Shrb, Memory_, _1);
    form!(o, r, n, Shrb, Gpr8, _Cl);
    form!(o, r, n, Shrb, Memory_, _Cl);
    form!(o, r, n, Shrdl, Gpr32, Gpr32, i8);
    form!(o, r, n, Shrdl, Memory_, Gpr32, i8);
    form!(o, r, n, Shrdl, Gpr32, Gpr32, _Cl);
    form!(o, r, n, Shrdl, Memory_, Gpr32, _Cl);
    form!(o, r, n, Shrdq, Gpr64, Gpr64, i8);
    form!(o, r, n, Shrdq, Memory_, Gpr64, i8);
    form!(o, r, n, Shrdq, Gpr64, Gpr64, _Cl);
    form!(o, r, n, Shrdq, Memory_, Gpr64, _Cl);
    form!(o, r, n, Shrdw, Gpr16, Gpr16, i8);
    form!(o, r, n, Shrdw, Memory_, Gpr16, i8);
    form!(o, r, n, Shrdw, Gpr16, Gpr16, _Cl);
    form!(o, r, n, Shrdw, Memory_, Gpr16, _Cl);
    form!(o, r, n, Shrl, Gpr32, i8);
    form!(o, r, n, Shrl, Memory_, i8);
    form!(o, r, n, Shrl, Gpr32, _1);
    form!(o, r, n, Shrl, Memory_, _1);
    form!(o, r, n, Shrl, Gpr32, _Cl);
    form!(o, r, n, Shrl, Memory_, _Cl);
    form!(o, r, n, Shrq, Gpr64, i8);
    form!(o, r, n, Shrq, Memory_, i8);
    form!(o, r, n, Shrq, Gpr64, _1);
    form!(o, r, n, Shrq, Memory_, _1);
}
fn forms20(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Shrq, Gpr64, _Cl);
    form!(o, r, n, Shrq, Memory_, _Cl);
    form!(o, r, n, Shrw, Gpr16, i8);
    form!(o, r, n, Shrw, Memory_, i8);
    form!(o, r, n, Shrw, Gpr16, _1);
    form!(o, r, n, Shrw, Memory_, _1);
    form!(o, r, n, Shrw, Gpr16, _Cl);
    form!(o, r, n, Shrw, Memory_, _Cl);
    form!(o, r, n, Shufpd, Xmm, Xmm, i8);
    form!(o, r, n, Shufpd, Xmm, Memory_, i8);
    form!(o, r, n, Shufps, Xmm, Xmm, i8);
    form!(o, r, n, Shufps, Xmm, Memory_, i8);
    form!(o, r, n, Sidt, Memory_);
    form!(o, r, n, Sqrtpd, Xmm, Xmm);
    form!(o, r, n, Sqrtpd, Xmm, Memory_);
    form!(o, r, n, Sqrtps, Xmm, Xmm);
    form!(o, r, n, Sqrtps, Xmm, Memory_);
    form!(o, r, n, Sqrtsd, Xmm, Xmm);
    form!(o, r, n, Sqrtsd, Xmm, Memory_);
    form!(o, r, n, Sqrtss, Xmm, Xmm);
    form!(o, r, n, Sqrtss, Xmm, Memory_);
    form!(o, r, n, Stc);
    form!(o, r, n, Std);
    form!(o, r, n, Sti);
    form!(o, r, n, Stmxcsr, Memory_);
    form!(o, r, n, Str, Gpr16);
    form!(o, r, n, Str, Memory_);
    form!(o, r, n, Subb, Gpr8, Gpr8);
    form!(o, r, n, Subb, Gpr8, Memory_);
    form!(o, r, n, Subb, Memory_, Gpr8);
    form!(o, r, n, Subb, Gpr8, i8);
    form!(o, r, n, Subb, Memory_, i8);
    form!(o, r, n, Subb, _Al, i8);
    form!(o, r, n, Subl, Gpr32, Gpr32);
    form!(o, r, n, Subl, Gpr32, Memory_);
    form!(o, r, n, Subl, Memory_, Gpr32);
    form!(o, r, n, Subl, Gpr32, i8);
    form!(o, r, n, Subl, Memory_, i8);
    form!(o, r, n, Subl, Gpr32, i32);
    form!(o, r, n, Subl, Memory_, i32);
    form!(o, r, n, Subl, _Eax, i32);
    form!(o, r, n, Subpd, Xmm, Xmm);
    form!(o, r, n, Subpd, Xmm, Memory_);
    form!(o, r, n, Subps, Xmm, Xmm);
    form!(o, r, n, Subps, Xmm, Memory_);
    form!(o, r, n, Subq, Gpr64, Gpr64);
    form!(o, r, n, Subq, Gpr64, Memory_);
    form!(o, r, n, Subq, Memory_, Gpr64);
    form!(o, r, n, Subq, Gpr64, i8);
    form!(o, r, n, Subq, Memory_, i8);
    form!(o, r, n, Subq, Gpr64, i32);
    form!(o, r, n, Subq, Memory_, i32);
    form!(o, r, n, Subq, _Rax, i32);
    form!(o, r, n, Subsd, Xmm, Xmm);
    form!(o, r, n, Subsd, Xmm, Memory_);
    form!(o, r, n, Subss, Xmm, Xmm);
    form!(o, r, n, Subss, Xmm, Memory_);
    form!(o, r, n, Subw, Gpr16, Gpr16);
    form!(o, r, n, Subw, Gpr16, Memory_);
    form!(o, r, n, Subw, Memory_, Gpr16);
}
fn forms21(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Subw, Gpr16, i8);
    form!(o, r, n, Subw, Memory_, i8);
    form!(o, r, n, Subw, Gpr16, i16);
    form!(o, r, n, Subw, Memory_, i16);
    form!(o, r, n, Subw, _Ax, i16);
    form!(o, r, n, Swapgs);
    form!(o, r, n, Testb, Gpr8, Gpr8);
    form!(o, r, n, Testb, Memory_, Gpr8);
    form!(o, r, n, Testb, Gpr8, i8);
    form!(o, r, n, Testb, Memory_, i8);
    form!(o, r, n, Testb, _Al, i8);
    form!(o, r, n, Testl, Gpr32, Gpr32);
    form!(o, r, n, Testl, Memory_, Gpr32);
    form!(o, r, n, Testl, Gpr32, i32);
    form!(o, r, n, Testl, Memory_, i32);
    form!(o, r, n, Testl, _Eax, i32);
    form!(o, r, n, Testq, Gpr64, Gpr64);
    form!(o, r, n, Testq, Memory_, Gpr64);
    form!(o, r, n, Testq, Gpr64, i32);
    form!(o, r, n, Testq, Memory_, i32);
    form!(o, r, n, Testq, _Rax, i32);
    form!(o, r, n, Testw, Gpr16, Gpr16);
    form!(o, r, n, Testw, Memory_, Gpr16);
    form!(o, r, n, Testw, Gpr16, i16);
    form!(o, r, n, Testw, Memory_, i16);
    form!(o, r, n, Testw, _Ax, i16);
    form!(o, r, n, Ucomisd, Xmm, Xmm);
    form!(o, r, n, Ucomisd, Xmm, Memory_);
    form!(o, r, n, Ucomiss, Xmm, Xmm);
    form!(o, r, n, Ucomiss, Xmm, Memory_);
    form!(o, r, n, Ud2);
    form!(o, r, n, Unpckhpd, Xmm, Xmm);
    form!(o, r, n, Unpckhpd, Xmm, Memory_);
    form!(o, r, n, Unpckhps, Xmm, Xmm);
    form!(o, r, n, Unpckhps, Xmm, Memory_);
    form!(o, r, n, Unpcklpd, Xmm, Xmm);
    form!(o, r, n, Unpcklpd, Xmm, Memory_);
    form!(o, r, n, Unpcklps, Xmm, Xmm);
    form!(o, r, n, Unpcklps, Xmm, Memory_);
    form!(o, r, n, Verr, Gpr16);
    form!(o, r, n, Verr, Memory_);
    form!(o, r, n, Verw, Gpr16);
    form!(o, r, n, Verw, Memory_);
    form!(o, r, n, Wbinvd);
    form!(o, r, n, Wrmsr);
    form!(o, r, n, Xaddb, Gpr8, Gpr8);
    form!(o, r, n, Xaddb, Memory_, Gpr8);
    form!(o, r, n, Xaddl, Gpr32, Gpr32);
    form!(o, r, n, Xaddl, Memory_, Gpr32);
    form!(o, r, n, Xaddq, Gpr64, Gpr64);
    form!(o, r, n, Xaddq, Memory_, Gpr64);
    form!(o, r, n, Xaddw, Gpr16, Gpr16);
    form!(o, r, n, Xaddw, Memory_, Gpr16);
    form!(o, r, n, Xchgb, Gpr8, Gpr8);
    form!(o, r, n, Xchgb, Gpr8, Memory_);
    form!(o, r, n, Xchgb, Memory_, Gpr8);
    form!(o, r, n, Xchgl, Gpr32, Gpr32);
    form!(o, r, n, Xchgl, Gpr32, Memory_);
    form!(o, r, n, Xchgl, Gpr32, _Eax);
    form!(o, r, n, Xchgl, Memory_, Gpr32);
}
fn forms22(o: &mut impl Write, r: &mut Rng, n: usize) {
    let _ = (&r, n);
    form!(o, r, n, Xchgl, _Eax, Gpr32);
    form!(o, r, n, Xchgq, Gpr64, Gpr64);
    form!(o, r, n, Xchgq, Gpr64, Memory_);
    form!(o, r, n, Xchgq, Gpr64, _Rax);
    form!(o, r, n, Xchgq, Memory_, Gpr64);
    form!(o, r, n, Xchgq, _Rax, Gpr64);
    form!(o, r, n, Xchgw, Gpr16, Gpr16);
    form!(o, r, n, Xchgw, Gpr16, Memory_);
    form!(o, r, n, Xchgw, Gpr16, _Ax);
    form!(o, r, n, Xchgw, Memory_, Gpr16);
    form!(o, r, n, Xchgw, _Ax, Gpr16);
    form!(o, r, n, Xorb, Gpr8, Gpr8);
    form!(o, r, n, Xorb, Gpr8, Memory_);
    form!(o, r, n, Xorb, Memory_, Gpr8);
    form!(o, r, n, Xorb, Gpr8, i8);
    form!(o, r, n, Xorb, Memory_, i8);
    form!(o, r, n, Xorb, _Al, i8);
    form!(o, r, n, Xorl, Gpr32, Gpr32);
    form!(o, r, n, Xorl, Gpr32, Memory_);
    form!(o, r, n, Xorl, Memory_, Gpr32);
    form!(o, r, n, Xorl, Gpr32, i8);
    form!(o, r, n, Xorl, Memory_, i8);
    form!(o, r, n, Xorl, Gpr32, i32);
    form!(o, r, n, Xorl, Memory_, i32);
    form!(o, r, n, Xorl, _Eax, i32);
    form!(o, r, n, Xorpd, Xmm, Xmm);
    form!(o, r, n, Xorpd, Xmm, Memory_);
    form!(o, r, n, Xorps, Xmm, Xmm);
    form!(o, r, n, Xorps, Xmm, Memory_);
    form!(o, r, n, Xorq, Gpr64, Gpr64);
    form!(o, r, n, Xorq, Gpr64, Memory_);
    form!(o, r, n, Xorq, Memory_, Gpr64);
    form!(o, r, n, Xorq, Gpr64, i8);
    form!(o, r, n, Xorq, Memory_, i8);
    form!(o, r, n, Xorq, Gpr64, i32);
    form!(o, r, n, Xorq, Memory_, i32);
    form!(o, r, n, Xorq, _Rax, i32);
    form!(o, r, n, Xorw, Gpr16, Gpr16);
    form!(o, r, n, Xorw, Gpr16, Memory_);
    form!(o, r, n, Xorw, Memory_, Gpr16);
    form!(o, r, n, Xorw, Gpr16, i8);
    form!(o, r, n, Xorw, Memory_, i8);
    form!(o, r, n, Xorw, Gpr16, i16);
    form!(o, r, n, Xorw, Memory_, i16);
    form!(o, r, n, Xorw, _Ax, i16);
    form!(o, r, n, Xsetbv);
}
pub fn forms(o: &mut impl Write, r: &mut Rng, n: usize) {
    forms0(o, r, n);
    forms1(o, r, n);
    forms2(o, r, n);
    forms3(o, r, n);
    forms4(o, r, n);
    forms5(o, r, n);
    forms6(o, r, n);
    forms7(o, r, n);
    forms8(o, r, n);
    forms9(o, r, n);
    forms10(o, r, n);
    forms11(o, r, n);
    forms12(o, r, n);
    forms13(o, r, n);
    forms14(o, r, n);
    forms15(o, r, n);
    forms16(o, r, n);
    forms17(o, r, n);
    forms18(o, r, n);
    forms19(o, r, n);
    forms20(o, r, n);
    forms21(o, r, n);
    forms22(o, r, n);
}
