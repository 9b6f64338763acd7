package main

import (
	"strings"
)

// The instruction-set extensions that instructions need.

var featImplies = map[string][]string{
	"AVX512BW": {"AVX512F"}, "AVX512VL": {"AVX512F"}, "AVX512DQ": {"AVX512F"}, "AVX512CD": {"AVX512F"}, "AVX512VBMI": {"AVX512F"},
	"AVX512F": {"AVX2"}, "VAES": {"AVX"}, "VPCLMULQDQ": {"AVX"},
	"AVX2": {"AVX"}, "AVX": {"SSE42"}, "SSE42": {"SSE4"}, "SSE4": {"SSSE3"}, "SSSE3": {"SSE3"}, "SSE3": {"SSE2"}, "SSE2": {"SSE"},
}

func featClosure(s map[string]bool) map[string]bool {
	out := map[string]bool{}
	var add func(f string)
	add = func(f string) {
		if out[f] {
			return
		}
		out[f] = true
		for _, g := range featImplies[f] {
			add(g)
		}
	}
	for f := range s {
		add(f)
	}
	return out
}

// baseline features need no detection.
func baseFeat(arch string) map[string]bool {
	if arch == "amd64" {
		return map[string]bool{"SSE": true, "SSE2": true}
	}
	return map[string]bool{}
}

var amd64Plain = setOf("MOVQ MOVL MOVW MOVB MOVBQZX MOVBLZX MOVWQZX MOVWLZX MOVLQZX MOVBQSX MOVBLSX MOVWQSX MOVWLSX MOVLQSX LEAQ LEAL LEAW ADDQ ADDL ADDW ADDB SUBQ SUBL SUBW SUBB ANDQ ANDL ANDW ANDB ORQ ORL ORW ORB XORQ XORL XORW XORB SHRQ SHRL SHRW SHRB SHLQ SHLL SHLW SHLB SALQ SALL SARQ SARL ROLQ ROLL RORQ RORL NEGQ NEGL NOTQ NOTL INCQ INCL DECQ DECL CMPQ CMPL CMPW CMPB TESTQ TESTL TESTW TESTB IMULQ IMULL MULQ DIVQ ADCQ SBBQ BTQ BTL BSFQ BSRQ BSWAPQ BSWAPL XCHGQ PUSHQ POPQ RET JMP NOP NOPL NOPW PCALIGN CLD STD REP MOVSB MOVSQ STOSB STOSQ PREFETCHT0 PREFETCHT1 PREFETCHNTA " +
	"JEQ JZ JNE JNZ JLT JLE JGT JGE JL JG JB JBE JA JAE JCS JCC JHI JHS JLS JLO JMI JPL JS JNS JC JNC JO JOS JOC JNO JPS JPC JGT JPE JPO JCXZL " +
	"SETEQ SETNE SETLT SETLE SETGT SETGE SETCS SETCC SETHI SETLS SETMI SETPL CMOVQEQ CMOVQNE CMOVQLT CMOVQLE CMOVQGT CMOVQGE CMOVQCS CMOVQCC CMOVQHI CMOVQLS CMOVLEQ CMOVLNE BYTE WORD LONG QUAD FUNCDATA PCDATA")

var amd64SSE2 = setOf("MOVO MOVOU MOVOA MOVUPS MOVAPS MOVUPD MOVAPD MOVSS MOVSD MOVNTO MOVNTDQ MOVHLPS MOVLHPS MOVHPS MOVLPS MOVHPD MOVLPD MOVMSKPS MOVMSKPD XORPS XORPD ANDPS ANDPD ANDNPS ANDNPD ORPS ORPD PXOR PAND PANDN POR PSRLQ PSRLL PSRLW PSRLO PSRLDQ PSLLQ PSLLL PSLLW PSLLO PSLLDQ PSRAL PSRAW PADDB PADDW PADDL PADDQ PSUBB PSUBW PSUBL PSUBQ PUNPCKLBW PUNPCKLWL PUNPCKLLQ PUNPCKLQDQ PUNPCKHBW PUNPCKHWL PUNPCKHLQ PUNPCKHQDQ PSHUFD PSHUFL PSHUFLW PSHUFHW PCMPEQB PCMPEQW PCMPEQL PCMPGTB PCMPGTW PCMPGTL PMOVMSKB PMAXUB PMINUB PMAXSW PMINSW PMULLW PMULHW PMULHUW PMULULQ PMADDWL PINSRW PEXTRW PACKSSWB PACKUSWB PACKSSLW SHUFPS SHUFPD UNPCKLPS UNPCKHPS SFENCE LFENCE MFENCE PREFETCHT2 PAVGB PSADBW")
var amd64SSSE3 = setOf("PSHUFB PALIGNR PABSB PABSW PABSD PHADDW PHADDD PHADDSW PHSUBW PHSUBD PHSUBSW PMADDUBSW PMULHRSW PSIGNB PSIGNW PSIGND")
var amd64SSE3 = setOf("LDDQU MOVDDUP MOVSHDUP MOVSLDUP ADDSUBPS ADDSUBPD HADDPS HADDPD HSUBPS HSUBPD")
var amd64SSE4 = setOf("PINSRB PINSRD PINSRQ PEXTRB PEXTRD PEXTRQ PTEST PBLENDVB PBLENDW BLENDPS BLENDPD BLENDVPS BLENDVPD PMULLD PMULDQ PMOVZXBW PMOVZXBD PMOVZXBQ PMOVZXWD PMOVZXWQ PMOVZXDQ PMOVSXBW PMOVSXBD PMOVSXBQ PMOVSXWD PMOVSXWQ PMOVSXDQ PMAXSB PMAXSD PMAXUW PMAXUD PMINSB PMINSD PMINUW PMINUD PCMPEQQ PACKUSDW MOVNTDQA ROUNDPS ROUNDPD ROUNDSS ROUNDSD INSERTPS EXTRACTPS DPPS DPPD MPSADBW PHMINPOSUW")
var amd64SSE42 = setOf("PCMPGTQ PCMPESTRI PCMPESTRM PCMPISTRI PCMPISTRM CRC32B CRC32W CRC32L CRC32Q")
var amd64AVX = setOf("VMOVDQU VMOVDQA VMOVUPS VMOVUPD VMOVAPS VMOVAPD VMOVQ VMOVD VMOVNTDQ VXORPS VXORPD VANDPS VANDPD VORPS VORPD VANDNPS VANDNPD VINSERTF128 VEXTRACTF128 VBROADCASTSS VBROADCASTSD VBROADCASTF128 VPERM2F128 VPERMILPS VPERMILPD VZEROUPPER VZEROALL VPTEST VLDDQU VSHUFPS VSHUFPD VUNPCKLPS VUNPCKHPS VMASKMOVPS VMOVMSKPS")
var amd64AVX2only = setOf("VINSERTI128 VEXTRACTI128 VPERM2I128 VBROADCASTI128 VPBROADCASTB VPBROADCASTW VPBROADCASTD VPBROADCASTQ VPERMQ VPERMD VPERMPS VPERMPD VPSRLVD VPSRLVQ VPSLLVD VPSLLVQ VPSRAVD VPBLENDD VPMASKMOVD VPMASKMOVQ VPGATHERDD VPGATHERDQ VPGATHERQD VPGATHERQQ")
var amd64BMI1 = setOf("ANDNQ ANDNL BLSRQ BLSRL BLSIQ BLSIL BLSMSKQ BLSMSKL BEXTRQ BEXTRL TZCNTQ TZCNTL")
var amd64BMI2 = setOf("SHLXQ SHLXL SHRXQ SHRXL SARXQ SARXL RORXQ RORXL MULXQ MULXL PDEPQ PDEPL PEXTQ PEXTL BZHIQ BZHIL")

func setOf(s string) map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields(s) {
		m[w] = true
	}
	return m
}

func isReg(a string, prefix byte) bool {
	if len(a) < 2 || a[0] != prefix {
		return false
	}
	k := 1
	for k < len(a) && a[k] >= '0' && a[k] <= '9' {
		k++
	}
	return k > 1 && (k == len(a) || a[k] == '.')
}

// insFeat returns the features an instruction needs; ok is false for an
// instruction the tables do not know.
func insFeat(arch string, in AsmIns) (fs []string, ok bool) {
	op := in.op
	if k := strings.IndexByte(op, '.'); k > 0 {
		op = op[:k]
	}
	if arch == "arm64" {
		return arm64Feat(op, in)
	}
	if arch != "amd64" && arch != "386" {
		return nil, false
	}
	has := func(p byte) bool {
		for _, a := range in.args {
			if isReg(a, p) {
				return true
			}
		}
		return false
	}
	z := has('Z') || has('K')
	high := false
	for _, a := range in.args {
		for _, p := range []string{"X", "Y"} {
			if strings.HasPrefix(a, p) && len(a) == 3 && (a[1] == '1' && a[2] >= '6' || a[1] == '2' || a[1] == '3') && isReg(a, p[0]) {
				high = true
			}
		}
	}
	switch {
	case op[0] == 'V' || z && op[0] == 'K':
		var out []string
		if strings.HasPrefix(op, "VGF2P8") {
			out = append(out, "GFNI")
		}
		if strings.HasPrefix(op, "VAES") {
			out = append(out, "AESNI")
			if has('Y') || z {
				out = append(out, "VAES")
			}
		}
		if op == "VPCLMULQDQ" {
			out = append(out, "CLMUL")
			if has('Y') || z {
				out = append(out, "VPCLMULQDQ")
			}
		}
		if z || high || strings.HasPrefix(op, "VPTERNLOG") || strings.HasSuffix(op, "I64X2") || strings.HasSuffix(op, "I32X4") || strings.HasSuffix(op, "I64X4") {
			out = append(out, "AVX512F")
			if !z {
				out = append(out, "AVX512VL")
			}
			switch op {
			case "VPSHUFB", "VMOVDQU8", "VMOVDQU16", "VPADDB", "VPADDW", "VPSUBB", "VPSUBW", "VPCMPEQB", "VPCMPB", "VPCMPUB", "VPBROADCASTB", "VPBROADCASTW", "VPSRLW", "VPSLLW", "VPTESTMB", "VPBLENDMB", "VPALIGNR", "KMOVQ", "KMOVD", "VPSRLDQ", "VPSLLDQ", "VPUNPCKLBW", "VPUNPCKHBW", "VPUNPCKLWD", "VPUNPCKHWD":
				out = append(out, "AVX512BW")
			case "VPERMB":
				out = append(out, "AVX512VBMI")
			}
			return out, true
		}
		if len(out) > 0 {
			return append(out, "AVX"), true
		}
		if amd64AVX[op] {
			return []string{"AVX"}, true
		}
		if amd64AVX2only[op] {
			return []string{"AVX2"}, true
		}
		if strings.HasPrefix(op, "VP") {
			if has('Y') {
				return []string{"AVX2"}, true
			}
			return []string{"AVX"}, true
		}
		return nil, false
	case amd64Plain[op]:
		if has('Y') || z {
			return nil, false
		}
		return nil, true
	case amd64SSE2[op]:
		return []string{"SSE2"}, true
	case amd64SSSE3[op]:
		return []string{"SSSE3"}, true
	case amd64SSE3[op]:
		return []string{"SSE3"}, true
	case amd64SSE4[op]:
		return []string{"SSE4"}, true
	case amd64SSE42[op]:
		return []string{"SSE42"}, true
	case strings.HasPrefix(op, "POPCNT"):
		return []string{"POPCNT"}, true
	case strings.HasPrefix(op, "LZCNT"):
		return []string{"LZCNT"}, true
	case amd64BMI1[op]:
		return []string{"BMI1"}, true
	case amd64BMI2[op]:
		return []string{"BMI2"}, true
	case op == "PCLMULQDQ":
		return []string{"CLMUL"}, true
	case strings.HasPrefix(op, "AES"):
		return []string{"AESNI"}, true
	case strings.HasPrefix(op, "GF2P8"):
		return []string{"GFNI", "SSE2"}, true
	}
	return nil, false
}

var arm64Plain = setOf("MOVD MOVW MOVWU MOVH MOVHU MOVB MOVBU MOVK MOVZ MOVN MOVP LDP STP LDPW STPW ADD ADDS ADDW SUB SUBS SUBW SUBSW ADDSW AND ANDS ANDW ANDSW ORR ORRW EOR EORW BIC BICS ORN EON MVN NEG NEGS LSL LSR ASR ROR LSLW LSRW ASRW RORW CMP CMPW CMN CMNW TST TSTW CSEL CSELW CSET CSETW CSINC CSNEG CINC CNEG MUL MULW MADD MSUB UMULH SMULH UMULL SMULL UDIV SDIV UDIVW REM UREM UBFX SBFX UBFIZ SBFIZ BFI BFXIL EXTR CLZ RBIT REV REVW REV16 REV32 CLS ADC ADCS SBC SBCS ADR ADRP B RET BEQ BNE BLT BLE BGT BGE BHI BHS BLO BLS BCS BCC BMI BPL BVS BVC CBZ CBNZ CBZW CBNZW TBZ TBNZ JMP NOP NOOP PRFM UXTB UXTH UXTW SXTB SXTH SXTW FMOVD FMOVS FMOVQ WORD DWORD PCALIGN FUNCDATA PCDATA HINT " +
	"VLD1 VLD2 VLD3 VLD4 VLD1R VLD2R VLD3R VLD4R VST1 VST2 VST3 VST4 VEOR VAND VORR VBIT VBIF VBSL VUSHR VSHL VUSRA VSRI VSLI VTBL VTBX VDUP VMOV VMOVI VMOVS VMOVD VMOVQ VEXT VZIP1 VZIP2 VUZP1 VUZP2 VTRN1 VTRN2 VREV16 VREV32 VREV64 VADD VSUB VADDP VADDV VUADDLV VUADDW VUADDW2 VUSHLL VUSHLL2 VUXTL VUXTL2 VCMEQ VCMTST VCNT VRBIT VUMAX VUMIN VUMAXV VUMINV VFMLA VFMLS")

func arm64Feat(op string, in AsmIns) ([]string, bool) {
	for _, a := range in.args {
		if isReg(a, 'Z') || isReg(a, 'P') {
			return []string{"SVE"}, true
		}
	}
	switch {
	case arm64Plain[op]:
		if op == "WORD" || op == "DWORD" {
			return nil, false
		}
		return nil, true
	case op == "VEOR3" || op == "VBCAX" || op == "VRAX1" || op == "VXAR":
		return []string{"SHA3"}, true
	case strings.HasPrefix(op, "AES"):
		return []string{"AESARM"}, true
	case op == "VPMULL" || op == "VPMULL2":
		return []string{"PMULL"}, true
	case strings.HasPrefix(op, "SHA1"):
		return []string{"SHA1"}, true
	case strings.HasPrefix(op, "SHA256"):
		return []string{"SHA2"}, true
	case strings.HasPrefix(op, "SHA512"):
		return []string{"SHA512"}, true
	}
	return nil, false
}
