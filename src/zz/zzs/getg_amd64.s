#include "textflag.h"

// func getg() uintptr
TEXT ·getg(SB), NOSPLIT, $0-8
	MOVQ (TLS), AX
	MOVQ AX, ret+0(FP)
	RET

// func where() uint64: a hash of the return addresses of the caller and its callers
TEXT ·where(SB), NOSPLIT, $0-8
	MOVQ BP, BX
	MOVQ $0, AX
	MOVQ $5, CX
loop:
	TESTQ BX, BX
	JZ done
	MOVQ 8(BX), DX
	IMUL3Q $1000003, AX, AX
	XORQ DX, AX
	MOVQ (BX), BX
	DECQ CX
	JNZ loop
done:
	MOVQ AX, ret+0(FP)
	RET
