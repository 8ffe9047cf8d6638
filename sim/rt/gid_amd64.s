#include "textflag.h"

// func gid(off uintptr) uint64
TEXT ·gid(SB),NOSPLIT,$0-16
	MOVQ (TLS), AX
	MOVQ off+0(FP), BX
	MOVQ (AX)(BX*1), AX
	MOVQ AX, ret+8(FP)
	RET
