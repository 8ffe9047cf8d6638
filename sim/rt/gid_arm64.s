#include "textflag.h"

// func gid(off uintptr) uint64
TEXT ·gid(SB),NOSPLIT,$0-16
	MOVD off+0(FP), R1
	ADD g, R1, R1
	MOVD (R1), R0
	MOVD R0, ret+8(FP)
	RET
