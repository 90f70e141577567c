// Transcendental functions (C24).
#include "drv.h"
static unsigned char reg[2][8];
static void resetState() { memset(reg, 0, sizeof reg); }
static Double at(int k) { Double v; memcpy(&v, reg[k], sizeof v); return v; }
static void give(Double v) {
	bytesOf(R, &v, sizeof v);
	if (A.n > 0 && !(v != v)) memcpy(reg[0], &v, sizeof v);
}
static void perform(const char* op) {
	OP("let") {
		for (int k = 0; k < 2; ++k)
			for (int i = 0; i < 8; ++i) reg[k][i] = (unsigned char) A.i(k, i);
		return;
	}
	OP("swap") { unsigned char t[8]; memcpy(t, reg[0], 8); memcpy(reg[0], reg[1], 8); memcpy(reg[1], t, 8); return; }
	OP("pi") { give(Math::PI); return; }
	OP("e") { give(Math::E); return; }
	OP("exp") { give(Math::Exp(at(0))); return; }
	OP("sinh") { give(Math::Sinh(at(0))); return; }
	OP("cosh") { give(Math::Cosh(at(0))); return; }
	OP("tanh") { give(Math::Tanh(at(0))); return; }
	OP("sin") { give(Math::Sin(at(0))); return; }
	OP("cos") { give(Math::Cos(at(0))); return; }
	OP("tan") { give(Math::Tan(at(0))); return; }
	OP("log") { give(Math::Log(at(0))); return; }
	OP("log2") { give(Math::Log2(at(0))); return; }
	OP("log10") { give(Math::Log10(at(0))); return; }
	OP("asin") { give(Math::Asin(at(0))); return; }
	OP("acos") { give(Math::Acos(at(0))); return; }
	OP("atan") { give(Math::Atan(at(0))); return; }
	OP("asinh") { give(Math::Asinh(at(0))); return; }
	OP("acosh") { give(Math::Acosh(at(0))); return; }
	OP("atanh") { give(Math::Atanh(at(0))); return; }
	OP("cbrt") { give(Math::Cbrt(at(0))); return; }
	OP("logb") { give(Math::Log(at(0), at(1))); return; }
	OP("atan2") { give(Math::Atan2(at(0), at(1))); return; }
	OP("pow") { give(Math::Pow(at(0), at(1))); return; }
	unknownOp(op);
}
static void observe() {
	for (int k = 0; k < 2; ++k) bytesOf(S, reg[k], 8);
}
