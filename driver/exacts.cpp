// Square root, fused multiply-add and remainders (C25).
#include "drv.h"
static int type, width;
static unsigned char reg[3][8];
static void resetState() { type = DoubleType; width = 8; memset(reg, 0, sizeof reg); }
template<class T> static T at(int k) { T v; memcpy(&v, reg[k], sizeof v); return v; }
template<class T> static void give(T v) {
	bytesOf(R, &v, sizeof v);
	if (A.n > 0 && !(v != v)) memcpy(reg[0], &v, sizeof v);
}
static void perform(const char* op) {
	OP("let") {
		type = A.i(0);
		width = type == DoubleType ? 8 : 4;
		for (int k = 0; k < 3; ++k)
			for (int i = 0; i < width; ++i) reg[k][i] = (unsigned char) A.i(k + 1, i);
		return;
	}
	OP("turn") { unsigned char t[8]; memcpy(t, reg[0], 8); memcpy(reg[0], reg[1], 8); memcpy(reg[1], reg[2], 8); memcpy(reg[2], t, 8); return; }
	OP("mod") {
		if (type == SingleType) give<Single>(SingleValue::Modulus(at<Single>(0), at<Single>(1)));
		else give<Double>(DoubleValue::Modulus(at<Double>(0), at<Double>(1)));
		return;
	}
	if (type != DoubleType) { fprintf(stderr, "double only\n"); exit(3); }
	OP("sqrt") { give<Double>(Math::Sqrt(at<Double>(0))); return; }
	OP("fma") { give<Double>(Math::FusedMultiplyAdd(at<Double>(0), at<Double>(1), at<Double>(2))); return; }
	OP("rem") { give<Double>(Math::IEEERemainder(at<Double>(0), at<Double>(1))); return; }
	unknownOp(op);
}
static void observe() {
	one(S, type);
	for (int k = 0; k < 3; ++k) bytesOf(S, reg[k], width);
}
