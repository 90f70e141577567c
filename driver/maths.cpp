// Integer mathematics, clamping and rounding (C19).
#include "drv.h"
#define INTS(X) X(SByteType, SByte) X(ByteType, Byte) X(Int16Type, Int16) X(UInt16Type, UInt16) \
	X(Int32Type, Int32) X(UInt32Type, UInt32) X(Int64Type, Int64) X(UInt64Type, UInt64)
#define FLOATS(X) X(SingleType, Single) X(DoubleType, Double)
#define SIGNED(X) X(SByteType, SByte) X(Int16Type, Int16) X(Int32Type, Int32) X(Int64Type, Int64)
static int type, width;
static unsigned char reg[3][8];
static int widthOf(int t) {
	switch (t) {
#define X(code, T) case code: return sizeof(T);
	INTS(X) FLOATS(X)
#undef X
	}
	exit(3);
}
static void resetState() { type = Int32Type; width = 4; memset(reg, 0, sizeof reg); }
template<class T> static T at(int k) { T v; memcpy(&v, reg[k], sizeof v); return v; }
template<class T> static void give(T v) { bytesOf(R, &v, sizeof v); }
static void perform(const char* op) {
	OP("let") {
		type = A.i(0);
		width = widthOf(type);
		for (int k = 0; k < 3; ++k)
			for (int i = 0; i < width; ++i) reg[k][i] = (unsigned char) A.i(k + 1, i);
		return;
	}
	OP("max") { switch (type) {
#define X(code, T) case code: give<T>(Math::Max(at<T>(0), at<T>(1))); return;
		INTS(X)
#undef X
	} }
	OP("min") { switch (type) {
#define X(code, T) case code: give<T>(Math::Min(at<T>(0), at<T>(1))); return;
		INTS(X)
#undef X
	} }
	OP("sign") { switch (type) {
#define X(code, T) case code: one(R, Math::Sign(at<T>(0))); return;
		SIGNED(X) FLOATS(X)
#undef X
	} }
	OP("abs") { switch (type) {
#define X(code, T) case code: give<Double>(Math::Abs(at<T>(0))); return;
		SIGNED(X) FLOATS(X)
#undef X
	} }
	OP("clamp") { switch (type) {
#define X(code, T) case code: give<T>(Math::Clamp(at<T>(0), at<T>(1), at<T>(2))); return;
		INTS(X) FLOATS(X)
#undef X
	} }
	OP("bigMul") { give<Int64>(Math::BigMul(at<Int32>(0), at<Int32>(1))); return; }
	OP("divRem") { switch (type) {
#define X(code, T) case code: { T rem = 99; T q = Math::DivRem(at<T>(0), at<T>(1), rem); give<T>(q); give<T>(rem); return; }
		X(Int32Type, Int32) X(Int64Type, Int64)
#undef X
	} }
	OP("divide") { switch (type) {
#define X(code, T) case code: give<T>(Math::Divide(at<T>(0), at<T>(1))); return;
		X(Int64Type, Int64) X(DoubleType, Double)
#undef X
	} }
	OP("round") { give<Double>(Math::Round(at<Double>(0))); return; }
	OP("floor") { give<Double>(Math::Floor(at<Double>(0))); return; }
	OP("ceiling") { give<Double>(Math::Ceiling(at<Double>(0))); return; }
	OP("trunc") { give<Double>(Math::Truncate(at<Double>(0))); return; }
	OP("digits") {
		if (A.len[0] == 1) give<Double>(Math::Round(at<Double>(0), A.i(0, 0)));
		else give<Double>(Math::Round(at<Double>(0), A.i(0, 0), (MidpointRounding) A.i(0, 1)));
		return;
	}
	unknownOp(op);
}
static void observe() {
	one(S, type);
	for (int k = 0; k < 3; ++k) bytesOf(S, reg[k], width);
}
