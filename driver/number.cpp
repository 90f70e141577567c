// Integer, Boolean and Char text (C13).
#include "drv.h"
static String* text;
static void resetState() { text = new String(L""); }
template<class T> static void give(T v) { bytesOf(R, &v, sizeof v); }
#define INTS(X) X(SByteType, SByte) X(ByteType, Byte) X(Int16Type, Int16) X(UInt16Type, UInt16) \
	X(Int32Type, Int32) X(UInt32Type, UInt32) X(Int64Type, Int64) X(UInt64Type, UInt64)
static String* shown(int t) {
	switch (t) {
#define X(code, T) case code: { T##Value v(wide<T>(1)); return v.ToString(); }
	INTS(X)
#undef X
	case BooleanType: { BooleanValue v(A.i(1) != 0); return v.ToString(); }
	case CharType: {
		Char c = (Char) A.i(1);
		CharValue v(c);
		String* a = v.ToString();
		String* b = CharValue::ToString(c);
		if (a->get_Length() != b->get_Length() || a->get_Chars(0) != b->get_Chars(0)) return nullptr;
		return a;
	}
	}
	exit(3);
}
static String* limit(int t, int high) {
	switch (t) {
#define X(code, T) case code: { T##Value v(high ? T##Value::MaxValue : T##Value::MinValue); return v.ToString(); }
	INTS(X)
#undef X
	}
	exit(3);
}
static void perform(const char* op) {
	OP("set") { text = mkString(0); return; }
	OP("append") { text = String::Concat(text, mkString(0)); return; }
	OP("show") { text = shown(A.i(0)); return; }
	OP("limit") { text = limit(A.i(0, 0), A.i(0, 1)); return; }
	OP("parse") {
		switch (A.i(0)) {
#define X(code, T) case code: give<T>(T##Value::Parse(text)); return;
		INTS(X)
#undef X
		case BooleanType: one(R, BooleanValue::Parse(text) ? 1 : 0); return;
		case CharType: one(R, (int) CharValue::Parse(text)); return;
		}
	}
	OP("tryParse") {
		switch (A.i(0)) {
#define X(code, T) case code: { T v; memset(&v, 0x5a, sizeof v); one(R, T##Value::TryParse(text, v) ? 1 : 0); give<T>(v); return; }
		INTS(X)
#undef X
		case CharType: { Char c = L'q'; one(R, CharValue::TryParse(text, c) ? 1 : 0); one(R, (int) c); return; }
		}
	}
	unknownOp(op);
}
static void observe() { str(S, text); }
