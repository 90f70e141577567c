// Double and Single values (C21).
#include "drv.h"
static int type, width;
static unsigned char reg[2][8];
static String* text;
static void resetState() { type = DoubleType; width = 8; memset(reg, 0, sizeof reg); text = new String(L""); }
template<class T> static T at(int k) { T v; memcpy(&v, reg[k], sizeof v); return v; }
template<class T> static void put(int k, T v) { memcpy(reg[k], &v, sizeof v); }
template<class T> static void give(T v) { bytesOf(R, &v, sizeof v); }
static int sign(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
template<class T, class V> static bool common(const char* op) {
	T x = at<T>(0), y = at<T>(1);
	OP("class") {
		R.open();
		R.add(V::IsFinite(x) ? 1 : 0); R.add(V::IsInfinity(x) ? 1 : 0); R.add(V::IsNaN(x) ? 1 : 0); R.add(V::IsNegative(x) ? 1 : 0);
		R.add(V::IsNormal(x) ? 1 : 0); R.add(V::IsSubnormal(x) ? 1 : 0); R.add(V::IsPositiveInfinity(x) ? 1 : 0); R.add(V::IsNegativeInfinity(x) ? 1 : 0);
		return true;
	}
	OP("cmp") {
		V a(x), b(y);
		Object* o = &b;
		Object* none = nullptr;
		R.open(); R.add(sign(a.CompareTo(y))); R.add(sign(a.CompareTo(o)));
		R.open(); R.add(a.Equals(y) ? 1 : 0); R.add(a.Equals(o) ? 1 : 0);
		R.open(); R.add(sign(a.CompareTo(none))); R.add(a.Equals(none) ? 1 : 0);
		return true;
	}
	OP("max") { give<T>(Math::Max(x, y)); return true; }
	OP("min") { give<T>(Math::Min(x, y)); return true; }
	OP("limits") {
		give<T>(V::MaxValue); give<T>(V::MinValue); give<T>(V::Epsilon); give<T>(V::PositiveInfinity); give<T>(V::NegativeInfinity);
		T n = V::NaN;
		one(R, n != n ? 1 : 0);
		return true;
	}
	OP("text") { V a(x); str(R, a.ToString()); return true; }
	OP("parse") { give<T>(V::Parse(text)); return true; }
	OP("tryParse") { T v = 77; one(R, V::TryParse(text, v) ? 1 : 0); give<T>(v); return true; }
	return false;
}
static void perform(const char* op) {
	OP("let") {
		type = A.i(0);
		width = type == DoubleType ? 8 : 4;
		for (int k = 0; k < 2; ++k)
			for (int i = 0; i < width; ++i) reg[k][i] = (unsigned char) A.i(k + 1, i);
		return;
	}
	OP("set") { text = mkString(0); return; }
	OP("append") { text = String::Concat(text, mkString(0)); return; }
	OP("swap") { unsigned char t[8]; memcpy(t, reg[0], 8); memcpy(reg[0], reg[1], 8); memcpy(reg[1], t, 8); return; }
	if (type == DoubleType ? common<Double, DoubleValue>(op) : common<Single, SingleValue>(op)) return;
	if (type == SingleType) {
		OP("bits") {
			UInt32 u = SingleValue::ToUInt32(at<Single>(0)), v;
			memcpy(&v, reg[1], 4);
			bytesOf(R, &u, 4);
			give<Single>(SingleValue::ToSingle(v));
			return;
		}
	}
	Double x = at<Double>(0), y = at<Double>(1);
	OP("up") { Double r = Math::BitIncrement(x); if (!(x != x && r != r)) put(0, r); return; }
	OP("down") { Double r = Math::BitDecrement(x); if (!(x != x && r != r)) put(0, r); return; }
	OP("copySign") { give<Double>(Math::CopySign(x, y)); return; }
	OP("maxMagn") { give<Double>(Math::MaxMagnitude(x, y)); return; }
	OP("minMagn") { give<Double>(Math::MinMagnitude(x, y)); return; }
	OP("ilogb") { one(R, Math::ILogB(x)); return; }
	OP("scaleB") { give<Double>(Math::ScaleB(x, A.i(0))); return; }
	unknownOp(op);
}
static void observe() {
	one(S, type);
	for (int k = 0; k < 2; ++k) bytesOf(S, reg[k], width);
	str(S, text);
}
