// BitConverter.
#include "drv.h"
static Array* arr;
static void resetState() { arr = nullptr; }
static Array* bytes(int g) {
	if (A.null(g)) return nullptr;
	Array* x = new Array(ByteType, A.len[g]);
	for (int i = 0; i < A.len[g]; ++i) *(Byte*) x->Address(i) = (Byte) A.i(g, i);
	return x;
}
static void showArray(Groups& G, Array* x) {
	if (x == nullptr) { one(G, -1); return; }
	G.open();
	if (x->GetElementType() != ByteType || x->get_Rank() != 1) G.add(-7);
	for (int i = 0; i < x->get_Length(); ++i) G.add(*(Byte*) x->Address(i));
}
static Array* convert(int t, int g) {
	switch (t) {
	case BooleanType: return BitConverter::GetBytes((Boolean) (A.i(g) != 0));
	case CharType: return BitConverter::GetBytes((Char) wide<UInt16>(g));
	case Int16Type: return BitConverter::GetBytes(wide<Int16>(g));
	case UInt16Type: return BitConverter::GetBytes(wide<UInt16>(g));
	case Int32Type: return BitConverter::GetBytes(wide<Int32>(g));
	case UInt32Type: return BitConverter::GetBytes(wide<UInt32>(g));
	case Int64Type: return BitConverter::GetBytes(wide<Int64>(g));
	case UInt64Type: return BitConverter::GetBytes(wide<UInt64>(g));
	case SingleType: return BitConverter::GetBytes(wide<Single>(g));
	case DoubleType: return BitConverter::GetBytes(wide<Double>(g));
	}
	exit(3);
}
#define GIVE(T, expr) { T v = expr; bytesOf(R, &v, sizeof v); return; }
static void perform(const char* op) {
	OP("use") { arr = bytes(0); return; }
	OP("getBytes") { showArray(R, convert(A.i(0), 1)); return; }
	OP("take") { arr = convert(A.i(0), 1); showArray(R, arr); return; }
	OP("to") {
		int i = A.i(0, 1);
		switch (A.i(0, 0)) {
		case BooleanType: { Boolean b = BitConverter::ToBoolean(arr, i); one(R, b ? 1 : 0); return; }
		case CharType: {
			Char c = BitConverter::ToChar(arr, i);
			R.open(); R.add(c & 255); R.add((c >> 8) & 255);
			if ((c >> 16) != 0) R.add(c >> 16);
			return;
		}
		case Int16Type: GIVE(Int16, BitConverter::ToInt16(arr, i))
		case UInt16Type: GIVE(UInt16, BitConverter::ToUInt16(arr, i))
		case Int32Type: GIVE(Int32, BitConverter::ToInt32(arr, i))
		case UInt32Type: GIVE(UInt32, BitConverter::ToUInt32(arr, i))
		case Int64Type: GIVE(Int64, BitConverter::ToInt64(arr, i))
		case UInt64Type: GIVE(UInt64, BitConverter::ToUInt64(arr, i))
		case SingleType: GIVE(Single, BitConverter::ToSingle(arr, i))
		case DoubleType: GIVE(Double, BitConverter::ToDouble(arr, i))
		}
		exit(3);
	}
	OP("order") { one(R, BitConverter::IsLittleEndian ? 1 : 0); return; }
	OP("doubleBits") GIVE(Int64, BitConverter::DoubleToInt64Bits(wide<Double>(0)))
	OP("bitsDouble") GIVE(Double, BitConverter::Int64BitsToDouble(wide<Int64>(0)))
	OP("text") {
		int i = A.i(0, 0), n = A.i(0, 1);
		if (n == -1 && i == 0) str(R, BitConverter::ToString(arr));
		else if (n == -1) str(R, BitConverter::ToString(arr, i));
		else str(R, BitConverter::ToString(arr, i, n));
		return;
	}
	unknownOp(op);
}
static void observe() { showArray(S, arr); }
