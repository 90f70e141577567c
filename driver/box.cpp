// Boxed values (C14).
#include "drv.h"
#define BOXES(X) X(BooleanType, Boolean) X(CharType, Char) X(SByteType, SByte) X(ByteType, Byte) X(Int16Type, Int16) X(UInt16Type, UInt16) \
	X(Int32Type, Int32) X(UInt32Type, UInt32) X(Int64Type, Int64) X(UInt64Type, UInt64) X(SingleType, Single) X(DoubleType, Double)
static Object* ref[2];
static Groups given[2];
static Object* named[4];
static void resetState() {
	ref[0] = ref[1] = nullptr;
	for (int k = 0; k < 2; ++k) { given[k].clear(); one(given[k], -1); }
	named[0] = new String(L"5");
	named[1] = new String(L"ab");
	named[2] = new Object();
	named[3] = new StringBuilder();
}
template<class T> static T raw(const Groups& G) {         // G: one group, type followed by bytes
	unsigned char b[sizeof(T)];
	for (unsigned i = 0; i < sizeof(T); ++i) b[i] = (unsigned char) G.i(0, i + 1);
	T v;
	memcpy(&v, b, sizeof v);
	return v;
}
static Object* make(const Groups& G) {
	switch (G.i(0)) {
#define X(code, T) case code: return new T##Value(raw<T>(G));
	BOXES(X)
#undef X
	case DateTimeType: return new DateTimeValue(DateTime(raw<UInt64>(G)));
	case TimeSpanType: return new TimeSpanValue(TimeSpan(raw<Int64>(G)));
	case StringType: case ObjectType: return named[G.i(0, 1)];
	}
	exit(3);
}
template<class T> static void give(T v) { bytesOf(R, &v, sizeof v); }
static int sign(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
static void perform(const char* op) {
	OP("let") {
		int k = A.i(0);
		given[k].clear();
		given[k].open();
		for (int i = 0; i < A.len[1]; ++i) given[k].add(A.g[1][i]);
		ref[k] = A.null(1) ? nullptr : make(given[k]);
		return;
	}
	Object* x = ref[0];
	Object* y = ref[1];
	OP("type") { one(R, (int) x->GetRawDataType()); return; }
	OP("equals") {
		switch (A.i(0)) {
		case 0: one(R, x->Equals(y) ? 1 : 0); return;
		case 1: one(R, Object::Equals(x, y) ? 1 : 0); return;
		case 2:
			switch (given[0].i(0)) {
#define X(code, T) case code: one(R, ((T##Value*) x)->Equals(raw<T>(given[1])) ? 1 : 0); return;
			BOXES(X)
#undef X
			case DateTimeType: one(R, ((DateTimeValue*) x)->Equals(DateTime(raw<UInt64>(given[1]))) ? 1 : 0); return;
			case TimeSpanType: one(R, ((TimeSpanValue*) x)->Equals(TimeSpan(raw<Int64>(given[1]))) ? 1 : 0); return;
			}
		}
	}
	OP("compare") {
		bool box = A.i(0) == 0;
		switch (given[0].i(0)) {
#define X(code, T) case code: one(R, sign(box ? ((T##Value*) x)->CompareTo(y) : ((T##Value*) x)->CompareTo(raw<T>(given[1])))); return;
		BOXES(X)
#undef X
		case DateTimeType: one(R, sign(box ? ((DateTimeValue*) x)->CompareTo(y) : ((DateTimeValue*) x)->CompareTo(DateTime(raw<UInt64>(given[1]))))); return;
		case TimeSpanType: one(R, sign(box ? ((TimeSpanValue*) x)->CompareTo(y) : ((TimeSpanValue*) x)->CompareTo(TimeSpan(raw<Int64>(given[1]))))); return;
		}
	}
	OP("as") {
		switch (A.i(0)) {
		case BooleanType: one(R, x->get_AsBoolean() ? 1 : 0); return;
		case CharType: give<Char>(x->get_AsChar()); return;
		case SByteType: give<SByte>(x->get_AsSByte()); return;
		case ByteType: give<Byte>(x->get_AsByte()); return;
		case Int16Type: give<Int16>(x->get_AsInt16()); return;
		case UInt16Type: give<UInt16>(x->get_AsUInt16()); return;
		case Int32Type: give<Int32>(x->get_AsInt32()); return;
		case UInt32Type: give<UInt32>(x->get_AsUInt32()); return;
		case Int64Type: give<Int64>(x->get_AsInt64()); return;
		case UInt64Type: give<UInt64>(x->get_AsUInt64()); return;
		case SingleType: give<Single>(x->get_AsSingle()); return;
		case DoubleType: give<Double>(x->get_AsDouble()); return;
		case DateTimeType: give<UInt64>(x->get_AsDateTime().value); return;
		case TimeSpanType: give<Int64>(x->get_AsTimeSpan().value); return;
		}
	}
	unknownOp(op);
}
static void observe() {
	for (int k = 0; k < 2; ++k) {
		S.open();
		for (int i = 0; i < given[k].len[0]; ++i) S.add(given[k].g[0][i]);
	}
}
