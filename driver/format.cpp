// The text of every kind of value, in buffers, strings and string builders (C26).
#include "drv.h"
#define VALUES(X) X(BooleanType, Boolean) X(CharType, Char) X(SByteType, SByte) X(ByteType, Byte) X(Int16Type, Int16) X(UInt16Type, UInt16) \
	X(Int32Type, Int32) X(UInt32Type, UInt32) X(Int64Type, Int64) X(UInt64Type, UInt64) X(SingleType, Single) X(DoubleType, Double)
static Object* x;
static Groups given;
static StringBuilder* sb;
template<class T> static T raw() {
	unsigned char b[sizeof(T)];
	for (unsigned i = 0; i < sizeof(T); ++i) b[i] = (unsigned char) given.i(0, i + 1);
	T v;
	memcpy(&v, b, sizeof v);
	return v;
}
static String* characters() {
	int n = given.len[0] - 1;
	if (n == 0) return new String(L"");
	Array* a = new Array(CharType, n);
	for (int i = 0; i < n; ++i) *(Char*) a->Address(i) = (Char) given.i(0, i + 1);
	return new String(a);
}
static Object* make() {
	switch (given.i(0)) {
#define X(code, T) case code: return new T##Value(raw<T>());
	VALUES(X)
#undef X
	case DateTimeType: return new DateTimeValue(DateTime(raw<UInt64>()));
	case TimeSpanType: return new TimeSpanValue(TimeSpan(raw<Int64>()));
	case StringType: return characters();
	case ObjectType: return new Object();
	case 100: { StringBuilder* b = new StringBuilder(); b->Append(characters()); return b; }
	case 101: return new Array(Int32Type, 3);
	}
	exit(3);
}
static void let(const int* g, int n) {
	given.clear();
	given.open();
	for (int i = 0; i < n; ++i) given.add(g[i]);
	x = make();
}
static void resetState() {
	static const int first[] = { 2, 0 };
	let(first, 2);
	sb = new StringBuilder();
}
static void perform(const char* op) {
	OP("let") { let(A.g[0], A.len[0]); return; }
	OP("text") { str(R, x->ToString()); return; }
	OP("into") {
		int n = A.i(0);
		Char* w = (Char*) malloc(n > 0 ? n * sizeof(Char) : 1);
		for (int i = 0; i < n; ++i) w[i] = 0x7777;
		int c;
		try { c = x->FormatString(w, n); }
		catch (Exception*) { free(w); throw; }
		if (c < 0) { free(w); throw new IndexOutOfRangeException(); }
		chars(R, w, c);
		one(R, c < n ? (int) w[c] : -77);
		free(w);
		return;
	}
	OP("concat") {
		String* bar = new String(L"|");
		str(R, String::Concat(x, bar)->Substring(0, String::Concat(x, bar)->get_Length() - 1));
		str(R, String::Concat(x, bar, x));
		Array* l = new Array(ObjectType, 3);
		for (int i = 0; i < 3; ++i) *(Object**) l->Address(i) = i == 1 ? (Object*) bar : x;
		str(R, String::Concat(l));
		return;
	}
	OP("start") { sb = new StringBuilder(); sb->Append(mkString(0)); return; }
	OP("append") {
		switch (given.i(0)) {
#define X(code, T) case code: sb->Append(raw<T>()); return;
		VALUES(X)
#undef X
		case DateTimeType: case TimeSpanType: sb->Append(*(ValueType*) x); return;
		case StringType: sb->Append((String*) x); return;
		default: sb->Append(x); return;
		}
	}
	OP("appendObject") { sb->Append(x); return; }
	OP("appendValue") {
		if (A.i(0) == -1) sb->Append(*(ValueType*) x);
		else sb->Append(*(ValueType*) x, A.i(0));
		return;
	}
	OP("insert") {
		int i = A.i(0);
		switch (given.i(0)) {
#define X(code, T) case code: sb->Insert(i, raw<T>()); return;
		VALUES(X)
#undef X
		case StringType: sb->Insert(i, (String*) x); return;
		default: sb->Insert(i, x); return;
		}
	}
	OP("insertObject") { sb->Insert(A.i(0), x); return; }
	unknownOp(op);
}
static void observe() {
	S.open();
	for (int i = 0; i < given.len[0]; ++i) S.add(given.i(0, i));
	str(S, sb->ToString());
}
