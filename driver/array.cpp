// Arrays and raw buffers (Array, Buffer).  Compile with -DNH=.. -DNE=.. -DEXTLEN=..
#include "drv.h"

static Array* arr[NH + 1];
static bool owned[NH + 1];
static unsigned char* ext[NE + 1];
static const int NOBJ = 11;
static Object* objects[NOBJ + 1];     // object table; the specification knows types and equality classes

static void prepare() {
	if (objects[1] != nullptr) return;
	int k = 1;
	objects[k++] = new String(L"alpha");
	objects[k++] = new String(L"alpha");
	objects[k++] = new String(L"alphabet");
	objects[k++] = new String(L"");
	objects[k++] = new Int32Value(7);
	objects[k++] = new Int32Value(7);
	objects[k++] = new Int64Value(7);
	objects[k++] = new Int32Value(-1);
	objects[k++] = new Object();
	objects[k++] = new Object();
	objects[k++] = new BooleanValue(true);
}
static void resetState() {
	prepare();
	for (int h = 1; h <= NH; ++h) arr[h] = nullptr;
	for (int b = 1; b <= NE; ++b) {
		free(ext[b]);
		ext[b] = (unsigned char*) calloc(EXTLEN, 1);
	}
}
static Array* handle(int h) { return h == 0 ? nullptr : arr[h]; }
static bool refs(Array* x) { return x->GetElementType() == ObjectType || x->GetElementType() == StringType; }
static int idOf(void* p) {
	if (p == nullptr) return 0;
	for (int i = 1; i <= NOBJ; ++i)
		if (objects[i] == p) return i;
	return -7;
}
static int sizeOf(int type) {
	switch (type) {
	case BooleanType: case SByteType: case ByteType: return 1;
	case Int16Type: case UInt16Type: return 2;
	case CharType: case Int32Type: case UInt32Type: case SingleType: return 4;
	}
	return 8;
}
static void* at(Array* x, int g) { return x->Address(A.i(g, 0), A.i(g, 1), A.i(g, 2)); }
static Object* boxed(int g) {
	if (A.null(g)) return nullptr;
	int t = A.i(g, 0);
	if (t == -2) return objects[A.i(g, 1)];
	unsigned char b[8];
	int n = A.len[g] - 1;
	for (int i = 0; i < n; ++i) b[i] = (unsigned char) A.i(g, i + 1);
#define BOX(T, V) { T v; memcpy((void*) &v, b, sizeof v); return new V(v); }
	switch (t) {
	case BooleanType: return new BooleanValue(b[0] != 0);
	case CharType: BOX(Char, CharValue)
	case SByteType: BOX(SByte, SByteValue)
	case ByteType: BOX(Byte, ByteValue)
	case Int16Type: BOX(Int16, Int16Value)
	case UInt16Type: BOX(UInt16, UInt16Value)
	case Int32Type: BOX(Int32, Int32Value)
	case UInt32Type: BOX(UInt32, UInt32Value)
	case Int64Type: BOX(Int64, Int64Value)
	case UInt64Type: BOX(UInt64, UInt64Value)
	case SingleType: BOX(Single, SingleValue)
	case DoubleType: BOX(Double, DoubleValue)
	case DateTimeType: BOX(DateTime, DateTimeValue)
	case TimeSpanType: BOX(TimeSpan, TimeSpanValue)
	}
	fprintf(stderr, "cannot box type %d\n", t);
	exit(3);
}
static void unbox(Object* o) {
	int id = idOf(o);
	R.open();
	if (id >= 0) { R.add(-2); R.add(id); return; }
	R.add(o->GetRawDataType());
	unsigned char b[8];
#define RAW(T, get) { T v = o->get(); memcpy(b, (void*) &v, sizeof v); for (unsigned i = 0; i < sizeof v; ++i) R.add(b[i]); return; }
	switch (o->GetRawDataType()) {
	case BooleanType: R.add(o->get_AsBoolean() ? 1 : 0); return;
	case CharType: RAW(Char, get_AsChar)
	case SByteType: RAW(SByte, get_AsSByte)
	case ByteType: RAW(Byte, get_AsByte)
	case Int16Type: RAW(Int16, get_AsInt16)
	case UInt16Type: RAW(UInt16, get_AsUInt16)
	case Int32Type: RAW(Int32, get_AsInt32)
	case UInt32Type: RAW(UInt32, get_AsUInt32)
	case Int64Type: RAW(Int64, get_AsInt64)
	case UInt64Type: RAW(UInt64, get_AsUInt64)
	case SingleType: RAW(Single, get_AsSingle)
	case DoubleType: RAW(Double, get_AsDouble)
	case DateTimeType: RAW(DateTime, get_AsDateTime)
	case TimeSpanType: RAW(TimeSpan, get_AsTimeSpan)
	default: return;
	}
}
static Array* indexes(int g) {
	if (A.null(g)) return nullptr;
	Array* x = new Array(Int32Type, A.len[g]);
	for (int i = 0; i < A.len[g]; ++i) *(Int32*) x->Address(i) = A.i(g, i);
	return x;
}
static void perform(const char* op) {
	int h = A.n ? A.i(0, 0) : 0;
	OP("new") {
		arr[h] = nullptr;
		DataType t = (DataType) A.i(0, 1);
		if (A.i(1, 1) == -1) arr[h] = new Array(t, A.i(1, 0));
		else if (A.i(1, 2) == -1) arr[h] = new Array(t, A.i(1, 0), A.i(1, 1));
		else arr[h] = new Array(t, A.i(1, 0), A.i(1, 1), A.i(1, 2));
		owned[h] = true;
		return;
	}
	OP("wrap") {
		arr[h] = nullptr;
		arr[h] = new Array(ext[A.i(0, 2)] + A.i(0, 3), (DataType) A.i(0, 1), A.i(1, 0), A.i(1, 1), A.i(1, 2));
		owned[h] = false;
		return;
	}
	OP("delete") { Array* x = arr[h]; arr[h] = nullptr; delete x; return; }
	OP("poke") {
		void* p = at(arr[h], 1);
		if (refs(arr[h])) *(Object**) p = A.i(2) == 0 ? nullptr : objects[A.i(2)];
		else for (int i = 0; i < A.len[2]; ++i) ((unsigned char*) p)[i] = (unsigned char) A.i(2, i);
		return;
	}
	OP("peek") {
		void* p = at(arr[h], 1);
		if (refs(arr[h])) one(R, idOf(*(Object**) p));
		else bytesOf(R, p, sizeOf(arr[h]->GetElementType()));
		return;
	}
	OP("shape") {
		R.open(); R.add(arr[h]->get_Rank()); R.add(arr[h]->get_Length()); R.add(arr[h]->GetElementType()); R.add(((Object*) arr[h])->GetRawDataType());
		return;
	}
	OP("dim") {
		Int32 k = A.i(0, 1);
		// all three queries have to agree on whether the dimension exists
		int ok = 0;
		Int32 n = 0, lo = 0, up = 0;
		try { n = arr[h]->GetLength(k); ++ok; } catch (IndexOutOfRangeException*) {}
		try { lo = arr[h]->GetLowerBound(k); ++ok; } catch (IndexOutOfRangeException*) {}
		try { up = arr[h]->GetUpperBound(k); ++ok; } catch (IndexOutOfRangeException*) {}
		if (ok == 0) throw new IndexOutOfRangeException();
		R.open(); R.add(n); R.add(lo); R.add(up);
		if (ok != 3) R.add(ok);
		return;
	}
	OP("init") {
		if (refs(arr[h])) {
			Object** raw = (Object**) malloc(A.len[1] * sizeof(Object*) + 1);
			for (int i = 0; i < A.len[1]; ++i) raw[i] = A.i(1, i) == 0 ? nullptr : objects[A.i(1, i)];
			arr[h]->Initialize(raw);
			free(raw);
		}
		else {
			unsigned char* raw = (unsigned char*) malloc(A.len[1]);
			for (int i = 0; i < A.len[1]; ++i) raw[i] = (unsigned char) A.i(1, i);
			arr[h]->Initialize(raw);
			free(raw);
		}
		return;
	}
	OP("ext") {
		for (int i = 0; i < A.len[1]; ++i) ext[h][A.i(0, 1) + i] = (unsigned char) A.i(1, i);
		return;
	}
	OP("copy") { Array::Copy(handle(h), A.i(0, 1), handle(A.i(0, 2)), A.i(0, 3), A.i(0, 4)); return; }
	OP("ccopy") { Array::ConstrainedCopy(handle(h), A.i(0, 1), handle(A.i(0, 2)), A.i(0, 3), A.i(0, 4)); return; }
	OP("copy3") { Array::Copy(handle(h), handle(A.i(0, 1)), A.i(0, 2)); return; }
	OP("copyTo") { handle(h)->CopyTo(handle(A.i(0, 1)), A.i(0, 2)); return; }
	OP("clear") { Array::Clear(handle(h), A.i(0, 1), A.i(0, 2)); return; }
	OP("indexOf") {
		Object* o = A.i(0, 1) == 0 ? nullptr : objects[A.i(0, 1)];
		Int32 from = A.i(0, 2), count = A.i(0, 3);
		if (count == -1 && from == 0) one(R, Array::IndexOf(handle(h), o));
		else if (count == -1) one(R, Array::IndexOf(handle(h), o, from));
		else one(R, Array::IndexOf(handle(h), o, from, count));
		return;
	}
	OP("setValue") {
		Object* o = boxed(1);
		if (A.i(2, 1) == -1 && A.i(2, 2) == -1) arr[h]->SetValue(o, A.i(2, 0));
		else if (A.i(2, 2) == -1) arr[h]->SetValue(o, A.i(2, 0), A.i(2, 1));
		else arr[h]->SetValue(o, A.i(2, 0), A.i(2, 1), A.i(2, 2));
		return;
	}
	OP("getValue") {
		if (A.i(1, 1) == -1 && A.i(1, 2) == -1) unbox(arr[h]->GetValue(A.i(1, 0)));
		else if (A.i(1, 2) == -1) unbox(arr[h]->GetValue(A.i(1, 0), A.i(1, 1)));
		else unbox(arr[h]->GetValue(A.i(1, 0), A.i(1, 1), A.i(1, 2)));
		return;
	}
	OP("setValueAt") { Object* o = boxed(1); arr[h]->SetValue(o, indexes(2)); return; }
	OP("getValueAt") { unbox(arr[h]->GetValue(indexes(1))); return; }
	OP("blockCopy") { Buffer::BlockCopy(handle(h), A.i(0, 1), handle(A.i(0, 2)), A.i(0, 3), A.i(0, 4)); return; }
	OP("byteLength") { one(R, Buffer::ByteLength(handle(h))); return; }
	OP("getByte") { one(R, Buffer::GetByte(handle(h), A.i(0, 1))); return; }
	OP("setByte") { Buffer::SetByte(handle(h), A.i(0, 1), (Byte) A.i(0, 2)); return; }
	unknownOp(op);
}
static void observe() {
	for (int h = 1; h <= NH; ++h) {
		if (arr[h] == nullptr || !owned[h]) { S.open(); continue; }
		Array* x = arr[h];
		int n = x->get_Length();
		if (n > 100000) { one(S, -9); continue; }
		char* p = nullptr;
		if (n > 0)      // the storage begins at the first element
			p = (char*) (x->get_Rank() == 1 ? x->Address(0) : x->get_Rank() == 2 ? x->Address(0, 0) : x->Address(0, 0, 0));
		if (refs(x)) {
			S.open();
			for (int i = 0; i < n; ++i) S.add(idOf(((Object**) p)[i]));
		}
		else bytesOf(S, p, n * sizeOf(x->GetElementType()));
	}
	for (int b = 1; b <= NE; ++b)
		bytesOf(S, ext[b], EXTLEN);
}
