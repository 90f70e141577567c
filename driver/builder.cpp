// StringBuilder.  Compile with -DNB=<number of builders>.
#include "drv.h"
static StringBuilder* sb[NB + 1];
static void resetState() { for (int i = 0; i <= NB; ++i) sb[i] = nullptr; }

// a value <<type>> \o bytes of group g
static Object* box(int g) {
	unsigned char b[8];
	for (int i = 1; i < A.len[g]; ++i) b[i - 1] = (unsigned char) A.i(g, i);
#define BOX(T, V) { T v; memcpy((void*) &v, b, sizeof v); return new V(v); }
	switch (A.i(g)) {
	case BooleanType: return new BooleanValue(b[0] != 0);
	case CharType: BOX(Char, CharValue)
	case SByteType: BOX(SByte, SByteValue)
	case ByteType: BOX(Byte, ByteValue)
	case Int16Type: BOX(Int16, Int16Value)
	case UInt16Type: BOX(UInt16, UInt16Value)
	case Int32Type: BOX(Int32, Int32Value)
	case UInt32Type: BOX(UInt32, UInt32Value)
	case Int64Type: BOX(Int64, Int64Value)
	case UInt64Type: BOX(UInt64, UInt64Value)
	}
	exit(3);
}
template<class T> static T val(int g) {
	unsigned char b[8];
	for (int i = 1; i < A.len[g]; ++i) b[i - 1] = (unsigned char) A.i(g, i);
	T v;
	memcpy((void*) &v, b, sizeof v);
	return v;
}
// the library hands every edit's builder back
static void same(StringBuilder* x, StringBuilder* y) { if (x != y) one(R, -77); }
static void put(StringBuilder* x, bool append, int p, int g) {
#define PUT(TT, T) case TT: same(x, append ? x->Append(val<T>(g)) : x->Insert(p, val<T>(g))); return;
	switch (A.i(g)) {
	case BooleanType: same(x, append ? x->Append((Boolean) (A.i(g, 1) != 0)) : x->Insert(p, (Boolean) (A.i(g, 1) != 0))); return;
	PUT(CharType, Char)
	PUT(SByteType, SByte)
	PUT(ByteType, Byte)
	PUT(Int16Type, Int16)
	PUT(UInt16Type, UInt16)
	PUT(Int32Type, Int32)
	PUT(UInt32Type, UInt32)
	PUT(Int64Type, Int64)
	PUT(UInt64Type, UInt64)
	}
	exit(3);
}
static void perform(const char* op) {
	int b = A.i(0, 0);
	StringBuilder* x = sb[b];
#define G(j) A.i(0, j)
	OP("other") {                 // an array that is not a one-dimensional array of characters
		Array* w = oddArray(G(2));
		switch (G(1)) {
		case 0: x->Append(w); return;
		case 1: x->Append(w, 0, 1); return;
		case 2: x->Insert(0, w); return;
		case 3: x->Insert(0, w, 0, 1); return;
		}
		exit(3);
	}
	OP("new0") { sb[b] = nullptr; sb[b] = new StringBuilder(); return; }
	OP("new1") { sb[b] = nullptr; sb[b] = new StringBuilder(G(1)); return; }
	OP("new2") { sb[b] = nullptr; sb[b] = new StringBuilder(G(1), G(2)); return; }
	OP("newText0") { sb[b] = nullptr; sb[b] = new StringBuilder(mkString(1)); return; }
	OP("newText1") { sb[b] = nullptr; sb[b] = new StringBuilder(mkString(1), G(1)); return; }
	OP("newText3") { sb[b] = nullptr; sb[b] = new StringBuilder(mkString(1), G(1), G(2), G(3)); return; }
	OP("delete") { sb[b] = nullptr; delete x; return; }
	OP("appendString") { same(x, x->Append(mkString(1))); return; }
	OP("appendArray") { same(x, x->Append(mkChars(1))); return; }
	OP("appendObject") { same(x, x->Append((Object*) mkString(1))); return; }
	OP("appendRaw") { Char* p = rawChars(1); same(x, x->Append(p, G(1))); free(p); return; }
	OP("appendPart") { same(x, x->Append(mkString(1), G(1), G(2))); return; }
	OP("appendArrayPart") { same(x, x->Append(mkChars(1), G(1), G(2))); return; }
	OP("appendRepeat") { same(x, x->Append((Char) G(1), (Int32) G(2))); return; }
	OP("appendValue") { put(x, true, 0, 1); return; }
	OP("appendBoxed") { same(x, x->Append(box(1))); return; }
	OP("appendLine") { same(x, A.null(1) ? x->AppendLine() : x->AppendLine(mkString(1))); return; }
	OP("insertString") { same(x, x->Insert(G(1), mkString(1))); return; }
	OP("insertObject") { same(x, x->Insert(G(1), (Object*) mkString(1))); return; }
	OP("appendBuilder") { same(x, x->Append((Object*) (G(1) == 0 ? nullptr : sb[G(1)]))); return; }
	OP("insertBuilder") { same(x, x->Insert(G(1), (Object*) (G(2) == 0 ? nullptr : sb[G(2)]))); return; }
	OP("insertArray") { same(x, x->Insert(G(1), mkChars(1))); return; }
	OP("insertRepeat") { same(x, x->Insert(G(1), mkString(1), G(2))); return; }
	OP("insertPart") { same(x, x->Insert(G(1), mkChars(1), G(2), G(3))); return; }
	OP("insertValue") { put(x, false, G(1), 1); return; }
	OP("insertBoxed") { same(x, x->Insert(G(1), box(1))); return; }
	OP("remove") { same(x, x->Remove(G(1), G(2))); return; }
	OP("replace") { same(x, x->Replace(mkString(1), mkString(2))); return; }
	OP("replacePart") { same(x, x->Replace(mkString(1), mkString(2), G(1), G(2))); return; }
	OP("replaceChar") { same(x, x->Replace((Char) G(1), (Char) G(2))); return; }
	OP("replaceCharPart") { same(x, x->Replace((Char) G(1), (Char) G(2), G(3), G(4))); return; }
	OP("clear") { same(x, x->Clear()); return; }
	OP("setLength") { x->set_Length(G(1)); return; }
	OP("setChar") { x->set_Chars(G(1), (Char) G(2)); return; }
	OP("setCapacity") { x->set_Capacity(G(1)); return; }
	OP("ensureCapacity") { one(R, x->EnsureCapacity(G(1))); return; }
	OP("subText") { str(R, x->ToString(G(1), G(2))); return; }
	OP("getChar") { one(R, (int) x->get_Chars(G(1))); return; }
	OP("equals") { one(R, x->Equals(G(1) == 0 ? (StringBuilder*) nullptr : sb[G(1)]) ? 1 : 0); return; }
	OP("format") {
		int n = G(1);
		Char* w = (Char*) malloc(n > 0 ? n * sizeof(Char) : 1);
		int k = x->FormatString(w, n);
		chars(R, w, k);
		free(w);
		return;
	}
	OP("count") { one(R, x->CountSubStrings(mkString(1), G(1), G(2))); return; }
	unknownOp(op);
}
static void observe() {
	for (int b = 1; b <= NB; ++b) {
		StringBuilder* x = sb[b];
		if (x == nullptr) { one(S, -1); S.open(); continue; }
		String* t = x->ToString();
		str(S, t);
		S.open();
		if (t->get_Length() == x->get_Length() && wmemcmp(t->get_Buffer(), x->get_Buffer(), t->get_Length()) != 0) S.add(-77);
		 S.add(x->get_Length()); S.add(x->get_Capacity()); S.add(x->get_MaxCapacity());
	}
}
