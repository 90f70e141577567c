// Strings and character arrays in slots.  Compile with -DNS=<strings> -DNA=<arrays>.
#include "drv.h"
static String* sl[NS + 1];
static Array* al[NA + 1];
static void resetState() {
	for (int i = 0; i <= NS; ++i) sl[i] = nullptr;
	for (int i = 0; i <= NA; ++i) al[i] = nullptr;
}
static Object* item(int x) { return x < 0 ? (Object*) new Int32Value(-(x + 2)) : (Object*) sl[x]; }
static Array* items(int g) {
	if (A.null(g) && A.len[g] == 1) return nullptr;
	bool strings = true;
	for (int i = 0; i < A.len[g]; ++i) strings = strings && A.i(g, i) >= 0;
	Array* x = new Array(strings && A.len[g] % 2 ? StringType : ObjectType, A.len[g]);
	for (int i = 0; i < A.len[g]; ++i) *(Object**) x->Address(i) = item(A.i(g, i));
	return x;
}
static void perform(const char* op) {
#define P(j) A.i(0, j)
	int k = P(0);
	String* t = A.len[0] > 1 && P(1) >= 0 && P(1) <= NS ? sl[P(1)] : nullptr;
	OP("other") {                 // an array that is not a one-dimensional array of characters (or of objects)
		Array* w = oddArray(P(3));
		switch (P(2)) {
		case 0: sl[k] = t->Trim(w); return;
		case 1: sl[k] = t->TrimStart(w); return;
		case 2: sl[k] = t->TrimEnd(w); return;
		case 3: sl[k] = new String(w); return;
		case 4: sl[k] = new String(w, 0, 1); return;
		case 5: t->CopyTo(0, w, 0, 1); return;
		case 6: sl[k] = String::Concat(w); return;
		case 7: sl[k] = String::Join(t, w); return;
		case 8: sl[k] = String::Join((Char) 44, w, 0, 1); return;
		}
		exit(3);
	}
	// nothing to ask: the specification refuses it, too
	static const char* asked[] = {"self", "substring", "insert", "remove", "replaceChar", "replace", "padLeft", "padRight", "trim", "trimSet", "lower", "upper",
		"toArray", "copyTo", "char", "format"};
	for (unsigned i = 0; i < sizeof asked / sizeof *asked; ++i)
		if (t == nullptr && strcmp(op, asked[i]) == 0) throw new Exception();
	if (strcmp(op, "put") == 0 && al[k] == nullptr) throw new Exception();
	OP("literal") { sl[k] = mkString(1); return; }
	OP("null") { sl[k] = nullptr; return; }
	OP("fromArray") { sl[k] = P(2) == 0 && P(3) == -1 ? new String(al[P(1)]) : new String(al[P(1)], P(2), P(3)); return; }
	OP("fill") { sl[k] = new String((Char) P(1), P(2)); return; }
	OP("fromRaw") {
		Char* b = rawChars(1);
		String* x = nullptr;
		try { x = P(2) == -1 ? new String(b, P(1)) : new String(b, P(1), P(2)); }
		catch (Exception*) { free(b); throw; }
		for (int i = 0; i < A.len[1]; ++i) b[i] = L'!';
		free(b);
		sl[k] = x;
		return;
	}
	OP("copy") { sl[k] = String::Copy(t); return; }
	OP("self") { sl[k] = t->ToString(); return; }
	OP("substring") { sl[k] = P(3) == -1 ? t->Substring(P(2)) : t->Substring(P(2), P(3)); return; }
	OP("insert") { sl[k] = t->Insert(P(2), sl[P(3)]); return; }
	OP("remove") { sl[k] = P(3) == -1 ? t->Remove(P(2)) : t->Remove(P(2), P(3)); return; }
	OP("replaceChar") { sl[k] = t->Replace((Char) P(2), (Char) P(3)); return; }
	OP("replace") { sl[k] = t->Replace(sl[P(2)], sl[P(3)]); return; }
	OP("padLeft") { sl[k] = P(3) == 32 ? t->PadLeft(P(2)) : t->PadLeft(P(2), (Char) P(3)); return; }
	OP("padRight") { sl[k] = P(3) == 32 ? t->PadRight(P(2)) : t->PadRight(P(2), (Char) P(3)); return; }
	OP("trim") { sl[k] = t->Trim(); return; }
	OP("trimSet") { Array* s = al[P(2)]; sl[k] = P(3) == 1 ? t->TrimStart(s) : P(3) == 2 ? t->TrimEnd(s) : t->Trim(s); return; }
	OP("lower") { sl[k] = k % 2 ? t->ToLower() : t->ToLowerInvariant(); return; }
	OP("upper") { sl[k] = k % 2 ? t->ToUpper() : t->ToUpperInvariant(); return; }
	OP("concat") {
		Object* o[7];
		int n = A.len[1];
		for (int i = 0; i < n; ++i) o[i] = item(A.i(1, i));
		switch (n) {
		case 1: sl[k] = String::Concat(o[0]); break;
		case 2: sl[k] = String::Concat(o[0], o[1]); break;
		case 3: sl[k] = String::Concat(o[0], o[1], o[2]); break;
		case 4: sl[k] = String::Concat(o[0], o[1], o[2], o[3]); break;
		case 5: sl[k] = String::Concat(o[0], o[1], o[2], o[3], o[4]); break;
		case 6: sl[k] = String::Concat(o[0], o[1], o[2], o[3], o[4], o[5]); break;
		case 7: sl[k] = String::Concat(o[0], o[1], o[2], o[3], o[4], o[5], o[6]); break;
		default: exit(3);
		}
		return;
	}
	OP("concatArray") { sl[k] = String::Concat(items(1)); return; }
	OP("joinChar") { sl[k] = P(2) == 0 && P(3) == -1 ? String::Join((Char) P(1), items(1)) : String::Join((Char) P(1), items(1), P(2), P(3)); return; }
	OP("join") { sl[k] = P(2) == 0 && P(3) == -1 ? String::Join(sl[P(1)], items(1)) : String::Join(sl[P(1)], items(1), P(2), P(3)); return; }
	OP("builder") {
		StringBuilder* b = new StringBuilder(t);
		String* x = b->ToString();
		sl[k] = x;
		int i = P(2), c = P(3);
		if (i >= 0 && i < b->get_Length()) { b->set_Chars(i, (Char) c); b->Remove(i, 1); b->Insert(0, (Char) c); }
		b->Append((Char) c, 3);
		b->Clear();
		b->Append(L"!!!!!!!!", 8);
		delete b;
		return;
	}
	OP("newArray") { al[k] = mkChars(1); return; }
	OP("put") { *(Char*) al[k]->Address(P(1)) = (Char) P(2); return; }
	OP("toArray") { al[k] = P(2) == 0 && P(3) == -1 ? t->ToCharArray() : t->ToCharArray(P(2), P(3)); return; }
	OP("copyTo") { t->CopyTo(P(2), al[k], P(3), P(4)); return; }
	OP("char") { one(R, (int) t->get_Chars(P(2))); return; }
	OP("format") {
		int n = P(2);
		Char* w = (Char*) malloc(n > 0 ? n * sizeof(Char) : 1);
		int c;
		try { c = t->FormatString(w, n); }
		catch (Exception*) { free(w); throw; }
		chars(R, w, c);
		if (w[c] != 0) one(R, -77);          // the text in the buffer is terminated
		free(w);
		return;
	}
	OP("empty") { one(R, String::IsNullOrEmpty(t) ? 1 : 0); return; }
	OP("blank") { one(R, String::IsNullOrWhiteSpace(t) ? 1 : 0); return; }
	unknownOp(op);
}
static void observe() {
	for (int i = 1; i <= NS; ++i) {
		str(S, sl[i]);
		if (sl[i] != nullptr && sl[i]->get_Buffer()[sl[i]->get_Length()] != 0) one(S, -77);
	}
	for (int i = 1; i <= NA; ++i) {
		if (al[i] == nullptr) { one(S, -1); continue; }
		S.open();
		for (int j = 0; j < al[i]->get_Length(); ++j) S.add((int) *(Char*) al[i]->Address(j));
	}
}
