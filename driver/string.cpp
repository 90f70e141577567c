// String: order (a[0] = <<same object, mode, ...>>) and search (a[0] = <<same object, form, ...>>); a[1] and a[2] texts.
#include "drv.h"
static String *s1, *s2;
static Array* chs;
static void resetState() {}
static int sign(int n) { return n < 0 ? -1 : n > 0 ? 1 : 0; }
static void perform(const char* op) {
	bool any = strcmp(op, "indexAny") == 0 || strcmp(op, "lastAny") == 0;
	s1 = mkString(1);
	s2 = nullptr;
	chs = nullptr;
	if (any) chs = mkChars(2);
	else s2 = A.i(0, 0) ? s1 : mkString(2);
#define P(j) A.i(0, j)
	int mode = A.len[0] > 1 ? P(1) : 0;
	OP("compare") { one(R, sign(mode == 0 ? String::CompareOrdinal(s1, s2) : mode == 1 ? String::Compare(s1, s2, true) : String::Compare(s1, s2))); return; }
	OP("compareTo") { one(R, sign(s1->CompareTo(s2))); return; }
	OP("compareToObj") { one(R, sign(s1->CompareTo((Object*) s2))); return; }
	OP("compareToOther") { one(R, sign(s1->CompareTo(mode == 0 ? (Object*) new Int32Value(1) : mode == 1 ? new Object() : (Object*) new CharValue(L'a')))); return; }
	OP("compareRange") {
		one(R, sign(mode == 0 ? String::CompareOrdinal(s1, P(2), s2, P(3), P(4)) : mode == 1 ? String::Compare(s1, P(2), s2, P(3), P(4), true)
			: String::Compare(s1, P(2), s2, P(3), P(4))));
		return;
	}
	OP("compareRaw") {
		Char *b = rawChars(1), *c = rawChars(2);
		int r = String::Compare(b, P(2), c, P(3), P(4), mode == 1, mode == 0);
		free(b); free(c);
		one(R, sign(r));
		return;
	}
	OP("equals") {
		Boolean r = false;
		switch (mode) {
		case 0: r = String::Equals(s1, s2); break;
		case 1: r = String::Equals(s1, (Object*) s2); break;
		case 2: r = String::Equals((Object*) s1, s2); break;
		case 3: r = s1->Equals(s2); break;
		case 4: r = s1->Equals((Object*) s2); break;
		case 5: r = ((Object*) s1)->Equals((Object*) s2); break;
		default: exit(3);
		}
		one(R, r ? 1 : 0);
		return;
	}
	OP("unequal") { one(R, String::op_Inequality(s1, s2) ? 1 : 0); return; }
	OP("equalsOther") {
		Object* o = P(2) == 0 ? (Object*) new Int32Value(97) : P(2) == 1 ? new Object() : (Object*) new CharValue(L'a');
		one(R, (mode == 1 ? String::Equals(s1, o) : mode == 2 ? String::Equals(o, s1) : s1->Equals(o)) ? 1 : 0);
		return;
	}
	int f = mode;
#define FORWARD(NAME, X) one(R, f == 1 ? s1->NAME(X) : f == 2 ? s1->NAME(X, P(2)) : s1->NAME(X, P(2), P(3)));
	OP("index") { FORWARD(IndexOf, s2) return; }
	OP("indexChar") { FORWARD(IndexOf, (Char) A.i(2)) return; }
	OP("searchOther") {
		Array* w = oddArray(P(2));
		switch (f) {
		case 1: one(R, s1->IndexOfAny(w)); return;
		case 2: one(R, s1->IndexOfAny(w, 0)); return;
		case 3: one(R, s1->IndexOfAny(w, 0, 1)); return;
		case 4: one(R, s1->LastIndexOfAny(w)); return;
		case 5: one(R, s1->LastIndexOfAny(w, 0)); return;
		case 6: one(R, s1->LastIndexOfAny(w, 0, 1)); return;
		}
		exit(3);
	}
	OP("indexAny") { FORWARD(IndexOfAny, chs) return; }
	OP("last") { FORWARD(LastIndexOf, s2) return; }
	OP("lastChar") { FORWARD(LastIndexOf, (Char) A.i(2)) return; }
	OP("lastAny") { FORWARD(LastIndexOfAny, chs) return; }
	OP("contains") { one(R, s1->Contains(s2) ? 1 : 0); return; }
	OP("starts") { one(R, s1->StartsWith(s2) ? 1 : 0); return; }
	OP("ends") { one(R, s1->EndsWith(s2) ? 1 : 0); return; }
	OP("endsChar") { one(R, s1->EndsWith((Char) A.i(2)) ? 1 : 0); return; }
	unknownOp(op);
}
static void observe() {
	str(S, s1);
	if (chs != nullptr) {
		S.open();
		for (int i = 0; i < chs->get_Length(); ++i) S.add((int) *(Char*) chs->Address(i));
	}
	else str(S, s2);
}
