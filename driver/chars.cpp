// Enumerating strings; ASCII (C20).
#include "drv.h"
static String* text[2];
static CharEnumerator* en[3];
static void resetState() {
	for (int k = 0; k < 2; ++k) text[k] = new String(L"");
	for (int k = 0; k < 3; ++k) en[k] = nullptr;
}
#define FORMS(X) X(0, IsControl) X(1, IsDigit) X(2, IsLetter) X(3, IsLetterOrDigit) X(4, IsLower) X(5, IsNumber) X(6, IsPunctuation) \
	X(7, IsSeparator) X(8, IsUpper) X(9, IsWhiteSpace)
static int numeric(Double d) { return d == (int) d ? (int) d : 7777; }
static void perform(const char* op) {
	OP("set") { text[A.i(0)] = mkString(1); return; }
	OP("open") { String* s = text[A.i(0, 1)]; en[A.i(0)] = A.i(0) == 1 ? s->GetEnumerator() : new CharEnumerator(s); return; }
	OP("next") { one(R, en[A.i(0)]->MoveNext() ? 1 : 0); return; }
	OP("back") { en[A.i(0)]->Reset(); return; }
	OP("about") {
		Char c = (Char) A.i(0);
		R.open();
#define X(n, F) R.add(CharValue::F(c) ? 1 : 0);
		FORMS(X)
#undef X
		R.add(numeric(CharValue::GetNumericValue(c)));
		R.open();
		R.add((int) CharValue::ToUpper(c));
		R.add((int) CharValue::ToLower(c));
		return;
	}
	OP("at") {
		String* s = text[A.i(0)];
		Int32 i = A.i(0, 1);
		switch (A.i(0, 2)) {
#define X(n, F) case n: one(R, CharValue::F(s, i) ? 1 : 0); return;
		FORMS(X)
#undef X
		case 10: one(R, numeric(CharValue::GetNumericValue(s, i))); return;
		}
	}
	unknownOp(op);
}
static void observe() {
	str(S, text[0]);
	str(S, text[1]);
	for (int k = 0; k < 3; ++k) {
		S.open();
		if (en[k] == nullptr) { S.add(0); continue; }
		Char c = 0;
		bool refused = false;
		try { c = en[k]->get_Current(); } catch (Exception* e) { refused = true; }
		if (refused) S.add(1);
		else { S.add(2); S.add((int) c); }
	}
}
