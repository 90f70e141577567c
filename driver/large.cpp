// Arrays, builders and strings of many thousand elements.
#include "drv.h"
static Array* arr[3];
static StringBuilder* sb;
static String* text;
static String* other;
static StringBuilder* tiles(int n, int m, int seed, int sep);
static int widths[] = {0, 1, 1, 4, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
static int pat(int seed, int p) { return 33 + ((p * 7 + (p / 256) * 13 + (p / 65536) * 29 + seed) % 89); }
static void resetState() {
	arr[1] = arr[2] = nullptr;
	sb = new StringBuilder();
	text = new String(L"");
	other = new String(L"");
}
static Char* pattern(int seed, int n) {
	Char* b = (Char*) malloc((n + 1) * sizeof(Char));
	for (int i = 0; i < n; ++i) b[i] = (Char) pat(seed, i);
	b[n] = 0;
	return b;
}
static String* patString(int seed, int n) {
	if (n == 0) return new String(L"");
	Array* a = new Array(CharType, n);
	for (int i = 0; i < n; ++i) *(Char*) a->Address(i) = (Char) pat(seed, i);
	return new String(a);
}
static String* of(const int* c, int n) {
	Array* a = new Array(CharType, n);
	for (int i = 0; i < n; ++i) *(Char*) a->Address(i) = (Char) c[i];
	return new String(a);
}
static String* run(int x, int n) {
	int c[16];
	for (int i = 0; i < n; ++i) c[i] = x + i;
	return of(c, n);
}
static StringBuilder* tiles(int n, int m, int seed, int sep) {
	StringBuilder* b = new StringBuilder();
	Char* p = pattern(seed, m);
	for (int i = 0; i < n; ++i) {
		if (i > 0) b->Append((Char) sep);
		b->Append(p, m);
	}
	free(p);
	return b;
}
static int sign(int c) { return c < 0 ? -1 : c > 0; }
static int sizeOf(Array* a) { return a == nullptr ? 0 : a->get_Length() * widths[a->GetElementType()]; }
static int at(int k) { return A.i(0, k - 1); }
static void perform(const char* op) {
	OP("arr") { arr[at(1)] = new Array((DataType) at(2), at(3)); return; }
	OP("fill") {
		Array* a = arr[at(1)];
		int n = sizeOf(a);
		if (n > 0) { Byte* p = (Byte*) a->Address(0); for (int i = 0; i < n; ++i) p[i] = (Byte) pat(at(2), i); }
		return;
	}
	OP("copy") { Array::Copy(arr[at(1)], at(2), arr[at(3)], at(4), at(5)); return; }
	OP("block") { Buffer::BlockCopy(arr[at(1)], at(2), arr[at(3)], at(4), at(5)); return; }
	OP("clear") { Array::Clear(arr[at(1)], at(2), at(3)); return; }
	OP("setByte") { Buffer::SetByte(arr[at(1)], at(2), (Byte) at(3)); return; }
	OP("load") { Byte* p = (Byte*) malloc(sizeOf(arr[at(1)]) + 1); for (int i = 0; i < sizeOf(arr[at(1)]); ++i) p[i] = (Byte) pat(at(2), i); arr[at(1)]->Initialize(p); free(p); return; }
	OP("getByte") { one(R, Buffer::GetByte(arr[at(1)], at(2))); one(R, Buffer::ByteLength(arr[at(1)])); return; }
	OP("boxSet") {
		int k = at(3);
		if (k % 2) arr[at(1)]->SetValue(new Int32Value(k), at(2));
		else {
			Array* where = new Array(Int32Type, 1);
			*(Int32*) where->Address(0) = at(2);
			arr[at(1)]->SetValue(new ByteValue((Byte) k), where);
		}
		return;
	}
	OP("boxGet") { Int64 v = arr[at(1)]->GetValue(at(2))->get_AsInt64(); bytesOf(R, &v, widths[arr[at(1)]->GetElementType()]); return; }
	OP("addr") {
		// a large table is only laid over memory, which nobody touches
		static char memory[8];
		long total = (long) at(2) * at(3) * at(4) * widths[at(1)];
		Array* a = total < 4000000 ? new Array((DataType) at(1), at(2), at(3), at(4)) : new Array(memory, (DataType) at(1), at(2), at(3), at(4));
		Byte* x = (Byte*) a->Address(at(5), at(6), at(7));
		one(R, (int) (x - (Byte*) a->Address(0, 0, 0)));
		one(R, a->get_Length());
		return;
	}
	OP("build") { sb = new StringBuilder(); return; }
	OP("app") { Char* b = pattern(at(1), at(2)); sb->Append(b, at(2)); free(b); return; }
	OP("rep") { sb->Append((Char) at(1), at(2)); return; }
	OP("ins") { sb->Insert(at(1), patString(at(2), at(3))); return; }
	OP("rem") { sb->Remove(at(1), at(2)); return; }
	OP("len") { sb->set_Length(at(1)); return; }
	OP("map") { sb->Replace((Char) at(3), (Char) at(4), at(1), at(2)); return; }
	OP("ensure") { int c = sb->EnsureCapacity(at(1)); one(R, c >= at(1) && sb->get_Capacity() >= at(1) && sb->get_Capacity() >= sb->get_Length()); return; }
	OP("cap") { sb->set_Capacity(at(1)); one(R, sb->get_Capacity() >= at(1)); return; }
	OP("str") { text = sb->ToString(); return; }
	OP("cut") { text = sb->ToString(at(1), at(2)); return; }
	OP("sub") { text = text->Substring(at(1), at(2)); return; }
	OP("sins") { text = text->Insert(at(1), patString(at(2), at(3))); return; }
	OP("srem") { text = text->Remove(at(1), at(2)); return; }
	OP("scat") { text = String::Concat(text, sb->ToString()); return; }
	OP("pad") { text = at(1) == 1 ? text->PadLeft(at(2), (Char) at(3)) : text->PadRight(at(2), (Char) at(3)); return; }
	OP("mark") { text = text->Insert(at(1), run(at(2), at(3))); return; }
	OP("case") { text = at(1) == 1 ? text->ToUpper() : text->ToLower(); return; }
	OP("smap") { text = text->Replace((Char) at(1), (Char) at(2)); return; }
	OP("trim") {
		int n = text->get_Length();
		String* t = text->PadLeft(n + at(2))->PadRight(n + at(2) + at(3));
		text = at(1) == 1 ? t->Trim() : at(1) == 2 ? t->TrimStart(nullptr) : t->TrimEnd(nullptr);
		return;
	}
	OP("many") {
		Array* items = new Array(at(2) % 2 ? StringType : ObjectType, at(2));
		String* item = patString(at(4), at(3));
		for (int i = 0; i < at(2); ++i) *(Object**) items->Address(i) = item;
		int sep[2] = {at(5), at(5)};
		text = at(1) == 0 ? String::Concat(items) : at(1) == 1 ? String::Join((Char) at(5), items) : String::Join(of(sep, 2), items);
		return;
	}
	OP("tile") { sb = tiles(at(1), at(2), at(3), at(4)); return; }
	OP("retile") {
		String* old = of(A.g[0] + 1, 1);
		String* now = A.len[0] > 2 ? of(A.g[0] + 2, A.len[0] - 2) : new String(L"");
		if (at(1) == 3) sb->Replace(old, now);
		else text = text->Replace(old, now);
		return;
	}
	OP("flood") {
		sb = new StringBuilder();
		sb->Append((Char) 120, at(1));
		sb->Replace(run(120, 1), (new String(L"y"))->PadLeft(at(2), L'y'));
		return;
	}
	OP("count") { one(R, sb->CountSubStrings(run(at(1), 1), 0, sb->get_Length())); return; }
	OP("find") {
		int x = at(2), i = at(3), n = at(4);
		int two[2] = {x, 1};
		Array* set = new Array(CharType, 2);
		for (int k = 0; k < 2; ++k) *(Char*) set->Address(k) = (Char) two[k];
		switch (at(1)) {
		case 0: one(R, text->IndexOf((Char) x, i, n)); return;
		case 1: one(R, text->IndexOf(run(x, 2), i, n)); return;
		case 2: one(R, text->IndexOfAny(set, i, n)); return;
		case 3: one(R, text->LastIndexOf((Char) x, i, n)); return;
		case 4: one(R, text->LastIndexOf(run(x, 2), i, n)); return;
		case 5: one(R, text->LastIndexOfAny(set, i, n)); return;
		}
		exit(3);
	}
	OP("has") {
		String* x = run(at(1), at(2));
		one(R, text->Contains(x)); one(R, text->StartsWith(x)); one(R, text->EndsWith(x));
		return;
	}
	OP("twin") {
		StringBuilder b(text);
		switch (at(1)) {
		case 0: b.set_Chars(at(2), (Char) at(3)); break;
		case 1: b.Append((Char) at(3)); break;
		case 2: b.set_Length(b.get_Length() - 1); break;
		}
		other = b.ToString();
		return;
	}
	OP("cmp") {
		int equal = text->Equals(other);
		if (equal != (text->Equals((Object*) other)) || equal != String::Equals(text, other) || equal == String::op_Inequality(text, other)) equal = -7;
		int order = sign(String::Compare(text, other));
		if (order != sign(text->CompareTo(other)) || order != -sign(String::Compare(other, text))) order = -7;
		int ordinal = sign(String::CompareOrdinal(text, other));
		if (ordinal != -sign(String::CompareOrdinal(other, text))) ordinal = -7;
		R.open();
		R.add(equal); R.add(ordinal); R.add(order); R.add(sign(String::Compare(text, other, true))); R.add(text->StartsWith(other));
		return;
	}
	OP("walk") {
		CharEnumerator* e = text->GetEnumerator();
		int n = 0;
		int seen[128];
		while (e->MoveNext()) {
			for (int i = 0; i < A.len[0]; ++i)
				if (A.i(0, i) == n) seen[i] = (int) e->get_Current();
			if (++n > text->get_Length() + 3) break;
		}
		one(R, n);
		R.open();
		for (int i = 0; i < A.len[0]; ++i) R.add(seen[i]);
		return;
	}
	OP("hex") {
		String* t = BitConverter::ToString(arr[at(1)], at(2), at(3));
		one(R, t->get_Length());
		R.open();
		for (int i = 3; i < A.len[0]; ++i) R.add((int) t->get_Chars(A.i(0, i)));
		return;
	}
	OP("word") { Int64 v = BitConverter::ToInt64(arr[at(1)], at(2)); bytesOf(R, &v, sizeof v); return; }
	OP("fmt") {
		int n = at(1) == 3 ? sb->get_Length() : text->get_Length();
		int room = n + at(2);
		Char* w = (Char*) malloc((room > 0 ? room : 1) * sizeof(Char));
		int c;
		try { c = at(1) == 3 ? sb->FormatString(w, room) : text->FormatString(w, room); }
		catch (Exception*) { free(w); throw; }
		if (c < 0) { free(w); throw new Exception(); }
		one(R, c);
		R.open();
		for (int i = 2; i < A.len[0]; ++i) R.add((int) w[A.i(0, i)]);
		if (w[c] != 0) one(R, -77);
		free(w);
		return;
	}
	OP("seek") {
		Array* a = new Array(ObjectType, at(1));
		a->SetValue(new Int32Value(5), at(2));
		a->SetValue(new Int32Value(5), at(3));
		one(R, Array::IndexOf(a, new Int32Value(5), at(4), at(5)));
		one(R, Array::IndexOf(a, nullptr, at(4), at(5)));
		return;
	}
	OP("peek") {
		int s = at(1);
		R.open();
		for (int i = 1; i < A.len[0]; ++i) {
			int p = A.i(0, i);
			R.add(s <= 2 ? ((Byte*) arr[s]->Address(0))[p] : (int) (s == 3 ? sb->get_Chars(p) : s == 4 ? text->get_Chars(p) : other->get_Chars(p)));
		}
		return;
	}
	unknownOp(op);
}
static void observe() {
	S.open();
	S.add(sizeOf(arr[1]));
	S.add(sizeOf(arr[2]));
	S.add(sb->get_Length());
	S.add(text->get_Length());
	S.add(other->get_Length());
}
