// Exceptions: what they carry, who catches them, and what the library's failures are reported with (C27).
#include "drv.h"
#include <typeinfo>
struct UserException : public Exception {
	UserException() : Exception() {}
	UserException(String* m) : Exception(m) {}
	UserException(String* m, Exception* i) : Exception(m, i) {}
};
struct UserArgumentException : public ArgumentException {};
#define CLASSES(X) X(0, Exception) X(1, IndexOutOfRangeException) X(2, ArgumentException) X(3, ArgumentNullException) X(4, RankException) \
	X(5, ArgumentOutOfRangeException) X(6, NotImplementedException) X(7, InvalidCastException) X(8, InvalidOperationException) \
	X(9, FormatException) X(10, ArithmeticException) X(11, OverflowException) X(12, ThrowMinMaxException) X(13, DivideByZeroException) \
	X(14, UserException) X(15, UserArgumentException)
static const int Most = 20;
static Exception* made[Most];
static int n;
static void resetState() { n = 0; }
static int slotOf(Exception* e) {
	if (e == nullptr) return 0;
	for (int i = 0; i < n; ++i) if (made[i] == e) return i + 1;
	return -1;
}
static int add(Exception* e) {
	if (n == Most) exit(3);
	made[n++] = e;
	return n;
}
static int classOf(Exception* e) {
#define X(i, C) if (typeid(*e) == typeid(C)) return i;
	CLASSES(X)
#undef X
	return -1;
}
static void observe() {
	for (int i = 0; i < n; ++i) {
		S.open();
		S.add(classOf(made[i]));
		S.add(slotOf(made[i]->get_InnerException()));
		S.add(slotOf(made[i]->GetBaseException()));
		str(S, made[i]->get_Message());
	}
}
static Exception* make(int c) {
	switch (c) {
#define X(i, C) case i: return new C();
	CLASSES(X)
#undef X
	}
	exit(3);
}
__attribute__((noinline)) static void raise(Exception* e) {
	switch (classOf(e)) {                                  // thrown as what it was made as, as translated code does
#define X(i, C) case i: throw (C*) e;
	CLASSES(X)
#undef X
	}
	throw e;
}
template<class C> static bool catches(Exception* e) {
	try { try { raise(e); } catch (C* p) { return (Exception*) p == e; } }
	catch (Exception*) { }
	return false;
}
static Exception* last;
static void unwind(int k, Exception* e);           // through frames k, k - 1 ... 1, the innermost
template<class C> static void frame(int k, Exception* e) {
	try { unwind(k - 1, e); }
	catch (C* p) {
		int what = A.i(1, 2 * k - 1);
		if (what == 1) throw;
		if (what == 2) {
			Exception* outer = new Exception(new String(L"w"), p);
			add(outer);
			throw outer;
		}
		last = p;
		throw k;                                             // swallowed
	}
}
static void unwind(int k, Exception* e) {
	if (k == 0) { raise(e); return; }
	switch (A.i(1, 2 * k - 2)) {
#define X(i, C) case i: frame<C>(k, e); return;
	CLASSES(X)
#undef X
	}
	exit(3);
}
static Array* none() { return nullptr; }
static String* nothing() { return nullptr; }
static Array* five() { return new Array(Int32Type, 5); }
static Array* grid() { return new Array(Int32Type, 2, 3); }
static Array* cube() { return new Array(Int32Type, 2, 2, 2); }
static Array* bytes() { return new Array(ByteType, 8); }
static Array* letters() { return new Array(CharType, 8); }
static Object* plain() { return new Object(); }
static Int32Value* number(Int32 n = 7) { return new Int32Value(n); }
static DoubleValue* real(Double d) { return new DoubleValue(d); }
static BooleanValue* boolean() { return new BooleanValue(true); }
static CharValue* letter() { return new CharValue(L'a'); }
static Double notANumber() { volatile Double zero = 0.0; return zero / zero; }
static String* text() { return new String(L"ab"); }
static String* empty() { return new String(L""); }
static String* junk(int v) { static const Char* const all[] = { L"1x2", L"", L"ab", L"--1", L"1 2" }; return new String(all[v % 5]); }
static String* great(int v) { return new String(v % 2 ? L"-99999999999999999999" : L"18446744073709551616"); }
static DateTimeValue* lastDay() { return new DateTimeValue(DateTime(9999, 12, 31)); }
static DateTimeValue* firstDay() { return new DateTimeValue(DateTime(1, 1, 1)); }
static TimeSpanValue* longest() { return new TimeSpanValue(TimeSpan((Int64) 0x7fffffffffffffffLL)); }
static TimeSpanValue* shortest() { return new TimeSpanValue(TimeSpan((Int64) (-0x7fffffffffffffffLL - 1))); }
static StringBuilder* builder() { return new StringBuilder(text()); }
static CharEnumerator* fresh() { return new CharEnumerator(text()); }
static CharEnumerator* ended() { CharEnumerator* e = fresh(); while (e->MoveNext()) { } return e; }
static Int32 rest;
static Int64 wideRest;
// operations of the library that fail, v being a variation; spec/Faults.tla lists the class of each (Provoked)
static void provoke(int k, int v) {
	switch (k) {
	case 1: *(Int32*) five()->Address(5 + v) = 1; return;
	case 2: *(Int32*) five()->Address(-1 - v) = 1; return;
	case 3: *(Int32*) grid()->Address(1, 3 + v) = 1; return;
	case 4: *(Int32*) grid()->Address(2 + v, 0) = 1; return;
	case 5: *(Int32*) cube()->Address(1, 1, 2 + v) = 1; return;
	case 6: five()->GetLength(1 + v); return;
	case 7: grid()->GetUpperBound(2 + v); return;
	case 8: grid()->GetLowerBound(-1 - v); return;
	case 9: five()->GetValue(5 + v); return;
	case 10: five()->SetValue(number(), 5 + v); return;
	case 11: cube()->GetValue(0, 2 + v, 0); return;
	case 12: Array::Clear(five(), 3, 3 + v); return;
	case 13: Array::Clear(five(), -1 - v, 1); return;
	case 14: Array::Clear(five(), 0, -1 - v); return;
	case 15: Array::Clear(none(), 0, v); return;
	case 16: Array::Copy(none(), five(), v); return;
	case 17: Array::Copy(five(), none(), v); return;
	case 18: Array::Copy(five(), 0, none(), 0, v); return;
	case 19: Array::Copy(none(), 0, five(), 0, v); return;
	case 20: Array::ConstrainedCopy(none(), 0, five(), 0, v); return;
	case 21: five()->CopyTo(none(), v); return;
	case 22: Array::IndexOf(none(), number()); return;
	case 23: Array::Copy(five(), 0, grid(), 0, 1 + v % 3); return;
	case 24: grid()->CopyTo(grid(), 0); return;
	case 25: Array::IndexOf(grid(), number()); return;
	case 26: Array::Copy(five(), 3, five(), 0, 3 + v); return;
	case 27: Array::Copy(five(), 0, five(), 3, 3 + v); return;
	case 28: five()->CopyTo(five(), 1 + v); return;
	case 29: Array::ConstrainedCopy(five(), 0, five(), 3, 3 + v); return;
	case 30: Array::Copy(five(), 0, five(), 0, -1 - v); return;
	case 31: Array::IndexOf(five(), number(), 6 + v); return;
	case 32: Array::IndexOf(five(), number(), 0, 6 + v); return;
	case 33: new Array(Int32Type, -2 - v); return;
	case 34: Buffer::ByteLength(none()); return;
	case 35: Buffer::GetByte(none(), v); return;
	case 36: Buffer::SetByte(none(), v, 1); return;
	case 37: Buffer::BlockCopy(none(), 0, five(), 0, v); return;
	case 38: Buffer::BlockCopy(five(), 0, none(), 0, v); return;
	case 39: BitConverter::ToInt32(none(), v); return;
	case 40: BitConverter::ToBoolean(none(), v); return;
	case 41: BitConverter::ToDouble(none(), v); return;
	case 42: BitConverter::ToString(none()); return;
	case 43: Buffer::GetByte(five(), 20 + v); return;
	case 44: Buffer::SetByte(five(), -1 - v, 1); return;
	case 45: Buffer::BlockCopy(five(), -1 - v, five(), 0, 1); return;
	case 46: Buffer::BlockCopy(five(), 0, five(), -1 - v, 1); return;
	case 47: Buffer::BlockCopy(five(), 0, five(), 0, -1 - v); return;
	case 48: BitConverter::ToInt32(bytes(), 8 + v); return;
	case 49: BitConverter::ToInt64(bytes(), -1 - v); return;
	case 50: BitConverter::ToBoolean(bytes(), 8 + v); return;
	case 51: Buffer::ByteLength(new Array(ObjectType, 1 + v)); return;
	case 52: Buffer::BlockCopy(five(), 0, five(), 18, 3 + v); return;
	case 53: Buffer::BlockCopy(five(), 18, five(), 0, 3 + v); return;
	case 54: Buffer::GetByte(new Array(StringType, 4), v % 4); return;
	case 55: BitConverter::ToInt32(bytes(), 5 + v % 3); return;
	case 56: BitConverter::ToInt64(bytes(), 1 + v % 7); return;
	case 57: BitConverter::ToInt16(bytes(), 7); return;
	case 58: BitConverter::ToDouble(bytes(), 1 + v % 7); return;
	case 59: BitConverter::ToSingle(bytes(), 5 + v % 3); return;
	case 60: BooleanValue::Parse(junk(v)); return;
	case 61: ByteValue::Parse(nothing()); return;
	case 62: ByteValue::Parse(junk(v)); return;
	case 63: SByteValue::Parse(nothing()); return;
	case 64: SByteValue::Parse(junk(v)); return;
	case 65: CharValue::Parse(nothing()); return;
	case 66: CharValue::Parse(junk(v)); return;
	case 67: Int16Value::Parse(nothing()); return;
	case 68: Int16Value::Parse(junk(v)); return;
	case 69: UInt16Value::Parse(nothing()); return;
	case 70: UInt16Value::Parse(junk(v)); return;
	case 71: Int32Value::Parse(nothing()); return;
	case 72: Int32Value::Parse(junk(v)); return;
	case 73: UInt32Value::Parse(nothing()); return;
	case 74: UInt32Value::Parse(junk(v)); return;
	case 75: Int64Value::Parse(nothing()); return;
	case 76: Int64Value::Parse(junk(v)); return;
	case 77: UInt64Value::Parse(nothing()); return;
	case 78: UInt64Value::Parse(junk(v)); return;
	case 79: SingleValue::Parse(nothing()); return;
	case 80: SingleValue::Parse(junk(v)); return;
	case 81: DoubleValue::Parse(nothing()); return;
	case 82: DoubleValue::Parse(junk(v)); return;
	case 83: ByteValue::Parse(great(v)); return;
	case 84: SByteValue::Parse(great(v)); return;
	case 85: Int16Value::Parse(great(v)); return;
	case 86: UInt16Value::Parse(great(v)); return;
	case 87: Int32Value::Parse(great(v)); return;
	case 88: UInt32Value::Parse(great(v)); return;
	case 89: Int64Value::Parse(great(v)); return;
	case 90: UInt64Value::Parse(great(v)); return;
	case 91: TimeSpanValue::Parse(nothing()); return;
	case 92: TimeSpanValue::Parse(junk(v)); return;
	case 93: number()->get_AsDateTime(); return;
	case 94: number()->get_AsTimeSpan(); return;
	case 95: plain()->get_AsInt32(); return;
	case 96: five()->get_AsDouble(); return;
	case 97: text()->get_AsTimeSpan(); return;
	case 98: letter()->get_AsBoolean(); return;
	case 99: boolean()->get_AsChar(); return;
	case 100: number()->CompareTo(text()); return;
	case 101: real(v)->CompareTo(text()); return;
	case 102: boolean()->CompareTo(text()); return;
	case 103: letter()->CompareTo(text()); return;
	case 104: text()->CompareTo(number()); return;
	case 105: Math::DivRem((Int32) (v - 3), 0, rest); return;
	case 106: Math::DivRem((Int64) (v - 3), 0, wideRest); return;
	case 107: Math::DivRem((Int32) (-2147483647 - 1), -1, rest); return;
	case 108: Math::Sign(notANumber()); return;
	case 109: Math::Sign((Single) notANumber()); return;
	case 110: Math::Clamp((Int32) v, 5, 4); return;
	case 111: Math::Clamp((Double) v, 5.0, 4.0); return;
	case 112: Math::Clamp((UInt64) v, (UInt64) 5, (UInt64) 4); return;
	case 113: Math::Clamp((SByte) 1, (SByte) 5, (SByte) 4); return;
	case 114: Math::Round(1.5, 1, (MidpointRounding) (5 + v)); return;
	case 115: Math::Round(1.5, 16 + v); return;
	case 116: Math::Round(1.5, -1 - v); return;
	case 117: DateTime(10000 + v, 1, 1); return;
	case 118: DateTime(0 - v, 1, 1); return;
	case 119: DateTime(2000, 13 + v, 1); return;
	case 120: DateTime(2000, 2, 30 + v); return;
	case 121: DateTime(2000, 2, 1, 24 + v, 0, 0); return;
	case 122: DateTimeValue::DaysInMonth(2000, 13 + v); return;
	case 123: DateTimeValue::IsLeapYear(10000 + v); return;
	case 124: lastDay()->AddDays(1 + v); return;
	case 125: lastDay()->AddMonths(1 + v); return;
	case 126: lastDay()->AddYears(1 + v); return;
	case 127: firstDay()->AddHours(-1 - v); return;
	case 128: firstDay()->AddTicks(-1 - v); return;
	case 129: firstDay()->AddMonths(120001 + v); return;
	case 130: firstDay()->Subtract(TimeSpan((Int64) 1 + v)); return;
	case 131: TimeSpanValue::FromDays(1e8 + v); return;
	case 132: TimeSpanValue::FromSeconds(-1e13 - v); return;
	case 133: longest()->Add(TimeSpan((Int64) 1 + v)); return;
	case 134: shortest()->Duration(); return;
	case 135: shortest()->Negate(); return;
	case 136: shortest()->Subtract(TimeSpan((Int64) 1 + v)); return;
	case 137: TimeSpanValue::FromDays(notANumber()); return;
	case 138: DateTimeValue(DateTime(2000, 1, 1)).CompareTo(number()); return;
	case 139: longest()->CompareTo(number()); return;
	case 140: text()->Substring(3 + v); return;
	case 141: text()->Substring(-1 - v); return;
	case 142: text()->Substring(1, 2 + v); return;
	case 143: text()->Insert(3 + v, text()); return;
	case 144: text()->Insert(-1 - v, text()); return;
	case 145: text()->Remove(3 + v); return;
	case 146: text()->Remove(1, 2 + v); return;
	case 147: text()->PadLeft(-1 - v); return;
	case 148: text()->PadRight(-1 - v); return;
	case 149: text()->IndexOf(L'a', 3 + v); return;
	case 150: text()->LastIndexOf(L'a', 2 + v); return;
	case 151: String::CompareOrdinal(text(), 3 + v, text(), 0, 1); return;
	case 152: String::CompareOrdinal(text(), 0, text(), 0, -1 - v); return;
	case 153: text()->ToCharArray(1, 2 + v); return;
	case 154: text()->ToCharArray(-1 - v, 1); return;
	case 155: text()->get_Chars(2 + v); return;
	case 156: text()->get_Chars(-1 - v); return;
	case 157: text()->Insert(1, nothing()); return;
	case 158: text()->IndexOf(nothing()); return;
	case 159: text()->LastIndexOf(nothing()); return;
	case 160: text()->StartsWith(nothing()); return;
	case 161: text()->EndsWith(nothing()); return;
	case 162: text()->Contains(nothing()); return;
	case 163: String::Copy(nothing()); return;
	case 164: String::Join(text(), none()); return;
	case 165: String::Concat(none()); return;
	case 166: text()->IndexOfAny(none()); return;
	case 167: text()->CopyTo(0, none(), 0, 1); return;
	case 168: text()->IndexOf(text(), 3 + v); return;
	case 169: text()->CopyTo(0, letters(), -1 - v, 1); return;
	case 170: text()->CopyTo(0, letters(), 0, 3 + v); return;
	case 171: text()->Replace(nothing(), text()); return;
	case 172: text()->Replace(empty(), text()); return;
	case 173: builder()->get_Chars(2 + v); return;
	case 174: builder()->Append(text(), 1, 2 + v); return;
	case 175: builder()->Remove(1, 2 + v); return;
	case 176: builder()->Remove(-1 - v, 1); return;
	case 177: new StringBuilder(5 + v, 2); return;
	case 178: new StringBuilder(-1 - v); return;
	case 179: new StringBuilder(0, -1 - v); return;
	case 180: builder()->set_Length(-1 - v); return;
	case 181: builder()->ToString(1, 2 + v); return;
	case 182: builder()->ToString(-1 - v, 1); return;
	case 183: builder()->Replace(L'a', L'b', 1, 2 + v); return;
	case 184: (new StringBuilder(2, 2))->Append(new String(L"abc")); return;
	case 185: builder()->Append(L'a', -1 - v); return;
	case 186: builder()->Replace(nothing(), text()); return;
	case 187: builder()->Replace(empty(), text()); return;
	case 188: builder()->set_Capacity(1); return;
	case 189: builder()->EnsureCapacity(-1 - v); return;
	case 190: fresh()->get_Current(); return;
	case 191: ended()->get_Current(); return;
	case 192: CharValue::IsDigit(nothing(), v); return;
	case 193: CharValue::IsWhiteSpace(nothing(), v); return;
	case 194: CharValue::GetNumericValue(nothing(), v); return;
	case 195: CharValue::IsDigit(text(), 2 + v); return;
	case 196: CharValue::IsUpper(text(), -1 - v); return;
	case 197: CharValue::IsLetterOrDigit(text(), 2 + v); return;
	}
	exit(3);
}
static void perform(const char* op) {
	OP("make") { add(make(A.i(0))); return; }
	OP("say") { add(A.i(0) == 14 ? new UserException(mkString(1)) : new Exception(mkString(1))); return; }
	OP("wrap") {
		Exception* inner = A.i(0, 1) ? made[A.i(0, 1) - 1] : nullptr;
		add(A.i(0) == 14 ? new UserException(mkString(1), inner) : new Exception(mkString(1), inner));
		return;
	}
	OP("caught") {
		Exception* e = made[A.i(0) - 1];
		R.open();
#define X(i, C) R.add(catches<C>(e));
		CLASSES(X)
#undef X
		return;
	}
	OP("provoke") {
		Exception* e = nullptr;
		try { provoke(A.i(0), A.i(0, 1)); }
		catch (Exception* x) { e = x; }
		if (e == nullptr) { R.open(); R.add(0); return; }
		add(e);
		return;
	}
	OP("unwind") {
		int frames = A.len[1] / 2;
		Exception* start = made[A.i(0) - 1];
		R.open();
		try { unwind(frames, start); }
		catch (int k) { R.add(k); R.add(slotOf(last)); return; }
		catch (Exception* e) { R.add(0); R.add(slotOf(e)); return; }
		R.add(-1);
		return;
	}
	unknownOp(op);
}
