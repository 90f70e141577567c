// Dates, time spans, their text and time zones (C15 to C18, C22).
#include "drv.h"
#include <time.h>
static DateTime d;
static TimeSpan t;
static String* x;
static int zone;
static void setZone(int z) {
	char b[64];
	zone = z;
	if (z == 10001) strcpy(b, "EST5EDT,M3.2.0,M11.1.0");
	else if (z == 10002) strcpy(b, "AEST-10AEDT,M10.1.0,M4.1.0/3");
	else snprintf(b, sizeof b, "XXX%s%d:%02d", z > 0 ? "-" : "", abs(z) / 60, abs(z) % 60);
	setenv("TZ", b, 1);
	tzset();
}
static void resetState() { d = DateTime(); t = TimeSpan((Int64) 0); x = new String(L""); setZone(0); }
template<class T> static void give(T v) { bytesOf(R, &v, sizeof v); }
static Int64 span(int k) { return wide<Int64>(k); }
static Int64 clockTicks() {
	struct timespec c;
	clock_gettime(CLOCK_REALTIME, &c);
	return (Int64) c.tv_sec * 10000000 + c.tv_nsec / 100 + 621355968000000000LL;
}
static int sg(int v) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
static void month(int y, int m) {
	int n = 0, v[6][32];
	for (int day = 1; day <= 32; ++day) {
		DateTime c;
		try { c = DateTime(y, m, day); }
		catch (Exception*) { break; }
		if (day == 32) { n = 0; break; }
		DateTimeValue b(c);
		v[0][n] = c.value % TicksPerDay == 0 ? (int) (c.value / TicksPerDay) : -1;
		int yy, mm, dd;
		b.GetDatePart(yy, mm, dd);
		v[1][n] = yy == b.get_Year() ? yy : -1;
		v[2][n] = mm == b.get_Month() ? mm : -1;
		v[3][n] = dd == b.get_Day() ? dd : -1;
		v[4][n] = b.get_DayOfYear();
		v[5][n] = (int) b.get_DayOfWeek();
		++n;
	}
	for (int k = 0; k < 6; ++k) {
		R.open();
		for (int i = 0; i < n; ++i) R.add(v[k][i]);
	}
}
static void comparisons(int a, int b, int c, int e1, int e2, int e3, int eq, int ne, int lt, int le, int gt, int ge) {
	R.open(); R.add(sg(a)); R.add(sg(b)); R.add(sg(c));
	R.open(); R.add(e1); R.add(e2); R.add(e3);
	R.open(); R.add(eq); R.add(ne); R.add(lt); R.add(le); R.add(gt); R.add(ge);
}
static void perform(const char* op) {
	DateTimeValue D(d);
	TimeSpanValue T(t);
	int how = A.n > 0 && A.len[0] > 0 ? A.i(0) : 0;
	OP("ticks") { d = DateTime(wide<UInt64>(0)); return; }
	OP("date") {
		int n = A.len[0];
		if (n == 3) d = DateTime(A.i(0, 0), A.i(0, 1), A.i(0, 2));
		else if (n == 6) d = DateTime(A.i(0, 0), A.i(0, 1), A.i(0, 2), A.i(0, 3), A.i(0, 4), A.i(0, 5));
		else d = DateTime(A.i(0, 0), A.i(0, 1), A.i(0, 2), A.i(0, 3), A.i(0, 4), A.i(0, 5), A.i(0, 6));
		return;
	}
	OP("parts") {
		R.open(); R.add(D.get_Year()); R.add(D.get_Month()); R.add(D.get_Day()); R.add(D.get_DayOfYear()); R.add((int) D.get_DayOfWeek());
		R.open(); R.add(D.get_Hour()); R.add(D.get_Minute()); R.add(D.get_Second()); R.add(D.get_Millisecond());
		give<Int64>(D.get_TimeOfDay().value);
		give<UInt64>(D.get_Date().value);
		give<Int64>(D.get_Ticks());
		return;
	}
	OP("leap") { one(R, DateTimeValue::IsLeapYear(A.i(0)) ? 1 : 0); return; }
	OP("daysIn") { one(R, DateTimeValue::DaysInMonth(A.i(0, 0), A.i(0, 1))); return; }
	OP("month") { month(A.i(0, 0), A.i(0, 1)); return; }
	OP("limits") {
		give<UInt64>(DateTimeValue::MinValue.value); give<UInt64>(DateTimeValue::MaxValue.value);
		give<Int64>(TimeSpanValue::MinValue.value); give<Int64>(TimeSpanValue::MaxValue.value); give<Int64>(TimeSpanValue::Zero.value);
		{ DateTimeValue d0; TimeSpanValue t0; DateTime dv = d0.get_AsDateTime(); TimeSpan tv = t0.get_AsTimeSpan(); give<UInt64>(dv.value); give<Int64>(tv.value); }
		return;
	}
	OP("addTicks") { d = D.AddTicks(wide<Int64>(0)); return; }
	OP("addSpan") { d = how ? DateTimeValue::op_Addition(d, t) : D.Add(t); return; }
	OP("subSpan") { d = how ? DateTimeValue::op_Subtraction(d, t) : D.Subtract(t); return; }
	OP("addUnit") {
		Double v = wide<Double>(1);
		switch (how) {
		case 0: d = D.AddMilliseconds(v); return;
		case 1: d = D.AddSeconds(v); return;
		case 2: d = D.AddMinutes(v); return;
		case 3: d = D.AddHours(v); return;
		case 4: d = D.AddDays(v); return;
		}
	}
	OP("addMonths") { d = D.AddMonths(A.i(0)); return; }
	OP("addYears") { d = D.AddYears(A.i(0)); return; }
	OP("diff") { DateTime o(wide<UInt64>(1)); t = how ? DateTimeValue::op_Subtraction(d, o) : D.Subtract(o); return; }
	OP("cmpDate") {
		DateTime o(wide<UInt64>(0));
		DateTimeValue* O = new DateTimeValue(o);
		typedef DateTimeValue V;
		comparisons(V::Compare(d, o), D.CompareTo(o), D.CompareTo((Object*) O), D.Equals(o), V::Equals(d, o), D.Equals((Object*) O),
			V::op_Equality(d, o), V::op_Inequality(d, o), V::op_LessThan(d, o), V::op_LessThanOrEqual(d, o), V::op_GreaterThan(d, o), V::op_GreaterThanOrEqual(d, o));
		return;
	}
	OP("dateText") { DateTimeValue* p = new DateTimeValue(d); x = p->ToString(); return; }
	OP("span") { t = how == 1 && A.n > 1 ? TimeSpanValue::FromTicks(span(0)) : TimeSpan(span(0)); return; }
	OP("span3") { t = TimeSpan(A.i(0, 0), A.i(0, 1), A.i(0, 2)); return; }
	OP("span5") { t = TimeSpan(A.i(0, 0), A.i(0, 1), A.i(0, 2), A.i(0, 3), A.i(0, 4)); return; }
	OP("fromUnit") {
		Double v = wide<Double>(1);
		switch (how) {
		case 0: t = TimeSpanValue::FromMilliseconds(v); return;
		case 1: t = TimeSpanValue::FromSeconds(v); return;
		case 2: t = TimeSpanValue::FromMinutes(v); return;
		case 3: t = TimeSpanValue::FromHours(v); return;
		case 4: t = TimeSpanValue::FromDays(v); return;
		}
	}
	OP("spanParts") {
		R.open(); R.add(T.get_Days()); R.add(T.get_Hours()); R.add(T.get_Minutes()); R.add(T.get_Seconds()); R.add(T.get_Milliseconds());
		give<Int64>(T.get_Ticks());
		return;
	}
	OP("totals") {
		give<Double>(T.get_TotalMilliseconds()); give<Double>(T.get_TotalSeconds()); give<Double>(T.get_TotalMinutes());
		give<Double>(T.get_TotalHours()); give<Double>(T.get_TotalDays());
		return;
	}
	OP("neg") { t = how ? TimeSpanValue::op_UnaryNegation(t) : T.Negate(); return; }
	OP("plus") { t = TimeSpanValue::op_UnaryPlus(t); return; }
	OP("abs") { t = T.Duration(); return; }
	OP("addT") { TimeSpan o(span(1)); t = how ? TimeSpanValue::op_Addition(t, o) : T.Add(o); return; }
	OP("subT") { TimeSpan o(span(1)); t = how ? TimeSpanValue::op_Subtraction(t, o) : T.Subtract(o); return; }
	OP("cmpSpan") {
		TimeSpan o(span(0));
		TimeSpanValue* O = new TimeSpanValue(o);
		typedef TimeSpanValue V;
		comparisons(V::Compare(t, o), T.CompareTo(o), T.CompareTo((Object*) O), T.Equals(o), V::Equals(t, o), T.Equals((Object*) O),
			V::op_Equality(t, o), V::op_Inequality(t, o), V::op_LessThan(t, o), V::op_LessThanOrEqual(t, o), V::op_GreaterThan(t, o), V::op_GreaterThanOrEqual(t, o));
		return;
	}
	OP("mul") {
		Double f = wide<Double>(1);
		t = how == 0 ? T.Multiply(f) : how == 1 ? TimeSpanValue::op_Multiply(t, f) : TimeSpanValue::op_Multiply(f, t);
		return;
	}
	OP("div") { Double f = wide<Double>(1); t = how ? TimeSpanValue::op_Division(t, f) : T.Divide(f); return; }
	OP("ratio") { TimeSpan o(span(1)); give<Double>(how ? TimeSpanValue::op_Division(t, o) : T.Divide(o)); return; }
	OP("spanText") { TimeSpanValue* p = new TimeSpanValue(t); x = p->ToString(); return; }
	OP("text") { x = mkString(0); return; }
	OP("append") { x = String::Concat(x, mkString(0)); return; }
	OP("parse") { t = TimeSpanValue::Parse(x); return; }
	OP("tryParse") { TimeSpan v((Int64) 0x5a5a5a5a5a5aLL); one(R, TimeSpanValue::TryParse(x, v) ? 1 : 0); t = v; return; }
	OP("zone") { setZone(A.i(0)); return; }
	OP("toLocal") { d = how == 0 ? D.ToLocalTime() : D.ToLocalTime(how == 2); return; }
	OP("toUniversal") { d = D.ToUniversalTime(); return; }
	OP("isDst") { one(R, D.IsDaylightSavingTime() ? 1 : 0); return; }
	OP("now") {
		Int64 a = clockTicks();
		DateTime u = DateTimeValue::get_UtcNow(), n = DateTimeValue::get_Now(), y = DateTimeValue::get_Today();
		Int64 b = clockTicks();
		give<Int64>(a); give<UInt64>(u.value); give<UInt64>(n.value); give<UInt64>(y.value); give<Int64>(b);
		return;
	}
	unknownOp(op);
}
static void observe() {
	bytesOf(S, &d.value, 8);
	bytesOf(S, &t.value, 8);
	str(S, x);
	one(S, zone);
}
