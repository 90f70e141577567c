// Shared harness of the drivers: reads a script of operations, performs each one on the real library and writes one
// JSON event per operation.  It uses no C++ containers, because the library replaces the global operator new.
//
// script line:  op<TAB>g1;g2;...      each group is a comma separated list of ints (possibly empty)
// event line:   {"op":..,"a":[[..]..],"r":{"k":"ok"|"throw","x":"<exception>","v":[[..]..]},"s":[[..]..]}
// A null reference is the group [-1].
#pragma once
#include <DotnetTypes.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <wchar.h>
using namespace DotnetLibrary;

#define MAXG 48
struct Groups
{
	int n;
	int len[MAXG];
	int cap[MAXG];
	int* g[MAXG];
	void clear() { n = 0; }
	int open() {
		if (n >= MAXG) { fprintf(stderr, "too many groups\n"); exit(3); }
		len[n] = 0;
		return n++;
	}
	void add(int v) {
		int k = n - 1;
		if (len[k] == cap[k]) {
			cap[k] = cap[k] ? cap[k] * 2 : 16;
			g[k] = (int*) realloc(g[k], cap[k] * sizeof(int));
		}
		g[k][len[k]++] = v;
	}
	int i(int k, int j = 0) const {
		if (k >= n || j >= len[k]) { fprintf(stderr, "missing argument %d.%d\n", k, j); exit(3); }
		return g[k][j];
	}
	bool null(int k) const { return len[k] == 1 && g[k][0] == -1; }
};
static Groups A, R, S;      // arguments, results, observations

static void one(Groups& G, int v) { G.open(); G.add(v); }
static void bytesOf(Groups& G, const void* p, int n) {
	G.open();
	for (int i = 0; i < n; ++i)
		G.add(((const unsigned char*) p)[i]);
}
static void chars(Groups& G, const Char* p, int n) {
	G.open();
	for (int i = 0; i < n; ++i)
		G.add((int) p[i]);
}
static void str(Groups& G, String* s) {
	if (s == nullptr) { one(G, -1); return; }
	chars(G, s->get_Buffer(), s->get_Length());
}
template<class T> static T wide(int k) {        // little endian bytes of argument k
	T v;
	unsigned char b[sizeof(T)];
	for (unsigned i = 0; i < sizeof(T); ++i)
		b[i] = (unsigned char) A.i(k, i);
	memcpy(&v, b, sizeof(T));
	return v;
}
// A heap copy of exactly the given characters plus the terminator, so that AddressSanitizer sees any read past it.
static Char* rawChars(int k) {
	int n = A.len[k];
	Char* b = (Char*) malloc((n + 1) * sizeof(Char));
	for (int i = 0; i < n; ++i)
		b[i] = (Char) A.g[k][i];
	b[n] = 0;
	return b;
}
static String* mkString(int k) {
	if (A.null(k))
		return nullptr;
	int n = A.len[k];
	if (n == 0)
		return new String(L"");
	Array* arr = new Array(CharType, n);
	for (int i = 0; i < n; ++i)
		*(Char*) arr->Address(i) = (Char) A.g[k][i];
	return new String(arr);
}
static Array* mkChars(int k) {
	if (A.null(k))
		return nullptr;
	int n = A.len[k];
	Array* arr = new Array(CharType, n);
	for (int i = 0; i < n; ++i)
		*(Char*) arr->Address(i) = (Char) A.g[k][i];
	return arr;
}

// arrays that are not one-dimensional arrays of characters
static Array* oddArray(int kind) {
	return kind == 0 ? new Array(Int32Type, 2) : kind == 1 ? new Array(CharType, 2, 2) : new Array(ByteType, 4);
}

static void perform(const char* op);    // the module: fills R and S
static void resetState();               // op "reset"
static void observe();                  // called after every operation, also after one that threw: fills S

static const char* exName(Exception* e) {
	if (dynamic_cast<IndexOutOfRangeException*>(e)) return "IndexOutOfRange";
	if (dynamic_cast<ArgumentNullException*>(e)) return "ArgumentNull";
	if (dynamic_cast<ThrowMinMaxException*>(e)) return "MinMax";
	if (dynamic_cast<RankException*>(e)) return "Rank";
	if (dynamic_cast<ArgumentOutOfRangeException*>(e)) return "ArgumentOutOfRange";
	if (dynamic_cast<ArgumentException*>(e)) return "Argument";
	if (dynamic_cast<NotImplementedException*>(e)) return "NotImplemented";
	if (dynamic_cast<InvalidCastException*>(e)) return "InvalidCast";
	if (dynamic_cast<InvalidOperationException*>(e)) return "InvalidOperation";
	if (dynamic_cast<FormatException*>(e)) return "Format";
	if (dynamic_cast<OverflowException*>(e)) return "Overflow";
	if (dynamic_cast<DivideByZeroException*>(e)) return "DivideByZero";
	if (dynamic_cast<ArithmeticException*>(e)) return "Arithmetic";
	return "Exception";
}
static void putGroups(FILE* f, const Groups& G) {
	fputc('[', f);
	for (int k = 0; k < G.n; ++k) {
		fputs(k ? ",[" : "[", f);
		for (int j = 0; j < G.len[k]; ++j)
			fprintf(f, j ? ",%d" : "%d", G.g[k][j]);
		fputc(']', f);
	}
	fputc(']', f);
}
int main(int argc, char** argv) {
	if (argc < 3) return 3;
	FILE* in = fopen(argv[1], "r");
	FILE* out = fopen(argv[2], "a");
	if (!in || !out) return 3;
	size_t cap = 1 << 20;
	char* line = (char*) malloc(cap);
	char op[64];
	while (fgets(line, (int) cap, in)) {
		char* p = strpbrk(line, "\t\n");
		size_t n = p ? (size_t) (p - line) : strlen(line);
		if (n >= sizeof op) return 3;
		memcpy(op, line, n);
		op[n] = 0;
		A.clear(); R.clear(); S.clear();
		if (p && *p == '\t') {
			++p;
			A.open();
			while (*p && *p != '\n') {
				if (*p == ';') { A.open(); ++p; }
				else if (*p == ',') ++p;
				else A.add((int) strtol(p, &p, 10));
			}
		}
		const char* k = "ok";
		const char* x = "";
		if (strcmp(op, "reset") == 0)
			resetState();
		else {
			try { perform(op); }
			catch (Exception* e) { k = "throw"; x = e == nullptr ? "Exception" : exName(e); R.clear(); }
			catch (...) { k = "crash"; x = "foreign exception"; R.clear(); }
			S.clear();
			try { observe(); }
			catch (...) { k = "crash"; x = "state cannot be observed"; R.clear(); S.clear(); }
		}
		fprintf(out, "{\"op\":\"%s\",\"a\":", op);
		putGroups(out, A);
		fprintf(out, ",\"r\":{\"k\":\"%s\",\"x\":\"%s\",\"v\":", k, x);
		putGroups(out, R);
		fputs("},\"s\":", out);
		putGroups(out, S);
		fputs("}\n", out);
		fflush(out);
	}
	return 0;
}
#define OP(name) if (strcmp(op, name) == 0)
static void unknownOp(const char* op) { fprintf(stderr, "unknown op %s\n", op); exit(3); }
