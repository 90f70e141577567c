// Memory pool and host lifecycle (PlatformSupport, TranslatorSupport, DataAccess).
#include "drv.h"
#include <DotNetLibrarySupport.h>

#define MAXB 4096
static struct { unsigned char* p; size_t n; unsigned char pat; } blocks[MAXB];
static int nBlocks;
static unsigned char* base;
static bool poolMode = false;
static unsigned char nextPat = 1;

// Sessions start with "setup", except the first one of a process, which begins in heap mode.
static void resetState() { nBlocks = 0; base = nullptr; }

static void record(unsigned char* p, size_t n) {
	if (p == nullptr) {
		R.open(); R.add(-1); R.add(0); R.add(0);
		return;
	}
	int zero = 1;
	for (size_t i = 0; i < n; ++i)
		if (p[i] != 0)
			zero = 0;
	if (poolMode && base == nullptr)
		base = p;
	R.open();
	R.add(poolMode ? (int) (p - base) : 0);
	R.add(((uintptr_t) p & 7) == 0);
	R.add(zero);
	memset(p, nextPat, n);
	if (nBlocks < MAXB) {
		blocks[nBlocks].p = p;
		blocks[nBlocks].n = n;
		blocks[nBlocks].pat = nextPat;
		++nBlocks;
	}
	nextPat = nextPat == 255 ? 1 : nextPat + 1;
}
static size_t size0() {
	return ((size_t) A.i(0, 0) << 20) + (size_t) A.i(0, 1);
}
static void perform(const char* op) {
	OP("setup") { PlatformSetup(); poolMode = true; nBlocks = 0; base = nullptr; return; }
	OP("alloc") { size_t n = size0(); record((unsigned char*) my_operator_new_replacement(n), n); return; }
	OP("allocArr") { size_t n = size0(); record((unsigned char*) ::operator new[](n), n); return; }
	OP("free") {
		int k = A.i(0);
		my_operator_delete_replacement(k < 0 ? nullptr : blocks[k].p);
		if (!poolMode && k >= 0) { blocks[k].n = 0; blocks[k].p = nullptr; }
		return;
	}
	unknownOp(op);
}
static void observe() {
	int bad = 0;
	for (int i = 0; i < nBlocks; ++i)
		for (size_t j = 0; j < blocks[i].n; ++j)
			if (blocks[i].p[j] != blocks[i].pat)
				++bad;
	one(S, bad);
}
