// Host lifecycle: TranslatorSupport::Run / Send, DataAccess.
#include "drv.h"
#include <DotNetLibrarySupport.h>
#include <unistd.h>
#include <fcntl.h>
using namespace DotnetLibrarySupport;

static const int Kinds = 15;
static Exception* exceptions[Kinds + 1];   // created before the pool exists, like any host object
static String* texts[64];
static Groups reads;
static int tmpfd = -1, realOut = -1;
static char* outBuf = (char*) malloc(1 << 20);

static Exception* newException(int k) {
	switch (k) {
	case 1: return new IndexOutOfRangeException();
	case 2: return new ArgumentNullException();
	case 3: return new RankException();
	case 4: return new ArgumentOutOfRangeException();
	case 5: return new ArgumentException();
	case 6: return new NotImplementedException();
	case 7: return new InvalidCastException();
	case 8: return new InvalidOperationException();
	case 9: return new FormatException();
	case 10: return new OverflowException();
	case 11: return new ThrowMinMaxException();
	case 12: return new DivideByZeroException();
	case 13: return new ArithmeticException();
	case 14: return new Exception();
	default: return new Exception(new String(L"outer"), new Exception(new String(L"inner")));
	}
}
static void prepare() {
	if (exceptions[1] != nullptr) return;
	for (int k = 1; k <= Kinds; ++k) exceptions[k] = newException(k);
	tmpfd = open("host.out", O_RDWR | O_CREAT | O_TRUNC, 0600);
	realOut = dup(1);
}
// Strings live outside the pool, so that they survive PlatformSetup and do not disturb the accounting of a run.
struct HostString { char mem[sizeof(String)]; };
static String* hostString(const int* p, int n) {
	Char* b = (Char*) malloc((n + 1) * sizeof(Char));
	for (int i = 0; i < n; ++i) b[i] = (Char) p[i];
	b[n] = 0;
	return new (malloc(sizeof(String))) String(b);
}
static String* mkText(int g, int from) {       // in the memory of the run
	Char b[256];
	int n = 0;
	for (int i = from; i < A.len[g] && n < 255; ++i) b[n++] = (Char) A.i(g, i);
	b[n] = 0;
	return new String(b, 0, n);
}
class Program : public TranslatorSupport
{
public:
	String* t;              // the registers of a program, all made of the run's memory
	Array* x;
	StringBuilder* b;
	virtual void RunCode() {
		t = String::Empty; x = nullptr; b = nullptr;
		for (int k = 0; k < A.n; ++k) {
			DataAccess data;
			unsigned char* base = nullptr;
			switch (A.i(k)) {
			case 0: Send(texts[k]); break;
			case 1: {
				int n = A.i(k, 1);
				unsigned char* p = (unsigned char*) my_operator_new_replacement(n);
				if (firstBlock == nullptr) firstBlock = p;
				reads.add(p == nullptr ? -1 : (int) (p - firstBlock));
				if (p != nullptr) {
					memset(p, 0xA5, n);
					if (blocks < 64) { block[blocks] = p; size[blocks++] = n; }
				}
				break;
			}
			case 2:
				if (A.i(k, 1) == 0) throw new (malloc(sizeof(Exception))) Exception(texts[k]);
				throw exceptions[A.i(k, 1)];
			case 3: Send(nullptr); break;
			case 4: *(Int32*) data.get_ArrayData()->Address(A.i(k, 1)) = A.i(k, 2); break;
			case 5: case 6: reads.add(*(Int32*) data.get_ArrayData()->Address(A.i(k, 1))); break;
			case 7: { Array* arr = data.get_ArrayData(); reads.add(arr->get_Rank()); reads.add(arr->get_Length()); break; }
			case 9: { double v = data.get_DoubleData(); unsigned char* p = (unsigned char*) &v; for (int i = 0; i < 8; ++i) reads.add(p[i]); break; }
			case 10: t = Int32Value(A.i(k, 1)).ToString(); break;
			case 11: t = BooleanValue(A.i(k, 1) != 0).ToString(); break;
			case 12: t = String::Concat(t, mkText(k, 1)); break;
			case 13: t = t->Substring(A.i(k, 1), A.i(k, 2)); break;
			case 14: Send(t); break;
			case 15: x = new Array(Int32Type, A.i(k, 1)); break;
			case 16: x->SetValue(new Int32Value(A.i(k, 2)), A.i(k, 1)); break;
			case 17: t = x->GetValue(A.i(k, 1))->ToString(); break;
			case 18: b = new StringBuilder(); break;
			case 19: b->Append(mkText(k, 1)); break;
			case 20: b->Remove(A.i(k, 1), A.i(k, 2)); break;
			case 21: t = b->ToString(); break;
			case 22: t = A.i(k, 1) ? t->ToUpper() : t->ToLower(); break;
			case 23: throw newException(A.i(k, 1));
			case 24: t = Int32Value(Int32Value::Parse(t)).ToString(); break;
			case 25: t = TimeSpanValue(TimeSpan((Int64) A.i(k, 1) * 10000000)).ToString(); break;
			case 26: t = CharValue::ToString((Char) A.i(k, 1)); break;
			case 27: t = String::Empty; break;
			case 28: t = BooleanValue(BooleanValue::Parse(t)).ToString(); break;
			case 29: b->Insert(A.i(k, 1), t); break;
			case 30: b->Append((Int32) A.i(k, 1)); break;
			case 31: t = t->Trim(); break;
			case 32: t = t->PadLeft(A.i(k, 1)); break;
			case 33: t = DoubleValue(A.i(k, 1) + .5).ToString(); break;
			case 35: t = DateTimeValue(DateTime((UInt64) A.i(k, 1) * 864000000000ULL)).ToString(); break;
			case 34: {                                          // through an enumerator and an array of objects
				CharEnumerator* e = t->GetEnumerator();
				Array* parts = new Array(ObjectType, t->get_Length());
				for (int i = 0; e->MoveNext(); ++i) parts->SetValue(new CharValue(e->get_Current()), i);
				t = String::Concat(parts);
				break;
			}
			case 8: delete data.get_ArrayData(); reads.add(*(Int32*) data.get_ArrayData()->Address(A.i(k, 1))); break;
			}
		}
	}
	unsigned char* firstBlock;
	unsigned char* block[64];           // the blocks the program owns and has filled
	int size[64], blocks;
	int damaged() {
		int bad = 0;
		for (int b = 0; b < blocks; ++b)
			for (int i = 0; i < size[b]; ++i) bad += block[b][i] != 0xA5;
		return bad;
	}
};
static void beginCapture() {
	fflush(stdout);
	if (ftruncate(tmpfd, 0) != 0) exit(3);
	lseek(tmpfd, 0, SEEK_SET);
	dup2(tmpfd, 1);
}
static void endCapture() {
	fflush(stdout);
	dup2(realOut, 1);
	lseek(tmpfd, 0, SEEK_SET);
	ssize_t n = read(tmpfd, outBuf, 1 << 20);
	bool open = false;
	for (ssize_t i = 0; i < n; ++i) {
		if (!open) { R.open(); open = true; }
		if (outBuf[i] == '\n') open = false;
		else R.add((unsigned char) outBuf[i]);
	}
	if (open) R.add(-10);       // the last line was not ended
}
static void resetState() {
	prepare();
	PlatformSetup();
	DataAccess data;
	Array* arr = data.get_ArrayData();
	for (int i = 0; i < 4; ++i)
		*(Int32*) arr->Address(i) = i + 1;
}
static void perform(const char* op) {
	OP("run") {
		for (int k = 0; k < A.n && k < 64; ++k) {
			texts[k] = nullptr;
			if (A.i(k) == 0) texts[k] = hostString(A.g[k] + 1, A.len[k] - 1);
			if (A.i(k) == 2 && A.i(k, 1) == 0) texts[k] = hostString(A.g[k] + 2, A.len[k] - 2);
		}
		Program* program = new (malloc(sizeof(Program))) Program();
		program->firstBlock = nullptr;
		program->blocks = 0;
		reads.clear();
		reads.open();
		int returned = 0;
		beginCapture();
		try { program->Run(); returned = 1; }
		catch (...) { returned = 0; }
		one(R, returned);
		R.add(program->damaged());
		R.open();
		for (int i = 0; i < reads.len[0]; ++i) R.add(reads.g[0][i]);
		endCapture();
		return;
	}
	OP("send") {
		String* text = A.null(0) ? nullptr : hostString(A.g[0], A.len[0]);
		TranslatorSupport* host = new (malloc(sizeof(TranslatorSupport))) TranslatorSupport();
		beginCapture();
		host->Send(text);
		one(R, 1);
		R.open();
		endCapture();
		return;
	}
	OP("get") {
		PlatformSetup();
		DataAccess data;
		Array* arr = data.get_ArrayData();
		one(R, *(Int32*) arr->Address(A.i(0)));
		return;
	}
	unknownOp(op);
}
static void observe() {
	for (int k = 1; k <= Kinds; ++k) {
		String* m = exceptions[k]->get_Message();
		if (m == nullptr) S.open();
		else str(S, m);
	}
}
