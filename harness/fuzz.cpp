// Coverage-guided fuzz target (libFuzzer): evaluates a session of script
// fragments (separated by the byte 0x1e) in one scope.
//
// Contained: no files, no imports, no waiting, no macros (unbounded recursion at
// expansion time); a step, depth and memory limit ends long evaluations; lists
// cannot be put into themselves (outside of the claim).
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sanitizer/allocator_interface.h>

#include "Lisp.h"
#include "Environment.h"
#include "Exception.h"
#include "Variant.h"
#include "Scope.h"
#include "DebuggerInterface.h"

using namespace CppLisp;

struct Stop {};

static size_t g_steps, g_memory;
static char * g_stack;
static unsigned long g_runs, g_frags, g_values, g_errors, g_stopped, g_skipped;

static void Tick()
{
	char here;
	if (++g_steps > 3000 || g_stack - &here > 2 * 1024 * 1024 || __sanitizer_get_current_allocated_bytes() > g_memory + 100 * 1024 * 1024) throw Stop();
}

class Limiter : public ILispDebugger
{
public:
	void InteractiveLoop(std::shared_ptr<LispScope>, std::shared_ptr<IEnumerable<std::shared_ptr<object>>>, bool, bool, std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) {}
	bool NeedsBreak(std::shared_ptr<LispScope>, LispBreakpointPosition) { Tick(); return false; }
	std::shared_ptr<LispVariant> DebuggerLoop(const CppLisp::string &, const CppLisp::string &, bool) { return std::make_shared<LispVariant>(); }
	void SetInputOutputStreams(std::shared_ptr<TextWriter>, std::shared_ptr<TextReader>) {}
};

static bool IsContainer(const std::shared_ptr<object> & o)
{
	if (o->IsList()) return true;
	if (!o->IsLispVariant()) return false;
	const LispVariant & v = o->ToLispVariantRef();
	return v.IsList() || v.IsNativeObject();
}

typedef std::vector<std::shared_ptr<object>> Args;

static bool IsCall(const std::shared_ptr<object> & o)
{
	if (o->IsList()) return o->ToListRef().Count() > 0;
	return o->IsLispVariant() && o->ToLispVariantRef().IsList() && o->ToLispVariantRef().ListValueRef().Count() > 0;
}

static void Guard(LispScope & scope, const char * name, std::function<bool(const Args &)> forbidden)
{
	auto it = scope.find(name);
	if (it == scope.end()) return;
	LispFunctionWrapper w = it->second->ToLispVariantRef().FunctionValue();
	auto inner = w.Function;
	std::string n(name);
	w.Function = [inner, forbidden, n](const Args & args, std::shared_ptr<LispScope> s) -> std::shared_ptr<LispVariant>
	{
		if (forbidden(args)) throw LispException("not in this harness", s.get());
		return inner(args, s);
	};
	it->second = std::make_shared<object>(LispVariant(std::make_shared<object>(w)));
}

static const char * const REMOVED[] = { "File-WriteAllText", "File-ReadAllText", "File-Exists", "import", "sleep", "define-macro", "define-macro-eval", "define-macro-expand", "htmldoc" };

static std::shared_ptr<LispScope> NewScope()
{
	std::shared_ptr<LispScope> scope = LispEnvironment::CreateDefaultScope();
	for (const char * n : REMOVED) Guard(*scope, n, [](const Args &) { return true; });
	Guard(*scope, "push", [](const Args & a) { return a.size() > 0 && IsContainer(a[0]); });
	Guard(*scope, "dict-set", [](const Args & a) { return a.size() > 2 && (IsContainer(a[1]) || IsContainer(a[2])); });
	Guard(*scope, "setf", [](const Args & a) { return a.size() > 1 && IsContainer(a[0]) && (IsContainer(a[1]) || (a[1]->IsLispVariant() && a[1]->ToLispVariantRef().IsSymbol())); });
	// a loop without any call cannot be limited
	Guard(*scope, "while", [](const Args & a) { return a.size() > 1 && !IsCall(a[0]) && !IsCall(a[1]); });
	static Limiter limiter;
	scope->Debugger = &limiter;
	return scope;
}

static const char * const PRE = "(def v0 5) (def v1 \"str\") (def s0 \"hello\") (def l0 '(1 (2 3) \"x\" sy)) (def l1 (list 1.5 #t)) (def d0 (make-dict)) (def fn0 (lambda (x) x)) (defn f1 (x y) (+ x y))";

static void Evaluate(const std::string & text, std::shared_ptr<LispScope> scope, std::shared_ptr<TextWriter> out, std::shared_ptr<TextReader> in, bool tracing)
{
	char here;
	g_stack = &here;
	g_steps = 0;
	g_frags++;
	try
	{
		std::shared_ptr<LispVariant> v = Lisp::Eval(CppLisp::string(text), scope, "fuzz", tracing, out, in);
		if (v) { v->ToString(); v->ToStringDebugger(); v->TypeString(); }
		g_values++;
	}
	catch (Stop &) { g_stopped++; }
	catch (LispExceptionBase & e) { g_errors++; if (e.Message.size() == 0) abort(); }
	// anything else escapes: libFuzzer reports it
}

static void Report()
{
	const char * f = getenv("FUZZ_STATS");
	if (!f) return;
	std::ofstream o(f);
	o << "runs " << g_runs << "\nfragments " << g_frags << "\nvalues " << g_values << "\nerrors " << g_errors << "\nlimited " << g_stopped << "\nskipped " << g_skipped << "\n";
}

extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
	std::cout.rdbuf(NULL);
	atexit(Report);
	return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t * data, size_t size)
{
	std::string all((const char *)data, size);
	g_runs++;
	// deeply nested texts exhaust the stack (outside of the claim)
	int depth = 0, deepest = 0;
	for (char c : all) { if (c == '(' || c == '\'' || c == '`' || c == ',') { if (++depth > deepest) deepest = depth; } else if (c == ')') depth--; }
	if (deepest > 200) { g_skipped++; return 0; }
	g_memory = __sanitizer_get_current_allocated_bytes();
	{
		std::shared_ptr<LispScope> scope = NewScope();
		std::shared_ptr<TextWriter> out = std::make_shared<TextWriter>(true);
		std::shared_ptr<TextReader> in = std::make_shared<TextReader>("line one\nline two");
		Evaluate(PRE, scope, out, in, false);
		size_t pos = 0;
		bool tracing = size > 0 && (data[0] == 't');
		while (pos <= all.size())
		{
			size_t e = all.find('\x1e', pos);
			if (e == std::string::npos) e = all.size();
			Evaluate(all.substr(pos, e - pos), scope, out, in, tracing);
			pos = e + 1;
		}
		// a scope refers to itself: let everything go
		std::shared_ptr<LispScope> g = scope->GlobalScope;
		scope->GlobalScope = nullptr;
		scope->clear();
	}
	return 0;
}

// ---- structure-aware mutation ---------------------------------------------------

extern "C" size_t LLVMFuzzerMutate(uint8_t * data, size_t size, size_t max);

static uint32_t g_rng;
static uint32_t Rnd(uint32_t n)
{
	g_rng ^= g_rng << 13; g_rng ^= g_rng >> 17; g_rng ^= g_rng << 5;
	return n ? g_rng % n : 0;
}

struct Span { size_t a, b; };

// all sub-expressions (atoms, strings, bracketed lists)
static void Spans(const std::string & s, std::vector<Span> & out)
{
	std::vector<size_t> open;
	size_t i = 0;
	while (i < s.size())
	{
		char c = s[i];
		if (c == '(') { open.push_back(i); i++; }
		else if (c == ')') { if (!open.empty()) { out.push_back(Span{ open.back(), i + 1 }); open.pop_back(); } i++; }
		else if (c == '"')
		{
			size_t a = i++;
			while (i < s.size() && s[i] != '"') i += s[i] == '\\' ? 2 : 1;
			i = i < s.size() ? i + 1 : s.size();
			out.push_back(Span{ a, i });
		}
		else if (strchr(" \t\r\n'`,@;\x1e", c) && c) i++;
		else
		{
			size_t a = i;
			while (i < s.size() && !(strchr(" \t\r\n'`,\";()\x1e", s[i]) && s[i])) i++;
			out.push_back(Span{ a, i });
		}
	}
}

static std::vector<std::string> & Names()
{
	static std::vector<std::string> names;
	if (names.empty())
	{
		std::shared_ptr<LispScope> scope = LispEnvironment::CreateDefaultScope();
		for (auto const & kv : *scope) names.push_back(kv.first);
		std::sort(names.begin(), names.end());
	}
	return names;
}

static const char * const ATOMS[] = { "0", "1", "-1", "2", "3", "7", "2147483647", "-2147483648", "31", "32", "1.5", "-0.0", "1e300", "1e-9", "\"\"", "\"a\"", "\"hello\"", "\"1\"", "\" x \"", "\"{0}{1,5}\"", "\"a\\nb\"", "#t", "#f", "nil", "'()", "()", "'a", "'(1 2)", "'(\"a\" b (1))", "(nop)", "v0", "v1", "s0", "l0", "l1", "d0", "fn0", "f1", "x", "y", "undef", "(list 1 2 3)", "(lambda (x) x)", "(lambda (x y) (list x y))", "(list)", "_arguments", "(make-dict)", "`(a ,v0 ,@l0)", "(evalstr \"(+ 1 2)\")", "(lambda (x) (return x))", "(def z l0)", "(defn g (x) (g0 x))" };

static std::string Piece(const std::string & s, const std::vector<Span> & sp)
{
	uint32_t k = Rnd(10);
	if (k < 4 && !sp.empty()) { Span q = sp[Rnd(sp.size())]; return s.substr(q.a, q.b - q.a); }
	if (k < 7) return ATOMS[Rnd(sizeof(ATOMS) / sizeof(*ATOMS))];
	if (k < 8) return Names()[Rnd(Names().size())];
	std::string r = "(" + Names()[Rnd(Names().size())];
	for (uint32_t n = Rnd(4); n > 0; n--) r += std::string(" ") + ATOMS[Rnd(sizeof(ATOMS) / sizeof(*ATOMS))];
	return r + ")";
}

extern "C" size_t LLVMFuzzerCustomMutator(uint8_t * data, size_t size, size_t max, unsigned seed)
{
	g_rng = seed * 2654435761u + 1;
	Rnd(2); Rnd(2);
	if (Rnd(8) == 0) return LLVMFuzzerMutate(data, size, max);
	std::string s((const char *)data, size);
	for (uint32_t n = 1 + Rnd(3); n > 0; n--)
	{
		std::vector<Span> sp;
		Spans(s, sp);
		if (sp.empty()) { s += Piece(s, sp); continue; }
		Span q = sp[Rnd(sp.size())];
		std::string t = s.substr(q.a, q.b - q.a);
		switch (Rnd(9))
		{
		case 0: case 1: case 2: s.replace(q.a, q.b - q.a, Piece(s, sp)); break;
		case 3: s.insert(q.b, " " + Piece(s, sp)); break;
		case 4: s.erase(q.a, q.b - q.a); break;
		case 5: s.insert(q.b, " " + t); break;
		case 6: s.replace(q.a, q.b - q.a, "(" + Names()[Rnd(Names().size())] + " " + t + (Rnd(2) ? " " + Piece(s, sp) : std::string()) + ")"); break;
		case 7: { Span p = sp[Rnd(sp.size())]; if (p.b <= q.a) { std::string u = s.substr(p.a, p.b - p.a); s.replace(q.a, q.b - q.a, u); s.replace(p.a, p.b - p.a, t); } break; }
		default: s += std::string(Rnd(3) ? "\n" : "\x1e") + "(" + Names()[Rnd(Names().size())] + " " + Piece(s, sp) + " " + Piece(s, sp) + ")"; break;
		}
	}
	if (s.size() > max) s.resize(max);
	memcpy(data, s.data(), s.size());
	return s.size();
}

extern "C" size_t LLVMFuzzerCustomCrossOver(const uint8_t * d1, size_t n1, const uint8_t * d2, size_t n2, uint8_t * out, size_t max, unsigned seed)
{
	g_rng = seed * 2654435761u + 7;
	Rnd(2); Rnd(2);
	std::string a((const char *)d1, n1), b((const char *)d2, n2);
	std::vector<Span> sa, sb;
	Spans(a, sa); Spans(b, sb);
	if (sa.empty() || sb.empty()) return 0;
	Span p = sa[Rnd(sa.size())], q = sb[Rnd(sb.size())];
	a.replace(p.a, p.b - p.a, b.substr(q.a, q.b - q.a));
	if (a.size() > max) a.resize(max);
	memcpy(out, a.data(), a.size());
	return a.size();
}
