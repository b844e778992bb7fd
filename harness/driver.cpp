// Request/response driver around the public API of the fuel interpreter.
// Reads requests from fd 0, writes responses to fd 1 (both are moved away
// before any code under test runs, so scripts cannot touch the protocol).
//
// wire format of a message: <u32 number of fields> { <u32 length> <bytes> }*
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <vector>

#include "Lisp.h"
#include "Environment.h"
#include "Parser.h"
#include "Tokenizer.h"
#include "Exception.h"
#include "Variant.h"
#include "Scope.h"
#include "fuel.h"
#include "DebuggerInterface.h"

using namespace CppLisp;

typedef std::vector<std::string> Fields;

// ---- the clock of the process: real, or set by the request "clock" ----------
static bool g_fake = false;
static long long g_sec = 0, g_nsec = 0;

extern "C" int clock_gettime(clockid_t id, struct timespec * ts)
{
	if (!g_fake) return (int)syscall(SYS_clock_gettime, id, ts);
	ts->tv_sec = g_sec; ts->tv_nsec = g_nsec;
	return 0;
}

extern "C" int gettimeofday(struct timeval * tv, void *)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (tv) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
	return 0;
}

extern "C" time_t time(time_t * t)
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}

static int g_in = -1, g_out = -1;

static bool ReadAll(void * p, size_t n)
{
	char * c = (char *)p;
	while (n > 0)
	{
		ssize_t r = read(g_in, c, n);
		if (r <= 0) return false;
		c += r; n -= (size_t)r;
	}
	return true;
}

static void WriteAll(const std::string & s)
{
	size_t off = 0;
	while (off < s.size())
	{
		ssize_t r = write(g_out, s.data() + off, s.size() - off);
		if (r <= 0) _exit(99);
		off += (size_t)r;
	}
}

static bool ReadMsg(Fields & f)
{
	uint32_t n;
	if (!ReadAll(&n, 4)) return false;
	f.clear();
	for (uint32_t i = 0; i < n; i++)
	{
		uint32_t l;
		if (!ReadAll(&l, 4)) return false;
		std::string s(l, '\0');
		if (l > 0 && !ReadAll(&s[0], l)) return false;
		f.push_back(s);
	}
	return true;
}

static void Put32(std::string & s, uint32_t v) { s.append((const char *)&v, 4); }

static void WriteMsg(const Fields & f)
{
	std::string s;
	Put32(s, (uint32_t)f.size());
	for (auto & x : f) { Put32(s, (uint32_t)x.size()); s += x; }
	WriteAll(s);
}

// ---- structural dump of values -------------------------------------------
// i<int>;  d<hex of 8 bytes>;  bt / bf  n  u  s<len>:<bytes>  y<len>:<bytes>
// ( ... )  f<len>:<signature>  D<count>{k v}  e<len>:<msg>  ?<len>:<typename>

static void Str(std::string & out, char tag, const std::string & s)
{
	out += tag; out += std::to_string(s.size()); out += ':'; out += s;
}

static void DumpDouble(std::string & out, double d)
{
	uint64_t u; memcpy(&u, &d, 8);
	char buf[32]; snprintf(buf, sizeof buf, "d%016llx;", (unsigned long long)u);
	out += buf;
}

static void DumpObj(std::string & out, const std::shared_ptr<object> & o, int depth);

static void DumpList(std::string & out, const IEnumerable<std::shared_ptr<object>> & l, int depth)
{
	out += '(';
	for (auto & e : l) DumpObj(out, e, depth + 1);
	out += ')';
}

static void DumpVariant(std::string & out, const LispVariant & v, int depth)
{
	if (depth > 400) { out += "?4:deep"; return; }
	switch (v.Type)
	{
	case LispType::_Undefined: out += 'u'; break;
	case LispType::_Nil: out += 'n'; break;
	case LispType::_Bool: out += v.BoolValue() ? "bt" : "bf"; break;
	case LispType::_Int: out += 'i'; out += std::to_string(v.IntValue()); out += ';'; break;
	case LispType::_Double: DumpDouble(out, v.DoubleValue()); break;
	case LispType::_String: Str(out, 's', v.StringValue()); break;
	case LispType::_Symbol: Str(out, 'y', v.ToString()); break;
	case LispType::_List: DumpList(out, v.ListValueRef(), depth); break;
	case LispType::_Function: Str(out, 'f', v.FunctionValue().Signature); break;
	case LispType::_Error: Str(out, 'e', v.Value ? (std::string)v.Value->ToString() : std::string()); break;
	case LispType::_NativeObject:
		if (v.Value && v.Value->IsDictionary())
		{
			auto & d = v.Value->ToDictionary();
			out += 'D'; out += std::to_string(d.size()); out += '{';
			for (auto & kv : d)
			{
				DumpVariant(out, kv.first, depth + 1);
				DumpObj(out, kv.second, depth + 1);
			}
			out += '}';
			break;
		}
		Str(out, '?', v.TypeString());
		break;
	default: Str(out, '?', std::to_string((int)v.Type)); break;
	}
}

static void DumpObj(std::string & out, const std::shared_ptr<object> & o, int depth)
{
	if (depth > 400) { out += "?4:deep"; return; }
	if (!o) { out += "?4:null"; return; }
	if (o->IsLispVariant()) DumpVariant(out, o->ToLispVariantRef(), depth);
	else if (o->IsList()) DumpList(out, o->ToListRef(), depth);
	else if (o->IsInt()) { out += 'i'; out += std::to_string((int)*o); out += ';'; }
	else if (o->IsDouble()) DumpDouble(out, (double)*o);
	else if (o->IsBool()) out += ((bool)*o) ? "bt" : "bf";
	else if (o->IsString()) Str(out, 's', o->ToString());
	else Str(out, '?', o->GetTypeName());
}

// ---- commands ---------------------------------------------------------------

static std::string DataStr(LispException & e, const char * key)
{
	auto it = e.Data.find(key);
	if (it == e.Data.end() || !it->second) return "";
	return it->second->ToString();
}

// result fields of one evaluation (fixed number):
//  0 status: ok | lisp | base | std | other | stop
//  1 message   2 line  3 start  4 stop  5 module   6 stack
//  7 dump of the value   8 ToString of the value   9 new text on the output
// 10 text written to std::cout
static const int NRES = 11;

static void EvalOne(Fields & res, const std::string & code, std::shared_ptr<LispScope> scope, const std::string & module, bool tracing,
	std::shared_ptr<TextWriter> out, std::shared_ptr<TextReader> in, bool expand, std::ostringstream & cap)
{
	Fields r(NRES);
	size_t before = out->GetContent().size();
	cap.str("");
	try
	{
		auto v = Lisp::Eval(code, scope, module, tracing, out, in, expand);
		r[0] = "ok";
		if (v) { DumpVariant(r[7], *v, 0); r[8] = v->ToString(); }
		else { r[7] = "?4:null"; }
	}
	catch (LispStopDebuggerException &) { r[0] = "stop"; }
	catch (LispException & e)
	{
		r[0] = "lisp"; r[1] = e.Message;
		r[2] = DataStr(e, "LineNo"); r[3] = DataStr(e, "StartPos"); r[4] = DataStr(e, "StopPos");
		r[5] = DataStr(e, "ModuleName"); r[6] = DataStr(e, "StackInfo");
	}
	catch (LispExceptionBase & e) { r[0] = "base"; r[1] = e.Message; }
	catch (std::exception & e) { r[0] = "std"; r[1] = e.what(); }
	catch (...) { r[0] = "other"; }
	std::string all = out->GetContent();
	r[9] = all.size() >= before ? all.substr(before) : std::string("?output shrank");
	r[10] = cap.str();
	res.insert(res.end(), r.begin(), r.end());
}

namespace CppLisp { extern string LispUtils_LibraryPath; }

int main()
{
	g_in = dup(0); g_out = dup(1);
	int n = open("/dev/null", O_RDWR);
	dup2(n, 0); dup2(n, 1);
	std::ostringstream cap;
	std::cout.rdbuf(cap.rdbuf());

	Fields f;
	while (ReadMsg(f))
	{
		Fields res;
		const std::string cmd = f.empty() ? "" : f[0];
		cap.str("");
		if (cmd == "session")
		{
			// session <module> <flags> <input> frag...     flags: t=tracing m=macro-expand only,
			//   s=a fresh scope for every fragment, k=stop after the first failure,
			//   digits 0 1: tracing of the first, second ... fragment, repeated
			std::string module = f[1], flags = f[2];
			bool tracing = flags.find('t') != std::string::npos;
			bool expand = flags.find('m') != std::string::npos;
			bool fresh = flags.find('s') != std::string::npos;
			bool stopOnErr = flags.find('k') != std::string::npos;
			bool nullscope = flags.find('n') != std::string::npos;
			std::string bits;
			for (char c : flags) if (c == '0' || c == '1') bits += c;
			LispUtils_LibraryPath = string::Empty;
			auto out = std::make_shared<TextWriter>(true);
			auto in = std::make_shared<TextReader>(string(f[3]));
			std::shared_ptr<LispScope> scope;
			if (!nullscope) scope = LispEnvironment::CreateDefaultScope();
			for (size_t i = 4; i < f.size(); i++)
			{
				if (fresh && i > 4 && !nullscope) scope = LispEnvironment::CreateDefaultScope();
				EvalOne(res, f[i], scope, module, bits.empty() ? tracing : bits[(i - 4) % bits.size()] == '1', out, in, expand, cap);
				if (stopOnErr && res[res.size() - NRES] != "ok") break;
			}
		}
		else if (cmd == "multi")
		{
			// multi <number of scopes> { <scope index> <code> }*   several live global scopes, interleaved
			size_t k = (size_t)atoi(f[1].c_str());
			LispUtils_LibraryPath = string::Empty;
			std::vector<std::shared_ptr<LispScope>> scopes;
			std::vector<std::shared_ptr<TextWriter>> outs;
			for (size_t i = 0; i < k; i++) { scopes.push_back(LispEnvironment::CreateDefaultScope()); outs.push_back(std::make_shared<TextWriter>(true)); }
			auto in = std::make_shared<TextReader>(string(""));
			for (size_t i = 2; i + 1 < f.size(); i += 2)
			{
				size_t s = (size_t)atoi(f[i].c_str());
				EvalOne(res, f[i + 1], scopes[s], "main", false, outs[s], in, false, cap);
			}
		}
		else if (cmd == "save")
		{
			// save <module> <flags> <input> <code>    flags: t tracing, m macro expand, v verbose
			std::string flags = f[2];
			LispUtils_LibraryPath = string::Empty;
			auto out = std::make_shared<TextWriter>(true);
			auto in = std::make_shared<TextReader>(string(f[3]));
			Fields r(NRES);
			try
			{
				auto v = Lisp::SaveEval(f[4], f[1], flags.find('v') != std::string::npos, flags.find('t') != std::string::npos, out, in, flags.find('m') != std::string::npos);
				r[0] = "ok";
				if (v) { DumpVariant(r[7], *v, 0); r[8] = v->ToString(); }
				else { r[7] = "?4:null"; }
			}
			catch (LispExceptionBase & e) { r[0] = "base"; r[1] = e.Message; }
			catch (std::exception & e) { r[0] = "std"; r[1] = e.what(); }
			catch (...) { r[0] = "other"; }
			r[9] = out->GetContent();
			r[10] = cap.str();
			res = r;
		}
		else if (cmd == "main")
		{
			// main <input> arg...
			LispUtils_LibraryPath = string::Empty;
			std::vector<string> args;
			for (size_t i = 2; i < f.size(); i++) args.push_back(f[i]);
			auto out = std::make_shared<TextWriter>(true);
			auto in = std::make_shared<TextReader>(string(f[1]));
			Fields r(NRES);
			try { Fuel::MainExtended(args, out, in); r[0] = "ok"; }
			catch (LispExceptionBase & e) { r[0] = "base"; r[1] = e.Message; }
			catch (std::exception & e) { r[0] = "std"; r[1] = e.what(); }
			catch (...) { r[0] = "other"; }
			r[9] = out->GetContent();
			r[10] = cap.str();
			res = r;
		}
		else if (cmd == "tokens")
		{
			// tokens <code>  ->  ok { type text start stop line }*
			try
			{
				auto toks = LispTokenizer::Tokenize(f[1]);
				res.push_back("ok");
				for (auto & t : toks)
				{
					res.push_back(std::to_string((int)t->Type));
					res.push_back(t->ToString());
					res.push_back(std::to_string((long)t->StartPos));
					res.push_back(std::to_string((long)t->StopPos));
					res.push_back(std::to_string((long)t->LineNo));
				}
			}
			catch (LispExceptionBase & e) { res.clear(); res.push_back("base"); res.push_back(e.Message); }
			catch (std::exception & e) { res.clear(); res.push_back("std"); res.push_back(e.what()); }
		}
		else if (cmd == "parse")
		{
			try
			{
				auto o = LispParser::Parse(f[1]);
				res.push_back("ok");
				std::string d; DumpObj(d, o, 0); res.push_back(d);
				res.push_back(o ? (std::string)o->ToString() : std::string());
			}
			catch (LispExceptionBase & e) { res.clear(); res.push_back("base"); res.push_back(e.Message); }
			catch (std::exception & e) { res.clear(); res.push_back("std"); res.push_back(e.what()); }
		}
		else if (cmd == "chdir")
		{
			res.push_back(chdir(f[1].c_str()) == 0 ? "ok" : "fail");
		}
		else if (cmd == "clock")
		{
			// clock <time zone> [<seconds> <nanoseconds>]      without a time: the real clock
			setenv("TZ", f[1].c_str(), 1);
			tzset();
			g_fake = f.size() > 3;
			if (g_fake) { g_sec = atoll(f[2].c_str()); g_nsec = atoll(f[3].c_str()); }
			res.push_back("ok");
		}
		else if (cmd == "setenv")
		{
			if (f.size() > 2) setenv(f[1].c_str(), f[2].c_str(), 1); else unsetenv(f[1].c_str());
			res.push_back("ok");
		}
		else if (cmd == "ping") { res.push_back("pong"); }
		else { res.push_back("unknown command"); }
		cap.str("");
		WriteMsg(res);
	}
	_exit(0);
}
