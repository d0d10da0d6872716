// Conformance driver: executes sessions of API calls against the real library
// and reports what was observed, one JSON line per request.
// A session is a list of calls; every call yields one observation object.
// Time and DNS are interposed, so that clock and resolver outcomes are inputs.
#include "src/Validatory.hpp"
#include "src/Signatory.hpp"
#include "src/SignatoryOptions.hpp"
#include "src/Canonicalization.hpp"
#include "src/MailParser.hpp"
#include "src/TagList.hpp"
#include "src/Tokenizer.hpp"
#include "src/EncodedWord.hpp"
#include "src/QuotedPrintable.hpp"
#include "src/Base64.hpp"
#include "src/Resolver.hpp"
#include "src/Util.hpp"
#include <clocale>
#include <locale>
#include <cfenv>
#include <ctime>
#include <sys/stat.h>
#include <openssl/err.h>
#include <nlohmann/json.hpp>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <atomic>
#include <memory>
#include <functional>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <openssl/crypto.h>
#include <algorithm>
#include <type_traits>
#include <time.h>
#include <netdb.h>
#include <resolv.h>
#include <condition_variable>
#include <fstream>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include <typeinfo>
#include <vector>
using json = nlohmann::json;
using std::string;

static string unhex(const string& h)
{
	auto nib = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
	string r(h.size() / 2, 0);
	for (size_t i = 0; i < r.size(); i++) r[i] = (char)(nib(h[2 * i]) * 16 + nib(h[2 * i + 1]));
	return r;
}
static string hex(const string& s)
{
	static const char* d = "0123456789abcdef";
	string r;
	r.reserve(s.size() * 2);
	for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
	return r;
}
static string field(const json& e, const char* k) { return e.contains(k) ? unhex(e[k].get<string>()) : string(); }

static bool ambient(const string& f, const string& a);
struct Session;
static thread_local Session* cur = nullptr;
static void yieldPoint();

// ---------------------------------------------------------------- streams
// Delivers data in chunks of the planned sizes; supports seeking.
struct ChunkBuf : std::streambuf
{
	string data; std::vector<size_t> plan; size_t base = 0, step = 0; string chunk;
	ChunkBuf(const string& d, std::vector<size_t> p): data(d), plan(p) { setg(nullptr, nullptr, nullptr); }
	size_t pos() { return base - (size_t)(egptr() - gptr()); } // base: offset of egptr
	int_type underflow() override
	{
		yieldPoint();
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (base >= data.size()) return traits_type::eof();
		size_t n = plan[step++ % plan.size()];
		chunk = data.substr(base, n);
		base += chunk.size();
		setg(&chunk[0], &chunk[0], &chunk[0] + chunk.size());
		return traits_type::to_int_type(*gptr());
	}
	pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
	{
		off_type b = d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? (off_type)pos() : (off_type)data.size();
		if (d == std::ios_base::cur && o == 0) return pos_type((off_type)pos());
		off_type t = b + o;
		if (t < 0 || t > (off_type)data.size()) return pos_type(off_type(-1));
		base = (size_t)t;
		setg(nullptr, nullptr, nullptr);
		return pos_type(t);
	}
	pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
struct Stream
{
	std::unique_ptr<ChunkBuf> buf; std::unique_ptr<std::istream> s; string path;
	~Stream() { s.reset(); if (!path.empty()) unlink(path.c_str()); }
};
static string scratch()
{
	const char* d = getenv("DKIM_SCRATCH");
	return d ? d : ".";
}
// pre: octets standing before the message; plan: chunk sizes, [] for a stringstream, "file" for an ifstream
static std::shared_ptr<Stream> openStream(const json& e, const string& data)
{
	auto r = std::make_shared<Stream>();
	string pre = field(e, "pre");
	if (e.contains("plan") && e["plan"].is_string())
	{
		static std::atomic<int> n(0);
		r->path = scratch() + "/m" + std::to_string(getpid()) + "_" + std::to_string(n++);
		std::ofstream(r->path, std::ios::binary) << pre << data;
		r->s.reset(new std::ifstream(r->path));
	}
	else if (e.contains("plan") && !e["plan"].empty())
	{
		std::vector<size_t> p;
		for (auto& x : e["plan"]) p.push_back(x.get<size_t>());
		r->buf.reset(new ChunkBuf(pre + data, p));
		r->s.reset(new std::istream(r->buf.get()));
	}
	else
		r->s.reset(new std::stringstream(pre + data));
	if (!pre.empty()) r->s->seekg((std::streamoff)pre.size());
	return r;
}

// ---------------------------------------------------------------- resolver table
struct Answer { bool ok; string txt; };
static string dnsResponse(const string& txt)
{
	string m("\x12\x34\x81\x80\x00\x01\x00\x01\x00\x00\x00\x00", 12);
	m += string("\x01x\x00", 3) + string("\x00\x10\x00\x01", 4);
	string rd;
	for (size_t i = 0; i < txt.size(); i += 255)
	{
		string p = txt.substr(i, 255);
		rd += (char)(unsigned char)p.size();
		rd += p;
	}
	m += string("\xc0\x0c\x00\x10\x00\x01\x00\x00\x00\x3c", 10);
	m += (char)(unsigned char)(rd.size() >> 8);
	m += (char)(unsigned char)(rd.size() & 255);
	return m + rd;
}

// ---------------------------------------------------------------- session
struct Validator { std::shared_ptr<Stream> in; std::unique_ptr<DKIM::Validatory> v; };
struct Signer { std::shared_ptr<Stream> in; std::unique_ptr<DKIM::Signatory> s; string data; };
struct Owner;
struct Session
{
	std::shared_ptr<Owner> own;
	time_t now = 1700000000;
	std::map<string, Answer> table;
	bool rawSet = false; string rawHerr, rawResp;
	json queries = json::array();
	std::map<string, std::unique_ptr<Validator>> vals;
	std::map<string, std::unique_ptr<DKIM::Signature>> sigs;
	std::map<string, std::unique_ptr<DKIM::PublicKey>> keys;
	std::map<string, bool> usable;	// "s:" or "p:" + name: holds something a caller may go on with
	std::map<string, std::unique_ptr<DKIM::SignatoryOptions>> opts;
	std::map<string, std::vector<DKIM::AdditionalSignaturesOptions*>> extra;
	std::map<string, std::unique_ptr<Signer>> signers;
	std::vector<RSA*> owned;
	string lastText, lastMail;
	~Session() { opts.clear(); for (auto r : owned) RSA_free(r); }

	bool resolve(const string& q, string& out)
	{
		yieldPoint();
		queries.push_back(hex(q));
		auto i = table.find(q);
		if (i == table.end()) return false;
		out = i->second.txt;
		return i->second.ok;
	}
	int query(const char* name, unsigned char* answer, int len, int* herr)
	{
		yieldPoint();
		queries.push_back(hex(name));
		string resp;
		if (rawSet)
		{
			if (rawHerr == "tryagain") { *herr = TRY_AGAIN; return -1; }
			if (rawHerr == "notfound") { *herr = HOST_NOT_FOUND; return -1; }
			if (rawHerr == "nodata") { *herr = NO_DATA; return -1; }
			if (rawHerr == "norecovery") { *herr = NO_RECOVERY; return -1; }
			resp = rawResp;
		} else {
			auto i = table.find(name);
			if (i == table.end() || !i->second.ok) { *herr = TRY_AGAIN; return -1; }
			if (i->second.txt.empty()) { *herr = HOST_NOT_FOUND; return -1; }
			resp = dnsResponse(i->second.txt);
		}
		memcpy(answer, resp.data(), std::min((size_t)len, resp.size()));
		return (int)resp.size();
	}
	// a named object emptied by Reset, or one made for this call alone
	template<class M, class T> T& again(M& m, const json& e, const char* slot, T& mine)
	{
		if (!e.contains(slot)) return mine;
		const string n = e[slot];
		usable[slot + (":" + n)] = false;
		auto& x = m[n];
		if (x) x->Reset(); else x.reset(new T);
		return *x;
	}
	template<class M> typename M::mapped_type& parsed(M& m, const string& kind, const string& k);
	json run(const json& e);
	json call(const json& e);
};

// ---------------------------------------------------------------- interposition
extern "C" time_t time(time_t* t)
{
	time_t r;
	if (cur) r = cur->now;
	else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); r = ts.tv_sec; }
	if (t) *t = r;
	return r;
}
extern "C" int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
	tv->tv_sec = cur ? cur->now : ts.tv_sec;
	tv->tv_usec = cur ? 0 : ts.tv_nsec / 1000;
	return 0;
}
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	int r = (int)syscall(SYS_clock_gettime, id, ts);
	if (cur && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) { ts->tv_sec = cur->now; ts->tv_nsec = 0; }
	return r;
}
static int fakeQuery(res_state st, const char* name, unsigned char* a, int len)
{
	int herr = TRY_AGAIN, r = -1;
	if (cur) r = cur->query(name, a, len, &herr);
	if (st && r < 0) st->res_h_errno = herr;
	if (r < 0) h_errno = herr;
	return r;
}
#undef res_nquery
#undef res_query
#undef res_nsearch
#undef res_search
extern "C" {
int res_nquery(res_state s, const char* n, int, int, unsigned char* a, int l) { return fakeQuery(s, n, a, l); }
int __res_nquery(res_state s, const char* n, int, int, unsigned char* a, int l) { return fakeQuery(s, n, a, l); }
int res_nsearch(res_state s, const char* n, int, int, unsigned char* a, int l) { return fakeQuery(s, n, a, l); }
int __res_nsearch(res_state s, const char* n, int, int, unsigned char* a, int l) { return fakeQuery(s, n, a, l); }
int res_query(const char* n, int, int, unsigned char* a, int l) { return fakeQuery(&_res, n, a, l); }
int __res_query(const char* n, int, int, unsigned char* a, int l) { return fakeQuery(&_res, n, a, l); }
int res_search(const char* n, int, int, unsigned char* a, int l) { return fakeQuery(&_res, n, a, l); }
int __res_search(const char* n, int, int, unsigned char* a, int l) { return fakeQuery(&_res, n, a, l); }
}

// ---------------------------------------------------------------- schedules
// Baton passing between the threads of a parallel request, or nested execution.
struct Baton
{
	std::mutex m; std::condition_variable cv;
	std::vector<int> sched; size_t at = 0; int turn = -1; std::vector<bool> done; long passes = 0;
	int next(int me)
	{
		for (size_t k = 0; k < sched.size(); k++)
		{
			int x = sched[at++ % sched.size()];
			if (!done[(size_t)x]) return x;
		}
		for (size_t i = 0; i < done.size(); i++) if (!done[i]) return (int)i;
		return me;
	}
	void wait(std::unique_lock<std::mutex>& l, int me) { cv.wait(l, [&] { return turn == me; }); }
	void pass(int me) { std::unique_lock<std::mutex> l(m); turn = next(me); passes++; cv.notify_all(); wait(l, me); }
	void finish(int me) { std::unique_lock<std::mutex> l(m); done[(size_t)me] = true; turn = next(-1); cv.notify_all(); }
};
static thread_local Baton* baton = nullptr;
static thread_local int batonMe = 0;
static thread_local std::function<void()>* nest = nullptr;
static void yieldPoint()
{
	if (baton) baton->pass(batonMe);
	if (nest)
	{
		auto f = nest; auto c = cur;
		nest = nullptr; cur = nullptr;
		(*f)();
		cur = c; nest = f;
	}
}

// ---------------------------------------------------------------- calls
struct NoObject { };
template<class M> static typename M::mapped_type& at(M& m, const string& k)
{
	auto i = m.find(k);
	if (i == m.end() || !i->second) throw NoObject();
	return i->second;
}
template<class M> typename M::mapped_type& Session::parsed(M& m, const string& kind, const string& k)
{
	if (!usable[kind + k]) throw NoObject();
	return at(m, k);
}
template<class F> static json guarded(F f)
{
	json o = json::object();
	try { f(o); if (!o.contains("r")) o["r"] = "ok"; o["ar"] = ""; }
	catch (NoObject&) { o = json::object(); o["r"] = "noobj"; o["ar"] = ""; }
	catch (DKIM::PermanentError& e) { o = json::object(); o["r"] = "perm"; o["ar"] = e.getAuthenticationResult(); o["what"] = hex(e.what()); }
	catch (DKIM::TemporaryError& e) { o = json::object(); o["r"] = "temp"; o["ar"] = e.getAuthenticationResult(); o["what"] = hex(e.what()); }
	catch (std::exception& e) { o = json::object(); o["r"] = "other"; o["ar"] = "other"; o["what"] = hex(typeid(e).name()); }
	catch (...) { o = json::object(); o["r"] = "other"; o["ar"] = "other"; o["what"] = ""; }
	return o;
}
static const char* alg(DKIM::SignatureAlgorithm a) { return a == DKIM::DKIM_SA_RSA ? "rsa" : "ed25519"; }
static const char* dig(DKIM::DigestAlgorithm a) { return a == DKIM::DKIM_A_SHA1 ? "sha1" : "sha256"; }
static const char* mode(DKIM::CanonMode a) { return a == DKIM::DKIM_C_SIMPLE ? "simple" : "relaxed"; }
static DKIM::CanonMode mode(const string& s) { return s == "simple" ? DKIM::DKIM_C_SIMPLE : DKIM::DKIM_C_RELAXED; }
static json hexes(const std::list<string>& l) { json a = json::array(); for (auto& x : l) a.push_back(hex(x)); return a; }
static std::list<string> strs(const json& a) { std::list<string> l; for (auto& x : a) l.push_back(unhex(x.get<string>())); return l; }
static void viewSig(json& o, const DKIM::Signature& s)
{
	o["d"] = hex(s.GetDomain()); o["s"] = hex(s.GetSelector());
	o["alg"] = alg(s.GetSignatureAlgorithm()); o["hash"] = dig(s.GetDigestAlgorithm());
	o["ch"] = mode(s.GetCanonModeHeader()); o["cb"] = mode(s.GetCanonModeBody());
	o["h"] = hexes(s.GetSignedHeaders());
	o["local"] = hex(s.GetMailLocalPart()); o["mdom"] = hex(s.GetMailDomain());
	o["lset"] = s.GetBodySizeLimit(); o["l"] = hex(std::to_string(s.GetBodySize()));
	o["arc"] = s.IsARC(); o["inst"] = (int)s.GetARCInstance();
	o["b"] = hex(s.GetSignatureData()); o["bh"] = hex(s.GetBodyHash());
}
static string spkiOf(RSA* r)
{
	if (!r) return "";
	EVP_PKEY* p = EVP_PKEY_new();
	EVP_PKEY_set1_RSA(p, r);
	unsigned char* d = nullptr;
	int n = i2d_PUBKEY(p, &d);
	string s((char*)d, n > 0 ? (size_t)n : 0);
	OPENSSL_free(d);
	EVP_PKEY_free(p);
	return s;
}
static void viewKey(json& o, const DKIM::PublicKey& k)
{
	o["type"] = alg(k.GetSignatureAlgorithm());
	o["key"] = hex(k.GetSignatureAlgorithm() == DKIM::DKIM_SA_RSA ? spkiOf(k.GetRSAPublicKey()) : k.GetED25519PublicKey());
	o["soft"] = k.SoftFail();
	o["hashes"] = json::array();
	for (auto h : k.GetDigestAlgorithms()) o["hashes"].push_back(dig(h));
	o["flags"] = hexes(k.GetFlags());
	o["mail"] = !k.GetServiceType().empty();
}
static time_t num(const json& e, const char* k) { return (time_t)strtoll(e[k].get<string>().c_str(), nullptr, 10); }
static unsigned long unum(const json& e, const char* k) { return strtoul(e[k].get<string>().c_str(), nullptr, 10); }
static DKIM::Message::HeaderList::const_iterator nth(const DKIM::Validatory::SignatureList& l, const json& e)
{
	auto i = l.begin();
	if (e["k"].get<int>() > (int)l.size()) throw NoObject();
	std::advance(i, e["k"].get<int>() - 1);
	return i;
}
extern int dkimtool_main(int, char**);
static void runTool(Session* ses, const json& e, json& o)
{
	string dir = scratch() + "/t" + std::to_string(getpid()) + "_" + std::to_string((long)syscall(SYS_gettid));
	mkdir(dir.c_str(), 0700);
	for (auto& f : e["files"]) std::ofstream(dir + "/" + f["name"].get<string>(), std::ios::binary) << unhex(f["data"].get<string>());
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0)
	{
		if (chdir(dir.c_str())) _exit(98);
		int a = open("stdout", O_CREAT | O_WRONLY, 0600), b = open("stderr", O_CREAT | O_WRONLY, 0600);
		dup2(a, 1); dup2(b, 2);
		std::vector<string> av{"dkimtool"};
		for (auto& x : e["argv"]) av.push_back(unhex(x.get<string>()));
		std::vector<char*> p;
		for (auto& x : av) p.push_back(&x[0]);
		p.push_back(nullptr);
		cur = ses;
		int rc = dkimtool_main((int)av.size(), p.data());
		fflush(stdout); fflush(stderr);
		_exit(rc);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	auto slurp = [&](const string& n) { std::ifstream f(dir + "/" + n, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); };
	o["out"] = hex(slurp("stdout")); o["err"] = hex(slurp("stderr"));
	o["code"] = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
	string t = unhex(o["out"].get<string>());
	if (o["code"] == 0 && t.size() > 2 && t[0] != 91 && t.compare(t.size() - 2, 2, "\r\n") == 0 && e.contains("mail"))
		ses->lastText = t.substr(0, t.size() - 2), ses->lastMail = unhex(e["mail"].get<string>());
	for (auto& f : e["files"]) unlink((dir + "/" + f["name"].get<string>()).c_str());
	unlink((dir + "/stdout").c_str()); unlink((dir + "/stderr").c_str());
	rmdir(dir.c_str());
}

// ---------------------------------------------------------------- ownership
// Every RSA key is followed from its making to its release; known ones have a number.
static int keyIdx = -1;
static std::atomic<long> rsaCount(0);
static thread_local std::map<int, int>* keyLive = nullptr;	// number -> how often released
static void keyNew(void*, void*, CRYPTO_EX_DATA*, int, long, void*) { rsaCount++; }
static void keyFree(void*, void* id, CRYPTO_EX_DATA*, int, long, void*) { rsaCount--; if (id && keyLive) (*keyLive)[(int)(intptr_t)id]++; }
template<class T> static std::unique_ptr<T> copyOf(const T& t)
{
	if constexpr (std::is_copy_constructible_v<T>) return std::unique_ptr<T>(new T(t));
	else return nullptr;
}
template<class T> static bool assignTo(T& a, const T& b)
{
	if constexpr (std::is_copy_assignable_v<T>) { a = b; return true; }
	else return false;
}
struct Owner
{
	typedef DKIM::AdditionalSignaturesOptions A;
	std::unique_ptr<DKIM::SignatoryOptions> o; A* x = nullptr; std::unique_ptr<A> c; std::unique_ptr<DKIM::PublicKey> p;
	std::map<int, RSA*> mine; std::map<int, int> released; int keys = 0; long base;
	Owner()
	{
		if (keyIdx < 0) keyIdx = RSA_get_ex_new_index(0, nullptr, keyNew, nullptr, keyFree);
		base = rsaCount;
	}
	~Owner() { keyLive = &released; end(); keyLive = nullptr; }
	void end()
	{
		c.reset(); p.reset(); o.reset(); x = nullptr;
		for (auto& k : mine) RSA_free(k.second);
		mine.clear();
	}
	RSA* held(const string& s)
	{
		return s == "m" ? (o ? o->GetRSAPrivateKey() : nullptr) : s == "x" ? (x ? x->GetRSAPrivateKey() : nullptr) :
			s == "c" ? (c ? c->GetRSAPrivateKey() : nullptr) : (p ? p->GetRSAPublicKey() : nullptr);
	}
	static int number(RSA* r) { return r ? (int)(intptr_t)RSA_get_ex_data(r, keyIdx) : 0; }
	void name(RSA* r) { RSA_set_ex_data(r, keyIdx, (void*)(intptr_t)++keys); }
	RSA* known(int k) { for (auto s : {"m", "x", "c", "p"}) if (number(held(s)) == k) return held(s); return mine.count(k) ? mine[k] : nullptr; }
	const A& setting(const string& s) { if (s == "c") return *c; auto& l = o->GetAdditionalSignatures(); return s == "m" ? l.front() : l.back(); }
	void load(const string& s, const string& d)
	{
		if (s == "p") { p->Reset(); try { p->Parse(d); } catch (DKIM::PermanentError&) { p->Reset(); throw; } }
		else if (s == "m") o->SetPrivateKey(d); else if (s == "x") x->SetPrivateKey(d); else c->SetPrivateKey(d);
	}
	void alg(const string& s, DKIM::SignatureAlgorithm a) { if (s == "m") o->SetSignatureAlgorithm(a); else if (s == "x") x->SetSignatureAlgorithm(a); else c->SetSignatureAlgorithm(a); }
	void call(const json& e, json& out)
	{
		keyLive = &released;
		const string f = e["f"], s = e["s"];
		int k = e.value("k", 0);
		string r = "ok";
		const bool during = e.contains("during") && (s == "c" ? !!c : s == "x" ? !!x : !!o);	// set to the other algorithm for this call
		try
		{
			if (during) alg(s, DKIM::DKIM_SA_ED25519);
			if (f == "make")
			{
				string d = field(e, "data");
				BIO* b = BIO_new_mem_buf(d.data(), (int)d.size());
				RSA* n = PEM_read_bio_RSAPrivateKey(b, nullptr, nullptr, nullptr);
				BIO_free(b);
				name(n); mine[keys] = n;
			}
			else if (f == "ref") { RSA* n = known(k); RSA_up_ref(n); mine[k] = n; }
			else if (f == "free") { RSA_free(mine.at(k)); mine.erase(k); }
			else if (f == "new")
			{
				if (s == "p") p.reset(new DKIM::PublicKey);
				else { o.reset(new DKIM::SignatoryOptions); o->SetDomain("e.x").SetSelector("s"); }
			}
			else if (f == "add") x = &o->AddAdditionalSignature().SetDomain("e.y").SetSelector("t");
			else if (f == "set")
			{
				RSA* n = k ? known(k) : nullptr;
				bool give = e["give"];
				if (give) mine.erase(k); else if (k) mine[k] = n;
				if (s == "m") o->SetRSAPrivateKey(n, give); else if (s == "x") x->SetRSAPrivateKey(n, give); else c->SetRSAPrivateKey(n, give);
			}
			else if (f == "load") { load(s, field(e, "data")); RSA* n = held(s); if (n && !number(n)) name(n); else r = "nokey"; }
			else if (f == "bad") load(s, field(e, "data"));
			else if (f == "ed") { alg(s, DKIM::DKIM_SA_ED25519); load(s, field(e, "data")); alg(s, DKIM::DKIM_SA_RSA); }
			else if (f == "copy") { c = copyOf(setting(s)); if (!c) r = "n/a"; }
			else if (f == "assign") { if (!assignTo(e["to"] == "x" ? *x : *c, setting(s))) r = "n/a"; }
			else if (f == "whole")
			{
				if (s == "p") { auto d = copyOf(*p); DKIM::PublicKey q; assignTo(q, *p); }
				else { auto d = copyOf(*o); DKIM::SignatoryOptions q; assignTo(q, *o); }
			}
			else if (f == "loop")	// as callers go through the settings, one copy at a time
			{
				size_t n = 0;
				for (auto& i : o->GetAdditionalSignatures()) { auto d = copyOf(i); if (d) n += d->GetDomain().size(); }
			}
			else if (f == "drop") { if (s == "m") { o.reset(); x = nullptr; } else if (s == "c") c.reset(); else p.reset(); }
			else if (f == "reset") p->Reset();
			else if (f == "again")
			{
				for (auto& d : e["l"]) try { p->Parse(unhex(d.get<string>())); } catch (DKIM::PermanentError&) { }
				p->Reset();
			}
			else if (f == "sign")
			{
				std::stringstream in("From: a@e.x\r\n\r\nhi\r\n");
				DKIM::Signatory g(in);
				if (g.CreateSignature(*o).empty()) r = "empty";
			}
			else if (f == "end") end();
			else r = "unknown call";
		}
		catch (DKIM::PermanentError&) { r = "perm"; }
		if (during) for (auto t : {"m", "x", "c"}) if (string(t) == "c" ? !!c : string(t) == "x" ? !!x : !!o) alg(t, DKIM::DKIM_SA_RSA);
		out["r"] = r;
		out["live"] = json::array();
		for (int i = 1; i <= keys; i++) if (!released[i]) out["live"].push_back(i);
		out["twice"] = std::any_of(released.begin(), released.end(), [](auto& i) { return i.second > 1; });
		out["stray"] = rsaCount - base - (long)out["live"].size();
		for (auto n : {"m", "x", "c", "p"}) out["held"][n] = number(held(n));
		keyLive = nullptr;
	}
};

json Session::run(const json& e)
{
	cur = this;
	json o = call(e);
	cur = nullptr;
	return o;
}
json Session::call(const json& e)
{
	const string c = e["c"];
	return guarded([&](json& o) {
		if (c == "canonbody")
		{
			size_t fill = e.value("fill", 0);	// so many 'a' before the data, expected back before the rest
			auto in = openStream(e, string(fill, 'a') + field(e, "data"));
			string out;
			ssize_t off = (ssize_t)field(e, "pre").size();
			if (e.contains("nobody")) off = -1;
			if (e.contains("skip")) { string junk((size_t)e["skip"].get<int>(), 0); in->s->read(&junk[0], (std::streamsize)junk.size()); }
			bool fits = DKIM::Conversion::CanonicalizationBody(*in->s, mode(e["m"].get<string>()), off,
				e["lset"].get<bool>(), unum(e, "ld"), [&](const char* p, size_t n) { out.append(p, n); });
			size_t lead = std::min(fill, out.size());
			if (out.compare(0, lead, string(lead, 'a')) != 0) o["r"] = "lead";
			o["out"] = hex(out.substr(lead)); o["n"] = (int)out.size(); o["fits"] = fits;
		}
		else if (c == "canonhdr")
		{
			size_t fill = e.value("fill", 0);
			string out = DKIM::Conversion::CanonicalizationHeader(mode(e["m"].get<string>())).FilterHeader(string(fill, 'a') + field(e, "data"));
			size_t lead = std::min(fill, out.size());
			if (out.compare(0, lead, string(lead, 'a')) != 0) o["r"] = "lead";
			o["out"] = hex(out.substr(lead));
		}
		else if (c == "mail")
		{
			auto in = openStream(e, field(e, "data"));
			DKIM::Message m;
			while (m.ParseLine(*in->s) && !m.IsDone()) { }
			long b = (long)m.GetBodyOffset();
			o["body"] = b == -1 ? -1 : b - (long)field(e, "pre").size();
			o["done"] = m.IsDone();
			o["h"] = json::array();
			for (auto& h : m.GetHeaders())
				o["h"].push_back({{"t", hex(h->GetHeader())}, {"n", hex(h->GetName())}, {"v", (int)h->GetValueOffset()}});
		}
		else if (c == "tags")
		{
			DKIM::TagList t;
			t.Parse(field(e, "data"));
			o["t"] = json::array();
			for (auto i = t.cbegin(); i != t.cend(); ++i)
			{
				DKIM::TagListEntry g;
				if (!t.GetTag(i->first, g)) { o["r"] = "lookup"; continue; }
				o["t"].push_back({{"n", hex(i->first)}, {"v", hex(g.GetValue())},
					{"o", g.GetValue().empty() ? -1 : (int)g.GetValueOffset()}});
			}
			DKIM::TagListEntry g;
			if (t.GetTag("nosuchtag", g)) o["r"] = "ghost";
		}
		else if (c == "psig")
		{
			std::stringstream in(field(e, "data") + "\r\n\r\n");
			DKIM::Message m;
			while (m.ParseLine(in) && !m.IsDone()) { }
			if (m.GetHeaders().empty()) throw NoObject();
			DKIM::Signature mine, &s = again(sigs, e, "s", mine);
			s.Parse(m.GetHeaders().front());
			viewSig(o, s);
		}
		else if (c == "pkey")
		{
			DKIM::PublicKey mine, &k = again(keys, e, "p", mine);
			k.Parse(field(e, "data"));
			viewKey(o, k);
		}
		else if (c == "qpdec") o["out"] = hex(DKIM::Conversion::QuotedPrintable::Decode(field(e, "data"), e["w"].get<bool>()));
		else if (c == "qpenc") o["out"] = hex(DKIM::Conversion::QuotedPrintable::Encode(field(e, "data")));
		else if (c == "b64enc") o["out"] = hex(DKIM::Conversion::Base64_Encode(field(e, "data")));
		else if (c == "b64dec") o["out"] = hex(DKIM::Conversion::Base64_Decode(field(e, "data")));
		else if (c == "ew") o["out"] = hex(DKIM::Conversion::EncodedWord::Decode(field(e, "data")));
		else if (c == "vlist") o["out"] = hexes(DKIM::Tokenizer::ValueList(field(e, "data")));
		else if (c == "addr") o["out"] = hexes(DKIM::Tokenizer::ParseAddressList(field(e, "data")));
		else if (c == "ws")
		{
			std::stringstream in(field(e, "data"));
			for (int i = 0; i < e["at"].get<int>(); i++) in.get();
			const string k = e["kind"];
			o["out"] = hex(DKIM::Tokenizer::ReadWhiteSpace(in, k == "crlf" ? DKIM::Tokenizer::READ_CRLF :
				k == "wsp" ? DKIM::Tokenizer::READ_WSP : k == "loose" ? DKIM::Tokenizer::READ_WSP_LOOSE : DKIM::Tokenizer::READ_FWS));
			in.clear();
			o["pos"] = (int)in.tellg();
			string rest; char ch;
			while (in.get(ch)) rest += ch;
			if (rest != field(e, "data").substr((size_t)o["pos"].get<int>())) o["r"] = "corrupt";
		}
		else if (c == "dns")
		{
			rawSet = true; rawHerr = e["herr"].get<string>(); rawResp = field(e, "data");
			string out;
			bool f = DKIM::Util::Resolver().GetTXT(e.value("name", "s._domainkey.example.com"), out);
			rawSet = false;
			o["found"] = f; o["out"] = hex(out);
		}
		else if (c == "domain") o["valid"] = DKIM::Util::ValidateDomain(field(e, "data"));
		else if (c == "now") now = num(e, "d");
		else if (c == "errno") errno = e["d"].get<int>();
		else if (c == "ambient") o["set"] = ambient(e["f"], e["a"]);
		else if (c == "table")
		{
			table.clear();
			for (auto& t : e["t"]) table[unhex(t["q"].get<string>())] = Answer{t["ok"].get<bool>(), unhex(t["txt"].get<string>())};
		}
		else if (c == "val")
		{
			string data = field(e, "data");
			if (e.contains("last")) { data = lastText + "\r\n" + lastMail; o["data"] = hex(data); }
			std::unique_ptr<Validator> v(new Validator);
			v->in = openStream(e, data);
			const string t = e["type"];
			v->v.reset(new DKIM::Validatory(*v->in->s, t == "dkim" ? DKIM::Validatory::DKIM : t == "arc" ? DKIM::Validatory::ARC : DKIM::Validatory::NONE));
			if (e.value("custom", true))
			{
				v->v->CustomDNSData = this;
				v->v->CustomDNSResolver = [](const string& q, string& r, void* d) { return ((Session*)d)->resolve(q, r); };
			}
			o["sigs"] = json::array();
			for (auto& h : v->v->GetSignatures()) o["sigs"].push_back(hex(h->GetHeader()));
			vals[e["v"].get<string>()] = std::move(v);
		}
		else if (c == "sigreset") { usable["s:" + e["s"].get<string>()] = false; auto& s = sigs[e["s"].get<string>()]; if (s) s->Reset(); else s.reset(new DKIM::Signature); }
		else if (c == "keyreset") { usable["p:" + e["p"].get<string>()] = false; auto& k = keys[e["p"].get<string>()]; if (k) k->Reset(); else k.reset(new DKIM::PublicKey); }
		else if (c == "getsig")
		{
			auto& s = sigs[e["s"].get<string>()];
			if (!s) s.reset(new DKIM::Signature);
			auto& v = at(vals, e["v"].get<string>())->v;
			auto header = nth(v->GetSignatures(), e);
			bool& u = usable["s:" + e["s"].get<string>()];
			u = false;
			try { v->GetSignature(header, *s); }
			catch (DKIM::PermanentError& x) { u = x.getAuthenticationResult() == "fail"; throw; }	// parsed, but another body
			u = true;
			viewSig(o, *s);
		}
		else if (c == "bodyhash") at(vals, e["v"].get<string>())->v->CheckBodyHash(*parsed(sigs, "s:", e["s"].get<string>()));
		else if (c == "getkey")
		{
			auto& k = keys[e["p"].get<string>()];
			if (!k) k.reset(new DKIM::PublicKey);
			auto& v = at(vals, e["v"].get<string>())->v;
			auto& s = parsed(sigs, "s:", e["s"].get<string>());
			bool& u = usable["p:" + e["p"].get<string>()];
			u = false;
			v->GetPublicKey(*s, *k);
			u = true;
			viewKey(o, *k);
		}
		else if (c == "check")
		{
			auto& v = at(vals, e["v"].get<string>())->v;
			auto header = nth(v->GetSignatures(), e);
			v->CheckSignature(header, *parsed(sigs, "s:", e["s"].get<string>()), *parsed(keys, "p:", e["p"].get<string>()));
		}
		else if (c == "optnew") { const string n = e["n"]; extra[n].clear(); opts[n].reset(new DKIM::SignatoryOptions); }
		else if (c == "opt")
		{
			const string n = e["n"], f = e["f"];
			auto& p = *at(opts, n);
			int i = e.value("i", 1);
			DKIM::AdditionalSignaturesOptions* x = i > 1 ? extra[n].at((size_t)i - 2) : nullptr;
			if (f == "addsig") extra[n].push_back(&p.AddAdditionalSignature());
			else if (f == "alg") { auto a = e["a"] == "rsa" ? DKIM::DKIM_SA_RSA : DKIM::DKIM_SA_ED25519; if (x) x->SetSignatureAlgorithm(a); else p.SetSignatureAlgorithm(a); }
			else if (f == "domain") { if (x) x->SetDomain(field(e, "data")); else p.SetDomain(field(e, "data")); }
			else if (f == "selector") { if (x) x->SetSelector(field(e, "data")); else p.SetSelector(field(e, "data")); }
			else if (f == "key") { if (x) x->SetPrivateKey(field(e, "data")); else p.SetPrivateKey(field(e, "data")); }
			else if (f == "rsakey")
			{
				RSA* r = nullptr;
				string pem = field(e, "data");
				if (!pem.empty())
				{
					BIO* b = BIO_new_mem_buf(pem.data(), (int)pem.size());
					r = PEM_read_bio_RSAPrivateKey(b, nullptr, nullptr, nullptr);
					BIO_free(b);
				}
				bool give = e.value("give", true);
				if (!give && r) owned.push_back(r);
				if (x) x->SetRSAPrivateKey(r, give); else p.SetRSAPrivateKey(r, give);
			}
			else if (f == "digest") p.SetDigestAlgorithm(e["a"] == "sha1" ? DKIM::DKIM_A_SHA1 : DKIM::DKIM_A_SHA256);
			else if (f == "ch") p.SetCanonModeHeader(mode(e["a"].get<string>()));
			else if (f == "cb") p.SetCanonModeBody(mode(e["a"].get<string>()));
			else if (f == "headers") p.SetHeaders(strs(e["l"]));
			else if (f == "addh") p.AddHeaders(strs(e["l"]));
			else if (f == "delh") p.DelHeaders(strs(e["l"]));
			else if (f == "oversign") p.SetOversignHeaders(strs(e["l"]));
			else if (f == "limit") p.SetSignBodyLength(unum(e, "d"));
			else if (f == "arc") p.SetARCInstance(unum(e, "d"));
			else if (f == "ts") p.SetTimestamp(num(e, "d"));
			else if (f == "ex") { if (e["abs"].get<bool>()) p.SetExpiration(num(e, "d")); else p.SetExpiration(num(e, "d"), false); }
			else if (f == "ident") p.SetIdentity(field(e, "data"));
		}
		else if (c == "optget")
		{
			auto& p = *at(opts, e["n"].get<string>());
			o["sigs"] = json::array();
			for (auto& s : p.GetAdditionalSignatures())
				o["sigs"].push_back({{"alg", alg(s.GetSignatureAlgorithm())}, {"d", hex(s.GetDomain())}, {"s", hex(s.GetSelector())},
					{"rsa", s.GetRSAPrivateKey() != nullptr}, {"ed", !s.GetED25519PrivateKey().empty()}});
			auto& m = p.GetAdditionalSignatures().front();
			if (p.GetDomain() != m.GetDomain() || p.GetSelector() != m.GetSelector() || p.GetRSAPrivateKey() != m.GetRSAPrivateKey() ||
				p.GetED25519PrivateKey() != m.GetED25519PrivateKey() || p.GetSignatureAlgorithm() != m.GetSignatureAlgorithm()) o["r"] = "main differs";
			o["digest"] = dig(p.GetDigestAlgorithm()); o["ch"] = mode(p.GetCanonModeHeader()); o["cb"] = mode(p.GetCanonModeBody());
			o["headers"] = hexes(p.GetHeaders()); o["oversign"] = hexes(p.GetOversignHeaders());
			o["lset"] = p.GetBodySignLength(); o["l"] = std::to_string(p.GetBodyLength()); o["arc"] = (int)p.GetARCInstance();
			o["tset"] = p.GetTimestampSign(); o["t"] = std::to_string(p.GetTimestamp());
			o["xset"] = p.GetExpirationSign(); o["x"] = std::to_string(p.GetExpiration()); o["xabs"] = p.GetExpirationAbsolute();
			o["ident"] = hex(p.GetIdentity());
		}
		else if (c == "signer")
		{
			std::unique_ptr<Signer> g(new Signer);
			g->data = field(e, "data");
			g->in = openStream(e, g->data);
			g->s.reset(new DKIM::Signatory(*g->in->s));
			signers[e["g"].get<string>()] = std::move(g);
		}
		else if (c == "sign")
		{
			auto& g = at(signers, e["g"].get<string>());
			lastMail = g->data;
			lastText = "";
			lastText = g->s->CreateSignature(*at(opts, e["n"].get<string>()));
			o["out"] = hex(lastText);
		}
		else if (c == "own") { if (!own) own.reset(new Owner); own->call(e, o); }
		else if (c == "tool") runTool(this, e, o);
		else o["r"] = "unknown call";
	});
}
// what an application may have set about itself: nothing the library says may depend on it
struct Grouped : std::numpunct<char>
{
	char do_thousands_sep() const override { return ','; }
	string do_grouping() const override { return "\1"; }
	char do_decimal_point() const override { return ','; }
	string do_truename() const override { return "yes"; }
};
struct Odd : std::ctype<char>
{
	static const mask* odd()
	{
		static mask t[table_size];
		std::copy(classic_table(), classic_table() + table_size, t);
		for (int c : {(int)',', (int)':', (int)';', (int)'.', (int)'x', 0xA0}) t[c] |= space | blank;
		for (int c = 128; c < 256; c++) t[c] |= alpha | print | graph | lower;
		t['I'] = t['7'] = 0; t['_'] |= digit;
		return t;
	}
	Odd() : std::ctype<char>(odd()) {}
	char do_tolower(char c) const override { return c == 'I' ? (char)0xFD : std::ctype<char>::do_tolower(c); }
	const char* do_tolower(char* a, const char* b) const override { for (; a != b; a++) *a = do_tolower(*a); return b; }
	char do_toupper(char c) const override { return c == 'i' ? (char)0xDD : std::ctype<char>::do_toupper(c); }
	const char* do_toupper(char* a, const char* b) const override { for (; a != b; a++) *a = do_toupper(*a); return b; }
};
static bool disturbed = false;
static bool ambient(const string& f, const string& a)
{
	disturbed = true;
	if (f == "locale") { setenv("LC_ALL", a.c_str(), 1); return setlocale(LC_ALL, a.c_str()) != nullptr; }
	if (f == "cxx")
	{
		if (a == "grouped") std::locale::global(std::locale(std::locale::classic(), new Grouped));
		else if (a == "odd") std::locale::global(std::locale(std::locale(std::locale::classic(), new Grouped), new Odd));
		else if (a == "classic") std::locale::global(std::locale::classic());
		else try { std::locale::global(std::locale(a.c_str())); } catch (const std::runtime_error&) { return false; }
		return true;
	}
	if (f == "tz") { setenv("TZ", a.c_str(), 1); tzset(); return true; }
	if (f == "round") return fesetround(a == "up" ? FE_UPWARD : a == "down" ? FE_DOWNWARD : FE_TONEAREST) == 0;
	if (f == "ssl") { for (int i = 0; i < atoi(a.c_str()); i++) ERR_put_error(ERR_LIB_RSA, 0, 100 + i, __FILE__, __LINE__); return true; }
	if (f == "umask") { umask((mode_t)strtol(a.c_str(), nullptr, 8)); return true; }
	return false;
}
struct Calm     // a session leaves nothing of it behind
{
	~Calm()
	{
		if (!disturbed) return;
		disturbed = false;
		std::locale::global(std::locale::classic());
		setlocale(LC_ALL, "C");
		unsetenv("LC_ALL");
		unsetenv("TZ"); tzset();
		fesetround(FE_TONEAREST);
		ERR_clear_error();
		umask(022);
	}
};
static json runCall(Session& s, const json& e)
{
	s.queries = json::array();
	json o = s.run(e);
	if (e["c"] == "getkey") o["q"] = s.queries;
	return o;
}
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
static json runProg(const json& prog, size_t upto = (size_t)-1);
static int openFiles() { int n = 0; if (DIR* d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
// the calls so far, made again n times by objects of their own: what every round after the first two leaves behind
static json runAgain(const json& prog, size_t upto, int n)
{
	auto settle = [] { OPENSSL_thread_stop(); return __sanitizer_get_current_allocated_bytes ? (long)__sanitizer_get_current_allocated_bytes() : 0L; };
	long bytes = -1, was = 0; int files = -1, had = 0;
	for (int i = 0; i < n; i++)
	{
		runProg(prog, upto);
		long b = settle(); int f = openFiles();
		if (i > 1) { bytes = i > 2 ? std::min(bytes, b - was) : b - was; files = i > 2 ? std::min(files, f - had) : f - had; }
		was = b; had = f;
	}
	return {{"r", "ok"}, {"ar", ""}, {"bytes", std::to_string(std::max(0L, bytes))}, {"files", std::max(0, files)}};
}
static json runProg(const json& prog, size_t upto)
{
	Session s;
	Calm calm;
	json out = json::array();
	for (size_t i = 0; i < std::min(upto, prog.size()); i++)
	{
		const json& e = prog[i];
		if (e["c"] == "again") { out.push_back(runAgain(prog, i, e["n"])); continue; }
		yieldPoint();
		out.push_back(runCall(s, e));
	}
	return out;
}
// several sessions: one after another, interleaved by a schedule, nested in callbacks, or freely parallel
static json runPar(const json& q)
{
	const string how = q["how"];
	const json& ps = q["progs"];
	size_t n = ps.size();
	json out = json::array();
	if (how == "alone")
	{
		for (auto& p : ps) out.push_back(runProg(p));
		return out;
	}
	std::vector<json> res(n);
	if (how == "nested")
	{
		// program 0 runs; at callbacks (all early ones, some later) all the other programs run to completion
		std::vector<json> got;
		long calls = 0, budget = 40;
		std::function<void()> f = [&] { if (++calls > 12 && calls % 61) return; if (--budget < 0) return; for (size_t i = 1; i < n; i++) { json r = runProg(ps[i]); got.push_back({{"i", i}, {"o", r}}); } };
		nest = &f;
		res[0] = runProg(ps[0]);
		nest = nullptr;
		out.push_back(res[0]);
		out.push_back(got);
		return out;
	}
	std::vector<std::thread> th;
	if (how == "baton")
	{
		Baton b;
		for (auto& x : q["sched"]) b.sched.push_back(x.get<int>());
		b.done.assign(n, false);
		for (size_t i = 0; i < n; i++)
			th.emplace_back([&, i] {
				{ std::unique_lock<std::mutex> l(b.m); b.wait(l, (int)i); }
				baton = &b; batonMe = (int)i;
				res[i] = runProg(ps[i]);
				baton = nullptr;
				b.finish((int)i);
			});
		{ std::unique_lock<std::mutex> l(b.m); b.turn = b.next(0); b.cv.notify_all(); }
		for (auto& t : th) t.join();
		for (auto& r : res) out.push_back(r);
		return out;
	}
	// free
	int reps = q["reps"];
	std::atomic<int> go(0);
	std::vector<std::vector<json>> all(n);
	for (size_t i = 0; i < n; i++)
		th.emplace_back([&, i] {
			go++;
			while (go < (int)n) { }
			for (int k = 0; k < reps; k++)
			{
				json r = runProg(ps[i]);
				if (all[i].empty() || all[i].back() != r) all[i].push_back(r);
			}
		});
	for (auto& t : th) t.join();
	for (auto& a : all) out.push_back(a);
	return out;
}

static string curId;
static void onHang(int)
{
	string m = "{\"id\":" + curId + ",\"hang\":true}\n";
	if (write(1, m.data(), m.size())) { }
	_exit(97);
}
int main()
{
	signal(SIGPROF, onHang);
	signal(SIGPIPE, SIG_IGN);
	std::ios::sync_with_stdio(false);
	string line;
	while (std::getline(std::cin, line))
	{
		json q = json::parse(line);
		curId = q["id"].dump();
		struct itimerval it = {{0, 0}, {q.value("cpu", 20), 0}};
		setitimer(ITIMER_PROF, &it, nullptr);
		json a;
		a["id"] = q["id"];
		if (q.contains("progs")) a["o"] = runPar(q);
		else a["o"] = runProg(q["ev"]);
		struct itimerval z = {{0, 0}, {0, 0}};
		setitimer(ITIMER_PROF, &z, nullptr);
		string s = a.dump();
		s += '\n';
		size_t at = 0;
		while (at < s.size())
		{
			ssize_t w = write(1, s.data() + at, s.size() - at);
			if (w <= 0) return 1;
			at += (size_t)w;
		}
	}
	return 0;
}
