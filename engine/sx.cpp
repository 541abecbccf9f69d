// sx: forking symbolic executor for LLVM IR with an explicit thread scheduler. See ../DESIGN.md.
#include "expr.h"
#include <z3.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/CFG.h>
#include <llvm/ADT/PostOrderIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <unistd.h>
#include <atomic>
#include <functional>
#include <set>
#include <map>
#include <unordered_map>
#include <llvm/Support/Path.h>

using namespace llvm;
typedef uint64_t u64;

static double now()
{
	struct timeval tv;
	gettimeofday(&tv, nullptr);
	return (double)tv.tv_sec + tv.tv_usec * 1e-6;
}

// ---------------------------------------------------------------- options
static int opt_race;	// look for data races in the code under test
static int opt_procs = 1, opt_preempt = 2, opt_timeouts = 2, opt_verbose = 0, opt_forksel = 0, opt_dedup = 0;
static double opt_time = 300;
static u64 opt_steps = 5000000;
static unsigned opt_qtime = 60000;
static std::string opt_dump;

// ---------------------------------------------------------------- shared statistics (across worker processes)
#define MAXW 512
#define MAXCOV (1 << 20)
struct Shared {
	std::atomic<int> procs, stop, nviol, ninc;
	std::atomic<u64> paths, killed, insts, forks, queries, sat, unsat, cached, modelhits, solver_us, checks, checks_solved, maxdepth, schedpoints, maxsteps, merged, visited;
	std::atomic<int> claim;
	char viol[1 << 20];		// first violation, JSON
	char inc[1 << 16];		// first inconclusive reason
	std::atomic<unsigned char> witness[MAXW];
	std::atomic<unsigned char> cov[MAXCOV];
};
static Shared *S;
static double t_start;

static std::string jstr(const std::string &s)
{
	std::string r = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}
static void inconclusive(const std::string &why)
{
	int z = 0;
	if (S->ninc.compare_exchange_strong(z, 1))
		snprintf(S->inc, sizeof S->inc, "%s", why.c_str());
	S->stop = 1;
}

// ---------------------------------------------------------------- solver
static Z3_context Z;
static Z3_solver ZS;
static Z3_sort bvs[65], arrSort;
static std::unordered_map<int, Z3_func_decl> arrFn;
static Z3_ast mk(Z3_ast a) { Z3_inc_ref(Z, a); return a; }
static void z3err(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); _exit(70); }
static void solverInit()
{
	Z3_global_param_set("memory_max_size", "3000");
	Z3_config cfg = Z3_mk_config();
	Z = Z3_mk_context_rc(cfg);
	Z3_set_error_handler(Z, z3err);
	for (unsigned i = 1; i <= 64; i++) {
		bvs[i] = Z3_mk_bv_sort(Z, i);
		Z3_inc_ref(Z, Z3_sort_to_ast(Z, bvs[i]));
	}
	ZS = Z3_mk_simple_solver(Z);
	Z3_solver_inc_ref(Z, ZS);
	Z3_params p = Z3_mk_params(Z);
	Z3_params_inc_ref(Z, p);
	Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), opt_qtime);
	Z3_solver_set_params(Z, ZS, p);
}
static Z3_ast toBV(E e);
static Z3_ast toBool(E e)
{
	if (e->z3bool) return (Z3_ast)e->z3bool;
	Z3_ast r;
	switch (e->op) {
	case O_CONST: r = e->c ? Z3_mk_true(Z) : Z3_mk_false(Z); break;
	case O_EQ: r = e->k[0]->w == 1 ? Z3_mk_iff(Z, toBool(e->k[0]), toBool(e->k[1])) : Z3_mk_eq(Z, toBV(e->k[0]), toBV(e->k[1])); break;
	case O_ULT: r = Z3_mk_bvult(Z, toBV(e->k[0]), toBV(e->k[1])); break;
	case O_SLT: r = Z3_mk_bvslt(Z, toBV(e->k[0]), toBV(e->k[1])); break;
	case O_AND: { Z3_ast a[2] = { toBool(e->k[0]), toBool(e->k[1]) }; r = Z3_mk_and(Z, 2, a); break; }
	case O_OR: { Z3_ast a[2] = { toBool(e->k[0]), toBool(e->k[1]) }; r = Z3_mk_or(Z, 2, a); break; }
	case O_XOR:
		if (isTrue(e->k[1])) r = Z3_mk_not(Z, toBool(e->k[0]));
		else r = Z3_mk_xor(Z, toBool(e->k[0]), toBool(e->k[1]));
		break;
	case O_ITE: r = Z3_mk_ite(Z, toBool(e->k[0]), toBool(e->k[1]), toBool(e->k[2])); break;
	default: {
		Z3_ast one = mk(Z3_mk_unsigned_int64(Z, 1, bvs[1]));
		r = Z3_mk_eq(Z, toBV(e), one);
	}
	}
	e->z3bool = mk(r);
	return r;
}
static Z3_ast toBV(E e);
static Z3_ast tblIte(int t, E idx, unsigned lo, unsigned bits)
{
	const auto &d = tableData(t);
	if (bits == 0)
		return Z3_mk_unsigned_int64(Z, lo < d.size() ? d[lo] : 0, bvs[8]);
	unsigned half = 1u << (bits - 1);
	Z3_ast a = mk(tblIte(t, idx, lo, bits - 1)), b = mk(tblIte(t, idx, lo + half, bits - 1));
	return Z3_mk_ite(Z, toBool(mkEq(mkExtract(idx, bits - 1, 1), mkConst(1, 1))), b, a);
}
// Division by a constant: the quotient is a new unknown with what determines it, which the solver
// deals with better than with a division. The facts go along with every query that contains the term.
struct Div { Z3_ast q, rem, fact; };
static std::map<std::pair<uint32_t, u64>, Div> divs;
static bool isDiv(E e) { return (e->op == O_UDIV || e->op == O_UREM) && isC(e->k[1]) && e->k[1]->c > 1 && (e->k[1]->c & (e->k[1]->c - 1)); }
static Div &divOf(E e)
{
	auto i = divs.find({ e->k[0]->id, e->k[1]->c });
	if (i != divs.end()) return i->second;
	Z3_sort so = bvs[e->w];
	auto num = [&](u64 x) { return mk(Z3_mk_unsigned_int64(Z, x, so)); };
	Z3_ast x = toBV(e->k[0]);
	u64 c = e->k[1]->c;
	Div d;
	d.q = mk(Z3_mk_fresh_const(Z, "q", so));
	Z3_ast qc = mk(Z3_mk_bvmul(Z, d.q, num(c)));
	d.rem = mk(Z3_mk_fresh_const(Z, "r", so));
	Z3_ast f[4] = { mk(Z3_mk_eq(Z, x, mk(Z3_mk_bvadd(Z, qc, d.rem)))), mk(Z3_mk_bvule(Z, d.q, num(mask(e->w) / c))), mk(Z3_mk_bvule(Z, qc, x)), mk(Z3_mk_bvult(Z, d.rem, num(c))) };
	d.fact = mk(Z3_mk_and(Z, 4, f));
	return divs[{ e->k[0]->id, e->k[1]->c }] = d;
}
static void divFacts(E e, std::unordered_set<E> &seen, std::vector<Z3_ast> &out)
{
	if (divs.empty() || e->vars->empty() || !seen.insert(e).second) return;
	for (int i = 0; i < 3 && e->k[i]; i++) divFacts(e->k[i], seen, out);
	if (isDiv(e)) out.push_back(divOf(e).fact);
}
static Z3_ast toBV(E e)
{
	if (e->z3bv) return (Z3_ast)e->z3bv;
	Z3_ast r = nullptr;
	auto K = [&](int i) { return toBV(e->k[i]); };
	switch (e->op) {
	case O_CONST: r = Z3_mk_unsigned_int64(Z, e->c, bvs[e->w]); break;
	case O_VAR: { char n[24]; snprintf(n, sizeof n, "v%d", (int)e->c); r = Z3_mk_const(Z, Z3_mk_string_symbol(Z, n), bvs[e->w]); break; }
	case O_SEL: {
		Z3_func_decl &f = arrFn[(int)e->c];
		if (!f) {
			char n[24];
			snprintf(n, sizeof n, "a%d", (int)e->c);
			f = Z3_mk_func_decl(Z, Z3_mk_string_symbol(Z, n), 1, &bvs[64], bvs[8]);
			Z3_inc_ref(Z, Z3_func_decl_to_ast(Z, f));
		}
		Z3_ast i = toBV(e->k[0]);
		r = Z3_mk_app(Z, f, 1, &i);
		break;
	}
	case O_TBL: {
		unsigned bits = 0;
		while ((1u << bits) < tableData((int)e->c).size()) bits++;
		r = tblIte((int)e->c, e->k[0], 0, bits);
		break;
	}
	case O_ADD: r = Z3_mk_bvadd(Z, K(0), K(1)); break;
	case O_MUL: r = (isC(e->k[1]) && e->k[1]->c == mask(e->w)) ? Z3_mk_bvneg(Z, K(0)) : Z3_mk_bvmul(Z, K(0), K(1)); break;
	case O_UDIV: r = isDiv(e) ? divOf(e).q : Z3_mk_bvudiv(Z, K(0), K(1)); break;
	case O_SDIV: r = Z3_mk_bvsdiv(Z, K(0), K(1)); break;
	case O_UREM: r = isDiv(e) ? divOf(e).rem : Z3_mk_bvurem(Z, K(0), K(1)); break;
	case O_SREM: r = Z3_mk_bvsrem(Z, K(0), K(1)); break;
	case O_AND: case O_OR:
		if (e->w == 1) { Z3_ast b = toBool(e); r = Z3_mk_ite(Z, b, mk(Z3_mk_unsigned_int64(Z, 1, bvs[1])), mk(Z3_mk_unsigned_int64(Z, 0, bvs[1]))); }
		else r = e->op == O_AND ? Z3_mk_bvand(Z, K(0), K(1)) : Z3_mk_bvor(Z, K(0), K(1));
		break;
	case O_XOR:
		if (e->w > 1 && isC(e->k[1]) && e->k[1]->c == mask(e->w)) r = Z3_mk_bvnot(Z, K(0));
		else r = Z3_mk_bvxor(Z, K(0), K(1));
		break;
	case O_SHL: r = Z3_mk_bvshl(Z, K(0), K(1)); break;
	case O_LSHR: r = Z3_mk_bvlshr(Z, K(0), K(1)); break;
	case O_ASHR: r = Z3_mk_bvashr(Z, K(0), K(1)); break;
	case O_EQ: case O_ULT: case O_SLT: {
		Z3_ast b = toBool(e);
		r = Z3_mk_ite(Z, b, mk(Z3_mk_unsigned_int64(Z, 1, bvs[1])), mk(Z3_mk_unsigned_int64(Z, 0, bvs[1])));
		break;
	}
	case O_ZEXT: r = Z3_mk_zero_ext(Z, e->w - e->k[0]->w, K(0)); break;
	case O_SEXT: r = Z3_mk_sign_ext(Z, e->w - e->k[0]->w, K(0)); break;
	case O_EXTRACT: r = Z3_mk_extract(Z, (unsigned)e->c + e->w - 1, (unsigned)e->c, K(0)); break;
	case O_CONCAT: r = Z3_mk_concat(Z, K(0), K(1)); break;
	case O_ITE: r = Z3_mk_ite(Z, toBool(e->k[0]), K(1), K(2)); break;
	}
	e->z3bv = mk(r);
	return r;
}
static void collectSel(E e, std::unordered_set<E> &seen, std::vector<E> &out)
{
	if (e->vars->empty() || !seen.insert(e).second) return;
	if (e->op == O_SEL || e->op == O_VAR) out.push_back(e);
	for (int i = 0; i < 3 && e->k[i]; i++) collectSel(e->k[i], seen, out);
}
struct QRes { bool sat; std::shared_ptr<Model> m; };
struct VecHash { size_t operator()(const std::vector<uint32_t> &v) const { u64 h = 1469598103934665603ULL; for (auto x : v) h = (h ^ x) * 1099511628211ULL; return h; } };
static std::unordered_map<std::vector<uint32_t>, QRes, VecHash> qcache;
static std::vector<std::shared_ptr<Model>> recent;
// The same query up to the names of its inputs has the same answer: small queries are looked up in that form.
struct CRes { bool sat; std::vector<std::pair<uint32_t, u64>> v; std::vector<std::pair<uint32_t, std::unordered_map<u64, uint8_t>>> a; };
static std::unordered_map<std::vector<uint32_t>, CRes, VecHash> ccache;
struct Canon {
	std::vector<uint32_t> out;
	std::unordered_map<E, uint32_t> node;
	std::unordered_map<int, uint32_t> var;
	std::vector<int> names;
	bool add(E e)
	{
		if (node.count(e)) return true;
		for (int i = 0; i < 3 && e->k[i]; i++)
			if (!add(e->k[i])) return false;
		if (node.size() > 150) return false;
		out.push_back((uint32_t)e->op << 8 | e->w);
		if (e->op == O_VAR || e->op == O_SEL) {
			auto r = var.emplace((int)e->c, (uint32_t)var.size());
			if (r.second) names.push_back((int)e->c);
			out.push_back(r.first->second);
		} else {
			out.push_back((uint32_t)e->c);
			if (e->op == O_CONST) out.push_back((uint32_t)(e->c >> 32));
		}
		for (int i = 0; i < 3 && e->k[i]; i++) out.push_back(node[e->k[i]]);
		node.emplace(e, (uint32_t)node.size());
		return true;
	}
};

// Is (pc && e) satisfiable? pc is satisfied by base. On sat, *out is a model of all of it.
static std::string where();
static bool solve(const std::vector<E> &pc, E e, const std::shared_ptr<Model> &base, std::shared_ptr<Model> *out)
{
	if (isFalse(e)) return false;
	if (isTrue(e)) { if (out) *out = base; return true; }
	// constraints connected to e
	std::vector<E> rel;
	std::set<int> vs(e->vars->begin(), e->vars->end());
	std::vector<char> used(pc.size(), 0);
	E ne = mkNot(e);
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t i = 0; i < pc.size(); i++) {
			if (used[i]) continue;
			if (pc[i] == ne) return false;
			for (int v : *pc[i]->vars)
				if (vs.count(v)) {
					used[i] = 1;
					rel.push_back(pc[i]);
					vs.insert(pc[i]->vars->begin(), pc[i]->vars->end());
					ch = true;
					break;
				}
		}
	}
	std::vector<uint32_t> key;
	for (E x : rel) key.push_back(x->id);
	std::sort(key.begin(), key.end());
	key.erase(std::unique(key.begin(), key.end()), key.end());
	key.push_back(e->id);
	auto merge = [&](const Model &m) {
		if (!out) return;
		auto n = std::make_shared<Model>(*base);
		for (int v : vs) {
			auto i = m.v.find(v);
			if (i != m.v.end()) n->v[v] = i->second; else n->v.erase(v);
			auto j = m.a.find(v);
			if (j != m.a.end()) n->a[v] = j->second; else n->a.erase(v);
		}
		*out = n;
	};
	S->queries++;
	auto it = qcache.find(key);
	if (it != qcache.end()) {
		S->cached++;
		if (it->second.sat) merge(*it->second.m);
		return it->second.sat;
	}
	Canon cn;
	bool canon = true;
	for (E x : rel) canon = canon && cn.add(x) && (cn.out.push_back(0xffff0000u | cn.node[x]), true);
	canon = canon && cn.add(e) && (cn.out.push_back(0xffff0000u | cn.node[e]), true);
	if (canon) {
		auto c = ccache.find(cn.out);
		if (c != ccache.end()) {
			S->cached++;
			QRes q;
			q.sat = c->second.sat;
			if (q.sat) {
				q.m = std::make_shared<Model>();
				for (auto &x : c->second.v) q.m->v[cn.names[x.first]] = x.second;
				for (auto &x : c->second.a) q.m->a[cn.names[x.first]] = x.second;
				merge(*q.m);
			}
			return q.sat;
		}
	}
	for (auto &m : recent) {
		bool ok = evalE(e, *m);
		for (size_t i = 0; ok && i < rel.size(); i++) ok = evalE(rel[i], *m);
		if (ok) {
			S->modelhits++;
			merge(*m);
			return true;
		}
	}
	if (e->sz > 200) {	// a large formula that holds for most values is not worth a search
		std::unordered_set<E> seen, rseen;
		std::vector<E> leaves, rleaves;
		for (E x : rel) collectSel(x, rseen, rleaves);
		collectSel(e, seen, leaves);
		static u64 rs = 88172645463325252ULL;
		auto rnd = [&]() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; };
		for (int k = 0; k < 6; k++) {
			auto m = std::make_shared<Model>();
			auto set = [&](E x, u64 v) {
				if (x->op == O_VAR) m->v[(int)x->c] = v & mask(x->w);
				else m->a[(int)x->c][evalE(x->k[0], *m)] = (uint8_t)v;
			};
			for (E x : leaves) set(x, rnd());
			for (E x : rleaves) set(x, k < 4 ? evalE(x, *base) : rnd());
			bool ok = evalE(e, *m);
			for (size_t i = 0; ok && i < rel.size(); i++) ok = evalE(rel[i], *m);
			if (ok) {
				S->modelhits++;
				merge(*m);
				return true;
			}
		}
	}
	double t = now();
	Z3_solver_reset(Z, ZS);
	for (E x : rel) Z3_solver_assert(Z, ZS, toBool(x));
	Z3_solver_assert(Z, ZS, toBool(e));
	std::unordered_set<E> dseen;
	std::vector<Z3_ast> facts;
	for (E x : rel) divFacts(x, dseen, facts);
	divFacts(e, dseen, facts);
	for (Z3_ast f : facts) Z3_solver_assert(Z, ZS, f);
	Z3_lbool r = Z3_solver_check(Z, ZS);
	QRes q;
	q.sat = r == Z3_L_TRUE;
	if (r == Z3_L_UNDEF) {
		if (!opt_dump.empty()) {
			FILE *f = fopen(opt_dump.c_str(), "w");
			fputs(Z3_solver_to_string(Z, ZS), f);
			fclose(f);
		}
		inconclusive(std::string("solver gave no answer: ") + Z3_solver_get_reason_unknown(Z, ZS));
		S->solver_us += (u64)((now() - t) * 1e6);
		return false;
	}
	if (q.sat) {
		S->sat++;
		Z3_model m = Z3_solver_get_model(Z, ZS);
		Z3_model_inc_ref(Z, m);
		q.m = std::make_shared<Model>();
		std::unordered_set<E> seen;
		std::vector<E> leaves;
		for (E x : rel) collectSel(x, seen, leaves);
		collectSel(e, seen, leaves);
		auto val = [&](E x) -> u64 {
			Z3_ast v = nullptr;
			u64 n = 0;
			if (Z3_model_eval(Z, m, toBV(x), true, &v)) {
				Z3_inc_ref(Z, v);
				Z3_get_numeral_uint64(Z, v, &n);
				Z3_dec_ref(Z, v);
			}
			return n;
		};
		for (E x : leaves)
			if (x->op == O_VAR) q.m->v[(int)x->c] = val(x);
			else q.m->a[(int)x->c][val(x->k[0])] = (uint8_t)val(x);
		Z3_model_dec_ref(Z, m);
		// the evaluator and the solver must agree, or something in the engine is wrong
		for (E x : rel)
			if (!evalE(x, *q.m)) { inconclusive("engine: model does not satisfy " + show(x)); return false; }
		if (!evalE(e, *q.m)) { inconclusive("engine: model does not satisfy " + show(e)); return false; }
		recent.insert(recent.begin(), q.m);
		if (recent.size() > 8) recent.pop_back();
		merge(*q.m);
	} else
		S->unsat++;
	S->solver_us += (u64)((now() - t) * 1e6);
	if (opt_verbose && now() - t > 0.02) {
		fprintf(stderr, "slow %.3f %d rel=%zu %s\n  @ %s\n", now() - t, q.sat, rel.size(), show(e, opt_verbose > 1 ? 40 : 5).substr(0, opt_verbose > 1 ? 6000 : 300).c_str(), where().c_str());
		for (E x : rel) fprintf(stderr, "   %s\n", show(x, opt_verbose > 1 ? 40 : 4).substr(0, opt_verbose > 1 ? 3000 : 200).c_str());
	}
	qcache[key] = q;
	if (canon) {
		CRes c;
		c.sat = q.sat;
		if (q.sat) {
			for (auto &x : q.m->v) c.v.push_back({ cn.var[x.first], x.second });
			for (auto &x : q.m->a) c.a.push_back({ cn.var[x.first], x.second });
		}
		ccache[cn.out] = c;
	}
	return q.sat;
}

// ---------------------------------------------------------------- memory
#define ASHIFT 28
struct Obj;
template <class T> struct Ref {
	T *p = nullptr;
	Ref() {}
	Ref(T *x) : p(x) { if (p) p->rc++; }
	Ref(const Ref &o) : p(o.p) { if (p) p->rc++; }
	Ref(Ref &&o) noexcept : p(o.p) { o.p = nullptr; }
	Ref &operator=(const Ref &o) { if (o.p) o.p->rc++; drop(); p = o.p; return *this; }
	Ref &operator=(Ref &&o) noexcept { std::swap(p, o.p); return *this; }
	~Ref() { drop(); }
	void drop() { if (p && --p->rc == 0) delete p; p = nullptr; }
	T *operator->() const { return p; }
	explicit operator bool() const { return p != nullptr; }
};
struct Upd {
	int rc = 0;
	Ref<Upd> next;
	E off, len;		// region [off, off+len)
	E val = nullptr;	// fill byte
	Ref<Obj> src;		// or copy from src at srcoff
	E srcoff = nullptr;
	int depth = 0;
	std::shared_ptr<std::vector<E>> pcs;	// what held when a region of varying length was written
	bool own = false;	// src holds bytes written one after another at fixed offsets, nobody else's
	u64 never = ~0ULL, maybe = 0;		// offsets from here on are not reached, offsets below are (or may be)
	~Upd();
};
struct Obj {
	int rc = 0;
	u64 size = 0;
	bool freed = false, ro = false, heap = false, stack = false;
	Function *fn = nullptr;
	mutable u64 hash = 0;	// of its contents, 0 if not known
	int bg = -1;		// background: -1 zero, else array id
	std::vector<E> b;	// explicit bytes (null: background); may be shorter than size
	Ref<Upd> upd;
	std::string *name = nullptr;
	Obj() {}
	Obj(const Obj &o) : rc(0), size(o.size), freed(o.freed), ro(o.ro), heap(o.heap), stack(o.stack), fn(o.fn), bg(o.bg), b(o.b), upd(o.upd), name(o.name) {}
};
Upd::~Upd()
{
	// avoid deep recursion on long chains
	Ref<Upd> n = std::move(next);
	while (n && n.p->rc == 1) {
		Ref<Upd> m = std::move(n.p->next);
		n = std::move(m);
	}
}
static E readByte(const Obj *o, E off);
static E background(const Obj *o, E off)
{
	return o->bg < 0 ? mkConst(0, 8) : mkSel(o->bg, off);
}
static E readBase(const Obj *o, E off)
{
	if (isC(off)) {
		if (off->c < o->b.size() && o->b[off->c]) return o->b[off->c];
		return background(o, off);
	}
	u64 n = std::min<u64>(o->b.size(), off->w >= 64 && off->op == O_ZEXT ? mask(off->k[0]->w) + (off->k[0]->w >= 64 ? 0 : 1) : ~0ULL);
	bool allc = true;
	u64 nn = 0;
	for (u64 i = 0; i < n; i++) {
		if (o->b[i]) nn++;
		if (o->b[i] ? !isC(o->b[i]) : o->bg >= 0) allc = false;
	}
	if (nn == 0) return background(o, off);
	if (allc) {
		std::vector<uint8_t> t(n);
		for (u64 i = 0; i < n; i++) t[i] = o->b[i] ? (uint8_t)o->b[i]->c : 0;
		if (n == o->size || n < o->b.size()) return mkTbl(newTable(t), off);
		return mkIte(mkUlt(off, mkConst(n, 64)), mkTbl(newTable(t), off), background(o, off));
	}
	E r = background(o, off);
	for (u64 i = 0; i < n; i++)
		if (o->b[i]) r = mkIte(mkEq(off, mkConst(i, 64)), o->b[i], r);
	return r;
}
static E g_known = nullptr;	// holds for the read in progress
static E readUpd(const Obj *o, const Upd *u, E off)
{
	std::vector<std::pair<E, E>> st;
	E r = nullptr;
	for (; u; u = u->next.p) {
		if (isC(off) && isC(u->off) && isC(u->len)) {
			u64 d = off->c - u->off->c;
			if (d >= u->len->c) continue;
			r = u->val ? u->val : readByte(u->src.p, mkAdd(u->srcoff, mkConst(d, 64)));
			break;
		}
		E c = isTrue(mkEq(u->len, mkConst(1, 64))) ? mkEq(off, u->off) : mkUlt(mkSub(off, u->off), u->len);
		if (isFalse(c)) continue;
		if (c == g_known) c = mkConst(1, 1);
		if (isC(off) && isC(u->off) && !isC(c) && u->pcs) {
			u64 d = off->c - u->off->c;
			if (d >= u->never) continue;
			if (d >= u->maybe) {
				if (d >= (1ULL << ASHIFT) || !solve(*u->pcs, c, nullptr, nullptr)) { const_cast<Upd *>(u)->never = d; continue; }
				const_cast<Upd *>(u)->maybe = d + 1;
			}
		}
		E v = u->val ? u->val : readByte(u->src.p, mkAdd(u->srcoff, mkSub(off, u->off)));
		if (isTrue(c)) { r = v; break; }
		st.push_back({ c, v });
	}
	if (!r) r = readBase(o, off);
	for (size_t i = st.size(); i-- > 0;) r = mkIte(st[i].first, st[i].second, r);
	return r;
}
static E readByte(const Obj *o, E off)
{
	return o->upd ? readUpd(o, o->upd.p, off) : readBase(o, off);
}
static std::shared_ptr<std::vector<E>> curPC();
static void pushUpd(Obj *o, E off, E len, E val, Obj *src, E srcoff)
{
	Upd *u = new Upd;
	u->next = o->upd;
	u->off = off; u->len = len; u->val = val; u->srcoff = srcoff;
	if (src) u->src = Ref<Obj>(src);
	if (isC(off) && !isC(len)) u->pcs = curPC();
	u->depth = o->upd ? o->upd->depth + 1 : 1;
	o->upd = Ref<Upd>(u);
}
static void writeByte(Obj *o, E off, E v)
{
	if (isC(off) && !o->upd) {
		if (o->b.size() <= off->c) o->b.resize(off->c + 1, nullptr);
		o->b[off->c] = v;
		return;
	}
	Upd *u = o->upd.p;
	if (u && u->rc == 1 && isC(off) && isC(u->off) && isC(u->len)) {
		u64 d = off->c - u->off->c;
		if (u->val && u->len->c == 1) {
			if (d == 0) { u->val = v; return; }
			if (d == 1) {
				Obj *n = new Obj;
				n->size = 2;
				n->b = { u->val, v };
				u->src = Ref<Obj>(n); u->srcoff = mkConst(0, 64); u->val = nullptr;
				u->len = mkConst(2, 64);
				u->own = true;
				return;
			}
		} else if (u->own && u->src.p->rc == 1 && d <= u->len->c) {
			Obj *n = u->src.p;
			if (d < u->len->c) n->b[d] = v;
			else { n->b.push_back(v); n->size++; u->len = mkConst(d + 1, 64); }
			n->hash = 0;
			return;
		}
	}
	pushUpd(o, off, mkConst(1, 64), v, nullptr, nullptr);
}

// ---------------------------------------------------------------- code
struct KOp { E c; int s; };
struct KInst { Instruction *I; int dest; std::vector<KOp> ops; };
struct KBlock { int first; int cov; };
struct KFunc {
	Function *F;
	int nslots = 0;
	std::vector<KInst> ins;
	DenseMap<BasicBlock *, int> bbStart;
	DenseMap<BasicBlock *, int> bbCov;
	bool ready = false, repo = false, libc = false;
	std::vector<std::vector<bool>> live;
	int pure = -1;			// computes a value from integers without loops, memory or calls
	std::vector<BasicBlock *> rpo;
	std::string name;
	int firstCov = 0, nbb = 0;
};
static DenseMap<Function *, KFunc *> kfs;
static std::vector<KFunc *> kflist;
static int covNext;
static const DataLayout *DL;
static Module *M;
static DenseMap<const GlobalValue *, u64> gaddr;
static std::vector<std::string> witnesses;

static unsigned widthOf(Type *t)
{
	if (t->isPointerTy()) return 64;
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	return 0;
}
struct Unsupported { std::string what; };

static E evalConst(const Constant *c)
{
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) throw Unsupported{ "integer wider than 64 bits" };
		return mkConst(ci->getZExtValue(), ci->getBitWidth());
	}
	if (isa<ConstantPointerNull>(c)) return mkConst(0, 64);
	if (isa<UndefValue>(c)) {
		unsigned w = widthOf(c->getType());
		if (!w || w > 64) throw Unsupported{ "undef aggregate" };
		return mkConst(0, w);
	}
	if (auto *gv = dyn_cast<GlobalAlias>(c)) return evalConst(gv->getAliasee());
	if (auto *g = dyn_cast<GlobalValue>(c)) {
		auto it = gaddr.find(g);
		if (it == gaddr.end()) throw Unsupported{ "address of " + g->getName().str() };
		return mkConst(it->second, 64);
	}
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported{ "constant gep" };
			return mkAdd(evalConst(ce->getOperand(0)), mkConst((u64)off.getSExtValue(), 64));
		}
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return evalConst(ce->getOperand(0));
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: {
			E v = evalConst(ce->getOperand(0));
			unsigned w = widthOf(ce->getType());
			return w > v->w ? mkZext(v, w) : mkExtract(v, 0, w);
		}
		case Instruction::Add: return mkAdd(evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
		case Instruction::Sub: return mkSub(evalConst(ce->getOperand(0)), evalConst(ce->getOperand(1)));
		default: throw Unsupported{ std::string("constant expression ") + ce->getOpcodeName() };
		}
	}
	std::string s;
	raw_string_ostream os(s);
	c->print(os);
	throw Unsupported{ "constant " + os.str() };
}
static bool fromRepo(Function *F)
{
	if (auto *sp = F->getSubprogram())
		return sp->getFilename().contains("/src/") || sp->getDirectory().contains("/src");
	return false;
}
static KFunc *prepare(Function *F)
{
	KFunc *&k = kfs[F];
	if (k && k->ready) return k;
	if (!k) {
		k = new KFunc;
		k->F = F;
		k->name = F->getName().str();
		kflist.push_back(k);
	}
	DenseMap<Value *, int> slot;
	int n = 0;
	for (auto &a : F->args()) slot[&a] = n++;
	for (auto &bb : *F)
		for (auto &I : bb)
			if (!I.getType()->isVoidTy()) slot[&I] = n++;
	k->nslots = n;
	for (auto &bb : *F) {
		k->bbStart[&bb] = (int)k->ins.size();
		for (auto &I : bb) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			KInst ki;
			ki.I = &I;
			ki.dest = I.getType()->isVoidTy() ? -1 : slot[&I];
			for (auto &op : I.operands()) {
				KOp o = { nullptr, -1 };
				Value *v = op.get();
				if (auto *c = dyn_cast<Constant>(v)) {
					if (auto *fn = dyn_cast<Function>(v)) {
						auto it = gaddr.find(fn);
						o.c = it != gaddr.end() ? mkConst(it->second, 64) : mkConst(0, 64);
					} else if (c->getType()->isIntegerTy() || c->getType()->isPointerTy()) {
						o.c = evalConst(c);
					}
				} else if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v)) {
				} else {
					o.s = slot[v];
				}
				ki.ops.push_back(o);
			}
			k->ins.push_back(std::move(ki));
		}
	}
	k->ready = true;
	return k;
}

// ---------------------------------------------------------------- states
struct Frame {
	KFunc *f;
	int pc;
	BasicBlock *prev = nullptr;
	std::vector<E> r;
	std::vector<uint32_t> allocas;
	int retSlot = -1;
	int64_t va = -1;	// object with the variadic arguments
};
enum TStat { T_RUN, T_SLEEP, T_DONE };
struct Thread { std::vector<Frame> st; TStat stat = T_RUN; u64 key = 0; int timed = 0; bool timedout = false, resume = false; };
struct Input { E v; int arr; E n; };	// value, or n bytes of an array
#define PAGE 128
struct Page { int rc = 0; u64 hash = 0; Ref<Obj> o[PAGE]; Page() {} Page(const Page &p) { for (int i = 0; i < PAGE; i++) o[i] = p.o[i]; } };
// Objects are named by the thread that made them and their number within it, so that the names do not depend on the
// order in which the threads ran. Space 2t: heap (and, for t = 0, globals); 2t+1: stack.
#define SPSHIFT 20
// ---- data races: vector clocks over locks, thread creation and joining (FastTrack-like, exact for the path's schedule) ----
#define NVC 20
struct VC { uint32_t c[NVC]; VC() { memset(c, 0, sizeof(c)); } void join(const VC &o) { for (int i = 0; i < NVC; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
struct RCell { uint32_t off, size; uint8_t wt, rt; uint32_t wc, rc; const void *wi, *ri; std::vector<uint32_t> more; };	// last write, last read (or the reads of several threads)
struct RShadow { std::vector<RCell> v; };
struct RaceState {
	std::vector<VC> th;
	std::unordered_map<u64, VC> sync;
	std::unordered_map<u64, std::shared_ptr<RShadow>> obj;
};
struct Space { std::vector<Ref<Page>> pages; u64 n = 0; };
struct State {
	std::vector<Space> sp;
	std::vector<Thread> th;
	int cur = 0;
	std::vector<E> pc;
	std::shared_ptr<Model> m;
	std::vector<Input> in;
	int forced = -1;
	E forcedVar = nullptr;
	int preempt = 0, timeouts = 0, plimit = opt_preempt;
	u64 steps = 0, depth = 0;
	std::vector<std::string> log;
	std::shared_ptr<RaceState> race;

	std::vector<u64> hist;		// states this path went through

	Obj *get(u64 id)
	{
		u64 t = id >> SPSHIFT, k = id & ((1ULL << SPSHIFT) - 1);
		if (t >= sp.size() || k >= sp[t].n) return nullptr;
		return sp[t].pages[k / PAGE]->o[k % PAGE].p;
	}
	Ref<Obj> &slotw(u64 id)
	{
		u64 k = id & ((1ULL << SPSHIFT) - 1);
		Ref<Page> &p = sp[id >> SPSHIFT].pages[k / PAGE];
		if (p.p->rc > 1) p = Ref<Page>(new Page(*p.p));
		p->hash = 0;
		return p->o[k % PAGE];
	}
	Obj *getw(u64 id)
	{
		Ref<Obj> &r = slotw(id);
		if (r.p->rc > 1) r = Ref<Obj>(new Obj(*r.p));
		r.p->hash = 0;
		return r.p;
	}
	u64 alloc(Obj *o)
	{
		u64 t = (u64)cur * 2 + o->stack;
		if (t >= sp.size()) sp.resize(t + 1);
		u64 k = sp[t].n++;
		if (k + 1 >= 1ULL << SPSHIFT) throw std::bad_alloc();
		if (k / PAGE >= sp[t].pages.size()) sp[t].pages.push_back(Ref<Page>(new Page));
		slotw(t << SPSHIFT | k) = Ref<Obj>(o);
		return t << SPSHIFT | k;
	}
};
static u64 addrOf(u64 id) { return (id + 1) << ASHIFT; }

static std::vector<State *> work;	// depth-first worklist

struct KillPath {};
struct Refork {};	// state was forked; the current one re-executes the instruction

static State *cs;	// current
static std::shared_ptr<std::vector<E>> curPC() { return std::make_shared<std::vector<E>>(cs->pc); }

static void constrain(E e)
{
	if (isTrue(e)) return;
	for (E x : cs->pc)
		if (x == e) return;
	cs->pc.push_back(e);
}

static std::map<std::string, int> forkAt;	// verbose only
static std::string where();
static void pushState(State *s)
{
	if (opt_verbose) {
		std::string w = where();
		size_t p = w.find(" < ");
		p = p == std::string::npos ? p : w.find(" < ", p + 3);
		forkAt[w.substr(0, p)]++;
	}
	S->forks++;
	s->depth++;
	work.push_back(s);
}
// Decide a condition on the current path; forks when both outcomes are possible.
static bool decide(E c)
{
	if (isC(c)) return c->c != 0;
	bool m = evalE(c, *cs->m) != 0;
	E me = m ? c : mkNot(c), other = m ? mkNot(c) : c;
	std::shared_ptr<Model> nm;
	if (solve(cs->pc, other, cs->m, &nm)) {
		State *n = new State(*cs);
		n->pc.push_back(other);
		n->m = nm;
		pushState(n);
		cs->depth++;
		constrain(me);	// (otherwise the path implies it already)
	}
	return m;
}
// One of n alternatives: an input of its own in the path condition; forks into every value it can take.
static E lastChoice;
static int choose(int n)
{
	if (cs->forced >= 0) {
		int f = cs->forced;
		cs->forced = -1;
		lastChoice = cs->forcedVar;
		return f;
	}
	E v = mkVar(8);
	for (int i = n - 1; i > 0; i--) {
		std::shared_ptr<Model> nm;
		E c = mkEq(v, mkConst((u64)i, 8));
		if (!solve(cs->pc, c, cs->m, &nm)) continue;
		State *s = new State(*cs);
		s->forced = i;
		s->forcedVar = v;
		s->pc.push_back(c);
		s->m = nm;
		pushState(s);
	}
	cs->pc.push_back(mkEq(v, mkConst(0, 8)));
	lastChoice = v;
	return 0;
}
static std::string where()
{
	std::string s;
	auto &st = cs->th[(size_t)cs->cur].st;
	for (size_t i = st.size(); i-- > 0 && s.size() < 1500;) {
		Frame &f = st[i];
		int pc = f.pc;
		if (i + 1 < st.size() && pc > 0) pc--;
		if (pc >= (int)f.f->ins.size()) pc = (int)f.f->ins.size() - 1;
		Instruction *I = f.f->ins[(size_t)pc].I;
		s += f.f->name;
		if (auto &dl = I->getDebugLoc()) {
			auto fn = dl->getFilename();
			s += "(" + fn.substr(fn.rfind('/') == StringRef::npos ? 0 : fn.rfind('/') + 1).str() + ":" + std::to_string(dl.getLine()) + ")";
		}
		if (i) s += " < ";
	}
	return s;
}
static void report(const std::string &kind, const std::string &msg, const Model &m)
{
	int z = 0;
	if (!S->claim.compare_exchange_strong(z, 1)) { S->stop = 1; return; }
	std::string j = "{\"kind\":" + jstr(kind) + ",\"msg\":" + jstr(msg) + ",\"where\":" + jstr(where()) + ",\"values\":[";
	bool first = true;
	auto add = [&](u64 v) { j += (first ? "" : ",") + std::to_string(v); first = false; };
	for (auto &i : cs->in) {
		if (i.v) add(evalE(i.v, m));
		else {
			u64 n = evalE(i.n, m);
			if (n > 65536) n = 65536;
			auto a = m.a.find(i.arr);
			for (u64 k = 0; k < n; k++) {
				u64 v = 0;
				if (a != m.a.end()) { auto x = a->second.find(k); if (x != a->second.end()) v = x->second; }
				add(v);
			}
		}
	}
	j += "],\"log\":[";
	for (size_t i = 0; i < cs->log.size(); i++) j += (i ? "," : "") + jstr(cs->log[i]);
	j += "]}";
	if (j.size() < sizeof S->viol) { memcpy(S->viol, j.c_str(), j.size() + 1); S->nviol = 1; }
	else inconclusive("counterexample too long to record");
	S->stop = 1;
}
static void violation(const std::string &kind, const std::string &msg)
{
	report(kind, msg, *cs->m);
	throw KillPath();
}
static void must(E c, const std::string &kind, const std::string &msg)
{
	S->checks++;
	if (isTrue(c)) return;
	if (isFalse(c)) violation(kind, msg);
	S->checks_solved++;
	if (getenv("SX_SHOW")) fprintf(stderr, "MUST %s: %s\n", msg.c_str(), show(c, 9).substr(0, 3000).c_str());
	std::shared_ptr<Model> nm;
	if (!evalE(c, *cs->m)) violation(kind, msg);
	if (solve(cs->pc, mkNot(c), cs->m, &nm)) {
		report(kind, msg, *nm);
		throw KillPath();
	}
}

// Resolve an access of n bytes; returns the object id and sets *off. Forks over objects if the pointer may mean several.
static u64 resolve(E addr, E n, bool write, E *off, const char *what)
{
	u64 a = evalE(addr, *cs->m);
	u64 id = (a >> ASHIFT) - 1;
	Obj *o = a >> ASHIFT ? cs->get(id) : nullptr;
	if (!o) violation("memory", std::string(a < 4096 ? "null pointer " : "invalid pointer ") + what);
	if (o->fn) violation("memory", std::string("access to code ") + what);
	E of = mkSub(addr, mkConst(addrOf(id), 64));
	E sz = mkConst(o->size, 64);
	// in bounds: of <= size && n <= size - of
	E in = mkAnd(mkUle(of, sz), mkUle(n, mkSub(sz, of)));
	if (!isTrue(in)) {
		bool inm = isC(in) ? in->c : evalE(in, *cs->m);
		if (!inm) violation("memory", std::string("out of bounds ") + what + (o->name ? " of " + *o->name : ""));
		std::shared_ptr<Model> nm;
		if (solve(cs->pc, mkNot(in), cs->m, &nm)) {
			if (isC(addr)) {	// the length is what varies: out of bounds for sure
				report("memory", std::string("out of bounds ") + what + (o->name ? " of " + *o->name : ""), *nm);
				throw KillPath();
			}
			State *s = new State(*cs);
			s->pc.push_back(mkNot(in));
			s->m = nm;
			pushState(s);
			constrain(in);
		}
	}
	if (o->freed) violation("memory", std::string(o->stack ? "use of a local variable after return" : "use after free") + " (" + what + ")" + (o->name ? " of " + *o->name : ""));
	if (write && o->ro) violation("memory", std::string("write to constant data ") + what);
	*off = of;
	return id;
}
static RaceState *raceW()
{
	if (!cs->race) cs->race = std::make_shared<RaceState>();
	else if (cs->race.use_count() > 1) cs->race = std::make_shared<RaceState>(*cs->race);
	RaceState *r = cs->race.get();
	while (r->th.size() < cs->th.size()) {
		r->th.emplace_back();
		r->th.back().c[r->th.size() - 1] = 1;
	}
	return r;
}
static std::string whereI(const void *p)
{
	const Instruction *I = (const Instruction *)p;
	std::string s = I->getFunction()->getName().str();
	if (I->getDebugLoc()) s += "(" + std::string(sys::path::filename(I->getDebugLoc()->getFilename())) + ":" + std::to_string(I->getDebugLoc().getLine()) + ")";
	return s;
}
static void access(u64 id, Obj *o, E off, unsigned bytes, bool wr)
{
	if (!opt_race || cs->th.size() == 1 || o->stack || o->ro || !isC(off)) return;
	std::vector<Frame> &st = cs->th[(size_t)cs->cur].st;
	size_t d = st.size() - 1;
	while (d > 0 && st[d].f->libc) d--;
	if (!st[d].f->repo) return;
	const Instruction *I = st[d].f->ins[(size_t)st[d].pc].I;
	unsigned t = (unsigned)cs->cur;
	RaceState *r = raceW();
	VC &vc = r->th[t];
	std::shared_ptr<RShadow> &sp = r->obj[id];
	if (!sp) sp = std::make_shared<RShadow>();
	uint32_t a = (uint32_t)off->c, e = a + bytes;
	int exact = -1;
	for (size_t i = 0; i < sp->v.size(); i++) {
		RCell &c = sp->v[i];
		if (c.off >= e || c.off + c.size <= a) continue;
		if (c.off == a && c.size == bytes) exact = (int)i;
		if (c.wc && c.wt != t && c.wc > vc.c[c.wt])
			violation("race", "data race: " + std::string(wr ? "written" : "read") + " by " + whereI(I) + " and written by " + whereI(c.wi) + " with nothing ordering the two");
		if (!wr) continue;
		if (c.rc && c.rt != t && c.rc > vc.c[c.rt])
			violation("race", "data race: written by " + whereI(I) + " and read by " + whereI(c.ri) + " with nothing ordering the two");
		for (size_t u = 0; u < c.more.size(); u++)
			if (u != t && c.more[u] > vc.c[u])
				violation("race", "data race: written by " + whereI(I) + " and read by thread " + std::to_string(u) + " with nothing ordering the two");
	}
	if (exact >= 0) {
		RCell &c = sp->v[(size_t)exact];
		if (wr ? c.wt == t && c.wc == vc.c[t] : c.rt == t && c.rc == vc.c[t]) return;
	}
	if (sp.use_count() > 1) sp = std::make_shared<RShadow>(*sp);
	if (exact < 0) {
		exact = (int)sp->v.size();
		sp->v.push_back(RCell{ a, bytes, 0, 0, 0, 0, nullptr, nullptr, {} });
	}
	RCell &c = sp->v[(size_t)exact];
	if (wr) {
		c.wt = (uint8_t)t; c.wc = vc.c[t]; c.wi = I;
		c.rc = 0; c.more.clear();
	} else {
		if (c.rc && c.rt != t && c.rc > vc.c[c.rt]) {	// concurrent reads
			if (c.more.empty()) c.more.assign(NVC, 0);
			c.more[c.rt] = c.rc;
		}
		c.rt = (uint8_t)t; c.rc = vc.c[t]; c.ri = I;
	}
}
static E loadN(E addr, unsigned bytes, unsigned w)
{
	E off;
	u64 id = resolve(addr, mkConst(bytes, 64), false, &off, "read");
	Obj *o = cs->get(id);
	E r = nullptr;
	access(id, o, off, bytes, false);
	for (unsigned i = 0; i < bytes; i++) {
		E b = readByte(o, mkAdd(off, mkConst(i, 64)));
		r = r ? mkConcat(b, r) : b;
	}
	if (w < bytes * 8) return mkExtract(r, 0, w);
	return r->op == O_EXTRACT ? mkExtract(r->k[0], (unsigned)r->c, r->w) : r;
}
static void storeN(E addr, unsigned bytes, E v)
{
	E off;
	u64 id = resolve(addr, mkConst(bytes, 64), true, &off, "write");
	Obj *o = cs->getw(id);
	access(id, o, off, bytes, true);
	if (v->w < bytes * 8) v = mkZext(v, bytes * 8);
	for (unsigned i = 0; i < bytes; i++)
		writeByte(o, mkAdd(off, mkConst(i, 64)), mkPiece(v, i * 8, 8));
}
static u64 concretize(E e, const char *why, u64 limit = 4096)
{
	(void)limit; (void)why;
	if (isC(e)) return e->c;
	u64 v = evalE(e, *cs->m);
	decide(mkEq(e, mkConst(v, e->w)));	// the model satisfies it, so this path takes it; the rest is forked off
	return v;
}
static u64 newObj(u64 size, bool zero, bool heap, bool stack)
{
	Obj *o = new Obj;
	o->size = size;
	o->heap = heap;
	o->stack = stack;
	u64 id = cs->alloc(o);
	// with merging of states: a name that does not depend on what other threads did before
	if (!zero) o->bg = opt_dedup && id < 1ULL << 29 ? (int)(0x40000000 | id) : newArray();
	return id;
}
static void doCopy(E d, E s, E n)
{
	E doff, soff;
	if (isC(n) && n->c == 0) return;
	u64 si = resolve(s, n, false, &soff, "read");
	u64 di = resolve(d, n, true, &doff, "write");
	if (isC(n) && n->c <= 1 << 16) {
		access(si, cs->get(si), soff, (unsigned)n->c, false);
		access(di, cs->get(di), doff, (unsigned)n->c, true);
	}
	if (isC(n) && isC(doff) && isC(soff) && n->c <= 256) {
		std::vector<E> t(n->c);
		Obj *so = cs->get(si);
		for (u64 i = 0; i < n->c; i++) t[i] = readByte(so, mkConst(soff->c + i, 64));
		Obj *o = cs->getw(di);
		for (u64 i = 0; i < n->c; i++) writeByte(o, mkConst(doff->c + i, 64), t[i]);
		return;
	}
	Ref<Obj> src(cs->get(si));	// snapshot: later writes to the source copy it first
	Obj *o = cs->getw(di);
	pushUpd(o, doff, n, nullptr, src.p, soff);
}
static void doSet(E d, E v, E n)
{
	E doff;
	if (isC(n) && n->c == 0) return;
	u64 di = resolve(d, n, true, &doff, "write");
	if (isC(n) && n->c <= 1 << 16) access(di, cs->get(di), doff, (unsigned)n->c, true);
	Obj *o = cs->getw(di);
	v = mkExtract(v, 0, 8);
	if (isC(n) && isC(doff) && doff->c == 0 && n->c == o->size && isC(v) && v->c == 0) {
		o->b.clear();
		o->upd = Ref<Upd>();
		o->bg = -1;
		return;
	}
	if (isC(n) && isC(doff) && n->c <= 256) {
		for (u64 i = 0; i < n->c; i++) writeByte(o, mkConst(doff->c + i, 64), v);
		return;
	}
	pushUpd(o, doff, n, v, nullptr, nullptr);
}
static std::string cstr(E p)
{
	std::string s;
	for (int i = 0; i < 4096; i++) {
		E c = loadN(mkAdd(p, mkConst((u64)i, 64)), 1, 8);
		if (!isC(c)) { s += '?'; continue; }
		if (c->c == 0) break;
		s += (char)c->c;
	}
	return s;
}

// ---------------------------------------------------------------- states met before
// With -d, a state at a scheduling choice that was met before (by any process, with at least as many preemptions left) is
// not explored again: everything that can happen from there was or will be. States are identified by a 64-bit hash.
#define VISN (1ULL << 25)
static std::atomic<u64> *vis;
static inline u64 mix(u64 a, u64 b)
{
	a ^= b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2);
	a ^= a >> 32;
	a *= 0xd6e8feb86659fd93ULL;
	a ^= a >> 29;
	a *= 0xd6e8feb86659fd93ULL;
	return a ^ a >> 32;
}
static std::unordered_map<E, u64> ehashes;
static u64 ehash(E e)
{
	if (!e) return 7;
	if (isC(e)) return mix(mix(11, e->w), e->c);
	auto it = ehashes.find(e);
	if (it != ehashes.end()) return it->second;
	u64 h = mix(mix(mix(13, e->op), e->w), e->c);
	for (int i = 0; i < 3; i++)
		if (e->k[i]) h = mix(h, ehash(e->k[i]));
	return ehashes[e] = h;
}
static u64 ohash(const Obj *o)
{
	if (o->hash) return o->hash;
	u64 h = mix(mix(17, o->size), (u64)(int64_t)o->bg);
	E zero = mkConst(0, 8);
	for (size_t i = 0; i < o->b.size(); i++)
		if (o->b[i] && !(o->b[i] == zero && o->bg < 0)) h = mix(mix(h, i), ehash(o->b[i]));
	for (const Upd *u = o->upd.p; u; u = u->next.p) {
		h = mix(mix(mix(mix(h, ehash(u->off)), ehash(u->len)), ehash(u->val)), ehash(u->srcoff));
		if (u->src) h = mix(h, ohash(u->src.p));
	}
	return o->hash = h ? h : 1;
}
// which registers are read at or after instruction pc before they are written
static const std::vector<bool> &liveBefore(KFunc *kf, int pc)
{
	auto &in = kf->live;
	if (in.empty()) {
		size_t n = kf->ins.size();
		in.assign(n, std::vector<bool>((size_t)kf->nslots, false));
		for (bool again = true; again;) {
			again = false;
			for (size_t i = n; i-- > 0;) {
				KInst &k = kf->ins[i];
				std::vector<bool> out((size_t)kf->nslots, false);
				if (k.I->isTerminator()) {
					for (unsigned j = 0; j < k.I->getNumSuccessors(); j++) {
						BasicBlock *b = k.I->getSuccessor(j);
						int at = kf->bbStart[b];
						for (int s = 0; s < kf->nslots; s++)
							if (in[(size_t)at][(size_t)s]) out[(size_t)s] = true;
						for (;; at++) {
							KInst &p = kf->ins[(size_t)at];
							auto *ph = dyn_cast<PHINode>(p.I);
							if (!ph) break;
							for (unsigned q = 0; q < ph->getNumIncomingValues(); q++)
								if (ph->getIncomingBlock(q) == k.I->getParent() && !p.ops[q].c && p.ops[q].s >= 0) out[(size_t)p.ops[q].s] = true;
						}
					}
				} else if (i + 1 < n)
					out = in[i + 1];
				if (k.dest >= 0) out[(size_t)k.dest] = false;
				if (!isa<PHINode>(k.I))
					for (auto &o : k.ops)
						if (!o.c && o.s >= 0) out[(size_t)o.s] = true;
				if (out != in[i]) {
					in[i] = out;
					again = true;
				}
			}
		}
	}
	return in[(size_t)pc];
}
static u64 stateHash(int mode)
{
	u64 h = mix(mix(19, (u64)cs->cur), (u64)mode);
	u64 mem = 0;
	for (size_t t = 0; t < cs->sp.size(); t++) {
		Space &sp = cs->sp[t];
		for (size_t p = 0; p * PAGE < sp.n; p++) {
			Page *pg = sp.pages[p].p;
			bool whole = (p + 1) * PAGE <= sp.n;
			u64 ph = whole ? pg->hash : 0;
			if (!ph) {
				for (size_t i = 0; i < PAGE && p * PAGE + i < sp.n; i++) {
					Obj *o = pg->o[i].p;
					if (!o || o->freed || o->ro) continue;
					ph += mix(mix(23, t << SPSHIFT | (p * PAGE + i)), ohash(o));
				}
				if (whole) pg->hash = ph;
			}
			mem += ph;
		}
	}
	h = mix(h, mem);
	for (auto &t : cs->th) {
		h = mix(mix(mix(h, t.stat), t.stat == T_SLEEP ? t.key : 0), (u64)(t.stat == T_SLEEP ? t.timed : 0) * 4 + (u64)t.timedout * 2 + t.resume);
		for (size_t i = 0; i < t.st.size(); i++) {
			Frame &f = t.st[i];
			int pc = f.pc;
			h = mix(mix(h, (u64)(uintptr_t)f.f->F), (u64)pc);
			const std::vector<bool> &l = liveBefore(f.f, pc);
			for (int s = 0; s < f.f->nslots; s++)
				if (l[(size_t)s] && f.r[(size_t)s]) h = mix(mix(h, (u64)s), ehash(f.r[(size_t)s]));
			h = mix(mix(h, (u64)(int64_t)f.retSlot), (u64)(int64_t)f.va);
			for (uint32_t a : f.allocas) h = mix(h, (u64)a);
		}
	}
	u64 pcs = 0;
	for (E e : cs->pc) {
		// the values of choices are in the state already
		if (e->op == O_EQ && ((e->k[0]->op == O_VAR && e->k[0]->w == 8 && isC(e->k[1])) || (e->k[1]->op == O_VAR && e->k[1]->w == 8 && isC(e->k[0])))) continue;
		pcs += mix(29, ehash(e));
	}
	return mix(h, pcs);
}
static bool visSeen(u64 h, bool add)
{
	if (!h) h = 1;
	for (u64 i = 0; i < 128; i++) {
		std::atomic<u64> &c = vis[(h * 0x9e3779b97f4a7c15ULL + i) % VISN];
		u64 v = c.load(std::memory_order_relaxed);
		if (v == h) return true;
		if (v == 0) {
			if (!add) return false;
			if (c.compare_exchange_strong(v, h)) { S->visited++; return false; }
			if (v == h) return true;
		}
	}
	return false;
}
// debugging: the states at which preemptions are over, object by object
static void dumpState()
{
	static int n;
	FILE *f = fopen((std::string(getenv("SX_DUMP")) + "." + std::to_string(getpid()) + "." + std::to_string(n++)).c_str(), "w");
	if (!f) return;
	for (size_t t = 0; t < cs->sp.size(); t++)
		for (size_t i = 0; i < cs->sp[t].n; i++) {
			Obj *o = cs->sp[t].pages[i / PAGE].p->o[i % PAGE].p;
			if (!o || o->freed || o->ro) continue;
			fprintf(f, "%zu:%zu %s %lu", t, i, o->name ? o->name->c_str() : "?", (unsigned long)o->size);
			for (size_t j = 0; j < o->b.size(); j++)
				if (o->b[j] && !(isC(o->b[j]) && o->b[j]->c == 0)) fprintf(f, " %zu=%s", j, show(o->b[j], 3).c_str());
			for (const Upd *u = o->upd.p; u; u = u->next.p) fprintf(f, " upd");
			fprintf(f, "\n");
		}
	for (size_t t = 0; t < cs->th.size(); t++) {
		fprintf(f, "thread %zu stat %d key %lu timed %d out %d:", t, cs->th[t].stat, (unsigned long)cs->th[t].key, cs->th[t].timed, (int)cs->th[t].timedout);
		for (Frame &x : cs->th[t].st) {
			fprintf(f, " %s+%d(", x.f->F->getName().str().c_str(), x.pc);
			const std::vector<bool> &l = liveBefore(x.f, x.pc);
			for (int q = 0; q < x.f->nslots; q++)
				if (l[(size_t)q] && x.r[(size_t)q]) fprintf(f, " %d=%s", q, show(x.r[(size_t)q], 3).c_str());
			fprintf(f, ")");
		}
		fprintf(f, "\n");
	}
	for (E e : cs->pc) fprintf(f, "pc %s\n", show(e, 4).c_str());
	fclose(f);
}
static bool metBefore(int mode)
{
	u64 h = stateHash(mode);
	int left = cs->plimit - cs->preempt;
	auto key = [&](int l, int t) { return mix(mix(h, (u64)(int64_t)l), (u64)t); };
	bool seen = false;
	for (int l = left; l <= cs->plimit && !seen; l++)
		for (int t = 0; t <= cs->timeouts && !seen; t++)
			if (!(l == left && t == cs->timeouts)) seen = visSeen(key(l, t), false);
	u64 k = key(left, cs->timeouts);
	if (!seen) seen = visSeen(k, true);
	if (!seen) {
		cs->hist.push_back(h);
		return false;
	}
	// a path that comes back to a state of its own goes on: it has to end within the step limit
	return std::find(cs->hist.begin(), cs->hist.end(), h) == cs->hist.end();
}
// ---------------------------------------------------------------- threads
static void record(E v) { cs->in.push_back(Input{ v, -1, nullptr }); }
enum { SCH_YIELD, SCH_SLEEP, SCH_TIMED, SCH_DONE, SCH_IDLE };
// Pick the next thread. Nothing is changed before the choice is made, because a forked state re-executes the instruction.
static int pickThread(int mode)
{
	bool self_ok = mode == SCH_YIELD;
	std::vector<int> cand;
	bool may = !self_ok || cs->preempt < cs->plimit;
	if (self_ok) cand.push_back(cs->cur);
	if (may)
		for (int i = 0; i < (int)cs->th.size(); i++)
			if (i != cs->cur && cs->th[(size_t)i].stat == T_RUN) cand.push_back(i);
	if (cand.empty())	// a thread that waits for quiescence
		for (int i = 0; i < (int)cs->th.size(); i++)
			if ((i == cs->cur && mode == SCH_IDLE) || (i != cs->cur && cs->th[(size_t)i].stat == T_SLEEP && cs->th[(size_t)i].timed == 2)) cand.push_back(i);
	if (cand.empty() || (may && cs->timeouts < opt_timeouts))
		for (int i = 0; i < (int)cs->th.size(); i++)
			if ((i == cs->cur && mode == SCH_TIMED) || (i != cs->cur && cs->th[(size_t)i].stat == T_SLEEP && cs->th[(size_t)i].timed == 1)) cand.push_back(i);
	if (cand.empty()) {
		std::string who;
		int c = cs->cur;
		for (size_t i = 0; i < cs->th.size(); i++)
			if (cs->th[i].stat == T_SLEEP || ((int)i == c && mode == SCH_SLEEP)) {
				cs->cur = (int)i;
				who += " [thread " + std::to_string(i) + ": " + where() + "]";
			}
		cs->cur = c;
		violation("deadlock", "every thread waits for an event that can never come:" + who);
	}
	if (cs->plimit < 0) cand.resize(1);	// one fixed schedule: a thread runs until it blocks
	if (opt_dedup && (cand.size() > 1 || mode != SCH_YIELD) && cs->forced < 0 && cs->plimit >= 0 && metBefore(mode)) {
		S->merged++;
		throw KillPath();
	}
	int k = cand.size() > 1 ? choose((int)cand.size()) : 0;
	S->schedpoints++;
	int t = cand[(size_t)k];
	record(mkConst((u64)t, 64));
	return t;
}
static void switchTo(int t)
{
	Thread &x = cs->th[(size_t)t];
	if (x.stat == T_SLEEP) {	// timed wait expires
		x.stat = T_RUN;
		x.timedout = true;
		if (x.timed == 1) cs->timeouts++;
	}
	cs->cur = t;
}

// ---------------------------------------------------------------- builtins
static E ret64(u64 v) { return mkConst(v, 64); }
typedef std::function<bool(std::vector<E> &, E *)> Builtin;	// false: the thread switched or slept (return value is delivered)
static std::unordered_map<std::string, Builtin> builtins;
static void finishCall(E r);	// store the result of the call at the current pc and step over it

static E memcmpE(E a, E b, u64 n)
{
	E r = mkConst(0, 32);
	for (u64 i = n; i-- > 0;) {
		E x = loadN(mkAdd(a, mkConst(i, 64)), 1, 8), y = loadN(mkAdd(b, mkConst(i, 64)), 1, 8);
		r = mkIte(mkEq(x, y), r, mkIte(mkUlt(x, y), mkConst(0xffffffff, 32), mkConst(1, 32)));
	}
	return r;
}
static void initBuiltins()
{
	auto &B = builtins;
	B["sx_nd"] = [](std::vector<E> &a, E *r) { (void)a; *r = mkVar(64); record(*r); return true; };
	B["sx_choose"] = [](std::vector<E> &a, E *r) {
		int n = (int)concretize(a[0], "choice");
		int k = n > 1 ? choose(n) : 0;
		*r = mkConst((u64)k, 64);
		record(*r);
		return true;
	};
	B["sx_fill"] = [](std::vector<E> &a, E *r) {	// arbitrary bytes
		(void)r;
		E off;
		if (isC(a[1]) && a[1]->c == 0) return true;
		u64 id = resolve(a[0], a[1], true, &off, "write");
		Ref<Obj> src(new Obj);
		src->size = 1ULL << 20;
		src->bg = newArray();
		cs->in.push_back(Input{ nullptr, src->bg, a[1] });
		Obj *o = cs->getw(id);
		if (isC(a[1]) && isC(off) && off->c == 0 && a[1]->c == o->size) {
			o->b.clear();
			o->upd = Ref<Upd>();
			o->bg = src->bg;
		} else if (isC(a[1]) && isC(off) && a[1]->c <= 256) {
			for (u64 i = 0; i < a[1]->c; i++) writeByte(o, mkConst(off->c + i, 64), mkSel(src->bg, mkConst(i, 64)));
		} else
			pushUpd(o, off, a[1], nullptr, src.p, mkConst(0, 64));
		return true;
	};
	B["sx_assume"] = [](std::vector<E> &a, E *r) {
		(void)r;
		E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
		if (isTrue(c)) return true;
		if (isFalse(c)) throw KillPath();
		if (!evalE(c, *cs->m)) {
			std::shared_ptr<Model> nm;
			if (!solve(cs->pc, c, cs->m, &nm)) throw KillPath();
			cs->m = nm;
		}
		constrain(c);
		return true;
	};
	B["sx_check"] = [](std::vector<E> &a, E *r) {
		(void)r;
		E c = mkNot(mkEq(a[0], mkConst(0, a[0]->w)));
		if (isTrue(c)) { S->checks++; return true; }
		std::string msg = cstr(a[1]);
		must(c, msg.compare(0, 6, "model:") == 0 ? "model" : "check", msg);	// holds on this whole path: nothing to add
		return true;
	};
	B["sx_witness"] = [](std::vector<E> &a, E *r) {
		(void)r;
		std::string s = cstr(a[0]);
		for (size_t i = 0; i < witnesses.size() && i < MAXW; i++)
			if (witnesses[i] == s) S->witness[i] = 1;
		return true;
	};
	B["sx_concretize"] = [](std::vector<E> &a, E *r) { *r = mkConst(concretize(a[0], "value"), a[0]->w); return true; };
	B["sx_branch"] = [](std::vector<E> &a, E *r) { *r = mkConst(decide(mkNot(mkEq(a[0], mkConst(0, a[0]->w)))), 32); return true; };
	B["sx_is_const"] = [](std::vector<E> &a, E *r) { *r = mkConst(isC(a[0]), 32); return true; };
	B["sx_log"] = [](std::vector<E> &a, E *r) { (void)r; cs->log.push_back(cstr(a[0]) + (isC(a[1]) ? " " + std::to_string((int64_t)a[1]->c) : " " + show(a[1], 4))); return true; };
	B["sx_alloc"] = [](std::vector<E> &a, E *r) {	// size, zero
		u64 n = concretize(a[0], "allocation size");
		if (n > (1u << 24)) violation("memory", "allocation of more than 16 MiB");
		*r = ret64(addrOf(newObj(n, isC(a[1]) && a[1]->c, true, false)));
		return true;
	};
	B["sx_free"] = [](std::vector<E> &a, E *r) {
		(void)r;
		u64 p = concretize(a[0], "pointer");
		if (p == 0) return true;
		u64 id = (p >> ASHIFT) - 1;
		Obj *o = p >> ASHIFT ? cs->get(id) : nullptr;
		if (!o || !o->heap || (p & ((1ULL << ASHIFT) - 1))) violation("memory", "free of something that was not allocated");
		if (o->freed) violation("memory", "double free");
		o = cs->getw(id);
		o->freed = true;
		o->b.clear();
		o->upd = Ref<Upd>();
		return true;
	};
	B["sx_size"] = [](std::vector<E> &a, E *r) {
		u64 p = concretize(a[0], "pointer");
		Obj *o = p >> ASHIFT ? cs->get((p >> ASHIFT) - 1) : nullptr;
		if (!o) violation("memory", "invalid pointer");
		*r = ret64(o->size);
		return true;
	};
	B["sx_same"] = [](std::vector<E> &a, E *r) {	// the ranges are equal: at an arbitrary position below n
		E n = a[2], x, y, ox, oy;
		if (isC(n) && n->c == 0) { *r = mkConst(1, 64); return true; }
		u64 ia = resolve(a[0], n, false, &ox, "read"), ib = resolve(a[1], n, false, &oy, "read");
		Obj *oa = cs->get(ia), *ob = cs->get(ib);
		if (isC(n) && n->c <= 32) {
			E t = mkConst(1, 1);
			for (u64 i = 0; i < n->c; i++) t = mkAnd(t, mkEq(readByte(oa, mkAdd(ox, mkConst(i, 64))), readByte(ob, mkAdd(oy, mkConst(i, 64)))));
			*r = mkZext(t, 64);
			return true;
		}
		E k = mkVar(64);
		g_known = mkUlt(k, n);
		x = readByte(oa, mkAdd(ox, k));
		y = readByte(ob, mkAdd(oy, k));
		E in = g_known;
		g_known = nullptr;
		*r = mkZext(mkOr(mkNot(in), mkEq(x, y)), 64);
		return true;
	};
	B["memcpy"] = [](std::vector<E> &a, E *r) { doCopy(a[0], a[1], a[2]); *r = a[0]; return true; };
	B["memmove"] = B["memcpy"];
	B["memset"] = [](std::vector<E> &a, E *r) { doSet(a[0], a[1], a[2]); *r = a[0]; return true; };
	B["memcmp"] = [](std::vector<E> &a, E *r) { *r = memcmpE(a[0], a[1], concretize(a[2], "length")); return true; };
	B["bcmp"] = B["memcmp"];
	B["vp_memcmp"] = B["memcmp"];
	B["sx_self"] = [](std::vector<E> &a, E *r) { (void)a; *r = mkConst((u64)cs->cur, 32); return true; };
	B["sx_preempt"] = [](std::vector<E> &a, E *r) {
		(void)r;
		bool close = cs->plimit >= 0;
		cs->plimit = (int)concretize(a[0], "");
		cs->preempt = 0;
		// what is left to do does not depend on how this state was reached
		if (opt_dedup && close && getenv("SX_DUMP")) dumpState();
		if (opt_dedup && close && cs->plimit < 0 && metBefore(99)) {
			S->merged++;
			throw KillPath();
		}
		return true;
	};
	B["sx_thread"] = [](std::vector<E> &a, E *r) {
		u64 p = concretize(a[0], "function");
		Obj *o = p >> ASHIFT ? cs->get((p >> ASHIFT) - 1) : nullptr;
		if (!o || !o->fn) violation("memory", "thread started at something that is not a function");
		Thread t;
		Frame f;
		f.f = prepare(o->fn);
		f.pc = 0;
		f.r.assign((size_t)f.f->nslots, nullptr);
		if (o->fn->arg_size() > 0) f.r[0] = a[1];
		S->cov[(size_t)f.f->bbCov[&o->fn->getEntryBlock()]] = 1;
		t.st.push_back(f);
		if (opt_race) {
			if (cs->th.size() >= NVC) throw Unsupported{ "too many threads" };
			RaceState *q = raceW();
			VC v = q->th[(size_t)cs->cur];
			v.c[cs->th.size()] = 1;
			q->th.push_back(v);
			q->th[(size_t)cs->cur].c[cs->cur]++;
		}
		cs->th.push_back(t);
		*r = mkConst(cs->th.size() - 1, 32);
		return true;
	};
	B["sx_point"] = [](std::vector<E> &a, E *r) {
		(void)a; (void)r;
		if (cs->th.size() == 1) return true;
		int t = pickThread(SCH_YIELD);
		finishCall(nullptr);
		if (t != cs->cur) {
			cs->preempt++;
			switchTo(t);
		}
		return false;
	};
	B["sx_sleep"] = [](std::vector<E> &a, E *r) {	// key, timed -> 1 if it timed out
		(void)r;
		u64 key = concretize(a[0], "key"), timed = concretize(a[1], "timed");
		int n = pickThread(timed == 2 ? SCH_IDLE : timed ? SCH_TIMED : SCH_SLEEP);
		Thread &t = cs->th[(size_t)cs->cur];
		t.stat = T_SLEEP;
		t.key = key;
		t.timed = (int)timed;
		t.timedout = false;
		t.resume = true;
		switchTo(n);
		return false;	// the call is finished when the thread is resumed
	};
	B["sx_wake"] = [](std::vector<E> &a, E *r) {
		(void)r;
		u64 key = concretize(a[0], "key"), all = concretize(a[1], "all");
		std::vector<int> w;
		for (size_t i = 0; i < cs->th.size(); i++)
			if (cs->th[i].stat == T_SLEEP && cs->th[i].key == key) w.push_back((int)i);
		if (w.empty()) return true;
		if (all) {
			for (int i : w) cs->th[(size_t)i].stat = T_RUN;
		} else {
			int k = w.size() > 1 ? choose((int)w.size()) : 0;
			record(mkConst((u64)k, 64));
			cs->th[(size_t)w[(size_t)k]].stat = T_RUN;
		}
		return true;
	};
	B["sx_done"] = [](std::vector<E> &a, E *r) {
		size_t t = (size_t)concretize(a[0], "");
		if (opt_race && cs->th[t].stat == T_DONE) {
			RaceState *q = raceW();
			q->th[(size_t)cs->cur].join(q->th[t]);
		}
		*r = mkConst(cs->th[t].stat == T_DONE, 32);
		return true;
	};
	B["sx_acquire"] = [](std::vector<E> &a, E *r) {
		(void)r;
		if (!opt_race) return true;
		u64 k = concretize(a[0], "lock");
		RaceState *q = raceW();
		auto it = q->sync.find(k);
		if (it != q->sync.end()) q->th[(size_t)cs->cur].join(it->second);
		return true;
	};
	B["sx_release"] = [](std::vector<E> &a, E *r) {
		(void)r;
		if (!opt_race) return true;
		u64 k = concretize(a[0], "lock");
		RaceState *q = raceW();
		q->sync[k].join(q->th[(size_t)cs->cur]);
		q->th[(size_t)cs->cur].c[cs->cur]++;
		return true;
	};
	B["sx_stop"] = [](std::vector<E> &a, E *r) -> bool { (void)a; (void)r; S->paths++; throw KillPath(); };
	B["sx_note"] = [](std::vector<E> &a, E *r) { (void)r; fprintf(stderr, "note %s %s\n", cstr(a[0]).c_str(), show(a[1]).c_str()); return true; };
}

// ---------------------------------------------------------------- interpreter
static E val(Frame &f, const KOp &o)
{
	if (o.c) return o.c;
	if (o.s < 0 || !f.r[(size_t)o.s]) throw Unsupported{ "operand without a value in " + f.f->name };
	return f.r[(size_t)o.s];
}
static void enter(Frame &f, BasicBlock *to)
{
	BasicBlock *from = f.f->ins[(size_t)f.pc].I->getParent();
	f.prev = from;
	f.pc = f.f->bbStart[to];
	S->cov[(size_t)f.f->bbCov[to]] = 1;
	std::vector<std::pair<int, E>> nv;
	while (auto *p = dyn_cast<PHINode>(f.f->ins[(size_t)f.pc].I)) {
		KInst &k = f.f->ins[(size_t)f.pc];
		int i = p->getBasicBlockIndex(from);
		nv.push_back({ k.dest, val(f, k.ops[(size_t)i]) });
		f.pc++;
	}
	for (auto &x : nv) f.r[(size_t)x.first] = x.second;
}
static void finishCall(E r)
{
	Frame &f = cs->th[(size_t)cs->cur].st.back();
	KInst &k = f.f->ins[(size_t)f.pc];
	if (k.dest >= 0) {
		unsigned w = widthOf(k.I->getType());
		if (r && w && r->w != w) r = r->w > w ? mkExtract(r, 0, w) : mkZext(r, w);
		f.r[(size_t)k.dest] = r ? r : mkConst(0, w ? w : 64);
	}
	f.pc++;
}
static void freeFrame(Frame &f)
{
	auto drop = [&](uint32_t id) {
		Obj *o = cs->getw((u64)id);
		o->freed = true;
		o->b.clear();
		o->b.shrink_to_fit();
		o->upd = Ref<Upd>();
		if (opt_dedup) {	// names are used again: states do not depend on how often a function was called
			Space &sp = cs->sp[(u64)id >> SPSHIFT];
			sp.n = std::min<u64>(sp.n, (u64)id & ((1ULL << SPSHIFT) - 1));
		}
	};
	if (f.va >= 0) drop((uint32_t)f.va);
	for (size_t i = f.allocas.size(); i-- > 0;) drop(f.allocas[i]);
}
static bool pathDone;
static E mkCmp(CmpInst::Predicate p, E a, E b)
{
	switch (p) {
	case CmpInst::ICMP_EQ: return mkEq(a, b);
	case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
	case CmpInst::ICMP_ULT: return mkUlt(a, b);
	case CmpInst::ICMP_ULE: return mkUle(a, b);
	case CmpInst::ICMP_UGT: return mkUlt(b, a);
	case CmpInst::ICMP_UGE: return mkUle(b, a);
	case CmpInst::ICMP_SLT: return mkSlt(a, b);
	case CmpInst::ICMP_SLE: return mkSle(a, b);
	case CmpInst::ICMP_SGT: return mkSlt(b, a);
	case CmpInst::ICMP_SGE: return mkSle(b, a);
	default: throw Unsupported{ "comparison" };
	}
}
static bool isPure(KFunc *kf)
{
	if (kf->pure >= 0) return kf->pure;
	kf->pure = 0;
	Function *F = kf->F;
	if (F->size() < 2 || F->size() > 16 || F->isVarArg() || !F->getReturnType()->isIntegerTy()) return false;
	for (auto &a : F->args())
		if (!a.getType()->isIntegerTy()) return false;
	for (auto *b : ReversePostOrderTraversal<Function *>(F)) kf->rpo.push_back(b);
	if (kf->rpo.size() != F->size()) return false;
	DenseMap<BasicBlock *, int> at;
	for (size_t i = 0; i < kf->rpo.size(); i++) at[kf->rpo[i]] = (int)i;
	for (auto &bb : *F)
		for (auto &I : bb) {
			if (isa<DbgInfoIntrinsic>(I)) continue;
			switch (I.getOpcode()) {
			case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
			case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: case Instruction::Select: case Instruction::ICmp: case Instruction::PHI:
			case Instruction::Br: case Instruction::Switch: case Instruction::Ret:
				break;
			case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
				if (!isa<ConstantInt>(I.getOperand(1))) return false;
				break;
			default: return false;
			}
			if (!I.isTerminator() && !I.getType()->isIntegerTy()) return false;
			if (I.isTerminator())
				for (unsigned j = 0; j < I.getNumSuccessors(); j++)
					if (at[I.getSuccessor(j)] <= at[&bb]) return false;
		}
	return kf->pure = 1;
}
// The value of such a function in one expression, instead of one path for each way through it.
static E callPure(KFunc *kf, const std::vector<E> &args)
{
	std::vector<E> r((size_t)kf->nslots, nullptr);
	std::map<std::pair<BasicBlock *, BasicBlock *>, E> edge;
	E T = mkConst(1, 1), ret = nullptr;
	for (unsigned i = 0; i < args.size(); i++) {
		unsigned w = widthOf(kf->F->getArg(i)->getType());
		r[i] = args[i]->w > w ? mkExtract(args[i], 0, w) : args[i]->w < w ? mkZext(args[i], w) : args[i];
	}
	for (auto *b : kf->rpo) {
		E here = nullptr;
		if (b == kf->rpo[0]) here = T;
		for (auto *p : predecessors(b)) {
			auto it = edge.find({ p, b });
			if (it != edge.end()) here = here ? mkOr(here, it->second) : it->second;
		}
		S->cov[(size_t)kf->bbCov[b]] = 1;
		for (int pc = kf->bbStart[b];; pc++) {
			KInst &k = kf->ins[(size_t)pc];
			Instruction *I = k.I;
			auto A = [&](unsigned i) { return k.ops[i].c ? k.ops[i].c : r[(size_t)k.ops[i].s]; };
			E v = nullptr;
			cs->steps++;
			switch (I->getOpcode()) {
			case Instruction::PHI: {
				auto *ph = cast<PHINode>(I);
				std::vector<BasicBlock *> seen;
				for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) {
					BasicBlock *p = ph->getIncomingBlock(i);
					if (std::find(seen.begin(), seen.end(), p) != seen.end()) continue;
					seen.push_back(p);
					auto it = edge.find({ p, b });
					if (it == edge.end()) continue;
					v = v ? mkIte(it->second, A(i), v) : A(i);
				}
				break;
			}
			case Instruction::Add: v = mkAdd(A(0), A(1)); break;
			case Instruction::Sub: v = mkSub(A(0), A(1)); break;
			case Instruction::Mul: v = mkMul(A(0), A(1)); break;
			case Instruction::And: v = mkAnd(A(0), A(1)); break;
			case Instruction::Or: v = mkOr(A(0), A(1)); break;
			case Instruction::Xor: v = mkXor(A(0), A(1)); break;
			case Instruction::Shl: v = mkBin(O_SHL, A(0), A(1)); break;
			case Instruction::LShr: v = mkBin(O_LSHR, A(0), A(1)); break;
			case Instruction::AShr: v = mkBin(O_ASHR, A(0), A(1)); break;
			case Instruction::ZExt: v = mkZext(A(0), widthOf(I->getType())); break;
			case Instruction::SExt: v = mkSext(A(0), widthOf(I->getType())); break;
			case Instruction::Trunc: v = mkExtract(A(0), 0, widthOf(I->getType())); break;
			case Instruction::Select: v = mkIte(A(0), A(1), A(2)); break;
			case Instruction::ICmp: v = mkCmp(cast<ICmpInst>(I)->getPredicate(), A(0), A(1)); break;
			case Instruction::Br: {
				auto *br = cast<BranchInst>(I);
				if (br->isUnconditional() || br->getSuccessor(0) == br->getSuccessor(1)) edge[{ b, br->getSuccessor(0) }] = here;
				else {
					edge[{ b, br->getSuccessor(0) }] = mkAnd(here, A(0));
					edge[{ b, br->getSuccessor(1) }] = mkAnd(here, mkNot(A(0)));
				}
				break;
			}
			case Instruction::Switch: {
				auto *s = cast<SwitchInst>(I);
				E rest = here, x = A(0);
				for (auto &c : s->cases()) {
					E eq = mkEq(x, mkConst(c.getCaseValue()->getZExtValue(), x->w)), g = mkAnd(rest, eq);
					auto &e = edge[{ b, c.getCaseSuccessor() }];
					e = e ? mkOr(e, g) : g;
					rest = mkAnd(rest, mkNot(eq));
				}
				auto &e = edge[{ b, s->getDefaultDest() }];
				e = e ? mkOr(e, rest) : rest;
				break;
			}
			case Instruction::Ret:
				ret = ret ? mkIte(here, A(0), ret) : A(0);
				break;
			default: throw Unsupported{ "instruction in a function of integers" };
			}
			if (k.dest >= 0) r[(size_t)k.dest] = v;
			if (I->isTerminator()) break;
		}
	}
	return ret;
}
static void doCall(Frame &f, KInst &k, CallBase *cb)
{
	Function *callee = cb->getCalledFunction();
	std::vector<E> args;
	unsigned na = cb->arg_size();
	if (auto *ii = dyn_cast<IntrinsicInst>(cb)) {
		auto id = ii->getIntrinsicID();
		auto A = [&](unsigned i) { return val(f, k.ops[i]); };
		E r = nullptr;
		switch (id) {
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::donothing: case Intrinsic::assume:
		case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::prefetch:
			r = mkConst(0, 64);
			break;
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: doCopy(A(0), A(1), mkZext(A(2), 64)); break;
		case Intrinsic::memset: doSet(A(0), A(1), mkZext(A(2), 64)); break;
		case Intrinsic::umin: r = opt_forksel && f.f->repo ? (decide(mkUlt(A(0), A(1))) ? A(0) : A(1)) : mkIte(mkUlt(A(0), A(1)), A(0), A(1)); break;
		case Intrinsic::umax: r = opt_forksel && f.f->repo ? (decide(mkUlt(A(0), A(1))) ? A(1) : A(0)) : mkIte(mkUlt(A(0), A(1)), A(1), A(0)); break;
		case Intrinsic::smin: r = opt_forksel && f.f->repo ? (decide(mkSlt(A(0), A(1))) ? A(0) : A(1)) : mkIte(mkSlt(A(0), A(1)), A(0), A(1)); break;
		case Intrinsic::smax: r = opt_forksel && f.f->repo ? (decide(mkSlt(A(0), A(1))) ? A(1) : A(0)) : mkIte(mkSlt(A(0), A(1)), A(1), A(0)); break;
		case Intrinsic::abs: r = mkIte(mkSlt(A(0), mkConst(0, A(0)->w)), mkSub(mkConst(0, A(0)->w), A(0)), A(0)); break;
		case Intrinsic::usub_sat: r = mkIte(mkUlt(A(0), A(1)), mkConst(0, A(0)->w), mkSub(A(0), A(1))); break;
		case Intrinsic::expect: r = A(0); break;
		case Intrinsic::objectsize: r = mkConst(~0ULL, widthOf(cb->getType())); break;
		case Intrinsic::is_constant: r = mkConst(0, 1); break;
		case Intrinsic::bswap: {
			E x = A(0);
			for (unsigned i = 0; i < x->w; i += 8) { E b = mkExtract(x, i, 8); r = r ? mkConcat(r, b) : b; }
			break;
		}
		case Intrinsic::fshl: case Intrinsic::fshr: {
			E x = A(0), y = A(1), s = A(2);
			unsigned w = x->w;
			if (isC(s)) {
				unsigned n = (unsigned)(s->c % w);
				if (id == Intrinsic::fshr) n = (w - n) % w;
				if (n == 0) r = id == Intrinsic::fshl ? x : y;
				else r = mkConcat(mkExtract(x, 0, w - n), mkExtract(y, w - n, n));
			} else throw Unsupported{ "funnel shift by a variable" };
			break;
		}
		case Intrinsic::ctpop: {
			E x = A(0);
			r = mkConst(0, x->w);
			for (unsigned i = 0; i < x->w; i++) r = mkAdd(r, mkZext(mkExtract(x, i, 1), x->w));
			break;
		}
		case Intrinsic::vastart: {
			E p = A(0);
			storeN(p, 4, mkConst(48, 32));
			storeN(mkAdd(p, mkConst(4, 64)), 4, mkConst(304, 32));
			storeN(mkAdd(p, mkConst(8, 64)), 8, mkConst(f.va >= 0 ? addrOf((u64)f.va) : 0, 64));
			storeN(mkAdd(p, mkConst(16, 64)), 8, mkConst(0, 64));
			break;
		}
		case Intrinsic::vaend: break;
		case Intrinsic::vacopy: doCopy(A(0), A(1), mkConst(24, 64)); break;
		case Intrinsic::trap: violation("check", "trap"); break;
		default: throw Unsupported{ "intrinsic " + callee->getName().str() };
		}
		finishCall(r);
		return;
	}
	for (unsigned i = 0; i < na; i++) args.push_back(val(f, k.ops[i]));
	if (!callee) {
		if (auto *fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) callee = fn;
		else if (isa<InlineAsm>(cb->getCalledOperand())) {
			auto *ia = cast<InlineAsm>(cb->getCalledOperand());
			if (ia->getAsmString().empty()) { finishCall(na ? args[0] : nullptr); return; }
			throw Unsupported{ "inline assembly" };
		} else {
			E p = val(f, k.ops[na]);
			u64 a = concretize(p, "function pointer");
			Obj *o = a >> ASHIFT ? cs->get((a >> ASHIFT) - 1) : nullptr;
			if (!o || !o->fn || (a & ((1ULL << ASHIFT) - 1))) violation("memory", "call through an invalid function pointer");
			callee = o->fn;
		}
	}
	if (callee->isDeclaration()) {
		auto b = builtins.find(callee->getName().str());
		if (b == builtins.end()) throw Unsupported{ "no model for function " + callee->getName().str() };
		// a sleeping thread that is resumed re-enters here only through resume()
		E r = nullptr;
		if (b->second(args, &r)) finishCall(r);
		return;
	}
	auto bi = builtins.find(callee->getName().str());
	if (bi != builtins.end()) {
		E r = nullptr;
		if (bi->second(args, &r)) finishCall(r);
		return;
	}
	if (cs->th[(size_t)cs->cur].st.size() > 400) violation("check", "unbounded recursion");
	KFunc *kf = prepare(callee);
	if (isPure(kf) && na == callee->arg_size() && !opt_forksel) {
		bool sym = false;
		for (auto a : args) sym |= !isC(a);
		if (sym) {
			finishCall(callPure(kf, args));
			return;
		}
	}
	Frame nf;
	nf.f = kf;
	nf.pc = 0;
	nf.r.assign((size_t)kf->nslots, nullptr);
	nf.retSlot = k.dest;
	for (unsigned i = 0; i < callee->arg_size(); i++) {
		E v = i < na ? args[i] : mkConst(0, widthOf(callee->getArg(i)->getType()));
		if (i < na && cb->isByValArgument(i)) {
			u64 n = DL->getTypeAllocSize(cb->getParamByValType(i));
			u64 id = newObj(n, false, false, true);
			nf.allocas.push_back((uint32_t)id);
			doCopy(mkConst(addrOf(id), 64), v, mkConst(n, 64));
			v = mkConst(addrOf(id), 64);
		}
		unsigned w = widthOf(callee->getArg(i)->getType());
		if (w && v->w != w) v = v->w > w ? mkExtract(v, 0, w) : mkZext(v, w);
		nf.r[i] = v;
	}
	if (callee->isVarArg() && na > callee->arg_size()) {
		u64 cnt = na - callee->arg_size();
		u64 id = newObj(cnt * 8, true, false, true);
		nf.va = (int64_t)id;
		for (u64 i = 0; i < cnt; i++) storeN(mkConst(addrOf(id) + i * 8, 64), 8, mkZext(args[callee->arg_size() + i], 64));
	}
	f.pc++;
	S->cov[(size_t)kf->bbCov[&callee->getEntryBlock()]] = 1;
	cs->th[(size_t)cs->cur].st.push_back(std::move(nf));
}
static void step()
{
	Thread &t = cs->th[(size_t)cs->cur];
	if (t.stat == T_DONE) {
		switchTo(pickThread(SCH_DONE));
		return;
	}
	Frame &f = t.st.back();
	KInst &k = f.f->ins[(size_t)f.pc];
	Instruction *I = k.I;
	if (isa<CallBase>(I)) {
		// resumed after sx_sleep?
		if (t.resume) {
			t.resume = false;
			t.key = 0;
			E r = mkConst(t.timedout, 32);
			finishCall(r);
			return;
		}
		doCall(f, k, cast<CallBase>(I));
		return;
	}
	auto A = [&](unsigned i) { return val(f, k.ops[i]); };
	E r = nullptr;
	switch (I->getOpcode()) {
	case Instruction::Ret: {
		E v = I->getNumOperands() ? A(0) : nullptr;
		freeFrame(f);
		int slot = f.retSlot;
		t.st.pop_back();
		if (t.st.empty()) {
			t.stat = T_DONE;
			if (cs->cur == 0) pathDone = true;
			return;
		}
		if (slot >= 0) t.st.back().r[(size_t)slot] = v;
		return;
	}
	case Instruction::Br: {
		auto *b = cast<BranchInst>(I);
		if (b->isUnconditional()) { enter(f, b->getSuccessor(0)); return; }
		bool c = decide(A(0));
		enter(f, b->getSuccessor(c ? 0 : 1));
		return;
	}
	case Instruction::Switch: {
		auto *s = cast<SwitchInst>(I);
		E v = A(0);
		for (auto &c : s->cases())
			if (decide(mkEq(v, mkConst(c.getCaseValue()->getZExtValue(), v->w)))) { enter(f, c.getCaseSuccessor()); return; }
		enter(f, s->getDefaultDest());
		return;
	}
	case Instruction::Unreachable: violation("check", "control reaches code declared unreachable"); return;
	case Instruction::Alloca: {
		auto *a = cast<AllocaInst>(I);
		u64 n = DL->getTypeAllocSize(a->getAllocatedType());
		if (a->isArrayAllocation()) n *= concretize(A(0), "alloca");
		u64 id = newObj(n, false, false, true);
		if (a->hasName()) { cs->get(id)->name = new std::string(a->getName().str()); }
		f.allocas.push_back((uint32_t)id);
		r = mkConst(addrOf(id), 64);
		break;
	}
	case Instruction::Load: {
		unsigned w = widthOf(I->getType());
		if (!w || w > 64) throw Unsupported{ "load of an aggregate" };
		r = loadN(A(0), (w + 7) / 8, w);
		break;
	}
	case Instruction::Store: {
		E v = A(0);
		storeN(A(1), (v->w + 7) / 8, v);
		break;
	}
	case Instruction::GetElementPtr: {
		auto *g = cast<GetElementPtrInst>(I);
		r = A(0);
		unsigned i = 1;
		for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it, ++i) {
			if (auto *st = it.getStructTypeOrNull()) {
				u64 fld = cast<ConstantInt>(g->getOperand(i))->getZExtValue();
				r = mkAdd(r, mkConst(DL->getStructLayout(st)->getElementOffset((unsigned)fld), 64));
			} else {
				u64 sz = DL->getTypeAllocSize(it.getIndexedType());
				r = mkAdd(r, mkMul(mkSext(A(i), 64), mkConst(sz, 64)));
			}
		}
		break;
	}
	case Instruction::ICmp: {
		r = mkCmp(cast<ICmpInst>(I)->getPredicate(), A(0), A(1));
		break;
	}
	case Instruction::Add: r = mkAdd(A(0), A(1)); break;
	case Instruction::Sub: r = mkSub(A(0), A(1)); break;
	case Instruction::Mul: r = mkMul(A(0), A(1)); break;
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		E a = A(0), b = A(1);
		must(mkNot(mkEq(b, mkConst(0, b->w))), "memory", "division by zero");
		Op o = I->getOpcode() == Instruction::UDiv ? O_UDIV : I->getOpcode() == Instruction::SDiv ? O_SDIV : I->getOpcode() == Instruction::URem ? O_UREM : O_SREM;
		r = mkBin(o, a, b);
		break;
	}
	case Instruction::And: r = mkAnd(A(0), A(1)); break;
	case Instruction::Or: r = mkOr(A(0), A(1)); break;
	case Instruction::Xor: r = mkXor(A(0), A(1)); break;
	case Instruction::Shl: r = mkBin(O_SHL, A(0), A(1)); break;
	case Instruction::LShr: r = mkBin(O_LSHR, A(0), A(1)); break;
	case Instruction::AShr: r = mkBin(O_ASHR, A(0), A(1)); break;
	case Instruction::ZExt: r = mkZext(A(0), widthOf(I->getType())); break;
	case Instruction::SExt: r = mkSext(A(0), widthOf(I->getType())); break;
	case Instruction::Trunc: r = mkExtract(A(0), 0, widthOf(I->getType())); break;
	case Instruction::PtrToInt: case Instruction::IntToPtr: {
		E v = A(0);
		unsigned w = widthOf(I->getType());
		r = w > v->w ? mkZext(v, w) : mkExtract(v, 0, w);
		break;
	}
	case Instruction::BitCast: case Instruction::Freeze: r = A(0); break;
	case Instruction::Select:
		if (opt_forksel && f.f->repo && !isC(A(0)) && A(1)->w > 1) r = decide(A(0)) ? A(1) : A(2);
		else r = mkIte(A(0), A(1), A(2));
		break;
	case Instruction::AtomicRMW: {
		auto *x = cast<AtomicRMWInst>(I);
		unsigned w = widthOf(I->getType());
		E old = loadN(A(0), w / 8, w), v = A(1), n;
		switch (x->getOperation()) {
		case AtomicRMWInst::Add: n = mkAdd(old, v); break;
		case AtomicRMWInst::Sub: n = mkSub(old, v); break;
		case AtomicRMWInst::Xchg: n = v; break;
		case AtomicRMWInst::Or: n = mkOr(old, v); break;
		case AtomicRMWInst::And: n = mkAnd(old, v); break;
		default: throw Unsupported{ "atomic operation" };
		}
		storeN(A(0), w / 8, n);
		r = old;
		break;
	}
	case Instruction::Fence: break;
	default: throw Unsupported{ std::string("instruction ") + I->getOpcodeName() };
	}
	if (k.dest >= 0) f.r[(size_t)k.dest] = r;
	f.pc++;
}

// ---------------------------------------------------------------- exploration
static void split()
{
	// hand the shallow half of the worklist to another process
	if (work.size() < 2 || opt_procs < 2) return;
	int p = S->procs.load();
	if (p >= opt_procs) return;
	if (!S->procs.compare_exchange_strong(p, p + 1)) return;
	fflush(nullptr);
	pid_t c = fork();
	if (c < 0) { S->procs--; return; }
	std::vector<State *> mine;
	for (size_t i = 0; i < work.size(); i++)
		if ((i & 1) == (c == 0 ? 0u : 1u)) mine.push_back(work[i]);
		else if (c == 0 || true) delete work[i];
	work = mine;
	if (c == 0) {
		delete cs;	// the current state stays with the parent
		forkAt.clear();
		cs = nullptr;
	}
}
static void explore()
{
	u64 cnt = 0;
	double deadline = t_start + opt_time;
	while (!work.empty() && !S->stop) {
		cs = work.back();
		work.pop_back();
		pathDone = false;
		try {
			for (;;) {
				step();
				cs->steps++;
				cnt++;
				if (pathDone) {
					S->paths++;
					break;
				}
				if (cs->steps > opt_steps) violation("steps", "the code does not finish within " + std::to_string(opt_steps) + " steps");
				if ((cnt & 1023) == 0) {
					S->insts += 1024;
					if (S->stop) break;
					if (now() > deadline) { inconclusive("time limit of " + std::to_string((int)opt_time) + " s reached"); break; }
					if ((cnt & 0xffff) == 0) {
						struct rusage ru;
						getrusage(RUSAGE_SELF, &ru);
						if (ru.ru_maxrss > 24L * 1024 * 1024 / opt_procs + 1000000) { inconclusive("memory limit reached"); break; }
					}
				}
				if ((cnt & 2047) == 0 && work.size() >= 2) {
					split();
					if (!cs) break;
				}
			}
		} catch (KillPath &) {
			S->killed++;
		} catch (Unsupported &u) {
			inconclusive("cannot encode: " + u.what + " at " + where());
		}
		if (cs) {
			u64 d = cs->depth, m = S->maxdepth;
			if (d > m) S->maxdepth = d;
			if (cs->steps > S->maxsteps) S->maxsteps = cs->steps;
			delete cs;
			cs = nullptr;
		}
	}
	S->insts += cnt & 1023;
}

static void initGlobals(State *s)
{
	cs = s;
	auto addName = [&](u64 id, const GlobalValue &g) { s->get(id)->name = new std::string(g.getName().str()); };
	for (auto &F : *M) {
		if (F.isIntrinsic()) continue;
		Obj *o = new Obj;
		o->fn = &F;
		u64 id = s->alloc(o);
		gaddr[&F] = addrOf(id);
	}
	for (auto &g : M->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		u64 id = newObj(DL->getTypeAllocSize(g.getValueType()), true, false, false);
		addName(id, g);
		gaddr[&g] = addrOf(id);
	}
	std::function<void(Obj *, u64, const Constant *)> put = [&](Obj *o, u64 off, const Constant *c) {
		Type *t = c->getType();
		if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
		if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
			u64 es = DL->getTypeAllocSize(cds->getElementType());
			for (unsigned i = 0; i < cds->getNumElements(); i++) put(o, off + i * es, cds->getElementAsConstant(i));
			return;
		}
		if (auto *ca = dyn_cast<ConstantArray>(c)) {
			u64 es = DL->getTypeAllocSize(ca->getType()->getElementType());
			for (unsigned i = 0; i < ca->getNumOperands(); i++) put(o, off + i * es, ca->getOperand(i));
			return;
		}
		if (auto *st = dyn_cast<ConstantStruct>(c)) {
			auto *sl = DL->getStructLayout(st->getType());
			for (unsigned i = 0; i < st->getNumOperands(); i++) put(o, off + sl->getElementOffset(i), st->getOperand(i));
			return;
		}
		E v = evalConst(c);
		unsigned n = (unsigned)DL->getTypeStoreSize(t);
		if (v->w < n * 8) v = mkZext(v, n * 8);
		for (unsigned i = 0; i < n; i++) writeByte(o, mkConst(off + i, 64), mkExtract(v, i * 8, 8));
	};
	for (auto &g : M->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		u64 id = (gaddr[&g] >> ASHIFT) - 1;
		Obj *o = s->getw(id);
		if (g.hasInitializer()) put(o, 0, g.getInitializer());
		o->ro = g.isConstant() && g.hasInitializer();
	}
}

int main(int argc, char **argv)
{
	std::string file, entry = "vp_main";
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto num = [&]() { return atof(argv[++i]); };
		if (a == "-j") opt_procs = (int)num();
		else if (a == "-t") opt_time = num();
		else if (a == "-d") opt_dedup = 1;
		else if (a == "-R") opt_race = 1;
		else if (a == "-p") opt_preempt = (int)num();
		else if (a == "-T") opt_timeouts = (int)num();
		else if (a == "-s") opt_steps = (u64)num();
		else if (a == "-q") opt_qtime = (unsigned)(num() * 1000);
		else if (a == "-v") opt_verbose++;
		else if (a == "-f") opt_forksel = 1;
		else if (a == "-e") entry = argv[++i];
		else if (a == "-dump") opt_dump = argv[++i];
		else file = a;
	}
	{	// expressions can be deep
		struct rlimit rl;
		getrlimit(RLIMIT_STACK, &rl);
		if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1UL << 30) && (rl.rlim_max == RLIM_INFINITY || rl.rlim_max >= (1UL << 30)) && !getenv("SX_STACK")) {
			rl.rlim_cur = 1UL << 30;
			if (setrlimit(RLIMIT_STACK, &rl) == 0) {
				setenv("SX_STACK", "1", 1);
				execv("/proc/self/exe", argv);
			}
		}
	}
	t_start = now();
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (opt_dedup) vis = (std::atomic<u64> *)mmap(nullptr, VISN * sizeof(u64), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	S->procs = 1;
	LLVMContext ctx;
	SMDiagnostic err;
	auto mod = parseIRFile(file, err, ctx);
	if (!mod) { err.print("sx", errs()); return 70; }
	M = mod.get();
	DL = &M->getDataLayout();
	for (auto &F : *M) {
		for (auto &bb : F)
			for (auto &I : bb)
				if (auto *c = dyn_cast<CallInst>(&I))
					if (auto *cf = c->getCalledFunction())
						if (cf->getName() == "sx_witness")
							if (auto *g = dyn_cast<GlobalVariable>(c->getArgOperand(0)->stripPointerCasts()))
								if (g->hasInitializer()) {
									StringRef s;
									if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) s = d->isCString() ? d->getAsCString() : "";
									if (std::find(witnesses.begin(), witnesses.end(), s.str()) == witnesses.end()) witnesses.push_back(s.str());
								}
	}
	solverInit();
	initBuiltins();
	State *s = new State;
	int rc = 0;
	try {
		initGlobals(s);
		for (auto &F : *M) {
			if (F.isDeclaration()) continue;
			KFunc *k = new KFunc;
			k->F = &F;
			k->name = F.getName().str();
			k->repo = fromRepo(&F);
			k->libc = F.getSubprogram() && F.getSubprogram()->getFilename().ends_with("/libc.c");
			k->firstCov = covNext;
			for (auto &bb : F) { k->bbCov[&bb] = covNext++; k->nbb++; }
			kfs[&F] = k;
			kflist.push_back(k);
		}
		if (covNext > MAXCOV) throw Unsupported{ "too many blocks" };
		Function *F = M->getFunction(entry);
		if (!F || F->isDeclaration()) throw Unsupported{ "no function " + entry };
		s->m = std::make_shared<Model>();
		s->th.resize(1);
		Frame f;
		f.f = prepare(F);
		f.pc = 0;
		f.r.assign((size_t)f.f->nslots, nullptr);
		S->cov[(size_t)f.f->bbCov[&F->getEntryBlock()]] = 1;
		s->th[0].st.push_back(f);
		work.push_back(s);
	} catch (Unsupported &u) {
		inconclusive("cannot encode: " + u.what);
	}
	pid_t root = getpid();
	explore();
	for (auto &f : forkAt) fprintf(stderr, "FORK %d %s\n", f.second, f.first.c_str());
	S->procs--;	// frees the token before the children end, so that others may be started
	for (int st; wait(&st) > 0;)
		if (!WIFEXITED(st) || WEXITSTATUS(st)) inconclusive("a process of the symbolic executor died (" + std::to_string(st) + ")");
	if (getpid() != root) _exit(0);
	std::string out = "{";
	out += "\"status\":" + jstr(S->nviol ? "violated" : S->ninc ? "inconclusive" : "holds");
	if (S->nviol) out += ",\"violation\":" + std::string(S->viol);
	if (S->ninc) out += ",\"reason\":" + jstr(S->inc);
	auto n = [&](const char *k, u64 v) { out += std::string(",\"") + k + "\":" + std::to_string(v); };
	n("paths", S->paths); n("pruned", S->killed); n("instructions", S->insts); n("forks", S->forks); n("queries", S->queries);
	n("queries_sat", S->sat); n("queries_unsat", S->unsat); n("queries_cached", S->cached); n("queries_by_model", S->modelhits);
	n("solver_us", S->solver_us); n("checks", S->checks); n("checks_solved", S->checks_solved); n("max_depth", S->maxdepth); n("schedule_points", S->schedpoints);
	n("max_steps", S->maxsteps);
	if (opt_dedup) { n("states", S->visited); n("merged", S->merged); }
	char b[64];
	snprintf(b, sizeof b, ",\"wall_s\":%.2f", now() - t_start);
	out += b;
	out += ",\"witnesses\":{";
	for (size_t i = 0; i < witnesses.size(); i++) out += (i ? "," : "") + jstr(witnesses[i]) + ":" + (S->witness[i] ? "true" : "false");
	out += "},\"functions\":{";
	bool first = true;
	for (auto *k : kflist)
		if (k->repo) {
			int c = 0;
			for (int i = 0; i < k->nbb; i++) c += S->cov[(size_t)(k->firstCov + i)] ? 1 : 0;
			if (!c) continue;
			out += (first ? "" : ",") + jstr(k->name) + ":[" + std::to_string(c) + "," + std::to_string(k->nbb) + "]";
			first = false;
		}
	out += "}}";
	puts(out.c_str());
	return rc;
}
