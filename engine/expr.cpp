#include "expr.h"

uint64_t g_exprs;
static std::vector<std::vector<uint8_t>> g_tables;
static int g_nextvar;

struct KeyHash {
	size_t operator()(E e) const
	{
		uint64_t h = e->op * 0x9e3779b97f4a7c15ULL + e->w * 0x85ebca6bULL;
		h = (h ^ e->c) * 0xff51afd7ed558ccdULL;
		for (int i = 0; i < 3; i++)
			h = (h ^ (e->k[i] ? e->k[i]->id + 1 : 0) ^ (h >> 29)) * 0xc4ceb9fe1a85ec53ULL;
		return h ^ (h >> 32);
	}
};
struct KeyEq {
	bool operator()(E a, E b) const
	{
		return a->op == b->op && a->w == b->w && a->c == b->c && a->k[0] == b->k[0] && a->k[1] == b->k[1] && a->k[2] == b->k[2];
	}
};
static std::unordered_set<E, KeyHash, KeyEq> g_tab;
static const VarSet g_novars;
static std::map<std::vector<int>, const VarSet *> g_sets;
static const VarSet *internSet(std::vector<int> &&v)
{
	auto it = g_sets.find(v);
	if (it != g_sets.end())
		return it->second;
	const VarSet *p = new VarSet(v);
	g_sets.emplace(std::move(v), p);
	return p;
}
struct PairHash { size_t operator()(const std::pair<const VarSet *, const VarSet *> &p) const { return ((uint64_t)(uintptr_t)p.first * 0x9e3779b97f4a7c15ULL) ^ ((uint64_t)(uintptr_t)p.second >> 4); } };
static std::unordered_map<std::pair<const VarSet *, const VarSet *>, const VarSet *, PairHash> g_union;
static const VarSet *unite(const VarSet *a, const VarSet *b)
{
	if (a == b || b->empty())
		return a;
	if (a->empty())
		return b;
	auto key = std::make_pair(a, b);
	auto it = g_union.find(key);
	if (it != g_union.end())
		return it->second;
	std::vector<int> r;
	std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
	const VarSet *s = r == *a ? a : r == *b ? b : internSet(std::move(r));
	g_union[key] = s;
	return s;
}
static E intern(Op op, unsigned w, uint64_t c, E a = nullptr, E b = nullptr, E d = nullptr)
{
	Expr t;
	t.op = op; t.w = (uint8_t)w; t.c = c; t.k[0] = a; t.k[1] = b; t.k[2] = d;
	auto it = g_tab.find(&t);
	if (it != g_tab.end())
		return *it;
	Expr *n = new Expr(t);
	n->id = (uint32_t)g_exprs++;
	n->z3bv = n->z3bool = nullptr;
	n->sz = (uint16_t)std::min(65535, 1 + (a ? a->sz : 0) + (b ? b->sz : 0) + (d ? d->sz : 0));
	if (op == O_CONST)
		n->vars = &g_novars;
	else if (op == O_VAR)
		n->vars = internSet({ (int)c });
	else {
		const VarSet *s = a->vars;
		if (b) s = unite(s, b->vars);
		if (d) s = unite(s, d->vars);
		if (op == O_SEL) s = unite(s, internSet({ (int)c }));
		n->vars = s;
	}
	g_tab.insert(n);
	return n;
}
E mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & mask(w)); }
E mkVar(unsigned w) { return intern(O_VAR, w, (uint64_t)g_nextvar++); }
int newArray() { return g_nextvar++; }
E mkSel(int arr, E idx) { return intern(O_SEL, 8, (uint64_t)arr, idx); }
int newTable(const std::vector<uint8_t> &t)
{
	for (size_t i = 0; i < g_tables.size(); i++)
		if (g_tables[i] == t)
			return (int)i;
	g_tables.push_back(t);
	return (int)g_tables.size() - 1;
}
const std::vector<uint8_t> &tableData(int t) { return g_tables[(size_t)t]; }
E mkTbl(int t, E idx)
{
	if (isC(idx))
		return mkConst(idx->c < g_tables[t].size() ? g_tables[t][idx->c] : 0, 8);
	return intern(O_TBL, 8, (uint64_t)t, idx);
}
static E ord(Op op, E a, E b)	// commutative: constant second, else by id
{
	if (isC(a) || (!isC(b) && a->id > b->id))
		std::swap(a, b);
	return intern(op, a->w, 0, a, b);
}
// (x << n) + zext(y), or with ^, where y fits below the shifted bits, is plain assembly
static bool disjoint(E a, E b)
{
	for (int s = 0; s < 2; s++, std::swap(a, b))
		if (a->op == O_CONCAT && isC(a->k[1]) && a->k[1]->c == 0 && b->op == O_ZEXT && b->k[0]->w <= a->k[1]->w)
			return true;
	return false;
}
// Sums are kept flat: terms with coefficients, ordered by id, the constant last.
static void flatSum(E e, uint64_t coef, std::map<uint32_t, std::pair<E, uint64_t>> &t, uint64_t &c)
{
	if (e->op == O_ADD) {
		flatSum(e->k[0], coef, t, c);
		flatSum(e->k[1], coef, t, c);
	} else if (isC(e)) {
		c += coef * e->c;
	} else if (e->op == O_MUL && isC(e->k[1])) {
		flatSum(e->k[0], coef * e->k[1]->c, t, c);
	} else {
		auto &p = t[e->id];
		p.first = e;
		p.second += coef;
	}
}
static E canonSum(E a, E b)
{
	std::map<uint32_t, std::pair<E, uint64_t>> t;
	uint64_t c = 0;
	unsigned w = a->w;
	E r = nullptr;
	flatSum(a, 1, t, c);
	flatSum(b, 1, t, c);
	// x - d * (x / d) is x % d
	std::vector<std::pair<E, uint64_t>> divs;
	for (auto &p : t)
		if (p.second.first->op == O_UDIV && isC(p.second.first->k[1]) && (p.second.second & mask(w))) divs.push_back(p.second);
	for (auto &d : divs) {
		auto x = t.find(d.first->k[0]->id);
		if (x == t.end() || ((x->second.second * d.first->k[1]->c + d.second) & mask(w))) continue;
		uint64_t k = x->second.second;
		x->second.second = 0;
		t[d.first->id].second = 0;
		E rem = mkBin(O_UREM, d.first->k[0], d.first->k[1]);
		auto &p = t[rem->id];
		p.first = rem;
		p.second += k;
	}
	for (auto &p : t) {
		uint64_t k = p.second.second & mask(w);
		if (k == 0) continue;
		E x = mkMul(p.second.first, mkConst(k, w));
		r = r ? intern(O_ADD, w, 0, r, x) : x;
	}
	if (!r) return mkConst(c, w);
	return (c & mask(w)) ? intern(O_ADD, w, 0, r, mkConst(c, w)) : r;
}
E mkAdd(E a, E b)
{
	if (isC(a) && isC(b)) return mkConst(a->c + b->c, a->w);
	if (isC(a)) std::swap(a, b);
	if (a->w >= 32 && !isC(b)) {
		if (disjoint(a, b)) return mkOr(a, b);
		auto isDiv = [](E x) { return x->op == O_MUL && isC(x->k[1]) && x->k[0]->op == O_UDIV && isC(x->k[0]->k[1]); };
		if (a->op == O_ADD || b->op == O_ADD || isDiv(a) || isDiv(b)) return canonSum(a, b);
	}
	if (isC(b)) {
		if (b->c == 0) return a;
		if (a->op == O_ADD && isC(a->k[1])) return mkAdd(a->k[0], mkConst(a->k[1]->c + b->c, a->w));
		if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkAdd(a->k[1], b), mkAdd(a->k[2], b));
		return intern(O_ADD, a->w, 0, a, b);
	}
	if (a->op == O_ADD && isC(a->k[1])) return mkAdd(mkAdd(a->k[0], b), a->k[1]);
	if (b->op == O_ADD && isC(b->k[1])) return mkAdd(mkAdd(a, b->k[0]), b->k[1]);
	// x + (-1 * x) = 0, and cancel inside sums
	auto negof = [](E x, E y) { return x->op == O_MUL && isC(x->k[1]) && x->k[1]->c == mask(x->w) && x->k[0] == y; };
	if (negof(a, b) || negof(b, a)) return mkConst(0, a->w);
	if (a->op == O_ADD) {
		if (negof(b, a->k[0]) || negof(a->k[0], b)) return a->k[1];
		if (negof(b, a->k[1]) || negof(a->k[1], b)) return a->k[0];
	}
	if (b->op == O_ADD) {
		if (negof(a, b->k[0]) || negof(b->k[0], a)) return b->k[1];
		if (negof(a, b->k[1]) || negof(b->k[1], a)) return b->k[0];
	}
	return ord(O_ADD, a, b);
}
E mkSub(E a, E b)
{
	if (a == b) return mkConst(0, a->w);
	return mkAdd(a, mkMul(b, mkConst(~0ULL, a->w)));
}
E mkMul(E a, E b)
{
	if (isC(a) && isC(b)) return mkConst(a->c * b->c, a->w);
	if (isC(a)) std::swap(a, b);
	if (isC(b)) {
		if (b->c == 0) return b;
		if (b->c == 1) return a;
		if (a->op == O_MUL && isC(a->k[1])) return mkMul(a->k[0], mkConst(a->k[1]->c * b->c, a->w));
		if (a->op == O_ADD && isC(a->k[1])) return mkAdd(mkMul(a->k[0], b), mkConst(a->k[1]->c * b->c, a->w));
		if (b->c == mask(a->w) && a->op == O_ADD) return mkAdd(mkMul(a->k[0], b), mkMul(a->k[1], b));
	}
	return ord(O_MUL, a, b);
}
E mkNot(E a)
{
	if (a->w == 1 && a->op == O_ULT) {	// !(a<b) == b<=a, kept as negated ULT form only once
		return intern(O_XOR, 1, 0, a, mkConst(1, 1));
	}
	return mkXor(a, mkConst(~0ULL, a->w));
}
// Nested bitwise operations on at most three operands (and constants) are kept as an exclusive or of conjunctions with
// constant masks, which is unique.
static bool isBool(E e) { return e->op == O_AND || e->op == O_OR || e->op == O_XOR; }
static bool boolAtoms(E e, E *at, int &n)
{
	if (isC(e)) return true;
	if (isBool(e)) return boolAtoms(e->k[0], at, n) && boolAtoms(e->k[1], at, n);
	for (int i = 0; i < n; i++)
		if (at[i] == e) return true;
	if (n == 3) return false;
	at[n++] = e;
	return true;
}
static uint64_t boolValue(E e, E *at, int n, int row)
{
	if (isC(e)) return e->c;
	for (int i = 0; i < n; i++)
		if (at[i] == e) return row >> i & 1 ? mask(e->w) : 0;
	uint64_t x = boolValue(e->k[0], at, n, row), y = boolValue(e->k[1], at, n, row);
	return e->op == O_AND ? x & y : e->op == O_OR ? x | y : x ^ y;
}
static E canonBool(Op op, E a, E b)
{
	E at[3];
	int n = 0;
	if (a->w < 32) return nullptr;
	if (isC(b) ? !isBool(a) || !isBool(a->k[0]) : !isBool(a) && !isBool(b)) return nullptr;
	if (!boolAtoms(a, at, n) || !boolAtoms(b, at, n)) return nullptr;
	std::sort(at, at + n, [](E x, E y) { return x->id < y->id; });
	uint64_t t[8];
	for (int j = 0; j < 8; j++) {
		uint64_t x = boolValue(a, at, n, j), y = boolValue(b, at, n, j);
		t[j] = op == O_AND ? x & y : op == O_OR ? x | y : x ^ y;
	}
	for (int i = 0; i < 3; i++)	// Moebius transform: the coefficients of the conjunctions
		for (int j = 0; j < 8; j++)
			if (j >> i & 1) t[j] ^= t[j ^ 1 << i];
	E r = nullptr;
	for (int j = 1; j < 8; j++) {
		if (!t[j]) continue;
		E m = nullptr;
		for (int i = 0; i < n; i++)
			if (j >> i & 1) m = m ? intern(O_AND, a->w, 0, m, at[i]) : at[i];
		if (t[j] != mask(a->w)) m = intern(O_AND, a->w, 0, m, mkConst(t[j], a->w));
		r = r ? intern(O_XOR, a->w, 0, r, m) : m;
	}
	if (!r) return mkConst(t[0], a->w);
	return t[0] ? intern(O_XOR, a->w, 0, r, mkConst(t[0], a->w)) : r;
}
E mkAnd(E a, E b)
{
	if (isC(a) && isC(b)) return mkConst(a->c & b->c, a->w);
	if (isC(a)) std::swap(a, b);
	if (a == b) return a;
	if (E r = canonBool(O_AND, a, b)) return r;
	if (isC(b)) {
		if (b->c == 0) return b;
		if (b->c == mask(a->w)) return a;
		if (a->op == O_AND && isC(a->k[1])) return mkAnd(a->k[0], mkConst(a->k[1]->c & b->c, a->w));
		if (a->op == O_ZEXT && (b->c & mask(a->k[0]->w)) == mask(a->k[0]->w)) return a;
		// low mask: zext(extract)
		uint64_t c = b->c;
		if ((c & (c + 1)) == 0) {
			unsigned n = (unsigned)__builtin_popcountll(c);
			return mkZext(mkExtract(a, 0, n), a->w);
		}
		if (a->op == O_ZEXT) return mkZext(mkAnd(a->k[0], mkConst(c, a->k[0]->w)), a->w);
	}
	if (a->w == 1 && (a == mkNot(b))) return mkConst(0, 1);
	return ord(O_AND, a, b);
}
E mkOr(E a, E b)
{
	if (isC(a) && isC(b)) return mkConst(a->c | b->c, a->w);
	if (isC(a)) std::swap(a, b);
	if (a == b) return a;
	if (E r = canonBool(O_OR, a, b)) return r;
	if (isC(b)) {
		if (b->c == 0) return a;
		if (b->c == mask(a->w)) return b;
		if (a->op == O_OR && isC(a->k[1])) return mkOr(a->k[0], mkConst(a->k[1]->c | b->c, a->w));
		if (a->op == O_AND && isC(a->k[1]) && (a->k[1]->c & b->c) == 0) return mkXor(a, b);
		if (a->op == O_ZEXT) {
			E x = a->k[0];
			return mkConcat(mkConst(b->c >> x->w, a->w - x->w), mkOr(x, mkConst(b->c, x->w)));
		}
		if (a->op == O_CONCAT) {
			E h = a->k[0], l = a->k[1];
			return mkConcat(mkOr(h, mkConst(b->c >> l->w, h->w)), mkOr(l, mkConst(b->c, l->w)));
		}
	}
	if (a->w == 1 && a == mkNot(b)) return mkConst(1, 1);
	if (a->w > 1 && !isC(b)) {
		// byte assembly: (zext lo) | (x << n) with n >= width(lo)
		for (int s = 0; s < 2; s++) {
			E lo = s ? b : a, hi = s ? a : b;
			if (hi->op == O_CONCAT && isC(hi->k[1]) && hi->k[1]->c == 0 && lo->op == O_ZEXT && lo->k[0]->w <= hi->k[1]->w)
				return mkConcat(hi->k[0], mkZext(lo->k[0], hi->k[1]->w));
			if (hi->op == O_ZEXT && lo->op == O_ZEXT && hi->k[0]->op == O_CONCAT && isC(hi->k[0]->k[1]) && hi->k[0]->k[1]->c == 0 &&
			    lo->k[0]->w <= hi->k[0]->k[1]->w)
				return mkZext(mkConcat(hi->k[0]->k[0], mkZext(lo->k[0], hi->k[0]->k[1]->w)), a->w);
			if (hi->op == O_CONCAT && isC(hi->k[1]) && hi->k[1]->c == 0 && lo->op == O_CONCAT) {
				unsigned n = hi->k[1]->w;
				return mkConcat(mkOr(hi->k[0], mkExtract(lo, n, a->w - n)), mkExtract(lo, 0, n));
			}
		}
	}
	return ord(O_OR, a, b);
}
E mkXor(E a, E b)
{
	if (isC(a) && isC(b)) return mkConst(a->c ^ b->c, a->w);
	if (isC(a)) std::swap(a, b);
	if (a == b) return mkConst(0, a->w);
	if (disjoint(a, b)) return mkOr(a, b);
	if (E r = canonBool(O_XOR, a, b)) return r;
	if (isC(b)) {
		if (b->c == 0) return a;
		if (a->op == O_XOR && isC(a->k[1])) return mkXor(a->k[0], mkConst(a->k[1]->c ^ b->c, a->w));
		if (a->w == 1 && a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkNot(a->k[1]), mkNot(a->k[2]));
	}
	return ord(O_XOR, a, b);
}
// an upper bound of the unsigned value
static uint64_t ubound(E a, int depth = 0)
{
	uint64_t m = mask(a->w), x;
	if (depth > 6) return m;
	switch (a->op) {
	case O_CONST: return a->c;
	case O_ZEXT: return ubound(a->k[0], depth + 1);
	case O_UDIV: return isC(a->k[1]) && a->k[1]->c ? ubound(a->k[0], depth + 1) / a->k[1]->c : m;
	case O_UREM: return isC(a->k[1]) && a->k[1]->c ? std::min(ubound(a->k[0], depth + 1), a->k[1]->c - 1) : m;
	case O_ITE: return std::max(ubound(a->k[1], depth + 1), ubound(a->k[2], depth + 1));
	case O_CONCAT: x = ubound(a->k[0], depth + 1); return (x << a->k[1]->w) | mask(a->k[1]->w);
	case O_MUL:
		x = ubound(a->k[0], depth + 1);
		return isC(a->k[1]) && a->k[1]->c && x <= m / a->k[1]->c ? x * a->k[1]->c : m;
	case O_ADD:
		if (isC(a->k[1])) {
			x = ubound(a->k[0], depth + 1);
			if (x <= m - a->k[1]->c) return x + a->k[1]->c;
		}
		return m;
	case O_AND: return isC(a->k[1]) ? std::min(ubound(a->k[0], depth + 1), a->k[1]->c) : m;
	default: return m;
	}
}
E mkBin(Op op, E a, E b)
{
	unsigned w = a->w;
	switch (op) {
	case O_ADD: return mkAdd(a, b);
	case O_MUL: return mkMul(a, b);
	case O_AND: return mkAnd(a, b);
	case O_OR: return mkOr(a, b);
	case O_XOR: return mkXor(a, b);
	default: break;
	}
	if (isC(a) && isC(b)) {
		uint64_t x = a->c, y = b->c;
		int64_t sx = sx64(x, w), sy = sx64(y, w);
		switch (op) {
		case O_UDIV: return mkConst(y ? x / y : ~0ULL, w);
		case O_UREM: return mkConst(y ? x % y : x, w);
		case O_SDIV: return mkConst(y ? (sy == -1 ? 0 - x : (uint64_t)(sx / sy)) : 0, w);
		case O_SREM: return mkConst(y ? (sy == -1 ? 0 : (uint64_t)(sx % sy)) : 0, w);
		case O_SHL: return mkConst(y >= w ? 0 : x << y, w);
		case O_LSHR: return mkConst(y >= w ? 0 : x >> y, w);
		case O_ASHR: return mkConst((uint64_t)(sx >> (y >= w ? (w - 1) : y)), w);
		default: break;
		}
	}
	if (isC(b)) {
		uint64_t y = b->c;
		if (op == O_SHL) {
			if (y == 0) return a;
			if (y >= w) return mkConst(0, w);
			return mkConcat(a->sz > 40 ? mkPiece(a, 0, w - (unsigned)y) : mkExtract(a, 0, w - (unsigned)y), mkConst(0, (unsigned)y));
		}
		if (op == O_LSHR) {
			if (y == 0) return a;
			if (y >= w) return mkConst(0, w);
			return mkZext(mkExtract(a, (unsigned)y, w - (unsigned)y), w);
		}
		if (op == O_ASHR) {
			if (y == 0) return a;
			if (y >= w) y = w - 1;
			return mkSext(mkExtract(a, (unsigned)y, w - (unsigned)y), w);
		}
		if (op == O_UDIV || op == O_UREM) {
			if (y != 0 && (y & (y - 1)) == 0) {
				unsigned n = (unsigned)__builtin_ctzll(y);
				if (op == O_UDIV) return mkBin(O_LSHR, a, mkConst(n, w));
				return mkAnd(a, mkConst(y - 1, w));
			}
			if (y != 0) {
				uint64_t u = ubound(a);
				if (u < y) return op == O_UDIV ? mkConst(0, w) : a;
				if (op == O_UDIV && a->op == O_UDIV && isC(a->k[1]) && a->k[1]->c) {
					if (a->k[1]->c <= mask(w) / y) return mkBin(O_UDIV, a->k[0], mkConst(a->k[1]->c * y, w));
					return mkConst(0, w);
				}
				unsigned n = 64 - (unsigned)__builtin_clzll(u | y);
				if (n + 1 < w) return mkZext(mkBin(op, mkExtract(a, 0, n), mkConst(y, n)), w);
			}
		}
	}
	return intern(op, w, 0, a, b);
}
E mkZext(E a, unsigned w)
{
	if (a->w == w) return a;
	if (isC(a)) return mkConst(a->c, w);
	if (a->op == O_ZEXT) return mkZext(a->k[0], w);
	if (a->op == O_CONCAT && isC(a->k[0])) return intern(O_CONCAT, w, 0, mkConst(a->k[0]->c, w - a->k[1]->w), a->k[1]);
	if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkZext(a->k[1], w), mkZext(a->k[2], w));
	return intern(O_ZEXT, w, 0, a);
}
E mkSext(E a, unsigned w)
{
	if (a->w == w) return a;
	if (isC(a)) return mkConst((uint64_t)sx64(a->c, a->w), w);
	if (a->op == O_ZEXT) return mkZext(a->k[0], w);
	if (a->op == O_SEXT) return mkSext(a->k[0], w);
	if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
	return intern(O_SEXT, w, 0, a);
}
E mkExtract(E a, unsigned off, unsigned w)
{
	if (off == 0 && a->w == w) return a;
	if (a->sz > 40 && (a->op == O_ADD || a->op == O_MUL || isBool(a))) return intern(O_EXTRACT, w, off, a);
	switch (a->op) {
	case O_CONST: return mkConst(a->c >> off, w);
	case O_EXTRACT: return mkExtract(a->k[0], (unsigned)a->c + off, w);
	case O_CONCAT: {
		unsigned lw = a->k[1]->w;
		if (off + w <= lw) return mkExtract(a->k[1], off, w);
		if (off >= lw) return mkExtract(a->k[0], off - lw, w);
		return mkConcat(mkExtract(a->k[0], 0, off + w - lw), mkExtract(a->k[1], off, lw - off));
	}
	case O_ZEXT: {
		unsigned iw = a->k[0]->w;
		if (off >= iw) return mkConst(0, w);
		if (off + w <= iw) return mkExtract(a->k[0], off, w);
		return mkZext(mkExtract(a->k[0], off, iw - off), w);
	}
	case O_SEXT: {
		unsigned iw = a->k[0]->w;
		if (off + w <= iw) return mkExtract(a->k[0], off, w);
		if (off < iw) return mkSext(mkExtract(a->k[0], off, iw - off), w);
		return mkSext(mkExtract(a->k[0], iw - 1, 1), w);
	}
	case O_ITE:
		if (isC(a->k[1]) || isC(a->k[2]))
			return mkIte(a->k[0], mkExtract(a->k[1], off, w), mkExtract(a->k[2], off, w));
		break;
	case O_AND: case O_OR: case O_XOR:
		return mkBin(a->op, mkExtract(a->k[0], off, w), mkExtract(a->k[1], off, w));
	case O_ADD: case O_MUL:
		if (off == 0)
			return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
		break;
	default: break;
	}
	return intern(O_EXTRACT, w, off, a);
}
// A byte of a value in memory: kept as a plain piece, so that the pieces join again when the value is read back.
E mkPiece(E a, unsigned off, unsigned w)
{
	if (off == 0 && a->w == w) return a;
	switch (a->op) {
	case O_CONST: case O_SEXT: return mkExtract(a, off, w);
	case O_EXTRACT: return intern(O_EXTRACT, w, a->c + off, a->k[0]);
	case O_CONCAT: {
		unsigned lw = a->k[1]->w;
		if (off + w <= lw) return mkPiece(a->k[1], off, w);
		if (off >= lw) return mkPiece(a->k[0], off - lw, w);
		return mkExtract(a, off, w);
	}
	case O_ZEXT: {
		unsigned iw = a->k[0]->w;
		if (off >= iw) return mkConst(0, w);
		if (off + w <= iw) return mkPiece(a->k[0], off, w);
		return mkExtract(a, off, w);
	}
	case O_ITE:
		if (isC(a->k[1]) && isC(a->k[2])) return mkExtract(a, off, w);
		break;
	default: break;
	}
	return intern(O_EXTRACT, w, off, a);
}
E mkConcat(E hi, E lo)
{
	unsigned w = hi->w + lo->w;
	if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
	if (isC(hi) && hi->c == 0) return mkZext(lo, w);
	if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->k[0] == lo->k[0] && hi->c == lo->c + lo->w)
		return lo->c == 0 && w == hi->k[0]->w ? hi->k[0] : intern(O_EXTRACT, w, lo->c, hi->k[0]);
	// (concat a (extract..)) joined on the right
	if (hi->op == O_CONCAT) {
		E r = hi->k[1];
		if ((r->op == O_EXTRACT && lo->op == O_EXTRACT && r->k[0] == lo->k[0] && r->c == lo->c + lo->w) || (isC(r) && isC(lo)))
			return mkConcat(hi->k[0], mkConcat(r, lo));
	}
	if (hi->op == O_ZEXT && w <= 64) {
		E in = mkConcat(hi->k[0], lo);
		return mkZext(in, w);
	}
	if (hi->op == O_ITE && lo->op == O_ITE && hi->k[0] == lo->k[0])
		return mkIte(hi->k[0], mkConcat(hi->k[1], lo->k[1]), mkConcat(hi->k[2], lo->k[2]));
	return intern(O_CONCAT, w, 0, hi, lo);
}
// a table without repeated entries: different indices give different entries
static bool injective(int t)
{
	static std::unordered_map<int, bool> memo;
	auto it = memo.find(t);
	if (it != memo.end()) return it->second;
	bool seen[256] = { false }, ok = g_tables[(size_t)t].size() <= 256;
	for (uint8_t v : g_tables[(size_t)t]) {
		ok = ok && !seen[v];
		seen[v] = true;
	}
	return memo[t] = ok;
}
E mkEq(E a, E b)
{
	if (a == b) return mkConst(1, 1);
	if (a->op == O_TBL && b->op == O_TBL && a->c == b->c && injective((int)a->c) &&
	    ubound(a->k[0]) < g_tables[a->c].size() && ubound(b->k[0]) < g_tables[a->c].size())
		return mkEq(a->k[0], b->k[0]);
	if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
	if (a->op == O_XOR && b->op == O_XOR)
		for (int i = 0; i < 4; i++)
			if (a->k[i & 1] == b->k[i >> 1]) return mkEq(a->k[!(i & 1)], b->k[!(i >> 1)]);
	if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
	if (isC(a)) std::swap(a, b);
	if (isC(b)) {
		if (a->w == 1) return b->c ? a : mkNot(a);
		switch (a->op) {
		case O_ZEXT:
			if (b->c & ~mask(a->k[0]->w)) return mkConst(0, 1);
			return mkEq(a->k[0], mkConst(b->c, a->k[0]->w));
		case O_SEXT: {
			uint64_t t = b->c & mask(a->k[0]->w);
			if (((uint64_t)sx64(t, a->k[0]->w) & mask(a->w)) != b->c) return mkConst(0, 1);
			return mkEq(a->k[0], mkConst(t, a->k[0]->w));
		}
		case O_ADD:
			if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c - a->k[1]->c, a->w));
			break;
		case O_XOR:
			if (isC(a->k[1])) return mkEq(a->k[0], mkConst(b->c ^ a->k[1]->c, a->w));
			break;
		case O_UDIV:
			if (b->c == 0 && isC(a->k[1]) && a->k[1]->c) return mkUlt(a->k[0], a->k[1]);
			break;
		case O_MUL:
			if (isC(a->k[1]) && a->k[1]->c == mask(a->w)) return mkEq(a->k[0], mkConst(0 - b->c, a->w));
			break;
		case O_ITE:
			if (isC(a->k[1]) || isC(a->k[2]))
				return mkIte(a->k[0], mkEq(a->k[1], b), mkEq(a->k[2], b));
			break;
		case O_CONCAT: {
			unsigned lw = a->k[1]->w;
			E l = mkEq(a->k[1], mkConst(b->c, lw));
			if (isFalse(l)) return l;
			return mkAnd(mkEq(a->k[0], mkConst(b->c >> lw, a->k[0]->w)), l);
		}
		default: break;
		}
	} else {
		if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
		if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && isC(b->k[1]))
			return mkEq(mkAdd(a->k[0], mkConst(a->k[1]->c - b->k[1]->c, a->w)), b->k[0]);
	}
	if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
	return intern(O_EQ, 1, 0, a, b);
}
E mkUlt(E a, E b)
{
	if (a == b) return mkConst(0, 1);
	if (isC(a) && isC(b)) return mkConst(a->c < b->c, 1);
	if (isC(b)) {
		if (b->c == 0) return mkConst(0, 1);
		if (a->op == O_UDIV && isC(a->k[1]) && a->k[1]->c) {	// x / d < c  <=>  x < c * d
			if (b->c > mask(a->w) / a->k[1]->c) return mkConst(1, 1);
			return mkUlt(a->k[0], mkConst(b->c * a->k[1]->c, a->w));
		}
		if (a->op != O_ITE && ubound(a) < b->c) return mkConst(1, 1);
		if (b->c == 1) return mkEq(a, mkConst(0, a->w));
		if (a->op == O_ZEXT) {
			if (b->c > mask(a->k[0]->w)) return mkConst(1, 1);
			return mkUlt(a->k[0], mkConst(b->c, a->k[0]->w));
		}
		if (a->op == O_ITE && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkUlt(a->k[1], b), mkUlt(a->k[2], b));
	}
	if (isC(a)) {
		if (a->c == mask(a->w)) return mkConst(0, 1);
		if (b->op == O_UDIV) return mkNot(mkUlt(b, mkConst(a->c + 1, a->w)));
		if (b->op != O_ITE && ubound(b) <= a->c) return mkConst(0, 1);
		if (a->c == 0) return mkNot(mkEq(b, a));
		if (b->op == O_ZEXT) {
			if (a->c >= mask(b->k[0]->w)) return mkConst(0, 1);
			return mkUlt(mkConst(a->c, b->k[0]->w), b->k[0]);
		}
		if (b->op == O_ITE && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkUlt(a, b->k[1]), mkUlt(a, b->k[2]));
	}
	if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkUlt(a->k[0], b->k[0]);
	return intern(O_ULT, 1, 0, a, b);
}
E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
E mkSlt(E a, E b)
{
	if (a == b) return mkConst(0, 1);
	if (isC(a) && isC(b)) return mkConst(sx64(a->c, a->w) < sx64(b->c, b->w), 1);
	if (a->op == O_ZEXT && b->op == O_ZEXT && a->k[0]->w == b->k[0]->w) return mkUlt(a->k[0], b->k[0]);
	if (a->op == O_ZEXT && isC(b)) {
		int64_t y = sx64(b->c, b->w);
		if (y <= 0) return mkConst(0, 1);
		return mkUlt(a, b);
	}
	if (b->op == O_ZEXT && isC(a)) {
		int64_t x = sx64(a->c, a->w);
		if (x < 0) return mkConst(1, 1);
		return mkUlt(a, b);
	}
	if (a->op == O_ITE && isC(b) && (isC(a->k[1]) || isC(a->k[2]))) return mkIte(a->k[0], mkSlt(a->k[1], b), mkSlt(a->k[2], b));
	if (b->op == O_ITE && isC(a) && (isC(b->k[1]) || isC(b->k[2]))) return mkIte(b->k[0], mkSlt(a, b->k[1]), mkSlt(a, b->k[2]));
	return intern(O_SLT, 1, 0, a, b);
}
E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
E mkIte(E c, E a, E b)
{
	if (isC(c)) return c->c ? a : b;
	if (a == b) return a;
	if (a->w == 1) {
		if (isTrue(a)) return mkOr(c, b);
		if (isFalse(a)) return mkAnd(mkNot(c), b);
		if (isTrue(b)) return mkOr(mkNot(c), a);
		if (isFalse(b)) return mkAnd(c, a);
	}
	if (c->op == O_XOR && isC(c->k[1])) return mkIte(c->k[0], b, a);
	if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
	if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
	if (a == b) return a;
	return intern(O_ITE, a->w, 0, c, a, b);
}

static uint64_t evalR(E e, const Model &m, std::unordered_map<E, uint64_t> &memo)
{
	if (e->op == O_CONST) return e->c;
	if (e->op == O_VAR) {
		auto it = m.v.find((int)e->c);
		return it == m.v.end() ? 0 : it->second & mask(e->w);
	}
	auto it = memo.find(e);
	if (it != memo.end()) return it->second;
	uint64_t r = 0, x = 0, y = 0;
	unsigned w = e->w;
	if (e->op == O_ITE) {
		r = evalR(evalR(e->k[0], m, memo) ? e->k[1] : e->k[2], m, memo);
	} else {
		x = evalR(e->k[0], m, memo);
		if (e->k[1]) y = evalR(e->k[1], m, memo);
		unsigned kw = e->k[0]->w;
		switch (e->op) {
		case O_SEL: {
			auto a = m.a.find((int)e->c);
			r = 0;
			if (a != m.a.end()) {
				auto v = a->second.find(x);
				if (v != a->second.end()) r = v->second;
			}
			break;
		}
		case O_TBL: { const auto &t = g_tables[e->c]; r = x < t.size() ? t[x] : 0; break; }
		case O_ADD: r = x + y; break;
		case O_MUL: r = x * y; break;
		case O_AND: r = x & y; break;
		case O_OR: r = x | y; break;
		case O_XOR: r = x ^ y; break;
		case O_UDIV: r = y ? x / y : ~0ULL; break;
		case O_UREM: r = y ? x % y : x; break;
		case O_SDIV: r = y ? (sx64(y, w) == -1 ? 0 - x : (uint64_t)(sx64(x, w) / sx64(y, w))) : (sx64(x, w) < 0 ? 1 : ~0ULL); break;
		case O_SREM: r = y ? (sx64(y, w) == -1 ? 0 : (uint64_t)(sx64(x, w) % sx64(y, w))) : x; break;
		case O_SHL: r = y >= w ? 0 : x << y; break;
		case O_LSHR: r = y >= w ? 0 : x >> y; break;
		case O_ASHR: r = (uint64_t)(sx64(x, w) >> (y >= w ? w - 1 : y)); break;
		case O_EQ: r = x == y; break;
		case O_ULT: r = x < y; break;
		case O_SLT: r = sx64(x, kw) < sx64(y, kw); break;
		case O_ZEXT: r = x; break;
		case O_SEXT: r = (uint64_t)sx64(x, kw); break;
		case O_EXTRACT: r = x >> e->c; break;
		case O_CONCAT: r = (x << e->k[1]->w) | y; break;
		default: abort();
		}
		r &= mask(w);
	}
	memo[e] = r;
	return r;
}
uint64_t evalE(E e, const Model &m)
{
	if (e->op == O_CONST) return e->c;
	static std::unordered_map<E, uint64_t> memo;
	memo.clear();
	return evalR(e, m, memo);
}
std::string show(E e, int d)
{
	static const char *n[] = { "c", "v", "sel", "tbl", "add", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr",
		"eq", "ult", "slt", "zext", "sext", "extract", "concat", "ite" };
	if (e->op == O_CONST) return std::to_string(e->c);
	if (e->op == O_VAR) return "v" + std::to_string(e->c) + ":" + std::to_string(e->w);
	if (d == 0) return "...";
	std::string s = std::string("(") + n[e->op];
	if (e->op == O_SEL || e->op == O_TBL || e->op == O_EXTRACT) s += "#" + std::to_string(e->c);
	if (e->op == O_ZEXT || e->op == O_EXTRACT || e->op == O_SEXT) s += ":" + std::to_string(e->w);
	for (int i = 0; i < 3 && e->k[i]; i++) s += " " + show(e->k[i], d - 1);
	return s + ")";
}
