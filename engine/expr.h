// Hash-consed bit-vector expressions (width 1..64), arrays of bytes as uninterpreted inputs.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <algorithm>
#include <memory>

enum Op : uint8_t { O_CONST, O_VAR, O_SEL, O_TBL, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_SLT, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_ITE };

typedef std::vector<int> VarSet;

struct Expr {
	Op op;
	uint8_t w;
	uint16_t sz;		// size as a tree, up to 65535
	uint32_t id;
	uint64_t c;		// constant value / var id / array id / extract offset / table id
	const Expr *k[3];
	const VarSet *vars;	// sorted ids of inputs (arrays have ids too)
	mutable void *z3bv, *z3bool;
};
typedef const Expr *E;

static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Model {
	std::unordered_map<int, uint64_t> v;
	std::unordered_map<int, std::unordered_map<uint64_t, uint8_t>> a;
};

E mkConst(uint64_t v, unsigned w);
E mkVar(unsigned w);			// fresh
int newArray();				// fresh array id
E mkSel(int arr, E idx);		// 8 bit
int newTable(const std::vector<uint8_t> &t);
E mkTbl(int t, E idx);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkMul(E a, E b);
E mkBin(Op op, E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkUle(E a, E b);
E mkSlt(E a, E b);
E mkSle(E a, E b);
E mkNot(E a);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkExtract(E a, unsigned off, unsigned w);
E mkPiece(E a, unsigned off, unsigned w);
E mkConcat(E hi, E lo);
E mkIte(E c, E a, E b);
uint64_t evalE(E e, const Model &m);
std::string show(E e, int depth = 6);
const std::vector<uint8_t> &tableData(int t);
static inline bool isC(E e) { return e->op == O_CONST; }
static inline bool isTrue(E e) { return e->op == O_CONST && e->c == 1; }
static inline bool isFalse(E e) { return e->op == O_CONST && e->c == 0; }
extern uint64_t g_exprs;
