#include "expr.h"

#include <cmath>

ExprPool pool;

u128 foldOp(Op op, unsigned w, uint8_t aux, uint32_t lo, unsigned kw, u128 a,
            u128 b, u128 c, unsigned k1w) {
  u128 m = maskOf(w);
  switch (op) {
    case Op::Add: return (a + b) & m;
    case Op::Sub: return (a - b) & m;
    case Op::Mul: return (a * b) & m;
    case Op::UDiv: return b ? (a / b) & m : m;
    case Op::URem: return b ? (a % b) & m : a;
    case Op::SDiv: {
      i128 x = sext128(a, w), y = sext128(b, w);
      if (y == 0) return (x < 0 ? (u128)1 : m);
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m;
    }
    case Op::SRem: {
      i128 x = sext128(a, w), y = sext128(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case Op::And: return a & b;
    case Op::Or: return a | b;
    case Op::Xor: return a ^ b;
    case Op::Not: return ~a & m;
    case Op::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case Op::LShr: return b >= w ? 0 : (a >> (unsigned)b) & m;
    case Op::AShr: {
      i128 x = sext128(a, w);
      return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m;
    }
    case Op::Eq: return a == b;
    case Op::Ult: return a < b;
    case Op::Ule: return a <= b;
    case Op::Slt: return sext128(a, kw) < sext128(b, kw);
    case Op::Sle: return sext128(a, kw) <= sext128(b, kw);
    case Op::Ite: return a ? b : c;
    case Op::Concat: return ((a << k1w) | b) & m;
    case Op::Extract: return (a >> lo) & m;
    case Op::ZExt: return a;
    case Op::SExt: return (u128)sext128(a, kw) & m;
    case Op::FAdd:
      return aux == 32 ? fToBits(bitsToF(a) + bitsToF(b))
                       : dToBits(bitsToD(a) + bitsToD(b));
    case Op::FSub:
      return aux == 32 ? fToBits(bitsToF(a) - bitsToF(b))
                       : dToBits(bitsToD(a) - bitsToD(b));
    case Op::FMul:
      return aux == 32 ? fToBits(bitsToF(a) * bitsToF(b))
                       : dToBits(bitsToD(a) * bitsToD(b));
    case Op::FDiv:
      return aux == 32 ? fToBits(bitsToF(a) / bitsToF(b))
                       : dToBits(bitsToD(a) / bitsToD(b));
    case Op::FNeg: return a ^ ((u128)1 << (w - 1));
    case Op::FAbs: return a & ~((u128)1 << (w - 1)) & m;
    case Op::FOeq:
      return aux == 32 ? bitsToF(a) == bitsToF(b) : bitsToD(a) == bitsToD(b);
    case Op::FOlt:
      return aux == 32 ? bitsToF(a) < bitsToF(b) : bitsToD(a) < bitsToD(b);
    case Op::FOle:
      return aux == 32 ? bitsToF(a) <= bitsToF(b) : bitsToD(a) <= bitsToD(b);
    case Op::FUno:
      return aux == 32 ? (std::isnan(bitsToF(a)) || std::isnan(bitsToF(b)))
                       : (std::isnan(bitsToD(a)) || std::isnan(bitsToD(b)));
    case Op::FToF:
      return aux == 32 ? dToBits((double)bitsToF(a))
                       : fToBits((float)bitsToD(a));
    case Op::FToU: {
      double d = aux == 32 ? bitsToF(a) : bitsToD(a);
      if (!(d > -1.0) || !(d < 18446744073709551616.0)) return 0;
      return (u128)(uint64_t)d & m;
    }
    case Op::FToS: {
      double d = aux == 32 ? bitsToF(a) : bitsToD(a);
      if (!(d >= -9223372036854775808.0) || !(d < 9223372036854775808.0))
        return 0;
      return (u128)(i128)(int64_t)d & m;
    }
    case Op::UToF:
      return w == 32 ? fToBits((float)(uint64_t)a)
                     : dToBits((double)(uint64_t)a);
    case Op::SToF: {
      int64_t s = (int64_t)sext128(a, kw);
      return w == 32 ? fToBits((float)s) : dToBits((double)s);
    }
    default: break;
  }
  fprintf(stderr, "foldOp: bad op %d\n", (int)op);
  abort();
}

static Expr* fold2(Op op, unsigned w, Expr* a, Expr* b) {
  return mkConst(foldOp(op, w, 0, 0, a->w, a->c, b->c, 0, b->w), w);
}

Expr* mkNot(Expr* a) {
  if (isC(a)) return mkConst(~a->c, a->w);
  if (a->op == Op::Not) return a->k[0];
  if (a->w == 1) {
    if (a->op == Op::Ult) return mkBin(Op::Ule, a->k[1], a->k[0]);
    if (a->op == Op::Ule) return mkBin(Op::Ult, a->k[1], a->k[0]);
    if (a->op == Op::Slt) return mkBin(Op::Sle, a->k[1], a->k[0]);
    if (a->op == Op::Sle) return mkBin(Op::Slt, a->k[1], a->k[0]);
  }
  return raw(Op::Not, a->w, a);
}

Expr* mkEq(Expr* a, Expr* b) {
  if (a == b) return mkConst(1, 1);
  if (isC(a) && isC(b)) return mkConst(a->c == b->c, 1);
  if (isC(a)) std::swap(a, b);
  if (isC(b)) {
    u128 v = b->c;
    if (a->w == 1) return v ? a : mkNot(a);
    switch (a->op) {
      case Op::ZExt:
        if (v > maskOf(a->k[0]->w)) return mkConst(0, 1);
        return mkEq(a->k[0], mkConst(v, a->k[0]->w));
      case Op::SExt: {
        u128 low = v & maskOf(a->k[0]->w);
        if (((u128)sext128(low, a->k[0]->w) & maskOf(a->w)) != v)
          return mkConst(0, 1);
        return mkEq(a->k[0], mkConst(low, a->k[0]->w));
      }
      case Op::Ite:
        if (isC(a->k[1]) || isC(a->k[2])) {
          Expr* x = mkEq(a->k[1], b);
          Expr* y = mkEq(a->k[2], b);
          if (isC(x) && isC(y)) {
            if (x->c == y->c) return x;
            return x->c ? a->k[0] : mkNot(a->k[0]);
          }
          if (isC(x) || isC(y)) return mkIte(a->k[0], x, y);
        }
        break;
      case Op::Add:
        if (isC(a->k[1]))
          return mkEq(a->k[0], mkConst(v - a->k[1]->c, a->w));
        break;
      case Op::Sub:
        if (v == 0) return mkEq(a->k[0], a->k[1]);
        break;
      case Op::Not: return mkEq(a->k[0], mkConst(~v, a->w));
      case Op::Xor:
        if (isC(a->k[1])) return mkEq(a->k[0], mkConst(v ^ a->k[1]->c, a->w));
        if (v == 0) return mkEq(a->k[0], a->k[1]);
        break;
      case Op::Concat: {
        unsigned lw = a->k[1]->w;
        return mkAnd1(mkEq(a->k[0], mkConst(v >> lw, a->k[0]->w)),
                      mkEq(a->k[1], mkConst(v, lw)));
      }
      default: break;
    }
    return raw(Op::Eq, 1, a, b);
  }
  if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
    return mkEq(a->k[0], b->k[0]);
  if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w)
    return mkEq(a->k[0], b->k[0]);
  if (a->op == Op::Add && a->k[0] == b && isC(a->k[1])) return mkConst(0, 1);
  if (b->op == Op::Add && b->k[0] == a && isC(b->k[1])) return mkConst(0, 1);
  if (a->op == Op::Add && b->op == Op::Add && a->k[1] == b->k[1])
    return mkEq(a->k[0], b->k[0]);
  if (a->sh > b->sh) std::swap(a, b);
  return raw(Op::Eq, 1, a, b);
}

// upper bound (unsigned) that is cheap to obtain
static u128 umaxOf(Expr* e) {
  switch (e->op) {
    case Op::Const: return e->c;
    case Op::ZExt: return umaxOf(e->k[0]);
    case Op::And:
      if (isC(e->k[1])) return e->k[1]->c;
      break;
    case Op::Ite: {
      u128 a = umaxOf(e->k[1]), b = umaxOf(e->k[2]);
      return a > b ? a : b;
    }
    case Op::URem:
      if (isC(e->k[1]) && e->k[1]->c) return e->k[1]->c - 1;
      break;
    case Op::LShr:
      if (isC(e->k[1]) && e->k[1]->c < e->w)
        return maskOf(e->w) >> (unsigned)e->k[1]->c;
      break;
    case Op::Concat:
      return (umaxOf(e->k[0]) << e->k[1]->w) | maskOf(e->k[1]->w);
    default: break;
  }
  return maskOf(e->w);
}

Expr* mkBin(Op op, Expr* a, Expr* b) {
  bool cmp = op == Op::Ult || op == Op::Ule || op == Op::Slt || op == Op::Sle;
  if (op == Op::Eq) return mkEq(a, b);
  unsigned w = cmp ? 1 : a->w;
  if (isC(a) && isC(b)) return fold2(op, w, a, b);
  bool comm = op == Op::Add || op == Op::Mul || op == Op::And ||
              op == Op::Or || op == Op::Xor;
  if (comm && (isC(a) || (!isC(b) && a->sh > b->sh))) std::swap(a, b);
  u128 m = maskOf(a->w);
  switch (op) {
    case Op::Add:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (a->op == Op::Add && isC(a->k[1]))
          return mkBin(Op::Add, a->k[0], mkConst(a->k[1]->c + b->c, w));
        if (a->op == Op::Ite && isC(a->k[1]) && isC(a->k[2]))
          return mkIte(a->k[0], mkConst(a->k[1]->c + b->c, w),
                       mkConst(a->k[2]->c + b->c, w));
      } else {
        if (a->op == Op::Add && isC(a->k[1]))
          return mkBin(Op::Add, mkBin(Op::Add, a->k[0], b), a->k[1]);
        if (b->op == Op::Add && isC(b->k[1]))
          return mkBin(Op::Add, mkBin(Op::Add, a, b->k[0]), b->k[1]);
        if (a->op == Op::Sub && a->k[1] == b) return a->k[0];
        if (b->op == Op::Sub && b->k[1] == a) return b->k[0];
      }
      break;
    case Op::Sub:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(Op::Add, a, mkConst(-b->c, w));
      if (a->op == Op::Add) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (isC(a->k[1]))
          return mkBin(Op::Add, mkBin(Op::Sub, a->k[0], b), a->k[1]);
      }
      if (b->op == Op::Add) {
        if (isC(b->k[1]))
          return mkBin(Op::Add, mkBin(Op::Sub, a, b->k[0]),
                       mkConst(-b->k[1]->c, w));
        if (b->k[0] == a) return mkBin(Op::Sub, mkConst(0, w), b->k[1]);
        if (b->k[1] == a) return mkBin(Op::Sub, mkConst(0, w), b->k[0]);
      }
      break;
    case Op::Mul:
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        if (a->op == Op::Mul && isC(a->k[1]))
          return mkBin(Op::Mul, a->k[0], mkConst(a->k[1]->c * b->c, w));
        if (a->op == Op::Add && isC(a->k[1]))
          return mkBin(Op::Add, mkBin(Op::Mul, a->k[0], b),
                       mkConst(a->k[1]->c * b->c, w));
      }
      break;
    case Op::UDiv:
      if (isC(b) && b->c == 1) return a;
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0) {
        unsigned s = 0;
        while (((u128)1 << s) != b->c) s++;
        return mkBin(Op::LShr, a, mkConst(s, w));
      }
      break;
    case Op::URem:
      if (isC(b) && b->c == 1) return mkConst(0, w);
      if (isC(b) && b->c && (b->c & (b->c - 1)) == 0)
        return mkBin(Op::And, a, mkConst(b->c - 1, w));
      break;
    case Op::And:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return b;
        if (b->c == m) return a;
        if (a->op == Op::And && isC(a->k[1]))
          return mkBin(Op::And, a->k[0], mkConst(a->k[1]->c & b->c, w));
        // low mask
        if ((b->c & (b->c + 1)) == 0) {
          unsigned n = 0;
          while (((b->c >> n) & 1)) n++;
          if (umaxOf(a) <= b->c) return a;
          return mkZExt(mkExtract(a, 0, n), w);
        }
        if (a->op == Op::ZExt && b->c <= maskOf(a->k[0]->w))
          return mkZExt(mkBin(Op::And, a->k[0], mkConst(b->c, a->k[0]->w)), w);
      }
      if (w == 1) {
        if (a->op == Op::Not && a->k[0] == b) return mkConst(0, 1);
        if (b->op == Op::Not && b->k[0] == a) return mkConst(0, 1);
      }
      break;
    case Op::Or:
      if (a == b) return a;
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == m) return b;
      }
      if (w == 1) {
        if (a->op == Op::Not && a->k[0] == b) return mkConst(1, 1);
        if (b->op == Op::Not && b->k[0] == a) return mkConst(1, 1);
      }
      // (zext lo) | (x << n)  =>  concat, to recognise byte assembly
      for (int s = 0; s < 2; s++) {
        Expr* x = s ? b : a;
        Expr* y = s ? a : b;
        if (x->op == Op::ZExt && y->op == Op::Concat && isC(y->k[1]) &&
            y->k[1]->c == 0 && x->k[0]->w <= y->k[1]->w)
          return mkConcat(y->k[0], mkZExt(x->k[0], y->k[1]->w));
      }
      break;
    case Op::Xor:
      if (a == b) return mkConst(0, w);
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c == m) return mkNot(a);
      }
      break;
    case Op::Shl:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
      }
      break;
    case Op::LShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        return mkZExt(mkExtract(a, n, w - n), w);
      }
      break;
    case Op::AShr:
      if (isC(b)) {
        if (b->c == 0) return a;
        unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      break;
    case Op::Ult:
      if (a == b) return mkConst(0, 1);
      if (isC(b)) {
        if (b->c == 0) return mkConst(0, 1);
        if (umaxOf(a) < b->c) return mkConst(1, 1);
        if (b->c == 1) return mkEq(a, mkConst(0, a->w));
        if (a->op == Op::ZExt)
          return mkBin(Op::Ult, a->k[0], mkConst(b->c, a->k[0]->w));
      }
      if (isC(a)) {
        if (a->c == m) return mkConst(0, 1);
        if (a->c == 0) return mkNot(mkEq(b, mkConst(0, b->w)));
        if (umaxOf(b) <= a->c) return mkConst(0, 1);
        if (b->op == Op::ZExt)
          return mkBin(Op::Ult, mkConst(a->c, b->k[0]->w), b->k[0]);
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
        return mkBin(Op::Ult, a->k[0], b->k[0]);
      break;
    case Op::Ule:
      if (a == b) return mkConst(1, 1);
      if (isC(b)) {
        if (b->c == m) return mkConst(1, 1);
        return mkBin(Op::Ult, a, mkConst(b->c + 1, a->w));
      }
      if (isC(a)) {
        if (a->c == 0) return mkConst(1, 1);
        return mkBin(Op::Ult, mkConst(a->c - 1, b->w), b);
      }
      if (a->op == Op::ZExt && b->op == Op::ZExt && a->k[0]->w == b->k[0]->w)
        return mkBin(Op::Ule, a->k[0], b->k[0]);
      break;
    case Op::Slt:
    case Op::Sle: {
      if (a == b) return mkConst(op == Op::Sle, 1);
      // both known non-negative: unsigned comparison
      u128 half = (u128)1 << (a->w - 1);
      if (umaxOf(a) < half && umaxOf(b) < half)
        return mkBin(op == Op::Slt ? Op::Ult : Op::Ule, a, b);
      if (a->op == Op::SExt && b->op == Op::SExt && a->k[0]->w == b->k[0]->w)
        return mkBin(op, a->k[0], b->k[0]);
      auto narrow = [](Expr* x, Expr* k, Expr** out) {
        unsigned nw = x->k[0]->w;
        u128 low = k->c & maskOf(nw);
        if (((u128)sext128(low, nw) & maskOf(x->w)) != k->c) return false;
        *out = mkConst(low, nw);
        return true;
      };
      Expr* nk;
      if (a->op == Op::SExt && isC(b) && narrow(a, b, &nk))
        return mkBin(op, a->k[0], nk);
      if (b->op == Op::SExt && isC(a) && narrow(b, a, &nk))
        return mkBin(op, nk, b->k[0]);
      break;
    }
    default: break;
  }
  return raw(op, w, a, b);
}

Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (c->op == Op::Not) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a)) return a->c ? mkOr1(c, b) : mkAnd1(mkNot(c), b);
    if (isC(b)) return b->c ? mkOr1(mkNot(c), a) : mkAnd1(c, a);
  }
  if (a->op == Op::Ite && a->k[0] == c) a = a->k[1];
  if (b->op == Op::Ite && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  return raw(Op::Ite, a->w, c, a, b);
}

Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  if (isC(hi) && hi->c == 0) return mkZExt(lo, w);
  if (hi->op == Op::Extract && lo->op == Op::Extract && hi->k[0] == lo->k[0] &&
      hi->lo == lo->lo + lo->w)
    return mkExtract(hi->k[0], lo->lo, w);
  // hi is the lowest part of an inner concat: (x . y) . z with y,z adjacent
  if (hi->op == Op::Concat) {
    Expr* y = hi->k[1];
    if ((y->op == Op::Extract && lo->op == Op::Extract &&
         y->k[0] == lo->k[0] && y->lo == lo->lo + lo->w) ||
        (isC(y) && isC(lo)))
      return mkConcat(hi->k[0], mkConcat(y, lo));
  }
  // extract(x, 0..n) with zext above: zext(x) bytes
  if (hi->op == Op::Extract && hi->lo == lo->w && hi->k[0]->op == Op::ZExt &&
      hi->k[0]->k[0] == lo)
    return mkExtract(hi->k[0], 0, w);
  return raw(Op::Concat, w, hi, lo);
}

Expr* mkExtract(Expr* a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (isC(a)) return mkConst(a->c >> lo, w);
  switch (a->op) {
    case Op::Extract: return mkExtract(a->k[0], lo + a->lo, w);
    case Op::Concat: {
      unsigned lw = a->k[1]->w;
      if (lo >= lw) return mkExtract(a->k[0], lo - lw, w);
      if (lo + w <= lw) return mkExtract(a->k[1], lo, w);
      return mkConcat(mkExtract(a->k[0], 0, lo + w - lw),
                      mkExtract(a->k[1], lo, lw - lo));
    }
    case Op::ZExt: {
      unsigned kw = a->k[0]->w;
      if (lo >= kw) return mkConst(0, w);
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      return mkZExt(mkExtract(a->k[0], lo, kw - lo), w);
    }
    case Op::SExt: {
      unsigned kw = a->k[0]->w;
      if (lo + w <= kw) return mkExtract(a->k[0], lo, w);
      if (lo < kw) return mkSExt(mkExtract(a->k[0], lo, kw - lo), w);
      break;
    }
    case Op::Ite:
      if (isC(a->k[1]) || isC(a->k[2]))
        return mkIte(a->k[0], mkExtract(a->k[1], lo, w),
                     mkExtract(a->k[2], lo, w));
      break;
    case Op::And:
    case Op::Or:
    case Op::Xor:
      if (isC(a->k[1]) || w <= 8)
        return mkBin(a->op, mkExtract(a->k[0], lo, w),
                     mkExtract(a->k[1], lo, w));
      break;
    case Op::Not: return mkNot(mkExtract(a->k[0], lo, w));
    case Op::Add:
    case Op::Sub:
    case Op::Mul:
      if (lo == 0 && w <= 64 && a->w > 64)
        return mkBin(a->op, mkExtract(a->k[0], 0, w),
                     mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return raw(Op::Extract, w, a, nullptr, nullptr, lo);
}

Expr* mkZExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && (isC(a->k[1]) && isC(a->k[2])))
    return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return raw(Op::ZExt, w, a);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sext128(a->c, a->w), w);
  if (a->op == Op::SExt) return mkSExt(a->k[0], w);
  if (a->op == Op::ZExt) return mkZExt(a->k[0], w);
  if (a->op == Op::Ite && (isC(a->k[1]) && isC(a->k[2])))
    return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return raw(Op::SExt, w, a);
}

Expr* mkFp(Op op, unsigned w, uint8_t aux, Expr* a, Expr* b) {
  if (isC(a) && (!b || isC(b)))
    return mkConst(foldOp(op, w, aux, 0, a->w, a->c, b ? b->c : 0, 0, 0), w);
  return raw(op, w, a, b, nullptr, 0, aux);
}

static const char* names[] = {
    "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and",
    "or", "xor", "not", "shl", "lshr", "ashr", "=", "ult", "ule", "slt", "sle",
    "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv",
    "fneg", "fabs", "foeq", "folt", "fole", "funo", "ftof", "ftou", "ftos",
    "utof", "stof", "agg"};

std::string show(const Expr* e, int depth) {
  if (!e) return "null";
  if (e->op == Op::Const) {
    char b[64];
    snprintf(b, sizeof b, "%llu:%u", (unsigned long long)e->c, e->w);
    return b;
  }
  if (e->op == Op::Var) return "v" + std::to_string(e->lo);
  if (depth == 0) return "...";
  std::string s = std::string("(") + names[(int)e->op];
  if (e->op == Op::Extract) s += "[" + std::to_string(e->lo) + "]";
  s += ":" + std::to_string(e->w);
  for (auto* k : e->k)
    if (k) s += " " + show(k, depth - 1);
  return s + ")";
}
