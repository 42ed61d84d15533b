// term-level operations: integers (bit-vectors, or mathematical Int with tracked interval),
// floating point (IEEE theory, or exact reals), transcendental atoms.
#pragma once
#include "sx.h"
#include <functional>

struct PathCut { std::string why; };      // path leaves the encodable fragment
extern std::vector<E> pendingDomain;      // real-mode domain side conditions (x/0, sqrt(<0), |acos arg|>1)

extern std::vector<E> pendingDefs;          // definitions of fresh quotient/remainder variables
bool linTerm(E const& e, i128& c, i128& k, E& t);
Val mkIntVal(E e, unsigned w, i128 lo, i128 hi);
void edivPub(E const& x, i128 d, i128 lo, i128 hi, E& q, E& r);
extern unsigned int2bvCount;
void tInit();
E simp(E const& e);
E simpSom(E const& e);
bool isNum(E const& e);
std::string str(E const& e);
E mkFreshReal(const char* pfx);
E mkConst(std::string const& name, Z3_sort s);
E eAnd(std::vector<E> const& v);
E eNot(E const& a);
E eEq(E const& a, E const& b);
E eIte(E const& c, E const& a, E const& b);
E numI(i128 v);
E numR(std::string const& s);
E bvNum(uint64_t v, unsigned w);

E bvOf(Val const& v);      // BV expr (w>1) or Bool (w==1)
E boolOf(Val const& v);    // w==1
E intOf(Val const& v);     // Int expr of an integer value read as signed
E realOf(Val const& v);
E fpOf(Val const& v);
Val fromBV(E e, unsigned w);   // simplify, concretise
Val fromBool(E e);

enum class IOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor };
Val iop(IOp op, Val const& a, Val const& b);
bool ovMath(IOp op, bool sg, Val const& a, Val const& b, Val& out, E& ov);
enum class IPred { EQ, NE, UGT, UGE, ULT, ULE, SGT, SGE, SLT, SLE };
Val icmp(IPred p, Val const& a, Val const& b);
Val zext(Val const& a, unsigned w);
Val sext(Val const& a, unsigned w);
Val trunc(Val const& a, unsigned w);
Val select(Val const& c, Val const& a, Val const& b, bool& ok);

enum class FOp { Add, Sub, Mul, Div, Rem };
Val fop(FOp op, Val const& a, Val const& b);
Val fneg(Val const& a);
Val fcmp(unsigned pred, Val const& a, Val const& b);  // LLVM FCmp predicate numbering
Val intToFp(Val const& a, bool sgn, unsigned fw);
Val fpToInt(Val const& a, bool sgn, unsigned w);
Val fpCast(Val const& a, unsigned fw);
Val nearReal(Val const& a, const char* rel); extern bool roundQuotients;
Val bitsToFp(Val const& a, unsigned fw);
Val fpToBits(Val const& a);
bool mathFn(std::string const& name, std::vector<Val> const& args, Val& out); // true if known

// definitional constraints of the fresh atoms reachable from e
void collectDefs(std::vector<E> const& roots, std::vector<E>& defs);
void collectAngleAxioms(std::vector<E> const& roots, std::vector<E>& ax);
// angle keys: (term, sin, cos)
struct AngKey { E t, s, c; };
std::vector<AngKey> const& angleKeys();
E unfoldHidden(E const& e);
E unfold(E const& e);
bool haveLets();
void regInt(E const& e, i128 lo, i128 hi);
void regFirm(E const& e, i128 lo, i128 hi);
extern std::unordered_map<unsigned, E>* curAlias;
void learnEqual(std::unordered_map<unsigned, E>& al, E const& x, E const& y);
bool usesReal();
extern const char* PI_NUM; extern const char* PI_DEN;
std::string snapRational(long double d, unsigned w);
