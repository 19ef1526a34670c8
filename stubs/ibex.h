// Declaration-only stand-in for <ibex.h>: the surface that dreal uses, so that
// the sources can be parsed and type-resolved without IBEX.  Never linked.
#pragma once
#include <iostream>
#include <iterator>
#include <string>
#include <utility>
#include <vector>
namespace ibex {
class Vector { public: Vector(int n); double& operator[](int i); const double& operator[](int i) const; int size() const; };
class IntervalVector; class Interval;
class Interval {
 public:
  Interval(); Interval(double a, double b); Interval(double a); Interval(const Interval&);
  Interval& operator=(const Interval&); Interval& operator=(double);
  double lb() const; double ub() const; double mid() const; double rad() const; double diam() const; double mig() const; double mag() const;
  bool is_empty() const; bool is_degenerated() const; bool is_unbounded() const; bool is_bisectable() const;
  bool is_subset(const Interval&) const; bool is_superset(const Interval&) const; bool is_strict_subset(const Interval&) const;
  bool is_interior_subset(const Interval&) const; bool is_strict_interior_subset(const Interval&) const; bool is_strict_superset(const Interval&) const;
  bool is_disjoint(const Interval&) const; bool intersects(const Interval&) const; bool overlaps(const Interval&) const;
  bool contains(double d) const; bool interior_contains(double d) const;
  void set_empty(); bool operator==(const Interval&) const; bool operator!=(const Interval&) const;
  Interval operator-() const;
  Interval& operator+=(double); Interval& operator-=(double); Interval& operator*=(double); Interval& operator/=(double);
  Interval& operator+=(const Interval&); Interval& operator-=(const Interval&); Interval& operator*=(const Interval&); Interval& operator/=(const Interval&);
  Interval& operator&=(const Interval&); Interval& operator|=(const Interval&); Interval& inflate(double); Interval& inflate(double, double);
  std::pair<Interval, Interval> bisect(double ratio = 0.5) const;
  double rel_distance(const Interval&) const; double delta(const Interval&) const;
  bool is_relative_interior_subset(const Interval&) const; int complementary(Interval&, Interval&) const; int diff(const Interval&, Interval&, Interval&) const; Interval& div2_inter(const Interval&, const Interval&); Interval& div2_inter(const Interval&, const Interval&, Interval&);
  static const Interval PI; static const Interval TWO_PI; static const Interval HALF_PI; static const Interval EMPTY_SET;
  static const Interval ALL_REALS; static const Interval NEG_REALS; static const Interval POS_REALS; static const Interval ZERO; static const Interval ONE;
};
Interval operator&(const Interval&, const Interval&); Interval operator|(const Interval&, const Interval&);
Interval operator+(const Interval&, double); Interval operator+(double, const Interval&); Interval operator+(const Interval&, const Interval&);
Interval operator-(const Interval&, double); Interval operator-(double, const Interval&); Interval operator-(const Interval&, const Interval&);
Interval operator*(const Interval&, double); Interval operator*(double, const Interval&); Interval operator*(const Interval&, const Interval&);
Interval operator/(const Interval&, double); Interval operator/(double, const Interval&); Interval operator/(const Interval&, const Interval&);
Interval sqr(const Interval&); Interval sqrt(const Interval&); Interval pow(const Interval&, int); Interval pow(const Interval&, double); Interval pow(const Interval&, const Interval&);
Interval root(const Interval&, int); Interval exp(const Interval&); Interval log(const Interval&);
Interval cos(const Interval&); Interval sin(const Interval&); Interval tan(const Interval&);
Interval acos(const Interval&); Interval asin(const Interval&); Interval atan(const Interval&);
Interval atan2(const Interval&, const Interval&); Interval cosh(const Interval&); Interval sinh(const Interval&); Interval tanh(const Interval&);
Interval abs(const Interval&); Interval max(const Interval&, const Interval&); Interval min(const Interval&, const Interval&);
Interval sign(const Interval&); Interval floor(const Interval&); Interval ceil(const Interval&); Interval chi(const Interval&, const Interval&, const Interval&); Interval integer(const Interval&); Interval acosh(const Interval&); Interval asinh(const Interval&); Interval atanh(const Interval&); void div2(const Interval&, const Interval&, Interval&, Interval&); double distance(const Interval&, const Interval&); bool bwd_dummy();
std::ostream& operator<<(std::ostream&, const Interval&);

class IntervalVector {
 public:
  IntervalVector(); explicit IntervalVector(int n); IntervalVector(int n, const Interval&); IntervalVector(const IntervalVector&); IntervalVector(int n, double[][2]); explicit IntervalVector(const Interval&); IntervalVector(const Vector&);
  IntervalVector& operator=(const IntervalVector&); ~IntervalVector();
  Interval& operator[](int); const Interval& operator[](int) const;
  int size() const; void set_empty(); bool is_empty() const; void resize(int n); void clear();
  bool operator==(const IntervalVector&) const; bool operator!=(const IntervalVector&) const;
  IntervalVector& operator&=(const IntervalVector&); IntervalVector& operator|=(const IntervalVector&);
  IntervalVector subvector(int, int) const; void put(int, const IntervalVector&); void init(const Interval&);
  Vector lb() const; Vector ub() const; Vector mid() const; Vector rad() const; Vector diam() const;
  double max_diam() const; double min_diam() const; int extr_diam_index(bool) const; double volume() const;
  bool is_subset(const IntervalVector&) const; bool is_superset(const IntervalVector&) const; bool is_strict_subset(const IntervalVector&) const; bool is_strict_superset(const IntervalVector&) const;
  bool is_disjoint(const IntervalVector&) const; bool intersects(const IntervalVector&) const; bool contains(const Vector&) const; bool is_unbounded() const; bool is_bisectable() const; bool is_flat() const;
  std::pair<IntervalVector, IntervalVector> bisect(int i, double ratio = 0.5) const;
  static IntervalVector empty(int n);
};
IntervalVector operator&(const IntervalVector&, const IntervalVector&); IntervalVector operator|(const IntervalVector&, const IntervalVector&);
std::ostream& operator<<(std::ostream&, const IntervalVector&);

class BitSet {
 public:
  BitSet(); explicit BitSet(int n); BitSet(const int n, const int* a); BitSet(const BitSet&); BitSet& operator=(const BitSet&);
  static BitSet empty(int n); static BitSet all(int n); static BitSet singleton(int n, int e);
  class iterator { public: iterator(); int operator*() const; operator int() const; iterator& operator++(); iterator operator++(int); bool operator==(const iterator&) const; bool operator!=(const iterator&) const; bool operator<(const iterator&) const; int el; };
  using const_iterator = iterator;
  iterator begin() const; iterator end() const;
  void add(int); void remove(int); void clear(); void fill(int min, int max); void resize(int n); bool contain(int) const; bool empty() const; int size() const;
  int min() const; int max() const; int next(int) const; void compose(const BitSet&);
  bool operator[](unsigned) const; bool operator==(const BitSet&) const; bool operator!=(const BitSet&) const; bool included(const BitSet&) const; bool intersect(const BitSet&) const;
  BitSet& operator&=(const BitSet&); BitSet& operator|=(const BitSet&);
};
BitSet operator&(const BitSet&, const BitSet&); BitSet operator|(const BitSet&, const BitSet&);
std::ostream& operator<<(std::ostream&, const BitSet&);

template <class T> class Array {
 public:
  Array(); explicit Array(int n); Array(T* const*, int); Array(const Array&); explicit Array(T&); Array(T&, T&);
  ~Array(); T& operator[](int); const T& operator[](int) const; void set_ref(int i, T&); void add(T&); void resize(int); void clear(); int size() const; bool is_empty() const;
};
template <class T> class Array<const T> {
 public:
  Array(); explicit Array(int n); Array(const T* const*, int); Array(const Array&); Array(const Array<T>&); explicit Array(const T&); Array(const T&, const T&);
  ~Array(); const T& operator[](int) const; void set_ref(int i, const T&); void add(const T&); void resize(int); void clear(); int size() const; bool is_empty() const;
};
class Dim { public: static Dim scalar(); static Dim row_vec(int); static Dim col_vec(int); };
typedef enum { LT, LEQ, EQ, GEQ, GT } CmpOp;
class ExprCtr;
class ExprNode { public: virtual ~ExprNode(); const ExprCtr& operator=(const ExprNode&) const; const ExprCtr& operator=(const Interval&) const; Dim dim; int size; };
class ExprSymbol : public ExprNode { public: static const ExprSymbol& new_(const Dim& = Dim::scalar()); static const ExprSymbol& new_(const char*, const Dim& = Dim::scalar()); static const ExprSymbol& new_(const char*, const Dim&, const Interval&); const char* name; };
class ExprConstant : public ExprNode { public: static const ExprConstant& new_scalar(const Interval&); static const ExprConstant& new_(const Interval&); };
class ExprCtr { public: ExprCtr(const ExprNode&, CmpOp); const ExprNode& e; const CmpOp op; };
#define IBEX_BIN(NAME) const ExprNode& NAME(const ExprNode&, const ExprNode&); const ExprNode& NAME(const Interval&, const ExprNode&); const ExprNode& NAME(const ExprNode&, const Interval&);
IBEX_BIN(operator+) IBEX_BIN(operator-) IBEX_BIN(operator*) IBEX_BIN(operator/) IBEX_BIN(max) IBEX_BIN(min) IBEX_BIN(atan2) IBEX_BIN(pow)
const ExprNode& pow(const ExprNode&, int); const ExprNode& pow(const ExprNode&, double);
const ExprNode& operator-(const ExprNode&);
#define IBEX_UN(NAME) const ExprNode& NAME(const ExprNode&);
IBEX_UN(sign) IBEX_UN(abs) IBEX_UN(sqr) IBEX_UN(sqrt) IBEX_UN(exp) IBEX_UN(log) IBEX_UN(cos) IBEX_UN(sin) IBEX_UN(tan) IBEX_UN(acos) IBEX_UN(asin) IBEX_UN(atan) IBEX_UN(cosh) IBEX_UN(sinh) IBEX_UN(tanh) IBEX_UN(acosh) IBEX_UN(asinh) IBEX_UN(atanh) IBEX_UN(floor) IBEX_UN(ceil)
const ExprNode& chi(const ExprNode&, const ExprNode&, const ExprNode&);
#define IBEX_CMP(OP) const ExprCtr& operator OP(const ExprNode&, const ExprNode&); const ExprCtr& operator OP(const ExprNode&, const Interval&); const ExprCtr& operator OP(const Interval&, const ExprNode&);
IBEX_CMP(<) IBEX_CMP(<=) IBEX_CMP(==) IBEX_CMP(>=) IBEX_CMP(>)
std::ostream& operator<<(std::ostream&, const ExprNode&); std::ostream& operator<<(std::ostream&, const ExprCtr&);
void cleanup(const ExprNode&, bool delete_symbols);
template <class T> void cleanup(const Array<const T>&, bool delete_symbols);
class Function { public: Function(); Function(const Array<const ExprSymbol>&, const ExprNode&, const char* = nullptr); Function(const Function&); int nb_var() const; int image_dim() const; Interval eval(const IntervalVector&) const; bool backward(const Interval&, IntervalVector&) const; bool backward(const IntervalVector&, IntervalVector&) const; const ExprNode& expr() const; std::vector<int> used_vars; BitSet used() const; int nb_used_vars() const; };
std::ostream& operator<<(std::ostream&, const Function&);
class NumConstraint { public: NumConstraint(const Array<const ExprSymbol>&, const ExprCtr&, bool = true); NumConstraint(const Function&, CmpOp); NumConstraint(const NumConstraint&); ~NumConstraint(); Function& f; CmpOp op; Interval right_hand_side() const; };
std::ostream& operator<<(std::ostream&, const NumConstraint&);
class Ctc { public: Ctc(int); virtual ~Ctc(); virtual void contract(IntervalVector&) = 0; void contract(IntervalVector&, const BitSet&); int nb_var; BitSet* input; BitSet* output; };
class CtcFwdBwd : public Ctc { public: CtcFwdBwd(const NumConstraint&); CtcFwdBwd(Function&, CmpOp = EQ); void contract(IntervalVector&) override; Function& f; };
class SystemFactory;
class System { public: System(); explicit System(const SystemFactory&); virtual ~System(); int nb_var; int nb_ctr; Function f_ctrs; Array<NumConstraint> ctrs; IntervalVector box; };
class SystemFactory { public: SystemFactory(); ~SystemFactory(); void add_var(const ExprSymbol&); void add_var(const ExprSymbol&, const Interval&); void add_var(const Array<const ExprSymbol>&); void add_ctr(const ExprCtr&); void add_ctr(const NumConstraint&); void add_goal(const Function&); };
class Linearizer { public: virtual ~Linearizer(); };
class LinearizerXTaylor : public Linearizer { public: explicit LinearizerXTaylor(const System&); };
class LinearizerCombo : public Linearizer { public: typedef enum { ART, AFFINE2, TAYLOR, HANSEN, XNEWTON, COMPO } linear_mode; LinearizerCombo(const System&, linear_mode); };
class CtcPolytopeHull : public Ctc { public: explicit CtcPolytopeHull(Linearizer&, int max_iter = 100, int time_out = 100, double eps = 1e-9); void contract(IntervalVector&) override; };
}  // namespace ibex
