// Conformance driver for polymorphic values (C17).
#include <map>
#include <new>
#include <set>
#include "vh.hpp"
#include "proxsuite-nlp/third-party/polymorphic_cxx14.hpp"
using namespace vh;
static long fuse = 0, misuse = 0; static std::set<const void *> live; static std::map<void *, std::pair<int, size_t>> blocks; static long perAlloc[4];
struct Odd {}; // a thrown object need not be a std::exception
static void tick() { static int k = 0; if (fuse > 0 && --fuse == 0) { fuse = -1; switch (k++ % 3) { case 0: throw std::bad_alloc(); case 1: throw Odd(); default: throw std::runtime_error("injected"); } } }
struct Base {
  long val; std::unique_ptr<int> mem{new int(3)};
  explicit Base(long v) : val(v) { tick(); born(); } Base() : Base(7) {}
  Base(const Base &o) : val(o.val) { tick(); born(); } Base(Base &&o) : val(o.val) { tick(); o.val = -1; born(); }
  Base &operator=(const Base &) = default;
  virtual ~Base() { if (!live.erase(this)) misuse++; }
  virtual long tag() { return 1; } virtual long tag() const { return 2; } virtual long type() const { return 0; } virtual bool aligned() const { return true; }
private: Base &self() { return *this; } void born() { if (!live.insert(this).second) misuse++; }
public: Base &operator=(Base &&) = delete;
};
struct Mixin { long pad[3] = {1, 2, 3}; virtual ~Mixin() {} virtual long other() const { return pad[2]; } };
struct DerA : Base { long extra = 5; using Base::Base; long tag() override { return 11; } long tag() const override { return extra == 5 ? 12 : -1; } long type() const override { return 1; } };
struct DerB : Mixin, Base { using Base::Base; DerB() {} long tag() override { return 21; } long tag() const override { return pad[1] == 2 ? 22 : -1; } long type() const override { return other() == 3 ? 2 : -1; } };
struct DerC : Base { std::vector<int> q; DerC(std::initializer_list<int> l) : Base(l.size() ? *l.begin() : 0), q(l) {} explicit DerC(long v) : Base(v), q{(int)v} {} DerC() = default; long tag() override { return 31; } long tag() const override { return 32; } long type() const override { return 3; } };
struct alignas(64) DerD : Base { using Base::Base; char z[70] = {0}; long tag() override { return 41; } long tag() const override { return 42; } long type() const override { return 4; } bool aligned() const override { return reinterpret_cast<uintptr_t>(this) % 64 == 0; } };
template <class T, int Bits> struct Al {
  using value_type = T; int id; Al() : id(1) {} explicit Al(int i) : id(i) {} template <class U> Al(const Al<U, Bits> &o) : id(o.id) {} template <class U> struct rebind { using other = Al<U, Bits>; };
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (Bits & 1) != 0>; using propagate_on_container_move_assignment = std::integral_constant<bool, (Bits & 2) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (Bits & 4) != 0>; using is_always_equal = std::false_type;
  Al select_on_container_copy_construction() const { return (Bits & 8) ? Al(2) : *this; }
  T *allocate(size_t n) { tick(); T *p = std::allocator<T>().allocate(n); blocks[p] = {id, n}; perAlloc[id]++; return p; }
  void deallocate(T *p, size_t n) { auto it = blocks.find(p); if (it == blocks.end() || it->second != std::make_pair(id, n)) { misuse++; if (it == blocks.end()) return; } perAlloc[it->second.first]--; blocks.erase(it); std::allocator<T>().deallocate(p, n); }
  template <class U> bool operator==(const Al<U, Bits> &o) const { return id == o.id; } template <class U> bool operator!=(const Al<U, Bits> &o) const { return id != o.id; }
};
struct Machine { virtual ~Machine() {} virtual J step(const std::string &, Reader &) = 0; };
template <class A> static int idOf(const A &a) { return a.id; }
static int idOf(const std::allocator<Base> &) { return 0; }
template <class A> struct Make { static A go(long i) { return A((int)i); } };
template <> struct Make<std::allocator<Base>> { static std::allocator<Base> go(long) { return {}; } };
template <class A, bool Swap> struct M : Machine {
  using P = xyz::polymorphic<Base, A>; std::map<std::string, std::unique_ptr<P>> s;
  static_assert(std::is_same<decltype(*std::declval<const P &>()), const Base &>::value, "const access");
  static_assert(std::is_same<decltype(std::declval<P &>().operator->()), Base *>::value && std::is_same<decltype(std::declval<const P &>().operator->()), const Base *>::value, "access");
  template <class U> static P *mk(long how, long v, long a) {
    switch (how) { case 0: return new P(xyz::in_place_type_t<U>{}, v); case 1: { const U u(v); return new P(u); } case 2: return new P(U(v)); case 3: return new P(std::allocator_arg, Make<A>::go(a), xyz::in_place_type_t<U>{}, v);
      case 4: return new P(std::allocator_arg, Make<A>::go(a), U(v)); case 6: return new P(xyz::in_place_type_t<DerC>{}, {(int)v, 2, 3}); default: return new P(); } }
  static P *mkT(long how, long t, long v, long a) { switch (t) { case 0: return mk<Base>(how, v, a); case 1: return mk<DerA>(how, v, a); case 2: return mk<DerB>(how, v, a); case 3: return mk<DerC>(how, v, a); default: return mk<DerD>(how, v, a); } }
  static void assign(P &p, long t, long v) { switch (t) { case 0: p = Base(v); break; case 1: p = DerA(v); break; case 2: p = DerB(v); break; case 3: p = DerC(v); break; default: p = DerD(v); } }
  static void assignOwn(P &p) { switch (p->type()) { case 0: p = static_cast<const Base &>(*p); break; case 1: p = static_cast<const DerA &>(*p); break; case 2: p = static_cast<const DerB &>(*p); break; case 3: p = static_cast<const DerC &>(*p); break; default: p = static_cast<const DerD &>(*p); } }
  J view() { std::vector<J> r; for (const char *n : {"a", "b", "c", "d"}) { auto it = s.find(n); if (it == s.end() || !it->second) { r.push_back(J::arr({})); continue; } P &p = *it->second; const P &c = p; int al = idOf(p.get_allocator());
      if (p.valueless_after_move()) { r.push_back(J::arr({jn(al)})); continue; }
      bool bad = p->tag() != (*p).tag() || c->tag() != (*c).tag(); r.push_back(J::arr({jn((*c).type()), jn(c->val), jn(al), jn(bad ? -1 : p->tag()), jn(c->tag()), jb(c->aligned())})); } return J::arr(r); }
  const void *at(const std::string &n) { auto &p = s[n]; return p && !p->valueless_after_move() ? &**p : nullptr; }
  bool has(const std::string &n) { return s.count(n) && s[n]; }
  J step(const std::string &op, Reader &r) override {
    std::string d = r.w(); bool threw = false, same = false; J skip = J::arr({js("skip")}); fuse = 0;
    auto run = [&](long f, auto &&g) { fuse = f; try { g(); } catch (const std::bad_alloc &) { threw = true; } catch (const Odd &) { threw = true; } catch (const std::runtime_error &) { threw = true; } fuse = 0; };
    auto put = [&](P *p) { std::unique_ptr<P> q(p); s[d] = std::move(q); };
    if (op == "mk") { long h = r.i(), t = r.i(), v = r.i(), a = r.i(), f = r.i(); run(f, [&] { put(mkT(h, t, v, a)); }); }
    else if (op == "cc" || op == "mc") { auto o = r.w(); long f = r.i(); if (!has(o)) return skip; auto w = at(o); run(f, [&] { put(op == "cc" ? new P(static_cast<const P &>(*s[o])) : new P(std::move(*s[o]))); }); same = !threw && op == "mc" && w && at(d) == w; }
    else if (op == "cca" || op == "mca") { auto o = r.w(); long a = r.i(), f = r.i(); if (!has(o)) return skip; auto w = at(o); run(f, [&] { put(op == "cca" ? new P(std::allocator_arg, Make<A>::go(a), static_cast<const P &>(*s[o])) : new P(std::allocator_arg, Make<A>::go(a), std::move(*s[o]))); }); same = !threw && op == "mca" && w && at(d) == w; }
    else if (op == "ca" || op == "ma") { auto o = r.w(); long f = r.i(); if (!has(o) || !has(d)) return skip; auto w = at(o); run(f, [&] { if (op == "ca") *s[d] = static_cast<const P &>(*s[o]); else *s[d] = std::move(*s[o]); }); same = !threw && op == "ma" && d != o && w && at(d) == w; }
    else if (op == "as") { long t = r.i(), v = r.i(), f = r.i(); if (!has(d)) return skip; run(f, [&] { assign(*s[d], t, v); }); }
    else if (op == "asown") { long f = r.i(); if (!has(d) || !at(d)) return skip; run(f, [&] { assignOwn(*s[d]); }); }
    else if (op == "sw") { auto o = r.w(); long f = r.i(); if (!has(o) || !has(d) || !(Swap || s[d]->get_allocator() == s[o]->get_allocator())) return skip; static int k = 0; run(f, [&] { if (k++ % 2) swap(*s[d], *s[o]); else s[d]->swap(*s[o]); }); }
    else if (op == "set") { long v = r.i(), f = r.i(); if (!has(d) || !at(d)) return skip; run(f, [&] { if (v % 2) (*s[d])->val = v; else (**s[d]).val = v; }); }
    else if (op == "del") { long f = r.i(); if (!has(d)) return skip; run(f, [&] { s.erase(d); }); }
    else { fprintf(stderr, "op %s\n", op.c_str()); exit(3); }
    J vw = view();
    return J::arr({jb(threw), jb(same), jn((long)live.size()), J::arr({jn(perAlloc[1]), jn(perAlloc[2]), jn(perAlloc[3])}), jn(misuse), vw});
  }
};
template <int B> static Machine *mach() { return new M<Al<Base, B>, (B & 4) != 0>(); }
static Machine *machine(long c) {
  switch (c) { case 0: return new M<std::allocator<Base>, false>(); case 1: return mach<0>(); case 2: return mach<1>(); case 3: return mach<2>(); case 4: return mach<3>(); case 5: return mach<4>(); case 6: return mach<5>(); case 7: return mach<6>(); case 8: return mach<7>();
    case 9: return mach<8>(); case 16: return mach<15>(); default: exit(3); } }
int main(int argc, char **argv) {
  std::unique_ptr<Machine> m;
  return loop(argc, argv, [&](Reader &r) -> J {
    std::string op = r.w();
    if (op == "reset") { long c = r.i(); fuse = 0; m.reset(); if (!live.empty() || !blocks.empty()) misuse += 100; live.clear(); m.reset(machine(c)); J q = J::arr({jn(misuse)}); return q; }
    return m->step(op, r);
  });
}
