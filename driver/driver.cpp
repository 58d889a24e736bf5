// Conformance driver: replays operation sequences (one JSON case per line on
// stdin) against the real libami and records, per operation, what it returned.
// It knows nothing about what the right answers are: the TLA+ specification
// decides that from the recorded trace.
//
//   driver [seconds-per-case]  < cases.ndjson > trace.ndjson
//
// Each case runs in a forked child, so that a crash or a hang in the library
// becomes an event of the trace ("op":"CRASH") instead of ending the run.
#include "ami_base.hpp"
#include "json.hpp"
#include <atomic>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <fcntl.h>
#include <new>
#include <poll.h>
#include <csignal>
#include <sys/wait.h>
#include <thread>
#include <time.h>
#include <unistd.h>

typedef std::complex<double> cplx;
using js::Value;
static const double LN2 = 0.69314718055994530941723212145818;
static const double PI_ = 3.14159265358979323846264338327950;

struct Spr { AmiBase::R_t R; AmiBase::P_t P; AmiBase::S_t S; };
struct Fac { AmiBase::g_prod_t U; AmiBase::R_ref_t Ref; AmiBase::ref_eval_t Ev; };

// ---------------------------------------------------------------- writing
struct Out {
  std::string s;
  void raw(const std::string &t) { s += t; }
  void num(long n) { s += std::to_string(n); }
  void ints(const std::vector<int> &v) {
    s += '[';
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; num(v[i]); }
    s += ']';
  }
  void dbl(double d) {
    char b[64];
    if (std::isnan(d)) s += "\"nan\"";
    else if (std::isinf(d)) s += d > 0 ? "\"inf\"" : "\"-inf\"";
    else { snprintf(b, sizeof b, "\"%.17e\"", d); s += b; }
  }
  void cx(cplx c) { s += '['; dbl(c.real()); s += ','; dbl(c.imag()); s += ']'; }
  // a double that should be a small rational, as [numerator, denominator], or [numerator, factor of the
  // denominator, other factor] when the denominator is large; [0,0] when it is none
  void rat(double d) {
    double fact = 1; // (all denominators are divisors of these factorials)
    for (int k = 1; k <= 15; fact *= ++k) {
      if (k == 3) continue;
      double v = d * fact, r = std::floor(v + 0.5);
      if (std::fabs(v - r) <= 1e-12 * std::fabs(v) && std::fabs(r) < 1e6) {
        s += '['; num((long)r); s += ','; num(k <= 12 ? (long)fact : 479001600L);
        if (k > 12) { s += ','; num((long)(fact / 479001600 + 0.5)); }
        s += ']';
        return;
      }
    }
    s += "[0,0]";
  }
  void g(const AmiBase::g_struct &g) {
    s += "{\"a\":"; ints(g.alpha_); s += ",\"e\":"; ints(g.eps_);
    s += ",\"s\":"; num(g.species_); s += '}';
  }
  void pole(const AmiBase::pole_struct &p) {
    s += "{\"a\":"; ints(p.alpha_); s += ",\"e\":"; ints(p.eps_);
    s += ",\"i\":"; num(p.index_); s += ",\"m\":"; num(p.multiplicity_);
    s += ",\"d\":"; num(p.der_); s += ",\"g\":"; ints(p.which_g_); s += '}';
  }
  template <class T, class F> void list(const std::vector<T> &v, F f) {
    s += '[';
    for (size_t i = 0; i < v.size(); i++) { if (i) s += ','; f(v[i]); }
    s += ']';
  }
  void gprod(const AmiBase::g_prod_t &v) { list(v, [&](const AmiBase::g_struct &x) { g(x); }); }
  void poles(const AmiBase::pole_array_t &v) { list(v, [&](const AmiBase::pole_struct &x) { pole(x); }); }
  void ri(const AmiBase::Ri_t &v) { list(v, [&](const AmiBase::g_prod_t &x) { gprod(x); }); }
  void pi(const AmiBase::Pi_t &v) { list(v, [&](const AmiBase::pole_array_t &x) { poles(x); }); }
  void signs(const AmiBase::sign_t &v) { list(v, [&](double x) { rat(x); }); }
  void si(const AmiBase::Si_t &v) { list(v, [&](const AmiBase::sign_t &x) { signs(x); }); }
  void spr(const Spr &a) {
    s += "{\"R\":"; list(a.R, [&](const AmiBase::Ri_t &x) { ri(x); });
    s += ",\"P\":"; list(a.P, [&](const AmiBase::Pi_t &x) { pi(x); });
    s += ",\"S\":"; list(a.S, [&](const AmiBase::Si_t &x) { si(x); });
    s += '}';
  }
  void term(const AmiBase::term &t) {
    s += "{\"sg\":"; rat(t.sign); s += ",\"p\":"; poles(t.p_list); s += ",\"g\":"; gprod(t.g_list); s += '}';
  }
  void terms(const AmiBase::terms &v) { list(v, [&](const AmiBase::term &x) { term(x); }); }
  void refs(const AmiBase::R_ref_t &v) {
    list(v, [&](const AmiBase::ref_v_t &x) {
      list(x, [&](const AmiBase::ref_t &r) { s += '['; num(r.first); s += ','; num(r.second); s += ']'; });
    });
  }
  void fac(const Fac &f) {
    s += "{\"U\":"; gprod(f.U); s += ",\"Ref\":"; refs(f.Ref); s += ",\"Ev\":"; refs(f.Ev); s += '}';
  }
};

// ---------------------------------------------------------------- reading
static std::vector<int> ints(const Value &v) {
  std::vector<int> r;
  for (auto &x : v.arr) r.push_back((int)x.integer());
  return r;
}
static AmiBase::g_struct read_g(const Value &v) {
  AmiBase::g_struct g(ints(v["e"]), ints(v["a"]));
  if (v.has("s")) g.species_ = (int)v["s"].integer();
  return g;
}
static AmiBase::g_prod_t read_gprod(const Value &v) {
  AmiBase::g_prod_t r;
  for (auto &x : v.arr) r.push_back(read_g(x));
  return r;
}
static AmiBase::pole_struct read_pole(const Value &v) {
  AmiBase::pole_struct p(ints(v["e"]), ints(v["a"]));
  p.index_ = v.has("i") ? (int)v["i"].integer() : 0;
  if (v.has("m")) p.multiplicity_ = (int)v["m"].integer();
  if (v.has("d")) p.der_ = (int)v["d"].integer();
  if (v.has("g")) p.which_g_ = ints(v["g"]);
  return p;
}
static AmiBase::terms read_terms(const Value &v) {
  AmiBase::terms r;
  for (auto &t : v.arr) {
    AmiBase::term x;
    x.sign = (double)t["sg"].arr[0].integer() / (double)t["sg"].arr[1].integer();
    for (auto &p : t["p"].arr) x.p_list.push_back(read_pole(p));
    x.g_list = read_gprod(t["g"]);
    r.push_back(x);
  }
  return r;
}
static double ratio(const Value &v) { return (double)v.arr[0].integer() / (double)v.arr[1].integer(); }

// A point: energies e[i]/den (+ quarter-turns q[i]: imaginary part q*pi/(2*beta)),
// frequencies (wr[i] + i*w[i])/wden, beta = kk*den*ln 2, prefactor pf[0]/pf[1].
// Or: beta = beta[0]/beta[1], imaginary parts ei[i]/den of the energies, and a factor 2^ex in den.
static double read_beta(const Value &v) {
  return v.has("beta") ? ratio(v["beta"]) : (double)v["kk"].integer() * (double)v["den"].integer() * LN2;
}
// an object constructed in memory that was used before
template <class T, class F> static T dirty(F make) {
  alignas(T) unsigned char buf[sizeof(T)];
  memset(buf, 0x5a, sizeof buf);
  T *q = make((void *)buf);
  T r = *q;
  q->~T();
  return r;
}
static AmiBase::ami_vars read_vars(const Value &v) {
  AmiBase::energy_t E;
  AmiBase::frequency_t X;
  double den = ldexp((double)v["den"].integer(), v.has("ex") ? (int)v["ex"].integer() : 0), wden = v["wden"].integer();
  double beta = read_beta(v);
  auto e = ints(v["e"]), w = ints(v["w"]);
  std::vector<int> q, wr, ei;
  if (v.has("ei")) ei = ints(v["ei"]);
  if (v.has("q")) q = ints(v["q"]);
  if (v.has("wr")) wr = ints(v["wr"]);
  for (size_t i = 0; i < e.size(); i++)
    E.push_back(cplx(e[i] / den, !ei.empty() ? ei[i] / den : q.empty() || q[i] == 0 ? 0.0 : q[i] * PI_ / (2.0 * beta)));
  for (size_t i = 0; i < w.size(); i++)
    X.push_back(cplx(wr.empty() ? 0.0 : wr[i] / wden, w[i] / wden));
  // any of the constructors; a prefactor of 1 is the default
  double pf = v.has("pf") ? ratio(v["pf"]) : 1.0;
  long ctor = v.has("ctor") ? v["ctor"].integer() : 0;
  if (ctor == 1) return AmiBase::ami_vars(E, X, beta, pf);
  AmiBase::ami_vars ext = dirty<AmiBase::ami_vars>([&](void *p) { return ctor == 0 ? new (p) AmiBase::ami_vars(E, X, beta) : ctor == 2 ? new (p) AmiBase::ami_vars(E, X) : new (p) AmiBase::ami_vars; });
  ext.BETA_ = beta;
  if (ctor == 3) { ext.energy_ = E; ext.frequency_ = X; }
  if (pf != 1.0) ext.prefactor = pf;
  return ext;
}

static AmiBase::graph_type read_type(const Value &op) {
  static const std::map<std::string, AmiBase::graph_type> names = {
      {"Sigma", AmiBase::Sigma}, {"Pi_phuu", AmiBase::Pi_phuu}, {"Pi_phud", AmiBase::Pi_phud},
      {"Hartree", AmiBase::Hartree}, {"Bare", AmiBase::Bare}, {"Greens", AmiBase::Greens},
      {"density", AmiBase::density}, {"doubleocc", AmiBase::doubleocc}, {"Pi_ppuu", AmiBase::Pi_ppuu},
      {"Pi_ppud", AmiBase::Pi_ppud}, {"DOS", AmiBase::DOS}, {"ENERGY", AmiBase::ENERGY}, {"FORCE", AmiBase::FORCE}};
  if (!op.has("type")) return AmiBase::Sigma;
  return names.at(op["type"].str);
}
static AmiBase::ami_parms read_parms(const Value &op) {
  int n = (int)op["n"].integer();
  double ereg = op.has("ereg") ? ratio(op["ereg"]) : 0.0;
  typedef AmiBase::ami_parms P;
  switch (op.has("ctor") ? op["ctor"].integer() : 0) {
  case 1: { P r = dirty<P>([&](void *p) { return new (p) P; }); r.N_INT_ = n; return r; }
  case 2: return dirty<P>([&](void *p) { return new (p) P(n, ereg); });
  case 3: return dirty<P>([&](void *p) { return new (p) P(n, ereg, read_type(op), AmiBase::coulomb, AmiBase::hf); });
  default: return dirty<P>([&](void *p) { return new (p) P(n, ereg, read_type(op)); });
  }
}

// ---------------------------------------------------------------- one case
struct Session {
  AmiBase ami;
  std::map<std::string, Spr> spr;
  std::map<std::string, AmiBase::terms> terms;
  std::map<std::string, Fac> fac;

  void evaluated(Out &o, cplx v) {
    o.raw("\"v\":"); o.cx(v);
    o.raw(",\"ovf\":"); o.num(ami.overflow_detected ? 1 : 0);
  }
  // the arguments of an evaluation, to see whether it changed them
  template <class T> static std::string shown(const T &t, void (Out::*f)(const T &)) { Out o; (o.*f)(t); return o.s; }
  static std::string shown(const AmiBase::ami_parms &p, const AmiBase::ami_vars &x) {
    Out o;
    o.num(p.N_INT_); o.raw(" "); o.num(p.N_EXT_); o.raw(" "); o.dbl(p.E_REG_); o.dbl(p.tol_); o.num(p.TYPE_);
    for (auto &e : x.energy_) o.cx(e);
    o.raw(" ");
    for (auto &e : x.frequency_) o.cx(e);
    o.raw(" "); o.dbl(x.BETA_); o.dbl(x.prefactor);
    return o.s;
  }
  void mutated(Out &o, const std::string &a, const std::string &b) {
    o.raw(",\"mut\":"); o.num(a == b ? 0 : 1);
  }
  bool out(const Value &op) { return !op.has("out") || op["out"].truth(); }

  void run(const Value &op, Out &o) {
    const std::string &k = op["op"].str;
    if (k == "flags") {
      if (op.has("drop_bosonic_diverge")) ami.drop_bosonic_diverge = op["drop_bosonic_diverge"].truth();
      if (op.has("drop_der")) ami.drop_der = op["drop_der"].truth();
      if (op.has("drop_matsubara_poles")) ami.drop_matsubara_poles = op["drop_matsubara_poles"].truth();
      if (op.has("bosonic_external")) ami.bosonic_external = op["bosonic_external"].truth();
      if (op.has("verbose")) ami.verbose = op["verbose"].truth();
      if (op.has("cutoff")) ami.precision_cutoff = ratio(op["cutoff"]);
      o.raw("\"ok\":1");
    } else if (k == "object") { // another object goes on with the containers
      AmiBase::ami_parms p(1, 0.0);
      ami = dirty<AmiBase>([&](void *q) { return op["ctor"].integer() ? new (q) AmiBase(p) : new (q) AmiBase; });
      o.raw("\"ok\":1");
    } else if (k == "spr") {
      AmiBase::ami_parms p = read_parms(op);
      Spr &d = spr[op["dst"].str];
      ami.construct(p, read_gprod(op["R0"]), d.R, d.P, d.S);
      o.raw("\"cnt\":"); o.num(d.R.empty() ? -1 : (long)d.R.back().size());
      if (out(op)) { o.raw(",\"res\":"); o.spr(d); }
    } else if (k == "terms") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::terms &d = terms[op["dst"].str];
      if (op.has("byint")) ami.construct((int)op["n"].integer(), read_gprod(op["R0"]), d);
      else ami.construct(p, read_gprod(op["R0"]), d);
      o.raw("\"cnt\":"); o.num((long)d.size());
      if (out(op)) { o.raw(",\"res\":"); o.terms(d); }
    } else if (k == "set_terms") { // a list of terms given by the caller
      terms[op["dst"].str] = read_terms(op["terms"]);
      o.raw("\"ok\":1");
    } else if (k == "cat_terms") { // the union of several constructions
      AmiBase::terms r;
      for (auto &s : op["srcs"].arr) { auto &t = terms.at(s.str); r.insert(r.end(), t.begin(), t.end()); }
      terms[op["dst"].str] = r;
      o.raw("\"cnt\":"); o.num((long)r.size());
    } else if (k == "fact_spr") {
      Fac &f = fac[op["dst"].str];
      ami.factorize_Rn(spr.at(op["src"].str).R.back(), f.U, f.Ref, f.Ev);
      if (out(op)) { o.raw("\"res\":"); o.fac(f); } else o.raw("\"ok\":1");
    } else if (k == "fact_terms") {
      Fac &f = fac[op["dst"].str];
      ami.factorize_terms(terms.at(op["src"].str), f.U, f.Ref, f.Ev);
      if (out(op)) { o.raw("\"res\":"); o.fac(f); } else o.raw("\"ok\":1");
    } else if (k == "deriv_opt") {
      Fac &f = fac.at(op["dst"].str);
      ami.derivative_opt(f.U, f.Ref, f.Ev);
      if (out(op)) { o.raw("\"res\":"); o.fac(f); } else o.raw("\"ok\":1");
    } else if (k == "eval_spr" || k == "eval_otf" || k == "eval_spr_opt") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      Spr &s = spr.at(op["src"].str);
      Fac none, *f = &none;
      if (k == "eval_spr_opt") f = &fac[op["fac"].str];
      std::string before = shown(p, x) + shown(s, &Out::spr) + shown(*f, &Out::fac);
      cplx v;
      if (k == "eval_spr") v = ami.evaluate(p, s.R, s.P, s.S, x);
      else if (k == "eval_otf") v = ami.evaluate_otf(p, s.R, s.P, s.S, x);
      else v = ami.evaluate(p, s.R, s.P, s.S, x, f->U, f->Ref, f->Ev);
      evaluated(o, v);
      mutated(o, before, shown(p, x) + shown(s, &Out::spr) + shown(*f, &Out::fac));
    } else if (k == "eval_terms" || k == "eval_terms_opt") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      AmiBase::terms &t = terms.at(op["src"].str);
      Fac none, *f = &none;
      if (k == "eval_terms_opt") f = &fac[op["fac"].str];
      std::string before = shown(p, x) + shown(t, &Out::terms) + shown(*f, &Out::fac);
      cplx v;
      if (k == "eval_terms") v = ami.evaluate(p, t, x);
      else v = ami.evaluate(p, t, x, f->U, f->Ref, f->Ev);
      evaluated(o, v);
      mutated(o, before, shown(p, x) + shown(t, &Out::terms) + shown(*f, &Out::fac));
    } else if (k == "dump_spr") {
      o.raw("\"res\":"); o.spr(spr.at(op["src"].str));
    } else if (k == "dump_terms") {
      o.raw("\"res\":"); o.terms(terms.at(op["src"].str));
    } else if (k == "dump_fac") {
      o.raw("\"res\":"); o.fac(fac.at(op["src"].str));
    } else if (k == "fermi_bose") {
      double den = op["den"].integer(), beta = read_beta(op);
      cplx E((double)op["e"].integer() / den, op.has("ei") ? op["ei"].integer() / den : op.has("q") ? op["q"].integer() * PI_ / (2.0 * beta) : 0.0);
      ami.overflow_detected = false;
      cplx v = ami.fermi_bose((int)op["m"].integer(), (double)op["sigma"].integer(), beta, E);
      evaluated(o, v);
    } else if (k == "fermi_pole") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      ami.overflow_detected = false;
      evaluated(o, ami.fermi_pole(p, read_pole(op["pole"]), x));
    } else {
      low(k, op, o);
    }
  }

  // The step-by-step interface: every operation is left out on its own if it does not compile (-DNO_...).
  void low(const std::string &k, const Value &op, Out &o) {
#ifndef NO_find_poles
    if (k == "find_poles") {
      AmiBase::g_prod_t R = read_gprod(op["R0"]);
      AmiBase::pole_array_t r = ami.find_poles((int)op["i"].integer(), R);
      o.raw("\"res\":"); o.poles(r);
      return;
    }
#endif
#ifndef NO_step_terms
    if (k == "step_terms") {
      AmiBase::terms dst = terms[op["dst"].str]; // whatever was there before
      ami.integrate_step((int)op["i"].integer(), terms.at(op["src"].str), dst);
      terms[op["dst"].str] = dst;
      o.raw("\"cnt\":"); o.num((long)dst.size());
      if (out(op)) { o.raw(",\"res\":"); o.terms(dst); }
      return;
    }
#endif
#ifndef NO_start_terms
    if (k == "start_terms") {
      AmiBase::terms t;
      AmiBase::pole_array_t none;
      t.push_back(AmiBase::term(1.0, none, read_gprod(op["R0"])));
      terms[op["dst"].str] = t;
      o.raw("\"ok\":1");
      return;
    }
#endif
#ifndef NO_start_spr
    if (k == "start_spr") {
      Spr s;
      AmiBase::g_prod_array_t r0;
      r0.push_back(read_gprod(op["R0"]));
      s.R.push_back(r0);
      spr[op["dst"].str] = s;
      o.raw("\"ok\":1");
      return;
    }
#endif
#ifndef NO_step_spr
    if (k == "step_spr") {
      Spr &s = spr.at(op["src"].str);
      ami.update_gprod_general((int)op["i"].integer(), (int)s.R.size() - 1, s.R, s.P, s.S);
      o.raw("\"cnt\":"); o.num((long)s.R.back().size());
      if (out(op)) { o.raw(",\"res\":"); o.spr(s); }
      return;
    }
#endif
#ifndef NO_step_simple
    if (k == "step_simple") { // when all poles are simple; frequencies in order
      Spr &s = spr.at(op["src"].str);
      ami.update_gprod_simple((int)op["i"].integer(), s.R, s.P, s.S);
      o.raw("\"cnt\":"); o.num((long)s.R.back().size());
      if (out(op)) { o.raw(",\"res\":"); o.spr(s); }
      return;
    }
#endif
#ifndef NO_number
    if (k == "number") { // combinatorial coefficients
      int n = (int)op["n"].integer(), j = (int)op["k"].integer();
      const std::string &f = op["f"].str;
      o.raw("\"v\":"); o.dbl(f == "frk" ? ami.frk(n, j) : f == "binomial" ? (double)ami.binomialCoeff(n, j) : (double)ami.factorial(n));
      return;
    }
#endif
#ifndef NO_residue_terms
    if (k == "residue_terms") { // every pole of the product, through the term interface
      AmiBase::g_prod_t R = read_gprod(op["R0"]);
      AmiBase::pole_array_t none, ps = ami.find_poles((int)op["i"].integer(), R);
      AmiBase::terms all, r; // (r still holds the terms of the pole before)
      for (auto &p : ps) {
        AmiBase::term t(1.0, none, R);
        ami.terms_general_residue(t, p, r);
        all.insert(all.end(), r.begin(), r.end());
      }
      o.raw("\"res\":"); o.terms(all);
      return;
    }
#endif
#ifndef NO_residue_spr
    if (k == "residue_spr") { // the same through the array interface
      AmiBase::g_prod_t R = read_gprod(op["R0"]);
      AmiBase::pole_array_t ps = ami.find_poles((int)op["i"].integer(), R);
      AmiBase::terms all;
      AmiBase::Ri_t ri; AmiBase::pole_array_t pp; AmiBase::sign_t ss;
      for (auto &p : ps) {
        ami.evaluate_general_residue(R, p, ri, pp, ss);
        for (size_t j = 0; j < ri.size(); j++)
          all.push_back(AmiBase::term(ss.at(j), AmiBase::pole_array_t(1, pp.at(j)), ri[j]));
      }
      o.raw("\"res\":"); o.terms(all);
      return;
    }
#endif
#ifndef NO_deriv_terms
    if (k == "deriv_terms") { // d/dz of a term
      AmiBase::terms r, in = read_terms(op["terms"]);
      AmiBase::pole_struct p = read_pole(op["pole"]);
      ami.take_term_derivative(in.at(0), p, r);
      o.raw("\"res\":"); o.terms(r);
      return;
    }
#endif
#ifndef NO_deriv_spr
    if (k == "deriv_spr") {
      AmiBase::g_prod_t R = read_gprod(op["R0"]);
      AmiBase::Ri_t ri; AmiBase::pole_array_t pp; AmiBase::sign_t ss;
      ami.take_derivative_gprod(R, read_pole(op["pole"]), ratio(op["sg"]), ri, pp, ss);
      AmiBase::terms all;
      for (size_t j = 0; j < ri.size(); j++)
        all.push_back(AmiBase::term(ss.at(j), AmiBase::pole_array_t(1, pp.at(j)), ri[j]));
      o.raw("\"res\":"); o.terms(all);
      return;
    }
#endif
#ifndef NO_sub_g
    if (k == "sub_g") {
      o.raw("\"res\":"); o.g(ami.update_G_pole(read_g(op["g"]), read_pole(op["pole"])));
      return;
    }
#endif
#ifndef NO_sub_z
    if (k == "sub_z") {
      AmiBase::pole_struct p = ami.update_Z_pole(read_pole(op["g"]), read_pole(op["pole"]));
      p.index_ = 0;   // (which frequency it belongs to is not part of the result)
      o.raw("\"res\":"); o.pole(p);
      return;
    }
#endif
#ifndef NO_equiv
    if (k == "equiv") {
      AmiBase::g_struct a = read_g(op["g1"]), b = read_g(op["g2"]);
      int sign = 7;
      bool up = ami.g_struct_equiv(a, b, sign);
      o.raw("\"geq\":"); o.num(ami.g_equiv(a, b));
      o.raw(",\"peq\":"); o.num(ami.pole_equiv(AmiBase::pole_struct(a.eps_, a.alpha_), AmiBase::pole_struct(b.eps_, b.alpha_)));
      o.raw(",\"upto\":"); o.num(up); o.raw(",\"sign\":"); o.num(sign);
      return;
    }
#endif
#ifndef NO_split
    if (k == "split") {
      AmiBase::terms in = read_terms(op["terms"]);
      AmiBase::term a = in.at(0), b = in.at(0); // whatever was there before
      ami.split_term(in.at(0), read_pole(op["pole"]), a, b);
      o.raw("\"inert\":"); o.term(a); o.raw(",\"active\":"); o.term(b);
      return;
    }
#endif
#ifndef NO_energy
    if (k == "energy") {
      AmiBase::ami_vars x = read_vars(op["vars"]);
      AmiBase::g_struct g = read_g(op["g"]);
      o.raw("\"v\":"); o.cx(ami.get_energy_from_g(g, x));
      o.raw(",\"v2\":"); o.cx(ami.get_energy_from_pole(AmiBase::pole_struct(g.eps_, g.alpha_), x));
      return;
    }
#endif
#ifndef NO_gprod
    if (k == "gprod") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      o.raw("\"v\":"); o.cx(ami.eval_gprod(p, read_gprod(op["R0"]), x));
      return;
    }
#endif
#ifndef NO_eval_spr_parts
    if (k == "eval_spr_parts") { // the evaluation put together by the caller
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      Spr &s = spr.at(op["src"].str);
      int n = (int)op["n"].integer();
      AmiBase::SorF_t K;
      for (int i = 0; i < n; i++) {
        AmiBase::SorF_t H = ami.dot(s.S[i], ami.fermi(p, s.P[i], x));
        K = i ? ami.cross(K, H) : H;
      }
      evaluated(o, n ? ami.star(p, K, s.R[n], x) : ami.eval_gprod(p, s.R[0][0], x));
      return;
    }
#endif
#ifndef NO_eval_terms_each
    if (k == "eval_terms_each") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      cplx v = 0;
      for (auto &t : terms.at(op["src"].str)) v += ami.evaluate_term(p, t, x);
      evaluated(o, v);
      return;
    }
#endif
#ifndef NO_eval_terms_parts
    if (k == "eval_terms_parts") {
      AmiBase::ami_parms p = read_parms(op);
      AmiBase::ami_vars x = read_vars(op["vars"]);
      cplx v = 0;
      for (auto &t : terms.at(op["src"].str)) v += t.sign * ami.eval_fprod(p, t.p_list, x) * ami.eval_gprod(p, t.g_list, x);
      evaluated(o, v);
      return;
    }
#endif
#ifndef NO_print
    if (k == "print") { // debugging output must not change anything
      if (op.has("spr")) { Spr &s = spr.at(op["spr"].str); ami.print_final((int)s.S.size(), s.R, s.P, s.S); }
      if (op.has("terms")) ami.print_terms(terms.at(op["terms"].str));
      o.raw("\"ok\":1");
      return;
    }
#endif
    throw std::runtime_error("unknown op " + k);
  }
};

// The input operation is copied into its event, so that a trace is self-contained.
static void copy(const Value &v, std::string &s) {
  switch (v.kind) {
  case Value::Null: s += "null"; break;
  case Value::Bool: s += v.b ? "true" : "false"; break;
  case Value::Num: s += std::to_string((long)v.num); break;
  case Value::Str: s += '"' + v.str + '"'; break;
  case Value::Arr:
    s += '[';
    for (size_t i = 0; i < v.arr.size(); i++) { if (i) s += ','; copy(v.arr[i], s); }
    s += ']';
    break;
  case Value::Obj: {
    s += '{';
    bool first = true;
    for (auto &kv : v.obj) { if (!first) s += ','; first = false; s += '"' + kv.first + "\":"; copy(kv.second, s); }
    s += '}';
  }
  }
}

// Runs ops[from..) of the case; writes each event followed by a newline to fd.
static void emit(int fd, std::string t) {
  t += '\n';
  size_t k = 0;
  while (k < t.size()) {
    ssize_t n = write(fd, t.data() + k, t.size() - k);
    if (n <= 0) _exit(3);
    k += n;
  }
}

static std::string event(Session &s, const Value &op) {
  Out o;
  std::string head;
  copy(op, head);
  // "times": how often it is performed, the last outcome being recorded
  for (long t = op.has("times") ? op["times"].integer() : 1; t > 1; t--) { Out before; s.run(op, before); }
  s.run(op, o);
  return "{\"in\":" + head + "," + o.s + "}";
}

// A case with "threads" has several lists of operations, run at the same time, each by
// a thread with an AmiBase object of its own.  Each becomes a history of its own.
static void threads(const Value &c, int fd) {
  auto &lists = c["threads"].arr;
  std::vector<std::string> res(lists.size());
  std::vector<std::thread> ts;
  std::atomic<int> ready(0);
  for (size_t i = 0; i < res.size(); i++)
    ts.emplace_back([&, i] {
      Session s;
      ready++;
      while (ready < (int)res.size()) {}
      for (auto &o : lists[i].arr) {
        std::string e;
        try { e = event(s, o); }
        catch (const std::exception &x) { e = std::string("{\"in\":{\"op\":\"DRIVER\"},\"what\":\"") + x.what() + "\"}"; }
        res[i] += (res[i].empty() ? "" : ",") + e;
      }
    });
  for (auto &t : ts) t.join();
  for (size_t i = 0; i < res.size(); i++) emit(fd, res[i]);
  _exit(0);
}

static void child(const Value &c, int fd) {
  if (c.has("threads")) threads(c, fd);
  Session s;
  for (auto &op : c["ops"].arr) emit(fd, event(s, op));
  _exit(0);
}

// The format of the standard streams, which all threads share, is not of interest.
extern "C" const char *__tsan_default_suppressions() {
  return "race:std::ios_base\nrace:std::basic_ios\nrace:std::basic_ostream\nrace:std::basic_streambuf\n";
}

int main(int argc, char **argv) {
  int limit = argc > 1 ? atoi(argv[1]) : 60;
  std::string line;
  // the library prints warnings and debugging output: keep it out of the trace
  int trace = dup(1), null = open("/dev/null", O_WRONLY);
  dup2(null, 1);
  dup2(null, 2);
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    Value c = js::parse(line);
    int fds[2];
    if (pipe(fds)) return 2;
    pid_t pid = fork();
    if (pid < 0) return 2;
    if (pid == 0) {
      close(fds[0]);
      try { child(c, fds[1]); }
      catch (const std::runtime_error &e) {
        std::string m = e.what();
        emit(fds[1], "{\"in\":{\"op\":\"DRIVER\"},\"what\":\"" + m + "\"}");
        _exit(0);
      }
      catch (...) { _exit(9); }
    }
    close(fds[1]);
    std::string got;
    char buf[65536];
    bool late = false;
    timespec t0;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    while (true) {
      timespec t1;
      clock_gettime(CLOCK_MONOTONIC, &t1);
      long left = limit * 1000L - (t1.tv_sec - t0.tv_sec) * 1000L - (t1.tv_nsec - t0.tv_nsec) / 1000000L;
      if (left <= 0) { late = true; kill(pid, SIGKILL); break; }
      pollfd pf = {fds[0], POLLIN, 0};
      if (poll(&pf, 1, (int)left) <= 0) continue;
      ssize_t n = read(fds[0], buf, sizeof buf);
      if (n <= 0) break;
      got.append(buf, n);
    }
    close(fds[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    // one line of the child is an event, or a whole history when there are threads
    std::vector<std::string> evs;
    size_t a = 0;
    while (true) {
      size_t b = got.find('\n', a);
      if (b == std::string::npos) break;
      evs.push_back(got.substr(a, b - a));
      a = b + 1;
    }
    if (late || !WIFEXITED(st) || WEXITSTATUS(st) != 0)
      evs.push_back(std::string("{\"in\":{\"op\":\"CRASH\"},\"what\":\"") +
             (late ? "timeout" : WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st))
                                                 : "exit " + std::to_string(WEXITSTATUS(st))) + "\"}");
    std::string res;
    if (c.has("threads"))
      for (auto &e : evs) res += "{\"id\":" + std::to_string(c["id"].integer()) + ",\"ev\":[" + e + "]}\n";
    else {
      res = "{\"id\":" + std::to_string(c["id"].integer()) + ",\"ev\":[";
      for (size_t i = 0; i < evs.size(); i++) res += (i ? "," : "") + evs[i];
      res += "]}\n";
    }
    size_t k = 0;
    while (k < res.size()) {
      ssize_t n = write(trace, res.data() + k, res.size() - k);
      if (n <= 0) return 2;
      k += n;
    }
  }
  return 0;
}
