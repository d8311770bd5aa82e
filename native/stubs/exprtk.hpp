// Stand-in for exprtk: arithmetic over named constants (+ - * / % ^, unary minus, parentheses, a few functions and
// comparisons). compile() is false for what it cannot read or for unknown names, and an expression that was not compiled
// has the value NaN, as with the library. Names are case-insensitive there, too.
#pragma once
#include <algorithm>
#include <cctype>
#include <cmath>
#include <limits>
#include <map>
#include <string>
#include <vector>
namespace exprtk {
inline std::string vf_lower(std::string s) {
  std::transform(s.begin(), s.end(), s.begin(), [](unsigned char c) { return std::tolower(c); });
  return s;
}
template <class T> class symbol_table {
 public:
  bool add_constant(const std::string& name, const T& v) { return names_.emplace(vf_lower(name), v).second; }
  bool add_variable(const std::string& name, T& v, bool = false) { return names_.emplace(vf_lower(name), v).second; }
  bool add_constants() { return add_constant("pi", T(3.14159265358979323846)); }
  std::map<std::string, T> names_;
};
template <class T> class expression {
 public:
  void register_symbol_table(symbol_table<T>& t) { table_ = t; }
  T value() const { return ok_ ? value_ : std::numeric_limits<T>::quiet_NaN(); }
  symbol_table<T> table_;
  bool ok_ = false;
  T value_ = T();
};
template <class T> class parser {
 public:
  std::string error() const { return "cannot compile " + s_; }
  bool compile(const std::string& text, expression<T>& e) {
    s_ = text, p_ = 0, bad_ = false, e_ = &e;
    T v = compare();
    skip();
    if (p_ != s_.size() || s_.empty()) bad_ = true;
    e.ok_ = !bad_, e.value_ = v;
    return !bad_;
  }
 private:
  void skip() { while (p_ < s_.size() && std::isspace((unsigned char)s_[p_])) p_++; }
  bool eat(const std::string& c) {
    skip();
    if (s_.compare(p_, c.size(), c) == 0) { p_ += c.size(); return true; }
    return false;
  }
  T compare() {
    T a = sum();
    if (eat("<=")) return a <= sum();
    if (eat(">=")) return a >= sum();
    if (eat("==")) return a == sum();
    if (eat("!=")) return a != sum();
    if (eat("<")) return a < sum();
    if (eat(">")) return a > sum();
    return a;
  }
  T sum() {
    T a = product();
    while (true) {
      if (eat("+")) a = a + product();
      else if (eat("-")) a = a - product();
      else return a;
    }
  }
  T product() {
    T a = unary();
    while (true) {
      if (eat("*")) a = a * unary();
      else if (eat("/")) a = a / unary();
      else if (eat("%")) a = std::fmod(a, unary());
      else return a;
    }
  }
  T unary() {
    if (eat("-")) return -unary();
    if (eat("+")) return unary();
    return power();
  }
  T power() {
    T a = atom();
    if (eat("^")) return std::pow(a, eat("-") ? -power() : power());
    return a;
  }
  T atom() {
    skip();
    if (eat("(")) {
      T v = compare();
      if (!eat(")")) bad_ = true;
      return v;
    }
    if (p_ < s_.size() && (std::isdigit((unsigned char)s_[p_]) || s_[p_] == '.')) {
      size_t n = 0;
      try {
        T v = std::stod(s_.substr(p_), &n);
        p_ += n;
        return v;
      } catch (...) { bad_ = true; p_ = s_.size(); return 0; }
    }
    if (p_ < s_.size() && std::isalpha((unsigned char)s_[p_])) {
      size_t b = p_;
      while (p_ < s_.size() && (std::isalnum((unsigned char)s_[p_]) || s_[p_] == '_' || s_[p_] == '.')) p_++;
      auto name = vf_lower(s_.substr(b, p_ - b));
      if (eat("(")) {
        std::vector<T> args;
        if (!eat(")")) {
          do args.push_back(compare()); while (eat(","));
          if (!eat(")")) bad_ = true;
        }
        return call(name, args);
      }
      auto it = e_->table_.names_.find(name);
      if (it != e_->table_.names_.end()) return it->second;
    }
    bad_ = true;
    p_ = s_.size();
    return 0;
  }
  T call(const std::string& f, const std::vector<T>& a) {
    if (a.size() == 1) {
      if (f == "abs") return std::abs(a[0]);
      if (f == "exp") return std::exp(a[0]);
      if (f == "log") return std::log(a[0]);
      if (f == "sqrt") return std::sqrt(a[0]);
    }
    if (!a.empty()) {
      if (f == "min") return *std::min_element(a.begin(), a.end());
      if (f == "max") return *std::max_element(a.begin(), a.end());
      if (f == "sum") { T s = 0; for (T v : a) s += v; return s; }
    }
    bad_ = true;
    return 0;
  }
  std::string s_;
  size_t p_ = 0;
  bool bad_ = false;
  expression<T>* e_ = nullptr;
};
}  // namespace exprtk
