// C++ locales an application may have composed itself (compiled with RTTI,
// which facets need).
#include <locale>
#include <string>
namespace {
class Odd : public std::numpunct<char> {
 public:
  explicit Odd(int k) : std::numpunct<char>(1), k_(k) {}
 protected:
  char do_decimal_point() const override { return k_ == 0 ? ',' : k_ == 1 ? '\'' : '.'; }
  char do_thousands_sep() const override { return k_ == 0 ? '.' : k_ == 1 ? ' ' : '3'; }
  std::string do_grouping() const override { return k_ == 1 ? "\3\2" : "\1"; }
  std::string do_truename() const override { return "wahr"; }
  std::string do_falsename() const override { return "falsch"; }
 private:
  int k_;
};
}
namespace oddlocale { std::locale make(int k) { return std::locale(std::locale::classic(), new Odd(k)); } }
