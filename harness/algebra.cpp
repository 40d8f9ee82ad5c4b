// Executes scenarios of spec/Algebra.tla: the tensor operations on real tensors.
#include <cn24.h>
#include "h.h"
#include <limits>
using namespace Conv;
static const int NR = 3;
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
#ifdef BUILD_BLAS
  bool blas = true;
#else
  bool blas = false;
#endif
  for (auto& w : lines) {
    vt::emit(vt::ev("Begin"));
    Tensor* r[NR + 1]; for (int i = 1; i <= NR; i++) r[i] = new Tensor();
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      vt::J j = vt::ev(op.c_str()); j.arr("a", a).b("blas", blas);
      bool ok = true;
      try {
        if (op == "Set") {
          Tensor& t = *r[a[0]]; t.Resize(a[1], a[2], a[3], a[4]);
          if (t.elements() + 5 != a.size()) return 3;
          for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = a[5 + e] == vt::BAD ? std::numeric_limits<datum>::quiet_NaN() : a[5 + e];
        } else if (op == "Gemm") TensorMath::GEMM(a[0], a[1], a[2], a[3], a[4], a[5], a[6], *r[a[7]], a[8], a[9], *r[a[10]], a[11], a[12], a[13], *r[a[14]], a[15], a[16]);
        else if (op == "Gemv") TensorMath::GEMV(a[0], a[1], a[2], a[3], a[4], *r[a[5]], a[6], a[7], *r[a[8]], a[9], a[10], a[11], *r[a[12]], a[13], a[14]);
        else if (op == "Im2col") TensorMath::IM2COL(*r[a[0]], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], *r[a[11]]);
        else if (op == "Col2im") TensorMath::COL2IM(*r[a[0]], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], *r[a[11]]);
        else if (op == "SetSample") TensorMath::SETSAMPLE(*r[a[0]], a[1], a[2]);
        else if (op == "Sms") TensorMath::SMS(*r[a[0]], *r[a[1]]);
        else if (op == "Down") TensorMath::DOWN(*r[a[0]], *r[a[1]], a[2], a[3], a[4] / 4.0f);
        else if (op == "Up") TensorMath::UP(*r[a[0]], *r[a[1]], a[2], a[3], a[4] / 4.0f);
        else if (op == "Add") TensorMath::ADD(*r[a[0]], *r[a[1]], *r[a[2]]);
        else return 3;
      } catch (std::exception&) { ok = false; }
      vt::J d(false), v(false);
      for (int i = 1; i <= NR; i++) {
        vt::J x(false), y(false);
        for (long q : vt::dims(*r[i])) x.add(q);
        for (long q : vt::vals(*r[i])) y.add(q);
        d.addraw(x.str()); v.addraw(y.str());
      }
      vt::emit(j.b("ok", ok).raw("d", d.str()).raw("v", v.str()));
    }
    for (int i = 1; i <= NR; i++) delete r[i];
  }
  return 0;
}
