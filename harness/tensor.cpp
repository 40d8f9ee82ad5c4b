// Executes scenarios of tensor operations (spec/Tensor.tla) on real Conv::Tensor objects.
#include <cn24.h>
#include "h.h"
using namespace Conv;
static const int N = 4;
// storage held by tensors: arrays allocated and not yet released
static long held = 0;
void* operator new[](size_t n) { held++; return malloc(n ? n : 1); }
void operator delete[](void* p) noexcept { if (p) { held--; free(p); } }
void operator delete[](void* p, size_t) noexcept { if (p) { held--; free(p); } }
static Tensor* t[N + 1];

int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& w : lines) {
    const long before = held;
    for (int i = 1; i <= N; i++) t[i] = nullptr;
    vt::emit(vt::ev("Begin"));
    std::string usable;
    size_t p = 0;
    while (p < w.size()) {
      std::string u = w[p++], op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      bool r = true;
      int i = a[0];
      if (op == "NewEmpty") t[i] = new Tensor();
      else if (op == "New") t[i] = new Tensor(a[1], a[2], a[3], a[4]);
      else if (op == "Resize") t[i]->Resize(a[1], a[2], a[3], a[4]);
      else if (op == "Adopt") { size_t n = a[1] * a[2] * a[3] * a[4]; datum* q = new datum[n]; for (size_t e = 0; e < n; e++) q[e] = a[5] + (long)e + 1; t[i]->Resize(a[1], a[2], a[3], a[4], q); }
      else if (op == "Keep") t[i]->Resize(a[1], a[2], a[3], a[4], t[i]->data_ptr());
      else if (op == "Reshape") r = t[i]->Reshape(a[1], a[2], a[3], a[4]);
      else if (op == "Shadow") t[i]->Shadow(*t[a[1]]);
      else if (op == "Copy") t[i] = new Tensor(*t[a[1]], true);
      else if (op == "Move") t[i] = new Tensor(std::move(*t[a[1]]));
      else if (op == "Transpose") t[i]->Transpose();
      else if (op == "Clear") t[i]->Clear(a[1]);
      else if (op == "ClearSample") t[i]->Clear(a[2], a[1]);
      else if (op == "Set") *t[i]->data_ptr(a[1], a[2], a[3], a[4]) = a[5];
      else if (op == "Fill") { for (size_t e = 0; e < t[i]->elements(); e++) (*t[i])[e] = a[1] + (long)e + 1; }
      else if (op == "Release") t[i]->DeleteIfPossible();
      else if (op == "Destroy") { delete t[i]; t[i] = nullptr; }
      else if (op == "CopySample") r = Tensor::CopySample(*t[a[0]], a[1], *t[a[2]], a[3]);
      else if (op == "CopyMap") r = Tensor::CopyMap(*t[a[0]], a[1], a[2], *t[a[3]], a[4], a[5]);
      else { fprintf(stderr, "bad op %s\n", op.c_str()); return 3; }
      vt::J j = vt::ev(op.c_str());
      j.arr("a", a).b("r", r);
      vt::J d(false), v(false);
      for (int k = 1; k <= N; k++) {
        std::vector<long> dd, vv;
        if (k <= (int)u.size() && u[k - 1] == '1') {
          dd = vt::dims(*t[k]); dd.push_back(t[k]->elements()); vv = vt::vals(*t[k]);
        }
        vt::J x(false), y(false);
        for (long q : dd) x.add(q);
        for (long q : vv) y.add(q);
        d.addraw(x.str()); v.addraw(y.str());
      }
      j.raw("d", d.str()).raw("v", v.str()).i("held", held - before);
      vt::emit(j);
    }
    // end of scenario: the remaining tensors die in any order; nothing may be released twice
    for (int i = N; i >= 1; i--) { delete t[i]; t[i] = nullptr; }
    vt::emit(vt::ev("End").i("held", held - before));
  }
  return 0;
}
