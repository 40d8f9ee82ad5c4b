// Executes scenarios of spec/Patches.tla with the extraction functions.
#include <cn24.h>
#include <private/Segmentation.h>
#include "h.h"
using namespace Conv;
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& w : lines) {
    size_t p = 0;
    vt::emit(vt::ev("Begin"));
    Tensor target, helper, labels, weight;              // reused within a session
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      std::vector<long> d(a.begin() + 4, a.begin() + 8), v(a.begin() + 8, a.end());
      Tensor src(d[0], d[1], d[2], d[3]);
      vt::J j = vt::ev(op.c_str()); j.i("pw", a[0]).i("ph", a[1]).i("s", a[2]).arr("d", d).arr("v", v);
      if (op == "Patches") {
        for (size_t e = 0; e < v.size(); e++) src.data_ptr()[e] = v[e];
        Segmentation::ExtractPatches(a[0], a[1], target, helper, src, a[2], a[3] == 1);
        std::vector<long> pos, t; double E = a[0] * a[1] * d[3];
        for (size_t e = 0; e < helper.elements(); e++) pos.push_back(vt::fixed(helper.data_ptr_const()[e], 1000.0 * (e % 2 ? d[1] : d[2])));
        for (size_t e = 0; e < target.elements(); e++) t.push_back(a[3] == 1 ? vt::fixed(target.data_ptr_const()[e], 1000.0 * E) : vt::exact(target.data_ptr_const()[e]));
        bool same = true; for (size_t e = 0; e < v.size(); e++) same = same && src.data_ptr_const()[e] == (datum)v[e];
        j.b("sub", a[3] == 1).arr("td", vt::dims(target)).arr("pos", pos).arr("t", t).b("kept", same);
      } else {
        for (size_t e = 0; e < v.size(); e++) { uint32_t u = v[e]; memcpy(src.data_ptr() + e, &u, 4); }      // labels are stored as integers
        Segmentation::ExtractLabels(a[0], a[1], labels, weight, src, a[2], a[3]);
        std::vector<long> lb; for (size_t e = 0; e < labels.elements(); e++) lb.push_back((int32_t)vt::bits(labels.data_ptr_const()[e]));
        j.i("ignored", a[3]).arr("labels", lb).arr("weights", vt::vals(weight));
      }
      vt::emit(j);
    }
  }
  return 0;
}
