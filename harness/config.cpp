// Reads settings and dataset descriptions of spec/Config.tla with the real parsers.
#include <cn24.h>
#include "KITTIData.h"
#include "h.h"
#include <sys/stat.h>
#include <unistd.h>
using namespace Conv;
static std::string unhex(const std::string& h) { std::string s; for (size_t i = 1; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), nullptr, 16); return s; }
static std::string dec(datum v) {            // <<m, e>> of the shortest six digit decimal
  char b[40]; snprintf(b, 40, "%.5e", (double)v); if (!std::isfinite(v)) return "[77,77]";
  std::string s = b; size_t e = s.find('e'); long ex = atol(s.c_str() + e + 1); std::string m = s.substr(0, e); m.erase(m.find('.'), 1); long mm = atol(m.c_str()); ex -= 5;
  if (!mm) ex = 0; else while (mm % 10 == 0) { mm /= 10; ex++; }
  return "[" + std::to_string(mm) + "," + std::to_string(ex) + "]";
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "/sub'").c_str()) || chdir(base.c_str())) return 3;
  const char* files[] = {"", "p1.Tensor", "p2.Tensor", "p3 x.Tensor", "sub/p4.Tensor", "p5=5.Tensor"};
  const long W = 40, H = 30;
  for (auto& w : lines) {
    std::string text = unhex(w[1]);
    vt::emit(vt::ev("Begin").t("text", text));
    if (w[0] == "S") {
      std::istringstream is(text); ConfigurableFactory f(is, 1, false);
      for (int pass = 0; pass < 2; pass++) {       // once as constructed, once as initialized
        if (pass) f.InitOptimalSettings();
        TrainerSettings s = f.optimal_settings(); vt::J v(false);
        for (datum d : {s.l1_weight, s.l2_weight, s.learning_rate, s.gamma, s.momentum, s.exponent, s.eta, s.mu}) v.addraw(dec(d));
        v.add(s.iterations).add(s.sbatchsize).add(s.pbatchsize).add(s.optimization_method == QUICKPROP ? 1 : 0);
        vt::emit(vt::ev("Settings").arr("text", pass ? vt::codes(text) : std::vector<long>()).raw("v", v.str())
          .b("rest", s.epoch_training_ratio == 1 && s.testing_ratio == 1 && s.stats_during_training));
      }
      continue;
    }
    long dont = atol(w[2].c_str()), patch = atol(w[3].c_str()), sel = atol(w[4].c_str()) % 3, n = atol(w[5].c_str());
    for (long k = 1; k <= 5; k++) {
      std::ofstream o(files[k], std::ios::binary); Tensor d(1, W, H, 2), l(1, W, H, n ? n : 1); d.Clear(k);
      for (long i = 0; i < k; i++) { l.Clear(); l.Clear(1.0); for (size_t e = 0; e < l.elements(); e++) l.data_ptr()[e] = (long)(e / (W * H)) == (n ? i % n : 0); d.Serialize(o); l.Serialize(o); }
    }
    std::istringstream is(text); Dataset* ds = nullptr; bool ok = true;
    const DatasetLoadSelection sels[] = {LOAD_BOTH, LOAD_TRAINING_ONLY, LOAD_TESTING_ONLY};
    try {
      if (patch) ds = TensorStreamPatchDataset::CreateFromConfiguration(is, dont, sels[sel], W, H);
      else ds = TensorStreamDataset::CreateFromConfiguration(is, dont, sels[sel]);
    } catch (std::runtime_error&) { ok = false; }
    vt::J e = vt::ev("Dataset"); e.arr("text", vt::codes(text)).b("dont", dont).i("sel", sel).b("ok", ok);
    if (ok) {
      vt::J nj(false), cj(false), wj(false);
      for (auto& s : ds->GetClassNames()) { vt::J x(false); for (long c : vt::codes(s)) x.add(c); nj.addraw(x.str()); }
      for (auto c : ds->GetClassColors()) cj.addraw("[" + std::to_string(c >> 16) + "," + std::to_string(c & 0xffff) + "]");
      for (auto x : ds->GetClassWeights()) wj.addraw(dec(x));
      std::vector<long> errs = {0, 1};
      Tensor T[4]; long lw = patch ? 1 : ds->GetWidth(), lh = patch ? 1 : ds->GetHeight();
      if (n && ds->GetClasses() == n) for (int set = 0; set < 2; set++) for (unsigned i = 0; i < (set ? ds->GetTestingSamples() : ds->GetTrainingSamples()); i++) {
        T[0].Resize(1, ds->GetWidth(), ds->GetHeight(), 2); T[1].Resize(1, lw, lh, n); T[2].Resize(1, lw, lh, 2); T[3].Resize(1, lw, lh, 1);
        if (!(set ? ds->GetTestingSample(T[0], T[1], T[2], T[3], 0, i) : ds->GetTrainingSample(T[0], T[1], T[2], T[3], 0, i))) continue;
        datum cw = ds->GetClassWeights()[i % n]; std::vector<long> left;
        for (long q : errs) {
          bool fits = !patch;
          for (long y = 0; y < H; y++) for (long x = 0; x < W; x++) {
            datum want = (q ? KITTIData::LocalizedError(x, y, W, H) : (datum)1) * cw;
            if (patch) fits |= *T[3].data_ptr(0, 0) == want; else fits &= *T[3].data_ptr(x, y) == want;
          }
          if (fits) left.push_back(q);
        }
        errs = left;
      }
      e.i("classes", ds->GetClasses()).raw("names", nj.str()).raw("colors", cj.str()).raw("weights", wj.str()).arr("errors", errs).i("training", ds->GetTrainingSamples()).i("testing", ds->GetTestingSamples());
    }
    vt::emit(e);
  }
  return 0;
}
