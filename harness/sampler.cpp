// Executes scenarios of spec/Sampler.tla on the real DatasetInputLayer, with a dataset whose samples carry marks.
#include <cn24.h>
#include "h.h"
using namespace Conv;
struct DS : public Dataset {
  unsigned n, m, w, h; bool fcn;
  Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return fcn ? FCN : PATCH; }
  unsigned GetWidth() const { return w; } unsigned GetHeight() const { return h; } unsigned GetInputMaps() const { return 2; }
  unsigned GetLabelMaps() const { return 3; } unsigned GetClasses() const { return 3; }
  std::vector<std::string> GetClassNames() const { return std::vector<std::string>(3, "x"); }
  std::vector<unsigned> GetClassColors() const { return std::vector<unsigned>(3, 0); } std::vector<datum> GetClassWeights() const { return std::vector<datum>(3, 1); }
  unsigned GetTrainingSamples() const { return n; } unsigned GetTestingSamples() const { return m; } bool SupportsTesting() const { return m > 0; }
  static float weight(long set, long ix, long e) { return 1 + (7 * ix + 3 * e + set) % 11; }
  bool fill(Tensor& d, Tensor& l, Tensor& he, Tensor& we, unsigned s, unsigned ix, unsigned set) {
    if (ix >= (set == 1 ? n : m)) return false;
    Tensor* t[4] = {&d, &l, &he, &we};
    for (int k = 0; k < 4; k++) { long q = t[k]->elements() / t[k]->samples(); for (long e = 0; e < q; e++) t[k]->data_ptr()[s * q + e] = k < 3 ? 1000.0f * set + ix : weight(set, ix, e); }
    return true;
  }
  bool GetTrainingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { return fill(d, l, h, w, s, i, 1); }
  bool GetTestingSample(Tensor& d, Tensor& l, Tensor& h, Tensor& w, unsigned s, unsigned i) { return fill(d, l, h, w, s, i, 2); }
};
struct Net : NetStatus {};
struct Run {
  DatasetInputLayer layer; std::vector<CombinedTensor*> in, out; Net ns;
  Run(DS& ds, unsigned b, datum p, unsigned seed) : layer(ds, b, p, seed) {
    layer.CreateOutputs(in, out);
    for (auto o : out) o->data.Clear(-5);
    if (!layer.Connect(in, out, &ns)) throw std::runtime_error("connect");
  }
  ~Run() { for (auto o : out) delete o; }
  long mark(int k, long s) {
    Tensor& t = out[k]->data; long q = t.elements() / t.samples(); float v = t.data_ptr_const()[s * q];
    for (long e = 0; e < q; e++) if (t.data_ptr_const()[s * q + e] != v) return vt::BAD;
    return vt::exact(v);
  }
};
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& w : lines) {
    DS ds; Run* a = nullptr; Run* twin = nullptr; bool testing = false; long b = 0;
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> v;
      while (p < w.size() && w[p] != ";") v.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Conf") {
        ds.n = v[0]; ds.m = v[1]; b = v[2]; ds.fcn = v[3]; ds.w = v[5]; ds.h = v[6];
        static const datum ps[] = {1.0, 0.7, 0.25, 0.0};
        a = new Run(ds, b, ps[v[4]], v[7]); twin = new Run(ds, b, ps[v[4]], v[7]);
        vt::emit(vt::ev("Begin").i("n", v[0]).i("m", v[1]).i("b", b).i("p", v[4] > 0 && ds.fcn ? v[4] == 3 ? 2 : 1 : 0));
      } else if (op == "Mode") {
        testing = v[0]; a->layer.SetTestingMode(testing);
        vt::emit(vt::ev("Mode").b("t", testing));
      } else if (op == "FF") {
        a->layer.FeedForward();
        std::vector<long> im, lb, he, tw; vt::J ws(false);
        Tensor& we = a->out[3]->data; long q = we.elements() / we.samples();
        for (long s = 0; s < b; s++) {
          im.push_back(a->mark(0, s)); lb.push_back(a->mark(1, s)); he.push_back(a->mark(2, s));
          long keep = 0, zero = 0, other = 0;
          for (long e = 0; e < q; e++) { float x = we.data_ptr_const()[s * q + e]; if (x == 0) zero++; else if (im[s] != vt::BAD && x == DS::weight(im[s] / 1000, im[s] % 1000, e)) keep++; else other++; }
          ws.addraw("[" + std::to_string(keep) + "," + std::to_string(zero) + "," + std::to_string(other) + "]");
        }
        if (!testing) { twin->layer.FeedForward(); for (long s = 0; s < b; s++) tw.push_back(twin->mark(0, s)); }
        vt::emit(vt::ev("FF").arr("im", im).arr("lb", lb).arr("he", he).raw("w", ws.str()).i("c", q).arr("twin", tw));
      } else return 3;
    }
    delete a; delete twin;
  }
  return 0;
}
