// Executes scenarios of spec/Layers.tla on the real layers.
#include <cn24.h>
#include "ConcatenationLayer.h"
#include "SumLayer.h"
#include "h.h"
#include <set>
#include <limits>
#include <algorithm>
using namespace Conv;
typedef std::vector<long> V;
static std::string nest(const std::vector<V>& v) { vt::J j(false); for (auto& x : v) { vt::J k(false); for (long q : x) k.add(q); j.addraw(k.str()); } return j.str(); }
static V dims(const Tensor& t) { return V{(long)t.samples(), (long)t.width(), (long)t.height(), (long)t.maps()}; }
static const double LN2 = 0.69314718055994530942;
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& w : lines) {
    vt::emit(vt::ev("Begin"));
    NetGraph net; Layer* L = nullptr; std::string k; V prm; std::vector<CombinedTensor*> in, out; bool alive = false, ties = false;
    double unit = 1;      // what the integers of the inputs are multiplied with: the layers concerned are homogeneous
    std::vector<V> last;
    auto fill = [&](vt::R& r, Tensor& t, V v) { for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = v[e]; };
    auto rnd = [&](vt::R& r, size_t n, long lo, long hi) { V v; for (size_t e = 0; e < n; e++) v.push_back(r.in(lo, hi)); return v; };
    auto logs = [&](const Tensor& t, double scale) { V v; for (size_t e = 0; e < t.elements(); e++) v.push_back(vt::fixed(t.data_ptr_const()[e], scale)); return v; };
    auto exacts = [&](const Tensor& t, double scale) { V v; for (size_t e = 0; e < t.elements(); e++) v.push_back(vt::exact(t.data_ptr_const()[e], scale)); return v; };
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++], kind;
      if (op == "Make") kind = w[p++];
      V a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Make") {
        k = kind; prm.assign(a.begin() + 1, a.begin() + 1 + a[0]);
        size_t q = 1 + a[0]; long ni = a[q++]; std::vector<V> ins;
        for (long i = 0; i < ni; i++, q += 4) { ins.push_back(V{a[q], a[q + 1], a[q + 2], a[q + 3]}); in.push_back(new CombinedTensor(a[q], a[q + 1], a[q + 2], a[q + 3])); }
        bool ok = true;
        try {
          if (k == "conv") { L = new ConvolutionLayer(prm[0], prm[1], prm[7], prm[2], prm[3], prm[4], prm[5], prm[6], 7, prm[8] / 4.0); if (prm[8]) net.SetIsTesting(true); }
          else if (k == "amax") L = new AdvancedMaxPoolingLayer(prm[0], prm[1], prm[2], prm[3]);
          else if (k == "max") L = new MaxPoolingLayer(prm[0], prm[1]);
          else if (k == "resize") L = new ResizeLayer(prm[0], prm[1]);
          else if (k == "up") L = new UpscaleLayer(prm[0], prm[1]);
          else if (k == "down") L = new InputDownSamplingLayer(prm[0], prm[1]);
          else if (k == "cat") L = new ConcatenationLayer();
          else if (k == "sum") L = new SumLayer();
          else if (k == "prior") L = new SpatialPriorLayer();
          else if (k == "ga") L = new GradientAccumulationLayer((unsigned int)prm[0]);
          else if (k == "relu") L = new ReLULayer();
          else if (k == "sigm") L = new SigmoidLayer();
          else if (k == "tanh") L = new TanhLayer();
          else if (k == "hmax") L = new HMaxActivationFunction(1.0, 0.0);
          else if (k == "lrn") L = new LocalResponseNormalizationLayer(prm[0], prm[2], prm[3], prm[1] ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS);
          else if (k == "err") L = new ErrorLayer(prm[0]);
          else return 3;
          ok = L->CreateOutputs(in, out) && L->Connect(in, out, &net);
        } catch (std::runtime_error&) { ok = false; }
        alive = ok;
        std::vector<V> os, ps;
        if (ok) { for (auto t : out) os.push_back(dims(t->data)); for (auto t : L->parameters()) ps.push_back(dims(t->data)); }
        vt::emit(vt::ev("Make").t("k", k).arr("p", prm).raw("ins", nest(ins)).b("ok", ok).raw("outs", nest(os)).raw("pars", nest(ps)));
        if (!ok) break;
      }
      else if (op == "FF") {
        vt::R r(a[0]);
        std::vector<V> vi, vp, vo; std::string inlog;
        double oscale = 1; long lo = 0, hi = 0; float lov = 0, hiv = 0;
        ties = false;
        if (k == "sigm" || k == "tanh") {
          vt::J j(false), jj(false); V v;
          for (size_t e = 0; e < in[0]->data.elements(); e++) {
            long x = r.in(1, 12), z = r.in(1, 12); if (r.chance(8)) { if (r.chance(50)) { x = 0; z = 1; } else { x = 1; z = 0; } }
            jj.addraw("[" + std::to_string(x) + "," + std::to_string(z) + "]");
            in[0]->data.data_ptr()[e] = x == 0 ? -r.in(40, 900) : z == 0 ? r.in(40, 900) : (float)std::log((double)x / z);
          }
          j.addraw(jj.str()); inlog = j.str(); oscale = 1e6;
        } else {
          for (size_t i = 0; i < in.size(); i++) {
            size_t n = in[i]->data.elements(); V v;
            if (k == "amax" || k == "max") {
              size_t plane = out[0]->data.width() * out[0]->data.height();
              ties = plane <= 20 && r.chance(50);
              if (ties) v = rnd(r, n, -2, 2);
              else { for (size_t e = 0; e < n; e++) v.push_back((long)e * 2 - 3 * (long)n / 2); for (size_t e = n; e > 1; e--) std::swap(v[e - 1], v[r.in(0, e - 1)]); }
            } else if (k == "err" && i == 2) v = rnd(r, n, 0, 3);
            else if (k == "lrn") v = rnd(r, n, -2, 2);
            else if (k == "hmax") v = rnd(r, n, -4, 4);
            else v = rnd(r, n, -3, 3);
            fill(r, in[i]->data, v); vi.push_back(v);
            if (k == "amax" || k == "max") {
              // the order is all that matters: the least and the greatest value may stand for extreme ones
              lo = *std::min_element(v.begin(), v.end()); hi = *std::max_element(v.begin(), v.end());
              const float inf = std::numeric_limits<float>::infinity(), lim = std::numeric_limits<float>::max();
              lov = r.chance(40) ? lo : r.chance(50) ? -inf : -lim; hiv = r.chance(70) || lo == hi ? hi : r.chance(50) ? inf : lim;
              for (size_t e = 0; e < n; e++) in[i]->data.data_ptr()[e] = v[e] == lo && lov != lo ? lov : v[e] == hi && hiv != hi ? hiv : v[e];
            }
            if (k == "hmax") for (size_t e = 0; e < n; e++) in[i]->data.data_ptr()[e] = v[e] * LN2;
          }
          inlog = nest(vi);
          unit = r.chance(50) && (k == "conv" || k == "relu" || k == "resize" || k == "up" || k == "cat" || k == "sum" || k == "ga" || k == "err") ? std::ldexp(1.0, r.in(-40, 30)) : 1;
          if (unit != 1) for (size_t i = 0; i < in.size(); i++) if (k != "err" || i < 2) for (size_t e = 0; e < in[i]->data.elements(); e++) in[i]->data.data_ptr()[e] *= unit;
          if (k == "lrn" || k == "prior") oscale = 1e6;
          if (k == "down") oscale = 1000.0 * prm[0] * prm[1];
          if (k == "hmax") oscale = 1e4;
          if (k == "conv") oscale = 4;
        }
        for (auto t : L->parameters()) { V v = rnd(r, t->data.elements(), -2, 2); fill(r, t->data, v); vp.push_back(v); if (k == "hmax") t->data.data_ptr()[1] = v[1] * LN2; }
        if (k == "conv") for (size_t e = 0; e < L->parameters()[1]->data.elements(); e++) L->parameters()[1]->data.data_ptr()[e] *= unit;
        L->FeedForward();
        if (k == "amax" || k == "max") for (size_t e = 0; e < out[0]->data.elements(); e++) { float& x = out[0]->data.data_ptr()[e]; if (x == lov) x = lo; else if (x == hiv) x = hi; }
        for (auto t : out) vo.push_back((k == "conv" || k == "amax" || k == "max" || k == "relu" || k == "resize" || k == "up" || k == "cat" || k == "sum" || k == "ga") ? exacts(t->data, oscale / unit) : logs(t->data, oscale));
        if (k == "err") { vo.push_back(exacts(in[0]->delta, 1 / unit)); vo.push_back(V{vt::exact(dynamic_cast<LossFunctionLayer*>(L)->CalculateLossFunction(), 2 / unit / unit)}); }
        vt::emit(vt::ev("FF").raw("in", inlog).raw("par", nest(vp)).raw("out", nest(vo)));
        // is the layer's reading of its inputs free of side effects on them?
      }
      else if (op == "BP") {
        vt::R r(a[1]); bool wanted = a[0] != 0 && k != "down";
        std::vector<V> vd, vi, vp;
        bool scaled = unit != 1 && k != "err"; double du = scaled ? std::ldexp(1.0, r.in(-40, 30)) : k == "err" ? unit : 1;
        for (auto t : out) {
          V v; size_t plane = t->delta.width() * t->delta.height();
          if (ties) for (size_t e = 0; e < t->delta.elements(); e++) v.push_back(1L << (e % plane));
          else v = rnd(r, t->delta.elements(), -2, 2);
          fill(r, t->delta, v); vd.push_back(v);
          if (scaled) for (size_t e = 0; e < t->delta.elements(); e++) t->delta.data_ptr()[e] *= du;
        }
        L->SetBackpropagationEnabled(wanted);
        L->BackPropagate();
        double iscale = (k == "sigm" || k == "tanh" || k == "lrn" || k == "hmax") ? 1e4 : 1;
        if (wanted) for (auto t : in) { vi.push_back(iscale == 1 ? exacts(t->delta, 1 / du) : logs(t->delta, iscale)); if (k == "err") break; }
        for (auto t : L->parameters()) {
          if (k == "hmax") vp.push_back(V{vt::fixed(t->delta.data_ptr()[0] / LN2, 1e4), vt::fixed(t->delta.data_ptr()[1], 1e4)});
          else vp.push_back(exacts(t->delta, vp.empty() ? 1 / du / unit : 1 / du));      // weights, bias
        }
        vt::emit(vt::ev("BP").raw("dl", nest(vd)).b("wanted", wanted).raw("din", nest(vi)).raw("dpar", nest(vp)));
      }
      else if (op == "Large") {
        vt::R r(a[0]);
        auto hash = [](long i, long e) { return ((e % 65521) * 7919 + 1000 * i) % 65521; };
        auto val = [&](long i, long e, long n) { long x = hash(i, e); return n == 0 ? x : x % (2 * n + 1) - n; };
        bool frac = k == "sigm" || k == "tanh", pool = k == "max" || k == "amax";
        for (size_t i = 0; i < in.size(); i++) { datum* d = in[i]->data.data_ptr(); for (size_t e = 0; e < in[i]->data.elements(); e++) d[e] = frac ? (datum)std::log((1 + hash(1, e) % 12) / (double)(1 + hash(1, e) / 12 % 12)) : k == "err" && i == 2 ? hash(3, e) % 4 : val(i + 1, e, pool ? 0 : k == "lrn" ? 2 : 3); }
        for (size_t i = 0; i < L->parameters().size(); i++) { Tensor& t = L->parameters()[i]->data; for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = val(11 + i, e, 2); }
        for (size_t i = 0; i < out.size(); i++) { Tensor& t = out[i]->delta; for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = val(21 + i, e, 2); }
        L->FeedForward();
        bool wanted = k != "down";
        L->SetBackpropagationEnabled(wanted); L->BackPropagate();
        double os = k == "conv" ? 4 : k == "lrn" || k == "prior" || frac ? 1e6 : k == "down" ? 1000.0 * prm[0] * prm[1] : 1, is = frac || k == "lrn" ? 1e4 : 1;
        bool oexact = k != "lrn" && k != "prior" && k != "down" && !frac;
        auto sample = [&](vt::J& j, long i, const Tensor& t, double scale, bool exact, int n) {
          // the last ones, those beside powers of two, the rest anywhere
          std::vector<long> es; long N = t.elements();
          for (long q = 0; q < 3; q++) { es.push_back(N - 1 - q); es.push_back(q); }
          for (int b = 7; b < 26; b++) for (long q = -1; q < 2; q++) if (r.chance(40)) es.push_back((1L << b) + q);
          for (int q = 0; q < n; q++) es.push_back(r.in(0, N - 1));
          std::set<long> u; for (long e : es) if (e >= 0 && e < N) u.insert(e);
          if (n < 10) { std::vector<long> w(u.begin(), u.end()); u.clear(); u.insert(N - 1); while ((int)u.size() < std::min<long>(n, N)) u.insert(r.pick(w)); }
          for (long e : u) { double x = t.data_ptr_const()[e]; j.addraw("[" + std::to_string(i + 1) + "," + std::to_string(e + 1) + "," + std::to_string(exact ? vt::exact(x, scale) : vt::fixed(x, scale)) + "]"); }
        };
        vt::J jo(false), ji(false), jp(false);
        for (size_t i = 0; i < out.size(); i++) sample(jo, i, out[i]->data, os, oexact, 60);
        if (wanted) for (size_t i = 0; i < in.size(); i++) { sample(ji, i, in[i]->delta, is, is == 1, 60); if (k == "err") break; }
        for (size_t i = 0; i < L->parameters().size(); i++) sample(jp, i, L->parameters()[i]->delta, 1, true, 4);
        vt::emit(vt::ev("Large").raw("out", jo.str()).raw("din", ji.str()).raw("dpar", jp.str()));
      }
      else return 3;
    }
    for (auto t : in) delete t; for (auto t : out) delete t;
  }
  return 0;
}
