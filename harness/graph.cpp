// Executes scenarios of spec/Graph.tla on the real NetGraph, with probe layers of known linear behaviour and real
// summation, concatenation, rectification and loss layers; every evaluation of a layer is logged.
#include <cn24.h>
#include "ConcatenationLayer.h"
#include "SumLayer.h"
#include "h.h"
using namespace Conv;
static const long S = 2, W = 2;
static int cur_g = 0; static bool logging = false;
static void ran(int i) { if (logging) vt::emit(vt::ev("R").i("g", cur_g).i("i", i)); }
struct Probe : public Layer {
  int id; long nb; bool input; std::vector<long> ms; std::vector<std::vector<long>> c;
  std::vector<CombinedTensor*> in, out; std::vector<std::vector<float>> staged;
  Probe(int id, long nb, long np, const std::vector<long>& ms, const std::vector<std::vector<long>>& c) : Layer(""), id(id), nb(nb), input(!ms.empty()), ms(ms), c(c) {
    for (long p = 0; p < np; p++) { CombinedTensor* t = p == 0 ? new CombinedTensor(1, nb, 1, 1) : new CombinedTensor(1 + p, 3, 2, 1); t->data.Clear(); t->delta.Clear(); parameters_.push_back(t); }
  }
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) {
    for (long b = 0; b < nb; b++) o.push_back(new CombinedTensor(S, W, 1, input ? ms[b] : i[0]->data.maps()));
    return true;
  }
  bool Connect(const std::vector<CombinedTensor*>& i, const std::vector<CombinedTensor*>& o, const NetStatus*) { in = i; out = o; return true; }
  void FeedForward() {
    ran(id);
    for (long b = 0; b < nb; b++) for (size_t e = 0; e < out[b]->data.elements(); e++) {
      float v = 0;
      if (input) v = staged[b][e]; else for (size_t s = 0; s < in.size(); s++) v += c[b][s] * in[s]->data.data_ptr()[e];
      if (!parameters_.empty()) v += parameters_[0]->data.data_ptr()[b];
      out[b]->data.data_ptr()[e] = v;
    }
  }
  void BackPropagate() {
    ran(id);
    if (input) return;
    if (!parameters_.empty()) for (long b = 0; b < nb; b++) { float g = 0; for (size_t e = 0; e < out[b]->delta.elements(); e++) g += out[b]->delta.data_ptr()[e]; parameters_[0]->delta.data_ptr()[b] = g; }
    if (!backprop_enabled_) return;
    for (size_t s = 0; s < in.size(); s++) for (size_t e = 0; e < in[s]->delta.elements(); e++) {
      float g = 0; for (long b = 0; b < nb; b++) g += c[b][s] * out[b]->delta.data_ptr()[e];
      in[s]->delta.data_ptr()[e] = g;
    }
    // an input read twice by this node gets both parts
    for (size_t s = 0; s < in.size(); s++) for (size_t r = 0; r < s; r++) if (in[r] == in[s]) throw std::runtime_error("one tensor connected twice");
  }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { for (long i = 0; i < nb; i++) b.push_back(NetGraphBuffer()); }
};
template <class L> struct Logged : public L {
  int id; explicit Logged(int id) : L(), id(id) {}
  void FeedForward() { ran(id); L::FeedForward(); }
  void BackPropagate() { ran(id); L::BackPropagate(); }
};
struct Spec { std::string k; std::vector<std::pair<long, long>> in; long nb, np; bool bp; std::vector<long> ms; std::vector<std::vector<long>> c; };
static std::string nest(const std::vector<std::vector<long>>& v) { vt::J j(false); for (auto& x : v) { vt::J k(false); for (long q : x) k.add(q); j.addraw(k.str()); } return j.str(); }
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& w : lines) {
    std::vector<Spec> top; NetGraph* g[3] = {0, 0, 0}; std::vector<NetGraphNode*> node[3]; bool ffd[3] = {false, false, false};
    std::vector<std::string> files;
    vt::emit(vt::ev("Begin"));
    auto addspec = [&](const Spec& s) {
      vt::J in(false); for (auto& x : s.in) in.addraw("[" + std::to_string(x.first) + "," + std::to_string(x.second) + "]");
      vt::emit(vt::ev("Node").t("k", s.k).raw("in", in.str()).i("nb", s.nb).b("bp", s.bp).raw("c", nest(s.c)).i("np", s.np).arr("ms", s.ms));
      top.push_back(s);
    };
    auto maps = [&](int gi, size_t i, long b) { return (long)node[gi][i]->output_buffers[b].combined_tensor->data.maps(); };
    auto hasreader = [&](long i, long b) { for (auto& t : top) for (size_t s = 0; s < t.in.size(); s++) if (t.in[s].first == i && t.in[s].second == b && t.bp && (t.k != "loss" || s == 0)) return true; return false; };
    auto pars = [&](int gi) {           // values of the first tensor as integers, bit patterns (two halves) of the others
      vt::J j(false);
      for (auto n : node[gi]) {
        vt::J k(false); size_t p = 0;
        for (auto t : n->layer->parameters()) {
          vt::J q(false);
          for (size_t e = 0; e < t->data.elements(); e++) if (p == 0) q.add(vt::exact(t->data.data_ptr()[e])); else { uint32_t u = vt::bits(t->data.data_ptr()[e]); q.add(u >> 16); q.add(u & 65535); }
          k.addraw(q.str()); p++;
        }
        j.addraw(k.str());
      }
      return j.str();
    };
    auto both = [&]() { return "[" + pars(1) + "," + pars(2) + "]"; };
    auto inp = [&](int gi, long seed) {
      vt::R r(seed); vt::J j(false);
      for (size_t i = 0; i < top.size(); i++) {
        vt::J k(false);
        if (top[i].k == "in") { Probe* p = (Probe*)node[gi][i]->layer; p->staged.clear(); for (long b = 0; b < top[i].nb; b++) { vt::J q(false); std::vector<float> v; for (long e = 0; e < S * W * top[i].ms[b]; e++) { long x = b == 2 ? r.in(0, 3) : r.in(-2, 2); v.push_back(x); q.add(x); } p->staged.push_back(v); k.addraw(q.str()); } }
        j.addraw(k.str());
      }
      vt::emit(vt::ev("Inp").i("g", gi).raw("v", j.str()));
    };
    auto ext = [&](int gi, long seed) {
      vt::R r(seed); vt::J j(false);
      for (size_t i = 0; i < top.size(); i++) {
        vt::J k(false);
        for (long b = 0; b < top[i].nb; b++) {
          vt::J q(false); bool rd = hasreader(i + 1, b + 1); CombinedTensor* t = node[gi][i]->output_buffers[b].combined_tensor;
          for (size_t e = 0; e < t->delta.elements(); e++) { long x = r.in(-2, 2); if (!rd) t->delta.data_ptr()[e] = x; q.add(x); }
          k.addraw(q.str());
        }
        j.addraw(k.str());
      }
      vt::emit(vt::ev("Ext").i("g", gi).raw("v", j.str()));
    };
    auto par = [&](int gi, long seed) {
      vt::R r(seed);
      for (auto n : node[gi]) { n->layer->SetLocalLearningRate(r.chance(40) ? 0 : (datum)r.in(1, 4) / 2); size_t p = 0; for (auto t : n->layer->parameters()) { for (size_t e = 0; e < t->data.elements(); e++) { if (p == 0) t->data.data_ptr()[e] = r.in(-3, 3); else { uint32_t u = (uint32_t)r.g(); memcpy(t->data.data_ptr() + e, &u, 4); } } p++; } }
      vt::emit(vt::ev("Par").i("g", gi).raw("v", pars(gi)));
    };
    auto ff = [&](int gi) {
      vt::emit(vt::ev("FF").i("g", gi)); cur_g = gi; logging = true; g[gi]->FeedForward(); logging = false;
      vt::J j(false);
      for (size_t i = 0; i < top.size(); i++) { vt::J k(false); for (long b = 0; b < top[i].nb; b++) { vt::J q(false); for (long x : vt::vals(node[gi][i]->output_buffers[b].combined_tensor->data)) q.add(x); k.addraw(q.str()); } j.addraw(k.str()); }
      vt::emit(vt::ev("EndFF").i("g", gi).raw("data", j.str()).i("loss", vt::exact(g[gi]->AggregateLoss(), 2)));
      ffd[gi] = true;
    };
    auto bp = [&](int gi) {
      vt::emit(vt::ev("BP").i("g", gi)); cur_g = gi; logging = true; g[gi]->BackPropagate(); logging = false;
      vt::J j(false), pg(false);
      for (size_t i = 0; i < top.size(); i++) {
        vt::J k(false); for (long b = 0; b < top[i].nb; b++) { vt::J q(false); for (long x : vt::vals(node[gi][i]->output_buffers[b].combined_tensor->delta)) q.add(x); k.addraw(q.str()); } j.addraw(k.str());
        vt::J q(false); if (top[i].np > 0) for (long x : vt::vals(node[gi][i]->layer->parameters()[0]->delta)) q.add(x); pg.addraw(q.str());
      }
      vt::emit(vt::ev("EndBP").i("g", gi).raw("delta", j.str()).raw("pg", pg.str()));
    };
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      typedef std::vector<std::pair<long, long>> V;
      if (op == "In") addspec({"in", {}, (long)a.size(), 0, true, a, {}});
      else if (op == "Probe") {
        Spec s{"probe", {}, a[1], a[2], a[0] != 0, {}, {}}; size_t q = 4;
        for (long i = 0; i < a[3]; i++, q += 2) s.in.push_back({a[q], a[q + 1]});
        for (long b = 0; b < a[1]; b++) { std::vector<long> r; for (long i = 0; i < a[3]; i++) r.push_back(a[q++]); s.c.push_back(r); }
        addspec(s);
      }
      else if (op == "Sum") addspec({"sum", V{{a[0], a[1]}, {a[2], a[3]}}, 1, 0, true, {}, {}});
      else if (op == "Cat") addspec({"cat", V{{a[0], a[1]}, {a[2], a[3]}}, 1, 0, true, {}, {}});
      else if (op == "Relu") addspec({"relu", V{{a[0], a[1]}}, 1, 0, true, {}, {}});
      else if (op == "Loss") addspec({"loss", V{{a[0], a[1]}, {a[2], a[3]}, {1, 3}}, 0, 0, true, {}, {}});
      else if (op == "Order") {
        bool complete = true;
        for (int gi = 1; gi <= 2; gi++) {
          g[gi] = new NetGraph();
          long lastout = -1;
          for (size_t i = 0; i < top.size(); i++) {
            Spec& s = top[i]; Layer* L; int id = i + 1;
            if (s.k == "in" || s.k == "probe") L = new Probe(id, s.nb, s.np, s.ms, s.c); else if (s.k == "sum") L = new Logged<SumLayer>(id);
            else if (s.k == "cat") L = new Logged<ConcatenationLayer>(id); else if (s.k == "relu") L = new Logged<ReLULayer>(id); else L = new Logged<ErrorLayer>(id);
            NetGraphNode* n = new NetGraphNode(L);
            for (size_t k = 0; k < s.in.size(); k++) n->input_connections.push_back(NetGraphConnection(node[gi][s.in[k].first - 1], s.in[k].second - 1, s.bp && !(s.k == "loss" && k > 0)));
            n->is_input = s.k == "in"; if (s.nb > 0 && s.k != "in") lastout = i;
            node[gi].push_back(n);
          }
          if (lastout >= 0) node[gi][lastout]->is_output = true;
          for (long i : a) g[gi]->AddNode(node[gi][i - 1]);
          complete = complete && g[gi]->IsComplete();
          g[gi]->Initialize();
          g[gi]->InitializeWeights();
        }
        vt::emit(vt::ev("Order").arr("p", a).b("complete", complete));
        for (int gi = 1; gi <= 2; gi++) { inp(gi, 77 + gi); ext(gi, 5 * gi); par(gi, 11 * gi); ff(gi); }
      }
      else if (op == "Inp") inp(a[0], a[1]);
      else if (op == "Ext") ext(a[0], a[1]);
      else if (op == "Par") par(a[0], a[1]);
      else if (op == "FF") ff(a[0]);
      else if (op == "BP") bp(a[0]);
      else if (op == "Save") { std::ostringstream o; g[a[0]]->SerializeParameters(o); files.push_back(o.str()); vt::emit(vt::ev("Save").i("g", a[0]).raw("par", both())); }
      else if (op == "Cut") {            // the first tensors of a file: 4 lengths and the elements each
        const std::string& f = files[a[0] - 1]; size_t at = 0; long k = 0;
        while (k < a[1] && at + 32 <= f.size()) { uint64_t d[4]; memcpy(d, f.data() + at, 32); at += 32 + d[0] * d[1] * d[2] * d[3] * sizeof(datum); k++; }
        std::string part = f.substr(0, at); files.push_back(part);
        vt::emit(vt::ev("Cut").i("f", a[0]).i("k", k).raw("par", both()));
      }
      else if (op == "Load") { std::istringstream i(files[a[1] - 1]); g[a[0]]->DeserializeParameters(i, a[2]); vt::emit(vt::ev("Load").i("g", a[0]).i("f", a[1]).i("lim", a[2]).raw("par", both())); }
      else return 3;
    }
  }
  return 0;
}
