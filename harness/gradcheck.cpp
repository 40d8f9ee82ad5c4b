// Executes scenarios of spec/GradCheck.tla: the real gradient check on layers whose loss and claimed derivatives are scripted.
#include <cn24.h>
#include "h.h"
using namespace Conv;
struct P { long w, g, q, c, k; };
struct Probe : public Layer {
  bool safe; std::vector<std::vector<P>> t; double own = 0;
  Probe(bool safe, const std::vector<std::vector<P>>& t) : Layer(""), safe(safe), t(t) {
    for (size_t j = 0; j < t.size(); j++) {
      parameters_.push_back(j % 2 ? new CombinedTensor(t[j].size(), 1, 1, 1) : new CombinedTensor(1, 1, t[j].size(), 1));
      for (size_t e = 0; e < t[j].size(); e++) { parameters_[j]->data.data_ptr()[e] = t[j][e].w / 4.0; parameters_[j]->delta.data_ptr()[e] = 77; }
    }
  }
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(1, 1, 1, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {
    own = 0;
    for (size_t j = 0; j < t.size(); j++) { const datum* w = parameters_[j]->data.data_ptr_const();
      for (size_t e = 0; e < t[j].size(); e++) own += t[j][e].g * (double)w[e] + t[j][e].q * (double)w[e] * w[e] + (e + 1 < t[j].size() ? t[j][e].c * (double)w[e] * w[e + 1] : 0); }
  }
  void BackPropagate() { for (size_t j = 0; j < t.size(); j++) for (size_t e = 0; e < t[j].size(); e++) parameters_[j]->delta.data_ptr()[e] = t[j][e].k / 64.0; }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
  bool IsNotGradientSafe() { return !safe; }
};
static std::vector<Probe*> probes;
struct Loss_ : public Layer, public LossFunctionLayer {
  Loss_() : Layer("") {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {} void BackPropagate() {}
  datum CalculateLossFunction() { double s = 0; for (auto p : probes) s += p->own; return s; }
};
static void nothing(const std::vector<CombinedTensor*>&) {}
static datum own(Layer* l, const std::vector<CombinedTensor*>&) { return dynamic_cast<Probe*>(l)->own; }
static std::string weights() {
  vt::J a(false);
  for (auto p : probes) { vt::J b(false); for (auto t : p->parameters()) { vt::J c(false); for (long v : vt::vals(t->data, 4)) c.add(v); b.addraw(c.str()); } a.addraw(b.str()); }
  return a.str();
}
static std::string counts(const std::string& text, const char* word) {    // "<a> of <b> tested gradients <word>"
  size_t at = text.rfind(std::string("gradients ") + word); vt::J j(false);
  if (at == std::string::npos) return "[]";
  size_t of = text.rfind(" of ", at), b = of; if (of == std::string::npos) return "[]";
  while (b > 0 && isdigit(text[b - 1])) b--;
  return j.add(atol(text.c_str() + b)).add(atol(text.c_str() + of + 4)).str();
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& words : lines) {
    vt::emit(vt::ev("Begin"));
    NetGraph* net = nullptr; size_t p = 0;
    while (p < words.size()) {
      std::string op = words[p++]; std::vector<long> a;
      while (p < words.size() && words[p] != ";") a.push_back(atol(words[p++].c_str()));
      p++;
      if (op == "Build") {
        size_t k = 0; auto nx = [&]() { return a.at(k++); };
        probes.clear(); vt::J n(false); long nl = nx(); net = new NetGraph();
        InputLayer* in = new InputLayer(*new Tensor(1, 1, 1, 1)); NetGraphNode* prev = new NetGraphNode(in); prev->is_input = true; net->AddNode(prev);
        for (long i = 0; i < nl; i++) {
          bool safe = nx(); long nt = nx(); std::vector<std::vector<P>> ts; vt::J tj(false);
          for (long j = 0; j < nt; j++) { long c = nx(); std::vector<P> t; vt::J pj(false);
            for (long e = 0; e < c; e++) { P q; q.w = nx(); q.g = nx(); q.q = nx(); q.c = nx(); q.k = nx(); t.push_back(q); pj.addraw(vt::J().i("w", q.w).i("g", q.g).i("q", q.q).i("c", q.c).i("k", q.k).str()); }
            ts.push_back(t); tj.addraw(pj.str()); }
          n.addraw(vt::J().b("safe", safe).raw("t", tj.str()).str());
          probes.push_back(new Probe(safe, ts)); NetGraphNode* d = new NetGraphNode(probes.back(), NetGraphConnection(prev)); net->AddNode(d); prev = d;
        }
        prev->is_output = true; net->AddNode(new NetGraphNode(new Loss_(), NetGraphConnection(prev)));
        net->Initialize(); net->SetIsTesting(false);
        vt::emit(vt::ev("Build").raw("n", n.str()).raw("w", weights()));
      }
      else if (op == "W") { probes[a[0] - 1]->parameters()[a[1] - 1]->data.data_ptr()[a[2] - 1] = a[3] / 4.0; vt::emit(vt::ev("W").i("i", a[0]).i("j", a[1]).i("x", a[2]).i("v", a[3]).raw("w", weights())); }
      else if (op == "K") { probes[a[0] - 1]->t[a[1] - 1][a[2] - 1].k = a[3]; vt::emit(vt::ev("K").i("i", a[0]).i("j", a[1]).i("x", a[2]).i("v", a[3]).raw("w", weights())); }
      else if (op == "All") {
        std::ostringstream o; std::streambuf* old = std::cout.rdbuf(o.rdbuf()); bool ended = false;
        try { GradientTester::TestGradient(*net, a[0], a[1]); } catch (std::exception&) { ended = true; }
        std::cout.rdbuf(old);
        vt::emit(vt::ev("All").i("skip", a[0]).b("fatal", a[1]).b("ended", ended).raw("okay", counts(o.str(), "okay")).raw("tolerable", counts(o.str(), "tolerable")).raw("failed", counts(o.str(), "failed")).raw("w", weights()));
      }
      else if (op == "Layer") {
        Probe* l = probes[a[0] - 1]; CombinedTensor* t = l->parameters()[a[1] - 1]; std::vector<CombinedTensor*> out;
        bool passed = GradientTester::DoGradientTest(l, t->data, t->delta, out, a[2] / 1024.0, nothing, own);
        vt::emit(vt::ev("Layer").i("i", a[0]).i("j", a[1]).b("passed", passed).raw("w", weights()));
      }
      else return 3;
    }
  }
  return 0;
}
