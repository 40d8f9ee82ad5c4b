// Executes scenarios of spec/Draw.tla: NetGraph::PrintGraph on networks of stand-in layers.
#include <cn24.h>
#include "h.h"
using namespace Conv;
struct Dummy : public Layer {
  std::vector<std::vector<long>> d; std::string desc;
  Dummy(const std::vector<std::vector<long>>& d, const std::string& desc) : Layer(""), d(d), desc(desc) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { for (auto& x : d) o.push_back(new CombinedTensor(x[0], x[1], x[2], x[3])); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {}
  void BackPropagate() {}
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { for (size_t i = 0; i < d.size(); i++) { NetGraphBuffer x; x.description = "buffer " + std::to_string(i); b.push_back(x); } }
  std::string GetLayerDescription() { return desc; }
};
static std::string node(NetGraph& g, NetGraphNode* n, const std::vector<std::vector<long>>* planned) {
  vt::J bufs(false), con(false);
  for (size_t i = 0; i < n->output_buffers.size(); i++) {
    std::vector<long> d = planned ? (*planned)[i] : vt::dims(n->output_buffers[i].combined_tensor->data);
    bufs.addraw(vt::J().t("desc", n->output_buffers[i].description).arr("d", d).str());
  }
  for (auto& c : n->input_connections) { long t = 0; for (size_t i = 0; i < g.GetNodes().size(); i++) if (g.GetNodes()[i] == c.node) t = i + 1; con.addraw(vt::J().i("t", t).i("b", c.buffer).b("bp", c.backprop).str()); }
  return vt::J().t("name", n->unique_name).t("desc", n->layer->GetLayerDescription()).b("inp", n->is_input).b("out", n->is_output).raw("bufs", bufs.str()).raw("con", con.str()).str();
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  long serial = 0;
  for (auto& w : lines) {
    vt::emit(vt::ev("Begin"));
    NetGraph* g = new NetGraph(); std::vector<NetGraphNode*> n;
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++]; std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Add") {
        size_t k = 0; auto nx = [&]() { return a.at(k++); };
        long own = nx(), inp = nx(), out = nx(), nb = nx(); std::vector<std::vector<long>> d;
        for (long i = 0; i < nb; i++) { std::vector<long> x; for (int j = 0; j < 4; j++) x.push_back(nx()); d.push_back(x); }
        NetGraphNode* x = new NetGraphNode(new Dummy(d, own == 1 ? "Layer (with: details)" : "Layer")); x->is_input = inp; x->is_output = out;
        std::string name = own ? "my" + std::to_string(++serial) : ""; x->unique_name = name;
        for (long c = nx(); c > 0; c--) { long t = nx(), b = nx(), bp = nx(); x->input_connections.push_back(NetGraphConnection(n[t - 1], b, bp != 0)); }
        g->AddNode(x); n.push_back(x);
        vt::emit(vt::ev("Add").t("own", name).raw("n", node(*g, x, &d)));
      }
      else if (op == "Init") { g->Initialize(); n = g->GetNodes(); vt::J all(false); for (auto x : n) all.addraw(node(*g, x, nullptr)); vt::emit(vt::ev("Init").raw("net", all.str())); }
      else if (op == "Mark") { n[a[0] - 1]->is_input = a[1]; n[a[0] - 1]->is_output = a[2]; vt::emit(vt::ev("Mark").i("i", a[0]).b("a", a[1]).b("o", a[2])); }
      else if (op == "Flow") { n[a[0] - 1]->input_connections[a[1] - 1].backprop = a[2]; vt::emit(vt::ev("Flow").i("i", a[0]).i("k", a[1]).b("b", a[2])); }
      else if (op == "Name") { std::string s = "n_" + std::to_string(a[1]) + "_" + std::to_string(++serial); n[a[0] - 1]->unique_name = s; vt::emit(vt::ev("Name").i("i", a[0]).t("s", s)); }
      else if (op == "Draw") {
        std::ostringstream o; g->PrintGraph(o); std::string s = o.str();
        vt::J L(false); size_t at = 0;               // statements end with "];" ; white space between them does not matter
        while (at < s.size()) { size_t e = s.find("];", at); std::string t = e == std::string::npos ? s.substr(at) : s.substr(at, e + 2 - at); at = e == std::string::npos ? s.size() : e + 2;
          size_t b = t.find_first_not_of(" \n\t"); if (b != std::string::npos) L.addt(t.substr(b)); }
        vt::emit(vt::ev("Draw").raw("lines", L.str()));
      }
      else return 3;
    }
  }
  return 0;
}
