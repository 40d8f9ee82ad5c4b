// Executes scenarios of spec/NetShape.tla on NetGraph::AddNode and NetGraph::IsComplete.
#include <cn24.h>
#include "h.h"
using namespace Conv;
struct Dummy : public Layer {
  long nb; explicit Dummy(long nb) : Layer(""), nb(nb) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return false; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return false; }
  void FeedForward() {}
  void BackPropagate() {}
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { for (long i = 0; i < nb; i++) b.push_back(NetGraphBuffer()); }
};
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& w : lines) {
    NetGraph g; std::vector<NetGraphNode*> n; std::vector<Layer*> L;
    auto ans = [&](vt::J j) { vt::emit(j.b("complete", g.IsComplete())); };
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Pool") {
        size_t q = 1; std::vector<std::vector<long>> con;
        vt::J pool(false);
        for (long i = 0; i < a[0]; i++) {
          long inp = a[q], out = a[q + 1], nb = a[q + 2], k = a[q + 3]; q += 4;
          L.push_back(new Dummy(nb)); n.push_back(new NetGraphNode(L.back()));
          n.back()->is_input = inp != 0; n.back()->is_output = out != 0;
          vt::J c(false); std::vector<long> cc;
          for (long x = 0; x < k; x++, q += 3) { c.addraw("[" + std::to_string(a[q]) + "," + std::to_string(a[q + 1]) + "]"); for (int y = 0; y < 3; y++) cc.push_back(a[q + y]); }
          con.push_back(cc);
          vt::J o; o.b("inp", inp != 0).b("out", out != 0).b("named", false).b("layer", true).i("nb", nb).raw("con", c.str());
          pool.addraw(o.str());
        }
        for (size_t i = 0; i < con.size(); i++) for (size_t x = 0; x < con[i].size(); x += 3)
          n[i]->input_connections.push_back(NetGraphConnection(con[i][x] == 0 ? nullptr : n[con[i][x] - 1], con[i][x + 1] - 1, con[i][x + 2] != 0));
        vt::emit(vt::ev("Begin").raw("pool", pool.str()));
      }
      else if (op == "Add") { bool ok = true; try { g.AddNode(n[a[0] - 1]); } catch (std::runtime_error&) { ok = false; } ans(vt::ev("Add").i("i", a[0]).b("ok", ok)); }
      else if (op == "Unname") { n[a[0] - 1]->unique_name = ""; ans(vt::ev("Unname").i("i", a[0])); }
      else if (op == "Unlayer") { n[a[0] - 1]->layer = nullptr; ans(vt::ev("Unlayer").i("i", a[0])); }
      else if (op == "Layer") { n[a[0] - 1]->layer = L[a[0] - 1]; ans(vt::ev("Layer").i("i", a[0])); }
      else if (op == "Mark") { n[a[0] - 1]->is_input = a[1] != 0; n[a[0] - 1]->is_output = a[2] != 0; ans(vt::ev("Mark").i("i", a[0]).b("a", a[1] != 0).b("o", a[2] != 0)); }
      else if (op == "Point") { auto& c = n[a[0] - 1]->input_connections[a[1] - 1]; c.node = a[2] == 0 ? nullptr : n[a[2] - 1]; c.buffer = a[3] - 1; ans(vt::ev("Point").i("i", a[0]).i("k", a[1]).i("t", a[2]).i("b", a[3])); }
      else return 3;
    }
  }
  return 0;
}
