// Executes scenarios of spec/Classify.tla on the real ConfusionMatrixLayer and BinaryStatLayer.
#include <cn24.h>
#include "h.h"
using namespace Conv;
static std::string rates; 
struct Sink : public StatSink {
  void Initialize(std::vector<StatDescriptor*>&) {} void SetCurrentExperiment(std::string) {}
  void Process(HardcodedStats&, std::vector<Stat*>& s) { vt::J v(false); for (auto x : s) v.addraw(x->is_null ? "[]" : "[" + std::to_string(vt::fixed(x->value, 1000)) + "]"); rates = v.str(); }
};
static std::string plain(const std::string& s) {
  std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '\033') { while (i < s.size() && s[i] != 'm') i++; continue; } r += s[i]; } return r;
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& words : lines) {
    StatAggregator* agg = new StatAggregator; System::stat_aggregator = agg; Sink sink; agg->RegisterSink(&sink);
    Layer* layer = nullptr; StatLayer* stat = nullptr; vt::R rnd(1); std::vector<CombinedTensor*> in; NetStatus status; bool conf = false, fine = false; long C = 1, mode = 0; size_t p = 0;
    while (p < words.size()) {
      std::string op = words[p++]; std::vector<long> a; while (p < words.size() && words[p] != ";") a.push_back(atol(words[p++].c_str())); p++;
      if (op == "Conf") {
        long b = a[4], w = a[5], h = a[6]; conf = a[0] == 1; C = conf ? a[2] : 1; mode = a[8]; rnd = vt::R(a[1]);
        static const long N[] = {1, 2, 3, 5, 9, 13, 24, 13}; long n = N[a[3] - 1], lo = -16, hi = 16, d = 16;
        if (a[3] == 1) lo = -8; if (a[3] == 2) hi = 4; if (a[3] == 7) { lo = -11; hi = 12; d = 24; } if (a[3] == 8) { lo = -1; hi = 1; d = 1; } if (a[3] == 6) { lo = -24; hi = 24; } if (a[3] == 5) { lo = -12; hi = 12; d = 8; }
        fine = n > 9;
        if (conf) {
          std::vector<std::string> names; static const char* nm[] = {"sky", "a_very_long_class_name", "tree", "elevenchars", "twelve_chars"}; for (long i = 0; i < C; i++) names.push_back(i < 5 ? nm[i] : "class" + std::to_string(i));
          ConfusionMatrixLayer* l = new ConfusionMatrixLayer(names, C); layer = l; stat = l;
        } else { BinaryStatLayer* l = a[3] == 7 ? new BinaryStatLayer() : new BinaryStatLayer(n, (float)lo / d, (float)hi / d); layer = l; stat = l; }
        if (a[7]) agg->Initialize();
        in = {new CombinedTensor(b, w, h, C), new CombinedTensor(b, w, h, C), new CombinedTensor(b, w, h, 1)};
        std::vector<CombinedTensor*> out;
        if (!layer->CreateOutputs(in, out) || out.size() || !layer->Connect(in, out, &status)) return 4;
        if (!a[7]) agg->Initialize();
        vt::emit(vt::ev("Begin").raw("cf", vt::J().t("kind", conf ? "conf" : "bin").i("c", C).i("n", n).i("lo", lo).i("hi", hi).i("d", d).i("b", b).i("p", w * h).str()));
      }
      else if (op == "FF") {
        for (size_t e = 0; e < in[0]->data.elements(); e++) {
          long v = mode == 1 ? -rnd.in(1, 3) * 16 : mode == 2 ? rnd.in(-2, 2) * 8 : rnd.in(-40, 40); if (fine) v = 2 * (v / 2) + 1;
          in[0]->data.data_ptr()[e] = v / 16.0;
        }
        for (size_t e = 0; e < in[1]->data.elements(); e++) in[1]->data.data_ptr()[e] = conf ? 0 : mode == 3 ? -1 : rnd.in(0, 2) ? -rnd.in(0, 3) / 2.0 : rnd.in(1, 3) / 2.0;
        if (conf) for (size_t s = 0; s < in[1]->data.samples(); s++) for (size_t y = 0; y < in[1]->data.height(); y++) for (size_t x = 0; x < in[1]->data.width(); x++) {
          long c = mode == 3 ? 0 : rnd.in(-1, C - 1); if (c >= 0) *in[1]->data.data_ptr(x, y, c, s) = 1;
        }
        for (size_t e = 0; e < in[2]->data.elements(); e++) in[2]->data.data_ptr()[e] = mode == 4 ? (rnd.in(0, 5) ? 0 : 0.25) : rnd.in(0, 8) / 4.0;
        auto o = vt::vals(in[0]->data, 16), t = vt::vals(in[1]->data, 16), w = vt::vals(in[2]->data, 4);
        layer->FeedForward();
        if (rnd.in(0, 1)) layer->BackPropagate();
        vt::emit(vt::ev("FF").arr("o", o).arr("t", t).arr("w", w));
      }
      else if (op == "Dis") { stat->SetDisabled(a[0] == 1); vt::emit(vt::ev("Dis").b("b", a[0] == 1)); }
      else if (op == "ResetL") { stat->Reset(); vt::emit(vt::ev("ResetL")); }
      else if (op == "Start") { agg->StartRecording(); vt::emit(vt::ev("Start")); }
      else if (op == "Stop") { agg->StopRecording(); vt::emit(vt::ev("Stop")); }
      else if (op == "Clear") { agg->Reset(); vt::emit(vt::ev("Clear")); }
      else if (op == "Update") { stat->UpdateAll(); vt::emit(vt::ev("Update")); }
      else if (op == "Gen") { rates = ""; agg->Generate(); vt::emit(vt::ev("Gen").raw("v", rates)); }
      else if (op == "Print") {
        std::ostringstream os; auto* old = std::cout.rdbuf(os.rdbuf()); stat->Print("px", rnd.in(0, 1)); std::cout.rdbuf(old);
        std::istringstream is(plain(os.str())); std::string line; vt::J cells(false), rr(false), iu(false); long avg = vt::BAD, row = -1;
        while (std::getline(is, line)) {
          if (line.empty()) continue;
          line = line.substr(11); std::istringstream ls(line); std::string name, key; double v;
          if (line.find("Average inter") != std::string::npos) { avg = vt::fixed(strtod(line.c_str() + line.find(':') + 1, 0), 1000); continue; }
          if (line.find(" RR: ") != std::string::npos) { rr.add(vt::fixed(strtod(line.c_str() + line.find(" RR: ") + 5, 0), 1000)); continue; }
          if (line.find(" IU: ") != std::string::npos) { iu.add(vt::fixed(strtod(line.c_str() + line.find(" IU: ") + 5, 0), 1000)); continue; }
          if (row++ < 0) continue;
          ls >> name; while (ls >> v) cells.add((long)v);
        }
        vt::emit(vt::ev("Print").raw("cells", cells.str()).raw("rr", rr.str()).raw("iu", iu.str()).i("avg", avg));
      }
      else return 3;
    }
  }
  return 0;
}
