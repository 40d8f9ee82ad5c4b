// Executes scenarios of spec/Trainer.tla on the real Trainer, NetGraph and StatAggregator; the layers are stand-ins which
// log what they see and produce scripted gradients and losses.
#include <cn24.h>
#include "h.h"
using namespace Conv;
static const double U = 1024;
struct Train; struct Stat_; struct Par;
static std::vector<Train*> trains; static std::vector<Stat_*> stats; static std::vector<Par*> pars;
static NetGraph* net = nullptr; static vt::R* rnd = nullptr; static long gmax = 4;
static bool mode_of(Train*); static bool enabled_of(Stat_*);
static vt::J seen(const char* name);
struct Train : public Layer, public TrainingLayer {
  int id; bool testing = false; long n, m, b, w, h; float p;
  Train(int id, long n, long m, long b, long w, long h, float p) : Layer(""), id(id), n(n), m(m), b(b), w(w), h(h), p(p) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(b, w, h, 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() { if (id == 0) vt::emit(seen("FF").b("net", net->IsTesting())); }
  void BackPropagate() {}
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
  void SetTestingMode(bool t) { testing = t; }
  unsigned int GetSamplesInTrainingSet() { return n; } unsigned int GetSamplesInTestingSet() { return m; }
  unsigned int GetBatchSize() { return b; } datum GetLossSamplingProbability() { return p; }
  unsigned int GetLabelWidth() { return w; } unsigned int GetLabelHeight() { return h; }
};
struct Par : public Layer {
  int id; Par(int id, float llr, const std::vector<long>& sizes) : Layer(""), id(id) {
    local_lr_ = llr;
    for (size_t p = 0; p < sizes.size(); p++) parameters_.push_back(p % 2 ? new CombinedTensor(sizes[p], 1, 1, 1) : new CombinedTensor(1, 1, sizes[p], 1));
  }
  bool CreateOutputs(const std::vector<CombinedTensor*>& i, std::vector<CombinedTensor*>& o) { o.push_back(new CombinedTensor(i[0]->data.samples(), i[0]->data.width(), i[0]->data.height(), 1)); return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {}
  void BackPropagate() {
    std::vector<long> g;
    for (auto t : parameters_) for (size_t e = 0; e < t->delta.elements(); e++) { long v = rnd->in(0, 4) ? rnd->in(-gmax, gmax) : 0; t->delta.data_ptr()[e] = v; g.push_back(v); }
    vt::emit(vt::ev("B").i("k", id).arr("g", g));
  }
  void CreateBufferDescriptors(std::vector<NetGraphBuffer>& b) { b.push_back(NetGraphBuffer()); }
};
struct Loss_ : public Layer, public LossFunctionLayer {
  int id; explicit Loss_(int id) : Layer(""), id(id) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {} void BackPropagate() {}
  datum CalculateLossFunction() { long v = rnd->in(0, 20); vt::emit(vt::ev("L").i("i", id).i("v", v)); return v; }
};
struct Stat_ : public Layer, public StatLayer {
  int id; bool disabled = false; explicit Stat_(int id) : Layer(""), id(id) {}
  bool CreateOutputs(const std::vector<CombinedTensor*>&, std::vector<CombinedTensor*>&) { return true; }
  bool Connect(const std::vector<CombinedTensor*>&, const std::vector<CombinedTensor*>&, const NetStatus*) { return true; }
  void FeedForward() {} void BackPropagate() {}
  void UpdateAll() { vt::emit(vt::ev("U").i("i", id)); }
  void Print(std::string prefix, bool training) {
    // the epoch is the only number in front of the statistic
    size_t k = prefix.find_first_of("0123456789"); vt::emit(vt::ev("P").i("i", id).b("tr", training).i("ep", k == std::string::npos ? -1 : atol(prefix.c_str() + k)));
  }
  void Reset() { vt::emit(vt::ev("StatReset").i("i", id)); }
  void SetDisabled(bool d) { disabled = d; }
};
struct Sink : public StatSink {
  std::vector<StatDescriptor*> d;
  void Initialize(std::vector<StatDescriptor*>& x) { d = x; }
  void SetCurrentExperiment(std::string) {}
  void Process(HardcodedStats& hc, std::vector<Stat*>& s) {
    auto at = [&](const char* name) -> Stat& { for (size_t i = 0; i < d.size(); i++) if (d[i]->description == name) return *s[i]; throw std::runtime_error("no such statistic"); };
    auto v = [](Stat& x, double f) { return x.is_null ? 0L : vt::fixed(x.value, f); };
    Stat& l = at("Average Aggregate Loss"); Stat& a = at("QuickProp Case A Percentage"); Stat& b = at("QuickProp Case B Percentage"); Stat& c = at("QuickProp Case C Percentage"); Stat& m = at("QuickProp Case M Percentage"); Stat& px = at("Pixel Throughput"); Stat& fr = at("Frame Rate"); double t = hc.seconds_elapsed; bool timed = t > 0;
    vt::emit(vt::ev("Rep").i("ep", hc.epoch).i("it", hc.iterations).i("w", hc.weights).b("tr", hc.is_training).b("lnull", l.is_null).i("l", v(l, 4096))
      .b("qnull", a.is_null).b("q2", b.is_null == a.is_null && c.is_null == a.is_null && m.is_null == a.is_null).i("a", v(a, 1000)).i("b", v(b, 1000)).i("c", v(c, 1000)).i("m", v(m, 1000))
      .b("tnull", px.is_null).b("t2", fr.is_null == px.is_null).b("timed", timed).i("px", timed ? v(px, t) : 0).i("fr", timed ? v(fr, t) : 0));
  }
};
static vt::J seen(const char* name) {
  std::vector<long> w, s;
  for (auto l : pars) for (auto t : l->parameters()) for (size_t e = 0; e < t->data.elements(); e++) { float x = t->data.data_ptr()[e]; w.push_back(vt::fixed(x, U)); s.push_back((x > 0) - (x < 0)); }
  vt::J m(false), n(false); for (auto t : trains) m.addraw(t->testing ? "true" : "false"); for (auto t : stats) n.addraw(t->disabled ? "false" : "true");
  return vt::ev(name).arr("W", w).arr("S", s).raw("modes", m.str()).raw("en", n.str());
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  Sink sink; System::stat_aggregator->RegisterSink(&sink); bool init = false;
  for (auto& words : lines) {
    Trainer* trainer = nullptr; trains.clear(); stats.clear(); pars.clear();
    size_t p = 0;
    while (p < words.size()) {
      std::string op = words[p++]; std::vector<long> a;
      while (p < words.size() && words[p] != ";") a.push_back(atol(words[p++].c_str()));
      p++;
      if (op == "Conf") {
        // seed a c d m mu gn x q sb iters trainn testn batch lw lh etr tr quick sdt nloss nstat ntrain order then e sizes..
        size_t k = 0; auto nx = [&]() { return a.at(k++); };
        long seed = nx(); TrainerSettings s; long A = nx(), C = nx(), D = nx(), M = nx(), MU = nx(), GN = nx(), X = nx(), Q = nx(), SB = nx(), IT = nx(), TN = nx(), TM = nx(), B = nx(), LW = nx(), LH = nx(), ET = nx(), TR = nx(), QP = nx(), SD = nx(), NL = nx(), NS = nx(), NT = nx(), ORD = nx();
        s.learning_rate = A / 8.0; s.l1_weight = C / 8.0; s.l2_weight = D / 8.0; s.momentum = M / 4.0; s.mu = MU / 4.0; s.gamma = GN / 2.0; s.exponent = X;
        s.sbatchsize = SB; s.iterations = IT; s.epoch_training_ratio = ET / 4.0; s.testing_ratio = TR / 4.0; s.optimization_method = QP ? QUICKPROP : GRADIENT_DESCENT; s.stats_during_training = SD != 0;
        rnd = new vt::R(seed); gmax = QP ? 4 : 8;
        net = new NetGraph(); std::vector<NetGraphNode*> nodes; NetGraphNode* prev = nullptr;
        for (long i = 0; i < NT; i++) { Train* t = i == 0 ? new Train(0, TN, TM, B, LW, LH, Q / 4.0) : new Train(i, TN + 1, TM + 2, B, LW, LH, 0.5); trains.push_back(t); NetGraphNode* n = new NetGraphNode(t); n->is_input = true; if (!prev) prev = n; nodes.push_back(n); }
        vt::J lay(false); int id = 1;
        while (k < a.size()) {
          long e = nx(), c = nx(); std::vector<long> sz; long tot = 0; for (long i = 0; i < c; i++) { sz.push_back(nx()); tot += sz.back(); }
          Par* l = new Par(id++, e / 4.0, sz); pars.push_back(l); NetGraphNode* n = new NetGraphNode(l, NetGraphConnection(prev)); prev = n; nodes.push_back(n);
          lay.addraw(vt::J().i("e", e).i("n", tot).str());
        }
        for (long i = 0; i < NL; i++) nodes.push_back(new NetGraphNode(new Loss_(i + 1), NetGraphConnection(prev)));
        for (long i = 0; i < NS; i++) { Stat_* t = new Stat_(i + 1); stats.push_back(t); nodes.push_back(new NetGraphNode(t, NetGraphConnection(prev, 0, false))); }
        prev->is_output = true;
        // nodes may be added in any order; those with parameters, losses and statistics keep their order among each other
        if (ORD == 1) std::rotate(nodes.begin(), nodes.begin() + NT + pars.size(), nodes.end());
        if (ORD == 2) std::rotate(nodes.begin() + NT, nodes.begin() + NT + pars.size(), nodes.end());
        for (auto n : nodes) net->AddNode(n);
        net->Initialize();
        for (auto l : pars) for (auto t : l->parameters()) for (size_t e = 0; e < t->data.elements(); e++) t->data.data_ptr()[e] = rnd->in(-8, 8) / 4.0;
        trainer = new Trainer(*net, s);
        if (!init) { System::stat_aggregator->Initialize(); init = true; }
        System::stat_aggregator->StopRecording(); System::stat_aggregator->Reset(); net->SetIsTesting(true);
        vt::J c; c.raw("lay", lay.str()).i("a", A).i("c", C).i("d", D).i("m", M).i("mu", MU).i("gn", GN).i("x", X).i("q", Q).i("sb", SB).i("iters", IT).i("trainn", TN).i("testn", TM).i("batch", B).i("s", B * LW * LH).i("etr", ET).i("tr", TR).b("quick", QP).b("sdt", SD).i("nloss", NL).i("nstat", NS);
        vt::emit(seen("Begin").raw("cfg", c.str()));
      }
      else if (op == "Train") { vt::emit(vt::ev("Train").i("n", a[0]).b("snap", a[1])); trainer->Train(a[0], a[1]); vt::emit(seen("End").i("epoch", trainer->epoch())); }
      else if (op == "Test") { vt::emit(vt::ev("Test")); trainer->Test(); vt::emit(seen("End").i("epoch", trainer->epoch())); }
      else if (op == "Reset") { trainer->Reset(); vt::emit(vt::ev("Reset")); }
      else if (op == "SetEpoch") { trainer->SetEpoch(a[0]); vt::emit(vt::ev("SetEpoch").i("n", a[0])); }
      else if (op == "Stats") { trainer->SetStatsDuringTraining(a[0]); vt::emit(vt::ev("Stats").b("b", a[0])); }
      else if (op == "Rec") { System::stat_aggregator->StartRecording(); vt::emit(vt::ev("Rec")); }
      else if (op == "Stop") { System::stat_aggregator->StopRecording(); vt::emit(vt::ev("Stop")); }
      else if (op == "Clear") { System::stat_aggregator->Reset(); vt::emit(vt::ev("Clear")); }
      else if (op == "Gen") System::stat_aggregator->Generate();
      else return 3;
    }
    delete trainer;
  }
  return 0;
}
