// Executes interleaved runs of spec/Repro.tla: networks assembled by the factory, trained on generated images; memory
// handed out by the allocator is filled with a different pattern for every run.
#include <cn24.h>
#include "FloatTensorStream.h"
#include "ErrorLayer.h"
#include "NonLinearityLayer.h"
#include "h.h"
#include <malloc.h>
using namespace Conv;
typedef std::vector<long> L;
struct Net { const char* text; std::vector<L> chain; };          // chain: layers that have or pass on a gain
static const std::vector<Net> nets = {
  {"?convolutional size=3x3 kernels=4\n?tanh\n?fullyconnected neurons=(o)\n?output\n", {{1, 3, 3, 4}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=3x2 kernels=5\n?maxpooling size=2x2\n?relu\n?convolutional size=2x2 kernels=6\n?relu\n?fullyconnected neurons=(o)\n?output\n", {{1, 3, 2, 5}, {2, 2, 2}, {3}, {1, 2, 2, 6}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=3x3 kernels=4\n?amaxpooling size=2x2 stride=2x2\n?sigm\n?convolutional size=1x1 kernels=8 llr=0.5\n?sigm\n?convolutional size=1x1 kernels=(o)\n?output\n", {{1, 3, 3, 4}, {2, 2, 2}, {3}, {1, 1, 1, 8}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=2x2 kernels=4\n?hmax mu=0.5 weight=0.25\n?convolutional size=2x2 kernels=4 group=2\n?tanh\n?convolutional size=1x1 kernels=(o)\n?output\n", {{1, 2, 2, 4}, {3}, {1, 2, 2, 4}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=3x3 kernels=6\n?lrn size=3 alpha=0.5 beta=0.75 method=across\n?tanh\n?convolutional size=1x1 kernels=(o)\n?output\n", {{1, 3, 3, 6}, {3}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=2x2 kernels=6\n?maxpooling size=4x4\n?tanh\n?fullyconnected neurons=(o)\n?output weight=0.5\n", {{1, 2, 2, 6}, {2, 4, 4}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=1x1 kernels=7\n?relu\n?convolutional size=1x1 kernels=7\n?relu\n?convolutional size=1x1 kernels=7\n?relu\n?convolutional size=1x1 kernels=(o)\n?output\n", {{1, 1, 1, 7}, {3}, {1, 1, 1, 7}, {3}, {1, 1, 1, 7}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=5x1 kernels=4\n?tanh\n?convolutional size=1x3 kernels=4\n?maxpooling size=4x2\n?tanh\n?fullyconnected neurons=(o)\n?output\n", {{1, 5, 1, 4}, {3}, {1, 1, 3, 4}, {2, 4, 2}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  {"?convolutional size=3x3 kernels=4\n?sigm\n?convolutional size=3x3 kernels=4\n?sigm\n?convolutional size=1x1 kernels=(o)\n?output\n", {{1, 3, 3, 4}, {3}, {1, 3, 3, 4}, {3}, {1, 1, 1, 2}, {3}, {3}}},
  // assembled by hand: the layers have the seeds fs, fs + 1, ...
  {"", {{1, 3, 3, 4}, {3}, {1, 3, 1, 5}, {1, 1, 1, 2}, {3}}}, {"", {{1, 3, 3, 4}, {3}, {1, 3, 1, 5}, {1, 1, 1, 2}, {3}}}, {"", {{1, 3, 3, 4}, {3}, {1, 3, 1, 5}, {1, 1, 1, 2}, {3}}}};
static void by_hand(NetGraph& g, NetGraphNode* in, long seed) {
  Layer* ls[] = {new ConvolutionLayer(3, 3, 4, 1, 1, 1, 1, 1, seed), new TanhLayer(""), new ConvolutionLayer(3, 1, 5, 1, 1, 1, 0, 1, seed + 1), new ConvolutionLayer(1, 1, 2, 1, 1, 0, 0, 1, seed + 2), new SigmoidLayer("")};
  NetGraphNode* prev = in;
  for (Layer* l : ls) { NetGraphNode* n = new NetGraphNode(l, NetGraphConnection(prev, 0, prev != in)); g.AddNode(n); prev = n; }
  prev->is_output = true;
  NetGraphNode* e = new NetGraphNode(new ErrorLayer(1.0)); e->input_connections = {NetGraphConnection(prev), NetGraphConnection(in, 1, false), NetGraphConnection(in, 3, false)}; g.AddNode(e);
}
struct Run { Dataset* data; NetGraph* g; Trainer* t; long net; std::istringstream* txt; Factory* f; };
static long hash(const Tensor& t) { uint32_t h = 2166136261u; for (size_t e = 0; e < t.elements(); e++) { uint32_t b = vt::bits(t.data_ptr_const()[e]); for (int k = 0; k < 4; k++) h = (h ^ ((b >> 8 * k) & 255)) * 16777619u; } return (long)(h >> 1); }
static Tensor* image(vt::R& r, long w, long h, long m, bool label) { Tensor* t = new Tensor(1, w, h, m); for (size_t e = 0; e < t->elements(); e++) t->data_ptr()[e] = label ? (datum)r.in(0, 1) : r.in(-64, 64) / (datum)64; return t; }
struct Stream : public TensorStream {            // images generated from their number
  std::vector<Tensor*> ts;
  Stream(long n, long seed) { vt::R r(seed); for (long i = 0; i < n; i++) { long w = 24 - (i % 3), h = 18 + (i % 2); ts.push_back(image(r, w, h, 3, false)); ts.push_back(image(r, w, h, 2, true)); } }
  std::size_t GetWidth(unsigned int i) { return i < ts.size() ? ts[i]->width() : 0; } std::size_t GetHeight(unsigned int i) { return i < ts.size() ? ts[i]->height() : 0; }
  std::size_t GetMaps(unsigned int i) { return i < ts.size() ? ts[i]->maps() : 0; } std::size_t GetSamples(unsigned int i) { return i < ts.size() ? ts[i]->samples() : 0; }
  unsigned int GetTensorCount() { return ts.size(); } unsigned int LoadFile(std::string) { return 0; }
  bool CopySample(const unsigned int s, const std::size_t ss, Tensor& t, const std::size_t target) { return s < ts.size() && Tensor::CopySample(*ts[s], ss, t, target); }
};
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& words : lines) {
    vt::emit(vt::ev("Begin"));
    std::vector<Run> runs; size_t p = 0;
    while (p < words.size()) {
      std::string op = words[p++]; L a; while (p < words.size() && words[p] != ";") a.push_back(atol(words[p++].c_str())); p++;
      mallopt(M_PERTURB, (int)(37 * (p + a[0]) % 255));
      if (op == "B") {
        // i net fs ds opt patch
        Run r; r.net = a[1] - 1; bool patch = a[5] == 0 && r.net < 9;
        std::string text = nets[r.net].text; std::ostringstream s; s << (patch ? "method=patch\n" : "") << text << "lr=0.01\nl1=0.001\nl2=0.0005\nmomentum=0.9\ngamma=0.01\niterations=3\nsbatchsize=2\npbatchsize=2\noptimization=" << (a[4] ? "quickprop" : "gradient_descent") << "\n";
        r.txt = new std::istringstream(s.str()); r.f = new ConfigurableFactory(*r.txt, a[2], true); r.f->InitOptimalSettings();
        std::vector<std::string> names = {"a", "b"}; std::vector<unsigned> cols = {0, 1}; std::vector<datum> ws = {1, 0.5};
        if (patch) {
          std::stringstream *tr = new std::stringstream, *te = new std::stringstream; Stream A(3, 5), B(2, 7); for (auto t : A.ts) t->Serialize(*tr); for (auto t : B.ts) t->Serialize(*te);
          r.data = new TensorStreamPatchDataset(*tr, *te, 2, names, cols, ws, r.f->patchsizex(), r.f->patchsizey());
        } else r.data = new TensorStreamDataset(new Stream(5, 5), new Stream(3, 7), 2, names, cols, ws);
        r.g = new NetGraph(); NetGraphNode* in = new NetGraphNode(new DatasetInputLayer(*r.data, 2, patch ? 1.0 : 0.5, a[3])); in->is_input = true; r.g->AddNode(in);
        if (r.net >= 9) by_hand(*r.g, in, a[2]);
        else if (!r.f->AddLayers(*r.g, NetGraphConnection(in), 2, true)) return 3;
        r.g->Initialize();
        NetGraph& g = *r.g; r.t = nullptr; (void)g;
        runs.push_back(r);
        vt::emit(vt::ev("B").i("i", a[0]).i("net", a[1]).i("fs", a[2]).i("ds", a[3]).i("opt", a[4]).i("patch", a[5]));
        continue;
      }
      Run& r = runs[a[0] - 1]; if (!r.t) r.t = new Trainer(*r.g, r.f->optimal_settings());
      if (op == "I") r.g->InitializeWeights(); else if (op == "T") r.t->Train(a[1], false); else if (op == "E") r.t->Test(); else if (op == "S") r.t->SetEpoch(a[1]);
      vt::J e = vt::ev("Op"); e.i("i", a[0]).raw("op", "[\"" + op + "\"," + std::to_string(a.size() > 1 ? a[1] : 0) + "]");
      vt::J h(false); for (auto n : r.g->GetNodes()) for (auto q : n->layer->parameters()) h.add(hash(q->data)); e.raw("hash", h.str());
      if (op == "I") {
        vt::J cs(false), ls(false), ch(false); bool other = true; size_t at = 0; auto& chain = nets[r.net].chain;
        for (auto n : r.g->GetNodes()) {
          auto& ps = n->layer->parameters();
          if (ConvolutionLayer* c = dynamic_cast<ConvolutionLayer*>(n->layer)) {
            while (at < chain.size() && chain[at][0] != 1) at++;
            at++; double mx = 0, mn = 0; bool fin = true; Tensor& w = ps[0]->data; for (size_t k = 0; k < w.elements(); k++) { double v = w.data_ptr()[k]; fin &= std::isfinite(v); mx = std::max(mx, v); mn = std::min(mn, v); }
            bool zero = true; for (size_t k = 0; k < ps[1]->data.elements(); k++) zero &= ps[1]->data.data_ptr()[k] == 0;
            // hash of the first weights, so that equal draws show whatever the number of weights
            Tensor f(1, 1, 1, std::min<size_t>(8, w.elements())); for (size_t k = 0; k < f.elements(); k++) f.data_ptr()[k] = std::floor(w.data_ptr()[k] / w.data_ptr()[0] * 1000 + 0.5); (void)c;   // independent of the range
            cs.add(hash(f)); ls.addraw(vt::J().i("at", at).i("n", w.elements()).b("finite", fin).b("bias", zero).i("max", fin ? (long)(mx * 256) : 9999).i("min", fin ? (long)(-mn * 256) : 9999).str());
          } else for (auto q : ps) for (size_t k = 0; k < q->data.elements(); k++) other &= q->data.data_ptr()[k] == 1;
        }
        for (auto& c : chain) { vt::J x(false); for (long v : c) x.add(v); ch.addraw(x.str()); }
        e.raw("convs", cs.str()).raw("layers", ls.str()).raw("chain", ch.str()).i("maps", 3).b("other", other);
      }
      vt::emit(e);
    }
  }
  return 0;
}
