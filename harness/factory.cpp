// Renders descriptions of spec/Factory.tla as text, assembles them with the real ConfigurableFactory and reports the graph;
// "fits" are the lines whose explicitly constructed layer behaves like the node's layer.
#include <cn24.h>
#include "ConcatenationLayer.h"
#include "SumLayer.h"
#include "h.h"
using namespace Conv;
typedef std::vector<long> L; typedef std::vector<CombinedTensor*> CTs;
static std::string pair(long a, long b) { return std::to_string(a) + "x" + std::to_string(b); }
static std::string dec(long v) { char b[20]; snprintf(b, 20, "%ld.%03ld", v / 1000, v % 1000); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s; }
static int kind(Layer* l) {
  if (dynamic_cast<InputLayer*>(l)) return 0; if (dynamic_cast<ConvolutionLayer*>(l)) return 1; if (dynamic_cast<LocalResponseNormalizationLayer*>(l)) return 3;
  if (dynamic_cast<MaxPoolingLayer*>(l)) return 4; if (dynamic_cast<InputDownSamplingLayer*>(l)) return 5; if (dynamic_cast<AdvancedMaxPoolingLayer*>(l)) return 6;
  if (dynamic_cast<SigmoidLayer*>(l)) return 7; if (dynamic_cast<TanhLayer*>(l)) return 8; if (dynamic_cast<ReLULayer*>(l)) return 9; if (dynamic_cast<HMaxActivationFunction*>(l)) return 10;
  if (dynamic_cast<ConcatenationLayer*>(l)) return 13; if (dynamic_cast<SumLayer*>(l)) return 14; if (dynamic_cast<UpscaleLayer*>(l)) return 16; if (dynamic_cast<ResizeLayer*>(l)) return 21; if (dynamic_cast<ErrorLayer*>(l)) return 22;
  return 99;
}
struct Acc : public Layer { static datum lr(Layer* l) { return l->*(&Acc::local_lr_); } };
static datum th(long v) { return (datum)(v / 1000.0); }
static Layer* reference(int k, const L& ln, long classes) {   // the layer line ln describes, if it is of kind k
  Layer* r = nullptr;
  if (k == 1 && ln[0] == 1) { r = new ConvolutionLayer(ln[1], ln[2], ln[3] ? ln[3] : classes, ln[4], ln[5], ln[6], ln[7], ln[8], 1, th(ln[10])); r->SetLocalLearningRate(th(ln[9])); }
  if (k == 1 && ln[0] == 2) r = new ConvolutionLayer(1, 1, ln[1] ? ln[1] : classes, 1, 1, 0, 0, 1, 1, 0);
  if (k == 3 && ln[0] == 3) r = new LocalResponseNormalizationLayer(ln[2], th(ln[3]), th(ln[4]), ln[1] ? LocalResponseNormalizationLayer::ACROSS_CHANNELS : LocalResponseNormalizationLayer::WITHIN_CHANNELS);
  if (k == 4 && ln[0] == 4) r = new MaxPoolingLayer(ln[1], ln[2]);
  if (k == 5 && ln[0] == 5) r = new InputDownSamplingLayer(ln[1], ln[2]);
  if (k == 6 && ln[0] == 6) r = new AdvancedMaxPoolingLayer(ln[1], ln[2], ln[3], ln[4]);
  if (k == 7 && (ln[0] == 7 || (ln[0] == 17 && classes > 1))) r = new SigmoidLayer;
  if (k == 8 && (ln[0] == 8 || (ln[0] == 17 && classes == 1))) r = new TanhLayer;
  if (k == 9 && ln[0] == 9) r = new ReLULayer;
  if (k == 10 && ln[0] == 10) r = new HMaxActivationFunction(th(ln[1]), th(ln[2]));
  if (k == 22 && ln[0] == 17) r = new ErrorLayer(ln[1] < 0 ? 1.0 : th(ln[1]));
  return r;
}
static void fill(Tensor& t, int seed, int d) { vt::R r(seed); for (size_t e = 0; e < t.elements(); e++) t.data_ptr()[e] = r.in(-24, 24) / (double)d; }
static bool same(const Tensor& a, const Tensor& b) { return vt::dims(a) == vt::dims(b) && !memcmp(a.data_ptr_const(), b.data_ptr_const(), a.elements() * sizeof(datum)); }
static bool behaves(NetGraphNode* n, Layer* ref, const NetStatus* st) {
  CTs in, rin, rout; bool bp = false;
  for (auto& c : n->input_connections) { CombinedTensor* t = c.node->output_buffers[c.buffer].combined_tensor; in.push_back(t); bp |= c.backprop;
    fill(t->data, 11 + in.size(), 8); t->delta.Clear(); CombinedTensor* q = new CombinedTensor(t->data.samples(), t->data.width(), t->data.height(), t->data.maps()); fill(q->data, 11 + in.size(), 8); q->delta.Clear(); rin.push_back(q); }
  try { if (!ref->CreateOutputs(rin, rout) || !ref->Connect(rin, rout, st)) return false; } catch (std::runtime_error&) { return false; }
  if (rout.size() != n->output_buffers.size() || ref->parameters().size() != n->layer->parameters().size() || Acc::lr(ref) != Acc::lr(n->layer)) return false;
  bool eq = true;
  for (size_t i = 0; i < ref->parameters().size(); i++) { Tensor &a = n->layer->parameters()[i]->data, &b = ref->parameters()[i]->data; if (vt::dims(a) != vt::dims(b)) eq = false; else { fill(a, 31 + i, 8); fill(b, 31 + i, 8); } }
  for (size_t i = 0; i < rout.size(); i++) { CombinedTensor* o = n->output_buffers[i].combined_tensor; if (vt::dims(o->data) != vt::dims(rout[i]->data)) eq = false; else { fill(o->delta, 51 + i, 4); fill(rout[i]->delta, 51 + i, 4); } }
  if (!eq) return false;
  ref->SetBackpropagationEnabled(bp);
  n->layer->FeedForward(); ref->FeedForward();
  LossFunctionLayer *la = dynamic_cast<LossFunctionLayer*>(n->layer), *lb = dynamic_cast<LossFunctionLayer*>(ref);
  if (la && la->CalculateLossFunction() != lb->CalculateLossFunction()) return false;
  if (kind(ref) != 5) { n->layer->BackPropagate(); ref->BackPropagate(); }
  for (size_t i = 0; i < rout.size(); i++) eq &= same(n->output_buffers[i].combined_tensor->data, rout[i]->data);
  for (size_t i = 0; i < ref->parameters().size(); i++) eq &= same(n->layer->parameters()[i]->delta, ref->parameters()[i]->delta);
  if (bp) for (size_t i = 0; i < in.size(); i++) if (n->input_connections[i].backprop) eq &= same(in[i]->delta, rin[i]->delta);
  return eq;
}
struct Built { NetGraph g; NetGraphNode* input; bool complete; std::vector<long> field; bool patch; };
static std::string text(const std::vector<L>& lines, long classes, vt::R& r) {
  std::string all;
  for (auto& ln : lines) {
    std::vector<std::string> ps; std::string s; bool shuffle = true;
    auto P = [&](const char* k, long a, long b, long da, long db) { if (a != da || b != db || r.chance(40)) ps.push_back(std::string(k) + "=" + pair(a, b)); };
    auto N = [&](const char* k, long a, long d) { if (a != d || r.chance(40)) ps.push_back(std::string(k) + "=" + std::to_string(a)); };
    auto D = [&](const char* k, long a, long d) { if (a != d || r.chance(40)) ps.push_back(std::string(k) + "=" + dec(a)); };
    switch (ln[0]) {
      case 1: s = "?convolutional"; P("size", ln[1], ln[2], 1, 1); P("stride", ln[4], ln[5], 1, 1); P("pad", ln[6], ln[7], 0, 0);
        if (ln[3]) N("kernels", ln[3], 1); else ps.push_back("kernels=(o)"); N("group", ln[8], 1); D("llr", ln[9], 1000); D("dropout", ln[10], 0); break;
      case 2: s = "?fullyconnected"; ps.push_back(ln[1] ? "neurons=" + std::to_string(ln[1]) : "neurons=(o)"); break;
      case 3: s = "?lrn"; ps.push_back(ln[1] ? "method=across" : "method=within"); N("size", ln[2], 1); D("alpha", ln[3], 1000); D("beta", ln[4], 1000); break;
      case 4: s = "?maxpooling"; P("size", ln[1], ln[2], 1, 1); break;
      case 5: s = "?downsampling"; P("size", ln[1], ln[2], 1, 1); break;
      case 6: s = "?amaxpooling"; P("size", ln[1], ln[2], 1, 1); P("stride", ln[3], ln[4], ln[1], ln[2]); break;
      case 7: s = "?sigm"; break; case 8: s = "?tanh"; break; case 9: s = "?relu"; break;
      case 10: s = "?hmax"; D("mu", ln[1], 1000); D("weight", ln[2], 0); break;
      case 11: s = ln[1] == 1 ? "pusha" : "pushb"; break; case 12: s = ln[1] == 1 ? "popa" : "popb"; break;
      case 13: case 14: s = ln[0] == 13 ? "?concat" : "?sum"; if (ln[1] == 2) ps.push_back("stack=b"); else if (r.chance(50)) ps.push_back("stack=a"); break;
      case 15: s = "?spatialprior"; break;
      case 16: s = "?upscale"; P("factor", ln[1], ln[2], 1, 1); N("is_output", ln[3], 0); break;
      case 17: s = "?output"; if (ln[1] >= 0) ps.push_back("weight=" + dec(ln[1])); break;
      case 18: s = "manual"; ps = {"rfx=" + std::to_string(ln[1]), "rfy=" + std::to_string(ln[2]), "factorx=" + std::to_string(ln[3]), "factory=" + std::to_string(ln[4])}; break;
      case 19: { static const char* ns[] = {"", "# ?convolutional size=3x3 kernels=4", "#?maxpooling size=2x2", "l1=0.001", "momentum=0.9", "#method=patch", "iterations=100", "# pusha"}; s = ns[ln[1]]; break; }
      case 20: s = "method=patch"; break;
    }
    for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[r.in(0, i - 1)]);
    for (auto& p : ps) s += " " + p;
    all += s + "\n";
  }
  if (r.chance(30)) all.pop_back();
  return all;
}
int main(int argc, char** argv) {
  auto scn = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& words : scn) {
    // c loss w h m seed ; line ; line ; ...
    std::vector<L> ops; L cur; for (auto& w : words) if (w == ";") { ops.push_back(cur); cur.clear(); } else cur.push_back(atol(w.c_str()));
    long c = ops[0][0], loss = ops[0][1], w = ops[0][2], h = ops[0][3], m = ops[0][4], seed = ops[0][5];
    std::vector<L> lines(ops.begin() + 1, ops.end()); bool wants = false; for (auto& ln : lines) wants |= ln[0] == 20;
    vt::R r(seed); std::string txt = text(lines, c, r);
    vt::J lj(false); for (auto& ln : lines) { vt::J x(false); for (long v : ln) x.add(v); lj.addraw(x.str()); }
    vt::emit(vt::ev("Begin").t("text", txt));
    std::vector<Built*> nets;
    for (int tr = 0; tr < (wants ? 2 : 1); tr++) {
      bool training = wants ? tr == 1 : r.chance(50);
      std::string cfj = vt::J().i("c", c).b("loss", loss).b("tr", training).i("w", w).i("h", h).i("m", m).str();
      std::istringstream* is = new std::istringstream(txt); ConfigurableFactory* f = new ConfigurableFactory(*is, seed, training); Built* b = new Built; nets.push_back(b);
      b->field = {f->patchsizex(), f->patchsizey()}; b->patch = f->method() == PATCH;
      long dw = b->patch ? b->field[0] : w, dh = b->patch ? b->field[1] : h, lw = b->patch ? 1 : w, lh = b->patch ? 1 : h, s = 2;
      if (dw < 1 || dh < 1 || dw > 1000 || dh > 1000) { vt::emit(vt::ev("Net").raw("cf", cfj).raw("lines", lj.str()).arr("field", b->field).b("patch", b->patch)); continue; }
      Tensor *d = new Tensor(s, dw, dh, m), *la = new Tensor(s, lw, lh, c), *he = new Tensor(s, lw, lh, 2), *we = new Tensor(s, lw, lh, 1);
      b->input = new NetGraphNode(new InputLayer(*d, *la, *he, *we)); b->input->is_input = true; b->g.AddNode(b->input);
      b->complete = f->AddLayers(b->g, NetGraphConnection(b->input), c, loss);
      std::vector<NetGraphNode*> nodes = b->g.GetNodes(); std::vector<std::vector<NetGraphConnection>> conns; for (auto n : nodes) conns.push_back(n->input_connections);
      b->g.Initialize(); b->g.SetIsTesting(true);
      vt::J nj(false); int pos = 0; auto idx = [&](NetGraphNode* n) { for (size_t i = 0; i < nodes.size(); i++) if (nodes[i] == n) return (long)i + 1; return 0L; };
      for (auto n : nodes) {
        int k = kind(n->layer); vt::J x, ins(false), outs(false), fits(false);
        for (auto& q : conns[pos++]) ins.addraw("[" + std::to_string(idx(q.node)) + "," + std::to_string(q.buffer) + "," + std::to_string(q.backprop) + "]");
        for (auto& o : n->output_buffers) { auto& t = o.combined_tensor->data; outs.addraw("[" + std::to_string(t.width()) + "," + std::to_string(t.height()) + "," + std::to_string(t.maps()) + "]"); }
        for (size_t i = 0; i < lines.size(); i++) if (Layer* ref = reference(k, lines[i], c)) if (behaves(n, ref, &b->g)) fits.add(i + 1);
        nj.addraw(x.i("k", k).b("io", n->is_output).raw("in", ins.str()).raw("out", outs.str()).raw("fits", fits.str()).str());
      }
      vt::J oj(false); for (auto n : b->g.GetOutputNodes()) oj.add(idx(n));
      vt::emit(vt::ev("Net").raw("cf", cfj).raw("lines", lj.str()).arr("field", b->field).b("patch", b->patch).b("complete", b->complete).raw("nodes", nj.str()).raw("outs", oj.str()));
    }
    if (wants && nets.size() == 2 && nets[1]->patch) {
      Built &F = *nets[0], &P = *nets[1]; std::vector<CombinedTensor*> a, b; F.g.GetParameters(a); P.g.GetParameters(b);
      for (size_t i = 0; i < a.size(); i++) { vt::R q(seed + i); for (size_t e = 0; e < a[i]->data.elements(); e++) a[i]->data.data_ptr()[e] = q.in(-8, 8) / 32.0; b[i]->data.Shadow(a[i]->data); }
      auto buf = [](Built& x, int i) -> Tensor& { return x.input->output_buffers[i].combined_tensor->data; };
      auto hash = [](Tensor& t, long x, long y, long s) { uint32_t h = 2166136261u; for (size_t q = 0; q < t.maps(); q++) h = (h ^ vt::bits(*t.data_ptr_const(x, y, q, s))) * 16777619u; return (long)(h >> 2); };
      Tensor &D = buf(F, 0), &D2 = buf(P, 0); fill(D, seed, 8); for (int k = 1; k < 4; k++) { for (size_t e = 0; e < buf(F, k).elements(); e++) buf(F, k).data_ptr()[e] = 0.25; for (size_t e = 0; e < buf(P, k).elements(); e++) buf(P, k).data_ptr()[e] = 0.25; }
      F.g.FeedForward(); Tensor& out = F.g.GetDefaultOutputNode()->output_buffers[0].combined_tensor->data;
      vt::J pix(false); for (long y = 0; y < out.height(); y++) for (long x = 0; x < out.width(); x++) pix.add(hash(out, x, y, 1));
      long rx = F.field[0], ry = F.field[1], fx = P.field[0] - rx, fy = P.field[1] - ry; vt::J pj(false);
      Tensor& pout = P.g.GetDefaultOutputNode()->output_buffers[0].combined_tensor->data;
      if (fx > 0 && fy > 0 && rx >= 0 && ry >= 0) for (int k = 0; k < 6; k++) {
        long X = r.in(0, w / fx - 1) * fx - rx / 2, Y = r.in(0, h / fy - 1) * fy - ry / 2; D2.Clear();
        for (long q = 0; q < m; q++) for (long y = 0; y < D2.height(); y++) for (long x = 0; x < D2.width(); x++) if (X + x >= 0 && X + x < w && Y + y >= 0 && Y + y < h) *D2.data_ptr(x, y, q, 0) = *D.data_ptr(X + x, Y + y, q, 1);
        P.g.FeedForward();
        pj.addraw("[" + std::to_string(X) + "," + std::to_string(Y) + "," + std::to_string(hash(pout, 0, 0, 0)) + "]");
      }
      vt::emit(vt::ev("Both").raw("cf", vt::J().i("c", c).i("w", w).i("h", h).i("m", m).str()).raw("lines", lj.str()).arr("size", P.field).raw("pix", pix.str()).raw("patches", pj.str()));
    }
  }
  return 0;
}
