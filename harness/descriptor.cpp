// Executes scenarios of spec/Descriptor.tla on the real LayerFactory and compares factory-made layers with constructed ones.
#include <cn24.h>
#include "h.h"
using namespace Conv;
typedef std::vector<CombinedTensor*> CTs;
struct Acc : public Layer { static datum lr(Layer* l) { return l->*(&Acc::local_lr_); } };
static std::string unhex(const std::string& h) { std::string r; for (size_t i = 1; i + 1 < h.size(); i += 2) r += (char)strtol(h.substr(i, 2).c_str(), 0, 16); return r; }
static Layer* construct(const std::string& d) { try { return LayerFactory::ConstructLayer(d); } catch (std::runtime_error&) { return nullptr; } }
static bool same(const Tensor& a, const Tensor& b) { return vt::dims(a) == vt::dims(b) && !memcmp(a.data_ptr_const(), b.data_ptr_const(), a.elements() * sizeof(datum)); }
static std::string pair(long a, long b) { return std::to_string(a) + "x" + std::to_string(b); }
static std::string dec(long v) { char b[20]; snprintf(b, 20, "%ld.%03ld", v / 1000, v % 1000); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s.pop_back(); return s; }
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  for (auto& words : lines) {
    vt::emit(vt::ev("Begin"));
    size_t p = 0;
    while (p < words.size()) {
      std::string op = words[p++]; std::vector<std::string> a; while (p < words.size() && words[p] != ";") a.push_back(words[p++]); p++;
      if (op == "D") {
        std::string d = unhex(a[0]); unsigned seed = strtoul(a[1].c_str(), 0, 10);
        bool valid = LayerFactory::IsValidDescriptor(d);
        vt::J j = vt::ev("D");
        j.arr("d", vt::codes(d)).b("valid", valid).arr("seed", vt::codes(std::to_string(seed))).arr("injected", vt::codes(LayerFactory::InjectSeed(d, seed)));
        j.arr("config", vt::codes(LayerFactory::ExtractConfiguration(d))).arr("type", vt::codes(LayerFactory::ExtractLayerType(d))).i("layer", construct(d) ? 1 : 0);
        vt::emit(j);
      } else if (op == "I") {
        std::string d = unhex(a[0]); Layer* l = construct(d); if (!l) return 5;
        CTs in = {new CombinedTensor(1, 5, 5, 4)}, out; NetStatus st;
        if (!l->CreateOutputs(in, out) || !l->Connect(in, out, &st)) return 6;
        l->OnLayerConnect({});
        uint32_t h = 2166136261u; for (auto q : l->parameters()) for (size_t e = 0; e < q->data.elements(); e++) h = (h ^ vt::bits(q->data.data_ptr_const()[e])) * 16777619u;
        vt::emit(vt::ev("Init").arr("d", vt::codes(d)).i("h", h >> 2));
      } else if (op == "B") {
        long t = atol(a[0].c_str()); vt::R r(atol(a[1].c_str()));
        std::vector<std::string> ps; std::vector<long> ref; Layer* x = nullptr; std::string type; bool fatal = false; datum lr = 1;
        auto P = [&](const char* key, long da, long db, long lo, long hi, int pct) {
          long u = da, v = db; if (r.chance(pct)) { u = r.in(lo, hi); v = r.in(lo, hi); ps.push_back(std::string(key) + "=" + pair(u, v)); } ref.push_back(u); ref.push_back(v); };
        auto N = [&](const char* key, long d, const std::vector<long>& vs, int pct, bool decimal) {
          long u = d; if (r.chance(pct)) { u = r.pick(vs); ps.push_back(std::string(key) + "=" + (decimal ? dec(u) : std::to_string(u))); } ref.push_back(u); };
        if (t == 1) {
          type = "convolution"; P("size", 0, 0, r.chance(8) ? 0 : 1, 5, 92); P("stride", 1, 1, r.chance(8) ? 0 : 1, 3, 60); P("pad", 0, 0, 0, 2, 60);
          N("kernels", 0, {1, 2, 3, 4, 6, 12}, 95, false); N("group", 1, {1, 1, 2, 3, r.chance(20) ? 0L : 1L}, 60, false); N("dropout", 0, {0, 500, 250, 100, 900}, 50, true); N("llr", 1000, {1000, 0, 500, 2000, 125, 10000, 1}, 50, true);
          lr = (datum)(ref[9] / 1000.0); 
          if (ref[7] == 0) fatal = true;
          else try { x = new ConvolutionLayer(ref[0], ref[1], ref[6], ref[2], ref[3], ref[4], ref[5], ref[7], 1, (datum)(ref[8] / 1000.0)); x->SetLocalLearningRate(lr); } catch (std::runtime_error&) { fatal = true; }
          std::string seed = std::to_string(r.in(0, 99999)); if (r.chance(50)) ps.push_back("seed=" + seed);
        } else if (t == 2) { type = "maxpooling"; P("size", 1, 1, 1, 4, 85); x = new MaxPoolingLayer(ref[0], ref[1]); }
        else if (t == 3) { type = "amaxpooling"; P("size", 1, 1, 1, 4, 85); P("stride", ref[0], ref[1], 1, 4, 50); x = new AdvancedMaxPoolingLayer(ref[0], ref[1], ref[2], ref[3]); }
        else if (t == 4) { type = "tanh"; x = new TanhLayer; }
        else if (t == 5) { type = "sigm"; x = new SigmoidLayer; }
        else if (t == 6) { type = "relu"; x = new ReLULayer; }
        else if (t == 7) { type = "gradientaccumulation"; N("outputs", 0, {0, 1, 2, 3, 10}, 85, false); x = new GradientAccumulationLayer(ref[0]); }
        else if (t == 8) { type = "resize"; P("border", 0, 0, 0, 12, 85); x = new ResizeLayer(ref[0], ref[1]); }
        else { type = "hmax"; N("mu", 1000, {1000, 500, 3000, 250, 1}, 70, true); N("weight", 0, {0, 0, 1000, 500, 100}, 50, true); x = new HMaxActivationFunction((datum)(ref[0] / 1000.0), (datum)(ref[1] / 1000.0)); }
        static const char* un[] = {"name=abc", "zz=3x3", "kind=1", "q=0.5", "stridex=7x7", "sizes=9x9", "padding=8x8"};
        while (r.chance(25)) ps.push_back(un[r.in(0, 6)]);
        for (size_t i = ps.size(); i > 1; i--) std::swap(ps[i - 1], ps[r.in(0, i - 1)]);
        std::string d = type; if (ps.size() || r.chance(50)) { d += "("; for (size_t i = 0; i < ps.size(); i++) d += (i ? " " : "") + ps[i]; d += ")"; }
        Layer* y = construct(d);
        vt::J j = vt::ev("B"); j.arr("d", vt::codes(d)).arr("ref", ref).i("layer", y ? 1 : 0); bool eq = true;
        if (y && x) {
          NetStatus st; st.SetIsTesting(true);
          long s = r.in(1, 2), m = r.chance(70) ? 12 : r.in(1, 4), w = r.chance(60) ? 12 : r.in(1, 12), h = r.chance(60) ? 12 : r.in(1, 12);
          CTs in[2] = {{new CombinedTensor(s, w, h, m)}, {new CombinedTensor(s, w, h, m)}}, out[2]; Layer* L[2] = {x, y}; int res[2];
          for (int k = 0; k < 2; k++) { in[k][0]->delta.Clear(); for (size_t e = 0; e < in[k][0]->data.elements(); e++) in[k][0]->data.data_ptr()[e] = (long)((e * 7919 + 13) % 41) / 8.0 - 2.5; }
          for (int k = 0; k < 2; k++) {
            vt::R rr(5);
            try { res[k] = L[k]->CreateOutputs(in[k], out[k]) ? (L[k]->Connect(in[k], out[k], &st) ? 2 : 1) : 0; } catch (std::runtime_error&) { res[k] = -1; }
            if (res[k] != 2) continue;
            for (auto q : L[k]->parameters()) for (size_t e = 0; e < q->data.elements(); e++) q->data.data_ptr()[e] = rr.in(-16, 16) / 8.0;
            L[k]->FeedForward();
            for (auto o : out[k]) for (size_t e = 0; e < o->delta.elements(); e++) o->delta.data_ptr()[e] = rr.in(-16, 16) / 4.0;
            L[k]->BackPropagate();
          }
          eq = res[0] == res[1] && out[0].size() == out[1].size() && x->parameters().size() == y->parameters().size() && Acc::lr(x) == Acc::lr(y) && x->GetLayerDescription() == y->GetLayerDescription();
          if (eq && res[0] == 2) {
            eq = same(in[0][0]->delta, in[1][0]->delta);
            for (size_t i = 0; eq && i < out[0].size(); i++) eq = same(out[0][i]->data, out[1][i]->data);
            for (size_t i = 0; eq && i < x->parameters().size(); i++) eq = same(x->parameters()[i]->delta, y->parameters()[i]->delta);
          }
        } else eq = !x && !y;
        j.b("same", eq).arr("config", vt::codes(y ? y->GetLayerConfiguration() : ""));
        vt::emit(j);
      } else return 3;
    }
  }
  return 0;
}
