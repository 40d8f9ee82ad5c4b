// Executes scenarios of spec/Dataset.tla on the real whole-image and patch datasets.
#include <cn24.h>
#include "TensorStream.h"
#include "CompressedTensorStream.h"
#include "FloatTensorStream.h"
#include "ListTensorStream.h"
#include "h.h"
#include "pngio.h"
#include <unistd.h>
#include <fcntl.h>
using namespace Conv;
static datum custom(unsigned x, unsigned y, unsigned w, unsigned h) { return 1 + x + 3.0f * y + 5.0f * w + 7.0f * h; }
static const unsigned colors[4] = {0xFFFFFF, 0x00FF12, 0x12FF00, 0x0101FE};
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "'").c_str())) return 3;
  for (auto& w : lines) {
    long kind = 0, var = 0, maps = 0, cls = 0, ef = 0, px = 0, py = 0, ctr = 1, nimg = 0;
    std::vector<long> cw; long counts[3] = {0, 0, 0};
    std::ofstream f[3], il[3], ll[3];
    Dataset* ds = nullptr; Tensor T[4];
    double scale = 1; const float JUNK = -77;
    bool whole = true;
    auto open = [&]() {
      for (int s = 1; s <= 2; s++) { f[s].close(); il[s].close(); ll[s].close(); }
      std::vector<std::string> names; std::vector<unsigned> cc; std::vector<datum> cwd;
      for (long c = 0; c < cls; c++) { names.push_back("c" + std::to_string(c)); cc.push_back(colors[c]); cwd.push_back(cw[c]); }
      std::string path[3];
      for (int s = 1; s <= 2; s++) {
        std::string n = std::to_string(s);
        path[s] = kind == 2 ? "list:" + base + "/i" + n + ";" + base + ";" + base + "/l" + n + ";" + base : base + "/f" + n + (whole && kind == 1 ? ".CTensor" : ".Tensor");
        if (counts[s] == 0) path[s] = "";
      }
      if (ef == 0 && var == 1) {      // through a configuration
        std::stringstream c;
        if (!whole && kind == 1) c << "nommap\n";
        c << "classes=" << cls << "\n"; for (auto& n : names) c << n << "\n";
        c << "colors\n"; for (auto x : cc) { char b[20]; sprintf(b, "0x%06X\n", x); c << b; }
        c << "weights\n"; for (auto x : cw) c << x << "\n";
        if (path[1] != "") c << "training=" << path[1] << "\n";
        if (path[2] != "") c << "testing=" << path[2] << "\n";
        if (whole) ds = TensorStreamDataset::CreateFromConfiguration(c, false, LOAD_BOTH);
        else ds = TensorStreamPatchDataset::CreateFromConfiguration(c, false, LOAD_BOTH, px, py);
      } else if (whole) {
        TensorStream* s[3];
        for (int k = 1; k <= 2; k++) s[k] = path[k] == "" ? new FloatTensorStream() : TensorStream::FromFile(path[k], cc);
        ds = new TensorStreamDataset(s[1], s[2], cls, names, cc, cwd, ef ? custom : DefaultLocalizedErrorFunction);
      } else {
        std::istream* s[3]; int fd[3] = {0, 0, 0};
        for (int k = 1; k <= 2; k++) {
          if (path[k] == "") s[k] = new std::istringstream(); else { s[k] = new std::ifstream(path[k], std::ios::in | std::ios::binary); if (kind == 0) fd[k] = ::open(path[k].c_str(), O_RDONLY); }
        }
        ds = new TensorStreamPatchDataset(*s[1], *s[2], cls, names, cc, cwd, px, py, ef ? custom : DefaultLocalizedErrorFunction, fd[1], fd[2]);
      }
      long W = ds->GetWidth(), H = ds->GetHeight();
      T[0].Resize(3, W, H, maps);
      T[1].Resize(3, whole ? W : 1, whole ? H : 1, cls); T[2].Resize(3, whole ? W : 1, whole ? H : 1, 2); T[3].Resize(3, whole ? W : 1, whole ? H : 1, 1);
      vt::emit(vt::ev("Open").arr("size", std::vector<long>{W, H}).arr("counts", std::vector<long>{(long)ds->GetTrainingSamples(), (long)ds->GetTestingSamples()}).i("maps", ds->GetInputMaps()).i("labels", ds->GetLabelMaps()));
    };
    std::vector<std::pair<long, long>> shape[3];
    auto get = [&](long set, long ix, long slot) {
      for (auto& t : T) t.Clear(JUNK);
      bool ok = set == 1 ? ds->GetTrainingSample(T[0], T[1], T[2], T[3], slot, ix) : ds->GetTestingSample(T[0], T[1], T[2], T[3], slot, ix);
      long others = 0, touched = 0, pad = 0;
      std::vector<long> out[5];          // data, label, helper x, helper y, weight
      long iw = 1, ih = 1;
      if (whole && ix < (long)shape[set].size()) { iw = shape[set][ix].first; ih = shape[set][ix].second; }
      for (int k = 0; k < 4; k++) for (size_t s = 0; s < 3; s++) for (size_t m = 0; m < T[k].maps(); m++) for (size_t y = 0; y < T[k].height(); y++) for (size_t x = 0; x < T[k].width(); x++) {
        float v = *T[k].data_ptr_const(x, y, m, s);
        if ((long)s != slot) { others += v != JUNK; continue; }
        touched += v != JUNK;
        bool in = whole ? ((long)x < iw && (long)y < ih) : true;
        if (!in) { pad += !(v == 0); continue; }
        if (k == 0) out[0].push_back(kind == 2 ? vt::byte255(v) : vt::exact(v));
        else if (k == 1) out[1].push_back(kind == 2 ? vt::byte255(v) : vt::exact(v));
        else if (k == 2) out[2 + m].push_back(vt::fixed(v, 1000));
        else out[4].push_back(vt::exact(v));
      }
      if (!ok) for (auto& o : out) o.clear();
      vt::emit(vt::ev("Get").i("set", set).i("ix", ix).b("ok", ok).i("others", others).i("slot", touched).i("pad", pad)
               .arr("d", out[0]).arr("lb", out[1]).arr("hx", out[2]).arr("hy", out[3]).arr("w", out[4]));
    };
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Conf") {
        kind = a[0]; var = a[1]; maps = kind == 2 ? 3 : a[2]; cls = a[3]; ef = a[4]; px = a[5]; py = a[6]; cw.assign(a.begin() + 7, a.end());
        whole = px == 0;
        if (system(("rm -f '" + base + "'/*").c_str())) return 3;
        for (int s = 1; s <= 2; s++) {
          std::string n = std::to_string(s);
          f[s].open(base + "/f" + n + (whole && kind == 1 ? ".CTensor" : ".Tensor"), std::ios::binary); il[s].open(base + "/i" + n); ll[s].open(base + "/l" + n);
          if (whole && kind == 1) { uint64_t magic = CN24_CTS_MAGIC; f[s].write((char*)&magic, 8); }
        }
        vt::emit(vt::ev("Begin").i("maps", maps).i("classes", cls).arr("cw", cw).i("ef", ef).arr("patch", std::vector<long>{px, py}));
      } else if (op == "Image") {
        long s = a[0], W = a[1], H = a[2]; vt::R r(a[3]); bool onehot = a[4] || kind == 2;
        Tensor ti(1, W, H, maps), tl(1, W, H, cls); std::vector<long> im, lab, pix(W * H * 3), lpix(W * H * 3);
        for (long m = 0; m < maps; m++) for (long q = 0; q < W * H; q++) {
          long v = kind == 2 ? (ctr++ * 7) % 256 : ctr++; im.push_back(v);
          ti.data_ptr()[m * W * H + q] = kind == 2 ? v / 255.0f : v; if (kind == 2) pix[q * 3 + m] = v;
        }
        std::vector<long> cl; for (long q = 0; q < W * H; q++) { cl.push_back(r.in(0, cls - 1)); for (int b = 0; b < 3; b++) lpix[q * 3 + b] = (colors[cl[q]] >> (16 - 8 * b)) & 255; }
        for (long c = 0; c < cls; c++) for (long q = 0; q < W * H; q++) {
          long v = onehot ? (cl[q] == c ? 1 : 0) : r.in(-3, 3); if (kind == 2) v *= 255;
          lab.push_back(v); tl.data_ptr()[c * W * H + q] = v;
        }
        if (kind == 2) {
          std::string n = std::to_string(nimg++);
          vt::write_png(base + "/img" + n + ".png", W, H, 3, pix); vt::write_png(base + "/lab" + n + ".png", W, H, 3, lpix);
          il[s] << "img" << n << ".png\n"; ll[s] << "lab" << n << ".png\n";
        } else if (whole && kind == 1) { CompressedTensor c; c.Compress(ti); c.Serialize(f[s]); CompressedTensor d; d.Compress(tl); d.Serialize(f[s]); }
        else { ti.Serialize(f[s]); tl.Serialize(f[s]); }
        counts[s]++; shape[s].push_back({W, H});
        vt::emit(vt::ev("Image").i("set", s).i("w", W).i("h", H).arr("im", im).arr("lab", lab));
      } else if (op == "Get") { if (!ds) open(); get(a[0], a[1], a[2]); }
      else if (op == "Sweep") {
        if (!ds) open();
        for (long s = 1; s <= 2; s++) { long n = s == 1 ? ds->GetTrainingSamples() : ds->GetTestingSamples(); if (n > 2000) n = 2000; for (long i = 0; i <= n; i++) get(s, i, i % 3); }
        vt::emit(vt::ev("Swept"));
      } else return 3;
    }
  }
  return system(("rm -rf '" + base + "'").c_str()) ? 3 : 0;
}
