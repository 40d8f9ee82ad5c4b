// Executes scenarios of spec/Colour.tla on the real image reader/writer, label conversion and output colouring.
#include <cn24.h>
#include "ListTensorStream.h"
#include "h.h"
#include "pngio.h"
#include <unistd.h>
using namespace Conv;
struct DS : public Dataset {          // only the class list matters here
  std::vector<unsigned> colors;
  Task GetTask() const { return SEMANTIC_SEGMENTATION; } Method GetMethod() const { return FCN; }
  unsigned GetWidth() const { return 1; } unsigned GetHeight() const { return 1; } unsigned GetInputMaps() const { return 3; }
  unsigned GetLabelMaps() const { return colors.size(); } unsigned GetClasses() const { return colors.size(); }
  std::vector<std::string> GetClassNames() const { return std::vector<std::string>(colors.size(), "x"); }
  std::vector<unsigned> GetClassColors() const { return colors; } std::vector<datum> GetClassWeights() const { return std::vector<datum>(colors.size(), 1); }
  unsigned GetTrainingSamples() const { return 0; } unsigned GetTestingSamples() const { return 0; } bool SupportsTesting() const { return false; }
  bool GetTrainingSample(Tensor&, Tensor&, Tensor&, Tensor&, unsigned, unsigned) { return false; }
  bool GetTestingSample(Tensor&, Tensor&, Tensor&, Tensor&, unsigned, unsigned) { return false; }
};
static long near(double v, double scale) { double x = v * scale, r = std::floor(x + 0.5); return std::fabs(x - r) < 0.02 && std::fabs(r) < 1e8 ? (long)r : vt::BAD; }
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "'").c_str())) return 3;
  std::string png = base + "/a.png", jpg = base + "/a.jpg";
  long nfile = 0;
  for (auto& w : lines) {
    DS ds;
    vt::emit(vt::ev("Begin"));
    Tensor reused;
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      vt::J j = vt::ev(op.c_str());
      if (op == "Classes") {
        ds.colors.clear();
        std::vector<long> c(a.begin() + 1, a.end());
        for (long k = 0; k < a[0]; k++) ds.colors.push_back((c[3 * k] << 16) | (c[3 * k + 1] << 8) | c[3 * k + 2]);
        j.i("n", a[0]).arr("c", c);
      } else if (op == "Load" || op == "Save") {
        long W = a[1], H = a[2], ch = a[3]; std::vector<long> pix(a.begin() + 4, a.end());
        j.i("w", W).i("h", H).i("ch", ch).arr("pix", pix);
        png = base + (nfile++ % 2 ? "/a.png" : "/b.PNG");
        if (op == "Load") vt::write_png(png, W, H, ch, pix, a[0]);
        else {
          Tensor t(1, W, H, 3);
          for (long y = 0; y < H; y++) for (long x = 0; x < W; x++) for (long m = 0; m < 3; m++) *t.data_ptr(x, y, m, 0) = DATUM_FROM_UCHAR(pix[(y * W + x) * 3 + m]);
          t.WriteToFile(png);
          long fw, fh, fc; std::vector<long> f = vt::read_png(png, fw, fh, fc);
          j.arr("file", f).arr("fd", std::vector<long>{fw, fh, fc});
        }
        reused.LoadFromFile(png);
        std::vector<long> v; for (size_t e = 0; e < reused.elements(); e++) v.push_back(near(reused.data_ptr_const()[e], a[0] == 16 ? 65535.0 : 255.0));
        j.arr("d", vt::dims(reused)).arr("v", v);
      } else if (op == "Jpeg") {
        long W = a[0], H = a[1]; std::vector<long> c(a.begin() + 2, a.end());
        static const char* ext[] = {"/a.jpg", "/a.jpeg", "/a.JPG", "/a.JPEG"};
        jpg = base + ext[nfile++ % 4];
        Tensor t(1, W, H, 3);
        for (long y = 0; y < H; y++) for (long x = 0; x < W; x++) for (long m = 0; m < 3; m++) *t.data_ptr(x, y, m, 0) = DATUM_FROM_UCHAR(c[m]);
        t.WriteToFile(jpg);
        reused.LoadFromFile(jpg);
        std::vector<long> lo(3, 1000), hi(3, -1000);
        for (size_t m = 0; m < reused.maps() && m < 3; m++) for (size_t y = 0; y < reused.height(); y++) for (size_t x = 0; x < reused.width(); x++) {
          long q = near(*reused.data_ptr_const(x, y, m, 0), 255.0); if (q < lo[m]) lo[m] = q; if (q > hi[m]) hi[m] = q; }
        j.i("w", W).i("h", H).arr("c", c).arr("d", vt::dims(reused)).arr("lo", lo).arr("hi", hi);
      } else if (op == "Label") {
        long W = a[0], H = a[1], ch = a[2]; std::vector<long> pix(a.begin() + 3, a.end());
        vt::write_png(base + "/lab.png", W, H, ch, pix); vt::write_png(base + "/img.png", W, H, ch, pix);
        { std::ofstream i(base + "/i.txt"), l(base + "/l.txt"); i << "img.png\n"; l << "lab.png\n"; }
        TensorStream* s = TensorStream::FromFile("list:" + base + "/i.txt;" + base + ";" + base + "/l.txt;" + base, ds.colors);
        Tensor t(1, s->GetWidth(1), s->GetHeight(1), s->GetMaps(1)); t.Clear(-7);
        s->CopySample(1, 0, t, 0);
        std::vector<long> v; for (size_t e = 0; e < t.elements(); e++) v.push_back(vt::fixed(t.data_ptr_const()[e], 1000));
        j.i("w", W).i("h", H).i("ch", ch).arr("pix", pix).arr("d", vt::dims(t)).arr("v", v);
        delete static_cast<ListTensorStream*>(s);
      } else if (op == "Paint") {
        long S = a[0], W = a[1], H = a[2], C = ds.colors.size(); std::vector<long> sc(a.begin() + 3, a.end());
        Tensor net(S, W, H, C), t(S, W, H, 3); t.Clear(-7);
        for (size_t e = 0; e < sc.size(); e++) net.data_ptr()[e] = sc[e] / 128.0f;
        ds.Colorize(net, t);
        std::vector<long> v; for (size_t e = 0; e < t.elements(); e++) v.push_back(near(t.data_ptr_const()[e], 65280.0));
        j.i("s", S).i("w", W).i("h", H).arr("sc", sc).arr("v", v);
      } else return 3;
      vt::emit(j);
    }
  }
  return system(("rm -rf '" + base + "'").c_str()) ? 3 : 0;
}
