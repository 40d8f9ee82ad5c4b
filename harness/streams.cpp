// Executes scenarios of spec/Streams.tla: the same tensors through every kind of stream.
#include <cn24.h>
#include "TensorStream.h"
#include "CompressedTensorStream.h"
#include "FloatTensorStream.h"
#include "ListTensorStream.h"
#include "h.h"
#include "pngio.h"
#include <unistd.h>
using namespace Conv;
static const int NT = 3;
static const unsigned palettes[3][4] = {{0xFFFFFF, 0x00FF12, 0x12FF00, 0x0101FE}, {0xFFFFFF, 0x000000, 0x000001, 0x0101FE}, {0x000000, 0xFFFFFF, 0xFEFFFF, 0x0100FF}};
static const unsigned nocolors[3] = {0x000000, 0x010000, 0x0001FF};
static void imgnames(char* ni, char* nl, int n, size_t style) {
  if (style % 4 == 1 && n < 20) { sprintf(ni, "%c.png", 'a' + n); sprintf(nl, "%c.png", 'A' + n); }
  else { sprintf(ni, "img%d.png", n); sprintf(nl, style % 4 == 2 ? "la bel.%d-x.png" : "lab%d.png", n); }
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "'").c_str())) return 3;
  for (auto& w : lines) {
    Tensor tgt[NT + 1];
    std::vector<TensorStream*> streams;
    std::ofstream ff(base + "/f.Tensor", std::ios::binary), cf(base + "/c.CTensor", std::ios::binary), il(base + "/il.txt"), ll(base + "/ll.txt");
    uint64_t magic = CN24_CTS_MAGIC; cf.write((char*)&magic, 8);
    std::vector<unsigned> cc;
    int cls = 0, pal = 0, nimg = 0, count = 0;
    auto put = [&](Tensor& t) { t.Serialize(ff); CompressedTensor c; c.Compress(t); c.Serialize(cf); count++; };
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Kind") { cls = a[0]; pal = cls > 1 ? w.size() % 3 : 0; for (int i = 0; i < cls; i++) cc.push_back(palettes[pal][i]); vt::emit(vt::ev("Begin").i("cls", cls)); continue; }
      if (op == "Tensor") {
        Tensor t(a[0], a[1], a[2], a[3]); std::vector<long> v(a.begin() + 4, a.end());
        for (size_t e = 0; e < v.size(); e++) t.data_ptr()[e] = v[e] / 255.0f;
        put(t);
        vt::emit(vt::ev("Tensor").arr("d", std::vector<long>(a.begin(), a.begin() + 4)).arr("v", v));
        continue;
      }
      if (op == "Image") {
        long W = a[0], H = a[1], ch = a[2];
        std::vector<long> pix(a.begin() + 3, a.begin() + 3 + W * H * ch), lab(a.begin() + 3 + W * H * ch, a.end()), rgb;
        Tensor ti(1, W, H, ch), tl(1, W, H, cls);
        for (long y = 0; y < H; y++) for (long x = 0; x < W; x++) {
          for (long m = 0; m < ch; m++) *ti.data_ptr(x, y, m, 0) = pix[(y * W + x) * ch + m] / 255.0f;
          long c = lab[y * W + x]; unsigned col = c ? palettes[pal][c - 1] : nocolors[pal];
          for (int s = 16; s >= 0; s -= 8) rgb.push_back((col >> s) & 255);
          for (long m = 0; m < cls; m++) *tl.data_ptr(x, y, m, 0) = cls == 1 ? (c ? 1.0f : -1.0f) : (c == m + 1 ? 1.0f : 0.0f);
        }
        char ni[40], nl[40]; imgnames(ni, nl, nimg++, w.size());
        vt::write_png(base + "/" + ni, W, H, ch, pix); vt::write_png(base + "/" + nl, W, H, 3, rgb);
        il << ni << "\n"; ll << nl << "\n";
        put(ti); put(tl);
        vt::emit(vt::ev("Image").i("w", W).i("h", H).i("ch", ch).arr("pix", pix).arr("lab", lab));
        continue;
      }
      if (op == "Mismatch") {
        char ni[40], nl[40]; imgnames(ni, nl, nimg++, w.size());
        vt::write_png(base + "/" + ni, a[0], a[1], 3, std::vector<long>(a[0] * a[1] * 3, 9));
        vt::write_png(base + "/" + nl, a[2], a[3], 3, std::vector<long>(a[2] * a[3] * 3, 0));
        il << ni << "\n"; ll << nl << "\n";
        vt::emit(vt::ev("Mismatch").arr("a", a));
        continue;
      }
      if (streams.empty()) {      // first request: open all kinds
        ff.close(); cf.close(); il.close(); ll.close();
        streams.push_back(TensorStream::FromFile(base + "/f.Tensor", cc));
        streams.push_back(TensorStream::FromFile(base + "/c.CTensor", cc));
        if (cls) streams.push_back(TensorStream::FromFile("list:" + base + "/il.txt;" + base + (w.size() % 2 ? "/;" : ";") + base + "/ll.txt;" + base + (w.size() % 3 ? "/" : ""), cc));
        vt::J s(false), n(false);
        for (auto st : streams) {
          vt::J one(false);
          for (int k = 0; k < count + 2; k++) { vt::J d(false); d.add(st->GetSamples(k)); d.add(st->GetWidth(k)); d.add(st->GetHeight(k)); d.add(st->GetMaps(k)); one.addraw(d.str()); }
          s.addraw(one.str()); n.add(st->GetTensorCount());
        }
        vt::emit(vt::ev("Open").raw("streams", s.str()).raw("counts", n.str()));
      }
      vt::J j = vt::ev(op.c_str()); j.arr("a", a);
      if (op == "Target") { tgt[a[0]].Resize(a[1], a[2], a[3], a[4]); for (size_t e = 0; e < tgt[a[0]].elements(); e++) tgt[a[0]].data_ptr()[e] = a[5] / 255.0f; }
      else if (op == "Copy") { bool r = streams[a[0]]->CopySample(a[1], a[2], tgt[a[3]], a[4]); j.b("r", r); }
      else return 3;
      vt::J d(false), v(false);
      for (int i = 1; i <= NT; i++) {
        vt::J x(false), y(false);
        for (long q : vt::dims(tgt[i])) x.add(q);
        for (size_t e = 0; e < tgt[i].elements(); e++) y.add(vt::byte255(tgt[i].data_ptr_const()[e]));
        d.addraw(x.str()); v.addraw(y.str());
      }
      j.raw("d", d.str()).raw("v", v.str());
      vt::emit(j);
    }
    for (auto s : streams) if (dynamic_cast<FloatTensorStream*>(s)) delete static_cast<FloatTensorStream*>(s); else if (dynamic_cast<CompressedTensorStream*>(s)) delete static_cast<CompressedTensorStream*>(s); else delete static_cast<ListTensorStream*>(s);
    if (system(("rm -f '" + base + "'/*").c_str())) return 3;
  }
  return 0;
}
