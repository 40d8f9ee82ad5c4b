// Executes scenarios of spec/Codec.tla on real compressed tensors.
#include <cn24.h>
#include "h.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace Conv;
static const int N = 3;
static CompressedTensor* c[N + 1];
static const unsigned char syms[11][4] = {{0,0,0,0}, {88,88,88,88}, {88,89,88,89}, {0,0,128,63}, {0,0,0,128}, {88,0,0,66}, {88,0,192,127}, {89,88,253,88}, {1,0,0,0}, {1,0,128,127}, {7,89,3,88}};
static std::vector<long> bytes_of(const void* p, size_t n) { std::vector<long> v(n); for (size_t i = 0; i < n; i++) v[i] = ((const unsigned char*)p)[i]; return v; }
static std::vector<long> stored(CompressedTensor& x) {        // the compressed bytes, as they are written to a stream
  std::stringstream ss; x.Serialize(ss); std::string s = ss.str(); return bytes_of(s.data() + (s.size() < 40 ? s.size() : 40), s.size() < 40 ? 0 : s.size() - 40);
}
// the elements of a tensor as runs of equal words
static std::string runs_of(Tensor& t) {
  const unsigned char* p = (const unsigned char*)t.data_ptr_const();
  vt::J j(false);
  for (size_t e = 0; e < t.elements();) {
    size_t n = 1;
    while (e + n < t.elements() && !memcmp(p + 4 * e, p + 4 * (e + n), 4)) n++;
    vt::J w(false), r(false);
    for (int b = 0; b < 4; b++) w.add(p[4 * e + b]);
    r.addraw(w.str()); r.add(n); j.addraw(r.str());
    e += n;
  }
  return j.str();
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string path = std::string(argv[argc - 1]) + ".bin";
  for (auto& w : lines) {
    Tensor* target[2] = {new Tensor(), new Tensor()};
    long nd = 0;
    for (int i = 1; i <= N; i++) c[i] = new CompressedTensor();
    vt::emit(vt::ev("Begin"));
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    std::ifstream in(path, std::ios::binary);
    int fd = open(path.c_str(), O_RDONLY);
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++], mode;
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") { if (isalpha(w[p][0])) mode = w[p]; else a.push_back(atol(w[p].c_str())); p++; }
      p++;
      vt::J j = vt::ev(op.c_str());
      std::vector<long> aa(a.begin(), a.begin() + (a.size() < 5 ? a.size() : 5));
      j.arr("a", aa);
      if (mode.size()) j.t("m", mode);
      int i = a.size() ? a[0] : 0;
      if (op == "Compress") {
        Tensor t(a[1], a[2], a[3], a[4]);
        size_t e = 0;
        for (size_t k = 5; k + 1 < a.size(); k += 2) for (long r = 0; r < a[k + 1]; r++) memcpy(t.data_ptr() + e++, syms[a[k] - 1], 4);
        if (e != t.elements()) return 3;
        std::vector<long> v = bytes_of(t.data_ptr(), 4 * t.elements());
        c[i]->Compress(t);
        j.arr("v", v).arr("c", stored(*c[i]));
      } else if (op == "CompressRuns") {
        Tensor t(a[1], a[2], a[3], a[4]);
        size_t e = 0;
        for (size_t k = 5; k + 1 < a.size(); k += 2) for (long r = 0; r < a[k + 1]; r++) {
          unsigned char lit[4] = {(unsigned char)(r % 256), (unsigned char)(r / 256), (unsigned char)(k + 83), 66};
          memcpy(t.data_ptr() + e++, a[k] == 12 ? lit : syms[a[k] - 1], 4);
        }
        if (e != t.elements()) return 3;
        std::string rs = runs_of(t);
        c[i]->Compress(t);
        j.raw("rs", rs).arr("c", stored(*c[i]));
      } else if (op == "Write") {
        size_t before = out.tellp();
        c[i]->Serialize(out); out.flush();
        std::ifstream f(path, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); std::string s = ss.str();
        size_t from = before + 40 < s.size() ? before + 40 : s.size();
        j.arr("c", bytes_of(s.data() + from, s.size() - from));
      } else if (op == "Craft") {
        std::string body; for (size_t k = 5; k < a.size(); k++) body += (char)a[k];
        uint64_t h[5] = {(uint64_t)a[1], (uint64_t)a[2], (uint64_t)a[3], (uint64_t)a[4], body.size()};
        out.write((const char*)h, 40); out.write(body.data(), body.size()); out.flush();
        j.arr("c", bytes_of(body.data(), body.size()));
      } else if (op == "Read") { in.clear(); if (mode == "map") c[i]->Deserialize(in, false, true, fd); else c[i]->Deserialize(in); }
      else if (op == "Skip") { in.clear(); CompressedTensor x; x.Deserialize(in, true); }
      else if (op == "Decompress") {
        Tensor& t = *target[nd++ % 2];
        c[i]->Decompress(t);
        j.arr("od", vt::dims(t)).arr("v", bytes_of(t.data_ptr_const(), 4 * t.elements()));
      } else if (op == "DecompressRuns") {
        Tensor& t = *target[nd++ % 2];
        c[i]->Decompress(t);
        j.arr("od", vt::dims(t)).raw("rs", runs_of(t));
      } else if (op == "Drop") { delete c[i]; c[i] = new CompressedTensor(); }
      else if (op == "Rewind") { in.close(); in.clear(); in.open(path, std::ios::binary); }
      else { fprintf(stderr, "bad op %s\n", op.c_str()); return 3; }
      struct stat st; stat(path.c_str(), &st);
      j.i("len", st.st_size).i("tell", (long)in.tellg());
      vt::J d(false);
      for (int k = 1; k <= N; k++) {
        vt::J x(false);
        x.add(c[k]->samples()); x.add(c[k]->width()); x.add(c[k]->height()); x.add(c[k]->maps()); x.add(c[k]->compressed_length());
        d.addraw(x.str());
      }
      j.raw("d", d.str());
      vt::emit(j);
    }
    for (int i = 1; i <= N; i++) delete c[i];
    delete target[0]; delete target[1];
    close(fd);
  }
  unlink(path.c_str());
  return 0;
}
