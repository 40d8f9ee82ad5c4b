// Executes scenarios of spec/Persist.tla: tensors written to and read from a file in all modes.
#include <cn24.h>
#include "h.h"
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace Conv;
static const int N = 4;
static Tensor* t[N + 1];
static bool def[N + 1];

static long mapped_pages(const char* name) {
  std::ifstream f("/proc/self/maps"); std::string line; long n = 0;
  while (std::getline(f, line)) {
    if (line.find(name) == std::string::npos) continue;
    unsigned long a, b; if (sscanf(line.c_str(), "%lx-%lx", &a, &b) == 2) n += (b - a) / 4096;
  }
  return n;
}
static bool big;
// contents of a large tensor: a fingerprint; of one as large as only a hole is: whether it reads as zeros
static void print(vt::J& y, const Tensor& x) {
  const datum* p = x.data_ptr_const(); size_t n = x.elements();
  if (n > 100000000) {
    bool zero = true; vt::R r(n);
    for (int k = 0; k < 40; k++) { size_t e = k < 4 ? k : k < 8 ? n - 1 - (k - 4) : (size_t)r.in(0, n - 1); zero = zero && p[e] == 0; }
    y.add(zero ? -2 : -3); return;
  }
  uint64_t h = 1469598103934665603ULL;
  for (size_t e = 0; e < n; e++) h = (h ^ (vt::bits(p[e]) + e)) * 1099511628211ULL, h ^= h >> 29;
  if (!n) return;
  y.add(-1).add(h >> 48).add(h >> 32 & 0xffff).add(h >> 16 & 0xffff).add(h & 0xffff);
}
static void put_halves(vt::J& v, const Tensor& x) {
  if (big) { vt::J y(false); print(y, x); v.addraw(y.str()); return; }
  vt::J y(false);
  for (size_t e = 0; e < x.elements(); e++) { uint32_t u = vt::bits(x.data_ptr_const()[e]); y.add(u >> 16); y.add(u & 0xffff); }
  v.addraw(y.str());
}

int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string path = std::string(argv[argc - 1]) + ".bin", single = std::string(argv[argc - 1]) + ".one.Tensor";
  for (auto& w : lines) {
    for (int i = 1; i <= N; i++) { t[i] = nullptr; def[i] = false; }
    big = w[0] == "BIG";
    vt::emit(vt::ev("Begin"));
    std::ofstream out(path, std::ios::binary | std::ios::trunc);
    std::ifstream in(path, std::ios::binary);
    int fd = open(path.c_str(), O_RDONLY);
    size_t p = big ? 1 : 0;
    while (p < w.size()) {
      std::string op = w[p++], mode;
      std::vector<long> a;
      while (p < w.size() && w[p] != ";") { if (isalpha(w[p][0])) mode = w[p]; else a.push_back(atol(w[p].c_str())); p++; }
      p++;
      vt::J j = vt::ev(op.c_str());
      j.arr("a", a);
      if (mode.size()) j.t("m", mode);
      int i = a.size() ? a[0] : 0;
      if (op == "New") { t[i] = new Tensor(a[1], a[2], a[3], a[4]); def[i] = t[i]->elements() == 0; }
      else if (op == "Fill") {
        vt::R r(a[1]);
        static const uint32_t special[] = {0, 0x80000000u, 0x3f800000u, 0x7f800000u, 0xff800000u, 0x7fc00001u, 0x7f800001u, 1u, 0x58585858u, 0x58595859u, 0xbf800000u, 0x00800000u, 0x7f7fffffu, 0x42b00000u};
        for (size_t e = 0; e < t[i]->elements(); e++) {
          uint32_t u = r.chance(40) ? special[r.in(0, 13)] : (uint32_t)r.g();
          memcpy(t[i]->data_ptr() + e, &u, 4);
        }
        def[i] = true;
        vt::J y(false); 
        if (big) print(y, *t[i]); else
        for (size_t e = 0; e < t[i]->elements(); e++) { uint32_t u = vt::bits(t[i]->data_ptr_const()[e]); y.add(u >> 16); y.add(u & 0xffff); }
        j.raw("f", y.str());
      }
      else if (op == "Write") { t[i]->Serialize(out); out.flush(); }
      else if (op == "Huge") {
        uint64_t h[4] = {(uint64_t)a[0], (uint64_t)a[1], (uint64_t)a[2], (uint64_t)a[3]};
        out.write((const char*)h, 32); out.flush();
        if (truncate(path.c_str(), (off_t)out.tellp() + 4 * (off_t)(h[0] * h[1] * h[2] * h[3]))) return 3;
        out.seekp(0, std::ios::end);
      }
      else if (op == "Read") {
        in.clear();
        if (mode == "map") { t[i]->Deserialize(in, false, true, fd); def[i] = true; }
        else if (mode == "seq") { t[i]->Deserialize(in); def[i] = true; }
        else { t[i]->Deserialize(in, true); def[i] = t[i]->elements() == 0; }
      }
      else if (op == "Rewind") { in.close(); in.clear(); in.open(path, std::ios::binary); }
      else if (op == "Truncate") { close(fd); in.close(); in.clear(); out.close(); out.open(path, std::ios::binary | std::ios::trunc); in.open(path, std::ios::binary); fd = open(path.c_str(), O_RDONLY); }
      else if (op == "Resize") { size_t old = t[i]->elements(); t[i]->Resize(a[1], a[2], a[3], a[4]); if (old != t[i]->elements() || !old) def[i] = t[i]->elements() == 0; }
      else if (op == "CopyTo") { t[i] = new Tensor(*t[a[1]], true); def[i] = def[a[1]]; }
      else if (op == "MoveTo") { t[i] = new Tensor(std::move(*t[a[1]])); def[i] = def[a[1]]; def[a[1]] = true; }
      else if (op == "Release") { t[i]->DeleteIfPossible(); def[i] = true; }
      else if (op == "Destroy") { delete t[i]; t[i] = nullptr; }
      else if (op == "Through") { t[i]->WriteToFile(single); t[a[1]]->LoadFromFile(single); def[a[1]] = true; }
      else { fprintf(stderr, "bad op %s\n", op.c_str()); return 3; }
      struct stat st; stat(path.c_str(), &st);
      long at = (long)in.tellg();
      j.i("len", st.st_size % 4 ? -1 : st.st_size / 4).i("tell", at < 0 || at % 4 ? -1 : at / 4).i("pages", mapped_pages(path.c_str()));
      vt::J d(false), v(false);
      for (int k = 1; k <= N; k++) {
        vt::J x(false);
        if (t[k]) for (long q : vt::dims(*t[k])) x.add(q);
        d.addraw(x.str());
        if (t[k] && def[k]) put_halves(v, *t[k]); else v.addraw("[]");
      }
      j.raw("d", d.str()).raw("v", v.str());
      vt::emit(j);
    }
    for (int i = N; i >= 1; i--) { delete t[i]; t[i] = nullptr; }
    close(fd);
  }
  unlink(path.c_str()); unlink(single.c_str());
  return 0;
}
