// Executes scenarios of spec/Census.tla: writes a dataset into a scratch directory, runs tensorStreamStats on it and records what it
// prints.  census SCENARIO TENSORSTREAMSTATS OUT
#include <cn24.h>
#include "CompressedTensor.h"
#include "CompressedTensorStream.h"
#include "h.h"
#include <unistd.h>
#include <fcntl.h>
#include <sys/wait.h>
using namespace Conv;
static const char* names[] = {"road", "side walk", "c3: other", "4", "long class name of thirty chars", "x | y"};
static std::string trim(std::string s) { size_t a = s.find_first_not_of(" "), b = s.find_last_not_of(" \r"); return a == std::string::npos ? "" : s.substr(a, b - a + 1); }
static long milli(const std::string& s) { char* e; double v = strtod(s.c_str(), &e); return e == s.c_str() || !(std::fabs(v) < 1e6) ? vt::BAD : (long)std::floor(v * 1000 + 0.5); }
static long whole(const std::string& s) { char* e; long v = strtol(s.c_str(), &e, 10); return e == s.c_str() || (*e && *e != ' ' && *e != '\033') ? vt::BAD : v; }
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  std::string base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "'").c_str())) return 3;
  for (auto& w : lines) {
    std::vector<long> cw; long style = 0; std::string sets[2]; long count[2] = {0, 0};
    vt::emit(vt::ev("Begin"));
    size_t p = 0;
    while (p < w.size()) {
      std::string op = w[p++]; std::vector<long> a;
      while (p < w.size() && w[p] != ";") a.push_back(atol(w[p++].c_str()));
      p++;
      if (op == "Cls") {
        style = a[1]; cw.assign(a.begin() + 2, a.end());
        if (style == 0) cw.assign(a[0], 4);
        vt::emit(vt::ev("Cls").arr("w", cw));
      } else if (op == "Image") {
        long s = a[0] - 1, W = a[2], H = a[3], n = cw.size(); vt::R r(W * 131 + H * 17 + p);
        std::vector<long> px(a.begin() + 4, a.end());
        Tensor d(1, W, H, 3), l(1, W, H, n); d.Clear(0.25);
        for (long i = 0; i < W * H; i++) for (long c = 0; c < n; c++) l.data_ptr()[c * W * H + i] = px[i] == c + 1 ? (a[1] ? 3 : 1) : (a[1] ? r.in(-2, 2) : 0);
        std::ostringstream o;
        if (style % 2) { CompressedTensor c; c.Compress(d); c.Serialize(o); CompressedTensor k; k.Compress(l); k.Serialize(o); } else { d.Serialize(o); l.Serialize(o); }
        sets[s] += o.str(); count[s]++;
        vt::emit(vt::ev("Image").i("s", a[0]).arr("px", px));
      } else if (op == "Report") {
        for (int s = 0; s < 2; s++) { std::ofstream f(base + "/s" + std::to_string(s), std::ios::binary); if (style % 2) { uint64_t m = CN24_CTS_MAGIC; f.write((char*)&m, 8); } f << sets[s]; }
        { std::ofstream f(base + "/config");
          auto weights = [&]() { if (style == 0) return; f << "weights\n"; for (long x : cw) f << x / 4.0 << "\n"; };
          if (style == 3) weights();
          f << "classes=" << cw.size() << "\n"; for (size_t c = 0; c < cw.size(); c++) f << names[c] << "\n";
          f << "colors\n"; for (size_t c = 0; c < cw.size(); c++) f << "0x00000" << c + 1 << "\n";
          if (style != 3) weights();
          if (style == 4) f << "localized_error=default\n";
          if (count[0]) f << "training=" << base << "/s0\n"; if (count[1]) f << "testing=" << base << "/s1\n"; }
        if (!count[0] && !count[1]) { vt::emit(vt::ev("Report").i("rc", 0).raw("sections", "[]").raw("names", "[]")); continue; }
        std::string out = base + "/out"; pid_t pid = fork();
        if (pid == 0) { int o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_RDWR); dup2(n, 0); dup2(o, 1); dup2(n, 2); alarm(60); execl(argv[2], argv[2], (base + "/config").c_str(), (char*)nullptr); _exit(121); }
        int st = 0; waitpid(pid, &st, 0);
        vt::J secs(false), nm(false); std::string line; std::ifstream f(out); std::string cls, exp; vt::J rows(false); bool in = false;
        auto flush = [&]() { if (in) secs.addraw(vt::J().i("classes", whole(cls)).i("expected", milli(exp)).raw("rows", rows.str()).str()); in = false; rows = vt::J(false); cls = exp = ""; };
        for (size_t c = 0; c < cw.size(); c++) { nm.addraw("\"" + std::string(names[c]) + "\""); }
        while (std::getline(f, line)) {
          size_t k;
          if (line.find("Stats when") != std::string::npos) { flush(); in = true; }
          else if ((k = line.find("Classes counted: ")) != std::string::npos) cls = line.substr(k + 17);
          else if ((k = line.find("Expected ratio: ")) != std::string::npos) exp = line.substr(k + 16);
          else if (in && (k = line.find("Class ")) != std::string::npos && line.rfind(" | ") != std::string::npos) {
            size_t b = line.rfind(" | "); std::istringstream v(line.substr(b + 3)); std::string n, share, fac, m; v >> n >> share >> fac >> m;
            size_t q = share.find('%'); if (q != std::string::npos && q + 1 < share.size()) { m = fac; fac = share.substr(q + 1); }
            rows.addraw(vt::J().t("name", trim(line.substr(k + 6, b - k - 6))).i("n", whole(n)).i("share", milli(share)).i("factor", milli(fac)).i("m", whole(m)).str());
          }
        }
        flush();
        vt::emit(vt::ev("Report").i("rc", WIFEXITED(st) ? WEXITSTATUS(st) : 1000).raw("sections", secs.str()).raw("names", nm.str()));
        for (const char* n : {"/s0", "/s1", "/config", "/out"}) unlink((base + n).c_str());
      } else return 3;
    }
  }
  rmdir(base.c_str());
  return 0;
}
