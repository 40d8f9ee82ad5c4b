// Executes scenarios of spec/Tools.tla with the conversion tools, in a scratch directory; the files they leave are read back with
// the library.  tools SCENARIO MAKE MAKECOMPRESSED COMPRESS TRUNCATE EDIT OUT
#include <cn24.h>
#include "TensorStream.h"
#include "CompressedTensorStream.h"
#include "CompressedTensor.h"
#include "h.h"
#include "pngio.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <poll.h>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace Conv;
static const int NF = 3;
static std::string base;
static std::string path(long f) { return base + "/f" + std::to_string(f) + ".Tensor"; }
static bool exists(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0; }
static std::string tensor_json(const std::vector<long>& d, const std::vector<long>& v) { return vt::J().arr("d", d).arr("v", v).str(); }
static std::string contents(TensorStream* s) {
  vt::J ts(false);
  for (unsigned k = 0; k < s->GetTensorCount(); k++) {
    long n = s->GetSamples(k), w = s->GetWidth(k), h = s->GetHeight(k), m = s->GetMaps(k);
    std::vector<long> v;
    for (long i = 0; i < n; i++) {
      Tensor t(1, w, h, m); t.Clear(7.7f);
      if (!s->CopySample(k, i, t, 0)) v.push_back(vt::BAD);
      for (size_t e = 0; e < t.elements(); e++) v.push_back(vt::byte255(t.data_ptr_const()[e]));
    }
    ts.addraw(tensor_json({n, w, h, m}, v));
  }
  return ts.str();
}
// every tensor of a file, also those behind one without elements
static std::string raw_contents(const std::string& p, bool comp) {
  vt::J ts(false); std::ifstream i(p, std::ios::binary); if (comp) i.seekg(8);
  while (i.peek() != EOF) {
    Tensor t; if (comp) { CompressedTensor c; c.Deserialize(i); t.Resize(c.samples(), c.width(), c.height(), c.maps()); if (c.elements()) c.Decompress(t); } else t.Deserialize(i);
    std::vector<long> v; for (size_t e = 0; e < t.elements(); e++) v.push_back(vt::byte255(t.data_ptr_const()[e]));
    ts.addraw(tensor_json({(long)t.samples(), (long)t.width(), (long)t.height(), (long)t.maps()}, v));
  }
  return ts.str();
}
static std::string files(std::string& seen) {
  vt::J a(false), b(false);
  for (int f = 1; f <= NF; f++) {
    vt::J j;
    if (!exists(path(f))) { j.t("k", "none").raw("ts", "[]"); b.add(0); }
    else {
      uint64_t magic = 0; { std::ifstream i(path(f), std::ios::binary); i.read((char*)&magic, 8); if (!i) magic = 0; }
      TensorStream* s = TensorStream::FromFile(path(f), {});
      bool comp = magic == CN24_CTS_MAGIC; std::string all = raw_contents(path(f), comp), shown = contents(s);
      // the stream shows the first of the file's tensors
      shown.pop_back();
      bool first = all.compare(0, shown.size(), shown) == 0 && (all[shown.size()] == ']' || all[shown.size()] == ',' || s->GetTensorCount() == 0);
      b.add(first ? (long)s->GetTensorCount() : vt::BAD);
      j.t("k", comp ? "comp" : "raw").raw("ts", all);
    }
    a.addraw(j.str());
  }
  seen = b.str();
  return a.str();
}
// runs a tool; its exit code, -1 if it doesn't end, 1000 + signal
static int run(std::vector<std::string> argv, const std::string& input, std::string& output) {
  std::string in = base + "/stdin", out = base + "/stdout";
  { std::ofstream f(in); f << input; }
  pid_t p = fork();
  if (p == 0) {
    std::vector<char*> a; for (auto& x : argv) a.push_back((char*)x.c_str()); a.push_back(nullptr);
    if (chdir(base.c_str())) _exit(120);
    int i = open(in.c_str(), O_RDONLY), o = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), n = open("/dev/null", O_WRONLY);
    dup2(i, 0); dup2(o, 1); dup2(n, 2);
    execv(a[0], a.data()); _exit(121);
  }
  int st = 0, waited = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    struct stat s; bool flood = stat(out.c_str(), &s) == 0 && s.st_size > (8 << 20);
    if (waited > 60000 || flood) { kill(p, SIGKILL); waitpid(p, &st, 0); if (!flood) unlink(out.c_str()); else if (truncate(out.c_str(), 0)) {} return -1; }
    usleep(waited < 200 ? 2000 : 10000); waited += waited < 200 ? 2 : 10;
  }
  std::ifstream f(out); std::stringstream ss; ss << f.rdbuf(); output = ss.str();
  return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "'").c_str())) return 3;
  { char b[4096]; if (realpath(base.c_str(), b)) base = b; }
  int serial = 0;
  for (auto& w : lines) {
    std::vector<unsigned> colors; std::vector<std::vector<long>> img;   // img: w, h, ch
    size_t p = 0;
    vt::emit(vt::ev("Begin"));
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<std::string> s; std::vector<long> a;
      while (p < w.size() && w[p] != ";") { s.push_back(w[p]); a.push_back(atol(w[p++].c_str())); }
      p++;
      vt::J j = vt::ev(op.c_str()); std::string out; int rc = 0;
      auto name = [&](long i) { return i == 0 ? std::string() : "i" + std::to_string(i) + ".png"; };
      if (op == "Palette") {
        vt::J q(false); std::ofstream f(base + "/config"); f << "classes=" << a.size() / 3 << "\n";
        for (size_t i = 0; i < a.size(); i += 3) {
          q.addraw(vt::J(false).add(a[i]).add(a[i+1]).add(a[i+2]).str());
          colors.push_back((a[i] << 16) | (a[i+1] << 8) | a[i+2]); f << "c" << i << "\n";
        }
        f << "colors\n"; char b[20]; for (unsigned c : colors) { sprintf(b, "0x%06X", c); f << b << "\n"; }
        j.raw("p", q.str());
      } else if (op == "Image") {
        std::vector<long> pix(a.begin() + 3, a.end());
        img.push_back({a[0], a[1], a[2]});
        vt::write_png(base + "/" + name(img.size()), a[0], a[1], a[2], pix);
        j.i("w", a[0]).i("h", a[1]).i("ch", a[2]).arr("pix", pix);
      } else if (op == "Put") {
        vt::J ts(false); std::ofstream f(path(a[0]), std::ios::binary); size_t i = 1;
        while (i < a.size()) {
          std::vector<long> d(a.begin() + i, a.begin() + i + 4); long n = d[0] * d[1] * d[2] * d[3]; i += 4;
          std::vector<long> v(a.begin() + i, a.begin() + i + n); i += n;
          Tensor t(d[0], d[1], d[2], d[3]); for (long e = 0; e < n; e++) t.data_ptr()[e] = v[e] / 255.0f;
          t.Serialize(f); ts.addraw(tensor_json(d, v));
        }
        j.i("f", a[0]).raw("ts", ts.str());
      } else if (op == "Make") {
        long n = a[3]; bool direct = a[2], comp = s[1] == "comp"; serial++;
        std::vector<long> il(a.begin() + 4, a.begin() + 4 + n), ll(a.begin() + 4 + n, a.end());
        auto list = [&](const char* f, const std::vector<long>& l) {       // with and without a newline at the end
          std::ofstream o(base + "/" + f); for (size_t k = 0; k < l.size(); k++) o << name(l[k]) << (k + 1 < l.size() || serial % 3 ? "\n" : "");
        };
        list("il", il); list("ll", ll);
        std::string dir = serial % 2 ? base : base + "/";
        rc = run({argv[comp ? 3 : 2], base + "/config", base + "/il", dir, base + "/ll", dir, path(a[0]), direct ? "true" : "false"}, "", out);
        bool same = !direct && il.size() == ll.size();       // a list stream promises nothing about pairs of differing size
        for (size_t k = 0; same && k < il.size(); k++) { same = il[k] && ll[k]; if (same) same = img[il[k]-1][0] == img[ll[k]-1][0] && img[il[k]-1][1] == img[ll[k]-1][1]; }
        j.i("f", a[0]).t("kind", s[1]).b("direct", direct).arr("il", il).arr("ll", ll);
        j.raw("list", same ? contents(TensorStream::FromFile("list:" + base + "/il;" + base + "/;" + base + "/ll;" + base + "/", colors)) : "[-1]");
      } else if (op == "Compress") {
        rc = run({argv[4], path(a[0]), path(a[1])}, "", out); j.i("f", a[0]).i("g", a[1]);
      } else if (op == "Keep") {
        rc = run({argv[5], path(a[0]), std::to_string(a[1])}, "", out); j.i("f", a[0]).i("n", a[1]);
      } else if (op == "Edit") {
        std::string in; vt::J cs(false); size_t i = 3;
        // the program asks for the sample only if there is more than one: follow the shape
        long S, W, H, M; { std::ifstream f(path(a[0]), std::ios::binary); Tensor t; for (int k = 0; k <= a[1] && f.peek() != EOF; k++) t.Deserialize(f); S = t.samples(); W = t.width(); H = t.height(); M = t.maps(); }
        while (i < s.size()) {
          std::string c = s[i++]; vt::J cj(false); cj.addt(c);
          if (c == "reshape") {
            long q[4]; for (long& x : q) { x = a[i++]; cj.add(x); }
            in += "reshape " + std::to_string(q[0]) + " " + std::to_string(q[1]) + "\n" + std::to_string(q[2]) + " " + std::to_string(q[3]) + "\n";
            if (q[0] * q[1] * q[2] * q[3] == S * W * H * M) { W = q[0]; H = q[1]; M = q[2]; S = q[3]; }
          } else if (c == "patches") {
            long q[3]; for (long& x : q) { x = a[i++]; cj.add(x); }
            in += "extractpatches\n"; if (S != 1) in += std::to_string(q[0]) + "\n";
            in += std::to_string(q[1]) + "\n" + std::to_string(q[2]) + "\n";
            S = W * H; W = q[1]; H = q[2];
          } else { in += c + "\n"; if (c == "transpose") std::swap(W, H); }
          cs.addraw(cj.str());
        }
        if (a[2]) in += serial++ % 2 ? "q\n" : "quit\n";       // or the end of the input
        rc = run({argv[6], path(a[0]), std::to_string(a[1])}, in, out);
        vt::J sizes(false);       // lines with a size, after the prompt
        size_t at = 0;
        while ((at = out.find("VIS> (", at)) != std::string::npos) {
          long q[4] = {0, 0, 0, 0};
          if (sscanf(out.c_str() + at, "VIS> (%lds@%ldx%ldx%ldm)", q, q + 1, q + 2, q + 3) == 4) { vt::J d(false); for (long x : q) d.add(x); sizes.addraw(d.str()); }
          at += 6;
        }
        std::vector<long> bytes; { std::ifstream f(base + "/binoutput.data", std::ios::binary); char c; while (f.get(c)) bytes.push_back((unsigned char)c); }
        j.i("f", a[0]).i("n", a[1]).raw("cs", cs.str()).arr("bin", bytes).raw("out", sizes.str());
      } else return 3;
      if (op != "Palette" && op != "Image") { std::string seen, all = files(seen); j.i("rc", rc).raw("file", all).raw("seen", seen); }
      vt::emit(j);
    }
    if (system(("rm -f '" + base + "'/*").c_str())) return 3;
  }
  return 0;
}
