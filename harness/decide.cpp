// Executes scenarios of spec/Decide.tla: networks with given parameters are saved with the library, images are labelled by the
// classification program.  decide SCENARIO CLASSIFY OUT
#include <cn24.h>
#include "h.h"
#include "pngio.h"
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/stat.h>
using namespace Conv;
static std::string base;
// runs a program; its exit code, -1 if it doesn't end, 1000 + signal
static int run(std::vector<std::string> argv) {
  pid_t p = fork();
  if (p == 0) {
    std::vector<char*> a; for (auto& x : argv) a.push_back((char*)x.c_str()); a.push_back(nullptr);
    if (chdir(base.c_str())) _exit(120);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0); dup2(n, 1); dup2(n, 2);
    execv(a[0], a.data()); _exit(121);
  }
  int st = 0, waited = 0;
  for (;;) {
    pid_t r = waitpid(p, &st, WNOHANG);
    if (r == p) break;
    if (waited > 60000) { kill(p, SIGKILL); waitpid(p, &st, 0); return -1; }
    usleep(waited < 200 ? 2000 : 10000); waited += waited < 200 ? 2 : 10;
  }
  return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}
int main(int argc, char** argv) {
  auto lines = vt::scenario_lines(argv[1]);
  vt::open(argv[argc - 1]);
  System::Init(0);
  base = std::string(argv[argc - 1]) + ".d";
  if (system(("mkdir -p '" + base + "'").c_str())) return 3;
  { char b[4096]; if (realpath(base.c_str(), b)) base = b; }
  int serial = 0;
  for (auto& w : lines) {
    unsigned classes = 0, maps = 0;
    size_t p = 0;
    vt::emit(vt::ev("Begin"));
    while (p < w.size()) {
      std::string op = w[p++];
      std::vector<std::string> s; std::vector<long> a;
      while (p < w.size() && w[p] != ";") { s.push_back(w[p]); a.push_back(atol(w[p++].c_str())); }
      p++;
      vt::J j = vt::ev(op.c_str()); serial++;
      if (op == "Describe") {
        maps = a[0]; classes = a[1]; size_t i = 2;
        vt::J pal(false), ls(false);
        std::ofstream d(base + "/dataset"), n(base + "/net");
        d << "classes=" << classes << "\n"; for (unsigned c = 0; c < classes; c++) d << "class" << c << "\n";
        d << "colors\n"; char b[20];
        for (unsigned c = 0; c < classes; c++, i += 3) { sprintf(b, "0x%06X", (unsigned)((a[i] << 16) | (a[i+1] << 8) | a[i+2])); d << b << "\n"; pal.addraw(vt::J(false).add(a[i]).add(a[i+1]).add(a[i+2]).str()); }
        if (serial % 3 == 0) d << "training=nothing.Tensor\n";
        long count = a[i++];
        if (serial % 2) n << "# a net\nmethod=patch\nlr=0.1\n";
        for (long k = 0; k < count; k++) {
          std::string t = s[i++]; vt::J l(false); l.addt(t);
          std::vector<long> q; size_t m = t == "conv" ? 8 : t == "pool" ? 2 : t == "apool" ? 4 : 0;
          while (q.size() < m) { q.push_back(a[i]); l.add(a[i++]); }
          auto sz = [&](const char* key, long x, long y) { n << " " << key << "=" << x << "x" << y; };
          if (t == "conv") {
            std::string kernels = k + 1 == count ? "(o)" : std::to_string(q[2]);
            if (q[0] == 1 && q[1] == 1 && q[3] == 1 && q[4] == 1 && !q[7] && serial % 2) n << "?fullyconnected neurons=" << kernels << "\n";
            else {
              n << "?convolutional kernels=" << kernels; sz("size", q[0], q[1]);
              if (q[3] != 1 || q[4] != 1) sz("stride", q[3], q[4]);
              if (q[5] || q[6]) sz("pad", q[5], q[6]);
              if (q[7]) n << " dropout=0.5";
              n << "\n";
            }
          } else if (t == "relu") n << "?relu\n";
          else if (t == "prior") n << "?spatialprior\n";
          else { n << (t == "pool" ? "?maxpooling" : "?amaxpooling"); sz("size", q[0], q[1]); if (t == "apool") sz("stride", q[2], q[3]); n << "\n"; }
          ls.addraw(l.str());
        }
        n << "?output\n";
        j.i("m", maps).raw("pal", pal.str()).raw("ls", ls.str());
        n.close();
        std::ifstream nf(base + "/net"); ConfigurableFactory f(nf, 1, false);
        Tensor data(1, 8, 8, maps), helper(1, 8, 8, 2); InputLayer in(data, helper); NetGraph g; NetGraphNode node(&in); node.is_input = true; g.AddNode(&node);
        j.b("complete", f.AddLayers(g, NetGraphConnection(&node), classes));
      } else if (op == "Train") {
        std::ifstream nf(base + "/net"); ConfigurableFactory f(nf, serial, false);
        Tensor data(1, 8, 16, maps), helper(1, 8, 16, 2); InputLayer in(data, helper); NetGraph g; NetGraphNode node(&in); node.is_input = true; g.AddNode(&node);
        f.AddLayers(g, NetGraphConnection(&node), classes); g.Initialize();
        size_t i = 1; vt::J ps(false);
        for (auto* nd : g.GetNodes()) {
          if (!nd->layer->parameters().size()) continue;
          size_t n = a[i++]; std::vector<long> v(a.begin() + i, a.begin() + i + n); i += n;
          ps.add(0); ps.s.pop_back(); ps.s += "["; for (size_t e = 0; e < n; e++) ps.s += (e ? "," : "") + std::to_string(v[e]); ps.s += "]";
          Tensor& wt = nd->layer->parameters()[0]->data; Tensor& bt = nd->layer->parameters()[1]->data;
          if (wt.elements() + bt.elements() != n) { j.b("size", false); continue; }
          size_t e = 0;                                   // kernel, map, row, column
          for (unsigned o = 0; o < wt.samples(); o++) for (unsigned m = 0; m < wt.maps(); m++) for (unsigned y = 0; y < wt.height(); y++) for (unsigned x = 0; x < wt.width(); x++)
            *wt.data_ptr(x, y, m, o) = v[e++] / 8.0f;
          for (unsigned o = 0; o < bt.elements(); o++) bt.data_ptr()[o] = v[e++] / (8.0f * 255.0f);
        }
        j.raw("p", ps.str());
        std::ofstream o(base + "/net.Tensor", std::ios::binary); g.SerializeParameters(o);
      } else {
        long W = a[0], H = a[1]; std::vector<long> pix(a.begin() + 2, a.end());
        vt::write_png(base + "/in.png", W, H, maps, pix); unlink((base + "/out.png").c_str());
        int rc = run({argv[2], base + "/dataset", base + "/net", base + "/net.Tensor", base + "/in.png", base + "/out.png"});
        long ow = 0, oh = 0, oc = 0; std::vector<long> out = vt::read_png(base + "/out.png", ow, oh, oc);
        j.i("w", W).i("h", H).arr("pix", pix).i("rc", rc).i("ow", ow).i("oh", oh).i("oc", oc).arr("out", out);
      }
      vt::emit(j);
    }
  }
  return 0;
}
