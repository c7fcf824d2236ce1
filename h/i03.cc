// I03: damaged Gmsh files.  For a family of files in all encodings: every
// truncation point, every deleted/duplicated line (2.2 text), and all unsupported headers.
// A damaged file must be rejected (exception or failed assertion); it must
// never be accepted with other contents nor crash the reader.
#include <setjmp.h>
#include <sys/resource.h>

#include "gmlay.h"
using namespace gm;
namespace {
std::vector<std::function<void()>> items;
sigjmp_buf jb;
volatile sig_atomic_t armed = 0;
void onAbort(int) {
  if (armed) siglongjmp(jb, 1);
}
enum Res { kAccepted, kThrown, kAborted };
using Var = std::variant<lf::io::GMshFileV2, lf::io::GMshFileV4>;
Res readIt(Var* out) {
  static bool init = false;
  if (!init) {
    init = true;
    struct sigaction a;
    std::memset(&a, 0, sizeof a);
    a.sa_handler = onAbort;
    a.sa_flags = SA_NODEFER;
    sigaction(SIGABRT, &a, nullptr);
    rlimit l{6ul << 30, 6ul << 30};
    setrlimit(RLIMIT_AS, &l);
  }
  const int nul = open("/dev/null", O_WRONLY), save = dup(2);
  dup2(nul, 2);
  close(nul);
  const int probe = open("/dev/null", O_RDONLY);
  close(probe);
  volatile Res r = kAccepted;
  if (sigsetjmp(jb, 1) == 0) {
    armed = 1;
    try {
      *out = lf::io::ReadGmshFile(path());
      r = kAccepted;
    } catch (const std::exception&) {
      r = kThrown;
    }
    armed = 0;
  } else {
    armed = 0;
    r = kAborted;
    close(probe);  // the stream of the abandoned call
  }
  dup2(save, 2);
  close(save);
  return r;
}
std::vector<File> models() {
  std::vector<File> r;
  {
    Par p;
    p.lay = 0, p.scale = 1;  // no integer coordinates: a lost token cannot yield another valid file by coincidence
    p.edgesel = {1, 0, 2};
    p.ptsel = 1;
    File f = make(p);
    f.names = {{1, 1, "a"}, {2, 3, "b c"}};
    f.ents[1][0].phys = {1, 2};
    f.ents[0][0].phys = {7};
    f.nblock = {1, 2};
    r.push_back(f);
    f.hasPer = true;
    f.per = {{0, 2, 1, true, {{2, 1}}}, {1, 1, 2, false, {}}};
    f.comments = true;
    f.group = 1;
    r.push_back(f);
  }
  {
    Par p;
    p.lay = 3, p.order = 9, p.scale = 1;
    p.edgesel = {0, 1};
    File f = make(p);
    f.group = 1;
    r.push_back(f);
    f.split = true;
    f.nparts = 2;
    f.ghostEnts = {{3, 1}};
    for (int d = 0; d < 3; ++d)
      for (auto& e : f.ents[d]) f.pents[d].push_back({e.tag, d, e.tag, {1, 2}, {e.tag}, {1}});
    f.hasGhost = true;
    f.ghosts = {{1, 2, {1}}};
    for (auto& e : f.elems) e.parts = {1, 2};
    r.push_back(f);
  }
  return r;
}
void tryFile(const std::string& content, const std::string& what, bool mayBeAccepted, const File& f, int fmt) {
  mc::current(std::string(fmtName(fmt)) + " " + what);
  mc::states();
  mc::transitions();
  mc::traces();
  put(content);
  Var v;
  const Res r = readIt(&v);
  mc::outcome((static_cast<uint64_t>(r) << 60) ^ mc::fnv(content));
  if (r != kAccepted) {
    MC_CHECK(true, "rejected", "");
    return;
  }
  if (!mayBeAccepted) {
    MC_CHECK(false, "damaged-file-accepted", mc::current());
    return;
  }
  checkParsed(f, fmt, v);
}
uint64_t dummy;
std::vector<std::string> linesOf(const std::string& s) {
  std::vector<std::string> l;
  size_t a = 0;
  while (a < s.size()) {
    size_t b = s.find('\n', a);
    if (b == std::string::npos) b = s.size() - 1;
    l.push_back(s.substr(a, b - a + 1));
    a = b + 1;
  }
  return l;
}
void setup() {
  const auto ms = models();
  for (size_t k = 0; k < ms.size(); ++k)
    for (int fmt = 0; fmt < 6; ++fmt) {
      const File f = ms[k];
      const std::string c = write(f, fmt);
      const std::string at = "model " + std::to_string(k);
      // the intact file is accepted (otherwise everything below is vacuous)
      items.push_back([=] {
        mc::current(at + " intact");
        put(c);
        Var v;
        const Res r = readIt(&v);
        MC_CHECK(r == kAccepted, "intact-file-rejected", fmtName(fmt) << " " << mc::current());
        if (r == kAccepted) checkParsed(f, fmt, v);
        mc::states(), mc::transitions();
      });
      const size_t endEl = c.find("$EndElements") + 12;
      // truncation before the end of the elements; chunks of 256 positions
      for (size_t b = 0; b < endEl; b += 256)
        items.push_back([=] {
          for (size_t n = b; n < std::min(b + 256, endEl); ++n) tryFile(c.substr(0, n), at + " truncated to " + std::to_string(n) + " of " + std::to_string(c.size()) + " bytes", false, f, fmt);
          // torn write: the tail of the file was not written (zeros)
          for (size_t n = b; n < std::min(b + 256, endEl); ++n) {
            std::string s = c;
            std::fill(s.begin() + static_cast<long>(n), s.end(), '\0');
            tryFile(s, at + " zeros from byte " + std::to_string(n) + " of " + std::to_string(c.size()), false, f, fmt);
          }
        });
      if (fmt == V4T) {
        // free format: a lost line can leave another well-formed file, nothing is claimed
      } else if (fmt == V2T) {
        items.push_back([=] {
          auto l = linesOf(c);
          bool inComment = false;
          for (size_t i = 0; i < l.size(); ++i) {
            const bool open = l[i] == "$Comments\n" || l[i] == "$Other\n", close = l[i] == "$EndComments\n" || l[i] == "$EndOther\n";
            if (open) inComment = true;
            for (int dup = 0; dup < 2; ++dup) {
              std::string s;
              for (size_t j = 0; j < l.size(); ++j) {
                if (j == i && !dup) continue;
                s += l[j];
                if (j == i) s += l[j];
              }
              const bool tail = c.size() - l[i].size() >= endEl && [&] { size_t p = 0; for (size_t j = 0; j < i; ++j) p += l[j].size(); return p >= endEl; }();
              if (tail || (dup && l[i] == "$EndElements\n")) continue;  // the sections after the elements are not needed to read a mesh
              tryFile(s, at + " line " + std::to_string(i) + (dup ? " twice: " : " missing: ") + l[i].substr(0, 40), inComment && !open && !close, f, fmt);
            }
            if (close) inComment = false;
          }
        });
      }
      // headers
      items.push_back([=] {
        auto hdr = [&](const std::string& line) {
          std::string s = c;
          const size_t a = 12, e = s.find('\n', a);
          s.replace(a, e - a, line);
          return s;
        };
        const bool bin = fmt % 3 != 0;
        for (const char* v : {"1", "1.0", "2", "2.0", "2.1", "2.20", "3", "3.0", "4", "4.0", "4.2", "4.10", "5", "v2.2", ""})
          tryFile(hdr(std::string(v) + (bin ? " 1 8" : " 0 8")), at + " version '" + v + "'", false, f, fmt);
        for (const char* v : {" 1", " 0", " ", " 2 8", bin ? " 1 4" : " 0 4", bin ? " 0 8" : " 1 8"})
          tryFile(hdr(std::string(fmt < 3 ? "2.2" : "4.1") + v), at + " header '" + v + "'", false, f, fmt);
        if (bin) {  // wrong byte order mark
          for (int one : {0, 2, 256, -1}) {
            std::string s = c;
            const size_t a = s.find('\n', 12) + 1;
            std::memcpy(&s[a], &one, 4);
            if (fmt % 3 == 2) continue;
            tryFile(s, at + " byte order mark " + std::to_string(one), false, f, fmt);
          }
        }
        mc::current(at + " missing file");
        cleanup();
        Var v;
        const Res r = readIt(&v);
        MC_CHECK(r == kThrown, "missing-file", mc::current());
      });
    }
}
long count() {
  if (items.empty()) setup();
  return static_cast<long>(items.size());
}
void item(long k) {
  items[k]();
  mc::sample(mc::current());
  cleanup();
}
}  // namespace
int main(int argc, char** argv) { return mc::run(argc, argv, count, item); }
