// harness search PROP SEED SECONDS MAXCASES HINTS DICT OUT   |  harness replay PROP FILE
// Cases run in a forked child; the case being run is kept in shared memory so that a crash or a hang
// is reported with its input.
#include "common.hpp"

#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <fstream>
#include <iostream>
#include <sstream>

namespace vf {
std::vector<Prop>& registry () {
  static std::vector<Prop> r;
  return r;
}
std::vector<std::string> dict_words;
std::vector<unsigned> dict_numbers;
std::string show (std::string_view s) {
  std::string o;
  for (unsigned char c : s) {
    if (c >= 0x20 && c < 0x7f && c != '\\' && c != '"') o += static_cast<char> (c);
    else {
      char b[8];
      std::snprintf (b, sizeof b, "\\x%02x", c);
      o += b;
    }
  }
  return o;
}
}  // namespace vf
using namespace vf;

namespace {
constexpr std::size_t shm_size = 1U << 22U;
struct Shm {
  volatile unsigned long count;
  volatile unsigned long distinct;
  volatile unsigned long nontrivial;
  volatile unsigned hints_done;
  volatile std::uint32_t case_len;
  volatile std::uint32_t msg_len;
  volatile std::uint32_t nsamples;
  char msg[1U << 16U];
  char samples[4][4096];
  char data[shm_size - (1U << 17U)];
};
Shm* shm;

std::string ser (Case const& c) {
  std::string o;
  static char const* hex = "0123456789abcdef";
  bool first = true;
  for (auto const& f : c) {
    if (!first) o += ' ';
    first = false;
    o += '.';
    for (unsigned char ch : f) {
      o += hex[ch >> 4U];
      o += hex[ch & 15U];
    }
  }
  return o;
}
Case des (std::string const& line) {
  Case c;
  std::istringstream is (line);
  std::string tok;
  while (is >> tok) {
    if (tok[0] != '.') continue;
    std::string f;
    for (std::size_t i = 1; i + 1 < tok.size (); i += 2) f += static_cast<char> (std::stoul (tok.substr (i, 2), nullptr, 16));
    c.push_back (f);
  }
  return c;
}
void set_case (Case const& c) {
  auto s = ser (c);
  auto n = std::min (s.size (), sizeof (shm->data) - 1);
  std::memcpy (shm->data, s.data (), n);
  shm->case_len = static_cast<std::uint32_t> (n);
}
void set_msg (std::string const& m) {
  auto n = std::min (m.size (), sizeof (shm->msg) - 1);
  std::memcpy (shm->msg, m.data (), n);
  shm->msg_len = static_cast<std::uint32_t> (n);
}
Prop const* find (char const* id) {
  for (auto const& p : registry ())
    if (std::strcmp (p.id, id) == 0) return &p;
  return nullptr;
}
double now () {
  timespec t{};
  clock_gettime (CLOCK_MONOTONIC, &t);
  return static_cast<double> (t.tv_sec) + static_cast<double> (t.tv_nsec) * 1e-9;
}
[[noreturn]] void child_search (Prop const& p, std::uint64_t seed, double secs, unsigned long maxcases,
                                std::vector<std::string> const& hints) {
  Rng rng (seed);
  auto const t0 = now ();
  std::unordered_set<std::uint64_t> seen;
  auto run = [&] (Case const& c) {
    set_case (c);
    Result const r = p.check (c);
    shm->count = shm->count + 1;
    if (!r.fail.empty ()) {
      set_msg (r.fail);
      _exit (10);
    }
    std::uint64_t h = 1469598103934665603ULL;
    for (std::uint32_t i = 0; i < shm->case_len; ++i) h = (h ^ static_cast<unsigned char> (shm->data[i])) * 1099511628211ULL;
    if (r.nontrivial && seen.size () < 4000000 && seen.insert (h).second) {
      shm->nontrivial = shm->nontrivial + 1;
      auto k = shm->nsamples;
      if (k < 4 && shm->case_len < 4000 && (shm->nontrivial % 7) == 1) {
        std::memcpy (shm->samples[k], shm->data, shm->case_len);
        shm->samples[k][shm->case_len] = 0;
        shm->nsamples = k + 1;
      }
    }
  };
  for (auto const& h : hints) {
    run (des (h));
    shm->hints_done = shm->hints_done + 1;
  }
  for (unsigned long i = 0; i < maxcases; ++i) {
    if ((i & 63U) == 0 && now () - t0 > secs) break;
    run (p.gen (rng, i));
  }
  _exit (0);
}
int supervise (std::function<void ()> const& body, std::string& how) {
  auto* m = mmap (nullptr, sizeof (Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (m == MAP_FAILED) { std::perror ("mmap"); return 3; }
  shm = static_cast<Shm*> (m);
  auto pid = fork ();
  if (pid < 0) { std::perror ("fork"); return 3; }
  if (pid == 0) {
    body ();
    _exit (0);
  }
  unsigned long last = shm->count;
  double lt = now ();
  for (;;) {
    int st = 0;
    auto w = waitpid (pid, &st, WNOHANG);
    if (w == pid) {
      if (WIFEXITED (st)) {
        if (WEXITSTATUS (st) == 0) return 0;
        if (WEXITSTATUS (st) == 10) { how = std::string (shm->msg, shm->msg_len); return 1; }
        how = "the process ended abnormally (exit status " + std::to_string (WEXITSTATUS (st)) + "): sanitizer report or exit";
        return 1;
      }
      how = "the process was ended by signal " + std::to_string (WTERMSIG (st)) + " (failed assertion, crash)";
      return 1;
    }
    if (shm->count != last) { last = shm->count; lt = now (); }
    if (now () - lt > 20) {
      kill (pid, SIGKILL);
      waitpid (pid, &st, 0);
      how = "no answer after 20 s (hang)";
      return 1;
    }
    usleep (3000);
  }
}
}  // namespace

int main (int argc, char** argv) {
  if (argc >= 4 && std::strcmp (argv[1], "replay") == 0) {
    auto const* p = find (argv[2]);
    if (p == nullptr) { std::cerr << "unknown property\n"; return 3; }
    std::ifstream f (argv[3]);
    std::string line, all;
    std::string how;
    while (std::getline (f, line)) {
      if (line.rfind ("case: ", 0) == 0 || (!line.empty () && line[0] == '.')) {
        auto const c = des (line);
        int r = supervise ([&] {
          set_case (c);
          auto const q = p->check (c);
          shm->count = shm->count + 1;
          if (!q.fail.empty ()) { set_msg (q.fail); _exit (10); }
        }, how);
        if (r != 0) {
          std::cout << "FAIL " << p->id << "\n" << how << "\n";
          for (auto const& x : c) std::cout << "  field: \"" << show (x) << "\"\n";
          return 1;
        }
        std::cout << "held\n";
      }
    }
    return 0;
  }
  if (argc < 9) { std::cerr << "usage\n"; return 3; }
  auto const* p = find (argv[2]);
  if (p == nullptr) { std::cerr << "unknown property\n"; return 3; }
  std::vector<std::string> hints;
  {
    std::ifstream f (argv[6]);
    std::string line;
    while (std::getline (f, line)) if (!line.empty () && line[0] == '.') hints.push_back (line);
  }
  {
    std::ifstream f (argv[7]);
    std::string line;
    while (std::getline (f, line)) {
      if (line.size () > 2 && line[0] == 'w') { auto c = des (line.substr (2)); if (!c.empty ()) dict_words.push_back (c[0]); }
      if (line.size () > 2 && line[0] == 'n') dict_numbers.push_back (static_cast<unsigned> (std::stoul (line.substr (2))));
    }
  }
  std::string how;
  int r = supervise ([&] { child_search (*p, std::stoull (argv[3]), std::stod (argv[4]), std::stoul (argv[5]), hints); }, how);
  std::ofstream out (argv[8]);
  out << "evaluations " << shm->count << "\n" << "nontrivial " << shm->nontrivial << "\n" << "hints " << shm->hints_done << "\n";
  for (std::uint32_t i = 0; i < shm->nsamples; ++i) out << "sample " << shm->samples[i] << "\n";
  if (r == 1) {
    out << "case: " << std::string (shm->data, shm->case_len) << "\n";
    std::string m = how;
    for (auto& ch : m) if (ch == '\n') ch = ' ';
    out << "message: " << m << "\n";
  }
  return r;
}
