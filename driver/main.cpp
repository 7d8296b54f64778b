#include "drv.hpp"
#include <iostream>
#include <fstream>
std::map<std::string, Factory> &factories() { static std::map<std::string, Factory> f; return f; }
int main(int argc, char **argv) {
  if (argc < 3) return 64;
  std::ifstream in(argv[1]);
  FILE *out = fopen(argv[2], "w");
  static std::ostringstream &sink = *new std::ostringstream;   // outlives the streams' last flush
  std::cout.rdbuf(sink.rdbuf());
  std::cerr.rdbuf(sink.rdbuf());
  std::map<int, std::unique_ptr<Obj>> st;
  std::string line;
  while (std::getline(in, line)) {
    // "T": new trace; "R": relation between objects (no call); otherwise: id op args
    if (line.empty()) continue;
    if (line[0] == 'T') { st.clear(); fputs("T\n", out); continue; }
    if (line[0] == 'R') { fputs("R\n", out); continue; }
    Tok t(&line[0]);
    int id = t.i();
    std::string op = t.s();
    Out r; Alt a;
    std::string x;
    bool full = false;
    sink.str("");
    if (op == "new") {
      std::string kind = t.s();
      auto f = factories().find(kind);
      if (f == factories().end()) { fprintf(stderr, "driver: no kind %s\n", kind.c_str()); return 65; }
      st[id].reset(f->second(t));
      full = true;
    } else if (op == "copy") {
      st[id].reset(st.at(t.i())->clone());
      full = true;
    } else if (op == "assign") {
      st.at(id)->assign(*st.at(t.i()));
      full = true;
    } else {
      if (op[0] == '!') { full = true; op = op.substr(1); }   // '!': record parameters too
      try {
        st.at(id)->exec(op, t, r);
      } catch (const std::logic_error &e) {
        if (!strncmp(e.what(), "driver:", 7)) { fprintf(stderr, "%s in %s\n", e.what(), line.c_str()); return 66; }
        x = dynamic_cast<const std::invalid_argument *>(&e) ? "invalid_argument" : "logic_error";
      } catch (const std::exception &) { x = "exception"; }
      catch (...) { x = "unknown"; }
    }
    if (t.more()) { fprintf(stderr, "driver: trailing tokens in %s\n", line.c_str()); return 67; }
    Out o;
    st.at(id)->obs(o, a, full);
    fprintf(out, "\"x\":\"%s\",\"alt\":[%s],\"rt\":{%s},\"s\":{%s}}\n", x.c_str(), a.s.c_str(), r.s.c_str(), o.s.c_str());
    fflush(out);
  }
  fclose(out);
  return 0;
}
