// NOTE: well-formed files broken in every way (cut, bytes changed, parts deleted, types swapped, nested deep); the same text read by the json and xml libraries alone says what may come out
// QUICK: 2.5
#include <sys/stat.h>
#include <tinyxml2.h>
#include <nlohmann/json.hpp>
#include "files.hpp"
#include "fields2cover/utils/parser.h"
using namespace g;
using namespace fl;
using json = nlohmann::json;
namespace {
enum St {OK, ANY, BAD};   // what the importer has to do: return exactly this, return or refuse, refuse
struct Got {St st {OK}; std::vector<std::vector<std::array<double, 3>>> rings; std::string name; double width {0}; long long id {0};
  void worst(St s) {st = std::max(st, s);}};
void pos(const json& j, Got& o) {
  if (!j.is_array() || j.size() < 2) {o.worst(j.is_object() ? ANY : BAD); return;}
  std::array<double, 3> a {0, 0, 0};
  for (size_t i = 0; i < std::min<size_t>(3, j.size()); ++i) {
    if (j[i].is_boolean()) {o.worst(ANY); return;}
    if (!j[i].is_number()) {o.worst(BAD); return;}
    a[i] = j[i].get<double>();
  }
  if (j.size() > 3) {o.worst(ANY);}
  o.rings.back().push_back(a);
}
void ring(const json& j, Got& o) {
  o.rings.emplace_back();
  if (j.is_null() || j.is_object() || (j.is_array() && j.empty())) {o.worst(ANY); return;}
  if (!j.is_array()) {o.worst(BAD); return;}
  for (auto& p : j) {pos(p, o);}
}
const json* at(const json& j, const char* k) {if (!j.is_object()) {return nullptr;} auto it = j.find(k); return it == j.end() ? nullptr : &*it;}
Got feat(const json& j, Kind k) {
  Got o;
  auto* ge = at(j, "geometry");
  auto* co = ge ? at(*ge, "coordinates") : nullptr;
  auto* pr = at(j, "properties");
  if (!co) {o.worst(k == SWATH ? ANY : BAD);}   // a swath without any point may be refused or be empty
  else if (k == SWATH) {ring(*co, o);}
  else if (!co->is_array()) {o.worst(co->is_null() || co->is_object() ? ANY : BAD);}
  else {if (co->empty()) {o.worst(ANY);} for (auto& r : *co) {ring(r, o);}}
  auto* nm = pr ? at(*pr, k == FIELD ? "Name" : "crop_id") : nullptr;
  if (k != SWATH) {if (nm && nm->is_string()) {o.name = *nm;} else {o.worst(BAD);}}
  else {
    auto *w = pr ? at(*pr, "width") : nullptr, *id = pr ? at(*pr, "path_id") : nullptr;
    if (w && w->is_number()) {o.width = *w; if (o.width <= 0) {o.worst(ANY);}} else {o.worst(w && w->is_boolean() ? ANY : BAD);}
    if (id && id->is_number_integer()) {
      o.id = id->get<long long>();
      if (o.id > INT_MAX || o.id < INT_MIN || (id->is_number_unsigned() && id->get<unsigned long long>() > INT_MAX)) {o.worst(ANY);}
    } else {o.worst(id && (id->is_boolean() || id->is_number()) ? ANY : BAD);}
  }
  return o;
}
struct Doc {St st {OK}; std::vector<Got> f; bool list {false};};
Doc read(const std::string& text, Kind k) {
  Doc d;
  json j = json::parse(text, nullptr, false);
  if (j.is_discarded()) {d.st = BAD; return d;}
  if (!j.is_object()) {d.st = j.is_null() ? ANY : BAD; return d;}
  auto* fs = at(j, "features");
  if (!fs || !fs->is_array()) {d.st = ANY; return d;}
  d.list = true;
  for (auto& f : *fs) {d.f.push_back(feat(f, k)); d.st = std::max(d.st, d.f.back().st);}
  return d;
}
void rings(vf::Case& c, const OGRPolygon* p, const Got& w, P sh, const std::string& k) {
  double m = 1; for (auto& r : w.rings) {for (auto& a : r) {m = std::max({m, std::fabs(a[0]), std::fabs(a[1])});}}
  size_t n = p->getExteriorRing() ? size_t(p->getNumInteriorRings()) + 1 : 0;
  c.require(n == w.rings.size(), k + "_rings", "rings ", n, " but the file has ", w.rings.size());
  for (size_t i = 0; i < n; ++i) {
    auto* q = i == 0 ? p->getExteriorRing() : p->getInteriorRing(int(i) - 1);
    auto& r = w.rings[i];
    // the ring may have been closed
    size_t np = size_t(q->getNumPoints());
    c.require(np == r.size() || np == r.size() + 1, k + "_points", "points ", np, " but the file has ", r.size());
    for (size_t j = 0; j < np; ++j) {
      auto& a = r[j % r.size()];
      c.check(std::fabs(q->getX(int(j)) + sh.x - a[0]) <= 1e-13 * m && std::fabs(q->getY(int(j)) + sh.y - a[1]) <= 1e-13 * m, k + "_at", "point ", j, " at ", q->getX(int(j)) + sh.x, " ", q->getY(int(j)) + sh.y, " but the file says ", a[0], " ", a[1]);
      c.count("points");
    }
  }
}
std::string node(vf::Rng& r) {
  return r.pick({"null", "true", "\"x\"", "[]", "{}", "-1", "0", "1e999", "1e300", "[[1,2],[3,4]]", "[1,2]", "[[[1,2],[3,4]]]", "99999999999999999999", "\"\"", "[null]", "[\"a\",\"b\"]", "{\"a\":1,\"b\":2}", "3.7", "NaN", "[1,2,3,4]", "1e5"});
}
std::string mutate(vf::Rng& r, std::string s, bool xml) {
  for (int n = r.p(0.7) ? 1 : r.i(2, 5); n > 0 && !s.empty(); --n) {
    size_t a = r.next() % s.size(), b = std::min(s.size(), a + 1 + r.next() % (r.p(0.5) ? 4 : 60));
    switch (r.i(0, xml ? 6 : 8)) {
      case 0: s = s.substr(0, a); break;
      case 1: s.erase(a, b - a); break;
      case 2: s[a] = char(r.i(0, 255)); break;
      case 3: s[a] = r.pick({"{", "}", "[", "]", ",", ":", "\"", "-", "e", "9", "<", ">", "/", " ", ")", "(", ";", "&"})[0]; break;
      case 4: s.insert(a, s.substr(a, b - a)); break;
      case 5: {   // a piece from elsewhere
        size_t k = r.next() % s.size(); s.replace(a, b - a, s.substr(k, b - a)); break;}
      case 6: {   // a name changed
        static const char* nm[] = {"features", "geometry", "coordinates", "properties", "Name", "width", "path_id", "crop_id", "Field", "gml:Polygon", "gml:outerBoundaryIs", "gml:LinearRing", "gml:coordinates", "srsName", "EPSG:", "gml:innerBoundaryIs"};
        std::string k = nm[r.i(0, 15)]; size_t p = s.find(k);
        if (p != std::string::npos) {s.replace(p, k.size(), r.p(0.3) ? "" : r.p(0.5) ? "other" : "geometry");}
        break;}
      default: {   // a whole value changed for another
        std::vector<size_t> at;
        for (size_t i = 0; i < s.size(); ++i) {if (s[i] == '[' || s[i] == '{' || (s[i] == ':' && i + 1 < s.size())) {at.push_back(i);}}
        if (at.empty()) {break;}
        size_t p = at[r.next() % at.size()];
        if (s[p] == ':') {++p; while (p < s.size() && isspace((unsigned char) s[p])) {++p;}}
        if (p >= s.size()) {break;}
        size_t e = p; int d = 0; bool q = false;
        for (; e < s.size(); ++e) {
          char ch = s[e];
          if (q) {if (ch == '\\') {++e;} else if (ch == '"') {q = false; if (d == 0) {++e; break;}} continue;}
          if (ch == '"') {q = true;} else if (ch == '[' || ch == '{') {++d;}
          else if (ch == ']' || ch == '}') {if (d == 0) {break;} if (--d == 0) {++e; break;}}
          else if (ch == ',' && d == 0) {break;}
        }
        s.replace(p, std::min(e, s.size()) - p, node(r));
      }
    }
  }
  return s;
}
void deep(vf::Rng& r, std::string& s) {
  int n = r.i(1000, 60000);
  std::string k = std::string(n, '[') + "1,2" + std::string(n, ']');
  size_t p = s.find("\"coordinates\"");
  if (r.p(0.2)) {s = k; return;}
  if (r.p(0.3)) {s.clear(); for (int i = 0; i < n; ++i) {s += "{\"features\":";} return;}
  if (p != std::string::npos) {s.replace(p, 13, "\"deep\":" + k + ",\"coordinates\":" + k + ",\"coordinates2\"");}
}
template <class F> bool imported(vf::Case& c, const Doc& d, F f) {
  bool threw = false;
  try {f();} catch (const std::exception& e) {threw = true;}
  if (d.st == OK) {c.check(!threw, "refused_good", "a file which says everything was refused");}
  if (d.st == BAD) {c.check(threw, "accepted_bad", "a broken file was accepted");}
  c.count(threw ? "refused" : "accepted");
  if (d.st == BAD) {c.count("broken");}
  return !threw;
}
void jsonCase(vf::Case& c, bool changed) {
  auto& r = c.rng;
  Kind k = Kind(r.i(0, 2));
  std::vector<Feature> fs;
  for (int i = r.i(1, 3); i > 0; --i) {fs.push_back(fl::random(r, k)); if (fs.back().rings.size() > 2) {fs.back().rings.resize(2);}}
  std::string t = collection(r, fs, k);
  if (r.p(0.01)) {deep(r, t);}
  else if (changed) {t = mutate(r, t, false);}
  c.desc = vf::cat("kind ", int(k), " ", t.size() > 3000 ? t.substr(0, 3000) : t);
  Scratch s(".json"); s.write(t);
  Doc d = read(t, k);
  // OK features come out as the file says; the others may only be refused
  if (k == FIELD) {
    F2CFields out {F2CField(F2CCells(cv::cell({{{{0, 0}, {5, 0}, {5, 5}}}})), "first")};
    bool ok = imported(c, d, [&] {f2c::Parser::importJson(s.path, out);});
    c.require(!out.empty() && out[0].getId() == "first" && std::fabs(out[0].area() - 12.5) < 1e-9, "list_before", "what the list had before changed");
    if (ok && d.st == OK) {c.require(out.size() == d.f.size() + 1, "count", "fields ", out.size() - 1, " but the file has ", d.f.size());}
    for (size_t i = 1; i < out.size(); ++i) {
      if (d.list) {
        c.require(i <= d.f.size(), "too_many", "more fields than the file has");
        auto& g = d.f[i - 1];
        if (g.st == OK) {
          c.check(out[i].getId() == g.name, "name", "name '", out[i].getId(), "' but the file says '", g.name, "'");
          c.require(out[i].getField().get()->getNumGeometries() == 1, "cells", "cells");
          rings(c, out[i].getField().get()->getGeometryRef(0)->toPolygon(), g, cv::of(out[i].getRefPoint()), "field");
        } else if (g.st == BAD) {c.check(false, "half_built", "entry ", i, " made of a broken feature");}
      }
      out[i].clone().area();
    }
    // the first cell alone
    Doc e = d; if (e.list) {if (e.f.empty()) {e.st = ANY;} else {e.st = read(t, FIELD).f[0].st; if (e.st == BAD) {e.st = ANY;}}}
    try {
      F2CCell one = f2c::Parser::importCellJson(s.path);
      c.check(e.st != BAD, "cell_accepted_bad", "a broken file was accepted");
      if (e.list && e.st == OK) {rings(c, one.get(), d.f[0], {0, 0}, "cell");}
      one.clone().area();
    } catch (const std::exception&) {c.check(e.st != OK, "cell_refused_good", "first cell refused");}
  } else if (k == STRIP) {
    F2CStrips out;
    if (imported(c, d, [&] {out = f2c::Parser::importStripsJson(s.path);}) && d.st == OK) {
      c.require(out.size() == d.f.size(), "strip_count", out.size());
      for (size_t i = 0; i < out.size(); ++i) {c.check(out[i].getName() == d.f[i].name, "strip_name", out[i].getName()); rings(c, out[i].getCell().get(), d.f[i], {0, 0}, "strip");}
    }
    for (auto& o : out) {o.clone();}
  } else {
    F2CSwaths out;
    if (imported(c, d, [&] {out = f2c::Parser::importSwathsJson(s.path);}) && d.st == OK) {
      c.require(out.size() == d.f.size(), "swath_count", out.size());
      for (size_t i = 0; i < out.size(); ++i) {
        c.check(out[i].getWidth() == d.f[i].width && out[i].getId() == d.f[i].id, "swath_numbers", out[i].getWidth(), " ", out[i].getId());
        auto p = out[i].getPath();
        c.require(size_t(p.get()->getNumPoints()) == d.f[i].rings[0].size(), "swath_points", p.get()->getNumPoints());
        for (size_t j = 0; j < d.f[i].rings[0].size(); ++j) {
          auto& a = d.f[i].rings[0][j];
          c.check(p.get()->getX(int(j)) == a[0] && p.get()->getY(int(j)) == a[1] && p.get()->getZ(int(j)) == a[2], "swath_at", "point ", j);
        }
      }
    }
    out.clone();
  }
  c.sig(t.size()); c.sig(t.substr(0, 400)); c.sig(int(d.st));
}
Got readXml(const std::string& file) {
  Got o;
  tinyxml2::XMLDocument doc;
  doc.LoadFile(file.c_str());
  const tinyxml2::XMLElement* e = doc.RootElement();
  if (!e) {o.st = BAD; return o;}
  if (e->Attribute("id")) {o.name = e->Attribute("id");}
  for (auto* n : {"Field", "geometry", "gml:Polygon"}) {e = e->FirstChildElement(n); if (!e) {o.st = BAD; return o;}}
  std::string crs = e->Attribute("srsName") ? e->Attribute("srsName") : "";
  if (crs.find("EPSG:") == std::string::npos && crs.find("UTM:") == std::string::npos) {o.worst(BAD);}
  else if (crs != "EPSG:4258" && crs != "EPSG:4326" && crs != "EPSG:28992") {o.worst(ANY);}
  auto ringOf = [&] (const tinyxml2::XMLElement* b) {
    auto* l = b->FirstChildElement("gml:LinearRing"); auto* t = l ? l->FirstChildElement("gml:coordinates") : nullptr;
    if (!t || !t->GetText()) {o.worst(BAD); return;}
    o.rings.emplace_back();
    std::string s = t->GetText();
    size_t i = 0;
    auto sp = [] (char ch) {return ch == ' ' || (ch >= '\t' && ch <= '\r');};
    while (i < s.size()) {
      while (i < s.size() && sp(s[i])) {++i;}
      if (i >= s.size()) {break;}
      size_t j = i; while (j < s.size() && !sp(s[j])) {++j;}
      std::string w = s.substr(i, j - i); i = j;
      std::array<double, 3> a {0, 0, 0}; int n = 0; bool good = true;
      size_t p = 0;
      while (good) {
        size_t q = w.find(',', p); std::string x = w.substr(p, q == std::string::npos ? q : q - p);
        char* end = nullptr; double v = strtod(x.c_str(), &end);
        bool plain = !x.empty() && x.find_first_not_of("0123456789.-eE") == std::string::npos && *end == 0 && std::fabs(v) < 1e12 && (v == 0 || std::fabs(v) > 1e-300);
        if (!plain) {good = false; o.worst(x.empty() || (!isdigit((unsigned char) x[0]) && x[0] != '-' && x[0] != '.' && x[0] != '+') ? BAD : ANY); break;}
        if (n < 3) {a[n] = v;}
        ++n;
        if (q == std::string::npos) {break;}
        p = q + 1;
      }
      if (good && n < 2) {o.worst(BAD);}
      if (n > 3) {o.worst(ANY);}
      o.rings.back().push_back(a);
    }
    if (o.rings.back().empty()) {o.worst(BAD);}
    else if (o.rings.back().size() < 4) {o.worst(ANY);}
  };
  auto* out = e->FirstChildElement("gml:outerBoundaryIs");
  if (!out) {o.worst(BAD); return o;}
  ringOf(out);
  for (auto* h = e->FirstChildElement("gml:innerBoundaryIs"); h; h = h->NextSiblingElement("gml:innerBoundaryIs")) {ringOf(h);}
  return o;
}
void xmlCase(vf::Case& c, bool changed) {
  auto& r = c.rng;
  Feature f = fl::random(r, FIELD);
  if (f.rings.size() > 2) {f.rings.resize(2);}
  std::string t = fl::gml(r, f, r.pick({"EPSG:4258", "EPSG:4326", "EPSG:28992"}), r.p(0.8));
  if (r.p(0.01)) {int n = r.i(100, 20000); t.clear(); for (int i = 0; i < n; ++i) {t += r.p(0.5) ? "<Field>" : "<geometry>";} }
  else if (changed) {t = mutate(r, t, true);}
  c.desc = t.size() > 3000 ? t.substr(0, 3000) : t;
  Scratch s(".xml"); s.write(t);
  Got w = readXml(s.path);
  Doc d; d.st = w.st;
  F2CFields out {F2CField(F2CCells(cv::cell({{{{0, 0}, {5, 0}, {5, 5}}}})), "first")};
  bool ok = imported(c, d, [&] {f2c::Parser::importGml(s.path, out);});
  c.require(!out.empty() && out[0].getId() == "first" && std::fabs(out[0].area() - 12.5) < 1e-9, "gml_list_before", "what the list had before changed");
  c.require(out.size() == (ok ? 2u : 1u), "gml_count", "fields ", out.size());
  if (ok && w.st == OK) {
    c.check(out[1].getId() == w.name, "gml_name", "identifier '", out[1].getId(), "' but the file says '", w.name, "'");
    c.require(out[1].getField().get()->getNumGeometries() == 1, "gml_cells", "cells");
    rings(c, out[1].getField().get()->getGeometryRef(0)->toPolygon(), w, cv::of(out[1].getRefPoint()), "gml");
  }
  if (ok) {out[1].clone().area();}
  try {f2c::Parser::importFieldGml(s.path, true).clone();} catch (const std::exception&) {}
  c.sig(t.size()); c.sig(t.substr(0, 600)); c.sig(int(d.st));
}
}  // namespace
SCENARIO(json, 14000, 200000) {jsonCase(c, c.rng.p(0.95));}
SCENARIO(xml, 8000, 120000) {xmlCase(c, c.rng.p(0.95));}
SCENARIO(absent, 40, 400) {
  auto& r = c.rng;
  Scratch s(".json");
  bool dir = false;
  int k = r.i(0, 4);
  std::string path = s.path;
  if (k == 0) {}
  if (k == 1) {s.write("");}
  if (k == 2) {::mkdir(path.c_str(), 0700); dir = true;}
  if (k == 3) {path = "/dev/null";}
  if (k == 4) {s.write(std::string(size_t(r.i(1, 5000)), r.p(0.5) ? '\0' : ' '));}
  c.desc = vf::cat("absent ", k);
  F2CFields out;
  c.throws([&] {f2c::Parser::importJson(path, out);}, "json", "importJson of nothing");
  c.throws([&] {f2c::Parser::importCellJson(path);}, "cell", "importCellJson of nothing");
  c.throws([&] {f2c::Parser::importSwathsJson(path);}, "swaths", "importSwathsJson of nothing");
  c.throws([&] {f2c::Parser::importStripsJson(path);}, "strips", "importStripsJson of nothing");
  c.throws([&] {f2c::Parser::importGml(path, out);}, "gml", "importGml of nothing");
  c.throws([&] {f2c::Parser::importFieldGml(path, true);}, "gml_silent", "importFieldGml of nothing");
  c.check(out.empty(), "list", "the list got an entry");
  if (dir) {::rmdir(path.c_str());}
  c.count("absent"); c.sig(k); c.sig(r.next());
}
VF_MAIN
