// Writers of GeoJSON and GML files from known content, and scratch files.
#pragma once
#include <unistd.h>
#include <fstream>
#include <locale>
#include "vfall.hpp"

namespace fl {
using g::P;
struct Scratch {   // a file that goes away
  std::string path;
  explicit Scratch(const std::string& ext) {
    static int n = 0;
    const char* t = getenv("TMPDIR");
    path = vf::cat(t ? t : "/tmp", "/f2c_verif_", getpid(), "_", ++n, ext);
  }
  ~Scratch() {::unlink(path.c_str());}
  void write(const std::string& s) const {std::ofstream o(path, std::ios::binary); o << s;}
};
struct CommaLocale {   // the process writes numbers with a decimal comma for a while
  struct F : std::numpunct<char> {char do_decimal_point() const override {return ',';} char do_thousands_sep() const override {return '.';} std::string do_grouping() const override {return "\3";}};
  std::locale old;
  bool on;
  explicit CommaLocale(bool b) : on(b) {if (on) {old = std::locale::global(std::locale(std::locale(), new F));}}
  ~CommaLocale() {if (on) {std::locale::global(old);}}
};
struct Ring3 {std::vector<P> p; std::vector<double> z;};
struct Feature {
  std::vector<Ring3> rings;      // or a single line for swaths
  std::string name; double width {0}; int id {0};
};
// a number as text and the value that text says
inline std::string num(vf::Rng& r, double& v) {
  char b[64];
  switch (r.i(0, 5)) {
    case 0: snprintf(b, sizeof b, "%.17g", v); break;
    case 1: snprintf(b, sizeof b, "%.12f", v); break;
    case 2: snprintf(b, sizeof b, "%.16e", v); break;
    case 3: snprintf(b, sizeof b, "%.3f", v); break;
    case 4: snprintf(b, sizeof b, "%.17gE0", v); if (std::string(b).find('e') != std::string::npos) {snprintf(b, sizeof b, "%.17g", v);} break;
    default: snprintf(b, sizeof b, "%.0f", v); break;
  }
  v = strtod(b, nullptr);
  return b;
}
inline std::string ws(vf::Rng& r, int style) {
  if (style == 0) {return "";}
  if (style == 1) {return " ";}
  if (style == 2) {return "\r\n\t";}
  static const char* w[] = {"", " ", "\n", "\t", "  \n  ", "\r\n"};
  return w[r.i(0, 5)];
}
inline std::string jstr(vf::Rng& r, const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    char b[8];
    if (ch == '"' || ch == '\\') {o += '\\'; o += char(ch);}
    else if (ch < 0x20 || (ch < 0x7f && r.p(0.05))) {snprintf(b, sizeof b, "\\u%04x", ch); o += b;}
    else {o += char(ch);}
  }
  return o + "\"";
}
// text of one feature; rounds the numbers of f to what is written
inline std::string position(vf::Rng& r, P& p, double& z, int dims, int st) {
  std::string s = "[" + ws(r, st) + num(r, p.x) + ws(r, st) + "," + ws(r, st) + num(r, p.y);
  if (dims == 3) {s += "," + ws(r, st) + num(r, z);} else {z = 0;}
  return s + ws(r, st) + "]";
}
inline std::string ringText(vf::Rng& r, Ring3& g, int dims, int st, bool close) {
  std::string s = "[", first;
  for (size_t i = 0; i < g.p.size(); ++i) {
    std::string t = position(r, g.p[i], g.z[i], dims, st);
    if (i == 0) {first = t;}
    s += (i ? "," : "") + ws(r, st) + t;
  }
  if (close && !g.p.empty()) {s += "," + ws(r, st) + first;}
  return s + ws(r, st) + "]";
}
enum Kind {FIELD, STRIP, SWATH};
inline std::string feature(vf::Rng& r, Feature& f, Kind k, int st) {
  int dims = r.p(0.5) ? 3 : 2;
  std::string co;
  if (k == SWATH) {co = ringText(r, f.rings[0], dims, st, false);}
  else {
    co = "[";
    for (size_t i = 0; i < f.rings.size(); ++i) {co += (i ? "," : "") + ws(r, st) + ringText(r, f.rings[i], dims, st, true);}
    co += "]";
  }
  std::vector<std::string> props;
  if (k == FIELD) {props.push_back("\"Name\":" + ws(r, st) + jstr(r, f.name));}
  if (k == STRIP) {props.push_back("\"crop_id\":" + ws(r, st) + jstr(r, f.name));}
  if (k == SWATH) {props.push_back("\"width\" :" + num(r, f.width)); props.push_back("\"path_id\": " + std::to_string(f.id));}
  if (r.p(0.5)) {props.push_back("\"Description\":\"\"");}
  if (r.p(0.3)) {props.push_back("\"name\":[1,{\"Name\":\"wrong\"}]");}
  std::vector<std::string> geo {"\"type\":" + ws(r, st) + (k == SWATH ? "\"LineString\"" : "\"Polygon\""), "\"coordinates\":" + ws(r, st) + co};
  if (r.p(0.2)) {geo.push_back("\"bbox\":[0,0,1,1]");}
  auto join = [&] (std::vector<std::string> v) {
    for (size_t i = v.size(); i > 1; --i) {std::swap(v[i - 1], v[r.next() % i]);}
    std::string s;
    for (size_t i = 0; i < v.size(); ++i) {s += (i ? "," : "") + ws(r, st) + v[i];}
    return "{" + s + ws(r, st) + "}";
  };
  std::vector<std::string> all {"\"type\":\"Feature\"", "\"properties\":" + join(props), "\"geometry\":" + ws(r, st) + join(geo)};
  if (r.p(0.3)) {all.push_back("\"id\":7");}
  return join(all);
}
inline std::string collection(vf::Rng& r, std::vector<Feature>& fs, Kind k) {
  int st = r.i(0, 3);
  std::string s = "[";
  for (size_t i = 0; i < fs.size(); ++i) {s += (i ? "," : "") + ws(r, st) + feature(r, fs[i], k, st);}
  s += "]";
  std::vector<std::string> all {"\"type\": \"FeatureCollection\"", "\"features\":" + ws(r, st) + s};
  if (r.p(0.4)) {all.push_back("\"crs\":{\"type\":\"name\",\"properties\":{\"name\":\"urn:ogc:def:crs:OGC:1.3:CRS84\"}}");}
  if (r.p(0.5)) {std::swap(all[0], all.back());}
  std::string o = ws(r, st) + "{";
  for (size_t i = 0; i < all.size(); ++i) {o += (i ? "," : "") + all[i];}
  return o + "}" + ws(r, st);
}
inline std::string xesc(const std::string& s) {
  std::string o;
  for (char ch : s) {if (ch == '&') {o += "&amp;";} else if (ch == '<') {o += "&lt;";} else if (ch == '"') {o += "&quot;";} else if (ch == '\'') {o += "&apos;";} else {o += ch;}}
  return o;
}
inline std::string gml(vf::Rng& r, Feature& f, const std::string& crs, bool hasId) {
  auto nl = [&] {return std::string(r.p(0.6) ? "\n" : r.p(0.5) ? "  " : "");};
  auto coords = [&] (Ring3& g) {
    std::string s, first, sep = r.pick({" ", " ", "\n", "\r\n      ", "  "});
    int dims = r.p(0.3) ? 3 : 2;
    for (size_t i = 0; i < g.p.size(); ++i) {
      std::string t = num(r, g.p[i].x) + "," + num(r, g.p[i].y);
      if (dims == 3) {t += "," + num(r, g.z[i]);} else {g.z[i] = 0;}
      if (i == 0) {first = t;}
      s += (i ? sep : "") + t;
    }
    s += sep + first;
    if (r.p(0.2)) {s = "\n  " + s + "\n";}
    return "<gml:LinearRing>" + nl() + "<gml:coordinates>" + s + "</gml:coordinates>" + nl() + "</gml:LinearRing>";
  };
  std::string poly = "<gml:Polygon srsName=\"" + xesc(crs) + "\">" + nl() + "<gml:outerBoundaryIs>" + nl() + coords(f.rings[0]) + nl() + "</gml:outerBoundaryIs>";
  for (size_t i = 1; i < f.rings.size(); ++i) {poly += nl() + "<gml:innerBoundaryIs>" + coords(f.rings[i]) + "</gml:innerBoundaryIs>";}
  poly += nl() + "</gml:Polygon>";
  std::string edge = "<Edge id=\"1\"><geometry><gml:LineString srsName=\"EPSG:1\"><gml:coordinates>1,2 3,4</gml:coordinates></gml:LineString></geometry></Edge>";
  std::string s = r.p(0.4) ? "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" : "";
  if (r.p(0.2)) {s += "<!-- a field, not <Field> -->\n";}
  s += "<GAOS_parcel xmlns:gml=\"http://www.opengis.net/gml\"";
  if (hasId) {s += " id=\"" + xesc(f.name) + "\"";}
  s += ">" + nl();
  if (r.p(0.3)) {s += edge + nl();}
  s += "<Field area=\"1\" id=\"boundary\">" + nl() + (r.p(0.2) ? "<note>geometry</note>" : "") + "<geometry>" + nl() + poly + nl() + "</geometry></Field>";
  if (r.p(0.5)) {s += nl() + edge;}
  return s + nl() + "</GAOS_parcel>" + nl();
}
inline Ring3 ring3(vf::Rng& r, const g::Ring& q) {
  Ring3 o; o.p = g::open(q);
  for (size_t i = 0; i < o.p.size(); ++i) {o.z.push_back(r.p(0.5) ? 0 : r.u(-50, 3000));}
  return o;
}
inline std::string anyName(vf::Rng& r) {
  return r.pick({"field", "", "a b", "\xc3\xb1 \xe2\x82\xac", "q\"uo'te", "back\\slash", "<&>", "features", "Potato (late)", "42", "b913fe9d-ed9f", "x,y;z"});
}
inline Feature random(vf::Rng& r, Kind k) {
  Feature f; f.name = anyName(r); f.width = r.u(0.6, 40); f.id = r.p(0.1) ? r.i(-5, 2000000000) : r.i(0, 500);
  if (k == SWATH) {
    g::Ring l; int n = r.p(0.1) ? r.i(2, 300) : r.i(2, 8);
    for (int i = 0; i < n; ++i) {l.push_back({r.u(-1e3, 1e3), r.u(-1e3, 1e3)});}
    f.rings.push_back({l, std::vector<double>(l.size(), 0)});
    for (auto& z : f.rings[0].z) {z = r.p(0.5) ? 0 : r.u(-5, 5);}
    return f;
  }
  gen::Opt o; o.minSize = 20; o.maxSize = 5000;
  gen::Gen q = gen::field(r, o);
  for (auto& rr : q.m[r.next() % q.m.size()].rings) {f.rings.push_back(ring3(r, rr));}
  return f;
}
}  // namespace fl
