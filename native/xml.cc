// Bounded checks of the XML output stream (C20): random documents, written with
// misuse in between, are parsed back by libxml2 and compared with what was asked for.
#include <climits>
#include <cmath>
#include <memory>

#include <libxml/parser.h>
#include <libxml/tree.h>

#include "xml_stream.h"

#include "common.h"

namespace {
using nat::describe;
using nat::drive;
using nat::fail;
using nat::Rng;
using nat::Run;

using scram::xml::Stream;
using scram::xml::StreamElement;
using scram::xml::StreamError;

struct Value {
  std::string text;     ///< What is read back.
  bool number = false;  ///< Up to six significant digits.
  double num = 0;
};

struct Elem {
  std::string name;
  std::vector<std::pair<std::string, Value>> attrs;
  std::vector<Value> text;
  std::vector<std::unique_ptr<Elem>> children;
  bool has_text = false;
};

const char* const kNames[] = {"a", "b-c", "model", "define-gate", "x1", "_y"};

std::string random_text(Rng& r) {
  static const char* const kParts[] = {"&", "<", ">", "\"", "'", "]]>", "]", "]]", "&amp;", "&#65;", "#", "&lt;b&gt;", "<!--", "-->", "<?x?>", "<![CDATA[", " ", "  ", "a", "B9", "%s", "%d%n", "\xc3\xa9", "\xe2\x82\xac", "\\n", "/>", "="};
  std::string s;
  for (int n = r.chance(0.05) ? r.range(50, 300) : r.below(6); n > 0; --n) s += kParts[r.below(sizeof kParts / sizeof *kParts)];
  return s;
}

std::string d;  // the calls made so far

void say(const std::string& s) {
  d += s + ";";
  if (d.size() > 2500) d = "..." + d.substr(d.size() - 2400);
  describe(d, false);
}

/// Calls f with a random value and says what must be read back.
template <class F>
Value with_value(Rng& r, F f) {
  Value v;
  switch (r.below(6)) {
    case 0: {
      static const int kInts[] = {0, 1, -1, 9, 10, 99, 100, INT_MAX, INT_MIN, INT_MIN + 1, -10};
      int i = r.chance(0.5) ? kInts[r.below(11)] : static_cast<int>(r.next());
      v.text = std::to_string(i);
      say("int " + v.text);
      f(i);
      break;
    }
    case 1: {
      std::size_t i = r.chance(0.2) ? static_cast<std::size_t>(-1) : r.chance(0.5) ? r.below(200) : r.next() >> r.below(64);
      v.text = std::to_string(i);
      say("size " + v.text);
      f(i);
      break;
    }
    case 2: {
      double x = r.chance(0.1) ? 0 : (r.uniform() - 0.5) * std::pow(10.0, r.range(-300, 300));
      if (r.chance(0.3)) x = r.range(-1000000, 1000000);
      v.number = true;
      v.num = x;
      say("double " + std::to_string(x));
      f(x);
      break;
    }
    case 3: {
      bool b = r.chance(0.5);
      v.text = b ? "true" : "false";
      say("bool " + v.text);
      f(b);
      break;
    }
    case 4: {
      v.text = random_text(r);
      say("string '" + v.text + "'");
      f(v.text);
      break;
    }
    default: {
      v.text = random_text(r);
      say("chars '" + v.text + "'");
      f(v.text.c_str());
    }
  }
  return v;
}

template <class F>
void refused(const char* what, F f) {
  say(std::string("misuse: ") + what);
  try {
    f();
  } catch (const StreamError&) {
    return;
  }
  fail(std::string("misuse is not refused: ") + what);
}

/// Misuse of an element whose child is being written.
void inactive(Rng& r, StreamElement& e) {
  if (!r.chance(0.2)) return;
  switch (r.below(3)) {
    case 0: refused("attribute of a parent", [&] { e.SetAttribute("a", 1); }); break;
    case 1: refused("text of a parent", [&] { e.AddText("t"); }); break;
    default: refused("second child at a time", [&] { e.AddChild("c"); });
  }
}

void fill(Rng& r, StreamElement& se, Elem& e, int depth, int& budget) {
  for (int n = r.below(4), i = 0; i < n; ++i) {
    std::string name = "k" + std::to_string(i);
    say("attribute " + name);
    e.attrs.emplace_back(name, with_value(r, [&](auto&& v) { se.SetAttribute(name.c_str(), v); }));
  }
  if (r.chance(0.1)) refused("empty attribute name", [&] { se.SetAttribute("", 1); });
  if (r.chance(0.1)) refused("empty child name", [&] { se.AddChild(""); });
  if (r.chance(0.3)) {
    for (int n = r.range(1, 3); n > 0; --n) {
      say("text");
      e.text.push_back(with_value(r, [&](auto&& v) { se.AddText(v); }));
      e.has_text = true;
    }
    if (r.chance(0.3)) refused("attribute after text", [&] { se.SetAttribute("late", 1); });
    if (r.chance(0.3)) refused("child after text", [&] { se.AddChild("late"); });
    if (r.chance(0.3)) refused("attribute after text and misuse", [&] { se.SetAttribute("late", "x"); });
    return;
  }
  for (int n = r.below(4); n > 0 && budget > 0; --n) {
    --budget;
    auto c = std::make_unique<Elem>();
    c->name = kNames[r.below(6)];
    say("child " + c->name);
    {
      StreamElement ce = se.AddChild(c->name.c_str());
      inactive(r, se);
      if (depth < 40) fill(r, ce, *c, r.chance(0.7) ? depth + 1 : depth + 15, budget);
      inactive(r, se);
      say("end");
    }
    e.children.push_back(std::move(c));
    if (r.chance(0.2)) refused("attribute after a child", [&] { se.SetAttribute("late", 1); });
    if (r.chance(0.2)) refused("text after a child", [&] { se.AddText("late"); });
  }
}

bool same(const Value& v, const std::string& s) {
  if (!v.number) return v.text == s;
  char* end = nullptr;
  double x = std::strtod(s.c_str(), &end);
  return !s.empty() && !*end && std::fabs(x - v.num) <= 5.1e-6 * std::fabs(v.num);
}

std::string content(xmlNode* n) {
  xmlChar* c = xmlNodeGetContent(n);
  std::string s = c ? reinterpret_cast<char*>(c) : "";
  xmlFree(c);
  return s;
}

void compare(xmlNode* n, const Elem& e) {
  if (e.name != reinterpret_cast<const char*>(n->name)) fail("element " + std::string(reinterpret_cast<const char*>(n->name)) + " instead of " + e.name);
  std::size_t k = 0;
  for (xmlAttr* a = n->properties; a; a = a->next, ++k) {
    if (k >= e.attrs.size() || e.attrs[k].first != reinterpret_cast<const char*>(a->name)) fail("attributes of " + e.name + " differ");
    std::string s = content(reinterpret_cast<xmlNode*>(a));
    if (!same(e.attrs[k].second, s)) fail("attribute " + e.attrs[k].first + " reads back as '" + s + "' instead of '" + e.attrs[k].second.text + "'");
  }
  if (k != e.attrs.size()) fail("attributes of " + e.name + " are missing");
  if (e.has_text) {
    std::string s = content(n);
    for (xmlNode* c = n->children; c; c = c->next)
      if (c->type == XML_ELEMENT_NODE) fail("an element in the text of " + e.name);
    if (e.text.size() == 1) {
      if (!same(e.text[0], s)) fail("text reads back as '" + s + "' instead of '" + e.text[0].text + "'");
    } else {
      std::string all;
      bool num = false;
      for (auto& v : e.text) num |= v.number, all += v.text;
      if (!num && all != s) fail("text reads back as '" + s + "' instead of '" + all + "'");
    }
    return;
  }
  std::size_t c = 0;
  for (xmlNode* x = n->children; x; x = x->next) {
    if (x->type == XML_TEXT_NODE) {
      if (content(x).find_first_not_of(" \n") != std::string::npos) fail("text between elements: '" + content(x) + "'");
      continue;
    }
    if (x->type != XML_ELEMENT_NODE || c >= e.children.size()) fail("children of " + e.name + " differ");
    compare(x, *e.children[c++]);
  }
  if (c != e.children.size()) fail("children of " + e.name + " are missing");
}

void quiet(void*, const char*, ...) {}

void run_C20(Run& run) {
  xmlSetGenericErrorFunc(nullptr, quiet);
  run.cases([](Rng& r, long) {
    d.clear();
    char* buf = nullptr;
    std::size_t len = 0;
    std::FILE* f = open_memstream(&buf, &len);
    Elem root;
    root.name = kNames[r.below(6)];
    int budget = r.chance(0.1) ? 60 : r.range(0, 12);
    {
      bool indent = r.chance(0.7);
      say(indent ? "stream" : "stream without indentation");
      Stream s(f, indent);
      if (r.chance(0.1)) refused("empty root name", [&] { s.root(""); });
      say("root " + root.name);
      StreamElement e = s.root(root.name.c_str());
      if (r.chance(0.2)) refused("second root", [&] { s.root("other"); });
      fill(r, e, root, 0, budget);
      if (r.chance(0.2)) refused("second root at the end", [&] { s.root("other"); });
    }
    std::fclose(f);
    std::string text(buf, len);
    std::free(buf);
    describe(d, true);
    xmlDoc* doc = xmlReadMemory(text.data(), static_cast<int>(text.size()), "x.xml", nullptr, XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_NONET | XML_PARSE_HUGE);
    if (!doc) fail("not well-formed: " + text.substr(0, 1500));
    if (text.compare(0, 38, "<?xml version=\"1.0\" encoding=\"UTF-8\"?>")) fail("the declaration is not the first");
    compare(xmlDocGetRootElement(doc), root);
    xmlFreeDoc(doc);
  });
}
}  // namespace

int main(int argc, char** argv) { return drive(argc, argv, {{"C20", run_C20}}); }
