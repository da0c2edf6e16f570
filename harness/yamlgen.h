// YAML documents: a tree with roles for fault injection, and an emitter which varies the presentation.
#pragma once

#include <cstdio>
#include <map>
#include <string>
#include <utility>
#include <vector>

#include "pbt.h"

namespace yg {

struct Y {
  enum Kind { kString, kRaw, kSeq, kMap };
  Kind kind{kString};
  std::string text;
  std::vector<Y> items;
  std::vector<std::pair<std::string, Y>> entries;
  // What a broken value would look like: see Break() in h_yaml.cc. "": nothing known.
  std::string role;
  // Map entries which must be there; only used on values of maps.
  bool required{false};

  static Y S(const std::string& s, const std::string& role = "") {
    Y y;
    y.text = s;
    y.role = role;
    return y;
  }
  static Y Raw(const std::string& s, const std::string& role = "") {
    Y y;
    y.kind = kRaw;
    y.text = s;
    y.role = role;
    return y;
  }
  static Y Num(double v, const std::string& role = "num") {
    char b[40];
    std::snprintf(b, sizeof(b), "%.17g", v);
    return Raw(b, role);
  }
  static Y Seq(const std::string& role = "seq") {
    Y y;
    y.kind = kSeq;
    y.role = role;
    return y;
  }
  static Y Map(const std::string& role = "map") {
    Y y;
    y.kind = kMap;
    y.role = role;
    return y;
  }
  Y& Add(Y v) {
    items.push_back(std::move(v));
    return *this;
  }
  Y& Put(const std::string& k, Y v) {
    entries.emplace_back(k, std::move(v));
    return *this;
  }
  Y& Need(const std::string& k, Y v) {
    v.required = true;
    return Put(k, std::move(v));
  }
  std::string Canonical() const {
    switch (kind) {
      case kString: return "'" + text + "'";
      case kRaw: return text;
      case kSeq: {
        std::string s = "[";
        for (const auto& i : items) s += i.Canonical() + ",";
        return s + "]";
      }
      default: {
        std::string s = "{";
        for (const auto& e : entries) s += "'" + e.first + "':" + e.second.Canonical() + ",";
        return s + "}";
      }
    }
  }
  size_t Count() const {
    size_t n = 1;
    for (const auto& i : items) n += i.Count();
    for (const auto& e : entries) n += e.second.Count();
    return n;
  }
};

class Emitter {
 public:
  explicit Emitter(pbt::Src* src) : src_(*src) {
    anchors_on_ = src_.b(1, 3);
    comments_ = src_.b(1, 3);
    flow_ = static_cast<int>(src_.i(0, 3));
  }
  std::string Document(const Y& y) {
    std::string s = src_.b(1, 5) ? "---" : "";
    if (comments_) s += (s.empty() ? "# head: [" : "\n# head: [");
    const std::string v = Value(y, 0, false);
    if (comments_ && v[0] != '\n') s += "\n";
    s += v + "\n";
    if (s[0] == '\n') s = s.substr(1);
    return s;
  }

 private:
  static bool PlainSafe(const std::string& s) {
    if (s.empty() || s == "null" || s == "Null" || s == "NULL" || s == "~") return false;
    for (size_t k = 0; k < s.size(); ++k) {
      const char c = s[k];
      const bool letter = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_' || (c >= '0' && c <= '9');
      const bool inner = c == '/' || c == '.' || c == '-' || (k > 0 && c == ' ' && s[k - 1] != ' ');
      if (!letter && !(k > 0 && k + 1 < s.size() && inner)) return false;
    }
    return true;
  }
  std::string Text(const std::string& s) {
    const size_t style = src_.weighted({4, 2, 2});
    if (style == 0 && PlainSafe(s)) return s;
    bool single = style == 1;
    for (char c : s)
      if (c == '\n' || c == '\t') single = false;
    std::string r;
    if (single) {
      for (char c : s) r += c == '\'' ? std::string("''") : std::string(1, c);
      return "'" + r + "'";
    }
    for (char c : s) {
      if (c == '"' || c == '\\') {
        r += '\\';
        r += c;
      } else if (c == '\n') {
        r += "\\n";
      } else if (c == '\t') {
        r += "\\t";
      } else {
        r += c;
      }
    }
    return "\"" + r + "\"";
  }
  std::string Newline(int indent) {
    std::string s = comments_ && src_.b(1, 8) ? "  # it's: {a comment\n" : "\n";
    if (comments_ && src_.b(1, 20)) s += "\n";
    return s + std::string(indent, ' ');
  }
  // The value with what precedes it: a space or a line break.
  std::string Value(const Y& y, int indent, bool flow) {
    std::string anchor;
    if (anchors_on_) {
      const std::string c = y.Canonical();
      auto it = seen_.find(c);
      if (it != seen_.end() && src_.b()) return " *" + it->second + " ";
      if (it == seen_.end() && src_.b(1, 6)) {
        anchor = "a" + std::to_string(anchors_++);
        // Known from the end of its definition on.
        std::string s = " &" + anchor + Bare(y, indent, flow);
        seen_[c] = anchor;
        return s;
      }
    }
    return Bare(y, indent, flow);
  }
  std::string Bare(const Y& y, int indent, bool flow) {
    if (y.kind == Y::kString) return " " + Text(y.text);
    if (y.kind == Y::kRaw) return " " + y.text;
    const bool empty = y.items.empty() && y.entries.empty();
    const bool use_flow = flow || empty || src_.draw(7) < static_cast<uint64_t>(flow_);
    if (y.kind == Y::kSeq) {
      if (use_flow) {
        std::string s = " [";
        for (size_t k = 0; k < y.items.size(); ++k) s += (k ? "," : "") + Value(y.items[k], 0, true);
        return s + "]";
      }
      std::string s;
      const int in = indent + (src_.b() ? 2 : 4);
      for (const auto& i : y.items) {
        s += Newline(in) + "-";
        std::string v = Value(i, in, false);
        // The first entry may follow the dash.
        const std::string lead = "\n" + std::string(in + 2, ' ');
        if (v.compare(0, lead.size(), lead) == 0 && v[lead.size()] != ' ' && src_.b()) v = " " + v.substr(lead.size());
        s += v;
      }
      return s;
    }
    if (use_flow) {
      std::string s = " {";
      for (size_t k = 0; k < y.entries.size(); ++k)
        s += (k ? ", " : "") + Text(y.entries[k].first) + ":" + Value(y.entries[k].second, 0, true);
      return s + "}";
    }
    std::string s;
    // Top-level entries start at column 0.
    const int in = top_ ? 0 : indent + 2;
    top_ = false;
    for (const auto& e : y.entries) s += Newline(in) + Text(e.first) + ":" + Value(e.second, in, false);
    return s;
  }
  pbt::Src& src_;
  bool anchors_on_{}, comments_{};
  int flow_{};
  int anchors_{0};
  bool top_{true};
  std::map<std::string, std::string> seen_;
};

inline std::string Emit(pbt::Src& src, const Y& y) { return Emitter(&src).Document(y); }

// Shuffles the entries of maps flagged as having no order (all of them: YAML maps are unordered).
inline void ShuffleEntries(pbt::Src& src, Y* y) {
  if (y->kind == Y::kMap && src.b(1, 3)) src.shuffle(&y->entries);
  for (auto& i : y->items) ShuffleEntries(src, &i);
  for (auto& e : y->entries) ShuffleEntries(src, &e.second);
}

}  // namespace yg
