#include "jsonv.h"
#include <algorithm>
namespace sim {
JVal::JVal() = default; JVal::JVal(const JVal&) = default; JVal::JVal(JVal&&) = default; JVal::~JVal() = default;
JVal& JVal::operator=(const JVal&) = default; JVal& JVal::operator=(JVal&&) = default;
JVal JVal::str(const Str& x) { JVal v; v.t = STR; v.s = x; return v; }
JVal JVal::num(uint64_t x) { JVal v; v.t = NUM; v.s = std::to_string(x); return v; }
JVal JVal::boolean(bool x) { JVal v; v.t = BOOL; v.b = x; return v; }
JVal JVal::arr() { JVal v; v.t = ARR; return v; }
JVal JVal::obj() { JVal v; v.t = OBJ; return v; }
void JVal::add(const Str& k, JVal v) { o.push_back(JMember{k, std::move(v)}); }
const JVal* JVal::get(const Str& k) const { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
JVal* JVal::get(const Str& k) { for (auto& p : o) if (p.first == k) return &p.second; return nullptr; }
bool utf8_valid(const Str& s) {
    size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char c = s[i];
        if (c < 0x80) { i++; continue; }
        int k = c >= 0xc2 && c <= 0xdf ? 1 : c >= 0xe0 && c <= 0xef ? 2 : c >= 0xf0 && c <= 0xf4 ? 3 : -1;
        if (k < 0 || i + k >= n) return false;
        for (int j = 1; j <= k; j++) if (((unsigned char)s[i + j] & 0xc0) != 0x80) return false;
        unsigned char d = s[i + 1];
        if ((c == 0xe0 && d < 0xa0) || (c == 0xed && d > 0x9f) || (c == 0xf0 && d < 0x90) || (c == 0xf4 && d > 0x8f)) return false;
        i += k + 1;
    }
    return true;
}
namespace {
struct P {
    const Str& t; size_t i = 0; Str err;
    explicit P(const Str& x) : t(x) {}
    bool fail(const char* m) { if (err.empty()) err = Str(m) + " at offset " + std::to_string(i) + " near '" + show(t.substr(i > 20 ? i - 20 : 0, 45)) + "'"; return false; }
    void ws() { while (i < t.size() && (t[i] == ' ' || t[i] == '\n' || t[i] == '\t' || t[i] == '\r')) i++; }
    static void put(Str& s, uint32_t c) {
        if (c < 0x80) s += (char)c;
        else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
        else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | ((c >> 12) & 63)); s += (char)(0x80 | ((c >> 6) & 63)); s += (char)(0x80 | (c & 63)); }
    }
    bool hex4(uint32_t* v) {
        if (i + 4 > t.size()) return fail("short \\u escape");
        *v = 0;
        for (int k = 0; k < 4; k++) {
            char c = t[i++];
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) return fail("bad \\u escape");
            *v = *v * 16 + d;
        }
        return true;
    }
    bool string(Str* s) {
        if (i >= t.size() || t[i] != '"') return fail("string expected");
        i++;
        while (true) {
            if (i >= t.size()) return fail("unterminated string");
            unsigned char c = t[i];
            if (c == '"') { i++; return true; }
            if (c < 0x20) return fail("raw control character in a string");
            if (c != '\\') { *s += (char)c; i++; continue; }
            i++;
            if (i >= t.size()) return fail("unterminated escape");
            char e = t[i++];
            switch (e) {
            case '"': case '\\': case '/': *s += e; break;
            case 'b': *s += '\b'; break;
            case 'f': *s += '\f'; break;
            case 'n': *s += '\n'; break;
            case 'r': *s += '\r'; break;
            case 't': *s += '\t'; break;
            case 'u': {
                uint32_t v, w;
                if (!hex4(&v)) return false;
                if (v >= 0xd800 && v < 0xdc00) {
                    if (i + 2 > t.size() || t[i] != '\\' || t[i + 1] != 'u') return fail("lone surrogate");
                    i += 2;
                    if (!hex4(&w)) return false;
                    if (w < 0xdc00 || w > 0xdfff) return fail("bad surrogate pair");
                    v = 0x10000 + ((v - 0xd800) << 10) + (w - 0xdc00);
                } else if (v >= 0xdc00 && v < 0xe000) return fail("lone surrogate");
                put(*s, v);
                break;
            }
            default: i--; return fail("unknown escape");
            }
        }
    }
    bool value(JVal* v, int depth) {
        if (depth > 200) return fail("too deep");
        ws();
        if (i >= t.size()) return fail("value expected");
        char c = t[i];
        if (c == '{') {
            v->t = JVal::OBJ;
            i++; ws();
            if (i < t.size() && t[i] == '}') { i++; return true; }
            while (true) {
                ws();
                Str k;
                if (!string(&k)) return false;
                if (v->get(k)) return fail("duplicate member");
                ws();
                if (i >= t.size() || t[i] != ':') return fail("':' expected");
                i++;
                v->o.push_back(JMember{k, JVal()});
                if (!value(&v->o.back().second, depth + 1)) return false;
                ws();
                if (i >= t.size()) return fail("unterminated object");
                if (t[i] == ',') { i++; continue; }
                if (t[i] == '}') { i++; return true; }
                return fail("',' or '}' expected");
            }
        }
        if (c == '[') {
            v->t = JVal::ARR;
            i++; ws();
            if (i < t.size() && t[i] == ']') { i++; return true; }
            while (true) {
                v->a.push_back(JVal());
                if (!value(&v->a.back(), depth + 1)) return false;
                ws();
                if (i >= t.size()) return fail("unterminated array");
                if (t[i] == ',') { i++; continue; }
                if (t[i] == ']') { i++; return true; }
                return fail("',' or ']' expected");
            }
        }
        if (c == '"') { v->t = JVal::STR; return string(&v->s); }
        if (!t.compare(i, 4, "true")) { v->t = JVal::BOOL; v->b = true; i += 4; return true; }
        if (!t.compare(i, 5, "false")) { v->t = JVal::BOOL; v->b = false; i += 5; return true; }
        if (!t.compare(i, 4, "null")) { v->t = JVal::NUL; i += 4; return true; }
        size_t b = i;
        if (t[i] == '-') i++;
        if (i >= t.size() || t[i] < '0' || t[i] > '9') { i = b; return fail("value expected"); }
        if (t[i] == '0') i++;
        else while (i < t.size() && t[i] >= '0' && t[i] <= '9') i++;
        if (i < t.size() && t[i] == '.') { i++; if (i >= t.size() || !isdigit((unsigned char)t[i])) return fail("bad number"); while (i < t.size() && isdigit((unsigned char)t[i])) i++; }
        if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
            i++;
            if (i < t.size() && (t[i] == '+' || t[i] == '-')) i++;
            if (i >= t.size() || !isdigit((unsigned char)t[i])) return fail("bad number");
            while (i < t.size() && isdigit((unsigned char)t[i])) i++;
        }
        v->t = JVal::NUM;
        v->s = t.substr(b, i - b);
        return true;
    }
};
Str wsp(const JStyle& st) {
    if (st.ws == 0) return "";
    if (st.ws == 1) return " ";
    static const char* w[] = {"", " ", "\n", "\t", "  \n ", "\r\n"};
    return w[F(6)];
}
Str wstr(const Str& s, const JStyle& st) {
    Str r = "\"";
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        char b[16];
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; i++; }
        else if (c < 0x20) {
            const char* sh = c == '\n' ? "\\n" : c == '\t' ? "\\t" : c == '\r' ? "\\r" : c == '\b' ? "\\b" : c == '\f' ? "\\f" : nullptr;
            if (sh && st.esc < 2) r += sh;
            else { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            i++;
        } else if (c < 0x80) {
            if (st.esc == 2 && c == '/') r += "\\/";
            else if (st.esc == 2 && (c == '<' || c == '&' || c == 127)) { snprintf(b, sizeof b, "\\u%04X", c); r += b; }
            else r += (char)c;
            i++;
        } else {
            int k = c >= 0xf0 ? 3 : c >= 0xe0 ? 2 : 1;
            if (i + k >= s.size()) { r += (char)c; i++; continue; }
            if (st.esc == 0) { r.append(s, i, k + 1); i += k + 1; continue; }
            uint32_t v = k == 3 ? c & 7 : k == 2 ? c & 15 : c & 31;
            for (int j = 1; j <= k; j++) v = v << 6 | ((unsigned char)s[i + j] & 63);
            if (v >= 0x10000) { snprintf(b, sizeof b, "\\u%04x\\u%04x", 0xd800 + ((v - 0x10000) >> 10), 0xdc00 + ((v - 0x10000) & 0x3ff)); }
            else snprintf(b, sizeof b, "\\u%04x", v);
            r += b;
            i += k + 1;
        }
    }
    return r + "\"";
}
void w(Str& r, const JVal& v, const JStyle& st, int depth) {
    switch (v.t) {
    case JVal::NUL: r += "null"; break;
    case JVal::BOOL: r += v.b ? "true" : "false"; break;
    case JVal::NUM: r += v.s; break;
    case JVal::STR: r += wstr(v.s, st); break;
    case JVal::ARR: {
        r += "[" + wsp(st);
        for (size_t i = 0; i < v.a.size(); i++) { if (i) r += "," + wsp(st); w(r, v.a[i], st, depth + 1); r += wsp(st); }
        r += "]";
        break;
    }
    case JVal::OBJ: {
        r += "{" + wsp(st);
        std::vector<size_t> idx(v.o.size());
        for (size_t i = 0; i < idx.size(); i++) idx[i] = i;
        if (st.shuffle) for (size_t i = idx.size(); i > 1; i--) std::swap(idx[i - 1], idx[F((uint32_t)i)]);
        bool first = true;
        auto member = [&](const Str& k, const JVal& x) {
            if (!first) r += "," + wsp(st);
            first = false;
            r += wstr(k, st) + wsp(st) + ":" + wsp(st);
            JStyle in = st;
            if (k == "auth") in.extra = 0; // every string in there is an entry
            w(r, x, in, depth + 1);
            r += wsp(st);
        };
        for (size_t i : idx) {
            if (st.extra && F(1000) >= (uint32_t)(1000 - st.extra)) {
                static const char* ks[] = {"x_extra", "note", "frame_no", "vendor", "x"};
                Str k = Str(ks[F(5)]) + std::to_string(i);
                JVal e;
                switch (F(4)) {
                case 0: e = JVal::str("y\"z\n"); break;
                case 1: e = JVal::num(F(100)); break;
                case 2: e = JVal::obj(); e.add("name", JVal::str("inner")); e.add("frames", JVal::arr()); break;
                default: e = JVal::arr(); e.a.push_back(JVal::boolean(true)); e.a.push_back(JVal());
                }
                member(k, e);
            }
            member(v.o[i].first, v.o[i].second);
        }
        r += "}";
    }
    }
}
}
bool json_parse(const Str& text, JVal* out, Str* err) {
    P p(text);
    if (!utf8_valid(text)) { *err = "not valid UTF-8"; return false; }
    if (!p.value(out, 0)) { *err = p.err; return false; }
    p.ws();
    if (p.i != text.size()) { p.fail("trailing characters"); *err = p.err; return false; }
    return true;
}
Str json_write(const JVal& v, const JStyle& st) { Str r; w(r, v, st, 0); return r; }
Str json_diff(const JVal& a, const JVal& b, const Str& path) {
    static const char* tn[] = {"null", "boolean", "number", "string", "array", "object"};
    if (a.t != b.t) return path + ": expected " + tn[a.t] + ", found " + tn[b.t];
    switch (a.t) {
    case JVal::NUL: return "";
    case JVal::BOOL: return a.b == b.b ? "" : path + ": expected " + (a.b ? "true" : "false");
    case JVal::NUM: case JVal::STR: return a.s == b.s ? "" : path + ": expected '" + show(a.s) + "', found '" + show(b.s) + "'";
    case JVal::ARR:
        for (size_t i = 0; i < a.a.size() && i < b.a.size(); i++) { Str d = json_diff(a.a[i], b.a[i], path + "[" + std::to_string(i) + "]"); if (!d.empty()) return d; }
        if (a.a.size() != b.a.size()) return path + ": expected " + std::to_string(a.a.size()) + " elements, found " + std::to_string(b.a.size());
        return "";
    case JVal::OBJ:
        for (auto& m : a.o) {
            const JVal* x = b.get(m.first);
            if (!x) return path + "." + m.first + ": member missing";
            Str d = json_diff(m.second, *x, path + "." + m.first);
            if (!d.empty()) return d;
        }
        for (auto& m : b.o) if (!a.get(m.first)) return path + "." + m.first + ": unexpected member";
        return "";
    }
    return "";
}
}
