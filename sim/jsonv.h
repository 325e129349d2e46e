// Independent JSON value, strict parser (RFC 8259) and writer with styles.
#pragma once
#include "core.h"
namespace sim {
struct JMember;
struct JVal {
    enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
    bool b = false;
    Str s;                                   // string, or the digits of a number
    std::vector<JVal> a;
    std::vector<JMember> o;
    JVal(); JVal(const JVal&); JVal(JVal&&); ~JVal();
    JVal& operator=(const JVal&); JVal& operator=(JVal&&);
    static JVal str(const Str& x); static JVal num(uint64_t x); static JVal boolean(bool x); static JVal arr(); static JVal obj();
    void add(const Str& k, JVal v);
    const JVal* get(const Str& k) const; JVal* get(const Str& k);
};
struct JMember { Str first; JVal second; };
struct JStyle {
    int ws = 0;              // 0 compact, 1 one space, 2 random
    bool shuffle = false;    // member order
    int extra = 0;           // extra unknown members per object (permille)
    int esc = 0;             // 0 minimal, 1 \u for non-ascii, 2 \u for everything odd and '/'
};
bool json_parse(const Str& text, JVal* out, Str* err);      // strict: whole text, valid UTF-8, no duplicate members
Str json_write(const JVal& v, const JStyle& st);            // decisions from the fault tape
// "" when equal (object member order ignored, number text compared), else the first difference
Str json_diff(const JVal& want, const JVal& got, const Str& path = "");
bool utf8_valid(const Str& s);
}
