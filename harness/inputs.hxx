// Inputs of the readers of a format (FMT: 0 JSON, 1 CBOR, 2 CXCF): short byte strings, sequences of fragments, broken documents, sizes, nestings.
#pragma once
#include "ref.hxx"
namespace inp {
static std::string rep(const std::string& a, size_t n) { std::string s; s.reserve(a.size() * n); while (n--) s += a; return s; }
using Strs = std::vector<std::string>;
#define S_(s) std::string(s, sizeof(s) - 1)
#if FMT == 0
static const Strs& tokens() { static const Strs t = { "\"", "\\", "\\u", "\\ud8", "00", "\xC3", "\xE2\x82", "\xF0\x9F", "\x80", "{", "}", "[", "]", ",", ":", "0", "-", "12", ".", "e", "+", "tr", "ue", "nul", "inf", "nan(", " ", "\"a\"", "\"\":", "\"bb\"", "\"one\"", "N", S_("\0"), "\xFF", "99999999999999999999", "\x1F" }; return t; }
static const Strs& corpus() { static const Strs t = { "[1,2,3]", "[[1],[2,3]]", "\"a\\u00e9\\ud83d\\ude00\\n\xC3\xA9\xF0\x9F\x98\x80z\"", "{\"a\":1,\"bb\":\"x\",\"c\":[1,2],\"d\":1.5,\"e\":{\"k\":\"v\",\"v\":[3]},\"s\":[{\"q\":\"]}\\\"\"}],\"f\":true}", "{\"one\":[1,2],\"two\":[]}", "[{\"k\":\"a\",\"v\":[]},{\"v\":[1]}]", "-12.5e+10", "[\"x\",1.25]", "[1,\"s\",true]", "\"101010101\"", "[true,false,null]", "{\"1\":[2],\"3\":[4,5]}", "[[\"a\",1.5],[\"b\",2]]", "{\"a\":{\"b\":{\"c\":[[],{},\"\",0,null]}}}", "\"Two\"", "[1.5,-2.5]", "[null,1]", "nan", "Infinity", "-Infinity", "\"-inf\"", "[1,2]", "{\"12\":34}" }; return t; }
static const char alphabet[] = "\"\\u/bd8e0c09-+.eEtrfalsn{}[],: INxy'\x01\x7F\x80\xC3\xE2\xF0\xFF";
#elif FMT == 1
static const Strs& tokens() { static const Strs t = { S_("\x00"), "\x01", "\x18\xC8", "\x19", "\x1B", "\x20", "\x38", "\x3B\xFF\xFF\xFF\xFF", "\x41\xFF", "\x42\x07", S_("\x58"), "\x5B", "\x61y", "\x60", "\x62h", "\x7B\x7F\xFF\xFF\xFF", "\x80", "\x81", "\x82", "\x83", "\x9B\xFF\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "\xA0", "\xA1", "\xA2", "\xBB", "\xC1", "\xD8\x80", "\xDB", "\x9F", "\xBF", "\x5F", "\x7F", "\xFF", "\xF5", "\xF6", "\xF7", "\xF9\x3E", "\xFA", "\xFB\x40", "\xE3", "\xF8", "\xFC", "\xFF\xFF\xFF\xFF" }; return t; }
static const Strs& corpus() { static const Strs t = { "\x83\x01\x02\x03", "\x9F\x01\x02\x03\xFF", "\x5F\x41\x01\x42\x02\x03\xFF", "\x7F\x61\x61\x62\x62\x63\xFF", "\xA2\x61\x61\x01\x61\x62\x02", "\xBF\x61\x61\x01\xFF", "\xA6\x61\x61\x01\x62""bb\x61x\x61""c\x82\x01\x02\x61""d\xFB\x3F\xF8\x01\x01\x01\x01\x01\x01\x61""e\xA2\x61k\x61v\x61v\x81\x03\x61s\x81\xA1\x61q\x9F\x01\xFF", "\x82\x01\x62hi", "\x83\x01\x61s\xF5", "\xD8\x20\x82\xC1\x01\xC2\x41\x01", "\x43\x07\x01\x80", "\x82\xFB\x40\x09\x21\xFB\x54\x44\x2D\x18\xF9\x3E\x01", "\x82\x82\x01\x02\x81\x03", "\xA1\x01\x82\x02\x03", "\xA1\xA1\x01\x02\x83\xF6\xF7\xE3", "\x19\x01\x2C", "\x1B\x7F\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "\x3B\x7F\xFF\xFF\xFF\xFF\xFF\xFF\xFF", "\x78\x05hello", "\x59\x01\x02" "ab", "\x82\x02\x61s", "\x81\xF6", "\xF9\x7E\x01" }; return t; }
static const char alphabet[] = "\x01\x02\x17\x18\x19\x1A\x1B\x1C\x1F\x20\x38\x3B\x40\x41\x57\x58\x5B\x5F\x60\x61\x78\x7B\x7F\x80\x81\x82\x98\x9B\x9F\xA0\xA1\xB8\xBB\xBF\xC0\xC1\xD8\xDB\xE0\xF4\xF5\xF6\xF7\xF8\xF9\xFA\xFB\xFC\xFE\xFF";
#else
static const Strs& tokens() { static const Strs t = { "\"", "\\", "\\u00", "\xC3", "\xE2\x82", "{", "}", "[", "]", ",", "=", ":", "0", "-", "12", ".", "e1", "true", "nul", "NaN", "-Inf", " ", "\n", "\"a\"", "a", "prop1", "a.r", "obj", "\\ ", "bb", "//", "/", "*", "/*", "*/", S_("\0"), "\xFF", "'", "s" }; return t; }
static const Strs& corpus() { static const Strs t = { "prop1 = 42 // c\na.r = [\"one\" \"two\"] /* d */ obj = { key.1 = [1 3] k\\ 2 = [] }", "{a=1 bb=\"x\" c=[1 2] d=1.5 e={k=\"v\" v=[3]} s=[{q=\"]}\\\"\"}] f=true}", "{one=1 two=2}", "{a=[\"x\" \"y\"] b=[]}", "[1 2 3]", "\"a\\u00e9\\ud83d\\ude00\"", "-12.5e+10", "NaN", "-Infinity", "{a={b=[{} [] \"\" 0 null]}}", "{1=\"a\" 2=\"b\"}", "[1 \"x\"]", "/**/ 1", "//\n1", "{ /* c */ one /* d */ = /* e */ 1 /* f */ }" }; return t; }
static const char alphabet[] = "\"\\u/*bd8e0c9-+.tn{}[]=,: INa\n\x01\x80\xC3\xF0\xFF";
#endif
static void (*run)(const char* label, const std::string& s);
static void dfs(std::string& s, int left) { run("tokens", s); if (!left) return; for (auto& t : tokens()) { size_t z = s.size(); s += t; dfs(s, left - 1); s.resize(z); } }


// D: fragments in a sequence
static void add(void (*f)(const char*, const std::string&), int D, bool T) {
    run = f;
    mc::add("bytes<=2", [] { run("bytes", ""); for (int a = 0; a < 256; ++a) { run("bytes", std::string(1, char(a))); for (int b = 0; b < 256; ++b) { std::string s(1, char(a)); s += char(b); run("bytes", s); } } });
    size_t A = sizeof(alphabet) - 1;
    for (size_t a = 0; a < A; ++a) mc::add(mc::fmt("alphabet/%zu", a), [=] {
        std::string s(3, alphabet[a]); for (size_t b = 0; b < A; ++b) { s[1] = alphabet[b]; for (size_t c = 0; c < A; ++c) { s[2] = alphabet[c]; run("alphabet", s); if (T) for (size_t d = 0; d < A; ++d) run("alphabet", s + alphabet[d]); } } });
    auto& tk = tokens();
    for (size_t i = 0; i < tk.size(); ++i) mc::add(mc::fmt("tokens/%zu", i), [=, &tk] { std::string s = tk[i]; dfs(s, D - 1); });
    for (size_t i = 0; i < corpus().size(); ++i) mc::add(mc::fmt("mutations/%zu", i), [=] {
        auto& s = corpus()[i]; run("corpus", s); Strs al; for (size_t k = 0; k < A; ++k) al.push_back(std::string(1, alphabet[k]));
        for (size_t k = 0; k <= s.size(); ++k) {
            run("prefix", s.substr(0, k)); run("suffix", s.substr(k)); if (k < s.size()) { run("remove", s.substr(0, k) + s.substr(k + 1)); run("double", s.substr(0, k + 1) + s.substr(k)); }
            for (auto& x : al) { if (k < s.size()) run("replace", s.substr(0, k) + x + s.substr(k + 1)); run("insert", s.substr(0, k) + x + s.substr(k)); run("cut", s.substr(0, k) + x); }
            for (size_t l = k + 2; l <= s.size(); ++l) run("cut out", s.substr(0, k) + s.substr(l));
        }
    });
    mc::add("sizes", [] {
        for (size_t n : { 14u, 15u, 16u, 17u, 18u, 30u, 31u, 32u, 33u, 34u, 47u, 48u, 49u, 62u, 63u, 64u, 65u, 66u, 127u, 128u, 129u, 255u, 256u, 257u, 1000u, 4095u, 4096u, 4097u, 70000u }) {
            if (n > 5000 && (GRP == 1 || GRP == 2 || GRP == 5)) continue; // some targets take quadratic time
            std::string d = rep("1", n), a = rep("a", n);
#           if FMT != 1
                for (std::string p : { "", "-", "1.", "0.", "1e", "1e-", "[", "{\"" }) { run("digits", p + d); run("digits", p + d + "]"); run("digits", p + d + "\":"); }
                for (std::string q : { "\"", "\\", "\\n\"", "\\u00", "\\u00e9\"", "\xC3", "\xE2\x82", "\xF0\x9F\x98\x80\"", "", "\x01\"" }) for (std::string p : { "\"", "[\"", "{\"", "{\"a\":\"", "{", "" }) { run("string", p + a + q); run("string", p + a + q + a); run("string", p + a + q + "\":1}"); run("string", p + a + q + "=1}"); run("string", p + q + a); }
                run("spaces", rep(" ", n)); run("spaces", rep(" ", n) + "1"); run("spaces", "[" + rep("\n", n)); run("elements", "[" + rep("1,", n)); run("elements", "[" + rep("1,", n) + "1]"); run("elements", "[" + rep("1 ", n) + "1]"); run("members", "{" + rep("\"a\":1,", n)); run("members", "{" + rep("a=1 ", n) + "}"); run("members", "{" + rep("\"a\":1,", n) + "\"bb\":[]}");
#               if FMT == 2
                    run("comment", "/*" + a); run("comment", "/*" + a + "*"); run("comment", "/*" + a + "*/"); run("comment", "//" + a); run("comment", rep("/**/", n)); run("comment", rep("//\n", n) + "1"); run("key", a); run("key", a + "=" + a); run("key", "prop1=" + d + " " + a); run("key", "{" + a + "\\");
#               endif
#           else
                for (unsigned mt = 2; mt < 6; ++mt) { std::string h = ref::cbor_head(mt, n); for (std::string b : { rep("a", n), rep("\x01", n), rep("\x01", 2 * n), rep("\x61" "a", n), rep("\x80", n), rep("\x61" "a\x01", n) }) { run("size", h + b); run("size", h + b.substr(0, b.size() - 1)); run("size", ref::cbor_head(mt, n + 1) + b); run("size", std::string(1, char(mt << 5 | 31)) + b); run("size", std::string(1, char(mt << 5 | 31)) + b + "\xFF"); run("size", "\x81" + h + b); } }
                run("tags", rep("\xC1", n)); run("tags", rep("\xC1", n) + "\x01"); run("tags", rep("\xC1", n) + "\x80"); run("breaks", rep("\xFF", n)); if (n > 5000) continue; run("chunks", "\x5F" + rep("\x41" "a", n) + "\xFF"); run("chunks", "\x5F" + rep("\x40", n)); run("chunks", "\x7F" + rep("\x61" "a", n) + "\xFF"); run("chunks", rep("\x5F", n)); run("claims", rep("\x9B\x01\x01\x01\x01\x01\x01\x01\x01", n)); run("claims", rep("\xBB\x01\x01\x01\x01\x01\x01\x01\x01", n));
#           endif
        }
    });
    mc::add("nesting", [] {
#       if FMT != 1
            Strs o = { "[", "{", "{\"a\":", "[{\"a\":", "{\"zz\":", "{\"s\":", "{\"s\":[", "{\"a\":[[", "{a=", "a=[", "zz={b=", "{s=[{a=" };
#       else
            Strs o = { "\x81", "\x82\x01", "\x9F", "\xA1\x61" "a", "\xA1\x01", "\xBF\x61" "a", "\xC1", "\xD8\x80", "\xA1", "\xA1\x61s", "\xA1\x61s\x9F", "\xA1\x61s\x81", "\xBF", "\x5F", "\x7F", "\xA1\x61z", "\x81\xC1", "\xA1\x61s\xC1", "\x82\x82", "\xA1\xA1" };
#       endif
        for (auto& x : o) for (size_t n : { 1u, 2u, 10u, 61u, 62u, 63u, 64u, 65u, 66u, 100u, 1000u, 30000u, 130000u }) { if (GRP == 5 && n > 5000) continue; /* flat containers take quadratic time */  if (n * x.size() > 900000) n = 900000 / x.size(); run("nesting", rep(x, n)); run("nesting", rep(x, n) + "1"); run("nesting", rep(x, n) + "\x01"); run("nesting", rep(x, n) + rep("]", n)); run("nesting", rep(x, n) + rep("}", n)); run("nesting", "{\"s\":" + rep(x, n)); run("nesting", rep(x, n) + "\xFF"); run("nesting", std::string("\xA1\x61s") + rep(x, n) + "\x01"); run("nesting", "zz=" + rep(x, n)); run("nesting", "{zz=" + rep(x, n)); }
    });
}
}
