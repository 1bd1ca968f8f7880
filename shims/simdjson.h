// Offline stand-in for the part of simdjson 3.10 (DOM API) that novatel_edie uses.
// simdjson itself is not installed in the sandbox. The stand-in follows the documented behaviour of
// the DOM API: strict RFC 8259 grammar, UTF-8 validation, int64 / uint64 / double number tagging,
// get<uint64_t> on a non-negative int64, get<int64_t> on a fitting uint64, get<double> on any number,
// first match wins on duplicate keys, depth limit 1024, elements that point into parser-owned storage.
#ifndef VERIF_SIMDJSON_SHIM
#define VERIF_SIMDJSON_SHIM
#include <charconv>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <memory>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <vector>

namespace simdjson {

enum error_code
{
    SUCCESS = 0,
    CAPACITY,
    MEMALLOC,
    TAPE_ERROR,
    DEPTH_ERROR,
    STRING_ERROR,
    T_ATOM_ERROR,
    F_ATOM_ERROR,
    N_ATOM_ERROR,
    NUMBER_ERROR,
    BIGINT_ERROR,
    UTF8_ERROR,
    UNINITIALIZED,
    EMPTY,
    UNESCAPED_CHARS,
    UNCLOSED_STRING,
    UNSUPPORTED_ARCHITECTURE,
    INCORRECT_TYPE,
    NUMBER_OUT_OF_RANGE,
    INDEX_OUT_OF_BOUNDS,
    NO_SUCH_FIELD,
    IO_ERROR,
    INVALID_JSON_POINTER,
    INVALID_URI_FRAGMENT,
    UNEXPECTED_ERROR,
    NUM_ERROR_CODES
};

inline const char* error_message(error_code e)
{
    switch (e)
    {
    case SUCCESS: return "No error";
    case TAPE_ERROR: return "The JSON document has an improper structure";
    case DEPTH_ERROR: return "The JSON document was too deep";
    case STRING_ERROR: return "Problem while parsing a string";
    case NUMBER_ERROR: return "Problem while parsing a number";
    case BIGINT_ERROR: return "Big integer value that cannot be represented using 64 bits";
    case UTF8_ERROR: return "The input is not valid UTF-8";
    case EMPTY: return "Empty: no JSON found";
    case UNESCAPED_CHARS: return "Within strings, some characters must be escaped";
    case UNCLOSED_STRING: return "A string is opened, but never closed";
    case INCORRECT_TYPE: return "The JSON element does not have the requested type";
    case NUMBER_OUT_OF_RANGE: return "The JSON number is too large or too small";
    case NO_SUCH_FIELD: return "The JSON field referenced does not exist in this object";
    case IO_ERROR: return "Error reading the file";
    default: return "error";
    }
}
inline std::ostream& operator<<(std::ostream& o, error_code e) { return o << error_message(e); }

struct simdjson_error : public std::exception
{
    error_code c;
    explicit simdjson_error(error_code e) : c(e) {}
    const char* what() const noexcept override { return error_message(c); }
    error_code error() const { return c; }
};

template <typename T> struct simdjson_result;

class padded_string
{
    std::string s;

  public:
    padded_string() = default;
    padded_string(const char* d, size_t n) : s(d, n) {}
    padded_string(const std::string& x) : s(x) {}
    padded_string(std::string_view x) : s(x) {}
    const char* data() const { return s.data(); }
    size_t size() const { return s.size(); }
    size_t length() const { return s.size(); }
    operator std::string_view() const { return s; }
    static inline simdjson_result<padded_string> load(std::string_view path);
};

namespace dom {

enum class element_type
{
    ARRAY = '[',
    OBJECT = '{',
    INT64 = 'l',
    UINT64 = 'u',
    DOUBLE = 'd',
    STRING = '"',
    BOOL = 't',
    NULL_VALUE = 'n'
};

namespace internal {
struct node
{
    element_type type = element_type::NULL_VALUE;
    bool b = false;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    std::string s;
    std::vector<const node*> items;
    std::vector<std::pair<std::string, const node*>> members;
};
} // namespace internal

class element;
class array
{
    const internal::node* n = nullptr;

  public:
    array() = default;
    explicit array(const internal::node* x) : n(x) {}
    struct iterator
    {
        const internal::node* const* p;
        inline element operator*() const;
        iterator& operator++()
        {
            ++p;
            return *this;
        }
        bool operator!=(const iterator& o) const { return p != o.p; }
        bool operator==(const iterator& o) const { return p == o.p; }
    };
    iterator begin() const { return {n->items.data()}; }
    iterator end() const { return {n->items.data() + n->items.size()}; }
    size_t size() const { return n->items.size(); }
    inline simdjson_result<element> at(size_t i) const;
};

struct key_value_pair;
class object
{
    const internal::node* n = nullptr;

  public:
    object() = default;
    explicit object(const internal::node* x) : n(x) {}
    struct iterator
    {
        const std::pair<std::string, const internal::node*>* p;
        inline key_value_pair operator*() const;
        iterator& operator++()
        {
            ++p;
            return *this;
        }
        bool operator!=(const iterator& o) const { return p != o.p; }
        bool operator==(const iterator& o) const { return p == o.p; }
        inline std::string_view key() const { return p->first; }
        inline element value() const;
    };
    iterator begin() const { return {n->members.data()}; }
    iterator end() const { return {n->members.data() + n->members.size()}; }
    size_t size() const { return n->members.size(); }
    inline simdjson_result<element> operator[](std::string_view k) const;
    inline simdjson_result<element> at_key(std::string_view k) const;
};

class element
{
    const internal::node* n = nullptr;
    friend class array;

  public:
    element() = default;
    explicit element(const internal::node* x) : n(x) {}
    element_type type() const { return n->type; }
    bool is_null() const { return n->type == element_type::NULL_VALUE; }
    bool is_string() const { return n->type == element_type::STRING; }
    bool is_array() const { return n->type == element_type::ARRAY; }
    bool is_object() const { return n->type == element_type::OBJECT; }
    bool is_bool() const { return n->type == element_type::BOOL; }
    bool is_int64() const { int64_t v; return get(v) == SUCCESS; }
    bool is_uint64() const { uint64_t v; return get(v) == SUCCESS; }
    bool is_double() const { double v; return get(v) == SUCCESS; }
    bool is_number() const { return is_double(); }

    error_code get(int64_t& o) const
    {
        if (n->type == element_type::INT64) { o = n->i; return SUCCESS; }
        if (n->type == element_type::UINT64) { if (n->u > uint64_t(INT64_MAX)) return NUMBER_OUT_OF_RANGE; o = int64_t(n->u); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(uint64_t& o) const
    {
        if (n->type == element_type::UINT64) { o = n->u; return SUCCESS; }
        if (n->type == element_type::INT64) { if (n->i < 0) return NUMBER_OUT_OF_RANGE; o = uint64_t(n->i); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(double& o) const
    {
        if (n->type == element_type::DOUBLE) { o = n->d; return SUCCESS; }
        if (n->type == element_type::INT64) { o = double(n->i); return SUCCESS; }
        if (n->type == element_type::UINT64) { o = double(n->u); return SUCCESS; }
        return INCORRECT_TYPE;
    }
    error_code get(bool& o) const { if (n->type != element_type::BOOL) return INCORRECT_TYPE; o = n->b; return SUCCESS; }
    error_code get(std::string_view& o) const { if (n->type != element_type::STRING) return INCORRECT_TYPE; o = n->s; return SUCCESS; }
    error_code get(const char*& o) const { if (n->type != element_type::STRING) return INCORRECT_TYPE; o = n->s.c_str(); return SUCCESS; }
    error_code get(array& o) const { if (n->type != element_type::ARRAY) return INCORRECT_TYPE; o = array(n); return SUCCESS; }
    error_code get(object& o) const { if (n->type != element_type::OBJECT) return INCORRECT_TYPE; o = object(n); return SUCCESS; }
    error_code get(element& o) const { o = *this; return SUCCESS; }
    template <typename T> inline simdjson_result<T> get() const;
    inline simdjson_result<element> operator[](std::string_view k) const;
    inline simdjson_result<element> operator[](const char* k) const;
    inline simdjson_result<element> at_key(std::string_view k) const;
};

struct key_value_pair
{
    std::string_view key;
    element value;
};

} // namespace dom

template <typename T> struct simdjson_result
{
    T first{};
    error_code second = UNINITIALIZED;
    simdjson_result() = default;
    simdjson_result(T v) : first(std::move(v)), second(SUCCESS) {}
    simdjson_result(error_code e) : second(e) {}
    error_code error() const { return second; }
    T& value() & { if (second) throw simdjson_error(second); return first; }
    T&& value() && { if (second) throw simdjson_error(second); return std::move(first); }
    operator T() && { if (second) throw simdjson_error(second); return std::move(first); }
    template <typename U> error_code get(U& o) &&
    {
        if (second) return second;
        if constexpr (std::is_same_v<U, T>) { o = std::move(first); return SUCCESS; }
        else { return first.get(o); }
    }
    template <typename U> error_code get(U& o) const&
    {
        if (second) return second;
        if constexpr (std::is_same_v<U, T>) { o = first; return SUCCESS; }
        else { return first.get(o); }
    }
    template <typename K> auto operator[](K k) const -> simdjson_result<dom::element>
    {
        if (second) return second;
        return first[k];
    }
};

inline simdjson_result<padded_string> padded_string::load(std::string_view path)
{
    std::string p(path);
    FILE* f = std::fopen(p.c_str(), "rb");
    if (!f) return IO_ERROR;
    std::string out;
    char buf[65536];
    size_t k;
    while ((k = std::fread(buf, 1, sizeof buf, f)) > 0) out.append(buf, k);
    bool bad = std::ferror(f);
    std::fclose(f);
    if (bad) return IO_ERROR;
    return padded_string(out);
}

namespace dom {
inline element array::iterator::operator*() const { return element(*p); }
inline simdjson_result<element> array::at(size_t i) const
{
    if (i >= n->items.size()) return INDEX_OUT_OF_BOUNDS;
    return element(n->items[i]);
}
inline key_value_pair object::iterator::operator*() const { return {p->first, element(p->second)}; }
inline element object::iterator::value() const { return element(p->second); }
inline simdjson_result<element> object::at_key(std::string_view k) const
{
    for (auto& m : n->members) { if (m.first == k) return element(m.second); }
    return NO_SUCH_FIELD;
}
inline simdjson_result<element> object::operator[](std::string_view k) const { return at_key(k); }
template <typename T> inline simdjson_result<T> element::get() const
{
    T v{};
    auto e = get(v);
    if (e) return e;
    return v;
}
inline simdjson_result<element> element::at_key(std::string_view k) const
{
    if (n->type != element_type::OBJECT) return INCORRECT_TYPE;
    return object(n).at_key(k);
}
inline simdjson_result<element> element::operator[](std::string_view k) const { return at_key(k); }
inline simdjson_result<element> element::operator[](const char* k) const { return at_key(k); }

class parser
{
    std::unique_ptr<std::deque<internal::node>> pool;
    const char* p = nullptr;
    const char* e = nullptr;
    error_code err = SUCCESS;

    internal::node* mk(element_type t)
    {
        pool->emplace_back();
        pool->back().type = t;
        return &pool->back();
    }
    bool fail(error_code c)
    {
        if (!err) err = c;
        return false;
    }
    void ws()
    {
        while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p;
    }
    static void utf8(std::string& o, uint32_t c)
    {
        if (c < 0x80) o += char(c);
        else if (c < 0x800) { o += char(0xC0 | (c >> 6)); o += char(0x80 | (c & 63)); }
        else if (c < 0x10000) { o += char(0xE0 | (c >> 12)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
        else { o += char(0xF0 | (c >> 18)); o += char(0x80 | ((c >> 12) & 63)); o += char(0x80 | ((c >> 6) & 63)); o += char(0x80 | (c & 63)); }
    }
    bool hex4(uint32_t& v)
    {
        if (e - p < 4) return fail(STRING_ERROR);
        v = 0;
        for (int k = 0; k < 4; ++k)
        {
            char c = *p++;
            v <<= 4;
            if (c >= '0' && c <= '9') v |= uint32_t(c - '0');
            else if (c >= 'a' && c <= 'f') v |= uint32_t(c - 'a' + 10);
            else if (c >= 'A' && c <= 'F') v |= uint32_t(c - 'A' + 10);
            else return fail(STRING_ERROR);
        }
        return true;
    }
    bool str(std::string& o)
    {
        ++p;
        while (true)
        {
            if (p >= e) return fail(UNCLOSED_STRING);
            unsigned char c = static_cast<unsigned char>(*p);
            if (c == '"') { ++p; return true; }
            if (c < 0x20) return fail(UNESCAPED_CHARS);
            if (c != '\\') { o += char(c); ++p; continue; }
            ++p;
            if (p >= e) return fail(UNCLOSED_STRING);
            char k = *p++;
            switch (k)
            {
            case '"': o += '"'; break;
            case '\\': o += '\\'; break;
            case '/': o += '/'; break;
            case 'b': o += '\b'; break;
            case 'f': o += '\f'; break;
            case 'n': o += '\n'; break;
            case 'r': o += '\r'; break;
            case 't': o += '\t'; break;
            case 'u': {
                uint32_t v;
                if (!hex4(v)) return false;
                if (v >= 0xD800 && v < 0xDC00)
                {
                    if (e - p < 6 || p[0] != '\\' || p[1] != 'u') return fail(STRING_ERROR);
                    p += 2;
                    uint32_t w;
                    if (!hex4(w)) return false;
                    if (w < 0xDC00 || w > 0xDFFF) return fail(STRING_ERROR);
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                }
                else if (v >= 0xDC00 && v <= 0xDFFF) return fail(STRING_ERROR);
                utf8(o, v);
                break;
            }
            default: return fail(STRING_ERROR);
            }
        }
    }
    static bool dig(char c) { return c >= '0' && c <= '9'; }
    const internal::node* num()
    {
        const char* s = p;
        bool neg = false, flt = false;
        if (*p == '-') { neg = true; ++p; }
        if (p >= e || !dig(*p)) { fail(NUMBER_ERROR); return nullptr; }
        if (*p == '0') ++p;
        else while (p < e && dig(*p)) ++p;
        if (p < e && dig(*p)) { fail(NUMBER_ERROR); return nullptr; }
        const char* ie = p;
        if (p < e && *p == '.')
        {
            flt = true;
            ++p;
            if (p >= e || !dig(*p)) { fail(NUMBER_ERROR); return nullptr; }
            while (p < e && dig(*p)) ++p;
        }
        if (p < e && (*p == 'e' || *p == 'E'))
        {
            flt = true;
            ++p;
            if (p < e && (*p == '+' || *p == '-')) ++p;
            if (p >= e || !dig(*p)) { fail(NUMBER_ERROR); return nullptr; }
            while (p < e && dig(*p)) ++p;
        }
        if (p < e)
        {
            char c = *p;
            if (!(c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',' || c == ']' || c == '}' || c == ':')) { fail(NUMBER_ERROR); return nullptr; }
        }
        if (!flt)
        {
            if (neg)
            {
                int64_t v;
                auto r = std::from_chars(s, ie, v);
                if (r.ec != std::errc()) { fail(BIGINT_ERROR); return nullptr; }
                auto* n = mk(element_type::INT64);
                n->i = v;
                return n;
            }
            uint64_t v;
            auto r = std::from_chars(s, ie, v);
            if (r.ec != std::errc()) { fail(BIGINT_ERROR); return nullptr; }
            if (v <= uint64_t(INT64_MAX)) { auto* n = mk(element_type::INT64); n->i = int64_t(v); return n; }
            auto* n = mk(element_type::UINT64);
            n->u = v;
            return n;
        }
        std::string t(s, p);
        double d = std::strtod(t.c_str(), nullptr);
        if (d > 1.7976931348623157e308 || d < -1.7976931348623157e308) { fail(NUMBER_ERROR); return nullptr; }
        auto* n = mk(element_type::DOUBLE);
        n->d = d;
        return n;
    }
    bool lit(const char* w)
    {
        size_t k = std::strlen(w);
        if (size_t(e - p) < k || std::memcmp(p, w, k) != 0) return false;
        p += k;
        if (p < e && !(*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r' || *p == ',' || *p == ']' || *p == '}')) return false;
        return true;
    }
    const internal::node* val(int depth)
    {
        ws();
        if (depth > 1024) { fail(DEPTH_ERROR); return nullptr; }
        if (p >= e) { fail(TAPE_ERROR); return nullptr; }
        switch (*p)
        {
        case '{': {
            ++p;
            auto* n = mk(element_type::OBJECT);
            ws();
            if (p < e && *p == '}') { ++p; return n; }
            while (true)
            {
                ws();
                if (p >= e || *p != '"') { fail(TAPE_ERROR); return nullptr; }
                std::string k;
                if (!str(k)) return nullptr;
                ws();
                if (p >= e || *p != ':') { fail(TAPE_ERROR); return nullptr; }
                ++p;
                auto* v = val(depth + 1);
                if (!v) return nullptr;
                n->members.emplace_back(std::move(k), v);
                ws();
                if (p >= e) { fail(TAPE_ERROR); return nullptr; }
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return n; }
                fail(TAPE_ERROR);
                return nullptr;
            }
        }
        case '[': {
            ++p;
            auto* n = mk(element_type::ARRAY);
            ws();
            if (p < e && *p == ']') { ++p; return n; }
            while (true)
            {
                auto* v = val(depth + 1);
                if (!v) return nullptr;
                n->items.push_back(v);
                ws();
                if (p >= e) { fail(TAPE_ERROR); return nullptr; }
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return n; }
                fail(TAPE_ERROR);
                return nullptr;
            }
        }
        case '"': {
            auto* n = mk(element_type::STRING);
            if (!str(n->s)) return nullptr;
            return n;
        }
        case 't': {
            auto* n = mk(element_type::BOOL);
            n->b = true;
            if (!lit("true")) { fail(T_ATOM_ERROR); return nullptr; }
            return n;
        }
        case 'f': {
            auto* n = mk(element_type::BOOL);
            if (!lit("false")) { fail(F_ATOM_ERROR); return nullptr; }
            return n;
        }
        case 'n': {
            auto* n = mk(element_type::NULL_VALUE);
            if (!lit("null")) { fail(N_ATOM_ERROR); return nullptr; }
            return n;
        }
        default:
            if (*p == '-' || dig(*p)) return num();
            fail(TAPE_ERROR);
            return nullptr;
        }
    }
    static bool validUtf8(const char* s, size_t n)
    {
        size_t i = 0;
        while (i < n)
        {
            unsigned char c = static_cast<unsigned char>(s[i]);
            size_t k;
            uint32_t cp;
            if (c < 0x80) { ++i; continue; }
            if (c >= 0xC2 && c < 0xE0) { k = 1; cp = c & 31; }
            else if (c >= 0xE0 && c < 0xF0) { k = 2; cp = c & 15; }
            else if (c >= 0xF0 && c < 0xF5) { k = 3; cp = c & 7; }
            else return false;
            if (i + k >= n) return false;
            for (size_t j = 1; j <= k; ++j)
            {
                unsigned char d = static_cast<unsigned char>(s[i + j]);
                if ((d & 0xC0) != 0x80) return false;
                cp = (cp << 6) | (d & 63);
            }
            if (k == 2 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) return false;
            if (k == 3 && (cp < 0x10000 || cp > 0x10FFFF)) return false;
            i += k + 1;
        }
        return true;
    }

  public:
    parser() = default;
    simdjson_result<element> parse(const char* d, size_t len, bool = true)
    {
        pool = std::make_unique<std::deque<internal::node>>();
        err = SUCCESS;
        // own copy with an exact end, so that reading past the caller's range is visible to ASan
        std::unique_ptr<char[]> own(new char[len ? len : 1]);
        if (len) std::memcpy(own.get(), d, len);
        p = own.get();
        e = p + len;
        if (!validUtf8(p, len)) return UTF8_ERROR;
        ws();
        if (p == e) return EMPTY;
        auto* n = val(0);
        if (!n) return err ? err : TAPE_ERROR;
        ws();
        if (p != e) return TAPE_ERROR;
        return element(n);
    }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const char* s) { return parse(s, std::strlen(s)); }
};
} // namespace dom
} // namespace simdjson
#endif
