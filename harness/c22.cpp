// C22: property exchange headers are valid JSON with exactly the given content.
#include "ci_ref.h"
#include <memory>
using namespace ci_ref;
namespace mc = midi::ci;
namespace pe = midi::ci::property_exchange;

struct Member { string key; bool number; string text; };

// strict JSON parser for one flat object of strings and integers; returns false on anything else
struct Parser
{
    std::string_view s;
    size_t           p = 0;
    string           err;
    bool bad(const char* m) { err = m + string(" at ") + std::to_string(p); return false; }
    bool lit(char c) { if (p < s.size() && s[p] == c) { ++p; return true; } return false; }
    bool str(string& out)
    {
        if (!lit('"')) return bad("expected '\"'");
        out.clear();
        while (p < s.size() && s[p] != '"')
        {
            if (u8(s[p]) < 0x20) return bad("control character in string");
            if (s[p] == '\\') return bad("unexpected escape");
            out += s[p++];
        }
        return lit('"') || bad("unterminated string");
    }
    bool number(string& out)
    {
        out.clear();
        if (p < s.size() && s[p] == '-') out += s[p++];
        if (p >= s.size() || s[p] < '0' || s[p] > '9') return bad("expected digit");
        if (s[p] == '0') { out += s[p++]; if (p < s.size() && s[p] >= '0' && s[p] <= '9') return bad("leading zero"); return true; }
        while (p < s.size() && s[p] >= '0' && s[p] <= '9') out += s[p++];
        return true;
    }
    bool object(vector<Member>& m)
    {
        if (!lit('{')) return bad("expected '{'");
        if (lit('}')) return p == s.size() || bad("trailing text");
        do
        {
            Member x;
            if (!str(x.key)) return false;
            if (!lit(':')) return bad("expected ':'");
            x.number = p < s.size() && s[p] != '"';
            if (!(x.number ? number(x.text) : str(x.text))) return false;
            m.push_back(x);
        } while (lit(','));
        if (!lit('}')) return bad("expected '}'");
        return p == s.size() || bad("trailing text");
    }
};

static bool json_integer(const string& s)
{
    size_t i = 0;
    if (i < s.size() && s[i] == '-') ++i;
    if (i >= s.size()) return false;
    if (s[i] == '0') return i + 1 == s.size();
    for (; i < s.size(); ++i)
        if (s[i] < '0' || s[i] > '9') return false;
    return true;
}
static void judge(const char* what, std::string_view got, const vector<Member>& exp)
{
    op(what);
    Parser         ps{ got };
    vector<Member> m;
    if (!ps.object(m)) fail("invalid-json", "%s: %s: %s", what, ps.err.c_str(), show(got).c_str());
    bool same = m.size() == exp.size();
    for (size_t i = 0; same && i < m.size(); ++i) same = m[i].key == exp[i].key && m[i].number == exp[i].number && m[i].text == exp[i].text;
    if (!same)
    {
        string e;
        for (auto& x : exp) e += "\"" + x.key + "\":" + (x.number ? x.text : "\"" + x.text + "\"") + ",";
        fail("members", "%s: %s, expected members %s", what, show(got).c_str(), show(e).c_str());
    }
    VH_COUNT("headers parsed");
    VH_ADD("members compared", exp.size());
    for (auto& x : exp) { if (x.number) VH_COUNT("numbers"); else if (x.text.empty()) VH_COUNT("empty values"); }
    nontrivial(hash_str(got));
    if (want_sample()) sample(string(got.substr(0, 160)));
}

static string plain(Rng& r, size_t n)
{
    string s(n, ' ');
    for (auto& c : s) do c = char(r.range(0x20, 0x7F)); while (c == '"' || c == '\\');
    return s;
}
static string word(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return "";
    case 1: return plain(r, 1);
    case 2: return plain(r, r.chance(1, 40) ? r.below(6000) : r.below(400));
    case 3: { string s(r.below(12), '0'); for (auto& c : s) c = "0123456789-+.e"[r.below(14)]; return s; }
    case 4: return r.pick<const char*>({ "true", "null", "{}", "[]", ":", ",", "{", "}", "-", "+1", "0x10", " 1", "1 ", "01", "-01", "1.5", "1e3", "--1", "1-", "0", "-0", "00", "-" });
    default: return plain(r, r.below(24));
    }
}
static string number_text(Rng& r)
{
    switch (r.below(5))
    {
    case 0: return std::to_string(int(r.iw()));
    case 1: return std::to_string(i64(r.next()));
    case 2: { string s = r.chance(1, 2) ? "-" : ""; s += char('1' + r.below(9)); for (auto k = r.chance(1, 30) ? r.below(900) : r.below(60); k; --k) s += char('0' + r.below(10)); return s; }
    case 3: return r.pick<const char*>({ "0", "-0", "9", "-1", "10", "100", "2147483648", "-2147483649" });
    default: return std::to_string(r.below(2000));
    }
}
struct Options
{
    vector<string> keys, values;
    pe::header_options o;
    vector<Member> m;
    explicit Options(Rng& r, size_t max = 8)
    {
        const auto n = r.chance(1, 5) ? 0 : r.chance(1, 60) ? r.below(80) : r.below(max) + 1;
        for (u64 i = 0; i < n; ++i)
        {
            // now and then repeat a key or a value, or use a name of the library's own
            keys.push_back(i && r.chance(1, 12) ? keys[r.below(i)] : r.chance(1, 8) ? r.pick<const char*>({ "resource", "status", "command", "message", "subscribeId", "id", "offset", "limit", "encoding" }) : word(r));
            values.push_back(i && r.chance(1, 12) ? values[r.below(i)] : r.chance(1, 20) ? keys.back() : r.chance(1, 2) ? number_text(r) : word(r));
        }
        for (u64 i = 0; i < n; ++i)
        {
            // exactly sized, not terminated views
            o.push_back({ view(keys[i]), view(values[i]) });
            m.push_back({ keys[i], json_integer(values[i]), values[i] });
        }
    }
    vector<std::unique_ptr<char[]>> store;
    std::string_view view(const string& s)
    {
        if (s.empty()) return {};
        store.emplace_back(new char[s.size()]);
        std::memcpy(store.back().get(), s.data(), s.size());
        return { store.back().get(), s.size() };
    }
};

static vector<Member> with(Member first, const vector<Member>& rest)
{
    vector<Member> r{ first };
    r.insert(r.end(), rest.begin(), rest.end());
    return r;
}

static void json(Rng& r)
{
    const string k = word(r), v = r.chance(1, 4) ? number_text(r) : word(r);
    const int    n = int(r.iw());
    Options      o(r);
    judge("make_rjson(key, string)", pe::make_rjson(k, std::string_view(v)), { { k, false, v } });
    judge("make_rjson(key, int)", pe::make_rjson(k, n), { { k, true, std::to_string(n) } });
    judge("make_rjson(key, string, options)", pe::make_rjson(k, std::string_view(v), o.o), with({ k, false, v }, o.m));
    judge("make_rjson(key, int, options)", pe::make_rjson(k, n, o.o), with({ k, true, std::to_string(n) }, o.m));
}

static void message_header(const char* what, const mc::message& m, u8 st, const vector<Member>& exp)
{
    op(what);
    auto v = midi::universal_sysex::message_view::make_optional<pe::property_data_message_view>(m);
    VH_TRUE("message-view", v.has_value() && v->subtype() == st, string(what) + " " + hexc(bytes_of(m)));
    judge(what, { reinterpret_cast<const char*>(v->header_begin()), size_t(v->header_end() - v->header_begin()) }, exp);
    VH_COUNT("message headers");
}

static void messages(Rng& r)
{
    const u32    src = muid(r), dst = muid(r);
    const string res = word(r), cmd = word(r), sub = r.chance(1, 3) ? number_text(r) : word(r), msg = r.chance(1, 6) ? number_text(r) : word(r);
    const int    st = r.chance(1, 2) ? int(r.iw()) : r.pick({ 200, 404, 500, 0, -1 });
    const u16    n = u16(1 + r.below(200));
    const auto   cb = r.bytes7(r.below(20));
    const pe::chunk ch(cb);
    Options      o(r);
    size_t       total = res.size() + cmd.size() + sub.size() + msg.size() + 100;
    for (auto& m : o.m) total += m.key.size() + m.text.size() + 8;
    if (total > 16383) return; // headers have a 14 bit size
    const Member mr{ "resource", false, res }, ms{ "status", true, std::to_string(st) }, mm{ "message", json_integer(msg), msg };
    const vector<Member> su{ mr, { "command", json_integer(cmd), cmd }, { "subscribeId", json_integer(sub), sub } };
    using sv = std::string_view;
    switch (r.below(13))
    {
    case 0: message_header("make_get_property_data_inquiry", mc::make_get_property_data_inquiry(src, dst, res), 0x34, { mr }); break;
    case 1: message_header("make_get_property_data_inquiry(options)", mc::make_get_property_data_inquiry(src, dst, res, o.o), 0x34, with(mr, o.m)); break;
    case 2: message_header("make_get_property_data_reply(status)", mc::make_get_property_data_reply(src, dst, st, n, 1, ch), 0x35, { ms }); break;
    case 3: message_header("make_get_property_data_reply(message)", mc::make_get_property_data_reply(src, dst, st, sv(msg), n, 1, ch), 0x35, { ms, mm }); break;
    case 4: message_header("make_set_property_data_inquiry", mc::make_set_property_data_inquiry(src, dst, sv(res), n, 1, ch), 0x36, { mr }); break;
    case 5: message_header("make_set_property_data_inquiry(options)", mc::make_set_property_data_inquiry(src, dst, sv(res), o.o, n, 1, ch), 0x36, with(mr, o.m)); break;
    case 6: message_header("make_set_property_data_reply", mc::make_set_property_data_reply(src, dst, st), 0x37, { ms }); break;
    case 7: message_header("make_set_property_data_reply(message)", mc::make_set_property_data_reply(src, dst, st, sv(msg)), 0x37, { ms, mm }); break;
    case 8: message_header("make_subscription_inquiry", mc::make_subscription_inquiry(src, dst, sv(res), sv(cmd), sv(sub)), 0x38, su); break;
    case 9: message_header("make_subscription_inquiry(chunk)", mc::make_subscription_inquiry(src, dst, sv(res), sv(cmd), sv(sub), n, 1, ch), 0x38, su); break;
    case 10: message_header("make_subscription_reply(message)", r.chance(1, 2) ? mc::make_subscription_reply(src, dst, st, sv(msg)) : mc::make_subscription_reply(src, dst, st, sv(msg), 3, 4), 0x39, { ms, mm }); break;
    case 11:
        if (r.chance(1, 2)) message_header("make_subscription_reply", mc::make_subscription_reply(src, dst, st), 0x39, { ms });
        else message_header("make_notify_message", mc::make_notify_message(src, dst, st), 0x3F, { ms });
        break;
    default: message_header("make_notify_message(message)", mc::make_notify_message(src, dst, st, sv(msg)), 0x3F, { ms, mm });
    }
}

void vh_main()
{
    section("headers", 20000, [](Rng& r, u64) { json(r); });
    section("messages", 20000, [](Rng& r, u64) { messages(r); });
    // every option value of up to three characters over the alphabet of numbers
    section("short values", 15 * 15 * 15 * 15, [](Rng&, u64 i) {
        string s;
        for (int k = 0; k < 4; ++k, i /= 15)
            if (auto c = i % 15) s += "0123459-+.eE x"[c - 1];
        judge("make_rjson(short value)", pe::make_rjson("k", std::string_view("v"), { { "o", s } }), { { "k", false, "v" }, { "o", json_integer(s), s } });
        judge("make_rjson(short value)", pe::make_rjson("k", 1, { { "o", s }, { s, "p" } }), { { "k", true, "1" }, { "o", json_integer(s), s }, { s, false, "p" } });
    }, false);
    section("status codes", 1200, [](Rng&, u64 i) {
        const int v = int(i) - 100;
        judge("make_rjson(status)", pe::make_rjson(pe::tags::status, v), { { "status", true, std::to_string(v) } });
    }, false);
    section("tags", 1, [](Rng&, u64) {
        using t = pe::tags;
        const std::pair<std::string_view, const char*> l[] = { { t::resource, "resource" }, { t::command, "command" }, { t::status, "status" }, { t::id, "id" }, { t::offset, "offset" },
            { t::limit, "limit" }, { t::encoding, "encoding" }, { t::message, "message" }, { t::subscribeId, "subscribeId" } };
        for (auto& [a, b] : l) VH_EQ("tag", string(a), string(b));
        const std::pair<std::string_view, const char*> n[] = { { pe::ResourceList, "ResourceList" }, { pe::DeviceInfo, "DeviceInfo" }, { pe::ChannelList, "ChannelList" }, { pe::JSONSchema, "JSONSchema" },
            { pe::ModeList, "ModeList" }, { pe::CurrentMode, "CurrentMode" }, { pe::ProgramList, "ProgramList" }, { pe::ClockMode, "ClockMode" }, { pe::LocalOn, "LocalOn" }, { pe::ChannelMode, "ChannelMode" },
            { pe::BasicChannelRx, "BasicChannelRx" }, { pe::BasicChannelTx, "BasicChannelTx" }, { pe::MaxSysex8Streams, "MaxSysex8Streams" }, { pe::StateList, "StateList" }, { pe::State, "State" },
            { pe::AllCtrlList, "AllCtrlList" }, { pe::ChCtrlList, "ChCtrlList" }, { pe::CtrlMapList, "CtrlMapList" } };
        for (auto& [a, b] : n) VH_EQ("resource-name", string(a), string(b));
    }, false);
}
