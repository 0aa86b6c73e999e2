// Reads every field of every MIDI-CI view and compares it with the raw bytes of the message.
#pragma once
#include "ci_ref.h"

#ifndef CI_VALUES_JUDGED
#define CI_VALUES_JUDGED true
#endif
namespace ci_ref {
namespace mc = midi::ci;

// values are only judged for 7 bit messages; extents always
struct Reader
{
    const midi::sysex7& sx;
    const Bytes&        d;
    u32                 mf;
    bool                clean; // all bytes 7 bit
    u64                 sink = 0;

    string c(int v) const { return string(view_name(v)) + " on " + show_ci(mf, d); }

    void num(int v, const char* f, u64 got, u64 exp)
    {
        sink += got;
        if (clean && got != exp)
            fail("field-value", "%s of %s = %llu (0x%llx), message carries %llu (0x%llx)", f, c(v).c_str(), (unsigned long long)got,
                 (unsigned long long)got, (unsigned long long)exp, (unsigned long long)exp);
    }
    //! [p, p+n) has to lie inside the message; reads all of it
    void range(int v, const char* f, const u8* p, size_t n, size_t pos, size_t exp_n)
    {
        const u8* b = sx.data.data();
        if (n && (p < b || n > d.size() || p > b + (d.size() - n)))
            fail("range-outside", "%s of %s: offset %lld, %zu bytes leaves the message", f, c(v).c_str(), (long long)(p - b), n);
        for (size_t i = 0; i < n; ++i) sink += p[i];
        if (clean)
        {
            if (n != exp_n) fail("range-size", "%s of %s has %zu bytes, message announces %zu", f, c(v).c_str(), n, exp_n);
            if (n && p != b + pos) fail("range-position", "%s of %s starts at %lld, expected %zu", f, c(v).c_str(), (long long)(p - b), pos);
        }
        VH_COUNT("ranges checked");
    }
    void profile(int v, const mc::profile_id& p, size_t pos)
    {
        const u8 g[5] = { p.byte1, p.byte2, p.byte3, p.byte4, p.byte5 };
        for (int i = 0; i < 5; ++i) num(v, "profile", g[i], d[pos + size_t(i)]);
    }
    void profiles(int v, const char* f, const vector<mc::profile_id>& l, size_t pos)
    {
        num(v, f, l.size(), get14(d, pos));
        for (size_t i = 0; i < l.size(); ++i)
        {
            if (clean) profile(v, l[i], pos + 2 + 5 * i);
            sink += l[i].byte5;
        }
    }
    template<typename V> void base(int v, const V& w)
    {
        num(v, "device_id", w.device_id(), d[0]);
        num(v, "type", w.type(), 0x7E00u | d[1]);
        num(v, "subtype", w.subtype(), d[2]);
        num(v, "message_version", w.message_version(), d[3]);
        num(v, "source_muid", w.source_muid(), get28(d, 4));
        num(v, "destination_muid", w.destination_muid(), get28(d, 8));
        if (&w.sx != &sx) fail("view-source", "view does not refer to the message: %s", c(v).c_str());
    }
    void discovery(int v, const mc::discovery::message_view& w)
    {
        base(v, w);
        const auto i = w.identity();
        num(v, "identity.manufacturer", i.manufacturer, u32(d[12]) << 16 | u32(d[13]) << 8 | d[14]);
        num(v, "identity.family", i.family, get14(d, 15));
        num(v, "identity.model", i.model, get14(d, 17));
        num(v, "identity.revision", i.revision, get28(d, 19));
        num(v, "categories", w.categories(), d[23]);
        num(v, "maximum_message_size", w.maximum_message_size(), get28(d, 24));
        num(v, "output_path_id", w.output_path_id(), d[3] >= 2 ? d[28] : 0);
    }
    void nack(int v, const mc::nack::view& w)
    {
        base(v, w);
        num(v, "transaction", w.transaction(), d[12]);
        num(v, "status_code", w.status_code(), d[13]);
        num(v, "status_data", w.status_data(), d[14]);
        range(v, "details", w.details(), 5, 15, 5);
        num(v, "message_length", w.message_length(), get14(d, 20));
        range(v, "message_data", w.message_data(), w.message_length(), 22, get14(d, 20));
        const auto m = w.message();
        range(v, "message", reinterpret_cast<const u8*>(m.data()), m.size(), 22, get14(d, 20));
    }
    void pe(int v, const mc::property_exchange::property_data_message_view& w)
    {
        base(v, w);
        const size_t h = get14(d, 13);
        num(v, "request_id", w.request_id(), d[12]);
        num(v, "header_size", w.header_size(), h);
        range(v, "header", w.header_begin(), size_t(w.header_end() - w.header_begin()), 15, h);
        const size_t hh = clean ? h : w.header_size();
        num(v, "number_of_chunks", w.number_of_chunks(), clean ? get14(d, 15 + hh) : 0);
        num(v, "number_of_this_chunk", w.number_of_this_chunk(), clean ? get14(d, 17 + hh) : 0);
        num(v, "chunk_size", w.chunk_size(), clean ? get14(d, 19 + hh) : 0);
        range(v, "chunk", w.chunk_begin(), size_t(w.chunk_end() - w.chunk_begin()), 21 + hh, clean ? get14(d, 19 + hh) : 0);
    }

    void read(int v, const midi::capability_inquiry_view& w) { base(v, w); }
    void read(int v, const mc::discovery_inquiry_view& w) { discovery(v, w); }
    void read(int v, const mc::discovery_reply_view& w)
    {
        discovery(v, w);
        num(v, "function_block", w.function_block(), d[3] >= 2 ? d[29] : 0x7F);
    }
    void read(int v, const mc::endpoint_information_inquiry_view& w)
    {
        base(v, w);
        num(v, "status", w.status(), d[12]);
    }
    void read(int v, const mc::endpoint_information_reply_view& w)
    {
        base(v, w);
        num(v, "status", w.status(), d[12]);
        num(v, "information_data_length", w.information_data_length(), get14(d, 13));
        range(v, "information_data", w.information_data(), w.information_data_length(), 15, get14(d, 13));
    }
    void read(int v, const mc::ack_view& w) { nack(v, w); }
    void read(int v, const mc::nak_view& w) { nack(v, w); }
    void read(int v, const mc::invalidate_muid_view& w)
    {
        base(v, w);
        num(v, "target_muid", w.target_muid(), get28(d, 12));
    }
    void read(int v, const mc::profile_inquiry_view& w) { base(v, w); }
    void read(int v, const mc::profile_inquiry_reply_view& w)
    {
        base(v, w);
        const size_t e = clean ? 14 + size_t(get14(d, 12)) * 5 : 0;
        num(v, "num_enabled_profiles", w.num_enabled_profiles(), get14(d, 12));
        num(v, "has_enabled_profiles", w.has_enabled_profiles(), get14(d, 12) != 0);
        num(v, "num_disabled_profiles", w.num_disabled_profiles(), clean ? get14(d, e) : 0);
        num(v, "has_disabled_profiles", w.has_disabled_profiles(), clean && get14(d, e) != 0);
        if (clean)
        {
            profiles(v, "enabled_profiles", w.enabled_profiles(), 12);
            profiles(v, "disabled_profiles", w.disabled_profiles(), e);
        }
        else
        {
            for (auto& p : w.enabled_profiles()) sink += p.byte1;
            for (auto& p : w.disabled_profiles()) sink += p.byte1;
        }
    }
    void read(int v, const mc::profile_id_view& w)
    {
        base(v, w);
        profile(v, w.profile(), 12);
    }
    void read(int v, const mc::profile_destination_view& w)
    {
        base(v, w);
        profile(v, w.profile(), 12);
        num(v, "num_channels", w.num_channels(), get14(d, 17));
        num(v, "params.scope", w.params().scope, d[0]);
        num(v, "params.num_channels", w.params().num_channels, get14(d, 17));
    }
    void read(int v, const mc::profile_details_inquiry_view& w)
    {
        base(v, w);
        profile(v, w.profile(), 12);
        num(v, "target", w.target(), d[17]);
    }
    void read(int v, const mc::profile_details_reply_view& w)
    {
        base(v, w);
        profile(v, w.profile(), 12);
        num(v, "target", w.target(), d[17]);
        num(v, "target_data_length", w.target_data_length(), get14(d, 18));
        range(v, "target_data", w.target_data(), w.target_data_length(), 20, get14(d, 18));
    }
    void read(int v, const mc::profile_specific_data_view& w)
    {
        base(v, w);
        profile(v, w.profile(), 12);
        num(v, "data_size", w.data_size(), get28(d, 17));
        range(v, "data", w.data_begin(), size_t(w.data_end() - w.data_begin()), 21, get28(d, 17));
    }
    void read(int v, const mc::property_exchange_capabilities_view& w)
    {
        base(v, w);
        num(v, "maximum_number_of_requests", w.maximum_number_of_requests(), d[12]);
        num(v, "pe_version_major", w.pe_version_major(), d[3] >= 2 ? d[13] : 0);
        num(v, "pe_version_minor", w.pe_version_minor(), d[3] >= 2 ? d[14] : 0);
    }
    void read(int v, const mc::property_exchange::property_data_message_view& w) { pe(v, w); }
    void read(int v, const mc::process_inquiry_capabilities_reply_view& w)
    {
        base(v, w);
        num(v, "supported_features", w.supported_features(), d[12]);
    }
    void read(int v, const mc::midi_message_report_inquiry_view& w)
    {
        base(v, w);
        num(v, "message_data_control", w.message_data_control(), d[12]);
        num(v, "system_message_types", w.system_message_types(), d[13]);
        num(v, "channel_controller_message_types", w.channel_controller_message_types(), d[15]);
        num(v, "note_data_message_types", w.note_data_message_types(), d[16]);
    }
    void read(int v, const mc::midi_message_report_reply_view& w)
    {
        base(v, w);
        num(v, "system_message_types", w.system_message_types(), d[12]);
        num(v, "channel_controller_message_types", w.channel_controller_message_types(), d[14]);
        num(v, "note_data_message_types", w.note_data_message_types(), d[15]);
    }
};

//! one view kind: all ways to obtain it agree with each other and with the rules; every field is read
template<typename V> bool probe(int v, const midi::sysex7& sx, const Bytes& d, u32 mf, bool judge_acceptance = true)
{
    op(view_name(v));
    const bool got = V::validate(sx);
    bool       exp;
    const bool jd = judged(v, mf, d, exp);
    if (judge_acceptance && jd && got != exp)
        fail(got ? "view-wrongly-offered" : "view-wrongly-refused", "%s is %soffered for %s", view_name(v), got ? "" : "not ", show_ci(mf, d).c_str());
    auto a = mc::as<V>(sx);
    auto o = midi::universal_sysex::message_view::make_optional<V>(sx);
    if (a.has_value() != got || o.has_value() != got)
        fail("view-forms-disagree", "%s: validate %d as %d make_optional %d for %s", view_name(v), got, a.has_value(), o.has_value(), show_ci(mf, d).c_str());
    if ((mf == 0x7E0000 || mf == 0x7F0000) && d.size() >= 2)
    {
        midi::universal_sysex::message_view mv(sx);
        auto                                x = mv.as<V>();
        if (x.has_value() != got) fail("view-forms-disagree", "%s: message_view::as %d, validate %d for %s", view_name(v), x.has_value(), got, show_ci(mf, d).c_str());
    }
    if (auto ci = midi::as_capability_inquiry_view(sx))
    {
        auto x = mc::as<V>(*ci);
        if (x.has_value() != got) fail("view-forms-disagree", "%s: as(capability_inquiry_view) %d, validate %d for %s", view_name(v), x.has_value(), got, show_ci(mf, d).c_str());
    }
    VH_COUNT("acceptance decisions");
    if (got)
    {
        VH_COUNT("views read");
        Reader rd{ sx, d, mf, CI_VALUES_JUDGED };
        for (u8 b : d) rd.clean = rd.clean && !(b & 0x80);
        rd.read(v, *a);
        static VH_TLS volatile u64 keep;
        keep = rd.sink;
    }
    return got;
}
//! all view kinds; returns number of views offered
inline unsigned probe_all(const midi::sysex7& sx, const Bytes& d, u32 mf, bool judge_acceptance = true)
{
    namespace pe = mc::property_exchange;
    unsigned n = 0;
    n += probe<midi::capability_inquiry_view>(v_ci, sx, d, mf, judge_acceptance);
    VH_EQ("ci-forms-disagree", midi::is_capability_inquiry_message(sx), midi::capability_inquiry_view::validate(sx), show_ci(mf, d));
    n += probe<mc::discovery_inquiry_view>(v_disc_inq, sx, d, mf, judge_acceptance);
    n += probe<mc::discovery_reply_view>(v_disc_rep, sx, d, mf, judge_acceptance);
    n += probe<mc::endpoint_information_inquiry_view>(v_ep_inq, sx, d, mf, judge_acceptance);
    n += probe<mc::endpoint_information_reply_view>(v_ep_rep, sx, d, mf, judge_acceptance);
    n += probe<mc::ack_view>(v_ack, sx, d, mf, judge_acceptance);
    n += probe<mc::nak_view>(v_nak, sx, d, mf, judge_acceptance);
    n += probe<mc::invalidate_muid_view>(v_invalidate, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_inquiry_view>(v_prof_inq, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_inquiry_reply_view>(v_prof_inq_rep, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_id_view>(v_prof_id, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_destination_view>(v_prof_dest, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_details_inquiry_view>(v_details_inq, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_details_reply_view>(v_details_rep, sx, d, mf, judge_acceptance);
    n += probe<mc::profile_specific_data_view>(v_specific, sx, d, mf, judge_acceptance);
    n += probe<mc::property_exchange_capabilities_view>(v_pe_caps, sx, d, mf, judge_acceptance);
    n += probe<pe::property_data_message_view>(v_pe_any, sx, d, mf, judge_acceptance);
    n += probe<mc::get_property_data_view>(v_pe_get, sx, d, mf, judge_acceptance);
    n += probe<mc::set_property_data_view>(v_pe_set, sx, d, mf, judge_acceptance);
    n += probe<mc::subscription_view>(v_pe_sub, sx, d, mf, judge_acceptance);
    n += probe<mc::notify_view>(v_pe_notify, sx, d, mf, judge_acceptance);
    n += probe<mc::process_inquiry_capabilities_reply_view>(v_proc_rep, sx, d, mf, judge_acceptance);
    n += probe<mc::midi_message_report_inquiry_view>(v_report_inq, sx, d, mf, judge_acceptance);
    n += probe<mc::midi_message_report_reply_view>(v_report_rep, sx, d, mf, judge_acceptance);
    return n;
}
} // namespace ci_ref
