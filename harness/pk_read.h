// Applies every recogniser to a packet and reads every field of every view and getter it offers.
#pragma once
#include "ref.h"

#include <midi/channel_voice_message.h>
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/flex_data_message.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi1_byte_stream.h>
#include <midi/stream_message.h>
#include <midi/system_message.h>
#include <midi/utility_message.h>

namespace pk_read {
using namespace ref;
namespace m = midi;

struct Sink
{
    u64      h = 0;
    unsigned offered = 0;
    void     n(u64 v) { h = mix(h ^ v); }
    void     s(const string& t)
    {
        h = hash_bytes(t.data(), t.size(), h);
        if (t.size() > 14) fail("text-longer-than-packet", "%zu characters", t.size());
    }
};

//! u lies in a heap block of exactly its size
inline void read_packet(const m::universal_packet& u, Sink& k)
{
    op("packet");
    k.n(u64(u.type())); k.n(u.group()); k.n(u.status()); if (u.has_channel()) k.n(u.channel()); k.n(u.byte2()); k.n(u.byte3()); k.n(u.byte4()); k.n(u.size());
    for (unsigned i = 0; i < 16; ++i) { k.n(u.get_byte(i)); k.n(u.get_byte_7bit(i)); }
    k.n(u.is_utility_message()); k.n(u.is_system_message()); k.n(u.is_channel_voice_message()); k.n(u.is_data_message()); k.n(u.has_channel());
    k.n(u.is_midi1_protocol_message());
    k.n(u == u);

    op("sysex7 view");
    if (auto v = m::as_sysex7_packet_view(u))
    {
        ++k.offered;
        k.n(v->group()); k.n(v->status()); k.n(u64(v->format()));
        const size_t n = v->payload_size();
        if (n > 6) fail("sysex7-payload-size", "%zu bytes in %s", n, show_pk(raw(u)).c_str());
        for (size_t i = 0; i < n; ++i) k.n(v->payload_byte(i));
    }
    op("sysex8 view");
    if (auto v = m::as_sysex8_packet_view(u))
    {
        ++k.offered;
        k.n(v->group()); k.n(u64(v->format())); k.n(v->stream_id());
        const size_t n = v->payload_size();
        if (n > 13) fail("sysex8-payload-size", "%zu bytes in %s", n, show_pk(raw(u)).c_str());
        for (size_t i = 0; i < n; ++i) k.n(v->payload_byte(i));
    }
    k.n(m::is_data_message(u)); k.n(m::is_extended_data_message(u)); k.n(m::is_sysex7_packet(u)); k.n(m::is_sysex8_packet(u));

    op("system view");
    if (auto v = m::as_system_message_view(u))
    {
        ++k.offered;
        k.n(v->group()); k.n(v->status()); k.n(v->data_byte_1()); k.n(v->data_byte_2()); k.n(v->get_song_position());
    }
    op("utility view");
    if (u.is_utility_message())
    {
        ++k.offered;
        m::utility_message_view v(u);
        k.n(v.status()); k.n(v.payload());
    }
    op("midi1 view");
    if (auto v = m::as_midi1_channel_voice_message_view(u))
    {
        ++k.offered;
        k.n(v->group()); k.n(v->status()); k.n(v->channel()); k.n(v->data_byte_1()); k.n(v->data_byte_2()); k.n(v->get_14bit_value());
        op("as_midi2_channel_voice_message");
        if (auto t = m::as_midi2_channel_voice_message(*v)) { k.n(t->data[0]); k.n(t->data[1]); }
    }
    op("midi2 view");
    if (auto v = m::as_midi2_channel_voice_message_view(u))
    {
        ++k.offered;
        k.n(v->group()); k.n(v->status()); k.n(v->channel()); k.n(v->byte3()); k.n(v->byte4()); k.n(v->data());
        op("as_midi1_channel_voice_message");
        if (auto t = m::as_midi1_channel_voice_message(*v)) k.n(t->data[0]);
    }
    op("channel voice getters");
    if (m::is_note_on_message(u) || m::is_note_off_message(u))
    {
        ++k.offered;
        k.n(m::get_note_nr(u)); k.n(m::get_note_pitch(u).value); k.n(m::get_note_velocity(u).value);
        if (m::is_midi2_channel_voice_message(u)) { k.n(m::get_midi2_note_attribute(u)); k.n(m::get_midi2_note_attribute_data(u)); }
    }
    k.n(m::is_note_on_with_pitch_7_9(u)); k.n(m::is_note_on_with_attribute(u, 3)); k.n(m::is_note_off_with_attribute(u, 3));
    if (m::is_poly_pressure_message(u)) { ++k.offered; k.n(m::get_note_nr(u)); k.n(m::get_poly_pressure_value(u).value); }
    if (m::is_control_change_message(u)) { ++k.offered; k.n(m::get_controller_nr(u)); k.n(m::get_controller_value(u).value); }
    if (m::is_program_change_message(u)) { ++k.offered; k.n(m::get_program_value(u)); }
    if (m::is_channel_pressure_message(u)) { ++k.offered; k.n(m::get_channel_pressure_value(u).value); }
    if (m::is_channel_pitch_bend_message(u)) { ++k.offered; k.n(m::get_channel_pitch_bend_value(u).value); }
    if (m::is_registered_controller_message(u) || m::is_assignable_controller_message(u)) { ++k.offered; k.n(m::get_controller_value(u).value); }
    if (m::is_registered_per_note_controller_message(u) || m::is_assignable_per_note_controller_message(u))
    {
        ++k.offered;
        k.n(m::get_note_nr(u)); k.n(m::get_per_note_controller_index(u)); k.n(m::get_controller_value(u).value);
    }
    k.n(m::is_registered_per_note_controller_pitch_message(u));
    if (m::is_per_note_pitch_bend_message(u)) { ++k.offered; k.n(m::get_note_nr(u)); k.n(m::get_per_note_pitch_bend_value(u).value); }
    if (m::is_pitch_bend_sensitivity_message(u)) { ++k.offered; k.n(m::get_pitch_bend_sensitivity_value(u).value); }
    if (m::is_per_note_pitch_bend_sensitivity_message(u)) { ++k.offered; k.n(m::get_per_note_pitch_bend_sensitivity_value(u).value); }

    op("flex view");
    if (auto v = m::as_flex_data_message_view(u))
    {
        ++k.offered;
        k.n(v->group()); k.n(u64(v->format())); k.n(u64(v->address())); k.n(v->channel()); k.n(v->status_bank()); k.n(v->status());
        k.n(v->data1()); k.n(v->data2()); k.n(v->data3());
        k.s(v->payload_as_string());
    }
    op("stream views");
    if (m::is_stream_message(u)) ++k.offered;
    if (auto v = m::as_endpoint_discovery_view(u))
    {
        k.n(v->ump_version_major()); k.n(v->ump_version_minor()); k.n(v->ump_version()); k.n(v->filter());
        k.n(v->requests_info()); k.n(v->requests_device_identity()); k.n(v->requests_name()); k.n(v->requests_product_instance_id()); k.n(v->requests_stream_configuration());
    }
    if (auto v = m::as_endpoint_info_view(u))
    {
        k.n(v->ump_version_major()); k.n(v->ump_version_minor()); k.n(v->ump_version()); k.n(v->num_function_blocks()); k.n(v->static_function_blocks());
        k.n(v->protocols()); k.n(v->extensions());
    }
    if (auto v = m::as_device_identity_view(u))
    {
        const auto i = v->identity();
        k.n(i.manufacturer); k.n(i.family); k.n(i.model); k.n(i.revision);
    }
    if (auto v = m::as_endpoint_name_view(u)) { k.n(u64(v->format())); k.s(v->payload()); }
    if (auto v = m::as_product_instance_id_view(u)) { k.n(u64(v->format())); k.s(v->payload()); }
    if (auto v = m::as_stream_configuration_view(u)) { k.n(v->protocol()); k.n(v->extensions()); }
    if (auto v = m::as_function_block_discovery_view(u))
    {
        k.n(v->function_block()); k.n(v->filter()); k.n(v->requests_info()); k.n(v->requests_name());
        for (unsigned b : { 0u, 5u, 31u, 127u, 255u }) k.n(v->requests_function_block(u8(b)));
    }
    if (auto v = m::as_function_block_info_view(u))
    {
        k.n(v->active()); k.n(v->function_block()); k.n(v->direction()); k.n(v->midi1()); k.n(v->ui_hint()); k.n(v->first_group()); k.n(v->num_groups_spanned());
        k.n(v->ci_message_version()); k.n(v->max_num_sysex8_streams());
    }
    if (auto v = m::as_function_block_name_view(u)) { k.n(u64(v->format())); k.n(v->function_block()); k.s(v->payload()); }
}
} // namespace pk_read
