// the names the library offers and the numbers the MIDI specifications assign to them
#pragma once
#include "vh.h"
#include <midi/capability_inquiry.h>
#include <midi/jitter_reduction_timestamps.h>
#include <midi/midi2_channel_voice_message.h>
#include <midi/stream_message.h>

namespace names {
using vh::u32;
struct Name
{
    const char* name;
    u32         value, expected;
};
inline const Name all[] = {
    { "utility_status::noop", u32(midi::utility_status::noop), 0x0 },
    { "utility_status::jr_clock", u32(midi::utility_status::jr_clock), 0x10 },
    { "utility_status::jr_timestamp", u32(midi::utility_status::jr_timestamp), 0x20 },
    { "system_status::mtc_quarter_frame", u32(midi::system_status::mtc_quarter_frame), 0xF1 },
    { "system_status::song_position", u32(midi::system_status::song_position), 0xF2 },
    { "system_status::song_select", u32(midi::system_status::song_select), 0xF3 },
    { "system_status::tune_request", u32(midi::system_status::tune_request), 0xF6 },
    { "system_status::clock", u32(midi::system_status::clock), 0xF8 },
    { "system_status::start", u32(midi::system_status::start), 0xFA },
    { "system_status::cont", u32(midi::system_status::cont), 0xFB },
    { "system_status::stop", u32(midi::system_status::stop), 0xFC },
    { "system_status::active_sense", u32(midi::system_status::active_sense), 0xFE },
    { "system_status::reset", u32(midi::system_status::reset), 0xFF },
    { "midi1_channel_voice_status::note_off", u32(midi::midi1_channel_voice_status::note_off), 0x80 },
    { "midi1_channel_voice_status::note_on", u32(midi::midi1_channel_voice_status::note_on), 0x90 },
    { "midi1_channel_voice_status::poly_pressure", u32(midi::midi1_channel_voice_status::poly_pressure), 0xA0 },
    { "midi1_channel_voice_status::control_change", u32(midi::midi1_channel_voice_status::control_change), 0xB0 },
    { "midi1_channel_voice_status::program_change", u32(midi::midi1_channel_voice_status::program_change), 0xC0 },
    { "midi1_channel_voice_status::channel_pressure", u32(midi::midi1_channel_voice_status::channel_pressure), 0xD0 },
    { "midi1_channel_voice_status::pitch_bend", u32(midi::midi1_channel_voice_status::pitch_bend), 0xE0 },
    { "data_status::sysex7_complete", u32(midi::data_status::sysex7_complete), 0x0 },
    { "data_status::sysex7_start", u32(midi::data_status::sysex7_start), 0x10 },
    { "data_status::sysex7_continue", u32(midi::data_status::sysex7_continue), 0x20 },
    { "data_status::sysex7_end", u32(midi::data_status::sysex7_end), 0x30 },
    { "channel_voice_status::registered_per_note_controller", u32(midi::channel_voice_status::registered_per_note_controller), 0x0 },
    { "channel_voice_status::assignable_per_note_controller", u32(midi::channel_voice_status::assignable_per_note_controller), 0x10 },
    { "channel_voice_status::registered_controller", u32(midi::channel_voice_status::registered_controller), 0x20 },
    { "channel_voice_status::assignable_controller", u32(midi::channel_voice_status::assignable_controller), 0x30 },
    { "channel_voice_status::relative_registered_controller", u32(midi::channel_voice_status::relative_registered_controller), 0x40 },
    { "channel_voice_status::relative_assignable_controller", u32(midi::channel_voice_status::relative_assignable_controller), 0x50 },
    { "channel_voice_status::per_note_pitch_bend", u32(midi::channel_voice_status::per_note_pitch_bend), 0x60 },
    { "channel_voice_status::note_off", u32(midi::channel_voice_status::note_off), 0x80 },
    { "channel_voice_status::note_on", u32(midi::channel_voice_status::note_on), 0x90 },
    { "channel_voice_status::poly_pressure", u32(midi::channel_voice_status::poly_pressure), 0xA0 },
    { "channel_voice_status::control_change", u32(midi::channel_voice_status::control_change), 0xB0 },
    { "channel_voice_status::program_change", u32(midi::channel_voice_status::program_change), 0xC0 },
    { "channel_voice_status::channel_pressure", u32(midi::channel_voice_status::channel_pressure), 0xD0 },
    { "channel_voice_status::pitch_bend", u32(midi::channel_voice_status::pitch_bend), 0xE0 },
    { "channel_voice_status::per_note_management", u32(midi::channel_voice_status::per_note_management), 0xF0 },
    { "extended_data_status::sysex8_complete", u32(midi::extended_data_status::sysex8_complete), 0x0 },
    { "extended_data_status::sysex8_start", u32(midi::extended_data_status::sysex8_start), 0x10 },
    { "extended_data_status::sysex8_continue", u32(midi::extended_data_status::sysex8_continue), 0x20 },
    { "extended_data_status::sysex8_end", u32(midi::extended_data_status::sysex8_end), 0x30 },
    { "extended_data_status::mixed_data_set_header", u32(midi::extended_data_status::mixed_data_set_header), 0x80 },
    { "extended_data_status::mixed_data_set_payload", u32(midi::extended_data_status::mixed_data_set_payload), 0x90 },
    { "protocol::midi1", u32(midi::protocol::midi1), 0x1 },
    { "protocol::midi2", u32(midi::protocol::midi2), 0x2 },
    { "extensions::jitter_reduction_transmit", u32(midi::extensions::jitter_reduction_transmit), 0x1 },
    { "extensions::jitter_reduction_receive", u32(midi::extensions::jitter_reduction_receive), 0x2 },
    { "stream_status::endpoint_discovery", u32(midi::stream_status::endpoint_discovery), 0x0 },
    { "stream_status::endpoint_info", u32(midi::stream_status::endpoint_info), 0x1 },
    { "stream_status::device_identity", u32(midi::stream_status::device_identity), 0x2 },
    { "stream_status::endpoint_name", u32(midi::stream_status::endpoint_name), 0x3 },
    { "stream_status::product_instance_id", u32(midi::stream_status::product_instance_id), 0x4 },
    { "stream_status::stream_configuration_request", u32(midi::stream_status::stream_configuration_request), 0x5 },
    { "stream_status::stream_configuration_notify", u32(midi::stream_status::stream_configuration_notify), 0x6 },
    { "stream_status::function_block_discovery", u32(midi::stream_status::function_block_discovery), 0x10 },
    { "stream_status::function_block_info", u32(midi::stream_status::function_block_info), 0x11 },
    { "stream_status::function_block_name", u32(midi::stream_status::function_block_name), 0x12 },
    { "control_change::bank_select_msb", u32(midi::control_change::bank_select_msb), 0x0 },
    { "control_change::modulation_wheel", u32(midi::control_change::modulation_wheel), 0x1 },
    { "control_change::breath_controller", u32(midi::control_change::breath_controller), 0x2 },
    { "control_change::foot_controller", u32(midi::control_change::foot_controller), 0x4 },
    { "control_change::portamento_time", u32(midi::control_change::portamento_time), 0x5 },
    { "control_change::data_entry_msb", u32(midi::control_change::data_entry_msb), 0x6 },
    { "control_change::volume", u32(midi::control_change::volume), 0x7 },
    { "control_change::balance", u32(midi::control_change::balance), 0x8 },
    { "control_change::pan", u32(midi::control_change::pan), 0xA },
    { "control_change::expression_controller", u32(midi::control_change::expression_controller), 0xB },
    { "control_change::effect_control_1", u32(midi::control_change::effect_control_1), 0xC },
    { "control_change::effect_control_2", u32(midi::control_change::effect_control_2), 0xD },
    { "control_change::general_purpose_1", u32(midi::control_change::general_purpose_1), 0x10 },
    { "control_change::general_purpose_2", u32(midi::control_change::general_purpose_2), 0x11 },
    { "control_change::general_purpose_3", u32(midi::control_change::general_purpose_3), 0x12 },
    { "control_change::general_purpose_4", u32(midi::control_change::general_purpose_4), 0x13 },
    { "control_change::bank_select", u32(midi::control_change::bank_select), 0x20 },
    { "control_change::bank_select_lsb", u32(midi::control_change::bank_select_lsb), 0x20 },
    { "control_change::lsb", u32(midi::control_change::lsb), 0x20 },
    { "control_change::data_entry_lsb", u32(midi::control_change::data_entry_lsb), 0x26 },
    { "control_change::damper_pedal", u32(midi::control_change::damper_pedal), 0x40 },
    { "control_change::sustain", u32(midi::control_change::sustain), 0x40 },
    { "control_change::portamento_on_off", u32(midi::control_change::portamento_on_off), 0x41 },
    { "control_change::sustenuto", u32(midi::control_change::sustenuto), 0x42 },
    { "control_change::soft_pedal", u32(midi::control_change::soft_pedal), 0x43 },
    { "control_change::legato_footswitch", u32(midi::control_change::legato_footswitch), 0x44 },
    { "control_change::hold_2", u32(midi::control_change::hold_2), 0x45 },
    { "control_change::sound_controller_1", u32(midi::control_change::sound_controller_1), 0x46 },
    { "control_change::sound_variation", u32(midi::control_change::sound_variation), 0x46 },
    { "control_change::sound_controller_2", u32(midi::control_change::sound_controller_2), 0x47 },
    { "control_change::timbre", u32(midi::control_change::timbre), 0x47 },
    { "control_change::harmonic_intensity", u32(midi::control_change::harmonic_intensity), 0x47 },
    { "control_change::sound_controller_3", u32(midi::control_change::sound_controller_3), 0x48 },
    { "control_change::release_time", u32(midi::control_change::release_time), 0x48 },
    { "control_change::sound_controller_4", u32(midi::control_change::sound_controller_4), 0x49 },
    { "control_change::attack_time", u32(midi::control_change::attack_time), 0x49 },
    { "control_change::sound_controller_5", u32(midi::control_change::sound_controller_5), 0x4A },
    { "control_change::brightness", u32(midi::control_change::brightness), 0x4A },
    { "control_change::sound_controller_6", u32(midi::control_change::sound_controller_6), 0x4B },
    { "control_change::decay_time", u32(midi::control_change::decay_time), 0x4B },
    { "control_change::sound_controller_7", u32(midi::control_change::sound_controller_7), 0x4C },
    { "control_change::vibrato_rate", u32(midi::control_change::vibrato_rate), 0x4C },
    { "control_change::sound_controller_8", u32(midi::control_change::sound_controller_8), 0x4D },
    { "control_change::vibrato_depth", u32(midi::control_change::vibrato_depth), 0x4D },
    { "control_change::sound_controller_9", u32(midi::control_change::sound_controller_9), 0x4E },
    { "control_change::vibrato_delay", u32(midi::control_change::vibrato_delay), 0x4E },
    { "control_change::sound_controller_10", u32(midi::control_change::sound_controller_10), 0x4F },
    { "control_change::general_purpose_5", u32(midi::control_change::general_purpose_5), 0x50 },
    { "control_change::general_purpose_6", u32(midi::control_change::general_purpose_6), 0x51 },
    { "control_change::general_purpose_7", u32(midi::control_change::general_purpose_7), 0x52 },
    { "control_change::general_purpose_8", u32(midi::control_change::general_purpose_8), 0x53 },
    { "control_change::portamento_control", u32(midi::control_change::portamento_control), 0x54 },
    { "control_change::hi_res_velocity_prefix", u32(midi::control_change::hi_res_velocity_prefix), 0x58 },
    { "control_change::effects_1_depth", u32(midi::control_change::effects_1_depth), 0x5B },
    { "control_change::reverb_send_level", u32(midi::control_change::reverb_send_level), 0x5B },
    { "control_change::effects_2_depth", u32(midi::control_change::effects_2_depth), 0x5C },
    { "control_change::effects_3_depth", u32(midi::control_change::effects_3_depth), 0x5D },
    { "control_change::chorus_send_level", u32(midi::control_change::chorus_send_level), 0x5D },
    { "control_change::effects_4_depth", u32(midi::control_change::effects_4_depth), 0x5E },
    { "control_change::effects_5_depth", u32(midi::control_change::effects_5_depth), 0x5F },
    { "control_change::data_increment", u32(midi::control_change::data_increment), 0x60 },
    { "control_change::data_decrement", u32(midi::control_change::data_decrement), 0x61 },
    { "control_change::nrpn_lsb", u32(midi::control_change::nrpn_lsb), 0x62 },
    { "control_change::nrpn_msb", u32(midi::control_change::nrpn_msb), 0x63 },
    { "control_change::rpn_lsb", u32(midi::control_change::rpn_lsb), 0x64 },
    { "control_change::rpn_msb", u32(midi::control_change::rpn_msb), 0x65 },
    { "control_change::all_sound_off", u32(midi::control_change::all_sound_off), 0x78 },
    { "control_change::reset_all_controllers", u32(midi::control_change::reset_all_controllers), 0x79 },
    { "control_change::local_control", u32(midi::control_change::local_control), 0x7A },
    { "control_change::all_notes_off", u32(midi::control_change::all_notes_off), 0x7B },
    { "control_change::omni_mode_off", u32(midi::control_change::omni_mode_off), 0x7C },
    { "control_change::omni_mode_on", u32(midi::control_change::omni_mode_on), 0x7D },
    { "control_change::mono_mode_on", u32(midi::control_change::mono_mode_on), 0x7E },
    { "control_change::poly_mode_off", u32(midi::control_change::poly_mode_off), 0x7F },
    { "control_change::mono_mode_off", u32(midi::control_change::mono_mode_off), 0x7F },
    { "control_change::poly_mode_on", u32(midi::control_change::poly_mode_on), 0x7F },
    { "registered_parameter_number::pitch_bend_sensitivity", u32(midi::registered_parameter_number::pitch_bend_sensitivity), 0x0 },
    { "registered_parameter_number::fine_tuning", u32(midi::registered_parameter_number::fine_tuning), 0x1 },
    { "registered_parameter_number::coarse_tuning", u32(midi::registered_parameter_number::coarse_tuning), 0x2 },
    { "registered_parameter_number::tuning_program_select", u32(midi::registered_parameter_number::tuning_program_select), 0x3 },
    { "registered_parameter_number::tuning_bank_select", u32(midi::registered_parameter_number::tuning_bank_select), 0x4 },
    { "registered_parameter_number::per_note_pitch_bend_sensitivity", u32(midi::registered_parameter_number::per_note_pitch_bend_sensitivity), 0x7 },
    { "registered_per_note_controller::modulation", u32(midi::registered_per_note_controller::modulation), 0x1 },
    { "registered_per_note_controller::breath", u32(midi::registered_per_note_controller::breath), 0x2 },
    { "registered_per_note_controller::pitch_7_25", u32(midi::registered_per_note_controller::pitch_7_25), 0x3 },
    { "registered_per_note_controller::volume", u32(midi::registered_per_note_controller::volume), 0x7 },
    { "registered_per_note_controller::balance", u32(midi::registered_per_note_controller::balance), 0x8 },
    { "registered_per_note_controller::pan", u32(midi::registered_per_note_controller::pan), 0xA },
    { "registered_per_note_controller::expression", u32(midi::registered_per_note_controller::expression), 0xB },
    { "registered_per_note_controller::sound_controller_1", u32(midi::registered_per_note_controller::sound_controller_1), 0x46 },
    { "registered_per_note_controller::sound_variation", u32(midi::registered_per_note_controller::sound_variation), 0x46 },
    { "registered_per_note_controller::sound_controller_2", u32(midi::registered_per_note_controller::sound_controller_2), 0x47 },
    { "registered_per_note_controller::timbre", u32(midi::registered_per_note_controller::timbre), 0x47 },
    { "registered_per_note_controller::harmonic_intensity", u32(midi::registered_per_note_controller::harmonic_intensity), 0x47 },
    { "registered_per_note_controller::sound_controller_3", u32(midi::registered_per_note_controller::sound_controller_3), 0x48 },
    { "registered_per_note_controller::release_time", u32(midi::registered_per_note_controller::release_time), 0x48 },
    { "registered_per_note_controller::sound_controller_4", u32(midi::registered_per_note_controller::sound_controller_4), 0x49 },
    { "registered_per_note_controller::attack_time", u32(midi::registered_per_note_controller::attack_time), 0x49 },
    { "registered_per_note_controller::sound_controller_5", u32(midi::registered_per_note_controller::sound_controller_5), 0x4A },
    { "registered_per_note_controller::brightness", u32(midi::registered_per_note_controller::brightness), 0x4A },
    { "registered_per_note_controller::sound_controller_6", u32(midi::registered_per_note_controller::sound_controller_6), 0x4B },
    { "registered_per_note_controller::decay_time", u32(midi::registered_per_note_controller::decay_time), 0x4B },
    { "registered_per_note_controller::sound_controller_7", u32(midi::registered_per_note_controller::sound_controller_7), 0x4C },
    { "registered_per_note_controller::vibrato_rate", u32(midi::registered_per_note_controller::vibrato_rate), 0x4C },
    { "registered_per_note_controller::sound_controller_8", u32(midi::registered_per_note_controller::sound_controller_8), 0x4D },
    { "registered_per_note_controller::vibrato_depth", u32(midi::registered_per_note_controller::vibrato_depth), 0x4D },
    { "registered_per_note_controller::sound_controller_9", u32(midi::registered_per_note_controller::sound_controller_9), 0x4E },
    { "registered_per_note_controller::vibrato_delay", u32(midi::registered_per_note_controller::vibrato_delay), 0x4E },
    { "registered_per_note_controller::sound_controller_10", u32(midi::registered_per_note_controller::sound_controller_10), 0x4F },
    { "registered_per_note_controller::effects_1_depth", u32(midi::registered_per_note_controller::effects_1_depth), 0x5B },
    { "registered_per_note_controller::reverb_send_level", u32(midi::registered_per_note_controller::reverb_send_level), 0x5B },
    { "registered_per_note_controller::effects_2_depth", u32(midi::registered_per_note_controller::effects_2_depth), 0x5C },
    { "registered_per_note_controller::effects_3_depth", u32(midi::registered_per_note_controller::effects_3_depth), 0x5D },
    { "registered_per_note_controller::chorus_send_level", u32(midi::registered_per_note_controller::chorus_send_level), 0x5D },
    { "registered_per_note_controller::effects_4_depth", u32(midi::registered_per_note_controller::effects_4_depth), 0x5E },
    { "registered_per_note_controller::effects_5_depth", u32(midi::registered_per_note_controller::effects_5_depth), 0x5F },
    { "universal_sysex::type::sample_dump_header", u32(midi::universal_sysex::type::sample_dump_header), 0x7E01 },
    { "universal_sysex::type::sample_data_packet", u32(midi::universal_sysex::type::sample_data_packet), 0x7E02 },
    { "universal_sysex::type::sample_dump_request", u32(midi::universal_sysex::type::sample_dump_request), 0x7E03 },
    { "universal_sysex::type::midi_time_code_non_real_time", u32(midi::universal_sysex::type::midi_time_code_non_real_time), 0x7E04 },
    { "universal_sysex::type::sample_dump_extensions", u32(midi::universal_sysex::type::sample_dump_extensions), 0x7E05 },
    { "universal_sysex::type::general_information", u32(midi::universal_sysex::type::general_information), 0x7E06 },
    { "universal_sysex::type::file_dump", u32(midi::universal_sysex::type::file_dump), 0x7E07 },
    { "universal_sysex::type::midi_tuning_non_real_time", u32(midi::universal_sysex::type::midi_tuning_non_real_time), 0x7E08 },
    { "universal_sysex::type::general_midi", u32(midi::universal_sysex::type::general_midi), 0x7E09 },
    { "universal_sysex::type::downloadable_sounds", u32(midi::universal_sysex::type::downloadable_sounds), 0x7E0A },
    { "universal_sysex::type::file_reference_message", u32(midi::universal_sysex::type::file_reference_message), 0x7E0B },
    { "universal_sysex::type::midi_visual_control", u32(midi::universal_sysex::type::midi_visual_control), 0x7E0C },
    { "universal_sysex::type::capability_inquiry", u32(midi::universal_sysex::type::capability_inquiry), 0x7E0D },
    { "universal_sysex::type::end_of_file", u32(midi::universal_sysex::type::end_of_file), 0x7E7B },
    { "universal_sysex::type::wait", u32(midi::universal_sysex::type::wait), 0x7E7C },
    { "universal_sysex::type::cancel", u32(midi::universal_sysex::type::cancel), 0x7E7D },
    { "universal_sysex::type::nak", u32(midi::universal_sysex::type::nak), 0x7E7E },
    { "universal_sysex::type::ack", u32(midi::universal_sysex::type::ack), 0x7E7F },
    { "universal_sysex::type::midi_time_code_real_time", u32(midi::universal_sysex::type::midi_time_code_real_time), 0x7F01 },
    { "universal_sysex::type::midi_show_control", u32(midi::universal_sysex::type::midi_show_control), 0x7F02 },
    { "universal_sysex::type::notation_information", u32(midi::universal_sysex::type::notation_information), 0x7F03 },
    { "universal_sysex::type::device_control", u32(midi::universal_sysex::type::device_control), 0x7F04 },
    { "universal_sysex::type::real_time_mtc_cueing", u32(midi::universal_sysex::type::real_time_mtc_cueing), 0x7F05 },
    { "universal_sysex::type::midi_machine_control_commands", u32(midi::universal_sysex::type::midi_machine_control_commands), 0x7F06 },
    { "universal_sysex::type::midi_machine_control_responses", u32(midi::universal_sysex::type::midi_machine_control_responses), 0x7F07 },
    { "universal_sysex::type::midi_tuning_real_time", u32(midi::universal_sysex::type::midi_tuning_real_time), 0x7F08 },
    { "universal_sysex::type::controller_destination_setting", u32(midi::universal_sysex::type::controller_destination_setting), 0x7F09 },
    { "universal_sysex::type::none", u32(midi::universal_sysex::type::none), 0x0 },
    { "universal_sysex::subtype::identity_request", u32(midi::universal_sysex::subtype::identity_request), 0x1 },
    { "universal_sysex::subtype::identity_reply", u32(midi::universal_sysex::subtype::identity_reply), 0x2 },
    { "universal_sysex::subtype::gm_1_system_on", u32(midi::universal_sysex::subtype::gm_1_system_on), 0x1 },
    { "universal_sysex::subtype::gm_system_off", u32(midi::universal_sysex::subtype::gm_system_off), 0x2 },
    { "universal_sysex::subtype::gm_2_system_on", u32(midi::universal_sysex::subtype::gm_2_system_on), 0x3 },
    { "universal_sysex::subtype::mtc_full_message", u32(midi::universal_sysex::subtype::mtc_full_message), 0x1 },
    { "universal_sysex::subtype::mtc_user_bits", u32(midi::universal_sysex::subtype::mtc_user_bits), 0x2 },
    { "manufacturer::sequential_circuits", u32(midi::manufacturer::sequential_circuits), 0x10000 },
    { "manufacturer::moog", u32(midi::manufacturer::moog), 0x40000 },
    { "manufacturer::lexicon", u32(midi::manufacturer::lexicon), 0x60000 },
    { "manufacturer::kurzweil", u32(midi::manufacturer::kurzweil), 0x70000 },
    { "manufacturer::fender", u32(midi::manufacturer::fender), 0x80000 },
    { "manufacturer::oberheim", u32(midi::manufacturer::oberheim), 0x100000 },
    { "manufacturer::midi9", u32(midi::manufacturer::midi9), 0x90000 },
    { "manufacturer::simmons", u32(midi::manufacturer::simmons), 0x120000 },
    { "manufacturer::digidesign", u32(midi::manufacturer::digidesign), 0x130000 },
    { "manufacturer::fairlight", u32(midi::manufacturer::fairlight), 0x140000 },
    { "manufacturer::emu", u32(midi::manufacturer::emu), 0x180000 },
    { "manufacturer::hohner", u32(midi::manufacturer::hohner), 0x240000 },
    { "manufacturer::ppg", u32(midi::manufacturer::ppg), 0x290000 },
    { "manufacturer::wersi", u32(midi::manufacturer::wersi), 0x3B0000 },
    { "manufacturer::waldorf", u32(midi::manufacturer::waldorf), 0x3E0000 },
    { "manufacturer::kawai", u32(midi::manufacturer::kawai), 0x400000 },
    { "manufacturer::roland", u32(midi::manufacturer::roland), 0x410000 },
    { "manufacturer::korg", u32(midi::manufacturer::korg), 0x420000 },
    { "manufacturer::yamaha", u32(midi::manufacturer::yamaha), 0x430000 },
    { "manufacturer::casio", u32(midi::manufacturer::casio), 0x440000 },
    { "manufacturer::akai", u32(midi::manufacturer::akai), 0x450000 },
    { "manufacturer::fujitsu", u32(midi::manufacturer::fujitsu), 0x4B0000 },
    { "manufacturer::sony", u32(midi::manufacturer::sony), 0x4C0000 },
    { "manufacturer::teac", u32(midi::manufacturer::teac), 0x4E0000 },
    { "manufacturer::fostex", u32(midi::manufacturer::fostex), 0x510000 },
    { "manufacturer::zoom", u32(midi::manufacturer::zoom), 0x520000 },
    { "manufacturer::suzuki", u32(midi::manufacturer::suzuki), 0x550000 },
    { "manufacturer::educational", u32(midi::manufacturer::educational), 0x7D0000 },
    { "manufacturer::universal_non_realtime", u32(midi::manufacturer::universal_non_realtime), 0x7E0000 },
    { "manufacturer::universal_realtime", u32(midi::manufacturer::universal_realtime), 0x7F0000 },
    { "manufacturer::rane", u32(midi::manufacturer::rane), 0x17 },
    { "manufacturer::allen_heath", u32(midi::manufacturer::allen_heath), 0x1A },
    { "manufacturer::motu", u32(midi::manufacturer::motu), 0x3B },
    { "manufacturer::atari", u32(midi::manufacturer::atari), 0x58 },
    { "manufacturer::mackie", u32(midi::manufacturer::mackie), 0x66 },
    { "manufacturer::amd", u32(midi::manufacturer::amd), 0x6F },
    { "manufacturer::m_audio", u32(midi::manufacturer::m_audio), 0x105 },
    { "manufacturer::microsoft", u32(midi::manufacturer::microsoft), 0x10A },
    { "manufacturer::line6", u32(midi::manufacturer::line6), 0x10C },
    { "manufacturer::cakewalk", u32(midi::manufacturer::cakewalk), 0x121 },
    { "manufacturer::numark", u32(midi::manufacturer::numark), 0x13F },
    { "manufacturer::denon", u32(midi::manufacturer::denon), 0x20B },
    { "manufacturer::google", u32(midi::manufacturer::google), 0x20D },
    { "manufacturer::imitone", u32(midi::manufacturer::imitone), 0x213 },
    { "manufacturer::universal_audio", u32(midi::manufacturer::universal_audio), 0x218 },
    { "manufacturer::sensel", u32(midi::manufacturer::sensel), 0x21D },
    { "manufacturer::mk2_image", u32(midi::manufacturer::mk2_image), 0x222 },
    { "manufacturer::bon_tempi", u32(midi::manufacturer::bon_tempi), 0x200B },
    { "manufacturer::fatar", u32(midi::manufacturer::fatar), 0x201A },
    { "manufacturer::pinnacle", u32(midi::manufacturer::pinnacle), 0x201E },
    { "manufacturer::tc_electronics", u32(midi::manufacturer::tc_electronics), 0x201F },
    { "manufacturer::doepfer", u32(midi::manufacturer::doepfer), 0x2020 },
    { "manufacturer::focusrite", u32(midi::manufacturer::focusrite), 0x2029 },
    { "manufacturer::novation", u32(midi::manufacturer::novation), 0x2029 },
    { "manufacturer::emagic", u32(midi::manufacturer::emagic), 0x2031 },
    { "manufacturer::behringer", u32(midi::manufacturer::behringer), 0x2032 },
    { "manufacturer::access", u32(midi::manufacturer::access), 0x2033 },
    { "manufacturer::terratec", u32(midi::manufacturer::terratec), 0x2036 },
    { "manufacturer::propellerhead", u32(midi::manufacturer::propellerhead), 0x203A },
    { "manufacturer::klavis", u32(midi::manufacturer::klavis), 0x2047 },
    { "manufacturer::vermona", u32(midi::manufacturer::vermona), 0x204D },
    { "manufacturer::nokia", u32(midi::manufacturer::nokia), 0x204E },
    { "manufacturer::hartmann", u32(midi::manufacturer::hartmann), 0x2050 },
    { "manufacturer::waves", u32(midi::manufacturer::waves), 0x2066 },
    { "manufacturer::arturia", u32(midi::manufacturer::arturia), 0x206B },
    { "manufacturer::hanpin", u32(midi::manufacturer::hanpin), 0x2079 },
    { "manufacturer::serato", u32(midi::manufacturer::serato), 0x207F },
    { "manufacturer::presonus", u32(midi::manufacturer::presonus), 0x2103 },
    { "manufacturer::native_instruments", u32(midi::manufacturer::native_instruments), 0x2109 },
    { "manufacturer::ploytec", u32(midi::manufacturer::ploytec), 0x210D },
    { "manufacturer::roli", u32(midi::manufacturer::roli), 0x2110 },
    { "manufacturer::ik_multimedia", u32(midi::manufacturer::ik_multimedia), 0x211A },
    { "manufacturer::ableton", u32(midi::manufacturer::ableton), 0x211D },
    { "manufacturer::bome", u32(midi::manufacturer::bome), 0x2132 },
    { "manufacturer::touchkeys", u32(midi::manufacturer::touchkeys), 0x2136 },
    { "note_management::reset", u32(midi::note_management::reset), 0x1 },
    { "note_management::detach", u32(midi::note_management::detach), 0x2 },
    { "note_management::detach_and_reset", u32(midi::note_management::detach_and_reset), 0x3 },
    { "note_attribute::none", u32(midi::note_attribute::none), 0x0 },
    { "note_attribute::manufacturer_specific", u32(midi::note_attribute::manufacturer_specific), 0x1 },
    { "note_attribute::profile_specific", u32(midi::note_attribute::profile_specific), 0x2 },
    { "note_attribute::pitch_7_9", u32(midi::note_attribute::pitch_7_9), 0x3 },
    { "discovery_filter::endpoint_info", u32(midi::discovery_filter::endpoint_info), 0x1 },
    { "discovery_filter::device_identity", u32(midi::discovery_filter::device_identity), 0x2 },
    { "discovery_filter::endpoint_name", u32(midi::discovery_filter::endpoint_name), 0x4 },
    { "discovery_filter::product_instance_id", u32(midi::discovery_filter::product_instance_id), 0x8 },
    { "discovery_filter::stream_configuration", u32(midi::discovery_filter::stream_configuration), 0x10 },
    { "discovery_filter::endpoint_all", u32(midi::discovery_filter::endpoint_all), 0x1F },
    { "discovery_filter::function_block_info", u32(midi::discovery_filter::function_block_info), 0x1 },
    { "discovery_filter::function_block_name", u32(midi::discovery_filter::function_block_name), 0x2 },
    { "discovery_filter::function_block_all", u32(midi::discovery_filter::function_block_all), 0x3 },
    { "ci::message_version_1", u32(midi::ci::message_version_1), 0x1 },
    { "ci::message_version_2", u32(midi::ci::message_version_2), 0x2 },
    { "ci::version", u32(midi::ci::version), 0x2 },
    { "ci::broadcast_muid", u32(midi::ci::broadcast_muid), 0xFFFFFFF },
    { "ci::category::profile_configuration", u32(midi::ci::category::profile_configuration), 0x4 },
    { "ci::category::property_exchange", u32(midi::ci::category::property_exchange), 0x8 },
    { "ci::category::process_inquiry", u32(midi::ci::category::process_inquiry), 0x10 },
    { "ci::subtype::discovery_inquiry", u32(midi::ci::subtype::discovery_inquiry), 0x70 },
    { "ci::subtype::discovery_reply", u32(midi::ci::subtype::discovery_reply), 0x71 },
    { "ci::subtype::endpoint_information_inquiry", u32(midi::ci::subtype::endpoint_information_inquiry), 0x72 },
    { "ci::subtype::endpoint_information_reply", u32(midi::ci::subtype::endpoint_information_reply), 0x73 },
    { "ci::subtype::ack", u32(midi::ci::subtype::ack), 0x7D },
    { "ci::subtype::invalidate_muid", u32(midi::ci::subtype::invalidate_muid), 0x7E },
    { "ci::subtype::nak", u32(midi::ci::subtype::nak), 0x7F },
    { "ci::subtype::profile_inquiry", u32(midi::ci::subtype::profile_inquiry), 0x20 },
    { "ci::subtype::profile_inquiry_reply", u32(midi::ci::subtype::profile_inquiry_reply), 0x21 },
    { "ci::subtype::set_profile_on", u32(midi::ci::subtype::set_profile_on), 0x22 },
    { "ci::subtype::set_profile_off", u32(midi::ci::subtype::set_profile_off), 0x23 },
    { "ci::subtype::profile_enabled", u32(midi::ci::subtype::profile_enabled), 0x24 },
    { "ci::subtype::profile_disabled", u32(midi::ci::subtype::profile_disabled), 0x25 },
    { "ci::subtype::profile_added", u32(midi::ci::subtype::profile_added), 0x26 },
    { "ci::subtype::profile_removed", u32(midi::ci::subtype::profile_removed), 0x27 },
    { "ci::subtype::profile_details_inquiry", u32(midi::ci::subtype::profile_details_inquiry), 0x28 },
    { "ci::subtype::profile_details_reply", u32(midi::ci::subtype::profile_details_reply), 0x29 },
    { "ci::subtype::profile_specific_data", u32(midi::ci::subtype::profile_specific_data), 0x2F },
    { "ci::subtype::property_exchange_capabilities_inquiry", u32(midi::ci::subtype::property_exchange_capabilities_inquiry), 0x30 },
    { "ci::subtype::property_exchange_capabilities_reply", u32(midi::ci::subtype::property_exchange_capabilities_reply), 0x31 },
    { "ci::subtype::get_property_data_inquiry", u32(midi::ci::subtype::get_property_data_inquiry), 0x34 },
    { "ci::subtype::get_property_data_reply", u32(midi::ci::subtype::get_property_data_reply), 0x35 },
    { "ci::subtype::set_property_data_inquiry", u32(midi::ci::subtype::set_property_data_inquiry), 0x36 },
    { "ci::subtype::set_property_data_reply", u32(midi::ci::subtype::set_property_data_reply), 0x37 },
    { "ci::subtype::subscription_inquiry", u32(midi::ci::subtype::subscription_inquiry), 0x38 },
    { "ci::subtype::subscription_reply", u32(midi::ci::subtype::subscription_reply), 0x39 },
    { "ci::subtype::notify", u32(midi::ci::subtype::notify), 0x3F },
    { "ci::property_exchange::version_major", u32(midi::ci::property_exchange::version_major), 0x0 },
    { "ci::property_exchange::version_minor", u32(midi::ci::property_exchange::version_minor), 0x0 },
    { "ci::subtype::process_inquiry_capabilities_inquiry", u32(midi::ci::subtype::process_inquiry_capabilities_inquiry), 0x40 },
    { "ci::subtype::process_inquiry_capabilities_reply", u32(midi::ci::subtype::process_inquiry_capabilities_reply), 0x41 },
    { "ci::subtype::midi_message_report_inquiry", u32(midi::ci::subtype::midi_message_report_inquiry), 0x42 },
    { "ci::subtype::midi_message_report_reply", u32(midi::ci::subtype::midi_message_report_reply), 0x43 },
    { "ci::subtype::midi_message_report_end", u32(midi::ci::subtype::midi_message_report_end), 0x44 },
    { "packet_type::utility", u32(midi::packet_type::utility), 0x0 },
    { "packet_type::system", u32(midi::packet_type::system), 0x1 },
    { "packet_type::midi1_channel_voice", u32(midi::packet_type::midi1_channel_voice), 0x2 },
    { "packet_type::data", u32(midi::packet_type::data), 0x3 },
    { "packet_type::midi2_channel_voice", u32(midi::packet_type::midi2_channel_voice), 0x4 },
    { "packet_type::extended_data", u32(midi::packet_type::extended_data), 0x5 },
    { "packet_type::flex_data", u32(midi::packet_type::flex_data), 0xD },
    { "packet_type::stream", u32(midi::packet_type::stream), 0xF },
    { "packet_format::complete", u32(midi::packet_format::complete), 0x0 },
    { "packet_format::start", u32(midi::packet_format::start), 0x1 },
    { "packet_format::cont", u32(midi::packet_format::cont), 0x2 },
    { "packet_format::end", u32(midi::packet_format::end), 0x3 },
    { "packet_address::channel", u32(midi::packet_address::channel), 0x0 },
    { "packet_address::group", u32(midi::packet_address::group), 0x1 },
    { "function_block_options::direction_input", u32(midi::function_block_options::direction_input), 0x1 },
    { "function_block_options::direction_output", u32(midi::function_block_options::direction_output), 0x2 },
    { "function_block_options::bidirectional", u32(midi::function_block_options::bidirectional), 0x3 },
    { "function_block_options::not_midi1", u32(midi::function_block_options::not_midi1), 0x0 },
    { "function_block_options::midi1_unrestricted", u32(midi::function_block_options::midi1_unrestricted), 0x1 },
    { "function_block_options::midi1_31250", u32(midi::function_block_options::midi1_31250), 0x2 },
    { "function_block_options::ui_hint_as_direction", u32(midi::function_block_options::ui_hint_as_direction), 0x0 },
    { "function_block_options::ui_hint_receiver", u32(midi::function_block_options::ui_hint_receiver), 0x1 },
    { "function_block_options::ui_hint_sender", u32(midi::function_block_options::ui_hint_sender), 0x2 },
    { "ci::profile_destination::group", u32(midi::ci::profile_destination::group), 0x7E },
    { "ci::profile_destination::function_block", u32(midi::ci::profile_destination::function_block), 0x7F },
    { "jr_clock_frequency", u32(midi::jr_clock_frequency), 0x7A12 },
    { "sysex7::uint7_max", u32(midi::sysex7::uint7_max), 0x7F },
    { "sysex7::uint14_max", u32(midi::sysex7::uint14_max), 0x3FFF },
    { "sysex7::uint28_max", u32(midi::sysex7::uint28_max), 0xFFFFFFF },
};
} // namespace names
