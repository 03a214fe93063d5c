mod common;
mod oracle;
mod rt;
mod body;
mod hdr;
mod tags;
mod values;
mod codec;
mod names;
mod policy;
mod keys;
mod sound;
mod sigout;
mod e2e;
mod robust;
mod stop;
mod transit;
mod alone;
mod print;
mod defaults;
mod blocks;
mod strict;
mod large;
mod history;
#[cfg(feature = "legacy")]
mod legacy;

fn main() {
    let table: &[(&str, extern "C" fn())] = &[
        ("h_body_simple", body::h_body_simple),
        ("h_body_relaxed", body::h_body_relaxed),
        ("h_body_chunks", body::h_body_chunks),
        ("h_body_runs", body::h_body_runs),
        ("h_body_scale", body::h_body_scale),
        ("h_hasher", body::h_hasher),
        ("h_hdr_canon", hdr::h_hdr_canon),
        ("h_hdr_equiv", hdr::h_hdr_equiv),
        ("h_hdr_select", hdr::h_hdr_select),
        ("h_hdr_datahash", hdr::h_hdr_datahash),
        ("h_field_name", hdr::h_field_name),
        ("h_field_name_eq", hdr::h_field_name_eq),
        ("h_field_body", hdr::h_field_body),
        ("h_header_block", hdr::h_header_block),
        ("h_header_block2", hdr::h_header_block2),
        ("h_taglist_any", tags::h_taglist_any),
        ("h_taglist_after", tags::h_taglist_after),
        ("h_taglist_utf8", tags::h_taglist_utf8),
        ("h_taglist_fws", tags::h_taglist_fws),
        ("h_taglist_sig", tags::h_taglist_sig),
        ("h_tag_duplicates", tags::h_tag_duplicates),
        ("h_tag_known_once", tags::h_tag_known_once),
        ("h_sig_v", values::h_sig_v),
        ("h_sig_a", values::h_sig_a),
        ("h_sig_c", values::h_sig_c),
        ("h_sig_b64", values::h_sig_b64),
        ("h_sig_h", values::h_sig_h),
        ("h_sig_number", values::h_sig_number),
        ("h_sig_x_after_t", values::h_sig_x_after_t),
        ("h_sig_q", values::h_sig_q),
        ("h_sig_z", values::h_sig_z),
        ("h_sig_i_local", values::h_sig_i_local),
        ("h_sig_i_domain", values::h_sig_i_domain),
        ("h_sig_names", values::h_sig_names),
        ("h_sig_required", values::h_sig_required),
        ("h_sig_salvage", values::h_sig_salvage),
        ("h_rec_v", values::h_rec_v),
        ("h_rec_k", values::h_rec_k),
        ("h_rec_h", values::h_rec_h),
        ("h_rec_s", values::h_rec_s),
        ("h_rec_t", values::h_rec_t),
        ("h_rec_n", values::h_rec_n),
        ("h_rec_p", values::h_rec_p),
        ("h_rec_required", values::h_rec_required),
        ("h_idna_model_deep", values::h_idna_model_deep),
        ("h_alg_names", values::h_alg_names),
        ("h_qp_decode", codec::h_qp_decode),
        ("h_qp_decode_utf8", codec::h_qp_decode_utf8),
        ("h_qp_roundtrip", codec::h_qp_roundtrip),
        ("h_qp_utf8", codec::h_qp_utf8),
        ("h_b64_decode", codec::h_b64_decode),
        ("h_b64_encode", codec::h_b64_encode),
        ("h_domain_new", names::h_domain_new),
        ("h_domain_len", names::h_domain_len),
        ("h_domain_relations", names::h_domain_relations),
        ("h_domain_idn", names::h_domain_idn),
        ("h_identity_new", names::h_identity_new),
        ("h_identity_len", names::h_identity_len),
        ("h_policy_required", policy::h_policy_required),
        ("h_policy_unsigned", policy::h_policy_unsigned),
        ("h_policy_from", policy::h_policy_from),
        ("h_time", policy::h_time),
        ("h_time_edge", policy::h_time_edge),
        ("h_lookup", policy::h_lookup),
        ("h_lookup_max", policy::h_lookup_max),
        ("h_lookup_errors", policy::h_lookup_errors),
        ("h_lookup_names", policy::h_lookup_names),
        ("h_lookup_name", policy::h_lookup_name),
        ("h_lookup_timeout", policy::h_lookup_timeout),
        ("h_class_format", policy::h_class_format),
        ("h_class_key", policy::h_class_key),
        ("h_lookup_pending", policy::h_lookup_pending),
        ("h_lookup_idn", policy::h_lookup_idn),
        ("h_lookup_answer", policy::h_lookup_answer),
        ("h_key_apply", keys::h_key_apply),
        ("h_key_strict", keys::h_key_strict),
        ("h_key_size", keys::h_key_size),
        ("h_key_multi", keys::h_key_multi),
        ("h_key_data", keys::h_key_data),
        ("h_key_data_ed", keys::h_key_data_ed),
        ("h_key_der", keys::h_key_der),
        ("h_pem", keys::h_pem),
        ("h_sound_body", sound::h_sound_body),
        ("h_sound_header", sound::h_sound_header),
        ("h_sound_fields", sound::h_sound_fields),
        ("h_sound_sigfield", sound::h_sound_sigfield),
        ("h_sound_b_value", sound::h_sound_b_value),
        ("h_sound_other_tag", sound::h_sound_other_tag),
        ("h_sound_hash_value", sound::h_sound_hash_value),
        ("h_sound_sig_bytes", sound::h_sound_sig_bytes),
        ("h_sound_length", sound::h_sound_length),
        ("h_sound_multi", sound::h_sound_multi),
        ("h_sound_self", sound::h_sound_self),
        ("h_request", sigout::h_request),
        ("h_request_format", sigout::h_request_format),
        ("h_request_names", sigout::h_request_names),
        ("h_request_identity", sigout::h_request_identity),
        ("h_request_count", sigout::h_request_count),
        ("h_request_duration", sigout::h_request_duration),
        ("h_e2e_content", e2e::h_e2e_content),
        ("h_e2e_select", e2e::h_e2e_select),
        ("h_e2e_names", e2e::h_e2e_names),
        ("h_e2e_length", e2e::h_e2e_length),
        ("h_e2e_time", e2e::h_e2e_time),
        ("h_e2e_format", e2e::h_e2e_format),
        ("h_e2e_width", e2e::h_e2e_width),
        ("h_e2e_ext", e2e::h_e2e_ext),
        ("h_e2e_multi", e2e::h_e2e_multi),
        ("h_e2e_copied", e2e::h_e2e_copied),
        ("h_e2e_large", e2e::h_e2e_large),
        ("h_rob_short", robust::h_rob_short),
        ("h_rob_mutated", robust::h_rob_mutated),
        ("h_rob_record", robust::h_rob_record),
        ("h_rob_numbers", robust::h_rob_numbers),
        ("h_rob_keydata", robust::h_rob_keydata),
        ("h_rob_text", robust::h_rob_text),
        ("h_rob_message", robust::h_rob_message),
        ("h_stop_verify", stop::h_stop_verify),
        ("h_stop_sign", stop::h_stop_sign),
        ("h_transit", transit::h_transit),
        ("h_transit_harm", transit::h_transit_harm),
        ("h_alone_verify", alone::h_alone_verify),
        ("h_alone_sign", alone::h_alone_sign),
        ("h_print_names", print::h_print_names),
        ("h_print_identity", print::h_print_identity),
        ("h_print_signature", print::h_print_signature),
        ("h_print_record", print::h_print_record),
        ("h_default_select", defaults::h_default_select),
        ("h_default_sign", defaults::h_default_sign),
        ("h_default_config", defaults::h_default_config),
        ("h_block_counter", blocks::h_block_counter),
        ("h_block_hashers", blocks::h_block_hashers),
        ("h_block_primitives", blocks::h_block_primitives),
        ("h_block_client", blocks::h_block_client),
        ("h_block_qp_section", blocks::h_block_qp_section),
        ("h_strict_policy", strict::h_strict_policy),
        ("h_strict_limit", strict::h_strict_limit),
        ("h_large_header", large::h_large_header),
        ("h_large_select", large::h_large_select),
        ("h_large_unsigned", large::h_large_unsigned),
        ("h_large_index", large::h_large_index),
        ("h_large_record", large::h_large_record),
        ("h_large_tags", large::h_large_tags),
        ("h_large_length", large::h_large_length),
        ("h_large_b", large::h_large_b),
        ("h_large_requests", large::h_large_requests),
        ("h_large_alone", large::h_large_alone),
        ("h_large_field", large::h_large_field),
        ("h_large_values", large::h_large_values),
        ("h_large_base64", large::h_large_base64),
        ("h_large_qp", large::h_large_qp),
        ("h_large_lookup", large::h_large_lookup),
        ("h_large_lists", large::h_large_lists),
        ("h_large_names", large::h_large_names),
        ("h_again_before", history::h_again_before),
        ("h_again_meanwhile", history::h_again_meanwhile),
        #[cfg(feature = "legacy")]
        ("h_legacy_policy", legacy::h_legacy_policy),
        #[cfg(feature = "legacy")]
        ("h_legacy_sound", legacy::h_legacy_sound),
        #[cfg(feature = "legacy")]
        ("h_legacy_sign", legacy::h_legacy_sign),
        #[cfg(feature = "legacy")]
        ("h_legacy_names", legacy::h_legacy_names),
    ];
    rt::replay_main(table);
}
