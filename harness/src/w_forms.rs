//! Interactive forms.

use crate::api::*;
use crate::cx::*;
use crate::val::*;
use crate::w::*;
use pdf_writer::types::*;
use pdf_writer::writers::*;
use pdf_writer::*;

walker! { w_form: Form<'_> as "Form" + dict {
    set fields(KRefs);
    set sig_flags(KFl<SigFlags>);
    set calculation_order(KRefs);
    sub default_resources() w_resources;
    set default_appearance(KStr);
    set quadding(KE<Quadding>);
}}
walker! { m_field: Field<'_> as "Field" + dict {
    set field_type(KE<FieldType>);
    set parent(KRef);
    set children(KRefs);
    set partial_name(KText);
    text alternate_name();
    set mapping_name(KText);
    set field_flags(KFl<FieldFlags>);
    sub additional_actions() w_additional_actions;
    set button_options(KTexts);
    set checkbox_value(KE<CheckBoxState>);
    set checkbox_default_value(KE<CheckBoxState>);
    set radio_value(KName);
    set radio_default_value(KName);
    set text_max_len(KInt);
    text text_value();
    text text_default_value();
    set vartext_default_appearance(KStr);
    set vartext_quadding(KE<Quadding>);
    set vartext_default_style(KText);
    text vartext_rich_value();
    sub choice_options() w_choice_options;
    set choice_top_index(KInt);
    set choice_indices(KInts);
    set choice_values(KTexts);
    set choice_default_values(KTexts);
    set signature_field_lock(KRef);
    set signature_seed_value(KRef);
    set choice_value(KOptText);
    set choice_default_value(KOptText);
}}
walker! { w_choice_options: ChoiceOptions<'_> as "ChoiceOptions" + array {
    text option();
    set options(KTexts);
    set export(KText, KText);
    set exports(KTextPairs);
}}
walker! { w_signature_field_lock: SignatureFieldLock<'_> as "SignatureFieldLock" + dict {
    set action(KE<SignatureLockAction>);
    set fields(KTexts);
    set access_permissions(KE<AccessPermissions>);
}}
walker! { w_signature_seed_value: SignatureSeedValue<'_> as "SignatureSeedValue" + dict {
    set constraint_flags(KFl<SignatureSeedValueFlags>);
    set filter(KName);
    set sub_filter(KNames);
    set version(KE<SeedValueParserVersion>);
    sub certificate() w_certificate_seed_value;
    set reasons(KTexts);
    sub modification_detection_prevention() w_signature_modification_detection_prevention;
    sub timestamp() w_signature_time_stamp;
    set legal_attestation(KTexts);
    set add_rev_info(KBool);
    set lock_document(KE<LockingIntent>);
    set appearance_filter(KText);
    set digest_method(KMany<KE<SignatureDigestMethod>>);
}}
walker! { w_signature_modification_detection_prevention: SignatureModificationDetectionPrevention<'_> as "SignatureModificationDetectionPrevention" + dict {
    set signature_type(KMdp);
}}
walker! { w_signature_time_stamp: SignatureTimeStamp<'_> as "SignatureTimeStamp" + dict {
    set url(KStr);
    set required(KBool);
}}
walker! { w_certificate_seed_value: CertificateSeedValue<'_> as "CertificateSeedValue" + dict {
    set constraint_flags(KFl<CertificateSeedValueFlags>);
    set subject(KStrs);
    set signature_policy_oid(KStr);
    set signature_policy_hash_value(KStr);
    set signature_policy_hash_algorithm(KName);
    set signature_policy_commitment_type(KStrs);
    sub subject_dn() a_dict;
    set issuer(KStrs);
    set oid(KStrs);
    set url(KStr);
    set key_usage(KMany<KUsage>);
    set url_type(KUrlType);
}}

/// A field, possibly turned into its annotation.
pub fn w_field(cx: &mut Cx, mut w: Field<'_>) {
    m_field(cx, &mut w);
    if cx.probe {
        return;
    }
    if cx.r.p(40) {
        cx.writer = "Field";
        cx.conv("into_annotation", &[]);
        let mut a = w.into_annotation();
        w_annotation(cx, &mut a);
        done(cx, a);
    } else {
        done(cx, w);
    }
}

enums! {
    FieldType: Button Text Choice Signature;
    CheckBoxState: Yes Off;
    Quadding: Left Center Right;
    SignatureLockAction: All Include Exclude;
    SignatureDigestMethod: SHA1 SHA256 SHA384 SHA512 RIPEMD160;
    SeedValueParserVersion: Pdf15 Pdf17 Pdf20;
    AccessPermissions: NoChanges FillAndSign Annotations;
    LockingIntent: Lock DoNotLock Auto;
}
flags! {
    SigFlags: SIGNATURES_EXIST APPEND_ONLY;
    SignatureSeedValueFlags: FILTER SUB_FILTER VERSION REASONS LEGAL_ATTESTATION ADD_REV_INFO DIGEST_METHOD LOCK_DOCUMENT APPEARANCE_FILTER;
    CertificateSeedValueFlags: SUBJECT ISSUER OID SUBJECT_DN KEY_USAGE URL;
    FieldFlags: READ_ONLY REQUIRED NO_EXPORT DO_NOT_SPELL_CHECK NO_TOGGLE_TO_OFF RADIO PUSHBUTTON RADIOS_IN_UNISON MULTILINE PASSWORD FILE_SELECT DO_NOT_SCROLL COMB RICH_TEXT COMBO EDIT SORT MULTI_SELECT COMMIT_ON_SEL_CHANGE;
}

pub const ROOTS: &[Root] = &[
    root!("Form" Form<'_>: w_form),
    chunk_root!(own form_field: w_field),
    root!("ChoiceOptions" ChoiceOptions<'_>: w_choice_options),
    chunk_root!(signature_field_lock: w_signature_field_lock),
    chunk_root!(signature_seed_value: w_signature_seed_value),
    root!("SignatureModificationDetectionPrevention" SignatureModificationDetectionPrevention<'_>: w_signature_modification_detection_prevention),
    root!("SignatureTimeStamp" SignatureTimeStamp<'_>: w_signature_time_stamp),
    root!("CertificateSeedValue" CertificateSeedValue<'_>: w_certificate_seed_value),
];
