-------------------------------- MODULE ApiForms --------------------------------
(* Interactive forms (12.7). *)
EXTENDS ApiBase

FormsApi == [
    Form |-> W("dict", <<>>,
      [
        fields |-> "Fields", sig_flags |-> "SigFlags",
        calculation_order |-> "CO", default_appearance |-> "DA",
        quadding |-> "Q"],
      [
        default_resources |-> <<"DR", "Resources">>]),
    Field |-> W("dict", <<>>,
      [
        field_type |-> "FT", parent |-> "Parent", children |-> "Kids",
        partial_name |-> "T", alternate_name |-> "TU", mapping_name |-> "TM",
        field_flags |-> "Ff", button_options |-> "Opt",
        checkbox_value |-> "V", checkbox_default_value |-> "DV",
        radio_value |-> "V", radio_default_value |-> "DV",
        text_max_len |-> "MaxLen", text_value |-> "V",
        text_default_value |-> "DV", vartext_default_appearance |-> "DA",
        vartext_quadding |-> "Q", vartext_default_style |-> "DS",
        vartext_rich_value |-> "RV", choice_top_index |-> "TI",
        choice_indices |-> "I", choice_value |-> "V", choice_values |-> "V",
        choice_default_value |-> "DV", choice_default_values |-> "DV",
        signature_field_lock |-> "Lock", signature_seed_value |-> "SV"],
      [
        additional_actions |-> <<"AA", "AdditionalActions">>,
        choice_options |-> <<"Opt", "ChoiceOptions">>]),
    ChoiceOptions |-> W("array", <<>>,
      [
        option |-> "*", options |-> "*", export |-> "*", exports |-> "*"],
      NoSub),
    SignatureFieldLock |-> W("dict", <<Key("Type", Name("SigFieldLock"))>>,
      [
        action |-> "Action", fields |-> "Fields", access_permissions |-> "P"],
      NoSub),
    SignatureSeedValue |-> W("dict", <<Key("Type", Name("SV"))>>,
      [
        constraint_flags |-> "Ff", filter |-> "Filter",
        sub_filter |-> "SubFilter", digest_method |-> "DigestMethod", version |-> "V",
        reasons |-> "Reasons", legal_attestation |-> "LegalAttestation",
        add_rev_info |-> "AddRevInfo", lock_document |-> "LockDocument",
        appearance_filter |-> "AppearanceFilter"],
      [
        certificate |-> <<"Cert", "CertificateSeedValue">>,
        modification_detection_prevention |-> <<"MDP", "SignatureModificationDetectionPrevention">>,
        timestamp |-> <<"TimeStamp", "SignatureTimeStamp">>]),
    SignatureModificationDetectionPrevention |-> W("dict", <<>>,
      [
        signature_type |-> "P"],
      NoSub),
    SignatureTimeStamp |-> W("dict", <<>>,
      [
        url |-> "URL", required |-> "*"],
      NoSub),
    CertificateSeedValue |-> W("dict", <<Key("Type", Name("SVCert"))>>,
      [
        constraint_flags |-> "Ff", subject |-> "Subject",
        signature_policy_oid |-> "SignaturePolicyOID",
        signature_policy_hash_value |-> "SignaturePolicyHashValue",
        signature_policy_hash_algorithm |-> "SignaturePolicyHashAlgorithm",
        signature_policy_commitment_type |-> "SignaturePolicyCommitmentType",
        key_usage |-> "KeyUsage", issuer |-> "Issuer", oid |-> "OID", url |-> "URL",
        url_type |-> "URLType"],
      [
        subject_dn |-> <<"SubjectDN", "A:Dict">>])]

FormsNames == [
    FieldType_Button |-> "Btn", FieldType_Text |-> "Tx",
    FieldType_Choice |-> "Ch", FieldType_Signature |-> "Sig",
    CheckBoxState_Yes |-> "Yes", CheckBoxState_Off |-> "Off",
    SignatureLockAction_All |-> "All",
    SignatureLockAction_Include |-> "Include",
    SignatureLockAction_Exclude |-> "Exclude",
    SignatureDigestMethod_SHA1 |-> "SHA1",
    SignatureDigestMethod_SHA256 |-> "SHA256",
    SignatureDigestMethod_SHA384 |-> "SHA384",
    SignatureDigestMethod_SHA512 |-> "SHA512",
    SignatureDigestMethod_RIPEMD160 |-> "RIPEMD160",
    LockingIntent_Lock |-> "true", LockingIntent_DoNotLock |-> "false",
    LockingIntent_Auto |-> "auto", CertificateUrlType_Browser |-> "Browser"]

FormsInts == [
    Quadding_Left |-> 0, Quadding_Center |-> 1, Quadding_Right |-> 2,
    SeedValueParserVersion_Pdf15 |-> 1, SeedValueParserVersion_Pdf17 |-> 2,
    SeedValueParserVersion_Pdf20 |-> 3, AccessPermissions_NoChanges |-> 1,
    AccessPermissions_FillAndSign |-> 2, AccessPermissions_Annotations |-> 3,
    MdpSignatureType_ApprovalSignature |-> 0, SigFlags_SIGNATURES_EXIST |-> 1,
    SigFlags_APPEND_ONLY |-> 2, SignatureSeedValueFlags_FILTER |-> 1,
    SignatureSeedValueFlags_SUB_FILTER |-> 2,
    SignatureSeedValueFlags_VERSION |-> 4,
    SignatureSeedValueFlags_REASONS |-> 8,
    SignatureSeedValueFlags_LEGAL_ATTESTATION |-> 16,
    SignatureSeedValueFlags_ADD_REV_INFO |-> 32,
    SignatureSeedValueFlags_DIGEST_METHOD |-> 64,
    SignatureSeedValueFlags_LOCK_DOCUMENT |-> 128,
    SignatureSeedValueFlags_APPEARANCE_FILTER |-> 256,
    CertificateSeedValueFlags_SUBJECT |-> 1,
    CertificateSeedValueFlags_ISSUER |-> 2,
    CertificateSeedValueFlags_OID |-> 4,
    CertificateSeedValueFlags_SUBJECT_DN |-> 8,
    CertificateSeedValueFlags_KEY_USAGE |-> 32,
    CertificateSeedValueFlags_URL |-> 64, FieldFlags_READ_ONLY |-> 1,
    FieldFlags_REQUIRED |-> 2, FieldFlags_NO_EXPORT |-> 4,
    FieldFlags_DO_NOT_SPELL_CHECK |-> 4194304,
    FieldFlags_NO_TOGGLE_TO_OFF |-> 16384, FieldFlags_RADIO |-> 32768,
    FieldFlags_PUSHBUTTON |-> 65536, FieldFlags_RADIOS_IN_UNISON |-> 33554432,
    FieldFlags_MULTILINE |-> 4096, FieldFlags_PASSWORD |-> 8192,
    FieldFlags_FILE_SELECT |-> 1048576, FieldFlags_DO_NOT_SCROLL |-> 8388608,
    FieldFlags_COMB |-> 16777216, FieldFlags_RICH_TEXT |-> 33554432,
    FieldFlags_COMBO |-> 131072, FieldFlags_EDIT |-> 262144,
    FieldFlags_SORT |-> 524288, FieldFlags_MULTI_SELECT |-> 2097152,
    FieldFlags_COMMIT_ON_SEL_CHANGE |-> 67108864]
===============================================================================
