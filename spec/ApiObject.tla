-------------------------------- MODULE ApiObject --------------------------------
(* Streams, filters and trees (7.3.8, 7.4, 7.9.6, 7.9.7). *)
EXTENDS ApiBase

ObjectApi == [
    Stream |-> W("stream", <<>>,
      [
        filter |-> "Filter"],
      [
        decode_parms |-> <<"DecodeParms", "DecodeParms">>]),
    DecodeParms |-> W("dict", <<>>,
      [
        predictor |-> "Predictor", colors |-> "Colors",
        bits_per_component |-> "BitsPerComponent", columns |-> "Columns",
        early_change |-> "*", k |-> "K", end_of_line |-> "EndOfLine",
        encoded_byte_align |-> "EncodedByteAlign", rows |-> "Rows",
        end_of_block |-> "EndOfBlock", black_is_1 |-> "BlackIs1",
        damaged_rows_before_error |-> "DamagedRowsBeforeError",
        jbig2_globals |-> "JBIG2Globals", color_transform |-> "*",
        crypt_type |-> "*", name |-> "Name"],
      NoSub),
    NameTree |-> W("dict", <<>>, [limits |-> "*"],
      [kids |-> <<"Kids", "A">>, names |-> <<"Names", "NameTreeEntries">>]),
    NameTreeEntries |-> W("array", <<>>, [insert |-> "*"], NoSub),
    NumberTree |-> W("dict", <<>>, [limits |-> "Limits"],
      [kids |-> <<"Kids", "A">>, nums |-> <<"Nums", "NumberTreeEntries">>]),
    NumberTreeEntries |-> W("array", <<>>, [insert |-> "*"], NoSub)]

ObjectNames == [
    Filter_AsciiHexDecode |-> "ASCIIHexDecode",
    Filter_Ascii85Decode |-> "ASCII85Decode",
    Filter_LzwDecode |-> "LZWDecode", Filter_FlateDecode |-> "FlateDecode",
    Filter_RunLengthDecode |-> "RunLengthDecode",
    Filter_CcittFaxDecode |-> "CCITTFaxDecode",
    Filter_Jbig2Decode |-> "JBIG2Decode", Filter_DctDecode |-> "DCTDecode",
    Filter_JpxDecode |-> "JPXDecode", Filter_Crypt |-> "Crypt"]

ObjectInts == [
    Predictor_None |-> 1, Predictor_Tiff |-> 2, Predictor_PngNone |-> 10,
    Predictor_PngSub |-> 11, Predictor_PngUp |-> 12,
    Predictor_PngAverage |-> 13, Predictor_PngPaeth |-> 14,
    Predictor_PngOptimum |-> 15]
===============================================================================
